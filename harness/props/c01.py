"""C01: saving a project and reading it back reproduces every value and the order."""
import copy
import os
import xml.etree.ElementTree as ET

import gen
import lib
import ref_yw7

LEVEL = 'exploration'
RULE = ('Random projects with hostile texts are (a) built through the object model and saved, (b) loaded from generated '
        'yWriter files and saved, (c) edited by random operation sequences between saves; a shadow copy kept by the '
        'harness is compared with an independent parse of the saved file and with a fresh read. Non-trivial: the '
        'project has at least one scene with text or one world element; distinct by content.')
ASSUMPTIONS = ['Text is XML-representable (no control characters, no lone surrogates) and uses \\n line breaks.',
               'Line breaks at the end of a text and a leading " \\n" are trimmed by design and ignored by the comparison.']


def blanks_only(p, rng):
    """Some of the multi-line texts consist of white space."""
    for e in [p, *p['chapters'].values(), *p['scenes'].values(), *p['characters'].values(), *p['locations'].values(), *p['items'].values(), *p['notes'].values()]:
        for k in ('desc', 'notes', 'bio', 'goals', 'goal', 'conflict', 'outcome', 'content'):
            if isinstance(e.get(k), str) and rng.random() < 0.04:
                e[k] = rng.choice([' ', '  ', '\t', '\u00a0', '\u2003 ', '  \n  '])
    return p


def apply_spec(novel, p):
    """Build the object model from a spec, as an application using the library does."""
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    from pywriter.model.character import Character
    from pywriter.model.world_element import WorldElement
    from pywriter.model.basic_element import BasicElement
    for k, a in ref_yw7.PROJECT_ATTRS.items():
        setattr(novel, a, p[k])
    for group, srt, cls, attrs in (('locations', 'srtLocations', WorldElement, ref_yw7.WORLD_ATTRS),
                                   ('items', 'srtItems', WorldElement, ref_yw7.WORLD_ATTRS),
                                   ('characters', 'srtCharacters', Character, ref_yw7.CHAR_ATTRS)):
        for i, e in p[group].items():
            o = cls()
            for k, a in attrs.items():
                setattr(o, a, copy.copy(e[k]))
            o.kwVar.update(e['kw'])
            getattr(novel, group)[i] = o
            getattr(novel, srt).append(i)
    for i, e in p['notes'].items():
        novel.projectNotes[i] = BasicElement()
        novel.projectNotes[i].title = e['title']
        novel.projectNotes[i].desc = e['desc']
        novel.srtPrjNotes.append(i)
    for i, s in p['scenes'].items():
        novel.scenes[i] = make_scene(Scene, s)
    for i, c in p['chapters'].items():
        o = Chapter()
        for k, a in ref_yw7.CHAPTER_ATTRS.items():
            setattr(o, a, copy.copy(c[k]))
        novel.chapters[i] = o
        novel.srtChapters.append(i)


def make_scene(cls, s):
    o = cls()
    for k, a in ref_yw7.SCENE_ATTRS.items():
        if k == 'content' and s[k] is None:
            continue
        setattr(o, a, copy.copy(s[k]))
    return o


def check_saved(ctx, path, exp, label, **replay):
    """Compare the file with the shadow: once by independent parse, once by the library's own reader."""
    data = lib.get(path)
    try:
        ref_yw7.strict_root(data)
        act = ref_yw7.parse(data)
    except ref_yw7.Malformed as ex:
        ctx.violation(f'{label}: the saved project is not well-formed XML: {ex}', file=data, **replay)
        return False
    ctx.event('file_parsed')
    d = ref_yw7.diff(exp, act, skip=('lang', 'country'))
    if d:
        ctx.violation(f'{label}: saved file differs from the project: {d[:4]}', file=data, **replay)
        return False
    f = lib.load(path)
    ctx.event('reread')
    d = ref_yw7.diff(exp, ref_yw7.extract(f.novel), skip=('lang', 'country'))
    if d:
        ctx.violation(f'{label}: re-read project differs: {d[:4]}', file=data, **replay)
        return False
    return True


def mutate(ctx, rng, f, p, dead):
    """One random edit, applied to the library's model and to the shadow spec alike."""
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    from pywriter.model.character import Character
    from pywriter.model.id_generator import create_id
    novel = f.novel
    ops = ['proj', 'proj', 'addchar', 'note']
    if p['scenes']:
        ops += ['scene'] * 6 + ['delscene', 'meta', 'links', 'when', 'when']
    if p['chapters']:
        ops += ['chapter', 'addscene', 'addscene', 'move', 'order', 'delchapter']
    ops += ['addchapter']
    if p['characters']:
        ops += ['char', 'delchar', 'charorder']
    op = rng.choice(ops)
    ctx.event(f'edit_{op}')
    h = gen.ALL

    def setboth(group, i, key, attr, value):
        p[group][i][key] = copy.copy(value)
        setattr(getattr(novel, group)[i], attr, copy.copy(value))

    if op == 'proj':
        k = rng.choice(['title', 'author', 'bio', 'desc', 'ft1', 'ft2', 'ft3', 'ft4'])
        v = gen.multi(rng, h) if k in ('bio', 'desc') else gen.line(rng, h)
        p[k] = v
        setattr(novel, ref_yw7.PROJECT_ATTRS[k], v)
        v = rng.randint(0, 99999)
        p['target'] = v
        novel.wordTarget = v
    elif op == 'scene':
        i = rng.choice(list(p['scenes']))
        k = rng.choice(['title', 'desc', 'content', 'notes', 'goal', 'conflict', 'outcome', 'image', 'ldays', 'lhours',
                        'lminutes', 'field1', 'field2', 'field3', 'field4', 'arcs'])
        if k.startswith(('l', 'field')):
            v = str(rng.randint(0, 50))
        elif k in ('title', 'image', 'arcs'):
            v = gen.line(rng, h)
        else:
            v = gen.multi(rng, h)
        if rng.random() < 0.15 and k not in ('title', 'arcs'):
            v = ''
        setboth('scenes', i, k, ref_yw7.SCENE_ATTRS[k], v)
    elif op == 'meta':
        i = rng.choice(list(p['scenes']))
        k = rng.choice(['append', 'reaction', 'subplot', 'noexport', 'status', 'mode', 'tags', 'type'])
        if k == 'status':
            v = rng.randint(1, 5)
        elif k == 'mode':
            v = rng.randint(0, 5)
        elif k == 'tags':
            v = gen.tags(rng, h) or []
        elif k == 'type':
            chap = [c for c in p['chapters'].values() if i in c['scenes']]
            if chap and chap[0]['type'] != 0:
                return
            v = rng.randint(0, 3)
        else:
            v = rng.random() < 0.5
        setboth('scenes', i, k, ref_yw7.SCENE_ATTRS[k], v)
    elif op == 'links':
        i = rng.choice(list(p['scenes']))
        g = rng.choice(['characters', 'locations', 'items'])
        pool = list(p[g])
        setboth('scenes', i, g, g, rng.sample(pool, rng.randint(0, len(pool))))
    elif op == 'when':
        i = rng.choice(list(p['scenes']))
        s = gen.scene(rng, h, [], [], [])
        # "None" means "leave alone": switch explicitly
        if s['date']:
            new = dict(date=s['date'], time=s['time'], day=None)
        elif s['day'] is not None or s['time'] is not None:
            new = dict(date=None, time=s['time'] or '00:00:00', day=s['day'] or '0')
        else:
            new = dict(date='', time='', day='')
        o = novel.scenes[i]
        o.date, o.time, o.day = new['date'], new['time'], new['day']
        p['scenes'][i].update(new)
    elif op == 'chapter':
        i = rng.choice(list(p['chapters']))
        k = rng.choice(['title', 'desc', 'level', 'suppress', 'nobreak', 'type'])
        if k == 'title':
            v = gen.line(rng, h)
            if v.startswith('@'):
                v = 'x' + v
        elif k == 'desc':
            v = gen.multi(rng, h)
        elif k == 'level':
            v = rng.randint(0, 1)
        elif k == 'type':
            v = rng.randint(0, 3)
        else:
            v = rng.random() < 0.5
            if k == 'suppress' and (p['chapters'][i]['title'] or '').startswith('@'):
                v = True
        setboth('chapters', i, k, ref_yw7.CHAPTER_ATTRS[k], v)
        if k == 'type' and v != 0:
            for s in p['chapters'][i]['scenes']:
                setboth('scenes', s, 'type', 'scType', v)
    elif op == 'addscene':
        c = rng.choice(list(p['chapters']))
        i = create_id(novel.scenes)
        if i in p['scenes']:
            ctx.violation(f'a fresh scene ID {i} is already in use', ids=list(p['scenes']))
            return
        if i in dead['scenes']:
            return  # known finding: see the probe below
        s = gen.scene(rng, h, list(p['characters']), list(p['locations']), list(p['items']))
        if p['chapters'][c]['type'] != 0:
            s['type'] = p['chapters'][c]['type']
        p['scenes'][i] = s
        novel.scenes[i] = make_scene(Scene, s)
        pos = rng.randint(0, len(p['chapters'][c]['scenes']))
        p['chapters'][c]['scenes'].insert(pos, i)
        novel.chapters[c].srtScenes.insert(pos, i)
    elif op == 'delscene':
        i = rng.choice(list(p['scenes']))
        del p['scenes'][i]
        del novel.scenes[i]
        dead['scenes'].add(i)
        for c in p['chapters']:
            if i in p['chapters'][c]['scenes']:
                p['chapters'][c]['scenes'].remove(i)
                novel.chapters[c].srtScenes.remove(i)
    elif op == 'move':
        a, b = rng.choice(list(p['chapters'])), rng.choice(list(p['chapters']))
        if p['chapters'][a]['scenes'] and a != b and p['chapters'][b]['type'] == 0:
            i = rng.choice(p['chapters'][a]['scenes'])
            p['chapters'][a]['scenes'].remove(i)
            novel.chapters[a].srtScenes.remove(i)
            pos = rng.randint(0, len(p['chapters'][b]['scenes']))
            p['chapters'][b]['scenes'].insert(pos, i)
            novel.chapters[b].srtScenes.insert(pos, i)
    elif op == 'order':
        order = list(p['chapters'])
        rng.shuffle(order)
        p['chapters'] = {i: p['chapters'][i] for i in order}
        novel.srtChapters[:] = order
    elif op == 'delchapter':
        i = rng.choice(list(p['chapters']))
        for s in p['chapters'][i]['scenes']:
            del p['scenes'][s]
            del novel.scenes[s]
            dead['scenes'].add(s)
        del p['chapters'][i]
        dead['chapters'].add(i)
        del novel.chapters[i]
        novel.srtChapters.remove(i)
    elif op == 'addchapter':
        i = create_id(novel.chapters)
        if i in dead['chapters']:
            return
        c = dict(title='x' + gen.line(rng, h), desc=gen.multi(rng, h), level=rng.randint(0, 1),
                 type=0, suppress=False, nobreak=False, trash=False, scenes=[])
        o = Chapter()
        for k, a in ref_yw7.CHAPTER_ATTRS.items():
            setattr(o, a, copy.copy(c[k]))
        pos = rng.randint(0, len(p['chapters']))
        order = list(p['chapters'])
        order.insert(pos, i)
        p['chapters'][i] = c
        p['chapters'] = {x: p['chapters'][x] for x in order}
        novel.chapters[i] = o
        novel.srtChapters.insert(pos, i)
    elif op == 'char':
        i = rng.choice(list(p['characters']))
        k = rng.choice(['title', 'desc', 'aka', 'tags', 'notes', 'bio', 'goals', 'fullName', 'major', 'image'])
        if k == 'tags':
            v = gen.tags(rng, h) or []
        elif k == 'major':
            v = rng.random() < 0.5
        else:
            v = gen.line(rng, h) if k in ('title', 'aka', 'fullName', 'image') else gen.multi(rng, h)
        setboth('characters', i, k, ref_yw7.CHAR_ATTRS[k], v)
    elif op == 'addchar':
        i = create_id(novel.characters)
        e = gen.character(rng, h)
        o = Character()
        for k, a in ref_yw7.CHAR_ATTRS.items():
            setattr(o, a, copy.copy(e[k]))
        o.kwVar.update(e['kw'])
        p['characters'][i] = e
        novel.characters[i] = o
        novel.srtCharacters.append(i)
    elif op == 'delchar':
        i = rng.choice(list(p['characters']))
        del p['characters'][i]
        del novel.characters[i]
        novel.srtCharacters.remove(i)
        for s in p['scenes']:
            if p['scenes'][s]['characters'] and i in p['scenes'][s]['characters']:
                p['scenes'][s]['characters'].remove(i)
                novel.scenes[s].characters.remove(i)
    elif op == 'charorder':
        order = list(p['characters'])
        rng.shuffle(order)
        p['characters'] = {i: p['characters'][i] for i in order}
        novel.srtCharacters[:] = order
    elif op == 'note':
        from pywriter.model.basic_element import BasicElement
        i = create_id(novel.srtPrjNotes)
        p['notes'][i] = dict(title=gen.line(rng, h), desc=gen.multi(rng, h))
        novel.projectNotes[i] = BasicElement()
        novel.projectNotes[i].title = p['notes'][i]['title']
        novel.projectNotes[i].desc = p['notes'][i]['desc']
        novel.srtPrjNotes.append(i)


def attribute_cases():
    """(group, spec key, attribute, kind) for everything that can be set."""
    for k, a in ref_yw7.PROJECT_ATTRS.items():
        yield 'project', k, a, 'int' if k in ('target', 'start') else 'text'
    for k, a in ref_yw7.SCENE_ATTRS.items():
        if k in ('date', 'time', 'day'):
            continue
        kind = ('type' if k == 'type' else 'status' if k == 'status' else 'int' if k == 'mode' else 'tags' if k == 'tags'
                else 'bool' if k in ('noexport', 'append', 'reaction', 'subplot')
                else 'links' if k in ('characters', 'locations', 'items') else 'text')
        yield 'scenes', k, a, kind
    for k, a in ref_yw7.CHAPTER_ATTRS.items():
        if k == 'scenes':
            continue
        yield 'chapters', k, a, ('level' if k == 'level' else 'type' if k == 'type'
                                 else 'bool' if k in ('suppress', 'nobreak', 'trash') else 'text')
    for group, attrs in (('characters', ref_yw7.CHAR_ATTRS), ('locations', ref_yw7.WORLD_ATTRS), ('items', ref_yw7.WORLD_ATTRS)):
        for k, a in attrs.items():
            yield group, k, a, 'tags' if k == 'tags' else 'bool' if k == 'major' else 'text'


def attribute_values(rng, kind, pool, h):
    """Set, changed, cleared, set again."""
    def text():
        return 'x' + gen.multi(rng, h)
    if kind == 'text':
        a, b, empty = text(), text(), ''
    elif kind == 'int':
        a, b, empty = rng.randint(1, 9), rng.randint(10, 999), 0
    elif kind == 'status':
        a, b, empty = 2, 5, 1
    elif kind == 'type':
        a, b, empty = rng.randint(1, 3), rng.randint(1, 3), 0
    elif kind == 'level':
        a, b, empty = 1, 0, 1
    elif kind == 'bool':
        a, b, empty = True, False, False
    elif kind == 'tags':
        a, b, empty = gen.tags(rng, h, (1, 3)) or ['a'], ['b', 'c d'], []
    else:
        a, b, empty = pool[:2], pool[1:], []
    values = [a, b, empty, a, empty, b]
    return values if rng.random() < 0.6 else [empty, a, empty]


def attribute_run(ctx, i, rng, reopen):
    """Every attribute of every kind of element goes through set, change, clear, set again, each followed by a save."""
    gen.reset()
    p = gen.project(rng, size='m', chtypes=(0,), trash=False)
    for g in ('characters', 'locations', 'items'):
        while len(p[g]) < 3:
            p[g][str(700 + len(p[g]))] = (gen.character if g == 'characters' else gen.world)(rng, gen.ALL)
    if not p['scenes']:
        p['scenes']['801'] = gen.scene(rng, gen.ALL, [], [], [], types=(0,))
        list(p['chapters'].values())[0]['scenes'].append('801')
    for c in p['chapters'].values():
        if c['title'] and c['title'].startswith('@'):
            c['title'], c['suppress'] = 'x' + c['title'], False
    d = ctx.dir()
    path = os.path.join(d, 'novel.yw7')
    text = gen.build_xml(p, rng, dict(counts=rng.random() < 0.5))
    lib.put(path, text)
    shadow = ref_yw7.parse(text.encode('utf-8'))
    f = lib.load(path)
    owners = {}
    plan = []
    for group, k, a, kind in attribute_cases():
        owner = None if group == 'project' else rng.choice(list(shadow[group]))
        pool = list(shadow[k]) if kind == 'links' else None
        plan.append((group, owner, k, a, attribute_values(rng, kind, pool, gen.ALL)))
        owners.setdefault((group, k), owner)
    for step in range(max(len(x[4]) for x in plan)):
        for group, owner, k, a, values in plan:
            if step >= len(values):
                continue
            v = values[step]
            if group == 'project':
                shadow[k] = copy.copy(v)
                setattr(f.novel, a, copy.copy(v))
            else:
                shadow[group][owner][k] = copy.copy(v)
                setattr(getattr(f.novel, group)[owner], a, copy.copy(v))
            ctx.event('attribute_set')
        # scenes take the type of a chapter that is not normal
        for c, ch in shadow['chapters'].items():
            if ch['type'] != 0:
                for s in ch['scenes']:
                    shadow['scenes'][s]['type'] = ch['type']
                    f.novel.scenes[s].scType = ch['type']
        f.write()
        ctx.event('save')
        ctx.evaluated(('attr', i, step), True)
        if not check_saved(ctx, path, shadow, f'attributes/{i} step {step}', xml=text, expected=shadow):
            break
        if reopen and rng.random() < 0.7:
            f = lib.load(path)
    ctx.drop(d)


def sparse_run(ctx, i, rng):
    """Objects of which an application sets only a few attributes: the others have the defaults of the format."""
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    from pywriter.model.character import Character
    from pywriter.model.world_element import WorldElement
    from pywriter.model.basic_element import BasicElement
    gen.reset()
    p = gen.project(rng, chtypes=(0, 0, 0, 1, 2, 3), trash=False)
    default = dict(type=0, level=0)
    keep = rng.choice([0, 0.15, 0.5])
    d = ctx.dir()
    path = os.path.join(d, 'novel.yw7')
    f = lib.new_file(path)
    exp = copy.deepcopy(p)

    def fill(o, attrs, spec, exp, always=()):
        for k, a in attrs.items():
            if k == 'content' and spec[k] is None:
                continue
            if k in always or rng.random() < keep:
                setattr(o, a, copy.copy(spec[k]))
            else:
                exp[k] = default.get(k)
                ctx.event('attribute_left_unset')

    fill(f.novel, ref_yw7.PROJECT_ATTRS, p, exp)
    for group, srt, cls, attrs in (('locations', 'srtLocations', WorldElement, ref_yw7.WORLD_ATTRS),
                                   ('items', 'srtItems', WorldElement, ref_yw7.WORLD_ATTRS),
                                   ('characters', 'srtCharacters', Character, ref_yw7.CHAR_ATTRS)):
        for n, e in p[group].items():
            getattr(f.novel, group)[n] = cls()
            getattr(f.novel, srt).append(n)
            fill(getattr(f.novel, group)[n], attrs, e, exp[group][n])
            exp[group][n]['kw'] = {}
    for n, e in p['notes'].items():
        f.novel.projectNotes[n] = BasicElement()
        f.novel.srtPrjNotes.append(n)
        fill(f.novel.projectNotes[n], dict(title='title', desc='desc'), e, exp['notes'][n])
    for n, s in p['scenes'].items():
        f.novel.scenes[n] = Scene()
        fill(f.novel.scenes[n], ref_yw7.SCENE_ATTRS, s, exp['scenes'][n])
        e = exp['scenes'][n]
        if not e['date'] or not e['time']:
            # A date needs a time
            for k, a in (('date', 'date'), ('time', 'time'), ('day', 'day')):
                e[k] = None
                setattr(f.novel.scenes[n], a, None)
    for n, c in p['chapters'].items():
        f.novel.chapters[n] = Chapter()
        f.novel.srtChapters.append(n)
        fill(f.novel.chapters[n], ref_yw7.CHAPTER_ATTRS, c, exp['chapters'][n], always=('scenes',))
        if (exp['chapters'][n]['title'] or '').startswith('@'):
            # the old way of suppressing a title
            exp['chapters'][n]['suppress'] = True
    for c in exp['chapters'].values():
        if c['type'] != 0:
            for s in c['scenes']:
                exp['scenes'][s]['type'] = c['type']
    f.write()
    ctx.evaluated(('sparse', i), True)
    check_saved(ctx, path, exp, f'sparse/{i}', expected=exp)
    ctx.drop(d)


WHEN = {
    # (date, time, day); empty strings clear, None leaves alone
    'none': lambda r: ('', '', ''),
    'date': lambda r: (f'{r.randint(1, 2999):04}-{r.randint(1, 12):02}-{r.randint(1, 28):02}',
                       f'{r.randint(0, 23):02}:{r.randint(0, 59):02}:{r.randint(0, 59):02}', None),
    'minutes': lambda r: (f'{r.randint(1, 2999):04}-{r.randint(1, 12):02}-{r.randint(1, 28):02}', f'{r.randint(0, 23):02}:{r.randint(0, 59):02}', None),
    'empty': lambda r: (None, '', ''),
    'day': lambda r: (None, '', str(r.randint(0, 99))),
    'daytime': lambda r: (None, f'{r.randint(0, 23):02}:{r.randint(0, 59):02}:00', str(r.randint(0, 99))),
    'time': lambda r: (None, f'{r.randint(0, 23):02}:{r.randint(0, 59):02}:00', ''),
    }


def when_run(ctx, i, rng):
    """Scene start data: every transition between the ways to tell when a scene happens."""
    gen.reset()
    d = ctx.dir()
    path = os.path.join(d, 'novel.yw7')
    p = gen.project(rng, size='s', chtypes=(0,))
    p['scenes']['801'] = gen.scene(rng, [], [], [], [], types=(0,))
    list(p['chapters'].values())[0]['scenes'].append('801')
    p['scenes']['801'].update(date=None, time=None, day=None)
    text = gen.build_xml(p, rng)
    lib.put(path, text)
    shadow = ref_yw7.parse(text.encode('utf-8'))
    f = lib.load(path)
    kinds = list(WHEN)
    walk = [rng.choice(kinds) for __ in range(14)]
    for a in kinds:
        for b in kinds:
            walk += [a, b]
    prev = 'none'
    for step, kind in enumerate(walk):
        date, time, day = WHEN[kind](rng)
        o = f.novel.scenes['801']
        o.date, o.time, o.day = date, time, day
        if kind == 'empty':
            date = ''
        elif kind == 'minutes':
            time += ':00'
        shadow['scenes']['801'].update(date=date, time=time, day=day)
        f.write()
        ctx.event('when_transition')
        ctx.evaluated(('when', prev, kind), True)
        if not check_saved(ctx, path, shadow, f'when/{i} {prev} -> {kind}', expected=shadow):
            break
        tags = {e.tag for x in ET.fromstring(lib.get(path)).iter('SCENE') if x.findtext('ID') == '801' for e in x}
        wrong = tags & {'none': {'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute'}, 'empty': {'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute'},
                        'date': {'Day', 'Hour', 'Minute'}, 'minutes': {'Day', 'Hour', 'Minute'}}.get(kind, {'SpecificDateTime', 'SpecificDateMode'})
        if wrong:
            ctx.violation(f'when/{i} {prev} -> {kind}: the saved scene still has {sorted(wrong)}', file=lib.get(path))
            break
        prev = kind
        if rng.random() < 0.5:
            f = lib.load(path)
    ctx.drop(d)


FIELD_LEVELS = {'PRJ_KWVAR': (None, 'PROJECT'), 'CHP_KWVAR': ('chapters', 'CHAPTER'), 'SCN_KWVAR': ('scenes', 'SCENE'), 'CRT_KWVAR': ('characters', 'CHARACTER'),
                'LOC_KWVAR': ('locations', 'LOCATION'), 'ITM_KWVAR': ('items', 'ITEM'), 'PNT_KWVAR': ('projectNotes', 'PROJECTNOTE')}


def custom_run(ctx, i, rng):
    """Custom fields of an application, on every level: set, changed, cleared, set again."""
    from pywriter.yw.yw7_file import Yw7File

    class App(Yw7File):
        pass

    extra = ['Field_One', 'Field_Two', 'Field_ArcDefinition', 'Field_Color'][:rng.randint(1, 4)]
    for name in FIELD_LEVELS:
        setattr(App, name, [x for x in getattr(Yw7File, name) if x not in extra] + extra)
    gen.reset()
    p = gen.project(rng, size='m', chtypes=(0, 0, 0, 1, 2, 3))
    for e in list(p['characters'].values()) + list(p['locations'].values()) + list(p['items'].values()):
        e['kw'] = {}
    p['notes'].setdefault('901', dict(title='Note', desc='x'))
    d = ctx.dir()
    path = os.path.join(d, 'novel.yw7')
    text = gen.build_xml(p, rng)
    lib.put(path, text)
    shadow = ref_yw7.parse(text.encode('utf-8'))
    f = lib.load(path, cls=App)
    want = {}
    for step in range(5):
        for name, (group, tag) in FIELD_LEVELS.items():
            owners = {None: f.novel} if group is None else getattr(f.novel, group)
            for k, o in owners.items():
                for field in extra:
                    r = rng.random()
                    if r < 0.4:
                        v = rng.choice([gen.line(rng, gen.ALL) or 'x', '0', 'x']).strip() or 'x'
                    elif r < 0.6:
                        v = rng.choice([None, ''])
                    else:
                        continue
                    o.kwVar[field] = v
                    want[(tag, k, field)] = v
                    ctx.event('custom_field_set' if v else 'custom_field_cleared')
        f.write()
        ctx.evaluated(('custom', i, step), True)
        label = f'custom/{i} step {step}'
        if not check_saved(ctx, path, shadow, label, xml=text, expected=shadow):
            break
        data = lib.get(path)
        root = ET.fromstring(data)
        g = lib.load(path, cls=App)
        bad = []
        for (tag, k, field), v in want.items():
            elements = [e for e in root.iter(tag) if k is None or e.findtext('ID') == k]
            have = [x.text for e in elements for x in e.findall(f'Fields/{field}') if x.text]
            if [ref_yw7.norm_text(x) for x in have] != ([ref_yw7.norm_text(v)] if v else []):
                bad.append(f'{tag} {k} {field}: {have} instead of {v!r} in the file')
            group = next(x for x, t in FIELD_LEVELS.values() if t == tag)
            o = g.novel if group is None else getattr(g.novel, group)[k]
            if ref_yw7.norm_text(o.kwVar.get(field) or '') != ref_yw7.norm_text(v or ''):
                bad.append(f'{tag} {k} {field}: {o.kwVar.get(field)!r} instead of {v!r} read back')
        for e in root.iter():
            if len(e.findall('Fields')) > 1:
                bad.append(f'{e.tag} {e.findtext("ID")} has several lists of fields')
        if bad:
            ctx.violation(f'{label}: {bad[:4]}', xml=text, file=data)
            break
        if rng.random() < 0.5:
            f = g
    ctx.drop(d)


def interesting(p):
    return bool(p['scenes'] or p['characters'] or p['locations'] or p['items'])


def probe_recycled_id(ctx):
    """A scene is deleted, and a new one gets its ID before the project is saved."""
    from pywriter.model.scene import Scene
    from pywriter.model.chapter import Chapter
    from pywriter.model.id_generator import create_id
    d = ctx.dir()
    path = os.path.join(d, 'novel.yw7')
    f = lib.new_file(path)
    f.novel.chapters['1'] = Chapter()
    f.novel.srtChapters.append('1')
    f.novel.chapters['1'].srtScenes.append('1')
    f.novel.scenes['1'] = Scene()
    f.novel.scenes['1'].title = 'Old'
    f.novel.scenes['1'].desc = 'Old description'
    f.write()
    f = lib.load(path)
    del f.novel.scenes['1']
    i = create_id(f.novel.scenes)
    f.novel.scenes[i] = Scene()
    f.novel.scenes[i].title = 'New'
    f.novel.chapters['1'].srtScenes[:] = [i]
    f.write()
    got = lib.parse_file(path)['scenes'][i]
    ctx.probe('recycled-scene-id', got['title'] == 'New' and got['desc'] is not None,
              'a scene created after deleting another one inherits the deleted scene\'s data if it gets its ID '
              'before the project is saved', got=got)
    ctx.drop(d)


def run(ctx):
    # (a) a project created through the object model
    for i, rng in ctx.cases('create', 120, 1500):
        gen.reset()
        p = blanks_only(gen.project(rng, size=gen.size(rng, i, [None])), rng)
        d = ctx.dir()
        path = os.path.join(d, 'novel.yw7')
        f = lib.new_file(path)
        apply_spec(f.novel, p)
        f.write()
        check_saved(ctx, path, p, f'create/{i}', spec=p)
        ctx.evaluated(p, interesting(p))
        ctx.sample({'workload': 'create', 'project': p['title'], 'scenes': len(p['scenes'])}, 1)
        ctx.drop(d)

    # (b) a yWriter file loaded and saved, twice
    for i, rng in ctx.cases('resave', 120, 1500):
        gen.reset()
        p = blanks_only(gen.project(rng, size=gen.size(rng, i, [None])), rng)
        style = dict(mixed=rng.random() < 0.5, counts=rng.random() < 0.5)
        text = gen.build_xml(p, rng, style)
        d = ctx.dir()
        path = os.path.join(d, 'novel.yw7')
        lib.put(path, text)
        exp = ref_yw7.parse(text.encode('utf-8'))
        f = lib.load(path)
        f.write()
        ok = check_saved(ctx, path, exp, f'resave/{i}', xml=text)
        if ok:
            f.write()
            check_saved(ctx, path, exp, f'resave-again/{i}', xml=text)
        ctx.evaluated(p, interesting(p))
        ctx.drop(d)

    # (c) histories: edits and saves on one open project, and across re-opened ones
    for i, rng in ctx.cases('history', 60, 900):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['e', 's', 'm']))
        d = ctx.dir()
        path = os.path.join(d, 'novel.yw7')
        text = gen.build_xml(p, rng, dict(counts=rng.random() < 0.5))
        lib.put(path, text)
        shadow = ref_yw7.parse(text.encode('utf-8'))
        f = lib.load(path)
        dead = dict(scenes=set(), chapters=set())
        for step in range(rng.randint(2, 5)):
            for __ in range(rng.randint(1, 6)):
                mutate(ctx, rng, f, shadow, dead)
            f.write()
            dead = dict(scenes=set(), chapters=set())
            ctx.event('save')
            ctx.evaluated((i, step, shadow), interesting(shadow))
            if not check_saved(ctx, path, shadow, f'history/{i} step {step}', xml=text, expected=shadow):
                break
            if rng.random() < 0.4:
                f = lib.load(path)
        ctx.sample({'workload': 'history', 'scenes': list(shadow['scenes'])}, 2)
        ctx.drop(d)
    for i, rng in ctx.cases('sparse', 40, 500):
        sparse_run(ctx, i, rng)
    # (d) every attribute set, changed, cleared and set again
    for i, rng in ctx.cases('attributes', 16, 250):
        attribute_run(ctx, i, rng, i % 2)
    for i, rng in ctx.cases('when', 3, 20):
        when_run(ctx, i, rng)
    for i, rng in ctx.cases('custom', 12, 200):
        custom_run(ctx, i, rng)
    probe_recycled_id(ctx)
    ctx.require('custom_field_set', 500)
    ctx.require('custom_field_cleared', 100)
    ctx.require('when_transition', 100)
    ctx.require('attribute_set', 1000)
    ctx.require('file_parsed', 100)
    ctx.require('reread', 100)
    ctx.require('save', 50)
