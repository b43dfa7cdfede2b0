"""Generators of hostile project data ("specs") and of yWriter project files.

A spec is plain data, independent of the library:
  title author bio desc ft1..ft4 target start
  locations/items: {id: {title image desc aka tags kw}}      (insertion order = project order)
  characters:      {id: {... notes bio goals fullName major}}
  notes:           {id: {title desc}}
  vars:            [(id, title, desc)]
  scenes:          {id: {...}}     chapters: {id: {... scenes: [id]}}
"""
import itertools
import re

XML = ['&', '<', '>', '"', "'", '&amp;', '&lt;', '&#65;', '&copy', '<Title>', '</Desc>', '<![CDATA[',
       ']]>', ']]', '[CDATA[', '<br/>', '&quot;', '<!--', '-->', 'a&b', 'x<y', '&&', '&gt; ', '&nbsp;']
TPL = ['$Title', '${ID}', '$$', '$', '$SceneContent', '%s', '{0}', '%', '\\n', '\\1', '\\', '\\g<0>', '$Desc',
       '$ContentHeader', '${ProjectName}', '100%', '{}', '$AuthorName', '$Tag', '%%']
UNI = ['\u00e4\u00f6\u00fc\u00df', '\u2014', '\u2013', '\u201equoted\u201c', '\u6f22\u5b57', '\U0001f600', '\u05e9\u05dc\u05d5\u05dd',
       'e\u0301', '\u00a0', '\u2026', '\u2028', '\u0085', '\u200b', '\ufeffx', '\u0130', '\U00020000', '\u2018x\u2019']
DIV = ['|', '||', ',', ';', ':', '/', '~', '@', '@n@', '@r@', '=', '*', '_', '#', '--', '-', '!', '?', '(!)', '0']
BRK = ['[', ']', '[x]', '[sic]', '[re: x]', '[he and us]', '[/u.]', '[ScID:7]', '[1]', '(', ')', '{', '}', '[/ScID]']
SAFE_UNI = ['\u00e4\u00f6\u00fc\u00df', '\u2014', '\u2013', '\u201equoted\u201c', '\u6f22\u5b57', '\U0001f600',
            '\u05e9\u05dc\u05d5\u05dd', 'e\u0301', '\u2026', '\u2018x\u2019']
WORDS = ['the', 'night', 'Hal', 'spaceport', 'robot', 'landed', 'a', 'I', "don't", 'well-known', 'Mr.', 'and', 'rain',
         'x', '42', 'cargo', 'ship', 'field', 'door', 'Clunk', 'said', 'slowly', 'Years', 'it\u2019s', 'over']

ALL = XML + TPL + UNI + DIV + BRK
_counter = itertools.count(1)


def reset():
    global _counter
    _counter = itertools.count(1)


def uid():
    """A word that is unique within one case, so that every text can be traced."""
    return f'q{next(_counter)}z'


def line(rng, hostile=ALL, words=(1, 5), p=0.35):
    out = []
    for __ in range(rng.randint(*words)):
        if hostile and rng.random() < p:
            out.append(rng.choice(hostile))
        else:
            out.append(rng.choice(WORDS))
    out.insert(rng.randint(0, len(out)), uid())
    return ' '.join(out).strip()


def glued(rng, hostile=ALL):
    """Hostile tokens without separating blanks."""
    return uid() + ''.join(rng.choice(hostile) for __ in range(rng.randint(1, 4))) + uid()


def multi(rng, hostile=ALL, paras=(1, 4), p=0.3):
    out = []
    for __ in range(rng.randint(*paras)):
        kind = rng.random()
        if kind < 0.12:
            out.append('')
        elif kind < 0.25 and hostile:
            out.append(glued(rng, hostile))
        else:
            out.append(line(rng, hostile, (1, 8), p))
    text = '\n'.join(out)
    return text if text.strip() else uid()


def maybe(rng, p, make, other=None):
    return make() if rng.random() < p else other


def tags(rng, hostile=ALL, n=(0, 3)):
    bad = [t for t in hostile if ';' not in t and ',' not in t]
    out = []
    for __ in range(rng.randint(*n)):
        t = line(rng, bad, (0, 2))
        if rng.random() < 0.5:
            t = rng.choice(['red', 'blue', 'green', 'Subplot', 'alpha'])
        t = t.strip()
        if t and t not in out:
            out.append(t)
    return out or None


def ids(rng, n, start=1):
    """n distinct decimal IDs, in arbitrary order, sometimes sparse."""
    style = rng.random()
    if style < 0.5:
        pool = [str(i) for i in range(start, start + n)]
    else:
        pool = [str(i) for i in rng.sample(range(1, 60 + 4 * n), n)]
    if n > 9 and rng.random() < 0.4:
        pool = [str(i) for i in sorted(rng.sample(range(1, 10 ** rng.choice([3, 4, 6, 10])), n))]
    if rng.random() < 0.4:
        rng.shuffle(pool)
    return pool


def scene(rng, hostile, chars, locs, items, content=None, rich=True, types=(0, 0, 0, 0, 1, 2, 3)):
    h = hostile
    s = dict(
        title=maybe(rng, 0.95, lambda: line(rng, h)),
        desc=maybe(rng, 0.7, lambda: multi(rng, h)),
        content=content(rng) if content else maybe(rng, 0.85, lambda: multi(rng, h, (1, 6))),
        type=rng.choice(types),
        noexport=rng.random() < 0.12,
        status=rng.choice([1, 1, 2, 3, 4, 5]),
        notes=maybe(rng, 0.4, lambda: multi(rng, h)),
        tags=maybe(rng, 0.5, lambda: tags(rng, h)),
        append=rng.random() < 0.2,
        reaction=rng.random() < 0.3,
        subplot=rng.random() < 0.2,
        goal=maybe(rng, 0.4, lambda: multi(rng, h)),
        conflict=maybe(rng, 0.4, lambda: multi(rng, h)),
        outcome=maybe(rng, 0.4, lambda: multi(rng, h)),
        image=maybe(rng, 0.2, lambda: f'Images/{uid()}.png'),
        field1=maybe(rng, 0.6, lambda: str(rng.randint(1, 10))),
        field2=maybe(rng, 0.6, lambda: str(rng.randint(1, 10))),
        field3=maybe(rng, 0.6, lambda: str(rng.randint(1, 10))),
        field4=maybe(rng, 0.6, lambda: str(rng.randint(1, 10))),
        date=None, time=None, day=None,
        ldays=maybe(rng, 0.3, lambda: str(rng.randint(0, 30))),
        lhours=maybe(rng, 0.3, lambda: str(rng.randint(0, 23))),
        lminutes=maybe(rng, 0.3, lambda: str(rng.randint(0, 59))),
        characters=rng.sample(chars, rng.randint(0, min(3, len(chars)))) or None,
        locations=rng.sample(locs, rng.randint(0, min(2, len(locs)))) or None,
        items=rng.sample(items, rng.randint(0, min(2, len(items)))) or None,
        arcs=maybe(rng, 0.25, lambda: ';'.join(line(rng, [t for t in h if ';' not in t], (0, 2))
                                               for __ in range(rng.randint(1, 2)))),
        mode=maybe(rng, 0.25, lambda: rng.randint(1, 5)),
    )
    k = rng.random()
    if k < 0.3:
        s['date'] = f'{rng.randint(1, 2999):04}-{rng.randint(1, 12):02}-{rng.randint(1, 28):02}'
        s['time'] = f'{rng.randint(0, 23):02}:{rng.randint(0, 59):02}:{rng.choice([0, 0, rng.randint(0, 59)]):02}'
    elif k < 0.55:
        s['day'] = str(rng.randint(0, 999))
        if rng.random() < 0.6:
            s['time'] = f'{rng.randint(0, 23):02}:{rng.randint(0, 59):02}:00'
    elif k < 0.65:
        s['time'] = f'{rng.randint(0, 23):02}:{rng.randint(0, 59):02}:00'
    return s


def world(rng, h, kw=True):
    return dict(
        title=maybe(rng, 0.95, lambda: line(rng, h)),
        image=maybe(rng, 0.2, lambda: f'Images/{uid()} & co.jpg'),
        desc=maybe(rng, 0.7, lambda: multi(rng, h)),
        aka=maybe(rng, 0.4, lambda: line(rng, h)),
        tags=maybe(rng, 0.5, lambda: tags(rng, h)),
        kw={'Field_Link': line(rng, h)} if kw and rng.random() < 0.3 else {},
    )


def character(rng, h, kw=True):
    c = world(rng, h, kw)
    c.update(
        notes=maybe(rng, 0.5, lambda: multi(rng, h)),
        bio=maybe(rng, 0.5, lambda: multi(rng, h)),
        goals=maybe(rng, 0.5, lambda: multi(rng, h)),
        fullName=maybe(rng, 0.6, lambda: line(rng, h)),
        major=rng.random() < 0.5,
    )
    if kw and rng.random() < 0.2:
        c['kw']['Field_BirthDate'] = '1970-01-31'
        if rng.random() < 0.5:
            c['kw']['Field_DeathDate'] = line(rng, h)
    return c


def size(rng, i, choices):
    """Size of the project of case i; one in 40 is big."""
    return 'x' if i % 40 == 7 else rng.choice(choices)


def project(rng, hostile=ALL, size=None, content=None, kw=True, chtypes=(0, 0, 0, 0, 0, 1, 2, 3),
            sctypes=(0, 0, 0, 0, 1, 2, 3), trash=True, notes=True, orphans=False):
    h = hostile
    if size is None:
        size = rng.choice(['s', 's', 'm', 'm', 'l', 'e'])
    big = size == 'x' or size == 'l' and rng.random() < 0.12
    if big:
        size = 'x'
    nchap, nsc, nw = {'x': (rng.randint(10, 25), (0, 5), 14), 'e': (rng.randint(0, 1), (0, 1), 0), 's': (rng.randint(1, 2), (0, 3), 2),
                      'm': (rng.randint(2, 5), (0, 4), 4), 'l': (rng.randint(4, 9), (0, 6), 7)}[size]
    p = dict(
        title=maybe(rng, 0.95, lambda: line(rng, h)),
        author=maybe(rng, 0.9, lambda: line(rng, h)),
        bio=maybe(rng, 0.4, lambda: multi(rng, h)),
        desc=maybe(rng, 0.7, lambda: multi(rng, h)),
        ft1=maybe(rng, 0.6, lambda: line(rng, h)),
        ft2=maybe(rng, 0.6, lambda: line(rng, h)),
        ft3=maybe(rng, 0.6, lambda: line(rng, h)),
        ft4=maybe(rng, 0.6, lambda: line(rng, h)),
        target=maybe(rng, 0.5, lambda: rng.randint(0, 200000)),
        start=maybe(rng, 0.5, lambda: rng.randint(0, 2000)),
        lang=None, country=None,
        locations={}, items={}, characters={}, notes={}, scenes={}, chapters={},
    )
    for i in ids(rng, rng.randint(0, nw)):
        p['characters'][i] = character(rng, h, kw)
    for i in ids(rng, rng.randint(0, nw)):
        p['locations'][i] = world(rng, h, kw)
    for i in ids(rng, rng.randint(0, nw)):
        p['items'][i] = world(rng, h, kw)
    if notes:
        for i in ids(rng, rng.randint(0, 3 if nw else 0)):
            p['notes'][i] = dict(title=line(rng, h), desc=maybe(rng, 0.7, lambda: multi(rng, h)))
    chars, locs, items = list(p['characters']), list(p['locations']), list(p['items'])
    per = [rng.randint(*nsc) for __ in range(nchap)]
    scids = ids(rng, sum(per) + (1 if orphans and rng.random() < 0.4 else 0))
    pool = list(scids)
    for k, chid in enumerate(ids(rng, nchap)):
        ctype = rng.choice(chtypes)
        c = dict(
            title=line(rng, h) if rng.random() < 0.95 else None,
            desc=maybe(rng, 0.6, lambda: multi(rng, h)),
            level=1 if rng.random() < 0.3 else 0,
            type=ctype,
            suppress=rng.random() < 0.15,
            nobreak=rng.random() < 0.1,
            trash=False,
            scenes=[],
        )
        if trash and k == nchap - 1 and rng.random() < 0.2 and nchap > 1:
            c.update(trash=True, type=3, title='Trash')
        if c['title'] and c['title'].startswith('@'):
            c['suppress'] = True
        for __ in range(per[k]):
            c['scenes'].append(pool.pop(0))
        p['chapters'][chid] = c
    order = list(scids)
    if rng.random() < 0.3:
        rng.shuffle(order)
    parent = {s: c for c in p['chapters'].values() for s in c['scenes']}
    for sid in order:
        sc = scene(rng, h, chars, locs, items, content, types=sctypes)
        if sid in parent and parent[sid]['type'] != 0:
            sc['type'] = parent[sid]['type']
        p['scenes'][sid] = sc
    if big:
        enlarge(p, rng, h, content)
    return p


TAG = re.compile(r'\[(/?)(i|b|lang=[^][/*\n]*)\]')


def nested(text):
    """The formatting tags are balanced and properly nested."""
    stack = []
    for m in TAG.finditer(text):
        if not m.group(1):
            stack.append(m.group(2))
        elif not stack or stack.pop() != m.group(2):
            return False
    return not stack


def enlarge(p, rng, h, content):
    """Long texts, long lists."""
    for k, sid in enumerate(rng.sample(sorted(p['scenes']), min(2, len(p['scenes'])))):
        s = p['scenes'][sid]
        parts, n = [], 0
        size = rng.choice([5000, 20000, 70000]) if k else rng.choice([20000, 75000, 75000])
        while n < size:
            part = (content(rng) if content else multi(rng, h, (3, 6))) or ''
            n += len(part) + (100 if size < 70000 else 1)
            rest = re.sub(r'/\*.*?\*/', '', part, flags=re.DOTALL)
            if '/*' not in rest and '*/' not in rest and nested(rest):
                # comment marks and tags are balanced
                parts.append(part)
        s['content'] = '\n'.join(t for t in parts if t)
        if rng.random() < 0.5:
            s['desc'] = multi(rng, h, (40, 90))
        if rng.random() < 0.5:
            s['title'] = line(rng, h, (40, 90))
        for group in ('characters', 'locations', 'items'):
            s[group] = rng.sample(list(p[group]), rng.randint(0, len(p[group]))) or None
        if s['tags']:
            s['tags'] = tags(rng, h, (10, 20))


# -- yWriter style project files -------------------------------------------------------------

def esc(text):
    return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def cdata(text):
    return '<![CDATA[' + text.replace(']]>', ']]]]><![CDATA[>') + ']]>'


class Writer:

    def __init__(self, rng, style=None):
        self.rng = rng
        self.style = style or {}
        self.out = []
        self.level = 0

    def put(self, tag, text=None, kind='text', always=False):
        if text is None and not always:
            return
        pad = '  ' * self.level
        if text is None or text == '':
            self.out.append(f'{pad}<{tag} />' if self.rng.random() < 0.7 else f'{pad}<{tag}></{tag}>')
            return
        text = str(text)
        if kind == 'text' and not (self.style.get('mixed') and self.rng.random() < 0.3):
            self.out.append(f'{pad}<{tag}>{cdata(text)}</{tag}>')
        else:
            self.out.append(f'{pad}<{tag}>{esc(text)}</{tag}>')

    def open(self, tag):
        self.out.append('  ' * self.level + f'<{tag}>')
        self.level += 1

    def close(self, tag):
        self.level -= 1
        self.out.append('  ' * self.level + f'</{tag}>')


SC_TYPE = {0: (False, None), 1: (True, '1'), 2: (True, '2'), 3: (True, '0')}
CH_TYPE = {0: (False, '0', '0'), 1: (True, '1', '1'), 2: (True, '1', '2'), 3: (True, '1', '0')}


def build_xml(p, rng, style=None, extras=None):
    """Return the text of a yWriter 7 project file holding spec p.

    style: mixed (bool), legacy (bool: no ChapterType), counts (bool: WordCount etc.)
    extras: {'scene'|'chapter'|'project'|'root': callable(writer, id)} for data the library does not model."""
    style = style or {}
    extras = extras or {}
    w = Writer(rng, style)
    w.open('YWRITER7')
    w.open('PROJECT')
    w.put('Ver', '7', 'raw')
    w.put('Title', p['title'])
    w.put('AuthorName', p['author'])
    w.put('Bio', p['bio'])
    w.put('Desc', p['desc'])
    for i in '1234':
        w.put(f'FieldTitle{i}', p[f'ft{i}'])
    w.put('WordCountStart', p['start'], 'raw')
    w.put('WordTarget', p['target'], 'raw')
    if style.get('counts'):
        w.put('SavedWith', 'yWriter 7.1.3.0', 'raw')
        w.put('SavedOn', '01/02/2023 10:00', 'raw')
    if 'project' in extras:
        extras['project'](w, None)
    w.close('PROJECT')

    def fields(kw, extra=None, x=None):
        if kw or extra:
            w.open('Fields')
            for k, v in kw.items():
                w.put(k, v, 'raw' if k in ('Field_Link', 'Field_BirthDate', 'Field_DeathDate') else 'text')
            if extra:
                extra(w, x)
            w.close('Fields')

    for group, tag in (('locations', 'LOCATION'), ('items', 'ITEM')):
        w.open(group.upper())
        for i, e in p[group].items():
            w.open(tag)
            w.put('ID', i, 'raw')
            w.put('Title', e['title'])
            w.put('ImageFile', e['image'])
            w.put('Desc', e['desc'])
            w.put('AKA', e['aka'])
            if e['tags']:
                w.put('Tags', rng.choice([';', '; ', ' ;']).join(e['tags']))
            if style.get('counts'):
                w.put('SortOrder', str(rng.randint(0, 99)), 'raw')
            fields(e['kw'])
            w.close(tag)
        w.close(group.upper())
    w.open('CHARACTERS')
    for i, e in p['characters'].items():
        w.open('CHARACTER')
        w.put('ID', i, 'raw')
        w.put('Title', e['title'])
        w.put('Desc', e['desc'])
        w.put('ImageFile', e['image'])
        w.put('Notes', e['notes'])
        w.put('AKA', e['aka'])
        if e['tags']:
            w.put('Tags', ';'.join(e['tags']))
        w.put('Bio', e['bio'])
        w.put('Goals', e['goals'])
        w.put('FullName', e['fullName'])
        if e['major']:
            w.put('Major', '-1', 'raw')
        if style.get('counts'):
            w.put('SortOrder', str(rng.randint(0, 99)), 'raw')
        fields(e['kw'])
        w.close('CHARACTER')
    w.close('CHARACTERS')
    if p['notes'] or rng.random() < 0.5:
        w.open('PROJECTNOTES')
        for i, e in p['notes'].items():
            w.open('PROJECTNOTE')
            w.put('ID', i, 'raw')
            w.put('Title', e['title'])
            w.put('Desc', e['desc'])
            if style.get('counts'):
                w.put('SortOrder', '1', 'raw')
            if extras.get('note'):
                extras['note'](w, i)
            w.close('PROJECTNOTE')
        w.close('PROJECTNOTES')
    pvars = list(p.get('vars') or [])
    if p['lang'] is not None:
        pvars += [(str(901), 'Language', p['lang']), (str(902), 'Country', p['country'])]
    if pvars:
        w.open('PROJECTVARS')
        for i, t, d in pvars:
            w.open('PROJECTVAR')
            w.put('ID', i, 'raw')
            w.put('Title', t)
            w.put('Desc', d)
            w.put('Tags', '0')
            w.close('PROJECTVAR')
        w.close('PROJECTVARS')
    if 'root' in extras:
        extras['root'](w, None)
    w.open('SCENES')
    chap_of = {s: c for c, ch in p['chapters'].items() for s in ch['scenes']}
    for i, s in p['scenes'].items():
        w.open('SCENE')
        w.put('ID', i, 'raw')
        w.put('Title', s['title'])
        w.put('Desc', s['desc'])
        if style.get('counts'):
            w.put('BelongsToChID', chap_of.get(i, '1'), 'raw')
            w.put('WordCount', '17', 'raw')
            w.put('LetterCount', '99', 'raw')
            w.put('RTFFile', f'sc{i}.rtf')
        unused, stype = SC_TYPE[s['type']]
        if unused:
            w.put('Unused', '-1', 'raw')
        kw = {}
        if stype is not None:
            kw['Field_SceneType'] = stype
        elif rng.random() < 0.15:
            kw['Field_SceneType'] = '0'
        if s['arcs']:
            kw['Field_SceneArcs'] = s['arcs']
        if s['mode']:
            kw['Field_SceneMode'] = str(s['mode'])
        fields(kw, extras.get('scenefields'), i)
        if s['noexport']:
            w.put('ExportCondSpecific', None, 'raw', True)
        elif rng.random() < 0.2:
            w.put('ExportCondSpecific', None, 'raw', True)
            w.put('ExportWhenRTF', '-1', 'raw')
        w.put('Status', s['status'], 'raw')
        w.put('Notes', s['notes'])
        if s['tags']:
            w.put('Tags', ';'.join(s['tags']))
        for k in '1234':
            w.put(f'Field{k}', s[f'field{k}'], 'raw')
        if s['append']:
            w.put('AppendToPrev', '-1', 'raw')
        if s['date'] is not None:
            w.put('SpecificDateTime', f"{s['date']} {s['time']}", 'raw')
            w.put('SpecificDateMode', '-1', 'raw')
        else:
            w.put('Day', s['day'], 'raw')
            if s['time'] is not None:
                hour, minute, __ = s['time'].split(':')
                if rng.random() < 0.5:
                    hour, minute = str(int(hour)), str(int(minute))
                w.put('Hour', hour, 'raw')
                w.put('Minute', minute, 'raw')
        w.put('LastsDays', s['ldays'], 'raw')
        w.put('LastsHours', s['lhours'], 'raw')
        w.put('LastsMinutes', s['lminutes'], 'raw')
        if s['reaction']:
            w.put('ReactionScene', '-1', 'raw')
        if s['subplot']:
            w.put('SubPlot', '-1', 'raw')
        w.put('Goal', s['goal'])
        w.put('Conflict', s['conflict'])
        w.put('Outcome', s['outcome'])
        w.put('ImageFile', s['image'])
        for group, gtag, tag in (('characters', 'Characters', 'CharID'), ('locations', 'Locations', 'LocID'),
                                 ('items', 'Items', 'ItemID')):
            if s[group] is not None or rng.random() < 0.1:
                w.open(gtag)
                for x in s[group] or []:
                    w.put(tag, x, 'raw')
                w.close(gtag)
        w.put('SceneContent', s['content'], always=rng.random() < 0.9)
        if 'scene' in extras:
            extras['scene'](w, i)
        w.close('SCENE')
    w.close('SCENES')
    w.open('CHAPTERS')
    for i, c in p['chapters'].items():
        w.open('CHAPTER')
        w.put('ID', i, 'raw')
        w.put('Title', c['title'])
        w.put('Desc', c['desc'])
        unused, ytype, ychtype = CH_TYPE[c['type']]
        if unused:
            w.put('Unused', '-1', 'raw')
        if style.get('counts'):
            w.put('SortOrder', str(rng.randint(0, 99)), 'raw')
        if c['suppress'] or c['trash'] or c['nobreak'] or rng.random() < 0.3 or 'chapterfields' in extras:
            w.open('Fields')
            if c['suppress'] or rng.random() < 0.5:
                w.put('Field_SuppressChapterTitle', '1' if c['suppress'] else '0', 'raw')
            if c['trash']:
                w.put('Field_IsTrash', '1', 'raw')
            if c['nobreak'] or rng.random() < 0.5:
                w.put('Field_SuppressChapterBreak', '1' if c['nobreak'] else '0', 'raw')
            if 'chapterfields' in extras:
                extras['chapterfields'](w, i)
            w.close('Fields')
        if c['level'] == 1:
            w.put('SectionStart', '-1', 'raw')
        if style.get('legacy') and c['type'] in (0, 1):
            w.put('Type', ytype, 'raw')
        else:
            w.put('Type', ytype, 'raw')
            w.put('ChapterType', ychtype, 'raw')
        if c['scenes'] or rng.random() < 0.3:
            w.open('Scenes')
            for s in c['scenes']:
                w.put('ScID', s, 'raw')
            w.close('Scenes')
        if 'chapter' in extras:
            extras['chapter'](w, i)
        w.close('CHAPTER')
    w.close('CHAPTERS')
    if 'tail' in extras:
        extras['tail'](w, None)
    w.close('YWRITER7')
    return '<?xml version="1.0" encoding="utf-8"?>\n' + '\n'.join(w.out) + '\n'
