"""C03: data the library does not model survives load, edit and save."""
import os

import gen
import lib
import ref_yw7
from props import c01

LEVEL = 'exploration'
RULE = ('Generated projects carry unmodelled elements (with unique tokens, attributes, nested children, markup characters) at '
        'root, project, scene, scene-field, chapter, chapter-field and project-variable level; after edit/save histories an '
        'independent parse must find each of them unchanged at its owner. Non-trivial: at least one unmodelled element with a '
        'surviving owner; distinct by file content.')
ASSUMPTIONS = ['Characters, locations, items and project notes are rewritten by design and are not covered.',
               'Elements the library manages itself (word counts, RTF file names, sort order, saving date) are not covered.']

NAMES = ['LaTeXHeaderFile', 'Field_WorkPhase', 'Field_CustomGoal', 'ExportToHtml', 'Ext', 'Conflikt', 'Field_ArcDefinition', 'SceneVersion',
         'Outline', 'POV', 'Rating', 'ViewpointID', 'Field_SaveWordCount', 'Assignment', 'Field_CustomAR', 'A', 'Log', 'Markers']
SCENE_FLAGS = ['SpecificTimeMode', 'MarkedForExport', 'HTMLScene', 'Locked']


def extra(rng, depth=0):
    name = rng.choice(NAMES)
    attrs = {}
    if rng.random() < 0.3:
        attrs['a'] = gen.line(rng, gen.XML + gen.UNI, (0, 2))
        if rng.random() < 0.5:
            attrs['b'] = gen.uid()
    if depth < 2 and rng.random() < 0.25 and name not in ('LaTeXHeaderFile', 'Field_CustomGoal', 'Field_ArcDefinition', 'Field_CustomAR'):
        return (name, attrs, None, [extra(rng, depth + 1) for __ in range(rng.randint(1, 3))])
    r = rng.random()
    text = '' if r < 0.1 else '-1' if r < 0.2 else gen.line(rng) if r < 0.7 else gen.multi(rng)
    return (name, attrs, text, [])


def emit(w, e):
    name, attrs, text, children = e
    a = ''.join(f' {k}="{gen.esc(v)}"'.replace('"' + gen.esc(v) + '"', '"' + gen.esc(v).replace('"', '&quot;') + '"') for k, v in attrs.items())
    pad = '  ' * w.level
    if children:
        w.out.append(f'{pad}<{name}{a}>')
        w.level += 1
        for c in children:
            emit(w, c)
        w.level -= 1
        w.out.append(f'{pad}</{name}>')
    elif not text:
        w.out.append(f'{pad}<{name}{a} />')
    else:
        body = gen.cdata(text) if w.rng.random() < 0.5 else gen.esc(text)
        w.out.append(f'{pad}<{name}{a}>{body}</{name}>')


def canon(e):
    name, attrs, text, children = e
    return (name, tuple(sorted(attrs.items())), ref_yw7.norm_text(text), tuple(canon(c) for c in children))


def canon_xml(x):
    return (x.tag, tuple(sorted(x.attrib.items())), ref_yw7.norm_text(x.text) if len(x) == 0 else '',
            tuple(canon_xml(c) for c in x))


def owner_elements(root):
    out = {('root', None): list(root)}
    pr = root.find('PROJECT')
    out[('project', None)] = list(pr)
    out[('projectfields', None)] = [x for f in pr.findall('Fields') for x in f]
    for kind, tag in (('scene', 'SCENE'), ('chapter', 'CHAPTER')):
        for x in root.iter(tag):
            i = x.findtext('ID')
            out[(kind, i)] = list(x)
            out[(kind + 'fields', i)] = [y for f in x.findall('Fields') for y in f]
    return out


def check(ctx, label, path, placed, pvars, **replay):
    root = ref_yw7.root_of(lib.get(path))
    where = owner_elements(root)
    bad = []
    for owner, elements in placed.items():
        if owner not in where:
            continue
        have = [canon_xml(x) for x in where[owner]]
        for e in elements:
            ctx.event('element_traced')
            c = canon(e)
            if c in have:
                have.remove(c)
            else:
                bad.append(f'{owner}: {c} lost or changed')
    pv = root.find('PROJECTVARS')
    have = [] if pv is None else [(x.findtext('ID'), x.findtext('Title'), x.findtext('Desc') or '', x.findtext('Tags')) for x in pv]
    for v in pvars:
        ctx.event('variable_traced')
        if tuple(v) not in have:
            bad.append(f'project variable {v} lost or changed: {have}')
    if len({h[0] for h in have}) != len(have):
        bad.append(f'project variable IDs not unique: {have}')
    if bad:
        ctx.violation(f'{label}: {bad[:3]}', file=lib.get(path), **replay)
    return not bad


def run(ctx):
    for i, rng in ctx.cases('keep', 150, 2500):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm']))
        placed = {}

        def place(kind, n=(0, 3)):
            def f(w, ident):
                seen = set()
                for __ in range(rng.randint(*n)):
                    e = extra(rng)
                    if e[0] in seen:
                        continue
                    seen.add(e[0])
                    emit(w, e)
                    placed.setdefault((kind, ident), []).append(e)
            return f

        project_plain, project_fields = place('project'), place('projectfields', (0, 2))

        def project(w, ident):
            project_plain(w, None)
            if rng.random() < 0.6:
                w.open('Fields')
                project_fields(w, None)
                if rng.random() < 0.5:
                    w.put('Field_LanguageCode', 'de', 'raw')
                w.close('Fields')

        p['vars'] = []
        for k in range(rng.randint(0, 4)):
            title = gen.line(rng, [t for t in gen.ALL if '=' not in t])
            p['vars'].append((str(k * 2 + 1), title, gen.line(rng)))
        pvars = [(a, b, c, '0') for a, b, c in p['vars']]
        if rng.random() < 0.3:
            p['lang'], p['country'] = 'de', 'DE'
        elif rng.random() < 0.2:
            p['vars'] += [('51', 'lang=fr', 'x'), ('52', '/lang=fr', 'y')]
        text = gen.build_xml(p, rng, dict(counts=rng.random() < 0.5), dict(
            root=place('root'), tail=place('root', (0, 1)) if ('root', None) not in placed else None or (lambda w, x: None),
            project=project, scene=place('scene'), scenefields=place('scenefields', (0, 2)) if rng.random() < 0.7 else None,
            chapter=place('chapter'), chapterfields=place('chapterfields', (0, 2))))
        data = text.encode('utf-8')
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), data)
        if not check_source(path, placed):
            raise RuntimeError('harness: tracer elements not found in the generated file')
        f = lib.load(path)
        f.write()
        ok = check(ctx, f'keep/{i} plain', path, placed, pvars, xml=text)
        shadow = ref_yw7.parse(data)
        dead = dict(scenes=set(), chapters=set())
        gone = set()
        for step in range(rng.randint(1, 4)):
            if not ok:
                break
            for __ in range(rng.randint(1, 8)):
                c01.mutate(ctx, rng, f, shadow, dead)
            gone |= {('scene', x) for x in dead['scenes']} | {('chapter', x) for x in dead['chapters']}
            for k in list(placed):
                if (k[0].replace('fields', ''), k[1]) in gone:
                    del placed[k]
            f.write()
            dead = dict(scenes=set(), chapters=set())
            ctx.event('edited_save')
            ok = check(ctx, f'keep/{i} step {step}', path, placed, pvars, xml=text)
            if rng.random() < 0.4:
                f = lib.load(path)
        ctx.evaluated(data, any(placed.values()))
        ctx.sample({'case': i, 'traced': [[k, [e[0] for e in v]] for k, v in list(placed.items())[:5]]}, 3)
        ctx.drop(d)
    ctx.require('element_traced', 500)
    ctx.require('variable_traced', 50)
    ctx.require('edited_save', 80)


def check_source(path, placed):
    where = owner_elements(ref_yw7.root_of(lib.get(path)))
    return all(canon(e) in [canon_xml(x) for x in where[k]] for k, v in placed.items() for e in v)
