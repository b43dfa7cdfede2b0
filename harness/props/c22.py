"""C22: cross references are exact."""
import os
import re
from collections import Counter
from urllib.parse import quote, unquote

import docs
import gen
import lib
import ref_odf
import ref_yw7
from props import c04

LEVEL = 'exploration'
RULE = ('For random link structures between scenes, characters, locations, items and tags the relation is recomputed from an independent parse of the project file and compared with the generated cross references '
        '(repeatedly, for several novels with one object, and after edits in memory) and with the headings, lines, marks and link targets of the exported document. All links of all document types are followed into the documents exported beside them. Distinct by project.')
ASSUMPTIONS = ['No element has the same tag or link twice.', 'Line breaks and multiple blanks are equivalent to one blank in document lines.']
GROUPS = (('characters', 'scnPerChr', 'Character'), ('locations', 'scnPerLoc', 'Location'), ('items', 'scnPerItm', 'Item'))
TAGGED = (('characters', 'chrPerTag', 'Characters'), ('locations', 'locPerTag', 'Locations'), ('items', 'itmPerTag', 'Items'))
SUFFIX = {'normal': '', 'notes': ' (Notes)', 'todo': ' (ToDo)', 'unused': ' (Unused)'}
STYLE = {'normal': 'scene_20_mark', 'notes': 'scene_20_mark_20_notes', 'todo': 'scene_20_mark_20_todo', 'unused': 'scene_20_mark_20_unused'}


def relation(p):
    """All cross references as plain data, from the parsed project."""
    story = [(s, c) for c in p['chapters'] for s in p['chapters'][c]['scenes']]
    out = {'srtScenes': [s for s, __ in story], 'chpPerScn': dict(story), 'scnPerTag': {}}
    for group, name, __ in GROUPS:
        out[name] = {e: [s for s, __ in story if e in (p['scenes'][s][group] or [])] for e in p[group]}
    for s, __ in story:
        for t in p['scenes'][s]['tags'] or []:
            out['scnPerTag'].setdefault(t, []).append(s)
    for group, name, __ in TAGGED:
        out[name] = {}
        for e in p[group]:
            for t in p[group][e]['tags'] or []:
                out[name].setdefault(t, []).append(e)
    return out


def check_object(xr, want):
    bad = []
    for name, value in want.items():
        have = getattr(xr, name)
        if isinstance(value, dict) and name != 'chpPerScn':
            have = {k: list(v) for k, v in have.items()}
            if name.startswith('scnPer') and name != 'scnPerTag':
                # elements without scenes may be missing
                have = {k: v for k, v in have.items() if v}
                value = {k: v for k, v in value.items() if v}
        if have != value:
            bad.append(f'{name}: {have} instead of {value}')
    return bad


def norm(text):
    return ' '.join((text or '').split())


TYPES = {0: 'normal', 1: 'notes', 2: 'todo', 3: 'unused'}


def scene_line(p, rel, s):
    chapter = list(p['chapters']).index(rel['chpPerScn'][s]) + 1
    kind = TYPES[p['scenes'][s]['type']]
    return (norm(f'{rel["srtScenes"].index(s) + 1} (Ch {chapter}) {p["scenes"][s]["title"] or ""}{SUFFIX[kind]}'), STYLE[kind], f'ScID:{s}' if kind == 'normal' else None)


def expected_document(p, rel):
    """[(heading, [(line, style, link)])]"""
    out = []
    for group, name, word in GROUPS:
        for e, scenes in rel[name].items():
            if scenes:
                out.append((norm(f'Scenes with {word} {p[group][e]["title"] or ""}:'), [scene_line(p, rel, s) for s in scenes]))
    for t, scenes in rel['scnPerTag'].items():
        out.append((norm(f'Scenes tagged {t}:'), [scene_line(p, rel, s) for s in scenes]))
    for group, name, word in TAGGED:
        prefix = {'characters': 'CrID', 'locations': 'LcID', 'items': 'ItID'}[group]
        for t, elements in rel[name].items():
            lines = []
            for e in elements:
                x = p[group][e]
                lines.append((norm(f'{x["title"] or ""} {x.get("fullName") or ""}'), 'Text_20_body', f'{prefix}:{e}'))
            out.append((norm(f'{word} tagged {t}:'), lines))
    return out


TARGETS = {'ScID': '_manuscript.odt', 'CrID': '_characters.odt', 'LcID': '_locations.odt', 'ItID': '_items.odt'}


def check_document(p, rel, pkg, name):
    out = []
    current = None
    bad = []
    blocks = pkg.blocks()
    head = [norm(b.text) for b in blocks[:2]]
    if head != [norm(p['title']), norm(p['author'])]:
        bad.append(f'the document begins with {head}')
    for b in blocks[2:]:
        if b.heading:
            current = []
            out.append((norm(b.text), current))
        elif current is None:
            bad.append(f'a line without heading: {b!r}')
        else:
            link = None
            if b.links:
                for prefix, target in TARGETS.items():
                    if f'#{prefix}:' in b.links[0]:
                        ident = b.links[0].split('#')[1].split('%7C')[0]
                        link = ident
                        if b.links != [f'../{quote(name)}{target}#{ident}%7Cregion']:
                            bad.append(f'the link {b.links} does not lead to {name}{target}')
            current.append((norm(b.text), b.style, link))
    want = expected_document(p, rel)
    a, b = Counter((h, tuple(x)) for h, x in want), Counter((h, tuple(x)) for h, x in out)
    if a != b:
        bad.append(f'missing {list((a - b).items())[:2]}, surplus {list((b - a).items())[:2]}')
    return bad


def run(ctx):
    from pywriter.model.cross_references import CrossReferences
    xr = CrossReferences()
    for i, rng in ctx.cases('xref', 200, 4000):
        gen.reset()
        p = c04.trim(gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l'])))
        links(rng, p)
        d = ctx.dir()
        name = rng.choice(['novel', 'novel', 'my novel', 'n&v', '\u00fcber', 'a#b', "it's", '100%', 'x_manuscript', 'novel.1', 'a_xref.odt b'])
        path = lib.put(os.path.join(d, name + '.yw7'), gen.build_xml(p, rng))
        q = lib.parse_file(path)
        rel = relation(q)
        f = lib.load(path)
        ctx.evaluated(lib.get(path), any(rel[n] for n in ('scnPerTag', 'scnPerChr', 'scnPerLoc')))
        for k in range(rng.choice([1, 2])):
            if rng.random() < 0.5:
                xr = CrossReferences()
            xr.generate_xref(f.novel)
            bad = check_object(xr, rel)
            ctx.event('generated')
            ctx.event('relation_entries', sum(len(v) for n in rel if n.endswith(('Chr', 'Loc', 'Itm', 'Tag')) for v in rel[n].values()))
            if bad:
                ctx.violation(f'xref/{i} {k}: {bad[:2]}', file=lib.get(path))
        data = docs.export(ctx, path, '_xref', f'xref/{i}')
        pkg = data and docs.package(ctx, data, f'xref/{i}')
        if pkg:
            bad = check_document(q, rel, pkg, name)
            ctx.event('document')
            if bad:
                ctx.violation(f'xref/{i}: document: {bad[:3]}', file=lib.get(path))
        # edited in memory
        before = lib.get(path)
        for __ in range(rng.randint(1, 4)):
            edit(rng, f.novel)
        xr.generate_xref(f.novel)
        f.write()
        rel2 = relation(lib.parse_file(path))
        bad = check_object(xr, rel2)
        ctx.event('edited')
        if bad:
            ctx.violation(f'xref/{i} edited: {bad[:2]}', file=before)
        ctx.drop(d)
    for i, rng in ctx.cases('navigation', 40, 600):
        navigation(ctx, i, rng)
    ctx.require('generated', 150)
    ctx.require('link', 300)
    ctx.require('cell_link', 30)
    ctx.require('document', 100)
    ctx.require('relation_entries', 2000)


def links(rng, p):
    pool = ['red', 'blue', 'Blue', 'x', 'a b', '<b>', '$Tag', 'a&b', gen.uid(), gen.uid(), '\u00e4']
    for g in ('scenes', 'characters', 'locations', 'items'):
        for e in p[g].values():
            if rng.random() < 0.5:
                e['tags'] = rng.sample(pool, rng.randint(0, 4)) or None
    for s in p['scenes'].values():
        for g in ('characters', 'locations', 'items'):
            if rng.random() < 0.5 and p[g]:
                s[g] = rng.sample(list(p[g]), rng.randint(0, min(len(p[g]), 4))) or None


def navigation(ctx, i, rng):
    """Follow the links from document to document."""
    gen.reset()
    p = c04.trim(gen.project(rng, size=rng.choice(['s', 'm', 'm'])))
    links(rng, p)
    for s in p['scenes'].values():
        s['noexport'] = False
        if s['content'] and s['content'].lstrip().startswith(('<HTML>', '<TEX>')):
            s['content'] = None
    d = ctx.dir()
    folder = os.path.join(d, rng.choice(['x', 'my novels', 'a&b', '100%', '\u00fc#?', "it's"]))
    os.makedirs(folder)
    name = rng.choice(['novel', 'my novel', 'n&v', '\u00fcber', 'a#b', "it's", '100%', 'x_manuscript', 'novel.1', 'a_xref.odt b', 'a_scenes.odt'])
    path = lib.put(os.path.join(folder, name + '.yw7'), gen.build_xml(p, rng))
    label = f'navigation/{i} {os.path.basename(folder)}/{name}'
    packages = {}
    for kind in ('_manuscript', '_characters', '_locations', '_items', '_xref', '_scenes', '_chapters', '_parts', '_scenelist', '_charlist', '_loclist', '_itemlist'):
        data = docs.export(ctx, path, kind, label)
        if data is None:
            return
        packages[os.path.realpath(docs.doc_path(path, kind))] = ref_odf.Package(data)
    sections = {f: {e.get(ref_odf.q('text:name')) for e in pkg.root('content.xml').iter(ref_odf.q('text:section'))} for f, pkg in packages.items()}

    def follow(source, link, want):
        # relative links start in the package
        target, __, place = link.partition('#')
        if target.startswith('file:///'):
            target = os.path.normpath('/' + unquote(target[8:]).lstrip('/'))
        else:
            target = os.path.normpath(os.path.join(source, unquote(target)))
        place = unquote(place)
        if not place.endswith('|region') or place[:-7] not in sections.get(target, ()) or want and place[:-7] != want:
            ctx.violation(f'{label}: the link {link!r} in {os.path.basename(source)} leads to {target!r}, {place!r} instead of {want!r}', file=lib.get(path))
        ctx.event('link')

    for f, pkg in packages.items():
        if f.endswith('.odt'):
            for b in pkg.blocks():
                for link in b.links:
                    own = [x for x in b.sections if x.startswith(('ChID', 'ScID'))]
                    follow(f, link, own[-1] if own else None)
        else:
            for cell in pkg.root('content.xml').iter(ref_odf.q('table:table-cell')):
                formula = cell.get(ref_odf.q('table:formula'))
                if formula:
                    m = re.fullmatch(r'of:=HYPERLINK\("([^"]*)";"([^"]*)"\)', formula)
                    if not m or m[2] != cell.get(ref_odf.q('office:string-value')):
                        ctx.violation(f'{label}: the cell {formula!r} is no link, or shown as {cell.get(ref_odf.q("office:string-value"))!r}', file=lib.get(path))
                    else:
                        follow(f, m[1], m[2])
                        ctx.event('cell_link')
    ctx.evaluated(('navigation', lib.get(path)), True)
    ctx.drop(d)


def edit(rng, novel):
    k = rng.random()
    chapters = [c for c in novel.srtChapters if novel.chapters[c].srtScenes]
    if k < 0.3 and chapters:
        # move a scene
        a, b = rng.choice(chapters), rng.choice(novel.srtChapters)
        s = novel.chapters[a].srtScenes.pop(rng.randrange(len(novel.chapters[a].srtScenes)))
        novel.chapters[b].srtScenes.insert(rng.randint(0, len(novel.chapters[b].srtScenes)), s)
    elif k < 0.5 and novel.srtChapters:
        rng.shuffle(novel.srtChapters)
    elif k < 0.8 and novel.scenes:
        s = novel.scenes[rng.choice(list(novel.scenes))]
        s.tags = rng.sample(['red', 'green', 'new'], rng.randint(1, 3))
        if novel.srtCharacters:
            s.characters = rng.sample(novel.srtCharacters, rng.randint(1, len(novel.srtCharacters)))
    elif novel.srtCharacters:
        rng.shuffle(novel.srtCharacters)
        novel.characters[rng.choice(novel.srtCharacters)].tags = ['red', 'hero']
