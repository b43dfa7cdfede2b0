"""C11: description documents carry descriptions back, edited or not."""
import copy
import os
import xml.etree.ElementTree as ET

import docs
import gen
import lib
import office
import ref_odf
import ref_yw7
from ref_odf import q, PARA, SPAN
from props import c04, c10

LEVEL = 'exploration'
RULE = ('Projects with hostile texts in all descriptions are exported to the six description documents; these are imported back as they are, as a word '
        'processor would save them, and with random subsets of the descriptions rewritten; a shadow project predicts the project file. '
        'Distinct by project, kind and round.')
ASSUMPTIONS = ['White space at the end of a description is trimmed.',
               'Scene descriptions that begin with a comment containing ~ set scene titles; exported descriptions do not begin with comments.']

DESC_KINDS = ['_scenes', '_chapters', '_parts', '_characters', '_items', '_locations']


def fields(p, kind):
    """[(section name, group, ID, key)]: the texts a description document carries."""
    if kind == '_scenes':
        return [(f'ScID:{s}', 'scenes', s, 'desc') for c in p['chapters'].values() for s in c['scenes'] if docs.scene_kind(p, c, s) == 'normal']
    if kind in ('_chapters', '_parts'):
        return [(f'ChID:{i}', 'chapters', i, 'desc') for i, c in p['chapters'].items() if docs.chapter_kind(p, c) == kind[1:-1]]
    if kind == '_characters':
        return [(f'CrID_{k}:{i}', 'characters', i, k) for i in p['characters'] for k in ('desc', 'bio', 'goals', 'notes')]
    group, prefix = (('items', 'ItID'), ('locations', 'LcID'))[kind == '_locations']
    return [(f'{prefix}:{i}', group, i, 'desc') for i in p[group]]


STYLES = ['Text_20_body', 'First_20_line_20_indent', 'Standard', 'Quotations', None]


def paragraph(rng, text, styles=True):
    """A paragraph holding text, in one of the ways a word processor writes it."""
    p = ET.Element(PARA)
    style = rng.choice(STYLES) if styles else 'Text_20_body'
    if style:
        p.set(ref_odf.STYLE_NAME, style)
    k = rng.random()
    if k < 0.6 or len(text) < 4:
        p.text = text
    else:
        a, b = sorted(rng.randint(0, len(text)) for __ in range(2))
        p.text = text[:a]
        e = ET.SubElement(p, SPAN, {ref_odf.STYLE_NAME: rng.choice(['Emphasis', 'Strong_20_Emphasis', 'T1'])}) if k < 0.85 else \
            ET.SubElement(p, q('text:a'), {q('xlink:type'): 'simple', q('xlink:href'): 'http://example.com'})
        e.text = text[a:b]
        e.tail = text[b:]
    office._blanks(p)
    return p


def new_text(rng):
    h = gen.ALL
    k = rng.random()
    if k < 0.1:
        return ''
    lines = [gen.line(rng, h) for __ in range(rng.choice([1, 1, 2, 3, 5]))]
    if len(lines) > 2 and rng.random() < 0.4:
        lines.insert(1, '')
    if rng.random() < 0.1:
        lines.insert(0, '')
    if lines[0].startswith('/*'):
        lines[0] = gen.uid()
    return '\n'.join(lines).rstrip()


def edit_sections(data, texts, rng):
    """Replace the paragraphs in the named sections."""

    def edit(root):
        for s in list(root.iter(ref_odf.SECTION)):
            name = s.get(q('text:name'))
            if name in texts:
                for c in [c for c in s if c.tag == PARA]:
                    s.remove(c)
                for line in texts[name].split('\n'):
                    s.append(paragraph(rng, line))

    return ref_odf.rewrite(data, edit)


def texts_of(kind):
    return ('desc', 'bio', 'goals', 'notes') if kind == '_characters' else ('desc',)


def add_sections(data, kind, before, rng):
    """Append sections of elements that are not in the project."""
    fresh = {}
    for __ in range(rng.randint(1, 2)):
        x = str(rng.randint(500, 999))
        if x not in before[kind[1:]]:
            fresh[x] = {k: new_text(rng) for k in texts_of(kind)}
    prefix = {'_characters': 'CrID', '_items': 'ItID', '_locations': 'LcID'}[kind]

    def edit(root):
        body = root.find(f'.//{q("office:text")}')
        for x, values in fresh.items():
            for k, t in values.items():
                name = f'{prefix}_{k}:{x}' if kind == '_characters' else f'{prefix}:{x}'
                section = ET.SubElement(body, ref_odf.SECTION, {q('text:name'): name})
                for line in t.split('\n'):
                    section.append(paragraph(rng, line))

    return ref_odf.rewrite(data, edit), fresh


def run(ctx):
    for i, rng in ctx.cases('desc', 70, 1500):
        gen.reset()
        p = c04.trim(gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l']), chtypes=(0, 0, 0, 0, 1, 2, 3)))
        for s in p['scenes'].values():
            s['noexport'] = rng.random() < 0.08
            if s['desc'] and s['desc'].startswith('/*'):
                s['desc'] = None
        p['lang'], p['country'] = 'en', 'US'
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        plain = set()
        for r in range(rng.randint(3, 6)):
            kind = rng.choice(DESC_KINDS + list(plain) * 4)
            before = lib.parse_file(path)
            before_bytes = lib.get(path)
            mine = fields(before, kind)
            label = f'desc/{i} round {r} {kind}'
            data = docs.export(ctx, path, kind, label)
            if data is None:
                break
            doc = docs.doc_path(path, kind)
            texts = {}
            titles = {}
            way = rng.choice(['plain', 'plain', 'office', 'edit', 'edit', 'edit'])
            if way == 'office':
                data = office.office(data, rng)
                ctx.event('word_processor_document')
            elif way == 'edit' and mine:
                for f in rng.sample(mine, rng.randint(1, min(len(mine), 5))):
                    texts[f[0]] = new_text(rng)
                if kind == '_scenes' and rng.random() < 0.4:
                    # a title between tildes in a comment at the start
                    for name in texts:
                        if rng.random() < 0.5:
                            titles[name] = docs.inline(rng, [w for w in docs.WORD_HOSTILE if '~' not in w and '*' not in w and '/' not in w], (1, 4)).strip()
                            ctx.event('scene_retitled')
                data = edit_sections(data, {n: rng.choice(['/*~{}~*/', '/* ~ {} ~ */', '/*~{}~ remark*/']).format(titles[n]) + t if n in titles else t
                                            for n, t in texts.items()}, rng)
                if rng.random() < 0.3:
                    data = office.office(data, rng)
                ctx.event('edited_description', len(texts))
            fresh = {}
            if kind in ('_characters', '_items', '_locations') and rng.random() < 0.4:
                data, fresh = add_sections(data, kind, before, rng)
                ctx.event('added_element', len(fresh))
                way = 'edit'
            lib.put(doc, data)
            if not docs.import_doc(ctx, doc, label, project=before_bytes, document=data):
                break
            if lib.get(doc) != data:
                ctx.violation(f'{label}: the imported document was changed')
            after = lib.parse_file(path)
            ctx.evaluated((before_bytes, kind, way), bool(mine))
            expected = copy.deepcopy(before)
            for name, group, x, key in mine:
                old = before[group][x][key]
                expected[group][x][key] = (texts[name] if name in texts else old or '').rstrip()
                if name in titles:
                    expected[group][x]['title'] = titles[name]
                ctx.event('description')
            for x, values in fresh.items():
                # a new element at the end, with nothing but its texts
                group = kind[1:]
                got = after[group].get(x)
                if got is None:
                    ctx.violation(f'{label}: the new element {x} is missing: {list(after[group])}', project=before_bytes, document=data)
                    break
                expected[group][x] = {k: values.get(k, '').rstrip() if k in texts_of(kind) else None if isinstance(v, str) and not v else v for k, v in got.items()}
            for s in list(after['scenes'].values()) + list(expected['scenes'].values()):
                s['desc'] = s['desc'] or None
            bad = ref_yw7.diff(expected, after, scene_order=True)
            if bad:
                ctx.violation(f'{label} {way}: {bad[:4]} edited {texts}', project=before_bytes, document=data)
                break
            if way == 'plain':
                if plain == {kind}:
                    ctx.event('fixpoint')
                    if lib.get(path) != before_bytes:
                        ctx.violation(f'{label}: importing the document again changed the project file', project=before_bytes, document=data)
                plain = {kind}
            else:
                plain.clear()
        ctx.drop(d)
    large(ctx)
    ctx.require('description', 500)
    ctx.require('edited_description', 100)
    ctx.require('added_element', 8)
    ctx.require('scene_retitled', 1)
    ctx.require('word_processor_document', 20)


def large(ctx):
    """Descriptions larger than the buffer of the XML parser."""
    for i, rng in ctx.cases('large', 6, 60):
        gen.reset()
        p = c04.trim(gen.project(rng, size='m'))
        d = ctx.dir()
        n = c10.BUFFER // 25 + rng.randint(0, 300)
        text = ' '.join(f'{gen.uid()}&word\u00e9' for __ in range(n))
        for c in p['characters'].values():
            c['bio'] = text
        for c in p['locations'].values():
            c['desc'] = text
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
        for kind in ('_characters', '_locations'):
            before = lib.parse_file(path)
            if docs.export(ctx, path, kind, f'large/{i}') and docs.import_doc(ctx, docs.doc_path(path, kind), f'large/{i} {kind}'):
                after = lib.parse_file(path)
                for name, group, x, key in fields(before, kind):
                    before[group][x][key] = (before[group][x][key] or '').rstrip()
                bad = ref_yw7.diff(before, after, scene_order=True)
                ctx.evaluated((i, kind), True)
                if bad:
                    ctx.violation(f'large/{i} {kind}: {bad[0][:300]}')
        ctx.drop(d)
