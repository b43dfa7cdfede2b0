"""C09: exported text is the text of the project."""
import os
import re

import docs
import gen
import lib
import ref_odf
import ref_yw7
from props import c08

LEVEL = 'exploration'
RULE = ('Projects with traced, hostile texts in all fields and scene texts from the markup grammar are exported to all document kinds but the '
        'cross reference; every paragraph, heading, run, comment, note and cell is compared with an independent interpretation of the project file. '
        'Distinct by project and kind.')
ASSUMPTIONS = ['Formatting tags in scene texts are balanced and properly nested; a formatted range that spans paragraphs is the only open one at the '
               'line break, and comments with line breaks are not inside a formatted range.',
               'By design: trailing white space of scene texts and cells is trimmed, tags for highlighting, alignment, strikethrough and underline '
               'are removed, raw code for other formats is left out of the novel export.']


def content(rng):
    if rng.random() < 0.05:
        # code for other formats, several times in a paragraph
        a = [rng.choice(['HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg']) for __ in range(rng.randint(2, 4))]
        if rng.random() < 0.5:
            a = [a[0]] * len(a)
        return rng.choice([' ', '', '\n', ' ']).join(f'{gen.uid()} <{c} {rng.choice(["x", "<b>", "</b>", "@page", "w:5"])}/{c}> {gen.uid()}' for c in a)
    if rng.random() < 0.02:
        # many notes
        return rng.choice(['\n', ' ']).join(f'{gen.uid()}/*@{rng.choice(["fn", "en", "fn", "fn*"])} {gen.uid()}*/' for __ in range(rng.randint(10, 16)))
    k = rng.random()
    if k < 0.7:
        return docs.scene_text(rng)[0]
    if k < 0.9:
        return gen.multi(rng, gen.ALL, (1, 6))
    if k < 0.95:
        return docs.scene_text(rng, paras=(1, 2))[0] + '\n\n\n' + docs.scene_text(rng, paras=(1, 2))[0]
    return rng.choice([None, f'[h1]{gen.uid()}[/h1] x', f'{gen.uid()} /* open', f'*/ {gen.uid()}', f'[u]{gen.uid()}[/u] [s]x[/s] [c]y[/c] [r]z[/r]',
                       f'> {gen.uid()}\n> {gen.uid()}\n{gen.uid()}', f'{gen.uid()} [x] [y]', f'{gen.uid()} <RTFBRK> <HTM x/HTM> y <TEX a /TEX>'])


def run(ctx):
    for i, rng in ctx.cases('text', 40, 700):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l']), content=content, chtypes=(0, 0, 0, 0, 1, 2), sctypes=(0, 0, 0, 0, 0, 1, 2))
        for s in p['scenes'].values():
            s['noexport'] = rng.random() < 0.05
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
        q = lib.parse_file(path)
        for kind in docs.KINDS:
            if kind == '_xref':
                continue
            label = f'text/{i} {kind or "(novel)"}'
            data = docs.export(ctx, path, kind, label)
            if data is None:
                continue
            pkg = docs.package(ctx, data, label, file=lib.get(path))
            ctx.evaluated((p, kind), bool(q['chapters'] or q['characters']))
            if pkg is None:
                continue
            if kind in docs.ODS_KINDS:
                check_rows(ctx, pkg, q, kind, label, path)
                continue
            blocks = pkg.blocks()
            exp = docs.expected(q, kind, 'novel')
            ctx.event('paragraphs', len(blocks))
            ctx.event('formatted_runs', sum(1 for b in blocks for __, m in b.runs() if m))
            ctx.event('comments', sum(len(b.comments) for b in blocks))
            ctx.event('notes', sum(len(b.notes) for b in blocks))
            diff = docs.compare_blocks(blocks, exp, kind)
            if diff:
                ctx.violation(f'{label}: {diff}', file=lib.get(path))
            for b in blocks:
                for __, c, creator in b.comments:
                    if (creator or '') != (q['author'] or ''):
                        ctx.violation(f'{label}: comment by {creator!r} instead of {q["author"]!r}')
            if kind == '':
                check_notes(ctx, blocks, exp, label, path)
            if kind == '_manuscript' and i < 3:
                ctx.sample([repr(b) for b in blocks[4:8]], 2)
        ctx.drop(d)
    ctx.require('paragraphs', 5000)
    ctx.require('formatted_runs', 1000)
    ctx.require('comments', 200)
    ctx.require('notes', 5)
    ctx.require('cells', 2000)
    ctx.require('documents_with_many_notes', 1)
    probes(ctx)


def check_notes(ctx, blocks, exp, label, path):
    ids, labels = [], []
    for b, e in zip(blocks, exp):
        want = []
        for pos, c in e.comments:
            m = docs.NOTE_MARK.match(c)
            if m:
                cls = 'footnote' if '@f' in m.group() else 'endnote'
                want.append((pos, c[m.end():], cls, '*' in m.group()))
        have = [(pos, t, cls, lab == '*') for pos, t, cls, lab, __ in b.notes]
        if have != want:
            ctx.violation(f'{label}: notes {have} instead of {want} in {e!r}', file=lib.get(path))
        ids += [n[4] for n in b.notes]
        labels += [n[3] for n in b.notes if n[3] != '*']
    if labels != [str(k + 1) for k in range(len(labels))]:
        ctx.violation(f'{label}: the notes are numbered {labels}', file=lib.get(path))
    if len(labels) > 9:
        ctx.event('documents_with_many_notes')
    if len(set(ids)) != len(ids):
        ctx.violation(f'{label}: note identifiers are not unique: {ids}')


def check_rows(ctx, pkg, q, kind, label, path):
    rows = pkg.rows()
    exp = docs.expected_rows(q, kind)
    width = {'_charlist': 10, '_loclist': 5, '_itemlist': 5, '_scenelist': 21}[kind]
    if kind == '_scenelist':
        head = ['Scene link', 'Scene title', 'Scene description', 'Tags', 'Scene notes', 'A/R', 'Goal', 'Conflict', 'Outcome', 'Scene', 'Words total']
        head += [(q[f'ft{k}'] or '').rstrip() for k in '1234'] + ['Word count', 'Letter count', 'Status', 'Characters', 'Locations', 'Items']
    else:
        head = docs.HEADERS[kind]
    if rows[0][:width] != head:
        ctx.violation(f'{label}: column titles {rows[0][:width]} instead of {head}')
    if len(rows) - 1 != len(exp):
        ctx.violation(f'{label}: {len(rows) - 1} rows instead of {len(exp)}', file=lib.get(path))
    for r, e in zip(rows[1:], exp):
        for k, (a, b) in enumerate(zip(r[:width], e)):
            ctx.event('cells')
            if a != b:
                ctx.violation(f'{label}: row {e[0]} column {head[k]!r}: {a!r} instead of {b!r}', file=lib.get(path))


def novel_with(content, **more):
    import random
    rng = random.Random(1)
    gen.reset()
    p = gen.project(rng, hostile=gen.SAFE_UNI, size='e')
    s = gen.scene(rng, gen.SAFE_UNI, [], [], [])
    s.update(content=content, type=0, noexport=False, append=False, status=1, **more)
    p['scenes'] = {'1': s}
    p['chapters'] = {'1': dict(title='Chapter', desc='', level=0, type=0, suppress=False, nobreak=False, trash=False, scenes=['1'])}
    return gen.build_xml(p, rng)


def probes(ctx):
    """Unusual markup that the exporter is known not to handle."""
    for key, content in (('crossing-markup', '[i]one [b]two[/i] three[/b]'),
                         ('nested-markup-across-paragraphs', '[i]one [b]two\nthree[/b] four[/i]'),
                         ('comment-with-line-break-in-markup', '[i]one /*first\nsecond*/ two[/i]')):
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), novel_with(content))
        o = lib.convert(path, '_manuscript')
        bad = None
        if not o.ok:
            bad = repr(o)
        else:
            try:
                blocks = ref_odf.Package(lib.get(o.new_file)).blocks()
                q = lib.parse_file(path)
                bad = docs.compare_blocks(blocks, docs.expected(q, '_manuscript', 'novel'), '_manuscript')
            except ref_odf.BadPackage as ex:
                bad = str(ex)
        ctx.probe(key, bad is not None, f'{content!r} exported to a manuscript: {bad}', content=content)
        ctx.drop(d)

    # What an office program shows of repeated blanks
    for key, kind, where in (('repeated-blanks-in-manuscripts', '_manuscript', dict(content='two  blanks')),
                             ('repeated-blanks-in-descriptions', '_scenes', dict(content='x', desc='two  blanks'))):
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), novel_with(**where))
        o = lib.convert(path, kind)
        shown = repr(o)
        if o.ok:
            try:
                root = ref_odf.Package(lib.get(o.new_file)).root('content.xml')
                shown = [t for t in (displayed(x) for x in root.iter(ref_odf.PARA)) if t.startswith('two')]
            except ref_odf.BadPackage as ex:
                shown = str(ex)
        if shown not in (['two blanks'], ['two  blanks']):
            ctx.violation(f'probe: "two  blanks" in a {kind} document is shown by office programs as {shown}')
        ctx.probe(key, shown != ['two  blanks'],
                  f'"two  blanks" in a {kind} document is shown by office programs as {shown}')
        ctx.drop(d)


def displayed(paragraph):
    """The text of a paragraph of plain text and text:s elements: office programs take repeated white space for one blank."""
    pieces = [paragraph.text or '']
    for c in paragraph:
        if c.tag == ref_odf.q('text:s'):
            pieces.append('\0' * int(c.get(ref_odf.q('text:c'), 1)))
        else:
            pieces.extend(c.itertext())
        pieces.append(c.tail or '')
    return re.sub('[ \t\r\n]+', ' ', ''.join(pieces)).replace('\0', ' ')
