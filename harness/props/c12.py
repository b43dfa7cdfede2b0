"""C12: lists carry story data back unchanged."""
import copy
import os
import re
import xml.etree.ElementTree as ET

import docs
import gen
import lib
import lists
import ref_odf
import ref_yw7
from props import c04

LEVEL = 'exploration'
RULE = ('Projects with hostile values in all list columns are exported to the four lists, which are imported back as they are or as a spreadsheet program '
        'would save them (repeated cells, row groups, second sheet, spans, remarks); the project file is compared with its previous content by an '
        'independent parser, over several rounds in random order. Distinct by project, kind and round.')
ASSUMPTIONS = ['White space at the end of a cell is trimmed, a rating of 1 means N/A and is not distinguished from a missing rating.',
               'Tags contain no list separators (";", ", ").',
               'Multiple blanks do not survive a spreadsheet program, which collapses them.']


def single_blanks(p):
    """No runs of blanks, which a spreadsheet program would collapse."""
    def f(t):
        return '\n'.join(re.sub('  +', ' ', x).strip(' ') for x in t.split('\n')) if isinstance(t, str) else t
    for g in ('characters', 'locations', 'items', 'scenes'):
        for e in p[g].values():
            for k in e:
                e[k] = [f(t) for t in e[k]] if k == 'tags' and e[k] else f(e[k])


def project(rng, size=None):
    p = gen.project(rng, size=size or rng.choice(['s', 'm', 'm', 'l']), chtypes=(0, 0, 0, 0, 1, 2, 3))
    for s in p['scenes'].values():
        s['noexport'] = rng.random() < 0.08
    p = c04.trim(p)
    p['lang'], p['country'] = rng.choice([('en', 'US'), ('de', 'DE'), (None, None)])
    for g in ('characters', 'locations', 'items', 'scenes'):
        for e in p[g].values():
            if e['tags']:
                e['tags'] = [t for t in dict.fromkeys(re.sub(' +', ' ', t.replace(';', '').replace(', ', ' ')).strip(' ,') for t in e['tags']) if t.strip()] or None
    return p


def trimmed(p, kind):
    p = copy.deepcopy(p)
    rows = docs.expected_rows(p, kind)
    return lists.predict(p, kind, rows)


def compare(before, after, kind):
    for x in (before, after):
        lists.normalize(x, kind)
    return ref_yw7.diff(before, after, scene_order=True)


def run(ctx):
    for i, rng in ctx.cases('roundtrip', 70, 1500):
        gen.reset()
        p = project(rng, gen.size(rng, i, [None]))
        like_calc = rng.random() < 0.5
        if like_calc:
            single_blanks(p)
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        seen = set()
        for r in range(rng.randint(3, 6)):
            kind = rng.choice(docs.ODS_KINDS)
            label = f'roundtrip/{i} round {r} {kind}'
            before, before_bytes = lib.parse_file(path), lib.get(path)
            data = docs.export(ctx, path, kind, label)
            if data is None:
                break
            doc = docs.doc_path(path, kind)
            rewritten = like_calc and rng.random() < 0.7
            if rewritten:
                data = lists.calc(data, rng, lists.COLUMNS[kind])
                lib.put(doc, data)
                ctx.event('spreadsheet_program_document')
            if not docs.import_doc(ctx, doc, label, project=before_bytes, document=data):
                break
            if lib.get(doc) != data:
                ctx.violation(f'{label}: the imported document was changed')
            after = lib.parse_file(path)
            n = len(docs.expected_rows(before, kind))
            ctx.evaluated((before_bytes, kind, rewritten), bool(n))
            ctx.event('rows', n)
            want = trimmed(before, kind)
            bad = compare(want, after, kind)
            if bad:
                ctx.violation(f'{label}: {bad[:4]}', project=before_bytes, document=data)
                break
            # the prediction itself must not hide a loss
            lost = ref_yw7.diff(rstripped(before), rstripped(after), scene_order=True)
            if lost:
                ctx.violation(f'{label}: {lost[:4]}', project=before_bytes, document=data)
                break
            if kind in seen and not rewritten:
                ctx.event('fixpoint')
                if lib.get(path) != before_bytes:
                    ctx.violation(f'{label}: importing the list again changed the project file', project=before_bytes, document=data)
                    break
            seen = seen | {kind} if not rewritten else set()
        ctx.drop(d)
    probe_blanks(ctx)
    ctx.require('rows', 300)
    ctx.require('spreadsheet_program_document', 20)
    ctx.require('fixpoint', 5)


def rstripped(p):
    p = copy.deepcopy(p)
    lists.normalize(p, None)
    for g in ('characters', 'locations', 'items', 'scenes'):
        for e in p[g].values():
            for k in e:
                if isinstance(e[k], str):
                    e[k] = e[k].rstrip()
    return p


def probe_blanks(ctx):
    """Multiple blanks, as a spreadsheet program writes them."""
    rng = ctx.rng('probe')
    gen.reset()
    p = gen.project(rng, hostile=gen.SAFE_UNI, size='e')
    p.update(characters={}, items={}, lang='en', country='US')
    e = gen.world(rng, gen.SAFE_UNI)
    e.update(title='Place', desc='one blank', aka='', tags=None)
    p['locations'] = {'1': e}
    d = ctx.dir()
    path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
    data = docs.export(ctx, path, '_loclist', 'probe')
    if data is None:
        return

    def edit(root):
        for x in root.iter(lists.PARA):
            if x.text == 'one blank':
                x.text = 'two '
                s = ET.SubElement(x, ref_odf.q('text:s'))
                s.tail = 'blanks'

    lib.put(docs.doc_path(path, '_loclist'), ref_odf.rewrite(data, edit))
    docs.import_doc(ctx, docs.doc_path(path, '_loclist'), 'probe')
    got = lib.parse_file(path)['locations']['1']['desc']
    if got not in ('two  blanks', 'two blanks'):
        ctx.violation(f'probe: the description read is {got!r}')
    ctx.probe('multiple-blanks-in-cells', got != 'two  blanks', f'a list cell with two blanks, saved by a spreadsheet program, is read as {got!r}')
    ctx.drop(d)
