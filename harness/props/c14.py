"""C14: list rows can be edited, reordered, added and removed."""
import os

import docs
import gen
import lib
import lists
import ref_yw7
from props import c12

LEVEL = 'exploration'
RULE = ('Exported lists get random cell edits, permutations, new rows with unused IDs, deleted rows, repeated rows and foreign rows, partly with the '
        'table layout of a spreadsheet program, and are imported; a shadow project predicts the project file. Histories of several imports per project. '
        'Distinct by project, kind and rows.')
ASSUMPTIONS = ['New rows carry an ID of their own; rows without ID are ignored. Scene lists only edit scenes.',
               'Tags contain no list separators (";", ", "). Ratings outside 2..10 mean N/A; an unknown status keeps the previous one.']


def cell(rng, how, single=False):
    h = gen.ALL
    if how == 'tags':
        t = [x.replace(';', '').replace(', ', ' ').strip(' ,') for x in gen.tags(rng, h) or []]
        t = [x for x in t if x.strip()]
        k = rng.random()
        if k < 0.1 and t:
            t.append(t[0])
        return ', '.join(t) + (', ' if k > 0.9 and t else '')
    if how == 'major':
        return rng.choice(['Major', 'Minor', 'Minor', '', 'Major', 'x', 'Major (sort of)'])
    if how == 'reaction':
        return rng.choice(['R', 'A', 'r', 'a', '', 'Reaction', 'Action'])
    if how == 'rating':
        return rng.choice(['', '1', '2', '5', '9', '10', '0', '11', 'x', '3'])
    if how == 'status':
        return rng.choice(docs.STATUS + ['outline', 'Finished', 'Done', 'Draft'])
    k = rng.random()
    if k < 0.2:
        return ''
    if k < 0.6:
        return gen.line(rng, h)
    if k < 0.7:
        return gen.line(rng, h) + rng.choice([' ', '\n', '\n\n'])
    return gen.multi(rng, h)


def edit(ctx, rng, p, kind, rows, used):
    """Edit the rows in place; returns them."""
    fields = lists.FIELDS[kind]
    group = lists.GROUP[kind]
    for __ in range(rng.choice([0, 1, 1, 2, 4, 8])):
        if not rows:
            break
        r = rng.choice(rows)
        col = rng.choice(list(fields))
        r[col] = cell(rng, fields[col][1])
        ctx.event('edited_cell')
    if rows and rng.random() < 0.4:
        # the rest of a row is deleted
        r = rng.choice(rows)
        for col in range(rng.randint(1, 3), len(r)):
            r[col] = ''
        ctx.event('blank_row')
    if kind != '_scenelist':
        for __ in range(rng.choice([0, 0, 1, 1, 2])):
            new = rng.choice([str(max([0] + [int(x) for x in used]) + 1), str(rng.randint(1, 400))])
            if new in used:
                continue
            used.add(new)
            r = [lists.PREFIX[kind] + new] + [''] * (lists.COLUMNS[kind] - 1)
            for col, (key, how) in fields.items():
                if rng.random() < 0.7:
                    r[col] = cell(rng, how)
            rows.insert(rng.randint(0, len(rows)), r)
            ctx.event('added_row')
    elif rng.random() < 0.3:
        # a scene that was deleted from the project
        new = str(rng.choice([max([0] + [int(x) for x in used]) + 1, rng.randint(1, 400)]))
        if new not in used:
            r = [lists.PREFIX[kind] + new] + [''] * (lists.COLUMNS[kind] - 1)
            for col, (key, how) in fields.items():
                if rng.random() < 0.7:
                    r[col] = cell(rng, how)
            rows.insert(rng.randint(0, len(rows)), r)
            ctx.event('row_of_missing_scene')
    for __ in range(rng.choice([0, 0, 0, 1, 2])):
        if rows:
            rows.pop(rng.randrange(len(rows)))
            ctx.event('removed_row')
    k = rng.random()
    if k < 0.3:
        rng.shuffle(rows)
        ctx.event('shuffled')
    elif k < 0.5:
        col = rng.choice(list(fields))
        rows.sort(key=lambda r: r[col], reverse=rng.random() < 0.5)
        ctx.event('sorted')
    if rows and rng.random() < 0.07:
        r = list(rng.choice(rows))
        r[1] = gen.line(rng, gen.SAFE_UNI)
        rows.append(r)
        ctx.event('repeated_row')
    if rng.random() < 0.15:
        rows.insert(rng.randint(0, len(rows)), [''] + [gen.line(rng, gen.SAFE_UNI)] * (lists.COLUMNS[kind] - 1))
        ctx.event('foreign_row')
    if rng.random() < 0.1:
        rows.insert(rng.randint(0, len(rows)), ['Total'] + [''] * (lists.COLUMNS[kind] - 1))
        ctx.event('foreign_row')
    return rows


def run(ctx):
    for i, rng in ctx.cases('edit', 80, 1600):
        gen.reset()
        p = c12.project(rng, gen.size(rng, i, [None]))
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        used = {k: set(p[k]) for k in ('characters', 'locations', 'items', 'scenes')}
        for r in range(rng.randint(2, 6)):
            kind = rng.choice(docs.ODS_KINDS)
            label = f'edit/{i} round {r} {kind}'
            before, before_bytes = lib.parse_file(path), lib.get(path)
            data = docs.export(ctx, path, kind, label)
            if data is None:
                break
            doc = docs.doc_path(path, kind)
            rows = edit(ctx, rng, before, kind, docs.expected_rows(before, kind), used[lists.GROUP[kind]])
            data = lists.with_rows(data, rows)
            if rng.random() < 0.4:
                data = lists.calc(data, rng, lists.COLUMNS[kind])
                ctx.event('spreadsheet_program_document')
            lib.put(doc, data)
            if not docs.import_doc(ctx, doc, label, project=before_bytes, document=data):
                break
            if lib.get(doc) != data:
                ctx.violation(f'{label}: the imported document was changed')
            ctx.evaluated((before_bytes, kind, repr(rows)), bool(rows))
            want = lists.predict(before, kind, rows)
            # white space at the end of a cell may be kept or not
            after = lib.parse_file(path)
            if kind == '_scenelist':
                # rows of scenes that are not in the project may be kept, but not in a chapter
                for sid in set(after['scenes']) - set(want['scenes']):
                    del after['scenes'][sid]
            bad = ref_yw7.diff(c12.rstripped(want), c12.rstripped(after), scene_order=True)
            if bad:
                ctx.violation(f'{label}: {bad[:4]}', project=before_bytes, document=data)
                break
        ctx.drop(d)
    ctx.require('edited_cell', 100)
    ctx.require('added_row', 20)
    ctx.require('removed_row', 20)
    ctx.require('spreadsheet_program_document', 20)
    ctx.require('row_of_missing_scene', 3)
