"""C08: each document holds exactly the chapters, scenes and elements of its kind."""
import os

import docs
import gen
import lib
import ref_odf
import ref_yw7

LEVEL = 'exploration'
RULE = ('Random projects with all mixtures of chapter and scene types, levels, export flags and links are exported to all document kinds; the '
        'sequence of headings, sections and rows is compared with an independently computed selection. Distinct by project structure and kind.')


def structure(p):
    return [(c['type'], c['level'], c['trash'], c['suppress'],
             [(p['scenes'][s]['type'], p['scenes'][s]['noexport'], p['scenes'][s]['append'], bool(p['scenes'][s]['content'])) for s in c['scenes']])
            for c in p['chapters'].values()]


def check(ctx, path, kind, p, label, texts=False):
    data = docs.export(ctx, path, kind, label)
    if data is None:
        return
    pkg = docs.package(ctx, data, f'{label} {kind}', file=lib.get(path))
    if pkg is None:
        return
    name = os.path.splitext(os.path.basename(path))[0]
    if kind in docs.ODS_KINDS:
        rows = [r[:21] for r in pkg.rows()[1:]]
        exp = docs.expected_rows(p, kind)
        ctx.event('rows', len(rows))
        if [r[0] for r in rows] != [r[0] for r in exp]:
            ctx.violation(f'{label} {kind}: rows {[r[0] for r in rows]} instead of {[r[0] for r in exp]}', file=lib.get(path))
        elif kind == '_scenelist' and [r[9] for r in rows] != [r[9] for r in exp]:
            ctx.violation(f'{label} {kind}: scene numbers {[r[9] for r in rows]}', file=lib.get(path))
    else:
        blocks = pkg.blocks()
        exp = docs.expected(p, kind, name)
        ctx.event('paragraphs', len(blocks))
        d = docs.compare_blocks(blocks, exp, kind, texts=texts)
        if d:
            ctx.violation(f'{label} {kind}: {d}', file=lib.get(path))


def single_line(rng):
    return gen.line(rng, gen.SAFE_UNI)


def run(ctx):
    kinds = [k for k in docs.KINDS if k != '_xref']
    for i, rng in ctx.cases('random', 40, 700):
        gen.reset()
        p = gen.project(rng, hostile=gen.SAFE_UNI, size=gen.size(rng, i, ['e', 's', 'm', 'm', 'l']), chtypes=rng.choice([(0, 0, 0, 1, 2, 3), (0,), (1, 2, 3), (0, 1)]),
                        sctypes=rng.choice([(0, 0, 0, 1, 2, 3), (0,), (1, 2), (0, 3)]))
        tweak(rng, p)
        check_all(ctx, rng, p, kinds, f'random/{i}', i)
    # every combination of chapter type, level and of the types and flags of two scenes
    combos = [(ct, lv, t1, x1, t2, x2, ap) for ct in range(4) for lv in (0, 1) for t1 in range(4) for x1 in (0, 1) for t2 in range(4) for x2 in (0, 1)
              for ap in (0, 1)]
    size = 8
    chunks = [combos[k:k + size] for k in range(0, len(combos), size)]
    order = list(range(len(chunks)))
    ctx.rng('combos').shuffle(order)
    for i, rng in ctx.cases('table', 20, len(chunks)):
        gen.reset()
        p = gen.project(rng, hostile=gen.SAFE_UNI, size='e')
        p['chapters'], p['scenes'] = {}, {}
        n = 0
        for k, (ct, lv, t1, x1, t2, x2, ap) in enumerate(chunks[order[i % len(chunks)]], 1):
            c = dict(title=single_line(rng), desc=single_line(rng), level=lv, type=ct, suppress=False, nobreak=False, trash=False, scenes=[])
            for t, x, a in ((t1, x1, 0), (t2, x2, ap)):
                n += 1
                s = gen.scene(rng, gen.SAFE_UNI, [], [], [], content=single_line)
                s.update(type=t if ct == 0 else ct, noexport=bool(x), append=bool(a), title=single_line(rng))
                p['scenes'][str(n)] = s
                c['scenes'].append(str(n))
                ctx.event('combination')
            p['chapters'][str(k)] = c
        check_all(ctx, rng, p, ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_notes', '_todo', '_scenelist'], f'table/{i}', i)
    ctx.require('paragraphs', 3000)
    ctx.require('rows', 200)
    ctx.require('combination', 200)


def tweak(rng, p):
    for c in p['chapters'].values():
        if rng.random() < 0.2:
            for s in c['scenes']:
                p['scenes'][s]['noexport'] = True
    for s in p['scenes'].values():
        k = rng.random()
        if k < 0.06:
            s['content'] = rng.choice(['<HTML>', '<TEX>']) + ' ' + gen.line(rng, gen.SAFE_UNI)
        elif k < 0.1:
            s['content'] = ' <HTML> ' + gen.line(rng, gen.SAFE_UNI)
        elif k < 0.2:
            s['append'] = True


def check_all(ctx, rng, p, kinds, label, i):
    d = ctx.dir()
    path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
    q = lib.parse_file(path)
    for k in kinds:
        check(ctx, path, k, q, label)
        ctx.evaluated((structure(q), k), bool(q['chapters']))
    ctx.sample({'structure': structure(q)}, 2)
    ctx.drop(d)
