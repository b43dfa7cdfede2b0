"""C20: conversions touch only their own files."""
import gc
import os
import sys
import tempfile

import docs
import gen
import lib
from props import c04, c11, c18

LEVEL = 'exploration'
RULE = ('Conversions of all kinds (exports, imports, new projects, all with valid, damaged, locked, declined, disturbed and repeated variants) run in folder layouts full of neighbours (other projects, documents of the same names in '
        'other folders, files named like the parts of a document, in the working directory and beside the project) with absolute, relative and unusual paths. Every file operation the interpreter announces is matched '
        'with a whitelist (target, backup of the target, private temporary folder), and all files, folders, time stamps, the working directory and the environment are compared. Distinct by layout, path form and request.')
ASSUMPTIONS = ['File operations are observed through the audit events of the interpreter and by comparing the folder trees.']
PARTS = ['content.xml', 'styles.xml', 'meta.xml', 'settings.xml', 'mimetype', 'manifest.xml', os.path.join('META-INF', 'manifest.xml'), os.path.join('META-INF', 'other')]


def tree(folder):
    """{path: (bytes, time stamp)}, folders included."""
    out = {}
    for base, dirs, files in os.walk(folder):
        for n in dirs:
            out[os.path.join(base, n) + os.sep] = None
        for n in files:
            p = os.path.join(base, n)
            out[p] = (lib.get(p), os.stat(p).st_mtime_ns, os.stat(p).st_mode)
    return out


def neighbours(rng, folder):
    for n in rng.sample(PARTS, rng.randint(1, 5)):
        p = os.path.join(folder, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            lib.put(p, f'neighbour {n}')
    for n in ['novel2.yw7', 'novel.yw7.old', 'novel.odt.txt', 'novel_manuscript.doc', 'novel_Characters.xml', 'other.yw7', 'other_manuscript.odt', 'novel', 'odf_x.tmp', 'novel.bak', '.novel.yw7', 'novel.xml', 'Novel.YW7x']:
        if rng.random() < 0.4:
            lib.put(os.path.join(folder, n), f'neighbour {n}')


def run(ctx):
    mon = lib.FsMonitor.get()
    temp, home = tempfile.tempdir, os.getcwd()
    try:
        for i, rng in ctx.cases('files', 40, 600):
            case(ctx, mon, i, rng)
    finally:
        tempfile.tempdir = temp
        os.chdir(home)
    ctx.require('conversion', 250)
    ctx.require('write_operation', 400)
    ctx.require('success', 120)
    ctx.require('failure', 40)
    ctx.require('fault', 8)


def case(ctx, mon, i, rng):
    gen.reset()
    d = os.path.realpath(ctx.dir())
    work = os.path.join(d, rng.choice(['work', 'my work', 'w\u00f6rk', 'novel.yw7.d', 'a.b']))
    elsewhere = os.path.join(d, 'elsewhere')
    below = os.path.join(work, 'below')
    tmp = os.path.join(d, 'tmp')
    for f in (work, elsewhere, below, tmp):
        os.makedirs(f)
        neighbours(rng, f)
    p = c04.trim(gen.project(rng, size='s', content=lambda r: docs.scene_text(r, tilde=False)[0]))
    good = gen.build_xml(p, rng).encode('utf-8')
    path = lib.put(os.path.join(work, 'novel.yw7'), good)
    for f in (elsewhere, below):
        if rng.random() < 0.6:
            lib.put(os.path.join(f, 'novel.yw7'), good)
    tempfile.tempdir = tmp
    for r in range(8):
        for f in [n for n in os.listdir(work) if n.startswith('novel_') and n.endswith(('.odt', '.ods'))]:
            if rng.random() < 0.5:
                os.remove(os.path.join(work, f))
        kind = rng.choice(docs.KINDS)
        if os.path.exists(path + '.lock'):
            os.remove(path + '.lock')
        lib.put(path, good)
        k = rng.random()
        what = ''
        if k < 0.5:
            source, suffix, target = path, kind, docs.doc_path(path, kind)
            if rng.random() < 0.5:
                lib.put(target, b'the previous document')
            if rng.random() < 0.15:
                what = 'damaged '
                lib.put(path, c18.damage(rng, good))
        elif k < 0.9:
            data = docs.export(ctx, path, kind, f'files/{i}')
            if data is None:
                continue
            if rng.random() < 0.15:
                what = 'damaged '
                lib.put(docs.doc_path(path, kind), c18.damage(rng, data))
            source, suffix, target = docs.doc_path(path, kind), None, path
            if kind == '':
                target = None
        else:
            data = docs.export(ctx, path, '', f'files/{i}')
            if data is None:
                continue
            source, suffix, target = lib.put(os.path.join(work, 'created.odt'), data), None, os.path.join(work, 'created.yw7')
            if os.path.exists(target) and rng.random() < 0.8:
                os.remove(target)
        if rng.random() < 0.1:
            what += 'locked '
            lib.put(path + '.lock', b'')
        answer = rng.random() < 0.8
        cwd = rng.choice([work, below, elsewhere, d, tmp])
        os.chdir(cwd)
        form = rng.choice(['abs', 'rel', 'rel', 'dots', 'slash'])
        given = {'abs': source, 'rel': os.path.relpath(source), 'dots': os.path.join(work, '..', os.path.basename(work), os.path.basename(source)),
                 'slash': './' + os.path.relpath(source)}[form]
        before = tree(d)
        environ = dict(os.environ)
        hit = []
        if rng.random() < 0.45:
            what += 'disturbed '
            at = rng.randint(0, 22)

            def fault(n, op):
                # Removing, and returning to the working directory, is always possible.
                if n >= at and not hit and op[0] in ('write', 'read', 'rename', 'mkdir', 'chdir') and op[1] != cwd:
                    hit.append(op)
                    raise OSError(28, 'No space left on device')

            mon.fault = fault
        with mon:
            o = lib.convert(given, suffix, answer=answer)
            gc.collect()
        if hit:
            ctx.event('fault')
        trace = list(mon.trace)
        after = tree(d)
        label = f'files/{i}/{r} {what}{os.path.basename(source)} {suffix} from {os.path.relpath(cwd, d)} as {form}'
        ctx.evaluated((i, r, given, kind, cwd, what, good))
        ctx.event('conversion')
        ctx.event('success' if o.ok else 'failure')
        replay = dict(trace=trace, given=given, cwd=cwd, fault=hit)
        try:
            now = os.getcwd()
        except OSError as ex:
            now = f'unknown ({ex})'
        if now != cwd:
            ctx.violation(f'{label}: the working directory has become {now}', **replay)
            os.chdir(cwd)
        if dict(os.environ) != environ:
            ctx.violation(f'{label}: the environment has changed', **replay)
        own = {target, f'{target}.bak'} if target else set()
        made = set()
        for op in trace:
            ctx.event('operation')
            if op[0] == 'mktemp':
                made.add(op[1])
                continue
            if op[0] in ('chdir', 'opendir'):
                continue
            if op[0] == 'read':
                if op[1].startswith(d + os.sep) and op[1] not in own | {source, path, path + '.lock'} and not private(op[1], made, tmp):
                    ctx.violation(f'{label}: read {op[1]}', **replay)
                continue
            ctx.event('write_operation')
            if op[0] == 'exec':
                ctx.violation(f'{label}: started {op[1]}', **replay)
                continue
            for x in op[1:]:
                x = os.path.realpath(os.path.join(cwd, x))
                if x not in own and not private(x, made, tmp) and x != os.devnull:
                    if x.endswith('.pyc') or '__pycache__' in x:
                        continue
                    if x.startswith(d + os.sep) and not {x, x + os.sep} & (before.keys() | after.keys()):
                        # a temporary file
                        continue
                    ctx.violation(f'{label}: {op}', **replay)
        expected = own if o.ok else {f'{target}.bak'} if hit else ()
        for n in before.keys() | after.keys():
            was, now = before.get(n, 0), after.get(n, 0)
            if n == target and hit and was and now:
                # may have been restored from a copy
                was, now = was[0], now[0]
            if was != now and n not in expected:
                ctx.violation(f'{label}: {o!r}: {n} was {"removed" if n not in after else "created" if n not in before else "changed"}', **replay)
        if o.ok and target is None:
            ctx.violation(f'{label}: {o!r}: unexpected success', **replay)
        if o.ok and target not in after:
            ctx.violation(f'{label}: {o!r}: nothing was written', **replay)
    os.chdir(os.path.dirname(d))
    ctx.drop(d)


def private(path, made, tmp):
    """Temporary folders of the conversion, or an open temporary file in them."""
    for m in made:
        if path == m or path.startswith(m + os.sep):
            return True
    return False
