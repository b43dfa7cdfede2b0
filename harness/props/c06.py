"""C06: a project that is open in yWriter is neither read nor changed."""
import os

import docs
import gen
import lib
import ref_yw7

LEVEL = 'exploration'
RULE = ('Random projects with all their documents are snapshotted; with a lock file beside the project every export, every import, direct '
        'loads and saves of open sessions are tried, with the lock present before, or appearing during the operation; then the lock is removed and '
        'the same operations are repeated. Distinct by project and operation.')
ASSUMPTIONS = ['The lock file of yWriter is the project file name with ".lock" appended.']

NAMES = ['novel', 'my novel', 'n.v2', '\u00dcbung', 'x_manuscript', 'a & b', 'lock', 'novel.lock']


def check_same(ctx, before, d, label, **replay):
    after = lib.snapshot(d)
    if after != before:
        changed = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
        ctx.violation(f'{label}: files changed although the project is locked: {changed}', **replay)
        return False
    return True


def run(ctx):
    mon = lib.FsMonitor.get()
    for i, rng in ctx.cases('locked', 16, 200):
        gen.reset()
        p = gen.project(rng, hostile=gen.SAFE_UNI, size=rng.choice(['s', 'm']))
        d = ctx.dir()
        name = rng.choice(NAMES)
        path = lib.put(os.path.join(d, name + '.yw7'), gen.build_xml(p, rng))
        lock = path + '.lock'
        if rng.random() < 0.5:
            lib.put(path + '.bak', b'older')
        have = [k for k in docs.KINDS if rng.random() < 0.8]
        for k in have:
            if docs.export(ctx, path, k, f'locked/{i}') is None:
                break
        # documents without effect on the result of the lock test
        lib.put(os.path.join(d, 'other.yw7.lock'), b'')
        lib.put(os.path.join(d, name + '.yw'), b'')
        session = lib.load(path)
        session.novel.title = 'Edited ' + str(session.novel.title)
        lib.put(lock, rng.choice([b'', b'locked by someone']))
        before = lib.snapshot(d)
        ctx.sample({'name': name, 'documents': len(have)}, 2)

        ops = [('export', k) for k in docs.KINDS] + [('import', k) for k in have if k in docs.IMPORTABLE] + [('load', ''), ('save', ''), ('save-new', '')]
        rng.shuffle(ops)
        for op, k in ops:
            ctx.evaluated((i, op, k, p))
            label = f'locked/{i}: {op} {k}'
            if op == 'export':
                o = lib.convert(path, k, which=rng.choice(['Yw7Converter', 'Yw7Exporter']))
                refused = not o.ok and o.raised is None and o.new_file is None
            elif op == 'import':
                o = lib.convert(docs.doc_path(path, k))
                refused = not o.ok and o.raised is None and o.new_file is None
            else:
                o = None
                try:
                    if op == 'load':
                        lib.load(path)
                    elif op == 'save':
                        session.write()
                    else:
                        f = lib.new_file(path)
                        f.novel.title = 'Another project'
                        f.write()
                    refused = False
                except Exception as ex:
                    refused = type(ex).__name__ == 'Error' and bool(str(ex))
                    o = ex
            ctx.event('locked_' + op)
            if not refused:
                ctx.violation(f'{label}: not refused with an error message: {o!r}')
            if not check_same(ctx, before, d, label):
                break

        # the lock appears while an operation is running
        for k in [k for k in have if k in docs.IMPORTABLE][:3]:
            os.remove(lock)
            label = f'locked/{i}: lock appears during import {k}'
            doc = docs.doc_path(path, k)

            def fault(n, op):
                if op[0] == 'read' and op[1] == os.path.abspath(doc) and not os.path.exists(lock):
                    reads.append(op)
                    # the project has been read by then (checked below)
                    if any(x[0] == 'read' and x[1] == os.path.abspath(path) for x in mon.trace[:n]):
                        lib.put(lock, before[os.path.basename(lock)])

            reads = []
            with mon:
                mon.fault = fault
                o = lib.convert(doc)
            ctx.evaluated((i, 'during', k, p))
            if os.path.exists(lock):
                ctx.event('lock_during')
                if o.ok or o.raised is not None or o.new_file is not None:
                    ctx.violation(f'{label}: not refused with an error message: {o!r}')
                check_same(ctx, before, d, label)
            else:
                # the document was read before the project: nothing to judge
                lib.put(lock, before[os.path.basename(lock)])
                for n, data in before.items():
                    lib.put(os.path.join(d, n), data)

        # without the lock, everything works
        os.remove(lock)
        for k in rng.sample(docs.KINDS, 4):
            if k in have:
                os.remove(docs.doc_path(path, k))
            docs.export(ctx, path, k, f'unlocked/{i}')
            ctx.event('unlocked_export')
        session.write()
        if lib.parse_file(path)['title'] != session.novel.title:
            ctx.violation(f'unlocked/{i}: the save had no effect')
        ctx.event('unlocked_save')
        for k in [k for k in have if k in docs.IMPORTABLE and os.path.exists(docs.doc_path(path, k))][:3]:
            docs.import_doc(ctx, docs.doc_path(path, k), f'unlocked/{i}')
            ctx.event('unlocked_import')
        ctx.drop(d)
    # direct loads and saves, whatever the project file is called
    for i, rng in ctx.cases('names', 12, 60):
        gen.reset()
        p = gen.project(rng, size='s')
        d = ctx.dir()
        stem = rng.choice(NAMES)
        ext = ['.yw7', '.YW7', '.Yw7', '.yW7', '.YW7.yw7', '.yw7.yw7'][i % 6]
        path = lib.put(os.path.join(d, stem + ext), gen.build_xml(p, rng))
        session = lib.load(path)
        lib.put(path + '.lock', b'')
        lib.put(os.path.join(d, 'unrelated' + ext), b'')
        before = lib.snapshot(d)
        for op, call in (('load', lambda: lib.load(path)), ('save', session.write), ('save-new', lib.new_file(path).write)):
            ctx.evaluated(('names', stem, ext, op))
            try:
                call()
                refused = None
            except Exception as ex:
                refused = ex
            ctx.event('locked_name')
            if refused is None or type(refused).__name__ != 'Error' or not str(refused):
                ctx.violation(f'names/{i}: {op} of {stem + ext!r} is not refused with an error message: {refused!r}')
            check_same(ctx, before, d, f'names/{i}: {op}')
        os.remove(path + '.lock')
        # locks of other files do not matter
        for other in (stem + '.lock', 'unrelated' + ext + '.lock', stem + ext + '.lck', '.~lock.' + stem + ext + '#', stem + ext + '.bak.lock'):
            if other != stem + ext + '.lock':
                lib.put(os.path.join(d, other), b'')
        session.novel.title = 'Saved'
        session.write()
        ctx.event('unlocked_name')
        if lib.load(path).novel.title != 'Saved':
            ctx.violation(f'names/{i}: the save of {stem + ext!r} had no effect')
        ctx.drop(d)
    for name, m in (('locked_name', 30), ('unlocked_name', 10), ('locked_export', 150), ('locked_import', 80), ('locked_load', 10), ('locked_save', 10), 
                    ('unlocked_export', 20), ('unlocked_import', 20)):
        ctx.require(name, m)
