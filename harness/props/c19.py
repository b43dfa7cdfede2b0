"""C19: a failed or declined conversion leaves existing files as they were."""
import errno
import gc
import io
import os
import re
import resource
import signal
import tempfile
import zipfile

import docs
import gen
import lib
from props import c04, c05

LEVEL = 'fault_enumeration'
RULE = ('Each conversion (export of every kind, import of every importable kind, creation of projects from documents) is first run undisturbed while the file operations are traced, then repeated with '
        'every traced operation failing once (no space, no permission), with all operations failing from there on, with writes cut at sampled byte counts, and with the overwrite question declined. '
        'The working folder and the folder for temporary files are compared byte by byte with the state before, or, if success is reported, with the undisturbed result. Distinct by conversion, input and fault point.')
ASSUMPTIONS = ['The working directory of the process can always be entered again.',
               'The backup of an older version may be consumed when the current version is restored from it.',
               'When the removal of temporary files itself fails permanently, they may stay.']


def same(a, b):
    """Compare two results; documents carry the time of their creation."""
    if a == b:
        return True
    if a is None or b is None or not a.startswith(b'PK') or not b.startswith(b'PK'):
        return False
    try:
        x, y = zipfile.ZipFile(io.BytesIO(a)), zipfile.ZipFile(io.BytesIO(b))
        if x.namelist() != y.namelist():
            return False
        for n in x.namelist():
            if re.sub(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', b'', x.read(n)) != re.sub(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', b'', y.read(n)):
                return False
    except Exception:
        return False
    return True


def without_bak(files):
    return {n: b for n, b in files.items() if not n.endswith('.bak')}


class Job:
    """One conversion in its own folder, which can be set up again and again."""

    def __init__(self, d, files, source, suffix, target):
        self.d = d
        self.files = files
        self.source = os.path.join(d, source)
        self.suffix = suffix
        self.target = target

    def setup(self):
        for n in os.listdir(self.d):
            if n != 'tmp':
                os.remove(os.path.join(self.d, n))
        for n, b in self.files.items():
            lib.put(os.path.join(self.d, n), b)
        lib.rm(os.path.join(self.d, 'tmp'))
        os.mkdir(os.path.join(self.d, 'tmp'))

    def run(self, answer=True):
        o = lib.convert(self.source, self.suffix, answer=answer)
        gc.collect()
        return o

    def state(self):
        s = lib.snapshot(self.d)
        left = sorted(n for n in os.listdir(os.path.join(self.d, 'tmp')))
        return {n: b for n, b in s.items() if not n.startswith('tmp' + os.sep)}, left


def jobs(ctx, rng, i):
    gen.reset()
    d = ctx.dir()
    p = c04.trim(gen.project(rng, size='s', content=lambda r: docs.scene_text(r, tilde=False)[0]))
    good = gen.build_xml(p, rng).encode('utf-8')
    path = lib.put(os.path.join(d, 'novel.yw7'), good)
    yield d, None
    others = {'other.yw7': b'another project', 'novel_manuscript.txt': b'notes'}
    for kind in docs.KINDS if ctx.thorough else rng.sample(docs.KINDS, 5):
        target = os.path.basename(docs.doc_path(path, kind))
        files = {'novel.yw7': good, **others}
        k = rng.random()
        if k < 0.6:
            files[target] = rng.choice([b'the previous document', b'the previous document', b''])
            if k < 0.2:
                files[target + '.bak'] = b'the document before'
        yield d, Job(d, files, 'novel.yw7', kind, target)
    documents = {}
    for kind in docs.IMPORTABLE if ctx.thorough else rng.sample(docs.IMPORTABLE, 4):
        data = docs.export(ctx, path, kind, f'faults/{i}')
        if data is None:
            continue
        documents[kind] = data
        lib.load(path).write()
        other = lib.get(path)
        lib.put(path, good)
        files = {'novel.yw7': rng.choice([good, other]), os.path.basename(docs.doc_path(path, kind)): data, **others}
        if rng.random() < 0.3:
            files['novel.yw7.bak'] = b'the project before'
        yield d, Job(d, files, os.path.basename(docs.doc_path(path, kind)), None, 'novel.yw7')
    data = docs.export(ctx, path, '', f'faults/{i}')
    if data is not None:
        yield d, Job(d, {'new.odt': data, **others}, 'new.odt', None, 'new.yw7')


def run(ctx):
    ctx.thorough = ctx.n(0, 1)
    mon = lib.FsMonitor.get()
    saved = tempfile.tempdir
    for i, rng in ctx.cases('faults', 3, 8):
        d = None
        for d, job in jobs(ctx, rng, i):
            if job is None:
                continue
            try:
                check(ctx, mon, job, rng, f'faults/{i} {os.path.basename(job.source)}{"" if job.suffix is None else " -> " + job.target}')
            finally:
                tempfile.tempdir = saved
        ctx.drop(d)
    ctx.require('fault_injected', 60)
    ctx.require('failure_reported', 150)
    ctx.require('declined', 5)
    ctx.require('short_write_failed', 20)


def check(ctx, mon, job, rng, label):
    cwd = os.getcwd()
    tempfile.tempdir = os.path.join(job.d, 'tmp')
    job.setup()
    before, __ = job.state()
    exists = job.target in before
    with mon:
        o = job.run()
    trace = list(mon.trace)
    result, left = job.state()
    replay = dict(project=job.files.get('novel.yw7'), document=job.files.get(os.path.basename(job.source)))
    if not o.ok:
        ctx.violation(f'{label}: failed: {o!r}', **replay)
        return
    if left:
        ctx.violation(f'{label}: working files are left: {left}', **replay)
        return
    if len(o.ui.questions) != exists or (exists and job.target not in o.ui.questions[0]):
        ctx.violation(f'{label}: the target {"exists" if exists else "does not exist"}, questions: {o.ui.questions}', **replay)
    for n in before:
        if n != job.target and n != job.target + '.bak' and result.get(n) != before[n]:
            ctx.violation(f'{label}: {n} was changed', **replay)
    if exists and result.get(job.target + '.bak') != before[job.target]:
        ctx.violation(f'{label}: the backup of {job.target} is not the previous version', **replay)
    if set(result) - set(before) - {job.target, job.target + '.bak'}:
        ctx.violation(f'{label}: additional files {sorted(set(result) - set(before))}', **replay)
    ctx.event('clean')
    ctx.sample({'conversion': label, 'trace': [[os.path.basename(str(x)) for x in op] for op in trace]}, 3)

    # declined
    if exists:
        job.setup()
        for how in (False, None, 0):
            o = job.run(answer=how)
            ctx.evaluated((label, 'declined', how, before.get('novel.yw7')))
            ctx.event('declined')
            now, left = job.state()
            if now != before or left or o.ok or o.new_file is not None or o.raised is not None:
                ctx.violation(f'{label}: declined, but {o!r}, changed {changed(before, now)}, left {left}', **replay)
                job.setup()

    def judge(o, where, permanent=False):
        now, left = job.state()
        ctx.evaluated((label, where, before.get('novel.yw7'), replay['document']))
        if os.getcwd() != cwd:
            ctx.violation(f'{label}: {where}: the working directory has become {os.getcwd()}', **replay)
            os.chdir(cwd)
        if o.raised is not None:
            ctx.violation(f'{label}: {where}: {o!r}', **replay)
        elif not o.ok:
            ctx.event('failure_reported')
            if o.new_file is not None:
                ctx.violation(f'{label}: {where}: a failure with a result: {o!r}', **replay)
            if without_bak(now) != without_bak(before) and not permanent:
                ctx.violation(f'{label}: {where}: failed ({o.message}), but {changed(without_bak(before), without_bak(now))} changed', **replay)
            if permanent and exists and before[job.target] not in (now.get(job.target), now.get(job.target + '.bak')):
                ctx.violation(f'{label}: {where}: failed ({o.message}), and the previous {job.target} is lost', **replay)
            new_bak = [n for n in now if n.endswith('.bak') and n not in before]
            if new_bak and not permanent:
                ctx.violation(f'{label}: {where}: failed ({o.message}), but left {new_bak}', **replay)
        else:
            ctx.event('success_in_spite_of_fault')
            for n in result.keys() | now.keys():
                if not same(result.get(n), now.get(n)):
                    ctx.violation(f'{label}: {where}: success was reported, but {n} differs from the undisturbed result', **replay)
        if left and not permanent:
            ctx.violation(f'{label}: {where}: {o!r}: working files are left: {left}', **replay)
        return o.ok

    # one operation fails; all operations from one on fail
    errors = [errno.ENOSPC, errno.EACCES]
    for k in range(len(trace)):
        for mode in ['once', 'on']:
            err = errors[(k + (mode == 'on')) % 2] if not ctx.thorough else None
            for e in ([err] if err else errors):
                job.setup()
                hit = []

                def fault(n, op):
                    if op[0] == 'chdir' and op[1] == cwd:
                        return
                    if n == k or (n > k and mode == 'on'):
                        hit.append(op)
                        raise OSError(e, os.strerror(e))

                with mon:
                    mon.fault = fault
                    o = job.run()
                if not hit:
                    continue
                ctx.event('fault_injected')
                ctx.event('fault_at_' + hit[0][0])
                where = f'operation {k} {hit[0][0]} {re.sub("odf_[^/]*", "odf_", os.path.relpath(hit[0][1], job.d))} failing {mode} ({os.strerror(e)})'
                ok = judge(o, where, permanent=mode == 'on')
                if not ok and mode == 'once':
                    # the request can be repeated
                    o = job.run()
                    now, left = job.state()
                    ctx.event('retry')
                    if not o.ok or not same(now.get(job.target), result[job.target]) or left:
                        ctx.violation(f'{label}: {where}: repeating the request: {o!r}, left {left}', **replay)

    # the disk is full while the target is written
    writes = [n for n, op in enumerate(trace) if op[0] == 'write']
    for k in writes:
        size = len(result[job.target]) if trace[k][1].endswith(job.target) else 3000
        for cut in sorted({0, 1, rng.randrange(size), max(0, size - 1 - rng.randrange(25)), rng.randrange(size)}):
            job.setup()
            report = os.path.join(job.d, 'tmp', 'report')

            def child():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                target = trace[k][1]

                def fault(n, op):
                    if n == k:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (cut, hard))
                    elif n > k and op[0] == 'write' and not op[1].endswith(os.path.basename(target)):
                        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))

                with mon:
                    mon.fault = fault
                    o = job.run()
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                lib.put(report + '.tmp', repr((o.message, o.new_file, None if o.raised is None else repr(o.raised))))
                os.rename(report + '.tmp', report)
                return 0

            how = c05.in_child(child)
            if how != ('exit', 0) or not os.path.isfile(report):
                raise RuntimeError(f'harness: child ended with {how}')
            message, new_file, raised = eval(lib.get(report).decode('utf-8'))
            os.remove(report)

            class O:
                pass

            o = O()
            o.message, o.new_file, o.raised = message, new_file, raised
            o.ok = raised is None and message is not None and not message.startswith('!')
            ctx.event('short_write')
            ok = judge(o, f'operation {k} write {re.sub("odf_[^/]*", "odf_", os.path.relpath(trace[k][1], job.d))} cut at byte {cut}')
            if not ok:
                ctx.event('short_write_failed')


def changed(before, now):
    return sorted(n for n in before.keys() | now.keys() if before.get(n) != now.get(n))
