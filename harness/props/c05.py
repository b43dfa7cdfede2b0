"""C05: a failed or interrupted save never loses the project."""
import errno
import os
import resource
import signal

import gen
import lib
import ref_yw7
from props import c01

LEVEL = 'fault_enumeration'
RULE = ('For each generated project and edit, a fault-free save is traced; then every traced file operation is failed once, crashed '
        'once (process exit) and failed together with a later one, and writes are cut at sampled byte counts (failing and killed). '
        'After each fault the files are compared with the old and the new complete content. Distinct by project and fault point.')
ASSUMPTIONS = ['Crash means the death of the process; the order in which the kernel writes back pages (power loss) is not modelled.']


def prepare(ctx, rng, edits=True):
    """A project on disk (old content) and an open, edited session; returns (folder, path, old bytes, opener)."""
    gen.reset()
    p = gen.project(rng, size=rng.choice(['s', 'm', 'm', 'l']))
    text = gen.build_xml(p, rng)
    d = ctx.dir()
    path = lib.put(os.path.join(d, 'novel.yw7'), text)
    if rng.random() < 0.7:
        lib.load(path).write()
    old = lib.get(path)
    if rng.random() < 0.5:
        lib.put(path + '.bak', b'an older backup')
    elif os.path.exists(path + '.bak'):
        os.remove(path + '.bak')
    return d, path, old


def session(path, seed_rng, ctx):
    f = lib.load(path)
    f.novel.title = (f.novel.title or '') + ' edited'
    for s in f.novel.scenes.values():
        s.desc = 'changed ' + (s.desc or '')
    return f


def restore(path, old, bak):
    lib.put(path, old)
    if bak is None:
        if os.path.exists(path + '.bak'):
            os.remove(path + '.bak')
    else:
        lib.put(path + '.bak', bak)


def state(path):
    return {n: lib.get(path + x) if os.path.exists(path + x) else None for n, x in (('file', ''), ('backup', '.bak'))}


def in_child(func):
    """Run func in a forked child; returns ('exit', code) or ('signal', n)."""
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            code = func()
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    __, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return ('signal', os.WTERMSIG(status))
    return ('exit', os.WEXITSTATUS(status))


def run(ctx):
    mon = lib.FsMonitor.get()
    for i, rng in ctx.cases('fault', 14, 160):
        d, path, old = prepare(ctx, rng)
        bak = state(path)['backup']
        f = session(path, rng, ctx)
        with mon:
            f.write()
        trace = list(mon.trace)
        new = lib.get(path)
        after = state(path)
        if after['backup'] != old:
            ctx.violation(f'fault/{i}: after a successful save the backup is not the previous version', trace=trace)
            continue
        if new == old or not trace:
            raise RuntimeError('harness: the save was not observed')
        ctx.sample({'trace': [[os.path.basename(str(y)) for y in x] for x in trace]}, 2)
        ctx.event('clean_save')

        # (a) every operation fails once
        for k in range(len(trace)):
            for err in (errno.ENOSPC, errno.EACCES):
                restore(path, old, bak)
                f = session(path, rng, ctx)
                hit = []

                def fault(n, op, k=k, err=err):
                    if n == k:
                        hit.append(op)
                        raise OSError(err, os.strerror(err))

                raised = None
                with mon:
                    mon.fault = fault
                    try:
                        f.write()
                    except Exception as ex:
                        raised = ex
                now = state(path)
                ctx.evaluated((i, 'fail', k, err, old))
                if not hit:
                    continue
                ctx.event('fault_injected')
                ctx.event('fault_at_' + hit[0][0])
                where = f'operation {k} {hit[0][0]} {os.path.basename(hit[0][1])} failed ({os.strerror(err)})'
                if raised is None:
                    if now['file'] != new:
                        ctx.violation(f'fault/{i}: {where}: no error was reported, but the file is not the saved project', trace=trace,
                                      now=now['file'])
                elif now['file'] != old:
                    ctx.violation(f'fault/{i}: {where}: the project file is not the previous version any more '
                                  f'({None if now["file"] is None else len(now["file"])} bytes)', trace=trace)
                else:
                    # the session is still usable: a retry succeeds
                    f.write()
                    ctx.event('retry')
                    if lib.get(path) != new or state(path)['backup'] != old:
                        ctx.violation(f'fault/{i}: {where}: retrying the save did not save the project', trace=trace)

        # (b) two failures: the old content is still somewhere
        for k in range(len(trace)):
            restore(path, old, bak)
            f = session(path, rng, ctx)

            def fault(n, op, k=k):
                if n >= k:
                    raise OSError(errno.EIO, 'persistent failure')

            with mon:
                mon.fault = fault
                try:
                    f.write()
                except Exception:
                    pass
            now = state(path)
            ctx.event('persistent_failure')
            ctx.evaluated((i, 'persistent', k, old))
            if now['file'] not in (old, new) and now['backup'] != old:
                ctx.violation(f'fault/{i}: from operation {k} on everything failed: the previous version is lost', trace=trace)

        # (c) crash before every operation
        for k in range(len(trace) + 1):
            restore(path, old, bak)

            def child(k=k):
                f = session(path, rng, ctx)

                def fault(n, op):
                    if n == k:
                        os._exit(9)

                with mon:
                    mon.fault = fault
                    f.write()
                return 0

            how = in_child(child)
            if how not in (('exit', 9), ('exit', 0)):
                raise RuntimeError(f'harness: child ended with {how}')
            ctx.event('crash_point')
            ctx.evaluated((i, 'crash', k, old))
            recoverable(ctx, f'fault/{i}: crash before operation {k} of {len(trace)}', path, old, new, trace)

        # (d) the disk gets full / the process is killed at some byte of a write
        sizes = {0, 1, len(new) - 1, len(new) // 2, max(0, len(new) - 60)} | {rng.randrange(len(new)) for __ in range(ctx.n(5, 14))}
        for size in sorted(sizes):
            for kill in (False, True):
                restore(path, old, bak)

                def child(size=size, kill=kill):
                    f = session(path, rng, ctx)
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
                    try:
                        f.write()
                    except Exception:
                        return 3
                    return 0

                how = in_child(child)
                ctx.evaluated((i, 'cut', size, kill, old))
                now = state(path)
                if kill:
                    ctx.event('killed_in_write' if how[0] == 'signal' else 'not_killed')
                    recoverable(ctx, f'fault/{i}: killed after {size} bytes', path, old, new, trace)
                else:
                    ctx.event('short_write')
                    if how == ('exit', 3):
                        if now['file'] != old:
                            ctx.violation(f'fault/{i}: disk full after {size} of {len(new)} bytes: the project file is not the previous version '
                                          f'any more ({None if now["file"] is None else len(now["file"])} bytes)', trace=trace)
                    elif how == ('exit', 0):
                        if now['file'] != new:
                            ctx.violation(f'fault/{i}: disk full after {size} bytes was not reported', trace=trace)
                    else:
                        raise RuntimeError(f'harness: child ended with {how}')

        # (e) values that cannot be serialized or encoded
        for value in (12345, 'lone surrogate \ud800', ['list'], b'bytes'):
            restore(path, old, bak)
            f = session(path, rng, ctx)
            f.novel.desc = value
            raised = None
            try:
                f.write()
            except Exception as ex:
                raised = ex
            ctx.event('unserializable')
            now = state(path)
            ctx.evaluated((i, 'value', repr(value), old))
            if raised is not None:
                if now['file'] != old:
                    ctx.violation(f'fault/{i}: saving the value {value!r} failed ({raised!r}), and the project file is not the previous '
                                  'version any more')
            elif now['backup'] != old:
                ctx.violation(f'fault/{i}: saved with the value {value!r}, but the previous version is not in the backup')
        ctx.drop(d)
    ctx.require('fault_injected', 25)
    ctx.require('crash_point', 20)
    ctx.require('short_write', 25)
    ctx.require('killed_in_write', 15)
    ctx.require('retry', 20)


def recoverable(ctx, label, path, old, new, trace):
    now = state(path)
    if now['file'] == old:
        ctx.event('old_in_place')
    elif now['file'] == new:
        ctx.event('new_in_place')
        if now['backup'] != old:
            ctx.violation(f'{label}: new version without a backup of the previous one', trace=trace)
    elif now['backup'] == old:
        ctx.event('old_in_backup')
    else:
        ctx.violation(f'{label}: the complete previous version is neither in the project file nor in its backup', trace=trace,
                      file=now['file'], backup=now['backup'])
