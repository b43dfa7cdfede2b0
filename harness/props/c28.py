"""C28: opening a document opens this document, and runs nothing else."""
import os
import time

import docs
import gen
import lib

LEVEL = 'exploration'
RULE = ('Documents with hostile names in hostile folders are opened, directly and after a real conversion, on simulated systems that have different openers '
        '(recording stand-ins for xdg-open and open on an otherwise empty search path, a stand-in for the Windows call). Recorded calls, the files in the '
        'working directory, and the interpreter\'s audit events are compared with the one call that is due. Distinct by system and name.')
ASSUMPTIONS = ['File names are valid UTF-8 without line feeds at their end; the path does not begin with a hyphen.',
               'Conversions take backslashes in paths as separators.',
               'The Windows call is observed through a stand-in, because the sandbox is Linux.']

PARTS = ['$(: > MARK)', '`: > MARK`', '";: > MARK;"', "';: > MARK;'", '";: > MARK;echo "', '&& : > MARK', '| : > MARK', '> MARK', '$HOME', '${HOME}', '$', '"', "'", '\\', '\\"', ' ', '  ', '&', ';', '*', '?',
         '[a]', '{a,b}', '~', '#', '!', '%s', '%', '%41', '(x)', '\n: > MARK\n', '\t', 'ä', '漢字', '😀', 'e\u0301', '-', '--', '.', '=', '<x>', 'Mr. & Mrs.', "it's", '$(exit 3)', '\\n', '^', ',']


def name(rng, plain=0.15):
    if rng.random() < plain:
        return rng.choice(['novel', 'My Novel', 'Novel_1'])
    out = []
    for __ in range(rng.randint(1, 4)):
        out.append(rng.choice(PARTS))
        if rng.random() < 0.6:
            out.append(rng.choice(gen.WORDS))
    return ('x' + ''.join(out).replace('/', '')).rstrip('\n .')


class System:
    """A simulated system with recording openers."""

    def __init__(self, d, tools, code, startfile):
        self.bin = os.path.join(d, 'bin')
        self.rec = os.path.join(d, 'rec')
        self.cwd = os.path.join(d, 'cwd')
        self.startfile, self.started = startfile, []
        os.mkdir(self.bin)
        os.mkdir(self.rec)
        os.mkdir(self.cwd)
        for tool in tools:
            p = os.path.join(self.bin, tool)
            with open(p, 'w') as f:
                f.write(f'#!/bin/sh\nprintf \'%s\\0\' {tool} "$@" > "{self.rec}/{tool}.$$.tmp"\n: > "{self.rec}/{tool}.$$.done"\nexit {code}\n')
            os.chmod(p, 0o755)

    def __enter__(self):
        self.old = os.environ.get('PATH'), os.environ.get('HOME'), os.getcwd(), os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        # complaints of a shell
        os.close(null)
        os.environ['PATH'], os.environ['HOME'] = self.bin, self.cwd
        os.chdir(self.cwd)
        if self.startfile:
            def startfile(path, *args):
                self.started.append((path,) + args)
                if self.startfile == 'fails':
                    raise OSError('no application')
            os.startfile = startfile
        return self

    def __exit__(self, *exc):
        os.environ['PATH'], os.environ['HOME'] = self.old[:2]
        os.chdir(self.old[2])
        os.dup2(self.old[3], 2)
        os.close(self.old[3])
        if self.startfile:
            del os.startfile

    def calls(self, wait):
        """The calls of the openers.  They may be running in the background."""
        end = time.time() + (5 if wait else 0.05)
        while True:
            done = sorted(n for n in os.listdir(self.rec) if n.endswith('.done'))
            if done or time.time() > end:
                break
            time.sleep(0.005)
        out = []
        for n in done:
            with open(os.path.join(self.rec, n[:-4] + 'tmp'), 'rb') as f:
                out.append(tuple(os.fsdecode(x) for x in f.read().split(b'\0')[:-1]))
        return out


def due(tools, startfile):
    if startfile == 'works':
        return 'startfile'
    for t in ('xdg-open', 'open'):
        if t in tools:
            return t
    return None


def observe(ctx, system, tools, startfile, path, action, label):
    before = lib.snapshot(os.path.dirname(path))
    with system:
        raised = None
        try:
            action()
        except BaseException as ex:
            if isinstance(ex, KeyboardInterrupt):
                raise
            raised = ex
        want = due(tools, startfile)
        calls = system.calls(want in ('xdg-open', 'open'))
    bad = []
    if want in ('xdg-open', 'open'):
        ctx.event('opened')
        if len(calls) != 1 or calls[0][0] != want or len(calls[0]) != 2 or os.path.normpath(calls[0][1]) != os.path.normpath(path):
            bad.append(f'{calls} instead of {want} {path!r}')
    elif calls:
        bad.append(f'{calls} although nothing is due')
    if startfile:
        ctx.event('windows')
        if len(system.started) != 1 or os.path.normpath(system.started[0][0]) != os.path.normpath(path) or len(system.started[0]) != 1:
            bad.append(f'the Windows call got {system.started} instead of {path!r}')
    if os.listdir(system.cwd):
        bad.append(f'a part of the file name was run as a command: it created {os.listdir(system.cwd)}')
    if lib.snapshot(os.path.dirname(path)) != before:
        bad.append('the folder of the document has changed')
    if bad:
        ctx.violation(f'{label}: {bad}', path=path, tools=tools, startfile=startfile)
    return raised


def run(ctx):
    from pywriter.file.doc_open import open_document
    from pywriter.converter.yw7_converter import Yw7Converter
    for i, rng in ctx.cases('open', 240, 3000):
        gen.reset()
        d = ctx.dir()
        tools = rng.choice([('xdg-open',), ('xdg-open',), ('xdg-open',), ('open',), ('xdg-open', 'open'), ()])
        startfile = rng.choice([None, None, None, 'works', 'fails'])
        system = System(d, tools, rng.choice([0, 0, 1, 4]), startfile)
        folder = os.path.join(d, name(rng, 0.6))
        base = name(rng)
        if not i % 4:
            # a path separator for conversions
            base, folder = base.replace('\\', ''), folder.replace('\\', '')
        os.makedirs(folder)
        ctx.event('hostile_name', base not in ('novel', 'My Novel', 'Novel_1'))
        if i % 4:
            path = lib.put(os.path.join(folder, base + rng.choice(['.odt', '.ods', '.yw7'])), b'document')
            given = path
            if rng.random() < 0.2:
                given = os.path.join(folder, '..', os.path.basename(folder), '.', os.path.basename(path))
            raised = observe(ctx, system, tools, startfile, path, lambda: open_document(given), f'open/{i} {base!r}')
            if raised is not None:
                ctx.violation(f'open/{i}: {raised!r} for {path!r}', path=path)
        else:
            # a converter that opens its result
            p = gen.project(rng, size='s')
            project = lib.put(os.path.join(folder, base + '.yw7'), gen.build_xml(p, rng))
            c = Yw7Converter()
            c.ui = lib.RecordingUi()
            suffix = rng.choice(docs.KINDS)
            c.run(project, suffix=suffix)
            if c.newFile is None:
                ctx.violation(f'open/{i}: {c.ui.how} for {project!r}', path=project)
            elif hasattr(c, '_open_newFile'):
                ctx.event('converted')
                raised = observe(ctx, system, tools, startfile, docs.doc_path(project, suffix), c._open_newFile, f'open/{i} {base!r} {suffix}')
                if not isinstance(raised, SystemExit) or raised.code:
                    ctx.violation(f'open/{i}: the program ended with {raised!r}', path=project)
        ctx.evaluated((tools, startfile, base), bool(due(tools, startfile)))
        ctx.drop(d)
    ctx.require('opened', 50)
    ctx.require('windows', 20)
    ctx.require('hostile_name', 100)
