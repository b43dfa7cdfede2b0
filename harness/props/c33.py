"""C33: converters work with the file classes of their application."""
import os

import gen
import lib

LEVEL = 'exploration'
RULE = ('Applications\' own converters are made of random sets of file classes, whose suffixes and extensions may contain each other. They convert files with any combination of names, in sequence; the calls of the '
        'file classes, reports, questions, warnings and results are recorded and compared with a reference model of the specification. Failing reads and writes are injected. Distinct by classes and files.')
ASSUMPTIONS = ['If several classes fit, the first one in the list counts.', 'File classes accept upper case extensions, lists of classes do not.']
SUFFIXES = [None, '', '_a', '_b', '_b_a', 'a', '_manuscript', '_A', '_notes_notes', '-x y', '_xref', '_data']
EXTENSIONS = ['.yw7', '.yw6', '.html', '.csv', '.txt', '.x', '.x1', '.tar.x', '.odt', '.ods']
STEMS = ['novel', 'n', 'my novel', 'novel_a', 'a_b_a', '_a', '_b_a_b_a', 'no.vel', 'Ünïcode', 'novel.yw7', 'x_manuscript', 'say "hi"', 'aaa', 'novel_A', 'novel_xref', '_notes_notes_notes']


class Failure:
    """What the next calls of file classes do."""
    plan = {}


def make_class(log, name, suffix, extension, novel_of=None):
    from pywriter.file.file import File
    from pywriter.pywriter_globals import Error

    class Stub(File):
        DESCRIPTION = f'Class {name}'
        SUFFIX = suffix
        EXTENSION = extension

        def __init__(self, filePath, **kwargs):
            super().__init__(filePath, **kwargs)
            self.given = kwargs
            # (only what the source says counts)
            self.scenesSplit = Failure.plan.get('split', False) == (name[:2] != 'it')

        def _call(self, what):
            log.append((what, name, self.filePath, id(self.novel) if self.novel is not None else None, self.given.get('option')))
            if Failure.plan.get((what, name)):
                kind = Failure.plan[(what, name)]
                raise {'error': Error, 'value': ValueError, 'os': OSError}[kind](f'{what} of {name} failed')

        def read(self):
            self._call('read')
            if novel_of:
                novel_of(self.novel)

        def write(self):
            self._call('write')
            with open(self.filePath, 'w', encoding='utf-8') as f:
                f.write(f'written by {name}')

    Stub.__name__ = name
    Stub.spec = (name, suffix, extension)
    return Stub


def accepts(spec, path):
    return path.lower().endswith(f'{spec[1] or ""}{spec[2]}'.lower())


def fill(novel):
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    novel.title = 'From a stub'
    novel.chapters['1'] = Chapter()
    novel.chapters['1'].title = 'Chapter of the stub'
    novel.chapters['1'].chType = 0
    novel.chapters['1'].chLevel = 0
    novel.chapters['1'].srtScenes = ['1']
    novel.srtChapters = ['1']
    novel.scenes['1'] = Scene()
    novel.scenes['1'].title = 'Scene of the stub'
    novel.scenes['1'].sceneContent = 'Text of the stub.'
    novel.scenes['1'].scType = 0
    novel.scenes['1'].status = 1


def model(lists, path, suffix, creates, plan):
    """('refuse',) or (operation, source spec, target spec, target path)."""
    stem, ext = os.path.splitext(path)
    for s in lists['xs']:
        if s[2] == ext:
            for t in lists['xt']:
                if t[1] == suffix:
                    return 'export', s, t, f'{stem}{suffix or ""}{t[2]}'
            return ('refuse',)
    for s in lists['is']:
        if s[1] is not None and path.endswith(s[1] + s[2]):
            base = stem[:-len(s[1])] if s[1] and stem.endswith(s[1]) else stem
            for t in lists['it']:
                if os.path.isfile(base + t[2]):
                    return 'import', s, t, base + t[2]
            return ('refuse',)
    if not creates or stem.endswith('_xref') or stem.endswith('_brf_synopsis') or path.endswith('.odt'):
        # (the files are no OpenDocument packages)
        return ('refuse',)
    for s in lists['cs']:
        if s[1] is not None and path.endswith(s[1] + s[2]):
            return 'create', s, ('project', '', '.yw7'), stem + '.yw7'
    return ('refuse',)


def step(ctx, converter, lists, log, path, suffix, creates, rng, label):
    exists = os.path.isfile(path)
    want = model(lists, path, suffix, creates, None) if exists else ('refuse',)
    Failure.plan = {'split': rng.random() < 0.4}
    answer = rng.random() < 0.75
    if want[0] != 'refuse' and rng.random() < 0.25:
        Failure.plan[rng.choice([('read', want[1][0]), ('read', want[1][0]), ('read', want[2][0]), ('write', want[2][0]), ('write', want[2][0])])] = rng.choice(['error', 'value', 'os'])
    ui = lib.RecordingUi(answer)
    converter.ui = ui
    del log[:]
    option = rng.choice([None, 'x', 7])
    folder = os.path.dirname(path)
    before = lib.snapshot(folder)
    try:
        converter.run(path, suffix=suffix, **({'option': option} if option else {}))
    except Exception as ex:
        ctx.violation(f'{label}: {type(ex).__name__} {ex} escaped')
        return False
    after = lib.snapshot(folder)
    ctx.event('conversion')
    bad = []
    if len(ui.how) != 1:
        bad.append(f'{len(ui.how)} reports {ui.how}')
    how = ui.how[-1] if ui.how else ''
    good = want[0] != 'refuse'
    calls, questions, warnings = [], [], 0
    why = want[0]
    if good:
        op, s, t, target = want
        there = target in (os.path.join(folder, n) for n in before)
        fits = accepts(s, path) and accepts(t, target)
        if op == 'create' and there:
            good, why = False, 'the project exists'
        elif not fits:
            good, why = False, 'a name is not accepted'
        elif there:
            questions = [target]
            if not answer:
                good, why = False, 'declined'
        if good:
            order = [('read', s, path), ('write', t, target)]
            if op == 'import':
                order.insert(0, ('read', t, target))
            for what, c, p in order:
                if c[0] != 'project':
                    calls.append((what, c[0], p))
                if c[0] != 'project' and Failure.plan.get((what, c[0])):
                    good, why = False, 'failure'
                    break
            if good and op == 'import' and Failure.plan['split']:
                warnings = 1
    ctx.event(why if not good else want[0])
    got = [(w, n, p) for w, n, p, __, __o in log]
    if got != calls:
        bad.append(f'the calls {got} instead of {calls}')
    if len({i for *__, i, __o in log}) > 1 or any(i is None for *__, i, __o in log):
        bad.append('source and target do not share one novel')
    if any(o != option for *__, o in log):
        bad.append(f'the option {option} was passed on as {[o for *__, o in log]}')
    if good == how.startswith('!'):
        bad.append(f'the report is {how!r}')
    if why == 'failure' and not how.endswith(' failed'):
        bad.append(f'the report {how!r} does not say what failed')
    if good and os.path.normpath(target) not in how:
        bad.append(f'the report {how!r} does not name {target}')
    if converter.newFile != (target if good else None):
        bad.append(f'the new file is {converter.newFile!r}')
    if len(ui.questions) != len(questions) or any(os.path.normpath(q) not in x for q, x in zip(questions, ui.questions)):
        bad.append(f'questions {ui.questions} instead of {questions}')
    if len(ui.warnings) != warnings:
        bad.append(f'{len(ui.warnings)} warnings instead of {warnings}')
    changed = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
    allowed = [os.path.basename(target)] if good else []
    if [n for n in changed if n not in allowed]:
        bad.append(f'the files {changed} have changed instead of {allowed}')
    if good and not os.path.isfile(target):
        bad.append('the target does not exist')
    elif good and op != 'create' and lib.get(target).decode() != f'written by {t[0]}':
        bad.append('the target was not written by its class')
    elif good and op == 'create':
        p = lib.parse_file(target)
        if [c['title'] for c in p['chapters'].values()] != ['Chapter of the stub'] or [x['content'] for x in p['scenes'].values()] != ['Text of the stub.']:
            bad.append('the new project has other contents than the document')
    if want[0] != 'refuse' and fits:
        if len(ui.what) != 1 or any(os.path.normpath(x) not in ui.what[0] for x in ([target] if op == 'create' else [path, target])) or f'Class {s[0]}' not in ui.what[0]:
            bad.append(f'the conversion is announced as {ui.what}')
    ctx.evaluated((label.split(' ')[0], path[len(folder):], suffix, why, good), True)
    if bad:
        ctx.violation(f'{label}: {os.path.basename(path)!r} suffix {suffix!r} ({want[0]}, {why}): {bad[:3]}', lists=lists, files=sorted(before))
    return not bad


def run(ctx):
    for i, rng in ctx.cases('registry', 400, 6000):
        gen.reset()
        d = ctx.dir()
        log = []
        apps = []
        for a in range(rng.randint(1, 3)):
            from pywriter.converter.yw_cnv_ff import YwCnvFf
            from pywriter.converter.yw7_converter import Yw7Converter
            classes = {}
            some = rng.sample(SUFFIXES, rng.randint(2, 5))
            exts = rng.sample(EXTENSIONS, rng.randint(2, 4))
            project = rng.choice(['.yw7', '.yw7', '.yw6', '.x'])
            for key, count in (('xs', rng.choice([0, 1, 1, 1, 2])), ('xt', rng.randint(0, 6)), ('is', rng.randint(0, 6)), ('it', rng.choice([0, 1, 1, 2, 3])), ('cs', rng.randint(0, 4))):
                classes[key] = []
                for n in range(count):
                    if key in ('xs', 'it'):
                        suffix, ext = rng.choice(['', '', '', None, rng.choice(some)]), rng.choice([project, project, rng.choice(EXTENSIONS)])
                    else:
                        suffix, ext = rng.choice(some), rng.choice(exts)
                    classes[key].append(make_class(log, f'{key}{a}{n}', suffix, ext, fill if key == 'cs' else None))
            creates = rng.random() < 0.6
            base = Yw7Converter if creates else YwCnvFf
            body = dict(EXPORT_SOURCE_CLASSES=classes['xs'], EXPORT_TARGET_CLASSES=classes['xt'], IMPORT_SOURCE_CLASSES=classes['is'], IMPORT_TARGET_CLASSES=classes['it'], CREATE_SOURCE_CLASSES=classes['cs'])
            lists = {k: [c.spec for c in v] for k, v in classes.items()}
            apps.append((type('Application', (base,), body)(), lists, creates))
        for r in range(rng.randint(4, 12)):
            converter, lists, creates = rng.choice(apps)
            stem = rng.choice(STEMS)
            everything = [c for v in lists.values() for c in v] or [('', '_a', '.x')]
            name, suffix, ext = rng.choice(rng.choice([v for v in lists.values() if v] or [everything]))
            k = rng.random()
            file = f'{stem}{suffix or ""}{ext}'
            if k < 0.1:
                file = f'{stem}{rng.choice(SUFFIXES) or ""}{rng.choice(EXTENSIONS)}'
            elif k < 0.15:
                file = file.upper()
            path = os.path.join(d, file)
            ctx.sample(file)
            if rng.random() < 0.95:
                lib.put(path, b'given')
            # projects and other files beside it
            for __ in range(rng.randint(0, 3)):
                c = rng.choice(lists['it'] or everything) if rng.random() < 0.6 else rng.choice(everything)
                other = stem + rng.choice(['', '', suffix or '', c[1] or '']) + rng.choice([c[2], '.yw7'])
                if other != file:
                    lib.put(os.path.join(d, other), b'other')
            wanted = rng.choice([c[1] for c in lists['xt']] * 3 + [rng.choice(SUFFIXES)])
            if not step(ctx, converter, lists, log, path, wanted, creates, rng, f'registry/{i}/{r}'):
                break
        ctx.drop(d)
    for event, least in (('export', 60), ('import', 60), ('create', 30), ('refuse', 60), ('declined', 10), ('failure', 20), ('the project exists', 5), ('a name is not accepted', 5)):
        ctx.require(event, least)
