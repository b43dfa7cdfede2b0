"""C34: results depend on the input only."""
import concurrent.futures
import datetime
import json
import os
import re
import shutil
import subprocess
import sys
import time

import core
import docs
import gen
import lib
import lists
import office
import ref_odf
import writer
from props import c04, c10, c16

LEVEL = 'exploration'
RULE = ('Folders with random projects, edited documents, lists, new documents and settings are converted, saved, exported and read by processes of their own: first in a plain environment, one process for each project, '
        'then in other environments, with other histories, and in parallel; all files and reports are compared. Distinct by folder and variant.')
ASSUMPTIONS = ['Dates in the meta data of documents, and time stamps and permissions of the entries of packages, are not results.', 'Only the locales C, C.UTF-8 and en_US.UTF-8 are there.',
               'Projects have a language of their own, because the one of the system is the specified default.']
WORKER = os.path.join(core.VERIF, 'harness', 'envworker.py')
PLAIN = dict(LC_ALL='en_US.UTF-8', LANG='en_US.UTF-8', PYTHONHASHSEED='0')
STAMP = re.compile(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?Z?')
CREATED = re.compile(rb'<meta:creation-date>([^<]+)</meta:creation-date>')
TEMPLATES = dict(file='$Title \u2014 $AuthorName\n$Desc\n', chapter='\u00a7 $ChapterNumber $Title ($ID)\n$Desc\n', scene='$SceneNumber $Title [$Tags] $Status $WordCount $Characters $Locations\n$SceneContent\n$Desc\n$Notes\n',
                 character='$Title: $FullName $AKA $Tags $Bio\n')


def spawn(folder, groups, name, env=None, flags=(), **job):
    """Run the worker; its results, or a text if it failed."""
    base = os.path.dirname(folder)
    jobfile, result = os.path.join(base, f'{name}.job'), os.path.join(base, f'{name}.result')
    job['groups'] = groups
    with open(jobfile, 'w', encoding='utf-8') as f:
        json.dump(job, f)
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG', 'TZ', 'TMP'))}
    e.update(PLAIN if env is None else env)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.setdefault('TMPDIR', os.path.join(base, 'tmp'))
    os.makedirs(e['TMPDIR'], exist_ok=True)
    r = subprocess.run([sys.executable, *flags, '-B', WORKER, os.path.join(core.REPO, 'src'), jobfile, result], env=e, cwd=base, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if not os.path.isfile(result):
        return f'exit {r.returncode}: {r.stderr.decode("utf-8", "replace")[-600:]}'
    left = os.listdir(e['TMPDIR'])
    with open(result, encoding='utf-8') as f:
        out = json.load(f)
    if r.returncode:
        return f'exit {r.returncode}: {r.stderr.decode("utf-8", "replace")[-600:]}'
    if left and not job.get('shared'):
        out.append(['', 'temporary files', left])
    return out


def wrong_dates(folder, start):
    """Documents that are not dated between the start and now; [(name, date)]"""
    bad = []
    for name, data in lib.snapshot(folder).items():
        if not name.endswith(('.odt', '.ods')):
            continue
        try:
            m = CREATED.search(ref_odf.Package(data).read('meta.xml'))
        except ref_odf.BadPackage:
            continue
        try:
            date = datetime.datetime.fromisoformat(m.group(1).decode()) if m else None
        except ValueError:
            bad.append((name, m.group(1)))
            continue
        # (without a time zone, it is local time)
        if date is not None and date.tzinfo is not None and not start - 60 <= date.timestamp() <= time.time() + 60:
            bad.append((name, m.group(1)))
    return bad


def plain_package(data, folder):
    try:
        pkg = ref_odf.Package(data)
    except ref_odf.BadPackage as ex:
        return ('bad package', str(ex), data)
    parts = []
    for n in pkg.names:
        b = pkg.read(n)
        # (links lead to the folder)
        parts.append((n, STAMP.sub(b'(date)', b) if n == 'meta.xml' else b.replace(folder.encode(), b'(folder)')))
    return tuple(parts)


def results(folder):
    out = {}
    for name, data in lib.snapshot(folder).items():
        stem = name[:-4] if name.endswith('.bak') else name
        out[name] = plain_package(data, folder) if stem.endswith(('.odt', '.ods')) else data
    return out


def reports(out, folder):
    """{group: reports without the folder}"""
    if isinstance(out, str):
        return {'': out}
    by = {}
    for group, s, r in out:
        text = json.dumps([s, r]).replace(json.dumps(folder + os.sep)[1:-1], '')
        by.setdefault(group, []).append(text)
    return by


def make_group(ctx, rng, folder):
    """A folder with files and the steps to do there, by paths relative to the tree."""
    gen.reset()
    os.makedirs(folder)
    p = gen.project(rng, size=rng.choice(['s', 's', 'm']), content=c10.content)
    p = c04.trim(p)
    p['lang'], p['country'] = rng.choice([('de', 'DE'), ('en', 'US'), ('zxx', 'none')])
    name = rng.choice(['novel', 'my novel', 'novel'])
    path = lib.put(os.path.join(folder, f'{name}.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
    steps = []

    def rel(x):
        return os.path.relpath(x, os.path.dirname(folder))

    # edited documents of the project
    kinds = rng.sample(docs.IMPORTABLE, 4) + [rng.choice(['_manuscript', '_proof'])]
    for kind in dict.fromkeys(kinds):
        data = docs.export(ctx, path, kind, 'preparation')
        if data is None:
            return None
        doc = docs.doc_path(path, kind)
        before = lib.parse_file(path)
        if kind in docs.ODS_KINDS:
            if rng.random() < 0.5:
                data = lists.calc(data, rng, lists.COLUMNS[kind])
        else:
            if kind in ('_manuscript', '_proof', '_notes', '_todo') and not (kind == '_proof' and b'ScID' in re.sub(rb'<ScID>.*?</ScID>', b'', lib.get(path))):
                inside = sorted(c10.expected(before, kind))
                texts = {}
                for sid in rng.sample(inside, min(len(inside), 2)):
                    texts[sid] = docs.scene_text(rng, tilde=False)[0]
                    if rng.random() < 0.5:
                        texts[sid] = f'# Chapter {gen.uid()} \u00e4\u00f6\n{texts[sid]}\n## Scene {gen.uid()} \u2026\n{docs.scene_text(rng, tilde=False)[0]}'
                data = writer.set_texts(data, kind, texts, rng)
            if rng.random() < 0.5:
                data = office.office(data, rng, keep_styles=('scene_20_mark',))
        lib.put(doc, data)
        steps.append(['convert', rel(doc), None])
    # new projects
    for k in range(rng.choice([0, 1, 2])):
        outline = rng.random() < 0.4
        seq = c16.blocks(rng, outline)
        data = c16.document(rng, seq, outline, dict(title=docs.inline(rng), author=docs.inline(rng), desc=docs.inline(rng), language='de', country='DE'))
        doc = lib.put(os.path.join(folder, f'new{k}.odt'), data)
        steps.append(['convert', rel(doc), None])
        steps.append(['convert', rel(doc)[:-4] + '.yw7', rng.choice(docs.KINDS)])
    # other encodings, and characters that are not allowed
    odd = gen.build_xml(p, rng)
    k = rng.random()
    if k < 0.4:
        odd = odd.replace('utf-8', 'utf-16').encode('utf-16')
    elif k < 0.8:
        # (not in the name of a project variable)
        at_ = [m.start() for m in re.finditer('</Title>', odd) if '</PROJECTVARS>' not in odd[m.start():]]
        at_ = at_[0] if at_ else odd.index('</Title>')
        at_ = at_ - 3 if odd[:at_].endswith(']]>') else at_
        odd = (odd[:at_] + 'a\x0bb\x1f' + odd[at_:]).encode()
    else:
        odd = odd.encode()
    odd = lib.put(os.path.join(folder, 'odd.yw7'), odd)
    steps.append(['copy', rel(odd), rel(odd)[:-4] + '2.yw7'])
    steps.append(['convert', rel(odd), rng.choice(docs.KINDS)])
    # files that are refused
    lib.put(os.path.join(folder, 'bad.yw7'), rng.choice([b'', b'<YWRITER7>', '<?xml version="1.0"?><\u00e4>'.encode(), b'\xff\xfe<\0']))
    steps.append(['convert', rel(os.path.join(folder, 'bad.yw7')), '_manuscript'])
    steps.append(['convert', rel(os.path.join(folder, 'missing.odt')), None])
    rng.shuffle(steps)
    for kind in rng.sample(docs.KINDS, 7):
        steps.append(['convert', rel(path), kind])
    steps.append(['data', rel(path), rel(os.path.join(folder, 'other_data.xml'))])
    steps.append(['template', rel(path), rel(os.path.join(folder, 'export.txt')), TEMPLATES])
    settings = {gen.uid(): gen.line(rng).strip() for __ in range(3)}
    options = {gen.uid(): rng.random() < 0.5 for __ in range(3)}
    lib.put(os.path.join(folder, 'app.ini'), '[SETTINGS]\n' + ''.join(f'{k} = \u00e9\u4e2d {n}\n' for n, k in enumerate(settings)) + '[OPTIONS]\n' + ''.join(f'{k} = Yes\n' for k in options))
    steps.append(['settings', rel(os.path.join(folder, 'app.ini')), settings, options])
    steps.append(['copy', rel(path), rel(os.path.join(folder, 'copy.yw7'))])
    steps.append(['save', rel(path)])
    if rng.random() < 0.4:
        steps.append(['reset', rel(path)])
    return steps


def at(steps, folder):
    """The steps with full paths."""
    out = []
    for s in steps:
        s = list(s)
        s[1] = os.path.join(folder, s[1])
        if s[0] in ('copy', 'data', 'template'):
            s[2] = os.path.join(folder, s[2])
        out.append(s)
    return out


def environments(rng, base):
    """(name, environment, interpreter flags, job) of the variants with the groups in one process each"""
    tmp = os.path.join(base, rng.choice(['t', 'temp files', 'x.tmp', 'odf_']))
    out = [
        ('hash seed', dict(PLAIN, PYTHONHASHSEED=str(rng.randint(1, 4000000000))), (), {}),
        ('hash seed', dict(PLAIN, PYTHONHASHSEED=str(rng.randint(1, 4000000000))), (), {}),
        ('ASCII locale', dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONHASHSEED='0'), (), {}),
        ('locale set', dict(LC_ALL=rng.choice(['C', 'C.UTF-8', 'en_US.UTF-8']), PYTHONHASHSEED='0'), (), dict(locale=True)),
        ('no locale', dict(PYTHONHASHSEED='0'), (), {}),
        ('time zone', dict(PLAIN, TZ=rng.choice(['Pacific/Kiritimati', 'XYZ+11', 'Asia/Kolkata', 'America/St_Johns'])), (), {}),
        ('temporary folder', dict(PLAIN, TMPDIR=tmp), (), {}),
        ('umask', PLAIN, (), dict(umask=rng.choice([0o077, 0o000, 0o027]))),
        ('optimized', PLAIN, (rng.choice(['-O', '-OO']),), {}),
        ('developer mode', PLAIN, ('-X', 'dev'), {}),
        ('isolated', PLAIN, ('-s', '-S'), {}),
        ('thread', PLAIN, (), dict(thread=True)),
        ('memory management', PLAIN, (), dict(gc=rng.choice([[0], [1, 1, 1], [5]]))),
    ]
    return out


def compare(ctx, label, want, got, wanted, said, names=None):
    bad = []
    for name in sorted(set(want) | set(got)):
        if want.get(name) != got.get(name):
            a, b = want.get(name), got.get(name)
            if a is None or b is None:
                bad.append(f'{name} is {"missing" if b is None else "there in addition"}')
            elif isinstance(a, tuple) and isinstance(b, tuple):
                bad.append(f'{name} differs: {difference(a, b)}')
            else:
                bad.append(f'{name} differs: {difference(((name, a),), ((name, b),))}')
    for g in sorted(set(wanted) | set(said)):
        if wanted.get(g) != said.get(g):
            x, y = wanted.get(g), said.get(g)
            if isinstance(x, list) and isinstance(y, list):
                d = [(a, b) for a, b in zip(x + [None] * len(y), y + [None] * len(x)) if a != b][:2]
            else:
                d = [(x, y)]
            bad.append(f'reports of {g!r}: {str(d)[:500]}')
    if bad:
        ctx.violation(f'{label}: {bad[:4]}')
    return not bad


def difference(a, b):
    if [x[0] for x in a] != [x[0] for x in b]:
        return f'parts {[x[0] for x in a]} and {[x[0] for x in b]}'
    for (n, x), (__, y) in zip(a, b):
        if x != y:
            k = next((i for i, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
            return f'{n}: {x[max(0, k - 60):k + 60]!r} became {y[max(0, k - 60):k + 60]!r}'
    return 'nothing'


def run(ctx):
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for i, rng in ctx.cases('tree', 6, 70):
            case(ctx, pool, i, rng)
    ctx.require('variant', 40)
    ctx.require('file_compared', 1500)
    ctx.require('parallel_process', 10)
    ctx.require('history', 6)


def case(ctx, pool, i, rng):
    start = time.time()
    top = os.path.realpath(ctx.dir())
    origin = os.path.join(top, 'origin')
    os.makedirs(origin)
    groups = {}
    for k in range(3):
        groups[f'g{k}'] = make_group(ctx, rng, os.path.join(origin, f'g{k}'))
        if groups[f'g{k}'] is None:
            ctx.drop(top)
            return

    def place(n):
        base = os.path.join(top, n)
        shutil.copytree(origin, os.path.join(base, 'work'))
        return os.path.join(base, 'work')

    def alone(n, env=None, flags=(), relative=False, job=None, groups=groups):
        """Each group has a process of its own."""
        folder = place(n)
        said = {}
        for g, steps in groups.items():
            kw = dict(job or {})
            if relative:
                kw['cwd'] = folder
            out = spawn(folder, [[g, steps if relative else at(steps, folder)]], g, env, flags, **kw)
            said.update({k if k else g: v for k, v in reports(out, folder).items()})
        dates = wrong_dates(folder, start)
        if dates:
            said['dates'] = dates
        return said, results(folder)

    def together(n, order, reuse):
        folder = place(n)
        out = spawn(folder, [[g, at(groups[g], folder)] for g in order], 'all', reuse=reuse)
        return reports(out, folder), results(folder)

    def interleaved(n, rng):
        """The steps of the groups take turns in one process."""
        folder = place(n)
        queue = {g: at(s, folder) for g, s in groups.items()}
        seq = []
        while any(queue.values()):
            g = rng.choice(sorted(g for g in queue if queue[g]))
            seq.append([g, [queue[g].pop(0)]])
        out = spawn(folder, seq, 'all', reuse=rng.random() < 0.5)
        return reports(out, folder), results(folder)

    def exports(r):
        """The same exports of all projects."""
        kinds = list(docs.KINDS)
        r.shuffle(kinds)
        out = {}
        for g in groups:
            path = next(s[1] for s in groups[g] if s[0] == 'save')
            out[g] = [['convert', path, kind] for kind in kinds]
        return out

    def parallel(n, groups, step=False):
        """All groups at the same time, in the same temporary folder; on demand, step by step, with delays."""
        folder = place(n)
        job = {}
        if step:
            os.mkdir(os.path.join(top, n, 'meet'))
            job = dict(meet=[os.path.join(top, n, 'meet'), len(groups)], slow=f'{i}')
        env = dict(PLAIN, TMPDIR=os.path.join(top, n, 'tmp'))
        os.makedirs(env['TMPDIR'], exist_ok=True)
        with concurrent.futures.ThreadPoolExecutor(3) as own:
            jobs = [own.submit(spawn, folder, [[g, at(s, folder)]], g, env, (), shared=True, **(dict(job, slow=f'{i}{g}') if step else job)) for g, s in groups.items()]
            outs = [j.result() for j in jobs]
        said = {}
        for g, out in zip(groups, outs):
            said.update({k if k else g: v for k, v in reports(out, folder).items()})
        left = os.listdir(env['TMPDIR'])
        if left:
            said['temporary files'] = left
        return said, results(folder)

    wanted, want = alone('plain')
    failed = [(g, t) for g, s in wanted.items() for t in ([s] if isinstance(s, str) else s) if isinstance(s, str) or '"raised"' in t or 'temporary' in t or 'working folder' in t]
    if failed:
        ctx.violation(f'tree/{i}: the plain environment failed: {str(failed)[:600]}')
        ctx.drop(top)
        return
    ctx.event('file', len(want))
    ctx.sample({g: s[:3] for g, s in wanted.items()})
    order = list(groups)
    rng.shuffle(order)
    jobs = [(name, pool.submit(alone, f'v{n}', env, flags, False, job)) for n, (name, env, flags, job) in enumerate(environments(rng, os.path.join(top, 'temp')))]
    jobs.append(('relative paths', pool.submit(alone, 'relative', None, (), True)))
    jobs.append(('history', pool.submit(together, 'together', order, False)))
    jobs.append(('history with one converter', pool.submit(together, 'reuse', order[::-1], True)))
    jobs.append(('history, taking turns', pool.submit(interleaved, 'turns', ctx.rng('turns', i))))
    jobs.append(('parallel processes', pool.submit(parallel, 'parallel', groups)))
    same = exports(ctx.rng('exports', i))
    first = pool.submit(alone, 'exports', groups=same)
    jobs.append(('parallel exports of the same kind', pool.submit(parallel, 'step', same, True)))
    jobs.append(('time zone, exports', pool.submit(alone, 'exports2', dict(PLAIN, TZ='XYZ-9'), groups=same)))
    plain = want, wanted
    for name, j in jobs:
        want, wanted = plain if 'exports' not in name else first.result()[::-1]
        said, got = j.result()
        ctx.evaluated((sorted(want), i, name))
        ctx.event('variant')
        ctx.event('file_compared', len(got))
        ctx.event(f'variant: {name}')
        if name.startswith('history'):
            ctx.event('history')
        if name.startswith('parallel'):
            ctx.event('parallel_process', 3)
        compare(ctx, f'tree/{i} {name}', want, got, wanted, said)
    ctx.drop(top)
