"""C30: programs do their conversion, and do the same when they are inlined into a single script."""
import contextlib
import importlib.util
import io
import json
import os
import re
import subprocess
import sys
import zipfile
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import quote

import core
import docs
import gen
import lib
from props import c04

LEVEL = 'exploration'
RULE = ('The sample programs are run in their own process on generated projects and documents, as they are, and inlined into a single script that runs without the library; what they display, write and '
        'leave alone is compared with each other and with the converter. Generated programs with random module graphs, imports, comments and documentation are inlined and run, and their output is compared. '
        'Distinct by program and input.')
ASSUMPTIONS = ['Modules follow the conventions of the library: documentation strings in double quotes, other multi-line strings in single quotes, one import per line at the beginning of a module, unique names.']

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLES = {'cnv_brief_synopsis': '_brf_synopsis', 'cnv_chapters': '_chapters', 'cnv_characters': '_characters', 'cnv_charlist': '_charlist', 'cnv_data': '_data', 'cnv_itemlist': '_itemlist', 'cnv_items': '_items',
           'cnv_locations': '_locations', 'cnv_loclist': '_loclist', 'cnv_manuscript': '_manuscript', 'cnv_notes': '_notes', 'cnv_parts': '_parts', 'cnv_proof': '_proof',
           'cnv_scenelist': '_scenelist', 'cnv_scenes': '_scenes', 'cnv_todo': '_todo', 'cross_reference': '_xref', 'export_odt': '', 'import_outline': None, 'import_wip': None}


def inliner():
    spec = importlib.util.spec_from_file_location('inliner', os.path.join(core.REPO, 'src', 'inliner.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def inline(ctx, source, target, package, path, label):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            inliner().run(source, target, package, path)
        except Exception as ex:
            ctx.violation(f'{label}: {ex!r}')
            return False
    return os.path.isfile(target)


def start(script, answer, args, library=None, cwd=None):
    env = dict(os.environ, PYTHONPATH='', LIBRARY=library or '', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return subprocess.run([sys.executable, '-B', os.path.join(HERE, 'launch.py'), script, 'yes' if answer else 'no', *args], env=env, cwd=cwd, capture_output=True, text=True, encoding='utf-8', timeout=120)


def both(f, g):
    with ThreadPoolExecutor(2) as pool:
        return [x.result() for x in (pool.submit(f), pool.submit(g))]


def contents(d):
    """Comparable contents of all files in a folder, without the time of their creation and the place of the folder."""
    out = {}
    place = quote(os.path.realpath(d)).encode()
    for n in sorted(os.listdir(d)):
        data = lib.get(os.path.join(d, n))
        if data.startswith(b'PK'):
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                data = tuple((i, re.sub(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?Z?', b'', z.read(i)).replace(place, b'DIR')) for i in z.namelist())
        out[n] = data
    return out


def observe(script, d, inputs, steps, library):
    """Run a script on a fresh set of files; returns [(what was displayed, files)]."""
    os.mkdir(d)
    for n, data in inputs.items():
        lib.put(os.path.join(d, n), data)
    out = []
    for name, answer in steps:
        r = start(script, answer, [os.path.join(d, name)], library)
        if r.returncode or '\n@@' not in r.stdout:
            out.append(('crash', r.stderr[-600:], None))
            continue
        shown = json.loads(r.stdout.split('\n@@')[1].replace(os.path.normpath(d), 'DIR'))
        out.append((r.stdout.split('\n@@')[0].replace(d, 'DIR'), shown, contents(d)))
    return out


def by_library(d, inputs, steps, suffix):
    """The same with the converter."""
    os.mkdir(d)
    for n, data in inputs.items():
        lib.put(os.path.join(d, n), data)
    out = []
    for name, answer in steps:
        o = lib.convert(os.path.join(d, name), suffix or '', answer=answer)
        out.append((o, (o.message or '').replace(os.path.normpath(d), 'DIR'), contents(d)))
    return out


def run(ctx):
    lib_path = os.path.join(core.REPO, 'src')
    samples = sorted(SAMPLES)
    for i, rng in ctx.cases('samples', 20, 200):
        name = samples[i % len(samples)]
        suffix = SAMPLES[name]
        gen.reset()
        d = ctx.dir()
        # the name of the package must not be in the path
        source = lib.put(os.path.join(d, f'{name}.py'), lib.get(os.path.join(lib_path, 'sample', f'{name}.py')))
        target = os.path.join(d, 'single', f'{name}.py')
        os.mkdir(os.path.dirname(target))
        label = f'samples/{i} {name}'
        if not inline(ctx, source, target, 'pywriter', lib_path + '/', label):
            ctx.violation(f'{label}: no script was written')
            continue
        p = c04.trim(gen.project(rng, size='s', content=lambda r: docs.scene_text(r, tilde=False)[0]))
        inputs = {'novel.yw7': gen.build_xml(p, rng).encode('utf-8')}
        if suffix is None:
            # a new project
            text = docs.scene_text(rng, tilde=False)[0]
            os.mkdir(os.path.join(d, 'm'))
            lib.put(os.path.join(d, 'm', 'novel.yw7'), inputs['novel.yw7'])
            o = lib.convert(os.path.join(d, 'm', 'novel.yw7'), '' if name == 'import_wip' else '_brf_synopsis')
            if not o.ok:
                ctx.violation(f'{label}: {o!r}')
                continue
            inputs = {'other.odt': lib.get(o.new_file)}
            steps = [('other.odt', True), ('other.odt', True)]
        else:
            steps = [('novel.yw7', True), ('novel.yw7', rng.random() < 0.5), ('missing.yw7', True)]
            if suffix in docs.IMPORTABLE:
                steps.append((f'novel{suffix}{docs.ext(suffix)}', rng.random() < 0.7))
        a, b = both(lambda: observe(source, os.path.join(d, 'a'), inputs, steps, lib_path), lambda: observe(target, os.path.join(d, 'b'), inputs, steps, None))
        ctx.evaluated((name, p), True)
        ctx.event('program_run', len(a))
        ctx.event('inlined_run', len(b))
        for n, (x, y) in enumerate(zip(a, b)):
            if x[0] == 'crash':
                ctx.violation(f'{label} step {n}: the program failed: {x[1]}', inputs=inputs)
            elif x != y:
                what = 'output' if x[0] != y[0] else 'display' if x[1] != y[1] else 'files'
                diff = sorted(k for k in (x[2] or {}).keys() | (y[2] or {}).keys() if (x[2] or {}).get(k) != (y[2] or {}).get(k)) if what == 'files' and y[2] else [x[1], y[1]]
                ctx.violation(f'{label} step {n} {steps[n]}: the inlined program has a different {what}: {diff}', inputs=inputs)
        if suffix == '_data':
            continue
        c = by_library(os.path.join(d, 'c'), inputs, steps, suffix)
        for n, (x, (o, message, files)) in enumerate(zip(a, c)):
            if x[0] == 'crash':
                continue
            if x[2] != files:
                diff = sorted(k for k in x[2].keys() | files.keys() if x[2].get(k) != files.get(k))
                ctx.violation(f'{label} step {n} {steps[n]}: the program and the converter differ in {diff}', inputs=inputs)
            shown = [t for t, __ in x[1]['labels']]
            if message.lstrip('!').strip() not in shown or not any(x[1]['loop']):
                ctx.violation(f'{label} step {n} {steps[n]}: {shown} instead of {message!r}')
            ctx.event('like_converter')
        ctx.drop(d)
    for i, rng in ctx.cases('generated', 40, 600):
        generated(ctx, i, rng)
    ctx.require('program_run', 50)
    ctx.require('inlined_run', 50)
    ctx.require('like_converter', 40)
    ctx.require('generated_modules', 100)


STD = ['import os', 'import re', 'import json', 'import math', 'from collections import OrderedDict', 'import os.path', 'import json as js', 'from string import Template', 'import datetime']


def generated(ctx, i, rng):
    """A random program with modules in a package."""
    d = ctx.dir()
    package = rng.choice(['mypack', 'libx', 'Tools'])
    base = os.path.join(d, 'lib')
    n = rng.randint(1, 7)
    folders = ['', 'model', 'ui', 'model/deep']
    mods = []
    for k in range(n):
        folder = rng.choice(folders)
        mods.append((f'{package}.' + (folder.replace('/', '.') + '.' if folder else '') + f'mod_{k}', os.path.join(base, package, folder, f'mod_{k}.py')))
    for k, (dotted, path) in enumerate(mods):
        imports = rng.sample(range(k), rng.randint(0, min(k, 3)))
        write_module(rng, path, k, imports, mods, root=False)
        ctx.event('generated_modules')
    root = os.path.join(d, 'program.py')
    used = sorted(rng.sample(range(n), rng.randint(1, n)))
    write_module(rng, root, n, used, mods, root=True)
    target = os.path.join(d, 'out', 'program.py')
    os.mkdir(os.path.dirname(target))
    source_before = lib.snapshot(base)
    if not inline(ctx, root, target, package, base + '/', f'generated/{i}'):
        ctx.violation(f'generated/{i}: no script was written', root=lib.get(root))
        return
    if lib.snapshot(base) != source_before:
        ctx.violation(f'generated/{i}: the sources have changed')
    a, b = both(lambda: start(root, True, ['x'], base, cwd=d), lambda: start(target, True, ['x'], None, cwd=d))
    if a.returncode:
        raise RuntimeError(a.stderr)
    ctx.evaluated(lib.get(root) + b''.join(source_before[k] for k in sorted(source_before) if source_before[k]), True)
    replay = dict(root=lib.get(root), modules=source_before, result=lib.get(target))
    if b.returncode or a.stdout != b.stdout:
        ctx.violation(f'generated/{i}: the program prints {a.stdout!r}, inlined {b.stdout!r} {b.stderr[-400:]!r}', **replay)
    text = lib.get(target).decode('utf-8')
    first = lib.get(root).decode('utf-8').split('\n')[0]
    if first.startswith('#!') and not text.startswith(first):
        ctx.violation(f'generated/{i}: the first line is not {first!r}', **replay)
    if re.search(rf'^\s*(from|import) {package}', text, re.M):
        ctx.violation(f'generated/{i}: the script still imports the package', **replay)
    ctx.drop(d)


def write_module(rng, path, k, imports, mods, root):
    t = gen.uid
    lines = []
    if root and rng.random() < 0.5:
        lines.append('#!/usr/bin/env python3')
    lines += [f'"""Module {k}.', '', f'More about it: import nothing, {t()}.', '"""'] if rng.random() < 0.7 else [f'"""Module {k}."""']
    lines += rng.sample(STD, rng.randint(0, 4))
    order = list(imports)
    rng.shuffle(order)
    for j in order:
        lines.append(f'from {mods[j][0]} import ' + rng.choice([f'Class{j}', '*', f'Class{j}, CONST_{j}']))
    lines += ['', f"CONST_{k} = {t()!r} + '# no comment'"]
    if rng.random() < 0.6:
        lines += [f"TEXT_{k} = '''several", '  lines $x', f"# like a comment {t()}"[0:0] + f'end {t()}', "'''"]
    else:
        lines += [f'TEXT_{k} = {t()!r}']
    lines += [f'# comment {t()}', '', '', f'def func_{k}(x):', f'    """Return something {t()}."""', '    # a comment', f'    return x * {rng.randint(2, 9)} + {rng.randint(0, 9)}', '', '']
    bases = [f'Class{j}' for j in imports[:1]] if imports and rng.random() < 0.6 else ['object']
    lines += [f'class Class{k}({bases[0]}):', '    """A class.', '', '    from here to there: import it.', '    """' , '    """' [0:0], f'    ATTR_{k} = [CONST_{k}, TEXT_{k}]', '', '    def values(self):', '        """Return the values.', '        ', '        Indented.', '        """']
    lines += [f"        important = 'the import of words {t()}'", f'        out = [important, func_{k}({k + 2})]']
    if bases[0] != 'object':
        lines += ['        out.extend(super().values())']
    lines += [f'        out.extend(self.ATTR_{k})']
    for j in imports:
        lines += [f'        out.append(Class{j}.__name__)']
    lines += ['        return out', '']
    if root:
        lines += ['', 'def main():', f'    print(Class{k}().values())', "    print(sorted(n for n in globals() if n.startswith('mypack')))"]
        lines += ['', '', "if __name__ == '__main__':", '    main()']
    elif rng.random() < 0.5:
        lines += ["if __name__ == '__main__':", f'    print(func_{k}(3))', "    raise SystemExit('this is not to be inlined')"]
    elif rng.random() < 0.3:
        lines += ['# do_not_inline', "print('not inlined')"] if rng.random() < 0 else []
    lib_dir = os.path.dirname(path)
    os.makedirs(lib_dir, exist_ok=True)
    lib.put(path, '\n'.join(lines) + '\n')
