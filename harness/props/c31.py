"""C31: messages reach the translator once, translations are never lost, and the user sees them."""
import ast
import contextlib
import gettext
import importlib.util
import io
import json
import os
import re
import subprocess
import sys

import core
import gen
import lib

LEVEL = 'exploration'
RULE = ('Random histories of changing sources, scanning, translating, updating (with and without the dictionary), and compiling, with failing writes, are followed with a shadow dictionary; after each step the files are '
        'read with an independent parser, and compiled catalogs are used by gettext. Random catalogs with contexts, plurals, comments, fuzzy entries and continuation lines are compiled, one or several at a time. The programs are also started as commands in trees with several projects, and faulty catalogs must be refused. '
        'Distinct by history.')
ASSUMPTIONS = ['Messages do not contain a quotation mark followed by a closing parenthesis, and each message is always written with the same quotation marks and escapes.',
               'Translations are kept on a single line, as the tools write them, in the translation file of a project; the header of a catalog is not fuzzy.']

CHARS = ['word', 'two words', 'Ä', 'ß€', '漢', '{}', '{0}', '%s', '$x', '(a)', ':', '...', "don't", 'x"y"', '\n', '\t', '\\', '#', ';', '<b>', '=', 'msgid', 'msgstr "', '_', '[', ',']


def module(name):
    spec = importlib.util.spec_from_file_location(f'tool_{name}', os.path.join(core.REPO, 'src', f'{name}.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def text(rng):
    while True:
        t = rng.choice(['', ' ']) + ' '.join(rng.choice(CHARS) for __ in range(rng.randint(1, 5))) + rng.choice([' ', '', '', '.'])
        if '")' in t or "')" in t or not t.strip():
            continue
        return t


def literal(t, q):
    """Python source of a text."""
    s = t.replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t')
    return q + s.replace(q, '\\' + q) + q


def po_string(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'


def unescape(s):
    out, it = '', iter(s)
    for c in it:
        if c == '"':
            raise ValueError(f'quotation mark in {s!r}')
        if c == '\\':
            c = next(it)
            c = {'n': '\n', 't': '\t', '"': '"', '\\': '\\', "'": "'"}[c]
        out += c
    return out


def read_po(data):
    """Independent parser for the entries of a catalog: header, [(message, translation)]."""
    entries, cur, field = [], None, None
    for line in data.decode('utf-8').split('\n'):
        line = line.rstrip('\r')
        if not line.strip() or line.startswith('#'):
            continue
        if line.startswith('msgid '):
            cur, field = {'id': '', 'str': None}, 'id'
            entries.append(cur)
            line = line[6:]
        elif line.startswith('msgstr '):
            cur['str'], field = '', 'str'
            line = line[7:]
        line = line.strip()
        if len(line) < 2 or line[0] != '"' or line[-1] != '"':
            raise ValueError(f'line {line!r}')
        cur[field] += unescape(line[1:-1])
    if not entries or entries[0]['id'] or any(e['str'] is None for e in entries):
        raise ValueError('entries')
    return entries[0]['str'], [(e['id'], e['str']) for e in entries[1:]]


def faulty(name, rng):
    """Sometimes, writing the file fails."""
    if rng.random() < 0.15:
        return lib.Faulty(lambda path: name in os.path.basename(path) and not path.endswith('.bak'), rng.choice(['open', 'write']), rng.randint(0, 1 if name == '.json' else 100))
    return contextlib.nullcontext()


@contextlib.contextmanager
def at(d):
    old = os.getcwd()
    os.chdir(d)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    finally:
        os.chdir(old)


def tree(d):
    return {k: v for k, v in lib.snapshot(d).items() if v is not None}


def expect(ctx, label, before, after, changed, replay):
    """Only the given files may have changed."""
    diff = {k for k in before.keys() | after.keys() if before.get(k) != after.get(k)}
    if diff - set(changed):
        ctx.violation(f'{label}: also changed: {sorted(diff - set(changed))}', **replay)


def catalog(ctx, label, data, replay):
    try:
        return gettext.GNUTranslations(io.BytesIO(data))
    except Exception as ex:
        ctx.violation(f'{label}: the compiled catalog is not readable: {ex!r}', **replay)


def history(ctx, i, rng):
    pg, tr, mf = module('pgettext'), module('translations'), module('msgfmt')
    d = ctx.dir()
    project = os.path.join(d, 'project')
    for sub in ('src', 'i18n', 'tools'):
        os.makedirs(os.path.join(project, sub))
    language = rng.choice(['de', 'fr', 'pt_BR'])
    has_json = rng.random() < 0.8
    if has_json:
        os.makedirs(os.path.join(d, 'PyWriter', 'i18n'))
    pool = {}
    while len(pool) < rng.choice([3, 8, 20]):
        q = rng.choice('"\'')
        t = text(rng)
        pool.setdefault(t, q)
    spelled = {t: literal(t, q) for t, q in pool.items()}
    js, po, pot = {}, {}, None
    names = dict(pot='project/i18n/messages.pot', po=f'project/i18n/{language}.po', json=f'PyWriter/i18n/{language}.json')
    path = {k: os.path.join(d, v) for k, v in names.items()}
    if has_json and rng.random() < 0.7:
        js = {t: 'J ' + text(rng) for t in rng.sample(sorted(pool), len(pool) // 2)}
        js['an old message'] = 'J old'
        for t in rng.sample(sorted(pool), len(pool) // 4):
            # known to be missing
            js.setdefault(t, '')
        # messages and translations are escaped in the dictionary as in the catalog
        lib.put(path['json'], json.dumps({as_written(k, spelled): po_string(v)[1:-1] for k, v in js.items()}, ensure_ascii=False).encode('utf-8'))
    log = []
    used = []
    replay = dict(log=log, pool=spelled)
    for step in range(rng.randint(6, 12)):
        op = rng.choice(['scan', 'translate', 'update', 'update', 'compile', 'sources']) if step else 'sources'
        if 0 < step < 4:
            op = ('scan', 'update', 'translate')[step - 1]
        label = f'histories/{i} step {step} {op}'
        log.append(op)
        before = tree(d)
        if op == 'sources':
            used = rng.sample(sorted(pool), rng.randint(0, len(pool)))
            sources(rng, os.path.join(project, 'src'), used, spelled)
        elif op == 'scan':
            with at(os.path.join(project, 'tools')), faulty('messages.pot', rng) as fault:
                try:
                    pg.main(rng.choice(['../src', '../src/']))
                except Exception as ex:
                    ctx.violation(f'{label}: {ex!r}', **replay)
                    break
            after = tree(d)
            log.append(sorted(used))
            ctx.event('scan')
            if fault and fault.hit:
                ctx.event('fault')
                if names['pot'] in before:
                    expect(ctx, label + ' (fault)', before, after, [names['pot'] + '.bak'], replay)
                else:
                    expect(ctx, label + ' (fault)', before, after, [names['pot']], replay)
                    lib_remove(path['pot'])
                continue
            expect(ctx, label, before, after, [names['pot'], names['pot'] + '.bak'], replay)
            if names['pot'] in before and after.get(names['pot'] + '.bak') != before[names['pot']]:
                ctx.violation(f'{label}: the backup is not the previous file', **replay)
            pot = sorted(used)
            try:
                header, entries = read_po(after[names['pot']])
            except Exception as ex:
                ctx.violation(f'{label}: the template is not readable: {ex!r}', pot=after.get(names['pot']), **replay)
                break
            got = sorted(m for m, __ in entries)
            if got != pot or any(t for __, t in entries):
                ctx.violation(f'{label}: messages missing: {[m for m in pot if m not in got]}, unexpected: {[m for m in got if m not in pot]}, twice: {len(got) != len(set(got))}', **replay)
                break
            ctx.event('message', len(got))
        elif op == 'translate':
            if not os.path.isfile(path['po']):
                continue
            for m in list(po):
                if rng.random() < 0.5:
                    po[m] = rng.choice(['', 'T ' + text(rng), 'T ' + text(rng)])
            data = lib.get(path['po']).decode('utf-8').replace('\r\n', '\n')
            head = data[:data.index('\nmsgid "', data.index('msgstr ""'))] if '\nmsgid "' in data[data.index('msgstr ""'):] else data
            body = ''.join(f'\nmsgid "{as_written(m, spelled)}"\nmsgstr {po_string(t)}\n' for m, t in po.items())
            eol = rng.choice(['\n', '\r\n'])
            lib.put(path['po'], (head + body).replace('\n', eol).encode('utf-8'))
            log.append(dict(po))
        elif op == 'update':
            if pot is None or not os.path.isfile(path['pot']):
                continue
            use = rng.random() < 0.6
            which = rng.choice(['.po', '.json'])
            with at(os.path.join(project, 'tools')) as shown, faulty(which, rng) as fault:
                try:
                    complete = tr.main(language, app='App', appVersion='1.2', json=use)
                except Exception as ex:
                    ctx.violation(f'{label}: {ex!r}', **replay)
                    break
            after = tree(d)
            ctx.event('update')
            known = {m: t for m, t in po.items() if t}
            if use:
                known = {**{m: t for m, t in js.items() if t}, **known}
            hit = which if fault and fault.hit else None
            log.append((use, hit))
            changed = []
            if use and has_json:
                if hit == '.json':
                    ctx.event('fault')
                    changed.append(names['json'] + '.bak')
                    if names['json'] not in before:
                        # an incomplete new file
                        lib_remove(path['json'])
                        after.pop(names['json'], None)
                else:
                    changed += [names['json'], names['json'] + '.bak']
                    js = dict(known)
                    try:
                        found = {unescape(k): unescape(v) for k, v in json.loads(after[names['json']].decode('utf-8')).items()}
                    except Exception as ex:
                        ctx.violation(f'{label}: the dictionary is not readable: {ex!r}', **replay)
                        break
                    if found != js:
                        ctx.violation(f'{label}: the dictionary differs in {[(k, js.get(k), found.get(k)) for k in js.keys() | found.keys() if js.get(k) != found.get(k)][:5]}', **replay)
                    if names['json'] in before and after.get(names['json'] + '.bak') != before[names['json']]:
                        ctx.violation(f'{label}: the backup of the dictionary is not the previous file', **replay)
            if hit == '.po':
                ctx.event('fault')
                if complete:
                    ctx.violation(f'{label}: success is reported', **replay)
                if names['po'] not in before:
                    lib_remove(path['po'])
                    after.pop(names['po'], None)
                expect(ctx, label + ' (fault)', before, after, changed + [names['po'] + '.bak'], replay)
                continue
            changed += [names['po'], names['po'] + '.bak']
            expect(ctx, label, before, after, changed, replay)
            if names['po'] in before and after.get(names['po'] + '.bak') != before[names['po']]:
                ctx.violation(f'{label}: the backup of the translations is not the previous file', **replay)
            try:
                header, entries = read_po(after[names['po']])
            except Exception as ex:
                ctx.violation(f'{label}: the translations are not readable: {ex!r}', **replay)
                break
            po = {m: known.get(m, '') for m in pot}
            if dict(entries) != po or len(entries) != len(po):
                ctx.violation(f'{label}: the translations differ in {[(k, po.get(k), dict(entries).get(k)) for k in po.keys() | dict(entries).keys() if po.get(k) != dict(entries).get(k)][:5]}', **replay)
                break
            missing = [m for m in po if not po[m]]
            if bool(complete) != (not missing):
                ctx.violation(f'{label}: {complete!r} is returned with {len(missing)} missing translations', **replay)
            ctx.event('translated', len(po) - len(missing))
            if 'charset=UTF-8' not in header or 'Project-Id-Version: 1.2\n' not in header:
                ctx.violation(f'{label}: header {header!r}', **replay)
            pot_date = [x for x in read_po(after[names['pot']])[0].split('\n') if x.startswith('POT-Creation')]
            if pot_date[0] not in header.split('\n'):
                ctx.violation(f'{label}: header {header!r} instead of {pot_date}', **replay)
        elif op == 'compile':
            if not os.path.isfile(path['po']):
                continue
            mo = os.path.join(project, 'i18n', 'x.mo')
            with at(os.path.join(project, 'tools')) as shown:
                try:
                    mf.make(f'../i18n/{language}.po', '../i18n/x.mo')
                except (Exception, SystemExit) as ex:
                    ctx.violation(f'{label}: {ex!r} {shown.getvalue()}', po=lib.get(path['po']), **replay)
                    break
            after = tree(d)
            expect(ctx, label, before, after, ['project/i18n/x.mo'], replay)
            cat = catalog(ctx, label, lib.get(mo), replay)
            if cat is None:
                break
            for m, t in po.items():
                if cat.gettext(m) != (t or m):
                    ctx.violation(f'{label}: {m!r} is shown as {cat.gettext(m)!r} instead of {t!r}', **replay)
            ctx.event('shown', len(po))
    ctx.evaluated((i, str(log), sorted(pool)), bool(pool))
    ctx.drop(d)


def lib_remove(path):
    if os.path.isfile(path):
        os.remove(path)


def as_written(m, spelled):
    """The message as the scanner passes it to the translator."""
    s = spelled.get(m)
    if s is None:
        return po_string(m)[1:-1]
    if s[0] == '"':
        return s[1:-1]
    return s[1:-1].replace('"', '\\"')


def sources(rng, base, used, spelled):
    for root, dirs, files in os.walk(base):
        for n in files:
            os.remove(os.path.join(root, n))
    folders = ['', 'a', 'a/b', 'ui', 'pack.py', '_private', 'a/.b', 'with blank', 'Ä', 'test']
    for f in folders:
        os.makedirs(os.path.join(base, f), exist_ok=True)
    out = {}
    for m in used:
        s = spelled[m]
        for __ in range(rng.choice([1, 1, 2])):
            f = os.path.join(base, rng.choice(folders), rng.choice(['m.py', 'n.py', '__init__.py']))
            forms = [f'print(_({s}))', f'x = [_({s})]', f'DESCRIPTION = _({s})', f'    raise Error(_({s}).format(1))  # _x', f'y = _({s}) + z(_({s}))', f'f(a, _({s}), b)']
            if '\\' not in s and '{' not in s and '"' not in s[1:-1] and "'" not in s[1:-1]:
                other = '"' if s[0] == "'" else "'"
                forms.append(f'return f{other}{{_({s})}}: {{x}}.{other}')
            out.setdefault(f, []).append(rng.choice(forms))
    for f, lines in out.items():
        lib.put(f, (rng.choice(['\n', '\r\n']).join(['"""Module."""', 'import os', *lines]) + '\n').encode('utf-8'))
    lib.put(os.path.join(base, 'notes.txt'), b'_("not a message")')
    lib.put(os.path.join(base, 'old.py.bak'), b'_("not a message")')
    lib.put(os.path.join(base, 'empty.py'), b'')


def compiled(ctx, i, rng):
    """Catalogs by hand."""
    mf = module('msgfmt')
    d = ctx.dir()
    files = []
    for k in range(rng.choice([1, 1, 2, 3])):
        charset = rng.choice(['UTF-8', 'UTF-8', 'utf-8', 'ISO-8859-1'])
        files.append(make_po(rng, charset, f'F{k} '))
    for k, (data, model, charset) in enumerate(files):
        lib.put(os.path.join(d, f'c{k}.po'), data)
    before = tree(d)
    names = [f'c{k}' + rng.choice(['', '.po']) for k in range(len(files))]
    how = rng.choice(['make', 'main'])
    replay = dict(files=[f[0] for f in files], names=names, how=how)
    label = f'catalogs/{i}'
    argv = sys.argv
    with at(d) as shown:
        try:
            if how == 'make':
                for n in names:
                    mf.make(n, None)
            else:
                sys.argv = ['msgfmt.py', *names]
                mf.main()
        except (Exception, SystemExit) as ex:
            ctx.violation(f'{label}: {ex!r} {shown.getvalue()}', **replay)
            return
        finally:
            sys.argv = argv
    expect(ctx, label, before, tree(d), [f'c{k}.mo' for k in range(len(files))], replay)
    ctx.evaluated(tuple(f[0] for f in files), True)
    for k, (data, model, charset) in enumerate(files):
        cat = catalog(ctx, f'{label} {names[k]}', lib.get(os.path.join(d, f'c{k}.mo')), replay)
        if cat is None:
            continue
        for (context, m, plural), t in model.items():
            if plural is None:
                got = cat.gettext(m) if context is None else cat.pgettext(context, m)
                want = t or m
            else:
                got = [cat.ngettext(m, plural, n) if context is None else cat.npgettext(context, m, plural, n) for n in (1, 2)]
                want = t or [m, plural]
            if got != want:
                ctx.violation(f'{label} {names[k]}: {(context, m, plural)!r} is shown as {got!r} instead of {want!r}', **replay)
            ctx.event('catalog_entry')
        for j, (__, other, __) in enumerate(files):
            for context, m, plural in other:
                if (context, m, plural) not in model and plural is None and context is None and (None, m) not in {(c, x) for c, x, __ in model} and cat.gettext(m) != m:
                    ctx.violation(f'{label} {names[k]}: contains the message {m!r} of {names[j]}', **replay)
        if len(files) > 1:
            ctx.event('several_catalogs')
    ctx.drop(d)


def make_po(rng, charset, mark):
    model, seen = {}, set()
    eol = rng.choice(['\n', '\n', '\r\n'])
    lines = rng.choice([[], ['# A comment'], ['# A comment', '#: x.py:1']])
    header = f'Project-Id-Version: x\nContent-Type: text/plain; charset={charset}\nPlural-Forms: nplurals=2; plural=(n != 1);\n'
    lines = lines + ['msgid ""', 'msgstr ""', *[po_string(x + '\n') for x in header.split('\n')[:-1]]]
    for __ in range(rng.randint(0, 8)):
        context = rng.choice([None, None, None, 'menu', 'window'])
        m = text(rng)
        if charset.upper() != 'UTF-8':
            m = m.encode('latin-1', 'ignore').decode('latin-1')
        if not m or (context, m) in seen:
            continue
        seen.add((context, m))
        plural = m + ' (s)' if rng.random() < 0.2 else None

        def tr():
            t = mark + text(rng)
            return t if charset.upper() == 'UTF-8' else t.encode('latin-1', 'ignore').decode('latin-1')

        kind = rng.choice(['done', 'done', 'done', 'open', 'fuzzy'])
        if rng.random() < 0.8:
            lines.append('')
        if rng.random() < 0.5:
            lines += rng.sample(['# by hand', '#: src/x.py:12', '#. extracted', '#| msgid "old"', '#, python-format'], rng.randint(1, 3))
        if kind == 'fuzzy':
            lines.append(rng.choice(['#, fuzzy', '#, fuzzy, python-format']))
        if context is not None:
            lines.append(f'msgctxt {po_string(context)}')
        lines += field(rng, 'msgid', m)
        if plural is None:
            t = '' if kind == 'open' else tr()
            lines += field(rng, 'msgstr', t)
        else:
            lines += field(rng, 'msgid_plural', plural)
            if kind == 'open':
                kind = 'done'
            t = [tr(), tr()]
            for n, x in enumerate(t):
                lines += field(rng, f'msgstr[{n}]', x)
        model[context, m, plural] = t if kind == 'done' else None
    # an unknown encoding is not guessed
    return (eol.join(lines) + eol).encode(charset), model, charset


def field(rng, name, t):
    if rng.random() < 0.7 or len(t) < 3:
        return [f'{name} {po_string(t)}']
    cut = rng.randint(1, len(t) - 1)
    return [f'{name} ""', po_string(t[:cut]), po_string(t[cut:])]


def real(ctx):
    """The messages of the program itself."""
    pg = module('pgettext')
    for i, rng in ctx.cases('real', 1, 1):
        d = ctx.dir()
        os.makedirs(os.path.join(d, 'i18n'))
        os.makedirs(os.path.join(d, 'tools'))
        with at(os.path.join(d, 'tools')):
            pg.main(os.path.join(core.REPO, 'src', 'pywriter'))
        entries = {m for m, __ in read_po(lib.get(os.path.join(d, 'i18n', 'messages.pot')))[1]}
        want = set()
        for root, dirs, files in os.walk(os.path.join(core.REPO, 'src', 'pywriter')):
            for n in files:
                if n.endswith('.py'):
                    source = lib.get(os.path.join(root, n)).decode('utf-8')
                    lines = source.split('\n')
                    for node in ast.walk(ast.parse(source)):
                        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == '_' and len(node.args) == 1 and isinstance(node.args[0], ast.Constant) and node.lineno == node.end_lineno:
                            segment = ast.get_source_segment(source, node) or ''
                            # one literal, nothing else
                            if segment[2:3] in ('"', "'") and segment[-2:] == segment[2] + ')' and segment[2:5] not in ('"""', "'''") and segment.count(segment[2]) == 2:
                                want.add(node.args[0].value)
        if not want <= entries:
            ctx.violation(f'real: messages missing in the template: {sorted(want - entries)}')
        ctx.event('real_message', len(want))
        # placeholders survive translation
        catalogs = {}
        for root, dirs, files in os.walk(core.REPO):
            for n in files:
                p = os.path.join(root, n)
                if n.endswith('.po'):
                    catalogs[p] = read_po(lib.get(p))[1]
                elif n.endswith('.mo'):
                    with open(p, 'rb') as f:
                        catalogs[p] = [(k, v) for k, v in gettext.GNUTranslations(f)._catalog.items() if k and isinstance(k, str)]
        for p, entries in catalogs.items():
            for m, t in entries:
                if t and sorted(re.findall(r'{\w*}', m)) != sorted(re.findall(r'{\w*}', t)):
                    ctx.violation(f'real: {p}: {m!r} and {t!r} have different placeholders')
                ctx.event('real_translation')
        ctx.evaluated('real', bool(want))
        ctx.drop(d)


SCRIPTS = ['pgettext.py', 'translations.py', 'msgfmt.py', 'translate_de.py', 'update_de_po.py']
DE_MO = ['i18n/locale/de/LC_MESSAGES/pywriter.mo', 'src/sample/locale/de/LC_MESSAGES/pywriter.mo']


def script(name, cwd, *args):
    return subprocess.run([sys.executable, '-B', name, *args], cwd=cwd, capture_output=True, text=True, encoding='utf-8', timeout=120, env=dict(os.environ, PYTHONIOENCODING='utf-8'))


def commands(ctx, i, rng):
    """The programs as they are started, in a tree with some projects."""
    d = ctx.dir()
    home = os.path.join(d, 'PyWriter')
    for n in ['src', *[os.path.dirname(n) for n in DE_MO]]:
        os.makedirs(os.path.join(home, n))
    for n in SCRIPTS:
        lib.put(os.path.join(home, 'src', n), lib.get(os.path.join(core.REPO, 'src', n)))
    for n in DE_MO:
        lib.put(os.path.join(home, n), b'old')
    pool = {}
    while len(pool) < rng.choice([2, 6]):
        t = text(rng)
        pool[t] = literal(t, rng.choice('"\''))
    projects = {}
    for name in ['PyWriter', 'other', 'third one'][:rng.randint(1, 3)]:
        app = os.path.join(d, name, 'app')
        os.makedirs(os.path.join(d, name, 'src'), exist_ok=True)
        used = rng.sample(sorted(pool), rng.randint(1, len(pool)))
        sources(rng, app, used, pool)
        projects[name] = used
    os.makedirs(os.path.join(d, 'no project'))
    lib.put(os.path.join(d, 'notes.txt'), b'x')
    replay = dict(projects=projects, pool=pool)
    label = f'commands/{i}'
    for n in SCRIPTS[:2]:
        for name in list(projects)[1:]:
            lib.put(os.path.join(d, name, 'src', n), lib.get(os.path.join(core.REPO, 'src', n)))
    po = {}
    for name, used in projects.items():
        src = os.path.join(d, name, 'src')
        os.makedirs(os.path.join(d, name, 'i18n'), exist_ok=True)
        before = tree(d)
        r = script('pgettext.py', src, '../app')
        try:
            got = sorted(m for m, __ in read_po(lib.get(os.path.join(d, name, 'i18n/messages.pot')))[1])
        except Exception as ex:
            got = repr(ex)
        if got != sorted(used) or r.returncode:
            ctx.violation(f'{label} pgettext {name}: {got} instead of {sorted(used)} {r.stderr}', **replay)
            return
        expect(ctx, f'{label} pgettext', before, tree(d), [f'{name}/i18n/messages.pot'], replay)
        po[name] = {m: f'{name} {k}' for k, m in enumerate(used) if rng.random() < 0.8}
        body = ''.join(f'\nmsgid "{as_written(m, pool)}"\nmsgstr {po_string(t)}\n' for m, t in po[name].items())
        lib.put(os.path.join(d, name, 'i18n/de.po'), ('msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n' + body).encode('utf-8'))
    js = {m: f'J {k}' for k, m in enumerate(sorted(pool)) if rng.random() < 0.4}
    lib.put(os.path.join(home, 'i18n/de.json'), json.dumps({as_written(m, pool): t for m, t in js.items()}).encode('utf-8'))

    def read(name):
        try:
            return dict(read_po(lib.get(os.path.join(d, name, 'i18n/de.po')))[1])
        except Exception as ex:
            return repr(ex)

    for op in rng.sample(['one', 'german', 'all'], 3) + ['german']:
        before = tree(d)
        if op == 'one':
            for name in list(projects)[1:]:
                before = tree(d)
                r = script('translations.py', os.path.join(d, name, 'src'), 'de')
                po[name] = {m: po[name].get(m, '') for m in projects[name]}
                complete = all(po[name].values())
                if read(name) != po[name] or (r.returncode == 0) != complete:
                    ctx.violation(f'{label} translations {name}: {read(name)} instead of {po[name]}, exit code {r.returncode} {r.stderr}', **replay)
                expect(ctx, f'{label} translations', before, tree(d), [f'{name}/i18n/de.po', f'{name}/i18n/de.po.bak'], replay)
                ctx.event('command')
        elif op == 'german':
            r = script('translate_de.py', os.path.join(home, 'src'))
            po['PyWriter'] = {m: po['PyWriter'].get(m, '') for m in projects['PyWriter']}
            complete = all(po['PyWriter'].values())
            after = tree(d)
            if read('PyWriter') != po['PyWriter'] or r.returncode:
                ctx.violation(f'{label} translate_de: {read("PyWriter")} instead of {po["PyWriter"]}, exit code {r.returncode} {r.stderr}', **replay)
            expect(ctx, f'{label} translate_de', before, after, ['PyWriter/i18n/de.po', 'PyWriter/i18n/de.po.bak'] + ([f'PyWriter/{n}' for n in DE_MO] if complete else []), replay)
            if complete:
                for n in DE_MO:
                    cat = catalog(ctx, f'{label} translate_de', lib.get(os.path.join(home, n)), replay)
                    if cat is None:
                        return
                    shown = {m: cat.gettext(m) for m in po['PyWriter']}
                    if shown != po['PyWriter']:
                        ctx.violation(f'{label} translate_de: {n} shows {shown} instead of {po["PyWriter"]}', **replay)
                ctx.event('german')
            ctx.event('command')
        else:
            r = script('update_de_po.py', os.path.join(home, 'src'))
            changed = []
            for name in projects:
                # the dictionary has precedence
                po[name] = {m: js.get(m) or po[name].get(m, '') for m in projects[name]}
                if read(name) != po[name] or r.returncode:
                    ctx.violation(f'{label} update_de_po {name}: {read(name)} instead of {po[name]}, exit code {r.returncode} {r.stderr}', **replay)
                changed += [f'{name}/i18n/de.po', f'{name}/i18n/de.po.bak']
            expect(ctx, f'{label} update_de_po', before, tree(d), changed, replay)
            ctx.event('command')
    ctx.evaluated((i, str(replay)), True)
    ctx.drop(d)


BAD = {
    'plural first': 'msgid_plural "a"\nmsgstr "b"\n',
    'index without plural': 'msgid "a"\nmsgstr[0] "b"\n',
    'plural without index': 'msgid "a"\nmsgid_plural "as"\nmsgstr "b"\n',
    'text first': '"a"\n',
    'not quoted': 'msgid a\nmsgstr "b"\n',
    'open string': 'msgid "a\nmsgstr "b"\n',
    'missing': None,
}


def refused(ctx, i, rng):
    """A faulty catalog is not compiled, and the existing one stays."""
    mf = module('msgfmt')
    d = ctx.dir()
    data, model, charset = make_po(rng, 'UTF-8', 'T ')
    kind = rng.choice(sorted(BAD))
    if BAD[kind] is not None:
        head = '' if kind in ('text first', 'plural first') else data.decode('utf-8') + '\n'
        lib.put(os.path.join(d, 'x.po'), (head + BAD[kind]).encode('utf-8'))
    if rng.random() < 0.7:
        lib.put(os.path.join(d, 'x.mo'), b'old')
    before = tree(d)
    how = rng.choice(['make', 'script', 'output'])
    if how == 'make':
        with at(d):
            try:
                mf.make('x.po', None)
                failed = False
            except (Exception, SystemExit) as ex:
                failed = not isinstance(ex, SystemExit) or bool(ex.code)
    else:
        r = script(os.path.join(core.REPO, 'src', 'msgfmt.py'), d, *(['-o', 'x.mo'] if how == 'output' else []), 'x.po')
        failed = r.returncode != 0 and bool(r.stderr)
    if not failed or tree(d) != before:
        ctx.violation(f'refused/{i}: {kind} ({how}): failed: {failed}, files changed: {tree(d) != before}', data=data, kind=kind)
    ctx.event('refused')
    ctx.evaluated((data, kind, how), True)
    ctx.drop(d)


def output(ctx, i, rng):
    """The name of the compiled catalog is given."""
    d = ctx.dir()
    data, model, charset = make_po(rng, 'UTF-8', 'T ')
    lib.put(os.path.join(d, 'de.po'), data)
    before = tree(d)
    name = rng.choice(['y.mo', 'sub/y.mo'])
    os.makedirs(os.path.join(d, 'sub'))
    option = rng.choice([['-o', name], [f'--output-file={name}'], ['--output-file', name]])
    r = script(os.path.join(core.REPO, 'src', 'msgfmt.py'), d, *option, rng.choice(['de', 'de.po']))
    expect(ctx, f'output/{i}', before, tree(d), [name], dict(data=data))
    if r.returncode or not os.path.isfile(os.path.join(d, name)):
        ctx.violation(f'output/{i}: {option}: no file, exit code {r.returncode} {r.stderr}', data=data)
    else:
        cat = catalog(ctx, f'output/{i}', lib.get(os.path.join(d, name)), dict(data=data))
        for (context, m, plural), t in model.items():
            if cat and context is None and plural is None and cat.gettext(m) != (t or m):
                ctx.violation(f'output/{i}: {m!r} is shown as {cat.gettext(m)!r} instead of {t!r}', data=data)
    ctx.event('output')
    ctx.evaluated((data, str(option)), True)
    ctx.drop(d)


def run(ctx):
    for i, rng in ctx.cases('commands', 10, 150):
        commands(ctx, i, rng)
    for i, rng in ctx.cases('refused', 40, 400):
        refused(ctx, i, rng)
    for i, rng in ctx.cases('output', 10, 100):
        output(ctx, i, rng)
    for i, rng in ctx.cases('histories', 250, 3000):
        history(ctx, i, rng)
    for i, rng in ctx.cases('catalogs', 150, 3000):
        compiled(ctx, i, rng)
    real(ctx)
    for name, least in dict(scan=100, message=300, update=100, translated=150, shown=100, catalog_entry=200, several_catalogs=40, real_message=20, real_translation=100, command=20, german=2, refused=30, output=8).items():
        ctx.require(name, least)
