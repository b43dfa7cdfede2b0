"""C26: settings survive saving and loading."""
import os

import docs
import gen
import lib

LEVEL = 'exploration'
RULE = ('Configuration objects with random settings and options are written, read by others with different defaults (subsets, supersets, other values), changed and written again; hand-made INI files with comments, other '
        'spellings of booleans, unknown, missing and invalid entries are read. A shadow dictionary predicts every value after every step, including the defaults the caller passed, and the written file is read by an '
        'independent line scanner. Distinct by history step.')
ASSUMPTIONS = ['Names consist of letters, digits, underscores, hyphens, dots and inner blanks and are distinct ignoring case; values are single lines without surrounding white space.']

TRUE = ['Yes', 'yes', 'TRUE', 'True', 'on', '1', 'YES']
FALSE = ['No', 'no', 'false', 'False', 'off', '0', 'Off']
INVALID = ['', 'maybe', '2', 'Yess', '-1', 'none', 'y']
NAMES = ['yw_win', 'title', 'last_open', 'root_geometry', 'color_1st_edit', 'window size', 'a', 'A.b-c', 'x2', 'keywords', 'yes', 'Options', 'settings', 'größe', 'mark down', 'DEFAULTS', 'name-with-hyphens', 'Path', 'id', 'export', 'suppress title', '日本']
VALUES = ['', '%', '%s', '%(title)s', '100%', '%%', '$x', '${x}', '#ffffff', ';x', 'a;b', 'a # b', 'a ; b', 'a=b', '=', ':', 'a: b', '[x]', '[SETTINGS]', '"quoted"', "'", '"', 'C:\\Users\\x y\\n', '/home/x', 'None', '0', '1', 'Yes', 'no',
          '\u00e4\u00f6\u00fc \u6f22\u5b57', 'a\tb', 'a  b', 'a\u00a0b', '\U0001f600', 'x' * 3000, 'a\u2028b', 'a\x85b', '800x600+10+20', '\\', '\\n', 'rem x', 'REM', '\ufeffx', 'a\u200bb', '<b>&amp;', '==', 'a=', '= a', ': b']


def name(rng, used):
    while True:
        n = rng.choice(NAMES) if rng.random() < 0.7 else ''.join(rng.choice('abcdefXYZ_019-.') for __ in range(rng.randint(1, 12))).strip('-.')
        if n and n.lower() not in used and n.lower() not in ('default', 'rem'):
            used.add(n.lower())
            return n


def value(rng):
    if rng.random() < 0.7:
        return rng.choice(VALUES)
    return ' '.join(docs.inline(rng).split())


def defaults(rng):
    used = set()
    settings = {name(rng, used): value(rng) for __ in range(rng.choice([0, 1, 3, 6]))}
    used = set()
    options = {name(rng, used): rng.random() < 0.5 for __ in range(rng.choice([0, 1, 3, 6]))}
    return settings, options


def other(rng, settings, options):
    """Defaults of another version of the application: some more, some less, other values."""
    s = {k: value(rng) for k in settings if rng.random() < 0.8}
    o = {k: rng.random() < 0.5 for k in options if rng.random() < 0.8}
    used = {k.lower() for k in settings} | {k.lower() for k in s}
    for __ in range(rng.randint(0, 2)):
        s[name(rng, used)] = value(rng)
    used = {k.lower() for k in options} | {k.lower() for k in o}
    for __ in range(rng.randint(0, 2)):
        o[name(rng, used)] = rng.random() < 0.5
    items = list(s.items())
    rng.shuffle(items)
    return dict(items), o


def scan(text):
    """Independent reading of an INI file: {section: {lower-case name: raw value}}."""
    out, cur = {}, None
    for line in text.split('\n'):
        raw = line.strip()
        if not raw or raw[0] in '#;' and not line[:1].isspace():
            continue
        if raw.startswith('[') and raw.endswith(']') and '=' not in raw:
            cur = out.setdefault(raw[1:-1], {})
            continue
        k, sep, v = line.partition('=')
        cur[k.strip().lower()] = v.strip() if sep else None
    return out


def apply(shadow_settings, shadow_options, content):
    """The shadow after reading content ({section: {name: value}})."""
    s = dict(shadow_settings)
    o = dict(shadow_options)
    low = {k.lower(): v for k, v in content.get('SETTINGS', {}).items()}
    for k in s:
        if k.lower() in low:
            s[k] = low[k.lower()]
    low = {k.lower(): v for k, v in content.get('OPTIONS', {}).items()}
    for k in o:
        if k.lower() in low:
            v = low[k.lower()].lower()
            if v in ('yes', 'true', 'on', '1'):
                o[k] = True
            elif v in ('no', 'false', 'off', '0'):
                o[k] = False
    return s, o


def handmade(rng, settings, options):
    """An INI file as a user may have edited it; returns (text, {section: {name: value}})."""
    content = {}
    lines = []
    sections = [x for x in ('SETTINGS', 'OPTIONS', 'OTHER') if rng.random() < 0.8]
    rng.shuffle(sections)
    for sect in sections:
        if rng.random() < 0.3:
            lines += [rng.choice(['# comment', '; comment', '', '  '])]
        lines.append(f'[{sect}]')
        box = content.setdefault(sect, {})
        known = {'SETTINGS': list(settings), 'OPTIONS': list(options)}.get(sect, [])
        names = [k for k in known if rng.random() < 0.75]
        used = {k.lower() for k in known}
        for __ in range(rng.randint(0, 2)):
            names.append(name(rng, used))
        rng.shuffle(names)
        for k in names:
            if sect == 'OPTIONS':
                v = rng.choice(TRUE + FALSE + INVALID[:rng.choice([0, 0, 7])])
            else:
                v = value(rng)
            box[k] = v
            spelled = rng.choice([k, k, k.upper(), k.lower()]) if k.isascii() else k
            # a value that begins with a delimiter cannot be told from the delimiter otherwise
            lines.append(f'{spelled}{rng.choice(["=", " = ", " =", "= ", " : " if "=" not in spelled else "="])}{v}')
            if rng.random() < 0.1:
                lines.append(rng.choice(['# x = y', '; ' + k + ' = z', '']))
    return '\n'.join(lines) + rng.choice(['', '\n', '\n\n']), content


def run(ctx):
    from pywriter.config.configuration import Configuration
    for i, rng in ctx.cases('history', 1500, 20000):
        gen.reset()
        d = ctx.dir()
        settings, options = defaults(rng)
        passed = (dict(settings), dict(options))
        c = Configuration(settings, options)
        s, o = dict(settings), dict(options)
        path = os.path.join(d, rng.choice(['x.ini', 'größe 1.ini']))
        log = []
        content = None
        bad = []

        def check(step):
            ctx.event('state_checked')
            ctx.evaluated((i, len(log), step), bool(s or o))
            if c.settings != s:
                bad.append(f'{step}: settings {[(k, v, c.settings.get(k)) for k, v in s.items() if c.settings.get(k, 0) != v] or (c.settings, s)}')
            if c.options != o or any(type(v) is not bool for v in c.options.values()):
                bad.append(f'{step}: options {c.options} instead of {o}')
            if (settings, options) != passed:
                bad.append(f'{step}: the defaults of the caller were changed')

        check('created')
        for step in range(rng.randint(3, 8)):
            k = rng.random()
            if k < 0.3:
                c.write(path)
                log.append('write')
                ctx.event('write')
                data = lib.get(path)
                content = {}
                if s:
                    content['SETTINGS'] = dict(s)
                if o:
                    content['OPTIONS'] = {n: 'Yes' if v else 'No' for n, v in o.items()}
                have = scan(data.decode('utf-8'))
                if have != {x: {n.lower(): v for n, v in y.items()} for x, y in content.items()}:
                    bad.append(f'the file {data!r} does not hold {content}')
                check('write')
            elif k < 0.5:
                c.read(path)
                log.append('read')
                if content is not None:
                    s, o = apply(s, o, content)
                ctx.event('read')
                check('read')
            elif k < 0.65:
                # another version of the application
                settings, options = other(rng, s, o)
                passed = (dict(settings), dict(options))
                c = Configuration(settings, options)
                s, o = dict(settings), dict(options)
                log.append('new')
                check('new object')
                c.read(path)
                if content is not None:
                    s, o = apply(s, o, content)
                    ctx.event('read_by_other')
                check('read by a new object')
            elif k < 0.8:
                ns, no = other(rng, s, o)
                which = rng.choice(['both', 'settings', 'options'])
                if which != 'options':
                    s = dict(ns)
                if which != 'settings':
                    o = dict(no)
                c.set(ns if which != 'options' else None, no if which != 'settings' else None)
                ns.clear()
                no.clear()
                log.append('set')
                check('set')
            elif k < 0.9:
                for n in rng.sample(list(s), rng.randint(0, len(s))):
                    s[n] = c.settings[n] = value(rng)
                for n in rng.sample(list(o), rng.randint(0, len(o))):
                    o[n] = c.options[n] = not o[n]
                log.append('change')
                check('changed')
            else:
                text, content = handmade(rng, s, o)
                lib.put(path, text)
                log.append('handmade')
                c.read(path)
                s, o = apply(s, o, content)
                ctx.event('handmade')
                check('hand-made file')
            if bad:
                ctx.violation(f'history/{i} {log}: {bad[:3]}', file=lib.get(path) if os.path.isfile(path) else None)
                break
        # nothing but the one file was written
        if set(os.listdir(d)) - {os.path.basename(path)}:
            ctx.violation(f'history/{i}: files {os.listdir(d)}')
        # objects are independent of each other
        fresh = Configuration()
        if fresh.settings or fresh.options:
            ctx.violation(f'history/{i}: a new configuration has {fresh.settings} {fresh.options}')
        ctx.drop(d)
    ctx.require('write', 300)
    ctx.require('read_by_other', 100)
    ctx.require('handmade', 80)
    ctx.require('state_checked', 1500)
