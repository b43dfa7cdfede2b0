"""C24: language settings are kept and applied."""
import locale
import os
import random
import re
import xml.etree.ElementTree as ET

import docs
import gen
import lib
import office
import ref_odf
import ref_yw7
from props import c04, c10

LEVEL = 'exploration'
RULE = ('(a) Projects with random (valid, malformed, missing, duplicate, legacy) language settings, project variables and language tags are loaded and saved several times under different system locales; the variables '
        'in the saved file are compared with an independent statement of the rule. (b) Such projects are exported to every document type; the default language of the document and the language of every run of text '
        'are read from the package. (c) Documents with random default languages are imported, and projects are compared before and after, tags included. Distinct by project and locale.')
ASSUMPTIONS = ['A document names its language and its country, or neither of them.',
               'Tags that are no language codes ([lang=...] with anything but letters, optionally followed by a hyphen and letters or digits) count as "no language" in documents.']

SYSTEM = [('de', 'AT'), ('en', 'GB'), ('fr', 'FR'), None, None, 'C', 'broken']
CODES = ['de', 'en', 'DE', 'xx', 'zh', 'é?', '', None, 'deu', 'd', 'German', 'zxx', '<&', '"\'', 'de-DE', 'de_DE']
COUNTRIES = ['DE', 'US', 'at', '', None, 'none', 'USA', 'Germany', '&"', '419', 'D']
TAGS = ['de-DE', 'en-GB', 'en-US', 'la', 'grc', 'zh-TW', 'es-419', 'pt-BR', 'EN-us', 'x-Y', 'de']
ODD_TAGS = ['', 'de_DE', 'zh-Hans-CN', ' de-DE', 'de-DE ', 'a=b', '"x"', '<b>', '&', 'de-', '-DE', 'x' * 40, 'ä-Ö', 'de DE', '$Title', '\\1', '(', 'T1']
PLAUSIBLE = re.compile(r'[A-Za-z]+(-[A-Za-z0-9]+)?$')


class SystemLocale:
    """The locale the operating system reports during a block."""

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.saved = {n: getattr(locale, n) for n in ('getlocale', 'getdefaultlocale') if hasattr(locale, n)}
        v = self.value

        def answer(*args, **kwargs):
            if v == 'broken':
                raise ValueError('unknown locale: UTF-8')
            if v is None:
                return None, None
            if v == 'C':
                return 'C', 'UTF-8'
            return '_'.join(v), 'UTF-8'

        for n in self.saved:
            setattr(locale, n, answer)

    def __exit__(self, *exc):
        for n, f in self.saved.items():
            setattr(locale, n, f)


def effective(lang, country, system):
    if not lang:
        return system if isinstance(system, tuple) else ('zxx', 'none')
    if len(lang) == 2 and len(country or '') == 2:
        return lang, country
    return 'zxx', 'none'


def tags_of(p):
    """All languages that have an opening tag in a scene text."""
    out = []
    for s in p['scenes'].values():
        for m in re.finditer(r'\[lang=([^][/*\n]*)\]', ref_yw7.norm_text(s['content']) or ''):
            if m.group(1) not in out:
                out.append(m.group(1))
    return out


def settings(rng):
    k = rng.random()
    if k < 0.35:
        return rng.choice([('de', 'DE'), ('en', 'US'), ('pt', 'BR'), ('zxx', 'none')])
    if k < 0.5:
        return None, None
    return rng.choice(CODES), rng.choice(COUNTRIES)


def content(langs):
    def make(rng):
        k = rng.random()
        if k < 0.7:
            return docs.scene_text(rng, langs=langs, tilde=False)[0]
        if k < 0.8:
            return docs.scene_text(rng, langs=None, tilde=False)[0]
        a, b = gen.uid(), gen.uid()
        x, y = rng.choice(langs), rng.choice(langs)
        return rng.choice([None, '', f'[lang={x}]{a}[/lang={x}]', f'[lang={x}]{a}\n{b}[/lang={x}]', f'[lang={x}]{a} [lang={y}]{b}[/lang={y}][/lang={x}]', f'[lang={x}]{a}[/lang={x}][lang={y}]{b}[/lang={y}]',
                           f'> [lang={x}]{a}[/lang={x}]\n{b}', f'[lang={x}][i]{a}[/lang={x}] {b}[/i]', f'{a} [lang={x}]{b}', f'[lang={x}][/lang={x}]{a}', f'[i][lang={x}]{a}[/lang={x}][/i]',
                           f'{a} [lang {b}]', f'[LANG=de-DE]{a}[/LANG=de-DE]', f'[lang={x}\n{a}]'])
    return make


def project(rng, langs, i=0, **kw):
    gen.reset()
    p = gen.project(rng, size=gen.size(rng, i, ['s', 's', 'm']), content=content(langs), chtypes=(0, 0, 0, 1, 2, 3), sctypes=(0, 0, 0, 0, 1, 2, 3), **kw)
    for s in p['scenes'].values():
        if len(s['content'] or '') > 20000:
            # one more language at the end of a long text
            code = rng.choice(TAGS)
            s['content'] += f'\n[lang={code}]{gen.uid()}[/lang={code}]'
    held = {x for c in p['chapters'].values() for x in c['scenes']}
    for sid, s in p['scenes'].items():
        if sid not in held and rng.random() < 0.7:
            # a scene outside the chapters, in a language of its own
            code = rng.choice(TAGS)
            s['content'] = f'[lang={code}]{gen.uid()}[/lang={code}]'
    p['vars'] = []
    p['lang'] = p['country'] = None
    return c04.trim(p)


def with_settings(rng, p, lang, country, odd=True):
    """The project file, with its settings in one of the forms found in the wild; returns (data, lang, country) as a reader should see them."""
    tree = []
    pid = iter(rng.sample(range(1, 60), 40))
    legacy = rng.random() < 0.2 and (lang or country)

    def var(title, desc, **kw):
        tree.append((str(next(pid)), title, desc, kw))

    for __ in range(rng.randint(0, 2)):
        var(rng.choice(['Name', 'x=y', 'Langu', '/lang', gen.line(rng)]), gen.line(rng) or None)
    if not legacy:
        if lang is not None:
            var('Language', lang)
        if country is not None:
            var('Country', country)
        if odd and lang is None and country is None and rng.random() < 0.3:
            var('Language', None, nodesc=True)
        if odd and rng.random() < 0.15:
            lang, country = None, None
            tree.clear()
            for t in rng.choice([['Language'], ['Country'], ['Language', 'Country']]):
                var(t, None, nodesc=rng.random() < 0.5, noid=rng.random() < 0.1)
    for t in rng.sample(TAGS, rng.randint(0, 2)):
        # known languages, some of which are not used any more
        var(f'lang={t}', f'<HTM <SPAN LANG="{t}"> /HTM>')
        var(f'/lang={t}', '<HTM </SPAN> /HTM>')
    if odd and rng.random() < 0.3:
        var(rng.choice(['lang=', 'lang=a=b', 'lang', 'language', 'LANG=de', None]), rng.choice([None, 'x']))
    rng.shuffle(tree)
    data = gen.build_xml(p, rng)
    text = data.decode('utf-8') if isinstance(data, bytes) else data
    parts = []
    for i, t, d, kw in tree:
        x = '<PROJECTVAR>'
        if not kw.get('noid'):
            x += f'<ID>{i}</ID>'
        if t is not None:
            x += f'<Title>{ref_odf.esc(t)}</Title>'
        if not kw.get('nodesc'):
            x += f'<Desc>{ref_odf.esc(d or "")}</Desc>'
        parts.append(x + '<Tags>0</Tags></PROJECTVAR>')
    root = ET.fromstring(text)
    if root.find('PROJECTVARS') is not None:
        root.remove(root.find('PROJECTVARS'))
    if parts or rng.random() < 0.3:
        root.append(ET.fromstring('<PROJECTVARS>' + ''.join(parts) + '</PROJECTVARS>'))
    if legacy:
        f = root.find('PROJECT').find('Fields')
        if f is None:
            f = ET.SubElement(root.find('PROJECT'), 'Fields')
        for n, v in (('Field_LanguageCode', lang), ('Field_CountryCode', country)):
            if v is not None:
                ET.SubElement(f, n).text = v
        lang, country = lang or None, country or None
    return b'<?xml version="1.0" encoding="utf-8"?>\n' + ET.tostring(root, encoding='utf-8'), lang, country


def variables(data):
    """[(ID, title, description)]"""
    root = ET.fromstring(data)
    box = root.find('PROJECTVARS')
    return [] if box is None else [(v.findtext('ID'), v.findtext('Title'), v.findtext('Desc')) for v in box]


def check_vars(before, after, texts, lang, country, system):
    bad = []
    old, new = variables(before), variables(after)
    ids = [i for i, __, __ in new if i is not None]
    if len(set(ids)) != len(ids):
        bad.append(f'project variables with the same ID: {ids}')
    titles = [t for __, t, __ in new]
    if texts or lang or country:
        want = effective(lang, country, system)
        for title, value in zip(('Language', 'Country'), want):
            have = [d for __, t, d in new if t == title]
            if have != [value]:
                bad.append(f'{title} is {have} instead of {value!r} (system {system}, was {lang!r}/{country!r})')
    else:
        if [v for v in new if v[1] in ('Language', 'Country')] != [v for v in old if v[1] in ('Language', 'Country')]:
            bad.append(f'language settings changed from {old} to {new}')
    known = [t for __, t, __ in old]
    for t in texts:
        if (known.count(f'lang={t}'), known.count(f'/lang={t}')) not in ((0, 0), (1, 1)):
            # half a pair, or more than one
            continue
        for name, desc in ((f'lang={t}', f'<HTM <SPAN LANG="{t}"> /HTM>'), (f'/lang={t}', '<HTM </SPAN> /HTM>')):
            if titles.count(name) != 1:
                bad.append(f'{titles.count(name)} variables {name!r}')
            elif name not in known and (name, desc) not in [(x, y) for __, x, y in new]:
                bad.append(f'variable {name!r} is {[y for __, x, y in new if x == name]}')
    # nothing is lost, nothing is invented
    rest = [v for v in new if v[1] not in ('Language', 'Country')]
    was = [v for v in old if v[1] not in ('Language', 'Country')]
    norm = lambda vs: [(i, t, d or None) for i, t, d in vs]
    if norm(rest)[:len(was)] != norm(was):
        bad.append(f'variables {was} became {rest}')
    for i, t, d in rest[len(was):]:
        if t not in [f'{s}lang={x}' for x in texts for s in ('', '/')]:
            bad.append(f'invented variable {t!r}')
    return bad


def stop_at_one(ctx, bad, label, **replay):
    if bad:
        ctx.violation(f'{label}: {bad[:4]}', **replay)
    return bool(bad)


def run(ctx):
    for i, rng in ctx.cases('saved', 250, 6000):
        langs = rng.sample(TAGS, 2) + rng.sample(ODD_TAGS, rng.choice([0, 1, 2]))
        p = project(rng, langs, i, orphans=True)
        data, lang, country = with_settings(rng, p, *settings(rng))
        system = rng.choice(SYSTEM)
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), data)
        label = f'saved/{i}'
        texts = tags_of(lib.parse_file(path))
        ctx.evaluated((data, system), bool(texts or lang or country))
        ctx.event('languages', len(texts))
        previous = data
        with SystemLocale(system):
            for k in range(3):
                if k == 1 and p['scenes'] and rng.random() < 0.5:
                    # another tag is written, one disappears
                    f = lib.load(path)
                    sid = rng.choice(list(f.novel.scenes))
                    new = rng.choice(TAGS + ODD_TAGS)
                    f.novel.scenes[sid].sceneContent = f'[lang={new}]{gen.uid()}[/lang={new}]'
                else:
                    f = lib.load(path)
                if not k and (f.novel.languageCode or None, f.novel.countryCode or None) != (lang or None, country or None):
                    ctx.violation(f'{label}: read {f.novel.languageCode!r}/{f.novel.countryCode!r} instead of {lang!r}/{country!r}', file=data)
                    break
                f.write()
                now = lib.get(path)
                ctx.event('save')
                texts = tags_of(lib.parse_file(path))
                if k:
                    lang, country = effective_of(previous)
                if stop_at_one(ctx, check_vars(previous, now, texts, lang, country, system), f'{label} save {k}', file=data, before=previous, after=now):
                    break
                previous = now
        ctx.drop(d)

    for i, rng in ctx.cases('exported', 90, 2000):
        langs = rng.sample(TAGS, 2) + rng.sample(ODD_TAGS, rng.choice([0, 0, 1, 2]))
        p = project(rng, langs, i)
        for s in p['scenes'].values():
            s['noexport'] = rng.random() < 0.05
        data, lang, country = with_settings(rng, p, *settings(rng))
        system = rng.choice(SYSTEM)
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), data)
        parsed = lib.parse_file(path)
        want = effective(lang, country, system)
        ctx.evaluated((data, system, 'export'), True)
        for kind in rng.sample(docs.KINDS, 4) + [rng.choice(['', '_proof', '_manuscript'])]:
            label = f'exported/{i} {kind}'
            with SystemLocale(system):
                doc = docs.export(ctx, path, kind, label)
            if doc is None:
                break
            pkg = docs.package(ctx, doc, label, file=data)
            if pkg is None:
                break
            have = pkg.locale()
            ctx.event('document_locale')
            if have != want:
                ctx.violation(f'{label}: the language of the document is {have} instead of {want} (system {system}, project {lang!r}/{country!r})', file=data, document=doc)
                break
            bad = None
            if 'settings.xml' in pkg.names and b'$' in pkg.read('settings.xml'):
                bad = 'the settings contain placeholders'
            elif kind in ('', '_proof', '_manuscript', '_notes', '_todo'):
                bad = check_runs(ctx, parsed, pkg, kind)
            if bad:
                ctx.violation(f'{label}: {bad}', file=data, document=doc)
                break
        ctx.drop(d)

    for i, rng in ctx.cases('imported', 90, 2000):
        langs = rng.sample(TAGS, 3)
        p = project(rng, langs, i)
        data, lang, country = with_settings(rng, p, *settings(rng), odd=False)
        system = rng.choice(SYSTEM)
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), data)
        for r in range(2):
            kind = rng.choice(['_manuscript', '_manuscript', '_proof', '_notes', '_todo', '_scenes', '_chapters', '_characters'])
            label = f'imported/{i} {kind}'
            before = lib.parse_file(path)
            lang, country = before['lang'], before['country']
            before_data = lib.get(path)
            if kind == '_proof' and b'ScID' in re.sub(rb'<ScID>.*?</ScID>', b'', before_data):
                kind = '_manuscript'
            with SystemLocale(system):
                doc = docs.export(ctx, path, kind, label)
            if doc is None:
                break
            target = docs.doc_path(path, kind)
            if rng.random() < 0.3:
                doc = office.office(doc, rng, keep_styles=('scene_20_mark',))
            want = effective(lang, country, system)
            k = rng.random()
            if k < 0.5:
                new = rng.choice([('es', 'ES'), ('de', 'CH'), ('la', 'none'), ('zxx', 'none'), ('haw', 'US'), ('en', 'US')])
                doc = set_locale(doc, *new)
                ctx.event('document_language_changed')
            elif k < 0.65:
                new = None
                doc = set_locale(doc, None, None)
                ctx.event('document_language_missing')
            elif k < 0.75:
                new = None
                doc = set_locale(doc, None, None, props=False)
                ctx.event('document_language_missing')
            else:
                new = want
            if kind in ('_manuscript', '_proof', '_notes', '_todo') and new:
                want = effective(*new, system)
            lib.put(target, doc)
            with SystemLocale(system):
                if not docs.import_doc(ctx, target, label, project=before_data, document=doc):
                    break
            after_data = lib.get(path)
            after = lib.parse_file(path)
            ctx.evaluated((before_data, doc), True)
            texts = tags_of(after)
            have = (after['lang'], after['country'])
            if texts or lang or country or new and kind in ('_manuscript', '_proof', '_notes', '_todo'):
                if have != want:
                    ctx.violation(f'{label}: the language of the project is {have} instead of {want}, document {new}, project {lang!r}/{country!r}, system {system}', project=before_data, document=doc)
                    break
            elif have != (lang, country) and any(have):
                ctx.violation(f'{label}: the language of the project became {have}', project=before_data, document=doc)
                break
            ctx.event('project_language')
            # the passages keep their languages
            mine = dict(before, lang=None, country=None)
            other = dict(after, lang=None, country=None)
            if kind in c10.ROUND_KINDS:
                if not c10.compare(ctx, mine, other, kind, label, project=before_data, document=doc):
                    break
            else:
                bad = ref_yw7.diff(mine, other, skip={'chapters.desc', 'scenes.desc', 'characters.desc', 'characters.bio', 'characters.goals', 'characters.notes'})
                if stop_at_one(ctx, bad, label, project=before_data, document=doc):
                    break
        ctx.drop(d)
    ctx.require('save', 300)
    ctx.require('languages', 150)
    ctx.require('document_locale', 150)
    ctx.require('runs_with_language', 100)
    ctx.require('project_language', 60)
    ctx.require('document_language_changed', 20)


def effective_of(data):
    p = ref_yw7.parse(data)
    return p['lang'], p['country']


def check_runs(ctx, parsed, pkg, kind):
    """The languages of the runs of text, found by the unique words in them."""
    langs = docs.languages_of(parsed)
    want = {}
    for cid, c in parsed['chapters'].items():
        for sid in c['scenes']:
            kinds = {'_notes': ('notes',), '_todo': ('todo',)}.get(kind, ('normal',))
            if docs.scene_kind(parsed, c, sid) not in kinds:
                continue
            for para in docs.parse_markup((parsed['scenes'][sid]['content'] or '').rstrip(), langs, quotes=kind != '_proof'):
                for text, marks in para.runs:
                    tags = frozenset(m[5:] for m in marks if m.startswith('lang='))
                    for w in docs.UID.findall(text):
                        if w in want and want[w] != tags:
                            want[w] = None
                        else:
                            want[w] = tags
    have = {}
    for b in pkg.blocks():
        for text, marks in b.runs():
            for w in docs.UID.findall(text):
                have[w] = frozenset(m[5:] for m in marks if m.startswith('lang='))
    for w, tags in want.items():
        if tags is None or w not in have or any(re.search('[&<>"\']', t) for t in tags):
            # ambiguous, or tags that stay visible
            continue
        expected = frozenset(t if PLAUSIBLE.match(t) else 'zxx' for t in tags)
        ctx.event('runs_compared')
        if expected:
            ctx.event('runs_with_language')
        if have[w] != expected:
            return f'the languages of {w} are {sorted(have[w])} instead of {sorted(expected)}'
    return None


def set_locale(data, lang, country, props=True):
    """Change or remove the default language of a document."""
    def edit(root):
        for s in root.iter(ref_odf.q('style:default-style')):
            if s.get(ref_odf.q('style:family')) != 'paragraph':
                continue
            t = s.find(ref_odf.q('style:text-properties'))
            if t is None:
                continue
            if not props:
                s.remove(t)
                continue
            for n, v in (('fo:language', lang), ('fo:country', country)):
                if v is None:
                    t.attrib.pop(ref_odf.q(n), None)
                else:
                    t.set(ref_odf.q(n), v)
    return ref_odf.rewrite(data, edit, part='styles.xml')
