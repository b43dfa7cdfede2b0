"""C07: every exported document is a valid, complete OpenDocument package."""
import collections
import io
import os
import re
import zipfile

import docs
import gen
import lib
import ref_odf
import ref_yw7

LEVEL = 'exploration'
RULE = ('Projects with hostile texts in every field, hostile language settings and every kind of markup, with tags and comment marks in any order, are exported to all 17 '
        'document kinds; each package is validated: zip layout, manifest, strict XML, declared styles, section names, body structure, metadata; no word of a text with broken markup gets lost. '
        'Distinct by project and kind.')
ASSUMPTIONS = ['The section style Sect1 is never declared; the files the tests compare with pin this, and word processors ignore it.']


def language(rng):
    return rng.choice([(None, None), ('de', 'DE'), ('en', 'US'), ('zxx', 'none'), ('', ''), ('xx', 'YY'), ('d"', '&<'), ('\u00e4\u00f6', '$$'), ('', 'DE'), ('$L', '${'),
                       ('de', None), ('english', 'Great Britain'), ('<a', 'b>')])


def content(rng):
    k = rng.random()
    if k < 0.5:
        return docs.scene_text(rng, carry=0.4)[0]
    if k < 0.8:
        return gen.multi(rng, gen.ALL, (1, 6))
    if k < 0.9:
        lang = rng.choice(['de', 'x', '"', '<', '&', 'a b', '', 'de-DE-1', "'", 'de-', '-DE', '$x', '\u00e4\u00f6-\u00fc\u00df'])
        return f'{gen.uid()} [lang={lang}]foreign {gen.uid()}[/lang={lang}] end'
    if k < 0.95:
        return rng.choice(['/* open', 'closed */ x', '*/ /*', '/**/', '/* a /* b */ c */', '/*\n\n*/', '/*@fn */', '/*@en a*/', '/*@fn* a\nb*/ x', '[h1]x[/h1]', '[u]', '', ' ',
                           '\n', '\n\n\n', '> ', '> > x', '>', '# ', '[ScID:1]', '[/ScID]'])
    return None


TOKENS = ['/*', '*/', '/*', '*/', '@fn ', '@en* ', ' @fn ', '~', '[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '[lang=]', '[/lang=]', '[lang=x',
          '[lang=la]', '[/lang=la]', '\n', '\n', '\n\n', '\n> ', '> ', '>', '/', '*', '[s]', '[/s1]', '[c]', '[|]', ' ', '<HTM ', '/HTM>', '<RTFBRK>', '<', '&',
          '[', ']', '# ', '[lang=a"b]', '[/lang=a"b]', '$Title', '[h1]', '[/', '\t', '  ', '[/h1', '[lang=', 'lang=de-DE]', '/lang', ']]>', '[[i]]', '*//*', '/**/']
WORD = re.compile(r'q\d+z')
LANGUAGE = re.compile(r'\[/?lang=[^][/*\n]*\]')


def broken(rng):
    """A text with tags, comment marks, and other tokens in any order."""
    out = []
    for __ in range(rng.choice([2, 4, 6, 9, 9, 14, 30])):
        out.append(gen.uid() if rng.random() < 0.25 else rng.choice(TOKENS))
    return ''.join(out)


def run(ctx):
    for i, rng in ctx.cases('package', 30, 500):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['e', 's', 'm', 'm', 'l']), content=content)
        p['lang'], p['country'] = language(rng)
        if rng.random() < 0.3:
            # line breaks where one line is usual
            for group, keys in (('scenes', ('title', 'image')), ('chapters', ('title',)), ('characters', ('title', 'aka', 'fullName')), ('locations', ('title', 'aka')), ('items', ('title', 'aka')), ('notes', ('title',))):
                for e in p[group].values():
                    for k in keys:
                        if e.get(k) and rng.random() < 0.3:
                            e[k] = e[k] + rng.choice(['\n', '\n\n', '\n> ']) + gen.line(rng)
            for k in ('title', 'author', 'ft1'):
                if p.get(k) and rng.random() < 0.3:
                    p[k] += '\n' + gen.line(rng)
            ctx.event('broken_lines')
        d = ctx.dir()
        name = rng.choice(['novel', 'a & b', '<x>', "it's", 'n"q', '\u00fcber \u6f22', '100%', '$Title', 'a#b', 'x]]>y'])
        path = lib.put(os.path.join(d, name + '.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        q = lib.parse_file(path)
        for kind in docs.KINDS:
            label = f'package/{i} {kind or "(manuscript)"}'
            data = docs.export(ctx, path, kind, label, which=rng.choice(['Yw7Converter', 'Yw7Exporter']))
            ctx.evaluated((p, kind), bool(q['chapters'] or q['characters']))
            if data is None:
                continue
            try:
                pkg = ref_odf.Package(data)
                problems = pkg.problems(ref_odf.ODS if kind in docs.ODS_KINDS else ref_odf.ODT)
            except ref_odf.BadPackage as ex:
                problems = [str(ex)]
                pkg = None
            ctx.event('package')
            if problems:
                ctx.violation(f'{label}: {problems[:4]}', file=lib.get(path))
                continue
            ctx.event('style_references', sum(1 for e in pkg.root('content.xml').iter() if e.get(ref_odf.STYLE_NAME)))
            meta = pkg.meta()
            for k, tag in (('title', 'title'), ('author', 'author'), ('desc', 'description')):
                # line breaks at the end are trimmed by loading
                if (meta[k] or '') != (q[k] or ''):
                    ctx.violation(f'{label}: {tag} in the metadata is {meta[k]!r} instead of {q[k]!r}', file=lib.get(path))
            if kind == '' and i < 3:
                ctx.sample({'parts': pkg.names, 'title': meta['title']}, 2)
            again = lib.convert(path, kind)
            if not again.ok:
                ctx.violation(f'{label}: exporting again failed: {again!r}')
        ctx.drop(d)
    # unbalanced, crossing, and broken markup
    for i, rng in ctx.cases('markup', 10, 160):
        gen.reset()
        p = gen.project(rng, size='m', hostile=gen.SAFE_UNI, chtypes=(0, 0, 0, 1, 2, 3), sctypes=(0, 0, 0, 0, 1, 2, 3), content=broken)
        extra = {}
        for k in range(rng.randint(15, 30)):
            # more texts
            sid = str(20000 + k)
            extra[sid] = gen.scene(rng, gen.SAFE_UNI, list(p['characters']), list(p['locations']), list(p['items']), broken)
        p['scenes'].update(extra)
        cid = '30000'
        p['chapters'][cid] = dict(title='More', desc=None, level=0, type=[0, 1, 0, 2, 0][i % 5], suppress=False, nobreak=False, trash=False, scenes=list(extra))
        for s in extra.values():
            s['type'] = p['chapters'][cid]['type']
        for s in p['scenes'].values():
            s['noexport'] = False
            if s['desc'] and rng.random() < 0.7:
                s['desc'] = broken(rng)
        for c in p['chapters'].values():
            if c['desc'] and rng.random() < 0.7:
                c['desc'] = broken(rng)
        p['lang'], p['country'] = rng.choice([('de', 'DE'), ('zxx', 'none')])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
        q = lib.parse_file(path)
        for kind in docs.KINDS:
            if kind in docs.ODS_KINDS:
                continue
            label = f'markup/{i} {kind or "(manuscript)"}'
            data = docs.export(ctx, path, kind, label)
            ctx.evaluated((p, kind, 'markup'), True)
            if data is None:
                continue
            ctx.event('markup_document')
            try:
                pkg = ref_odf.Package(data)
                problems = pkg.problems(ref_odf.ODT)
            except ref_odf.BadPackage as ex:
                problems = [str(ex)]
            if problems:
                ctx.violation(f'{label}: {problems[:4]}', file=lib.get(path))
                continue
            if kind == '_manuscript':
                # no word gets lost, or appears twice
                text = ''.join(pkg.root('content.xml').itertext())
                have = collections.Counter(WORD.findall(text))
                for c in q['chapters'].values():
                    for sid in c['scenes']:
                        s = q['scenes'][sid]
                        if c['type'] or s['type'] or not s['status']:
                            continue
                        for w, n in collections.Counter(WORD.findall(LANGUAGE.sub('', s['content'] or ''))).items():
                            ctx.event('markup_word')
                            if have[w] != n:
                                ctx.violation(f'{label}: {w} is {have[w]} times in the document: {s["content"]!r}', file=lib.get(path))
        ctx.drop(d)
    ctx.require('markup_document', 60)
    ctx.require('markup_word', 150)
    # no placeholder of a template is left over; the project itself has none
    for i, rng in ctx.cases('placeholders', 6, 80):
        gen.reset()
        p = gen.project(rng, size='m', content=content, chtypes=(0, 0, 0, 1, 2, 3), sctypes=(0, 0, 0, 0, 1, 2, 3))
        p['lang'], p['country'] = rng.choice([(None, None), ('de', 'DE')])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)).replace('$', 'S'))
        for kind in docs.KINDS:
            data = docs.export(ctx, path, kind, f'placeholders/{i} {kind}')
            ctx.evaluated((p, kind, 'placeholders'), True)
            if data is None:
                continue
            ctx.event('placeholder_document')
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                for n in z.namelist():
                    left = re.findall(rb'\$\{?[A-Za-z]\w*', z.read(n))
                    if left:
                        ctx.violation(f'placeholders/{i} {kind}: {n} has {sorted(set(left))[:5]}', file=lib.get(path))
        ctx.drop(d)
    ctx.require('placeholder_document', 80)
    ctx.require('package', 300)
    ctx.require('style_references', 3000)
