"""C10: manuscript, notes, todo and proof documents carry scene texts back unchanged."""
import os
import re

import docs
import gen
import lib
import office
import ref_odf
import ref_yw7
from props import c04

LEVEL = 'exploration'
RULE = ('Projects with scene texts from the markup grammar are exported to manuscript, notes, todo and proof documents, which are imported back '
        'as they are, or as a word processor would save them; the project file is compared with its previous content by an independent parser, '
        'over several rounds in random order. Distinct by project, kind and round.')
ASSUMPTIONS = ['Lines of scene texts that begin with # are dividers and are excluded; so are comments that contain ~ (they set scene titles), and texts or titles that look like the visible scene marks [ScID] of proof documents.',
               'By design: white space at the end of a text (proof documents: also at its beginning) and around a manuscript comment is trimmed, tags '
               'for highlighting, alignment, strikethrough and underline are dropped, tags that format nothing are dropped, formatted ranges are '
               'compared by the text they format.',
               'The document language becomes the project language if the project has no valid one.']

ROUND_KINDS = ['_manuscript', '_proof', '_notes', '_todo']


def semantic(text, kind, langs=None):
    """The meaning of a scene text, as a comparable value."""
    t = ref_yw7.norm_text(text).rstrip()
    if kind == '_proof':
        t = t.strip()
    out = []
    for p in docs.parse_markup(t, langs):
        comments = tuple((a, c.strip() if kind != '_proof' else c) for a, c in p.comments)
        out.append((p.quote, tuple(p.runs), comments))
    while out and not out[-1][1] and not out[-1][2] and not out[-1][0]:
        # blank lines before a closing tag at the end
        out.pop()
    return out


def canonical(text):
    """The shortest markup with the meaning of text, or None if there may be several: ranges are as long as possible, but end before blank lines."""
    lines = []
    for p in docs.parse_markup(text, None):
        if p.comments or any(len(m) > 1 for __, m in p.runs):
            return None
        line = '> ' if p.quote else ''
        for t, m in p.runs:
            for mark in m:
                t = f'[{mark}]{t}[/{mark}]'
            line += t
        if lines:
            m = re.search(r'\[/([^\]]*)\]$', lines[-1])
            start = line[2:] if p.quote else line
            if m and start.startswith(f'[{m.group(1)}]'):
                lines[-1] = lines[-1][:m.start()]
                line = line.replace(f'[{m.group(1)}]', '', 1)
        lines.append(line)
    return '\n'.join(lines)


def across(rng):
    """Ranges that reach across line breaks, in several languages."""
    lines = []
    n, mark = rng.randint(1, 4), None
    if rng.random() < 0.1:
        n = rng.randint(20, 60)
    for __ in range(n):
        mark = rng.choice([m for m in ('i', 'b', 'lang=fr-FR', 'lang=de-DE', 'lang=la', 'lang=pt-BR') if n < 10 or m != mark])
        inner = [docs.inline(rng, n=(1, 3), hostile=[]) for __ in range(rng.randint(1, 3))]
        before = rng.choice(['', gen.uid() + ' '])
        after = rng.choice(['', ' ' + gen.uid()])
        lines.append(f'{before}[{mark}]' + '\n'.join(inner) + f'[/{mark}]{after}')
    return rng.choice(['\n', '\n', ' ', '\n\n']).join(lines)


def content(rng):
    if rng.random() < 0.1:
        return across(rng)
    k = rng.random()
    if k < 0.75:
        return docs.scene_text(rng, tilde=False)[0]
    if k < 0.8:
        return docs.scene_text(rng, tilde=False, marks=False, comments=False)[0]
    if k < 0.85:
        return docs.scene_text(rng, paras=(1, 2), tilde=False)[0] + '\n' * rng.randint(2, 5) + docs.scene_text(rng, paras=(1, 2), tilde=False)[0]
    if k < 0.9:
        return rng.choice(['', '\n', '\n\n', '  ']) + docs.scene_text(rng, paras=(1, 2), tilde=False, quotes=False)[0]
    a, b = gen.uid(), gen.uid()
    return rng.choice([None, '', f'- {a}\n- {b}', f'- [i]{a}[/i]\n- [lang=pt-BR]{b}[/lang=pt-BR]\nx', f'- [lang=la]{a}[/lang=la]\n> [lang=la]{b}[/lang=la]', f'{a}\n- {b}\n\nx', f'{a} /* open', f'*/ {a}', f'{a}  two   blanks {b}', f' {a}', f'{a}\n {b}', f'> {a}\n> {b}', f'{a} * * * {b}',
                       f'* * *\n{a}', f'[x]{a}[/x]', f'[h1]{a}[/h1] [s]{b}[/s]', f'{a} $Title ${{ID}}', f'>{a}', f'|{a}|', f'{a}\u00a0{b}\u2003x', f'{a}\r{b}' if False else f'{a} {b}',
                       f'/*{a}*/', f'/*{a}*//*{b}*/', f'{a}/**/{b}', f'[i]/*{a}*/[/i]', f'[i]{a}[/i][i]{b}[/i]', f'[i]{a}[/i] [i]{b}[/i]', f'[b]{a}\n\n{b}[/b]'])


def expected(p, kind, langs=None):
    """Scenes that are in the document."""
    want = {'_manuscript': ('normal',), '_proof': ('normal',), '_notes': ('notes',), '_todo': ('todo',)}[kind]
    return {sid for c in p['chapters'].values() for sid in c['scenes'] if docs.scene_kind(p, c, sid) in want}


def plausible(p):
    return len(p['lang'] or '') == 2 and len(p['country'] or '') == 2 or (p['lang'], p['country']) == ('zxx', 'none')


def compare(ctx, before, after, kind, label, changed=None, **replay):
    """before/after: parsed projects.  changed: {scene ID: new text} expected to differ."""
    skip = {'scenes.content'}
    if not plausible(before):
        skip |= {'lang', 'country'}
    bad = ref_yw7.diff(before, after, skip=skip, scene_order=True)
    inside = expected(before, kind)
    texts = 0
    for sid, s in before['scenes'].items():
        if sid not in after['scenes']:
            continue
        a, b = s['content'], after['scenes'][sid]['content']
        if changed and sid in changed:
            a = changed[sid]
        if sid not in inside:
            if ref_yw7.norm_text(a) != ref_yw7.norm_text(b):
                bad.append(f'scene {sid} is not in the document, its text {a!r} became {b!r}')
            continue
        texts += 1
        x, y = semantic(a, kind), semantic(b, kind)
        if x != y:
            n = next((k for k, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
            bad.append(f'scene {sid} paragraph {n}: {x[n:n + 1]} became {y[n:n + 1]}; text {a!r} became {b!r}')
        elif a and not (changed and sid in changed):
            t = ref_yw7.norm_text(a).rstrip()
            if kind == '_proof':
                t = t.strip()
            if '[' in a or '/*' in a:
                if canonical(t) != t:
                    continue
                ctx.event('exact_markup')
            if t != ref_yw7.norm_text(b):
                bad.append(f'scene {sid}: text {t!r} became {b!r}')
    ctx.event('texts', texts)
    if bad:
        ctx.violation(f'{label}: {bad[:4]}', **replay)
    return not bad


def run(ctx):
    for i, rng in ctx.cases('roundtrip', 70, 1500):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l']), content=content, chtypes=(0, 0, 0, 0, 1, 2, 3), sctypes=(0, 0, 0, 0, 0, 1, 2, 3))
        for s in p['scenes'].values():
            s['noexport'] = rng.random() < 0.08
        # each save trims one line break at the end of a text, see C01 and C04
        p = c04.trim(p)
        p['lang'], p['country'] = rng.choice([('de', 'DE'), ('en', 'US'), (None, None), ('zxx', 'none'), ('en', '')])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        seen = set()
        for r in range(rng.randint(3, 6)):
            kind = rng.choice(ROUND_KINDS if r else ['_manuscript', '_proof', '_manuscript', '_notes', '_todo'])
            label = f'roundtrip/{i} round {r} {kind}'
            before = lib.parse_file(path)
            before_bytes = lib.get(path)
            if kind == '_proof' and b'ScID' in re.sub(rb'<ScID>.*?</ScID>', b'', before_bytes):
                kind = '_manuscript'
            data = docs.export(ctx, path, kind, label)
            if data is None:
                break
            doc = docs.doc_path(path, kind)
            like_office = rng.random() < 0.5
            if like_office:
                data = office.office(data, rng, keep_styles=('scene_20_mark',))
                lib.put(doc, data)
                ctx.event('word_processor_document')
            if not docs.import_doc(ctx, doc, label, project=before_bytes, document=data):
                break
            if lib.get(doc) != data:
                ctx.violation(f'{label}: the imported document was changed')
            after = lib.parse_file(path)
            ctx.evaluated((before_bytes, kind), bool(expected(before, kind)))
            if not compare(ctx, before, after, kind, label, project=before_bytes, document=data):
                break
            # from the second time on nothing changes at all, unless it was saved by a word processor
            key = kind
            if key in seen and not like_office:
                ctx.event('fixpoint')
                if lib.get(path) != before_bytes:
                    ctx.violation(f'{label}: importing the document again changed the project file', project=before_bytes, document=data)
                    break
            if like_office:
                seen.clear()
            else:
                seen.add(kind)
            if i < 2:
                ctx.sample({'kind': kind, 'scenes': len(expected(before, kind))}, 2)
        ctx.drop(d)
    large(ctx)
    ctx.require('texts', 500)
    ctx.require('word_processor_document', 30)
    ctx.require('fixpoint', 5)
    ctx.require('exact_markup', 100)


BUFFER = 2 ** 16 - 20  # of xml.sax
TARGETS = {'_proof': ['[ScID:12]', '[/ScID]', '&amp;', '\u6f22\u5b57', 'inner words'], '_manuscript': ['ScID:12', '&amp;', '\u6f22\u5b57', 'the comment', 'inner words']}


def large(ctx):
    """Documents larger than the buffer of the XML parser, with every interesting place on the border of the buffer."""
    texts = {'1': '', '12': 'Second & [i]inner words[/i] \u6f22\u5b57 /*the comment*/ end.', '2': 'Third'}
    for i, rng in ctx.cases('large', 24, 400):
        kind = ('_proof', '_manuscript')[i % 2]
        target = TARGETS[kind][i // 2 % 5]
        size = BUFFER * (1 if i < 60 else rng.choice([1, 1, 2, 3]))
        gen.reset()
        p = gen.project(rng, hostile=gen.SAFE_UNI, size='e')
        p.update(title='T', author='A', scenes={}, lang='en', country='US',
                 chapters={'1': dict(title='C', desc='', level=0, type=0, suppress=False, nobreak=False, trash=False, scenes=list(texts))})
        for sid, text in texts.items():
            s = gen.scene(rng, gen.SAFE_UNI, [], [], [])
            s.update(title='S', content=text, type=0, noexport=False, append=False, status=1, tags=None)
            p['scenes'][sid] = s
        d = ctx.dir()
        path = os.path.join(d, 'novel.yw7')
        length = 1000
        for attempt in range(4):
            # adjust the first scene until the target lies across the border
            p['scenes']['1']['content'] = ('word ' * (length // 5 + 1))[:length - 1] + 'x'
            lib.put(path, gen.build_xml(p, rng))
            data = docs.export(ctx, path, kind, f'large/{i}')
            if data is None:
                return
            xml = ref_odf.Package(data).read('content.xml')
            goal = target.encode('utf-8')
            at = xml.find(goal)
            if at < 0:
                ctx.violation(f'large/{i} {kind}: {target!r} is missing in the document')
                return
            if size - len(goal) < at < size:
                ctx.event('place_on_buffer_border')
                break
            length += size - at - rng.randint(1, len(goal) - 1)
        before = lib.parse_file(path)
        ctx.evaluated((kind, target, at, size), True)
        if docs.import_doc(ctx, docs.doc_path(path, kind), f'large/{i} {kind}', document=data):
            compare(ctx, before, lib.parse_file(path), kind, f'large/{i} {kind} {target!r} at {at}', document=data)
        ctx.drop(d)
    ctx.require('place_on_buffer_border', 10)
