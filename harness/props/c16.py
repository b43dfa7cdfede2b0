"""C16: new projects hold all text of the imported document in its structure."""
import os
import re
import xml.etree.ElementTree as ET

import docs
import gen
import lib
import office
import ref_odf
import ref_yw7
import wordcount
import writer
from ref_odf import q, HEAD, PARA, SECTION, STYLE_NAME
from props import c10, c13, c15

LEVEL = 'exploration'
RULE = ('Works in progress and outlines are built as real packages from random sequences of headings, paragraphs, dividers, lists, quotations, comments, notes, '
        'sections, tables, frames, pictures and inline formatting, partly rewritten as a word processor would save them. The created project, read by an independent parser, '
        'is compared with a reference interpretation of the block sequence. Distinct by document.')
ASSUMPTIONS = ['The text in a frame follows the paragraph the frame is anchored in.',
               'Text before the first heading (front matter) does not belong to a chapter and is not judged; outlines have a chapter heading before the first scene heading.',
               'White space at both ends of a text and blank lines at the beginning of a scene text are not judged; formatting of headings and outlines is dropped by design.',
               'A comment right at the beginning of a scene is its title; the documents have at most one there.']
BLOCK = re.compile(r'\[/?(?:i|b|lang=[^][/*\n]*)\]')


def text_line(rng):
    while True:
        k = rng.random()
        if k < 0.06:
            t = rng.choice(['{0} * * * {1}', '* * * {0}', '{0} * * *', '[i]* * *[/i] {0}', '** {0}', '{0}* * *{1}']).format(gen.uid(), gen.uid())
        elif k < 0.12:
            t = ''
        elif k < 0.2:
            t = f'- {docs.inline(rng)}'
            if rng.random() < 0.4:
                tag = rng.choice(['i', 'b', 'lang=de-DE', 'lang=la'])
                t = f'- [{tag}]{t[2:]}[/{tag}]'
        elif k < 0.25:
            t = f'> {docs.inline(rng)}'
        elif k < 0.3:
            t = ' '.join([gen.uid()] + [rng.choice(gen.WORDS) for __ in range(rng.randint(6, 14))])
        else:
            t = docs.scene_text(rng, paras=(1, 1), tilde=False)[0]
        para = docs.parse_markup(t)
        if len(para) == 1 and sum(at == 0 for at, __ in para[0].comments) < 2 and c13.usable(t, '_manuscript'):
            return t


def title(rng):
    while True:
        t = docs.inline(rng, n=(1, 5)) if rng.random() < 0.9 else rng.choice(['* * *', '1', 'x * * * y', '#', 'a  b', ''])
        if '\n' not in t:
            return t


def blocks(rng, outline):
    """[(kind, value)]: part, chapter, scene headings, paragraphs, dividers."""
    out = [(rng.choice(['part', 'chapter']), title(rng))]
    opened = False
    for __ in range(rng.choice([1, 3, 8, 15, 30])):
        k = rng.random()
        if k < 0.08:
            out.append(('part', title(rng)))
            opened = False
        elif k < 0.2:
            out.append(('chapter', title(rng)))
            opened = False
        elif outline:
            if k < 0.45:
                out.append(('scene', title(rng)))
            elif k < 0.52:
                out.append(('low', gen.uid() + ' ' + docs.inline(rng)))
            else:
                t = '' if rng.random() < 0.1 else docs.inline(rng, n=(1, 9))
                out.append(('text', rng.choice(['', '', '', '- ', '> ']) + t))
        elif k < 0.3 and opened:
            out.append(('divider', None))
            opened = False
        elif k < 0.36:
            out.append(('text', c15.heading(rng)))
            opened = True
        else:
            if not opened and rng.random() < 0.1:
                # a comment after blank lines is no title
                out.append(('text', ''))
                out.append(('text', rng.choice(['/*{0}*/', '/*{0}*/{1}', '/*{0}*/{1} /*{2}*/']).format(gen.uid(), gen.uid(), gen.uid())))
            else:
                out.append(('text', text_line(rng)))
            opened = True
        if rng.random() < 0.05 and out[-1][0] == 'text':
            # in a frame
            out.append(('caption', gen.uid() + ' ' + docs.inline(rng)))
    return out


def heading(root, styles, rng, level, text, outline):
    """A heading; its formatting is dropped on import."""
    name = f'Heading_20_{level}'
    k = rng.random()
    if k < 0.5:
        e = ET.Element(HEAD, {q('text:outline-level'): str(level), STYLE_NAME: name})
    elif k < 0.7:
        e = ET.Element(HEAD, {q('text:outline-level'): str(level), STYLE_NAME: styles.add('paragraph', rng.choice([{}, {'i': 1}]), name)})
    elif k < 0.85:
        e = ET.Element(PARA, {STYLE_NAME: name})
    else:
        e = ET.Element(PARA, {STYLE_NAME: styles.add('paragraph', {}, name)})
    if text and rng.random() < 0.3:
        cut = rng.randint(0, len(text))
        e.text = text[:cut]
        s = ET.SubElement(e, ref_odf.SPAN, {STYLE_NAME: rng.choice(['Emphasis', styles.add('text', {'b': 1}), styles.add('text', {'lang': ('fr', 'FR')}), styles.add('text', {})])})
        s.text = text[cut:]
    else:
        e.text = text
    office._blanks(e)
    return e


def EVENT(name):
    """Replaced by the counter of the running check."""


PLAIN = (None, 'Standard', 'Text_20_body', 'First_20_line_20_indent')


def low_heading(e, rng):
    """Make the paragraph a heading below the level of chapters, which belongs to the text."""
    e.tag = HEAD
    e.set(q('text:outline-level'), str(rng.randint(3, 10)))


def document(rng, seq, outline, meta):
    data = ref_odf.build_odt('', **meta)

    def edit(root):
        styles = office.Styles(root)
        body = root.find(q('office:body')).find(q('office:text'))
        out = []
        if rng.random() < 0.15 and not outline:
            out.append(ET.Element(PARA))
            out[0].text = 'Front matter'
        for kind, value in seq:
            if kind in ('part', 'chapter', 'scene'):
                out.append(heading(root, styles, rng, {'part': 1, 'chapter': 2, 'scene': 3}[kind], value, outline))
            elif kind == 'caption':
                e = ET.Element(PARA, {STYLE_NAME: rng.choice(['Text_20_body', 'Standard', styles.add('paragraph', {}, 'Standard')])})
                e.text = value
                office._blanks(e)
                writer.caption([p for p in ([out[-1]] if out[-1].tag in (PARA, HEAD) else out[-1].findall(f'{q("text:list-item")}/{PARA}'))][-1], e, rng)
                EVENT('caption')
            elif kind == 'low':
                out.append(heading(root, styles, rng, rng.randint(4, 9), value, outline))
            elif kind == 'divider':
                e = ET.Element(PARA, {STYLE_NAME: rng.choice(['Heading_20_4', 'Text_20_body', 'Standard', styles.add('paragraph', {}, 'Standard')])})
                k = rng.random()
                e.text = '* * *' if k < 0.6 else '* ' if k < 0.8 else rng.choice(['* * * ', ' * * *', ' * * * '])
                if 0.6 <= k < 0.8:
                    # partly formatted
                    s = ET.SubElement(e, ref_odf.SPAN, {STYLE_NAME: rng.choice(['Emphasis', 'Strong_20_Emphasis', styles.add('text', {'i': 1}), styles.add('text', {})])})
                    s.text, s.tail = rng.choice([('* *', ''), ('*', ' *'), ('* ', '*')])
                if rng.random() < 0.15:
                    low_heading(e, rng)
                out.append(e)
                if k >= 0.6:
                    EVENT('divider_variant')
            else:
                paras = docs.parse_markup(value)
                if outline:
                    for p in paras:
                        p.comments.clear()
                for p in paras:
                    if writer.heading_level(p) in (1, 2):
                        # (a typed mark, no heading of the word processor)
                        e = ET.Element(PARA)
                        for t, marks in p.runs:
                            writer._append(writer._span(e, marks, styles, rng) if marks else e, t)
                        for __, c in p.comments:
                            e.append(writer._comment(c, rng, styles))
                        office._blanks(e)
                        out.append(e)
                    else:
                        new = writer.paragraphs([p], styles, rng)
                        if len(new) == 1 and new[0].tag == PARA and new[0].get(STYLE_NAME) in PLAIN and not outline and rng.random() < 0.1:
                            low_heading(new[0], rng)
                            EVENT('low_heading')
                        out.extend(new)
        # sections and tables around some of the blocks
        k = 0
        while k < len(out):
            if rng.random() < 0.03:
                n = rng.randint(1, 4)
                if rng.random() < 0.6:
                    box = inner = ET.Element(SECTION, {q('text:name'): f'Section{k}', STYLE_NAME: 'Sect1'})
                else:
                    box = ET.Element(q('table:table'), {q('table:name'): f'Table{k}'})
                    inner = ET.SubElement(ET.SubElement(box, q('table:table-row')), q('table:table-cell'))
                inner.extend(out[k:k + n])
                out[k:k + n] = [box]
            k += 1
        body.extend(out)

    data = ref_odf.rewrite(data, edit)
    if rng.random() < 0.5:
        data = office.office(data, rng)
    return data


def reference_wip(seq):
    """[(level, title, desc, [(title or None, desc, text, whole text)])]"""
    chapters = []
    scenes = None
    n = 0
    for kind, value in seq:
        if kind in ('part', 'chapter'):
            chapters.append((1 if kind == 'part' else 0, value, '', []))
            scenes = None
        elif kind == 'divider':
            scenes = None
        else:
            if scenes is None:
                n += 1
                scenes = [f'Scene {n}', []]
                chapters[-1][3].append(scenes)
            p = docs.parse_markup(value)[0]
            if not scenes[1] and p.comments and p.comments[0][0] == 0 and not p.quote and not (p.runs and (p.runs[0][1] or p.runs[0][0].startswith('- '))):
                scenes[0] = p.comments[0][1].strip()
                at = value.index('/*')
                value = value[:at] + value[value.index('*/', at) + 2:]
            scenes[1].append(value)
    out = []
    for level, t, d, scs in chapters:
        out.append((level, t, d, []))
        for st, lines in scs:
            whole = '\n'.join(lines)
            first, *rest = c15.segments(whole)
            out[-1][3].append((st, '', first[3], whole))
            for lv, t2, d2, text in rest:
                if lv == 3:
                    out[-1][3].append((t2, d2, text or '', None))
                else:
                    out.append((1 if lv == 1 else 0, t2, d2, []))
                    if text is not None:
                        out[-1][3].append((None, '', text, None))
    return out


def reference_outline(seq):
    chapters = []
    for kind, value in seq:
        if kind in ('part', 'chapter'):
            chapters.append((1 if kind == 'part' else 0, value, [], []))
            at = chapters[-1][2]
        elif kind == 'scene':
            at = []
            chapters[-1][3].append((value, at))
        else:
            for p in docs.parse_markup(value):
                text = ''.join(t for t, __ in p.runs)
                if text.startswith('- '):
                    at.append((text[2:], text))
                else:
                    at.append((text,))
    return chapters


def plain_lines(text):
    return [x.strip() for x in (text or '').split('\n') if x.strip()]


def squeezed(t):
    return (t or '').strip()


def judge_wip(ctx, p, seq):
    ref = reference_wip(seq)
    if len(ref) != len(p['chapters']):
        return [f'{len(p["chapters"])} chapters instead of {len(ref)}: {[c["title"] for c in p["chapters"].values()]} instead of {[r[1] for r in ref]}']
    bad = []
    seen = []
    for (level, t, desc, scenes), (cid, c) in zip(ref, p['chapters'].items()):
        if c15.strip_tags(c['title']) != squeezed(c15.TAG.sub('', t)) and squeezed(t):
            bad.append(f'chapter {cid}: title {c["title"]!r} instead of {t!r}')
        if c['level'] != level or c['type'] != 0:
            bad.append(f'chapter {cid}: level {c["level"]} type {c["type"]} instead of {level}, 0')
        if squeezed(c15.TAG.sub('', c['desc'] or '')) != squeezed(c15.TAG.sub('', desc)):
            bad.append(f'chapter {cid}: description {c["desc"]!r} instead of {desc!r}')
        if len(scenes) != len(c['scenes']):
            bad.append(f'chapter {cid} {t!r}: {len(c["scenes"])} scenes instead of {len(scenes)}')
            continue
        for (st, sdesc, text, whole), sid in zip(scenes, c['scenes']):
            seen.append(sid)
            s = p['scenes'][sid]
            ctx.event('scene')
            if st and c15.strip_tags(s['title']) != st.strip() or not (s['title'] or '').strip() and (st is None or st):
                bad.append(f'scene {sid}: title {s["title"]!r} instead of {st!r}')
            if squeezed(c15.TAG.sub('', s['desc'] or '')) != squeezed(c15.TAG.sub('', sdesc)):
                bad.append(f'scene {sid}: description {s["desc"]!r} instead of {sdesc!r}')
            a, b = (c10.semantic((x or '').strip('\n'), '_manuscript') for x in (text, s['content']))
            if a != b:
                bad.append(f'scene {sid}: text {text!r} became {s["content"]!r}')
            if s['type'] != 0:
                bad.append(f'scene {sid}: type {s["type"]}')
            if whole is not None and whole == text and '/*' not in whole:
                want = 1 if wordcount.count(s['content'] or '')[0] < 10 else 2
                if s['status'] != want:
                    bad.append(f'scene {sid}: status {s["status"]} instead of {want} for {s["content"]!r}')
    if sorted(seen) != sorted(p['scenes']):
        bad.append(f'scenes {sorted(p["scenes"])} but {seen} in the chapters')
    return bad


def judge_outline(ctx, p, seq):
    ref = reference_outline(seq)
    if len(ref) != len(p['chapters']):
        return [f'{len(p["chapters"])} chapters instead of {len(ref)}']
    bad = []
    seen = []

    def lines(what, desc, want):
        got = plain_lines(desc)
        want = [tuple(x.strip() for x in w) for w in want if w[-1].strip() not in ('', '-')]
        got = [g for g in got if g != '-']
        if len(got) != len(want) or any(g not in w for g, w in zip(got, want)):
            bad.append(f'{what}: description {got!r} instead of {want!r}')

    for (level, t, desc, scenes), (cid, c) in zip(ref, p['chapters'].items()):
        if squeezed(c['title']) != squeezed(t):
            bad.append(f'chapter {cid}: title {c["title"]!r} instead of {t!r}')
        if c['level'] != level or c['type'] != 0:
            bad.append(f'chapter {cid}: level {c["level"]} type {c["type"]} instead of {level}, 0')
        lines(f'chapter {cid}', c['desc'], desc)
        if len(scenes) != len(c['scenes']):
            bad.append(f'chapter {cid} {t!r}: {len(c["scenes"])} scenes instead of {len(scenes)}')
            continue
        for (st, sdesc), sid in zip(scenes, c['scenes']):
            seen.append(sid)
            s = p['scenes'][sid]
            ctx.event('outline_scene')
            if squeezed(s['title']) != squeezed(st):
                bad.append(f'scene {sid}: title {s["title"]!r} instead of {st!r}')
            lines(f'scene {sid}', s['desc'], sdesc)
            if squeezed(s['content']) or s['type'] != 0 or s['status'] != 1:
                bad.append(f'scene {sid}: text {s["content"]!r}, type {s["type"]}, status {s["status"]}')
    if sorted(seen) != sorted(p['scenes']):
        bad.append(f'scenes {sorted(p["scenes"])} but {seen} in the chapters')
    return bad


def run(ctx):
    global EVENT
    EVENT = ctx.event
    for i, rng in ctx.cases('new', 260, 8000):
        gen.reset()
        outline = rng.random() < 0.35
        label = f'new/{i} {"outline" if outline else "work in progress"}'
        seq = blocks(rng, outline)
        if outline and not any(k == 'scene' for k, __ in seq):
            seq.append(('scene', title(rng)))
        meta = dict(title=gen.maybe(rng, 0.8, lambda: docs.inline(rng)), author=gen.maybe(rng, 0.8, lambda: docs.inline(rng)),
                    desc=gen.maybe(rng, 0.6, lambda: docs.inline(rng)))
        meta['language'], meta['country'] = rng.choice([('en', 'US'), ('de', 'DE'), ('pt', 'BR'), (None, None)])
        if rng.random() < 0.1:
            meta.update(meta=False, title=None, author=None, desc=None)
        data = document(rng, seq, outline, meta)
        if meta['language'] is None and rng.random() < 0.5:
            styles = ref_odf.Package(data).read('styles.xml')
            k = rng.random()
            if k < 0.4:
                styles = styles.replace(b'<style:text-properties/>', b'')
            elif k < 0.7:
                styles = re.sub(rb'<style:default-style.*?</style:default-style>', b'', styles)
            else:
                styles = re.sub(rb'<office:styles>.*?</office:styles>', b'', styles)
            data = ref_odf.replace_part(data, 'styles.xml', styles)
        ctx.sample(f'{label}: {seq[:6]}')
        d = ctx.dir()
        doc = lib.put(os.path.join(d, rng.choice(['novel.odt', 'my first novel.odt', 'n\u00f6vel.1.odt'])), data)
        o = lib.convert(doc)
        ctx.evaluated(data, True)
        ctx.event('outline' if outline else 'wip')
        path = doc[:-4] + '.yw7'
        if not o.ok or not os.path.isfile(path):
            ctx.violation(f'{label}: no project was created: {o!r} {seq}', document=data)
            ctx.drop(d)
            continue
        p = lib.parse_file(path)
        bad = (judge_outline if outline else judge_wip)(ctx, p, seq)
        for key, name in (('title', 'title'), ('author', 'author'), ('desc', 'desc')):
            if squeezed(p[name]) != squeezed(meta[key]):
                bad.append(f'project {name} {p[name]!r} instead of {meta[key]!r}')
        if meta['language'] and (p['lang'], p['country']) != (meta['language'], meta['country']):
            bad.append(f'project language {p["lang"]}-{p["country"]} instead of {meta["language"]}-{meta["country"]}')
        for group in ('characters', 'locations', 'items'):
            if p[group]:
                bad.append(f'{len(p[group])} {group} out of nothing')
        if lib.get(doc) != data:
            bad.append('the document was changed')
        if bad:
            ctx.violation(f'{label}: {bad[:4]} blocks {seq}', document=data)
        ctx.drop(d)
    ctx.require('scene', 150)
    ctx.require('outline_scene', 50)
    ctx.require('divider_variant', 20)
    ctx.require('low_heading', 30)
    ctx.require('caption', 10)
