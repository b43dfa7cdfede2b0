"""C13: editing a document changes exactly what was edited."""
import copy
import os
import re
import xml.etree.ElementTree as ET

import docs
import gen
import lib
import office
import ref_odf
import writer
from ref_odf import q, PARA, SECTION
from props import c04, c10

LEVEL = 'exploration'
RULE = ('In exported manuscript, notes, todo and proof documents random subsets of the scene texts are rewritten (new texts, inserted, removed, swapped and '
        'changed lines) in the XML a word processor would save; scenes are also moved or taken out of the document, and text is put between scenes. '
        'After the import the whole project is compared with a shadow project, over histories of several rounds and document types. Distinct by project, '
        'kind and edits.')
ASSUMPTIONS = c10.ASSUMPTIONS


def usable(text, kind):
    t = (text or '')
    if kind == '_proof' and 'ScID' in t:
        return False
    if any(docs.TAG.search(c) for p in docs.parse_markup(t) for __, c in p.comments):
        # a tag within a comment is no formatting
        return False
    for line in t.split('\n'):
        if line.startswith('#') or re.match(r'(\[[^\]]*\]|/\*.*?\*/|> |- )*#', line):
            return False
    return '~' not in t


def edited(rng, old):
    """A new text, derived from the old one or unrelated, perhaps with lists."""
    lines = rewritten(rng, old).split('\n')
    if rng.random() < 0.25:
        a = rng.randrange(len(lines))
        for k in range(a, min(len(lines), a + rng.randint(1, 4))):
            if lines[k][:1].isalpha():
                lines[k] = '- ' + lines[k]
    text = '\n'.join(lines)
    # blanks in a range that is not closed may stay or be trimmed
    return text if gen.nested(text) else text.rstrip()


def rewritten(rng, old):
    lines = (old or '').split('\n')
    k = rng.random()
    if k < 0.35 or not old:
        return c10.content(rng) or ''
    if k < 0.5:
        lines.insert(rng.randint(0, len(lines)), docs.scene_text(rng, paras=(1, 1), tilde=False)[0])
    elif k < 0.6:
        lines.insert(rng.randint(0, len(lines)), '')
    elif k < 0.7 and len(lines) > 1:
        lines.pop(rng.randrange(len(lines)))
    elif k < 0.8 and len(lines) > 1:
        a, b = rng.sample(range(len(lines)), 2)
        lines[a], lines[b] = lines[b], lines[a]
    elif k < 0.9:
        m = docs.UID.search(old)
        if m:
            return old[:m.start()] + rng.choice(['changed words ' + gen.uid(), gen.uid(), f'a & b {gen.uid()}']) + old[m.end():]
    elif k < 0.95:
        return ''
    else:
        # paragraph split or merged
        if len(lines) > 1 and rng.random() < 0.5:
            return old.replace('\n', ' ', 1)
        return old.replace(' ', '\n', 1)
    return '\n'.join(lines)


def shuffle(ctx, rng, kind, keep):
    """A function that moves and removes scenes in the document, and puts text between them."""

    def extra(root, body, styles):
        if kind == '_proof':
            blocks = []
            for p in list(body):
                if p.tag == PARA and writer.marker(p):
                    blocks.append([p])
                elif blocks and writer.marker(blocks[-1][-1]) != '':
                    blocks[-1].append(p)
            if len(blocks) > 1 and rng.random() < 0.3:
                a, b = rng.sample(blocks, 2)
                at = list(body).index(a[0])
                if at < list(body).index(b[0]):
                    for e in b:
                        body.remove(e)
                    for n, e in enumerate(b):
                        body.insert(at + n, e)
                    ctx.event('scene_moved_in_document')
            if blocks and rng.random() < 0.2:
                b = rng.choice(blocks)
                if writer.marker(b[0]) in keep:
                    for e in b:
                        body.remove(e)
                    ctx.event('scene_removed_from_document')
                    blocks.remove(b)
            if blocks and rng.random() < 0.2:
                e = ET.Element(PARA)
                e.text = 'Text between the scenes'
                body.insert(list(body).index(rng.choice(blocks)[0]), e)
                ctx.event('text_between_scenes')
            return
        pm = ref_odf.parent_map(body)
        scenes = [s for s in body.iter(SECTION) if s.get(q('text:name')).startswith('ScID:')]
        if len(scenes) > 1 and rng.random() < 0.3:
            a, b = rng.sample(scenes, 2)
            b.tail = '\n'
            pm[b].remove(b)
            pm[a].insert(list(pm[a]).index(a), b)
            ctx.event('scene_moved_in_document')
            pm = ref_odf.parent_map(body)
        if scenes and rng.random() < 0.2:
            s = rng.choice(scenes)
            if s.get(q('text:name'))[5:] in keep:
                pm[s].remove(s)
                scenes.remove(s)
                ctx.event('scene_removed_from_document')
        if scenes and rng.random() < 0.2:
            e = ET.Element(PARA)
            e.text = 'Text between the scenes'
            s = rng.choice(scenes)
            pm[s].insert(list(pm[s]).index(s) + rng.randint(0, 1), e)
            ctx.event('text_between_scenes')

    return extra


def retitle(ctx, data, sids, rng):
    """Put comments with new scene titles between tildes into the scenes, and headings as in old documents."""
    titles = {}

    def edit(root):
        styles = office.Styles(root)
        for s in root.iter(SECTION):
            sid = s.get(q('text:name'))[5:]
            if not s.get(q('text:name')).startswith('ScID:') or sid not in sids or rng.random() < 0.5:
                continue
            paras = [p for p in s if p.tag == PARA and not len(p)]
            if not paras:
                continue
            p = paras[0] if rng.random() < 0.7 else rng.choice(paras)
            title = docs.inline(rng, [w for w in docs.WORD_HOSTILE if '~' not in w], (1, 5))
            e = writer._comment(rng.choice(['~{}~', '~ {} ~', '~{} ~', ' ~ {}~ '] + ['~ {} ~ old title'] * (rng.random() < 0.2)).format(title), rng, styles)
            if p.text and rng.random() < 0.3:
                at = rng.randint(0, len(p.text))
                e.tail, p.text = p.text[at:], p.text[:at]
                p.append(e)
            else:
                e.tail, p.text = p.text, None
                p.insert(0, e)
            titles[sid] = title.strip()
            ctx.event('scene_retitled')

    return ref_odf.rewrite(data, edit), titles


def old_headings(ctx, data, sids, rng):
    """Headings with the scene titles inside of the sections, as in documents of old versions."""

    def edit(root):
        for s in root.iter(SECTION):
            name = s.get(q('text:name'))
            if name.startswith('ScID:') and name[5:] in sids:
                h = ET.Element(ref_odf.HEAD, {q('text:outline-level'): '3', ref_odf.STYLE_NAME: 'Heading_20_3'})
                h.text = docs.inline(rng)
                if rng.random() < 0.4:
                    x = ET.SubElement(h, rng.choice([q('text:s'), q('text:tab'), ref_odf.SPAN]))
                    if x.tag == ref_odf.SPAN:
                        x.set(ref_odf.STYLE_NAME, rng.choice(['Emphasis', 'Strong_20_Emphasis']))
                        x.text = docs.inline(rng)
                    x.tail = docs.inline(rng)
                s.insert(0, h)
                ctx.event('old_heading')

    return ref_odf.rewrite(data, edit)


def run(ctx):
    for i, rng in ctx.cases('edit', 70, 1500):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l']), content=c10.content, chtypes=(0, 0, 0, 0, 1, 2, 3), sctypes=(0, 0, 0, 0, 0, 1, 2, 3))
        for s in p['scenes'].values():
            s['noexport'] = rng.random() < 0.08
        p = c04.trim(p)
        p['lang'], p['country'] = rng.choice([('de', 'DE'), ('en', 'US'), (None, None), ('zxx', 'none')])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        for r in range(rng.randint(2, 5)):
            kind = rng.choice(['_manuscript', '_manuscript', '_proof', '_proof', '_notes', '_todo'])
            before, before_bytes = lib.parse_file(path), lib.get(path)
            if kind == '_proof' and b'ScID' in re.sub(rb'<ScID>.*?</ScID>', b'', before_bytes):
                kind = '_manuscript'
            label = f'edit/{i} round {r} {kind}'
            data = docs.export(ctx, path, kind, label)
            if data is None:
                break
            doc = docs.doc_path(path, kind)
            inside = sorted(c10.expected(before, kind))
            changed = {}
            for sid in rng.sample(inside, min(len(inside), rng.choice([0, 1, 1, 2, 3, 99]))):
                new = edited(rng, before['scenes'][sid]['content'])
                if usable(new, kind):
                    changed[sid] = new
            ctx.event('edited_text', len(changed))
            extra = shuffle(ctx, rng, kind, set(inside) - set(changed))
            data = writer.set_texts(data, kind, changed, rng, extra if rng.random() < 0.4 else None)
            if b'="normal"' in ref_odf.Package(data).read('content.xml'):
                ctx.event('formatting_switched_off')
            want = before
            if kind != '_proof' and rng.random() < 0.3:
                data, titles = retitle(ctx, data, inside, rng)
                want = copy.deepcopy(before)
                for sid, t in titles.items():
                    want['scenes'][sid]['title'] = t
            if kind in ('_notes', '_todo') and rng.random() < 0.3:
                data = old_headings(ctx, data, inside, rng)
            if rng.random() < 0.3:
                data = office.office(data, rng, keep_styles=('scene_20_mark',))
                ctx.event('word_processor_document')
            lib.put(doc, data)
            if not docs.import_doc(ctx, doc, label, project=before_bytes, document=data):
                break
            if lib.get(doc) != data:
                ctx.violation(f'{label}: the imported document was changed')
            after = lib.parse_file(path)
            ctx.evaluated((before_bytes, kind, sorted(changed.items())), bool(changed))
            if not c10.compare(ctx, want, after, kind, label, changed=changed, project=before_bytes, document=data):
                break
        ctx.drop(d)
    ctx.require('edited_text', 100)
    ctx.require('formatting_switched_off', 15)
    ctx.require('scene_moved_in_document', 3)
    ctx.require('text_between_scenes', 3)
    ctx.require('scene_retitled', 20)
    ctx.require('old_heading', 8)
