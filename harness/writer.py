"""Writes scene texts into documents the way somebody typing in a word processor would.  Never imports the library."""
import xml.etree.ElementTree as ET

import docs
import office
import ref_odf
from ref_odf import q, HEAD, PARA, SPAN, ANNOTATION, NOTE, SECTION, STYLE_NAME

PLAIN_STYLES = ['Text_20_body', 'First_20_line_20_indent', 'Text_20_body', 'Standard', None]


def _append(parent, text):
    if not text:
        return
    if len(parent):
        parent[-1].tail = (parent[-1].tail or '') + text
    else:
        parent.text = (parent.text or '') + text


def _props(marks):
    p = {}
    for m in marks:
        if m.startswith('lang='):
            code = m[5:]
            p['lang'] = tuple(code.split('-', 1)) if '-' in code else (code, 'none')
        else:
            p[m] = 1
    return p


def _span(parent, marks, styles, rng, off=(), outside=()):
    """Open the spans for these marks; returns the innermost element.  off: what is to be switched off, outside: what the paragraph provides."""
    marks = list(marks)
    off = set(off)
    extra = []
    if rng.random() < 0.06:
        # emphasized, and set back to normal by direct formatting
        extra = [m for m in ('i', 'b') if m not in marks and m not in outside and rng.random() < 0.5]
        off.update(extra)
        marks = extra + marks
    langs = [m for m in marks if m.startswith('lang=')]
    rest = [m for m in marks if not m.startswith('lang=')]
    layers = []
    if len(langs) <= 1 and len(marks) > 1 and rng.random() < 0.5:
        layers = [marks]
    else:
        layers = [[m] for m in langs] + [[m] for m in rest]
        if len(langs) <= 1:
            rng.shuffle(layers)
    e = parent
    for layer in layers:
        if layer == ['i'] and rng.random() < 0.5:
            name = 'Emphasis'
        elif layer == ['b'] and rng.random() < 0.5:
            name = 'Strong_20_Emphasis'
        else:
            name = styles.add('text', _props(layer))
        e = ET.SubElement(e, SPAN, {STYLE_NAME: name})
    if off:
        e = ET.SubElement(e, SPAN, {STYLE_NAME: styles.add('text', dict.fromkeys(sorted(off), 0))})
    if rng.random() < 0.06:
        # formatted twice
        again = [m for m in marks if m not in off and not m.startswith('lang=')] + langs[-1:]
        if again:
            m = rng.choice(again)
            name = {'i': 'Emphasis', 'b': 'Strong_20_Emphasis'}.get(m) if rng.random() < 0.5 else None
            e = ET.SubElement(e, SPAN, {STYLE_NAME: name or styles.add('text', _props([m]))})
    return e


def _comment(text, rng, styles):
    """An annotation, or a foot- or endnote."""
    for mark, cls in (('@fn ', 'footnote'), ('@en ', 'endnote')):
        if text.startswith(mark) and rng.random() < 0.5:
            e = ET.Element(NOTE, {q('text:id'): f'ftn{rng.randint(1, 999)}', q('text:note-class'): cls})
            ET.SubElement(e, q('text:note-citation')).text = '1'
            box = ET.SubElement(e, q('text:note-body'))
            text = text[4:]
            style = 'Footnote' if cls == 'footnote' else 'Endnote'
            break
    else:
        e = ET.Element(ANNOTATION)
        ET.SubElement(e, q('dc:creator')).text = 'Somebody'
        if rng.random() < 0.7:
            ET.SubElement(e, q('dc:date')).text = '2023-01-01T10:00:00'
        box, style = e, None
    for line in text.split('\n'):
        p = ET.SubElement(box, PARA)
        if style:
            p.set(STYLE_NAME, style)
        if line.startswith('> ') and rng.random() < 0.5:
            p.set(STYLE_NAME, 'Quotations')
            line = line[2:]
        p.text = line
        office._blanks(p)
    return e


def heading_level(para):
    """1: part, 2: chapter, 3: scene, or 0."""
    if para.quote or not para.runs or para.runs[0][1] or any(at == 0 for at, __ in para.comments):
        return 0
    text = para.runs[0][0]
    return min(3, len(text) - len(text.lstrip('#')))


def paragraphs(paras, styles, rng, lists=True, captions=True):
    """Elements holding these paragraphs (docs.Para)."""
    out = []
    for para in paras:
        runs = [(t, m) for t, m in para.runs]
        item = False
        level = heading_level(para)
        if level in (1, 2) and runs[0][0].startswith('#' * level + ' ') and not para.comments and rng.random() < 0.6:
            # a heading of the word processor
            e = ET.Element(HEAD, {q('text:outline-level'): str(level), STYLE_NAME: f'Heading_20_{level}'})
            runs[0] = (runs[0][0][level + 1:], runs[0][1])
            for text, marks in runs:
                _append(_span(e, marks, styles, rng) if marks else e, text)
            out.append(e)
            continue
        if lists and not para.quote and runs and runs[0][0].startswith('- ') and not runs[0][1] and not any(at < 2 for at, __ in para.comments) and rng.random() < 0.6:
            # typed as a list item
            item = True
            runs[0] = (runs[0][0][2:], runs[0][1])
        if not item and not para.quote and not level and runs and rng.random() < 0.04:
            # a heading below the scene level is just text
            low = rng.randint(4, 6)
            e = ET.Element(HEAD, {q('text:outline-level'): str(low), STYLE_NAME: f'Heading_20_{low}'}) if rng.random() < 0.5 else \
                ET.Element(PARA, {STYLE_NAME: styles.add('paragraph', {}, f'Heading_20_{low}')})
            low = True
        else:
            e = ET.Element(PARA)
            low = False
        style = 'Quotations' if para.quote else rng.choice(PLAIN_STYLES)
        if style in ('Quotations', 'Text_20_body') and rng.random() < 0.2:
            style = styles.add('paragraph', {}, style)
        if item:
            runs = [r for r in runs if r[0]]
        common = set.intersection(*(set(m) for __, m in runs)) if runs else set()
        if common and not low and all(sum(m.startswith('lang=') for m in marks) < 2 for __, marks in runs) and rng.random() < 0.3:
            # formatting of the whole paragraph
            style = styles.add('paragraph', _props(common), style)
            runs = [(t, frozenset(m) - common) for t, m in runs]
        off, outside = {}, common
        if not low and runs and not any(at == 0 for at, __ in para.comments) and rng.random() < 0.06:
            # formatting of the whole paragraph, but for some passages
            extra = [m for m in ('i', 'b') if rng.random() < 0.6]
            if not extra:
                extra = [rng.choice('ib')]
            props = dict(styles.props.get(style, {}), **dict.fromkeys(extra, 1))
            extra = [m for m in extra if m not in common]
            style = styles.add('paragraph', props, style)
            outside = common | set(extra)
            off = {k: [m for m in extra if m not in marks] for k, (__, marks) in enumerate(runs)}
            if rng.random() < 0.7:
                runs = [(t, frozenset(m) - set(extra)) for t, m in runs]
        if style and not low:
            e.set(STYLE_NAME, style)
        pos = 2 if item else 0
        todo = list(para.comments)
        for k, (text, marks) in enumerate(runs):
            pieces = []
            while todo and todo[0][0] <= pos + len(text):
                at, c = todo.pop(0)
                pieces.append((text[:at - pos], c))
                text = text[at - pos:]
                pos = at
            pieces.append((text, None))
            pos += len(text)
            box = _span(e, marks, styles, rng, off.get(k, ()), outside) if marks or off.get(k) else e
            for t, c in pieces:
                _append(box, t)
                if c is not None:
                    box.append(_comment(c, rng, styles))
        for at, c in todo:
            e.append(_comment(c, rng, styles))
        office._blanks(e)
        if item:
            if out and out[-1].tag == q('text:list') and rng.random() < 0.7:
                lst = out[-1]
            else:
                lst = ET.Element(q('text:list'))
                out.append(lst)
            ET.SubElement(lst, q('text:list-item')).append(e)
        else:
            out.append(e)
    if captions:
        for k in range(len(out) - 1, 0, -1):
            if rng.random() < 0.03 and out[k - 1].tag == PARA and out[k].tag == PARA:
                caption(out[k - 1], out.pop(k), rng)
    return out


def caption(p, e, rng):
    """Put the paragraph e into a frame that is anchored in the paragraph p."""
    frame = ET.Element(q('draw:frame'), {q('text:anchor-type'): rng.choice(['as-char', 'char', 'paragraph'])})
    ET.SubElement(frame, q('draw:text-box')).append(e)
    if rng.random() < 0.5:
        ET.SubElement(frame, q('svg:desc')).text = 'A picture'
    k = rng.random()
    if p.text and k < 0.7:
        cut = rng.randint(0, len(p.text))
        frame.tail, p.text = p.text[cut:], p.text[:cut]
        p.insert(0, frame)
    elif k < 0.85:
        p.append(frame)
    else:
        frame.tail, p.text = p.text, None
        p.insert(0, frame)


def marker(p):
    """Scene ID of a visible scene mark, '' for an end mark, or None."""
    text = ''.join(p.itertext())
    if '[ScID' in text:
        return text.split(':', 1)[1].split(']')[0]
    if '[/ScID' in text:
        return ''
    return None


def set_texts(data, kind, texts, rng, extra=None):
    """Replace the texts of scenes in a manuscript (sections) or a proof document (visible marks)."""

    def edit(root):
        styles = office.Styles(root)
        body = root.find(q('office:body')).find(q('office:text'))
        if kind == '_proof':
            current = None
            for p in list(body):
                m = marker(p) if p.tag == PARA else None
                if m:
                    current = m
                    if m in texts:
                        at = list(body).index(p) + 1
                        for k, e in enumerate(paragraphs(docs.parse_markup(texts[m], quotes=rng.random() < 0.5), styles, rng)):
                            body.insert(at + k, e)
                elif m == '':
                    current = None
                elif current in texts:
                    body.remove(p)
        else:
            for s in body.iter(SECTION):
                name = s.get(q('text:name'))
                if name.startswith('ScID:') and name[5:] in texts:
                    for c in list(s):
                        s.remove(c)
                    s.extend(paragraphs(docs.parse_markup(texts[name[5:]]), styles, rng))
        if extra:
            extra(root, body, styles)

    return ref_odf.rewrite(data, edit)
