"""Rewrites exported documents the way a word processor saves them: the same text, but with automatic styles, split spans,
white space elements, bookmarks, page breaks and annotation data.  Never imports the library.
"""
import re
import xml.etree.ElementTree as ET

import ref_odf
from ref_odf import q, PARA, SPAN, HEAD, ANNOTATION, STYLE_NAME

KEEP = (q('draw:frame'), ANNOTATION, q('text:note'), q('office:automatic-styles'), q('office:styles'))


class Styles:

    def __init__(self, root):
        self.box = root.find(q('office:automatic-styles'))
        if self.box is None:
            self.box = ET.Element(q('office:automatic-styles'))
            root.insert(0, self.box)
        self.props = {'Emphasis': {'i': 1}, 'Strong_20_Emphasis': {'b': 1}}
        for s in self.box:
            t = s.find(q('style:text-properties'))
            if t is None:
                continue
            p = {}
            for key, name, on in (('i', 'fo:font-style', 'italic'), ('b', 'fo:font-weight', 'bold')):
                # 0: switched off
                if t.get(q(name)) in (on, 'normal'):
                    p[key] = int(t.get(q(name)) == on)
            if t.get(q('fo:language')):
                p['lang'] = (t.get(q('fo:language')), t.get(q('fo:country')))
            self.props[s.get(q('style:name'))] = p
        self.parents = {s.get(q('style:name')): s.get(q('style:parent-style-name')) for s in self.box}
        self.count = 0

    def add(self, family, props, parent=None):
        while True:
            self.count += 1
            name = f'{"P" if family == "paragraph" else "TT"}9{self.count}'
            if name not in self.props:
                break
        s = ET.SubElement(self.box, q('style:style'), {q('style:name'): name, q('style:family'): family})
        # the parent of an automatic style is never automatic
        parent = self.parents.get(parent, parent)
        self.parents[name] = parent
        if parent:
            s.set(q('style:parent-style-name'), parent)
        t = ET.SubElement(s, q('style:text-properties'))
        if 'i' in props:
            t.set(q('fo:font-style'), 'italic' if props['i'] else 'normal')
        if 'b' in props:
            t.set(q('fo:font-weight'), 'bold' if props['b'] else 'normal')
        if 'lang' in props:
            t.set(q('fo:language'), props['lang'][0])
            t.set(q('fo:country'), props['lang'][1] or 'none')
        self.props[name] = props
        return name


def _blanks(p):
    """Replace leading and repeated blanks by text:s elements, as the format demands."""

    def split(text, start):
        """[(text, count)]: pieces followed by a text:s element with this count."""
        out = []
        pos = 0
        for m in re.finditer(' {2,}' if not start else '^ +| {2,}', text):
            lead = start and m.start() == 0
            out.append((text[pos:m.start()] + ('' if lead else ' '), len(m.group()) - (0 if lead else 1)))
            pos = m.end()
        return out, text[pos:]

    def spaces(n):
        e = ET.Element(q('text:s'))
        if n > 1:
            e.set(q('text:c'), str(n))
        return e

    def walk(e, start):
        if e.tag in KEEP:
            return start
        if e.text:
            parts, rest = split(e.text, start)
            start = False
            if parts:
                e.text = parts[0][0]
                els = [spaces(n) for __, n in parts]
                for k, x in enumerate(els):
                    x.tail = parts[k + 1][0] if k + 1 < len(parts) else rest
                for k, x in enumerate(els):
                    e.insert(k, x)
        for c in list(e):
            if c.tag == q('text:s'):
                start = False
                continue
            start = walk(c, start)
            if c.tail:
                parts, rest = split(c.tail, start)
                start = False
                if parts:
                    c.tail = parts[0][0]
                    at = list(e).index(c) + 1
                    for k, (__, n) in enumerate(parts):
                        x = spaces(n)
                        x.tail = parts[k + 1][0] if k + 1 < len(parts) else rest
                        e.insert(at + k, x)
        return start

    walk(p, True)


def _tabs(p, rng):
    """Replace some blanks between words by tabs and line breaks, which count as blanks."""

    def element():
        return ET.Element(q(rng.choice(['text:tab', 'text:line-break'])))

    def walk(e):
        if e.tag in KEEP and e is not p:
            return
        kids = list(e)
        for c in kids:
            walk(c)
        for c in [None] + kids:
            text = e.text if c is None else c.tail
            places = [m.start() for m in re.finditer(r'(?<=\w) (?=\w)', text or '')]
            if places and rng.random() < 0.3:
                cut = rng.choice(places)
                x = element()
                x.tail = text[cut + 1:]
                if c is None:
                    e.text = text[:cut]
                    e.insert(0, x)
                else:
                    c.tail = text[:cut]
                    e.insert(list(e).index(c) + 1, x)

    walk(p)


def _wrap(p, rng):
    """Break the lines of the file between words, as programs do that limit the line length; a line break counts as a blank."""
    p.text = re.sub(r'(?<=\w) (?=\w)', lambda m: rng.choice([' ', ' ', '\n', '\r\n', '\n      ']), p.text or '')
    for e in p:
        if e.tag not in KEEP and e.tag != q('dc:creator'):
            _wrap(e, rng)
        e.tail = re.sub(r'(?<=\w) (?=\w)', lambda m: rng.choice([' ', ' ', '\n', '\n   ']), e.tail or '')


def office(data, rng, keep_styles=()):
    """Return the package with an equivalent content.xml."""

    def edit(root):
        styles = Styles(root)
        text = root.find(q('office:body')).find(q('office:text'))
        inner = set()
        for a in root.iter():
            if a.tag in (ANNOTATION, q('text:note')):
                inner.update(a.iter())
        paras = [p for p in text.iter() if p.tag in (PARA, HEAD) and p not in inner]
        for p in paras:
            if p.get(STYLE_NAME) in keep_styles:
                continue
            for s in [x for x in p.iter(SPAN) if x not in inner]:
                k = rng.random()
                props = dict(styles.props.get(s.get(STYLE_NAME), {}))
                # merge with a single nested span
                if k < 0.3 and not (s.text or '') and len(s) == 1 and s[0].tag == SPAN and not (s[0].tail or '') and s[0] not in inner:
                    sub = s[0]
                    more = styles.props.get(sub.get(STYLE_NAME), {})
                    if not ('lang' in props and 'lang' in more):
                        props.update(more)
                        s.set(STYLE_NAME, styles.add('text', props))
                        s.text, tail = sub.text, s.tail
                        s.remove(sub)
                        for c in list(sub):
                            s.append(c)
                        s.tail = tail
                        # (the merged span must not be visited again)
                        sub.clear()
                        sub.tag = SPAN
                        continue
                if k < 0.6:
                    s.set(STYLE_NAME, styles.add('text', props))
            if p.tag == PARA and rng.random() < 0.3:
                props = dict(styles.props.get(p.get(STYLE_NAME), {}))
                kids = [c for c in p]
                heading = 'Heading' in (styles.parents.get(p.get(STYLE_NAME)) or p.get(STYLE_NAME) or '')
                if not props and not heading and len(kids) == 1 and kids[0].tag == SPAN and not (p.text or '') and not (kids[0].tail or '') and rng.random() < 0.5:
                    # the whole paragraph is formatted
                    props = dict(styles.props.get(kids[0].get(STYLE_NAME), {}))
                    sub = kids[0]
                    p.remove(sub)
                    p.text = sub.text
                    for c in list(sub):
                        p.append(c)
                p.set(STYLE_NAME, styles.add('paragraph', props, p.get(STYLE_NAME)))
            # editing history splits spans
            pm = {c: e for e in p.iter() for c in e}
            for s in [x for x in p.iter(SPAN) if x not in inner and len(x) == 0 and len(x.text or '') > 3]:
                if rng.random() < 0.2 and s in pm:
                    cut = rng.randint(1, len(s.text) - 1)
                    new = ET.Element(SPAN, {STYLE_NAME: s.get(STYLE_NAME)})
                    new.text, s.text = s.text[cut:], s.text[:cut]
                    new.tail, s.tail = s.tail, None
                    parent = pm[s]
                    parent.insert(list(parent).index(s) + 1, new)
            # plain passages become spans with a style that says nothing about emphasis
            if p.text and len(p.text) > 3 and rng.random() < 0.2 and p.tag == PARA:
                cut = rng.randint(1, len(p.text) - 1)
                new = ET.Element(SPAN, {STYLE_NAME: styles.add('text', {})})
                new.text, p.text = p.text[cut:], p.text[:cut]
                p.insert(0, new)
            if rng.random() < 0.15:
                # an anchor or page break in the middle of the text
                e = ET.Element(q(rng.choice(['text:soft-page-break', 'text:bookmark', 'text:bookmark-start', 'text:change', 'text:a', 'draw:frame'])))
                if e.tag == q('text:change'):
                    e.set(q('text:change-id'), 'ct1')
                elif e.tag == q('text:a'):
                    e.set(q('xlink:type'), 'simple')
                    e.set(q('xlink:href'), 'http://example.com/')
                elif e.tag == q('draw:frame'):
                    # a picture with a text that is only read aloud
                    e.set(q('text:anchor-type'), rng.choice(['as-char', 'char', 'paragraph']))
                    ET.SubElement(e, q('draw:image'), {q('xlink:href'): 'Pictures/1.png', q('xlink:type'): 'simple'})
                    for name in rng.sample(['svg:title', 'svg:desc'], rng.randint(1, 2)):
                        ET.SubElement(e, q(name)).text = 'A picture'
                elif e.tag != q('text:soft-page-break'):
                    e.set(q('text:name'), f'anchor{rng.randint(0, 9999)}')
                if p.text and rng.random() < 0.7:
                    cut = rng.randint(0, len(p.text))
                    e.tail, p.text = p.text[cut:], p.text[:cut]
                    p.insert(0, e)
                    if e.tag == q('text:a'):
                        # part of the text becomes a link
                        cut = rng.randint(0, len(e.tail))
                        e.text, e.tail = e.tail[:cut], e.tail[cut:]
                else:
                    p.append(e)
            _blanks(p)
            if rng.random() < 0.2:
                _tabs(p, rng)
        for a in [x for x in text.iter(ANNOTATION)]:
            creator = a.find(q('dc:creator'))
            if creator is not None and rng.random() < 0.8:
                d = ET.Element(q('dc:date'))
                d.text = '2023-07-14T12:00:00.000'
                a.insert(list(a).index(creator) + 1, d)
                if rng.random() < 0.5:
                    x = ET.Element(q('meta:creator-initials'))
                    x.text = 'XY'
                    a.insert(list(a).index(d) + 1, x)
            a.set(q('office:name'), f'__Annotation__{rng.randint(1, 9999)}')
            for p in a.findall(PARA):
                if not p.get(STYLE_NAME) or rng.random() < 0.3 and p.get(STYLE_NAME) != 'Quotations':
                    p.set(STYLE_NAME, styles.add('paragraph', {}, 'Standard'))
                if p.text and rng.random() < 0.5 and not len(p):
                    s = ET.SubElement(p, SPAN, {STYLE_NAME: styles.add('text', rng.choice([{}, {'i': 1}, {'lang': ('en', 'GB')}]))})
                    s.text, p.text = p.text, None
                if rng.random() < 0.2:
                    _tabs(p, rng)
        if rng.random() < 0.5:
            # comments on a passage end later in the same paragraph
            pm = {c: e for e in text.iter() for c in e}
            for a in [x for x in text.iter(ANNOTATION)]:
                parent = pm.get(a)
                if parent is None or parent.tag not in (PARA, SPAN) or rng.random() < 0.5:
                    continue
                e = ET.Element(q('office:annotation-end'), {q('office:name'): a.get(q('office:name'))})
                cut = rng.randint(0, len(a.tail or ''))
                a.tail, e.tail = (a.tail or '')[:cut], (a.tail or '')[cut:]
                parent.insert(list(parent).index(a) + 1, e)
        for p in text.iter(PARA):
            if rng.random() < 0.1 and p.get(STYLE_NAME) not in keep_styles:
                _wrap(p, rng)
        if rng.random() < 0.5:
            decls = ET.Element(q('text:sequence-decls'))
            for name in ('Illustration', 'Table', 'Text'):
                ET.SubElement(decls, q('text:sequence-decl'), {q('text:name'): name, q('text:display-outline-level'): '0'})
            text.insert(0, decls)
        if rng.random() < 0.3:
            # passages that were deleted while the changes were recorded
            region = ('<text:changed-region text:id="ct{0}"><text:{1}><office:change-info><dc:creator>Someone</dc:creator>'
                      '<dc:date>2023-07-14T12:00:00</dc:date></office:change-info>{2}</text:{1}></text:changed-region>')
            regions = []
            for n in range(rng.choice([1, 1, 2, 3])):
                level = rng.choice([1, 2, 4])
                regions.append(region.format(n, 'deletion', '<text:p text:style-name="Text_20_body">removed</text:p>' + rng.choice(
                    ['', f'<text:h text:style-name="Heading_20_{level}" text:outline-level="{level}">removed</text:h><text:p>removed</text:p>'])))
                if rng.random() < 0.3:
                    regions.append(region.format(f'{n}i', 'insertion', ''))
            text.insert(0, ET.fromstring(
                f'<text:tracked-changes xmlns:text="{ref_odf.NS["text"]}" xmlns:office="{ref_odf.NS["office"]}" xmlns:dc="{ref_odf.NS["dc"]}">'
                + ''.join(regions) + '</text:tracked-changes>'))

    return ref_odf.rewrite(data, edit)
