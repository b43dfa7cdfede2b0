"""Reading, predicting and rewriting the exported lists (ODS)."""
import copy
import re
import xml.etree.ElementTree as ET

import docs
import ref_odf
from ref_odf import q, PARA, SPAN

ROW, CELL, TABLE = q('table:table-row'), q('table:table-cell'), q('table:table')
REPEAT = q('table:number-columns-repeated')
COLUMNS = {'_charlist': 10, '_loclist': 5, '_itemlist': 5, '_scenelist': 21}
GROUP = {'_charlist': 'characters', '_loclist': 'locations', '_itemlist': 'items', '_scenelist': 'scenes'}
PREFIX = {'_charlist': 'CrID:', '_loclist': 'LcID:', '_itemlist': 'ItID:', '_scenelist': 'ScID:'}
# column -> (key, how)
FIELDS = {
    '_charlist': {1: ('title', 'text'), 2: ('fullName', 'text'), 3: ('aka', 'text'), 4: ('desc', 'text'), 5: ('bio', 'text'), 6: ('goals', 'text'),
                  7: ('major', 'major'), 8: ('tags', 'tags'), 9: ('notes', 'text')},
    '_loclist': {1: ('title', 'text'), 2: ('desc', 'text'), 3: ('aka', 'text'), 4: ('tags', 'tags')},
    '_scenelist': {1: ('title', 'text'), 2: ('desc', 'text'), 3: ('tags', 'tags'), 4: ('notes', 'text'), 5: ('reaction', 'reaction'), 6: ('goal', 'text'),
                   7: ('conflict', 'text'), 8: ('outcome', 'text'), 11: ('field1', 'rating'), 12: ('field2', 'rating'), 13: ('field3', 'rating'),
                   14: ('field4', 'rating'), 17: ('status', 'status')},
}
FIELDS['_itemlist'] = FIELDS['_loclist']
RATINGS = [str(n) for n in range(2, 11)]


def split_tags(cell):
    out = []
    for t in cell.split(', '):
        t = t.strip()
        if t and t not in out:
            out.append(t)
    return out


def value(how, cell, old):
    """The value a cell stands for."""
    if how == 'tags':
        return split_tags(cell)
    if how == 'major':
        return 'Major' in cell
    if how == 'reaction':
        return 'r' in cell.lower()
    if how == 'rating':
        return cell if cell in RATINGS else '1'
    if how == 'status':
        return docs.STATUS.index(cell) if cell in docs.STATUS[1:] else old
    return cell.rstrip()


BLANK = {
    'characters': dict(title='', image=None, desc='', aka='', tags=None, kw={}, notes='', bio='', goals='', fullName='', major=None),
    'locations': dict(title='', image=None, desc='', aka='', tags=None, kw={}),
}
BLANK['items'] = BLANK['locations']


def predict(p, kind, rows):
    """The project after importing these rows."""
    p = copy.deepcopy(p)
    group = GROUP[kind]
    order = []
    for cells in rows:
        m = re.search(PREFIX[kind] + '([0-9]+)', cells[0])
        if not m:
            continue
        i = m.group(1)
        if kind == '_scenelist' and i not in p['scenes']:
            # there is no chapter this scene could return to
            continue
        if i not in order:
            order.append(i)
        e = p[group].setdefault(i, copy.deepcopy(BLANK.get(group)))
        for col, (key, how) in FIELDS[kind].items():
            e[key] = value(how, cells[col], e[key])
    if kind != '_scenelist':
        p[group] = {i: p[group][i] for i in order}
        for s in p['scenes'].values():
            if s[group]:
                s[group] = [x for x in s[group] if x in p[group]]
    return p


def normalize(p, kind):
    """N/A ratings may be stored or left out."""
    for s in p['scenes'].values():
        for k in '1234':
            if s['field' + k] == '1':
                s['field' + k] = None


# -- rewriting ---------------------------------------------------------------------------------

def paragraphs(cell, text):
    for line in text.split('\n'):
        ET.SubElement(cell, PARA).text = line


def with_rows(data, rows):
    """Replace the data rows."""

    def edit(root):
        table = root.find(q('office:body')).find(q('office:spreadsheet')).find(TABLE)
        old = table.findall(ROW)
        for r in old[1:]:
            table.remove(r)
        at = list(table).index(old[0]) + 1
        for cells in rows:
            r = ET.Element(ROW)
            for c in cells:
                e = ET.SubElement(r, CELL, {q('office:value-type'): 'string'})
                if c:
                    paragraphs(e, c)
            table.insert(at, r)
            at += 1

    return ref_odf.rewrite(data, edit)


def calc(data, rng, columns):
    """Rewrite the table as a spreadsheet program saves it."""

    def decorate(p):
        t = p.text or ''
        k = rng.random()
        if len(t) < 2 or k > 0.2:
            return
        a, b = sorted((rng.randint(0, len(t)), rng.randint(0, len(t))))
        p.text = t[:a]
        e = ET.SubElement(p, SPAN, {ref_odf.STYLE_NAME: 'T1'}) if k < 0.12 else ET.SubElement(p, q('text:a'), {q('xlink:type'): 'simple', q('xlink:href'): 'http://x.y/'})
        e.text, e.tail = t[a:b], t[b:]

    def annotation(cell, text):
        e = ET.Element(q('office:annotation'))
        ET.SubElement(e, q('dc:date')).text = '2023-01-01T00:00:00'
        ET.SubElement(e, PARA).text = text
        cell.insert(0, e)

    def edit(root):
        sheet = root.find(q('office:body')).find(q('office:spreadsheet'))
        table = sheet.find(TABLE)
        rows = table.findall(ROW)
        for n, r in enumerate(rows):
            styled = rng.choice([0, 0.2, 0.2])
            cells = r.findall(CELL)
            for c in cells[1:]:
                ps = c.findall(PARA)
                text = '\n'.join(''.join(p.itertext()) for p in ps)
                if not text:
                    for p in ps:
                        c.remove(p)
                    for a in [a for a in c.attrib if a.startswith('{' + ref_odf.NS['office'] + '}')]:
                        del c.attrib[a]
                elif text.isdigit() and rng.random() < 0.5:
                    c.set(q('office:value-type'), 'float')
                    c.set(q('office:value'), text)
                for p in ps:
                    decorate(p)
                if n and rng.random() < 0.03:
                    annotation(c, 'a remark')
                if n and rng.random() < styled:
                    c.set(q('table:style-name'), 'ce1')
            # equal neighbours are merged
            last = None
            for c in cells:
                key = (tuple(sorted((k, v) for k, v in c.attrib.items() if k != REPEAT)), ''.join(ET.tostring(x, 'unicode') for x in c))
                if last is not None and key == last[0] and n and c is not cells[1]:
                    last[1].set(REPEAT, str(int(last[1].get(REPEAT, '1')) + 1))
                    r.remove(c)
                else:
                    last = (key, c)
            left = 1024 - columns
            cells = r.findall(CELL)
            tail = cells[-1]
            if not len(tail) and n and not tail.attrib.get(q('table:style-name')) and len(cells) > 1:
                tail.set(REPEAT, str(int(tail.get(REPEAT, '1')) + left))
            else:
                ET.SubElement(r, CELL, {REPEAT: str(left)})
            if n and rng.random() < 0.1:
                r.set(q('table:visibility'), rng.choice(['filter', 'collapse']))
        empty = ET.Element(ROW, {q('table:number-rows-repeated'): '1048000'})
        ET.SubElement(empty, CELL, {REPEAT: '1024'})
        at = list(table).index(rows[-1]) + 1
        table.insert(at, empty)
        if rng.random() < 0.4:
            # the header row is repeated on each printed page
            at = list(table).index(rows[0])
            table.remove(rows[0])
            h = ET.Element(q('table:table-header-rows'))
            h.append(rows[0])
            table.insert(at, h)
        body = [r for r in table.findall(ROW) if r in rows]
        if len(body) > 1 and rng.random() < 0.4:
            # some rows are grouped, perhaps twice
            a = rng.randint(0, len(body) - 1)
            b = rng.randint(a, len(body) - 1)
            g = ET.Element(q('table:table-row-group'))
            table.insert(list(table).index(body[a]), g)
            inner = g
            if rng.random() < 0.3:
                inner = ET.SubElement(g, q('table:table-row-group'))
            for r in body[a:b + 1]:
                table.remove(r)
                inner.append(r)
        if rng.random() < 0.3:
            other = ET.Element(TABLE, {q('table:name'): 'Sheet2'})
            r = ET.SubElement(other, ROW)
            c = ET.SubElement(r, CELL, {q('office:value-type'): 'string'})
            paragraphs(c, 'CrID:1 ScID:1 LcID:1 ItID:1')
            sheet.insert(list(sheet).index(table) + 1, other)
        if rng.random() < 0.3:
            ET.SubElement(sheet, q('table:named-expressions'))
        if rng.random() < 0.3:
            table.insert(0, ET.Element(q('office:forms')))

    return ref_odf.rewrite(data, edit)
