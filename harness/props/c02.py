"""C02: loading interprets the yWriter file as the format defines it."""
import itertools
import os
import xml.etree.ElementTree as ET

import gen
import lib
import ref_yw7

LEVEL = 'exploration'
RULE = ('Generated yWriter files (random optional elements, all type-table combinations, date and time variants, encodings, '
        'forbidden characters, dangling links) are read by the library and compared with an independent interpreter; '
        'damaged files must be rejected by the converter. Non-trivial: the file has a scene, a chapter or a story element, or '
        'is damaged; distinct by file content.')
ASSUMPTIONS = ['Each element has at most one Fields child, as yWriter writes it.']

OPTIONAL_KEEP = {'ID', 'PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS', 'SCENE', 'CHAPTER', 'LOCATION',
                 'ITEM', 'CHARACTER', 'YWRITER7', 'PROJECTNOTE', 'PROJECTVAR', 'ScID', 'CharID', 'LocID', 'ItemID'}
CONTROLS = [chr(c) for c in list(range(0, 9)) + [11, 12] + list(range(14, 32))]


def compare(ctx, label, data, **replay):
    d = ctx.dir()
    path = lib.put(os.path.join(d, 'novel.yw7'), data)
    exp = ref_yw7.parse(data)
    try:
        f = lib.load(path)
    except Exception as ex:
        ctx.violation(f'{label}: a valid file is rejected: {type(ex).__name__}: {ex}', file=data, **replay)
        return
    ctx.event('file_read')
    diff = ref_yw7.diff(exp, ref_yw7.extract(f.novel), scene_order=True)
    if exp['languages'] != f.novel.languages and (exp['languages'] or f.novel.languages):
        diff.append(f"languages {exp['languages']} -> {f.novel.languages}")
    if diff:
        ctx.violation(f'{label}: {diff[:4]}', file=data, **replay)
    if lib.get(path) != data:
        ctx.violation(f'{label}: reading changed the file', file=data)
    ctx.event('values_compared', sum(len(e) for g in ('scenes', 'chapters', 'characters', 'locations', 'items') for e in exp[g].values()))
    # reading the same file again on the same object gives the same project
    f.read()
    again = ref_yw7.diff(exp, ref_yw7.extract(f.novel), scene_order=True)
    if again and not diff:
        ctx.violation(f'{label}: reading again gives {again[:3]}', file=data)
    ctx.drop(d)
    return exp


def changed(rng, data):
    """Return the project as another program may have left it: parts removed, moved, and edited."""
    root = ET.fromstring(data)
    for section in ('SCENES', 'CHAPTERS', 'CHARACTERS', 'LOCATIONS', 'ITEMS', 'PROJECTNOTES', 'PROJECTVARS'):
        e = root.find(section)
        if e is None or rng.random() < 0.3:
            continue
        children = list(e)
        for child in children:
            e.remove(child)
        children = [x for x in children if rng.random() < 0.7]
        if rng.random() < 0.5:
            rng.shuffle(children)
        e.extend(children)
        for child in children:
            if rng.random() < 0.3:
                for x in list(child):
                    if x.tag in ('Desc', 'Tags', 'Notes', 'Characters', 'Locations', 'Items', 'Scenes', 'Fields', 'Unused', 'Day', 'Image'):
                        child.remove(x)
            if child.find('Title') is not None and rng.random() < 0.3:
                child.find('Title').text = gen.uid()
    if rng.random() < 0.3:
        for section in ('PROJECTNOTES', 'PROJECTVARS'):
            e = root.find(section)
            if e is not None:
                root.remove(e)
    return ET.tostring(root, encoding='utf-8')


def read_again(ctx, rng, label, data):
    """Reading a file that another program has changed leaves nothing of what was read before."""
    d = ctx.dir()
    path = lib.put(os.path.join(d, 'novel.yw7'), data)
    f = lib.load(path)
    for k in range(rng.randint(1, 3)):
        data = changed(rng, data)
        lib.put(path, data)
        f.read()
        exp = ref_yw7.parse(data)
        got = ref_yw7.extract(f.novel)
        for key in ('lang', 'country'):
            # the locale stays if the file has none
            if not exp[key]:
                exp[key] = got[key]
        diff = ref_yw7.diff(exp, got, scene_order=True)
        if diff:
            ctx.violation(f'{label}: reading the changed file again (no {k}) gives {diff[:4]}', file=data)
            break
        if (exp['languages'] or []) != (f.novel.languages or []):
            ctx.violation(f"{label}: reading again gives the languages {f.novel.languages}, the file has {exp['languages']}", file=data)
            break
        ctx.event('changed_file_read_again')
    ctx.drop(d)


def thin(rng, root, p=0.25):
    """Remove optional elements at random, empty others."""
    for parent in list(root.iter()):
        for child in list(parent):
            if child.tag in OPTIONAL_KEEP:
                continue
            r = rng.random()
            if r < p and not (parent.tag == 'YWRITER7' and child.tag not in ('PROJECTNOTES', 'PROJECTVARS')):
                parent.remove(child)
            elif r < p + 0.04 and len(child) == 0 and child.tag not in ('Title', 'Status'):
                child.text = None


def add_dangling(rng, root):
    for sc in root.iter('SCENE'):
        for g, t in (('Characters', 'CharID'), ('Locations', 'LocID'), ('Items', 'ItemID')):
            e = sc.find(g)
            if e is not None and rng.random() < 0.4:
                x = ET.Element(t)
                x.text = rng.choice(['999', '0', '', 'abc', '-1'])
                e.insert(rng.randint(0, len(e)), x)
    for ch in root.iter('CHAPTER'):
        e = ch.find('Scenes')
        if e is not None and rng.random() < 0.3:
            x = ET.Element('ScID')
            x.text = rng.choice(['998', 'x'])
            e.insert(rng.randint(0, len(e)), x)


DATES = ['2021-02-28 10:11:12', '2021-02-28', '2021-02-30 10:00:00', '0001-01-01 00:00:00', '9999-12-31 23:59:59', 'x', '',
         '2021-02-28 25:00:00', '2021-02-28T10:11:12', '2021-2-8 10:11:12', '10000-01-01 00:00:00', '-0044-03-15 12:00:00',
         '2021-02-28 10:11', None]
DAYS = ['0', '1', '-3', '365', 'x', '', '1.5', ' 2', None]
HOURS = ['0', '7', '07', '23', '', None]


def scene_xml(i, parts, scid='1'):
    return f'<SCENE><ID>{scid}</ID><Title>{gen.uid()}</Title>{parts}<SceneContent>x</SceneContent></SCENE>'


def doc(scenes, chapters, more='', project=''):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<YWRITER7><PROJECT><Ver>7</Ver>' + project + '</PROJECT><LOCATIONS/><ITEMS/>'
            f'<CHARACTERS/>{more}<SCENES>{scenes}</SCENES><CHAPTERS>{chapters}</CHAPTERS></YWRITER7>').encode('utf-8')


def el(tag, text):
    return '' if text is None else f'<{tag}>{text}</{tag}>' if text else f'<{tag} />'


def tables(ctx):
    unused = ['', '<Unused>-1</Unused>']
    stypes = ['', '<Fields/>'] + [f'<Fields><Field_SceneType>{x}</Field_SceneType></Fields>' for x in ('0', '1', '2', '3', '', 'x')]
    exports = list(itertools.product(['', '<ExportCondSpecific/>', '<ExportCondSpecific>-1</ExportCondSpecific>'],
                                     ['', '<ExportWhenRTF>-1</ExportWhenRTF>']))
    types = ['', '<Type>0</Type>', '<Type>1</Type>', '<Type/>']
    ctypes = ['', '<ChapterType>0</ChapterType>', '<ChapterType>1</ChapterType>', '<ChapterType>2</ChapterType>', '<ChapterType/>']
    # one file per chapter encoding, holding every scene encoding
    for u, t, c in itertools.product(unused, types, ctypes):
        scenes, srt = [], []
        for n, (su, st, (e1, e2)) in enumerate(itertools.product(unused, stypes, exports), 1):
            scenes.append(scene_xml(n, su + st + e1 + e2, str(n)))
            srt.append(f'<ScID>{n}</ScID>')
        data = doc(''.join(scenes), f'<CHAPTER><ID>1</ID><Title>c</Title>{u}{t}{c}<Scenes>{"".join(srt)}</Scenes></CHAPTER>'
                   '<CHAPTER><ID>2</ID><Title>@x</Title></CHAPTER>')
        compare(ctx, f'types {u}{t}{c}', data)
        ctx.event('type_combination', len(scenes))
        ctx.evaluated(data)
    for flags in itertools.product(['', '0', '1'], repeat=3):
        fields = ''.join(el(k, v or None) for k, v in zip(('Field_SuppressChapterTitle', 'Field_IsTrash', 'Field_SuppressChapterBreak'), flags))
        data = doc('', ''.join(f'<CHAPTER><ID>{n}</ID><Title>{a}c</Title>{s}<Fields>{fields}</Fields></CHAPTER>'
                               for n, (a, s) in enumerate(itertools.product(['', '@', ' @'], ['', '<SectionStart>-1</SectionStart>']))))
        compare(ctx, f'chapter flags {flags}', data)
        ctx.evaluated(data)
    scenes = []
    for n, (date, day, hour, minute) in enumerate(itertools.product(DATES, DAYS, HOURS, HOURS), 1):
        scenes.append(scene_xml(n, el('SpecificDateTime', date) + el('Day', day) + el('Hour', hour) + el('Minute', minute), str(n)))
    for k in range(0, len(scenes), 400):
        data = doc(''.join(scenes[k:k + 400]), '<CHAPTER><ID>1</ID><Title>c</Title></CHAPTER>')
        compare(ctx, f'dates {k}', data)
        ctx.event('date_combination', len(scenes[k:k + 400]))
        ctx.evaluated(data)
    for start, target in itertools.product([None, '', '0', '12', '-1', 'x', '1.5'], repeat=2):
        data = doc('', '', project=el('WordCountStart', start) + el('WordTarget', target))
        compare(ctx, f'counts {start} {target}', data)
        ctx.evaluated(data)


def variables(ctx, rng):
    out = []
    for i in range(rng.randint(0, 7)):
        title = rng.choice(['Language', 'Country', 'lang=de-DE', 'lang=fr', '/lang=fr', 'lang=en-US', 'x', None, 'lang=a=b', 'lang=',
                            gen.line(rng)])
        out.append((str(i + 1), title, rng.choice(['de', 'DE', 'zxx', 'none', gen.line(rng), None])))
    return out


def rejected(ctx, label, data, **replay):
    """The converter must report an error and produce nothing."""
    d = ctx.dir()
    path = lib.put(os.path.join(d, 'novel.yw7'), data)
    before = lib.snapshot(d)
    o = lib.convert(path, '_manuscript', catch=True)
    if o.raised is not None:
        ctx.violation(f'{label}: exception {o.raised!r} instead of an error message', file=data, **replay)
    elif o.ok:
        ctx.violation(f'{label}: a file that is not readable was converted: {o.message}', file=data, **replay)
    elif lib.snapshot(d) != before:
        ctx.violation(f'{label}: files changed although the project was rejected', file=data, **replay)
    ctx.event('rejected')
    ctx.drop(d)


def run(ctx):
    tables(ctx)
    for i, rng in ctx.cases('read', 350, 6000):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, [None]), orphans=True)
        p['vars'] = variables(ctx, rng)
        style = dict(mixed=rng.random() < 0.4, legacy=rng.random() < 0.3, counts=rng.random() < 0.5)
        text = gen.build_xml(p, rng, style)
        if rng.random() < 0.5:
            root = ET.fromstring(text)
            if rng.random() < 0.7:
                thin(rng, root)
            if rng.random() < 0.7:
                add_dangling(rng, root)
            text = '<?xml version="1.0" encoding="utf-8"?>\n' + ET.tostring(root, encoding='unicode')
        if rng.random() < 0.3:
            # control characters anywhere, even inside of tags: they are ignored
            for __ in range(rng.randint(1, 12)):
                k = rng.randint(45, len(text))
                text = text[:k] + rng.choice(CONTROLS) + text[k:]
            ctx.event('with_control_characters')
        if rng.random() < 0.25:
            text = text.replace('\n', '\r\n')
            ctx.event('with_crlf')
        r = rng.random()
        if r < 0.55:
            data = text.encode('utf-8')
        elif r < 0.7:
            data = b'\xef\xbb\xbf' + text.encode('utf-8')
        else:
            data = text.encode('utf-16') if r < 0.9 else b'\xfe\xff' + text.encode('utf-16-be')
            try:
                data.decode('utf-8')
            except UnicodeDecodeError:
                pass
            ctx.event('utf16')
        compare(ctx, f'read/{i}', data)
        ctx.evaluated(data, bool(p['scenes'] or p['chapters'] or p['characters']))
        ctx.sample({'case': i, 'scenes': len(p['scenes']), 'encoding': 'utf-8' if r < 0.7 else 'utf-16'}, 3)

    for i, rng in ctx.cases('again', 80, 1500):
        gen.reset()
        p = gen.project(rng, orphans=True)
        p['vars'] = variables(ctx, rng)
        data = gen.build_xml(p, rng, dict(mixed=rng.random() < 0.4)).encode('utf-8')
        read_again(ctx, rng, f'again/{i}', data)
        ctx.evaluated(data)

    for i, rng in ctx.cases('damaged', 120, 1500):
        gen.reset()
        p = gen.project(rng, size='m')
        data = gen.build_xml(p, rng).encode('utf-8')
        kind = rng.choice(['cut', 'cut', 'flip', 'random', 'empty', 'latin', 'tag', 'section'])
        if kind == 'cut':
            data = data[:rng.randint(0, len(data) - 13)]
        elif kind == 'flip':
            b = bytearray(data)
            for __ in range(rng.randint(1, 30)):
                b[rng.randrange(len(b))] = rng.randrange(256)
            data = bytes(b)
        elif kind == 'random':
            data = bytes(rng.randrange(256) for __ in range(rng.randint(1, 3000)))
        elif kind == 'empty':
            data = rng.choice([b'', b'<', b'\n', b'<YWRITER7/>', b'<html></html>', b'\xff\xfe', b'\xef\xbb\xbf'])
        elif kind == 'latin':
            data = data.replace(b'</Title>', b'\xe4</Title>', 1)[:-1]
        elif kind == 'tag':
            data = data.replace(rng.choice([b'</SCENES>', b'</CHAPTERS>', b'<SCENES>', b'</PROJECT>']), b'', 1)
        else:
            sect = rng.choice([b'SCENES', b'CHAPTERS', b'CHARACTERS', b'LOCATIONS', b'ITEMS', b'PROJECT'])
            data = data.replace(b'<' + sect + b'>', b'<NIX>').replace(b'</' + sect + b'>', b'</NIX>')
        try:
            ref_yw7.parse(data)
        except Exception:
            rejected(ctx, f'damaged/{i} ({kind})', data)
        else:
            ctx.event('damage_without_effect')
            compare(ctx, f'damaged/{i} ({kind})', data)
        ctx.evaluated(data)
    ctx.require('file_read', 200)
    ctx.require('type_combination', 500)
    ctx.require('date_combination', 500)
    ctx.require('utf16', 20)
    ctx.require('with_control_characters', 20)
    ctx.require('rejected', 40)
    ctx.require('changed_file_read_again', 100)
