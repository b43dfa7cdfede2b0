"""C18: every conversion ends with an honest report."""
import io
import os
import re
import zipfile
from xml.parsers import expat

import docs
import gen
import lib
import lists
import ref_odf
import ref_yw7
from props import c04

LEVEL = 'exploration'
RULE = ('One converter object serves random sequences of requests: exports and imports of valid, damaged (cut, flipped, mixed, edited at random bytes or elements), unrelated, locked, missing '
        'and unsupported files, directories in place of files, and declined overwrites. What the user interface is told is compared with the file system after each request. '
        'Distinct by request and input bytes.')
ASSUMPTIONS = ['A damaged file may be accepted if the result is a valid project or document.']


def damage_bytes(rng, data):
    if not data:
        return b''
    k = rng.random()
    if k < 0.25:
        return data[:rng.randint(0, len(data) - 1)]
    if k < 0.5:
        b = bytearray(data)
        for __ in range(rng.choice([1, 3, 20])):
            b[rng.randrange(len(b))] = rng.randrange(256)
        return bytes(b)
    if k < 0.6:
        at = rng.randint(0, len(data))
        return data[:at] + rng.choice([b'\0', b'<', b'&', b'\xff\xfe', b']]>', b'</SCENE>', b'<!--', b'<?x']) + data[at:]
    if k < 0.7:
        a, b = sorted(rng.randint(0, len(data)) for __ in range(2))
        return data[:a] + data[b:]
    if k < 0.8:
        a, b = sorted(rng.randint(0, len(data)) for __ in range(2))
        return data[:b] + data[a:]
    return rng.choice([b'', b'\0' * 100, b'<html><body/></html>', b'PK\3\4', b'<?xml version="1.0"?>', b'{\\rtf1 x}', b'\xff\xfe<\0a\0', b'<YWRITER7></YWRITER7>', b'<a/>', bytes(range(256)), b'\n'])


def damage_xml(rng, text):
    """Damage the structure: the result may be well-formed."""
    tags = list(re.finditer(r'<(/?)([\w:.-]+)[^<>]*>', text))
    if not tags:
        return text
    k = rng.random()
    m = rng.choice(tags)
    if k < 0.3:
        # remove a whole simple element
        els = list(re.finditer(r'<([\w:.-]+)[^<>/]*>[^<]*</\1>', text))
        if els:
            m = rng.choice(els)
            return text[:m.start()] + text[m.end():]
        return text
    if k < 0.5:
        vals = list(re.finditer(r'>([^<>]+)<', text))
        if vals:
            m = rng.choice(vals)
            v = rng.choice(['', 'x', '-1', '99999999999999999999', '0', '1e9', '\u0661', '1;2', '  ', '2023-02-31 25:61:00', '0000-00-00', '"', 'NaN', '&amp;'])
            return text[:m.start() + 1] + v + text[m.end() - 1:]
        return text
    if k < 0.6:
        return text[:m.start()] + text[m.end():]
    if k < 0.7:
        return text[:m.start()] + m.group() * 2 + text[m.end():]
    if k < 0.8:
        name = m.group(2)
        return re.sub(rf'(</?){re.escape(name)}(?=[\s>/])', r'\1' + rng.choice(['Other', 'text:p', 'ID', 'x:y', 'SCENES']), text)
    if k < 0.9:
        # remove an attribute
        at = list(re.finditer(r' [\w:-]+="[^"]*"', text))
        if at:
            m = rng.choice(at)
            return text[:m.start()] + rng.choice(['', ' ' + m.group().split('=')[0].strip() + '="' + rng.choice(['', '-5', 'x', '999999']) + '"']) + text[m.end():]
        return text
    els = list(re.finditer(r'<([A-Z]+)>.*?</\1>', text, re.DOTALL)) or [m]
    m = rng.choice(els)
    return text[:m.start()] + rng.choice(['', m.group() * 2, '<' + m.group(1) + '/>']) + text[m.end():]


def damage(rng, data):
    """Returns (data, well-formedness is known to be broken)."""
    if rng.random() < 0.3:
        return damage_bytes(rng, data)
    if not data.startswith(b'PK'):
        text = data.decode('utf-8', 'replace')
        for __ in range(rng.choice([1, 1, 2, 5])):
            text = damage_xml(rng, text)
        return text.encode('utf-8')
    src = zipfile.ZipFile(io.BytesIO(data))
    parts = {n: src.read(n) for n in src.namelist()}
    part = rng.choice(['content.xml', 'content.xml', 'content.xml', 'styles.xml', 'meta.xml', 'mimetype'])
    k = rng.random()
    if part in parts:
        if k < 0.15:
            del parts[part]
        elif k < 0.4:
            parts[part] = damage_bytes(rng, parts[part])
        else:
            text = parts[part].decode('utf-8')
            for __ in range(rng.choice([1, 1, 2, 5])):
                text = damage_xml(rng, text)
            parts[part] = text.encode('utf-8')
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for n, b in parts.items():
            z.writestr(n, b)
    return out.getvalue()


def broken(path, data):
    """True if the input cannot be complete: reporting success would hide a loss."""
    if path.endswith('.yw7'):
        return False
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        expat.ParserCreate().Parse(z.read('content.xml'), True)
    except Exception:
        return True
    return False


def check_result(path, data):
    """Problems of a file that was reported as written."""
    if path.endswith('.yw7'):
        try:
            ref_yw7.strict_root(data)
            p = ref_yw7.parse(data)
        except Exception as ex:
            return [f'the project is invalid: {ex!r}']
        bad = [s for c in p['chapters'].values() for s in c['scenes'] if s not in p['scenes']]
        return [f'chapters list scenes that do not exist: {bad}'] if bad else []
    try:
        return ref_odf.Package(data).problems(ref_odf.ODS if path.endswith('.ods') else ref_odf.ODT)
    except ref_odf.BadPackage as ex:
        return [str(ex)]


def refused(ctx):
    """Documents that can be read, but not assigned to the project: lists without all columns, proofs with broken scene marks."""
    for i, rng in ctx.cases('refused', 10, 120):
        gen.reset()
        p = gen.project(rng, size='m', content=lambda r: docs.scene_text(r, tilde=False)[0])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(c04.trim(p), rng))
        for kind in docs.ODS_KINDS + ['_proof']:
            data = docs.export(ctx, path, kind, f'refused/{i}')
            if data is None:
                continue
            if kind == '_proof':
                content = ref_odf.Package(data).read('content.xml')
                marks = list(re.finditer(rb'(?<=>)\[(/?)ScID:(\d+)\](?=<)', content))
                if not marks:
                    continue
                m = rng.choice([x for x in marks if not x[1]])
                mark = rng.choice([b'[ScID:]', b'[ScID]', b'[ScID: x]', b'[ScID'])
                new = content[:m.start()] + mark + content[m.end():]
                what = f'the broken scene mark {mark}'
                part = lambda root: None
            else:
                n = rng.randint(1, 3)
                what = f'{n} columns removed'

                def part(root):
                    for r in root.iter(lists.ROW):
                        for c in r.findall(lists.CELL)[-n - 1:]:
                            # (with the empty cells on the right)
                            r.remove(c)

                new = None
            data = ref_odf.rewrite(data, part) if new is None else replaced(data, new)
            doc = lib.put(docs.doc_path(path, kind), data)
            before = lib.snapshot(d)
            o = lib.convert(doc)
            ctx.event('refused')
            ctx.evaluated((i, kind, 'refused'), True)
            if o.raised or o.ok or o.new_file is not None or not re.match(r'!\S', o.message or ''):
                ctx.violation(f'refused/{i} {kind} with {what}: {o!r}', document=data)
            if lib.snapshot(d) != before:
                ctx.violation(f'refused/{i} {kind} with {what}: files were changed', document=data)
        ctx.drop(d)


def replaced(data, content):
    src = zipfile.ZipFile(io.BytesIO(data))
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for n in src.namelist():
            z.writestr(n, content if n == 'content.xml' else src.read(n))
    return out.getvalue()


def repeated(data):
    """The damaged project holds a chapter twice, or a scene in several places."""
    for pattern in (rb'<CHAPTER>\s*<ID>(.*?)</ID>', rb'<ScID>(.*?)</ScID>'):
        ids = re.findall(pattern, data)
        if len(set(ids)) < len(ids):
            return True
    return False


def run(ctx):
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.converter.yw7_exporter import Yw7Exporter
    from pywriter.converter.yw7_importer import Yw7Importer
    for i, rng in ctx.cases('reports', 240, 2400):
        gen.reset()
        d = ctx.dir()
        p = c04.trim(gen.project(rng, size=rng.choice(['s', 's', 'm']), content=lambda r: docs.scene_text(r, tilde=False)[0]))
        good = gen.build_xml(p, rng).encode('utf-8')
        path = lib.put(os.path.join(d, 'novel.yw7'), good)
        documents = {}
        for kind in rng.sample(docs.KINDS, 5):
            data = docs.export(ctx, path, kind, f'reports/{i}')
            if data is not None:
                documents[kind] = data
        converter = rng.choice([Yw7Converter, Yw7Converter, Yw7Converter, Yw7Exporter, Yw7Importer])()
        for r in range(12):
            for n in sorted(os.listdir(d)):
                f = os.path.join(d, n)
                os.rmdir(f) if os.path.isdir(f) else os.remove(f)
            lib.put(path, good)
            answer = rng.random() < 0.85
            suffix = None
            k = rng.random()
            what = 'valid'
            source = path
            if k < 0.4 or not documents:
                suffix = rng.choice(docs.KINDS + ['_unknown', None, '_data', '_proof_'])
                if rng.random() < 0.5:
                    lib.put(path, damage(rng, good))
                    what = 'damaged'
                if rng.random() < 0.3 and suffix in docs.KINDS:
                    t = docs.doc_path(path, suffix)
                    if rng.random() < 0.2:
                        os.mkdir(t)
                        what += ', directory'
                    else:
                        lib.put(t, b'old document')
            elif k < 0.85:
                kind = rng.choice(sorted(documents))
                source = docs.doc_path(path, kind)
                data = documents[kind]
                if rng.random() < 0.6:
                    data = damage(rng, data)
                    what = 'damaged'
                lib.put(source, data)
                j = rng.random()
                if j < 0.1:
                    os.remove(path)
                    what += ', no project'
                elif j < 0.2:
                    lib.put(path, damage(rng, good))
                    what += ', damaged project'
                elif j < 0.3:
                    new = os.path.join(d, 'other' + docs.ext(kind))
                    os.rename(source, new)
                    source = new
                    what += ', renamed'
            else:
                source = os.path.join(d, rng.choice(['missing.yw7', 'missing_manuscript.odt', 'novel.txt', 'novel.yw5', 'novel', 'novel_manuscript.docx', 'x.odt', 'x.ods', '.odt', 'novel_proof.html', 'sub.yw7', 'dir.odt']))
                suffix = rng.choice([None, '', '_manuscript'])
                if 'missing' not in source:
                    if source.endswith(('sub.yw7', 'dir.odt')):
                        os.mkdir(source)
                    else:
                        lib.put(source, rng.choice([b'', b'text', b'PK', *documents.values()]))
                what = 'unrelated'
            if rng.random() < 0.07:
                lib.put(path + '.lock', b'')
                what += ', locked'
            label = f'reports/{i} {type(converter).__name__} {os.path.basename(source)} {suffix} ({what})'
            given = lib.get(source) if os.path.isfile(source) else None
            before = lib.snapshot(d)
            stamps = {}
            for n in before:
                os.utime(os.path.join(d, n), (1, 1))
            ui = lib.RecordingUi(answer)
            converter.ui = ui
            raised = None
            try:
                converter.run(source, suffix=suffix)
            except Exception as ex:
                raised = ex
            after = lib.snapshot(d)
            ctx.evaluated((label.split(' ', 1)[1], given, before.get('novel.yw7')), True)
            replay = dict(source=given, project=before.get('novel.yw7'))
            report = f'{raised!r}, messages {ui.how}, new file {converter.newFile!r}'
            if raised is not None:
                ctx.violation(f'{label}: {report}', **replay)
                continue
            if len(ui.how) != 1 or not ui.how[0]:
                ctx.violation(f'{label}: {len(ui.how)} reports: {report}', **replay)
                continue
            message = ui.how[0]
            if message.startswith('!'):
                ctx.event('error')
                if converter.newFile is not None or len(message) < 2:
                    ctx.violation(f'{label}: a failure with a result: {report}', **replay)
                if before != after:
                    ctx.violation(f'{label}: a failure that changed {sorted(k for k in before.keys() | after.keys() if before.get(k) != after.get(k))}: {report}', **replay)
                if what == 'valid' and answer and isinstance(converter, Yw7Converter) and (suffix in docs.KINDS if source == path else kind in docs.IMPORTABLE):
                    ctx.violation(f'{label}: refused: {report}', **replay)
                continue
            ctx.event('success')
            if what.startswith('damaged'):
                ctx.event('damaged_accepted')
            new = converter.newFile
            if new is None or not os.path.isfile(new) or os.path.normpath(new) not in message:
                ctx.violation(f'{label}: a success without a file: {report}', **replay)
                continue
            if os.stat(new).st_mtime == 1:
                ctx.violation(f'{label}: {new} was not written: {report}', **replay)
            if ', locked' in what and 'novel.yw7' in (os.path.basename(new), os.path.basename(source)):
                ctx.violation(f'{label}: the project is open: {report}', **replay)
            if not answer and os.path.relpath(new, d) in before:
                ctx.violation(f'{label}: overwritten although declined: {report}', **replay)
            if source != path and broken(source, given):
                ctx.violation(f'{label}: the document is damaged: {report}', **replay)
            bad = check_result(new, lib.get(new))
            if source == path and what.startswith('damaged') and repeated(lib.get(path)):
                # sections are named after the chapters and scenes
                bad = [b for b in bad if not b.startswith('duplicate section names')]
            if bad:
                ctx.violation(f'{label}: {bad[:3]}: {report}', **replay)
        ctx.drop(d)
    # the user is told what kind of document is read or written
    for i, rng in ctx.cases('kinds', 2, 20):
        gen.reset()
        p = gen.project(rng, size='s', content=lambda r: docs.scene_text(r, tilde=False)[0])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(c04.trim(p), rng))
        names = {}
        for kind in docs.KINDS:
            o = lib.convert(path, kind)
            told = re.fullmatch(r'Input: (.+) "(.+)"\nOutput: (.+) "(.+)"', o.ui.what[0] if len(o.ui.what) == 1 else '')
            if not o.ok or not told or [told[2], told[4]] != [os.path.normpath(path), os.path.normpath(o.new_file)]:
                ctx.violation(f'kinds/{i} {kind}: the user is told {o.ui.what}: {o!r}')
                continue
            names[kind] = told[3]
            ctx.event('kind_told')
            ctx.evaluated((i, kind, 'kinds'), True)
            if kind in docs.IMPORTABLE:
                n = lib.convert(o.new_file, '')
                back = re.fullmatch(r'Input: (.+) "(.+)"\nOutput: (.+) "(.+)"', n.ui.what[0] if len(n.ui.what) == 1 else '')
                if not n.ok or not back or [back[1], back[2], back[3], back[4]] != [told[3], told[4], told[1], told[2]]:
                    ctx.violation(f'kinds/{i} {kind}: the user is told {n.ui.what} after {o.ui.what}: {n!r}')
        if len(set(names.values())) < len(names):
            ctx.violation(f'kinds/{i}: different kinds with the same name: {sorted(names.items(), key=lambda x: x[1])}')
        ctx.drop(d)
    refused(ctx)
    ctx.require('refused', 30)
    ctx.require('kind_told', 30)
    ctx.require('error', 500)
    ctx.require('success', 500)
    ctx.require('damaged_accepted', 100)
