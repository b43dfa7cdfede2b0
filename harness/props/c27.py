"""C27: data files hold all characters, locations and items."""
import errno
import os
import re
import xml.etree.ElementTree as ET

import gen
import lib
import ref_yw7
from props import c01, c04

LEVEL = 'fault_enumeration'
RULE = ('Random projects are exported as data files through the converter (like the sample application does) and directly after edits in memory, over existing files, repeatedly, and with objects used for several projects. '
        'The three files go through a strict parser and their values are compared with an independent parse of the project; the folder is compared before and after. Then every traced file operation of an export fails once: '
        'nothing but the three data files may be touched and the failure must be reported. Distinct by project and step.')
ASSUMPTIONS = ['After a reported failure the data files themselves may be incomplete.']

PARTS = (('characters', 'CHARACTERS', 'CHARACTER', '_Characters.xml'), ('locations', 'LOCATIONS', 'LOCATION', '_Locations.xml'), ('items', 'ITEMS', 'ITEM', '_Items.xml'))


def converter(answer=True):
    from pywriter.converter.yw7_exporter import Yw7Exporter
    from pywriter.yw.data_files import DataFiles

    class Data(DataFiles):
        SUFFIX = '_data'

    class Exporter(Yw7Exporter):
        EXPORT_TARGET_CLASSES = Yw7Exporter.EXPORT_TARGET_CLASSES + [Data]

    c = Exporter()
    c.ui = lib.RecordingUi(answer)
    return c


def run_converter(c, path):
    raised = None
    try:
        c.run(path, suffix='_data')
    except Exception as ex:
        raised = ex
    return lib.Outcome(c.ui, c, raised)


def combined(datas):
    """A project made of the three files, for the independent parser; raises ref_yw7.Malformed."""
    root = ET.fromstring('<YWRITER7><PROJECT/><SCENES/><CHAPTERS/></YWRITER7>')
    for (__, section, __, __), data in zip(PARTS, datas):
        e = ref_yw7.strict_root(data)
        if e.tag != section:
            raise ref_yw7.Malformed(f'root element {e.tag} instead of {section}')
        root.append(e)
    return ref_yw7.parse(ET.tostring(root, encoding='utf-8'))


def check_files(ctx, base, p):
    """base: path without the endings.  p: the parsed project."""
    bad = []
    datas = []
    for __, section, tag, ending in PARTS:
        try:
            data = lib.get(base + ending)
        except OSError as ex:
            return [f'no file {os.path.basename(base + ending)}: {ex}']
        datas.append(data)
        if not re.match(rb'<\?xml version="1\.0" encoding="utf-8"\?>\s*<' + section.encode() + rb'\b', data, re.I) or data.count(b'<?xml') != 1:
            bad.append(f'{ending}: XML declaration {data[:80]!r}')
    try:
        q = combined(datas)
    except ref_yw7.Malformed as ex:
        return bad + [f'not well-formed: {ex}']
    for (group, section, tag, ending), data in zip(PARTS, datas):
        root = ET.fromstring(data)
        ids = [e.findtext('ID') for e in root]
        ctx.event('element', len(ids))
        if any(e.tag != tag for e in root) or ids != list(p[group]):
            bad.append(f'{ending}: {[e.tag for e in root][:3]} {ids} instead of {list(p[group])}')
        for e in root:
            tags = [x.tag for x in e]
            if len(set(tags)) != len(tags) or tags[:1] != ['ID']:
                bad.append(f'{ending}: {tag} with {tags}')
        text = data.decode('utf-8')
        for t in ('Title', 'Desc', 'AKA', 'Tags', 'ImageFile', 'Bio', 'Goals', 'Notes', 'FullName'):
            for m in re.finditer(f'<{t}>(?!<!\\[CDATA\\[)', text):
                before = text[:m.start()]
                if before.rfind('<![CDATA[') <= before.rfind(']]>'):
                    bad.append(f'{ending}: {t} without CDATA: {text[m.start():m.start() + 60]!r}')
    want = {k: p[k] for k in ('characters', 'locations', 'items')}
    have = {k: q[k] for k in want}
    bad += ref_yw7.diff(want, have, scene_order=True)[:4] if not bad else []
    return bad


def specials(rng, p):
    """Elements the ordinary generator makes rarely."""
    for group in ('characters', 'locations', 'items'):
        if rng.random() < 0.15:
            p[group].clear()
        for e in p[group].values():
            if rng.random() < 0.05:
                e['title'] = None
    for s in p['scenes'].values():
        for group in ('characters', 'locations', 'items'):
            s[group] = [x for x in s[group] or [] if x in p[group]] or None
    return p


def run(ctx):
    from pywriter.yw.data_files import DataFiles
    for i, rng in ctx.cases('export', 220, 5000):
        gen.reset()
        p = c04.trim(specials(rng, gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l']))))
        d = ctx.dir()
        name = rng.choice(['novel', 'My Novel', 'größe', 'a.b', 'x_data', 'novel_Characters', 'A_yw7', 'old.xml', 'a.xml.b', 'a&b', "it's 100%"])
        path = os.path.join(d, name + '.yw7')
        data = gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5))
        lib.put(path, data)
        base = os.path.join(d, name + '_data')
        mine = {name + '_data' + e for *__, e in PARTS}
        # bystanders, and data files of an older version
        for n in (name + '_data.xml', name + '.xml', name + '.yw7.bak', name + '_Characters.xml', name + '_manuscript.odt', name + '_data_Characters.xml.bak', 'Items.xml'):
            if rng.random() < 0.3:
                lib.put(os.path.join(d, n), f'bystander {n}')
        for n in mine:
            if rng.random() < 0.3:
                lib.put(os.path.join(d, n), rng.choice([b'', b'old', b'<ITEMS>' + b'x' * 50000 + b'</ITEMS>']))
        before = lib.snapshot(d)
        c = converter()
        for k in range(rng.choice([1, 2])):
            label = f'export/{i} {k}'
            o = run_converter(c, path)
            ctx.event('export')
            ctx.evaluated((data, k), any(p[g] for g in ('characters', 'locations', 'items')))
            if not o.ok:
                ctx.violation(f'{label}: {o!r}', file=data)
                break
            after = lib.snapshot(d)
            bad = [f'{n} was {"changed" if n in before and n in after else "created" if n in after else "removed"}' for n in set(before) | set(after)
                   if n not in mine and before.get(n) != after.get(n)]
            bad += check_files(ctx, base, lib.parse_file(path))
            if bad:
                ctx.violation(f'{label}: {bad[:4]}', file=data)
                break
        else:
            # edited in memory, written directly; the project file is not touched
            f = lib.load(path)
            target = os.path.join(d, rng.choice(['other', 'a.b c']) + '.xml')
            g = DataFiles(target)
            g.novel = f.novel
            q = lib.parse_file(path)
            for step in range(rng.choice([1, 2, 3])):
                label = f'export/{i} edited {step}'
                for __ in range(rng.randint(0, 3)):
                    group = rng.choice(['characters', 'locations', 'items'])
                    k = rng.random()
                    order = getattr(f.novel, 'srt' + group.capitalize())
                    if k < 0.3 and q[group]:
                        x = rng.choice(list(q[group]))
                        del q[group][x]
                        del getattr(f.novel, group)[x]
                        order.remove(x)
                    elif k < 0.5 and q[group]:
                        rng.shuffle(order)
                        q[group] = {x: q[group][x] for x in order}
                    elif q[group]:
                        x = rng.choice(list(q[group]))
                        attr, v = rng.choice(['title', 'desc', 'aka']), ref_yw7.norm_text(gen.line(rng)) or 'x'
                        q[group][x][attr] = v
                        setattr(getattr(f.novel, group)[x], attr, v)
                before = lib.snapshot(d)
                g.write()
                ctx.event('direct_write')
                ctx.evaluated((data, 'direct', step), True)
                after = lib.snapshot(d)
                own = {os.path.basename(target)[:-4] + e for *__, e in PARTS}
                bad = [f'{n} was touched' for n in set(before) | set(after) if n not in own and before.get(n) != after.get(n)]
                bad += check_files(ctx, target[:-4], q)
                if bad:
                    ctx.violation(f'{label}: {bad[:4]}', file=data)
                    break
        ctx.drop(d)

    mon = lib.FsMonitor.get()
    for i, rng in ctx.cases('faults', 25, 300):
        gen.reset()
        p = c04.trim(gen.project(rng, size='s'))
        d = ctx.dir()
        path = os.path.join(d, 'novel.yw7')
        data = gen.build_xml(p, rng)
        mine = {'novel_data' + e for *__, e in PARTS}
        files = {'novel.yw7': data if isinstance(data, bytes) else data.encode('utf-8'), 'novel_data.xml': b'x', 'novel.yw7.bak': b'older', 'novel.xml': b'y'}
        old = rng.random() < 0.5

        def setup():
            for n in os.listdir(d):
                os.remove(os.path.join(d, n))
            for n, b in files.items():
                lib.put(os.path.join(d, n), b)
            if old:
                for n in mine:
                    lib.put(os.path.join(d, n), b'old ' + n.encode())

        setup()
        with mon:
            o = run_converter(converter(), path)
            trace = list(mon.trace)
        ops = [k for k, op in enumerate(trace) if op[0] not in ('opendir',) and d in str(op[1:])]
        if not o.ok:
            ctx.violation(f'faults/{i}: {o!r}', file=data)
            continue
        for k in ops:
            for persistent in (False, True):
                setup()
                code = rng.choice([errno.ENOSPC, errno.EACCES, errno.EIO, errno.EPERM])
                hits = []

                def fault(index, op, k=k, persistent=persistent, code=code, hits=hits):
                    if index == k or persistent and index > k and d in str(op[1:]):
                        hits.append(op)
                        raise OSError(code, os.strerror(code))

                with mon:
                    mon.fault = fault
                    o = run_converter(converter(), path)
                ctx.event('fault')
                label = f'faults/{i} {trace[k][0]} {os.path.basename(str(trace[k][-1]))}{" and later" if persistent else ""}: {errno.errorcode[code]}'
                ctx.evaluated((data, k, persistent), bool(hits))
                after = lib.snapshot(d)
                bad = [f'{n} was {"changed" if n in after else "removed"}' for n, b in files.items() if after.get(n) != b]
                bad += [f'{n} was created' for n in after if n not in files and n not in mine]
                if o.raised is not None:
                    bad.append(f'raised {o.raised!r}')
                elif o.ok:
                    bad += check_files(ctx, os.path.join(d, 'novel_data'), ref_yw7.parse(files['novel.yw7']))
                    ctx.event('fault_survived')
                else:
                    ctx.event('fault_reported')
                    if o.new_file is not None:
                        bad.append(f'a failure with a new file {o.new_file}')
                    if old and any(n not in after for n in mine) and not persistent:
                        bad.append('a data file of an older version was removed')
                if bad:
                    ctx.violation(f'{label}: {bad[:4]}', file=data)
                # afterwards it works
                o = run_converter(converter(), path)
                bad = [f'{o!r}'] if not o.ok else check_files(ctx, os.path.join(d, 'novel_data'), ref_yw7.parse(files['novel.yw7']))
                if bad:
                    ctx.violation(f'{label}, next attempt: {bad[:3]}', file=data)
        ctx.drop(d)
    ctx.require('export', 100)
    ctx.require('direct_write', 100)
    ctx.require('element', 500)
    ctx.require('fault_reported', 15)
