"""C15: splitting scenes and chapters conserves the text."""
import copy
import os
import re

import docs
import gen
import lib
import office
import ref_odf
import ref_yw7
import writer
from props import c04, c10, c13

LEVEL = 'exploration'
RULE = ('In exported manuscript, notes, todo and proof documents part, chapter and scene headings are put into random scenes at random places, as headings '
        'of the word processor and as typed marks, with and without titles and descriptions; after the import the project is compared with the result of '
        'a reference splitter working on parsed paragraphs. Several rounds per project. Distinct by project, kind and texts.')
ASSUMPTIONS = c10.ASSUMPTIONS[1:] + ['By design the description, goal, conflict and outcome of a split scene get a mark "(!)", and its status is at most Draft.',
                                     'Heading 3 of the word processor is not a scene divider (only ### is).']
TAG = re.compile(r'\[/?(?:i|b|lang=[^][/*\n]*)\]')


def heading(rng, level=None):
    level = level or rng.choice([1, 2, 2, 2, 3, 3, 3])
    k = rng.random()
    safe = [t for t in docs.WORD_HOSTILE if t not in ('|', '#')] + ['* * *', '=']
    title = '' if k < 0.15 else docs.inline(rng, safe, (0, 4)).strip()
    if title and rng.random() < 0.15 and level < 3:
        title = f'[i]{title}[/i]'
    elif title and rng.random() < 0.3:
        title += '|' + docs.inline(rng, [t for t in docs.WORD_HOSTILE if t != '#'], (0, 4)).strip()
    blank = rng.choice([' ', ' ', ' ', '']) if title and not title.startswith('#') else rng.choice(['', ' '])
    return '#' * level + blank + title


def body(rng, italic=False):
    if italic:
        return f'[i]{docs.inline(rng, [], (0, 3))}[/i]' + rng.choice(['', ' ' + gen.uid()])
    if rng.random() < 0.2:
        return ''
    while True:
        t = docs.scene_text(rng, paras=(1, 1), tilde=False)[0]
        if c13.usable(re.sub(r'\n#+', '\n', t), '_proof'):
            return t


def with_headings(rng):
    if rng.random() < 0.03:
        # many scenes, named after their origin
        return '\n'.join(f'###\n{gen.uid()}' for __ in range(rng.randint(10, 25)))
    out = []
    for __ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        if rng.random() < 0.4:
            h = heading(rng)
            out.append(h)
            if h.endswith('[/i]') and rng.random() < 0.7:
                out.append(body(rng, True))
        else:
            out.append(body(rng))
    if rng.random() < 0.7 and not any(x.startswith('#') for x in out):
        out.insert(rng.randint(0, len(out)), heading(rng))
    return '\n'.join(out)


def segments(text):
    """[(level, title, desc, text)] with level 0 for the text before the first heading; chapters without text have text None."""
    text = (text or '').rstrip()
    raw = text.split('\n')
    out = [[0, '', '', []]]
    at = 0
    for para in docs.parse_markup(text):
        n = 1 + sum(c.count('\n') for __, c in para.comments)
        lines = raw[at:at + n]
        at += n
        level = writer.heading_level(para)
        if level:
            head = TAG.sub('', '\n'.join(lines)).strip('# ')
            title, __, desc = head.partition('|')
            out.append([level, title.strip(), desc.strip(), None])
        else:
            if out[-1][3] is None:
                out[-1][3] = []
            out[-1][3].extend(lines)
    return [(lv, t, d, None if x is None else '\n'.join(x)) for lv, t, d, x in out]


def reference(p, kind, texts):
    """[(chapter ID or None, title, desc, level, [(scene ID or None, parent ID, title, desc, text)])]"""
    out = []
    inside = c10.expected(p, kind)
    for cid, c in p['chapters'].items():
        out.append((cid, c['title'], c['desc'], c['level'], []))
        for sid in c['scenes']:
            if sid not in inside:
                out[-1][4].append((sid, sid, None, None, p['scenes'][sid]['content']))
                continue
            first, *rest = segments(texts.get(sid, p['scenes'][sid]['content']))
            out[-1][4].append((sid, sid, None, None, first[3]))
            for level, title, desc, text in rest:
                if level == 3:
                    out[-1][4].append((None, sid, title, desc, text or ''))
                else:
                    out.append((None, title, desc, 1 if level == 1 else 0, []))
                    if text is not None:
                        out[-1][4].append((None, sid, '', '', text))
    return out


def strip_tags(t):
    return TAG.sub('', t or '').strip()


def mark(t):
    return '(!)' + t if t and not t.startswith('(!)') else t


def compare(ctx, before, after, kind, texts):
    """Differences between the project after the import and the reference."""
    ref = reference(before, kind, texts)
    inside = c10.expected(before, kind)
    got = list(after['chapters'].items())
    if len(ref) != len(got):
        return [f'{len(got)} chapters instead of {len(ref)}: {[c["title"] for __, c in got]} instead of {[r[1] for r in ref]}']
    bad = []
    want = copy.deepcopy(before)
    want['chapters'] = {}
    contents = {}
    split = set()
    for (cid, title, desc, level, scenes), (gid, g) in zip(ref, got):
        new = cid is None
        if new:
            ctx.event('new_chapter')
            if gid in before['chapters']:
                return [f'the new chapter {title!r} has the ID {gid} that was in use']
            w = dict(g, level=level, type=0, trash=g['trash'] and None, nobreak=None,
                     suppress=g['suppress'] if (g['title'] or '').startswith('@') else None)
            w.update(title=g['title'] if not title and g['title'] else title, desc=desc)
            g = after['chapters'][gid] = dict(g, title=strip_tags(g['title']), desc=(g['desc'] or '').strip())
            w['title'] = strip_tags(w['title'])
        else:
            if gid != cid:
                return [f'chapter {gid} instead of {cid}']
            w = copy.deepcopy(before['chapters'][cid])
        w['scenes'] = []
        names = set()
        want['chapters'][gid] = w
        if len(scenes) != len(g['scenes']):
            return [f'chapter {gid} {g["title"]!r} has {len(g["scenes"])} scenes instead of {len(scenes)}']
        for (sid, parent, stitle, sdesc, text), x in zip(scenes, g['scenes']):
            w['scenes'].append(x)
            s = after['scenes'][x]
            if sid is None:
                ctx.event('new_scene')
                if x in before['scenes']:
                    return [f'the new scene {stitle!r} has the ID {x} that was in use']
                split.add(parent)
                o = before['scenes'][parent]
                n = dict(s, type=o['type'], noexport=None, append=None, reaction=None, subplot=None)
                n['desc'] = sdesc
                for k in ('date', 'time', 'day', 'ldays', 'lhours', 'lminutes'):
                    n[k] = o[k]
                n['status'] = min(o['status'], 2) if o['status'] else o['status']
                s = after['scenes'][x] = dict(s, title=strip_tags(s['title']), desc=(s['desc'] or '').strip())
                n['title'] = stitle or s['title']
                if not s['title']:
                    bad.append(f'the new scene {x} has no title')
                elif not stitle and o['title']:
                    # named after its origin
                    ctx.event('default_title')
                    whole = ' '.join(strip_tags(o['title']).split())
                    have = ' '.join(s['title'].split())
                    if not have.startswith(whole[:12]) or (len(whole) < 16 and not re.fullmatch(re.escape(whole) + r' Split: [0-9]+', have)):
                        bad.append(f'the new scene {x} of {o["title"]!r} has the title {s["title"]!r}')
                    if (parent, s['title']) in names:
                        bad.append(f'two new scenes of {o["title"]!r} in the same chapter have the title {s["title"]!r}')
                    names.add((parent, s['title']))
                want['scenes'][x] = n
            elif sid != x:
                return [f'scene {x} instead of {sid}']
            contents[x] = (text, parent)
    for sid in split:
        s = want['scenes'][sid]
        for k in ('desc', 'goal', 'conflict', 'outcome'):
            s[k] = mark(s[k])
        if s['status'] is not None and s['status'] > 2:
            s['status'] = 2
    skip = {'scenes.content'}
    if not c10.plausible(before):
        skip |= {'lang', 'country'}
    bad += ref_yw7.diff(want, after, skip=skip)
    for x, (text, parent) in contents.items():
        actual = after['scenes'][x]['content']
        if parent not in inside:
            if ref_yw7.norm_text(text) != ref_yw7.norm_text(actual):
                bad.append(f'scene {x} is not in the document, its text {text!r} became {actual!r}')
            continue
        a, b = c10.semantic((text or '').strip('\n'), kind), c10.semantic((actual or '').strip('\n'), kind)
        if a != b:
            n = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
            bad.append(f'scene {x} paragraph {n}: {a[n:n + 1]} became {b[n:n + 1]}; text {text!r} became {actual!r}')
        if (text or '').strip() and text.startswith('\n') and kind != '_proof' and len((text or '').rstrip('\n').split('\n')) != len((actual or '').rstrip('\n').split('\n')):
            bad.append(f'scene {x}: blank lines of {text!r} became {actual!r}')
    return bad


def run(ctx):
    for i, rng in ctx.cases('split', 80, 1600):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l']), content=lambda r: docs.scene_text(r, tilde=False)[0], chtypes=(0, 0, 0, 0, 1, 2, 3),
                        sctypes=(0, 0, 0, 0, 0, 1, 2, 3))
        for s in p['scenes'].values():
            s['noexport'] = rng.random() < 0.08
            if rng.random() < 0.1:
                # headings typed in yWriter
                s['content'] = with_headings(rng)
        p = c04.trim(p)
        p['lang'], p['country'] = rng.choice([('de', 'DE'), ('en', 'US')])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        for r in range(rng.randint(1, 3)):
            kind = rng.choice(['_manuscript', '_manuscript', '_proof', '_proof', '_notes', '_todo'])
            before, before_bytes = lib.parse_file(path), lib.get(path)
            if kind == '_proof' and b'ScID' in re.sub(rb'<ScID>.*?</ScID>', b'', before_bytes):
                kind = '_manuscript'
            label = f'split/{i} round {r} {kind}'
            data = docs.export(ctx, path, kind, label)
            if data is None:
                break
            doc = docs.doc_path(path, kind)
            inside = sorted(c10.expected(before, kind))
            texts = {sid: with_headings(rng) for sid in rng.sample(inside, min(len(inside), rng.choice([1, 1, 2, 3, 99])))}
            data = writer.set_texts(data, kind, texts, rng)
            if rng.random() < 0.3:
                data = office.office(data, rng, keep_styles=('scene_20_mark',))
                ctx.event('word_processor_document')
            lib.put(doc, data)
            outcome = docs.import_doc(ctx, doc, label, project=before_bytes, document=data)
            if not outcome:
                break
            if lib.get(doc) != data:
                ctx.violation(f'{label}: the imported document was changed')
            after = lib.parse_file(path)
            ctx.evaluated((before_bytes, kind, sorted(texts.items())), bool(texts))
            bad = compare(ctx, before, after, kind, texts)
            if bad:
                ctx.violation(f'{label}: {bad[:3]} texts {texts}', project=before_bytes, document=data)
                break
            new = len(after['chapters']) + len(after['scenes']) - len(before['chapters']) - len(before['scenes'])
            ctx.event('told' if new else 'not_split')
            if bool(new) != bool(outcome.ui.warnings):
                ctx.violation(f'{label}: {new} new chapters and scenes, warnings {outcome.ui.warnings}', project=before_bytes, document=data)
        ctx.drop(d)
    restored(ctx)
    restored_chapters(ctx)
    ctx.require('told', 30)
    ctx.require('not_split', 5)
    ctx.require('restored_scene', 30)
    ctx.require('restored_chapter', 5)
    ctx.require('new_chapter', 50)
    ctx.require('new_scene', 100)


def restored(ctx):
    """Documents with scenes and chapters that were deleted from the project in the meantime."""
    for i, rng in ctx.cases('restored', 60, 1000):
        gen.reset()
        p = gen.project(rng, size=rng.choice(['m', 'm', 'l']), content=lambda r: docs.scene_text(r, tilde=False)[0], chtypes=(0, 0, 0, 0, 1, 2, 3),
                        sctypes=(0, 0, 0, 0, 0, 1, 2, 3))
        for s in p['scenes'].values():
            s['noexport'] = False
            if s['desc'] and s['desc'].startswith('/*'):
                s['desc'] = None
        p = c04.trim(p)
        p['lang'], p['country'] = rng.choice([('de', 'DE'), ('en', 'US')])
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
        kind = rng.choice(['_manuscript', '_manuscript', '_notes', '_todo', '_scenes'])
        label = f'restored/{i} {kind}'
        data = docs.export(ctx, path, kind, label)
        full = lib.parse_file(path)
        if kind == '_scenes':
            inside = {s for c in full['chapters'].values() for s in c['scenes'] if docs.scene_kind(full, c, s) == 'normal'}
        else:
            inside = c10.expected(full, kind)
        content = ref_odf.Package(data).read('content.xml') if data else b''
        # where a chapter has no section in the document, its scenes have no place to return to
        inside = {s for cid, c in full['chapters'].items() if f'"ChID:{cid}"'.encode() in content for s in c['scenes'] if s in inside}
        if not inside:
            ctx.drop(d)
            continue
        gone = set(rng.sample(sorted(inside), rng.randint(1, min(3, len(inside)))))
        left = copy.deepcopy(p)
        gone_chapters = []
        for cid, c in list(left['chapters'].items()):
            if c['scenes'] and gone and len(left['chapters']) > 1 and set(c['scenes']) <= inside and rng.random() < 0.4:
                gone |= set(c['scenes'])
                gone_chapters.append(cid)
                del left['chapters'][cid]
            else:
                c['scenes'] = [s for s in c['scenes'] if s not in gone]
        for s in gone:
            del left['scenes'][s]
        lib.put(path, gen.build_xml(left, rng))
        before = lib.parse_file(path)
        if data and rng.random() < 0.4:
            data = office.office(data, rng, keep_styles=('scene_20_mark',))
            lib.put(docs.doc_path(path, kind), data)
        if not docs.import_doc(ctx, docs.doc_path(path, kind), label, project=lib.get(path), document=data):
            ctx.drop(d)
            continue
        after = lib.parse_file(path)
        ctx.evaluated((i, kind), True)
        want = copy.deepcopy(after)
        for cid in gone_chapters:
            ctx.event('restored_chapter')
            got = after['chapters'].get(cid)
            if got and got['type'] != full['chapters'][cid]['type']:
                ctx.violation(f'{label}: chapter {cid} has the type {got["type"]} instead of {full["chapters"][cid]["type"]}', project=lib.get(path), document=data)
            if got is None:
                ctx.violation(f'{label}: chapter {cid} of the document is missing', project=lib.get(path), document=data)
            else:
                c = full['chapters'][cid]
                # the document does not show suppressed titles
                title = '' if c['suppress'] and kind != '_scenes' else ' '.join((c['title'] or '').split())
                if ' '.join((got['title'] or '').split()) != title:
                    ctx.violation(f'{label}: chapter {cid} has the title {got["title"]!r} instead of {full["chapters"][cid]["title"]!r}', project=lib.get(path), document=data)
                ctx.event(f'restored_title_{full["chapters"][cid]["level"]}')
        for cid, c in full['chapters'].items():
            if cid in after['chapters']:
                exp = [s for s in c['scenes'] if s not in gone] + [s for s in c['scenes'] if s in gone]
                if after['chapters'][cid]['scenes'] != exp:
                    ctx.violation(f'{label}: chapter {cid} has the scenes {after["chapters"][cid]["scenes"]} instead of {exp}', project=lib.get(path), document=data)
        for sid in gone:
            ctx.event('restored_scene')
            if sid not in after['scenes']:
                continue
            a, b = full['scenes'][sid], after['scenes'][sid]
            if a['type'] != b['type']:
                ctx.violation(f'{label}: scene {sid} has the type {b["type"]} instead of {a["type"]}', project=lib.get(path), document=data)
            if kind == '_scenes':
                same = (a['desc'] or '').rstrip() == (b['desc'] or '').rstrip()
            else:
                same = c10.semantic((a['content'] or '').strip('\n'), kind) == c10.semantic((b['content'] or '').strip('\n'), kind)
            if not same:
                ctx.violation(f'{label}: scene {sid} was {a["content"] if kind != "_scenes" else a["desc"]!r}, is {b["content"]!r} {b["desc"]!r}', project=lib.get(path), document=data)
        # everything else is as before
        want = {g: ({k: v for k, v in after[g].items() if k not in (gone if g == 'scenes' else gone_chapters)} if g in ('scenes', 'chapters') else after[g]) for g in after}
        for c in list(want['chapters'].values()):
            c['scenes'] = [s for s in c['scenes'] if s not in gone]
        skip = {'lang', 'country'} | ({'scenes.content'} if kind != '_scenes' else {'scenes.desc'})
        bad = ref_yw7.diff(before, want, skip=skip)
        if bad:
            ctx.violation(f'{label}: {bad[:3]}', project=lib.get(path), document=data)
        ctx.drop(d)


def restored_chapters(ctx):
    """Description documents with chapters that were deleted, or have lost their titles, in the meantime."""
    for i, rng in ctx.cases('chapters', 25, 400):
        gen.reset()
        p = c04.trim(gen.project(rng, size=gen.size(rng, i, ['m', 'l']), chtypes=(0, 0, 0, 0, 1, 2, 3)))
        p['lang'], p['country'] = 'en', 'US'
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
        kind = rng.choice(['_chapters', '_chapters', '_parts'])
        label = f'chapters/{i} {kind}'
        data = docs.export(ctx, path, kind, label)
        full = lib.parse_file(path)
        content = ref_odf.Package(data).read('content.xml') if data else b''
        inside = [c for c in full['chapters'] if f'"ChID:{c}"'.encode() in content]
        if not inside:
            ctx.drop(d)
            continue
        left = copy.deepcopy(p)
        gone, untitled = [], []
        for c in rng.sample(inside, rng.randint(1, min(3, len(inside)))):
            if rng.random() < 0.5 and len(left['chapters']) > 1:
                gone.append(c)
                for s in left['chapters'].pop(c)['scenes']:
                    del left['scenes'][s]
            else:
                untitled.append(c)
                left['chapters'][c]['title'] = None
        lib.put(path, gen.build_xml(left, rng))
        before = lib.parse_file(path)
        if data and rng.random() < 0.4:
            data = office.office(data, rng, keep_styles=('scene_20_mark',))
            lib.put(docs.doc_path(path, kind), data)
        if not docs.import_doc(ctx, docs.doc_path(path, kind), label, project=lib.get(path), document=data):
            ctx.drop(d)
            continue
        after = lib.parse_file(path)
        ctx.evaluated((i, kind), True)
        if list(after['chapters']) != list(before['chapters']) + [c for c in inside if c in gone]:
            ctx.violation(f'{label}: the chapters are {list(after["chapters"])} instead of {list(before["chapters"])} and {gone}', document=data)
        for c in inside:
            if c not in after['chapters']:
                continue
            got, was = after['chapters'][c], full['chapters'][c]
            if c in gone + untitled:
                ctx.event('restored_chapter')
                shown = ' '.join((was['title'] or '').split())
                if ' '.join((got['title'] or '').split()) != shown:
                    ctx.violation(f'{label}: chapter {c} has the title {got["title"]!r} instead of {was["title"]!r}', document=data)
            if (got['desc'] or '').rstrip() != (was['desc'] or '').rstrip():
                ctx.violation(f'{label}: chapter {c} has the description {got["desc"]!r} instead of {was["desc"]!r}', document=data)
        want = copy.deepcopy(after)
        for c in gone:
            want['chapters'].pop(c, None)
        for c in untitled:
            want['chapters'][c]['title'] = before['chapters'][c]['title']
        for x in (before, want):
            for c in x['chapters'].values():
                c['desc'] = None
        bad = ref_yw7.diff(before, want)
        if bad:
            ctx.violation(f'{label}: {bad[:3]}', project=lib.get(path), document=data)
        ctx.drop(d)
