"""C23: references in a project always stay consistent."""
import os
import re
from collections import Counter

import docs
import gen
import lib
import lists
import office
import ref_yw7
import writer
from props import c04, c10, c11, c12, c13, c14, c15

LEVEL = 'exploration'
RULE = ('Long random histories over one project with one converter object: exports of all kinds, edited imports (texts, headings that split, moved and removed sections, descriptions, list rows edited, added, removed, '
        'shuffled), imports of documents exported long before (stale), direct edits (scenes and chapters added, moved, removed; elements added and removed), failed and locked conversions. After every step the raw project '
        'file is checked for unique IDs, existing link targets, single ownership of scenes, and for scenes, chapters or elements that vanished without cause. Distinct by project state and step.')
ASSUMPTIONS = ['A document with an element that does not exist any more may add it again under its ID (a scene: outside all chapters).']


def state(data):
    """Raw identifiers and references, as written in the file."""
    root = ref_yw7.root_of(data)

    def ids(path):
        return [e.findtext('ID') for e in root.findall(path)]

    scenes = {}
    for s in root.findall('SCENES/SCENE'):
        scenes[s.findtext('ID')] = {g: [e.text for e in s.findall(f'{tag}/{ref}')] for g, tag, ref in
                                    (('characters', 'Characters', 'CharID'), ('locations', 'Locations', 'LocID'), ('items', 'Items', 'ItemID'))}
    return dict(scenes=ids('SCENES/SCENE'), chapters=ids('CHAPTERS/CHAPTER'), characters=ids('CHARACTERS/CHARACTER'), locations=ids('LOCATIONS/LOCATION'), items=ids('ITEMS/ITEM'),
                notes=ids('PROJECTNOTES/PROJECTNOTE'), vars=ids('PROJECTVARS/PROJECTVAR'), links=scenes,
                content=[(c.findtext('ID'), [e.text for e in c.findall('Scenes/ScID')]) for c in root.findall('CHAPTERS/CHAPTER')])


def invariants(s):
    bad = []
    for g in ('scenes', 'chapters', 'characters', 'locations', 'items', 'notes', 'vars'):
        dup = [i for i, n in Counter(s[g]).items() if n > 1]
        if dup:
            bad.append(f'{g} with the same ID: {dup}')
        wrong = [i for i in s[g] if not i or not re.fullmatch(r'\d+', i)]
        if wrong:
            bad.append(f'{g} with invalid ID: {wrong}')
    listed = Counter(x for __, xs in s['content'] for x in xs)
    if [x for x, n in listed.items() if n > 1]:
        bad.append(f'scenes in several places: {[x for x, n in listed.items() if n > 1]}')
    if set(listed) - set(s['scenes']):
        bad.append(f'chapters list scenes that do not exist: {sorted(set(listed) - set(s["scenes"]))}')
    for sid, links in s['links'].items():
        for g, xs in links.items():
            missing = set(xs) - set(s[g])
            if missing:
                bad.append(f'scene {sid} links to {g} that do not exist: {sorted(missing)}')
            if len(set(xs)) < len(xs):
                bad.append(f'scene {sid} links twice to {g}: {xs}')
    return bad


MANAGED = {'_charlist': 'characters', '_loclist': 'locations', '_itemlist': 'items'}


def preserved(a, b, kind, stale):
    """Nothing vanishes or moves in an import of a document of this kind."""
    bad = []
    for g in ('scenes', 'chapters', 'characters', 'locations', 'items', 'notes'):
        if MANAGED.get(kind) == g:
            continue
        gone = set(a[g]) - set(b[g])
        if gone:
            bad.append(f'{g} vanished: {sorted(gone)}')
        new = set(b[g]) - set(a[g])
        if new and not stale and not (g in ('scenes', 'chapters') and kind in ('_manuscript', '_proof', '_notes', '_todo') or g == 'scenes' and kind == '_scenelist'):
            bad.append(f'{g} appeared: {sorted(new)}')
        if MANAGED.get(kind) != g and kind not in ('_scenelist',):
            if [x for x in b[g] if x in set(a[g])] != a[g] and not gone:
                bad.append(f'{g} changed their order: {a[g]} -> {b[g]}')
    before = [x for __, xs in a['content'] for x in xs]
    after = [x for __, xs in b['content'] for x in xs]
    if [x for x in after if x in set(before)] != before:
        bad.append(f'scenes changed their order or vanished from the chapters: {before} -> {after}')
    lost = set(b['scenes']) - set(a['scenes']) - set(after)
    if lost and kind != '_scenelist' and not stale:
        bad.append(f'new scenes in no chapter: {sorted(lost)}')
    return bad


def direct(rng, path):
    from pywriter.model.scene import Scene
    from pywriter.model.chapter import Chapter
    from pywriter.model.world_element import WorldElement
    from pywriter.model.character import Character
    from pywriter.model.id_generator import create_id
    f = lib.load(path)
    n = f.novel
    for __ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.2 and n.srtChapters:
            i = create_id(n.scenes)
            n.scenes[i] = Scene()
            n.scenes[i].title, n.scenes[i].status, n.scenes[i].scType, n.scenes[i].sceneContent = gen.line(rng), 1, 0, docs.scene_text(rng, tilde=False)[0]
            n.chapters[rng.choice(n.srtChapters)].srtScenes.append(i)
            if n.srtCharacters:
                n.scenes[i].characters = rng.sample(n.srtCharacters, 1)
        elif k < 0.35:
            i = create_id(n.chapters)
            n.chapters[i] = Chapter()
            n.chapters[i].title, n.chapters[i].chLevel, n.chapters[i].chType = gen.line(rng), 0, 0
            n.srtChapters.insert(rng.randint(0, len(n.srtChapters)), i)
        elif k < 0.5 and any(n.chapters[c].srtScenes for c in n.srtChapters):
            c = rng.choice([c for c in n.srtChapters if n.chapters[c].srtScenes])
            s = n.chapters[c].srtScenes.pop(rng.randrange(len(n.chapters[c].srtScenes)))
            n.chapters[rng.choice(n.srtChapters)].srtScenes.append(s)
        elif k < 0.65 and n.scenes:
            s = rng.choice(list(n.scenes))
            del n.scenes[s]
            for c in n.chapters.values():
                if s in c.srtScenes:
                    c.srtScenes.remove(s)
        elif k < 0.75 and len(n.srtChapters) > 1:
            c = n.srtChapters.pop(rng.randrange(len(n.srtChapters)))
            for s in n.chapters[c].srtScenes:
                del n.scenes[s]
            del n.chapters[c]
        elif k < 0.85:
            group, order, cls = rng.choice([(n.locations, n.srtLocations, WorldElement), (n.items, n.srtItems, WorldElement), (n.characters, n.srtCharacters, Character)])
            i = create_id(group)
            group[i] = cls()
            group[i].title = gen.line(rng)
            order.append(i)
            if n.scenes and order is n.srtItems:
                n.scenes[rng.choice(list(n.scenes))].items = [i]
        else:
            group, order = rng.choice([(n.locations, n.srtLocations), (n.items, n.srtItems), (n.characters, n.srtCharacters)])
            if order:
                i = order.pop(rng.randrange(len(order)))
                del group[i]
    f.write()


def edited(ctx, rng, before, kind, data, used):
    """An edited version of a document that was exported from the current project."""
    if kind in docs.ODS_KINDS:
        rows = c14.edit(ctx, rng, before, kind, docs.expected_rows(before, kind), used[lists.GROUP[kind]])
        data = lists.with_rows(data, rows)
        return lists.calc(data, rng, lists.COLUMNS[kind]) if rng.random() < 0.3 else data
    if kind in ('_manuscript', '_proof', '_notes', '_todo'):
        inside = sorted(c10.expected(before, kind))
        texts = {s: c15.with_headings(rng) if rng.random() < 0.4 else docs.scene_text(rng, tilde=False)[0] for s in rng.sample(inside, min(len(inside), rng.choice([0, 1, 2, 5])))}
        data = writer.set_texts(data, kind, texts, rng, c13.shuffle(ctx, rng, kind, set(inside) - set(texts)) if rng.random() < 0.5 else None)
    elif kind in docs.IMPORTABLE:
        fields = c11.fields(before, kind)
        texts = {f[0]: c11.new_text(rng) for f in rng.sample(fields, min(len(fields), rng.choice([0, 1, 3])))}
        data = c11.edit_sections(data, texts, rng)
    if rng.random() < 0.3:
        data = office.office(data, rng, keep_styles=('scene_20_mark',))
    return data


def run(ctx):
    from pywriter.converter.yw7_converter import Yw7Converter
    for i, rng in ctx.cases('history', 60, 600):
        gen.reset()
        p = c12.project(rng) if rng.random() < 0.5 else c04.trim(gen.project(rng, size=rng.choice(['s', 'm', 'm']), content=lambda r: docs.scene_text(r, tilde=False)[0]))
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        used = {k: set(p[k]) for k in ('characters', 'locations', 'items', 'scenes')}
        converter = Yw7Converter()
        stale = []
        log = []
        for r in range(rng.choice([6, 12, 20])):
            a_bytes = lib.get(path)
            try:
                before = lib.parse_file(path)
            except Exception as ex:
                ctx.violation(f'history/{i}: the project is invalid after {log[-3:]}: {ex!r}', file=a_bytes)
                break
            a = state(a_bytes)
            k = rng.random()
            kind = None
            ok = True
            replay = dict(project=a_bytes)
            converter.ui = lib.RecordingUi(rng.random() < 0.95)
            if k < 0.15:
                direct(rng, path)
                step = 'direct edits'
            elif k < 0.85 or not stale:
                kind = rng.choice(docs.IMPORTABLE)
                step = f'import {kind}'
                converter.run(path, suffix=kind)
                doc = docs.doc_path(path, kind)
                if converter.newFile is None:
                    if converter.ui.answer:
                        ctx.violation(f'history/{i} {step}: export failed: {converter.ui.how}', **replay)
                    continue
                if rng.random() < 0.5:
                    stale.append((kind, lib.get(doc)))
                if kind == '_proof' and b'ScID' in re.sub(rb'<ScID>.*?</ScID>', b'', a_bytes):
                    continue
                data = edited(ctx, rng, before, kind, lib.get(doc), used)
                if rng.random() < 0.2:
                    stale.append((kind, data))
                lib.put(doc, data)
                replay['document'] = data
                if rng.random() < 0.05:
                    lib.put(path + '.lock', b'')
                converter.ui = lib.RecordingUi(converter.ui.answer)
                converter.run(doc)
                ok = converter.newFile is not None
                if not ok and converter.ui.answer and not os.path.exists(path + '.lock'):
                    ctx.violation(f'history/{i} {step}: failed: {converter.ui.how}', **replay)
                if os.path.exists(path + '.lock'):
                    os.remove(path + '.lock')
                ctx.event('import')
            else:
                kind, data = rng.choice(stale)
                step = f'stale {kind}'
                doc = lib.put(docs.doc_path(path, kind), data)
                replay['document'] = data
                converter.run(doc)
                ok = converter.newFile is not None
                ctx.event('stale_import' if ok else 'stale_refused')
            log.append(step)
            after = lib.get(path)
            ctx.evaluated((a_bytes, step, after))
            ctx.event('step')
            label = f'history/{i} step {r} {step}'
            if not ok:
                ctx.event('failed_step')
                if after != a_bytes:
                    ctx.violation(f'{label}: failed ({converter.ui.how}), but the project was changed', **replay)
                continue
            b = state(after)
            bad = invariants(b)
            if kind:
                bad += preserved(a, b, kind, step.startswith('stale'))
            for g in used:
                used[g] |= set(b[g])
            if bad:
                ctx.violation(f'{label}: {bad[:3]} after {log}', **replay)
                break
            if len(b['scenes']) > 80:
                break
        ctx.sample(log, 2)
        ctx.drop(d)
    ctx.require('step', 150)
    ctx.require('import', 80)
    ctx.require('stale_import', 8)
