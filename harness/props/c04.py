"""C04: saved projects are well-formed, and saving is idempotent."""
import os
import re
import xml.etree.ElementTree as ET

import gen
import lib
import ref_yw7
from props import c01

LEVEL = 'exploration'
RULE = ('Every file saved from random projects (created, loaded from generated yWriter files, edited) goes through a strict XML '
        'parser and structural assertions; then it is loaded and saved repeatedly and the bytes of the later saves are compared. '
        'Non-trivial: the project has text; distinct by saved bytes.')
ASSUMPTIONS = ['Texts without line breaks at the end or a blank first line (each save trims one of those, see C01).']

CDATA_TAGS = ['Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Tags', 'AKA',
              'ImageFile', 'FullName', 'Goals', 'Notes', 'SceneContent', 'Outcome', 'Goal', 'Field_SceneArcs', 'LaTeXHeaderFile', 'Field_ChapterHeadingSuffix', 'Field_PartHeadingPrefix', 'Field_PartHeadingSuffix', 'Field_CustomGoal',
              'Field_CustomConflict', 'Field_CustomOutcome', 'Field_CustomChrBio', 'Field_CustomChrGoals', 'Field_ArcDefinition', 'Field_CustomAR']
SECTIONS = ['PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS']

FLAGS = {t: ('-1',) for t in ('Unused', 'AppendToPrev', 'SpecificDateMode', 'ReactionScene', 'SubPlot', 'Major', 'SectionStart', 'ExportWhenRTF')}
FLAGS.update({t: ('0', '1') for t in ('Field_SuppressChapterTitle', 'Field_IsTrash', 'Field_SuppressChapterBreak', 'Type')},
             ChapterType=('0', '1', '2'), Field_SceneType=('0', '1', '2'), Status=('1', '2', '3', '4', '5'))


def trim(p):
    """Remove what saving trims from all texts of a spec."""
    for k, v in p.items():
        if isinstance(v, str) and k in ref_yw7.TEXT_KEYS:
            p[k] = ref_yw7.norm_text(v) or None
        elif isinstance(v, dict):
            trim(v)
    return p


def own_fields(rng):
    """Fields of other programs with texts."""

    def project(w, x):
        if rng.random() < 0.5:
            w.put('LaTeXHeaderFile', gen.line(rng))
        w.open('Fields')
        for t in CDATA_TAGS:
            if t.startswith('Field_') and t not in ('Field_SceneArcs', 'Field_ArcDefinition') and rng.random() < 0.7:
                w.put(t, gen.line(rng))
        w.close('Fields')

    def chapter(w, x):
        if rng.random() < 0.5:
            w.put('Field_ArcDefinition', gen.line(rng))

    return dict(project=project, chapterfields=chapter)


def structure(data):
    bad = []
    if not data[:38].lower().startswith(b'<?xml version="1.0" encoding="utf-8"?>'):
        bad.append('no XML declaration')
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError as ex:
        return [f'not UTF-8: {ex}']
    try:
        root = ET.fromstring(data)
    except ET.ParseError as ex:
        return [f'not well-formed: {ex}']
    if root.tag != 'YWRITER7':
        bad.append(f'root element {root.tag}')
    for s in SECTIONS:
        if len(root.findall(s)) != 1:
            bad.append(f'{len(root.findall(s))} sections {s}')
    for sect, tag in (('LOCATIONS', 'LOCATION'), ('ITEMS', 'ITEM'), ('CHARACTERS', 'CHARACTER'), ('SCENES', 'SCENE'),
                      ('CHAPTERS', 'CHAPTER'), ('PROJECTNOTES', 'PROJECTNOTE'), ('PROJECTVARS', 'PROJECTVAR')):
        e = root.find(sect)
        if e is None:
            continue
        ids = [x.findtext('ID') for x in e]
        if any(x.tag != tag for x in e) or None in ids or len(set(ids)) != len(ids):
            bad.append(f'{sect}: bad children or IDs {ids}')
        for x in e:
            tags = [y.tag for y in x]
            if len(set(tags)) != len(tags):
                bad.append(f'{sect}: repeated elements in {tag} {x.findtext("ID")}: {tags}')
            if tags and tags[0] != 'ID':
                bad.append(f'{sect}: {tag} does not start with its ID: {tags}')
    if root.find('PROJECT').findtext('Ver') != '7':
        bad.append('no version')
    if '<CHAPTERS />' in re.sub(r'(?s)<!\[CDATA\[.*?\]\]>', '', text):
        bad.append('empty CHAPTERS section in the form yWriter cannot read')
    for tag in CDATA_TAGS:
        for m in re.finditer(f'<{tag}>(?!<!\\[CDATA\\[)', text):
            before = text[:m.start()]
            if before.rfind('<![CDATA[') <= before.rfind(']]>'):
                bad.append(f'{tag} without CDATA: {text[m.start():m.start() + 60]!r}')
    for x in root.iter():
        if len(x) == 0 and x.tag in ('WordCount', 'LetterCount', 'RTFFile', 'BelongsToChID', 'SavedOn', 'SavedWith', 'SortOrder'):
            bad.append(f'stale element {x.tag}')
        allowed = FLAGS.get(x.tag)
        if allowed and (x.text or '').strip() not in allowed:
            bad.append(f'{x.tag} is {x.text!r}')
    return bad


def check(ctx, label, path, **replay):
    data = lib.get(path)
    ctx.event('file_validated')
    bad = structure(data)
    if bad:
        ctx.violation(f'{label}: {bad[:3]}', file=data, **replay)
        return None
    return data


def repeat(ctx, label, path, first, rounds, same_object=None, **replay):
    """Load and save again; the bytes must stay the same."""
    prev = first
    for k in range(rounds):
        f = same_object or lib.load(path)
        f.write()
        ctx.event('resave')
        data = check(ctx, f'{label} save {k + 2}', path, **replay)
        if data is None:
            return
        if prev is not None and data != prev:
            a, b = prev.decode('utf-8').split('\n'), data.decode('utf-8').split('\n')
            d = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
            ctx.violation(f'{label}: saving again changed the file: {d[0]!r} -> {d[1]!r}', before=prev, after=data, **replay)
            return
        if lib.get(path + '.bak') != (prev if prev is not None else lib.get(path + '.bak')):
            ctx.violation(f'{label}: the backup is not the previous version', **replay)
            return
        prev = data


def run(ctx):
    for i, rng in ctx.cases('create', 150, 2500):
        gen.reset()
        p = trim(gen.project(rng, size=gen.size(rng, i, [None])))
        if rng.random() < 0.4:
            p['lang'], p['country'] = rng.choice(['de', 'en', 'zxx', 'x']), rng.choice(['DE', 'GB', 'none', '?'])
        d = ctx.dir()
        path = os.path.join(d, 'novel.yw7')
        f = lib.new_file(path)
        c01.apply_spec(f.novel, p)
        f.write()
        first = check(ctx, f'create/{i}', path, spec=p)
        if first is not None:
            repeat(ctx, f'create/{i}', path, first, rng.randint(2, 3), spec=p)
            repeat(ctx, f'create/{i} same session', path, lib.get(path), 1, same_object=f, spec=p)
        ctx.evaluated(first, c01.interesting(p))
        ctx.drop(d)

    for i, rng in ctx.cases('load', 150, 2500):
        gen.reset()
        p = trim(gen.project(rng))
        text = gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5, counts=rng.random() < 0.5, legacy=rng.random() < 0.2), own_fields(rng) if rng.random() < 0.4 else None)
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), text)
        f = lib.load(path)
        f.write()
        first = check(ctx, f'load/{i}', path, xml=text)
        if first is not None:
            repeat(ctx, f'load/{i}', path, first, rng.randint(1, 3), xml=text)
        ctx.evaluated(first, c01.interesting(p))
        ctx.sample({'case': i, 'saved_bytes': len(first or b'')}, 3)
        ctx.drop(d)

    for i, rng in ctx.cases('edit', 60, 1000):
        gen.reset()
        p = gen.project(rng, size=rng.choice(['s', 'm']))
        text = gen.build_xml(p, rng)
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), text)
        shadow = ref_yw7.parse(text.encode('utf-8'))
        f = lib.load(path)
        dead = dict(scenes=set(), chapters=set())
        for step in range(rng.randint(1, 4)):
            for __ in range(rng.randint(1, 6)):
                c01.mutate(ctx, rng, f, shadow, dead)
            f.write()
            dead = dict(scenes=set(), chapters=set())
            ctx.event('edited_save')
            data = check(ctx, f'edit/{i} step {step}', path, xml=text)
            if data is None:
                break
        ctx.evaluated((i, data), c01.interesting(shadow))
        ctx.drop(d)
    # project variables and project notes with sparse IDs, new languages in the texts
    langs = ['de-DE', 'fr-FR', 'en-AU', 'pt-BR', 'x=y', 'tlh', 'zz-ZZ']
    for i, rng in ctx.cases('variables', 60, 800):
        gen.reset()
        p = trim(gen.project(rng, size=rng.choice(['s', 'm'])))
        n = rng.randint(0, 6)
        p['vars'] = [(str(v), ['Language', 'Country', 'Weather', f'lang={rng.choice(langs)}', 'Own variable', 'Language 2'][k]
                      + (f' {k}' if rng.random() < 0.3 else ''), gen.line(rng))
                     for k, v in enumerate(rng.sample(range(1, 3 + 2 * n), n))]
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
        f = lib.load(path)
        data = None
        for step in range(rng.randint(1, 3)):
            for sc in f.novel.scenes.values():
                if rng.random() < 0.6:
                    x = rng.choice(langs)
                    sc.sceneContent = ref_yw7.norm_text(sc.sceneContent or '') + f'[lang={x}]{gen.uid()}[/lang={x}]'
            if rng.random() < 0.5:
                f.novel.languageCode, f.novel.countryCode = rng.choice([('de', 'AT'), ('en', 'GB'), ('zxx', 'none'), ('x', '')])
            f.write()
            ctx.event('variables_saved')
            data = check(ctx, f'variables/{i} step {step}', path, vars=p['vars'])
            if data is None:
                break
            if rng.random() < 0.5:
                f = lib.load(path)
        if data is not None:
            repeat(ctx, f'variables/{i}', path, data, 1, vars=p['vars'])
        ctx.evaluated(data, True)
        ctx.drop(d)
    # an empty project
    d = ctx.dir()
    path = os.path.join(d, 'novel.yw7')
    lib.new_file(path).write()
    first = check(ctx, 'empty project', path)
    repeat(ctx, 'empty project', path, first, 2)
    ctx.drop(d)
    ctx.require('file_validated', 300)
    ctx.require('variables_saved', 60)
    ctx.require('resave', 300)
