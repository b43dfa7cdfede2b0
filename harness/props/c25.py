"""C25: resetting custom fields removes exactly these fields."""
import os
import xml.etree.ElementTree as ET

import docs
import gen
import lib
import ref_yw7
from props import c04

LEVEL = 'exploration'
RULE = ('Projects whose elements (project, chapters, scenes, characters, locations, items, notes) have random known and unknown custom fields are read by applications with different sets of known fields, purged and saved. '
        'Every element of the saved tree is compared with the tree saved without purging: known fields are gone, everything else is the same; the answer tells whether there was something to remove. '
        'Language tags are removed from random texts and compared with a character scanner. Distinct by project and set of fields.')
ASSUMPTIONS = ['Empty custom fields carry no information.']

LEVELS = {'PRJ_KWVAR': 'PROJECT', 'CHP_KWVAR': 'CHAPTER', 'SCN_KWVAR': 'SCENE', 'CRT_KWVAR': 'CHARACTER', 'LOC_KWVAR': 'LOCATION', 'ITM_KWVAR': 'ITEM', 'PNT_KWVAR': 'PROJECTNOTE'}
EXTRA = ['Field_ArcDefinition', 'Field_CustomAR', 'Field_Color', 'Field_Phase', 'Field_x', 'Field_SceneArcsOld', 'Field_Lin', 'Field_Links']
UNKNOWN = ['Field_Foreign', 'Field_Note', 'Field_SceneStyles']
ATTRS = {'PRJ_KWVAR': None, 'CHP_KWVAR': 'chapters', 'SCN_KWVAR': 'scenes', 'CRT_KWVAR': 'characters', 'LOC_KWVAR': 'locations', 'ITM_KWVAR': 'items', 'PNT_KWVAR': 'projectNotes'}


def application(rng):
    from pywriter.yw.yw7_file import Yw7File

    class App(Yw7File):
        pass

    for name in LEVELS:
        known = list(getattr(Yw7File, name))
        if rng.random() < 0.6:
            known += rng.sample(EXTRA, rng.randint(1, 3))
        setattr(App, name, known)
    return App


def value(rng):
    k = rng.random()
    if k < 0.1:
        return ''
    if k < 0.2:
        return rng.choice(['0', '-1', '1', ' ', 'false', 'None'])
    return ref_yw7.norm_text(gen.line(rng)) or 'x'


def put_fields(rng, data, app, density):
    """Add custom fields; returns (data, number of known fields with a value)."""
    root = ET.fromstring(data)
    count = 0
    for name, tag in LEVELS.items():
        known = getattr(app, name)
        # the fields that keep their place in the file
        unknown = UNKNOWN if tag in ('PROJECT', 'CHAPTER', 'SCENE') else []
        for e in root.iter(tag):
            f = e.find('Fields')
            if f is not None:
                for k in known:
                    for x in f.findall(k):
                        f.remove(x)
            for k in known + unknown:
                if rng.random() < density:
                    if f is None:
                        f = ET.SubElement(e, 'Fields')
                    v = value(rng)
                    if k == 'Field_SceneMode':
                        v = rng.choice(['1', '2', '3', '4', '5', ''])
                    elif k in ('Field_LanguageCode', 'Field_CountryCode'):
                        v = rng.choice(['de', 'DE', 'en'])
                    ET.SubElement(f, k).text = v
                    if k in known and v:
                        count += 1
    return b'<?xml version="1.0" encoding="utf-8"?>\n' + ET.tostring(root, encoding='utf-8'), count


def flat(e, skip):
    """Comparable form of an element without the fields to skip ({tag: names})."""
    out = []
    for c in e:
        if c.tag == 'Fields' and e.tag in skip:
            kids = [flat(x, {}) for x in c if x.tag not in skip[e.tag]]
            if kids:
                out.append(('Fields', '', sorted(kids)))
        else:
            out.append(flat(c, skip))
    return (e.tag, (e.text or '').strip() if len(e) else e.text or '', out)


def first_difference(a, b, path=''):
    if a[0] != b[0] or a[1] != b[1]:
        return f'{path}/{a[0]} {a[1]!r} became {b[0]} {b[1]!r}'
    for x, y in zip(a[2], b[2]):
        if x != y:
            return first_difference(x, y, f'{path}/{a[0]}')
    if len(a[2]) != len(b[2]):
        return f'{path}/{a[0]}: {[x[0] for x in a[2]]} became {[x[0] for x in b[2]]}'
    return None


def remaining(data, app):
    root = ET.fromstring(data)
    return [(tag, e.findtext('ID'), x.tag, x.text) for name, tag in LEVELS.items() for e in root.iter(tag) for f in e.findall('Fields') for x in f if x.tag in getattr(app, name)]


def without_language_tags(text):
    """Character scanner: remove [lang=...] and [/lang=...]."""
    out, pos = [], 0
    while pos < len(text):
        if text[pos] == '[':
            k = pos + 1
            while k < len(text) and text[k] == '/':
                k += 1
            if text.startswith('lang=', k):
                end = text.find(']', k + 5)
                if end >= 0 and '\n' not in text[k:end]:
                    pos = end + 1
                    continue
        out.append(text[pos])
        pos += 1
    return ''.join(out)


def run(ctx):
    from pywriter.yw import yw7_purge
    for i, rng in ctx.cases('fields', 260, 6000):
        gen.reset()
        app = application(rng)
        p = c04.trim(gen.project(rng, size=rng.choice(['s', 'm', 'm'])))
        data = gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5))
        data, count = put_fields(rng, data, app, rng.choice([0, 0.1, 0.5, 1]))
        d = ctx.dir()
        kept, purged = os.path.join(d, 'kept.yw7'), os.path.join(d, 'purged.yw7')
        lib.put(kept, data)
        lib.put(purged, data)
        label = f'fields/{i}'
        skip = {tag: set(getattr(app, name)) for name, tag in LEVELS.items()}

        f = lib.new_file(kept, app)
        f.read()
        f.write()
        plain = lib.get(kept)
        # saving alone removes nothing (except for the legacy language settings)
        source = ET.fromstring(data)
        want = sorted((tag, e.findtext('ID'), x.tag, x.text) for name, tag in LEVELS.items() for e in source.iter(tag) for fs in e.findall('Fields') for x in fs
                      if x.tag in getattr(app, name) and x.text and x.tag not in ('Field_LanguageCode', 'Field_CountryCode'))
        have = sorted(remaining(plain, app))
        if [str(x) for x in want] != [str(x) for x in have]:
            lost = [x for x in want if x not in have] + [x for x in have if x not in want]
            ctx.violation(f'{label}: saving changed custom fields: {lost[:4]}', file=data, after=plain)
            continue
        ctx.event('fields_kept', len(have))

        g = lib.new_file(purged, app)
        g.read()
        if rng.random() < 0.2 and g.novel.scenes:
            # set by the application after reading
            s = g.novel.scenes[rng.choice(list(g.novel.scenes))]
            if rng.random() < 0.5:
                s.scnArcs = 'new;arcs'
            else:
                s.scnMode = rng.choice([1, 2, 3])
            count += 1
        answer = yw7_purge.reset_custom_variables(g)
        again = yw7_purge.reset_custom_variables(g)
        ctx.evaluated((data, str(skip)), count > 0)
        ctx.event('purge')
        ctx.event('fields_removed', count)
        if not count:
            ctx.event('nothing_to_remove')
        bad = []
        if bool(answer) != bool(count):
            bad.append(f'answered {answer!r} for {count} fields')
        if again:
            bad.append(f'answered {again!r} the second time')
        g.write()
        after = lib.get(purged)
        left = remaining(after, app)
        if left:
            bad.append(f'fields left: {left[:4]}')
        a, b = flat(ET.fromstring(plain), skip), flat(ET.fromstring(after), skip)
        if a != b:
            bad.append(f'other data changed: {first_difference(a, b)}')
        h = lib.new_file(purged, app)
        h.read()
        if yw7_purge.reset_custom_variables(h):
            bad.append('there is something to remove after purging and saving')
        x, y = ref_yw7.parse(plain), ref_yw7.parse(after)
        diff = ref_yw7.diff(x, y, skip={'scenes.arcs', 'scenes.mode', 'characters.kw', 'locations.kw', 'items.kw'}, scene_order=True)
        if diff:
            bad.append(f'project changed: {diff[:3]}')
        if bad:
            ctx.violation(f'{label}: {bad[:4]}', file=data, plain=plain, purged=after, known=str(skip))
        ctx.drop(d)

    for i, rng in ctx.cases('tags', 150, 4000):
        gen.reset()
        p = c04.trim(gen.project(rng, size=rng.choice(['s', 'm']), content=text))
        d = ctx.dir()
        path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(p, rng))
        data = lib.get(path)
        f = lib.load(path)
        before = {s: f.novel.scenes[s].sceneContent for s in f.novel.scenes}
        want = {s: None if t is None else without_language_tags(t) for s, t in before.items()}
        answer = yw7_purge.remove_language_tags(f.novel)
        changed = any(want[s] != before[s] for s in want)
        ctx.evaluated(data, changed)
        ctx.event('texts', len(want))
        ctx.event('texts_changed', sum(want[s] != before[s] for s in want))
        label = f'tags/{i}'
        bad = [f'scene {s}: {before[s]!r} became {x.sceneContent!r}' for s, x in f.novel.scenes.items() if x.sceneContent != want[s]]
        if bool(answer) != changed:
            bad.append(f'answered {answer!r}, changed {changed}')
        if not bad:
            f.write()
            now = lib.parse_file(path)
            old = ref_yw7.parse(data)
            diff = ref_yw7.diff(old, now, skip={'scenes.content', 'lang', 'country', 'languages'}, scene_order=True)
            if diff:
                bad.append(f'project changed: {diff[:3]}')
            for s in want:
                if ref_yw7.norm_text(want[s]) != ref_yw7.norm_text(now['scenes'][s]['content']):
                    bad.append(f'scene {s}: saved {now["scenes"][s]["content"]!r} instead of {want[s]!r}')
        if bad:
            ctx.violation(f'{label}: {bad[:3]}', file=data)
        ctx.drop(d)
    ctx.require('fields_kept', 500)
    ctx.require('fields_removed', 500)
    ctx.require('nothing_to_remove', 15)
    ctx.require('texts_changed', 100)


def text(rng):
    k = rng.random()
    if k < 0.6:
        return docs.scene_text(rng)[0]
    if k < 0.7:
        return gen.multi(rng)
    if k < 0.75:
        return None
    return ''.join(rng.choice(['[lang=de]', '[/lang=de]', '[//lang=x]', '[lang=', '[', ']', '/', 'lang=', '\n', 'a', ' b', '[i]', '[/i]', '[b]', '[/lang', '[LANG=de]', '[ lang=de]', '[lang=a[b]]', gen.uid()]) for __ in range(rng.randint(1, 12)))
