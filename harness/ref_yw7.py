"""Independent interpretation of a yWriter 7 project file, and comparison helpers.

Written from the documented format tables (docs/yw7.dtd and the yWriter type tables), not from the
library's reader: it never imports the library.
"""
import datetime
import re
import xml.etree.ElementTree as ET

CONTROL = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f]')


class Malformed(Exception):
    pass


def decode(data):
    try:
        return data.decode('utf-8')
    except UnicodeDecodeError:
        return data.decode('utf-16')


def root_of(data):
    text = decode(data)
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    text = CONTROL.sub('', text)
    if text.startswith('\ufeff'):
        text = text[1:]
    try:
        return ET.fromstring(text)
    except ET.ParseError as ex:
        raise Malformed(str(ex))


def strict_root(data):
    """Like root_of, but without any leniency: what any XML consumer must accept."""
    try:
        return ET.fromstring(data)
    except ET.ParseError as ex:
        raise Malformed(str(ex))


def taglist(text):
    out = []
    for t in (text or '').split(';'):
        t = t.strip()
        if t and t not in out:
            out.append(t)
    return out or None


def _t(e, tag):
    x = e.find(tag)
    return None if x is None else (x.text or None)


def _fields(e):
    out = {}
    for f in e.findall('Fields'):
        for x in f:
            out[x.tag] = x.text
    return out


def parse(data):
    root = root_of(data)
    p = {}
    pr = root.find('PROJECT')
    for key, tag in (('title', 'Title'), ('author', 'AuthorName'), ('bio', 'Bio'), ('desc', 'Desc'),
                     ('ft1', 'FieldTitle1'), ('ft2', 'FieldTitle2'), ('ft3', 'FieldTitle3'), ('ft4', 'FieldTitle4')):
        p[key] = _t(pr, tag)
    for key, tag in (('target', 'WordTarget'), ('start', 'WordCountStart')):
        p[key] = None
        if pr.find(tag) is not None:
            try:
                p[key] = int(pr.find(tag).text)
            except (TypeError, ValueError):
                p[key] = 0
    for group, tag in (('locations', 'LOCATION'), ('items', 'ITEM'), ('characters', 'CHARACTER')):
        p[group] = {}
        for e in root.find(group.upper()):
            w = dict(title=_t(e, 'Title'), image=_t(e, 'ImageFile'), desc=_t(e, 'Desc'), aka=_t(e, 'AKA'),
                     tags=taglist(_t(e, 'Tags')))
            f = _fields(e)
            w['kw'] = {k: f[k] for k in ('Field_Link', 'Field_BirthDate', 'Field_DeathDate') if f.get(k)
                       and (group == 'characters' or k == 'Field_Link')}
            if group == 'characters':
                w.update(notes=_t(e, 'Notes'), bio=_t(e, 'Bio'), goals=_t(e, 'Goals'), fullName=_t(e, 'FullName'),
                         major=e.find('Major') is not None)
            p[group][_t(e, 'ID')] = w
    p['notes'] = {}
    notes = root.find('PROJECTNOTES')
    if notes is not None:
        for e in notes:
            p['notes'][_t(e, 'ID')] = dict(title=_t(e, 'Title'), desc=_t(e, 'Desc'))
    p['lang'] = p['country'] = None
    f = _fields(pr)
    if f.get('Field_LanguageCode'):
        p['lang'] = f['Field_LanguageCode']
    if f.get('Field_CountryCode'):
        p['country'] = f['Field_CountryCode']
    p['languages'] = None
    p['vars'] = []
    pv = root.find('PROJECTVARS')
    if pv is not None:
        for e in pv:
            t, d = _t(e, 'Title'), _t(e, 'Desc')
            p['vars'].append((_t(e, 'ID'), t, d))
            if t == 'Language':
                if e.find('Desc') is not None:
                    p['lang'] = d
            elif t == 'Country':
                if e.find('Desc') is not None:
                    p['country'] = d
            elif t and t.startswith('lang='):
                p['languages'] = (p['languages'] or []) + [t[5:]]
    p['scenes'] = {}
    for e in root.find('SCENES'):
        f = _fields(e)
        s = dict(title=_t(e, 'Title'), desc=_t(e, 'Desc'), content=_t(e, 'SceneContent'), notes=_t(e, 'Notes'),
                 tags=taglist(_t(e, 'Tags')), goal=_t(e, 'Goal'), conflict=_t(e, 'Conflict'), outcome=_t(e, 'Outcome'),
                 image=_t(e, 'ImageFile'), ldays=_t(e, 'LastsDays'), lhours=_t(e, 'LastsHours'),
                 lminutes=_t(e, 'LastsMinutes'))
        for k in '1234':
            s['field' + k] = _t(e, 'Field' + k)
        # scene type table
        s['type'] = {'1': 1, '2': 2}.get(f.get('Field_SceneType'), 3 if e.find('Unused') is not None else 0)
        s['noexport'] = e.find('ExportCondSpecific') is not None and e.find('ExportWhenRTF') is None
        s['status'] = int(_t(e, 'Status')) if _t(e, 'Status') else None
        s['append'] = e.find('AppendToPrev') is not None
        s['reaction'] = e.find('ReactionScene') is not None
        s['subplot'] = e.find('SubPlot') is not None
        s['date'] = s['time'] = s['day'] = None
        if e.find('SpecificDateTime') is not None:
            try:
                dt = datetime.datetime.fromisoformat(_t(e, 'SpecificDateTime'))
                s['date'], s['time'] = dt.isoformat().split('T')
            except (ValueError, TypeError):
                pass
        else:
            d = _t(e, 'Day')
            try:
                int(d)
                s['day'] = d
            except (ValueError, TypeError):
                pass
            h, m = e.find('Hour'), e.find('Minute')
            if h is not None or m is not None:
                s['time'] = f"{(_t(e, 'Hour') or '00').zfill(2)}:{(_t(e, 'Minute') or '00').zfill(2)}:00"
        for group, gtag, tag in (('characters', 'Characters', 'CharID'), ('locations', 'Locations', 'LocID'),
                                 ('items', 'Items', 'ItemID')):
            g = e.find(gtag)
            s[group] = ([x.text for x in g.iter(tag) if x.text in p[group]] if g is not None else None) or None
        s['arcs'] = f.get('Field_SceneArcs') or None
        try:
            s['mode'] = int(f.get('Field_SceneMode')) or None
        except (TypeError, ValueError):
            s['mode'] = None
        p['scenes'][_t(e, 'ID')] = s
    p['chapters'] = {}
    for e in root.find('CHAPTERS'):
        f = _fields(e)
        c = dict(title=_t(e, 'Title'), desc=_t(e, 'Desc'), level=1 if e.find('SectionStart') is not None else 0)
        unused = e.find('Unused') is not None
        if e.find('ChapterType') is not None:
            c['type'] = {'2': 2, '1': 1}.get(_t(e, 'ChapterType'), 3 if unused else 0)
        elif e.find('Type') is not None:
            c['type'] = 1 if _t(e, 'Type') == '1' else (3 if unused else 0)
        else:
            c['type'] = 0
        c['suppress'] = (c['title'] or '').startswith('@') or f.get('Field_SuppressChapterTitle') == '1'
        c['trash'] = f.get('Field_IsTrash') == '1'
        c['nobreak'] = f.get('Field_SuppressChapterBreak') == '1'
        g = e.find('Scenes')
        c['scenes'] = [x.text for x in g.findall('ScID') if x.text in p['scenes']] if g is not None else []
        p['chapters'][_t(e, 'ID')] = c
    for c in p['chapters'].values():
        if c['type'] != 0:
            for s in c['scenes']:
                p['scenes'][s]['type'] = c['type']
    return p


# -- the library's object model, as the same plain data -------------------------------------

SCENE_ATTRS = dict(title='title', desc='desc', content='sceneContent', type='scType', noexport='doNotExport', status='status',
                   notes='notes', tags='tags', field1='field1', field2='field2', field3='field3', field4='field4',
                   append='appendToPrev', reaction='isReactionScene', subplot='isSubPlot', goal='goal',
                   conflict='conflict', outcome='outcome', image='image', characters='characters',
                   locations='locations', items='items', date='date', time='time', day='day', ldays='lastsDays',
                   lhours='lastsHours', lminutes='lastsMinutes', arcs='scnArcs', mode='scnMode')
CHAPTER_ATTRS = dict(title='title', desc='desc', level='chLevel', type='chType', suppress='suppressChapterTitle',
                     trash='isTrash', nobreak='suppressChapterBreak', scenes='srtScenes')
WORLD_ATTRS = dict(title='title', image='image', desc='desc', aka='aka', tags='tags')
CHAR_ATTRS = dict(WORLD_ATTRS, notes='notes', bio='bio', goals='goals', fullName='fullName', major='isMajor')
PROJECT_ATTRS = dict(title='title', author='authorName', bio='authorBio', desc='desc', ft1='fieldTitle1',
                     ft2='fieldTitle2', ft3='fieldTitle3', ft4='fieldTitle4', target='wordTarget',
                     start='wordCountStart', lang='languageCode', country='countryCode')


def extract(novel):
    p = {k: getattr(novel, a) for k, a in PROJECT_ATTRS.items()}
    p['languages'] = list(novel.languages) if novel.languages is not None else None
    for group, srt, attrs in (('locations', 'srtLocations', WORLD_ATTRS), ('items', 'srtItems', WORLD_ATTRS),
                              ('characters', 'srtCharacters', CHAR_ATTRS)):
        p[group] = {}
        for i in getattr(novel, srt):
            e = getattr(novel, group)[i]
            d = {k: getattr(e, a) for k, a in attrs.items()}
            d['kw'] = {k: v for k, v in e.kwVar.items() if v}
            p[group][i] = d
    p['notes'] = {i: dict(title=novel.projectNotes[i].title, desc=novel.projectNotes[i].desc) for i in novel.srtPrjNotes}
    p['scenes'] = {i: {k: getattr(s, a) for k, a in SCENE_ATTRS.items()} for i, s in novel.scenes.items()}
    p['chapters'] = {i: {k: getattr(novel.chapters[i], a) for k, a in CHAPTER_ATTRS.items()} for i in novel.srtChapters}
    for c in p['chapters'].values():
        c['scenes'] = list(c['scenes'] or [])
    for s in p['scenes'].values():
        for k in ('characters', 'locations', 'items', 'tags'):
            if s[k] is not None:
                s[k] = list(s[k])
    return p


TEXT_KEYS = {'title', 'author', 'bio', 'desc', 'ft1', 'ft2', 'ft3', 'ft4', 'content', 'notes', 'goal', 'conflict', 'outcome',
             'image', 'aka', 'goals', 'fullName', 'arcs', 'field1', 'field2', 'field3', 'field4', 'ldays', 'lhours',
             'lminutes', 'date', 'time', 'day', 'lang', 'country'}
FALSY_KEYS = {'append', 'reaction', 'subplot', 'noexport', 'major', 'suppress', 'trash', 'nobreak', 'tags', 'characters',
              'locations', 'items', 'mode'}


def norm_text(t):
    """Saving trims line breaks at the end of a text and a leading blank line made of one blank."""
    if t is None:
        return ''
    t = t.rstrip('\n')
    while t.startswith(' \n'):
        t = t[2:]
    return t


def norm(key, value):
    if key in TEXT_KEYS:
        return norm_text(value)
    if key in FALSY_KEYS and not isinstance(value, dict):
        return value or None
    if isinstance(value, dict) and key == 'kw':
        return {k: v for k, v in value.items() if v}
    return value


ORDERED = ('locations', 'items', 'characters', 'notes', 'chapters')


def diff(exp, act, skip=(), scene_order=False):
    """Differences between two specs as a list of strings (empty: equal)."""
    out = []
    for k in exp:
        if k in skip or k == 'vars':
            continue
        if k not in act:
            out.append(f'{k}: missing')
            continue
        if k in ORDERED or k == 'scenes':
            if k in ORDERED or scene_order:
                if list(exp[k]) != list(act[k]):
                    out.append(f'{k}: order/IDs {list(exp[k])} -> {list(act[k])}')
            elif set(exp[k]) != set(act[k]):
                out.append(f'{k}: IDs {sorted(exp[k])} -> {sorted(act[k])}')
            for i in exp[k]:
                if i not in act[k]:
                    continue
                for f in exp[k][i]:
                    if f'{k}.{f}' in skip:
                        continue
                    a, b = norm(f, exp[k][i][f]), norm(f, act[k][i].get(f))
                    if a != b:
                        out.append(f'{k}[{i}].{f}: {a!r} -> {b!r}')
        elif k == 'languages':
            continue
        else:
            a, b = norm(k, exp[k]), norm(k, act[k])
            if a != b:
                out.append(f'{k}: {a!r} -> {b!r}')
    return out
