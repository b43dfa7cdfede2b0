"""C32: template-based exporters render what their templates say, with the values of the project."""
import os
import re
import urllib.parse

import docs
import gen
import lib
import ref_yw7

LEVEL = 'exploration'
RULE = ('Applications\' own exporters with random sets of templates, placeholders and filters are run on generated projects, on their own and through a converter; the file is compared with the output '
        'of a reference renderer following the specification of templates and placeholders. Failing writes are injected. Distinct by templates, filters, and project.')
ASSUMPTIONS = ['A template for the end of chapters also applies to parts; a template for the first scene applies to the first exported scene of a chapter whatever its type.',
               'The language of the project is known.']

CHAPTER = ['ID', 'ChapterNumber', 'Title', 'Desc', 'ProjectName', 'ProjectPath', 'Language', 'Country']
SCENE = ['ID', 'SceneNumber', 'Title', 'Desc', 'WordCount', 'WordsTotal', 'LetterCount', 'LettersTotal', 'Status', 'SceneContent', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Field1', 'Field2', 'Field3', 'Field4',
         'Date', 'Time', 'Day', 'ScDate', 'LastsDays', 'LastsHours', 'LastsMinutes', 'Duration', 'ReactionScene', 'Goal', 'Conflict', 'Outcome', 'Tags', 'Image', 'Characters', 'Viewpoint', 'Locations', 'Items', 'Notes',
         'ProjectName', 'ProjectPath', 'Language', 'Country']
WORLD = ['ID', 'Title', 'Desc', 'Tags', 'Image', 'AKA', 'ProjectName', 'ProjectPath']
PERSON = WORLD + ['Notes', 'Bio', 'Goals', 'FullName', 'Status']
HEADER = ['Title', 'Desc', 'AuthorName', 'AuthorBio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Language', 'Country']
NOTE = ['ID', 'Title', 'Desc', 'ProjectName', 'ProjectPath']
TEMPLATES = {'fileHeader': HEADER, 'fileFooter': None, 'sceneDivider': None, 'characterSectionHeading': None, 'locationSectionHeading': None, 'itemSectionHeading': None,
             'characterTemplate': PERSON, 'locationTemplate': WORLD, 'itemTemplate': WORLD, 'projectNoteTemplate': NOTE}
for __n in ('part', 'chapter', 'notesPart', 'todoPart', 'notesChapter', 'todoChapter', 'unusedChapter', 'notExportedChapter', 'chapterEnd', 'unusedChapterEnd', 'notExportedChapterEnd', 'notesChapterEnd', 'todoChapterEnd'):
    TEMPLATES[__n + 'Template'] = CHAPTER
for __n in ('scene', 'firstScene', 'appendedScene', 'notesScene', 'todoScene', 'unusedScene', 'notExportedScene'):
    TEMPLATES[__n + 'Template'] = SCENE
LITERALS = ['\n', '<p>', '$$', '%s', '{0}', '\\', 'Ä', '$Unknown', '${also_unknown}', '5 $', '|', 'text ']


def template(rng, name):
    known = TEMPLATES[name]
    out = f'<{name}>'
    for __ in range(rng.choice([0, 1, 2, 5, 12])):
        if known is None:
            out += rng.choice([x for x in LITERALS if '$' not in x])
        elif rng.random() < 0.3:
            out += rng.choice(LITERALS)
        else:
            k = rng.choice(known if rng.random() < 0.95 else SCENE + PERSON)
            out += rng.choice([f'${k} ', f'${{{k}}}', f'${k}-', f'${{{k}}}x'])
    return out


def fill(text, values):
    def one(m):
        if m[0] == '$$':
            return '$'
        k = m[1] or m[2]
        return str(values[k]) if k in values else m[0]
    return re.sub(r'\$\$|\$([_a-zA-Z][_a-zA-Z0-9]*)|\$\{([_a-zA-Z][_a-zA-Z0-9]*)\}', one, text)


class Reference:
    """Renders a project given as plain data."""

    def __init__(self, p, counts, templates, filters, place):
        self.p, self.counts, self.t, self.filters, self.place = p, counts, templates, filters, place

    def accepted(self, group, ids):
        return [i for i in ids if self.filters.get(group) is None or i in self.filters[group]]

    def text(self):
        t, p = self.t, self.p
        out = [fill(t.get('fileHeader', ''), self.header()), *self.chapters()]
        for group, name in (('characters', 'character'), ('locations', 'location'), ('items', 'item')):
            out.append(t.get(f'{name}SectionHeading', ''))
            for i in self.accepted(group, p[group]):
                out.append(fill(t.get(f'{name}Template', ''), self.element(group, i)))
        for i, n in p['notes'].items():
            out.append(fill(t.get('projectNoteTemplate', ''), dict(ID=i, Title=n['title'] or '', Desc=n['desc'] or '', **self.place)))
        out.append(t.get('fileFooter', ''))
        return ''.join(out)

    def header(self):
        p = self.p
        return dict(Title=p['title'] or '', Desc=p['desc'] or '', AuthorName=p['author'] or '', AuthorBio=p['bio'] or '', Language=p['lang'], Country=p['country'], **self.field_titles())

    def field_titles(self):
        return {f'FieldTitle{n}': self.p[f'ft{n}'] or '' for n in '1234'}

    def element(self, group, i):
        e = self.p[group][i]
        out = dict(ID=i, Title=e['title'], Desc=e['desc'], Tags=', '.join(e['tags'] or []), Image=e['image'], AKA=e['aka'], **self.place)
        if group == 'characters':
            out.update(Notes=e['notes'], Bio=e['bio'], Goals=e['goals'], FullName=e['fullName'], Status='Major' if e['major'] else 'Minor')
        return {k: v or '' for k, v in out.items()}

    def chapters(self):
        t, p = self.t, self.p
        number = scenes = words = letters = 0
        out = []
        for cid in self.accepted('chapters', p['chapters']):
            c = p['chapters'][cid]
            hidden = bool(c['scenes']) and all(p['scenes'][s]['noexport'] for s in c['scenes'])
            shown = ''
            if c['type'] in (1, 2):
                kind = {1: 'notes', 2: 'todo'}[c['type']]
                head, end = t.get(kind + ('Part' if c['level'] == 1 else 'Chapter') + 'Template', ''), t.get(kind + 'ChapterEndTemplate', '')
            elif c['type'] == 3:
                head, end = t.get('unusedChapterTemplate', ''), t.get('unusedChapterEndTemplate', '')
            elif hidden:
                head, end = t.get('notExportedChapterTemplate', ''), t.get('notExportedChapterEndTemplate', '')
            else:
                end = t.get('chapterEndTemplate', '')
                if c['level'] == 1 and t.get('partTemplate'):
                    head = t['partTemplate']
                else:
                    number += 1
                    shown = number
                    head = t.get('chapterTemplate', '')
            values = dict(ID=cid, ChapterNumber=shown, Title=c['title'] or '', Desc=c['desc'] or '', Language=p['lang'], Country=p['country'], **self.place)
            out.append(fill(head, values))
            first = True
            for sid in self.accepted('scenes', c['scenes']):
                s = p['scenes'][sid]
                at = ''
                content = s['content'] or ''
                if s['type'] == 2:
                    which = 'todoScene'
                elif s['type'] == 1:
                    which = 'notesScene'
                elif s['type'] == 3 or c['type'] == 3:
                    which = 'unusedScene'
                elif s['noexport'] or hidden:
                    which = 'notExportedScene'
                elif content.startswith(('<HTML>', '<TEX>')):
                    continue
                else:
                    which = 'scene'
                    scenes += 1
                    at = scenes
                    words += self.counts[sid][0]
                    letters += self.counts[sid][1]
                    if not first and s['append'] and t.get('appendedSceneTemplate'):
                        which = 'appendedScene'
                tpl = t.get(which + 'Template', '')
                if not tpl and which not in ('scene', 'appendedScene'):
                    continue
                if not first and not s['append']:
                    out.append(t.get('sceneDivider', ''))
                if first and t.get('firstSceneTemplate'):
                    tpl = t['firstSceneTemplate']
                first = False
                out.append(fill(tpl, self.scene(sid, at, words, letters)))
            out.append(fill(end, values))
        return out

    def scene(self, sid, number, words, letters):
        p, s = self.p, self.p['scenes'][sid]
        names = lambda g: [p[g][i]['title'] or '' for i in s[g] or []]
        v = dict(ID=sid, SceneNumber=number, Title=s['title'], Desc=s['desc'], SceneContent=s['content'], Notes=s['notes'], Goal=s['goal'], Conflict=s['conflict'], Outcome=s['outcome'], Image=s['image'],
                 Tags=', '.join(s['tags'] or []), Characters=', '.join(names('characters')), Locations=', '.join(names('locations')), Items=', '.join(names('items')), Viewpoint=(names('characters') + [''])[0],
                 Status=['', 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done'][s['status'] or 0], **{f'Field{n}': s[f'field{n}'] for n in '1234'})
        v = {k: x or '' for k, x in v.items()}
        v.update(WordCount=self.counts[sid][0], LetterCount=self.counts[sid][1], WordsTotal=words, LettersTotal=letters, ReactionScene='R' if s['reaction'] else 'A')
        dated = s['date'] is not None and s['date'] != '0001-01-01'
        day = s['day'] if not dated and s['day'] is not None else ''
        v.update(Date=s['date'] if dated else '', Day=day, ScDate=s['date'] if dated else f'Day {day}' if s['day'] is not None else '', Time=s['time'].rsplit(':', 1)[0] if s['time'] is not None else '')
        total = ''
        for k, name, unit in (('ldays', 'LastsDays', 'd '), ('lhours', 'LastsHours', 'h '), ('lminutes', 'LastsMinutes', 'min')):
            x = s[k]
            v[name] = x if x is not None and x != '0' else ''
            if x is not None and x != '0':
                total += x + unit
        v.update(Duration=total, Language=p['lang'], Country=p['country'], **self.field_titles(), **self.place)
        return v


def make(templates, filters, suffix, extension):
    from pywriter.file.file_export import FileExport
    from pywriter.file.filter import Filter

    class Only(Filter):

        def __init__(self, group):
            self.group = group

        def accept(self, source, eId):
            return eId in filters[self.group]

    class Custom(FileExport):
        DESCRIPTION = 'Report'
        SUFFIX = suffix
        EXTENSION = extension

        def __init__(self, filePath, **kwargs):
            super().__init__(filePath, **kwargs)
            for group in filters:
                setattr(self, f'_{group[:-1]}Filter', Only(group))

    for k, v in templates.items():
        setattr(Custom, f'_{k}', v)
    return Custom


def content(rng):
    r = rng.random()
    if r < 0.05:
        return '<HTML>' + docs.inline(rng)
    if r < 0.1:
        return '<TEX>' + docs.inline(rng)
    if r < 0.15:
        return None
    return docs.scene_text(rng)[0]


def run(ctx):
    from pywriter.pywriter_globals import Error
    for i, rng in ctx.cases('templates', 350, 6000):
        gen.reset()
        p = gen.project(rng, size=gen.size(rng, i, ['s', 'm', 'm', 'l']), content=content, chtypes=(0, 0, 0, 1, 2, 3), sctypes=(0, 0, 0, 1, 2, 3))
        for s in p['scenes'].values():
            s['noexport'] = rng.random() < 0.2
            s['append'] = rng.random() < 0.3
        if p['chapters'] and rng.random() < 0.3:
            for s in rng.choice(list(p['chapters'].values()))['scenes']:
                p['scenes'][s]['noexport'] = True
        p['lang'], p['country'] = rng.choice([('de', 'DE'), ('en', 'US'), ('zxx', 'none')])
        d = ctx.dir(rng.choice(['d', 'a b', 'ä', 'x%y', "it's"]))
        name = rng.choice(['novel', 'my novel', 'Größe', 'a & b', '100%'])
        path = lib.put(os.path.join(d, f'{name}.yw7'), gen.build_xml(p, rng, dict(mixed=rng.random() < 0.5)))
        f = lib.load(path)
        spec = ref_yw7.extract(f.novel)
        counts = {k: (s.wordCount, s.letterCount) for k, s in f.novel.scenes.items()}
        for r in range(2):
            templates = {k: template(rng, k) for k in TEMPLATES if rng.random() < rng.choice([0.3, 0.8])}
            filters = {g: {x for x in spec[g] if rng.random() < 0.6} for g in ('chapters', 'scenes', 'characters', 'locations', 'items') if rng.random() < 0.2}
            suffix, extension = rng.choice(['', '_report', '_x y']), rng.choice(['.txt', '.html', '.md'])
            cls = make(templates, filters, suffix, extension)
            target = os.path.join(d, f'{name}{suffix}{extension}')
            place = dict(ProjectName=urllib.parse.quote(name), ProjectPath=urllib.parse.quote(os.path.realpath(d), '/:'))
            want = Reference(spec, counts, templates, filters, place).text()
            label = f'templates/{i} round {r}'
            before = lib.snapshot(d)
            replay = dict(project=before[f'{name}.yw7'], templates=templates, filters={k: sorted(v) for k, v in filters.items()})
            ctx.evaluated((before[f'{name}.yw7'], sorted(templates.items()), suffix, extension, sorted(replay['filters'].items())), bool(templates))
            way = rng.choice(['export', 'export', 'convert', 'fault'])
            if way == 'convert':
                from pywriter.converter.yw_cnv_ff import YwCnvFf

                class Converter(YwCnvFf):
                    EXPORT_SOURCE_CLASSES = [type(f)]
                    EXPORT_TARGET_CLASSES = [cls]

                converter = Converter()
                converter.ui = lib.RecordingUi(True)
                converter.run(path, suffix=suffix)
                if converter.newFile is None or os.path.normpath(converter.newFile) != target:
                    ctx.violation(f'{label}: {converter.ui.how} {converter.newFile!r}', **replay)
                    continue
            else:
                e = cls(target)
                e.novel = f.novel
                if way == 'fault':
                    size = len(want.encode('utf-8'))
                    fault = lib.Faulty(lambda p: os.path.basename(target) in os.path.basename(p) and not p.endswith('.bak'), rng.choice(['open', 'write']) if size else 'open', rng.randrange(size or 1))
                    try:
                        with fault:
                            e.write()
                        if fault.hit:
                            ctx.violation(f'{label}: a failure is not reported', **replay)
                        continue
                    except Error:
                        ctx.event('fault')
                    after = lib.snapshot(d)
                    old = os.path.basename(target)
                    if {k: v for k, v in after.items() if k != old + '.bak'} != {k: v for k, v in before.items() if k != old + '.bak'}:
                        ctx.violation(f'{label}: a failed export changed {sorted(k for k in before.keys() | after.keys() if before.get(k) != after.get(k))}', **replay)
                    continue
                try:
                    e.write()
                except Exception as ex:
                    ctx.violation(f'{label}: {ex!r}', **replay)
                    continue
            ctx.event('rendered')
            ctx.event(f'rendered_by_{way}')
            got = lib.get(target).decode('utf-8')
            if got != want:
                at = next((n for n, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                ctx.violation(f'{label}: ...{got[max(0, at - 60):at + 60]!r} instead of ...{want[max(0, at - 60):at + 60]!r}', **replay)
            after = lib.snapshot(d)
            old = os.path.basename(target)
            if old in before:
                ctx.event('backup')
                if after.get(old + '.bak') != before[old]:
                    ctx.violation(f'{label}: the backup is not the previous file', **replay)
            rest = lambda x: {k: v for k, v in x.items() if k not in (old, old + '.bak')}
            if rest(before) != rest(after):
                ctx.violation(f'{label}: other files have changed', **replay)
            ctx.event('template', len(templates))
            # again
            if way == 'export' and rng.random() < 0.3:
                e.write()
                if lib.get(target).decode('utf-8') != want or lib.get(target + '.bak').decode('utf-8') != want:
                    ctx.violation(f'{label}: another text when written again', **replay)
                ctx.event('backup')
        ctx.drop(d)
    ctx.require('rendered', 100)
    ctx.require('rendered_by_convert', 20)
    ctx.require('template', 1000)
    ctx.require('backup', 20)
