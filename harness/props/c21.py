"""C21: word and letter counts follow the text."""
import os

import docs
import gen
import lib
import ref_yw7
import wordcount
import writer
from props import c04, c10, c13, c15, c16

LEVEL = 'exploration'
RULE = ('(a) Sequences of texts (markup, comments, dashes, brackets, all kinds of blanks, random strings over the special characters) are assigned to scenes and the counts compared with a reference scanner after each '
        'assignment. (b) Every scene object is checked whenever the real code reads or writes a project or document (hooked) during random histories of exports, edited imports, splits, new projects and direct edits. '
        '(c) Counts and running totals in exported scene lists, and counts stored in saved files, are compared with the texts. Distinct by text or history step.')
ASSUMPTIONS = ['Words are separated by white space and dashes (two hyphens, en dash, em dash); hyphens join. Text in brackets within a line, comments, and the quotation mark at a line start do not count.']

ALPHABET = ['[', ']', '/', '*', '/*', '*/', '-', '--', '\u2014', '\u2013', '>', '> ', ' ', '  ', '\n', '\n', '\t', '\r', 'a', 'b', 'word', "don't", '\u00a0', '\u2026', '...', '.', ',',
            '[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '\u6f22', '\U0001f600', '@fn', '/* x */', '#', '~', '\u2028', '\x85', '\u200b', '1', '&', '<b>']


def random_text(rng):
    k = rng.random()
    if k < 0.04:
        # a long text
        return '\n'.join(docs.inline(rng, n=(5, 60)) for __ in range(rng.randint(5, 40)))
    if k < 0.45:
        return ''.join(rng.choice(ALPHABET) for __ in range(rng.randint(0, rng.choice([3, 8, 30]))))
    if k < 0.75:
        return docs.scene_text(rng)[0]
    if k < 0.9:
        return gen.multi(rng)
    return rng.choice(['', ' ', '\n', 'one', 'one two', 'one--two', 'one-two', '> quote', 'x > y', '/* only a comment */', '[b][/b]', '\n\n', 'a [unclosed', 'a /* unclosed', '*/ a /*', '[]', '[]]', '/**/', '/**/ a */'])


class Watch:
    """Checks all scenes whenever the library reads or writes."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.bad = []
        self.saved = []

    def look(self, obj, where):
        for sid, s in obj.novel.scenes.items():
            if s.sceneContent is None:
                want = (0, 0)
            else:
                want = wordcount.count(s.sceneContent)
            self.ctx.event('scene_checked')
            if (s.wordCount, s.letterCount) != want:
                self.bad.append(f'{where}: scene {sid}: counts {(s.wordCount, s.letterCount)} instead of {want} for {s.sceneContent!r}')

    def wrap(self, cls, name):
        original = cls.__dict__[name]
        watch = self

        def wrapper(obj, *args, **kwargs):
            if name == 'write':
                watch.look(obj, f'before {cls.__name__}.{name}')
            result = original(obj, *args, **kwargs)
            watch.look(obj, f'after {cls.__name__}.{name}')
            return result

        self.saved.append((cls, name, original))
        setattr(cls, name, wrapper)

    def __enter__(self):
        from pywriter.yw.yw7_file import Yw7File
        from pywriter.odt_r.odt_reader import OdtReader
        from pywriter.ods_r.ods_reader import OdsReader
        from pywriter.file.file_export import FileExport
        for cls in (Yw7File, OdtReader, OdsReader, FileExport):
            for name in ('read', 'write'):
                if name in cls.__dict__:
                    self.wrap(cls, name)
        return self

    def __exit__(self, *exc):
        for cls, name, original in self.saved:
            setattr(cls, name, original)
        self.saved = []


def run(ctx):
    from pywriter.model.scene import Scene
    for i, rng in ctx.cases('assign', 300, 8000):
        gen.reset()
        scenes = [Scene() for __ in range(3)]
        texts = {}
        for __ in range(20):
            k = rng.randrange(3)
            t = random_text(rng)
            scenes[k].sceneContent = t
            texts[k] = t
            for j, s in enumerate(scenes):
                want = wordcount.count(texts[j]) if j in texts else (0, 0)
                if (s.wordCount, s.letterCount) != want or s.sceneContent != texts.get(j):
                    ctx.violation(f'assign/{i}: counts {(s.wordCount, s.letterCount)} instead of {want} for {texts.get(j)!r} (text {s.sceneContent!r})')
            ctx.event('assignment')
            ctx.evaluated(t, bool(t))
    for i, rng in ctx.cases('history', 40, 800):
        history(ctx, i, rng)
    ctx.require('assignment', 4000)
    ctx.require('scene_checked', 1500)
    ctx.require('list_row', 60)
    ctx.require('import', 40)


def history(ctx, i, rng):
    gen.reset()
    p = gen.project(rng, size=rng.choice(['s', 'm', 'm', 'l']), sctypes=(0, 0, 0, 0, 0, 1, 2, 3), content=lambda r: random_text(r) if r.random() < 0.4 else docs.scene_text(r, tilde=False)[0])
    d = ctx.dir()
    path = lib.put(os.path.join(d, 'novel.yw7'), gen.build_xml(c04.trim(p), rng))
    if rng.random() < 0.25:
        # a new project
        outline = rng.random() < 0.3
        data = c16.document(rng, c16.blocks(rng, outline), outline, {})
        with Watch(ctx) as watch:
            lib.put(os.path.join(d, 'new.odt'), data)
            o = lib.convert(os.path.join(d, 'new.odt'))
        if o.ok:
            ctx.event('new_project')
            path = os.path.join(d, 'new.yw7')
        report(ctx, watch, f'history/{i} new project')
    for r in range(rng.randint(2, 5)):
        before = lib.parse_file(path)
        ctx.evaluated((lib.get(path), r))
        label = f'history/{i}/{r}'
        with Watch(ctx) as watch:
            k = rng.random()
            if k < 0.35:
                f = lib.load(path)
                for __ in range(rng.randint(1, 3)):
                    for sid in list(f.novel.scenes):
                        if rng.random() < 0.5:
                            f.novel.scenes[sid].sceneContent = random_text(rng)
                    f.write()
            elif k < 0.5:
                rows = scenelist(ctx, path, label)
                if rows is not None:
                    compare_list(ctx, before, rows, label)
                    lib.convert(docs.doc_path(path, '_scenelist'))
                    ctx.event('import')
            else:
                kind = rng.choice(['_manuscript', '_manuscript', '_proof', '_notes', '_todo', '_scenes'])
                o = lib.convert(path, kind)
                if o.ok:
                    doc = docs.doc_path(path, kind)
                    pkg = docs.package(ctx, lib.get(doc), label, project=lib.get(path))
                    if kind != '_scenes' and pkg:
                        inside = sorted(c10.expected(before, kind))
                        texts = {sid: c15.with_headings(rng) if rng.random() < 0.4 else docs.scene_text(rng, tilde=False)[0] for sid in rng.sample(inside, min(len(inside), 3))}
                        lib.put(doc, writer.set_texts(lib.get(doc), kind, texts, rng))
                    lib.convert(doc)
                    ctx.event('import')
        report(ctx, watch, label)
        saved_counts(ctx, path, label)
        rows = scenelist(ctx, path, label)
        if rows is not None:
            compare_list(ctx, lib.parse_file(path), rows, label)
    ctx.drop(d)


def report(ctx, watch, label):
    if watch.bad:
        ctx.violation(f'{label}: {watch.bad[:2]}')
        watch.bad = []


def scenelist(ctx, path, label):
    data = docs.export(ctx, path, '_scenelist', label)
    if data is None:
        return None
    pkg = docs.package(ctx, data, label)
    return pkg and pkg.rows()


def compare_list(ctx, p, rows, label):
    want = docs.expected_rows(p, '_scenelist')
    have = rows[1:1 + len(want)]
    for w, h in zip(want, have):
        h = [str(c) for c in h] + [''] * 20
        ctx.event('list_row')
        if (h[10], h[15], h[16]) != (w[10], w[15], w[16]):
            ctx.violation(f'{label}: scene list {h[0]}: total, words, letters {(h[10], h[15], h[16])} instead of {(w[10], w[15], w[16])}')
            return
    if len(rows) < len(want) + 1:
        ctx.violation(f'{label}: scene list with {len(rows)} rows instead of {len(want) + 1}')


def saved_counts(ctx, path, label):
    root = ref_yw7.root_of(lib.get(path))
    for s in root.iter('SCENE'):
        text = s.findtext('SceneContent') or ''
        for tag, n in zip(('WordCount', 'LetterCount'), wordcount.count(text)):
            e = s.find(tag)
            if e is not None:
                ctx.event('stored_count')
                if (e.text or '').strip() not in (str(n),):
                    ctx.violation(f'{label}: scene {s.findtext("ID")}: the file has {tag} {e.text} instead of {n}')
