"""C17: documents only ever go back to their own project."""
import os

import docs
import gen
import lib
import ref_odf
import writer
from props import c04, c10

LEVEL = 'exploration'
RULE = ('Folders with several projects whose names contain the suffixes of documents, dots, blanks and non-ASCII characters, one inside another; documents of all kinds '
        'are exported, edited, renamed, copied between the folders and imported. Every byte below the working folder is compared before and after: only the project with the '
        'name of the document may change. Distinct by file tree and document.')
ASSUMPTIONS = ['The name of the own project is the document name without its suffix; a document without such a suffix creates a project of the same name, if there is none.']
NAMES = ['novel', 'novel_manuscript', 'novel_manuscript_manuscript', 'novel_notes', 'novel_proof', 'my novel', 'my', 'n\u00f6vel', 'novel.v2', 'novel_scenes', '_manuscript', 'novel_charlist',
         'manuscript', 'novel_scenelist', 'novel_characters_x', 'NOVEL', 'novel_xref', 'novel.yw7', 'novel_todo.old', 'a', '2', "author's novel & more", 'novel_itemlist_items', 'novel_xref.old', 'my_brf_synopsis_x', '[novel]', 'nove']
NOT_IMPORTED = ['_xref', '_brf_synopsis']


def suffix_of(name):
    """The import suffix of a file name, or None."""
    stem, ext = os.path.splitext(name)
    for kind in docs.IMPORTABLE:
        if stem.endswith(kind) and ext == docs.ext(kind):
            return kind
    return None


def expected(path):
    """('import', project), ('new', project) or ('refuse', None)"""
    name = os.path.basename(path)
    kind = suffix_of(name)
    stem, ext = os.path.splitext(path)
    if kind is not None:
        project = stem[:-len(kind)] + '.yw7'
        return ('import', project) if os.path.isfile(project) else ('refuse', None)
    if ext != '.odt' or any(stem.endswith(s) for s in NOT_IMPORTED):
        return 'refuse', None
    project = stem + '.yw7'
    return ('refuse', None) if os.path.isfile(project) else ('new', project)


def run(ctx):
    for i, rng in ctx.cases('names', 90, 1500):
        gen.reset()
        d = ctx.dir()
        folders = [d, os.path.join(d, rng.choice(['sub', 'novel', 'novel_manuscript', 'v1.0', 'my texts']))]
        os.mkdir(folders[1])
        paths = []
        for folder in folders:
            for name in rng.sample(NAMES, rng.randint(2, 5)):
                p = c04.trim(gen.project(rng, size='s', content=lambda r: docs.scene_text(r, paras=(1, 2), tilde=False, hostile=[])[0], chtypes=(0,), sctypes=(0, 0, 1, 2)))
                path = os.path.join(folder, name + '.yw7')
                lib.put(path, gen.build_xml(p, rng))
                paths.append(path)
        for r in range(6):
            label = f'names/{i} round {r}'
            own = [x for x in paths if os.path.isfile(x)]
            source = rng.choice(own)
            kind = rng.choice(docs.KINDS + ['', ''])
            before = lib.snapshot(d)
            data = docs.export(ctx, source, kind, label)
            if data is None:
                break
            doc = docs.doc_path(source, kind)
            after = lib.snapshot(d)
            rel = os.path.relpath(doc, d)
            if {k for k in before.keys() | after.keys() if before.get(k) != after.get(k)} - {rel, rel + '.bak'}:
                ctx.violation(f'{label}: export {kind} changed {sorted(k for k in before.keys() | after.keys() if before.get(k) != after.get(k))}')
            token = None
            if kind in ('_manuscript', '_proof', '_notes', '_todo'):
                inside = sorted(c10.expected(lib.parse_file(source), kind))
                if inside:
                    token = gen.uid()
                    sid = rng.choice(inside)
                    data = writer.set_texts(data, kind, {sid: f'edited {token}'}, rng)
            os.remove(doc)
            # where the document goes
            k = rng.random()
            if kind == '' and k < 0.4:
                target = os.path.join(rng.choice(folders), rng.choice(['my_xref_copy', 'the_xref.old', 'x_brf_synopsis_x', 'manuscript', 'x_proof_', 'a_notes.b', 'növel-2']) + '.odt')
            elif k < 0.55:
                target = doc
            elif k < 0.75:
                target = docs.doc_path(os.path.join(rng.choice(folders), rng.choice(NAMES) + '.yw7'), kind)
            elif k < 0.85:
                target = docs.doc_path(os.path.join(rng.choice(folders), os.path.basename(source)), kind)
            elif kind in ('', '_brf_synopsis') or k < 0.93:
                target = os.path.join(rng.choice(folders), rng.choice(NAMES) + rng.choice(['.odt', '.ods', '.txt', '.html', '_xref.odt', '_xref.ods', '_charlist.odt', '_manuscript.ods']))
            else:
                target = doc[:-4] + rng.choice([kind, '_manuscript', '_copy', '.1']) + doc[-4:]
            lib.put(target, data)
            what, project = expected(target)
            before = lib.snapshot(d)
            old = lib.parse_file(project) if what == 'import' else None
            o = lib.convert(target, which=rng.choice(['Yw7Converter', 'Yw7Importer']))
            after = lib.snapshot(d)
            changed = {k for k in before.keys() | after.keys() if before.get(k) != after.get(k)}
            ctx.evaluated((sorted(before), os.path.relpath(target, d), data), True)
            ctx.event(what)
            label += f' {os.path.relpath(target, d)!r} among {sorted(before)}'
            replay = dict(document=data, name=os.path.basename(target))
            if o.raised is not None:
                ctx.violation(f'{label}: {o!r}', **replay)
            if what == 'refuse':
                if o.ok or o.new_file or changed:
                    ctx.violation(f'{label}: should have been refused, but {o!r} changed {sorted(changed)}', **replay)
                continue
            rel = os.path.relpath(project, d)
            allowed = {rel, rel + '.bak'} if what == 'import' else {rel}
            if changed - allowed:
                ctx.violation(f'{label}: changed {sorted(changed - allowed)} instead of {rel}', **replay)
            if not o.ok:
                if what == 'new' and kind in ('', '_brf_synopsis'):
                    ctx.violation(f'{label}: no project was created: {o!r}', **replay)
                elif what == 'import' and os.path.relpath(target, d) == os.path.relpath(doc, d):
                    ctx.violation(f'{label}: {what} failed: {o!r}', **replay)
                elif changed:
                    ctx.violation(f'{label}: failed but changed {sorted(changed)}: {o!r}', **replay)
                # (a document of another project may be refused)
                continue
            if not os.path.isfile(project) or os.path.normpath(o.new_file or '') != os.path.normpath(project) or os.path.basename(project) not in o.message:
                ctx.violation(f'{label}: {project} was not reported: {o!r}', **replay)
                continue
            if what == 'import' and token and target == doc:
                ctx.event('edited_import')
                new = lib.parse_file(project)
                if token not in (new['scenes'][sid]['content'] or ''):
                    ctx.violation(f'{label}: the edited text of scene {sid} did not arrive in {rel}', **replay)
                rest = [s for s in old['scenes'] if s != sid and new['scenes'].get(s, {}).get('title') != old['scenes'][s]['title']]
                if rest or new['title'] != old['title']:
                    ctx.violation(f'{label}: {rel} became another project', **replay)
        ctx.drop(d)
    ctx.require('import', 60)
    ctx.require('refuse', 20)
    ctx.require('new', 5)
    ctx.require('edited_import', 20)
