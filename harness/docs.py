"""The document kinds and helpers shared by the conversion checks."""
import os
import re

import gen
import lib
import ref_odf
import ref_yw7

ODT_KINDS = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations',
             '_xref', '_notes', '_todo']
ODS_KINDS = ['_charlist', '_loclist', '_itemlist', '_scenelist']
KINDS = ODT_KINDS + ODS_KINDS
IMPORTABLE = ['_proof', '_manuscript', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations', '_notes', '_todo'] + ODS_KINDS


def ext(kind):
    return '.ods' if kind in ODS_KINDS else '.odt'


def doc_path(path, kind):
    return os.path.splitext(path)[0] + kind + ext(kind)


def export(ctx, path, kind, label, which='Yw7Converter'):
    """Export; returns the bytes of the document, or None after reporting a violation."""
    o = lib.convert(path, kind, which=which)
    ctx.event('export')
    target = doc_path(path, kind)
    if not o.ok or o.new_file is None or not os.path.isfile(target):
        ctx.violation(f'{label}: export {kind or "(manuscript)"} failed: {o!r}', file=lib.get(path))
        return None
    return lib.get(target)


def import_doc(ctx, path, label, **replay):
    """Import the document at path; the outcome if it was accepted."""
    o = lib.convert(path)
    ctx.event('import')
    if not o.ok:
        ctx.violation(f'{label}: import of {os.path.basename(path)} failed: {o!r}', **replay)
        return None
    return o


def package(ctx, data, label, **replay):
    try:
        pkg = ref_odf.Package(data)
        pkg.root('content.xml')
        return pkg
    except ref_odf.BadPackage as ex:
        ctx.violation(f'{label}: {ex}', **replay)
        return None


# -- scene texts in the supported markup ---------------------------------------------------

WORD_HOSTILE = ['&', '<', '>', '"', "'", '&amp;', '&lt;', '<b>', ']]>', '<![CDATA[', '$Title', '${ID}', '$$', '%s', '{0}', '\\n', '\\1', '\\',
                '\u00e4\u00f6\u00fc', '\u2014', '\u2013', '\u201equoted\u201c', '\u6f22\u5b57', '\U0001f600', '\u05e9\u05dc', 'e\u0301', '\u2026',
                '|', ';', ',', '~', '@', '=', '*', '_', '--', '(', ')', '[', ']', '[x]', '[sic]', '[c. 1900]', '[he said]', '[/sic]', '[u', '/', 'a&b', 'x<y', '1/2', '10%', '&#65;', '&nbsp;', '</text:p>']


def inline(rng, hostile=WORD_HOSTILE, n=(1, 7), p=0.3):
    out = [rng.choice(hostile) if hostile and rng.random() < p else rng.choice(gen.WORDS) for __ in range(rng.randint(*n))]
    out.insert(rng.randint(0, len(out)), gen.uid())
    return ' '.join(out)


def ascii_tail(text):
    return re.sub(r'\s+', ' ', text).strip()


# -- independent reading of yWriter markup ---------------------------------------------------

class Para:
    """A paragraph of scene text: quotation flag, [(text, marks)], [(position, comment)]."""
    __slots__ = ('quote', 'runs', 'comments')

    def __init__(self):
        self.quote, self.runs, self.comments = False, [], []

    @property
    def text(self):
        return ''.join(t for t, __ in self.runs)

    def add(self, ch, marks):
        if self.runs and self.runs[-1][1] == marks:
            self.runs[-1] = (self.runs[-1][0] + ch, marks)
        else:
            self.runs.append((ch, marks))

    def key(self):
        return (self.quote, tuple(self.runs), tuple(self.comments))

    def __repr__(self):
        return f'{"> " if self.quote else ""}{[(t, sorted(m)) for t, m in self.runs]}{self.comments or ""}'


NONE = frozenset()
TAG = re.compile(r'\[(/?)(i|b|lang=[^][/*\n]*)\]')
PLAIN = re.compile(r'[^\[/\n]+')
DROPPED = re.compile(r'\[/*[hcrsu|]\d*\]')


def parse_markup(text, languages=None, quotes=True, dropped=True):
    """Interpret yWriter markup character by character: a list of Para."""
    out = []
    cur = Para()
    marks = frozenset()
    pos = 0
    text = text or ''
    start = True
    while pos < len(text):
        if start:
            start = False
            if quotes and text.startswith('> ', pos):
                cur.quote = True
                pos += 2
                continue
            if text.startswith('> ', pos):
                # a mark that is not formatted
                cur.add('>', NONE)
                cur.add(' ', NONE)
                pos += 2
                continue
        if text.startswith('/*', pos):
            end = text.find('*/', pos + 2)
            if end >= 0:
                cur.comments.append((len(cur.text), text[pos + 2:end]))
                pos = end + 2
                continue
        m = TAG.match(text, pos)
        if m and m.group(2).startswith('lang=') and languages is not None and m.group(2)[5:] not in languages:
            m = None
        if m:
            marks = marks - {m.group(2)} if m.group(1) else marks | {m.group(2)}
            pos = m.end()
            # an opening tag at the beginning of a quotation
            if quotes and not cur.quote and not cur.text and not m.group(1) and text.startswith('> ', pos):
                pass
            continue
        if dropped:
            m = DROPPED.match(text, pos)
            if m:
                pos = m.end()
                continue
        m = PLAIN.match(text, pos)
        if m:
            cur.add(m.group(), marks)
            pos = m.end()
            continue
        ch = text[pos]
        pos += 1
        if ch == '\n':
            out.append(cur)
            cur = Para()
            start = True
        else:
            cur.add(ch, marks)
    out.append(cur)
    return out


# -- what a document must contain ------------------------------------------------------------

class Exp:
    """An expected paragraph or heading."""
    __slots__ = ('level', 'sections', 'runs', 'comments', 'quote', 'links', 'tag', 'divider', 'plainstyle')

    def __init__(self, level, sections, runs, comments=(), quote=None, links=(), tag=None, divider=False):
        self.level, self.sections, self.comments, self.quote, self.links = level, sections, list(comments), quote, list(links)
        self.runs = [(t, m) for t, m in runs if t]
        self.tag = tag
        self.divider = divider

    @property
    def text(self):
        return ''.join(t for t, __ in self.runs)

    def __repr__(self):
        return f'<{"h%d" % self.level if self.level else "p"} {self.tag or ""} {self.sections} {[(t, sorted(m)) for t, m in self.runs]} {self.comments or ""}>'



def plain(text):
    return [(text, NONE)] if text else []


def lines_of(text, sections, tag):
    return [Exp(0, sections, plain(x), tag=tag) for x in (text or '').split('\n')]


def unquoted(path):
    import urllib.parse
    return urllib.parse.quote(path)


def languages_of(p):
    """All languages mentioned in the scene texts."""
    out = []
    for s in p['scenes'].values():
        for m in re.finditer(r'\[lang=([^][/*\n]*)\]', s['content'] or ''):
            if m.group(1) not in out:
                out.append(m.group(1))
    return out


def formatted(text, sections, tag, kind, langs):
    """Expected paragraphs of a scene text."""
    text = (text or '').rstrip()
    if kind == '':
        # raw code for other output formats is left out
        text = text.replace('<RTFBRK>', '')
        for code in ('HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg'):
            text = re.sub(rf'<{code} .+?/{code}>', '', text)
        text = text.rstrip()
    out = []
    for para in parse_markup(text, langs, quotes=kind != '_proof'):
        out.append(Exp(0, sections, para.runs, para.comments, quote=para.quote, tag=tag))
    return out


def chapter_is_hidden(p, c):
    """A chapter whose scenes all are marked 'do not export' is left out."""
    return bool(c['scenes']) and all(p['scenes'][s]['noexport'] for s in c['scenes'])


def scene_kind(p, c, sid):
    """Normal / notes / todo / unused / hidden / raw: which documents a scene belongs to."""
    s = p['scenes'][sid]
    if s['type'] == 2:
        return 'todo'
    if s['type'] == 1:
        return 'notes'
    if s['type'] == 3 or c['type'] == 3:
        return 'unused'
    if s['noexport'] or chapter_is_hidden(p, c):
        return 'hidden'
    if (s['content'] or '').startswith(('<HTML>', '<TEX>')):
        return 'raw'
    return 'normal'


def chapter_kind(p, c):
    if c['type'] == 2:
        return 'todo'
    if c['type'] == 1:
        return 'notes'
    if c['type'] == 3:
        return 'unused'
    if chapter_is_hidden(p, c):
        return 'hidden'
    return 'part' if c['level'] == 1 else 'chapter'


def expected(p, kind, name='novel'):
    """The paragraphs of a text document exported from project p (parsed by ref_yw7), in order."""
    langs = languages_of(p)
    out = [Exp(0, (), plain(p['title']), tag='doc-title'), Exp(0, (), plain(p['author']), tag='doc-author')]
    man = f'../{unquoted(name)}_manuscript.odt'
    if kind in ('', '_proof', '_manuscript', '_scenes', '_brf_synopsis', '_chapters', '_parts'):
        for cid, c in p['chapters'].items():
            ck = chapter_kind(p, c)
            sec = ()
            title = c['title'] or ''
            if ck in ('part', 'chapter'):
                level = 1 if ck == 'part' else 2
                link = []
                here = True
                if kind in ('_manuscript', '_scenes') or (kind == '_chapters' and ck == 'chapter') or (kind == '_parts' and ck == 'part'):
                    sec = (f'ChID:{cid}',)
                if kind in ('', '_manuscript', '_notes', '_todo') and c['suppress']:
                    title = ''
                if kind == '_scenes' and ck == 'chapter' or kind in ('_chapters', '_parts') and sec:
                    link = [f'{man}#ChID:{cid}%7Cregion']
                if kind == '_parts' and ck == 'chapter':
                    here = False
                if here:
                    out.append(Exp(level, sec, plain(title), links=link, tag=f'c{cid}'))
                if kind in ('_chapters', '_parts') and sec:
                    out.extend(lines_of(c['desc'], sec, f'c{cid}.desc'))
            if kind in ('_chapters', '_parts'):
                continue
            first = True
            for sid in c['scenes']:
                s = p['scenes'][sid]
                if scene_kind(p, c, sid) != 'normal':
                    continue
                if not (first or s['append']) and kind in ('', '_manuscript', '_scenes'):
                    out.append(Exp(0, sec, plain('* * *'), tag='divider', divider=True))
                first = False
                title = plain(s['title'])
                if kind == '_brf_synopsis':
                    out.append(Exp(0, sec, title, tag=f's{sid}.title'))
                    continue
                ssec = sec + (f'ScID:{sid}',) if kind in ('_manuscript', '_scenes') else sec
                if kind in ('_manuscript', '_scenes', '_proof'):
                    out.append(Exp(3, sec, title, tag=f's{sid}.title'))
                if kind == '_scenes':
                    out.extend(lines_of(s['desc'], ssec, f's{sid}.desc'))
                else:
                    if kind == '_proof':
                        out.append(Exp(0, sec, plain(f'[ScID:{sid}]'), tag=f'mark{sid}'))
                    out.extend(formatted(s['content'], ssec, f's{sid}.content', kind, langs))
                    if kind == '_proof':
                        out.append(Exp(0, sec, plain('[/ScID]'), tag=f'endmark{sid}'))
    elif kind in ('_notes', '_todo'):
        want = kind[1:]
        for cid, c in p['chapters'].items():
            sec = ()
            if chapter_kind(p, c) == want:
                sec = (f'ChID:{cid}',)
                out.append(Exp(1 if c['level'] == 1 else 2, sec, plain('' if c['suppress'] else c['title']), tag=f'c{cid}'))
            for sid in c['scenes']:
                if scene_kind(p, c, sid) == want:
                    s = p['scenes'][sid]
                    out.append(Exp(3, sec, plain(s['title']), tag=f's{sid}.title'))
                    out.extend(formatted(s['content'], sec + (f'ScID:{sid}',), f's{sid}.content', kind, langs))
    elif kind == '_characters':
        for i, e in p['characters'].items():
            head = e['title'] or ''
            if e['fullName']:
                head += '/' + e['fullName']
            if e['aka']:
                head += f' ("{e["aka"]}")'
            out.append(Exp(2, (), plain(head), tag=f'cr{i}'))
            for label, part, key in (('Description', 'desc', 'desc'), ('Bio', 'bio', 'bio'), ('Goals', 'goals', 'goals'),
                                     ('Notes', 'notes', 'notes')):
                sec = (f'CrID:{i}',)
                out.append(Exp(3, sec, plain(label), tag=f'cr{i}.{part}.label'))
                out.extend(lines_of(e[key], sec + (f'CrID_{part}:{i}',), f'cr{i}.{part}'))
    elif kind in ('_items', '_locations'):
        group, prefix = (('items', 'ItID'), ('locations', 'LcID'))[kind == '_locations']
        for i, e in p[group].items():
            head = e['title'] or ''
            if e['aka']:
                head += f' ("{e["aka"]}")'
            out.append(Exp(2, (), plain(head), tag=f'{group}{i}'))
            out.extend(lines_of(e['desc'], (f'{prefix}:{i}',), f'{group}{i}.desc'))
    else:
        raise ValueError(kind)
    return out


def expected_rows(p, kind):
    """The data rows of a list (without the header)."""
    def cell(t):
        return (t or '').rstrip()

    def taglist(t):
        return ', '.join(t or []).rstrip()

    rows = []
    if kind == '_charlist':
        for i, e in p['characters'].items():
            rows.append([f'CrID:{i}', cell(e['title']), cell(e['fullName']), cell(e['aka']), cell(e['desc']), cell(e['bio']),
                         cell(e['goals']), 'Major' if e['major'] else 'Minor', taglist(e['tags']), cell(e['notes'])])
    elif kind in ('_loclist', '_itemlist'):
        group, prefix = (('items', 'ItID'), ('locations', 'LcID'))[kind == '_loclist']
        for i, e in p[group].items():
            rows.append([f'{prefix}:{i}', cell(e['title']), cell(e['desc']), cell(e['aka']), taglist(e['tags'])])
    else:
        import wordcount
        n = words = 0
        for c in p['chapters'].values():
            for sid in c['scenes']:
                s = p['scenes'][sid]
                if scene_kind(p, c, sid) != 'normal':
                    continue
                n += 1
                w, letters = wordcount.count(s['content'])
                words += w
                row = [f'ScID:{sid}', cell(s['title']), cell(s['desc']), taglist(s['tags']), cell(s['notes']),
                       'R' if s['reaction'] else 'A', cell(s['goal']), cell(s['conflict']), cell(s['outcome']), str(n), str(words)]
                for k in '1234':
                    f = s['field' + k]
                    row.append('' if f in (None, '1') else cell(f))
                row += [str(w), str(letters), STATUS[s['status']] if s['status'] in range(6) else '']
                for group in ('characters', 'locations', 'items'):
                    row.append(', '.join(p[group][x]['title'] or '' for x in s[group] or []).rstrip())
                rows.append(row)
    return rows


STATUS = ['', 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done']
HEADERS = {
    '_charlist': ['ID', 'Name', 'Full name', 'Aka', 'Description', 'Bio', 'Goals', 'Importance', 'Tags', 'Notes'],
    '_loclist': ['ID', 'Name', 'Description', 'Aka', 'Tags'],
    '_itemlist': ['ID', 'Name', 'Description', 'Aka', 'Tags'],
}


def compare_blocks(blocks, exp, kind, texts=True):
    """First difference between document and expectation as a string, or None."""
    for n, (b, e) in enumerate(zip(blocks, exp)):
        where = f'paragraph {n} ({e.tag})'
        if (b.level if b.heading else 0) != e.level:
            return f'{where}: level {b.level if b.heading else 0} instead of {e.level}: {b!r} / {e!r}'
        if b.sections != e.sections:
            return f'{where}: in section {b.sections} instead of {e.sections}: {b!r} / {e!r}'
        if e.divider != (b.style == 'Heading_20_4'):
            return f'{where}: scene divider {b!r} / {e!r}'
        if not texts:
            # identify by the unique words only
            if UID.findall(b.text)[:1] != UID.findall(e.text)[:1]:
                return f'{where}: {b.text[:80]!r} instead of {e.text[:80]!r}'
            continue
        if b.runs() != e.runs:
            return f'{where}: text {b.runs()!r} instead of {e.runs!r}'
        if e.quote is not None and e.quote != (b.style == 'Quotations'):
            return f'{where}: quotation {b.style} / {e!r}'
        if kind == '':
            exp_comments = [(a, c) for a, c in e.comments if not NOTE_MARK.match(c)]
        else:
            exp_comments = e.comments
        if [(a, c) for a, c, __ in b.comments] != exp_comments:
            return f'{where}: comments {b.comments!r} instead of {exp_comments!r}'
        if e.links and b.links != e.links:
            return f'{where}: links {b.links!r} instead of {e.links!r}'
    if len(blocks) != len(exp):
        more = (blocks if len(blocks) > len(exp) else exp)[min(len(blocks), len(exp))]
        return f'{len(blocks)} paragraphs instead of {len(exp)}: {"surplus" if len(blocks) > len(exp) else "missing"} {more!r}'
    return None


UID = re.compile(r'q\d+z')
NOTE_MARK = re.compile(r' *@[ef]n\** ')

LANGS = ['de-DE', 'en-GB', 'fr-FR', 'es-ES', 'pt-BR', 'la', 'zh-TW']
MARK_CHOICES = [(), (), (), (), ('i',), ('i',), ('b',), ('i', 'b'), ('lang',), ('lang', 'i'), ('lang', 'b', 'i'), ('lang', 'lang')]


def comment_text(rng, multi=False, hostile=WORD_HOSTILE):
    h = [t for t in hostile if t not in ('~', '[', ']', '[x]', '*', '/', '1/2')]
    lines = [inline(rng, h, (0, 3)) for __ in range(rng.choice([2, 2, 3, 3, 8]) if multi else 1)]
    if multi and rng.random() < 0.3:
        lines.insert(1, '')
    if multi and rng.random() < 0.15:
        lines[1] = '#' * rng.randint(1, 3) + ' ' + lines[1]
    lines = [x.strip() for x in lines]
    if rng.random() < 0.25:
        # repeated blanks
        k = rng.randrange(len(lines))
        lines[k] = lines[k].replace(' ', rng.choice(['  ', '   ']), 1)
    return '\n'.join(lines)


def scene_text(rng, langs=LANGS, hostile=WORD_HOSTILE, paras=(1, 6), comments=True, quotes=True, blank=0.15, marks=True, notes=True, carry=0.3, tilde=True, cross=None):
    """A scene text with balanced markup; returns (yWriter text, [Para])."""
    if not tilde:
        hostile = [t for t in hostile if t != '~']
    if cross is None:
        cross = rng.random() < 0.3
    langs = rng.sample(langs, min(len(langs), 2)) if langs else []
    model = []
    out = []
    stack = []
    n = rng.randint(*paras)
    plan = []
    for k in range(n):
        if k and k < n - 1 and rng.random() < blank:
            plan.append(None)
        else:
            runs = []
            for __ in range(rng.choice([1, 1, 2, 3, 4])):
                m = rng.choice(MARK_CHOICES) if marks else ()
                m = tuple(f'lang={rng.choice(langs)}' if x == 'lang' else x for x in m if x != 'lang' or langs)
                runs.append((inline(rng, hostile, (0, 4)), m))
            plan.append(runs)
    for k, runs in enumerate(plan):
        para = Para()
        text = ''
        if runs is not None:
            if quotes and rng.random() < 0.12:
                para.quote = True
                text += '> '
            first = True
            carried = list(stack)
            for r, (t, want) in enumerate(runs):
                want = list(dict.fromkeys(want))
                if first and carried:
                    want = list(dict.fromkeys(carried + want))
                # close what is not wanted any more
                drop = [w for w in stack if w not in want]
                if not cross and drop:
                    # properly nested: close and reopen what is inside
                    drop = stack[stack.index(drop[0]):]
                    drop.reverse()
                else:
                    rng.shuffle(drop)
                for w in drop:
                    text += f'[/{w}]'
                    stack.remove(w)
                add = [w for w in want if w not in stack]
                rng.shuffle(add)
                for w in add:
                    text += f'[{w}]'
                    stack.append(w)
                glue = '' if first else ' '
                if not first and rng.random() < 0.15 and not t.startswith((']', '*', '/')):
                    glue = ''
                t = glue + t
                if first and not para.quote and t.startswith(('#', '> ', '>')):
                    t = gen.uid() + t
                if comments and rng.random() < 0.12:
                    c = comment_text(rng, multi=rng.random() < 0.3, hostile=hostile)
                    if notes and rng.random() < 0.3:
                        c = rng.choice(['@fn ', '@en ', '@fn* ']) + c
                    elif c.startswith('@'):
                        c = 'x' + c
                    cut = rng.choice([0, len(t), t.find(' ') + 1])
                    para_len = len(para.text)
                    marks_now = frozenset(stack)
                    for ch in t[:cut]:
                        para.add(ch, marks_now)
                    para.comments.append((len(para.text), c))
                    for ch in t[cut:]:
                        para.add(ch, marks_now)
                    text += t[:cut] + f'/*{c}*/' + t[cut:]
                    del para_len
                else:
                    for ch in t:
                        para.add(ch, frozenset(stack))
                    text += t
                first = False
        last = k == len(plan) - 1
        if last or rng.random() >= carry:
            while stack:
                w = stack[rng.randrange(len(stack)) if cross else -1]
                stack.remove(w)
                text += f'[/{w}]'
        model.append(para)
        out.append(text)
    text = '\n'.join(out)
    got = parse_markup(text)
    if [x.key() for x in got] != [x.key() for x in model]:
        raise RuntimeError(f'harness: markup model\n{text!r}\n{model}\n{got}')
    return text, model
