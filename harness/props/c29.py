"""C29: user interfaces show every report completely and pass on the answer."""
import builtins
import contextlib
import io
import os
import types

import docs
import faketk
import gen
import lib
from props import c04

LEVEL = 'exploration'
RULE = ('Real conversions (exports, imports, imports that split scenes, failures, declined and accepted overwrites) and random messages are sent through each user interface; the messages, questions and answers at the boundary of the '
        'converter are compared with what the console, the message boxes and the labels show. The main window goes through random sequences of opening, closing, reports and status changes against a model. '
        'Distinct by user interface and request.')
ASSUMPTIONS = ['The widget toolkit is replaced by a recording stand-in, because there is no display.', 'At the console, y or Y means yes; n, no, or nothing means no.']

HOSTILE = ['', 'File written: "novel.odt".', 'a!b', '100 %', '{0}', '$x', 'ä 漢 😀', 'two\nlines', '"!"', "it's", 'x' * 300, '\\n', 'FAIL', 'File not found: "a!.yw7".', 'Wow!', '%s %d']
FILES = ['novel', 'No! more', 'a!', 'x {0} y', "it's", 'ä 漢', '100 %s', 'My $HOME', 'a & b', '!novel', 'FAIL', '(1)']


def tee(cls):
    class Tee(cls):
        """The user interface, recording what it is told and what it answers."""
        log = None

        def set_info_how(self, message):
            self.log.append(('how', message))
            super().set_info_how(message)

        def set_info_what(self, message):
            self.log.append(('what', message))
            super().set_info_what(message)

        def show_warning(self, message, *args):
            self.log.append(('warn', message))
            super().show_warning(message, *args)

        def ask_yes_no(self, text, *args):
            answer = super().ask_yes_no(text, *args)
            self.log.append(('ask', text, answer))
            return answer

    return Tee


class Screen:
    """What a user sees while something happens."""

    def __init__(self, ui=None):
        self.ui = ui
        self.out = ''

    @contextlib.contextmanager
    def watch(self, typed):
        buffer = io.StringIO()
        prompts = self.prompts = []

        def fake_input(prompt=''):
            prompts.append(str(prompt))
            buffer.write(str(prompt))
            return typed

        faketk.REC.boxes.clear()
        real = builtins.input
        builtins.input = fake_input
        try:
            with contextlib.redirect_stdout(buffer), contextlib.redirect_stderr(buffer):
                yield self
        finally:
            builtins.input = real
        self.out = buffer.getvalue()
        self.boxes = list(faketk.REC.boxes)

    def texts(self):
        """All that is visible: console output, message boxes, labels, and the buffers of the silent mode."""
        out = [self.out] + [str(b[2]) for b in self.boxes]
        out += [str(w.cget('text')) for w in self.labels()]
        if type(self.ui).__mro__[1].__name__ == 'Ui':
            out += [self.ui.infoWhatText, self.ui.infoHowText]
        return out

    def labels(self):
        return [w for w in faketk.REC.widgets if isinstance(w, faketk.sys.modules['tkinter'].Label) and w.packed and w.cget('text')]

    def shows(self, text):
        return any(text in t for t in self.texts())

    def look(self, text):
        """How a text is displayed, without the text itself."""
        out = []
        for line in self.texts()[:1] + ([self.ui.infoHowText] if type(self.ui).__mro__[1].__name__ == 'Ui' else []):
            k = line.rfind(text)
            out.append(line[:k].split('\n')[-1] if k >= 0 else None)
        out += [b[0] for b in self.boxes if b[2] == text]
        out += [(w.cget('bg'), w.options.get('bg'), w.options.get('fg')) for w in self.labels() if w.cget('text') == text]
        return tuple(map(str, out))


def icon(ctx, rng, label):
    """Icons of windows: the image that is asked for, from the folder of the program unless another is given; a missing one is reported."""
    from pywriter.ui.set_icon_tk import set_icon
    import tkinter as tk
    d = ctx.dir()
    cwd, argv = os.getcwd(), faketk.sys.argv
    program = os.path.join(d, rng.choice(['bin', 'my programs', 'größe']))
    own = os.path.join(d, 'own')
    names = ['logo', 'wLogo32', 'a.b', 'my icon']
    good = set()
    for folder in (os.path.join(program, 'icons'), own):
        os.makedirs(folder)
        for n in names:
            k = rng.random()
            if k < 0.6:
                good.add(lib.put(os.path.join(folder, n + '.png'), b'\x89PNG\r\n\x1a\n'))
            elif k < 0.8:
                lib.put(os.path.join(folder, n + '.png'), rng.choice([b'', b'GIF89a']))
    lib.put(os.path.join(program, 'main.py'), b'')
    w = tk.Toplevel()
    try:
        kw = {}
        name = 'logo'
        folder = os.path.join(program, 'icons')
        if rng.random() < 0.7:
            name = kw['icon'] = rng.choice(names)
        if rng.random() < 0.4:
            folder = kw['path'] = own
        if rng.random() < 0.5:
            kw['default'] = rng.random() < 0.5
        if rng.random() < 0.3:
            os.chdir(program)
            faketk.sys.argv = [rng.choice(['main.py', './main.py'])]
        else:
            faketk.sys.argv = [os.path.join(program, 'main.py')]
        try:
            done = set_icon(w, **kw)
        except Exception as ex:
            done = repr(ex)
        expected = os.path.join(folder, name + '.png')
        got = w.options.get('icon')
        if expected in good:
            ctx.event('icon_set')
            ok = done is True and got and got[0] == kw.get('default', True) and len(got) == 2 and os.path.realpath(got[1].cget('file')) == os.path.realpath(expected)
        else:
            ctx.event('icon_missing')
            ok = done is False and got is None
        if not ok:
            ctx.violation(f'{label}: {kw} in {faketk.sys.argv}, icon {expected if expected in good else None}: returns {done}, the window has {got and (got[0], got[1].options)}')
        ctx.evaluated((label, str(kw)), True)
    finally:
        os.chdir(cwd)
        faketk.sys.argv = argv
        ctx.drop(d)


def rich_text(ctx, rng, label):
    """The text box: its scroll bar, its formats, its place in the window."""
    from pywriter.ui.rich_text_tk import RichTextTk
    import tkinter as tk
    tk.font.named.clear()
    font = rng.choice(['TkFixedFont', 'TkTextFont'])
    f = tk.font.nametofont(font)
    f.configure(size=rng.choice([8, 10, 12, 20]), family=rng.choice(['Courier', 'Times']))
    before = f.configure()
    root = tk.Tk()
    kw = dict(font=font, height=rng.randint(1, 50), wrap=rng.choice(['word', 'none']))
    try:
        box = RichTextTk(root, **kw)
        bad = [f'{k} is {box.cget(k)} instead of {v}' for k, v in kw.items() if box.cget(k) != v]
        if f.configure() != before:
            bad.append(f'the font of the program is changed: {f.configure()}')
        if not box.frame.master is root or not box.vbar.master is box.frame or not box.packed or not box.vbar.packed:
            bad.append('the box or its scroll bar is not in the frame')
        box.vbar['command']('moveto', 0.5)
        box.cget('yscrollcommand')(0.1, 0.9)
        if box.options.get('view') != ('moveto', 0.5) or box.vbar.options.get('set') != (0.1, 0.9):
            bad.append('box and scroll bar do not follow each other')
        box.frame.packed = False
        box.pack(side='left')
        if not box.frame.packed:
            bad.append('packing the box does not pack its frame')

        def look(tag):
            t = box.tags.get(tag, {})
            o = t['font'].configure() if 'font' in t else before
            return o['weight'] == 'bold', o['slant'] == 'italic', o['size'], t.get('justify'), o['family']

        size, family = before['size'], before['family']
        for tag, want in ((box.BOLD_TAG, (True, False, size, None, family)), (box.ITALIC_TAG, (False, True, size, None, family)),
                          (box.H1_TAG, (True, False, int(size * box.H1_SIZE), 'center', family)), (box.H2_TAG, (True, False, int(size * box.H2_SIZE), 'center', family)),
                          (box.H3_TAG, (False, True, int(size * box.H3_SIZE), 'center', family)), (box.CENTER_TAG, (False, False, size, 'center', family))):
            if tag not in box.tags or look(tag) != want:
                bad.append(f'{tag} is shown {look(tag)} instead of {want}')
        if not box.tags[box.BULLET_TAG]['lmargin1'] < box.tags[box.BULLET_TAG]['lmargin2']:
            bad.append(f'lists are indented {box.tags[box.BULLET_TAG]}')
        text = rng.choice(HOSTILE)
        at = rng.choice(['end', '1.0'])
        box.insert_bullet(at, text)
        if box.inserted != [(at, f'\u2022 {text}', (box.BULLET_TAG,))]:
            bad.append(f'the list item {text!r} is inserted as {box.inserted}')
    except Exception as ex:
        bad = [repr(ex)]
    if bad:
        ctx.violation(f'{label}: {bad[:4]}')
    ctx.event('text_box')
    ctx.evaluated((label, str(kw)), True)


def run(ctx):
    faketk.install()
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.ui.ui import Ui
    from pywriter.ui.ui_cmd import UiCmd
    from pywriter.ui.ui_mb import UiMb
    from pywriter.ui.ui_tk import UiTk
    from pywriter.ui.main_tk import MainTk
    classes = [Ui, UiCmd, UiMb, UiTk, MainTk]
    for i, rng in ctx.cases('interfaces', 75, 900):
        gen.reset()
        cls = classes[i % 5]
        faketk.REC.widgets.clear()
        screen = Screen()
        with screen.watch(''):
            ui = tee(cls)('Title of the program')
        ui.log = []
        screen.ui = ui
        d = ctx.dir()
        base = rng.choice(FILES)
        p = c04.trim(gen.project(rng, size='s', content=lambda r: docs.scene_text(r, tilde=False)[0]))
        if not p['scenes']:
            p['scenes']['801'] = gen.scene(rng, gen.ALL, [], [], [], types=(0,))
            p['scenes']['801'].update(content='text')
            list(p['chapters'].values())[0]['scenes'].append('801')
        split = rng.random() < 0.5
        if split:
            for s in p['scenes'].values():
                s['content'] = f'{s["content"] or ""}\n### New\nmore'
        path = lib.put(os.path.join(d, base + '.yw7'), gen.build_xml(p, rng))
        converter = Yw7Converter()
        converter.ui = ui
        looks = {True: set(), False: set()}
        for r in range(10):
            answer = cls is Ui or rng.random() < 0.7
            typed = rng.choice('yY') if answer else rng.choice(['n', 'N', '', 'no'])
            faketk.REC.answer = answer
            ui.log.clear()
            k = rng.random()
            before = lib.snapshot(d)
            source, suffix = path, rng.choice(docs.KINDS)
            if k < 0.5:
                pass
            elif k < 0.7:
                there = [x for x in docs.IMPORTABLE if os.path.isfile(docs.doc_path(path, x))]
                source, suffix = (docs.doc_path(path, rng.choice(there)) if there else os.path.join(d, base + '_proof.odt')), None
            elif k < 0.75:
                source = os.path.join(d, base + ' missing!.yw7')
            elif k < 0.8:
                suffix = '_nothing'
            else:
                source = None
            label = f'interfaces/{i} {cls.__name__} {r} {source and os.path.basename(source)!r} {suffix} {typed!r}'
            with screen.watch(typed):
                if source is not None:
                    converter.run(source, suffix=suffix)
                elif rng.random() < 0.8:
                    ui.set_info_how(rng.choice(['', '', '!', '!']) + rng.choice(HOSTILE))
                else:
                    ui.show_warning(rng.choice(HOSTILE))
            ctx.evaluated((cls.__name__, ui.log), bool(ui.log))
            check(ctx, screen, ui, cls, looks, answer, label)
            asked = [x for x in ui.log if x[0] == 'ask']
            if source is not None and asked:
                ctx.event('question')
                target = docs.doc_path(path, suffix) if source == path else path
                if len(asked) != 1 or os.path.normpath(target) not in asked[0][1]:
                    ctx.violation(f'{label}: the questions are {asked} for {target}')
                changed = lib.snapshot(d) != before
                if not answer and changed:
                    ctx.violation(f'{label}: answered with no, but something was written')
                if answer and converter.newFile is None:
                    ctx.violation(f'{label}: answered with yes, but nothing was written: {ui.log}')
            if source is not None and split and converter.newFile == path and source.endswith(('_manuscript.odt', '_proof.odt')):
                # the first import splits scenes
                ctx.event('split')
        if looks[True] & looks[False]:
            ctx.violation(f'interfaces/{i} {cls.__name__}: failures look like successes: {looks}')
        if looks[True] and looks[False]:
            ctx.event('both_looks')
        ctx.drop(d)
    for i, rng in ctx.cases('frame', 50, 300):
        frame(ctx, i, rng, classes[i % 5], Screen())
    for i, rng in ctx.cases('window', 40, 600):
        window(ctx, i, rng, MainTk)
    ctx.require('report', 300)
    ctx.require('question', 30)
    ctx.require('warning', 20)
    ctx.require('both_looks', 30)
    ctx.require('opened', 60)
    ctx.require('not_opened', 40)
    ctx.require('restored', 40)
    ctx.require('by_key_or_menu', 40)
    ctx.require('message_box', 100)
    for i, rng in ctx.cases('icons', 40, 400):
        icon(ctx, rng, f'icons/{i}')
    for i, rng in ctx.cases('text', 20, 200):
        rich_text(ctx, rng, f'text/{i}')
    ctx.require('icon_set', 10)
    ctx.require('icon_missing', 10)
    ctx.require('text_box', 15)
    ctx.require('frame', 40)


def frame(ctx, i, rng, cls, screen):
    """What belongs to a user interface besides the reports."""
    from pywriter.pywriter_globals import _
    name = cls.__name__
    faketk.REC.widgets.clear()
    faketk.REC.roots.clear()
    title = rng.choice(HOSTILE)
    calls = []
    with screen.watch(''):
        ui = cls(title)
        root = faketk.REC.roots[-1] if faketk.REC.roots else None
        if name == 'UiTk':
            ui.show_open_button(lambda: calls.append('open'))
        ui.start()
    label = f'frame/{i} {name} {title!r}'
    if name in ('UiTk', 'MainTk'):
        if root is None or root.title() != title or not root.options.get('mainloop') or root.options.get('withdrawn'):
            ctx.violation(f'{label}: the window is {root and root.options}')
    elif root is not None and (not root.options.get('withdrawn') or root.options.get('mainloop')):
        ctx.violation(f'{label}: an empty window is shown: {root.options}')
    if name == 'UiTk':
        buttons = {w.cget('text'): w for w in faketk.REC.widgets if type(w).__name__ == 'Button' and w.packed}
        if set(buttons) != {_('Open'), _('Quit')}:
            ctx.violation(f'{label}: the buttons are {list(buttons)}')
        else:
            buttons[_('Open')].cget('command')()
            if calls != ['open']:
                ctx.violation(f'{label}: the button opens {calls}')
            stdin = faketk.sys.stdin
            faketk.sys.stdin = io.StringIO()
            # quitting closes the standard input
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    buttons[_('Quit')].cget('command')()
            except SystemExit:
                pass
            else:
                if not root.options.get('quit'):
                    ctx.violation(f'{label}: the button does not quit the program')
            finally:
                faketk.sys.stdin = stdin
    if name == 'UiMb':
        with screen.watch(''):
            ui.set_info_how('x'), ui.set_info_how('!x'), ui.show_warning('x'), ui.ask_yes_no('x')
        if [b[1] for b in faketk.REC.boxes] != [title] * 4 or [b[0] for b in faketk.REC.boxes] != ['showinfo', 'showerror', 'showwarning', 'askyesno']:
            ctx.violation(f'{label}: the boxes are {faketk.REC.boxes}')
    ctx.event('frame')
    ctx.evaluated((name, title))


def check(ctx, screen, ui, cls, looks, answer, label):
    for n, entry in enumerate(ui.log):
        kind, text = entry[:2]
        if kind == 'how':
            ctx.event('report')
            failed = text.startswith('!')
            shown = text[1:].strip() if failed else text
            if cls.__name__ == 'Ui' and not failed and ui.infoHowText != text:
                ctx.violation(f'{label}: {ui.infoHowText!r} instead of {text!r}')
            if not screen.shows(shown):
                ctx.violation(f'{label}: the report {text!r} is not shown: {screen.texts()} {screen.boxes}')
            if failed and text.strip() != '!' and not shown.startswith('!') and screen.shows(text):
                ctx.violation(f'{label}: the error marker is shown: {screen.texts()}')
            if len(shown) > 4 and sum(1 for x in ui.log if x[0] == 'how') == 1:
                look = screen.look(shown)
                looks[not failed].add(look)
            if n != len(ui.log) - 1:
                ctx.violation(f'{label}: something happens after the report: {ui.log}')
        elif kind == 'what':
            if cls.__name__ in ('UiCmd', 'UiTk') and not screen.shows(text):
                ctx.violation(f'{label}: {text!r} is not shown: {screen.texts()}')
            if ui.__class__.__mro__[1].__name__ == 'Ui' and ui.infoWhatText != text:
                ctx.violation(f'{label}: {ui.infoWhatText!r} instead of {text!r}')
        elif kind == 'warn':
            ctx.event('warning')
            if cls.__name__ == 'Ui':
                continue
            if not screen.shows(text):
                ctx.violation(f'{label}: the warning {text!r} is not shown: {screen.texts()}')
            if screen.boxes and not any(b[0] == 'showwarning' and b[2] == text for b in screen.boxes):
                ctx.violation(f'{label}: the warning {text!r} is no warning box: {screen.boxes}')
        elif kind == 'ask':
            if cls.__name__ == 'Ui':
                if entry[2] is not True:
                    ctx.violation(f'{label}: the silent mode answers {entry[2]!r}')
                continue
            if not screen.shows(text):
                ctx.violation(f'{label}: the question {text!r} is not shown: {screen.texts()}')
            if bool(entry[2]) != answer:
                ctx.violation(f'{label}: {entry[2]!r} instead of the answer {answer}')


def window(ctx, i, rng, MainTk):
    """Sequences of opening and closing projects in the main window."""
    from pywriter.pywriter_globals import _
    gen.reset()
    d = ctx.dir()
    files = {}
    for n in rng.sample(FILES, 3):
        p = gen.project(rng, size='s')
        p['title'] = rng.choice([None, '', 'Title ' + gen.uid(), gen.line(rng, gen.ALL)])
        p['author'] = rng.choice([None, '', 'Author ' + gen.uid(), gen.line(rng, gen.ALL)])
        path = lib.put(os.path.join(d, n + '.yw7'), gen.build_xml(p, rng))
        files[path] = lib.parse_file(path)
    bad = lib.put(os.path.join(d, 'bad.yw7'), rng.choice([b'', b'<YWRITER7>', b'\xff\xfe<', b'text']))
    locked = lib.put(os.path.join(d, 'locked.yw7'), lib.get(list(files)[0]))
    lib.put(locked + '.lock', b'')
    missing = os.path.join(d, 'missing.yw7')
    faketk.REC.widgets.clear()
    kwargs = rng.choice([{}, dict(root_geometry='300x200+5+6'), dict(yw_last_open=list(files)[0])])
    app = MainTk('App', **kwargs)
    start = kwargs.get('root_geometry')
    if app.root.options.get('geometry') != start or app.root.title() != 'App' or app.root.options.get('menu') is not app.mainMenu:
        ctx.violation(f'window/{i}: started with {kwargs}, the window has {app.root.options}')
    if not all(w.packed for w in (app.statusBar, app.pathBar, app.mainWindow)):
        ctx.violation(f'window/{i}: not all parts of the window are displayed')
    if not any(e.get('menu') is app.fileMenu and e.get('label') == _('File') for e in app.mainMenu.entries):
        ctx.violation(f'window/{i}: the menu has no file entry')
    app.start()
    if not app.root.options.get('mainloop'):
        ctx.violation(f'window/{i}: the window does not start')
    current, status, message = None, '', None
    last = kwargs.get('yw_last_open', '')

    def ways(op, call, labels=(), events=()):
        """All ways for the user to do the same thing."""
        out = [call] * 2
        for text in labels:
            out += [e['command'] for e in app.fileMenu.entries if e.get('label') == text]
        for widget, event in events:
            if event in widget.bindings:
                out.append(lambda b=widget.bindings[event]: b(types.SimpleNamespace()))
        if len(out) != 2 + len(labels) + len(events):
            ctx.violation(f'window/{i}: not all menu entries and keys for {op} are there: {app.fileMenu.entries} {app.root.bindings}')
        k = rng.randrange(len(out))
        if k > 1:
            ctx.event('by_key_or_menu')
        return out[k]
    for step in range(14):
        op = rng.choice(['open', 'open', 'open', 'open', 'close', 'status', 'report', 'restore', 'restore'])
        label = f'window/{i} step {step} {op}'
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            if op == 'open':
                target = rng.choice(list(files) + [bad, locked, missing, ''])
                faketk.REC.selection = rng.choice(list(files) + ['', '', bad])
                chosen = target if target not in (missing, '') else faketk.REC.selection
                label += f' {os.path.basename(target)!r} {os.path.basename(faketk.REC.selection)!r}'
                asked = faketk.REC.asked_file
                before = lib.snapshot(d)
                if target == '':
                    opener = ways(op, lambda: app.open_project(''), [_('Open...')], [(app.root, '<Control-o>')])
                else:
                    opener = lambda: app.open_project(target)
                faketk.REC.dialog = {}
                result = opener()
                if result is None and target == '':
                    # a key or a menu entry
                    result = app.prjFile is not None and faketk.REC.selection in files
                if faketk.REC.asked_file > asked:
                    kind = faketk.REC.dialog
                    if os.path.normpath(kind.get('initialdir') or '') != os.path.normpath(os.path.dirname(last) or '.') or '.yw7' not in str(kind.get('filetypes')):
                        ctx.violation(f'{label}: the last project was {last!r}, the dialog has {kind}')
                if chosen:
                    last = chosen
                if lib.snapshot(d) != before:
                    ctx.violation(f'{label}: opening changed files')
                if (faketk.REC.asked_file > asked) != (target in (missing, '')):
                    ctx.violation(f'{label}: the user was asked for a file {faketk.REC.asked_file - asked} times')
                if not chosen:
                    message = None
                    ctx.event('cancelled')
                    if result:
                        ctx.violation(f'{label}: nothing was selected, but the result is {result!r}')
                elif chosen in files:
                    if current is not None:
                        status = ''
                    current, message = chosen, None
                    ctx.event('opened')
                    if not result:
                        ctx.violation(f'{label}: the result is {result!r}')
                    have = [(s, x.sceneContent or '') for s, x in app.novel.scenes.items()]
                    if sorted(s for s, __ in have) != sorted(files[chosen]['scenes']):
                        ctx.violation(f'{label}: wrong scenes {have}')
                    if app.kwargs.get('yw_last_open') != chosen:
                        ctx.violation(f'{label}: the last project is {app.kwargs.get("yw_last_open")!r}')
                else:
                    ctx.event('not_opened')
                    current, status, message = None, '', 'error'
                    if result:
                        ctx.violation(f'{label}: the result is {result!r}')
            elif op == 'close':
                ways(op, app.close_project, [_('Close')])()
                current, status, message = None, '', None
            elif op == 'status':
                status, message = rng.choice(HOSTILE), None
                app.show_status(status)
            elif op == 'report':
                text = rng.choice(HOSTILE)
                failed = rng.random() < 0.5
                app.set_info_how('!' * failed + text)
                message = (failed, text.strip() if failed else text)
            else:
                ways(op, app.restore_status, (), [(app.root, '<Escape>'), (app.statusBar, '<Button-1>')])()
                message = None
                ctx.event('restored')
        # compare the window with the model
        ctx.evaluated(('window', op, current is not None, status, message), True)
        bar = app.statusBar.cget('text')
        color = app.statusBar.options.get('bg')
        if message is None:
            if bar != status or color != app.root.cget('background'):
                ctx.violation(f'{label}: the status is {bar!r} ({color}) instead of {status!r}')
        elif message == 'error':
            if not bar or bar.startswith('!') or color != 'red':
                ctx.violation(f'{label}: the failure is shown as {bar!r} ({color})')
        elif bar != message[1] or color != ('red' if message[0] else 'green'):
            ctx.violation(f'{label}: the report {message} is shown as {bar!r} ({color})')
        title = app.root.title()
        state = app.fileMenu.entry(_('Close')).get('state')
        if current is None:
            if app.prjFile is not None or title != 'App' or app.pathBar.cget('text') or state != 'disabled':
                ctx.violation(f'{label}: no project, but {app.prjFile} {title!r} {app.pathBar.cget("text")!r} {state}')
        else:
            p = files[current]
            want = f'{p["title"] or "Untitled project"} by {p["author"] or "Unknown author"} - App'
            if app.prjFile is None or app.prjFile.filePath != current or title != want or app.pathBar.cget('text') != os.path.normpath(current) or state == 'disabled':
                ctx.violation(f'{label}: {current!r}, but {app.prjFile} {title!r} instead of {want!r}, {app.pathBar.cget("text")!r} {state}')
    for kind, call in (('showerror', app.show_error), ('showinfo', app.show_info), ('showwarning', app.show_warning), ('askyesno', app.ask_yes_no)):
        text, head = rng.choice(HOSTILE), rng.choice([None, 'Head', gen.uid()])
        faketk.REC.boxes.clear()
        faketk.REC.answer = rng.random() < 0.5
        result = call(text) if head is None else call(text, head) if rng.random() < 0.5 else call(text, title=head)
        if faketk.REC.boxes != [(kind, head or 'App', text)]:
            ctx.violation(f'window/{i} {kind} {head!r}: {text!r} is shown as {faketk.REC.boxes}')
        if kind == 'askyesno' and result is not faketk.REC.answer:
            ctx.violation(f'window/{i}: {result!r} instead of the answer {faketk.REC.answer}')
        ctx.event('message_box')
    app.root.geometry('123x45+6+7')
    ways('quit', app.on_quit, [_('Exit')], [(app.root, '<Control-q>'), (app.root, 'WM_DELETE_WINDOW')])()
    if app.kwargs.get('root_geometry') != '123x45+6+7' or not app.root.options.get('quit'):
        ctx.violation(f'window/{i}: closing keeps {app.kwargs}')
    ctx.drop(d)
