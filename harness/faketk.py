"""A recording stand-in for tkinter: keeps the state of the widgets and the message boxes that are shown."""
import sys
import types


class Recorder:
    """Message boxes and file selection dialogs."""

    def __init__(self):
        self.boxes = []
        self.answer = True
        self.selection = ''
        self.roots = []
        self.widgets = []
        self.asked_file = 0


REC = Recorder()


class Options(dict):
    """Widget options; the short names are other names of the long ones."""
    LONG = {'bg': 'background', 'fg': 'foreground', 'bd': 'borderwidth'}

    def __init__(self, **kw):
        super().__init__()
        self.update(kw)

    def __setitem__(self, key, value):
        super().__setitem__(self.LONG.get(key, key), value)

    def __getitem__(self, key):
        return super().__getitem__(self.LONG.get(key, key))

    def get(self, key, default=None):
        return super().get(self.LONG.get(key, key), default)

    def update(self, more):
        for k, v in more.items():
            self[k] = v


class Widget:

    def __init__(self, master=None, cnf=None, **kw):
        kw = dict(cnf or {}, **kw)
        self.master = master
        self.options = Options(background='grey')
        self.options.update(kw)
        self.bindings = {}
        self.entries = []
        self.packed = False
        REC.widgets.append(self)

    def config(self, cnf=None, **kw):
        self.options.update(dict(cnf or {}, **kw))

    configure = config

    def cget(self, key):
        return self.options.get(key)

    def __setitem__(self, key, value):
        self.options[key] = value

    def __getitem__(self, key):
        return self.options.get(key)

    def pack(self, cnf=None, **kw):
        self.packed = True

    pack_configure = place = place_configure = pack

    def bind(self, event, command, add=None):
        self.bindings[event] = command

    bind_all = bind

    def title(self, text=None):
        if text is not None:
            self.options['title'] = text
        return self.options.get('title')

    wm_title = title

    def add_cascade(self, cnf=None, **kw):
        self.entries.append(dict(cnf or {}, **kw))

    add_command = add_cascade

    def add_separator(self, cnf=None, **kw):
        self.entries.append(dict(kw, label=None))

    def add(self, kind, cnf=None, **kw):
        self.add_cascade(cnf, **kw)

    def entryconfig(self, label, cnf=None, **kw):
        for i, e in enumerate(self.entries):
            if label in (i, e.get('label')) or label == 'end' and i == len(self.entries) - 1:
                e.update(cnf or {}, **kw)
                return
        raise ValueError(f'bad menu entry index "{label}"')

    entryconfigure = entryconfig

    def entry(self, label):
        return next(e for e in self.entries if e.get('label') == label)

    def winfo_geometry(self):
        return self.options.get('geometry') or '200x100+1+1'

    def geometry(self, value=None):
        if value is not None:
            self.options['geometry'] = value
        return self.winfo_geometry()

    wm_geometry = geometry

    def protocol(self, name, command):
        self.bindings[name] = command

    wm_protocol = protocol

    def withdraw(self):
        self.options['withdrawn'] = True

    wm_withdraw = withdraw

    def quit(self):
        self.options['quit'] = True

    def mainloop(self):
        self.options['mainloop'] = True

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


    def iconphoto(self, default, *images):
        self.options['icon'] = (default, *images)

    wm_iconphoto = iconphoto

    def grid(self, cnf=None, **kw):
        self.packed = True
        self.options['grid'] = kw

    grid_configure = grid

    def set(self, *a):
        self.options['set'] = a


class PhotoImage(Widget):

    def __init__(self, file=None, **kw):
        with open(file, 'rb') as f:
            if not f.read().startswith(b'\x89PNG'):
                raise RuntimeError(f'couldn\'t recognize data in image file "{file}"')
        super().__init__(file=file, **kw)


class Text(Widget):

    def __init__(self, master=None, cnf=None, **kw):
        super().__init__(master, None, **dict(dict(font='TkFixedFont'), **dict(cnf or {}, **kw)))
        self.tags = {}
        self.inserted = []

    def tag_configure(self, name, **kw):
        self.tags.setdefault(name, {}).update(kw)

    tag_config = tag_configure

    def insert(self, index, text, *tags):
        self.inserted.append((index, text, tags))

    def yview(self, *a):
        self.options['view'] = a


class Font:

    def __init__(self, root=None, font=None, **kw):
        if font is not None:
            kw = dict(font.options, **kw)
        self.options = dict(dict(family='Courier', size=10, weight='normal', slant='roman', underline=0, overstrike=0), **kw)

    def configure(self, **kw):
        self.options.update(kw)
        return None if kw else dict(self.options)

    config = configure

    def __setitem__(self, key, value):
        self.options[key] = value

    def __getitem__(self, key):
        return self.options[key]

    def copy(self):
        return Font(**self.options)

    def cget(self, key):
        return self.options[key]

    def actual(self, option=None):
        return dict(self.options) if option is None else self.options[option]

    def measure(self, text):
        return 7 * len(text)


class Tk(Widget):

    def __init__(self, *a, **kw):
        super().__init__(**kw)
        REC.roots.append(self)


def box(kind):
    def show(title=None, message=None, **kw):
        REC.boxes.append((kind, title, message))
        return REC.answer if kind.startswith('ask') else 'ok'
    return show


def install():
    """Replace tkinter before the library imports it."""
    if getattr(sys.modules.get('tkinter'), 'faked', False):
        return
    tk = types.ModuleType('tkinter')
    tk.faked = True
    tk.__path__ = []
    for n in ('Label', 'Button', 'Frame', 'Menu', 'Text', 'Toplevel', 'Scrollbar', 'Pack', 'Grid', 'Place', 'Entry', 'PhotoImage'):
        setattr(tk, n, type(n, (Widget,), {}))
    tk.Tk, tk.Text, tk.PhotoImage = Tk, Text, PhotoImage
    for n in ('Pack', 'Grid', 'Place'):
        m = n.lower()
        setattr(tk, n, type(n, (), {m: None, m + '_configure': None, m + '_forget': None, m + '_info': None, 'config': None, 'configure': None}))
    for n, v in dict(END='end', LEFT='left', RIGHT='right', BOTH='both', X='x', Y='y', W='w').items():
        setattr(tk, n, v)
    mb = types.ModuleType('tkinter.messagebox')
    for n in ('askyesno', 'askokcancel', 'askyesnocancel', 'askquestion', 'showerror', 'showinfo', 'showwarning'):
        setattr(mb, n, box(n))
    fd = types.ModuleType('tkinter.filedialog')

    def askopenfilename(**kw):
        REC.asked_file += 1
        REC.dialog = kw
        return REC.selection
    fd.askopenfilename = askopenfilename
    ttk = types.ModuleType('tkinter.ttk')
    for n in ('Label', 'Button', 'Frame', 'Scrollbar', 'Entry'):
        setattr(ttk, n, type(n, (Widget,), {}))
    font = types.ModuleType('tkinter.font')
    named = {}
    font.Font = Font
    font.nametofont = lambda name, root=None: named.setdefault(name, Font())
    font.named = named
    tk.messagebox, tk.filedialog, tk.ttk, tk.font = mb, fd, ttk, font
    sys.modules.update({'tkinter': tk, 'tkinter.messagebox': mb, 'tkinter.filedialog': fd, 'tkinter.ttk': ttk, 'tkinter.font': font})
