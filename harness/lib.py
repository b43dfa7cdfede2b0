"""Thin access layer to the real library (public API only) and the file-system monitor."""
import os
import resource
import shutil
import signal
import sys
import threading

import ref_yw7


def new_file(path, cls=None):
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    f = (cls or Yw7File)(path)
    f.novel = Novel()
    return f


def load(path, cls=None):
    f = new_file(path, cls)
    f.read()
    return f


def put(path, data):
    if isinstance(data, str):
        data = data.encode('utf-8')
    with open(path, 'wb') as f:
        f.write(data)
    return path


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def parse_file(path):
    return ref_yw7.parse(get(path))


def snapshot(folder):
    """{relative path: bytes} of all files below folder."""
    out = {}
    for base, dirs, files in os.walk(folder):
        dirs.sort()
        for n in sorted(files):
            p = os.path.join(base, n)
            try:
                out[os.path.relpath(p, folder)] = get(p)
            except OSError:
                out[os.path.relpath(p, folder)] = None
    return out


# -- conversions ------------------------------------------------------------------------------

class RecordingUi:
    """Stands in for the user interface at the converter's boundary and records what it is told."""

    def __init__(self, answer=True):
        self.answer = answer
        self.log = []
        self.what = []
        self.how = []
        self.warnings = []
        self.questions = []

    def ask_yes_no(self, text):
        self.log.append(('ask', text))
        self.questions.append(text)
        return self.answer(text) if callable(self.answer) else self.answer

    def set_info_what(self, message):
        self.log.append(('what', message))
        self.what.append(message)

    def set_info_how(self, message):
        self.log.append(('how', message))
        self.how.append(message)

    def show_warning(self, message):
        self.log.append(('warn', message))
        self.warnings.append(message)

    def start(self):
        pass


class Outcome:

    def __init__(self, ui, converter, raised):
        self.ui = ui
        self.raised = raised
        self.new_file = converter.newFile
        self.message = ui.how[-1] if ui.how else None
        self.ok = raised is None and self.message is not None and not self.message.startswith('!')

    def __repr__(self):
        return f'<{self.message!r} new={self.new_file!r} raised={self.raised!r}>'


def convert(path, suffix=None, answer=True, which='Yw7Converter', catch=True):
    """Run the real converter on path, exactly as the application does."""
    if which == 'Yw7Converter':
        from pywriter.converter.yw7_converter import Yw7Converter as C
    elif which == 'Yw7Exporter':
        from pywriter.converter.yw7_exporter import Yw7Exporter as C
    else:
        from pywriter.converter.yw7_importer import Yw7Importer as C
    ui = RecordingUi(answer)
    c = C()
    c.ui = ui
    raised = None
    try:
        c.run(path, suffix=suffix)
    except Exception as ex:
        if not catch:
            raise
        raised = ex
    return Outcome(ui, c, raised)


# -- file-system monitor ----------------------------------------------------------------------

class FsMonitor:
    """Observes (and can disturb) file-system operations through the interpreter's audit events.

    Works below the library, so it sees any way the code chooses to touch files."""
    EVENTS = {'open', 'os.rename', 'os.remove', 'os.rmdir', 'os.mkdir', 'os.chdir', 'shutil.rmtree', 'shutil.copyfile',
              'shutil.move', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'shutil.copymode', 'os.utime',
              'os.startfile', 'subprocess.Popen', 'os.system', 'tempfile.mkdtemp', 'tempfile.mkstemp'}
    _installed = None

    def __init__(self):
        self.active = False
        self.trace = []
        self.fault = None
        self.thread = None

    @classmethod
    def get(cls):
        if cls._installed is None:
            cls._installed = cls()
            sys.addaudithook(cls._installed._hook)
        return cls._installed

    def _hook(self, event, args):
        if not self.active or event not in self.EVENTS or threading.get_ident() != self.thread:
            return
        op = self._classify(event, args)
        if op is None:
            return
        self.trace.append(op)
        if self.fault is not None:
            self.active = False
            try:
                self.fault(len(self.trace) - 1, op)
            finally:
                self.active = True

    @staticmethod
    def _classify(event, args):
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int):
                return None
            write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) if isinstance(flags, int) else False
            if mode and any(c in mode for c in 'wax+'):
                write = True
            if mode is None and not write:
                # the way folders are opened
                return ('opendir', _p(path))
            return ('write' if write else 'read', _p(path))
        if event == 'os.rename':
            return ('rename', _p(args[0]), _p(args[1]))
        if event in ('os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move'):
            return (event.split('.')[1], _p(args[0]), _p(args[1]))
        if event == 'subprocess.Popen' or event == 'os.system':
            return ('exec', repr(args[0]))
        if event.startswith('tempfile'):
            return ('mktemp', _p(args[0]))
        if event in ('os.remove', 'os.rmdir', 'os.mkdir') and isinstance(args[-1], int) and args[-1] >= 0:
            # The path is relative to an open folder.
            return (event.split('.')[1], os.path.join(os.readlink(f'/proc/self/fd/{args[-1]}'), os.fsdecode(args[0])))
        return (event.split('.')[1], _p(args[0]) if args else '')

    def __enter__(self):
        self.trace = []
        self.thread = threading.get_ident()
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False
        self.fault = None


class Faulty:
    """A context in which writing certain files fails: when they are opened, or after some bytes have been written.

    However the files are opened. Writing other files works."""

    def __init__(self, wanted, when, size=0):
        self.wanted, self.when, self.size = wanted, when, size
        self.hit = False

    def _fault(self, n, op):
        if op[0] != 'write':
            return
        if not self.wanted(op[1]):
            self._limit(None)
            return
        self.hit = True
        if self.when == 'open':
            raise PermissionError(13, 'injected', op[1])
        self._limit(self.size)

    def _limit(self, size):
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limits[0] if size is None else size, self.limits[1]))

    def __enter__(self):
        self.limits = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.monitor = FsMonitor.get()
        self.monitor.fault = self._fault
        self.monitor.__enter__()
        return self

    def __exit__(self, *exc):
        self.monitor.__exit__()
        self._limit(None)
        signal.signal(signal.SIGXFSZ, self.handler)


def _p(path):
    try:
        return os.path.abspath(os.fsdecode(path))
    except TypeError:
        return str(path)


def rm(path):
    shutil.rmtree(path, ignore_errors=True)
