"""Runs the conversions of a job in a process of its own: envworker.py <src folder> <job file> <result file>"""
import json
import os
import random
import sys
import time


class Ui:

    def __init__(self):
        self.log = []

    def ask_yes_no(self, text):
        self.log.append(['ask', text])
        return True

    def set_info_what(self, message):
        self.log.append(['what', message])

    def set_info_how(self, message):
        self.log.append(['how', message])

    def show_warning(self, message):
        self.log.append(['warn', message])


def converter(reuse, _one=[]):
    from pywriter.converter.yw7_converter import Yw7Converter
    if not reuse:
        return Yw7Converter()
    if not _one:
        _one.append(Yw7Converter())
    return _one[0]


def load(path, cls=None):
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    f = (cls or Yw7File)(path)
    f.novel = Novel()
    f.read()
    return f


def step(s, reuse):
    kind, path = s[0], s[1]
    if kind == 'convert':
        c = converter(reuse)
        c.ui = Ui()
        c.run(path, suffix=s[2])
        return [c.ui.log, c.newFile]
    if kind == 'save':
        load(path).write()
        return 'saved'
    if kind == 'copy':
        from pywriter.yw.yw7_file import Yw7File
        f = Yw7File(s[2])
        f.novel = load(path).novel
        f.write()
        return 'copied'
    if kind == 'reset':
        from pywriter.yw.yw7_purge import reset_custom_variables
        f = load(path)
        changed = reset_custom_variables(f)
        f.write()
        return changed
    if kind == 'data':
        from pywriter.yw.data_files import DataFiles

        class Data(DataFiles):
            SUFFIX = '_data'

        f = Data(s[2])
        f.novel = load(path).novel
        f.write()
        return 'data'
    if kind == 'template':
        from pywriter.file.file_export import FileExport

        class Text(FileExport):
            EXTENSION = '.txt'
            _fileHeader = s[3]['file']
            _chapterTemplate = s[3]['chapter']
            _sceneTemplate = s[3]['scene']
            _characterTemplate = s[3]['character']
            _fileFooter = 'End \u2026\n'

        f = Text(s[2])
        f.novel = load(path).novel
        f.write()
        return 'template'
    if kind == 'settings':
        from pywriter.config.configuration import Configuration
        c = Configuration({k: '' for k in s[2]}, {k: False for k in s[3]})
        c.read(path)
        first = [c.settings, c.options]
        c = Configuration(s[2], s[3])
        c.write(path)
        d = Configuration({k: '' for k in s[2]}, {k: False for k in s[3]})
        d.read(path)
        return [first, d.settings, d.options]
    raise ValueError(kind)


def main():
    src, job, result = sys.argv[1:4]
    sys.path.insert(0, src)
    # (the library looks for its translations beside the program)
    sys.argv = [os.path.join(src, 'x.py')]
    with open(job, encoding='utf-8') as f:
        job = json.load(f)
    if job.get('umask') is not None:
        os.umask(job['umask'])
    if job.get('locale'):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    if job.get('cwd'):
        os.chdir(job['cwd'])
    if job.get('gc') is not None:
        import gc
        gc.set_threshold(*job['gc'])
    if job.get('thread'):
        import threading
        t = threading.Thread(target=work, args=(job, result))
        t.start()
        t.join()
    else:
        work(job, result)


def meet(folder, name, n, count):
    """Wait until all processes have come to step n."""
    open(os.path.join(folder, f'{n}_{name}'), 'w').close()
    end = time.monotonic() + 10
    while sum(f.startswith(f'{n}_') for f in os.listdir(folder)) < count and time.monotonic() < end:
        time.sleep(0.001)


def slow(seed):
    """Let the other processes go ahead at file operations."""
    rng = random.Random(seed)

    def hook(event, args):
        if event in ('open', 'os.mkdir', 'os.rename', 'os.chdir', 'os.remove', 'shutil.rmtree') and rng.random() < 0.3:
            time.sleep(rng.random() * 0.004)

    sys.addaudithook(hook)


def work(job, result):
    out = []
    if job.get('slow'):
        slow(job['slow'])
    n = 0
    for group, steps in job['groups']:
        for s in steps:
            if job.get('meet'):
                n += 1
                meet(job['meet'][0], group, n, job['meet'][1])
            try:
                r = step(s, job.get('reuse', False))
            except Exception as ex:
                r = ['raised', type(ex).__name__, str(ex)]
            out.append([group, s[:3] if s[0] != 'settings' else s[:2], r])
            if os.getcwd() != os.path.realpath(job.get('cwd') or os.getcwd()):
                out.append([group, s[:2], 'the working folder was changed'])
    with open(result, 'w', encoding='utf-8') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
