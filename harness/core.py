"""Run context shared by all checks: seeds, counters, verdicts, evidence, replay files.

Verdicts are three-valued.  Exit 0: the property held on everything observed.  Exit 1 with a
VIOLATION line: an oracle refuted it.  Exit 2: inconclusive (a deciding monitor saw too little).
"""
import collections
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYWRITER_REPO', '/repo')
# PYWRITER_REPO is only used by the developer's own mutation runs; the registered commands leave it unset.

FINDINGS_FILE = os.path.join(VERIF, 'known_findings.json')


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    """The code under test burnt its CPU budget for one case (CPU time, not wall clock)."""


CASE_CPU_SECONDS = 60.0


def _on_prof(signum, frame):
    raise Hang(f'one case used more than {CASE_CPU_SECONDS} s of CPU time')


def arm():
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS, 5.0)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)


def blames_repo(ex):
    """True if the exception passed through code of the library under test, or is about something missing there."""
    root = os.path.join(REPO, 'src') + os.sep
    if isinstance(ex, AttributeError) and ex.obj is not None:
        owner = ex.obj if isinstance(ex.obj, (type, type(os))) else type(ex.obj)
        if (getattr(owner, '__module__', None) or owner.__name__).split('.')[0] == 'pywriter':
            return True
    if isinstance(ex, ImportError) and (ex.name or '').split('.')[0] == 'pywriter':
        return True
    tb = ex.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    cause = ex.__cause__ or ex.__context__
    return blames_repo(cause) if cause is not None and cause is not ex else False


def unreadable(ex):
    """True if the exception means that a monitor could not interpret what it found: a missing file, entry or element, broken markup."""
    import xml.etree.ElementTree as ET
    import zipfile
    return isinstance(ex, (ValueError, LookupError, AttributeError, TypeError, SyntaxError, EOFError, FileNotFoundError, NotADirectoryError, ET.ParseError, zipfile.BadZipFile))


class Ctx:

    def __init__(self, pid, level, rule):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.events = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.notes = []
        self.assumptions = []
        self.cap = 780.0 if self.thorough else 240.0
        self.max_violations = 5
        self.scratch = tempfile.mkdtemp(prefix=f'vf_{pid}_')
        self.owner = os.getpid()
        self.findings = self._load_findings()
        self.requirements = []
        self.current = None

    # -- infrastructure -----------------------------------------------------------------

    def _load_findings(self):
        try:
            with open(FINDINGS_FILE, encoding='utf-8') as f:
                data = json.load(f)
        except FileNotFoundError:
            return {}
        return {e['key']: e for e in data.get('findings', []) if e['property'] == self.pid}

    def rng(self, *label):
        return random.Random(f'{self.seed}/{self.pid}/' + '/'.join(str(x) for x in label))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def alive(self):
        return time.time() - self.t0 < self.cap and len(self.violations) < self.max_violations

    def cases(self, label, quick, thorough):
        """Yield (index, rng) for the planned number of cases, within the time cap."""
        for i in range(self.n(quick, thorough)):
            if not self.alive():
                self.notes.append(f'{label}: stopped after {i} cases')
                return
            arm()
            self.current = f'{label}/{i}'
            yield i, self.rng(label, i)

    def dir(self, name='d'):
        return tempfile.mkdtemp(prefix=f'{name}_', dir=self.scratch)

    def drop(self, path):
        path = os.path.abspath(path)
        if path.startswith(self.scratch + os.sep):
            shutil.rmtree(path, ignore_errors=True)

    # -- recording ----------------------------------------------------------------------

    def evaluated(self, key=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial and key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode('utf-8', 'surrogatepass')).hexdigest()[:16])

    def event(self, name, n=1):
        self.events[name] += n

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(shorten(obj))

    def violation(self, what, **replay):
        """Record one refutation, with everything needed to replay it."""
        if len(self.violations) >= 50:
            return
        self.violations.append((what, replay))

    def probe(self, key, failed, what, **replay):
        """A fixed input known (or suspected) to break the property.

        Listed in known_findings.json -> KNOWN-FINDING line; not listed -> violation."""
        self.event('probe')
        if not failed:
            return
        if key in self.findings:
            self.known_hit.append((key, self.findings[key]['what']))
        else:
            self.violation(f'{key}: {what}', **replay)

    def require(self, name, minimum):
        self.requirements.append((name, minimum))

    # -- end ----------------------------------------------------------------------------

    def finish(self):
        for key, what in self.known_hit:
            print(f'KNOWN-FINDING: property={self.pid} {key}: {what}')
        code = 0
        if self.violations:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:self.max_violations]):
                path = os.path.join(rdir, f'{self.pid}_{i}.json')
                with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f:
                    json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, what=what,
                                   replay=jsonable(replay)), f, indent=1, ensure_ascii=True)
                print(f'# {what[:700]}')
                print(f'VIOLATION property={self.pid} replay={path}')
            code = 1
        else:
            for name, minimum in self.requirements:
                have = self.events.get(name, 0)
                if have < minimum:
                    print(f'INCONCLUSIVE property={self.pid} monitor "{name}" observed {have} < {minimum}')
                    code = 2
        coverage = dict(
            evaluations=self.evaluations,
            distinct_nontrivial=len(self.distinct),
            rule=self.rule,
            samples=self.samples or ['(none)'],
            monitor_events=dict(sorted(self.events.items())),
        )
        if self.notes:
            coverage['notes'] = self.notes
        if self.known_hit:
            coverage['known_findings_observed'] = [k for k, __ in self.known_hit]
        evidence = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                        coverage=jsonable(coverage), wall_s=round(time.time() - self.t0, 2),
                        violations=len(self.violations))
        if self.assumptions:
            evidence['assumptions'] = self.assumptions
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f'{self.pid}.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1)
        print(f'{self.pid} {self.tier} seed={self.seed}: {self.evaluations} evaluations, '
              f'{len(self.distinct)} distinct, {len(self.violations)} violations, '
              f'{time.time() - self.t0:.1f}s')
        return code

    def cleanup(self):
        if os.getpid() == self.owner:
            shutil.rmtree(self.scratch, ignore_errors=True)


def shorten(obj, limit=900):
    text = json.dumps(jsonable(obj), ensure_ascii=True)
    if len(text) <= limit:
        return jsonable(obj)
    return text[:limit] + '...'


def jsonable(obj):
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((jsonable(v) for v in obj), key=str)
    if isinstance(obj, bytes):
        return obj.decode('latin-1')
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


def run_check(pid):
    import importlib
    try:
        module = importlib.import_module(f'props.{pid.lower()}')
    except Exception as ex:
        if not blames_repo(ex):
            raise
        ctx = Ctx(pid, 'exploration', 'import of the library')
        ctx.violation(f'the library cannot be imported: {type(ex).__name__}: {ex}')
        try:
            return ctx.finish()
        finally:
            ctx.cleanup()
    ctx = Ctx(pid, module.LEVEL, module.RULE)
    ctx.assumptions = list(getattr(module, 'ASSUMPTIONS', []))
    cwd = os.getcwd()
    try:
        try:
            arm()
            module.run(ctx)
            disarm()
        except Hang as ex:
            disarm()
            ctx.violation(f'no progress in case {ctx.current}: {ex}')
            return ctx.finish()
        except Inconclusive as ex:
            print(f'INCONCLUSIVE property={pid} {ex}')
            ctx.finish()
            return 2
        except Exception as ex:
            disarm()
            traceback.print_exc(file=sys.stdout)
            if blames_repo(ex):
                ctx.violation(f'case {ctx.current}: the library raised {type(ex).__name__}: {ex}',
                              trace=traceback.format_exc())
            elif unreadable(ex):
                ctx.violation(f'case {ctx.current}: the result cannot be interpreted: {type(ex).__name__}: {ex}',
                              trace=traceback.format_exc())
            if ctx.violations:
                return ctx.finish()
            print(f'ERROR property={pid}: the check itself failed')
            return 2
        return ctx.finish()
    finally:
        os.chdir(cwd)
        ctx.cleanup()
