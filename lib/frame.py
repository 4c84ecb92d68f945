"""Driver shared by every check: scratch space, worker pool, verdicts, known findings, evidence.

A check is a module lib/checks/<id>.py with a function run(ctx).  It records what its monitors
observed (ctx.saw), what executions broke the property (ctx.violation) and ends; the driver writes
the evidence file and decides the exit code:  0 quiet, 1 with one VIOLATION line per distinct key.
"""
import collections
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
import build  # noqa: E402

REPO = build.REPO
JOBS = min(8, os.cpu_count() or 1)
REJECTED = 64      # exit code of a build configured for testing
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=1:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1',
           'MSAN_OPTIONS': 'abort_on_error=0'}


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='ruc-verif-', dir=base)


class Run:
    """Outcome of one process."""
    __slots__ = ('rc', 'out', 'err', 'timeout', 'wall')

    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    @property
    def text(self):
        return (self.out + self.err).decode('utf-8', 'replace')


STOP = multiprocessing.Value('i', 0)        # set once a violation is known and the check has taken long enough
TIMEOUTS = multiprocessing.Value('i', 0)    # processes that did not end within the long limit either
LONG_ENOUGH = 240


def execute(cmd, cwd, timeout=20, stdin=None, env=None, retry=True):
    """Run a command; a timeout is tried once more with four times the time before it counts
    (no more when many have been confirmed like this)."""
    retry = retry and TIMEOUTS.value < 24
    e = dict(os.environ)
    e.update(SAN_ENV)
    e['LC_ALL'] = 'C.UTF-8'
    if env:
        e.update(env)
    for t in ((timeout, 4 * timeout) if retry else (timeout,)):
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
        try:        # ends by itself should this process be gone when the time is over
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (int(t) + 10, int(t) + 10))
        except (ProcessLookupError, PermissionError, ValueError):
            pass
        try:
            o, r = p.communicate(stdin, timeout=t)
            return Run(p.returncode, o, r, False, time.time() - t0)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            o, r = p.communicate()
            last = Run(None, o, r, True, time.time() - t0)
    if retry:
        with TIMEOUTS.get_lock():
            TIMEOUTS.value += 1
    return last


class Compiled:
    __slots__ = ('run', 'output', 'ok', 'rejected')


def compile_text(ruc, src, mode='-VM', args=(), name='a.c', timeout=20, keep=None, files=None, env=None, retry=True):
    """Compile one source text in a scratch directory of its own."""
    d = keep or tempfile.mkdtemp(dir=WORK)
    try:
        data = src if isinstance(src, bytes) else src.encode('utf-8', 'surrogateescape')
        with open(os.path.join(d, name), 'wb') as f:
            f.write(data)
        for k, v in (files or {}).items():
            p = os.path.join(d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(v if isinstance(v, bytes) else v.encode())
        c = Compiled()
        c.run = execute([ruc, name] + ([mode] if mode else []) + ['-o', 'out.txt'] + list(args), d, timeout, env=env, retry=retry)
        try:
            with open(os.path.join(d, 'out.txt'), 'rb') as f:
                c.output = f.read()
        except OSError:
            c.output = None
        c.ok = c.run.rc == 0
        c.rejected = c.run.rc == REJECTED
        return c
    finally:
        if keep is None:
            shutil.rmtree(d, ignore_errors=True)


WORK = None


def _init(work, modname):
    global WORK
    WORK = work
    sys.setrecursionlimit(2000)


def _call(job):
    fn, case = job
    if STOP.value:
        return case, None, 'stopped'
    try:
        return case, fn(case), None
    except Exception:
        return case, None, traceback.format_exc()


class Result(dict):
    """What one case observed.
       saw: list of strings (distinct things the monitors evaluated)   n: number of evaluations
       bad: list of (key, text, {file name: content})                   info: counters"""
    def __init__(self):
        super().__init__(saw=[], n=0, bad=[], info=collections.Counter(), sample=None)

    def violation(self, key, text, files=None):
        self['bad'].append((key, text, files or {}))


class Ctx:
    def __init__(self, prop, tier, seed):
        global WORK
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.work = WORK = scratch_root()
        self.evaluations = 0
        self.seen = collections.Counter()
        self.info = collections.Counter()
        self.samples = []
        self.bad = collections.OrderedDict()
        self.known_seen = []
        self.assumptions = []
        self.rule = ''
        self.notes = []
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.known = read_known(prop)

    # sizes: quick cases / thorough cases
    def size(self, quick, thorough=None):
        n = quick if self.quick else (thorough if thorough is not None else quick * 12)
        return max(1, int(n * float(os.environ.get('VERIF_SCALE', '1'))))

    def build(self, *variants):
        r = []
        for v in variants:
            r.append(build.build(v))
        return r[0] if len(r) == 1 else r

    def saw(self, what, n=1):
        self.evaluations += n
        self.seen[what] += n

    def violation(self, key, text, files=None):
        if key not in self.bad:
            self.bad[key] = [0, text, files or {}]
        self.bad[key][0] += 1

    def take(self, r, case=None):
        self.evaluations += r['n']
        for s in r['saw']:
            self.seen[s] += 1
        self.info.update(r['info'])
        if r['sample'] and len(self.samples) < 6:
            self.samples.append(r['sample'])
        for key, text, files in r['bad']:
            self.violation(key, text, files)

    def map(self, fn, cases, chunk=8, enough=40):
        """Run fn over the cases on all cores.  A case whose harness raised is an internal error:
        it is counted and, when it is not rare, ends the check without a verdict."""
        cases = list(cases)
        failed = skipped = 0
        mp = multiprocessing.get_context('fork')
        with concurrent.futures.ProcessPoolExecutor(JOBS, mp_context=mp, initializer=_init,
                                                    initargs=(self.work, self.prop)) as ex:
            for case, r, err in ex.map(_call, ((fn, c) for c in cases), chunksize=chunk):
                if err == 'stopped':
                    skipped += 1
                    continue
                if err:
                    failed += 1
                    self.info['harness errors'] += 1
                    if failed <= 3:
                        sys.stderr.write('case %r:\n%s\n' % (case, err))
                        self.notes.append('harness error on %r: %s' % (case, err.strip().splitlines()[-1]))
                    continue
                if r is not None:
                    self.take(r, case)
                if time.time() - self.t0 > LONG_ENOUGH and self.quick and self.unlisted():
                    STOP.value = 1
        if skipped:
            self.info['cases left out because a violation was known'] += skipped
        self.info['cases'] += len(cases)
        self.info['harness errors'] += 0
        if failed > max(3, len(cases) // 50):
            raise RuntimeError('%d of %d cases could not be judged' % (failed, len(cases)))

    def unlisted(self):
        return any(k not in self.known for k in self.bad)

    def known_probe(self, name, still_fails, what=None):
        """A listed finding: still failing -> KNOWN-FINDING line; not listed -> violation."""
        if name in self.known:
            if still_fails:
                self.known_seen.append((name, self.known[name]))
            else:
                self.info['known findings no longer failing'] += 1
        elif still_fails:
            self.violation(name, what or name)

    def replay_dir(self):
        return os.path.join(VERIF, 'evidence', 'replay', self.prop)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rd = self.replay_dir()
        shutil.rmtree(rd, ignore_errors=True)
        lines, real = [], 0
        for key, (n, text, files) in self.bad.items():
            if key in self.known:
                self.known_seen.append((key, self.known[key]))
                continue
            real += 1
            if real > 10:
                if os.environ.get('VERIF_ALL'):
                    print('%s: %s' % (key, text.strip()[:300]))
                continue
            d = os.path.join(rd, '%02d-%s' % (real, hashlib.sha1(key.encode()).hexdigest()[:8]))
            os.makedirs(d)
            with open(os.path.join(d, 'report.txt'), 'w', errors='surrogateescape') as f:
                f.write('property %s, seed %s, tier %s\nkey: %s\nseen %d times\n\n%s\n' % (self.prop, self.seed, self.tier, key, n, text))
            for name, content in files.items():
                if len(name.encode()) > 200:
                    name = name.encode()[:150].decode('utf-8', 'ignore') + hashlib.sha1(name.encode()).hexdigest()[:8] + name[-12:]
                p = os.path.join(d, name.lstrip('/'))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(content if isinstance(content, bytes) else content.encode('utf-8', 'surrogateescape'))
            print('%s: %s' % (key, text.strip()[:1500]))
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, d))
        for name, what in self.known_seen:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, name, what))
        for k, v in sorted(self.info.items()):
            print('  %-50s %d' % (k, v))
        top = dict(sorted(self.info.items()))
        evidence = {
            'property': self.prop, 'tier': 'quick' if self.quick else 'thorough', 'seed': int(self.seed),
            'level': LEVEL.get(self.prop, 'exploration'),
            'coverage': {
                'evaluations': int(self.evaluations), 'distinct_nontrivial': len(self.seen),
                'rule': self.rule or 'distinct things the monitors evaluated',
                'samples': (self.samples or [k for k in list(self.seen)[:6]])[:8],
            },
            'assumptions': self.assumptions,
            'violations': real,
            'wall_s': round(time.time() - self.t0, 1),
            'observed': {k: v for k, v in self.seen.most_common(200)},
            'counters': top,
            'known_findings': [n for n, _ in self.known_seen],
            'notes': self.notes,
        }
        allowed = evidence_keys()
        if allowed is not None:
            extra = {k: evidence.pop(k) for k in list(evidence) if k not in allowed}
            with open(os.path.join(ev, self.prop + '.detail.json'), 'w') as f:
                json.dump(extra, f, indent=1, ensure_ascii=False)
        with open(os.path.join(ev, self.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
        print('%s: %d evaluations, %d distinct, %d violations, %.1f s'
              % (self.prop, self.evaluations, len(self.seen), real, time.time() - self.t0))
        for line in lines:
            print(line)
        sys.stdout.flush()
        return 1 if real else 0


LEVEL = {}


def evidence_keys():
    try:
        s = json.load(open('/root/.vp/EVIDENCE.schema.json'))
        if s.get('additionalProperties', True) is False:
            return set(s['properties'])
    except (OSError, ValueError):
        pass
    return None


def read_known(prop):
    """known: property=<id> <name> <what fails>     (fixed: lines suppress nothing)"""
    out = collections.OrderedDict()
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf-8'):
            if line.startswith('known: '):
                w = line[7:].split(None, 2)
                if w[0] == 'property=' + prop:
                    out[w[1]] = w[2].strip()
    except OSError:
        pass
    return out


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    seed = int(seed) if seed.isdigit() else 1
    sys.path.insert(0, os.path.join(LIB, 'checks'))
    mod = __import__(prop.lower())
    sys.setrecursionlimit(2000)
    ctx = Ctx(prop, tier, seed)
    LEVEL[prop] = getattr(mod, 'LEVEL', 'exploration')
    try:
        mod.run(ctx)
    except build.BuildError as e:
        shutil.rmtree(ctx.work, ignore_errors=True)
        print('cannot build: %s' % e)
        return 2
    except Exception:
        if ctx.unlisted():      # what was seen stands, whatever stopped the rest
            traceback.print_exc()
            return ctx.finish()
        shutil.rmtree(ctx.work, ignore_errors=True)
        raise
    except BaseException:
        shutil.rmtree(ctx.work, ignore_errors=True)
        raise
    return ctx.finish()


if __name__ == '__main__':
    import frame
    sys.exit(frame.main(sys.argv))
