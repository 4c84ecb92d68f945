"""P14: options and files have their documented effect in any order; faults of arguments and files end with a code and a message."""
import os
import random
import shutil
import stat
import subprocess
import tempfile

import frame
import gen

BIN = {}
TARGETS = {None: 'out.ruc', '-VM': 'out.ruc', '-LLVM': 'out.ll', '-MIPS': 'out.s'}
NAMES = ['x', 'out.bin', 'имя.txt', 'with space', './dot', 'od/under', 'od/../up', '-dash', 'od/имя два']
NOBODY = ['setpriv', '--reuid', '65534', '--regid', '65534', '--clear-groups']


LONG = 'длинное_имя_каталога_' * 5 + '/' + 'deep_' * 30 + '/'


class Config:
    """A command line and the files it works on, with the single text it stands for."""

    def __init__(self, r):
        self.r = r
        p, src, _, _ = gen.generate(r.randrange(1 << 30), size=r.choice([0.2, 0.4]), feats={'cyr': r.random() < 0.3})
        self.files, self.sources, self.dirs, self.defs = {}, [], [], []
        self.target = r.choice([None, '-VM', '-VM', '-LLVM', '-LLVM', '-MIPS'])
        self.e = r.random() < 0.2
        self.out = r.choice([None, None] + NAMES)
        self.wno = r.random() < 0.3
        self.c = r.random() < 0.15
        home = r.choice(['', '', '', 'src/', 'src/', 'src/deep/', 'src/deep/', LONG])
        names = r.sample(['AA', 'AAB', 'bb_1', 'ИМЯ', 'ИМЯ2', 'Zzz', '_q'], r.randint(0, 3))
        ref, use = [], []
        for i, n in enumerate(names):
            v = r.choice(['5', '(1 + 2)', "'a'", '0x1F', '-7', '1 << 3'] + ([names[0]] if i else []))
            self.defs.append('-D%s=%s' % (n, v))
            ref.append('#define %s %s' % (n, v))
            use.append('int zd%d() { return %s; }' % (i, n))
        flags = r.sample([1, 10, 101, 2], r.randint(0, 3))
        for i in flags:
            k = r.choice(['-DFLAG%d', '-DFLAG%d', '-DFLAG%d='])
            on = r.random() < 0.6
            if on:
                self.defs.append(k % i)
                ref.append('#define FLAG%d' % i)
            use.append('#ifdef FLAG%d\nint zf%d() { return 1; }\n#else\nint zg%d() { return 2; }\n#endif' % (i, i, i))
        if r.random() < 0.3:
            self.defs.append('-DEMPTY')
            ref.append('#define EMPTY')
            use.append('int EMPTY ze() { return EMPTY 1; }')
        warn = r.random() < 0.4
        self.warn = warn
        if warn:
            use.append('bool zw(float a) { return a == 1.5; }')
        # headers of one name in several directories: which one is meant depends on the form and the order
        alld = r.sample(['ia', 'ia2', 'i', 'ib', 'i c', 'src/inc', 'src/inc/i', 'и', 'ив', 'i/' + LONG.rstrip('/')], r.randint(1, 5))
        listed = alld[:]
        r.shuffle(listed)
        self.dirs = [r.choice(['-I%s', '-I./%s', '-I%s/']) % x for x in listed]
        inc_main, inc_ref = [], []
        for k in range(r.randint(0, 3)):
            form = r.choice('"<')
            places = [x for x in listed if r.random() < 0.5]
            own = r.random() < 0.4
            if not places and not own:
                own = True
            h = 'conf%d.h' % k
            for j, x in enumerate(places):
                self.files[x + '/' + h] = 'int zh%d() { return %d; }\n' % (k, 10 * k + j + 1)
            if own:
                self.files[home + h] = 'int zh%d() { return %d; }\n' % (k, 10 * k)
            order = ([home.rstrip('/') or '.'] if own else []) + places if form == '"' else places + ([home.rstrip('/') or '.'] if own else [])
            pick = order[0]
            inc_main.append('#include ' + ('"%s"' if form == '"' else '<%s>') % h)
            inc_ref.append(self.files[(pick + '/' + h) if pick != '.' else h].rstrip('\n'))
        for x in listed:
            self.files.setdefault(x + '/other.h', '// nothing\n')
        n = r.randint(1, 3)
        head = '\n'.join(inc_main + use)
        parts = [head] + ['int zs%d(int a) { return a + %d; }' % (i, i) for i in range(n - 1)]
        for i in range(n):
            name = (home if i == 0 else r.choice(['', 'src/', home])) + r.choice(['s%d.c', 'исх%d.c', 's %d.ruc']) % i
            self.sources.append(name)
            self.files[name] = parts[i] + '\n' + (src if i == n - 1 else '')
        refparts = ['\n'.join(inc_ref + use)] + parts[1:]
        self.ref = '\n'.join(ref) + '\n' + '\n'.join(refparts) + '\n' + src
        os_dirs = {'od'} | set(listed) | {os.path.dirname(f) for f in self.files}
        self.mkdirs = sorted(x for x in os_dirs if x)

    def output(self):
        return os.path.normpath(self.out if self.out is not None else TARGETS[self.target])

    def command(self, extra=(), shuffle=True, out=True):
        """The arguments in one order that keeps the order of sources and of directories."""
        r = self.r
        seqs = [[[s] for s in self.sources], [[x] for x in self.dirs]]
        seqs += [[[x]] for x in self.defs + list(extra)]
        for x, on in ((self.target, self.target), ('-E', self.e), ('-Wno', self.wno), ('-c', self.c)):
            if on:
                seqs.append([[x]] * (2 if shuffle and r.random() < 0.1 else 1))
        if out and self.out is not None:
            seqs.append([['-o', self.out]])
        seqs = [s for s in seqs if s]
        args = []
        while seqs:
            k = r.randrange(len(seqs)) if shuffle else 0
            args += seqs[k].pop(0)
            if not seqs[k]:
                seqs.pop(k)
        return args

    def lay(self, d):
        for x in self.mkdirs:
            os.makedirs(os.path.join(d, x), exist_ok=True)
        for n, t in self.files.items():
            with open(os.path.join(d, n), 'w', encoding='utf-8') as f:
                f.write(t)
        subprocess.run(['chmod', '-R', 'a+rwX', d], check=True)


def snapshot(d):
    s = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                s[os.path.normpath(os.path.relpath(p, d))] = h.read()
    return s


def ruc(d, args, pre=(), env=None):
    return frame.execute(list(pre) + [BIN['rel']] + args, d, timeout=20, env=env)


def reference(c, d):
    """What the command has to write: the code of the single text."""
    w = tempfile.mkdtemp(dir=frame.WORK)
    try:
        k = frame.compile_text(BIN['rel'], c.ref, c.target or '-VM', keep=w)
        return k
    finally:
        shutil.rmtree(w, ignore_errors=True)


def tokens_of(text):
    return ' '.join(l for l in ' '.join('' if l.startswith('#line') else l for l in text.split('\n')).split())


def orders(key):
    seed, i = key
    res = frame.Result()
    r = random.Random('p14o-%s-%s' % (seed, i))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        c = Config(r)
        c.lay(d)
        before = snapshot(d)
        want = reference(c, d)
        if want.run.timeout or want.run.rc not in (0, 64):
            res['info']['reference not usable'] += 1
            return res
        first = None
        for k in range(4):
            args = c.command(shuffle=k > 0)
            run = ruc(d, args)
            res['n'] += 1
            if run.timeout:
                res['info']['timeouts (inconclusive)'] += 1
                return res
            after = snapshot(d)
            new = {n: v for n, v in after.items() if before.get(n) != v}
            bad = None
            err = run.err.decode('utf-8', 'replace')
            if any(n not in after or after[n] != before[n] for n in before):
                bad = 'a source or header is changed'
            elif run.out:
                bad = 'text on the standard output'
            elif run.rc != want.run.rc and not c.e:
                bad = 'exit %s, the single text gives %s' % (run.rc, want.run.rc)
            elif run.rc == 0 and set(new) != {c.output()}:
                bad = 'files written: %s, expected %s' % (sorted(new), c.output())
            elif run.rc == 0 and not c.e and new[c.output()] != want.output:
                bad = 'other code than for the single text'
            elif c.wno and 'предупреждение' in err:
                bad = 'warning in spite of -Wno'
            elif not c.wno and not c.e and c.warn and run.rc == 0 and 'предупреждение' not in err:
                bad = 'no warning, though -Wno is not given'
            elif run.rc == 0 and c.e:
                text = new[c.output()].decode()
                again = frame.compile_text(BIN['rel'], text, '-VM', keep=None)
                whole = frame.compile_text(BIN['rel'], c.ref, '-VM', keep=None)
                if again.output != whole.output or again.run.rc != whole.run.rc:
                    bad = 'the text of -E does not compile to the code of the program'
            elif run.rc == 0 and (c.target in (None, '-VM')) and not os.stat(os.path.join(d, c.output())).st_mode & stat.S_IXUSR:
                bad = 'the program for the virtual machine is not executable'
            if bad is None and run.rc == 0:
                if first is None:
                    first = (new[c.output()], err)
                elif first != (new[c.output()], err):
                    bad = 'result depends on the order of the arguments'
            if bad:
                res.violation('order:' + bad[:40], '%s\nin %s: ruc %s\n%s' % (bad, d, args, run.text[-1200:]),
                              dict({n.replace('/', '__'): t for n, t in c.files.items()}, **{'reference.c': c.ref}))
                return res
            res['saw'].append('target %s, -E %s, output %s, %d sources, %d directories, %d definitions, -Wno %s -> %s'
                              % (c.target, c.e, c.out, len(c.sources), len(c.dirs), len(c.defs), c.wno, run.rc))
            res['info']['commands judged, exit %s' % run.rc] += 1
            for n in new:
                os.remove(os.path.join(d, n))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


# what goes wrong: every one has to end with an error code and a message
def f_missing(c, d, r, a):
    os.remove(os.path.join(d, r.choice(c.sources)))
    return a, []


def f_extra(c, d, r, a):
    a.insert(r.randrange(len(a) + 1) if '-o' not in a else 0, r.choice(['nosuch.c', 'none/x.c', 'od/none.c', c.sources[0] + 'x']))
    return a, []


def f_unreadable(c, d, r, a):
    os.chmod(os.path.join(d, r.choice(c.sources)), 0)
    return a, NOBODY


def f_header(c, d, r, a):
    hs = [f for f in c.files if f.endswith('.h') and 'conf' in f]
    if not hs:
        return None
    for h in hs:
        os.chmod(os.path.join(d, h), 0)
    return a, NOBODY


def f_header_gone(c, d, r, a):
    hs = [f for f in c.files if f.endswith('.h') and 'conf' in f]
    if not hs:
        return None
    for h in hs:
        os.remove(os.path.join(d, h))
    return a, []


def f_directory(c, d, r, a):
    a.insert(0, r.choice(['od', '.', '..', d]))
    return a, []


def f_include(c, d, r, a):
    a.insert(0, '-I' + r.choice(['nosuch', 'od/none', c.sources[0] + 'x', '']))
    return a, []


def f_no_value(c, d, r, a):
    return a + ['-o'], []


def f_empty(c, d, r, a):
    a.insert(0, '')
    return a, []


def f_no_sources(c, d, r, a):
    return [x for x in a if x not in c.sources], []


def f_define(c, d, r, a):
    a.insert(0, r.choice(['-D', '-D1', '-D=1', '-D-x', '-D ', '-D"', '-D9a=b']))
    return a, []


def f_define_twice(c, d, r, a):
    return ['-DTWICE=1'] + a + ['-DTWICE=2'], []


def f_long(c, d, r, a):
    a.insert(0, 'n' * r.choice([2000, 5000, 60000]) + '.c')
    return a, []


def f_out_missing(c, d, r, a):
    return a + ['-o', r.choice(['none/x', 'od/none/x', c.sources[0] + '/x'])], []


def f_out_dir(c, d, r, a):
    return a + ['-o', r.choice(['od', '.', d])], []


def f_out_ro(c, d, r, a):
    os.chmod(os.path.join(d, 'od'), 0o555)
    return a + ['-o', 'od/zz'], NOBODY


def f_out_ro_file(c, d, r, a):
    p = os.path.join(d, 'od', 'zz')
    with open(p, 'w') as f:
        f.write('old')
    os.chmod(p, 0o444)
    return a + ['-o', 'od/zz'], NOBODY


def f_full(c, d, r, a):
    return a + ['-o', '/dev/full'], NOBODY


def f_limit(c, d, r, a):
    c.limit = True
    return a + ['-o', 'od/zz'], ['env', '--ignore-signal=XFSZ', 'prlimit', '--fsize=%d' % r.choice([0, 1, 50, 100, 200, 300])]


def f_files(c, d, r, a):
    return a, ['prlimit', '--nofile=3']


FAULTS = [('source missing', f_missing), ('named source does not exist', f_extra), ('source not readable', f_unreadable), ('header not readable', f_header),
          ('header missing', f_header_gone), ('source is a directory', f_directory), ('directory of -I missing', f_include), ('-o without a name', f_no_value),
          ('empty argument', f_empty), ('no sources', f_no_sources), ('-D without a name', f_define), ('-D twice', f_define_twice),
          ('name too long', f_long), ('directory of the output missing', f_out_missing), ('output is a directory', f_out_dir),
          ('directory of the output not writable', f_out_ro), ('output not writable', f_out_ro_file), ('no space for the output', f_full),
          ('output larger than the limit', f_limit)]


def faults(key):
    seed, i = key
    res = frame.Result()
    r = random.Random('p14f-%s-%s' % (seed, i))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        c = Config(r)
        name, f = FAULTS[i % len(FAULTS)]
        c.lay(d)
        want = reference(c, d)
        if want.run.rc != 0:
            return res
        argout = c.command(out=not name.startswith(('directory of the out', 'output', 'no space')))
        got = f(c, d, r, argout)
        if got is None:
            return res
        args, pre = got
        if pre is NOBODY and not BIN['nobody']:
            res['info']['not run: another user cannot be taken'] += 1
            return res
        before = snapshot(d)
        run = ruc(d, args, pre)
        res['n'] += 1
        if run.timeout:
            res['info']['timeouts (inconclusive)'] += 1
            return res
        after = snapshot(d)
        new = {n: v for n, v in after.items() if before.get(n) != v}
        text = run.err.decode('utf-8', 'replace')
        bad = None
        if name == 'output larger than the limit':
            size = int(pre[-1].split('=')[1])
            if run.rc == 0 and len(new.get('od/zz', b'')) < size and not c.e and new.get('od/zz') == want.output:
                res['saw'].append('output within the limit')
                return res
            if run.rc == 0 and c.e:
                full = ruc(d, args[:-1] + ['od/full'])
                if snapshot(d).get('od/full') == new.get('od/zz'):
                    return res
        if run.rc == 0:
            bad = 'success'
        elif run.rc is None or run.rc < 0 or run.rc > 125:
            bad = 'ends with %s' % run.rc
        elif 'ошибка' not in text:
            bad = 'no message'
        elif any(n not in after or after[n] != before[n] for n in before):
            bad = 'an existing file is changed'
        elif any(v for v in new.values()) and not c.e:
            bad = 'code in %s' % [n for n, v in new.items() if v]
        if bad:
            res.violation('fault:%s:%s' % (name, bad[:30]), '%s: %s\nruc %s\nunder %s\n%s' % (name, bad, args, pre, run.text[-800:]),
                          {n.replace('/', '__'): t for n, t in c.files.items()})
            return res
        res['saw'].append('fault %s, target %s, -E %s: %s' % (name, c.target, c.e, text.split('\n')[0].split('\x1b[1;0m')[-1][:60]))
        res['info']['faults: ' + name] += 1
    finally:
        subprocess.run(['chmod', '-R', 'u+rwX', d])
        shutil.rmtree(d, ignore_errors=True)
    return res


def injected(key):
    """The n-th call of a file function fails: the right output, or an error code and a message."""
    seed, i = key
    res = frame.Result()
    r = random.Random('p14i-%s-%s' % (seed, i))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        c = Config(r)
        c.out = 'od/zz'
        for f in c.files:
            if r.random() < 0.4:
                pad = '// %s\n' % (r.choice('xя.') * r.choice([50, 90])) * r.randint(20, 120)
                c.files[f] = pad + c.files[f] if r.random() < 0.5 else c.files[f].rstrip('\n') + '\n' + pad
        c.lay(d)
        args = c.command()
        good = ruc(d, args)
        if good.rc != 0:
            return res
        with open(os.path.join(d, 'od/zz'), 'rb') as f:
            want = f.read()
        for fn in ('open', 'create', 'close', 'read', 'read all'):
            if fn.startswith('read') and not BIN['strace']:
                res['info']['not run: no tracing of the own child'] += 1
                continue
            log = os.path.join(d, 'calls')
            env = {'LD_PRELOAD': BIN['fault'], 'FAULT_FN': fn.split()[0], 'FAULT_LOG': log}
            trace = ['strace', '-o', log, '-e', 'trace=read'] + [x for f in c.files for x in ('-P', os.path.join(os.path.realpath(d), f))]
            if os.path.exists(log):
                os.remove(log)
            if fn.startswith('read'):
                ruc(d, args, trace)
            else:
                ruc(d, args, env=env)
            try:
                text = open(log, encoding='utf-8', errors='replace').read()
                calls = text.count('read(') if fn.startswith('read') else int(text)
            except (OSError, ValueError):
                res['info']['calls not seen: ' + fn] += 1
                continue
            if not calls:
                res['info']['calls not seen: ' + fn] += 1
                continue
            at = range(1, calls + 1) if calls <= 12 else sorted({1, 2, calls} | {r.randint(1, calls) for _ in range(10)})
            for n in at:
                if os.path.exists(os.path.join(d, 'od/zz')):
                    os.remove(os.path.join(d, 'od/zz'))
                if fn.startswith('read'):
                    run = ruc(d, args, trace + ['-e', 'inject=read:error=EIO:when=%d%s' % (n, '+' if fn == 'read all' else '')])
                    if 'INJECTED' not in open(log, encoding='utf-8', errors='replace').read():
                        res['info']['fault not reached: ' + fn] += 1
                        continue
                else:
                    run = ruc(d, args, env=dict(env, FAULT_AT=str(n)))
                res['n'] += 1
                if run.timeout:
                    res['info']['timeouts (inconclusive)'] += 1
                    continue
                got = b''
                if os.path.exists(os.path.join(d, 'od/zz')):
                    with open(os.path.join(d, 'od/zz'), 'rb') as f:
                        got = f.read()
                text = run.err.decode('utf-8', 'replace')
                bad = None
                if run.rc == 0 and got != want:
                    bad = 'success, but another output'
                elif run.rc == 0 and fn in ('close', 'create'):
                    bad = 'success, though the output could not be written'
                elif run.rc is None or run.rc < 0 or run.rc > 125:
                    bad = 'ends with %s' % run.rc
                elif run.rc and 'ошибка' not in text:
                    bad = 'no message'
                elif run.rc and got and not c.e and fn != 'close':
                    bad = 'code is left in the output'
                if bad:
                    res.violation('injected:%s:%s' % (fn, bad), 'call %d of %d (%s) fails: %s\nruc %s\n%s' % (n, calls, fn, bad, args, run.text[-800:]),
                                  dict({k.replace('/', '__'): t for k, t in c.files.items()}, out=got, want=want))
                    return res
                res['saw'].append('injected %s, -E %s, target %s: exit %s' % (fn, c.e, c.target, run.rc))
                res['info']['injected %s: exit %s' % (fn, run.rc)] += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run(ctx):
    BIN['rel'] = ctx.build('rel')
    BIN['fault'] = os.path.join(os.path.dirname(BIN['rel']), 'faultfs.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', BIN['fault'], os.path.join(frame.LIB, 'c/faultfs.c'), '-ldl'], check=True)
    os.chmod(frame.WORK, 0o755)
    BIN['strace'] = subprocess.run(['strace', '-o', '/dev/null', '-e', 'trace=read', BIN['rel']], capture_output=True).returncode == 64
    BIN['nobody'] = subprocess.run(NOBODY + [BIN['rel']], capture_output=True).returncode == 64
    ctx.rule = ('commands judged by exit code, messages, files written and their content; faults of arguments and files, and failing calls of the C library; '
                'distinct = shapes of commands, (fault, target, message), (failing function, outcome)')
    ctx.assumptions += ['options that contradict each other (two targets, two outputs) are not judged',
                        'a read error is a read of a source or header that the tracer answers with EIO; a failing open or close is the result the C library gives for it']
    ctx.map(orders, [(ctx.seed, i) for i in range(ctx.size(900, 20000))], chunk=4)
    ctx.map(faults, [(ctx.seed, i) for i in range(ctx.size(1200, 30000))], chunk=8)
    ctx.map(injected, [(ctx.seed, i) for i in range(ctx.size(60, 1500))], chunk=1)
