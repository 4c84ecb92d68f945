"""P12: compilation is deterministic and independent of circumstances."""
import glob
import os
import random
import shutil
import tempfile

import build
import frame
import hostile

BIN = {}
EXTRA = [['-Wno'], ['-i64'], ['-i16'], ['-c'], ['-DX=1'], ['-DПЕРЕМ'], ['-E']]


def job(r, i, tests):
    what = r.choice(['test', 'test', 'mut', 'mut', 'gen', 'shape'])
    if what == 'test':
        data, label, _ = hostile.make(('test', r.choice(tests)))
    elif what == 'shape':
        import shapes
        name = r.choice(sorted(shapes.SHAPES))
        data, label, _ = hostile.make((name, r.choice([1, 5, 20, 60]), 'p12%d' % r.randrange(10 ** 6)))
    else:
        data, label, _ = hostile.make((what, 'p12-%d' % r.randrange(10 ** 9)))
    target = r.choice(['-VM', '-VM', '-LLVM', '-LLVM', '-MIPS'])
    args = r.choice(EXTRA) if r.random() < 0.25 else []
    return what, data, [target] + args


def clean(data, d):
    """Messages name files by their full path."""
    return data and data.replace(d.encode() + b'/', b'')


def case(key):
    seed, k, tests = key
    r = random.Random('p12-%s-%d' % (seed, k))
    res = frame.Result()
    jobs = [job(r, i, tests) for i in range(10)]
    base = tempfile.mkdtemp(dir=frame.WORK)
    try:
        plain, ok = [], []
        for i, (what, data, args) in enumerate(jobs):
            d = os.path.join(base, 'plain%d' % i)
            os.makedirs(d)
            c = frame.compile_text(BIN['rel'], data, None, args, timeout=10, keep=d, retry=False)
            plain.append(None if c.run.timeout or c.run.rc not in (0, 64) else (c.run.rc, clean(c.run.err, d), clean(c.output, d)))
        usable = [i for i in range(len(jobs)) if plain[i] is not None]
        res['info']['compilations compared'] += len(usable)

        def compare(i, how, got):
            res['n'] += 1
            res['saw'].append('%s %s %s exit %s' % (how, jobs[i][0], ' '.join(jobs[i][2]), plain[i][0]))
            if got == plain[i]:
                return
            part = [n for n, a, b in zip(('exit code', 'messages', 'output file'), plain[i], got) if a != b]
            res.violation('%s:%s:%s' % (how, part[0], jobs[i][2][0]), '%s differs in %s for %s program, options %s\nplain:  %r\nvaried: %r'
                          % (how, ', '.join(part), jobs[i][0], jobs[i][2], diff(plain[i], got)[0], diff(plain[i], got)[1]),
                          {'input.c': jobs[i][1], 'plain.txt': plain[i][2] or b'', 'varied.txt': got[2] or b'',
                           'plain.err': plain[i][1], 'varied.err': got[1]})

        # other directory, other heap contents, other environment
        for i in usable:
            d = os.path.join(base, 'x' * r.randint(1, 60), 'y%d' % i)
            os.makedirs(d)
            env = {'MALLOC_PERTURB_': str(r.choice([1, 85, 170, 255])), 'LANG': r.choice(['C', 'ru_RU.UTF-8', 'tr_TR']), 'HOME': d,
                   'FILLER': 'z' * r.choice([0, 100, 5000]), 'MALLOC_TOP_PAD_': str(r.choice([0, 65536])), 'MALLOC_MMAP_THRESHOLD_': str(r.choice([128, 1 << 20]))}
            with open(os.path.join(d, 'out.txt'), 'wb') as f:       # an old output file is there
                f.write(b'old\n' * r.choice([0, 1, 100000]))
            c = frame.compile_text(BIN['rel'], jobs[i][1], None, jobs[i][2], timeout=20, keep=d, env=env)
            out = c.output
            if plain[i][2] is None and out is not None and out == b'old\n' * (len(out) // 4):
                out = None                                          # never opened in either case
            compare(i, 'circumstances', (c.run.rc, clean(c.run.err, d), clean(out, d)))
        # debug build
        for i in usable:
            d = os.path.join(base, 'debug%d' % i)
            os.makedirs(d)
            c = frame.compile_text(BIN['dbg'], jobs[i][1], None, jobs[i][2], timeout=20, keep=d, retry=False)
            if c.run.timeout or c.run.rc not in (0, 64):
                if jobs[i][0] == 'gen' and plain[i][0] == 0 and jobs[i][2][0] != '-MIPS':
                    res.violation('debug:crash', 'the debug build ends with %s on a program the release build accepts' % c.run.rc, {'input.c': jobs[i][1]})
                res['info']['debug build stopped by its assertions'] += 1
                continue
            compare(i, 'debug build', (c.run.rc, clean(c.run.err, d), clean(c.output, d)))
        # one process, all of them, some twice
        order = [i for i in usable if '\0' not in ''.join(jobs[i][2])]
        r.shuffle(order)
        order += [r.choice(order) for _ in range(3)] if order else []
        d = os.path.join(base, 'one')
        os.makedirs(d)
        lines = []
        for n, i in enumerate(order):
            w = os.path.join(d, 'w%d' % n)
            os.makedirs(w)
            with open(os.path.join(w, 'a.c'), 'wb') as f:
                f.write(jobs[i][1] if isinstance(jobs[i][1], bytes) else jobs[i][1].encode('utf-8', 'surrogateescape'))
            lines.append('\t'.join(['w%d/err' % n, 'w%d/rc' % n, 'w%d/a.c' % n, '-o', 'w%d/out.txt' % n] + jobs[i][2]))
        p = frame.execute([BIN['many']], d, timeout=60, stdin=('\n'.join(lines) + '\n').encode(), env={'MALLOC_PERTURB_': '90'})
        if p.rc != 0:
            res.violation('one process:crash', 'a process doing %d compilations one after the other ends with %s, each alone ends normally\n%s'
                          % (len(order), p.rc, p.err[-500:]), {'jobs.txt': '\n'.join(lines)})
            return res
        for n, i in enumerate(order):
            w = os.path.join(d, 'w%d' % n)

            def read(name):
                try:
                    with open(os.path.join(w, name), 'rb') as f:
                        return f.read()
                except OSError:
                    return None
            rel = b'w%d/' % n
            err = clean(read('err') or b'', w).replace(rel, b'')
            out = clean(read('out.txt'), w)
            compare(i, 'one process', (int(read('rc') or -1), err, out and out.replace(rel, b'')))
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, bytes) and isinstance(y, bytes):
                k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                return x[max(0, k - 60):k + 60], y[max(0, k - 60):k + 60]
            return x, y
    return a[0], b[0]


def run(ctx):
    BIN['rel'], BIN['dbg'] = ctx.build('rel', 'dbg')
    BIN['many'] = build.harness('many', 'rel')
    hostile.corpus()
    tests = [t for t in sorted(glob.glob(os.path.join(frame.REPO, 'tests', '**', '*.c'), recursive=True)) if '/include/' not in t]
    ctx.rule = ('pairs of compilations of the same source: plain against other directory, environment and heap contents; release against debug; '
                'alone against after other compilations in one process; distinct = (variation, kind of source, options, outcome)')
    ctx.assumptions += ['the debug build may stop at an assertion on a program that is rejected']
    ctx.map(case, [(ctx.seed, k, tests) for k in range(ctx.size(1100, 12000))], chunk=2)
