"""P05: every compilation ends in bounded time and gives back its memory."""
import os
import random
import shutil
import tempfile

import frame
import hostile
import p04
import shapes

STEP = (500, 1000, 2000)
COST = 5.5      # quadratic growth gives 4, cubic 8
PEAK = 2.8      # proportional growth gives 2


def judge(case):
    r = p04.judge(case, want=('leak', 'timeout'), leaks=1, timeout=8, retry=True)
    if any(k == 'timeout' for k, _, _ in r['bad']):
        # a loop directive repeats its text up to 32768 times, nested ones multiply: the plain build decides
        data = hostile.make(case[1])[0]
        loops = data.count(b'#while') + data.count('#пока'.encode()) + data.count('#ПОКА'.encode()) + data.count(b'#WHILE')
        if loops:
            c = frame.compile_text(p04.BIN['rel'], data, '-VM', timeout=120, retry=False)
            if loops > 1 or not c.run.timeout:
                r['bad'] = [b for b in r['bad'] if b[0] != 'timeout']
                r['info']['long loop directives'] += 1
    return r


def measure(src, target, args=()):
    """(exit code, work done, peak of live heap bytes) of one compilation, or None when it does not end."""
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        c = frame.compile_text(p04.BIN['cost'], src, target, args, timeout=60, keep=d, env={'COST_FILE': os.path.join(d, 'cost')})
        if c.run.timeout:
            return None
        edges, moved, peak, calls = map(int, open(os.path.join(d, 'cost')).read().split())
        return c.run.rc, edges + moved // 8 + 20 * calls, peak
    except OSError:
        return c.run.rc, None, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def growth(case):
    name, key, target = case
    r = frame.Result()
    seen = []
    for n in STEP:
        src = shapes.SHAPES[name][0](n, random.Random(key))
        m = measure(src, target)
        if m is None:
            r.violation('growth:endless:%s:%s' % (name, target), 'compiling %s of size %d for %s does not end in 300 s' % (name, n, target), {'input.c': src})
            return r
        if m[1] is None:        # ended by a signal: P04's concern
            r['info']['no measurement'] += 1
            return r
        seen.append(m)
        r['n'] += 1
    r['saw'].append('growth %s %s exit %s' % (name, target, seen[-1][0]))
    r['info']['basic blocks executed (millions)'] += sum(m[1] for m in seen) // 1000000
    text = 'sizes %s: work %s, peak heap %s, exit %s' % (STEP, [m[1] for m in seen], [m[2] for m in seen], [m[0] for m in seen])
    if len({m[0] for m in seen[1:]}) == 1:
        if seen[2][1] > COST * seen[1][1]:
            r.violation('growth:work:%s:%s' % (name, target), '%s for %s: %s' % (name, target, text), {'input.c': src})
        if seen[2][2] > PEAK * seen[1][2]:
            r.violation('growth:heap:%s:%s' % (name, target), '%s for %s: %s' % (name, target, text), {'input.c': src})
    return r


def run(ctx):
    for v in ('asanrel', 'cost', 'rel'):
        p04.BIN[v] = ctx.build(v)
    p04.limits()
    hostile.corpus()
    ctx.rule = ('executions of the compiler under LeakSanitizer with a time limit on mutated, truncated, spliced and stretched programs, '
                'and measurements of work (basic blocks and bytes moved) and peak heap at three sizes of every stretched dimension')
    ctx.assumptions += ['a compilation that needs more than 8 s, and then more than 32 s, on an input of at most some hundred kilobytes counts as endless']
    ctx.map(growth, [(n, '%s/%s/%d' % (ctx.seed, n, k), t) for k in range(1 if ctx.quick else 8) for n in shapes.SHAPES for t in ('-VM', '-LLVM')], chunk=1)
    ctx.map(judge, p04.cases(ctx, [('asanrel', 1)], ctx.size(5000, 120000), 1 if ctx.quick else 6), chunk=16)
