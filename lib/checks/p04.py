"""P04: no input makes the compiler touch invalid memory or execute undefined behaviour."""
import glob
import os
import resource

import frame
import hostile
import san
import shapes

BIN = {}


def limits():
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def judge(case, want=('memory', 'undefined', 'uninitialised', 'signal', 'exit'), leaks=0, timeout=10, retry=False):
    r = frame.Result()
    variant, what = case
    data, label, rng = hostile.make(what)
    target = rng.choice(hostile.TARGETS)
    args = [a for a, p in (('-Wno', 0.1), ('-c', 0.05), ('-E', 0.08)) if rng.random() < p]
    if rng.random() < 0.1:
        args.append('-i%d' % rng.choice([8, 16, 32, 64]))
    c = frame.compile_text(BIN[variant], data, target, args, timeout=timeout, retry=retry,
                           env={'ASAN_OPTIONS': 'detect_leaks=%d:allocator_may_return_null=1:detect_stack_use_after_return=0' % leaks})
    k = san.classify(c.run)
    r['n'] = 1
    end = 'accepted' if c.ok else 'rejected' if c.rejected else 'other'
    r['saw'].append('%s %s %s %s' % (variant, label, target, end))
    r['info']['%s: %s' % (variant, end)] += 1
    if k and k[0] in want:
        r.violation(k[1], '%s %s (%s), target %s %s: %s' % (variant, label, what[1], target, ' '.join(args), k[2]),
                    {'input.c': data, 'sanitizer.log': c.run.err})
    elif k and k[0] == 'timeout':
        r['info']['timeouts (judged by P05)'] += 1
    return r


def cases(ctx, variants, mutations, rounds):
    out = []
    for v, share in variants:
        out += [(v, c) for i, c in enumerate(shapes.all_cases(ctx.seed, rounds)) if i % share == 0 or not ctx.quick]
        out += [(v, ('mut', 'm-%s-%d-%s' % (ctx.seed, i, v))) for i in range(mutations // share)]
        out += [(v, ('gen', 'g-%s-%d-%s' % (ctx.seed, i, v))) for i in range(mutations // 10 // share)]
        tests = sorted(glob.glob(os.path.join(frame.REPO, 'tests', '**', '*.c'), recursive=True))
        out += [(v, ('test', t)) for i, t in enumerate(tests) if i % share == 0]
    return out


def run(ctx):
    for v in ('asanrel', 'msan'):
        BIN[v] = ctx.build(v)
    limits()
    hostile.corpus()
    ctx.rule = ('executions of the compiler built with AddressSanitizer and UndefinedBehaviorSanitizer (asanrel) and with '
                'MemorySanitizer (msan) on mutated, truncated, spliced and stretched programs for every target; '
                'distinct = (build, shape and size or set of mutations, target, outcome)')
    ctx.assumptions += ['calls through function pointers of a compatible but different type (key comparison callback) are not reported']
    ctx.map(judge, cases(ctx, [('asanrel', 1), ('msan', 3)], ctx.size(6000, 120000), 1 if ctx.quick else 6), chunk=16)
