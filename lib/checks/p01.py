"""P01: the virtual-machine code computes what the source program means."""
import glob
import os

import frame
import gen
import vm

RUC = None
SEED = 1
# asserts 2 + 1.14 == 3.14, which no double arithmetic makes true
NOT_A_TEST = {'tests/codegen/executable/functions/declaration/no-llvm/temprorary/test_4.c'}


def judge_program(r, source, expected, output, feats=()):
    """Execute VM text under the machine monitor and compare with the reference semantics."""
    files = {'program.c': source, 'expected.txt': expected, 'vm.txt': output}
    try:
        m = vm.VM(vm.Image(output.decode('utf-8', 'surrogateescape')), 3000000)
        try:
            m.run()
        finally:
            r['info']['instructions executed'] += m.steps
            r['saw'] += ['op %d' % o for o in m.ops]
    except vm.VMError as e:
        r.violation('machine:' + e.kind, 'the machine monitor stopped the program: %s' % e, files)
        return
    except vm.Unsupported as e:
        r['info']['unsupported by the monitor'] += 1
        return
    except vm.StepLimit:
        r.violation('endless', 'the program does not end within 3000000 instructions; the source program does', files)
        return
    r['n'] += 1
    got = ''.join(m.out)
    if got != expected:
        at = next((i for i, (a, b) in enumerate(zip(got, expected)) if a != b), min(len(got), len(expected)))
        r.violation('output', 'output differs at character %d\nexpected ...%r\nobserved ...%r'
                    % (at, expected[max(0, at - 60):at + 40], got[max(0, at - 60):at + 40]),
                    dict(files, **{'observed.txt': got}))


def case(i):
    r = frame.Result()
    size = (0.3, 0.6, 1.0, 1.0, 1.6)[i % 5]
    prog, src, expected, it = gen.generate('p01-%s-%d' % (SEED, i), size=size)
    c = frame.compile_text(RUC, src)
    if not c.ok:
        r['info']['not accepted (judged by P06)'] += 1
        return r
    judge_program(r, src, expected, c.output)
    r['info']['programs'] += 1
    r['info']['source bytes'] += len(src)
    r['saw'].append('output ' + str(hash(expected) & 0xffff))
    if i < 3:
        r['sample'] = src[:1500] + '\n/* expected: %r */' % expected[:200]
    return r


def corpus_case(path):
    """The repository's executable tests carry their own oracle: assertions on what they computed."""
    r = frame.Result()
    with open(path, 'rb') as f:
        src = f.read()
    c = frame.compile_text(RUC, src, args=['-I' + os.path.dirname(path)])
    name = os.path.relpath(path, frame.REPO)
    if not c.ok:
        r['info']['tests not accepted'] += 1
        return r
    try:
        m = vm.VM(vm.Image(c.output.decode('utf-8', 'surrogateescape')), 3000000)
        m.run()
    except vm.VMError as e:
        if e.kind == 'uninitialised':
            r['info']['tests reading what they never wrote'] += 1
        elif '/errors/' not in path and name not in NOT_A_TEST:
            r.violation('test:' + name, 'the machine monitor stopped %s: %s' % (name, e), {'vm.txt': c.output})
        return r
    except vm.Unsupported as e:
        r['info']['tests unsupported by the monitor'] += 1
        return r
    except vm.StepLimit:
        r['info']['tests with too many steps'] += 1
        return r
    if '/errors/' in path:
        r['info']['errors/ tests ending normally'] += 1
    r['n'] += 1
    r['saw'].append(name)
    return r


def run(ctx):
    global RUC, SEED
    RUC, SEED = ctx.build('rel'), ctx.seed
    ctx.rule = ('generated programs (all statement kinds, types, scopes, calls, conversions) compiled and executed under a '
                'monitored virtual machine against a reference interpreter; distinct = opcodes executed, output digests '
                'and repository tests executed')
    ctx.assumptions += ['the virtual machine follows the reference interpreter for the instruction set (its source is not in the repository); '
                        'the machine model was derived from the code generator and agrees with it on every construct generated']
    ctx.map(case, range(ctx.size(24000, 400000)), chunk=32)
    tests = sorted(glob.glob(os.path.join(frame.REPO, 'tests/codegen/executable/**/*.c'), recursive=True))
    ctx.map(corpus_case, [t for t in tests if '/include/' not in t])
    for f in sorted(glob.glob(os.path.join(frame.VERIF, 'known/P01-*.c'))):
        probe(ctx, f)


def probe(ctx, f):
    """known/P01-name.c with the expected output on its first line: // [text]"""
    src = open(f).read()
    expected = src.split('\n', 1)[0][3:].encode().decode('unicode_escape')
    r = frame.Result()
    c = frame.compile_text(RUC, src)
    if c.ok:
        judge_program(r, src, expected, c.output)
    else:
        r.violation('rejected', c.run.text)
    ctx.known_probe(os.path.basename(f), bool(r['bad']), r['bad'] and r['bad'][0][1])
