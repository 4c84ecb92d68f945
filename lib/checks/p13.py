"""P13: every emitted file is structurally valid for its consumer."""
import glob
import os
import random

import frame
import gen
import hostile
import shapes
import vm

RUC = None


def judge(case):
    r = frame.Result()
    if case[0] == 'test':
        with open(case[1], 'rb') as f:
            data = f.read()
        label, args = 'test', ['-I' + os.path.dirname(case[1])]
    else:
        data, label, _ = hostile.make(case)
        args = []
    rng = random.Random(str(case))
    target = rng.choice(['-VM', '-VM', '-VM', '-VM', '-LLVM', '-MIPS'])
    c = frame.compile_text(RUC, data, target, args, retry=False)
    if c.run.timeout or (c.run.rc is not None and c.run.rc not in (0, 64)):
        r['info']['ended otherwise (judged by P04, P05)'] += 1
        return r
    r['n'] = 1
    files = {'input.c': data, 'output.txt': c.output or b'', 'stderr.txt': c.run.err}
    if c.rejected:
        r['saw'].append('rejected %s %s' % (target, label))
        if c.output and c.output.strip():
            r.violation('partial:' + target, 'a rejected compilation for %s leaves %d bytes in the output file' % (target, len(c.output)), files)
        return r
    if c.output is None:
        r.violation('missing:' + target, 'an accepted compilation for %s leaves no output file' % target, files)
        return r
    r['saw'].append('accepted %s %s' % (target, label))
    if target != '-VM':
        return r
    try:
        text = c.output.decode('utf-8', 'strict')
        image = vm.Image(text)
        r['info']['instructions decoded'] += vm.validate(image)
        r['info']['cells checked'] += sum(map(len, (image.mem, image.funcs, image.idents, image.reprs, image.types)))
        r['info']['files validated'] += 1
        r['saw'] += ['op %d' % o for _, o, _ in vm.decode(image)]
    except UnicodeDecodeError:
        r.violation('format', 'the output file is no text', files)
    except vm.VMError as e:
        r.violation('image:' + e.kind, '%s: %s' % (label, e), files)
    return r


def run(ctx):
    global RUC
    RUC = ctx.build('rel')
    hostile.corpus()
    ctx.rule = ('output files of accepted and rejected compilations (generated, repository, stretched and mutated programs) read back by an '
                'independent loader; distinct = (outcome, target, kind of input) and opcodes decoded')
    cases = [('test', t) for t in sorted(glob.glob(os.path.join(frame.REPO, 'tests', '**', '*.c'), recursive=True))]
    cases += [('gen', 'p13-%s-%d' % (ctx.seed, i)) for i in range(ctx.size(3000, 60000))]
    cases += [('mut', 'p13m-%s-%d' % (ctx.seed, i)) for i in range(ctx.size(9000, 200000))]
    cases += [c for c in shapes.all_cases(ctx.seed, 1 if ctx.quick else 6)]
    ctx.map(judge, cases, chunk=16)
