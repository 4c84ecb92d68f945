"""P17: whether a program is accepted, and with which messages, does not depend on the target."""
import glob
import os
import random
import re
import shutil
import tempfile

import frame
import hostile
import shapes

BIN = {}
QUOTED = re.compile(r"'[^']*'|\d+")


def outcome(c):
    return c.run.rc, c.run.err, c.run.out


def judge(case):
    r = frame.Result()
    args = []
    if case[0] == 'test':
        with open(case[1], 'rb') as f:
            data = f.read()
        label = 'test'
        args = ['-I' + os.path.dirname(case[1])]
    else:
        data, label, _ = hostile.make(case)
    rng = random.Random('p17' + str(case))
    if rng.random() < 0.2:
        args.append(rng.choice(['-c', '-DX', '-Wno', '-i64', '-I.']))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        got = {}
        for t in ('-VM', '-LLVM', '-MIPS'):
            c = frame.compile_text(BIN['rel'], data, t, args, timeout=10, keep=d, retry=False)
            if c.run.timeout or c.run.rc not in (0, 64):
                r['info']['ended otherwise (judged by P04, P05)'] += 1
                if t != '-MIPS':
                    return r
                continue
            got[t] = (c, outcome(c))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    vm, llvm = got['-VM'], got['-LLVM']
    files = {'input.c': data, 'vm.err': vm[0].run.err, 'llvm.err': llvm[0].run.err}

    def front(c):
        """Messages about the program, without those a generator gives about itself."""
        return [l for l in c.run.err.decode('utf-8', 'replace').split('\n')]
    r['n'] = 1
    r['saw'].append('%s %s' % (label if case[0] != 'mut' else 'mutation', vm[1][0]))
    for l in front(vm[0]):
        if 'ошибка' in l or 'предупреждение' in l:
            r['saw'].append('message ' + QUOTED.sub("''", l.split('a.c')[-1])[-70:])
    if vm[1] != llvm[1]:
        own = generator_limit(llvm[0], vm[0])
        if own:
            r['info']['stopped by a limit of the LLVM generator'] += 1
            r['saw'].append('limit ' + own)
        else:
            r.violation('vm-llvm:%s:%s' % (vm[1][0], llvm[1][0]), 'exit %s for -VM, %s for -LLVM (%s)\n-VM:   %s\n-LLVM: %s'
                        % (vm[1][0], llvm[1][0], label, vm[0].run.text[-600:], llvm[0].run.text[-600:]), files)
    if '-MIPS' in got:
        m = got['-MIPS']
        if vm[1][0] == 64 and m[1] != vm[1] and any('ошибка' in l for l in without(vm[0].run.err.decode('utf-8', 'replace'))):
            r.violation('vm-mips', 'rejected for -VM, otherwise for -MIPS (exit %s)\n-VM:   %s\n-MIPS: %s'
                        % (m[1][0], vm[0].run.text[-600:], m[0].run.text[-600:]), files)
        r['n'] += 1
    return r


LIMITS = ['слишком много аргументов у функции, допустимое количество до 128',     # LLVM
          'массив не может иметь статические и динамические границы',   # LLVM
          'слишком сложное выражение, не хватает регистров',               # MIPS
          'невозможно сжать таблицы до заданного размера']               # VM: a value does not fit the word of the target


def generator_limit(c, ref):
    """A generator that cannot express a construct yet says so; that message is listed here."""
    a = c.run.err.decode('utf-8', 'replace')
    b = ref.run.err.decode('utf-8', 'replace')
    for l in LIMITS:
        if (l in a) != (l in b) and without(a) == without(b):
            return l
    return None


def without(text):
    return [l for l in re.sub('\x1b\\[[0-9;]*m', '', text).split('\n') if l.strip() and not any(x in l for x in LIMITS)]


def run(ctx):
    BIN['rel'] = ctx.build('rel')
    hostile.corpus()
    ctx.rule = ('programs compiled for each target; exit code and messages compared; distinct = (kind of program, outcome) and message texts')
    ctx.assumptions += ['-MIPS is an incomplete generator: it is compared only where the program is rejected']
    cases = [('test', t) for t in sorted(glob.glob(os.path.join(frame.REPO, 'tests', '**', '*.c'), recursive=True))]
    cases += [('gen', 'p17-%s-%d' % (ctx.seed, i)) for i in range(ctx.size(1500, 40000))]
    cases += [('mut', 'p17m-%s-%d' % (ctx.seed, i)) for i in range(ctx.size(5000, 120000))]
    cases += [c for c in shapes.all_cases(ctx.seed, 1 if ctx.quick else 6)]
    ctx.map(judge, cases, chunk=16)
