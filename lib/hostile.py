"""Workload of hostile inputs shared by the sanitizer checks."""
import glob
import os
import random

import frame
import gen
import mutate
import shapes

CORPUS = None
TARGETS = ['-VM', '-VM', '-VM', '-LLVM', '-MIPS']


def corpus():
    global CORPUS
    if CORPUS is None:
        CORPUS = []
        for f in sorted(glob.glob(os.path.join(frame.REPO, 'tests', '**', '*.c'), recursive=True)):
            if os.path.getsize(f) < 6000:
                with open(f, encoding='utf-8', errors='surrogateescape') as h:
                    CORPUS.append(h.read())
    return CORPUS


def mutated(key):
    r = random.Random(key)
    c = corpus()
    src = r.choice(c) if c and r.random() < 0.6 else gen.generate('hz%d' % r.randrange(100000), size=0.6)[1]
    b, names = mutate.mutate(r, src, r.choice(c) if c else src)
    return b, names, r


def make(case):
    """-> (bytes, label, random generator)"""
    if case[0] == 'mut':
        b, names, r = mutated(case[1])
        return b, 'mutation ' + '+'.join(sorted(set(names))), r
    if case[0] == 'test':
        with open(case[1], 'rb') as f:
            return f.read(), 'test', random.Random(case[1])
    if case[0] == 'gen':
        return gen.generate(case[1], size=1.0)[1].encode(), 'generated', random.Random(case[1])
    s = shapes.make(case)
    return s.encode('utf-8', 'surrogateescape'), case[0] + ' %d' % case[1], random.Random(case[2])
