"""P11: spelling, layout and comments never change the program."""
import glob
import os
import random
import re
import shutil
import tempfile

import frame
import gen
import respell
import vm

BIN = {}
KINDS = ['keywords', 'rename', 'layout', 'parens', 'all', 'one line', 'token per line', 'spliced strings']


def rewrite(r, kind, toks):
    m = {}
    if kind in ('keywords', 'all'):
        toks = respell.spelled(r, toks)
    if kind in ('rename', 'all'):
        toks, m = respell.renamed(r, toks)
    if kind in ('layout', 'all'):
        return respell.relayout(r, toks), m
    if kind == 'one line':
        return ' '.join(t for t in toks if not t.isspace() and not t.startswith('//')), m
    if kind == 'token per line':
        return '\n'.join(t for t in toks if not t.isspace() and not t.startswith('//')) + '\n', m
    if kind == 'spliced strings':
        return ''.join(split_string(r, t) for t in toks), m
    return ''.join(toks), m


def split_string(r, t):
    """ "abc" -> "a" "bc" """
    if not t.startswith('"') or len(t) < 4:
        return t
    parts = re.findall(r'\\[0-7]{1,3}|\\x[0-9a-fA-F]+|\\.|[^\\]', t[1:-1], re.S)
    if any('%' in p for p in parts):
        k = r.randrange(len(parts) + 1)
    else:
        k = r.randrange(len(parts) + 1)
    return '"' + ''.join(parts[:k]) + '"' + r.choice([' ', '\n', '\t', '']) + '"' + ''.join(parts[k:]) + '"'


def normal(out, target, m):
    """The emitted code with renamed spellings mapped away: names keep their lengths, so only their characters differ."""
    if target == '-VM':
        im = vm.Image(out.decode('utf-8', 'surrogateescape'))
        return [out.split(b'\n')[1], im.mem, im.funcs, im.idents, vm.types_by_order(im), len(im.reprs)], spelled(im)
    text = out.decode('utf-8', 'surrogateescape')
    order = {n: n for n in re.findall(r'^declare [^@]*@([\w.]+)', text, re.M)}
    order['main'] = 'main'

    def name(x):
        n = x.group(1)
        return '@' + (n if '.' in n else order.setdefault(n, 'f%d' % len(order)))
    return [re.sub(r'@("[^"]+"|[\w.]+)', name, text)], None


def spelled(im):
    r, out, i = im.reprs, [], 0
    return r


def names_of(reprs):
    """Maximal zero-terminated spellings: the table stores (…, characters, 0)."""
    out, cur = [], []
    for x in reprs:
        if x == 0:
            out.append(''.join(map(chr, cur)))
            cur = []
        else:
            cur.append(x)
    return out


def judge(res, what, ref, got, target, m, files):
    res['n'] += 1
    if (ref.run.rc == 0) != (got.run.rc == 0):
        res.violation('%s:accept:%s' % (what, target), 'rewritten (%s) program: exit %s instead of %s\n%s' % (what, got.run.rc, ref.run.rc, got.run.text[-1500:]), files)
        return
    if ref.run.rc != 0:
        return
    a, ra = normal(ref.output, target, m)
    b, rb = normal(got.output, target, {})
    if a != b:
        part = next(i for i, (x, y) in enumerate(zip(a, b)) if x != y)
        res.violation('%s:code:%s' % (what, target), 'rewritten (%s) program gives other code for %s (part %d)\n%s' % (what, target, part, first(a[part], b[part])), files)
        return
    if ra is not None:
        na, nb = names_of(ra), names_of(rb)
        want = [translate(n, m) for n in na]
        if want != nb and what != 'keywords' and what != 'all':
            k = next((i for i, (x, y) in enumerate(zip(want, nb)) if x != y), None)
            res.violation('%s:names:%s' % (what, target), 'rewritten (%s): name table differs: %r instead of %r' % (what, nb[k:k + 3] if k is not None else len(nb), want[k:k + 3] if k is not None else len(want)), files)


def translate(n, m):
    return m.get(n, n)


def first(x, y):
    if isinstance(x, list):
        k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        return 'word %d: %s / %s' % (k, x[max(0, k - 6):k + 6], y[max(0, k - 6):k + 6])
    k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return '%r / %r' % (x[max(0, k - 60):k + 60], y[max(0, k - 60):k + 60])


def compile2(src, target, d):
    return frame.compile_text(BIN['rel'], src, target, keep=d, timeout=20)


def case(key):
    seed, k, path = key
    res = frame.Result()
    r = random.Random('p11-%s-%s' % (seed, k))
    p = None
    if path:
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            src = f.read()
        label = 'test'
        toks = respell.tokens(src)
        if any(t.startswith('#') for t in toks):
            return res
    else:
        p, src, _, _ = gen.generate('p11-%s-%d' % (seed, k), size=r.choice([0.4, 0.8, 1.2]), feats={'cyr': r.random() < 0.5})
        label = 'generated'
        toks = respell.tokens(src)
    if ''.join(toks) != src:
        return res
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        ref = {t: compile2(src, t, d) for t in ('-VM', '-LLVM')}
        for kind in ([r.choice(KINDS), r.choice(KINDS)] if path else r.sample(KINDS, 3)):
            if kind == 'parens':
                if p is None:
                    continue
                new, m = gen.text(p, random.Random(k), r.choice([0.05, 0.2, 0.6])), {}
                a = [t for t in respell.tokens(src) if not t.isspace() and t not in '()']
                b = [t for t in respell.tokens(new) if not t.isspace() and t not in '()']
                if a != b:
                    res['info']['parenthesised otherwise'] += 1
                    continue
            else:
                new, m = rewrite(r, kind, toks)
            for t in ('-VM', '-LLVM'):
                if ref[t].run.timeout or ref[t].run.rc not in (0, 64):
                    continue
                got = compile2(new, t, d)
                judge(res, kind, ref[t], got, t, m, {'original.c': src, 'rewritten.c': new})
                res['saw'].append('%s %s %s exit %s' % (kind, t, label, ref[t].run.rc))
            for x in set(respell.tokens(new)) & set(respell.SPELL):
                res['saw'].append('word ' + x)
            res['info']['bytes of rewritten programs'] += len(new)
        if k == 0:
            res['sample'] = new[:800]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run(ctx):
    BIN['rel'] = ctx.build('rel')
    ctx.rule = ('pairs (program, rewritten program) whose emitted code was compared for VM and LLVM; distinct = (rewriting, target, source, outcome) '
                'and keyword spellings used')
    ctx.assumptions += ['renamings keep the length of every name in characters, so that the offsets in the table of spellings stay the same']
    cases = [(ctx.seed, k, None) for k in range(ctx.size(3600, 60000))]
    tests = [t for t in sorted(glob.glob(os.path.join(frame.REPO, 'tests', '**', '*.c'), recursive=True)) if '/include/' not in t]
    cases += [(ctx.seed, 't%d' % i, t) for i, t in enumerate(tests)]
    ctx.map(case, cases, chunk=8)
