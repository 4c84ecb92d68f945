"""P08: macro expansion.  Generated documents are preprocessed and their tokens compared with a model's."""
import random
import re
import shutil
import tempfile

import frame
import gen
import pp
import respell

BIN = {}


def preprocess(text, d, name='a.c', args=(), files=None):
    return frame.compile_text(BIN['rel'], text, None, args=['-E', '-Wno'] + list(args), name=name, keep=d, timeout=20, files=files)


def outcome(nodes, model=None):
    """Expected tokens, None when the document has to be rejected; raises TooLong."""
    m = model or pp.Model()
    try:
        return m, pp.flat(m.run(nodes))
    except pp.Wrong as e:
        m.seen.add('rejected: ' + str(e).split()[0] if str(e) else 'rejected')
        return m, None
    except RecursionError:
        raise pp.TooLong('recursion')


def compare(c, want):
    """None, or what is wrong."""
    if c.run.timeout:
        # The model needs a few thousand steps at most, and this was given 20 s and then 80 s
        return 'endless', 'preprocessing does not end'
    if want is None:
        if c.run.rc == 0:
            return 'accepted', 'a document that has to be rejected is accepted'
        return None
    if c.run.rc != 0:
        return 'rejected', 'a correct document is rejected (exit %s)\n%s' % (c.run.rc, c.run.text[-1200:])
    got = pp.lex((c.output or b'').decode('utf-8', 'replace'))
    if got != want:
        k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        return 'tokens', 'token %d of the result: %r instead of %r' % (k, got[max(0, k - 4):k + 6], want[max(0, k - 4):k + 6])
    return None


def shrink(nodes, fails, budget=60):
    """Drop top nodes while it still fails."""
    nodes = list(nodes)
    size = max(1, len(nodes) // 2)
    while size and budget > 0:
        i = 0
        while i < len(nodes) and budget > 0:
            budget -= 1
            fewer = nodes[:i] + nodes[i + size:]
            if fewer and fails(fewer):
                nodes = fewer
            else:
                i += size
        size //= 2
    return nodes


def judged(nodes, d, rseed):
    """(problem, text, want) of the document with the layout drawn from rseed."""
    m, want = outcome(nodes)
    text = pp.Render(random.Random(rseed)).nodes(nodes)
    return compare(preprocess(text, d), want), text, want, m


def document(res, r, focus, d, label, junk=False):
    g = pp.Gen(r, focus)
    nodes = g.document(r.choice([2, 4, 7, 12]))
    if junk:
        m = pp.Tracing()
        try:
            m.run(nodes)
        except pp.Wrong:
            return None
        if not pp.junk_unentered(r, nodes, m.entered, g):
            return None
    rseed = r.random()
    bad, text, want, m = judged(nodes, d, rseed)
    res['n'] += 1
    res['saw'] += ['%s: %s' % (label, s) for s in m.seen]
    if want:
        res['info']['tokens compared'] += len(want)
    else:
        res['info']['documents that have to be rejected'] += 1
    if bad:
        def fails(x):
            try:
                b = judged(x, d, rseed)[0]
            except pp.TooLong:
                return False
            return b is not None and b[0] == bad[0]
        small = shrink(nodes, fails)
        b2, text2, want2, _ = judged(small, d, rseed)
        res.violation('%s:%s' % (label, bad[0]), (b2 or bad)[1] + '\n--- document\n' + text2,
                      {'document.c': text2, 'expected tokens.txt': ' '.join(want2) if want2 is not None else 'rejected', 'full.c': text})
    return text


def broken(res, r, table, d, label, focus):
    """A document with one broken construction where it is processed."""
    k = r.randrange(len(table))
    nodes = [n for n in pp.Gen(r, focus).document(r.choice([0, 2, 3])) if n[0] in ('define', 'text', 'undef')]
    m, want = outcome(nodes)
    if want is None:
        return
    lines = ('junk', table[k])
    place = r.choice(['end', 'if', 'else', 'loop', 'ifndef'])
    if len(table[k]) == 1 and table[k][0].split()[0] in ('#else', '#elif', '#endif', '#endw', '#endm'):
        place = 'end'
    inner = [lines]
    if place == 'end':
        nodes.append(('ifdef', True, 'no_such_macro', [], [], None))
        inner = nodes
        nodes.append(lines)
    elif place == 'if':
        nodes.append(('if', [([('1', True)], inner)], None))
    elif place == 'else':
        nodes.append(('if', [([('0', True)], [])], inner))
    elif place == 'loop':
        inner.insert(0, ('define', 'set', 'LL', [], [('t', '0', True)]))
        nodes += [('define', 'set', 'LL', [], [('t', '1', True)]), ('while', [('LL', True)], inner)]
    else:
        nodes.append(('ifdef', True, 'no_such_macro', inner, [], None))
    seed, plain = r.random(), r.random() < 0.5
    for keep in (True, False):
        # The same document without the broken lines shows that these are what is rejected
        if not keep:
            inner.remove(lines)
        t = pp.Render(random.Random(seed), plain).nodes(nodes)
        c = preprocess(t, d)
        if c.run.timeout:
            return
        res['n'] += 1
        if keep and c.run.rc == 0:
            res.violation('%s:accepted:%s' % (label, ' / '.join(table[k])), 'accepted:\n' + t, {'document.c': t})
        if not keep and c.run.rc != 0:
            res.violation('%s:twin:%s' % (label, ' / '.join(table[k])), 'rejected:\n%s\n%s' % (t, c.run.text[-800:]), {'document.c': t})
    res['saw'].append('%s %d in %s' % (label, k, place))


# ------------------------------------------------------------------- programs written with macros
def balanced(toks, i, j):
    level = 0
    for t in toks[i:j]:
        level += (t in '([{') - (t in ')]}')
        if level < 0:
            return False
    return level == 0


def macroized(r, src):
    """The program with some of its token runs replaced by macros; its meaning must not change."""
    toks = respell.tokens(src)
    words = [i for i, t in enumerate(toks) if not t.isspace() and not t.startswith(('//', '/*'))]
    used = set(toks)
    defs, n = [], 0
    repl = {}
    for _ in range(r.randint(2, 12)):
        a = r.randrange(len(words))
        b = min(len(words), a + r.choice([1, 1, 2, 3, 5, 8, 15]))
        if any(k in repl for k in range(a, b)):
            continue
        span = [toks[words[k]] for k in range(a, b)]
        if b < len(words) and toks[words[b]] == '(' or any(t.startswith('#') for t in span) or not balanced(span, 0, len(span)):
            continue
        # whether white space stood before each token of the run
        gaps = [False] + [words[k] != words[k - 1] + 1 for k in range(a + 1, b)]
        n += 1
        name = r.choice(['MAC%d', 'м%d', '_M%d', 'Макрос%d']) % n
        if name in used:
            continue
        text = ''.join((' ' if g else '') + t for t, g in zip(span, gaps))
        kind = r.random()
        inner = [t for t in span if pp.word(t)]
        if kind < 0.35 or not inner:
            defs.append('#define %s %s' % (name, text))
            use = name
        elif kind < 0.6:
            # one of the words becomes an argument
            w = r.choice(inner)
            defs.append('#define %s(p_) %s' % (name, ''.join((' ' if g else '') + ('p_' if t == w else t) for t, g in zip(span, gaps))))
            use = '%s(%s)' % (name, w)
        elif kind < 0.75:
            # a word is pasted from two parts
            w = r.choice([x for x in inner if len(x) > 1] or [None])
            if w is None:
                n -= 1
                continue
            c = r.randrange(1, len(w))
            if w[c:].isdigit() or True:
                defs.append('#define %s(p_) %s' % (name, ''.join((' ' if g else '') + (w[:c] + ' ## p_' if t == w else t) for t, g in zip(span, gaps))))
            use = '%s(%s)' % (name, w[c:])
        elif kind < 0.9:
            defs.append('#macro %s\n%s\n#endm' % (name, text))
            use = name + r.choice(['', '()'])
        else:
            w = r.choice(inner)
            defs.append('#macro %s(p_)\n%s\n#endm' % (name, ''.join((' ' if g else '') + ('p_' if t == w else t) for t, g in zip(span, gaps))))
            use = '%s(%s)' % (name, w)
        if r.random() < 0.3:
            defs.append('#define %s_ %s' % (name, use))
            use = name + '_'
        for k in range(a, b):
            repl[k] = ''
        repl[a] = use
    if not repl:
        return None, 0
    out = []
    at = {words[k]: v for k, v in repl.items()}
    for i, t in enumerate(toks):
        if i in at:
            v = at[i]
            if v:
                out.append(' ' + v + ' ')
        else:
            out.append(t)
    return '\n'.join(defs) + '\n' + ''.join(out), n


def code_of(c):
    return c.output


def program(res, r, k, seed, d):
    p, src, _, _ = gen.generate('p08-%s-%s' % (seed, k), size=r.choice([0.4, 0.8]), feats={'cyr': r.random() < 0.5})
    if any(len(line) > 3000 for line in src.split('\n')):
        return
    new, n = macroized(r, src)
    if new is None:
        return
    for t in ('-VM', '-LLVM'):
        a = frame.compile_text(BIN['rel'], src, t, keep=d)
        b = frame.compile_text(BIN['rel'], new, t, keep=d)
        if a.run.timeout or b.run.timeout or a.run.rc not in (0, 64):
            continue
        res['n'] += 1
        res['saw'].append('program %s exit %s' % (t, a.run.rc))
        res['info']['macros put into programs'] += n
        files = {'plain.c': src, 'macros.c': new}
        if a.run.rc != b.run.rc:
            res.violation('program:accept:' + t, 'program with macros: exit %s instead of %s\n%s' % (b.run.rc, a.run.rc, b.run.text[-1200:]), files)
        elif a.run.rc == 0 and a.output != b.output:
            res.violation('program:code:' + t, 'program with macros compiles to other code', files)


def case(key):
    kind, seed, k = key
    res = frame.Result()
    r = random.Random('p08-%s-%s-%s' % (kind, seed, k))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        if kind == 'doc':
            text = document(res, r, 'both', d, 'doc')
            if k == 0:
                res['sample'] = text
        elif kind == 'broken':
            broken(res, r, pp.BROKEN_MACRO, d, 'broken', 'both')
        else:
            program(res, r, k, seed, d)
    except pp.TooLong:
        res['info']['documents beyond the limits of the model'] += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run(ctx):
    BIN['rel'] = ctx.build('rel')
    ctx.rule = ('documents whose tokens after preprocessing were compared with the model, broken documents that had to be rejected, and programs written with '
                'macros whose code was compared with the plain program; distinct = kinds of step of the model, broken constructions and their places')
    ctx.assumptions += ['tokens are compared, white space and comments of the result are not']
    ctx.map(case, [('doc', ctx.seed, k) for k in range(ctx.size(25000, 200000))] + [('broken', ctx.seed, k) for k in range(ctx.size(3000, 20000))]
            + [('program', ctx.seed, k) for k in range(ctx.size(5000, 60000))], chunk=8)
