"""P06: every violation of a language rule is rejected, every program that obeys the rules is accepted."""
import os
import random
import re

import frame
import gen
import rules
import vm

BIN = {}
TOP = '''enum En { A0, A1 };
enum Gn { B0, B1 };
struct St { int x; float y; };
struct Ot { int x; };
int fn(int q) { return q; }
void proc(int q) { q = 1; }
struct St mk(int q) { struct St t = {q, 1.0}; return t; }
'''
LOCAL = '''int iv = 1; char cv = 'a'; float fv = 1.5; bool bv = true; enum En ev = A0; enum Gn gv = B0;
const int ki = 3; const float kf = 2.0; const char kc = 'k'; const bool kb = true;
int ia[3] = {1,2,3}; float fa[2] = {1.0,2.0}; int aa[2][3]; struct St sa[2]; char ca[4];
struct St sv = {1, 2.0}; struct Ot so = {1}; const struct St ks = {1, 2.0};
int *ip = &iv; float *fp = &fv; struct St *sp = &sv; const int *kp = &ki; int *const pk = &iv;
'''
# places an expression can stand in; %s is the expression
PLACES = [('statement', '%s;'), ('condition', 'if ((%s, true)) ;'), ('assigned', 'iv = (%s, 1);'), ('argument', 'fn((%s, 1));'),
          ('for condition', 'for (; (%s, false); ) ;'), ('for step', 'for (; bv; %s) { bv = false; }'), ('index', 'ia[(%s, 0)] = 1;'),
          ('switch', 'switch ((%s, 1)) { case 1: ; }'), ('while body', 'while (bv) { bv = false; %s; }'),
          ('do body', 'do %s; while (false);'), ('dead code', 'if (false) %s;'), ('else', 'if (bv) ; else %s;'),
          ('ternary', 'iv = bv ? (%s, 1) : 2;'), ('printf', 'printf("%%i", (%s, 1));'), ('case', 'switch (iv) { case 7: %s; break; }'),
          ('initialiser', 'int qq = (%s, 1);'), ('array initialiser', 'int qq[2] = {1, (%s, 1)};'), ('while condition', 'while ((%s, false)) ;'),
          ('right of and', 'bv = bv && (%s, true);'), ('nested', '{ { ; { %s; } } }'), ('for init', 'for (%s; false; ) ;')]
NAMES = ['iv', 'cv', 'fv', 'bv', 'ev', 'gv', 'ki', 'kf', 'kc', 'kb', 'ia', 'fa', 'aa', 'sa', 'ca', 'sv', 'so', 'ks', 'ip', 'fp', 'sp', 'kp',
         'pk', 'qq', 'zz', 'zf', 'zy', 'zzf', 'Zz', 'Zy', 'ZQ', 'ZR', 'ZS', 'Km', 'Zt', 'zz5', 'whilz', 'En', 'Gn', 'St', 'Ot', 'A0', 'A1', 'B0', 'B1', 'fn', 'proc', 'mk']
ALONE = {'break outside', 'continue outside', 'continue in switch', 'break in if', 'break after loop', 'continue after loop',
         'continue in switch after loop', 'case outside', 'default outside', 'case after switch', 'case in loop', 'return value in void'}
WORD = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|\w+')
LEX = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|\w+|\S')


def rename(text, keep=()):
    return WORD.sub(lambda m: 'zz_' + m.group() if m.group() in NAMES and m.group() not in keep else m.group(), text)


def rename_top(text):
    def f(m):
        w = m.group()
        return 'zt_' + w if re.fullmatch(r'[a-zA-Z]', w) or w in ('zz', 'iff') else w
    return WORD.sub(f, text)


def places(text):
    """(offsets in function bodies where a statement may stand, offsets between external definitions)."""
    inner, outer, stack, par, prev = [], [0], [], 0, ''
    toks = list(LEX.finditer(text))
    for i, m in enumerate(toks):
        t = m.group()
        nxt = toks[i + 1].group() if i + 1 < len(toks) else ''
        if t in '([':
            par += 1
        elif t in ')]':
            par -= 1
        elif t == '{':
            before = toks[i - 2].group() if i > 1 else ''
            kind = 'data' if prev in ('=', ',', '{', 'struct', 'enum', '(') and par == 0 and (prev != '{' or stack and stack[-1] == 'data') \
                or before in ('struct', 'enum') or par else 'code'
            stack.append(kind)
        elif t == '}':
            stack.pop()
            if not stack and nxt != ';' and nxt != '':
                outer.append(m.end())
        elif t == ';' and par == 0:
            if not stack:
                outer.append(m.end())
            elif stack[-1] == 'code' and nxt not in ('else', 'while') and 'data' not in stack:
                inner.append(m.end())
        prev = t
    return inner, outer


def verdict(src, mode):
    """('rejected' | 'accepted' | something unexpected, run)"""
    c = frame.compile_text(BIN['rel'], src, mode, timeout=20)
    if c.run.timeout:
        return None, c
    text = c.run.text
    if c.run.rc == 64:
        if 'ошибка' not in text:
            return 'fails without an error message', c
        if c.output:
            return 'error, but code in the output file', c
        return 'rejected', c
    if c.run.rc == 0:
        if 'ошибка' in text:
            return 'error message, but success', c
        if not c.output:
            return 'success without output', c
        return 'accepted', c
    return 'exit code %s' % c.run.rc, c


def judge(res, key, src, want, mode, note=''):
    v, c = verdict(src, mode)
    res['n'] += 1
    if v is None:
        res['info']['timeouts (inconclusive)'] += 1
        return True
    if v != want:
        res.violation('%s:%s' % (key, want), 'must be %s, is %s with %s %s\n%s\n--- source\n%s'
                      % (want, v, mode, note, c.run.text[:600], src if len(src) < 3000 else src[:1500] + '\n...\n' + src[-1500:]), {'program.c': src})
        return False
    return True


def host(r):
    for _ in range(20):
        p, src, exp, it = gen.generate(r.randrange(1 << 30), None, r.choice([0.3, 0.5, 0.8]))
        inner, outer = places(src)
        if inner:
            return src, inner, outer
    raise RuntimeError('no host program')


def wrap_alone(r, text):
    """A function of its own around statements which depend on the constructs around them."""
    return 'void zz_host(int zz_p)\n{\n%s%s\n}\n' % (rename(LOCAL), text)


def embed(r, h, stmts, alone=False):
    """Put a block with the statements somewhere into a whole program."""
    src, inner, outer = h
    body = rename(stmts)
    if alone:
        at = r.choice(outer)
        return rename(TOP) + src[:at] + '\n' + wrap_alone(r, body) + src[at:] + '\n'
    at = r.choice(inner)
    return rename(TOP) + src[:at] + '\n{\n' + rename(LOCAL) + body + '\n}\n' + src[at:] + '\n'


def table_case(key):
    """One pair of the table at several places of several programs."""
    seed, k, name, bad, good, top = key
    r = random.Random('p06-t-%s-%d-%s' % (seed, k, name))
    res = frame.Result()
    res['saw'].append('rule ' + name)
    if top:
        judge(res, name, bad + '\n', 'rejected', r.choice(['-VM', '-LLVM']))
        if good is not None:
            judge(res, name, good + '\n', 'accepted', '-VM')
        if name in WHOLE:
            return res
        h = host(r)
        src, inner, outer = h
        for text, want in ((bad, 'rejected'), (good, 'accepted')):
            if text is None:
                continue
            t = rename_top(text).replace('void main()', 'void zt_main%d()' % k)
            at = r.choice(outer)
            judge(res, name, src[:at] + '\n' + t + '\n' + src[at:], want, r.choice(['-VM', '-LLVM']) if want == 'rejected' else '-VM', '(embedded)')
        res['saw'].append('rule %s embedded' % name)
        return res
    h = host(r)
    for text, want in ((bad, 'rejected'), (good, 'accepted')):
        src = embed(r, h, text, name in ALONE)
        judge(res, name, src, want, '-VM')
        if want == 'rejected':
            judge(res, name, src, want, r.choice(['-LLVM', '-LLVM', '-MIPS']))
    plain = TOP + 'void main()\n{\n' + LOCAL
    judge(res, name, plain + bad + '\n}\n', 'rejected', r.choice(['-VM', '-LLVM']))
    judge(res, name, plain + good + '\n}\n', 'accepted', '-VM')
    judge(res, name, plain + good + '\n}\n', 'accepted', '-LLVM')
    return res


WHOLE = {'no main', 'two mains', 'main float', 'main two params', 'empty file', 'only comment', 'garbage at top', 'call main'}


def matrix_bad(key):
    """Violations of operand types: each in a program of its own."""
    seed, k, cases = key
    r = random.Random('p06-m-%s-%d' % (seed, k))
    res = frame.Result()
    plain = TOP + 'void main()\n{\n' + LOCAL
    h = host(r)
    for stmt in cases:
        e = stmt[:-1]
        place = 'statement'
        if re.match(r'(if|while|do|for|switch|int\*?|float\*?|bool|char|struct|enum|const) ', stmt) or ' = {' in stmt:
            text = r.choice(['%s', '{ %s }', 'if (bv) { %s }', 'while (bv) { bv = false; %s }', 'switch (iv) { case 1: { %s } }', 'for (; bv; bv = false) { ; { %s } }']) % stmt
        else:
            place, form = r.choice(PLACES)
            text = form % e
        src = plain + text + '\n}\n' if r.random() < 0.8 else embed(r, h, text)
        judge(res, 'operands:' + shape(stmt), src, 'rejected', '-VM' if r.random() < 0.8 else '-LLVM', place)
        res['saw'].append('reject %s in %s' % (operator(stmt), place))
    return res


def matrix_good(key):
    """Obeying statements: many in one program; when the program is rejected, each on its own."""
    seed, k, cases = key
    r = random.Random('p06-g-%s-%d' % (seed, k))
    res = frame.Result()
    plain = TOP + 'void main()\n{\n' + LOCAL
    texts = []
    for stmt in cases:
        e = stmt[:-1]
        if re.match(r'(if|while|do|for|switch|int\*?|float\*?|bool|char|struct|enum|const) ', stmt) or ' = {' in stmt:
            texts.append((stmt, '{ %s }' % stmt))
            place = 'statement'
        else:
            place, form = r.choice(PLACES)
            texts.append((stmt, '{ %s }' % (form % e)))
        res['saw'].append('accept %s in %s' % (operator(stmt), place))
    if judge(frame.Result(), 'x', plain + '\n'.join(t for _, t in texts) + '\n}\n', 'accepted', '-VM'):
        res['n'] += len(texts)
        return res
    one = False
    for stmt, t in texts:
        one |= not judge(res, 'operands:' + shape(stmt), plain + t + '\n}\n', 'accepted', '-VM')
    if not one:
        judge(res, 'operands together', plain + '\n'.join(t for _, t in texts) + '\n}\n', 'accepted', '-VM')
    return res


def operator(stmt):
    m = re.match(r'(if|while|do|for|switch|const int|int|float|bool|char|struct|enum|const)\b', stmt)
    if m:
        return m.group(1) + (' init' if '=' in stmt else '')
    if ' ? ' in stmt:
        return '?:'
    m = re.search(r' (\S+) ', stmt)
    if m:
        return m.group(1)
    return re.sub(r'[\w.]+', 'x', stmt[:-1])


def shape(stmt):
    return stmt


def scale_case(key):
    """Size alone is no violation: many names of each kind, large values; the result is also executed."""
    kind, n, seed = key
    r = random.Random('p06-s-%s-%s-%d' % (seed, kind, n))
    res = frame.Result()
    pick = sorted(set([0, 1, n - 1, n // 2] + [r.randrange(n) for _ in range(6)]))
    out = []
    if kind == 'locals':
        L = ['void main() {'] + ['int v%d = %d;' % (i, i) for i in range(n)]
        for i in pick:
            L += ['v%d += 3;' % i, 'v%d = v%d * 2;' % (i, i), 'printf("%%i\\n", v%d);' % i]
            out.append((i + 3) * 2)
        L.append('}')
    elif kind == 'globals':
        L = ['int v%d = %d;' % (i, i) for i in range(n)] + ['void main() {']
        for i in pick:
            L += ['v%d += 3;' % i, 'v%d;' % i, 'printf("%%i\\n", v%d);' % i]
            out.append(i + 3)
        L.append('}')
    elif kind == 'functions':
        L = ['int h(int);'] + ['int f%d(int a, int b) { return a + b + %d; }' % (i, i) for i in range(n)]
        L += ['int h(int a) { return a + 7; }', 'void main() {']
        for i in pick:
            L += ['f%d(1, 2);' % i, 'printf("%%i\\n", f%d(1, h(2)));' % i]
            out.append(1 + 9 + i)
        L.append('}')
    elif kind == 'predeclared':
        L = ['int f%d(int);' % i for i in range(n)] + ['int f%d(int a) { if (a == 0) return %d; return f%d(a - 1); }' % (i, i, (i + 1) % n) for i in range(n)]
        L += ['void main() {']
        for i in pick:
            L += ['f%d(2);' % i, 'printf("%%i\\n", f%d(2));' % i]
            out.append((i + 2) % n)
        L.append('}')
    elif kind == 'structures':
        L = ['struct S%d { %s };' % (i, ' '.join('int m%d_%d;' % (i, j) for j in range(4))) for i in range(n)]
        L += ['int g%d(struct S%d s, int b) { return s.m%d_3 + b; }' % (i, i, i) for i in pick]
        L += ['void main() {']
        for i in pick:
            L += ['struct S%d s%d = {1, 2, 3, %d};' % (i, i, i), 's%d.m%d_3 += 1;' % (i, i), 'printf("%%i\\n", g%d(s%d, 5));' % (i, i)]
            out.append(i + 6)
        L.append('}')
    elif kind == 'one big structure':
        L = ['struct S { %s };' % ' '.join('int m%d;' % i for i in range(n)), 'void main() {', 'struct S s;', 'int after = 4;']
        for i in pick:
            L += ['s.m%d = %d;' % (i, i), 'after = after + 1;']
        L += ['after;'] + ['printf("%%i\\n", s.m%d);' % i for i in pick] + ['printf("%i\\n", after);', '}']
        out = pick + [4 + len(pick)]
    elif kind == 'enumerators':
        L = ['enum E { %s };' % ', '.join('E%d' % i for i in range(n)), 'void main() {', 'int x = 0;']
        for i in pick:
            L += ['E%d;' % i, 'E%d + 1;' % i, 'x = E%d;' % i, 'printf("%i\\n", x);']
            out.append(i)
        L.append('}')
    elif kind == 'enumerations':
        L = ['enum E%d { A%d, B%d = %d };' % (i, i, i, i * 7) for i in range(n)] + ['int f(enum E%d e) { return e; }' % (n - 1), 'void main() {']
        for i in pick:
            L += ['enum E%d e%d = B%d;' % (i, i, i), 'B%d;' % i, 'printf("%%i\\n", e%d);' % i]
            out.append(i * 7)
        L += ['printf("%%i\\n", f(B%d));' % (n - 1), '}']
        out.append((n - 1) * 7)
    elif kind == 'typedefs':
        L = ['typedef int T%d;' % i for i in range(n)] + ['T%d f(T%d a) { return a + 1; }' % (n - 1, n // 2), 'void main() {']
        for i in pick:
            L += ['T%d t%d = f(%d);' % (i, i, i), 't%d = t%d + 1;' % (i, i), 'printf("%%i\\n", t%d);' % i]
            out.append(i + 2)
        L.append('}')
    elif kind == 'signatures':
        # a new function type each time, made of the bits of its number
        L = []
        for i in range(n):
            L.append('int f%d(%s) { return p0 + %d; }' % (i, ', '.join('%s p%d' % ('float' if b and i >> b & 1 else 'int', b) for b in range(9)), i))
        L.append('void main() {')
        for i in pick:
            L.append('printf("%%i\\n", f%d(4, 1, 1, 1, 1, 1, 1, 1, 1));' % i)
            out.append(4 + i)
        L.append('}')
    elif kind == 'scopes':
        L = ['void main() {', 'int x = 0;'] + ['{ int x = %d; x++; { int y = x; y; } }' % i for i in range(n)] + ['x += 5;', 'printf("%i\\n", x);', '}']
        out = [5]
    elif kind == 'cases':
        L = ['int f(int a) { switch (a) {'] + ['case %d: return %d;' % (i * 3 - 50, i) for i in range(n)] + ['default: return -1; } return -2; }', 'void main() {']
        for i in pick:
            L.append('printf("%%i %%i\\n", f(%d), f(%d));' % (i * 3 - 50, i * 3 - 49))
            out.append('%d -1' % i)
        L.append('}')
    elif kind == 'strings':
        L = ['void main() {'] + ['printf("s%d\\n");' % i for i in range(n)] + ['}']
        out = ['s%d' % i for i in range(n)]
    else:
        L = ['void main() {', 'int x = 0;'] + ['x = x + %d;' % (i % 7) for i in range(n)] + ['printf("%i\\n", x);', '}']
        out = [sum(i % 7 for i in range(n))]
    src = '\n'.join(L) + '\n'
    res['saw'].append('scale %s' % kind)
    name = 'scale:' + kind
    v, c = verdict(src, '-VM')
    res['n'] += 1
    if v is None:
        res['info']['timeouts (inconclusive)'] += 1
    elif v != 'accepted':
        res.violation(name, '%d %s: must be accepted, is %s\n%s' % (n, kind, v, c.run.text[:600]), {'program.c': src})
    else:
        want = ''.join('%s\n' % x for x in out)
        try:
            m = vm.run_text(c.output.decode())
            got = m.text() if callable(getattr(m, 'text', None)) else ''.join(m.out)
        except vm.VMError as ex:
            got = 'the machine stops: %s' % ex
        res['n'] += 1
        if got != want:
            res.violation(name + ':result', '%d %s: prints %r, must print %r' % (n, kind, got[:300], want[:300]), {'program.c': src})
    return res


SCALES = ['locals', 'globals', 'functions', 'predeclared', 'structures', 'one big structure', 'enumerators', 'enumerations', 'typedefs',
          'signatures', 'scopes', 'cases', 'strings', 'statements']


def clean_case(key):
    """Programs the generator makes obey every rule: accepted by both front ends, in every spelling."""
    seed, k = key
    r = random.Random('p06-c-%s-%d' % (seed, k))
    res = frame.Result()
    p, src, exp, it = gen.generate(r.randrange(1 << 30), None, r.choice([0.5, 1, 1, 2]))
    judge(res, 'generated program', src, 'accepted', '-VM')
    res['saw'].append('generated program')
    # two violations do not cancel each other
    inner, outer = places(src)
    if len(inner) > 1:
        bads = r.sample([x for x in rules.S if x[0] not in ALONE], 2)
        a, b = sorted(r.sample(inner, 2))
        blk = ['\n{\n' + rename(LOCAL) + rename(x[1]) + '\n}\n' for x in bads]
        judge(res, 'two violations:' + bads[0][0] + '+' + bads[1][0], rename(TOP) + src[:a] + blk[0] + src[a:b] + blk[1] + src[b:], 'rejected', '-VM')
        res['saw'].append('two violations')
    return res


def run(ctx):
    BIN['rel'] = ctx.build('rel')
    ctx.rule = 'distinct rules, operators at the places they stood, kinds of growth'
    r = ctx.rng
    reps = ctx.size(1, 12)
    cases = []
    for k in range(reps):
        cases += [(ctx.seed, k, n, b, g, False) for n, b, g in rules.S]
        cases += [(ctx.seed, k, n, b, g, True) for n, b, g in rules.T]
    ctx.map(table_case, cases)
    good, bad = [], []
    for f in (rules.unary, rules.binary, rules.tern, rules.inits):
        for stmt, v in f():
            if v is True:
                good.append(stmt)
            elif v is False:
                bad.append(stmt)
    ctx.info['type combinations that must be accepted'] = len(good)
    ctx.info['type combinations that must be rejected'] = len(bad)
    r.shuffle(good)
    r.shuffle(bad)
    bad = bad[:ctx.size(22000, len(bad) * 2)]
    ctx.map(matrix_good, [(ctx.seed, k, good[k * 60:k * 60 + 60]) for k in range((len(good) + 59) // 60)])
    ctx.map(matrix_bad, [(ctx.seed, k, bad[k * 40:k * 40 + 40]) for k in range((len(bad) + 39) // 40)])
    ctx.map(scale_case, [(kind, n, ctx.seed) for kind in SCALES for n in ((60, 1300) if ctx.quick else (60, 500, 1100, 2000, 4000))
                         if not (kind == 'signatures' and n > 512 and False)], chunk=1)
    ctx.map(clean_case, [(ctx.seed, k) for k in range(ctx.size(150, 4000))])
