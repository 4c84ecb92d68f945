"""P03: literals and constant expressions keep their exact value in every place a constant may stand."""
import glob
import math
import os
import random
import struct

import frame
import p02
import vm

RUC = None
SEED = 1
LO, HI = -2 ** 31, 2 ** 31 - 1
CHARS = [('a', 97), ('Z', 90), ('0', 48), (' ', 32), ('я', 0x44f), ('Ё', 0x401), ('%', 37), ('"', 34), ('\\"', 34), ('\\n', 10), ('\\t', 9),
         ('\\н', 10), ('\\т', 9), ('\\0', 0), ('\\\\', 92), ("\\'", 39), ('~', 126), ('é', 0xe9), ('€', 0x20ac), ('😀', 0x1f600)]


class Skip(Exception):
    """The expression has no defined value (overflow, division by zero, shift too far)."""


def wrap(v):
    if not LO <= v <= HI:
        raise Skip
    return v


def fl(v):
    if math.isinf(v) or math.isnan(v):
        raise Skip
    return v


def int_spelling(r, v):
    """A spelling of a value that is not negative."""
    k = r.randrange(9)
    if k < 3:
        return str(v)
    if k == 3:
        s = '%x' % v
        return '0' + r.choice('xX') + '0' * r.choice([0, 0, 1, 3]) + ''.join(r.choice([c, c.upper()]) for c in s)
    if k == 4:
        return '0' + r.choice('oO') + '0' * r.choice([0, 0, 2]) + '%o' % v
    if k == 5:
        return '0' + r.choice('bB') + '0' * r.choice([0, 0, 2]) + bin(v)[2:]
    if k == 6:
        return '0' + r.choice('dD') + str(v)
    if k == 7:
        z = len(str(v)) - len(str(v).rstrip('0'))
        if v and z:
            n = r.randint(1, z)
            return str(v // 10 ** n) + r.choice('eEеЕ') + r.choice(['', '+']) + '0' * r.choice([0, 0, 1]) + str(n)
        return str(v) + r.choice('eE') + r.choice(['0', '+0'])
    return '0' * r.choice([1, 2, 5]) + str(v)


def float_spelling(r):
    k = r.randrange(10)
    if k < 2:
        return r.choice(['0.5', '1.0', '2.25', '0.1', '3.14159', '100.0', '1.', '.5', '0.0', '12.75', '0.001'])
    if k == 2:
        v = struct.unpack('<d', struct.pack('<Q', r.getrandbits(62) | (r.randrange(200, 1900) << 52) & (0x7fe << 52)))[0]
        v = abs(v)
        return repr(v) if math.isfinite(v) and ('e' in repr(v) or '.' in repr(v)) else '1.5'
    if k == 3:
        return '%d.%de%s%d' % (r.randrange(10), r.randrange(10 ** r.randint(1, 18)), r.choice(['', '+', '-']), r.randrange(200))
    if k == 4:
        return '%d%s-%d' % (r.randrange(10 ** r.randint(1, 9)), r.choice('eEеЕ'), r.randrange(20))
    if k == 5:
        return '.%s%d' % ('0' * r.randrange(12), r.randrange(1, 10 ** 9))
    if k == 6:
        return '%d.%s' % (r.randrange(10 ** r.randint(1, 20)), ''.join(r.choice('0123456789') for _ in range(r.randint(0, 40))))
    if k == 7:
        return '%s%d.%d' % ('0' * r.choice([1, 3]), r.randrange(100), r.randrange(100))
    if k == 8:
        return '%.17g' % r.uniform(0, 10) if r.random() < 0.5 else '%d.0e%d' % (r.randrange(1, 10), r.choice([5, 15, 22, 23, 100]))
    return '%d.%d' % (r.randrange(1000), r.randrange(1000))


def number(text):
    return float(text.replace('е', 'e').replace('Е', 'e'))


class X:
    """An expression: type, value, text of the constant form, text over variables, precedence, operators in it."""

    def __init__(self, t, v, con, var, prec=99, depth=0):
        self.t, self.v, self.con, self.var, self.prec, self.depth = t, v, con, var, prec, depth


PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6,
        '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}


class Case:
    def __init__(self, r, places, ascii_only=False):
        self.r = r
        self.places = places
        self.vars = []          # (type, name, text that sets it)
        self.enums = []         # (name, value)
        self.glob, self.main, self.want = [], [], []
        self.n = 0
        self.chars = [x for x in CHARS if x[1] < 128] if ascii_only else CHARS
        self.seen = []
        self.kinds = set()
        self.strict = False     # a place that needs a folded constant: no conditional operator, no characters

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def variable(self, t, text):
        n = self.name('v')
        self.vars.append((t, n, text))
        return n

    def leaf(self, t):
        r = self.r
        if t == 'i':
            if self.enums and not self.strict and r.random() < 0.12:
                n, v = r.choice(self.enums)
                self.kinds.add('enumeration constant')
                return X('i', v, n, self.variable('i', str(v)))
            v = r.choice([0, 1, 2, 3, 7, 10, r.randrange(100), r.randrange(1000), r.randrange(1 << r.randrange(1, 32)), HI, 1 << r.randrange(31),
                          10 ** r.randrange(10), 255, 65535, 65536, HI - 1])
            if v > HI:
                v = HI
            s = int_spelling(r, v)
            self.kinds.add('integer ' + ('0' + s[1].lower() if len(s) > 1 and s[1].isalpha() and s[0] == '0' else 'e' if not s.isdigit() else 'decimal'))
            return X('i', v, s, self.variable('i', str(v)))
        if t == 'f':
            while True:
                s = float_spelling(r)
                v = number(s)
                if math.isfinite(v) and (v == 0 or v > 1e-300):
                    break
            self.kinds.add('floating ' + ('exponent' if s.lower().replace('е', 'e').find('e') >= 0 else 'fraction'))
            return X('f', v, s, self.variable('f', self.exact(v)))
        if t == 'b':
            v = r.random() < 0.5
            self.kinds.add('boolean')
            w = r.choice(['true', 'TRUE', 'истина', 'ИСТИНА']) if v else r.choice(['false', 'FALSE', 'ложь', 'ЛОЖЬ'])
            return X('b', v, w, self.variable('b', 'true' if v else 'false'))
        s, v = r.choice(self.chars)
        self.kinds.add('character ' + s)
        return X('c', v, "'%s'" % s, self.variable('c', "'%s'" % s))

    def exact(self, v):
        s = repr(v)
        return s if '.' in s or 'e-' in s else s.replace('e', '.0e') if 'e' in s else s + '.0'

    def text(self, x, prec, which):
        s = x.con if which == 0 else x.var
        return '(%s)' % s if x.prec < prec or (x.prec != 99 and self.r.random() < 0.08) else s

    def unary(self, op, x, t, v, word=False):
        # one operator directly after another is another operator
        f = lambda w: op + (' ' if word or self.r.random() < 0.1 else '') + (self.text(x, 98, w))
        return X(t, v, f(0), f(1), 11, x.depth + 1)

    def binary(self, op, a, b, t, v):
        sp = self.r.choice([' ', ' ', '  '])
        f = lambda w: self.text(a, PREC[op], w) + sp + op + sp + self.text(b, PREC[op] + 1, w)
        return X(t, v, f(0), f(1), PREC[op], max(a.depth, b.depth) + 1)

    def expr(self, t, d):
        r = self.r
        for _ in range(40):
            try:
                return self.expr0(t, d if r.random() < 0.9 else 0)
            except Skip:
                pass
        return self.leaf(t)

    def arith(self, op, a, b):
        if a.t == 'f' or b.t == 'f':
            x, y = float(a.v), float(b.v)
            if op == '/' and y == 0:
                raise Skip
            try:
                v = fl({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]())
            except OverflowError:
                raise Skip
            return self.binary(op, a, b, 'f', v)
        x, y = a.v, b.v
        if op in '/%' and y == 0:
            raise Skip
        if op in ('<<', '>>'):
            if not 0 <= y < 32 or (op == '<<' and x < 0):
                raise Skip
        v = wrap({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: vm.cdiv(x, y), '%': lambda: x - y * vm.cdiv(x, y),
                  '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]())
        return self.binary(op, a, b, 'i', v)

    def expr0(self, t, d):
        r = self.r
        if d <= 0 or t == 'c':
            return self.leaf(t)
        if t == 'i':
            k = r.random()
            if k < 0.55:
                return self.arith(r.choice(['+', '-', '*', '/', '%', '+', '-', '*']), self.operand(d - 1), self.operand(d - 1))
            if k < 0.65:
                return self.arith(r.choice(['<<', '>>']), self.operand(d - 1), X('i', *self.small()))
            if k < 0.75:
                return self.arith(r.choice('&|^'), self.operand(d - 1), self.operand(d - 1))
            x = self.expr('i', d - 1)
            if k < 0.85:
                return self.unary('-', x, 'i', wrap(-x.v))
            if k < 0.9:
                return self.unary('~', x, 'i', ~x.v)
            if k < 0.93:
                return self.unary(r.choice(['abs', 'абс']), x, 'i', wrap(abs(x.v)), True)
            return self.ternary('i', d)
        if t == 'f':
            k = r.random()
            if k < 0.5:
                return self.arith(r.choice('+-*/'), self.expr('f', d - 1), self.expr('f', d - 1))
            if k < 0.75:
                a, b = self.expr('f', d - 1), self.operand(d - 1)
                if r.random() < 0.5:
                    a, b = b, a
                return self.arith(r.choice('+-*/'), a, b)
            if k < 0.95:
                x = self.expr('f', d - 1)
                if k < 0.85:
                    return self.unary('-', x, 'f', -x.v)
                return self.unary(r.choice(['abs', 'абс']), x, 'f', abs(x.v), True)
            return self.ternary('f', d)
        k = r.random()
        if k < 0.6:
            a, b = (self.operand(d - 1), self.operand(d - 1)) if r.random() < 0.6 else r.sample([self.expr('f', d - 1), self.expr(r.choice('ffi'), d - 1)], 2)
            op = r.choice(['<', '>', '<=', '>=', '==', '!='])
            if r.random() < 0.2:
                b = a
            x, y = a.v, b.v
            return self.binary(op, a, b, 'b', {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
        if k < 0.85:
            a, b = self.condition(d - 1), self.condition(d - 1)
            op = r.choice(['&&', '||'])
            return self.binary(op, a, b, 'b', (bool(a.v) and bool(b.v)) if op == '&&' else (bool(a.v) or bool(b.v)))
        x = self.condition(d - 1)
        return self.unary('!', x, 'b', not x.v)

    def ternary(self, t, d):
        if self.strict:
            raise Skip
        c, a, b = self.condition(d - 1), self.expr(t, d - 1), self.expr(t, d - 1)
        f = lambda w: '%s ? %s : %s' % (self.text(c, 1, w), self.text(a, 1, w), self.text(b, 1, w))
        return X(t, a.v if c.v else b.v, f(0), f(1), 0, max(c.depth, a.depth, b.depth) + 1)

    def condition(self, d):
        return self.expr(self.r.choice('bbbi'), d)

    def operand(self, d):
        return self.expr('c' if not self.strict and self.r.random() < 0.06 else 'i', d)

    def small(self):
        v = self.r.randrange(0, 31)
        return v, int_spelling(self.r, v), self.variable('i', str(v))

    # ---- places

    def out(self, t, text, v):
        if t == 'b':
            return '%i', '(%s) ? 1 : 0' % text, str(int(v))
        if t == 'i':
            return '%i', text, str(v)
        if t == 'c':
            return '%i', '(%s) + 0' % text, str(v)
        return '%f', text, 'f' + float(v).hex()

    def show(self, label, t, text, v, where=None):
        f, a, w = self.out(t, text, v)
        i = len(self.want)
        (self.main if where is None else where).append('printf("%d:%s\\n", %s);' % (i, f, a))
        self.want.append((label, '%d:%s' % (i, w), text))

    TYPE = {'i': ['int', 'цел', 'long', 'длин_цел'], 'f': ['float', 'double', 'вещ'], 'b': ['bool', 'булево'], 'c': ['char', 'литера']}

    def type(self, t):
        return {'i': self.r.choice(['int', 'цел']), 'f': self.r.choice(['float', 'double', 'вещ']), 'b': 'bool', 'c': self.r.choice(['char', 'литера'])}[t]

    def place(self, p, x, t):
        """One place for a constant of type t; x may be converted to it."""
        r, m = self.r, self.main
        v = float(x.v) if t == 'f' else x.v
        T = self.type(t)
        c = x.con
        if p == 'printf':
            # the type written is the type of the expression
            self.show(p, x.t, c, x.v)
        elif p == 'global':
            n = self.name('g')
            self.glob.append('%s %s = %s;' % (T, n, c))
            self.show(p, t, n, v)
        elif p == 'const global':
            n = self.name('g')
            self.glob.append('const %s %s = %s;' % (T, n, c))
            self.show(p, t, n, v)
        elif p == 'local':
            n = self.name('l')
            m.append('%s %s = %s;' % (T, n, c))
            self.show(p, t, n, v)
        elif p == 'assign':
            n = self.name('l')
            m += ['%s %s;' % (T, n), '%s = %s;' % (n, c)]
            self.show(p, t, n, v)
        elif p == 'compound':
            n = self.name('l')
            base = r.choice([0, 1, 2])
            v = v + base if t == 'f' else wrap(v + base)
            m += ['%s %s;' % (T, n), '%s = %d;' % (n, base), '%s += %s;' % (n, c)]
            self.show(p, t, n, v)
        elif p == 'argument':
            n = self.name('f')
            self.glob.append('%s %s(%s p) { return p; }' % (T, n, T))
            self.show(p, t, '%s(%s)' % (n, c), v)
        elif p == 'return':
            n = self.name('f')
            self.glob.append('%s %s() { return %s; }' % (T, n, c))
            self.show(p, t, n + '()', v)
        elif p == 'operand':
            n = self.name('l')
            m += ['%s %s;' % (T, n), '%s = %d;' % (n, 1)]
            o = self.arith(r.choice('+-*'), X('f' if t == 'f' else 'i', 1, n, n), X(t, v, c, c, x.prec))
            self.show(p, o.t, o.con, o.v)
        elif p == 'array element':
            n = self.name('a')
            k = r.randint(1, 4)
            j = r.randrange(k)
            items = [c if i == j else self.leaf(t).con for i in range(k)]
            (self.glob if r.random() < 0.5 else m).append('%s %s[%s] = { %s };' % (T, n, r.choice(['', str(k)]), ', '.join(items)))
            self.show(p, t, '%s[%d]' % (n, j), v)
        elif p == 'field':
            n = self.name('s')
            self.glob.append('struct %sT { %s x; %s y; };' % (n, self.type('i'), T))
            (self.glob if r.random() < 0.5 else m).append('struct %sT %s = { 5, %s };' % (n, n, c))
            self.show(p, t, n + '.y', v)
            self.show(p, 'i', n + '.x', 5)
        elif p == 'condition':
            n = self.name('l')
            m += ['int %s = 0;' % n, r.choice(['if (%s) { %s = 1; }', 'if (%s) %s = 1; else { }', 'while (%s) { %s = 1; break; }', 'for (;%s;) { %s = 1; break; }',
                                               'do { } while (!(%s) && 0 == 1); %s = {};']).replace('{}', '0') % (c, n)]
            if 'do {' in m[-1]:
                m.pop()
                m.append('%s = (%s) ? 1 : 0;' % (n, c))
            self.show(p, 'i', n, int(bool(x.v)))
        elif p == 'bound':
            n = self.name('a')
            lit = x.v
            (self.glob if r.random() < 0.5 else m).append('%s %s[%s];' % (self.type(r.choice('if')), n, c))
            self.show(p, 'i', 'upb(%s)' % n if r.random() < 0.7 else '%s(%s)' % ('кол_во', n) if False else 'upb %s' % n, lit)
        elif p == 'index':
            n = self.name('a')
            k = x.v + r.randint(1, 3)
            m += ['int %s[%d];' % (n, k), '{ int i; for (i = 0; i < %d; i++) %s[i] = i * 3 + 1; }' % (k, n)]
            self.show(p, 'i', '%s[%s]' % (n, c), x.v * 3 + 1)
        elif p == 'case':
            n = self.name('f')
            others = []
            for _ in range(r.randint(0, 3)):
                y = self.expr('i', 1)
                if y.v != x.v and y.v not in [o.v for o in others]:
                    others.append(y)
            body = [(y.con, 100 + i) for i, y in enumerate(others)]
            body.insert(r.randint(0, len(body)), (c, 1))
            self.glob.append('int %s(int p)\n{\n\tswitch (p)\n\t{\n%s\t\tdefault: return -1;\n\t}\n\treturn -2;\n}'
                             % (n, ''.join('\t\tcase %s: return %d;\n' % b for b in body)))
            w = self.variable('i', str(x.v))
            self.show(p, 'i', '%s(%s)' % (n, w), 1)
            for y, (_, k) in zip(others, [b for b in body if b[1] != 1]):
                self.show(p, 'i', '%s(%s)' % (n, self.variable('i', str(y.v))), k)
            z = next(q for q in range(x.v % 100000, x.v % 100000 + 9) if q != x.v and q not in [o.v for o in others])
            self.show(p, 'i', '%s(%s)' % (n, self.variable('i', str(z))), -1)
        elif p == 'enumeration':
            if x.v == HI:       # the next constant has no value
                raise Skip
            n = self.name('E')
            self.glob.append('enum %s { %sA = %s, %sB, %sC = %sA, %sD = 7 };' % (n, n, c, n, n, n, n))
            self.show(p, 'i', n + 'A + 0', x.v)
            if x.v < HI:
                self.show(p, 'i', n + 'B + 0', x.v + 1)
            self.show(p, 'i', n + 'C + 0', x.v)
            self.enums.append((n + 'A', x.v))
        elif p == 'several arguments':
            y = self.expr('i', 1)
            z = self.expr('f', 1)
            i = len(self.want)
            f, a, w = self.out(x.t, c, x.v)
            m.append('printf("%d:%%i %s %%f\\n", %s, %s, %s);' % (i, f, y.con, a, z.con))
            self.want.append((p, '%d:%d %s f%s' % (i, y.v, w, float(z.v).hex()), c))
        else:
            raise AssertionError(p)
        self.seen.append('%s of type %s from %s, operators %d' % (p, t, x.t, min(x.depth, 3)))
        # the same operators over variables
        if x.depth and r.random() < 0.6:
            self.show('over variables', x.t, x.var, x.v)
            self.seen.append('over variables: type %s, operators %d' % (x.t, min(x.depth, 3)))

    def string(self):
        r = self.r
        parts, value = [], []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            s = ''
            for _ in range(r.randint(0, 8)):
                t, v = r.choice(self.chars)
                if v == 0 or t == '"' or v == 10:
                    continue
                s += t
                value.append(chr(v))
            parts.append('"%s"' % s)
        text = parts[0]
        for q in parts[1:]:
            text += r.choice([' ', '', '\n', '/* " */', '\t', ' // "\n']) + q
        value = ''.join(value)
        i = len(self.want)
        k = r.randrange(4 if value else 3)
        if k == 0:
            self.main.append('printf("%d:%%s\\n", %s);' % (i, text))
        elif k == 1:
            n = self.name('s')
            (self.glob if r.random() < 0.5 else self.main).append('char %s[] = %s;' % (n, text))
            self.main.append('printf("%d:%%s\\n", %s);' % (i, n))
        elif k == 2:
            n = self.name('f')
            self.glob.append('void %s(char p[]) { printf("%d:%%s\\n", p); }' % (n, i))
            self.main.append('%s(%s);' % (n, text))
        else:
            n = self.name('s')
            j = r.randrange(len(value))
            self.main += ['char %s[] = %s;' % (n, text), 'printf("%d:%%i\\n", %s[%d] + 0);' % (i, n, j)]
            self.want.append(('character of a string', '%d:%d' % (i, ord(value[j])), text))
            self.seen.append('character of a string')
            return
        self.want.append(('string', '%d:%s' % (i, value), text))
        self.seen.append('string, place %d, parts %d' % (k, len(parts)))

    def build(self):
        r = self.r
        for _ in range(r.randint(4, 12)):
            if r.random() < 0.12 and 'string' in self.places:
                self.string()
                continue
            p = r.choice([q for q in self.places if q != 'string'])
            d = r.choice([0, 0, 1, 1, 2, 3, 4])
            self.strict = p in ('bound', 'case', 'enumeration')
            try:
                if p == 'bound':
                    x = self.fit(d, 1, 60)
                    self.place(p, x, 'i')
                elif p == 'index':
                    x = self.fit(d, 0, 20)
                    self.place(p, x, 'i')
                elif p in ('case', 'enumeration'):
                    self.place(p, self.expr('i', d), 'i')
                elif p == 'condition':
                    self.place(p, self.condition(d), 'b')
                elif p in ('compound', 'operand'):
                    t = r.choice('if')
                    self.place(p, self.expr(t if r.random() < 0.7 else 'i', d), t)
                else:
                    t = r.choice('iiffbc')
                    self.place(p, self.expr('i' if t == 'f' and r.random() < 0.3 else t, d), t)
            except Skip:
                continue
        decl = ['%s %s;' % (self.TYPE[t][0], n) for t, n, _ in self.vars]
        sets = ['\t%s = %s;' % (n, s) for _, n, s in self.vars]
        return '\n'.join(decl + self.glob + ['int main()', '{'] + sets + ['\t' + l for l in self.main] + ['\treturn 0;', '}', ''])

    def fit(self, d, lo, hi):
        for _ in range(30):
            x = self.expr('i', d)
            if lo <= x.v <= hi:
                return x
            # bring it into the range with one more operator
            try:
                y = self.arith('%', X('i', abs(x.v) if x.v >= 0 else 0, x.con, x.var, x.prec, x.depth), X('i', hi - lo, str(hi - lo), self.variable('i', str(hi - lo))))
                if x.v >= 0:
                    y = self.arith('+', X('i', lo, str(lo), self.variable('i', str(lo))), y)
                    if lo <= y.v <= hi:
                        return y
            except Skip:
                pass
        return X('i', lo + 1, str(lo + 1), self.variable('i', str(lo + 1)))


PLACES = ['printf', 'printf', 'global', 'const global', 'local', 'assign', 'compound', 'argument', 'return', 'operand', 'array element', 'field',
          'condition', 'bound', 'index', 'case', 'enumeration', 'several arguments', 'string']


def compare(res, c, src, out, code, tag=''):
    got = {}
    for line in out.split('\n'):
        k = line.split(':', 1)[0]
        if k.isdigit():
            got.setdefault(int(k), line)
    for i, (label, want, text) in enumerate(c.want):
        res['n'] += 1
        if got.get(i) != want:
            res.violation('value:%s%s' % (tag, label), '%s: %s\nexpected %r\nobserved %r' % (label, text, want, got.get(i)),
                          {'program.c': src, 'code.txt': code, 'observed.txt': out})
            return False
    return True


def case(i):
    res = frame.Result()
    r = random.Random('p03-%s-%s' % (SEED, i))
    c = Case(r, PLACES)
    src = c.build()
    k = frame.compile_text(RUC, src)
    if k.run.timeout:
        res['info']['timeouts (inconclusive)'] += 1
        return res
    if not k.ok:
        text = frame.ANSI.sub('', k.run.text) if hasattr(frame, 'ANSI') else k.run.text
        res.violation('rejected', 'a program of constants is rejected\n' + text[:1500], {'program.c': src})
        return res
    m = None
    try:
        m = vm.VM(vm.Image(k.output.decode('utf-8', 'surrogateescape')), 1000000)
        m.run()
    except vm.VMError as e:
        res.violation('machine:' + e.kind, 'the machine monitor stopped the program: %s\noutput %r' % (e, ''.join(m.out)[-200:] if m else ''), {'program.c': src, 'vm.txt': k.output})
        return res
    except (vm.Unsupported, vm.StepLimit) as e:
        res['info']['not executed: %s' % type(e).__name__] += 1
        return res
    if not compare(res, c, src, ''.join(m.out), k.output):
        return res
    res['saw'] += c.seen + ['literal: ' + x for x in c.kinds]
    res['info']['values compared, virtual machine'] += len(c.want)
    if i < 3:
        res['sample'] = src[:1500]
    return res


def llvm_case(i):
    """The same values out of the code for the other target, run natively."""
    res = frame.Result()
    c = Case(random.Random('p03l-%s-%s' % (SEED, i)), PLACES, True)
    src = c.build()
    k = frame.compile_text(RUC, src, mode='-LLVM')
    if k.run.timeout:
        res['info']['timeouts (inconclusive)'] += 1
        return res
    if not k.ok:
        res.violation('rejected:llvm', 'a program of constants is rejected\n' + k.run.text[:1500], {'program.c': src})
        return res
    stage, what, x = p02.toolchain(k.output)
    if stage == 'timeout':
        res['info']['timeouts (inconclusive)'] += 1
        return res
    if stage != 'done':
        res.violation('%s:llvm' % stage, 'the code for LLVM cannot be built or run: %s' % str(x if stage == 'ir' else what)[:1500],
                      {'program.c': src, 'program.ll': k.output})
        return res
    if compare(res, c, src, what, k.output, 'llvm:'):
        res['saw'] += ['llvm ' + x for x in c.seen]
        res['info']['values compared, LLVM'] += len(c.want)
    return res


def probe(source, target):
    k = frame.compile_text(RUC, source, mode=target)
    if not k.ok:
        return 'exit %s' % k.run.rc
    if target == '-LLVM':
        return p02.toolchain(k.output)[1]
    m = vm.VM(vm.Image(k.output.decode()), 100000)
    m.run()
    return ''.join(m.out)


def run(ctx):
    global RUC, SEED
    RUC, SEED = ctx.build('rel'), ctx.seed
    ctx.rule = ('one evaluation = one value a compiled program printed, compared with the exact value of its spelling; distinct = '
                '(place, type, type before conversion, depth of the expression) and kinds of literals')
    ctx.assumptions += ['expressions with an overflow of 32 bits, a division by zero or a shift by more than the width have no value and are not generated',
                        'characters outside ASCII are used with the virtual machine only']
    p02.shim()
    ctx.map(case, range(ctx.size(9000, 300000)), chunk=32)
    ctx.map(llvm_case, range(ctx.size(900, 30000)), chunk=8)
    for f in sorted(glob.glob(os.path.join(frame.VERIF, 'known/P03-*.c'))):
        src = open(f).read()
        want = src.split('\n', 1)[0][3:].encode().decode('unicode_escape')
        got = probe(src, '-LLVM' if '-llvm' in f else '-VM')
        ctx.known_probe(os.path.basename(f), got != want, 'expected %r, observed %r' % (want, got))
