"""Model of the preprocessor, and a generator of documents it can judge.

A document is a tree of nodes; the model gives the tokens that remain after preprocessing (or an
error), the renderer gives the text the real preprocessor reads.  Both work from the same tree, so
the model never has to parse the text the code under test parses.

Nodes: ('text', toks)  ('define', kw, name, params, body)  ('undef', name)  ('macro', name, params, nodes)
       ('if', [(cond, nodes)...], else nodes | None)  ('ifdef', negated, name, nodes, elifs, else)
       ('while', cond, nodes)  ('eval', cond)  ('junk', lines)  ('include', quote, path, nodes | None)
Tokens are (text, space before).  Body items: ('t', text, sp) ('p', i, sp) ('s', i, sp) ('g', i) ('e', cond, sp)
"""
import re

WORD = re.compile(r'[^\W\d]\w*$')


class Wrong(Exception):
    """The document has to be rejected."""


class TooLong(Exception):
    pass


def word(t):
    return WORD.match(t) is not None


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


LEVELS = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '>', '<=', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]
PREC = {op: i for i, l in enumerate(LEVELS) for op in l}


def number(t):
    m = re.match(r'0[xX]([0-9a-fA-F]+)|0[bB]([01]+)|0[oO]([0-7]+)|0[dD]([0-9]+)|([0-9]+)', t)
    if m is None or not re.match(r'(?:[uU][lL]{0,2}|[lL]{1,2}[uU]?)?$', t[m.end():]):
        raise Wrong('number ' + t)
    for g, b in ((1, 16), (2, 2), (3, 8), (4, 10), (5, 10)):
        if m.group(g) is not None:
            return s64(int(m.group(g), b))


def compute(texts):
    """Value of an integer expression: C precedence, 64 bits, every operand computed."""
    if not texts:
        raise Wrong('no expression')
    pos = 0

    def peek():
        return texts[pos] if pos < len(texts) else None

    def unary():
        nonlocal pos
        t = peek()
        if t is None:
            raise Wrong('operand expected')
        pos += 1
        if t in ('-', '+', '~', '!'):
            v = unary()
            return s64(-v) if t == '-' else v if t == '+' else ~v if t == '~' else int(v == 0)
        if t == '(':
            v = binary(0)
            if peek() != ')':
                raise Wrong('bracket')
            pos += 1
            return v
        if t[0] == "'":
            if len(t) != 3:
                raise TooLong('character')
            return ord(t[1])
        if t[0].isdigit():
            return number(t)
        if word(t):
            return 0
        raise Wrong('token ' + t)

    def binary(level):
        nonlocal pos
        if level == len(LEVELS):
            return unary()
        v = binary(level + 1)
        while peek() in LEVELS[level]:
            op = peek()
            pos += 1
            v = apply(op, v, binary(level + 1))
        return v
    v = binary(0)
    if pos != len(texts):
        raise Wrong('operator expected')
    return v


def apply(op, a, b):
    if op in '/%' and b == 0:
        raise Wrong('division by zero')
    if op in ('<<', '>>') and not 0 <= b < 64:
        raise Wrong('shift count')
    if op == '*':
        return s64(a * b)
    if op == '/':
        q = abs(a) // abs(b)
        return s64(q if (a < 0) == (b < 0) else -q)
    if op == '%':
        return abs(a) % abs(b) * (-1 if a < 0 else 1)
    return {'+': lambda: s64(a + b), '-': lambda: s64(a - b), '<<': lambda: s64(a << b), '>>': lambda: a >> b,
            '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b),
            '==': lambda: int(a == b), '!=': lambda: int(a != b), '&': lambda: a & b, '^': lambda: a ^ b, '|': lambda: a | b,
            '&&': lambda: int(a != 0 and b != 0), '||': lambda: int(a != 0 or b != 0)}[op]()


def raw_text(toks):
    return ''.join((' ' if sp and i else '') + t for i, (t, sp) in enumerate(toks))


def stringized(toks):
    out = []
    for i, (t, sp) in enumerate(toks):
        if t[0] in '"\'':
            t = t.replace('\\', '\\\\').replace('"', '\\"')
        out.append((' ' if sp and i else '') + t)
    return '"' + ''.join(out) + '"'


class Model:
    LIMIT = 200000
    DEPTH = 250

    def __init__(self, defs=None):
        self.m = dict(defs or {})
        self.steps = 0
        self.depth = 0
        self.included = set()
        self.seen = set()

    def step(self, n=1):
        self.steps += n
        if self.steps > self.LIMIT:
            raise TooLong()

    # ---- expansion of a token sequence
    def expand(self, toks):
        out = []
        i = 0
        while i < len(toks):
            t, sp = toks[i]
            i += 1
            self.step()
            if not word(t) or t not in self.m:
                out.append((t, sp))
                continue
            kind, params, body = self.m[t]
            self.seen.add('expand:%s:%d' % (kind, len(params)))
            if self.depth > self.DEPTH:
                raise TooLong('depth')
            self.depth += 1
            if not params:
                if i + 1 < len(toks) and toks[i][0] == '(' and toks[i + 1][0] == ')':
                    i += 2
                raws = []
            else:
                if i >= len(toks) or toks[i][0] != '(':
                    raise Wrong('no arguments')
                raws, i = self.arguments(toks, i)
                if len(raws) != len(params):
                    raise Wrong('arguments')
            r = self.replace(kind, params, body, raws)
            self.depth -= 1
            out += [(x, s or (k == 0 and sp)) for k, (x, s) in enumerate(r)]
        return out

    def arguments(self, toks, i):
        raws, cur, level = [], [], 0
        i += 1
        while True:
            if i >= len(toks):
                raise Wrong('unterminated arguments')
            t, sp = toks[i]
            i += 1
            if level == 0 and t in (',', ')'):
                raws.append(cur)
                cur = []
                if t == ')':
                    return raws, i
                continue
            level += (t == '(') - (t == ')')
            cur.append((t, sp))

    def replace(self, kind, params, body, raws):
        if kind == 'block':
            for a in raws:
                self.expand(a)
            return self.run([self.substitute(n, params, raws) for n in body] if params else body)
        expanded = [None] * len(raws)

        def full(k):
            if expanded[k] is None:
                expanded[k] = self.expand(raws[k])
            return expanded[k]
        for k in range(len(raws)):
            full(k)
        out = []
        for j, it in enumerate(body):
            if it[0] == 't':
                out.append((it[1], it[2]))
            elif it[0] == 'p':
                paste = j + 1 < len(body) and body[j + 1][0] == 'g'
                arg = raws[it[1]] if paste else full(it[1])
                if paste and not arg:
                    raise TooLong('paste')
                out += [(x, s if k else it[2]) for k, (x, s) in enumerate(arg)]
            elif it[0] == 's':
                self.seen.add('stringize')
                out.append((stringized(raws[it[1]]), it[2]))
            else:
                self.seen.add('paste')
                arg = raws[it[1]]
                if not out or len(arg) != 1:
                    raise TooLong('paste')
                out[-1] = (out[-1][0] + arg[0][0], out[-1][1])
                if not re.fullmatch(r'\w+', out[-1][0]):
                    raise TooLong('paste')
        return self.expand(out)

    def substitute(self, n, params, raws):
        def sub(toks):
            out = []
            for t, sp in toks:
                if t in params:
                    out += [(x, s if k else sp) for k, (x, s) in enumerate(self.expand(raws[params.index(t)]))]
                else:
                    out.append((t, sp))
            return out

        def subs(nodes):
            return [self.substitute(x, params, raws) for x in nodes]
        if n[0] == 'text':
            return ('text', sub(n[1]))
        if n[0] == 'eval':
            return ('eval', sub(n[1]))
        if n[0] == 'if':
            return ('if', [(sub(c), subs(b)) for c, b in n[1]], subs(n[2]) if n[2] is not None else None)
        if n[0] == 'while':
            return ('while', sub(n[1]), subs(n[2]))
        if n[0] == 'ifdef':
            name = n[2]
            if name in params:
                name = raw_text(raws[params.index(name)])
            return ('ifdef', n[1], name, subs(n[3]), [(sub(c), subs(b)) for c, b in n[4]], subs(n[5]) if n[5] is not None else None)
        if n[0] == 'define':
            body = []
            for it in n[4]:
                if it[0] == 't':
                    body += [('t', x, s) for x, s in sub([(it[1], it[2])])]
                elif it[0] == 'e':
                    body.append(('e', sub(it[1]), it[2]))
                else:
                    body.append(it)
            return ('define', n[1], n[2], n[3], body)
        return n

    # ---- nodes
    def condition(self, toks):
        self.step(5)
        return compute([t for t, _ in self.expand(toks)])

    def run(self, nodes):
        out = []
        for n in nodes:
            self.step()
            k = n[0]
            if k == 'text':
                out += self.expand(n[1])
            elif k == 'define':
                body = []
                for it in n[4]:
                    if it[0] == 'e':
                        self.seen.add('eval in definition')
                        v = self.condition(it[1])
                        body += [('t', '-', it[2]), ('t', str(-v), False)] if v < 0 else [('t', str(v), it[2])]
                    else:
                        body.append(it)
                self.seen.add(('redefine' if n[2] in self.m else 'define') + ':' + n[1])
                self.m[n[2]] = ('line', n[3], body)
            elif k == 'undef':
                self.seen.add('undef:%d' % (n[1] in self.m))
                self.m.pop(n[1], None)
            elif k == 'macro':
                self.m[n[1]] = ('block', n[2], n[3])
                self.seen.add('macro')
            elif k == 'if':
                out += self.groups(n[1], n[2])
            elif k == 'ifdef':
                if (n[2] in self.m) != n[1]:
                    self.seen.add('ifdef taken')
                    out += self.run(n[3])
                else:
                    self.seen.add('ifdef skipped')
                    out += self.groups(n[4], n[5])
            elif k == 'while':
                c = 0
                while self.condition(n[1]) != 0:
                    c += 1
                    if c > 32768:
                        raise Wrong('iterations')
                    out += self.run(n[2])
                self.seen.add('loop %s' % (c if c < 4 else 'many'))
            elif k == 'eval':
                v = self.condition(n[1])
                self.seen.add('eval')
                out += [('-', True), (str(-v), False)] if v < 0 else [(str(v), True)]
            elif k == 'include':
                self.seen.add('include')
                key = n[4] if len(n) > 4 else n[2]
                if n[3] is None:
                    raise Wrong('no such file')
                if key not in self.included:
                    self.included.add(key)
                    out += self.run(n[3])
                else:
                    self.seen.add('included again')
            elif k == 'junk':
                raise Wrong('junk')
        return out

    def groups(self, conds, other):
        for i, (c, b) in enumerate(conds):
            if self.condition(c) != 0:
                self.seen.add('group %d of %d' % (i, len(conds)))
                return self.run(b)
        self.seen.add('else' if other is not None else 'no group')
        return self.run(other) if other is not None else []


LEX = re.compile(r'//(?:[^\n\\]|\\\r?\n|\\[^\n])*|/\*.*?\*/|\\\r?\n|[\s]+|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|\d\w*|[^\W\d]\w*|.', re.S)


def lex(text):
    """The tokens of a preprocessed text: comments, white space and line marks removed."""
    text = re.sub(r'^#line .*$', '', text, flags=re.M)
    out = []
    for t in LEX.findall(text):
        if t.startswith('//') or t.startswith('/*') and len(t) > 3 or t[0].isspace() or t[0] == '\\' and len(t) > 1:
            continue
        out.append(t)
    return out


def flat(toks):
    """Model tokens in the same shape as lex() gives."""
    out = []
    for t, _ in toks:
        out += LEX.findall(t)
    return out


# ------------------------------------------------------------------------------------------- rendering
SPELL = {'define': ['#define', '#DEFINE', '#определить', '#ОПРЕДЕЛИТЬ'], 'set': ['#set', '#SET', '#переопределить', '#ПЕРЕОПРЕДЕЛИТЬ'],
         'undef': ['#undef', '#UNDEF', '#разопределить', '#РАЗОПРЕДЕЛИТЬ'], 'macro': ['#macro', '#MACRO', '#макро', '#МАКРО'],
         'endm': ['#endm', '#ENDM', '#конецм', '#КОНЕЦМ'], 'ifdef': ['#ifdef', '#IFDEF', '#еслибыл', '#ЕСЛИБЫЛ'],
         'ifndef': ['#ifndef', '#IFNDEF', '#еслинебыл', '#ЕСЛИНЕБЫЛ'], 'if': ['#if', '#IF', '#если', '#ЕСЛИ'],
         'elif': ['#elif', '#ELIF', '#инесли', '#ИНЕСЛИ'], 'else': ['#else', '#ELSE', '#иначе', '#ИНАЧЕ'],
         'endif': ['#endif', '#ENDIF', '#конецесли', '#КОНЕЦЕСЛИ'], 'eval': ['#eval', '#EVAL', '#вычислить', '#ВЫЧИСЛИТЬ'],
         'while': ['#while', '#WHILE', '#пока', '#ПОКА'], 'endw': ['#endw', '#ENDW', '#конецп', '#КОНЕЦП'],
         'include': ['#include', '#INCLUDE', '#подключить', '#ПОДКЛЮЧИТЬ']}
COMMENTS = ['/* c */', '/**/', '/* A + F1(1) " */', '/***/', "/* it's */", '/* // */']
LINE_COMMENTS = ['// note', '// A "', "// don't", '//', '// #endif', '// /* x', '// A \\\n    F1(']


class Render:
    def __init__(self, r, plain=False):
        self.r, self.plain = r, plain

    def kw(self, k):
        w = SPELL[k][0] if self.plain or self.r.random() < 0.7 else self.r.choice(SPELL[k])
        if not self.plain and self.r.random() < 0.1:
            w = '#' + self.r.choice([' ', '\t', '  ']) + w[1:]
        return (self.r.choice(['', '', '', ' ', '\t']) if not self.plain else '') + w

    def gap(self, in_directive, lines=False):
        x = self.r.random()
        if self.plain or x < 0.86:
            return ' '
        if x < 0.9:
            return self.r.choice(['  ', '\t', ' \t '])
        if x < 0.95:
            return ' ' + self.r.choice(COMMENTS) + ' '
        if x < 0.97:
            return self.r.choice([' \\\n ', '\\\n  '])
        if lines:
            return self.r.choice(['\n', ' // in call\n', '\n\n  '])
        if not in_directive and x < 0.985:
            return ' /* two\n lines */ '
        return ' '

    def toks(self, toks, in_directive):
        out, level, call = [], 0, []
        for i, (t, sp) in enumerate(toks):
            if i and sp:
                out.append(self.gap(in_directive, lines=bool(call) and not in_directive))
            out.append(t)
            if t == '(':
                if call or i and word(toks[i - 1][0]) and toks[i - 1][0] in FUNS:
                    call.append(t)
            elif t == ')' and call:
                call.pop()
        return ''.join(out)

    def body(self, items, params):
        out = []
        for i, it in enumerate(items):
            g = self.gap(True) if i and (len(it) < 3 or it[2]) else ''
            if it[0] == 't':
                out.append(g + it[1])
            elif it[0] == 'p':
                out.append(g + params[it[1]])
            elif it[0] == 's':
                out.append(g + '#' + self.r.choice(['', ' ']) + params[it[1]])
            elif it[0] == 'g':
                out.append(self.r.choice(['##', ' ## ', ' ##', '## ']) + params[it[1]])
            else:
                out.append(g + '#' + self.r.choice(['eval ', ' eval ', 'eval ']) + self.toks(it[1], True))
        return ''.join(out)

    def end(self, text=False):
        x = self.r.random()
        if self.plain or x < 0.85:
            return '\n'
        if x < 0.9:
            return ' ' + self.r.choice(LINE_COMMENTS) + '\n'
        if x < 0.93:
            return ' ' + self.r.choice(COMMENTS) + '\n'
        if x < 0.96:
            return self.r.choice([' \n', '\t\n'])
        return '\n' + self.r.choice(['\n', '  \n', '// A\n', '/* B\n #endif */\n'])

    def params(self, ps):
        return ('(' + self.r.choice([',', ', ', ' , ']).join(ps) + ')') if ps else ''

    def nodes(self, nodes):
        return ''.join(self.node(n) for n in nodes)

    def node(self, n):
        k, e = n[0], self.end
        if k == 'text':
            return self.r.choice(['', '', '  ', '\t']) + self.toks(n[1], False) + e(True)
        if k == 'define':
            ps = self.params(n[3]) if n[3] else (n[5] if len(n) > 5 else '')
            b = self.body(n[4], n[3])
            return self.kw(n[1]) + ' ' + n[2] + ps + (' ' + b if b else '') + e()
        if k == 'undef':
            return self.kw('undef') + ' ' + n[1] + e()
        if k == 'macro':
            return self.kw('macro') + ' ' + n[1] + self.params(n[2]) + '\n' + self.nodes(n[3]) + self.kw('endm') + e()
        if k in ('if', 'ifdef'):
            if k == 'if':
                out, rest, other = self.kw('if') + ' ' + self.toks(n[1][0][0], True) + e() + self.nodes(n[1][0][1]), n[1][1:], n[2]
            else:
                out, rest, other = self.kw('ifndef' if n[1] else 'ifdef') + ' ' + n[2] + e() + self.nodes(n[3]), n[4], n[5]
            for c, b in rest:
                out += self.kw('elif') + ' ' + self.toks(c, True) + e() + self.nodes(b)
            if other is not None:
                out += self.kw('else') + e() + self.nodes(other)
            return out + self.kw('endif') + e()
        if k == 'while':
            return self.kw('while') + ' ' + self.toks(n[1], True) + e() + self.nodes(n[2]) + self.kw('endw') + e()
        if k == 'eval':
            return self.kw('eval') + ' ' + self.toks(n[1], True) + e()
        if k == 'include':
            return self.kw('include') + ' ' + n[1] + n[2] + ('>' if n[1] == '<' else '"') + e()
        return ''.join(x + '\n' for x in n[1])


# ------------------------------------------------------------------------------------------- generation
PASTED = ['PA', 'PB', 'P1', 'PX', 'Pи']
OBJECTS = ['A', 'B', 'N', 'N1', 'NN', 'Длина', 'e1', 'xFF', 'L', '_x', 'while', 'A1']
FUNS = {'F1': 1, 'F2': 2, 'F3': 3, 'G1': 1, 'Сумма': 2, 'f': 1}
ZEROS = ['Z0', 'Ноль']
BLOCKS = {'M0': 0, 'M1': 1, 'M2': 2}
PLAIN = ['x', 'y', 'foo', 'AA', 'A_', 'Nx', 'F', 'длина', 'if', 'return', 'a1', 'eval', 'define', 'F11']
PUNCT = ['+', '-', '*', '/', ';', ',', '=', '<', '>', '==', '&&', '[', ']', '{', '}', '!', '.', '->', '<<', '?', ':', '%', '|', '^', '~', '+=']
NUMBERS = ['0', '1', '42', '3.5', '1e1', '0xFF', '0b101', '2.e1', '10L', '.5', '1A', '7e1']
STRINGS = ['"s"', '"A F1(1)"', '"// no"', '"/* no */"', '"#if"', '"a\\"A\\""', '"\\\\"', "'A'", "'\"'", "'\\''", '"\'"', '"ж A"', '""', '"a\\n"', "'\\\\'", "'#'"]


class Gen:
    def __init__(self, r, focus='both'):
        self.r = r
        self.focus = focus
        order = OBJECTS + list(FUNS) + ZEROS
        r.shuffle(order)
        self.order = PASTED + order
        self.loop = 0

    def name_below(self, rank):
        return self.r.choice(self.order[:rank])

    def atom(self, sp, params=()):
        x = self.r.random()
        if x < 0.35:
            return [(self.r.choice(PLAIN), sp)]
        if x < 0.6:
            return [(self.r.choice(PUNCT), sp)]
        if x < 0.8:
            return [(self.r.choice(NUMBERS), sp)]
        return [(self.r.choice(STRINGS), sp)]

    def use(self, name, rank, depth=0, single=False):
        """Tokens of a use of the macro: a call when it takes arguments."""
        if name in ZEROS:
            return [(name, True)] + ([('(', self.r.random() < 0.3), (')', self.r.random() < 0.3)] if self.r.random() < 0.6 else [])
        n = FUNS.get(name, BLOCKS.get(name, 0))
        if n == 0:
            return [(name, True)]
        out = [(name, True), ('(', self.r.random() < 0.2)]
        for i in range(n):
            if i:
                out.append((',', self.r.random() < 0.2))
            out += self.argument(rank, depth + 1)
        return out + [(')', self.r.random() < 0.3)]

    def argument(self, rank, depth):
        x = self.r.random()
        if x < 0.06:
            return []
        if x < 0.5:
            t = self.r.choice(['A', 'B', '1', 'X', 'x', '2', 'и', 'N', 'e1', '1A'])
            return [(t, self.r.random() < 0.5)]
        if x < 0.6:
            return [(self.r.choice(STRINGS), self.r.random() < 0.5)]
        out = []
        for _ in range(self.r.randint(1, 3)):
            y = self.r.random()
            if y < 0.3 and depth < 3 and rank > len(PASTED):
                out += self.use(self.name_below(rank), rank, depth)
            elif y < 0.45:
                out += [('(', True), (self.r.choice(PLAIN), self.r.random() < 0.5), (',', True), (self.r.choice(NUMBERS), True), (')', False)]
            else:
                a = self.atom(True)
                out += a if a[0][0] not in (',',) else [('+', True)]
        return out

    def body(self, name, rank, params):
        items = []
        for k in range(self.r.randint(0, 5)):
            x = self.r.random()
            if params and x < 0.45:
                items.append(('p', self.r.randrange(len(params)), True))
            elif params and x < 0.52:
                items.append(('s', self.r.randrange(len(params)), True))
            elif params and x < 0.6:
                items.append(('t', self.r.choice(['P', '1', 'x_', 'P']), True))
                items.append(('g', self.r.randrange(len(params))))
                if self.r.random() < 0.2:
                    items.append(('g', self.r.randrange(len(params))))
            elif params and x < 0.63:
                items.append(('p', self.r.randrange(len(params)), True))
                items.append(('g', self.r.randrange(len(params))))
            elif x < 0.8 and rank > 0:
                items += [('t', t, sp) for t, sp in self.use(self.name_below(rank), rank)]
            else:
                items += [('t', t, sp) for t, sp in self.atom(True)]
        # Names of parameters among the plain tokens are parameters
        out = []
        for it in items:
            if it[0] == 't' and it[1] in params:
                out.append(('p', params.index(it[1]), it[2]))
            else:
                out.append(it)
        if not params and self.r.random() < 0.1:
            out.append(('e', self.expr(2), True))
        return out

    def parameters(self, n):
        names = ['a', 'b', 'x', 'y', 'A', 'B', 'e1', 'пар', 'N', 'foo']
        self.r.shuffle(names)
        return names[:n]

    def define(self, name=None):
        name = name or self.r.choice(self.order)
        rank = self.order.index(name)
        params = self.parameters(FUNS.get(name, 0))
        body = self.body(name, 0 if name in PASTED else rank, params)
        node = ('define', self.r.choice(['define', 'define', 'set']), name, params, body)
        if name in ZEROS and self.r.random() < 0.6:
            node += ('()',)
        return node

    def text(self, blocks=True, loops=()):
        out = []
        for _ in range(self.r.randint(1, 6)):
            x = self.r.random()
            if x < 0.5:
                out += self.use(self.r.choice(self.order), len(self.order))
            elif x < 0.56 and blocks:
                out += self.use(self.r.choice(list(BLOCKS)), len(self.order))
            elif x < 0.64 and loops:
                out.append((self.r.choice(loops), True))
            else:
                out += self.atom(True)
        return ('text', out)

    def expr(self, depth, names=()):
        r = self.r
        x = r.random()
        if depth <= 0 or x < 0.2:
            y = r.random()
            if y < 0.4:
                return [(str(r.choice([0, 1, 1, 2, 3, 5, 7, 10, 63, 64, 255, 1000, 2147483647, 2147483648, 4294967295, 9223372036854775807, r.randrange(1 << 40)]))
                         + r.choice(['', '', '', '', 'U', 'L', 'ull', 'LL', 'lu']), True)]
            if y < 0.52:
                v = r.randrange(1 << r.choice([3, 8, 16, 33, 60]))
                return [(r.choice(['0x%x', '0X%X', '0o%o', '0d%d']) % v if r.random() < 0.8 else '0b' + bin(v)[2:], True)]
            if y < 0.58:
                return [("'" + r.choice('aZ09 %(#"') + "'", True)]
            if y < 0.7 and names:
                return [(r.choice(names), True)]
            if y < 0.78:
                return [(r.choice(['undefined_name', 'foo', 'AA', 'если']), True)]
            return [(r.choice(['V1', 'V2', 'V3', 'V4']), True)] if y < 0.9 else [('V5', True), ('(', False)] + self.expr(depth - 2, names) + [(')', False)]
        if x < 0.35:
            return [(r.choice(['-', '+', '~', '!', '!']), True)] + self.expr(depth - 1, names)
        if x < 0.5:
            return [('(', True)] + self.expr(depth - 1, names) + [(')', r.random() < 0.5)]
        op = r.choice(list(PREC) + ['==', '<', '+', '&&', '||', '!=', '>'])
        right = self.expr(depth - 1, names)
        if op in ('/', '%') and r.random() < 0.95:
            right = [(str(r.choice([1, 2, 3, 7, 10])), True)] if r.random() < 0.7 else [('(', True)] + right + [('|', True), ('1', True), (')', True)]
        if op in ('<<', '>>') and r.random() < 0.95:
            right = [(str(r.choice([0, 1, 4, 31, 32, 63])), True)]
        return self.expr(depth - 1, names) + [(op, True)] + right

    def junk(self):
        r = self.r
        lines = []
        for _ in range(r.randint(1, 4)):
            x = r.randrange(14)
            lines += [['#unknown directive'], ['# 1 2 3'], ['text ( A F1('], ["don't do this"], ['"unterminated'], ['#include "no such file.h"'],
                      ['#define 1x'], ['#define A broken', '#undef B'], ['#if 1 / 0', ' inner', '#else', ' inner', '#endif'],
                      ['#while 1', ' loop', '#endw'], ['#macro M1(x', ' x', '#endm'], ['#ifdef A', '#elif 1 +', '#endif'],
                      ['#eval 1 +', '#set N 5'], ['// #endif', '/* #endif', ' #else */ #x', 'F2(1)']][x]
        return ('junk', lines)

    def block(self, depth, budget, loops=(), in_macro=False):
        nodes = []
        r = self.r
        for _ in range(budget):
            x = r.random()
            directive = self.focus == 'directives'
            if x < (0.2 if directive else 0.4):
                nodes.append(self.text(not in_macro, loops))
            elif x < (0.35 if directive else 0.65):
                nodes.append(self.define())
            elif x < (0.38 if directive else 0.72):
                nodes.append(('undef', r.choice(self.order + list(BLOCKS))))
            elif x < 0.46 if directive else x < 0.78:
                if in_macro:
                    nodes.append(self.text(False, loops))
                else:
                    nodes.append(self.macro())
            elif depth <= 0:
                nodes.append(self.text(not in_macro, loops))
            elif x < (0.66 if directive else 0.86):
                nodes.append(self.conditional(depth, loops, in_macro))
            elif x < (0.78 if directive else 0.91):
                nodes.append(self.ifdef(depth, loops, in_macro))
            elif x < (0.9 if directive else 0.96):
                nodes += self.repeat(depth, loops, in_macro)
            else:
                nodes.append(('eval', self.expr(4, loops)))
        return nodes

    def macro(self):
        name = self.r.choice(list(BLOCKS))
        params = self.r.sample(['p', 'q', 'пар2', 'p_1'], BLOCKS[name])
        nodes = self.block(1, self.r.randint(1, 3), (), True)
        nodes = [self.with_params(n, params) for n in nodes]
        return ('macro', name, params, nodes)

    def with_params(self, n, params):
        if params and n[0] == 'text' and n[1]:
            toks = list(n[1])
            at = self.r.randrange(1, len(toks) + 1) if toks[0][0] not in FUNS else 0
            if at < len(toks):
                toks[at] = (toks[at][0], True)
            toks.insert(at, (self.r.choice(params), True))
            # Not between a name and its brackets
            for i in range(len(toks) - 1):
                if toks[i][0] in params and toks[i + 1][0] == '(' and i and (toks[i - 1][0] in FUNS or toks[i - 1][0] in ZEROS):
                    return n
            return ('text', toks)
        return n

    def conditional(self, depth, loops, in_macro):
        conds = [(self.cond(loops), self.group(depth, loops, in_macro)) for _ in range(self.r.choice([1, 1, 1, 2, 2, 3, 5]))]
        return ('if', conds, self.group(depth, loops, in_macro) if self.r.random() < 0.6 else None)

    def group(self, depth, loops, in_macro):
        return self.block(depth - 1, self.r.choice([0, 1, 1, 2]), loops, in_macro)

    def cond(self, loops):
        x = self.r.random()
        if x < 0.25:
            return [(self.r.choice(['0', '1', '0', '0x0', '2']), True)] if x < 0.2 else [('!', True), ('0', False)]
        return self.expr(self.r.randint(1, 5), loops)

    def ifdef(self, depth, loops, in_macro):
        name = self.r.choice(self.order + list(BLOCKS) + ['V1', 'нет', 'x'])
        elifs = [(self.cond(loops), self.group(depth, loops, in_macro)) for _ in range(self.r.choice([0, 0, 0, 1, 2]))]
        return ('ifdef', self.r.random() < 0.5, name, self.group(depth, loops, in_macro), elifs,
                self.group(depth, loops, in_macro) if self.r.random() < 0.6 else None)

    def repeat(self, depth, loops, in_macro):
        self.loop += 1
        v = 'I%d' % self.loop
        k = self.r.choice([0, 1, 2, 3, 4, 7])
        step = self.r.choice([1, 1, 1, 2])
        start = self.r.choice([0, 0, 1, -2])
        init = ('define', 'define' if not in_macro else 'set', v, [], [('t', '-', True), ('t', '2', False)] if start < 0 else [('t', str(start), True)])
        inc = ('define', 'set', v, [], [('e', [(v, True), ('+', True), (str(step), True)], True)])
        body = self.block(depth - 1, self.r.choice([1, 1, 2]), tuple(loops) + (v,), in_macro)
        body.insert(len(body) if self.r.random() < 0.7 else self.r.randrange(len(body) + 1), inc)
        cond = [(v, True), (self.r.choice(['<', '<=', '<']), True), (str(k), True)]
        if self.r.random() < 0.3:
            cond = [('(', True)] + cond + [(')', False), ('&&', True), ('1', True)]
        return [init, ('while', cond, body)]

    def values(self):
        """Macros for expressions: integers, and texts whose meaning depends on plain substitution."""
        r = self.r
        vs = [('V1', [], [str(r.randrange(10))]), ('V2', [], ['1', '+', '2']), ('V3', [], ['(', '-', '3', ')']), ('V4', [], ['V1', '*', '2'])]
        out = [('define', 'define', n, p, [('t', t, True) for t in b]) for n, p, b in vs]
        out.append(('define', 'define', 'V5', ['z'], [('t', '(', True), ('p', 0, True), ('t', '*', True), ('t', '2', True), ('t', ')', True)]))
        return out

    def document(self, size):
        nodes = self.values()
        for _ in range(self.r.randint(2, 8)):
            nodes.append(self.define())
        return nodes + self.block(3, size)


class Tracing(Model):
    """Knows which node lists were entered, so that text never processed can be replaced by anything."""
    def __init__(self, defs=None):
        super().__init__(defs)
        self.entered = set()

    def run(self, nodes):
        self.entered.add(id(nodes))
        return super().run(nodes)


def lists_of(n):
    if n[0] == 'if':
        return [b for _, b in n[1]] + ([n[2]] if n[2] is not None else [])
    if n[0] == 'ifdef':
        return [n[3]] + [b for _, b in n[4]] + ([n[5]] if n[5] is not None else [])
    if n[0] == 'while':
        return [n[2]]
    return []


def junk_unentered(r, nodes, entered, gen, p=0.6):
    count = 0
    for n in nodes:
        for b in lists_of(n):
            if id(b) in entered:
                count += junk_unentered(r, b, entered, gen, p)
            elif r.random() < p:
                b.insert(r.randrange(len(b) + 1), gen.junk())
                count += 1
    return count


# Broken documents: each has to be rejected wherever it is processed.
BROKEN_MACRO = [
    ['#define FF(a) a', 'x FF y'], ['#define FF(a) a', 'FF(1, 2)'], ['#define FF(a, b) a b', 'FF(1)'], ['#define FF(a, a) a'],
    ['#define FF(a', 'x'], ['#define FF(a) # b'], ['#define FF(a) a ##'], ['#define FF(a) ## a'], ['#define RR RR', 'RR'],
    ['#define RR SS', '#define SS RR', 'x RR'], ['#define RR(a) RR(a)', 'RR(1)'], ['#define'], ['#undef'], ['#macro', 'x', '#endm'], ['#define 1x 2'],
    ['#macro MM', 'x'], ['#define FF(a) a', 'FF(1'], ['#define FF(1) a'], ['#define FF(a b) a'], ['x # y'], ['"unterminated'], ["'unterminated"], ['/* unterminated'],
    ['#define FF(a) a ## b'], ['#endm']]
BROKEN_DIRECTIVE = [
    ['#if 1', 'x'], ['#ifdef A', 'x'], ['#else'], ['#endif'], ['#elif 1'], ['#if 1', '#else', '#else', '#endif'], ['#if 0', '#else', '#elif 1', '#endif'], ['#while 0', 'x'],
    ['#while 1', 'x'], ['#endw'], ['#if'], ['#if 1 / 0', '#endif'], ['#if 1 % 0', '#endif'], ['#if 0 && 1 / 0', '#endif'], ['#if 1 << 64', '#endif'], ['#if 1 >> -1', '#endif'],
    ['#if 1 +', '#endif'], ['#if (1', '#endif'], ['#if 1)', '#endif'], ['#if ()', '#endif'], ['#if 1 2', '#endif'], ['#if * 1', '#endif'], ['#if "s"', '#endif'],
    ['#if 1.5', '#endif'], ['#if 1x', '#endif'], ['#if 1 = 1', '#endif'], ['#eval'], ['#eval 1 +'], ['#eval 5 / (2 - 2)'], ['#while'], ['#elif'], ['#ifdef', '#endif'], ['#ifndef 1', '#endif'],
    ['#unknown'], ['#if 0', '#elif 1 / 0', '#endif'], ['#while 1 / 0', '#endw'], ['#define EE #eval 1 +'], ['#while 1', '#endw'], ['#if 1', '#endw', '#endif'], ['#if ++ 1', '#endif'],
    ['#if 1', '#while 0', '#endif'], ['#if 0', '#while 1', '#endif'], ['#if 0', '#macro MM', '#endif']]
