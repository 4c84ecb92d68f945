"""Hostile inputs: mutations of well-formed programs (tokens, lines, bytes), truncations, and hand-made stress shapes."""
import random
import re

TOK = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-zА-Яа-яёЁ_][\wА-Яа-яёЁ]*|\d[\w.]*|//[^\n]*|/\*.*?\*/|\s+|[-+*/%&|^<>=!]=|<<=?|>>=?|&&|\|\||\+\+|--|->|##|.', re.S)

WORDS = ['int', 'float', 'char', 'bool', 'void', 'struct', 'enum', 'typedef', 'const', 'if', 'else', 'while', 'do', 'for',
         'switch', 'case', 'default', 'break', 'continue', 'return', 'null', 'true', 'false', 'abs', 'upb', 'main', 'printf',
         'print', 'printid', 'getid', 'цел', 'вещ', 'если', 'главная', 'x', 'a', 'f', '0', '1', '1.5', '1e9', '0x7F',
         "'a'", '"s"', '"%i"', '"%', '(', ')', '[', ']', '{', '}', ';', ',', '.', '->', '=', '+', '-', '*', '/', '%', '&', '|',
         '^', '~', '!', '?', ':', '<', '>', '<=', '==', '&&', '||', '++', '--', '+=', '<<=', '>>', '#define', '#if', '#endif',
         '#macro', '#endm', '#while', '#endw', '#include', '#eval', '#undef', '#set', '#else', '#elif', '#line', '#ifdef',
         '#ifndef', '#', '##', '\\', '\n', '"', "'", '/*', '*/', '//', '@', '$', '\t', '\0', '\ufeff', 'ё', '9' * 25, '1e400']


def tokens(s):
    return TOK.findall(s)


def mutate(rng, src, other=None):
    """Return (text as bytes, list of mutation names)."""
    names = []
    t = tokens(src)
    n = rng.choice([1, 1, 1, 2, 2, 3, 5])
    for _ in range(n):
        if not t:
            t = ['x']
        k = rng.choice(['del', 'dup', 'swap', 'ins', 'rep', 'delrange', 'trunc', 'line', 'splice', 'num', 'ident', 'moveline', 'repword', 'deep'])
        names.append(k)
        i = rng.randrange(len(t))
        if k == 'del':
            del t[i]
        elif k == 'dup':
            t.insert(i, t[i])
        elif k == 'swap':
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 'ins':
            t.insert(i, rng.choice(WORDS))
        elif k in ('rep', 'repword'):
            t[i] = rng.choice(WORDS)
        elif k == 'delrange':
            del t[i:i + rng.randint(1, 12)]
        elif k == 'trunc':
            t = t[:i] if rng.random() < 0.5 else t[i:]
        elif k == 'line':
            t.insert(i, '\n')
        elif k == 'splice' and other:
            o = tokens(other)
            j = rng.randrange(len(o))
            t[i:i] = o[j:j + rng.randint(1, 30)]
        elif k == 'num':
            t[i] = rng.choice(['0', '-1', '2147483648', '4294967296', '9' * 30, '1e99', '0xFFFFFFFFFFFFFFFF', '0.0', '1e-400', '07', '0b2', '1.', '.5'])
        elif k == 'ident':
            ids = [x for x in t if x[0].isalpha()]
            if ids:
                t[i] = rng.choice(ids)
        elif k == 'moveline':
            ls = ''.join(t).split('\n')
            a = rng.randrange(len(ls))
            l = ls.pop(a)
            ls.insert(rng.randrange(len(ls) + 1), l)
            t = tokens('\n'.join(ls))
        elif k == 'deep':
            c = rng.choice(['(', '{', '[', '-', '!', '*', 'if (1) ', '{ {', '"a" ', 'a = ', 'x ? x : ', '&', 'a[', 'f('])
            t.insert(i, c * rng.randint(2, 60))
    b = ''.join(t).encode('utf-8', 'surrogateescape')
    if rng.random() < 0.05:
        names.append('legacy')
        b = b.decode('utf-8', 'replace').encode(rng.choice(['cp1251', 'koi8-r', 'cp866', 'utf-16-le']), 'replace')
    if rng.random() < 0.15 and b:
        names.append('bytes')
        b = bytearray(b)
        for _ in range(rng.randint(1, 6)):
            k = rng.randrange(4)
            i = rng.randrange(len(b)) if b else 0
            if k == 0 and b:
                b[i] = rng.randrange(256)
            elif k == 1:
                b.insert(i, rng.choice([0x80, 0xC0, 0xE0, 0xF0, 0xFF, 0xD0, 0, 13, 0xEF]))
            elif k == 2 and b:
                del b[i]
            elif b:
                b[i] ^= 1 << rng.randrange(8)
        b = bytes(b)
    return b, names
