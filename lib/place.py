"""P07: source texts in which the file and line of one construct are known, whatever stands around it.

Text is a list of lines per file; decorations are lines that add no code, put between the lines of a program."""
import random

RU = ['ключ', 'строка', 'Ёлка', 'ж', 'данные и ещё', '日本', 'é', '—', '😀']


class Deco:
    """Decorations for one document: what is defined so far is tracked along the text."""

    def __init__(self, r, cyr=0.3, base='ZD'):
        self.base = base
        self.r = r
        self.n = 0
        self.cyr = cyr
        self.obj = []       # object macros with an empty or blank body
        self.fun = []       # (name, number of parameters) with an empty body
        self.multi = []     # macros of several lines
        self.kinds = set()

    def fresh(self, base=''):
        self.n += 1
        return '%s%s%d' % (self.base, base, self.n)

    def words(self):
        r = self.r
        w = []
        if r.random() < 0.15:
            return r.choice(['#line 70 "x.c"', '#line 70', '#line 70 "x.c" // text'])
        for _ in range(r.randint(0, 5)):
            w.append(r.choice(RU) if r.random() < self.cyr else r.choice(['text', 'x = 1;', '#define Q', '"', "'", '#if 1', '//', '\\n', '#line 7', '#line 5 "x.c" // y', '{', 'int', '#', '*', '@', '%s']))
        return ' '.join(w)

    def comment_text(self):
        return self.words().replace('*/', '').replace('\\\n', '')

    def one(self, depth=0):
        """A group of lines without code."""
        r = self.r
        k = r.choice(['blank', 'blank', 'spaces', 'slash', 'slash', 'star', 'stars', 'stars', 'define', 'function', 'macro', 'undef', 'set', 'if0', 'if1',
                      'ifdef', 'use', 'use', 'usef', 'usef', 'usemulti', 'usespan', 'while', 'eval', 'contdef', 'usetwice', 'usecomment', 'longline'])
        self.kinds.add(k)
        if k == 'blank':
            return [''] * r.randint(1, 3)
        if k == 'spaces':
            return [r.choice(['   ', '\t', ' \t '])]
        if k == 'slash':
            t = self.words()
            return [r.choice(['', '  ', '\t']) + '//' + r.choice(['', ' ']) + t.rstrip('\\') + '.']
        if k == 'star':
            return ['/*' + self.comment_text() + ' */' * 1]
        if k == 'stars':
            return ['/* ' + self.comment_text()] + [r.choice(['', '', '  ']) + self.comment_text() for _ in range(r.randint(0, 3))] + [self.comment_text() + ' */']
        if k == 'define':
            n = self.fresh()
            self.obj.append(n)
            return ['#define %s%s' % (n, r.choice(['', ' ', ' // ' + 'note', ' /* note */']))]
        if k == 'function':
            n = self.fresh()
            c = r.randint(1, 3)
            self.fun.append((n, c))
            return ['#define %s(%s)' % (n, ', '.join('abc'[:c]))]
        if k == 'contdef':
            n = self.fresh()
            self.obj.append(n)
            return ['#define %s \\' % n] + ['  \\'] * r.randint(0, 2) + ['  ']
        if k == 'macro':
            n = self.fresh()
            self.multi.append(n)
            return ['#macro ' + n] + ['' if r.random() < 0.5 else '  ' for _ in range(r.randint(0, 4))] + ['#endm']
        if k == 'undef' and self.obj:
            n = self.obj.pop(r.randrange(len(self.obj)))
            return ['#undef ' + n]
        if k == 'set' and self.obj:
            return ['#set ' + r.choice(self.obj)]
        if k == 'if0':
            return ['#if 0'] + [self.words().replace('#', '').replace('"', '').replace("'", '').replace('//', '') for _ in range(r.randint(0, 3))] + ['#endif']
        if k == 'if1' and depth < 2:
            L = ['#if 1'] + self.some(depth + 1)
            if r.random() < 0.5:
                L += ['#else'] + [r.choice(['junk', 'int', '', 'x = ;']) for _ in range(r.randint(0, 2))]
            return L + ['#endif']
        if k == 'ifdef' and depth < 2:
            return ['#ifdef ZNOT'] + ['junk' for _ in range(r.randint(0, 2))] + ['#else'] + self.some(depth + 1) + ['#endif']
        if k in ('use', 'usecomment') and self.obj:
            return [r.choice(['', '  ', '\t']) + r.choice(self.obj) + (' // ' + r.choice(RU) if k == 'usecomment' else '')]
        if k == 'usetwice' and self.obj:
            return [' '.join(r.choice(self.obj) for _ in range(r.randint(2, 3)))]
        if k == 'usef' and self.fun:
            n, c = r.choice(self.fun)
            return ['%s(%s)' % (n, ', '.join(r.choice(['1', 'x', '(1, 2)', '"s"', '']) for _ in range(c)) if c > 1 else r.choice(['1', 'x y']))]
        if k == 'usespan' and self.fun:
            n, c = r.choice(self.fun)
            L = ['%s(1' % n]
            for _ in range(c - 1):
                if r.random() < 0.7:
                    L.append('')
                L[-1] += ', 2'
            if r.random() < 0.5:
                L.append('')
            L[-1] += ')'
            return L
        if k == 'usemulti' and self.multi:
            return [r.choice(self.multi)]
        if k == 'while':
            n = self.fresh('C')
            c = r.randint(0, 3)
            return ['#define %s 0' % n, '#while %s < %d' % (n, c), r.choice(['', '  ', '// note']), '#set %s #eval(%s + 1)' % (n, n), '#endw']
        if k == 'eval':
            return ['#if #eval(1 - 1)', 'junk', '#endif'] if False else ['']
        if k == 'longline':
            return ['// ' + r.choice(['x', 'щ']) * r.choice([100, 500, 900])]
        return ['']

    def some(self, depth=0):
        L = []
        for _ in range(self.r.randint(0, 3)):
            L += self.one(depth)
        return L

    def prefix(self):
        """What may stand on the line before the construct."""
        r = self.r
        k = r.choice(['', '', 'tab', 'spaces', 'comment', 'ru', 'use', 'usef', 'two', 'tail'])
        self.kinds.add('before: ' + k)
        if k == 'tab':
            return [], '\t' * r.randint(1, 3)
        if k == 'spaces':
            return [], ' ' * r.randint(1, 9)
        if k == 'comment':
            return [], '/* note */ '
        if k == 'ru':
            return [], '/* %s */ ' % r.choice(RU)
        if k == 'use' and self.obj:
            return [], r.choice(self.obj) + ' '
        if k == 'usef' and self.fun:
            n, c = r.choice(self.fun)
            return [], '%s(%s) ' % (n, ', '.join('1' for _ in range(c)))
        if k == 'two' and self.obj:
            return [], '/* a */ %s /* b */ ' % r.choice(self.obj)
        if k == 'tail':
            return ['/* start', 'middle'], 'end */ '
        return [], ''

    def suffix(self):
        r = self.r
        k = r.choice(['', '', 'slash', 'star', 'ru', 'use', 'open'])
        self.kinds.add('after: ' + k)
        if k == 'slash':
            return ' // note'
        if k == 'star':
            return ' /* note */'
        if k == 'ru':
            return ' // ' + r.choice(RU)
        if k == 'use' and self.obj:
            return ' ' + r.choice(self.obj)
        return ''


def decorated(r, lines, deco, density):
    """The lines with decorations between them, and where each line went."""
    out, where = [], []
    for l in lines:
        if r.random() < density:
            out += deco.some()
        where.append(len(out))
        out.append(l)
    return out, where
