"""P07: every diagnostic names the file and line of its cause and shows that line."""
import os
import random
import re
import shutil
import tempfile

import frame
import p06
import place
import rules

BIN = {}
ANSI = re.compile('\x1b\\[[0-9;]*m')
DIAG = re.compile(r'^(.*):(\d+):(\d+): (ошибка|предупреждение): (.*)$')
ERR, WARN = 'ошибка', 'предупреждение'

# constructs the preprocessor reports: text, and the line (0: its first) the report is about; None: to the end of the file
PRE = [('#define', 0), ('#define 1x', 0), ('#define ZF(a a) 1', 0), ('#define ZF(a,a) 1', 0), ('#define ZF(a', 0), ('#define ZF(1) 1', 0),
       ('#define ZF(a) #b', 0), ('#define ZF(a) a ##', 0), ('#define ZF(a) ## a', 0), ('#define ZM a # b', 0), ('#undef', 0), ('#undef 1', 0),
       ('#set', 0), ('#if\n#endif', 0), ('#if (1\n#endif', 0), ('#if 1)\n#endif', 0), ('#if 1 +\n#endif', 0), ('#if * 1\n#endif', 0),
       ('#if 1 1\n#endif', 0), ('#if 1.5\n#endif', 0), ('#if 1 / 0\n#endif', 0), ('#if 1 << 99\n#endif', 0), ('#if 08x\n#endif', 0),
       ('#if "s"\n#endif', 0), ('#elif 1', 0), ('#else', 0), ('#endif', 0), ('#endw', 0), ('#endm', 0), ('#include', 0), ('#include zz', 0),
       ('#include "zznone.h"', 0), ('#include <zznone.h>', 0), ('#include "zz', 0), ('#unknown', 0), ('#ifdef\n#endif', 0), ('#ifdef 1\n#endif', 0),
       ('#ifndef 1\n#endif', 0), ('zz_iv = #eval(1;', 0), ('zz_iv = #eval();', 0), ('zz_iv = #eval(1 + );', 0), ('ZF2(1);', 0), ('ZF2(1,2,3);', 0),
       ('ZF2;', 0), ('zz_iv = "abc;', 0), ("zz_iv = 'a;", 0), ('zz_iv = # 1;', 0), ('#', 0), ('# define', 0), ('#while\n#endw', 0),
       ('#macro\n#endm', 0), ('#macro 1\n#endm', 0), ('#define ZZ 1 "abc', 0), ('#if 1\n#else\n#else\n#endif', 2),
       ('#if 1\n#else\n#elif 1\n#endif', 2), ('#if 1\n\n#if 1 +\n#endif\n#endif', 2), ('#if 0\n#elif 1 +\n#endif', 1),
       ('#while 1\n#endw', 0), ('#while 1\n\n#bad\n#endw', 2), ('#macro ZQ(a\n#endm', 0), ('#define ZR ZS\n#define ZS ZR\nZR;', 2),
       ('#error zz', 0), ('#pragma once', 0), ('ZF2(1,\n\n2, 3);', None), ('#if 1\n#undef 5\n#endif', 1), ('#ifdef ZNOT\n#else\n#set\n#endif', 2)]
OPEN = ['#if 1', '#if 0', '#ifdef ZO', '#ifndef ZO', '#while 0', '#macro ZQ', '#macro ZQ(a)', '#if 1\n#else', '#if 0\n\n#else', '/* abc', 'ZF2(1, 2', 'ZF2(1,', 'zz_iv = ZF2(1, (2);']
PREWARN = [('#set zznone 1', 0), ('#define ZO 2', 0), ('#undef ZO x', 0), ('#ifdef ZO x\n#endif', 0), ('#if 1\n#endif x', 1), ('#line 5', 0),
           ('#if 1\n#else x\n#endif', 1)]
WARNINGS = ['if (zz_bv = true) zz_iv = 1;', 'while (zz_bv = false) zz_iv = 1;', 'zz_bv = zz_fv == 1.5;', 'zz_bv = zz_fv != zz_fv;', 'zz_bv = 2.5 == zz_fv;',
            'if (zz_fv == zz_fv) zz_iv = 2;', 'while (zz_iv = 0) zz_iv = 1;', 'do zz_iv = 1; while (zz_bv = false);']
# errors after which the rest of the line and the text go on undisturbed
QUIET = ['zznone = 1;', 'zz_iv = zznone;', 'zz_iv = zz_fv;', 'zz_ki = 2;', 'zz_fn();', 'zz_fn(1, 2);', '*zz_kp = 1;', 'zz_iv = zz_sv;', 'zz_sv.q = 1;',
         'zz_iv = zz_ia;', 'zz_bv = 1 + zz_sv;', 'zz_bv = zz_iv;', '5 = zz_iv;', 'zz_iv[1] = 1;', 'break;', 'zz_ip = zz_fp;', 'zz_iv = zz_proc(1);', 'zz_iv = upb zz_iv;',
         'zz_iv = !zz_sv;', 'zz_iv = zz_iv % zz_fv;', 'printf("%i");', 'printf("%i", zz_fv);', 'printf(zz_iv);', 'zz_bv++;', '++zz_kf;', '&5;', '*zz_iv;']
# text of a macro and of a use of it that makes an error: the use is the cause the user can be shown
USES = [('#define ZB zznone', 'zz_iv = ZB;'), ('#define ZB(a) zz_iv = a', 'ZB(zz_sv);'), ('#define ZB(a, b) a + b', 'zz_iv = ZB(1, zznone);'),
        ('#macro ZB\nzz_iv = 1;\nzz_iv = zznone;\n#endm', 'ZB'), ('#macro ZB(a)\n\nzz_iv = a;\n\n#endm', 'ZB(zz_fv)'),
        ('#define ZB 1 +', 'zz_iv = ZB;'), ('#define ZB ZC\n#define ZC zznone', 'zz_iv = 2; zz_iv = ZB;'), ('#define ZB ,', 'zz_fn(1 ZB 2);'),
        ('#define ZB(a) #a', 'zz_iv = ZB(x y);'), ('#define ZB(a) zz_i ## a', 'zz_iv = ZB(none);'), ('#define ZB 1.5', 'zz_iv = zz_iv + ZB; zz_iv = 2;'),
        ('#macro ZB\nzz_iv = 1;\n#endm', 'ZB zz_iv = zznone;'), ('#define ZB zz_iv', 'ZB = ZB + ZB; ZB = zznone;'), ('#define ZB(a) (a)', 'zz_iv = ZB(1) + ZB(2); zz_iv = ZB(3) + zz_sv;')]


# the cause stands on a later line of a longer construct: text, line of the cause, lines before
SPREAD = [('zz_iv = 1 +\n2 +\nzznone;', 2, []), ('zz_iv =\n\n// note\nzznone;', 3, []), ('zz_fn(\n1,\n2);', None, []), ('zz_fn(\n\nzz_sv\n);', 2, []),
          ('if (zz_bv)\n{\nzz_iv = 1;\n}\nelse\nzznone = 1;', 5, []), ('{\n{\n/* a\nb */\nzznone = 1;\n}\n}', 4, []),
          ('switch (zz_iv)\n{\ncase 1:\nzznone = 1;\n}', 3, []), ('int zz_q[3] = {1,\n2,\nzznone};', 2, []), ('struct Zs\n{\nint a;\nint a;\n};', 3, []),
          ('printf("%i %i",\nzz_iv,\nzz_fv);', None, []), ('#if 1\nzznone = 1;\n#endif', 1, []), ('#if 0\nzznone = 1;\n#else\nzznone = 1;\n#endif', 3, []),
          ('#ifndef ZNOT\n\n#if 1\nzznone = 1;\n#endif\n#endif', 3, []), ('#define ZK 0\n#while ZK < 2\n#set ZK #eval(ZK + 1)\nzznone = 1;\n#endw', 3, []),
          ('#define ZK 0\n#while ZK < 3\nzz_iv = 1;\n\n#set ZK #eval(ZK + 1)\n#endw\nzznone = 1;', 6, []),
          ('ZF2(1,\n2); zznone = 1;', 1, ['#define ZF2(a, b) a + b']), ('ZF2(1,\n\n2);\nzznone = 1;', 3, ['#define ZF2(a, b) a + b']),
          ('ZF2(1\n,\n2); ZF2(3, 4);\n\nzznone = 1;', 4, ['#define ZF2(a, b) a + b']), ('ZM\nzznone = 1;', 1, ['#macro ZM', 'zz_iv = 1;', 'zz_iv = 2;', '#endm']),
          ('ZM ZM\n\nZM\nzznone = 1;', 3, ['#macro ZM', 'zz_iv = 1;', 'zz_iv = 2;', '#endm']), ('ZN\nzznone = 1;', 1, ['#macro ZM', 'zz_iv = 1;', '', '#endm', '#macro ZN', 'ZM', 'ZM', '#endm']),
          ('ZN(1)\n/* */ zznone = 1;', 1, ['#macro ZN(a)', 'zz_iv = a;', '#if a', '', 'zz_iv = a;', '#endif', '#endm']),
          ('// note \\\nzz_iv = 2;\nzznone = 1;', 2, []), ('#define ZK \\\n\\\n1\nzznone = ZK;', 3, []),
          ('/* \\\n */ zznone = 1;', 1, []), ('zz_iv = ZK; zz_iv = ZK;\nzz_iv = ZK;\nzznone = ZK;', 2, ['#define ZK 1'])]


def diags(err):
    L = ANSI.sub('', err).split('\n')
    return [(m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5), L[i + 1] if i + 1 < len(L) else '')
            for i, m in ((i, DIAG.match(l)) for i, l in enumerate(L)) if m]


def code(line, inside=False):
    """The line without comments, spaces counted as one."""
    if inside and '*/' in line:
        line = line[line.index('*/') + 2:]
    line = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//.*', lambda m: m.group() if m.group()[0] in '"\'' else ' ', line)
    return ' '.join(line.split())


LONG = 'длинное_имя_каталога_' * 5 + '/' + 'deep_' * 30 + '/'


class Doc:
    """A program of one or more files with known places."""

    def __init__(self, r):
        self.r = r
        self.cyr = r.choice([0, 0.3, 0.7])
        self.d = self.deco()
        self.files = {}         # name -> lines
        self.eol = {}
        self.marks = []         # (file, line number, text, inside comment)

    def deco(self):
        self.n = getattr(self, 'n', 0) + 1
        return place.Deco(self.r, self.cyr, 'ZD%d_' % self.n)

    def add(self, name, out, text, bare=False):
        """Put a marked line (or lines, the marked one first) at the end of `out`."""
        if bare:
            pl, pre, suf = [], '', ''
        else:
            pl, pre = self.d.prefix()
            suf = self.d.suffix()
        out += pl
        self.marks.append((name, len(out) + 1, pre + text + suf, bool(pl)))
        out.append(pre + text + suf)

    def write(self, d):
        for name, lines in self.files.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            eol = self.eol.setdefault(name, self.r.choice(['\n'] * 5 + ['\r\n']))
            with open(p, 'w', newline='') as f:
                f.write(eol.join(lines) + (eol if self.r.random() < 0.8 or lines[-1].startswith('#') else ''))


def lines(text):
    return text.rstrip('\n').split('\n')


def split(h, at, inner=True):
    src = h[0]
    return lines(p06.rename(p06.TOP) + src[:at]) if at else lines(p06.rename(p06.TOP)), lines(src[at:])


HOSTS = {}


def host_of(seed, i):
    k = (seed, i)
    if k not in HOSTS:
        if len(HOSTS) > 40:
            HOSTS.clear()
        HOSTS[k] = p06.host(random.Random('p07h%s-%s' % k))
    return HOSTS[k]


def simple(r, kind):
    """(lines of the construct, which of them is the cause, is it a warning, must it stand alone, lines to put before all)"""
    if kind == 'rule':
        while True:
            name, bad, good = r.choice(rules.S)
            if '\n' not in bad and 'unterminated' not in name:
                return name, [p06.rename(bad)], 0, ERR, name in p06.ALONE, []
    if kind == 'quiet':
        q = r.choice(QUIET)
        return q, [q], 0, ERR, q == 'break;', []
    if kind == 'warning':
        w = r.choice(WARNINGS)
        return w, [w], 0, WARN, False, []
    if kind == 'pre':
        t, k = r.choice(PRE)
        return t, t.split('\n'), k, ERR, False, ['#define ZO 1', '#define ZF2(a, b) a + b']
    if kind == 'open':
        t = r.choice(OPEN)
        return t, t.split('\n'), 0, ERR, False, ['#define ZO 1', '#define ZF2(a, b) a + b']
    if kind == 'prewarn':
        t, k = r.choice(PREWARN)
        return t, t.split('\n'), k, WARN, False, ['#define ZO 1']
    if kind == 'spread':
        t, k, pre = r.choice(SPREAD)
        return t, t.split('\n'), k, ERR, False, pre
    d, u = r.choice(USES)
    return d + ' | ' + u, [u], 0, ERR, False, d.split('\n')


def put(doc, name, out, c):
    """The construct in its place; the marked line is its cause."""
    _, L, k, _, _, _ = c
    directive = [l.startswith('#') for l in L]
    for i, l in enumerate(L):
        if i == (k or 0):
            doc.add(name, out, l, bare=directive[i] or len(L) > 1 or l.startswith('/*') or '"' in l and l.count('"') % 2 or "'" in l and l.count("'") % 2)
        else:
            out.append(l)


def function(r, n, body=()):
    return ['int zh_%s(int zp)' % n, '{', '\tint zq = zp + %d;' % r.randint(1, 9)] + list(body) + ['\treturn zq;', '}']


def document(r, h, kind, where):
    """One construct in one of the files."""
    doc = Doc(r)
    c = simple(r, kind)
    src, inner, outer = h
    p = r.choice([0.05, 0.2, 0.4])
    head = list(c[5])
    if where == 'main':
        if c[4]:
            at = r.choice(outer)
            before = lines('void zz_host(int zz_p)\n{\n' + p06.rename(p06.LOCAL))
        else:
            at = r.choice(inner)
            before = lines('{\n' + p06.rename(p06.LOCAL))
        A = (lines(p06.rename(p06.TOP) + src[:at])) + before
        out = list(head) if r.random() < 0.5 else None
        A2, _ = place.decorated(r, A, doc.d, p)
        out = head + A2 if out is not None else A2
        if out is A2 and head:
            k = r.randrange(0, 3)
            out = head[:0] + out
            # the definitions stand right before the construct
            out += head
        put(doc, 'a.c', out, c)
        Z, _ = place.decorated(r, ['}'] + lines(src[at:]), doc.d, 0 if kind == 'open' else p / 2)
        doc.files['a.c'] = out + Z
        return doc, c
    # a chain of included files; the construct in one of them
    n = r.randint(1, 4)
    names = []
    for i in range(n):
        names.append(r.choice(['', '', 'sub/', 'sub/', 'sub/deep/', 'sub/deep/', LONG]) + r.choice(['h%d.h', 'файл%d.h', 'part%d.c']) % i)
    target = r.randrange(n) if where == 'include' else None
    chain = r.random() < 0.6
    # definitions every file needs, in a file of its own
    main, doc.d = doc.d, doc.deco()
    top, _ = place.decorated(r, lines(p06.rename(p06.TOP)), doc.d, p)
    doc.files['top.h'] = top
    doc.d = main
    def path(frm, to):
        return os.path.relpath(to, os.path.dirname(frm) or '.')
    for i in range(n - 1, -1, -1):
        L = []
        main, doc.d = doc.d, doc.deco()
        first = r.random() < 0.5
        if chain and i + 1 < n and first:
            L.append('#include "%s"' % path(names[i], names[i + 1]))
        L += function(r, 'f%d' % i)
        if r.random() < 0.3:
            L.append('#include "%s"' % path(names[i], names[r.randrange(n)]) if False else '')
        L, _ = place.decorated(r, L, doc.d, max(p, 0.2))
        if i == target:
            L += head
            L += lines('void zz_host(int zz_p)\n{\n' + p06.rename(p06.LOCAL))
            L += doc.d.some()
            put(doc, names[i], L, c)
            L += ['}']
        if chain and i + 1 < n and not first:
            L += ['#include "%s"' % path(names[i], names[i + 1])]
        L += doc.d.some() if r.random() < 0.5 else []
        doc.files[names[i]] = L
        main.kinds |= doc.d.kinds
        doc.d = main
    inc = [names[0]] if chain else names
    A = []
    for i in inc:
        A += ['#include "%s"' % i]
    A, _ = place.decorated(r, A, doc.d, 0.4)
    A = ['#include "top.h"'] + A
    if where == 'include':
        Z, _ = place.decorated(r, lines(src), doc.d, 0 if kind == 'open' else p / 2)
        doc.files['a.c'] = A + Z
    else:
        at = r.choice(outer if c[4] else inner)
        before = lines(('void zz_host(int zz_p)\n' if c[4] else '') + '{\n' + p06.rename(p06.LOCAL))
        M, _ = place.decorated(r, lines(src[:at]) + before, doc.d, p)
        A += M + head
        put(doc, 'a.c', A, c)
        Z, _ = place.decorated(r, ['}'] + lines(src[at:]), doc.d, 0 if kind == 'open' else p / 2)
        doc.files['a.c'] = A + Z
    return doc, c


def several(r, h):
    """Independent errors in one program: as many reports, at their lines, in order."""
    doc = Doc(r)
    src, inner, outer = h
    c = ('several', [''], 0, ERR, False, [])
    k = r.randint(2, 6)
    out = lines(p06.rename(p06.TOP))
    pos = sorted(r.sample(outer, min(len(outer), r.randint(1, 3))))
    last = 0
    for at in pos:
        A, _ = place.decorated(r, lines(src[last:at]), doc.d, 0.2)
        out += A
        out += lines('void zz_host%d(int zz_p)\n{\n' % at + p06.rename(p06.LOCAL))
        for _ in range(r.randint(1, 3)):
            out += doc.d.some()
            if r.random() < 0.3:
                out.append(r.choice(['zz_iv = 1;', '{ zz_iv = 2; }', 'while (zz_bv) { zz_bv = false; }', 'zz_fn(3);', ';']))
            doc.add('a.c', out, r.choice(QUIET))
        out += ['}']
        last = at
    Z, _ = place.decorated(r, lines(src[last:]), doc.d, 0.2)
    doc.files['a.c'] = out + Z
    return doc, c


def rejected(res, doc, c, clean, label):
    files = {n.replace('/', '__'): '\n'.join(l) for n, l in doc.files.items()}
    res.violation('clean:%s' % label, 'without the construct the text must be accepted (lines without code stand around the lines of a correct program)\n'
                  + ANSI.sub('', clean.text)[:900], dict(files, stderr=clean.err))


def judge(res, doc, c, d, label, every=False):
    doc.write(d)
    r = doc.r
    opt = r.choice(['-VM', '-VM', '-LLVM'])
    rel = r.random() < 0.3
    main = 'a.c' if rel else os.path.join(d, 'a.c')
    run = frame.execute([BIN['rel'], main, opt, '-o', os.path.join(d, 'out')], cwd=d, timeout=20)
    res['n'] += 1
    if run.timeout:
        res['info']['timeouts (inconclusive)'] += 1
        return
    text = run.text
    base = []
    if not every:
        f, n, t, ins = doc.marks[0]
        keep = list(doc.files[f])
        at = n - 1 - (c[2] or 0)
        for j in range(at, at + len(c[1])):
            doc.files[f][j] = '*/' if ins and j == n - 1 else ''
        doc.write(d)
        clean = frame.execute([BIN['rel'], main, opt, '-o', os.path.join(d, 'out')], cwd=d, timeout=20)
        doc.files[f] = keep
        if clean.rc == 64 and ERR in clean.text:
            rejected(res, doc, c, clean, label)
            return
        base = [x for x in diags(clean.err.decode('utf-8', 'replace'))]
    found = [x for x in diags(run.err.decode('utf-8', 'replace')) if x[3] == c[3]]
    for x in base:
        if x in found:
            found.remove(x)
    files = {n.replace('/', '__'): '\n'.join(l) for n, l in doc.files.items()}
    def bad(key, why):
        res.violation('%s:%s:%s' % (key, label, c[0][:60]), '%s\nconstruct: %s\nexpected: %s\nreported: %s\n%s'
                      % (why, c[0], [m[:3] for m in doc.marks], [x[:2] + x[4:] for x in found[:4]], ANSI.sub('', text)[:900]),
                      dict(files, **{'stderr': run.err}))
    if not found:
        bad('silent', 'no %s is reported' % c[3])
        return
    if c[2] is None:        # a construct of several lines: any of them
        f, n, t, ins = doc.marks[0]
        L = doc.files[f][n - 1:n - 1 + len(c[1])]
        for x in found[:1]:
            if os.path.realpath(os.path.join(d, x[0])) != os.path.realpath(os.path.join(d, f)) or not n <= x[1] < n + len(c[1]):
                bad('line', 'wrong place')
        return
    if every and len(found) != len(doc.marks):
        bad('count', '%d constructs, %d reports' % (len(doc.marks), len(found)))
        return
    for m, x in zip(doc.marks, found):
        f, n, t, ins = m
        real = os.path.realpath(os.path.join(d, x[0]))
        if real != os.path.realpath(os.path.join(d, f)):
            bad('file', 'wrong file')
            return
        if x[1] != n:
            bad('line', 'wrong line')
            return
        shown = x[5].rstrip('\r')
        if c[0].startswith('ZF2(1,\n2); '):      # the end of a use which begins on a line before is not shown
            t = t[t.index(';'):]
        ins = ins or t.startswith(' */')
        if len(t) < 900 and code(shown, False) != code(t, ins) and code(shown, True) != code(t, ins):
            bad('text', 'another text is shown: %r for %r' % (shown, t))
            return
        res['saw'].append('message ' + re.sub(r"'[^']*'|\"[^\"]*\"|zz?_?\w*", "_", x[4])[:60])
    res['saw'].append('%s in %s, %s, files %d, line ends %s' % (label, doc.marks[0][0], opt, len(doc.files), len(set(doc.eol.values()))))
    for k in doc.d.kinds:
        res['saw'].append('around: ' + k)
    res['info']['reports judged: ' + c[3]] += len(doc.marks)
    res['info']['lines before the cause'] += sum(m[1] for m in doc.marks[:1])


KINDS = ['rule'] * 4 + ['quiet', 'warning', 'warning', 'pre', 'pre', 'pre', 'open', 'prewarn', 'use', 'use', 'use', 'spread', 'spread', 'spread']


def case(key):
    seed, i = key
    res = frame.Result()
    r = random.Random('p07-%s-%s' % (seed, i))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        h = host_of(seed, i // 8)
        kind = r.choice(KINDS)
        where = r.choice(['main', 'main', 'include', 'after'])
        if kind == 'open' and where == 'include':
            where = 'main'
        if r.random() < 0.12:
            doc, c = several(r, h)
            judge(res, doc, c, d, 'several', every=True)
        else:
            doc, c = document(r, h, kind, where)
            judge(res, doc, c, d, kind + ' ' + where)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run(ctx):
    BIN['rel'] = ctx.build('rel')
    ctx.rule = 'place of the first report (all of them in programs with several errors); distinct = (kind of construct, file it stands in, target) and message texts'
    ctx.assumptions += ['the shown line is compared without comments and with spaces counted as one',
                        'an error in the text of a macro is placed at the use of the macro']
    ctx.map(case, [(ctx.seed, i) for i in range(ctx.size(6000, 120000))], chunk=16)
