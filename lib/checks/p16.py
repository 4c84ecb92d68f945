"""P16: universal input/output against the C library, UTF-8 against its definition, code pages against their tables."""
import os
import tempfile

import build
import frame

EXE = {}


def page(name):
    """Byte -> character of a code page as the system's own tables have it."""
    out = {}
    for b in range(1, 256):
        try:
            out[b] = ord(bytes([b]).decode(name))
        except UnicodeDecodeError:
            pass
    return out


def judge(case):
    part, seed, rounds = case
    r = frame.Result()
    d = tempfile.mkdtemp(dir=frame.WORK)
    run = frame.execute([EXE['io'], part, str(seed), str(rounds)], d, timeout=200)
    text = run.out.decode('utf-8', 'replace')
    if run.timeout:
        r['info']['timeouts'] += 1
        return r
    files = {'replay.txt': 'lib/c/io.c: %s %s %s\n' % case, 'stdout.txt': run.out, 'stderr.txt': run.err}
    if run.rc != 0:
        err = run.err.decode('utf-8', 'replace')
        r.violation('%s:crash' % part, 'part %s, seed %s: exit %s\n%s' % (part, seed, run.rc, err[-3000:]), files)
    fr, to = {}, {}
    for l in text.split('\n'):
        w = l.split(' ', 2)
        if w[0] == 'saw':
            r['saw'].append(w[2])
            r['n'] += int(w[1])
            r['info'][part] += int(w[1])
        elif w[0] == 'bad':
            key = ' '.join(l.split(' ')[1:3])
            r.violation('%s:%s' % (part, w[1]), 'part %s, seed %s: %s' % (part, seed, l[4:]), files)
        elif w[0] == 'from':
            a = w[2].split()
            fr.setdefault(w[1], {})[int(a[0])] = int(a[1])
        elif w[0] == 'to':
            a = w[2].split()
            to.setdefault(w[1], {})[int(a[0])] = int(a[1])
    for name in fr:
        want = page(name)
        for b, c in want.items():
            if fr[name].get(b) != c:
                r.violation('codepage:from', '%s: byte %02x becomes U+%04X, the code page has U+%04X' % (name, b, fr[name].get(b), c), files)
            if c < 0x3000 and to[name].get(c) != b:
                r.violation('codepage:to', '%s: U+%04X becomes byte %s, the code page has %02x' % (name, c, to[name].get(c), b), files)
        for c, b in to[name].items():
            if want.get(b) != c:
                r.violation('codepage:to', '%s: U+%04X becomes byte %02x, which is U+%04X' % (name, c, b, want.get(b, 0)), files)
        r['n'] += 255
        r['saw'].append('code page ' + name)
    if part == 'utf8':
        r['n'] += 0x110000
    return r


def run(ctx):
    EXE['io'] = build.standalone('io', ['utils'], 'std', ['-DITEM=-64', '-D_GNU_SOURCE'])
    ctx.rule = 'writes, reads and conversions compared with the C library; distinct = (operation, kind of stream, outcome)'
    n = ctx.size(80, 1500)
    cases = [('utf8', ctx.seed, 0)]
    cases += [(p, ctx.seed * 100003 + i, 400) for i in range(n) for p in ('out', 'in')]
    ctx.map(judge, cases, chunk=1)
