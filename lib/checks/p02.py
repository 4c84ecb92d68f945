"""P02: the LLVM code computes what the source program means."""
import glob
import os
import re
import shutil
import subprocess
import tempfile

import frame
import gen

RUC = None
SHIM = None
SEED = 1
CLANG = 'clang-14'          # the last one that reads typed pointers
# what the target is documented not to support (tests/**/no-llvm), or leaves to stubs
FEATS = dict(zero_arr=0, param_upb=0, cyr_str=0, struct_arr=0, print=0, printid=0, strfn=0,
             struct_print=0, arr_print=0)
DEFINE = re.compile(r'^(define .*\)) \{$', re.M)


def toolchain(ir, sanitize=False):
    """Build and run emitted code: (stage, what was seen). Stages: ir, timeout, exit, done."""
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        text = ir.decode('utf-8', 'surrogateescape').replace('@printf', '@rucmon_printf')
        if sanitize:
            text = DEFINE.sub(r'\1 sanitize_address {', text)
        with open(os.path.join(d, 'p.ll'), 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(text)
        c = frame.execute([CLANG, '-w', '-O0', '-c', 'p.ll', '-o', 'p.o'] + (['-fsanitize=address'] if sanitize else []), d, 60)
        if c.rc == 0:       # the sanitizer's runtime comes from the current LLVM; its interface is the same
            c = frame.execute((['clang', '-fsanitize=address'] if sanitize else [CLANG]) + ['p.o', SHIM, '-lm', '-o', 'p'], d, 60)
        if c.rc != 0:
            return 'ir', re.sub(r'\d+', 'N', c.text)[:2000], c.text
        x = frame.execute([os.path.join(d, 'p')], d, 10)
        if x.timeout:
            return 'timeout', '', None
        if x.rc != 0:
            return 'exit', x.rc, x
        return 'done', x.out.decode('utf-8', 'surrogateescape'), x
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(r, source, expected, ir, sanitize=False):
    files = {'program.c': source, 'expected.txt': expected, 'program.ll': ir}
    stage, what, x = toolchain(ir, sanitize)
    if stage == 'ir':
        m = re.search(r'error: (.*)', what)
        kind = re.sub(r"'[^']*'", 'X', m.group(1))[:60] if m else what[:60]
        r.violation('ir:' + kind, 'the LLVM toolchain does not accept the emitted code:\n' + x[:1500], files)
    elif stage == 'timeout':
        r.violation('endless', 'the program does not end within 10 and 40 seconds; the source program ends', files)
    elif stage == 'exit':
        err = x.err.decode('utf-8', 'replace')
        m = re.search(r'AddressSanitizer: ([\w-]+)', err)
        r.violation('memory:' + m.group(1) if m else 'exit:%s' % what, 'the program ends with %s\n%s' % (what, err[:3000]), files)
    elif what != expected:
        at = next((i for i, (a, b) in enumerate(zip(what, expected)) if a != b), min(len(what), len(expected)))
        r.violation('output', 'output differs at character %d\nexpected ...%r\nobserved ...%r'
                    % (at, expected[max(0, at - 60):at + 40], what[max(0, at - 60):at + 40]), dict(files, **{'observed.txt': what}))
    else:
        r['n'] += 1
        return True
    return False


def case(i):
    r = frame.Result()
    size = (0.3, 0.6, 1.0, 1.0, 1.6)[i % 5]
    prog, src, expected, it = gen.generate('p02-%s-%d' % (SEED, i), feats=FEATS, size=size)
    c = frame.compile_text(RUC, src, mode='-LLVM')
    if c.run.timeout:
        r['info']['timeouts (inconclusive)'] += 1
        return r
    if not c.ok:
        r.violation('rejected', 'a program of the supported subset is not accepted\n' + c.run.text[:1000], {'program.c': src})
        return r
    sanitize = i % 6 == 5
    judge(r, src, expected, c.output, sanitize)
    r['info']['programs'] += 1
    r['info']['programs run under AddressSanitizer'] += sanitize
    ops = set(re.findall(r'^ (?:%\S+ = )?([a-z]+(?: (?:eq|ne|slt|sgt|sle|sge|oeq|une|olt|ogt|ole|oge))?)', c.output.decode('utf-8', 'replace'), re.M))
    r['saw'] += ['instruction ' + o for o in ops]
    r['saw'].append('output ' + str(hash(expected) & 0xffff))
    if i < 3:
        r['sample'] = src[:1500] + '\n/* expected: %r */' % expected[:200]
    return r


# long runs: memory taken by a body must be given back whichever way the body is left
LONG = '''int f(int x) { int r = x; for (int i = 0; i < 3; i++) { int a[(x & 1) + 2]; a[1] = i; if (i == 1) return r + a[1]; r = r ^ a[1]; } return r; }
int main()
{
	int s = 0;
	%s
	printf("%%i\\n", s);
	return 0;
}
'''
LONG_BODIES = [
    ('for (int i = 0; i < 3000000; i++) { int k = i & 7; if (k == 3) continue; int d[(k & 3) + 1]; d[0] = k; s = s ^ d[0]; }',),
    ('int i = 0; while (i < 3000000) { i++; int k = i & 7; if (k == 3) { int z = 1; s = s ^ z; continue; } s = s ^ k; }',),
    ('int i = 0; do { i++; int k = i & 7; { int q[4]; q[k & 3] = k; if (k == 5) continue; s = s ^ q[k & 3]; } } while (i < 3000000);',),
    ('for (int i = 0; i < 2000000; i++) { switch (i & 3) { case 0: { int a = i; s = s ^ a; break; } case 1: { int b[3]; b[2] = 1; s = s ^ b[2]; } '
     'case 2: s = s ^ 2; break; default: continue; } }',),
    ('for (int i = 0; i < 1000000; i++) for (int j = 0; j < 3; j++) { int k = j; if (k == 1) break; s = s ^ (i + k); }',),
    ('for (int i = 0; i < 1000000; i++) { s = s ^ f(i); bool b = i > 5 && (s & 1) == 0 || i < 100; if (b) s = s ^ 3; }',),
]




def long_case(i):
    r = frame.Result()
    src = LONG % LONG_BODIES[i][0]
    c = frame.compile_text(RUC, src, mode='-LLVM')
    if not c.ok:
        r.violation('long:rejected', c.run.text[:500], {'program.c': src})
        return r
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        with open(os.path.join(d, 'c.c'), 'w') as f:
            f.write('#include <stdio.h>\n#include <stdbool.h>\n' + src)
        b = frame.execute([CLANG, '-w', '-O0', '-fwrapv', 'c.c', '-o', 'c'], d, 60)
        assert b.rc == 0, b.text
        expected = frame.execute([os.path.join(d, 'c')], d, 60).out.decode()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    judge(r, src, expected, c.output)
    r['info']['long runs'] += 1
    return r


def shim():
    """The printf the emitted programs are linked with."""
    global SHIM
    SHIM = os.path.join(frame.WORK, 'printf_shim.o')
    os.makedirs(frame.WORK, exist_ok=True)
    subprocess.check_call([CLANG, '-c', '-O1', os.path.join(frame.VERIF, 'lib/c/printf_shim.c'), '-o', SHIM])


def run(ctx):
    global RUC, SEED
    RUC, SEED = ctx.build('rel'), ctx.seed
    shim()
    ctx.rule = ('generated programs of the supported subset emitted as LLVM IR, built by the LLVM toolchain (its verifier included) and '
                'executed, a sixth of them under AddressSanitizer, against a reference interpreter; distinct = kinds of '
                'instructions seen and output digests')
    ctx.assumptions += ['the subset excludes print/printid/getid, string functions, arrays inside structures, the bound of an array '
                        'parameter, reading elements never written, and characters outside ASCII in character arrays',
                        'the printf of the built program is a shim that shows doubles exactly']
    ctx.map(case, range(ctx.size(3000, 60000)), chunk=16)
    ctx.map(long_case, range(len(LONG_BODIES)), chunk=1)
    for f in sorted(glob.glob(os.path.join(frame.VERIF, 'known/P02-*.c'))):
        probe(ctx, f)


def probe(ctx, f):
    """known/P02-name.c with the expected output on its first line: // [text]"""
    src = open(f).read()
    expected = src.split('\n', 1)[0][3:].encode().decode('unicode_escape')
    r = frame.Result()
    c = frame.compile_text(RUC, src, mode='-LLVM')
    if c.ok:
        judge(r, src, expected, c.output)
    else:
        r.violation('rejected', c.run.text)
    ctx.known_probe(os.path.basename(f), bool(r['bad']), r['bad'] and r['bad'][0][1])
