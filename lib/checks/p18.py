"""P18: wide numbers stored in table words of every width and read back, compared with two's complement arithmetic."""
import random
import struct

import build
import containers
import frame
import vm

EXE = {}
WIDTHS = [-64, -32, -16, -8, 64, 32, 16, 8]
STATUS = [('int64', 64, True), ('int32', 32, True), ('int16', 16, True), ('int8', 8, True),
          ('uint64', 64, False), ('uint32', 32, False), ('uint16', 16, False), ('uint8', 8, False)]
M64 = (1 << 64) - 1


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def cells_for(v, bits, sgn):
    return [signed(v >> (bits * i), bits) if sgn else (v >> (bits * i)) & ((1 << bits) - 1) for i in range(64 // bits)]


def values(rng, n):
    out = []
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        for d in (-2, -1, 0, 1):
            out += [signed((1 << b) + d, 64), signed(-(1 << b) + d, 64)]
    for i in range(8):
        out += [signed(0xFF << (8 * i), 64), signed(0x80 << (8 * i), 64), signed(0x7F << (8 * i), 64), signed(~(0xFF << (8 * i)), 64)]
    out += [0, 1, -1, 0x0123456789ABCDEF, signed(0xFEDCBA9876543210, 64)]
    while len(out) < n:
        out.append(signed(rng.getrandbits(64) & rng.choice([M64, rng.getrandbits(64)]) >> rng.randint(0, 63), 64))
    rng.shuffle(out)
    return out


def judge(case):
    width, seed, n = case
    r = frame.Result()
    it = containers.Item(width)
    rng = random.Random('p18%s%s' % (width, seed))
    real = containers.Real(EXE[width])
    try:
        for v in values(rng, n):
            st = rng.randrange(9)
            name, bits, sgn = STATUS[st] if st < 8 else ('current', it.bits, it.signed)
            isd = rng.random() < 0.5
            if isd and rng.random() < 0.4:
                v = int(containers.dbits(rng), 16)
            arg = '%016x' % (v & M64) if isd else str(v)
            op = 'I %s %d %s' % ('d' if isd else 'l', st, arg)
            got = real.call(op)
            left, _, right = got.partition('|')
            w = [int(x) for x in left.split()]
            back = '%016x' % (v & M64) if isd else str(v)
            what = None
            if right.split() != [back]:
                what = 'read back as %s' % right.strip()
            elif bits <= it.bits:
                want = [it.show(it.wrap(c)) for c in cells_for(v & M64, bits, sgn)]
                if w != [64 // bits] + want:
                    what = 'stored as %s words %s, the value needs %s' % (w[:1], w[1:], want)
            r['n'] += 1
            if what:
                r.violation('store:%s:%s' % ('d' if isd else 'l', 'value' if 'read' in what else 'words'), 'table word %d, target word %s, value %s: %s' % (width, name, arg, what),
                            {'history.txt': '\n'.join(real.log)})
            r['saw'].append('word %d target %s %s' % (width, name, 'double' if isd else 'int64'))
            st = rng.randrange(8)
            name, bits, sgn = STATUS[st]
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sgn else (0, (1 << bits) - 1)
            x = it.wrap(v if rng.random() < 0.5 else rng.choice([lo, hi]) + rng.randint(-1, 1))
            got = real.call('I check %d %d' % (st, it.show(x)))
            if got != str(int(lo <= x <= hi)):
                r.violation('check:%s' % name, 'table word %d: item_check_var(%s, %d) = %s' % (width, name, x, got))
            got = real.call('I range %d' % st)
            if got != '%d %d' % (max(lo, it.min), it.show(min(hi, it.max))):
                r.violation('range:%s' % name, 'table word %d: range of %s = %s' % (width, name, got))
            r['n'] += 2
            r['saw'].append('word %d check %s %s' % (width, name, lo <= x <= hi))
        for st in (-1, 9, 100):
            for op in ('I null %d' % st, 'I null %d' % rng.randrange(8)):
                got = real.call(op)
                r['n'] += 1
                if got != '-1 -1 %d %s' % (containers.LL_MAX, containers.DBL_MAX):
                    r.violation('misuse', '%s -> %s' % (op, got))
            r['saw'].append('misuse %d' % st)
        real.close()
    except containers.Broken as e:
        r.violation(e.key, e.text, {'history.txt': '\n'.join(real.log)})
    finally:
        if real.p.poll() is None:
            real.p.kill()
            real.p.wait()
    return r


RUC = {}


def emitted(case):
    """The table words of a compiled program: an integer that does not fit the target word is refused, one that does is there unchanged;
       a floating constant occupies words that give back its bits."""
    seed, flag = case
    r = frame.Result()
    rng = random.Random(seed)
    bits, sgn = int(flag[2:]), flag[1] == 'i'
    d = struct.unpack('>d', struct.pack('>Q', rng.getrandbits(64)))[0]
    if d != d or abs(d) in (float('inf'),) or abs(d) > 1e300 or abs(d) < 1e-290:
        d = rng.uniform(-1e9, 1e9)
    ds = repr(abs(d))
    ds = ds if '.' in ds or 'e' in ds else ds + '.0'
    edge = (1 << (min(bits, 32) - 1)) if sgn or bits >= 32 else (1 << bits)
    v = max(0, min(2147483647, rng.choice([edge + rng.randint(-3, 3), rng.randint(0, edge), rng.randint(0, 2147483647)])))
    if bits <= 16:
        src = 'void main() { float f = %s; int a = %d; a = a + 1; f = f + 1.0; }\n' % (ds, v)
    else:
        src = 'void main() { float f = %s; int a = %d; printf("%%f %%i", f, a); }\n' % (ds, v)
    c = frame.compile_text(RUC['rel'], src, '-VM', [flag])
    fits = v <= ((1 << (bits - 1)) - 1 if sgn else (1 << bits) - 1)
    files = {'a.c': src, 'out.txt': c.output or b''}
    r['n'] = 1
    r['saw'].append('emitted %s %s' % (flag, 'refused' if c.rejected else 'accepted'))
    refused = c.rejected and 'невозможно сжать таблицы' in c.run.text
    if not fits and not refused:
        r.violation('emit:accepted:' + flag, '%d does not fit a word of %s, exit %s\n%s' % (v, flag, c.run.rc, c.run.text[-500:]), files)
    elif c.ok:
        try:
            words = vm_words(c.output)
        except Exception as e:
            r.violation('emit:file', 'unreadable output: %s' % e, files)
            return r
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sgn else (0, (1 << bits) - 1)
        if any(not lo <= w <= hi for w in words):
            r.violation('emit:range:' + flag, 'a word of the table does not fit %s' % flag, files)
        want = cells_for(struct.unpack('>Q', struct.pack('>d', float(ds)))[0], bits, sgn)
        if not any(words[i:i + len(want)] == want for i in range(len(words))):
            r.violation('emit:double:' + flag, 'the constant %s (words %s) is not in the code' % (ds, want), files)
        if v not in words:
            r.violation('emit:int:' + flag, 'the constant %d is not in the code' % v, files)
    elif not c.rejected:
        r['info']['ended otherwise (judged by P04)'] += 1
    return r


def vm_words(data):
    """Every number of the file after its header line."""
    return [int(w) for l in data.decode('utf-8', 'replace').split('\n')[1:] for w in l.split() if w.lstrip('-').isdigit()]


def run(ctx):
    for w in WIDTHS:
        EXE[w] = build.standalone('util', ['utils'], str(w), ['-DITEM=%d' % w])
    RUC['rel'] = ctx.build('rel')
    ctx.rule = 'values stored and read back, range questions and constants in emitted tables; distinct = (word, target word, kind, outcome)'
    ctx.map(judge, [(w, '%s-%d' % (ctx.seed, i), 1500) for w in WIDTHS for i in range(ctx.size(10, 150))], chunk=2)
    flags = ['-i64', '-i32', '-i16', '-i8', '-u64', '-u32', '-u16', '-u8']
    ctx.map(emitted, [('p18e-%s-%d' % (ctx.seed, i), flags[i % 8]) for i in range(ctx.size(800, 20000))], chunk=16)
