"""Mathematical models of the containers, driven in step with the real ones (lib/c/util.c)."""
import os
import random
import struct
import subprocess
import tempfile

SIZE_MAX = -1
LL_MAX = (1 << 63) - 1
DBL_MAX = 'd7fefffffffffffff'[1:]
HUGE = [1 << 44, 1 << 48]
FAR = [-1, -2, -8, (1 << 63) - 1, 1 << 62, 1 << 33]     # as size_t: near SIZE_MAX and far beyond any size


class Item:
    """The arithmetic of one table word (libs/utils/item.h)."""
    def __init__(self, item):
        self.item = item
        a = 64 if item > 32 or item < -32 else 32 if item > 16 or item < -16 else 16 if item > 8 or item < -8 else 8
        self.bits, self.signed = a, item < 0
        self.max = (1 << (a - 1)) - 1 if self.signed else (1 << a) - 1
        self.min = -(1 << (a - 1)) if self.signed else 0
        self.n = 64 // a

    def wrap(self, v):
        v &= (1 << self.bits) - 1
        if self.signed and v >> (self.bits - 1):
            v -= 1 << self.bits
        return v

    def show(self, v):
        """As printed through (long long)."""
        return v - (1 << 64) if v > LL_MAX else v

    def split(self, v64):
        return [self.wrap(v64 >> (self.bits * i)) for i in range(self.n)]

    def join(self, cells):
        v = 0
        for i, c in enumerate(cells):
            v |= (c & ((1 << self.bits) - 1)) << (self.bits * i)
        return v - (1 << 64) if v >> 63 else v


class Broken(Exception):
    def __init__(self, key, text):
        super().__init__(text)
        self.key, self.text = key, text


class Real:
    def __init__(self, exe):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=dict(os.environ, ASAN_OPTIONS='allocator_may_return_null=1:detect_leaks=1', UBSAN_OPTIONS='print_stacktrace=1'), bufsize=0)
        self.log = []
        self.buf = b''

    def call(self, op):
        self.log.append(op)
        try:
            self.p.stdin.write(op.encode() + b'\n')
        except BrokenPipeError:
            self.died()
        while b'\n' not in self.buf:
            got = self.p.stdout.read(65536)
            if not got:
                self.died()
            self.buf += got
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode().strip()

    def errors(self):
        self.err.seek(0)
        t = self.err.read().decode('utf-8', 'replace')
        i = max(t.find('==ERROR'), t.find('runtime error'))
        return t[max(0, i - 200):] if i >= 0 else t

    def died(self):
        self.p.wait()
        err = self.errors()
        raise Broken('crash', 'the process ended with %s\n%s' % (self.p.returncode, err[:3000]))

    def close(self):
        self.p.stdin.close()
        bad = self.p.wait() != 0
        err = self.errors()
        if bad:
            raise Broken('end', 'the process ended with %s\n%s' % (self.p.returncode, err[:3000]))


def hexs(s):
    return '!' if s is None else 'x' + s.encode('utf-8').hex()


def dbits(rng):
    r = rng.random()
    if r < 0.3:
        return struct.pack('>d', rng.choice([0.0, -0.0, 1.0, -1.5, 1e308, 5e-324, 3.14159, 1e-10, float('inf')])).hex()
    if r < 0.6:
        return struct.pack('>d', rng.uniform(-1e6, 1e6)).hex()
    v = rng.getrandbits(64)
    return '%016x' % v


def i64(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, -1, LL_MAX - 1, -LL_MAX - 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, -0x80000000, 0x8000, 0x80, 0xFF, -128,
                           -32768, 0x0123456789ABCDEF])
    if r < 0.5:
        return rng.randint(-100, 100)
    return rng.getrandbits(64) - (1 << 63)


class Model:
    kind = ''

    def __init__(self, real, rng, item):
        self.real, self.rng, self.it = real, rng, item
        self.ops = 0
        self.saw = set()

    def value(self):
        r = self.rng.random()
        if r < 0.4:
            return self.it.wrap(self.rng.randint(-200, 200))
        if r < 0.6:
            return self.rng.choice([self.it.min, self.it.min + 1, self.it.max - 1, 0, 1])
        return self.it.wrap(i64(self.rng))

    def do(self, op, *args):
        self.ops += 1
        return self.real.call(' '.join([self.kind, op] + [str(a) for a in args]))

    def expect(self, op, args, want, note=''):
        got = self.do(op, *args)
        if isinstance(want, int):
            want = str(self.it.show(want))
        elif isinstance(want, (list, tuple)):
            want = ' '.join(str(self.it.show(w)) if isinstance(w, int) else w for w in want)
        if got != want:
            raise Broken('%s:%s' % (self.kind, op), '%s %s %s returned\n  %s\nthe model gives\n  %s  %s'
                         % (self.kind, op, ' '.join(map(str, args)), got[:1500], want[:1500], note))
        self.saw.add('%s %s%s%s' % (self.kind, op, note and ' ' + note, ' failure' if want in ('-1', '!', DBL_MAX) else ''))

    def run(self, n):
        self.start()
        for _ in range(n):
            self.step()
        self.end()

    def end(self):
        pass


class Vector(Model):
    kind = 'V'

    def start(self):
        self.a = []
        self.alive = True
        self.expect('create', [self.rng.choice([0, 1, 1, 2, 3, 7, 64])], 1)

    def index(self, margin=0):
        r = self.rng.random()
        n = len(self.a)
        if r < 0.8 and n:
            return self.rng.randrange(n)
        if r < 0.95:
            return max(0, n + self.rng.randint(-9, 2))
        return self.rng.choice(FAR)

    def cells(self, i, n):
        return 0 <= i and i + n <= len(self.a)

    def step(self):
        rng, it, a = self.rng, self.it, self.a
        w = rng.random()
        n = it.n
        if w < 0.2:
            v = self.value()
            self.expect('add', [it.show(v)], len(a))
            a.append(v)
        elif w < 0.27:
            d = dbits(rng)
            self.expect('addd', [d], len(a))
            a += it.split(int(d, 16))
        elif w < 0.34:
            v = i64(rng)
            self.expect('addl', [v], len(a))
            a += it.split(v)
        elif w < 0.42:
            i, v = self.index(), self.value()
            ok = self.cells(i, 1)
            self.expect('set', [i, it.show(v)], 0 if ok else -1)
            if ok:
                a[i] = v
        elif w < 0.47:
            i, d = self.index(), dbits(rng)
            ok = self.cells(i, n)
            self.expect('setd', [i, d], n if ok else SIZE_MAX)
            if ok:
                a[i:i + n] = it.split(int(d, 16))
        elif w < 0.52:
            i, v = self.index(), i64(rng)
            ok = self.cells(i, n)
            self.expect('setl', [i, v], n if ok else SIZE_MAX)
            if ok:
                a[i:i + n] = it.split(v)
        elif w < 0.6:
            i = self.index()
            self.expect('get', [i], a[i] if self.cells(i, 1) else it.max)
        elif w < 0.65:
            i = self.index()
            self.expect('getd', [i], '%016x' % (it.join(a[i:i + n]) & (2 ** 64 - 1)) if self.cells(i, n) else DBL_MAX)
        elif w < 0.7:
            i = self.index()
            self.expect('getl', [i], it.join(a[i:i + n]) if self.cells(i, n) else LL_MAX)
        elif w < 0.76:
            self.expect('pop', [], a.pop() if a else it.max)
        elif w < 0.79:
            if len(a) >= n:
                c = a[-n:]
                del a[-n:]
                self.expect('popd', [], '%016x' % (it.join(c) & (2 ** 64 - 1)))
            else:
                self.expect('popd', [], DBL_MAX)
        elif w < 0.82:
            if len(a) >= n:
                c = a[-n:]
                del a[-n:]
                self.expect('popl', [], it.join(c))
            else:
                self.expect('popl', [], LL_MAX)
        elif w < 0.87:
            k = rng.choice([0, 1, 2, 5, 17, 100])
            self.expect('inc', [k], 0)
            a += [0] * k
        elif w < 0.9:
            k = rng.choice([0, 1, len(a) // 2, len(a), len(a) + 3, 2 * len(a) + 1])
            self.expect('resize', [k], 0)
            a[:] = (a + [0] * k)[:k]
        elif w < 0.905:
            self.expect(rng.choice(['resize', 'inc']), [rng.choice(HUGE)], -1, 'no memory')
        elif w < 0.96:
            self.expect('size', [], len(a))
        elif w < 0.995 or len(a) > 3000:
            self.expect('all', [], list(a))
            if len(a) > 3000:
                self.expect('resize', [10], 0)
                del a[10:]
        else:
            self.expect('clear', [], [0, 0])
            for op, args, want in (('add', [1], SIZE_MAX), ('addd', ['0'], SIZE_MAX), ('addl', [1], SIZE_MAX), ('get', [0], it.max), ('size', [], SIZE_MAX),
                                   ('set', [0, 1], -1), ('setd', [0, '0'], SIZE_MAX), ('pop', [], it.max), ('popd', [], DBL_MAX), ('popl', [], LL_MAX),
                                   ('inc', [1], -1), ('resize', [1], -1), ('clear', [], [-1, 0])):
                self.expect(op, args, want, 'cleared')
            self.start()

    def end(self):
        self.expect('all', [], list(self.a))


class Stack(Model):
    kind = 'S'

    def start(self):
        self.a = []
        self.expect('create', [self.rng.choice([0, 1, 2, 100])], 1)
        self.bias = 0.5

    def step(self):
        rng, it, a, n = self.rng, self.it, self.a, self.it.n
        if rng.random() < 0.02:
            self.bias = rng.choice([0.3, 0.5, 0.7])
        w = rng.random()
        k = rng.choice(['', '', 'd', 'l'])
        size = 1 if k == '' else n
        if w < 0.1:
            self.expect('size', [], len(a))
        elif w < 0.11:
            self.expect('reset', [], 0)
            a.clear()
        elif w < 0.115:
            self.expect('clear', [], [0, 0])
            for op, args, want in (('push', [1], -1), ('pop', [], it.max), ('popd', [], DBL_MAX), ('popl', [], LL_MAX), ('peek', [], it.max),
                                   ('peekd', [], DBL_MAX), ('peekl', [], LL_MAX), ('size', [], SIZE_MAX), ('reset', [], -1), ('clear', [], [-1, 0])):
                self.expect(op, args, want, 'cleared')
            self.start()
        elif w < 0.35:
            self.take('peek' + k, k, size, False)
        elif w < 0.35 + 0.65 * self.bias:
            if k == '':
                v = self.value()
                self.expect('push', [it.show(v)], 0)
                a.append(v)
            elif k == 'd':
                d = dbits(rng)
                self.expect('pushd', [d], 0)
                a += it.split(int(d, 16))
            else:
                v = i64(rng)
                self.expect('pushl', [v], 0)
                a += it.split(v)
        else:
            self.take('pop' + k, k, size, True)

    def take(self, op, k, size, drop):
        a, it = self.a, self.it
        if len(a) < size:
            self.expect(op, [], {'': it.max, 'd': DBL_MAX, 'l': LL_MAX}[k])
            return
        c = a[-size:]
        if drop:
            del a[-size:]
        self.expect(op, [], {'': lambda: c[0], 'd': lambda: '%016x' % (it.join(c) & (2 ** 64 - 1)), 'l': lambda: it.join(c)}[k]())


ALPHA = ['a', 'b', 'c', 'z', '_', 'A', '0', '9', ' ', 'я', 'Ё', 'ж', 'é', '߿', 'ࠀ', '€', '中', '࿿', 'က', '\uffff', '😀', '𐀀', '\U0003ffff', '\U00040000', '\U0010ffff', '\x7f', '\x80', '\x01']


def text(rng, letters=ALPHA, big=0.03):
    r = rng.random()
    n = rng.randint(200, 900) if r < big else rng.randint(1, 12)
    return ''.join(rng.choice(letters) for _ in range(n))


class Strings(Model):
    kind = 'T'

    def start(self):
        self.a = []
        self.expect('create', [self.rng.choice([0, 1, 2, 50])], 1)

    def step(self):
        rng, a = self.rng, self.a
        w = rng.random()
        if w < 0.45:
            s = rng.choice([None, '']) if rng.random() < 0.08 else text(rng)
            op = rng.choice(['add', 'addw', 'addv'])
            args = [hexs(s)] + ([rng.randint(0, 1)] if op == 'addv' else [])
            if s or (op == 'addv' and s is not None):
                self.expect(op, args, len(a), '' if s else 'empty vector')
                a.append(s)
            else:
                self.expect(op, args, SIZE_MAX, 'empty')
        elif w < 0.6:
            i = self.index()
            self.expect('get', [i], hexs(a[i]) if 0 <= i < len(a) else '!')
        elif w < 0.7:
            i = self.index()
            self.expect('len', [i], len(a[i].encode()) if 0 <= i < len(a) else 0)
        elif w < 0.85:
            self.expect('pop', [], hexs(a.pop()) if a else '!')
        elif w < 0.92:
            self.expect('size', [], len(a))
        elif w < 0.99:
            self.all()
        else:
            self.expect('clear', [], [0, 0])
            for op, args, want in (('add', ['x41'], SIZE_MAX), ('addw', ['x41'], SIZE_MAX), ('addv', ['x41', 0], SIZE_MAX), ('get', [0], '!'), ('len', [0], 0),
                                   ('pop', [], '!'), ('size', [], SIZE_MAX), ('clear', [], [-1, 0])):
                self.expect(op, args, want, 'cleared')
            self.start()

    def index(self):
        r = self.rng.random()
        return self.rng.randrange(len(self.a)) if r < 0.9 and self.a else len(self.a) if r < 0.95 else self.rng.choice(FAR)

    def all(self):
        self.expect('all', [], [x for s in self.a for x in (hexs(s), len(s.encode()))])

    def end(self):
        self.all()


class Map(Model):
    kind = 'M'

    def start(self):
        self.d, self.at, self.by = {}, {}, {}
        self.expect('create', [self.rng.choice([0, 1, 2, 40])], 1)
        # anagrams and sums that collide, prefixes of one another, identifiers for reading
        base = [''.join(self.rng.choice('abcxyz_жЯё') for _ in range(self.rng.randint(1, 5))) for _ in range(12)]
        self.keys = set(base)
        for b in base:
            for _ in range(3):
                l = list(b)
                self.rng.shuffle(l)
                self.keys.add(''.join(l))
            self.keys.add(b + self.rng.choice('abж'))
            self.keys.add('#' + b)
        self.keys = sorted(self.keys)
        self.odd = [text(self.rng) for _ in range(12)]

    def key(self):
        r = self.rng.random()
        return self.rng.choice(self.keys) if r < 0.75 else self.rng.choice(self.odd) if r < 0.9 else text(self.rng, big=0.15) if r < 0.97 else self.rng.choice([None, ''])

    def ident(self, k):
        return k and all(c.isascii() and (c.isalnum() or c == '_') or c in 'жЯё' for c in k[1:]) and (k[0] in '#_жЯё' or k[0].isascii() and k[0].isalpha())

    def index_result(self, op, args, key, suffix='', fresh=None):
        """Operations that return an index: the same one for the same key, one of its own for a new key."""
        got = self.do(op, *args)
        g = got.split()
        if suffix and g[1:] != [str(suffix)]:
            raise Broken('M:' + op, '%s %s: character after the name is %s, expected %s' % (op, args, g[1:], suffix))
        i = int(g[0])
        if fresh is None:                       # no index may come back
            ok = i == -1
        elif key in self.at:
            ok = i == self.at[key]
        else:
            ok = i >= 0 and i not in self.by
        if not ok:
            raise Broken('M:' + op, '%s %s for key %r gave index %s; known index of the key %s, taken: %s'
                         % (op, args, key, got, self.at.get(key), self.by.get(i)))
        self.saw.add('M %s %s' % (op, 'failure' if fresh is None else 'new' if key not in self.at else 'present'))
        if fresh is not None and key not in self.at:
            self.at[key], self.by[i] = i, key

    def step(self):
        rng, it, d = self.rng, self.it, self.d
        k = self.key()
        v = self.value()
        mode = rng.choice(['', 'w', 'io'])
        tail = ''
        if mode == 'io':
            if not self.ident(k):
                mode = ''
            else:
                tail = rng.choice([' ', '(', '', '"', '#', '\n', '中'])
                self.expect('io', ['x' + (k + tail).encode().hex()], 0)
        suffix = (ord(tail) if tail else 0xFFFFFFFF) if mode == 'io' else ''
        tailarg = [str(suffix)] if mode == 'io' else []
        ka = [] if mode == 'io' else [hexs(k)]
        w = rng.random()
        if w < 0.15:
            self.index_result('reserve' + mode, ka, k, suffix, fresh=True if k else None)
            if k:
                d.setdefault(k, it.max)
            self.last(k, k in d and False)
        elif w < 0.4:
            v = it.max - 1 if v == it.max else v
            fresh = bool(k) and k not in d
            self.index_result('add' + mode, ([it.show(v)] if True else []) + ka, k, suffix, fresh=True if fresh else None)
            if fresh:
                d[k] = v
        elif w < 0.52:
            self.index_result('set' + mode, [it.show(v)] + ka, k, suffix, fresh=True if k in d else None)
            if k in d:
                d[k] = v
        elif w < 0.62:
            self.index_result('idx' + mode, ka, k, suffix, fresh=True if k in d else None)
        elif w < 0.78:
            self.expect('get' + mode, ka, [d.get(k, it.max)] + tailarg)
        else:
            if self.by and rng.random() < 0.8:
                i = rng.choice(list(self.by))
            else:
                i = rng.choice(FAR + list(range(256)) + [256 + len(self.by) + 3])
            key = self.by.get(i)
            if w < 0.85:
                self.expect('geti', [i], d[key] if key else it.max)
            elif w < 0.92:
                self.expect('str', [i], hexs(key))
            elif w < 0.99:
                self.expect('seti', [i, it.show(v)], 0 if key else -1)
                if key:
                    d[key] = v
            elif rng.random() < 0.3:
                self.expect('clear', [], [0, 0])
                for op, args, want in (('add', [1, 'x41'], SIZE_MAX), ('reserve', ['x41'], SIZE_MAX), ('get', ['x41'], it.max), ('idx', ['x41'], SIZE_MAX),
                                       ('geti', [0], it.max), ('str', [0], '!'), ('seti', [0, 1], -1), ('last', [], '!'), ('clear', [], [-1, 0])):
                    self.expect(op, args, want, 'cleared')
                self.start()

    def last(self, k, _):
        pass

    def end(self):
        for k, i in self.at.items():
            self.expect('get', [hexs(k)], self.d[k], 'at the end')
            self.expect('idx', [hexs(k)], i, 'at the end')
            self.expect('str', [i], hexs(k), 'at the end')


class Hash(Model):
    kind = 'H'

    def start(self):
        self.d, self.at = {}, {}
        self.expect('create', [self.rng.choice([0, 1, 5])], 1)
        b = self.rng.randint(0, 255)
        ks = [b + 256 * j for j in range(8)] + [b - 256 * j for j in range(1, 4)] + [0, 1, 2, 3, 5, -1, 255, 256, 257] + \
             [self.rng.randint(-1000, 100000) for _ in range(10)] + [self.it.min, self.it.max - 1]
        self.keys = sorted({self.it.wrap(k) for k in ks} - {self.it.max})

    def step(self):
        rng, it, d, n = self.rng, self.it, self.d, self.it.n
        k = rng.choice(self.keys)
        ks = it.show(k)
        w = rng.random()
        if w < 0.22:
            amount = rng.choice([0, 1, 1, 2, 2, 3, n, n + 1, 9])
            i = int(self.do('add', ks, amount))
            if k in d:
                if i != -1:
                    raise Broken('H:add', 'adding key %d again with %d values gave index %d' % (k, amount, i))
            else:
                if i == -1 or i in self.at.values():
                    raise Broken('H:add', 'adding key %d with %d values gave index %d (taken by %s)' % (k, amount, i, [x for x in self.at if self.at[x] == i]))
                d[k] = [0] * amount
                self.at[k] = i
                self.expect('key', [i], k)
                for j in range(amount):
                    self.expect('geti', [i, j], 0, 'fresh')
            self.saw.add('H add %s' % ('present' if i == -1 else 'new'))
            return
        if w < 0.32:
            self.expect('idx', [ks], self.at.get(k, SIZE_MAX))
            return
        if w < 0.38:
            self.expect('amount', [ks], len(d[k]) if k in d else 0)
            return
        if w < 0.5:
            if k in d and rng.random() < 0.3:
                self.expect('removei', [self.at[k]], 0)
            else:
                self.expect('remove', [ks], 0 if k in d else -1)
            d.pop(k, None)
            self.at.pop(k, None)
            return
        if w < 0.502:
            self.expect('clear', [], [0, 0])
            for op, args, want in (('add', [1, 1], SIZE_MAX), ('idx', [1], SIZE_MAX), ('get', [1, 0], it.max), ('set', [1, 0, 1], SIZE_MAX), ('remove', [1], -1),
                                   ('amount', [1], 0), ('clear', [], [-1, 0])):
                self.expect(op, args, want, 'cleared')
            self.start()
            return
        a = d.get(k)
        size = len(a) if a is not None else 0
        j = rng.randrange(size) if size and rng.random() < 0.75 else rng.choice([size, size + 1, 0, 1] + FAR)
        byi = k in d and rng.random() < 0.5
        first = self.at[k] if byi else ks
        sfx = 'i' if byi else ''
        t = rng.choice(['', '', 'd', 'l'])
        need = 1 if t == '' else n
        ok = 0 <= j and j + need <= size
        if w < 0.75:
            if t == '':
                self.expect('get' + sfx, [first, j], a[j] if ok else it.max)
            elif t == 'd':
                self.expect('getd' + sfx, [first, j], '%016x' % (it.join(a[j:j + n]) & (2 ** 64 - 1)) if ok else DBL_MAX)
            else:
                self.expect('getl' + sfx, [first, j], it.join(a[j:j + n]) if ok else LL_MAX)
            return
        v = self.value() if t == '' else dbits(rng) if t == 'd' else i64(rng)
        want = (0 if t == '' else n) if byi else (self.at[k] if ok else None)
        fail = -1
        self.expect('set' + t + sfx, [first, j, it.show(v) if t == '' else v], want if ok else fail)
        if ok:
            a[j:j + need] = [v] if t == '' else it.split(int(v, 16) if t == 'd' else v)

    def end(self):
        for k, a in self.d.items():
            for j, v in enumerate(a):
                self.expect('get', [self.it.show(k), j], v, 'at the end')
        for k in self.keys:
            self.expect('idx', [self.it.show(k)], self.at.get(k, SIZE_MAX), 'at the end')


class Nd:
    __slots__ = ('label', 'type', 'args', 'kids', 'parent')

    def __init__(self, label, typ, parent):
        self.label, self.type, self.args, self.kids, self.parent = label, typ, [], [], parent


class Tree(Model):
    kind = 'N'

    def start(self):
        self.next = 1
        self.root = Nd(0, None, None)
        self.all = {0: self.root}
        self.fresh = self.root          # the node whose arguments may still be added
        self.nv = []
        self.expect('create', [self.rng.choice([0, 1, 3, 100])], 1)

    def subtree(self, n):
        yield n
        for c in n.kids:
            yield from self.subtree(c)

    def within(self, a, b):
        """b is a or stands below a"""
        while b is not None:
            if a is b:
                return True
            b = b.parent
        return False

    def nxt(self, n):
        if n.kids:
            return n.kids[0]
        while n.parent is not None:
            i = n.parent.kids.index(n)
            if i + 1 < len(n.parent.kids):
                return n.parent.kids[i + 1]
            n = n.parent
        return None

    def pick(self):
        return self.rng.choice(list(self.all.values()))

    def lab(self, n):
        return -1 if n is None else n.label

    def walk(self):
        out = []
        n = self.root
        while n is not None:
            t = self.it.max if n is self.root else n.type
            out.append('[%d %d %d%s :%s]' % (n.label, self.it.show(t), self.lab(n.parent), ''.join(' %d' % self.it.show(a) for a in n.args),
                                             ''.join(' %d' % c.label for c in n.kids)))
            n = self.nxt(n)
        self.expect('walk', [], ' '.join(out))

    def step(self):
        rng, it = self.rng, self.it
        n = self.pick()
        w = rng.random()
        if w < 0.22 and len(self.all) < 150:
            if rng.random() < 0.3:
                n = max(self.all.values(), key=lambda x: x.label)
            l, t = self.label(), it.wrap(rng.randint(-50, 5000))
            self.expect('child', [n.label, l, t], 1)
            c = Nd(l, t, n)
            n.kids.append(c)
            self.all[l] = c
            self.fresh = c
            for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                self.arg()
        elif w < 0.3:
            if self.fresh is not None and self.fresh.label in self.all and not self.fresh.kids:
                self.arg()
            elif n.kids:
                self.expect('arg', [n.label, 5], -2)
        elif w < 0.38:
            i = self.argi(n)
            t = rng.choice(['', 'd', 'l'])
            need = 1 if t == '' else it.n
            ok = 0 <= i and i + need <= len(n.args)
            if rng.random() < 0.5:
                v = self.value() if t == '' else dbits(rng) if t == 'd' else i64(rng)
                self.expect('sarg' + t, [n.label, i, it.show(v) if t == '' else v], (0 if t == '' else it.n) if ok else -1)
                if ok:
                    n.args[i:i + need] = [v] if t == '' else it.split(int(v, 16) if t == 'd' else v)
            elif t == '':
                self.expect('garg', [n.label, i], n.args[i] if ok else it.max)
            elif t == 'd':
                self.expect('gargd', [n.label, i], '%016x' % (it.join(n.args[i:i + need]) & (2 ** 64 - 1)) if ok else DBL_MAX)
            else:
                self.expect('gargl', [n.label, i], it.join(n.args[i:i + need]) if ok else LL_MAX)
        elif w < 0.42:
            t = rng.randint(-5, 50)
            self.expect('type', [n.label, t], -2 if n is self.root else 0)
            if n is not self.root:
                n.type = t
            self.expect('gtype', [n.label], it.max if n is self.root else n.type)
        elif w < 0.55:
            i = rng.randrange(len(n.kids)) if n.kids and rng.random() < 0.8 else rng.choice([len(n.kids)] + FAR)
            self.expect('gchild', [n.label, i], self.lab(n.kids[i]) if 0 <= i < len(n.kids) else -1)
            self.expect('amount', [n.label], len(n.kids))
            self.expect('gargc', [n.label], len(n.args))
            self.expect('parent', [n.label], self.lab(n.parent))
            self.expect('next', [n.label], self.lab(self.nxt(n)))
            x = self.nxt(n)
            self.expect('snext', [n.label], [0 if x is not None else -1, self.lab(x if x is not None else n)])
            self.expect('copy', [n.label], n.label)
            self.expect('saveload', [n.label], n.label)
        elif w < 0.65 and len(self.all) < 150:
            l, t, argc = self.label(), rng.randint(0, 99), rng.choice([0, 0, 1, 3])
            self.expect('insert', [n.label, l, t, argc], 0 if n is self.root else 1)
            if n is not self.root:
                c = Nd(l, t, n.parent)
                c.args = [0] * argc
                c.kids = [n]
                n.parent.kids[n.parent.kids.index(n)] = c
                n.parent = c
                self.all[l] = c
                self.fresh = None
        elif w < 0.77:
            m = self.pick()
            if n is self.root or m is self.root:
                self.expect(rng.choice(['swap', 'order']), [n.label, m.label], -1, 'root')
            elif n is m or not (self.within(n, m) or self.within(m, n)):
                self.swap(n, m, rng.choice(['swap', 'swap', 'order']))
        elif w < 0.81:
            # brothers side by side
            c = [x for x in self.all.values() if len(x.kids) >= 2]
            if c:
                p = rng.choice(c)
                i = rng.randrange(len(p.kids) - 1)
                pair = [p.kids[i], p.kids[i + 1]]
                rng.shuffle(pair)
                self.swap(pair[0], pair[1], rng.choice(['swap', 'order']))
        elif w < 0.9:
            if rng.random() < 0.4:
                n = max(self.all.values(), key=lambda x: x.label)
            gone = list(self.subtree(n))
            if n is self.root or len(gone) > 12:
                if n is self.root:
                    self.expect('remove', [0], [-1, 1], 'root')
                return
            self.expect('remove', [n.label], [0, 0])
            n.parent.kids.remove(n)
            for g in gone:
                del self.all[g.label]
                if g is not n:
                    self.expect('forget', [g.label], 0)
            self.nv = [x for x in self.nv]
            self.fresh = None
        elif w < 0.95:
            r = rng.random()
            if r < 0.4:
                self.expect('nvadd', [n.label], len(self.nv))
                self.nv.append(n.label)
            elif r < 0.6:
                i = rng.choice([0, len(self.nv), max(0, len(self.nv) - 1)])
                if self.nv:
                    self.expect('nvset', [i, n.label], 0 if i < len(self.nv) else -1)
                    if i < len(self.nv):
                        self.nv[i] = n.label
            else:
                i = rng.randint(0, len(self.nv))
                if i == len(self.nv):
                    self.expect('nvget', [i], -1)
                elif self.nv[i] in self.all:
                    self.expect('nvget', [i], self.nv[i])
                self.expect('nvsize', [], len(self.nv))
        else:
            self.expect('root', [], 0)
            self.walk()

    def label(self):
        self.next += 1
        return self.next

    def arg(self):
        n, it, rng = self.fresh, self.it, self.rng
        t = rng.choice(['', '', 'd', 'l'])
        v = self.value() if t == '' else dbits(rng) if t == 'd' else i64(rng)
        self.expect('arg' + t, [n.label, it.show(v) if t == '' else v], 0)
        n.args += [v] if t == '' else it.split(int(v, 16) if t == 'd' else v)

    def argi(self, n):
        r = self.rng.random()
        return self.rng.randrange(len(n.args)) if n.args and r < 0.8 else len(n.args) if r < 0.9 else self.rng.choice(FAR)

    def swap(self, n, m, op):
        self.expect(op, [n.label, m.label], 0)
        pn, pm = n.parent, m.parent
        i, j = pn.kids.index(n), pm.kids.index(m)
        pn.kids[i], pm.kids[j] = m, n
        n.parent, m.parent = pm, pn
        if op == 'order':
            n.kids, m.kids = m.kids, n.kids
            for c in n.kids:
                c.parent = n
            for c in m.kids:
                c.parent = m
        self.saw.add('N %s %s' % (op, 'same' if n is m else 'brothers' if pn is pm else 'cousins'))

    def end(self):
        self.walk()


def narrow(item, model):
    """Which models make sense at a word width (indices of the tree and the hash table are words)."""
    bits = Item(item).bits
    if model is Tree:
        return item < 0 and bits >= 32
    if model is Hash:
        return bits >= 32
    if model in (Strings,):
        return bits >= 32
    return True


MODELS = [Vector, Stack, Strings, Map, Hash, Tree]


def history(exe, item, model, seed, ops):
    rng = random.Random(seed)
    real = Real(exe)
    m = model(real, rng, Item(item))
    try:
        try:
            m.run(ops)
            real.close()
        except Broken as e:
            if e.key in ('crash', 'end'):
                last = real.log[-1].split()
                e.key = '%s:%s:%s' % (last[0], last[1] if len(last) > 1 else '', e.key)
            return m, e, real.log
    finally:
        if real.p.poll() is None:
            real.p.kill()
            real.p.wait()
    return m, None, real.log
