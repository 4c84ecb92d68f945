"""An interpreter and run-time monitor for RuC-VM code files (`ruc -VM`).

The external RuC virtual machine is not part of the repository and is not available here, so the
meaning of the instructions is written down in this file.  While a program runs the monitor
watches: every program counter and jump target stays inside the code, every operand is an
existing slot of the current frame or of the globals, the evaluation stack never shrinks below
its frame, no cell is used before it was written, and array indices stay in bounds.
"""
import math
import struct

STOP_LIMIT = 2_000_000
HEAP = 10_000_000
STACK_CELLS = 20_000


class VMError(Exception):
    """The code broke a machine invariant (or the program hit a run-time error)."""

    def __init__(self, kind, text, pc=None):
        super().__init__('%s: %s%s' % (kind, text, '' if pc is None else ' at pc=%d' % pc))
        self.kind = kind


class Unsupported(Exception):
    pass


class StepLimit(Exception):
    pass


class Image:
    """The five tables of a VM file, with the header checked against them."""

    def __init__(self, text):
        lines = text.split('\n')
        if not lines or lines[0] != '#!/usr/bin/ruc-vm':
            raise VMError('format', 'no interpreter line')
        if len(lines) < 7:
            raise VMError('format', 'only %d lines' % len(lines))
        try:
            head = [int(t) for t in lines[1].split()]
            tabs = [[int(t) for t in lines[i].split()] for i in range(2, 7)]
        except ValueError as e:
            raise VMError('format', str(e))
        if len(head) != 7:
            raise VMError('format', 'header has %d fields' % len(head))
        if any(x != '' for x in lines[7:]):
            raise VMError('format', 'trailing text')
        for i, t in enumerate(tabs):
            if len(t) != head[i]:
                raise VMError('format', 'table %d has %d cells, header says %d' % (i, len(t), head[i]))
            for v in t:
                if not -2 ** 31 <= v < 2 ** 31:
                    raise VMError('format', 'cell %d does not fit the target word' % v)
        self.mem, self.funcs, self.idents, self.reprs, self.types = tabs
        self.gsize = head[5]


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v & 0x80000000 else v


def d2w(x):
    a, b = struct.unpack('<ii', struct.pack('<d', x))
    return a, b


def w2d(a, b):
    return struct.unpack('<d', struct.pack('<ii', a, b))[0]


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# name -> number of operands
OPS = {}
NAMES = {}
GETID, SCANF, PRINTF, PRINT, PRINTID = -27, -26, -25, -24, -23
for _c, _n in ((GETID, 'GETID'), (PRINTF, 'PRINTF'), (PRINT, 'PRINT'), (PRINTID, 'PRINTID')):
    OPS[_c] = 1
    NAMES[_c] = _n
_AS = ['REM', 'SHL', 'SHR', 'AND', 'XOR', 'OR', '', 'ADD', 'SUB', 'MUL', 'DIV']
_BIN = ['REM', 'SHL', 'SHR', 'AND', 'XOR', 'OR', 'LOG_AND', 'LOG_OR', 'EQ', 'NE', 'LT', 'GT', 'LE', 'GE',
        'ADD', 'SUB', 'MUL', 'DIV']
_INC = ['POST_INC', 'POST_DEC', 'PRE_INC', 'PRE_DEC']
ASSIGN = {}   # code -> (op, at, float, void)
BINARY = {}   # code -> (op, float)
INCR = {}     # code -> (op, at, float, void)
for _i, _o in enumerate(_AS):
    for _f in (0, 1):
        if _f and _i < 6:
            continue
        for _v in (0, 1):
            ASSIGN[9001 + _i + 50 * _f + 200 * _v] = (_o, 0, _f, _v)
            ASSIGN[9012 + _i + 50 * _f + 200 * _v] = (_o, 1, _f, _v)
for _i, _o in enumerate(_BIN):
    BINARY[9023 + _i] = (_o, 0)
    if _i >= 8:
        BINARY[9023 + _i + 50] = (_o, 1)
for _i, _o in enumerate(_INC):
    for _f in (0, 1):
        for _v in (0, 1):
            INCR[9041 + _i + 50 * _f + 200 * _v] = (_o, 0, _f, _v)
            INCR[9045 + _i + 50 * _f + 200 * _v] = (_o, 1, _f, _v)
for _c, (_o, _a, _f, _v) in ASSIGN.items():
    OPS[_c] = 0 if _a else 1
    NAMES[_c] = '%sASSIGN%s%s%s' % (_o, '@' * _a, 'f' * _f, 'V' * _v)
for _c, (_o, _f) in BINARY.items():
    OPS[_c] = 0
    NAMES[_c] = _o + 'f' * _f
for _c, (_o, _a, _f, _v) in INCR.items():
    OPS[_c] = 0 if _a else 1
    NAMES[_c] = '%s%s%s%s' % (_o, '@' * _a, 'f' * _f, 'V' * _v)
for _c, _n, _k in (
        (9049, 'UNMINUS', 0), (9099, 'UNMINUSf', 0), (9052, 'NOT', 0), (9053, 'LOG_NOT', 0),
        (9300, 'COPY00', 3), (9301, 'COPY01', 2), (9302, 'COPY10', 2), (9303, 'COPY11', 1), (9304, 'COPY0ST', 2),
        (9305, 'COPY1ST', 1), (9306, 'COPY0ST_ASSIGN', 2), (9307, 'COPY1ST_ASSIGN', 1), (9308, 'COPYST', 3),
        (9453, 'NOP', 0), (9454, 'DEFARR', 7), (9455, 'LI', 1), (9456, 'LID', 2), (9457, 'LOAD', 1), (9458, 'LOADD', 1),
        (9459, 'LAT', 0), (9460, 'LATD', 0), (9461, 'STOP', 0), (9462, 'SELECT', 1), (9463, 'FUNC_BEG', 2),
        (9464, 'LA', 1), (9465, 'CALL1', 0), (9466, 'CALL2', 1), (9467, 'RETURN_VAL', 1), (9468, 'RETURN_VOID', 0),
        (9469, 'B', 1), (9470, 'BE0', 1), (9471, 'BNE0', 1), (9472, 'SLICE', 1), (9473, 'WIDEN', 0), (9474, 'WIDEN1', 0),
        (9475, 'DUPLICATE', 0), (9476, 'STRING_INIT', 1), (9477, 'ARR_INIT', 4), (9478, 'STRUCT_WITH_ARR', 2),
        (9481, 'BEG_INIT', 1), (9482, 'ROWING', 0), (9483, 'ROWING_D', 0),
        (9534, 'ABS', 0), (9535, 'SQRT', 0), (9536, 'EXP', 0), (9537, 'SIN', 0), (9538, 'COS', 0), (9539, 'LOG', 0),
        (9540, 'LOG10', 0), (9541, 'ASIN', 0), (9542, 'RAND', 0), (9543, 'ROUND', 0),
        (9544, 'STRCPY', 0), (9545, 'STRNCPY', 0), (9546, 'STRCAT', 0), (9547, 'STRNCAT', 0), (9548, 'STRCMP', 0),
        (9549, 'STRNCMP', 0), (9550, 'STRSTR', 0), (9551, 'STRLEN', 0),
        (9552, 'MSG_SEND', 0), (9553, 'MSG_RECEIVE', 0), (9554, 'JOIN', 0), (9555, 'SLEEP', 0), (9556, 'SEM_CREATE', 0),
        (9557, 'SEM_WAIT', 0), (9558, 'SEM_POST', 0), (9559, 'CREATE', 0), (9560, 'INIT', 0), (9561, 'DESTROY', 0),
        (9562, 'EXIT', 0), (9563, 'GETNUM', 0),
        (9588, 'UPB', 0), (9589, 'ROBOT_SEND_INT', 0), (9590, 'ROBOT_SEND_FLOAT', 0), (9591, 'ROBOT_SEND_STRING', 0),
        (9592, 'ROBOT_RECEIVE_INT', 0), (9593, 'ROBOT_RECEIVE_FLOAT', 0), (9594, 'ROBOT_RECEIVE_STRING', 0),
        (9595, 'ASSERT', 0), (9651, 'ABSI', 0), (9652, 'FOPEN', 0), (9653, 'FCLOSE', 0), (9654, 'FGETC', 0),
        (9655, 'FPUTC', 0)):
    OPS[_c] = _k
    NAMES[_c] = _n

INT, CHAR, FLOAT, BOOL, VOID, FILE_, NULLP = -1, -2, -3, -4, -6, -7, -8
FUNCTION, STRUCTURE, ARRAY, POINTER, ENUM, CONST = 1001, 1002, 1003, 1004, 1005, 1006


class VM:
    def __init__(self, image, limit=STOP_LIMIT, stdin=None):
        self.im = image
        self.n = len(image.mem)
        self.g = self.n
        self.base = self.n + image.gsize
        self.m = list(image.mem) + [0] * image.gsize + [None] * STACK_CELLS
        self.heap = []
        self.out = []          # output events
        self.ops = {}          # opcode -> executed count
        self.limit = limit
        self.steps = 0
        self.l = self.g        # frame base
        self.x = self.base - 1  # top of stack
        self.floor = self.base - 1
        self.pend = []         # frames opened by CALL1
        self.frames = []       # (l, x, floor, max_displ, return pc, pend)
        self.maxd = 0
        self.inits = []
        self.depth = 0
        self.maxdepth = 0
        self.stdin = list(stdin or [])

    # --- memory -------------------------------------------------------------------------------
    def get(self, a):
        if a is None:
            raise VMError('uninitialised', 'address was never written')
        if a >= HEAP:
            if a - HEAP >= len(self.heap):
                raise VMError('memory', 'read of heap cell %d' % a)
            v = self.heap[a - HEAP]
        elif 0 < a <= self.x or self.g <= a < self.base or (self.depth and self.l <= a < self.l + self.maxd):
            v = self.m[a]
        else:
            raise VMError('memory', 'read of cell %s' % a)
        return v

    def put(self, a, v):
        if a is None:
            raise VMError('uninitialised', 'address was never written')
        if a >= HEAP:
            if a - HEAP >= len(self.heap):
                raise VMError('memory', 'write of heap cell %d' % a)
            self.heap[a - HEAP] = v
        elif self.g + 3 <= a < self.base or self.base <= a <= self.x or (self.depth and self.l + 3 <= a < self.l + self.maxd):
            self.m[a] = v
        else:
            raise VMError('memory', 'write of cell %s (code ends at %d)' % (a, self.n))

    def push(self, v):
        self.x += 1
        if self.x >= len(self.m):
            raise VMError('stack', 'overflow')
        self.m[self.x] = v

    def pop(self):
        if self.x <= self.floor:
            raise VMError('stack', 'underflow')
        v = self.m[self.x]
        self.x -= 1
        return v

    def popi(self):
        v = self.pop()
        if v is None:
            raise VMError('uninitialised', 'value was never written')
        if not isinstance(v, int):
            raise VMError('stack', 'initialiser mark used as a value')
        return v

    def popd(self):
        b = self.popi()
        a = self.popi()
        return w2d(a, b)

    def pushd(self, d):
        a, b = d2w(d)
        self.push(a)
        self.push(b)

    def dsp(self, d):
        if d < 0:
            if not 3 <= -d < self.im.gsize:
                raise VMError('operand', 'global slot %d of %d' % (d, self.im.gsize))
            return self.g - d
        if not self.depth or not 3 <= d < self.maxd:
            raise VMError('operand', 'local slot %d of frame %d' % (d, self.maxd))
        return self.l + d

    def getd(self, a):
        u, v = self.get(a), self.get(a + 1)
        if u is None or v is None:
            raise VMError('uninitialised', 'floating cell %d' % a)
        return w2d(u, v)

    def putd(self, a, d):
        u, v = d2w(d)
        self.put(a, u)
        self.put(a + 1, v)

    def alloc(self, cells):
        a = HEAP + len(self.heap)
        self.heap += cells
        if len(self.heap) > 2_000_000:
            raise VMError('memory', 'heap limit')
        return a

    def string(self, a):
        n = self.get(a - 1)
        if n is None or n < 0 or n > 100000:
            raise VMError('memory', 'string length %s' % n)
        r = []
        for i in range(n):
            c = self.get(a + i)
            if c is None:
                raise VMError('uninitialised', 'character of a string')
            r.append(c)
        return r

    def new_string(self, chars):
        return self.alloc([len(chars)] + list(chars)) + 1

    # --- types ---------------------------------------------------------------------------------
    def size(self, t):
        if t == FLOAT:
            return 2
        if t > 0:
            k = self.im.types[t]
            if k == STRUCTURE:
                return self.im.types[t + 1]
            if k == CONST:
                return self.size(self.im.types[t + 1])
        return 1

    def render(self, t, cells, quote=False):
        """Text of a value of type t held in cells."""
        if t > 0:
            k = self.im.types[t]
            if k == CONST:
                return self.render(self.im.types[t + 1], cells)
            if k == STRUCTURE:
                r, p = [], 0
                for i in range(self.im.types[t + 2] // 2):
                    mt = self.im.types[t + 3 + 2 * i]
                    r.append(self.render(mt, cells[p:p + self.size(mt)]))
                    p += self.size(mt)
                return '{' + ', '.join(r) + '}'
            if k == ARRAY:
                et = self.im.types[t + 1]
                while et > 0 and self.im.types[et] == CONST:
                    et = self.im.types[et + 1]
                a = cells[0]
                if et == CHAR:
                    return ''.join(map(chr, self.string(a)))
                n = self.get(a - 1)
                sz = self.size(et)
                return '[' + ' '.join(self.render(et, [self.get(a + i * sz + j) for j in range(sz)])
                                      for i in range(n)) + ']'
            if k == ENUM:
                t = INT
            elif k == POINTER:
                return 'null' if cells[0] == 0 else 'ptr'
            elif k not in (FUNCTION,):
                t = INT    # enumeration field
        if any(c is None for c in cells):
            raise VMError('uninitialised', 'printed value')
        if t == FLOAT:
            return 'f' + w2d(*cells).hex()
        if t == CHAR:
            return chr(cells[0]) if 0 <= cells[0] < 0x110000 else '\ufffd'
        if t == BOOL:
            return 'true' if cells[0] else 'false'
        return str(cells[0])

    # --- execution -----------------------------------------------------------------------------
    def run(self):
        pc = 4
        self.pc = pc
        try:
            self.loop(pc)
        except VMError as e:
            raise VMError(e.kind, str(e), self.pc)
        return ''.join(self.out)

    def jump(self, t):
        if not 4 <= t < self.n:
            raise VMError('jump', 'target %d outside code' % t)
        return t

    def arith(self, o, a, b):
        if o == 'ADD':
            r = a + b
        elif o == 'SUB':
            r = a - b
        elif o == 'MUL':
            r = a * b
        elif o == 'DIV':
            if b == 0:
                raise VMError('runtime', 'division by zero')
            r = cdiv(a, b)
        elif o == 'REM':
            if b == 0:
                raise VMError('runtime', 'division by zero')
            r = a - b * cdiv(a, b)
        elif o == 'SHL':
            r = a << (b & 31)
        elif o == 'SHR':
            r = a >> (b & 31)
        elif o == 'AND':
            r = a & b
        elif o == 'OR':
            r = a | b
        elif o == 'XOR':
            r = a ^ b
        elif o == '':
            r = b
        else:
            raise Unsupported(o)
        return s32(r)

    def farith(self, o, a, b):
        try:
            if o == 'ADD':
                return a + b
            if o == 'SUB':
                return a - b
            if o == 'MUL':
                return a * b
            if o == 'DIV':
                if b == 0:
                    raise VMError('runtime', 'floating division by zero')
                return a / b
            if o == '':
                return b
        except OverflowError:
            return math.inf
        raise Unsupported(o)

    @staticmethod
    def compare(o, a, b):
        return int(a == b if o == 'EQ' else a != b if o == 'NE' else a < b if o == 'LT' else a > b if o == 'GT'
                   else a <= b if o == 'LE' else a >= b)

    def loop(self, pc, until_stop=None):
        m, n, ops = self.m, self.n, self.ops
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise StepLimit()
            if not 4 <= pc < n:
                raise VMError('jump', 'pc %d outside code' % pc)
            self.pc = pc
            c = m[pc]
            k = OPS.get(c)
            if k is None:
                raise VMError('opcode', '%d is no instruction' % c)
            if pc + k >= n:
                raise VMError('opcode', 'operands past the end')
            ops[c] = ops.get(c, 0) + 1
            p = pc + 1
            pc = p + k
            if c == 9455:        # LI
                self.push(m[p])
            elif c == 9457:      # LOAD
                self.push(self.get(self.dsp(m[p])))
            elif c in BINARY:
                o, f = BINARY[c]
                if f:
                    b, a = self.popd(), self.popd()
                    if o in ('EQ', 'NE', 'LT', 'GT', 'LE', 'GE'):
                        self.push(self.compare(o, a, b))
                    else:
                        self.pushd(self.farith(o, a, b))
                else:
                    b, a = self.popi(), self.popi()
                    if o in ('EQ', 'NE', 'LT', 'GT', 'LE', 'GE'):
                        self.push(self.compare(o, a, b))
                    elif o == 'LOG_AND':
                        self.push(int(bool(a) and bool(b)))
                    elif o == 'LOG_OR':
                        self.push(int(bool(a) or bool(b)))
                    else:
                        self.push(self.arith(o, a, b))
            elif c in ASSIGN:
                o, at, f, v = ASSIGN[c]
                if f:
                    val = self.popd()
                    a = self.popi() if at else self.dsp(m[p])
                    r = self.farith(o, self.getd(a) if o else 0.0, val)
                    self.putd(a, r)
                    if not v:
                        self.pushd(r)
                else:
                    val = self.popi()
                    a = self.popi() if at else self.dsp(m[p])
                    if o:
                        cur = self.get(a)
                        if cur is None:
                            raise VMError('uninitialised', 'cell %d' % a)
                        val = self.arith(o, cur, val)
                    self.put(a, val)
                    if not v:
                        self.push(val)
            elif c in INCR:
                o, at, f, v = INCR[c]
                a = self.popi() if at else self.dsp(m[p])
                d = 1 if o.endswith('INC') else -1
                if f:
                    old = self.getd(a)
                    new = old + d
                    self.putd(a, new)
                    if not v:
                        self.pushd(old if o.startswith('POST') else new)
                else:
                    old = self.get(a)
                    if old is None:
                        raise VMError('uninitialised', 'cell %d' % a)
                    new = s32(old + d)
                    self.put(a, new)
                    if not v:
                        self.push(old if o.startswith('POST') else new)
            elif c == 9470 or c == 9471:   # BE0 BNE0
                t = self.jump(m[p])
                if (self.popi() == 0) == (c == 9470):
                    pc = t
            elif c == 9469:      # B
                pc = self.jump(m[p])
            elif c == 9456:      # LID
                self.push(m[p])
                self.push(m[p + 1])
            elif c == 9458:      # LOADD
                a = self.dsp(m[p])
                self.dsp(m[p] - 1 if m[p] < 0 else m[p] + 1)
                self.push(self.get(a))
                self.push(self.get(a + 1))
            elif c == 9459:      # LAT
                self.push(self.get(self.addr(self.popi())))
            elif c == 9460:      # LATD
                a = self.addr(self.popi())
                self.push(self.get(a))
                self.push(self.get(a + 1))
            elif c == 9472:      # SLICE
                i = self.popi()
                a = self.addr(self.popi())
                ln = self.get(a - 1)
                if not isinstance(ln, int) or not 0 <= i < ln:
                    raise VMError('runtime', 'index %s of %s' % (i, ln))
                self.push(a + i * m[p])
            elif c == 9462:      # SELECT
                self.push(self.addr(self.popi()) + m[p])
            elif c == 9464:      # LA
                self.push(self.dsp(m[p]))
            elif c == 9475:      # DUPLICATE
                v = self.popi()
                self.push(v)
                self.push(v)
            elif c == 9473:      # WIDEN
                self.pushd(float(self.popi()))
            elif c == 9049:
                self.push(s32(-self.popi()))
            elif c == 9099:
                self.pushd(-self.popd())
            elif c == 9052:
                self.push(~self.popi())
            elif c == 9053:
                self.push(int(self.popi() == 0))
            elif c == 9651:
                self.push(s32(abs(self.popi())))
            elif c == 9534:
                self.pushd(abs(self.popd()))
            elif 9535 <= c <= 9541:
                f = (math.sqrt, math.exp, math.sin, math.cos, math.log, math.log10, math.asin)[c - 9535]
                try:
                    self.pushd(f(self.popd()))
                except (ValueError, OverflowError):
                    raise VMError('runtime', 'domain of %s' % NAMES[c])
            elif c == 9543:      # ROUND (half away from zero)
                d = self.popd()
                self.push(s32(int(math.floor(abs(d) + 0.5)) * (1 if d >= 0 else -1)))
            elif c == 9588:      # UPB
                a = self.addr(self.popi())
                self.popi()
                self.push(self.get(a - 1))
            elif c == 9463:      # FUNC_BEG met in sequence: skip the body
                pc = self.jump(m[p + 1])
            elif c == 9465:      # CALL1
                self.pend.append(self.x)
                for _ in range(3):
                    self.push(0)
            elif c == 9466:      # CALL2
                pc = self.call(m[p], pc)
            elif c == 9467 or c == 9468:
                cells = []
                if c == 9467:
                    if self.x - m[p] < self.floor:
                        raise VMError('stack', 'return value of %d cells below the frame' % m[p])
                    cells = m[self.x - m[p] + 1:self.x + 1]
                if not self.frames:
                    raise VMError('stack', 'return outside a call')
                # the caller's stack is cut back to where CALL1 opened the frame
                old_x, (self.l, self.floor, self.maxd, ret, self.pend) = self.l - 1, self.frames.pop()
                for i in range(old_x + 1, self.x + 1):
                    m[i] = None
                self.x = old_x
                self.depth -= 1
                for v in cells:
                    self.push(v)
                pc = ret
            elif c == 9304:      # COPY0ST
                self.copy_in(self.slots(m[p], m[p + 1]), m[p + 1])
            elif c == 9305:      # COPY1ST
                self.copy_in(self.addr(self.popi()), m[p])
            elif c == 9306:      # COPY0ST_ASSIGN
                self.copy_out(self.slots(m[p], m[p + 1]), m[p + 1], False)
            elif c == 9307:      # COPY1ST_ASSIGN
                self.copy_out(None, m[p], True)
            elif c == 9308:      # COPYST
                d, sz, tot = m[p:p + 3]
                if self.x - tot < self.floor or d < 0 or d + sz > tot:
                    raise VMError('stack', 'member %d+%d of %d cells' % (d, sz, tot))
                v = m[self.x - tot + 1:self.x + 1]
                self.x -= tot
                for t in v[d:d + sz]:
                    self.push(t)
            elif c == 9454:
                self.defarr(m[p:p + 7])
            elif c == 9481:      # BEG_INIT
                self.push(('init', m[p]))
            elif c == 9477:
                self.arr_init(m[p:p + 4])
            elif c == 9478:      # STRUCT_WITH_ARR
                self.iniproc(self.dsp(m[p]), m[p + 1])
            elif c == PRINTF:
                self.printf(m[p])
            elif c == PRINT:
                t = m[p]
                sz = self.size(t)
                if self.x - sz < self.floor:
                    raise VMError('stack', 'underflow in print')
                cells = m[self.x - sz + 1:self.x + 1]
                self.x -= sz
                self.out.append(self.render(t, cells))
            elif c == PRINTID:
                r = m[p]
                self.check_ident(r)
                rp, t, d = self.im.idents[r + 1:r + 4]
                a = self.slots(d, self.size(t))
                self.out.append('%s = %s\n' % (self.name(rp), self.render(t, [self.get(a + i) for i in range(self.size(t))])))
            elif c == GETID:
                r = m[p]
                self.check_ident(r)
                rp, t, d = self.im.idents[r + 1:r + 4]
                a = self.slots(d, self.size(t))
                self.out.append('<%s>' % self.name(rp))
                if not self.stdin:
                    raise Unsupported('input exhausted')
                v = self.stdin.pop(0)
                if t == FLOAT:
                    self.putd(a, float(v))
                else:
                    self.put(a, s32(int(v)))
            elif c == 9461:      # STOP
                if until_stop:
                    return
                if self.depth:
                    raise VMError('stack', 'stop inside a call')
                return
            elif c == 9595:      # ASSERT(cond, text)
                t = self.popi()
                if not self.popi():
                    self.out.append('ASSERT ' + ''.join(map(chr, self.string(t))) + '\n')
                    raise VMError('runtime', 'assertion failed')
            elif c == 9546:      # STRCAT
                b, a = self.popi(), self.popi()
                self.push(self.new_string(self.string(a) + self.string(b)))
            elif c == 9545:      # STRNCPY
                k, a = self.popi(), self.popi()
                self.push(self.new_string(self.string(a)[:max(k, 0)]))
            elif c == 9548 or c == 9549:
                if c == 9549:
                    k = self.popi()
                b, a = self.string(self.popi()), self.string(self.popi())
                if c == 9549:
                    a, b = a[:max(k, 0)], b[:max(k, 0)]
                self.push(0 if a == b else -1 if a < b else 1)
            elif c == 9550:      # STRSTR
                b, a = ''.join(map(chr, self.string(self.popi()))), ''.join(map(chr, self.string(self.popi())))
                self.push(a.find(b))
            elif c == 9453:
                pass
            else:
                raise Unsupported(NAMES[c])

    def check_ident(self, r):
        if not (-1 <= r and r + 3 < len(self.im.idents)):
            raise VMError('operand', 'identifier %d' % r)

    def name(self, rp):
        i = rp + 2
        r = []
        while True:
            if not 0 <= i < len(self.im.reprs):
                raise VMError('operand', 'representation %d' % rp)
            if self.im.reprs[i] == 0:
                return ''.join(r)
            r.append(chr(self.im.reprs[i]))
            i += 1

    def addr(self, a):
        if a == 0:
            raise VMError('runtime', 'null pointer')
        if a < 4 or (a > self.x and a < HEAP and not (self.g <= a < self.base)
                     and not (self.depth and self.l <= a < self.l + self.maxd)) or a > HEAP + len(self.heap):
            raise VMError('memory', '%d is no address' % a)
        return a

    def slots(self, d, sz):
        a = self.dsp(d)
        if sz > 1:
            self.dsp(d - sz + 1 if d < 0 else d + sz - 1)
        return a

    def copy_in(self, a, sz):
        for v in [self.get(a + i) for i in range(sz)]:
            self.push(v)

    def copy_out(self, a, sz, at):
        if self.x - sz < self.floor:
            raise VMError('stack', 'structure of %d cells below the frame' % sz)
        v = self.m[self.x - sz + 1:self.x + 1]
        if any(isinstance(t, tuple) for t in v):
            raise Unsupported('array in a structure initialiser')
        self.x -= sz
        if at:
            a = self.addr(self.popi())
        for i, t in enumerate(v):
            self.put(a + i, t)
        for t in v:
            self.push(t)

    def call(self, f, ret):
        if not self.pend:
            raise VMError('stack', 'CALL2 without CALL1')
        nx = self.pend.pop()
        if f < 0:
            f = self.get(self.dsp(-f))
        if f is None or not 2 <= f < len(self.im.funcs):
            raise VMError('operand', 'function number %s' % f)
        pc = self.im.funcs[f]
        if not 4 <= pc < self.n - 2 or self.m[pc] != 9463:
            raise VMError('jump', 'function %d starts at %d' % (f, pc))
        maxd = self.m[pc + 1]
        if maxd < 3:
            raise VMError('operand', 'frame size %d' % maxd)
        self.frames.append((self.l, self.floor, self.maxd, ret, self.pend))
        self.pend = []
        self.l = nx + 1
        if self.x > self.l + maxd - 1:
            raise VMError('stack', 'arguments (%d cells) exceed the frame (%d)' % (self.x - self.l + 1, maxd))
        for i in range(self.x + 1, self.l + maxd):
            if i >= len(self.m):
                raise VMError('stack', 'overflow')
            self.m[i] = None
        self.maxd = maxd
        self.x = self.l + maxd - 1
        self.floor = self.x
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        return pc + 3

    # --- arrays --------------------------------------------------------------------------------
    def new_array(self, bounds, ln, ini):
        n = bounds[0]
        if n < 0:
            raise VMError('runtime', 'array bound %d' % n)
        if len(bounds) == 1:
            a = self.alloc([n] + [0] * (n * ln)) + 1
            if ini:
                for i in range(n):
                    self.iniproc(a + i * ln, ini)
            return a
        rows = [self.new_array(bounds[1:], ln, ini) for _ in range(n)]
        return self.alloc([n] + rows) + 1

    def iniproc(self, base, proc):
        self.jump(proc)
        self.inits.append(('struct', base))
        depth = len(self.inits)
        pc = self.pc
        self.loop(proc, True)
        self.pc = pc
        if len(self.inits) != depth:
            raise VMError('stack', 'initialisation procedure is unbalanced')
        self.inits.pop()

    def defarr(self, a):
        nd, ln, displ, ini, usual, has_init, in_struct = a
        if ln < 1 or has_init not in (0, 1) or in_struct not in (0, 1) or not 0 <= usual <= 3:
            raise VMError('operand', 'DEFARR %s' % a)
        k = nd + 1 if has_init and usual & 1 else nd
        bounds = [self.popi() for _ in range(k)][::-1]
        if has_init:
            self.inits.append(('arr', self.x, bounds, displ, ln))
            return
        if not bounds:
            raise VMError('operand', 'array without bounds')
        arr = self.new_array(bounds, ln, ini)
        if in_struct:
            if not self.inits or self.inits[-1][0] != 'struct':
                raise VMError('operand', 'member array outside a structure')
            self.put(self.inits[-1][1] + displ, arr)
        else:
            self.put(self.dsp(displ), arr)

    def arr_init(self, a):
        dims, ln, displ, usual = a
        if not self.inits or self.inits[-1][0] != 'arr':
            raise VMError('stack', 'ARR_INIT without DEFARR')
        _, start, bounds, d2, l2 = self.inits.pop()
        if d2 != displ or l2 != ln:
            raise VMError('operand', 'ARR_INIT does not match its DEFARR')
        cells = self.m[start + 1:self.x + 1]
        self.x = start
        strings = usual >= 2
        p, arr = self.build(cells, 0, dims, ln, strings, list(bounds))
        if p != len(cells):
            raise VMError('stack', 'initialiser has %d cells, %d used' % (len(cells), p))
        self.put(self.dsp(displ), arr)

    def build(self, cells, p, dims, ln, strings, bounds):
        if p >= len(cells):
            raise VMError('stack', 'initialiser too short')
        if strings and dims == 1 and isinstance(cells[p], int):
            s = self.string(cells[p])
            if bounds and bounds[0] != len(s):
                raise VMError('runtime', 'string of %d for bound %d' % (len(s), bounds[0]))
            return p + 1, self.new_string(s)
        if not isinstance(cells[p], tuple):
            raise Unsupported('array initialised by an expression')
        n = cells[p][1]
        p += 1
        if bounds and bounds[0] != n:
            raise VMError('runtime', '%d initialisers for bound %d' % (n, bounds[0]))
        if dims == 1:
            v = cells[p:p + n * ln]
            if len(v) != n * ln or any(isinstance(t, tuple) for t in v):
                raise Unsupported('nested initialiser')
            return p + n * ln, self.alloc([n] + v) + 1
        rows = []
        for _ in range(n):
            p, r = self.build(cells, p, dims - 1, ln, strings, bounds[1:])
            rows.append(r)
        return p, self.alloc([n] + rows) + 1

    def printf(self, total):
        fmt = self.string(self.popi())
        if total < 0 or self.x - total < self.floor:
            raise VMError('stack', 'printf takes %d cells' % total)
        cells = self.m[self.x - total + 1:self.x + 1]
        self.x -= total
        i = p = 0
        out = []
        while i < len(fmt):
            c = chr(fmt[i])
            if c == '%':
                i += 1
                s = chr(fmt[i]) if i < len(fmt) else ''
                if s == '%':
                    out.append('%')
                    i += 1
                    continue
                w = 2 if s in 'fв' else 1
                v = cells[p:p + w]
                if len(v) < w:
                    raise VMError('stack', 'printf has no cell for %%%s' % s)
                if any(t is None for t in v):
                    raise VMError('uninitialised', 'printf argument')
                p += w
                if s in 'iц':
                    out.append(str(v[0]))
                elif s in 'cл':
                    out.append(chr(v[0]) if 0 <= v[0] < 0x110000 else '\ufffd')
                elif s in 'fв':
                    out.append('f' + w2d(*v).hex())
                elif s in 'sс':
                    out.append(''.join(map(chr, self.string(v[0]))))
                else:
                    raise VMError('operand', 'format %%%s' % s)
            else:
                out.append(c)
            i += 1
        if p != total:
            raise VMError('stack', 'printf got %d cells, used %d' % (total, p))
        self.out.append(''.join(out))


def decode(image):
    """Linear decoding of the code table: [(pc, opcode, operands)]."""
    m, r, pc = image.mem, [], 4
    skip = {}
    while pc < len(m):
        c = m[pc]
        k = OPS.get(c)
        if k is None or pc + k >= len(m):
            raise VMError('opcode', 'undecodable %d' % c, pc)
        r.append((pc, c, m[pc + 1:pc + 1 + k]))
        # literal data (strings, argument arrays): LI a; B e; len; data...
        if c == 9469 and len(r) >= 2 and r[-2][1] == 9455 and r[-2][2][0] == pc + 3 and pc + 3 <= m[pc + 1] <= len(m) \
                and m[pc + 1] - pc - 3 in (m[pc + 2], 2 * m[pc + 2]):
            pc = m[pc + 1]
            continue
        pc += 1 + k
    return r


def validate(image):
    """Static well-formedness of a whole image; returns the number of instructions checked."""
    code = decode(image)
    starts = {pc for pc, _, _ in code}
    for pc, c, a in code:
        if c in (9469, 9470, 9471) and a[0] not in starts:
            raise VMError('jump', 'target %d is no instruction' % a[0], pc)
        if c == 9463 and a[1] not in starts:
            raise VMError('jump', 'function skip %d is no instruction' % a[1], pc)
        if c == 9466 and a[0] >= 0 and not 2 <= a[0] < len(image.funcs):
            raise VMError('operand', 'function number %d' % a[0], pc)
        if c == 9478 and a[1] not in starts:
            raise VMError('jump', 'initialisation procedure %d' % a[1], pc)
        if c == 9454 and a[3] and a[3] not in starts:
            raise VMError('jump', 'initialisation procedure %d' % a[3], pc)
    ends = dict((pc, c) for pc, c, _ in code)
    for i, f in enumerate(image.funcs[2:]):
        if ends.get(f) != 9463:
            raise VMError('jump', 'function %d starts at %d' % (i + 2, f))
    starts = type_starts(image)
    ids = image.idents
    if len(ids) % 3:
        raise VMError('identifiers', '%d cells' % len(ids))
    for k in range(0, len(ids), 3):
        repr_at(image, ids[k])
        check_type(starts, ids[k + 1], 'identifier %d' % k)
    for pc, c, a in code:
        if c == PRINT:
            check_type(starts, a[0], 'PRINT at %d' % pc)
        elif c in (PRINTID, GETID):
            if not (a[0] >= -1 and a[0] + 3 < len(ids)):
                raise VMError('operand', 'identifier %d' % a[0], pc)
    if image.gsize < 0:
        raise VMError('format', 'size of globals %d' % image.gsize)
    if not code or code[-1][1] != 9461:
        raise VMError('format', 'code does not end with STOP')
    return len(code)


def type_starts(image):
    """Walk the type table record by record; returns {start of a record: tag}."""
    t, i, starts, prev = image.types, 1, {}, 0
    while i < len(t):
        if i + 1 >= len(t):
            raise VMError('types', 'record at %d is cut off' % i)
        if t[i] != prev:
            raise VMError('types', 'record at %d links to %d, not to %d' % (i, t[i], prev))
        tag = t[i + 1]
        size = {FUNCTION: 3, STRUCTURE: 3, ARRAY: 2, POINTER: 2, CONST: 2, ENUM: 3}.get(tag)
        if size is None:
            raise VMError('types', 'record at %d has tag %d' % (i, tag))
        if i + size >= len(t) + (size == 2):
            raise VMError('types', 'record at %d is cut off' % i)
        if tag in (FUNCTION, STRUCTURE, ENUM):
            if t[i + 3] < 0:
                raise VMError('types', 'record at %d has %d fields' % (i, t[i + 3]))
            size += t[i + 3]
        starts[i + 1] = tag
        prev = i
        i += 1 + size
    if i != len(t) and len(t) > 1:
        raise VMError('types', 'the last record is cut off')
    for s, tag in starts.items():
        if tag in (ARRAY, POINTER, CONST):
            used = [t[s + 1]]
        elif tag == STRUCTURE:
            used = [t[s + 3 + 2 * k] for k in range(t[s + 2] // 2)]
        elif tag == FUNCTION:
            used = [t[s + 1]] + [t[s + 3 + k] for k in range(t[s + 2])]
        else:
            used = []
        for u in used:
            check_type(starts, u, s)
    return starts


def types_by_order(image):
    """The type table with the numbers of field names, which depend on how names are spelled, replaced by order of appearance."""
    t, order = list(image.types), {}
    for s, tag in type_starts(image).items():
        if tag in (STRUCTURE, ENUM):
            for k in range(s + 4, s + 3 + t[s + 2], 2):
                t[k] = order.setdefault(t[k], len(order))
    return t


def check_type(starts, u, where):
    if u > 0 and u not in starts:
        raise VMError('types', '%s refers to type %d, which is no record' % (where, u))
    if u < 0 and u not in (INT, CHAR, FLOAT, BOOL, VOID, FILE_, NULLP, -9) and starts.get(-u) != ENUM:
        raise VMError('types', '%s refers to type %d' % (where, u))


def repr_at(image, rp):
    i, r = rp + 2, []
    while True:
        if not 0 <= i < len(image.reprs):
            raise VMError('representations', 'representation %d' % rp)
        if image.reprs[i] == 0:
            break
        if not 0 < image.reprs[i] < 0x110000:
            raise VMError('representations', 'character %d in representation %d' % (image.reprs[i], rp))
        r.append(chr(image.reprs[i]))
        i += 1
    if not r:
        raise VMError('representations', 'empty representation %d' % rp)
    return ''.join(r)


def run_text(text, limit=STOP_LIMIT, stdin=None):
    im = Image(text)
    vm = VM(im, limit, stdin)
    vm.run()
    return vm
