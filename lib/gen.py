"""Random well-formed RuC programs, their text and their meaning.

A program is generated as a typed tree, printed as RuC source, and interpreted by a tree-walking
reference interpreter that follows docs/Language.md.  Anything the description leaves open (integer
overflow, out-of-range indices, division by zero, uninitialised values, order of evaluation of
conflicting accesses) is kept out: the reference run detects it and the offending node is rewritten,
so every program that is handed out has exactly one meaning.
"""
import math
import random
import struct

INT, CHAR, BOOL, FLT, VOID = 'int', 'char', 'bool', 'float', 'void'
IMIN, IMAX = -2 ** 31, 2 ** 31 - 1


class S:
    """A structure type."""

    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        self.has_arr = any(isinstance(t, tuple) and (t[0] == 'arr' or (t[0] == 'st' and t[1].has_arr)) for _, t in fields)

    def index(self, f):
        return [n for n, _ in self.fields].index(f)


class En:
    def __init__(self, name, items):
        self.name, self.items = name, items


class V:
    """A variable."""
    n = 0

    def __init__(self, name, t, **k):
        V.n += 1
        self.id = V.n
        self.name, self.t = name, t
        self.const = k.get('const', False)
        self.glob = k.get('glob', False)
        self.addr = k.get('addr', False)       # its address may be taken
        self.counter = k.get('counter', False)  # a loop variable: never assigned by the body
        self.ro = k.get('ro', False)           # must not be written (parameter of a pure function)
        self.level = k.get('level', 0)
        self.bound = k.get('bound')            # run-time bounds
        self.least = None                      # what each of them is at least


class F:
    """A function."""

    def __init__(self, name, ret, params, pure):
        self.name, self.ret, self.params, self.pure = name, ret, params, pure
        self.body = None
        self.rec = False
        self.predecl = False


class E:
    __slots__ = ('k', 't', 'a', 'v', 'paren')

    def __init__(self, k, t, a=(), v=None):
        self.k, self.t, self.a, self.v = k, t, list(a), v
        self.paren = False

    def become(self, o):
        self.k, self.t, self.a, self.v = o.k, o.t, o.a, o.v


class St:
    __slots__ = ('k', 'a', 'v', 'line')

    def __init__(self, k, a=(), v=None):
        self.k, self.a, self.v = k, list(a), v
        self.line = None


class Prog:
    def __init__(self):
        self.items = []     # ('struct', S) ('enum', En) ('var', V, init) ('func', F) ('predecl', F)
        self.main = None


def lit(v):
    return E('int', INT, v=v) if v >= 0 else E('un', INT, [E('int', INT, v=-v)], '-')


def flit(v):
    return E('flt', FLT, v=v)


def is_arr(t):
    return isinstance(t, tuple) and t[0] == 'arr'


def is_st(t):
    return isinstance(t, tuple) and t[0] == 'st'


def is_ptr(t):
    return isinstance(t, tuple) and t[0] == 'ptr'


def is_fn(t):
    return isinstance(t, tuple) and t[0] == 'fn'


def intlike(t):
    return t in (INT, CHAR) or (isinstance(t, tuple) and t[0] == 'enum')


# ---------------------------------------------------------------------------------------------------
FULL = dict(
    float=1, bool=1, char=1, enum=1, struct=1, nested_struct=1, struct_arr=1, ptr=1, ptr_member=1, ptr_arr=1, arr=1,
    arr2=1, arr3=1, vla=1, str=1, fnparam=1, tern=1, ternf=1, ternb=1, comma=1, logic_value=1, switch=1, fall=1, default_any=1,
    nested_switch=1, do=1, whil=1, cont=1, brk=1, for_nocond=1, upb=1, print=1, printid=1, builtin_f=1, strfn=1,
    const=1, shadow=1, predecl=1, rec=1, proc=1, ret_struct=1, arr_param=1, ptr_param=1, struct_param=1, side=1, void_main=1,
    glob_init_expr=0, uninit_decl=1, cyr=1, char_arr=1, bool_arr=1, flt_arr=1, struct_in_arr=1, early_ret=1,
    local_struct=1, typedef=1, addr_arr_elem=1, addr_field=1, struct_asg=1, arr_init=1, big=1, un_not=1, un_minus=1, abs=1,
    logic_int=1, cmp_ptr=1, typ_bool_param=1, ret_bool=1, ret_char=1, ret_flt=1, glob_arr=1, glob_struct=1, glob_bool=1,
    glob_flt=1, glob_char=1, decl_in_loop=1, cond_int=1, flt_cmp=1, mixed=1, shift=1, inc_elem=1, inc_flt=1, casg_elem=1,
    casg_flt=1, casg_bit=1, empty_stmt=1, arr_bound_expr=1, chain=1, ret_in_main=1, call_arg_call=1, str_var=1, log_not=1,
    multi_decl=1, flt_lit_exp=1, int_to_flt=1, bool_eq=1, impure_cond=1, arr_lit_arg=1, row_arg=1, ptr_ret=1, block=1, for_multi=1,
    enum_var=1, struct_print=1, arr_print=1)

NAMES = ['a', 'b', 'c', 'd', 'x', 'y', 'z', 'foo', 'bar', 'tmp1', '_q', 'Val', 'count', 'n2', 'idx', 'res', 'k_1', 'uu', 'w']
CYR = ['а1', 'число', 'сч', 'Ответ', 'мас', 'ёж', 'Я', 'перем_2']


class Gen:
    def __init__(self, rng, feats=None, size=1.0):
        self.r = rng
        self.f = dict(FULL)
        if feats:
            self.f.update(feats)
        self.size = size
        self.p = Prog()
        self.structs, self.enums, self.funcs, self.globs = [], [], [], []
        self.used = set(['main'])
        self.uid = 0
        self.unbounded = []     # array parameters, when their bounds are not to be asked for

    # --- helpers --------------------------------------------------------------------------------
    def ch(self, p):
        return self.r.random() < p

    def has(self, f, p=1.0):
        return self.f.get(f, 0) and self.r.random() < p

    def pick(self, l):
        return self.r.choice(l)

    def weighted(self, l):
        tot = sum(w for w, _ in l)
        x = self.r.random() * tot
        for w, v in l:
            x -= w
            if x < 0:
                return v
        return l[-1][1]

    def fresh(self, pref='v'):
        while True:
            if self.ch(0.6):
                base = self.pick(NAMES + (CYR if self.f['cyr'] else []))
                n = base if self.ch(0.3) else base + str(self.r.randrange(100))
            else:
                self.uid += 1
                n = pref + str(self.uid)
            if n not in self.used:
                self.used.add(n)
                return n

    def local_name(self):
        """A name for a local: fresh, or (shadowing) one that is visible from an outer scope."""
        if self.has('shadow', 0.12):
            inner = {v.name for v in self.scopes[-1]}
            if len(self.scopes) == 2:
                inner |= {v.name for v in self.scopes[0]}
            c = [v.name for v in self.visible() if v.name not in inner and v.level < len(self.scopes)
                 and not v.counter and v not in self.scopes[-1] and v.glob]
            if c:
                return self.pick(c)
        return self.fresh()

    def visible(self):
        seen, r = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name not in seen:
                    seen.add(v.name)
                    r.append(v)
        for v in reversed(self.globs):
            if v.name not in seen:
                seen.add(v.name)
                r.append(v)
        return r

    def callable(self):
        names = {v.name for sc in self.scopes for v in sc}
        return [f for f in self.funcs if f.name not in names]

    # --- types ----------------------------------------------------------------------------------
    def scalar_type(self):
        c = [(6, INT)]
        if self.f['float']:
            c.append((3, FLT))
        if self.f['bool']:
            c.append((2, BOOL))
        if self.f['char']:
            c.append((1.5, CHAR))
        if self.f['enum_var'] and self.enums:
            c.append((0.7, ('enum', self.pick(self.enums))))
        return self.weighted(c)

    def elem_type(self):
        c = [(6, INT)]
        if self.f['flt_arr'] and self.f['float']:
            c.append((2, FLT))
        if self.f['bool_arr'] and self.f['bool']:
            c.append((1, BOOL))
        if self.f['char_arr'] and self.f['char']:
            c.append((1, CHAR))
        return self.weighted(c)

    def arr_type(self, dims=None):
        nd = dims or self.weighted([(6, 1), (3 if self.f['arr2'] else 0, 2), (0.6 if self.f['arr3'] else 0, 3),
                                  (0.3 if self.f['arr3'] else 0, self.r.randint(4, 6))])
        t = self.elem_type()
        if nd == 1 and self.has('struct_in_arr', 0.15) and self.structs:
            ss = [s for s in self.structs if not s.has_arr and not self.ptr_in(s)]
            if ss:
                t = ('st', self.pick(ss))
        return ('arr', t, tuple(max(self.pick([1, 2, 2] if nd > 3 else [1, 2, 3, 4] if nd > 1 else [1, 2, 3, 4, 5, 8]), 1 if self.f.get('param_upb', 1) else 2)
                               for _ in range(nd)))

    def ptr_in(self, s):
        return any(is_ptr(t) or (is_st(t) and self.ptr_in(t[1])) for _, t in s.fields)

    def make_struct(self):
        fs = []
        names = set()
        for _ in range(self.r.randint(1, 5)):
            n = self.pick(NAMES + (CYR if self.f['cyr'] else []))
            if n in names:
                continue
            names.add(n)
            t = self.scalar_type()
            if isinstance(t, tuple):
                t = INT
            if self.has('nested_struct', 0.25) and self.structs:
                t = ('st', self.pick(self.structs))
                if t[1].has_arr and not self.f['struct_arr']:
                    t = INT
            elif self.has('struct_arr', 0.12):
                t = self.arr_type(dims=self.pick([1, 1, 2]) if self.f['arr2'] else 1)
                if is_st(t[1]):
                    t = ('arr', INT, t[2])
            elif self.has('ptr_member', 0.12):
                t = ('ptr', INT if self.ch(0.7) or not self.f['float'] else FLT)
            fs.append((n, t))
        return S(self.fresh('S'), fs)

    # --- literals and initial values -------------------------------------------------------------
    def int_lit(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            v = r.randint(-9, 20)
        elif x < 0.85:
            v = r.randint(-300, 1000)
        elif x < 0.95 or not self.f['big']:
            v = r.randint(-100000, 100000)
        else:
            v = self.pick([IMAX, -IMAX, 1 << 30, 65535, 65536, 0x7f, 0x80, 0xff, r.randint(-IMAX, IMAX)])
        return lit(v)

    def flt_lit(self):
        r = self.r
        v = self.pick([0.5, 1.25, 2.0, 3.75, 0.1, 10.0, 100.5, round(r.uniform(0, 50), 2), round(r.uniform(0, 1), 3),
                       round(r.uniform(0, 1e4), 1)])
        e = flit(v)
        return E('un', FLT, [e], '-') if self.f['un_minus'] and self.ch(0.2) else e

    def zero_lit(self, t):
        return self.literal(t)

    def literal(self, t):
        if t == INT:
            return self.int_lit()
        if t == FLT:
            return self.flt_lit()
        if t == BOOL:
            return E('bool', BOOL, v=self.r.randrange(2))
        if t == CHAR:
            return E('chr', CHAR, v=self.pick('abcxyzABZ019 +-*_'))
        if isinstance(t, tuple) and t[0] == 'enum':
            return E('enum', t, v=self.pick(t[1].items))
        raise AssertionError(t)

    # --- expressions (pure) ----------------------------------------------------------------------
    def lvals(self, t, write=False):
        """Ways to reach an object of scalar type t (not evaluated yet): list of closures."""
        out = []
        for v in self.visible():
            if write and (v.const or v.counter or v.ro or (self.pure and v.glob)):
                continue
            self.reach(v.t, lambda v=v: E('var', v.t, v=v), t, out, 0, write)
        return out

    def reach(self, vt, mk, t, out, depth, write):
        if vt == t:
            out.append(mk)
        if depth > 3:
            return
        if is_arr(vt):
            et = vt[1] if len(vt[2]) == 1 else ('arr', vt[1], vt[2][1:])
            self.reach(et, lambda: self.index(mk, vt, et), t, out, depth + (len(vt[2]) == 1), write)
        elif is_st(vt):
            for n, ft in vt[1].fields:
                self.reach(ft, lambda n=n, ft=ft: E('mem', ft, [mk()], n), t, out, depth + 1, write)
        elif is_ptr(vt) and not (write and self.pure):
            pt = vt[1]
            if pt == t:
                out.append(lambda: E('drf', pt, [mk()]))
            if is_st(pt):
                for n, ft in pt[1].fields:
                    self.reach(ft, lambda n=n, ft=ft: E('arr', ft, [mk()], n), t, out, depth + 1, write)

    def index(self, mk, vt, et):
        base = mk()
        n = vt[2][0]
        if n is None and not self.f.get('param_upb', 1) and mk().v in self.unbounded:
            return E('idx', et, [base, E('bin', INT, [self.expr(INT, 1), lit(1)], '&')])
        root = base
        while root.k in ('idx', 'mem', 'arr'):
            root = root.a[0]
        if n is None and root.k == 'var' and root.v.least:
            n = root.v.least[len(root.v.least) - len(vt[2])]
            i = self.pick([lit(self.r.randrange(n)), E('bin', INT, [self.expr(INT, 1), lit(n & (n - 1) and 1 or n - 1)], '&')])
            return E('idx', et, [base, i])
        if n is None:          # run-time bound
            i = E('bin', INT, [E('bin', INT, [self.expr(INT, 1), lit(1023)], '&'), E('upb', INT, [mk()])], '%')
            return E('idx', et, [base, i])
        x = self.r.random()
        cs = [v for v in self.visible() if v.counter and v.t == INT and v.bound and v.bound <= n]
        if cs and x < 0.5:
            i = E('var', INT, v=self.pick(cs))
        elif x < 0.75 or n & (n - 1):
            i = lit(self.r.randrange(n))
        elif n == 1:
            i = lit(0)
        else:
            i = E('bin', INT, [self.expr(INT, 1), lit(n - 1)], '&')
        return E('idx', et, [base, i])

    def pure_call(self, t, d):
        fs = [f for f in self.callable() if f.pure and f.ret == t and self.depth_ok(f)]
        if not fs:
            return None
        f = self.pick(fs)
        return self.call(f, d)

    def depth_ok(self, f):
        return not f.rec or True

    def call(self, f, d):
        args = []
        for i, p in enumerate(f.params):
            if f.rec and i == 0:
                args.append(lit(self.r.randint(0, 3)))
                continue
            a = self.argument(p, d)
            if a is None:
                return None
            args.append(a)
        return E('call', f.ret, args, f)

    def argument(self, p, d):
        t = p.t
        if is_arr(t):
            vs = [v for v in self.visible() if is_arr(v.t) and v.t[1] == t[1] and len(v.t[2]) == len(t[2])
                  and not v.const and (p.ro or not (v.ro or (self.pure and v.glob)))]
            rows = [v for v in self.visible() if is_arr(v.t) and v.t[1] == t[1] and len(v.t[2]) > len(t[2])
                    and not v.const and (p.ro or not (v.ro or (self.pure and v.glob)))
                    and (v.least or v.t[2][0]) and v.t[2][-1] != 1 and (not v.least or len(v.t[2]) == 2)]
            if rows and self.has('row_arg', 0.4):
                v = self.pick(rows)
                e = E('var', v.t, v=v)
                for i in range(len(v.t[2]) - len(t[2])):
                    e = E('idx', ('arr', v.t[1], e.t[2][1:]), [e, lit(self.r.randrange(v.least[i] if v.least else v.t[2][i]))])
                return e
            if vs and not (self.has('arr_lit_arg', 0.25) and p.ro and t[1] in (INT, FLT) and len(t[2]) == 1):
                v = self.pick(vs)
                return E('var', v.t, v=v)
            if self.f['arr_lit_arg'] and p.ro and len(t[2]) == 1 and t[1] in (INT, FLT):
                if t[1] == INT:
                    return E('init', ('arr', t[1], (2,)), [E('int', INT, v=self.r.randint(0, 99)) for _ in range(2)])
                return E('init', ('arr', t[1], (2,)), [flit(self.pick([1.5, 0.25, 7.0])) for _ in range(2)])
            return None
        if is_ptr(t):
            o = self.objects(t[1])
            if self.pure:
                o = []
            return o and E('adr', t, [self.pick(o)()]) or None
        if is_fn(t):
            fs = [f for f in self.callable() if f.pure and not f.rec and f.ret == t[1]
                  and [q.t for q in f.params] == list(t[2])]
            fs = [f for f in fs if f is not self.fn]
            vs = [v for v in self.visible() if v.t == t]
            c = fs + vs
            if not c:
                return None
            x = self.pick(c)
            return E('fn', t, v=x) if isinstance(x, F) else E('var', t, v=x)
        if is_st(t):
            return self.struct_value(t, d)
        return self.expr(t, d)

    def struct_value(self, t, d):
        ls = self.lvals(t)
        if ls and self.ch(0.75):
            return self.pick(ls)()
        if self.f['ret_struct']:
            c = self.pure_call(t, d - 1) if d > 0 else None
            if c:
                return c
        return self.pick(ls)() if ls else None

    def objects(self, t):
        """Addressable objects of type t that outlive the current scope's pointers."""
        out = []
        for v in self.visible():
            if v.const or v.ro or v.counter:
                continue
            if v.t == t and v.addr:
                out.append(lambda v=v: E('var', t, v=v))
            elif v.addr and is_st(v.t) and self.f['addr_field']:
                for n, ft in v.t[1].fields:
                    if ft == t:
                        out.append(lambda v=v, n=n: E('mem', t, [E('var', v.t, v=v)], n))
            elif v.addr and is_arr(v.t) and self.f['addr_arr_elem'] and len(v.t[2]) == 1 and v.t[1] == t and v.t[2][0]:
                out.append(lambda v=v: E('idx', t, [E('var', v.t, v=v), lit(self.r.randrange(v.t[2][0]))]))
        return out

    def expr(self, t, d):
        e = self.expr0(t, d)
        if e.k in ('bin', 'un', 'tern') and self.ch(0.06):
            e.paren = True
        return e

    def expr0(self, t, d):
        if isinstance(t, tuple) and t[0] == 'enum':
            ls = self.lvals(t)
            if ls and self.ch(0.5):
                return self.pick(ls)()
            return self.literal(t)
        if t == CHAR:
            ls = self.lvals(CHAR)
            if ls and self.ch(0.6):
                return self.pick(ls)()
            if d > 0 and self.f['ret_char'] and self.ch(0.3):
                c = self.pure_call(CHAR, d - 1)
                if c:
                    return c
            if d > 0 and self.ch(0.4):
                return E('bin', INT, [E('bin', INT, [self.expr(INT, d - 1), lit(15)], '&'), E('chr', CHAR, v='a')], '+')
            return self.literal(CHAR)
        if t == INT:
            return self.int_expr(d)
        if t == FLT:
            return self.flt_expr(d)
        if t == BOOL:
            return self.bool_expr(d)
        raise AssertionError(t)

    def int_leaf(self):
        ls = self.lvals(INT)
        if self.f['char'] and self.ch(0.15):
            ls = ls + self.lvals(CHAR)
        if ls and self.ch(0.75):
            return self.pick(ls)()
        if self.f['enum'] and self.enums and self.ch(0.08):
            en = self.pick(self.enums)
            return E('enum', ('enum', en), v=self.pick(en.items))
        if self.f['char'] and self.ch(0.04):
            return self.literal(CHAR)
        return self.int_lit()

    def int_expr(self, d):
        if d <= 0 or self.ch(0.2):
            return self.int_leaf()
        o = [(8, 'arith'), (3, 'bit'), (2 if self.f['un_minus'] else 0, 'neg'), (1 if self.f['un_not'] else 0, 'not'),
             (1.2 if self.f['tern'] else 0, 'tern'), (1.5, 'call'), (0.5 if self.f['abs'] else 0, 'abs'),
             (0.7 if self.f['upb'] else 0, 'upb'), (0.4 if self.f['builtin_f'] and self.f['float'] else 0, 'round'),
             (0.5 if self.f['strfn'] else 0, 'str'), (1.0 if self.f['shift'] else 0, 'shift'),
             (0.4 if self.f['comma'] else 0, 'comma')]
        k = self.weighted(o)
        if k == 'arith':
            op = self.weighted([(5, '+'), (4, '-'), (3, '*'), (1.5, '/'), (1.5, '%')])
            return E('bin', INT, [self.int_expr(d - 1), self.int_expr(d - 1)], op)
        if k == 'bit':
            return E('bin', INT, [self.int_expr(d - 1), self.int_expr(d - 1)], self.pick('&|^'))
        if k == 'shift':
            rhs = lit(self.r.randint(0, 6)) if self.ch(0.7) else E('bin', INT, [self.int_leaf(), lit(3)], '&')
            return E('bin', INT, [self.int_expr(d - 1), rhs], self.pick(['<<', '>>']))
        if k == 'neg':
            return E('un', INT, [self.nochar(self.int_expr(d - 1))], '-')
        if k == 'not':
            return E('un', INT, [self.nochar(self.int_expr(d - 1))], '~')
        if k == 'abs':
            return E('un', INT, [self.nochar(self.int_expr(d - 1))], 'abs')
        if k == 'tern':
            return E('tern', INT, [self.cond(d - 1), self.int_expr(d - 1), self.int_expr(d - 1)])
        if k == 'call':
            if self.ch(0.3) and self.f['fnparam']:
                ps = [v for v in self.visible() if is_fn(v.t) and v.t[1] == INT]
                if ps:
                    v = self.pick(ps)
                    return E('callp', INT, [self.expr(q, 0) for q in v.t[2]], v)
            c = self.pure_call(INT, d - 1)
            return c or self.int_leaf()
        if k == 'upb':
            vs = [v for v in self.visible() if is_arr(v.t) and v not in self.unbounded]
            if vs:
                v = self.pick(vs)
                e = E('var', v.t, v=v)
                if len(v.t[2]) > 1 and self.ch(0.4) and v.t[2][0]:
                    e = E('idx', ('arr', v.t[1], v.t[2][1:]), [e, lit(self.r.randrange(v.t[2][0]))])
                return E('upb', INT, [e])
            return self.int_leaf()
        if k == 'round':
            return E('bi', INT, [self.flt_expr(d - 1)], 'round')
        if k == 'str':
            fn = self.pick(['strcmp', 'strncmp', 'strstr'])
            a = [self.str_expr(), self.str_expr()]
            if fn == 'strncmp':
                a.append(lit(self.r.randint(1, 3)))
            return E('bi', INT, a, fn)
        if k == 'comma':
            x = self.pure_discard()
            if not x:
                return self.int_leaf()
            y = self.int_expr(d - 1)
            return E('com', y.t, [x, y])
        return self.int_leaf()

    def pure_discard(self):
        # the left operand of a comma: a plain variable (nothing is left on any stack)
        ls = [v for v in self.visible() if v.t in (INT, FLT, BOOL) and not v.const]
        if ls:
            v = self.pick(ls)
            return E('var', v.t, v=v)
        return None

    def nochar(self, e):
        """Unary operators keep the type char; widen first."""
        if e.t == CHAR or (isinstance(e.t, tuple) and e.t[0] == 'enum'):
            return E('bin', INT, [e, lit(0)], '+')
        return e

    def str_expr(self):
        vs = [v for v in self.visible() if not v.const and is_arr(v.t) and v.t[1] == CHAR and len(v.t[2]) == 1]
        if not self.f.get('cyr_str', 1):      # only what is sure to end with a zero, and at the first one
            vs = []
        if vs and self.ch(0.5) and self.f['str_var']:
            v = self.pick(vs)
            return E('var', v.t, v=v)
        if self.f['strfn'] and self.ch(0.15):
            return E('bi', ('arr', CHAR, (None,)), [self.str_expr(), self.str_expr()], 'strcat')
        return E('str', ('arr', CHAR, (None,)), v=self.pick(['', 'a', 'ab', 'abc', 'привет', 'x y', 'zz9']))

    def flt_leaf(self):
        ls = self.lvals(FLT)
        if ls and self.ch(0.75):
            return self.pick(ls)()
        return self.flt_lit()

    def flt_expr(self, d):
        if d <= 0 or self.ch(0.25):
            return self.flt_leaf()
        o = [(8, 'arith'), (1.5 if self.f['mixed'] else 0, 'mixed'), (1.5 if self.f['un_minus'] else 0, 'neg'),
             (1 if self.f['tern'] and self.f['ternf'] else 0, 'tern'), (1.2, 'call'), (0.5 if self.f['abs'] else 0, 'abs'),
             (0.7 if self.f['builtin_f'] else 0, 'fun')]
        k = self.weighted(o)
        if k == 'arith':
            return E('bin', FLT, [self.flt_expr(d - 1), self.flt_expr(d - 1)], self.weighted([(4, '+'), (4, '-'), (3, '*'), (1.5, '/')]))
        if k == 'mixed':
            x, y = self.int_expr(d - 1), self.flt_expr(d - 1)
            a = [x, y] if self.ch(0.5) else [y, x]
            return E('bin', FLT, a, self.weighted([(4, '+'), (4, '-'), (3, '*'), (1.5, '/')]))
        if k == 'neg':
            return E('un', FLT, [self.flt_expr(d - 1)], '-')
        if k == 'abs':
            return E('un', FLT, [self.flt_expr(d - 1)], 'abs')
        if k == 'tern':
            return E('tern', FLT, [self.cond(d - 1), self.flt_expr(d - 1), self.flt_expr(d - 1)])
        if k == 'call':
            return self.pure_call(FLT, d - 1) if self.f['ret_flt'] and self.ch(0.9) and self.any_pure(FLT) else self.flt_leaf()
        fn = self.pick(['sin', 'cos', 'sqrt', 'exp', 'log', 'log10', 'asin'])
        return E('bi', FLT, [self.flt_expr(d - 1)], fn)

    def any_pure(self, t):
        fs = [f for f in self.callable() if f.pure and f.ret == t and not any(
            is_arr(p.t) or is_ptr(p.t) or is_fn(p.t) or is_st(p.t) for p in f.params)]
        return bool(fs) and len(fs) == len([f for f in self.callable() if f.pure and f.ret == t])

    def bool_expr(self, d):
        if d <= 0 or self.ch(0.15):
            ls = self.lvals(BOOL)
            if ls and self.ch(0.8):
                return self.pick(ls)()
            if d <= 0:
                return self.literal(BOOL)
        o = [(6, 'cmp'), (2 if self.f['float'] and self.f['flt_cmp'] else 0, 'fcmp'), (3 if self.f['logic_value'] else 0, 'logic'),
             (1.5 if self.f['log_not'] else 0, 'not'), (0.6 if self.f['bool_eq'] else 0, 'beq'),
             (0.6 if self.f['tern'] and self.f['ternb'] else 0, 'tern'), (0.7 if self.f['ret_bool'] else 0, 'call'),
             (0.4 if self.f['ptr'] and self.f['cmp_ptr'] else 0, 'ptr')]
        k = self.weighted(o)
        if k == 'cmp':
            return E('bin', BOOL, [self.int_expr(d - 1), self.int_expr(d - 1)], self.pick(['<', '>', '<=', '>=', '==', '!=']))
        if k == 'fcmp':
            a, b = self.flt_expr(d - 1), self.flt_expr(d - 1) if self.ch(0.7) else self.int_expr(d - 1)
            return E('bin', BOOL, [a, b], self.pick(['<', '>', '<=', '>=', '==', '!=']))
        if k == 'logic':
            return E('bin', BOOL, [self.cond(d - 1), self.cond(d - 1)], self.pick(['&&', '||']))
        if k == 'not':
            return E('un', BOOL, [self.cond(d - 1)], '!')
        if k == 'beq':
            return E('bin', BOOL, [self.nonconst_bool(d - 1), self.nonconst_bool(d - 1)], self.pick(['==', '!=']))
        if k == 'tern':
            return E('tern', BOOL, [self.cond(d - 1), self.nonconst_bool(d - 1), self.nonconst_bool(d - 1)])
        if k == 'call':
            return self.pure_call(BOOL, d - 1) or self.literal(BOOL)
        if k == 'ptr':
            vs = [v for v in self.visible() if is_ptr(v.t)]
            if vs:
                return E('bin', BOOL, [E('var', ('ptr', self.pick(vs).t), v=self.pick(vs)), E('null', None)], self.pick(['==', '!=']))
        return E('bin', BOOL, [self.int_leaf(), self.int_leaf()], '<')

    def nonconst_bool(self, d):
        while True:
            e = self.bool_expr(d)
            x = e
            while x.k in ('mem', 'idx'):
                x = x.a[0]
            if not (x.k == 'var' and x.v.const):
                return e

    def cond(self, d):
        """A scalar condition: boolean or (as the language allows) integer."""
        if self.has('cond_int', 0.15):
            return self.int_expr(d)
        return self.bool_expr(d)

    # --- side effects ----------------------------------------------------------------------------
    def with_side(self, e, avoid=()):
        """Make one read of a local scalar in a full expression a modification, if no other access can conflict."""
        if not self.f['side'] or not self.ch(0.25):
            return e
        count, nodes = {}, []

        def walk(x, inside):
            if x.k == 'var':
                count[x.v] = count.get(x.v, 0) + 1
                if not inside:
                    nodes.append(x)
            for i, y in enumerate(x.a):
                # not inside address-of, upb, or comma-discards, and not an array or structure name
                walk(y, inside or x.k in ('adr', 'upb', 'com'))
            if x.k == 'callp':
                count[x.v] = 2
        walk(e, False)
        c = [x for x in nodes if count[x.v] == 1 and x.v.t in (INT, FLT) and not (x.v.glob or x.v.addr or x.v.const
             or x.v.counter or x.v.ro) and x.v not in avoid and (x.v.t == INT or self.f['inc_flt'])]
        if not c:
            return e
        x = self.pick(c)
        v = E('var', x.v.t, v=x.v)
        k = self.r.random()
        if k < 0.6:
            n = E('inc', x.v.t, [v], self.pick(['x++', 'x--', '++x', '--x']))
        elif k < 0.8:
            n = E('asg', x.v.t, [v, self.literal(x.v.t)], self.pick(['+=', '-=', '=']))
        elif x.v.t == INT and self.f['casg_bit']:
            n = E('asg', INT, [v, lit(self.r.randint(1, 7))], self.pick(['&=', '|=', '^=', '%=', '>>=']))
        else:
            n = E('asg', x.v.t, [v, self.literal(x.v.t)], '=')
        if e is x:
            return n
        self.replace(e, x, n)
        return e

    def replace(self, e, x, n):
        for i, y in enumerate(e.a):
            if y is x:
                e.a[i] = n
                return True
            if self.replace(y, x, n):
                return True
        return False

    # --- statements ------------------------------------------------------------------------------
    def block(self, budget, extra=None):
        self.scopes.append(list(extra or []))
        out = []
        n = self.r.randint(1, 4)
        for _ in range(n):
            if budget <= 0:
                break
            b = max(1, budget // n)
            out += self.stmt(b)
        self.scopes.pop()
        return out

    def body(self, budget, extra=None):
        """The body of a control statement: block or single statement."""
        b = self.block(budget, extra)
        if len(b) == 1 and b[0].k not in ('decl', 'decls', 'structdecl') and self.ch(0.4):
            return b[0]
        return St('block', b)

    def stmt(self, budget):
        o = [(3.5, 'decl'), (6, 'assign'), (1.5, 'incr')]
        if not self.pure:
            o.append((3, 'print'))
            o.append((1.5, 'proc'))
        if budget >= 3:
            o += [(2.5, 'if'), (2.5, 'for')]
            if self.f['whil']:
                o.append((1.2, 'while'))
            if self.f['do']:
                o.append((1, 'do'))
            if self.f['switch'] and (self.f['nested_switch'] or not self.in_switch):
                o.append((1.2, 'switch'))
            if self.f['block']:
                o.append((0.5, 'block'))
        if self.loops:
            if self.f['brk']:
                o.append((0.5, 'break'))
            if self.f['cont']:
                o.append((0.5, 'continue'))
        if self.f['early_ret'] and budget >= 2:
            o.append((0.35, 'return'))
        if self.f['empty_stmt']:
            o.append((0.15, 'empty'))
        k = self.weighted(o)
        return getattr(self, 's_' + k)(budget)

    def new_local(self, t, **k):
        return V(self.fresh(), t, level=len(self.scopes), **k)

    def s_decl(self, budget):
        if self.has('arr', 0.22):
            t = self.arr_type()
            return self.decl_array(t)
        if self.has('struct', 0.16) and self.structs:
            r = self.decl_struct(('st', self.pick(self.structs)))
            if r:
                return r
        if self.has('ptr', 0.14):
            r = self.decl_ptr()
            if r:
                return r
        if self.has('str', 0.06) and self.f['str_var']:
            txt = self.pick(['abc', 'xyz', 'привет', 'q', 'a b', 'Zz'] if self.f.get('cyr_str', 1) else ['abc', 'xyz', 'a b', 'Zz'])
            v = self.new_local(('arr', CHAR, (len(txt),)))
            if not self.f.get('cyr_str', 1):
                self.unbounded.append(v)
            self.scopes[-1].append(v)
            return [St('decl', [E('str', v.t, v=txt)], v)]
        t = self.scalar_type()
        init = self.with_side(self.expr(t, self.r.randint(1, 3)))
        const = self.has('const', 0.1)
        v = self.new_local(t, addr=self.f['ptr'] and self.ch(0.3) and not const, const=const)
        if self.has('uninit_decl', 0.1) and not const:
            self.scopes[-1].append(v)
            return [St('decl', [], v), St('expr', [E('asg', t, [E('var', t, v=v), init], '=')])]
        n = self.local_name()
        if n not in self.names_in(init):
            v.name = n
        self.scopes[-1].append(v)
        return [St('decl', [init], v)]

    def names_in(self, e):
        r = {e.v.name} if isinstance(e.v, (V, F)) else set()
        for x in e.a:
            r |= self.names_in(x)
        return r

    def init_list(self, t, dims):
        if len(dims) == 1:
            return E('init', ('arr', t, dims), [self.struct_init(t, 1) if is_st(t) else self.expr(t, 1) for _ in range(dims[0])])
        return E('init', ('arr', t, dims), [self.init_list(t, dims[1:]) for _ in range(dims[0])])

    def struct_init(self, t, d):
        es = []
        for n, ft in t[1].fields:
            if is_st(ft):
                e = self.struct_init(ft, d)
            elif is_ptr(ft):
                o = self.objects(ft[1])
                e = E('adr', ft, [self.pick(o)()]) if o else None
            elif is_arr(ft):
                e = None
            else:
                e = self.expr(ft, d)
            if e is None:
                return None
            es.append(e)
        return E('init', t, es)

    def decl_array(self, t):
        if is_st(t[1]) and (t[1][1].has_arr):
            return []
        if self.has('vla', 0.3) and t[1] in (INT, FLT, BOOL, CHAR) and 1 < len(t[2]) < 4:
            return self.decl_vla(t)
        if self.has('vla', 0.15) and t[1] in (INT, FLT, BOOL, CHAR) and len(t[2]) == 1:
            b = E('bin', INT, [E('bin', INT, [self.expr(INT, 1), lit(3)], '&'), lit(self.r.randint(1 if self.f.get('param_upb', 1) else 2, 4))], '+')
            v = self.new_local(('arr', t[1], (None,)), bound=[b])
            c = V(self.fresh('i'), INT, counter=True, level=len(self.scopes))
            before = None if self.f.get('zero_arr', 1) else self.expr(t[1], 1)     # cannot read the elements
            self.scopes[-1].append(v)
            loop = St('for', [St('decl', [lit(0)], c),
                              E('bin', BOOL, [E('var', INT, v=c), E('upb', INT, [E('var', v.t, v=v)])], '<'),
                              E('inc', INT, [E('var', INT, v=c)], 'x++'),
                              St('expr', [E('asg', t[1], [E('idx', t[1], [E('var', v.t, v=v), E('var', INT, v=c)]),
                                                          before or self.expr(t[1], 1)], '=')])])
            return [St('decl', [], v), loop]
        with_init = self.f['arr_init'] and self.ch(0.6)
        if is_st(t[1]) and self.ptr_in(t[1][1]):
            return []
        const = with_init and self.has('const', 0.08) and not is_st(t[1])
        v = self.new_local(t, addr=self.f['ptr'] and self.ch(0.3) and not const, const=const)
        if with_init:
            init = self.init_list(t[1], t[2])
            self.scopes[-1].append(v)
            return [St('decl', [init], v)]
        if self.f.get('zero_arr', 1) and not is_st(t[1]):
            self.scopes[-1].append(v)
            return [St('decl', [], v)]     # elements are zero
        if self.f.get('zero_arr', 1):
            self.scopes[-1].append(v)
            return [St('decl', [], v)] + self.fill(E('var', t, v=v), t)
        body = self.fill(E('var', t, v=v), t)     # the elements cannot be read before they are assigned
        self.scopes[-1].append(v)
        return [St('decl', [], v)] + body

    def decl_vla(self, t):
        """An array of several dimensions, every bound known at run time only."""
        out, bounds, least = [], [], []
        for _ in t[2]:
            n = self.r.randint(2, 3)
            if bounds and self.ch(0.3):
                i = self.r.randrange(len(bounds))
                b, n = E('bin', INT, [clone(bounds[i]), lit(1)], '+'), least[i] + 1
            else:
                w = V(self.fresh('n'), INT, counter=True, level=len(self.scopes))
                out.append(St('decl', [E('bin', INT, [E('bin', INT, [self.expr(INT, 1), lit(1)], '&'), lit(n)], '+')], w))
                b = E('var', INT, v=w)
            bounds.append(b)
            least.append(n)
        v = self.new_local(('arr', t[1], (None,) * len(bounds)), bound=bounds)
        v.least = least
        e, tt = E('var', v.t, v=v), v.t
        cs = []
        for b in bounds:
            c = V(self.fresh('i'), INT, counter=True, level=99)
            cs.append((c, b))
            tt = ('arr', t[1], tt[2][1:]) if len(tt[2]) > 1 else t[1]
            e = E('idx', tt, [e, E('var', INT, v=c)])
        val = self.expr(t[1], 1)
        if t[1] == INT and self.ch(0.7):
            for c, _ in cs:
                val = E('bin', INT, [E('bin', INT, [val, lit(255)], '&'), E('bin', INT, [E('var', INT, v=c), lit(self.r.randint(1, 9))], '*')], '+')
        body = St('expr', [E('asg', t[1], [e, val], '=')])
        for c, b in reversed(cs):
            body = St('for', [St('decl', [lit(0)], c), E('bin', BOOL, [E('var', INT, v=c), clone(b)], '<'),
                              E('inc', INT, [E('var', INT, v=c)], 'x++'), body])
        self.scopes[-1].append(v)
        return out + [St('decl', [], v), body]

    def fill(self, base, t):
        """Loops assigning every element."""
        cs, e = [], base
        tt = t
        for n in t[2]:
            c = V(self.fresh('i'), INT, counter=True, level=99, bound=n)
            cs.append((c, n))
            rest = tt[2][1:]
            tt = ('arr', t[1], rest) if rest else t[1]
            e = E('idx', tt, [e, E('var', INT, v=c)])
        if is_st(t[1]):
            val = None
            def assign(e, t):
                for n, ft in t[1].fields:
                    if is_st(ft) and not self.f.get('zero_arr', 1):
                        yield from assign(E('mem', ft, [clone(e)], n), ft)
                    elif not isinstance(ft, tuple):
                        yield St('expr', [E('asg', ft, [E('mem', ft, [clone(e)], n), self.literal(ft)], '=')])
            body = St('block', list(assign(e, t[1])))
        else:
            val = self.expr(t[1], 1)
            body = St('expr', [E('asg', t[1], [e, val], '=')])
        for c, n in reversed(cs):
            body = St('for', [St('decl', [lit(0)], c), E('bin', BOOL, [E('var', INT, v=c), lit(n)], '<'),
                              E('inc', INT, [E('var', INT, v=c)], 'x++'), body])
        return [body]

    def flat(self, t):
        return [(n, ft) for n, ft in t[1].fields if not isinstance(ft, tuple)]

    def decl_struct(self, t):
        s = t[1]
        if s.has_arr:
            v = self.new_local(t, addr=self.f['ptr'] and self.ch(0.3))
            out = [St('decl', [], v)]
            for n, ft in s.fields:
                if is_arr(ft):
                    continue          # elements are zero
                if is_st(ft):
                    if ft[1].has_arr:
                        return None
                    e = self.struct_value(ft, 1)
                elif is_ptr(ft):
                    o = self.objects(ft[1])
                    e = E('adr', ft, [self.pick(o)()]) if o else None
                else:
                    e = self.expr(ft, 1)
                if e is None:
                    return None
                out.append(St('expr', [E('asg', ft, [E('mem', ft, [E('var', t, v=v)], n), e], '=')]))
            self.scopes[-1].append(v)
            return out
        init = self.struct_init(t, 1)
        if self.f['struct_asg'] and self.ch(0.3):
            init = self.struct_value(t, 2) or init
        if init is None:
            return None
        v = self.new_local(t, addr=self.f['ptr'] and self.ch(0.3))
        self.scopes[-1].append(v)
        return [St('decl', [init], v)]

    def decl_ptr(self):
        if self.pure:
            return None
        t = self.pick([INT, INT, FLT, BOOL, CHAR] + [('st', s) for s in self.structs])
        if t in (FLT, BOOL, CHAR) and not self.f[{FLT: 'float', BOOL: 'bool', CHAR: 'char'}[t]]:
            t = INT
        o = self.objects(t)
        if not o:
            return None
        v = self.new_local(('ptr', t), ro=True)
        self.scopes[-1].append(v)
        return [St('decl', [E('adr', v.t, [self.pick(o)()])], v)]

    def s_assign(self, budget):
        x = self.r.random()
        if self.has('struct_asg', 0.1) and self.structs:
            t = ('st', self.pick(self.structs))
            if not t[1].has_arr and not self.ptr_in(t[1]):
                ls = self.lvals(t, True)
                if ls:
                    rhs = self.struct_value(t, 2)
                    if rhs:
                        return [St('expr', [E('asg', t, [self.pick(ls)(), rhs], '=')])]
        if self.has('ptr', 0.08) and not self.pure:
            r = self.ptr_assign()
            if r:
                return r
        t = self.scalar_type()
        ls = self.lvals(t, True)
        if not ls:
            t = INT
            ls = self.lvals(INT, True)
            if not ls:
                return self.s_decl(budget)
        lv = self.pick(ls)()
        simple = lv.k == 'var'
        d = self.r.randint(1, 4)
        if x < 0.55 or t in (BOOL, CHAR) or (isinstance(t, tuple)):
            op = '='
        elif t == FLT:
            op = self.pick(['+=', '-=', '*=', '/=']) if self.f['casg_flt'] and (simple or self.f['casg_elem']) else '='
        else:
            ops = ['+=', '-=', '*=', '/=', '%=']
            if self.f['casg_bit']:
                ops += ['&=', '|=', '^=', '<<=', '>>=']
            op = self.pick(ops) if simple or self.f['casg_elem'] else '='
        if op in ('<<=', '>>='):
            rhs = lit(self.r.randint(0, 5))
        elif t == FLT and self.has('int_to_flt', 0.15):
            rhs = self.int_expr(d - 1)
        else:
            rhs = self.expr(t, d)
        avoid = ()
        if op == '=' and simple and t == INT and self.has('chain', 0.1):
            l2 = [v for v in self.visible() if v.t == INT and v is not lv.v and not (v.const or v.counter or v.ro
                  or (self.pure and v.glob))]
            if l2:
                v2 = self.pick(l2)
                return [St('expr', [E('asg', INT, [lv, E('asg', INT, [E('var', INT, v=v2), rhs], '=')], '=')])]
        e = E('asg', t, [lv, rhs], op)
        e = self.with_side(e, self.lv_vars(lv))
        return [St('expr', [e])]

    def lv_vars(self, lv):
        r = []

        def walk(x):
            if x.k == 'var':
                r.append(x.v)
            for y in x.a:
                walk(y)
        walk(lv)
        return r

    def ptr_assign(self):
        # pointer members and elements of pointer arrays get a new target of longer life
        out = []
        for v in self.visible():
            if v.const or v.counter or v.glob:
                continue
            if is_st(v.t) and not v.ro:
                for n, ft in v.t[1].fields:
                    if is_ptr(ft):
                        out.append((v, E('mem', ft, [E('var', v.t, v=v)], n), ft))
        if not out:
            return None
        v, lv, ft = self.pick(out)
        o = []
        for w in self.visible():
            if w.t == ft[1] and w.addr and (w.glob or w.level < v.level) and not (w.ro or w.const):
                o.append(w)
        if not o:
            return None
        w = self.pick(o)
        return [St('expr', [E('asg', ft, [lv, E('adr', ft, [E('var', w.t, v=w)])], '=')])]

    def s_incr(self, budget):
        t = FLT if self.f['float'] and self.f['inc_flt'] and self.ch(0.2) else INT
        ls = self.lvals(t, True)
        if not ls:
            return self.s_assign(budget)
        lv = self.pick(ls)()
        if lv.k != 'var' and not self.f['inc_elem']:
            return self.s_assign(budget)
        return [St('expr', [E('inc', t, [lv], self.pick(['x++', 'x--', '++x', '--x']))])]

    def s_print(self, budget):
        x = self.r.random()
        if self.has('print', 0.18):
            c = [self.expr(self.scalar_type(), 2)]
            if self.has('struct_print', 0.3) and self.structs:
                t = ('st', self.pick(self.structs))
                v = self.struct_value(t, 1) if not t[1].has_arr and not self.ptr_in(t[1]) else None
                if v:
                    c = [v]
            elif self.has('arr_print', 0.3):
                vs = [v for v in self.visible() if is_arr(v.t) and not is_st(v.t[1])]
                if vs:
                    v = self.pick(vs)
                    c = [E('var', v.t, v=v)]
            return [St('print', c)]
        if self.has('printid', 0.08):
            vs = [v for v in self.visible() if v.t in (INT, FLT, BOOL, CHAR)]
            if vs:
                return [St('printid', [], self.pick(vs))]
        n = self.weighted([(4, 1), (3, 2), (2, 3), (0.5, 6)])
        fmt, args = '', []
        for i in range(n):
            k = self.weighted([(6, 'i'), (3 if self.f['float'] else 0, 'f'), (1 if self.f['char'] else 0, 'c'),
                               (0.6 if self.f['str'] else 0, 's')])
            if k == 'i':
                args.append(self.int_expr(self.r.randint(0, 3)))
            elif k == 'f':
                args.append(self.flt_expr(self.r.randint(0, 3)) if self.ch(0.9) or not self.f['int_to_flt'] else self.int_expr(1))
            elif k == 'c':
                args.append(self.expr(CHAR, 1))
            else:
                args.append(self.str_expr())
            fmt += self.pick(['', ' ', 'v=', '%%', ': ']) + '%' + k
        if self.ch(0.05):
            fmt += self.pick([' итог', '\t'])
        e = St('printf', args, fmt + self.pick(['\n', '\n', '\n', ' ', ';']))
        if len(args) == 1:
            e.a[0] = self.with_side(args[0])
        return [e]

    def s_proc(self, budget):
        fs = [f for f in self.callable() if not f.pure]
        if not fs:
            return self.s_print(budget)
        f = self.pick(fs)
        c = self.call(f, 2)
        if c is None:
            return self.s_print(budget)
        if f.ret == VOID or self.ch(0.2):
            return [St('expr', [c])]
        if f.ret in (INT, FLT, BOOL, CHAR) or is_st(f.ret):
            ls = [v for v in self.visible() if v.t == f.ret and not (v.const or v.counter or v.ro)]
            if ls:
                v = self.pick(ls)
                return [St('expr', [E('asg', v.t, [E('var', v.t, v=v), c], '=')])]
            v = self.new_local(f.ret)
            self.scopes[-1].append(v)
            return [St('decl', [c], v)]
        return [St('expr', [c])]

    def s_if(self, budget):
        c = self.with_side(self.cond(self.r.randint(1, 3)))
        a = [c, self.body(budget // 2)]
        if self.ch(0.5):
            a.append(self.body(budget // 2))
        return [St('if', a)]

    def counter(self, n):
        return V(self.fresh('i'), INT, counter=True, level=len(self.scopes) + 1, bound=n)

    def loop_body(self, budget, extra, outer_sw):
        self.loops += 1
        sw, self.in_switch = self.in_switch, False
        b = self.body(budget, extra)
        self.in_switch = sw
        self.loops -= 1
        return b

    def s_for(self, budget):
        n = self.r.randint(1, 4)
        c = self.counter(n)
        var = E('var', INT, v=c)
        decl_inside = self.f['decl_in_loop'] or True
        down = self.ch(0.25)
        pre = []
        if down:
            init = St('decl', [lit(n - 1)], c)
            cond = E('bin', BOOL, [var, lit(0)], '>=')
            inc = E('inc', INT, [clone(var)], self.pick(['x--', '--x']))
        else:
            init = St('decl', [lit(0)], c)
            cond = E('bin', BOOL, [var, lit(n)], self.pick(['<', '!=']))
            inc = E('inc', INT, [clone(var)], self.pick(['x++', '++x'])) if self.ch(0.8) else E('asg', INT, [clone(var), lit(1)], '+=')
        if self.has('logic_value', 0.15) and self.f['impure_cond']:
            cond = E('bin', BOOL, [cond, self.bool_expr(1)], '&&')
        if self.ch(0.2):
            # counter declared outside
            pre = [St('decl', [lit(0)], c)]
            init = St('expr', [E('asg', INT, [clone(var), init.a[0]], '=')])
            self.scopes[-1].append(c)
            body = self.loop_body(budget - 1, [], False)
        else:
            body = self.loop_body(budget - 1, [c], False) if True else None
        if self.has('for_nocond', 0.06):
            stop = St('if', [E('un', BOOL, [cond], '!'), St('break')])
            if body.k != 'block':
                body = St('block', [body])
            body.a.insert(0, stop)
            cond = None
        return pre + [St('for', [init, cond, inc, body])]

    def s_while(self, budget):
        n = self.r.randint(1, 4)
        c = V(self.fresh('i'), INT, counter=True, level=len(self.scopes), bound=None)
        self.scopes[-1].append(c)
        var = E('var', INT, v=c)
        body = self.loop_body(budget - 1, [], False)
        form = self.r.randrange(3)
        decl = St('decl', [lit(n)], c)
        if form == 0:
            cond = E('bin', BOOL, [E('inc', INT, [var], 'x--'), lit(0)], '>')
        elif form == 1:
            cond = E('bin', BOOL, [E('inc', INT, [var], '--x'), lit(0)], '>=')
        else:
            if body.k != 'block':
                body = St('block', [body])
            body.a.insert(0, St('expr', [E('inc', INT, [var], self.pick(['x--', '--x']))]))
            cond = E('bin', BOOL, [clone(var), lit(0)], '>')
        return [decl, St('while', [cond, body])]

    def s_do(self, budget):
        n = self.r.randint(1, 3)
        c = V(self.fresh('i'), INT, counter=True, level=len(self.scopes), bound=None)
        self.scopes[-1].append(c)
        var = E('var', INT, v=c)
        body = self.loop_body(budget - 1, [], False)
        if self.ch(0.5):
            cond = E('bin', BOOL, [E('inc', INT, [var], '--x'), lit(0)], '>')
        else:
            if body.k != 'block':
                body = St('block', [body])
            body.a.insert(0, St('expr', [E('asg', INT, [var, lit(1)], '-=')]))
            cond = E('bin', BOOL, [clone(var), lit(0)], '>')
        return [St('decl', [lit(n)], c), St('do', [cond, body])]

    def s_switch(self, budget):
        n = self.r.randint(1, 5)
        vals = self.r.sample(range(-2, 9), n)
        use_char = False
        sel = self.int_expr(2)
        if self.ch(0.6):
            sel = E('bin', INT, [sel, lit(7)], '&')
        en = None
        if self.enums and self.has('enum', 0.2):
            en = self.pick(self.enums)
        sw, self.in_switch = self.in_switch, True
        lp = self.loops
        groups = []
        dpos = self.r.randint(0, n) if self.f['default_any'] else n
        has_default = self.ch(0.7)
        labels = []
        for i, v in enumerate(vals):
            if has_default and i == dpos:
                labels.append(None)
            labels.append(lit(v) if not self.ch(0.15) else E('bin', INT, [lit(v - 1), lit(1)], '+'))
        if has_default and dpos == n:
            labels.append(None)
        if en:
            seen = set()
            labels = []
            for it in self.r.sample(en.items, min(len(en.items), 3)):
                if it[1] not in seen:
                    seen.add(it[1])
                    labels.append(E('enum', ('enum', en), v=it))
            if has_default:
                labels.append(None)
        for i, l in enumerate(labels):
            if self.f['fall'] and self.ch(0.2) and i + 1 < len(labels):
                groups.append((l, None, False))
                continue
            self.scopes.append([])
            # a break inside belongs to the switch: do not let statements of this level break the loop around
            self.loops = 0
            body = []
            for _ in range(self.r.randint(1, 2)):
                body += self.stmt(max(1, (budget - 1) // len(labels)))
            if any(s.k in ('decl', 'structdecl') for s in body):
                body = [St('block', body)]
            self.scopes.pop()
            self.loops = lp
            brk = not (self.f['fall'] and self.ch(0.2))
            if lp and self.f['cont'] and self.ch(0.05):
                body.append(St('continue'))
            groups.append((l, body, brk))
        self.in_switch = sw
        return [St('switch', [sel], groups)]

    def s_block(self, budget):
        return [St('block', self.block(budget - 1))]

    def s_break(self, budget):
        return [St('if', [self.cond(1), St('break')])]

    def s_continue(self, budget):
        return [St('if', [self.cond(1), St('continue')])]

    def s_return(self, budget):
        if self.fn is None:
            if not self.f['ret_in_main']:
                return []
            return [St('if', [self.cond(2), St('return', [lit(0)] if not self.void_main else [])])]
        if self.fn.ret == VOID:
            return [St('if', [self.cond(2), St('return')])]
        e = self.ret_value()
        if e is None:
            return []
        return [St('if', [self.cond(2), St('return', [e])])]

    def ret_value(self):
        t = self.fn.ret
        if is_st(t):
            return self.struct_value(t, 1)
        return self.expr(t, 2)

    def s_empty(self, budget):
        return [St('empty')]

    # --- functions -------------------------------------------------------------------------------
    def func(self, i):
        pure = self.ch(0.6) or not self.f['proc']
        rts = [(5, INT), (2 if self.f['float'] and self.f['ret_flt'] else 0, FLT), (1 if self.f['bool'] and self.f['ret_bool'] else 0, BOOL),
               (0.7 if self.f['char'] and self.f['ret_char'] else 0, CHAR), (0 if pure else 3, VOID)]
        ss = [s for s in self.structs if not s.has_arr and not self.ptr_in(s)]
        if ss and self.f['ret_struct']:
            rts.append((1, ('st', self.pick(ss))))
        ret = self.weighted(rts)
        f = F(self.fresh('f'), ret, [], pure)
        ps = []
        for _ in range(self.weighted([(1, 0), (3, 1), (3, 2), (2, 3), (0.5, 6)])):
            x = self.r.random()
            ro = pure
            if x < 0.14 and self.f['arr_param']:
                at = self.arr_type(dims=self.pick([1, 1, 2]) if self.f['arr2'] and self.f.get('param_upb', 1) else 1)
                if is_st(at[1]):
                    at = ('arr', INT, at[2])
                t = ('arr', at[1], (None,) * len(at[2]))
                ps.append(V(self.fresh('p'), t, ro=ro, level=1))
                if not self.f.get('param_upb', 1):
                    self.unbounded.append(ps[-1])
            elif x < 0.24 and self.f['ptr_param'] and self.f['ptr'] and not pure:
                t = ('ptr', self.pick([INT, INT, FLT if self.f['float'] else INT] + [('st', s) for s in self.structs]))
                ps.append(V(self.fresh('p'), t, ro=True, level=1))
            elif x < 0.34 and self.f['struct_param'] and ss:
                ps.append(V(self.fresh('p'), ('st', self.pick(ss)), level=1))
            elif x < 0.40 and self.f['fnparam']:
                ps.append(V(self.fresh('p'), ('fn', INT, (INT,) * self.pick([1, 1, 2])), ro=True, level=1))
            else:
                t = self.scalar_type()
                if t == BOOL and not self.f['typ_bool_param']:
                    t = INT
                ps.append(V(self.fresh('p'), t, level=1, addr=False))
        if pure and self.has('rec', 0.25) and ret in (INT, FLT, BOOL):
            f.rec = True
            ps.insert(0, V(self.fresh('n'), INT, ro=True, level=1, counter=True))
        f.params = ps
        self.fn, self.pure = f, pure
        self.scopes = [list(ps), []]
        self.loops, self.in_switch = 0, False
        body = []
        # two-dimensional array parameters are only read with in-range literals of their own bounds
        if f.rec:
            n = ps[0]
            base = self.ret_value()
            body.append(St('if', [E('bin', BOOL, [E('var', INT, v=n), lit(0)], '<='), St('return', [base])]))
        for _ in range(self.r.randint(0, 3)):
            body += self.stmt(max(2, int(6 * self.size)))
        if ret != VOID:
            e = self.ret_value()
            if e is None:
                v = self.decl_struct(ret)
                if v is None:
                    return None
                body += v
                e = E('var', ret, v=self.scopes[-1][-1])
            if f.rec:
                args = [E('bin', INT, [E('var', INT, v=ps[0]), lit(1)], '-')]
                ok = True
                for p in ps[1:]:
                    if is_fn(p.t) or is_arr(p.t) or is_ptr(p.t):
                        a = E('var', p.t, v=p)
                        if p not in self.visible():
                            ok = False
                    else:
                        a = self.argument(p, 1)
                    if a is None:
                        ok = False
                        break
                    args.append(a)
                names = {v.name for sc in self.scopes for v in sc}
                if ok and f.name not in names:
                    c = E('call', ret, args, f)
                    if ret == BOOL:
                        e = E('bin', BOOL, [e, c], self.pick(['&&', '||'])) if self.f['logic_value'] else c
                    else:
                        e = E('bin', ret, [e, c], self.pick(['+', '-']))
            elif pure:
                e = self.with_side(e)
            body.append(St('return', [e]))
        f.body = body
        self.fn = None
        return f

    def program(self):
        r = self.r
        if self.f['enum']:
            for _ in range(r.randint(0, 2)):
                items, val = [], 0
                for _ in range(r.randint(1, 4)):
                    explicit = self.ch(0.3)
                    if explicit:
                        val = r.randint(-5, 40)
                    items.append((self.fresh('E'), val, explicit))
                    val += 1
                en = En(self.fresh('T'), items)
                self.enums.append(en)
                self.p.items.append(('enum', en))
        self.scopes, self.pure, self.fn, self.loops, self.in_switch = [], False, None, 0, False
        if self.f['struct']:
            for _ in range(r.randint(0, 3)):
                s = self.make_struct()
                self.structs.append(s)
                self.p.items.append(('struct', s))
        for _ in range(r.randint(0, 5)):
            self.glob()
        for i in range(self.weighted([(1, 0), (2, 1), (3, 2), (2, 3), (1, 5)])):
            f = self.func(i)
            if f is None:
                continue
            if self.has('predecl', 0.15) and not any(is_st(p.t) for p in f.params):
                f.predecl = True
                at = r.randint(0, len(self.p.items))
                while at < len(self.p.items) and any(x[0] in ('struct', 'enum') for x in self.p.items[at:]):
                    at += 1
                self.p.items.insert(at, ('predecl', f))
            self.funcs.append(f)
            self.p.items.append(('func', f))
            if self.ch(0.2):
                self.glob()
        # a predeclared function may be defined after main
        self.pure, self.fn = False, None
        self.void_main = bool(self.f['void_main'] and self.ch(0.5))
        self.scopes, self.loops, self.in_switch = [[]], 0, False
        body = []
        for _ in range(r.randint(3, max(3, int(9 * self.size)))):
            body += self.stmt(max(3, int(10 * self.size)))
        for v in self.visible():
            body += self.dump(v)
        if not self.void_main:
            body.append(St('return', [lit(0)]))
        self.p.main = (self.void_main, body)
        self.late = []
        its = self.p.items
        for it in list(its):
            if it[0] == 'func' and it[1].predecl and self.ch(0.5):
                its.remove(it)
                self.late.append(it)
        self.p.late = self.late
        return self.p

    def dump(self, v):
        if intlike(v.t):
            return [St('printf', [E('var', v.t, v=v)], '%i\n')]
        if v.t == FLT:
            return [St('printf', [E('var', v.t, v=v)], '%f\n')]
        if v.t == BOOL:
            return [St('if', [E('var', BOOL, v=v), St('printf', [], 'T\n'), St('printf', [], 'F\n')])]
        if is_st(v.t):
            out = []
            for n, ft in v.t[1].fields:
                if ft == INT or ft == FLT:
                    out.append(St('printf', [E('mem', ft, [E('var', v.t, v=v)], n)], '%i\n' if ft == INT else '%f\n'))
            return out
        if is_arr(v.t) and v.t[1] in (INT, FLT) and v.t[2][0] is not None:
            c, e, t = [], E('var', v.t, v=v), v.t
            for n in v.t[2]:
                w = V(self.fresh('i'), INT, counter=True, bound=n)
                c.append((w, n))
                rest = t[2][1:]
                t = ('arr', v.t[1], rest) if rest else v.t[1]
                e = E('idx', t, [e, E('var', INT, v=w)])
            s = St('printf', [e], '%i ' if v.t[1] == INT else '%f ')
            for w, n in reversed(c):
                s = St('for', [St('decl', [lit(0)], w), E('bin', BOOL, [E('var', INT, v=w), lit(n)], '<'),
                               E('inc', INT, [E('var', INT, v=w)], 'x++'), s])
            return [s]
        return []

    def glob(self):
        r = self.r
        self.scopes, self.pure, self.fn = [], True, None
        x = r.random()
        if x < 0.25 and self.f['arr'] and self.f['glob_arr']:
            t = self.arr_type()
            if is_st(t[1]):
                t = ('arr', INT, t[2])
            init = self.const_init(t[1], t[2]) if self.ch(0.6) or not self.f.get('zero_arr', 1) else None
        elif x < 0.35 and self.f['glob_struct'] and self.structs:
            t = ('st', self.pick(self.structs))
            if t[1].has_arr or self.ptr_in(t[1]):
                t, init = INT, self.literal(INT)
            else:
                init = self.const_struct(t) if self.ch(0.7) else None
        else:
            t = self.scalar_type()
            if t == FLT and not self.f['glob_flt'] or t == BOOL and not self.f['glob_bool'] or t == CHAR and not self.f['glob_char']:
                t = INT
            init = self.literal(t) if self.ch(0.7) else None
            if init is not None and t == INT and self.has('glob_init_expr', 0.3):
                init = self.expr(INT, 2)
        v = V(self.fresh('g'), t, glob=True, addr=self.f['ptr'] and self.ch(0.3))
        self.globs.append(v)
        self.p.items.append(('var', v, init))

    def const_init(self, t, dims):
        if len(dims) == 1:
            return E('init', ('arr', t, dims), [self.literal(t) for _ in range(dims[0])])
        return E('init', ('arr', t, dims), [self.const_init(t, dims[1:]) for _ in range(dims[0])])

    def const_struct(self, t):
        return E('init', t, [self.const_struct(ft) if is_st(ft) else self.literal(ft) for _, ft in t[1].fields])


def clone(e):
    n = E(e.k, e.t, [clone(x) for x in e.a], e.v)
    n.paren = e.paren
    return n


# ---------------------------------------------------------------------------------------------------
# printing
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6,
        '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
ESC = {'\n': '\\n', '\t': '\\t', '"': '\\"', '\\': '\\\\'}


def fnum(v):
    s = repr(v)
    if 'e' in s:
        return s
    return s


class Printer:
    def __init__(self, rng=None, extra_parens=0.0):
        self.r = rng
        self.xp = extra_parens
        self.o = []
        self.ind = 0

    def line(self, s):
        self.o.append('\t' * self.ind + s)
        return len(self.o)

    def base(self, t):
        if isinstance(t, tuple):
            if t[0] == 'st':
                return 'struct ' + t[1].name
            if t[0] == 'enum':
                return 'enum ' + t[1].name
            if t[0] in ('arr', 'ptr'):
                return self.base(t[1])
            if t[0] == 'fn':
                return self.base(t[1])
        return t

    def decl(self, v):
        t, s = v.t, v.name
        c = 'const ' if v.const else ''
        if is_arr(t):
            dims = v.bound if v.bound and not isinstance(v.bound, int) else None
            for i, n in enumerate(t[2]):
                s += '[%s]' % (self.e(dims[i], 0) if n is None and dims else n)
            return c + self.base(t) + ' ' + s
        if is_ptr(t):
            return self.base(t) + ' *' + s
        return c + self.base(t) + ' ' + s

    def param(self, v, named=True):
        t = v.t
        n = (' ' + v.name) if named else ''
        if is_arr(t):
            return self.base(t) + n + '[]' * len(t[2])
        if is_ptr(t):
            return self.base(t) + ' *' + n.strip()
        if is_fn(t):
            return '%s (*%s)(%s)' % (t[1], n.strip(), ', '.join(t[2]))
        return self.base(t) + n

    def e(self, e, p):
        s, q = self.e0(e)
        if q < p or (q < 20 and (e.paren or (self.xp and self.r.random() < self.xp))):
            return '(' + s + ')'
        return s

    def e0(self, e):
        k = e.k
        if k == 'int':
            return str(e.v), 20
        if k == 'flt':
            return fnum(e.v), 20
        if k == 'chr':
            return "'" + {'\n': '\\n', "'": "\\'", '\\': '\\\\'}.get(e.v, e.v) + "'", 20
        if k == 'bool':
            return ('true' if e.v else 'false'), 20
        if k == 'null':
            return 'null', 20
        if k == 'enum':
            return e.v[0], 20
        if k == 'str':
            return '"' + ''.join(ESC.get(c, c) for c in e.v) + '"', 20
        if k in ('var', 'fn'):
            return e.v.name, 20
        if k == 'idx':
            return '%s[%s]' % (self.e(e.a[0], 15), self.e(e.a[1], 0)), 16
        if k == 'mem':
            return '%s.%s' % (self.e(e.a[0], 15), e.v), 16
        if k == 'arr':
            return '%s->%s' % (self.e(e.a[0], 15), e.v), 16
        if k == 'drf':
            return '*' + self.e(e.a[0], 14), 14
        if k == 'adr':
            return '&' + self.e(e.a[0], 14), 14
        if k == 'bin':
            p = PREC[e.v]
            return '%s %s %s' % (self.e(e.a[0], p), e.v, self.e(e.a[1], p + 1)), p
        if k == 'un':
            if e.v == 'abs':
                return 'abs(%s)' % self.e(e.a[0], 0), 16
            s = self.e(e.a[0], 14)
            if s[0] == '-' and e.v == '-':
                s = ' ' + s
            return e.v + s, 14
        if k == 'inc':
            if e.v[0] == 'x':
                return self.e(e.a[0], 15) + e.v[1:], 15
            return e.v[:2] + self.e(e.a[0], 14), 14
        if k == 'asg':
            return '%s %s %s' % (self.e(e.a[0], 14), e.v, self.e(e.a[1], -1)), -1
        if k == 'tern':
            return '%s ? %s : %s' % (self.e(e.a[0], 1), self.e(e.a[1], 0), self.e(e.a[2], 0)), 0
        if k == 'com':
            return '%s, %s' % (self.e(e.a[0], -1), self.e(e.a[1], -1)), -2
        if k == 'call' or k == 'callp':
            return '%s(%s)' % (e.v.name, ', '.join(self.e(x, -1) for x in e.a)), 16
        if k == 'bi':
            return '%s(%s)' % (e.v, ', '.join(self.e(x, -1) for x in e.a)), 16
        if k == 'upb':
            return 'upb(%s)' % self.e(e.a[0], 0), 16
        if k == 'init':
            return '{' + ', '.join(self.e(x, -1) for x in e.a) + '}', 20
        raise AssertionError(k)

    def declstmt(self, s):
        v = s.v
        return self.decl(v) + (' = ' + self.e(s.a[0], -1) if s.a else '')

    def s(self, s):
        k = s.k
        s.line = len(self.o) + 1
        if k == 'decl':
            self.line(self.declstmt(s) + ';')
        elif k == 'expr':
            self.line(self.e(s.a[0], -2) + ';')
        elif k == 'empty':
            self.line(';')
        elif k == 'printf':
            self.line('printf(%s);' % ', '.join(['"' + ''.join(ESC.get(c, c) for c in s.v) + '"'] + [self.e(x, -1) for x in s.a]))
        elif k == 'print':
            self.line('print(%s);' % ', '.join(self.e(x, -1) for x in s.a))
        elif k == 'printid':
            self.line('printid(%s);' % s.v.name)
        elif k == 'block':
            self.line('{')
            self.stmts(s.a)
            self.line('}')
        elif k == 'if':
            self.line('if (%s)' % self.e(s.a[0], -2))
            if len(s.a) > 2 and s.a[1].k in ('if', 'for', 'while'):
                self.sub(St('block', [s.a[1]]))
            else:
                self.sub(s.a[1])
            if len(s.a) > 2:
                self.line('else')
                self.sub(s.a[2])
        elif k == 'while':
            self.line('while (%s)' % self.e(s.a[0], -2))
            self.sub(s.a[1])
        elif k == 'do':
            self.line('do')
            self.sub(s.a[1])
            self.line('while (%s);' % self.e(s.a[0], -2))
        elif k == 'for':
            i, c, n, b = s.a
            ii = '' if i is None else self.declstmt(i) if i.k == 'decl' else self.e(i.a[0], -2)
            self.line('for (%s; %s; %s)' % (ii, self.e(c, -2) if c else '', self.e(n, -2) if n else ''))
            self.sub(b)
        elif k == 'switch':
            self.line('switch (%s)' % self.e(s.a[0], -2))
            self.line('{')
            self.ind += 1
            for l, b, brk in s.v:
                self.line('default:' if l is None else 'case %s:' % self.e(l, 0))
                if b is not None:
                    self.stmts(b)
                    if brk:
                        self.ind += 1
                        self.line('break;')
                        self.ind -= 1
            self.ind -= 1
            self.line('}')
        elif k == 'break':
            self.line('break;')
        elif k == 'continue':
            self.line('continue;')
        elif k == 'return':
            self.line('return %s;' % self.e(s.a[0], -2) if s.a else 'return;')
        elif k == 'raw':
            self.line(s.v)
        else:
            raise AssertionError(k)

    def sub(self, s):
        if s.k == 'block':
            self.s(s)
        else:
            self.ind += 1
            self.s(s)
            self.ind -= 1

    def stmts(self, l):
        self.ind += 1
        for s in l:
            self.s(s)
        self.ind -= 1

    def item(self, it):
        k = it[0]
        if k == 'enum':
            en = it[1]
            self.line('enum %s {%s};' % (en.name, ', '.join(n + (' = %d' % v if x else '') for n, v, x in en.items)))
        elif k == 'struct':
            self.line('struct %s' % it[1].name)
            self.line('{')
            self.ind += 1
            for n, t in it[1].fields:
                self.line(self.decl(V(n, t)) + ';')
            self.ind -= 1
            self.line('};')
        elif k == 'var':
            self.line(self.decl(it[1]) + (' = ' + self.e(it[2], -1) if it[2] is not None else '') + ';')
        elif k == 'predecl':
            f = it[1]
            self.line('%s %s(%s);' % (self.base(f.ret), f.name, ', '.join(self.param(p, False) for p in f.params)))
        elif k == 'func':
            f = it[1]
            self.line('%s %s(%s)' % (self.base(f.ret), f.name, ', '.join(self.param(p) for p in f.params)))
            self.line('{')
            self.stmts(f.body)
            self.line('}')
        elif k == 'raw':
            self.line(it[1])

    def program(self, p):
        for it in p.items:
            self.item(it)
        self.line('void main()' if p.main[0] else 'int main()')
        self.line('{')
        self.stmts(p.main[1])
        self.line('}')
        for it in p.late:
            self.item(it)
        return '\n'.join(self.o) + '\n'


def text(p, rng=None, extra_parens=0.0):
    return Printer(rng, extra_parens).program(p)


# ---------------------------------------------------------------------------------------------------
# the reference interpreter
class Repair(Exception):
    def __init__(self, node, why):
        self.node, self.why = node, why


class TooLong(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def s32ok(v):
    return IMIN <= v <= IMAX


class Interp:
    def __init__(self, p, limit=20000, zero=True):
        self.p = p
        self.limit = limit
        self.ticks = 0
        self.out = []
        self.depth = 0
        self.feats = {}

    # objects are one-element lists; aggregate values are lists
    def zero(self, t):
        if is_arr(t):
            n = t[2][0]
            et = t[1] if len(t[2]) == 1 else ('arr', t[1], t[2][1:])
            return [self.zero(et) for _ in range(n)]
        if is_st(t):
            return [self.zero(ft) for _, ft in t[1].fields]
        if is_ptr(t):
            return None
        return 0.0 if t == FLT else 0

    def copy(self, t, v):
        if is_st(t):
            return [self.copy(ft, x) if not is_arr(ft) else self.deep(x) for (_, ft), x in zip(t[1].fields, v)]
        return v

    def into(self, t, dst, src):
        # pointers to the members stay valid
        for i, (_, ft) in enumerate(t[1].fields):
            if is_st(ft):
                self.into(ft, dst[i], src[i])
            else:
                dst[i] = src[i]

    def deep(self, v):
        return [self.deep(x) for x in v] if isinstance(v, list) else v

    def tick(self):
        self.ticks += 1
        if self.ticks > self.limit:
            raise TooLong()

    def run(self):
        self.g = {}
        self.env = self.g
        self.frames = []
        for it in self.p.items:
            if it[0] == 'var':
                v, init = it[1], it[2]
                self.g[v.id] = [self.value(init, v.t) if init is not None else self.zero(v.t)]
        try:
            self.env = {}
            self.block(self.p.main[1])
        except Ret:
            pass
        return ''.join(self.out)

    def cell(self, v):
        c = self.env.get(v.id)
        if c is None:
            c = self.g[v.id]
        return c

    # --- values ---------------------------------------------------------------------------------
    def value(self, e, t):
        """Value of e converted to type t."""
        v = self.ev(e)
        if t == FLT and not isinstance(v, float):
            return float(v)
        if is_st(t):
            return self.copy(t, v)
        if t == CHAR and not 0 <= v < 128:
            raise Repair(e, 'char')
        return v

    def lv(self, e):
        k = e.k
        if k == 'var':
            return self.cell(e.v), 0
        if k == 'idx':
            c, i = self.lv(e.a[0]) if e.a[0].k in ('var', 'idx', 'mem', 'arr', 'drf') else ([self.ev(e.a[0])], 0)
            a = c[i]
            n = self.ev(e.a[1])
            if not 0 <= n < len(a):
                raise Repair(e, ('index', len(a)))
            return a, n
        if k == 'mem':
            c, i = self.lv(e.a[0]) if e.a[0].k in ('var', 'idx', 'mem', 'arr', 'drf') else ([self.ev(e.a[0])], 0)
            return c[i], e.a[0].t[1].index(e.v)
        if k == 'arr':
            p = self.ev(e.a[0])
            return p[0][p[1]], e.a[0].t[1][1].index(e.v)
        if k == 'drf':
            return self.ev(e.a[0])
        raise AssertionError(k)

    def flt(self, e, v):
        if v != v or v in (math.inf, -math.inf) or abs(v) > 1e12 or (v != 0 and abs(v) < 1e-9):
            raise Repair(e, 'float')
        return v

    def binop(self, e, op, a, b):
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            if op == '+':
                return self.flt(e, a + b)
            if op == '-':
                return self.flt(e, a - b)
            if op == '*':
                return self.flt(e, a * b)
            if op == '/':
                if b == 0:
                    raise Repair(e, 'float')
                return self.flt(e, a / b)
        else:
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op in '/%':
                if b == 0:
                    raise Repair(e, 'zero')
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                r = q if op == '/' else a - q * b
                if not s32ok(q):
                    raise Repair(e, 'zero')
            elif op == '&':
                r = a & b
            elif op == '|':
                r = a | b
            elif op == '^':
                r = a ^ b
            elif op in ('<<', '>>'):
                if not 0 <= b < 31 or a < 0:
                    raise Repair(e, 'shift')
                r = a << b if op == '<<' else a >> b
            else:
                r = None
            if r is not None:
                if not s32ok(r):
                    raise Repair(e, 'overflow')
                return r
        if op == '<':
            return int(a < b)
        if op == '>':
            return int(a > b)
        if op == '<=':
            return int(a <= b)
        if op == '>=':
            return int(a >= b)
        if op == '==':
            return int(a == b)
        if op == '!=':
            return int(a != b)
        raise AssertionError(op)

    def ev(self, e):
        k = e.k
        self.tick()
        if k == 'int' or k == 'flt' or k == 'bool':
            return e.v
        if k == 'chr':
            return ord(e.v)
        if k == 'enum':
            return e.v[1]
        if k == 'str':
            return [ord(c) for c in e.v]
        if k == 'null':
            return None
        if k == 'var':
            return self.cell(e.v)[0]
        if k == 'fn':
            return e.v
        if k == 'bin':
            op = e.v
            a = self.ev(e.a[0])
            if op == '&&':
                return int(bool(a) and bool(self.ev(e.a[1])))
            if op == '||':
                return int(bool(a) or bool(self.ev(e.a[1])))
            b = self.ev(e.a[1])
            if e.a[1].k == 'null':
                return int((a is None) == (op == '=='))
            key = (op, e.a[0].t if isinstance(e.a[0].t, str) else 'x', e.a[1].t if isinstance(e.a[1].t, str) else 'x', e.a[0].k, e.a[1].k)
            self.feats[key] = self.feats.get(key, 0) + 1
            return self.binop(e, op, a, b)
        if k in ('idx', 'mem', 'arr', 'drf'):
            c, i = self.lv(e)
            return c[i]
        if k == 'adr':
            return self.lv(e.a[0])
        if k == 'un':
            a = self.ev(e.a[0])
            if e.v == '!':
                return int(a is None if not isinstance(a, (int, float)) else not a)
            if e.v == '-':
                if not isinstance(a, float) and not s32ok(-a):
                    raise Repair(e, 'neg')
                return -a
            if e.v == '~':
                return ~a
            if e.v == 'abs':
                if not isinstance(a, float) and not s32ok(-a):
                    raise Repair(e, 'neg')
                return abs(a)
        if k == 'inc':
            c, i = self.lv(e.a[0])
            old = c[i]
            new = old + (1 if '+' in e.v else -1)
            if isinstance(old, float):
                self.flt(e, new) if new else 0
                if new - old not in (1.0, -1.0):
                    pass
            elif not s32ok(new):
                raise Repair(e, 'inc')
            c[i] = new
            return old if e.v[0] == 'x' else new
        if k == 'asg':
            op = e.v
            if op == '=':
                v = self.value(e.a[1], e.t)
                c, i = self.lv(e.a[0])
            else:
                c, i = self.lv(e.a[0])
                b = self.ev(e.a[1])
                v = self.binop(e, op[:-1], c[i], b)
            if op == '=' and is_st(e.t):
                self.into(e.t, c[i], v)
            else:
                c[i] = v
            key = (op, e.t if isinstance(e.t, str) else 'x', e.a[0].k)
            self.feats[key] = self.feats.get(key, 0) + 1
            return v
        if k == 'tern':
            v = self.ev(e.a[1] if self.truth(self.ev(e.a[0])) else e.a[2])
            return float(v) if e.t == FLT else v
        if k == 'com':
            self.ev(e.a[0])
            return self.ev(e.a[1])
        if k == 'upb':
            return len(self.ev(e.a[0]))
        if k == 'call':
            return self.call(e.v, [self.value(x, p.t) for x, p in zip(e.a, e.v.params)])
        if k == 'callp':
            return self.call(self.cell(e.v)[0], [self.value(x, t) for x, t in zip(e.a, e.v.t[2])])
        if k == 'init':
            if is_arr(e.t):
                et = e.t[1] if len(e.t[2]) == 1 else ('arr', e.t[1], e.t[2][1:])
                return [self.value(x, et) for x in e.a]
            return [self.value(x, ft) for x, (_, ft) in zip(e.a, e.t[1].fields)]
        if k == 'bi':
            return self.builtin(e)
        raise AssertionError(k)

    @staticmethod
    def truth(v):
        return v is not None and v != 0

    def builtin(self, e):
        n = e.v
        a = [self.ev(x) for x in e.a]
        if n == 'round':
            v = float(a[0])
            if abs(v) > 2e9 or abs(abs(v) - math.floor(abs(v)) - 0.5) < 1e-9:
                raise Repair(e.a[0], 'float')
            return int(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1)
        if n in ('sin', 'cos', 'sqrt', 'exp', 'log', 'log10', 'asin'):
            try:
                return self.flt(e.a[0], getattr(math, n)(float(a[0])))
            except (ValueError, OverflowError):
                raise Repair(e.a[0], 'dom')
        if n == 'strcat':
            return a[0] + a[1]
        if n == 'strcmp':
            return (a[0] > a[1]) - (a[0] < a[1])
        if n == 'strncmp':
            x, y = a[0][:a[2]], a[1][:a[2]]
            return (x > y) - (x < y)
        if n == 'strstr':
            return ''.join(map(chr, a[0])).find(''.join(map(chr, a[1])))
        raise AssertionError(n)

    def call(self, f, args):
        self.depth += 1
        if self.depth > 40:
            raise TooLong()
        env = self.env
        self.env = {p.id: [v] for p, v in zip(f.params, args)}
        r = None
        try:
            self.block(f.body)
        except Ret as x:
            r = x.v
            if f.ret == FLT:
                r = float(r)
        self.env = env
        self.depth -= 1
        return r

    # --- statements ------------------------------------------------------------------------------
    def block(self, l):
        for s in l:
            self.st(s)

    def st(self, s):
        self.tick()
        k = s.k
        if k == 'expr':
            self.ev(s.a[0])
        elif k == 'decl':
            v = s.v
            if v.bound and not isinstance(v.bound, int):
                dims = tuple(self.ev(b) for b in v.bound)
                self.env[v.id] = [self.zero(('arr', v.t[1], dims))]
            else:
                self.env[v.id] = [self.value(s.a[0], v.t) if s.a else self.zero(v.t)]
                if s.a and is_arr(v.t) and s.a[0].k != 'init':
                    self.env[v.id][0] = list(self.env[v.id][0])
        elif k == 'printf':
            self.printf(s)
        elif k == 'print':
            for x in s.a:
                self.out.append(self.render(x.t, self.ev(x)))
        elif k == 'printid':
            self.out.append('%s = %s\n' % (s.v.name, self.render(s.v.t, self.cell(s.v)[0])))
        elif k == 'block':
            self.block(s.a)
        elif k == 'if':
            if self.truth(self.ev(s.a[0])):
                self.st(s.a[1])
            elif len(s.a) > 2:
                self.st(s.a[2])
        elif k == 'while':
            while self.truth(self.ev(s.a[0])):
                try:
                    self.st(s.a[1])
                except Brk:
                    break
                except Cont:
                    pass
        elif k == 'do':
            while True:
                try:
                    self.st(s.a[1])
                except Brk:
                    break
                except Cont:
                    pass
                if not self.truth(self.ev(s.a[0])):
                    break
        elif k == 'for':
            i, c, n, b = s.a
            if i is not None:
                self.st(i)
            while c is None or self.truth(self.ev(c)):
                self.tick()
                try:
                    self.st(b)
                except Brk:
                    break
                except Cont:
                    pass
                if n is not None:
                    self.ev(n)
        elif k == 'switch':
            v = self.ev(s.a[0])
            start = None
            for i, (l, b, brk) in enumerate(s.v):
                if l is not None and self.ev(l) == v:
                    start = i
                    break
            if start is None:
                for i, (l, b, brk) in enumerate(s.v):
                    if l is None:
                        start = i
            if start is not None:
                try:
                    for l, b, brk in s.v[start:]:
                        if b is not None:
                            self.block(b)
                            if brk:
                                break
                except Brk:
                    pass
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'return':
            if not s.a:
                raise Ret(None)
            raise Ret(self.copy(s.a[0].t, self.ev(s.a[0])))
        elif k == 'empty':
            pass
        elif k == 'raw':
            pass
        else:
            raise AssertionError(k)

    def render(self, t, v):
        if is_st(t):
            return '{' + ', '.join(self.render(ft, x) for (_, ft), x in zip(t[1].fields, v)) + '}'
        if is_arr(t):
            if t[1] == CHAR and len(t[2]) == 1:
                return ''.join(chr(c) for c in v)
            et = t[1] if len(t[2]) == 1 else ('arr', t[1], t[2][1:])
            return '[' + ' '.join(self.render(et, x) for x in v) + ']'
        if t == FLT:
            return self.ffmt(float(v))
        if t == CHAR:
            return chr(v)
        if t == BOOL:
            return 'true' if v else 'false'
        return str(v)

    def ffmt(self, v):
        return 'f' + float(v).hex()

    def printf(self, s):
        vals = []
        for x in s.a:
            vals.append(self.ev(x))
        out, i, n = [], 0, 0
        f = s.v
        while i < len(f):
            if f[i] == '%':
                c = f[i + 1]
                i += 2
                if c == '%':
                    out.append('%')
                    continue
                v = vals[n]
                n += 1
                if c == 'i':
                    out.append(str(v))
                elif c == 'c':
                    if not 32 <= v < 127:
                        raise Repair(s.a[n - 1], 'char')
                    out.append(chr(v))
                elif c == 'f':
                    out.append(self.ffmt(float(v)))
                else:
                    out.append(''.join(map(chr, v)))
            else:
                out.append(f[i])
                i += 1
        self.out.append(''.join(out))


class InterpF(Interp):
    """The same meaning, floats shown with %f as the C library prints them."""

    def ffmt(self, v):
        return '%f' % v


def repair(rng, rep):
    e, why = rep.node, rep.why
    if why == 'char':
        if e.k == 'chr':
            return False
        old = clone(e)
        e.become(E('bin', INT, [E('bin', INT, [old, lit(31)], '&'), lit(64)], '+'))
    elif why == 'overflow':
        if e.k == 'asg':
            e.v = rng.choice(['^=', '&=', '|=', '='])
        else:
            e.v = rng.choice(['^', '&', '|'])
    elif why == 'zero':
        e.a[1] = lit(rng.choice([1, 2, 3, 5, 7, -3]))
        if rng.random() < 0.1:
            e.a[1] = lit(9)
    elif why == 'shift':
        if e.k == 'asg':
            e.v = rng.choice(['^=', '&='])
        else:
            old = e.a[0]
            e.a[0] = E('bin', INT, [old, lit(255)], '&')
            e.a[1] = lit(rng.randint(0, 6))
    elif why == 'neg':
        e.v = '~'
    elif why == 'inc':
        e.become(E('asg', e.t, [e.a[0], lit(rng.randint(0, 50))], '='))
    elif why == 'float' or why == 'dom':
        if e.k == 'asg':
            e.v = '='
            e.a[1] = flit(rng.choice([0.5, 2.25]))
        elif e.k == 'inc':
            e.become(E('asg', e.t, [e.a[0], flit(1.5)], '='))
        elif e.k in ('bin', 'un', 'tern', 'bi', 'call', 'var', 'idx', 'mem', 'arr', 'drf', 'flt', 'int', 'callp', 'com'):
            e.become(flit(rng.choice([0.25, 0.75, 0.125])))
        else:
            return False
    elif isinstance(why, tuple) and why[0] == 'index':
        if why[1] == 0:
            return False
        e.a[1] = lit(rng.randrange(why[1]))
    else:
        return False
    return True


def walk_stmt(s, f):
    for x in s.a:
        if isinstance(x, St):
            walk_stmt(x, f)
        elif isinstance(x, E):
            f(x)
    if s.k == 'switch':
        for l, b, _ in s.v:
            if l is not None:
                f(l)
            for y in b or ():
                walk_stmt(y, f)
    if s.k == 'decl' and s.v.bound and not isinstance(s.v.bound, int):
        for b in s.v.bound:
            f(b)


def check_constants(p, it):
    """Constant subexpressions in code that is never executed must be in range, too."""
    def cv(e):
        vs = [cv(x) for x in e.a]
        if e.k in ('int', 'flt', 'bool'):
            return e.v
        if e.k == 'chr':
            return ord(e.v)
        if e.k == 'enum':
            return e.v[1]
        if e.k == 'bin' and e.v not in ('&&', '||'):
            if vs[1] == 0 and e.v in '/%':
                raise Repair(e, 'zero')
            if e.v in ('<<', '>>') and vs[1] is not None and not 0 <= vs[1] < 31:
                raise Repair(e, 'shift')
            if None not in vs:
                return it.binop(e, e.v, vs[0], vs[1])
        if e.k == 'asg' and e.v in ('/=', '%=') and vs[1] == 0:
            raise Repair(e, 'zero')
        if e.k == 'un' and vs[0] is not None:
            return {'-': lambda x: -x, '~': lambda x: ~x, 'abs': abs, '!': lambda x: int(not x)}[e.v](vs[0])
        if e.k == 'tern' and vs[0] is not None:
            return vs[1] if vs[0] else vs[2]
        return None
    for i in p.items + p.late:
        if i[0] == 'var' and i[2] is not None:
            cv(i[2])
        if i[0] == 'func':
            for s in i[1].body:
                walk_stmt(s, cv)
    for s in p.main[1]:
        walk_stmt(s, cv)


def too_deep(p):
    """Expressions are kept at a depth and size a person could write."""
    def f(e):
        d, n = 0, 1
        for x in e.a:
            if isinstance(x, E):
                dx, nx = f(x)
                d, n = max(d, dx), n + nx
        if d > 40 or n > 400:
            raise RecursionError
        return d + 1, n
    for i in p.items + p.late:
        if i[0] == 'var' and i[2] is not None:
            f(i[2])
        if i[0] == 'func':
            for s in i[1].body:
                walk_stmt(s, f)
    for s in p.main[1]:
        walk_stmt(s, f)
    return False


def generate(seed, feats=None, size=1.0, tries=40, limit=20000, cls=Interp):
    """A program with a defined meaning: (prog, source text, expected output, interpreter)."""
    k = 0
    while True:
        rng = random.Random('%s/%d' % (seed, k))
        k += 1
        try:
            p = Gen(rng, feats, size).program()
            if too_deep(p):
                continue
        except RecursionError:
            continue
        for _ in range(tries):
            it = cls(p, limit)
            try:
                check_constants(p, it)
                out = it.run()
                return p, text(p, rng, 0.02), out, it
            except Repair as r:
                if not repair(rng, r):
                    break
            except TooLong:
                break


if __name__ == '__main__':
    import sys
    p, t, o, it = generate(sys.argv[1])
    print(t)
    print('-----')
    print(o)
