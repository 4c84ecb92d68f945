"""Rules of the language as data: operands of every type, every operator on them with the verdict the description
fixes (None where it fixes none), and pairs of a violating and an obeying text for the remaining constraints."""
# name: (expr, cls, lvalue, const)
OPS={
'iv':('int',1,0),'ki':('int',1,1),'5':('int',0,0),'(iv+1)':('int',0,0),'fn(1)':('int',0,0),
'cv':('char',1,0),"'a'":('char',0,0),'kc':('char',1,1),
'fv':('float',1,0),'1.5':('float',0,0),'kf':('float',1,1),
'bv':('bool',1,0),'kb':('bool',1,1),'true':('bool',0,0),'(iv<2)':('bool',0,0),
'ev':('en',1,0),'A1':('en',0,0),'gv':('gn',1,0),'B1':('gn',0,0),
'ia':('int[]',1,0),'fa':('float[]',1,0),'aa':('int[][]',1,0),'sa':('st[]',1,0),'ca':('char[]',1,0),
'ia[1]':('int',1,0),'aa[1]':('int[]',1,0),'sa[1]':('st',1,0),
'sv':('st',1,0),'so':('ot',1,0),'ks':('st',1,1),'sv.x':('int',1,0),'sp->y':('float',1,0),'mk(1)':('st',0,0),'mk(1).x':('int',0,0),
'ip':('int*',1,0),'fp':('float*',1,0),'sp':('st*',1,0),'kp':('kint*',1,0),'pk':('int*',1,1),'&iv':('int*',0,0),'null':('null',0,0),
'*ip':('int',1,0),'*kp':('int',1,1),
'fn':('func',0,0),'proc(1)':('void',0,0),'"s"':('char[]',0,0),
}
I={'int','char'};EN={'en','gn'};AR=I|{'float'}
def integer(t): return True if t in I else (None if t in EN else False)
def arith(t): return True if t in AR else (None if t in EN else False)
def scalar(t): return True if (t in I or t=='bool' or t.endswith('*') or t=='null') else (None if t in EN else False)
def And(*l):
    if any(x is False for x in l): return False
    if any(x is None for x in l): return None
    return True
def unary():
    for n,(t,lv,k) in OPS.items():
        for o in '-+':
            yield f'{o}{n};' if not (n.startswith(o)) else f'{o}({n});', arith(t) if o=='-' else None if arith(t) is not False else False
        yield f'~{n};', integer(t)
        yield f'!{n};', scalar(t)
        yield f'abs {n};', arith(t)
        yield f'upb {n};', t.endswith(']')
        yield f'*({n});', t.endswith('*')
        yield f'&({n});', bool(lv) if t!='func' else None
        for o in('++','--'):
            v=And(arith(t),bool(lv and not k))
            yield f'{n}{o};' if not n.startswith(('*','&')) else f'({n}){o};',v
            yield f'{o}{n};',v
        yield f'({n})[1];', t.endswith(']')
        yield f'ia[{n}];', integer(t)
        yield f'({n}).x;', t in('st','ot')
        yield f'({n})->x;', t=='st*'
        yield f'({n}).z;', False
        yield f'({n})->z;', False
        yield f'({n})(1);', t=='func'
        yield f'if ({n}) ;', scalar(t)
        yield f'while ({n}) break;', scalar(t)
        yield f'do break; while ({n});', scalar(t)
        yield f'for (;{n};) break;', scalar(t)
        yield f'switch ({n}) {{ case 1: break; }}', integer(t)
        c = n in ('5',"'a'",'A1','B1')
        yield f'switch (iv) {{ case {n}: break; }}', And(integer(t), c) if n!='ki' else None
        yield f'int zz[{n}];', integer(t)
        yield f'{n};', None if t=='func' else True
def compat(l,r):
    if l==r: return True
    if l=='float' and r in I: return True
    if l.endswith('*') and r=='null': return True
    if l=='kint*' and r=='int*': return True
    S=I|EN
    if l in S and r in S: return None
    if l=='float' and r in EN: return None
    return False
def binop(o,a,b):
    (t,lv,k),(u,lw,kk)=OPS[a],OPS[b]
    if o in('*','/','+','-'): return And(arith(t),arith(u))
    if o in('%','<<','>>','&','^','|'): return And(integer(t),integer(u))
    if o in('<','>','<=','>='): return And(arith(t),arith(u))
    if o in('==','!='):
        if t==u: return True
        v=And(arith(t),arith(u))
        if v is not False: return v
        if (t.endswith('*') and u=='null') or (u.endswith('*') and t=='null'): return True
        if {t,u}=={'int*','kint*'}: return None
        return False
    if o in('&&','||'): return And(scalar(t),scalar(u))
    if o=='=': return And(bool(lv and not k and t!='func'),compat(t,u))
    if o==',': return None if 'func' in(t,u) else True
    base=binop(o[:-1],a,b)
    res=t if t==u else 'float' if 'float' in(t,u) else 'int'
    return And(bool(lv and not k), base, compat(t,res))
BIN=['*','/','%','+','-','<<','>>','&','^','|','<','>','<=','>=','==','!=','&&','||','=','+=','-=','*=','/=','%=','<<=','>>=','&=','^=','|=',',']
def binary():
    for o in BIN:
        for a in OPS:
            for b in OPS:
                yield f'{a} {o} {b};', binop(o,a,b)
def tern():
    for a in OPS: yield f'({a}) ? 1 : 2;', scalar(OPS[a][0])
    for a in OPS:
        for b in OPS:
            t,u=OPS[a][0],OPS[b][0]
            v=True if t==u else And(arith(t),arith(u))
            if v is False and ((t.endswith('*') and u=='null') or (u.endswith('*') and t=='null')): v=True
            if {t,u}=={'int*','kint*'}: v=None
            if t=='func' and u=='func': v=None
            yield f'bv ? {a} : {b};', v
TY={'int':'int','char':'char','float':'float','bool':'bool','en':'enum En','gn':'enum Gn','st':'struct St','ot':'struct Ot','int*':'int*','float*':'float*','st*':'struct St*','kint*':'const int*'}
def inits():
    for t,sp in TY.items():
        for a in OPS:
            yield f'{sp} zz = {a};', compat(t,OPS[a][0])
            yield f'const {sp} zz = {a};' if t!='kint*' else ';', compat(t,OPS[a][0]) if not t.endswith('*') else None
    for a in OPS:
        t=OPS[a][0]
        yield f'fn({a});', compat('int',t)
        yield f'struct St zz = {{{a}, 1.0}};', compat('int',t)
        yield f'struct St zz = {{1, {a}}};', compat('float',t)
        yield f'int zz[2] = {{1, {a}}};', compat('int',t)
        yield f'float zz[2] = {{{a}, 1.0}};', compat('float',t)


S=[
('const struct member','ks.x = 1;','sv.x = 1;'),
('const struct member inc','ks.x++;','sv.x++;'),
('const array element','const int zz[2] = {1,2}; zz[0] = 3;','int zz[2] = {1,2}; zz[0] = 3;'),
('const member','struct Km { const int x; int y; }; struct Km zz = {1,2}; zz.x = 2;','struct Km { const int x; int y; }; struct Km zz = {1,2}; zz.y = 2;'),
('pointer to const','*kp = 1;','*ip = 1;'),
('const pointer','pk = &iv;','*pk = 1;'),
('const ptr arg','int *zz = kp;','const int *zz = ip;'),
('const without init','const int zz;','const int zz = 1;'),
('const array no init','const int zz[2];','const int zz[2] = {1,2};'),
('const struct no init','const struct St zz;','const struct St zz = {1,1.0};'),
('const member no init','struct Km { const int x; int y; }; struct Km zz;','struct Km { int x; int y; }; struct Km zz;'),
('const ptr no init','int *const zz;','int *const zz = &iv;'),
('two const','const const int zz = 1;','const int zz = 1;'),
('redeclare same scope','int zz = 1; int zz = 2;','int zz = 1; { int zz = 2; }'),
('redeclare other type','int zz = 1; float zz = 2.0;','int zz = 1; { float zz = 2.0; }'),
('redeclare in one decl','int zz, zz;','int zz, zy;'),
('undeclared','zz = 1;','int zz; zz = 1;'),
('undeclared in expr','iv = zz + 1;','int zz = 2; iv = zz + 1;'),
('out of scope','{ int zz = 1; } zz = 2;','{ int zz = 1; zz = 2; }'),
('out of for scope','for (int zz = 0; zz < 1; zz++) ; zz = 2;','for (int zz = 0; zz < 1; zz++) zz = 2;'),
('use before declare','zz = 1; int zz;','int zz; zz = 1;'),
('undeclared function','zzf(1);','fn(1);'),
('too few args','fn();','fn(1);'),
('too many args','fn(1, 2);','fn(1);'),
('call non function','iv(1);','fn(1);'),
('void value','iv = proc(1);','iv = fn(1);'),
('void var','void zz;','int zz;'),
('void pointer','void *zz;','int *zz;'),
('no such member','sv.q;','sv.x;'),
('no such struct','struct Zz zz;','struct Zz { int q; }; struct Zz zz;'),
('var as type','iv zz;','int zz;'),
('type as var','struct Zz { int q; }; Zz = 1;','struct Zz { int q; }; struct Zz zz; zz.q = 1;'),
('too few struct inits','struct St zz = {1};','struct St zz = {1, 2.0};'),
('too many struct inits','struct St zz = {1, 2.0, 3};','struct St zz = {1, 2.0};'),
('array too many','int zz[2] = {1,2,3};','int zz[3] = {1,2,3};'),
('array too few','int zz[3] = {1,2};','int zz[2] = {1,2};'),
('array scalar init','int zz[2] = 1;','int zz[2] = {1,2};'),
('scalar list init','int zz = {1};','int zz = 1;'),
('nested list for scalar','int zz[2] = {1, {2}};','int zz[2] = {1, 2};'),
('empty list','int zz[2] = {};','int zz[2] = {1,2};'),
('no bound no init','int zz[];','int zz[] = {1,2};'),
('outer bound empty','int zz[][2];','int zz[2][2];'),
('zero bound','int zz[0];','int zz[1];'),
('negative bound','int zz[-1];','int zz[1];'),
('float bound','int zz[1.5];','int zz[1];'),
('empty struct','struct Zz { };','struct Zz { int q; };'),
('empty enum','enum Zz { };','enum Zz { ZQ };'),
('enum no comma','enum Zz { ZQ ZR };','enum Zz { ZQ, ZR };'),
('enum float value','enum Zz { ZQ = 1.5 };','enum Zz { ZQ = 1 };'),
('enum var value','enum Zz { ZQ = iv };','enum Zz { ZQ = 2 };'),
('enum call value','enum Zz { ZQ = fn(1) };','enum Zz { ZQ = 2 };'),
('enum duplicate field','enum Zz { ZQ, ZQ };','enum Zz { ZQ, ZR };'),
('enum field twice','enum Zz { ZQ, ZR }; enum Zy { ZQ };','enum Zz { ZQ, ZR }; enum Zy { ZS };'),
('struct dup member','struct Zz { int q; float q; };','struct Zz { int q; float r; };'),
('struct dup name','struct Zz { int q; }; struct Zz { int q; };','struct Zz { int q; }; struct Zy { int q; };'),
('struct dup member across','struct Zz { int q; }; struct Zy { int q; int q; };','struct Zz { int q; }; struct Zy { int q; };'),
('struct self','struct Zz { int q; struct Zz r; };','struct Zz { int q; int r; };'),
('struct void member','struct Zz { int q; void r; };','struct Zz { int q; int r; };'),
('struct no semi','struct Zz { int q };','struct Zz { int q; };'),
('struct unbounded array','struct Zz { int q[]; };','struct Zz { int q[2]; };'),
('struct no member name','struct Zz { int; };','struct Zz { int q; };'),
('declare nothing','int;','int zz;'),
('struct tag of a variable','struct iv zz;','struct St zz;'),
('enum tag of a variable','enum iv zz;','enum En zz;'),
('enum tag of a struct','enum St zz;','enum En zz;'),
('enum bool value','enum Zz { ZQ = true };',"enum Zz { ZQ = 'a' };"),
('enum string value','enum Zz { ZQ = "a" };','enum Zz { ZQ = -5, ZR };'),
('struct as value','iv = St;','iv = sv.x;'),
('struct as operand','iv = 1 + St;','iv = 1 + sv.x;'),
('enum as value','iv = En;','iv = A1;'),
('declarator number','int 5;','int zz5;'),
('declarator keyword','int while;','int whilz;'),
('missing semi decl','int zz = 1 iv = 2;','int zz = 1; iv = 2;'),
('missing semi expr','iv = 1 iv = 2;','iv = 1; iv = 2;'),
('missing semi break','while (bv) { break }','while (bv) { break; }'),
('missing semi continue','while (bv) { bv = false; continue }','while (bv) { bv = false; continue; }'),
('missing semi do','do iv = 1; while (bv) iv = 2;','do iv = 1; while (false); iv = 2;'),
('missing while','do iv = 1; iv = 2;','do iv = 1; while (false);'),
('missing paren','iv = (1 + 2;','iv = (1 + 2);'),
('extra paren','iv = 1 + 2);','iv = (1 + 2);'),
('missing bracket','ia[1 = 2;','ia[1] = 2;'),
('missing operand','iv = 1 + ;','iv = 1 + 2;'),
('missing left operand','iv = * 2 / ;','iv = 2 * 2;'),
('double operator','iv = 1 * / 2;','iv = 1 / 2;'),
('missing arg','fn(1,);','fn(1);'),
('if no paren','if bv ;','if (bv) ;'),
('if no cond','if () ;','if (bv) ;'),
('while no paren','while bv break;','while (bv) break;'),
('for semis','for (iv = 0; iv < 2) ;','for (iv = 0; iv < 2; iv++) ;'),
('for no paren','for iv = 0; iv < 2; iv++ ;','for (iv = 0; iv < 2; iv++) ;'),
('else without if','else iv = 1;','if (bv) ; else iv = 1;'),
('ternary no colon','iv = bv ? 1;','iv = bv ? 1 : 2;'),
('break outside','break;','while (bv) break;'),
('continue outside','continue;','while (bv) { bv = false; continue; }'),
('continue in switch','switch (iv) { case 1: continue; }','while (bv) { bv = false; switch (iv) { case 1: continue; } }'),
('break in if','if (bv) break;','while (bv) if (bv) break;'),
('break after loop','while (bv) { bv = false; } break;','while (bv) { bv = false; break; }'),
('continue after loop','for (iv = 0; iv < 2; iv++) ; continue;','for (iv = 0; iv < 2; iv++) continue;'),
('continue in switch after loop','switch (iv) { case 1: while (bv) bv = false; continue; }','switch (iv) { case 1: while (bv) { bv = false; continue; } }'),
('case outside','case 1: iv = 2;','switch (iv) { case 1: iv = 2; }'),
('default outside','default: iv = 2;','switch (iv) { default: iv = 2; }'),
('case after switch','switch (iv) { case 1: break; } case 2: iv = 1;','switch (iv) { case 1: break; case 2: iv = 1; }'),
('case in loop','while (bv) { bv = false; case 1: iv = 1; }','while (bv) { bv = false; switch (iv) { case 1: iv = 1; } }'),
('case not const','switch (iv) { case iv: break; }','switch (iv) { case 2: break; }'),
('case call','switch (iv) { case fn(1): break; }','switch (iv) { case 1: break; }'),
('case float','switch (iv) { case 1.5: break; }','switch (iv) { case 1: break; }'),
('case no colon','switch (iv) { case 1 break; }','switch (iv) { case 1: break; }'),
('default no colon','switch (iv) { default break; }','switch (iv) { default: break; }'),
('dup case','switch (iv) { case 1: break; case 1: break; }','switch (iv) { case 1: break; case 2: break; }'),
('dup case value',"switch (iv) { case 97: break; case 'a': break; }","switch (iv) { case 98: break; case 'a': break; }"),
('dup case folded','switch (iv) { case 3: break; case 1 + 2: break; }','switch (iv) { case 3: break; case 2 + 2: break; }'),
('dup default','switch (iv) { default: break; case 1: break; default: iv = 1; }','switch (iv) { case 1: break; default: iv = 1; }'),
('dup case nested','switch (iv) { case 1: switch (iv) { case 2: break; case 2: break; } }','switch (iv) { case 1: switch (iv) { case 1: break; default: iv = 1; } default: iv = 2; }'),
('return value in void','return 1;','return;'),
('assign literal','5 = iv;','iv = 5;'),
('assign expr','iv + 1 = 2;','iv = 1 + 2;'),
('assign call','fn(1) = 2;','iv = fn(1);'),
('assign array','ia = fa;','ia = ia;'),
('swap assign','(iv = 1) = 2;','iv = (iv = 1);'),
('inc inc','iv++ ++;','iv++;'),
('pre post inc','++iv++;','++iv;'),
('addr addr','&&iv;','&iv;'),
('addr literal','ip = &5;','ip = &iv;'),
('printf no args','printf();','printf("a");'),
('printf non string','printf(iv);','printf("%i", iv);'),
('printf few','printf("%i %i", 1);','printf("%i %i", 1, 2);'),
('printf many','printf("%i", 1, 2);','printf("%i", 1);'),
('printf type','printf("%i", fv);','printf("%f", fv);'),
('printf type3','printf("%s", iv);','printf("%c", cv);'),
('printf type4','printf("%i", bv);','printf("%i", iv);'),
('printf spec','printf("%q", iv);','printf("%%q");'),
('printf end','printf("%");','printf("%%");'),
('printf var string','printf(ca);','printf("x");'),
('print pointer','print(ip);','print(iv);'),
('printid expr','printid(1);','printid(iv);'),
('getid expr','getid(1 + 2);','getid(iv);'),
('bad char','iv = 1 @ 2;','iv = 1 + 2;'),
('bad char2','iv = 1 $ 2;','iv = 1 - 2;'),
('bad backtick','iv = `1;','iv = 1;'),
('empty char',"cv = '';","cv = 'b';"),
('long char',"cv = 'ab';","cv = 'a';"),
('unterminated char',"cv = 'a;\n","cv = 'a';\n"),
('unterminated string','printf("abc);\n','printf("abc");\n'),
('escape','printf("a\\q");','printf("a\\n");'),
('char escape',"cv = '\\q';","cv = '\\n';"),
('octal digit','iv = 0o18;','iv = 0o17;'),
('binary digit','iv = 0b12;','iv = 0b11;'),
('hex digit','iv = 0xg;','iv = 0xf;'),
('exponent','fv = 1e;','fv = 1e1;'),
('exponent sign','fv = 1.5e+;','fv = 1.5e+1;'),
('unterminated comment','/* iv = 1;','/* */ iv = 1;'),
('nested function','int zf(int q) { return q; }','int zf; zf = 1;'),
('struct to int','iv = sv;','iv = sv.x;'),
('struct other','sv = so;','sv = ks;'),
('array index ptr','ip[1];','ia[1];'),
('ref uninit','int &zz;','int zz;'),
('function to int','iv = fn;','iv = fn(1);'),
('bool to int','iv = bv;','bv = iv < 2;'),
('int to bool','bv = iv;','bv = iv != 0;'),
('float to int','iv = fv;','fv = iv;'),
('float arg','fn(1.5);','fn(1);'),
('string to int','iv = "abc";','printf("abc");'),
('array dimension','aa[0] = fa;','aa[0] = ia;'),
('too many subscripts','ia[1][1];','aa[1][1];'),
('arrow on struct','sv->x;','sp->x;'),
('dot on pointer','sp.x;','sv.x;'),
('deref int','*iv;','*ip;'),
('null to int','iv = null;','ip = null;'),
('other pointer','ip = fp;','ip = &iv;'),
('struct pointer int','sp = ip;','sp = &sv;'),
('ptr arith','ip + 1;','*ip + 1;'),
('ptr inc','ip++;','(*ip)++;'),
('bool inc','bv++;','iv++;'),
('bool arith','bv + 1;','iv + 1;'),
('bool cmp','bv < true;','bv == true;'),
]
# top-level: (name, bad, good) whole file sources
T=[
('no main','int f(int q) { return q; }','int f(int q) { return q; } void main() {}'),
('two mains','void main() {} void main() {}','void main() {}'),
('main float','float main() { return 1.0; }','int main() { return 1; }'),
('main two params','void main(int a, int b) {}','void main() {}'),
('redefined function','int f(int q) { return q; } int f(int q) { return q; } void main() {}','int f(int q) { return q; } int g(int q) { return q; } void main() {}'),
('global twice','int a; int a; void main() {}','int a; int b; void main() {}'),
('global and function','int f; int f(int q) { return q; } void main() {}','int g; int f(int q) { return q; } void main() {}'),
('function and global','int f(int q) { return q; } int f; void main() {}','int f(int q) { return q; } int g; void main() {}'),
('predecl mismatch ret','int f(int); float f(int q) { return 1.0; } void main() {}','int f(int); int f(int q) { return q; } void main() {}'),
('predecl mismatch par','int f(int); int f(float q) { return 1; } void main() {}','float f(float); float f(float q) { return q; } void main() {}'),
('predecl mismatch count','int f(int); int f(int q, int r) { return q; } void main() {}','int f(int, int); int f(int q, int r) { return q; } void main() {}'),
('predecl twice','int f(int); int f(int); int f(int q) { return q; } void main() {}',None),
('predecl undefined','int f(int); void main() {}','int f(int); void main() {} int f(int q) { return q; }'),
('predecl undefined used','int f(int); void main() { f(1); }','int f(int); void main() { f(1); } int f(int q) { return q; }'),
('param twice','int f(int q, int q) { return q; } void main() {}','int f(int q, int r) { return q; } void main() {}'),
('param redeclared','int f(int q) { int q = 1; return q; } void main() {}','int f(int q) { { int q = 1; } return q; } void main() {}'),
('param no name','int f(int) { return 1; } void main() {}','int f(int q) { return 1; } void main() {}'),
('param void','int f(void q) { return 1; } void main() {}','int f(int q) { return 1; } void main() {}'),
('void return value','void f(int q) { return q; } void main() {}','int f(int q) { return q; } void main() {}'),
('int return nothing','int f(int q) { return; } void main() {}','void f(int q) { return; } void main() {}'),
('no return','int f(int q) { q = 1; } void main() {}','int f(int q) { q = 1; return q; } void main() {}'),
('no return in float','float f(int q) { q = 1; { int r = 2; r = q; } } void main() {}','float f(int q) { q = 1; { int r = 2; r = q; return r; } } void main() {}'),
('no return in bool','bool f() { while (false) break; } void main() {}','bool f() { while (true) return true; } void main() {}'),
('no return in struct','struct A { int x; }; struct A f(int q) { struct A a = {q}; } void main() {}','struct A { int x; }; struct A f(int q) { struct A a = {q}; return a; } void main() {}'),
('no return after one','int f(int q) { return q; } int g(int q) { q = f(q); } void main() {}','int f(int q) { return q; } int g(int q) { return f(q); } void main() {}'),
('no return before one','int g(int q) { q = 1; } int f(int q) { return q; } void main() {}','int g(int q) { return 1; } int f(int q) { return q; } void main() {}'),
('return type','int f(int q) { return 1.5; } void main() {}','float f(int q) { return q; } void main() {}'),
('return bool','int f(int q) { return q < 1; } void main() {}','bool f(int q) { return q < 1; } void main() {}'),
('return struct','struct A { int x; }; struct B { int x; int y; }; struct A f(int q) { struct B b = {q, q}; return b; } void main() {}','struct A { int x; }; struct B { int x; int y; }; struct B f(int q) { struct B b = {q, q}; return b; } void main() {}'),
('return void call','void g(int q) { q = 1; } int f(int q) { return g(q); } void main() {}','int g(int q) { return q; } int f(int q) { return g(q); } void main() {}'),
('global init call','int f(int q) { return q; } int a = q; void main() {}','int f(int q) { return q; } int a = 1; void main() {}'),
('global init type','int a = 1.5; void main() {}','float a = 1; void main() {}'),
('statement at top','int a; a = 1; void main() {}','int a = 1; void main() {}'),
('missing brace','void main() { int a;','void main() { int a; }'),
('extra brace','void main() { int a; } }','void main() { int a; }'),
('brace in middle','void main() { if (true) { int a; }','void main() { if (true) { int a; } }'),
('function body missing','int f(int q) int a; void main() {}','int f(int q) { return q; } int a; void main() {}'),
('function const return','const int f(int q) { return q; } void main() {}','int f(int q) { return q; } void main() {}'),
('function param mismatch','int f(int (*g)(int)) { return g(1); } float h(int q) { return 1.0; } void main() { f(h); }','int f(int (*g)(int)) { return g(1); } int h(int q) { return 1; } void main() { f(h); }'),
('function param mismatch arg','int f(int (*g)(int)) { return g(1); } int h(float q) { return 1; } void main() { f(h); }','int f(int (*g)(int)) { return g(1); } int h(int q) { return 1; } void main() { f(h); }'),
('function param count','int f(int (*g)(int)) { return g(1); } int h(int q, int r) { return 1; } void main() { f(h); }','int f(int (*g)(int)) { return g(1); } int h(int q) { return 1; } void main() { f(h); }'),
('function param value','int f(int (*g)(int)) { return g(1); } void main() { f(1); }','int f(int (*g)(int)) { return g(1); } int h(int q) { return 1; } void main() { f(h); }'),
('function param call','int f(int (*g)(int)) { return g(1, 2); } void main() {}','int f(int (*g)(int)) { return g(1); } void main() {}'),
('function param call few','int f(int (*g)(int)) { return g(); } void main() {}','int f(int (*g)(int)) { return g(1); } void main() {}'),
('array param elem','int f(int q[]) { return q[0]; } void main() { float a[2]; f(a); }','int f(int q[]) { return q[0]; } void main() { int a[2]; f(a); }'),
('array param dims','int f(int q[]) { return q[0]; } void main() { int a[2][2]; f(a); }','int f(int q[][]) { return q[0][0]; } void main() { int a[2][2]; f(a); }'),
('array param scalar','int f(int q[]) { return q[0]; } void main() { f(1); }','int f(int q) { return q; } void main() { f(1); }'),
('local hides nothing','void f(int q) { int zz = q; } void main() { zz = 1; }','int zz; void f(int q) { zz = q; } void main() { zz = 1; }'),
('use function before','void main() { f(1); } int f(int q) { return q; }','int f(int); void main() { f(1); } int f(int q) { return q; }'),
('use global before','void main() { a = 1; } int a;','int a; void main() { a = 1; }'),
('no such type','T a; void main() {}','typedef int T; T a; void main() {}'),
('typedef no name','typedef int; void main() {}','typedef int T; void main() {}'),
('typedef as operand','typedef int T; void main() { int a = 1 + T; }','typedef int T; void main() { T a = 1 + 2; }'),
('typedef assigned','typedef int T; void main() { int a; a = T; }','typedef int T; void main() { T a; a = 1; }'),
('typedef called','typedef int T; void main() { int a = T(1); }','typedef int T; T f(T a) { return a; } void main() { int a = f(1); }'),
('typedef as value','typedef int T; void main() { int a = T; }','typedef int T; void main() { T a = 1; }'),
('typedef twice','typedef int T; typedef float T; void main() {}','typedef int T; typedef float U; void main() {}'),
('typedef mismatch','typedef bool T; void main() { T a = 1; }','typedef bool T; void main() { T a = true; }'),
('typedef in function','int f(int q) { typedef int T; return q; } void main() {}',None),
('global struct init few','struct A { int x; int y; }; struct A a = {1}; void main() {}','struct A { int x; int y; }; struct A a = {1, 2}; void main() {}'),
('global array no bound','int a[]; void main() {}','int a[] = {1}; void main() {}'),
('pointer to array','int (*a)[2]; void main() {}','int *a; void main() {}'),
('array of functions','int f[2](int q); void main() {}','int f[2]; void main() {}'),
('function returns function','int f(int q)(int) { return 1; } void main() {}','int f(int q) { return 1; } void main() {}'),
('missing comma params','int f(int q int r) { return q; } void main() {}','int f(int q, int r) { return q; } void main() {}'),
('trailing comma params','int f(int q,) { return q; } void main() {}','int f(int q) { return q; } void main() {}'),
('variable without type','a; void main() {}','int a; void main() {}'),
('function without type','f(int q) { return q; } void main() {}','int f(int q) { return q; } void main() {}'),
('keyword as function','int if(int q) { return q; } void main() {}','int iff(int q) { return q; } void main() {}'),
('garbage at top','} void main() {}','void main() {}'),
('large enum value as statement',"enum E { A = 999999 }; void main() { A = 1; }",'enum E { A = 2000, B }; void main() { A; A + 1; int q = A; }'),
('empty file','','void main() {}'),
('only comment','/* void main() {} */','/* */ void main() {}'),
('call main','int f(int q) { return main; } void main() {}','int f(int q) { return q; } void main() {}'),
('enum const assigned','enum E { A, B }; void main() { A = 1; }','enum E { A, B }; void main() { enum E e = A; }'),
('enum const incremented','enum E { A, B }; void main() { A++; }','enum E { A, B }; void main() { int e = A; e++; }'),
('enum const address','enum E { A, B }; void main() { int *p = &A; }','enum E { A, B }; void main() { int e = A; int *p = &e; }'),
('struct const member init','struct A { const int x; }; struct A a; void main() {}','struct A { const int x; }; struct A a = {1}; void main() {}'),
('const param','int f(const int q) { q = 1; return q; } void main() {}','int f(const int q) { return q; } void main() {}'),
('const arr param','int f(const int q[]) { q[0] = 1; return 1; } void main() {}','int f(int q[]) { q[0] = 1; return 1; } void main() {}'),
('const global','const int a = 1; void main() { a = 2; }','int a = 1; void main() { a = 2; }'),
('const global inc','const int a = 1; void main() { a++; }','int a = 1; void main() { a++; }'),
]
