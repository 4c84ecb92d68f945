"""Inputs that stretch one dimension of the compiler each: lengths, counts and depths around the sizes buffers have."""
import random

EDGE = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025,
        2047, 2048, 2049, 4095, 4096, 4097]
SMALL = [n for n in EDGE if n <= 257]
MID = [n for n in EDGE if n <= 1025]

SHAPES = {}


def shape(sizes):
    def deco(f):
        SHAPES[f.__name__] = (f, sizes)
        return f
    return deco


def main(body='', before=''):
    return before + '\nint main()\n{\n' + body + '\n\treturn 0;\n}\n'


# --- lengths -------------------------------------------------------------------------------------
@shape(EDGE)
def long_identifier(n, r):
    i = r.choice(['a', 'Я', 'z9_']) * n
    return main('\tint %s = 1;\n\tprintf("%%i", %s);' % (i, i))


@shape(EDGE)
def long_unknown_identifier(n, r):
    return main('\t%s = 1;' % (r.choice(['a', 'ё', 'q_']) * n))


@shape(EDGE)
def long_function_name(n, r):
    i = r.choice(['f', 'Щ', 'ё_1', 'Ъ', 'ж']) * n
    return main('\tprintf("%%i", %s(%s(1)));' % (i, i), 'int %s(int a)\n{\n\treturn a;\n}\n' % i)


@shape(EDGE)
def long_type_and_field_names(n, r):
    i, j, k = (r.choice(['f', 'Щ', 'ё_1', 'T']) * n + c for c in '123')
    return main('\tstruct %s %s;\n\t%s.%s = 1;\n\tprintf("%%i", %s.%s);\n\tprint(%s);\n\tprintid(%s);' % (i, k, k, j, k, j, k, k),
                'struct %s\n{\n\tint %s;\n};\n' % (i, j))


@shape(EDGE)
def long_string(n, r):
    return main('\tprintf("%s");' % (r.choice(['x', 'Ж', '\\n', 'ab\\"', '\\\\']) * n))


@shape(EDGE)
def long_string_array(n, r):
    return main('\tchar s[%d] = "%s";\n\tprintf("%%s", s);' % (n, 'x' * n))


@shape(EDGE)
def concatenated_strings(n, r):
    return main('\tprintf(%s);' % ' '.join(['"a%d"' % (k % 10) for k in range(min(n, 1025))]))


@shape(EDGE)
def unterminated_string(n, r):
    return 'int main() { printf("' + r.choice(['a', 'Ш', '\\', '%d']) * n


@shape(EDGE)
def unterminated_char(n, r):
    return "int main() { char c = '" + r.choice(['a', '\\', 'Ш']) * n + r.choice(['', "'", '\n']) + '; }'


@shape(EDGE)
def unterminated_comment(n, r):
    return 'int main() { return 0; } ' + r.choice(['/*', '/*/', '//']) + r.choice(['*', ' ', 'Щ', '/', '/*']) * n


@shape(EDGE)
def long_number(n, r):
    return main('\tint a = %s;\n\tfloat b = %s;' % (r.choice(['9', '1', '0']) * n, r.choice(['9', '0', '1']) * n + r.choice(['', '.', '.5', 'e3'])))


@shape(EDGE)
def long_fraction(n, r):
    return main('\tfloat b = %s.%s%s;' % (r.choice(['', '0', '12']), r.choice('0159') * n, r.choice(['', 'e-3', 'e+', 'e9', 'E%d' % n])))


@shape(EDGE)
def long_based_number(n, r):
    p, d = r.choice([('0x', 'F'), ('0b', '1'), ('0o', '7'), ('0X', 'a'), ('0', '7'), ('0d', '9')])
    return main('\tint b = %s%s;' % (p, d * n))


@shape(EDGE)
def long_line_error(n, r):
    return main('\tint a = 0;' + r.choice([' ', '\t', 'a = a;', 'а1;']) * n + ' b = 1; ' + r.choice([' ', 'a;']) * (n // 2))


@shape(EDGE)
def long_comment_line_error(n, r):
    return main('\t/*' + r.choice(['x', 'Ю']) * n + '*/ undefined_name = 1; //' + 'y' * n)


@shape(EDGE)
def tokens_run(n, r):
    t = r.choice(['(', '{', '[', ')', '}', ']', ';', ',', '*', '&', '-', '!', '~', '+', '++', '.', '->', '=', '?', ':', '"', "'", '#', '##', '\\',
                  'int ', 'struct ', 'if ', 'case ', 'const ', 'return ', '0 ', 'a ', '@', '\x01', 'struct {', 'enum {', 'int a,', 'else ', 'do ',
                  'while (', 'for (', 'switch (', 'typedef ', '"a" ', '\n', '\r', '\t', '/', '%', '<', '<<', '|', '^'])
    if len(t) > 2 or t in '([{':
        n = min(n, 513)
    pre, post = r.choice([('', ''), ('int main() { ', ' }'), ('int a = ', ';'), ('struct s { ', ' };'), ('int main() { int x; x = ', '; return 0; }'),
                          ('int f(', ');'), ('enum e { ', '};'), ('#define m ', '\nint main() { m return 0; }'), ('#if ', '\n#endif\nint main() { return 0; }')])
    return pre + t * n + post


# --- counts --------------------------------------------------------------------------------------
@shape(EDGE)
def many_globals(n, r):
    return main('\tg%d = 1;' % (n - 1), ''.join('int g%d = %d;\n' % (k, k) for k in range(n)))


@shape(EDGE)
def many_locals(n, r):
    return main(''.join('\tint v%d = %d;\n' % (k, k) for k in range(n)))


@shape(MID)
def many_functions(n, r):
    return main('\tf%d();' % (n - 1), ''.join('void f%d() { }\n' % k for k in range(n)))


@shape(MID)
def many_declared(n, r):
    return main('', ''.join('int f%d(int, float);\n' % k for k in range(n)) + r.choice(['', 'int f0(int a, float b) { return 1; }']))


@shape(MID)
def many_parameters(n, r):
    return main('\tf(%s);' % ', '.join('1' for _ in range(n + r.choice([0, 0, 0, -1, 1]))),
                'int f(%s) { return a0; }' % ', '.join('int a%d' % k for k in range(n)))


@shape(MID)
def many_printf_args(n, r):
    return main('\tprintf("%s"%s);' % ('%i ' * n, ', 1' * (n + r.choice([0, 0, 0, -1, 1]))))


@shape(MID)
def many_print_args(n, r):
    return main('\tint a;\n\tprintid(%s);\n\tprint(%s);' % (', '.join(['a'] * n), '1'))


@shape(MID)
def many_members(n, r):
    return main('\tstruct s x;\n\tx.m%d = 1;' % (n - 1), 'struct s { %s };' % ' '.join('%s m%d;' % (r.choice(['int', 'float', 'bool', 'char']), k) for k in range(n)))


@shape(MID)
def many_enumerators(n, r):
    return main('\tint a = e%d;' % (n - 1), 'enum t { %s };' % ', '.join('e%d%s' % (k, r.choice(['', ' = %d' % k])) for k in range(n)))


@shape(MID)
def many_structs(n, r):
    return main('', '\n'.join('struct s%d { int a; %s };' % (k, 'struct s%d b;' % (k - 1) if k and k % 20 else '') for k in range(n)))


@shape(MID)
def many_initialisers(n, r):
    return main('\tint a[%s] = {%s};' % (r.choice([str(n), '', str(n + 1)]), ', '.join(str(k) for k in range(n))))


@shape(MID)
def many_cases(n, r):
    return main('\tint a = 1;\n\tswitch (a)\n\t{\n' + ''.join('\t\tcase %d: a = %d; break;\n' % (k, k) for k in range(n)) + '\t\tdefault: a = 0;\n\t}')


@shape(MID)
def many_errors(n, r):
    return main('\n'.join(r.choice(['\tx%d = 1;' % k, '\tint 5;', '\tif (', '\t) ;', '\t"a" = 1;', '\tf(;', '\tint a a;', '\tbreak']) for k in range(n)))


@shape(MID)
def many_warnings(n, r):
    return main('\tfloat a = 1.0;\n\tbool b;\n' + '\tb = a == a;\n' * n)


@shape(MID)
def many_typedefs(n, r):
    return main('\tt%d a = 1;' % (n - 1), 'typedef int t0;\n' + ''.join('typedef t%d t%d;\n' % (k - 1, k) for k in range(1, n)))


@shape(MID)
def many_constants(n, r):
    return main('\tfloat a;\n' + ''.join('\ta = %d.5;\n' % k for k in range(n)))


@shape(MID)
def many_strings(n, r):
    return main(''.join('\tprintf("s%d");\n' % k for k in range(n)))


@shape(SMALL)
def many_declarators(n, r):
    return main('\tint %s;' % ', '.join(r.choice(['a%d', '*a%d', 'a%d[2]', 'a%d = 1']) % k for k in range(n)))


# --- depths --------------------------------------------------------------------------------------
@shape(MID)
def deep_parentheses(n, r):
    return main('\tint a = %s1%s;' % ('(' * n, ')' * n))


@shape(MID)
def deep_expression(n, r):
    o = r.choice(['+', '-', '*', '&', '|', '^', '<<', '&&', '||', '==', '<', ',', '/'])
    return main('\tint a = 1;\n\tbool b = true;\n\ta = a %s;' % ' '.join([o + ' a'] * n))


@shape(MID)
def deep_unary(n, r):
    return main('\tint a = 1;\n\ta = %sa;' % (r.choice(['- ', '~', '!', '* ', '& ', 'abs ', '+ ']) * n))


@shape(MID)
def deep_ternary(n, r):
    e = 'a'
    for _ in range(min(n, 300)):
        e = r.choice(['a ? (%s) : 1', 'a ? 1 : %s', '(%s) ? a : 2']) % e
    return main('\tint a = 1;\n\ta = %s;' % e)


@shape(MID)
def deep_assignment(n, r):
    return main('\tint a = 1;\n\t%s1;' % ('a = ' * n))


@shape(MID)
def deep_blocks(n, r):
    return main('\t' + '{ int a; ' * n + '}' * n)


@shape(MID)
def deep_ifs(n, r):
    return main('\tint a = 1;\n\t' + r.choice(['if (a) ', 'if (a) a = 1; else ', 'while (a) ', 'for (; a; ) ', 'do ']) * n + 'a = 0;')


@shape(SMALL)
def deep_switches(n, r):
    return main('\tint a = 1;\n\t' + 'switch (a) { case 1: ' * n + 'a = 2; ' + '}' * n)


@shape(SMALL)
def deep_array(n, r):
    return main('\tint a%s;\n\ta%s = 1;' % ('[2]' * n, '[0]' * n) if n < 12 else '\tint a%s;' % ('[1]' * n))


@shape(SMALL)
def deep_initialiser(n, r):
    return main('\tint a%s = %s1%s;' % ('[1]' * n, '{' * n, '}' * n))


@shape(SMALL)
def deep_structs(n, r):
    return main('\tstruct s%d x;\n\tx%s.a = 1;' % (n - 1, '.b' * (n - 1)),
                'struct s0 { int a; };\n' + ''.join('struct s%d { struct s%d b; };\n' % (k, k - 1) for k in range(1, n)))


@shape(SMALL)
def deep_calls(n, r):
    return main('\tint a = %s1%s;' % ('f(' * n, ')' * n), 'int f(int a) { return a; }')


@shape(SMALL)
def deep_index(n, r):
    return main('\tint a[2];\n\tint b = %s0%s;' % ('a[' * n, ']' * n))


@shape(SMALL)
def deep_anonymous_structs(n, r):
    return 'struct { ' * n + 'int a; ' + '} a;' * n + main()


@shape(SMALL)
def deep_function_types(n, r):
    return main('', 'int f(' + 'int (*g)(' * n + 'int' + ')' * n + ') { return 1; }')


# --- preprocessor --------------------------------------------------------------------------------
@shape(EDGE)
def long_macro_name(n, r):
    return '#define %s 1\n' % ('m' * n) + main('\tint a = %s;' % ('m' * n))


@shape(EDGE)
def long_macro_body(n, r):
    return '#define m %s\n' % ' '.join(['1 +'] * n + ['1']) + main('\tint a = m;')


@shape(EDGE)
def long_macro_argument(n, r):
    return '#define m(x) x\n' + main('\tint a = m(%s1);' % ('1 + ' * n))


@shape(MID)
def many_macro_arguments(n, r):
    return '#define m(%s) %s\n' % (', '.join('x%d' % k for k in range(n)), ' + '.join('x%d' % k for k in range(n))) \
        + main('\tint a = m(%s);' % ', '.join(['1'] * (n + r.choice([0, 0, 0, 1, -1]))))


@shape(MID)
def many_macros(n, r):
    return ''.join('#define m%d %d\n' % (k, k) for k in range(n)) + main('\tint a = m%d;' % (n - 1))


@shape(SMALL)
def macro_chain(n, r):
    return '#define m0 1\n' + ''.join('#define m%d m%d + 1\n' % (k, k - 1) for k in range(1, n)) + main('\tint a = m%d;' % (n - 1))


@shape(SMALL)
def macro_recursive(n, r):
    return '#define m(x) %sm(x)%s\n' % ('(' * (n % 5), ')' * (n % 5)) + main('\tint a = m(1);')


@shape(SMALL)
def macro_recursive_argument(n, r):
    return '#define F(x) x %s\n#define N F(N)\n' % r.choice(['x', 'x x', '# x', '+ x']) + main('\tN;\n' * (1 + n // 100))


@shape(SMALL)
def skipped_apostrophes(n, r):
    return '#if 0\n' + "don't \"do\n" * n + '#endif\n' + main('\tint a = 1;')


@shape(SMALL)
def macro_redefined(n, r):
    return '#define A 1\n#set A\n#set A 2\n' * n + main('\tint a = A;')


@shape(SMALL)
def nested_macro_calls(n, r):
    return '#define m(x) (x)\n' + main('\tint a = %s1%s;' % ('m(' * n, ')' * n))


@shape(MID)
def multiline_macro(n, r):
    return '#macro m(x)\n' + '\tprintf("%i", x);\n' * n + '#endm\n' + main('\tm(1)')


@shape(SMALL)
def deep_conditions(n, r):
    return '#define A 1\n' + '#if A\n' * n + 'int g;\n' + '#endif\n' * (n + r.choice([0, 0, -1, 1])) + main()


@shape(SMALL)
def many_elif(n, r):
    return '#if 0\n' + '#elif 0\nint x;\n' * n + '#else\n#endif\n' + main()


@shape(MID)
def loop_directive(n, r):
    return '#define i 0\n#while i < %d\n#set i (i + 1)\nint g##i;\n#endw\n' % min(n, 257) + main()


@shape(SMALL)
def loop_eval(n, r):
    return '#define i 0\n#while i < %d\n#set i #eval(i + 1)\n#endw\n' % min(n, 257) + main('\tint a = i;')


@shape(MID)
def eval_expression(n, r):
    return main('\tint a = #eval(%s)\n\t;' % ' '.join(['1 %s' % r.choice(['+', '-', '*', '|', '&', '<', '==', '&&', '||', '/', '%', '<<']) for _ in range(n)] + ['1']))


@shape(MID)
def eval_depth(n, r):
    return main('\tint a = #eval(%s1%s)\n\t;' % (r.choice(['(', '-(', '!', '- ', '~']) * n, ')' * n))


@shape(EDGE)
def long_include_name(n, r):
    return '#include %s%s%s\n' % (r.choice(['"', '<', '']), r.choice(['a', 'a/', '../', 'Ю', './']) * n, r.choice(['"', '>', '.h"'])) + main()


@shape(EDGE)
def line_splices(n, r):
    return '#define m 1 ' + '\\\n' * n + '+ 1\n' + main('\tint a = m;')


@shape(EDGE)
def stringize(n, r):
    return '#define s(x) #x\n' + main('\tprintf(s(%s));' % (r.choice(['a', 'a b ', '\\"q\\"', 'Щ', '"']) * n))


@shape(EDGE)
def paste(n, r):
    return '#define p(x, y) x##y\n' + main('\tint %s = 1;\n\tp(%s, %s) = 2;' % ('a' * 2 * n, 'a' * n, 'a' * n))


@shape(SMALL)
def directive_garbage(n, r):
    d = r.choice(['define', 'set', 'undef', 'macro', 'endm', 'if', 'ifdef', 'ifndef', 'elif', 'else', 'endif', 'while', 'endw', 'eval', 'include', 'line', 'unknown', ''])
    return '#%s %s\n' % (d, r.choice(['(', '"', "'", 'a', '1', '#', '##', '\\', 'a(', 'a(x', 'a(x,', 'a(x, x)', '/*', '//', ')', 'Ы', '@', '1 +', '-']) * n) * r.choice([1, 1, 2]) + main()


@shape(SMALL)
def comments_everywhere(n, r):
    c = r.choice(['/**/', '/* x */', '/*\n*/', '//\n'])
    return c.join(['int', ' main', '(', ')', '{', 'int', ' a', '=', '1', ';', 'return', ' 0', ';', '}'] if n < 3 else ['int ', 'main', '()', '{', c * n, '}'])


def all_cases(seed, rounds=1):
    out = []
    for name in sorted(SHAPES):
        f, sizes = SHAPES[name]
        for n in sizes:
            for k in range(rounds):
                out.append((name, n, '%s/%s/%d/%d' % (seed, name, n, k)))
    return out


def make(case):
    name, n, key = case
    r = random.Random(key)
    try:
        return SHAPES[name][0](n, r)
    except TypeError:
        return SHAPES[name][0](n, r)
