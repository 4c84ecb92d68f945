"""Rewritings of a program that keep its meaning: spellings, names, layout, comments."""
import re

import mutate

KEYWORDS = [('main', 'главная'), ('char', 'литера'), ('double', 'двойной'), ('float', 'вещ'), ('int', 'цел'), ('long', 'длин'),
            ('struct', 'структура'), ('enum', 'перечисление'), ('void', 'пусто'), ('file', 'файл'), ('typedef', 'типопр'), ('if', 'если'),
            ('else', 'иначе'), ('do', 'цикл'), ('while', 'пока'), ('for', 'для'), ('switch', 'выбор'), ('case', 'случай'),
            ('default', 'умолчание'), ('break', 'выход'), ('continue', 'продолжить'), ('return', 'возврат'), ('null', 'ничто'),
            ('abs', 'абс'), ('upb', 'кол_во'), ('bool', 'булево'), ('true', 'истина'), ('false', 'ложь'), ('const', 'конст')]
BUILTINS = [('assert', 'проверить'), ('asin', 'асин'), ('cos', 'кос'), ('sin', 'син'), ('exp', 'эксп'), ('log', 'лог'),
            ('log10', 'лог10'), ('sqrt', 'квкор'), ('rand', 'случ'), ('round', 'округл'), ('strncpy', 'копир_н_симв'),
            ('strcat', 'конкат_строки'), ('strcmp', 'сравн_строк'), ('strncmp', 'сравн_н_симв'), ('strstr', 'нач_подстрок'),
            ('send_int_to_robot', 'послать_цел_на_робот'), ('send_float_to_robot', 'послать_вещ_на_робот'),
            ('send_string_to_robot', 'послать_строку_на_робот'), ('receive_int_from_robot', 'получить_цел_от_робота'),
            ('receive_float_from_robot', 'получить_вещ_от_робота'), ('receive_string_from_robot', 'получить_строку_от_робота'),
            ('t_create', 'н_создать'), ('t_getnum', 'н_номер_нити'), ('t_sleep', 'н_спать'), ('t_join', 'н_присоед'), ('t_exit', 'н_конец'),
            ('t_init', 'н_начать'), ('t_destroy', 'н_закончить'), ('t_sem_create', 'н_создать_сем'), ('t_sem_wait', 'н_вниз_сем'),
            ('t_sem_post', 'н_вверх_сем'), ('t_msg_send', 'н_послать'), ('t_msg_receive', 'н_получить'), ('fopen', 'фоткрыть'),
            ('fgetc', 'фчитать_символ'), ('fputc', 'фписать_символ'), ('fclose', 'фзакрыть'), ('exit', None), ('printf', 'печатьф'),
            ('print', 'печать'), ('printid', 'печатьид'), ('getid', 'читатьид')]
SPELL = {}
for _e, _r in KEYWORDS:
    for _w in (_e, _e.upper(), _r, _r.upper()):
        SPELL[_w] = [_e, _e.upper(), _r, _r.upper()]
for _e, _r in BUILTINS:
    if _r is None:
        SPELL[_e] = SPELL[_e.upper()] = [_e, _e.upper()]
    else:
        for _w in (_e, _e.upper(), _r, _r.upper()):
            SPELL[_w] = [_e, _e.upper(), _r, _r.upper()]
LETTERS = 'abcxyzABCXYZqwQW_абвгдежзийклмнопрстуфхцчшщъыьэюяёАБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ'


def word(t):
    return t[0].isalpha() or t[0] == '_'


def spelled(r, toks):
    return [r.choice(SPELL[t]) if t in SPELL else t for t in toks]


def renamed(r, toks, keep=('numTh', 'data')):
    """A consistent renaming in which every name keeps its length (in characters); some names trade places."""
    names = sorted({t for t in toks if word(t) and t not in SPELL and t not in keep})
    by = {}
    for n in names:
        by.setdefault(len(n), []).append(n)
    m, used = {}, set(names) | set(SPELL) | set(keep)
    for ln, ns in by.items():
        if r.random() < 0.4:
            p = ns[:]
            r.shuffle(p)
            m.update(zip(ns, p))
            continue
        for n in ns:
            for _ in range(60):
                if r.random() < 0.3 and m and ln > 1:       # near twins of other names
                    o = r.choice(list(m.values()))
                    c = (o + 'xx1Яё_' * 3)[:ln - 1] + r.choice(LETTERS + '0123456789')
                else:
                    c = r.choice(LETTERS) + ''.join(r.choice(LETTERS + '0123456789') for _ in range(ln - 1))
                if c not in used and not c[0].isdigit():
                    break
            else:
                c = n
            used.add(c)
            m[n] = c
    # a trade and a fresh name may collide only if a fresh name equals an existing one, which is excluded
    return [m.get(t, t) for t in toks], m


COMMENTS = ['/**/', '/* x */', '/***/', '/* " */', "/* ' */", '/* // */', '/* #define int float */', '/* } */', '/*\n*/', '/* a\n\tb\n*/', '/*/*/',
            '/* * / */', '/* Комментарий; */', '/* \\ */', '/* "\n" */', '/****\n ** x\n ****/', '/*\r\n*/', '/* € 漢 𝄞 */', '/* /* */', '/* \'a */', '/*"*/']
LINE = ['//', '// x', '// "', "// '", '// /*', '// */', '// int a;', '// Строка {', '//// a // b', '//\t#if 0', '// 漢字 €', '//*', '///*', '// it\'s "']


def blank(r, need, style):
    """White space between two tokens; need: they would run together without it."""
    if not need and r.random() < (0.55, 0.2, 0.9)[style]:
        return ''
    out = ''
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.random()
        if k < 0.45:
            out += r.choice([' ', ' ', '\t', '  ', '   \t'])
        elif k < 0.7:
            out += r.choice(['\n', '\n', '\r\n', '\n\n', '\n\t', ' \n '])
        elif k < 0.88:
            out += r.choice(COMMENTS)
        else:
            out += r.choice(LINE) + r.choice(['\n', '\n', '\r\n'])
    return out


def relayout(r, toks):
    """Tokens joined with other white space.  Comments count as white space."""
    style = r.randrange(3)
    toks = [t for t in toks if not t.isspace() and not t.startswith('//') and not t.startswith('/*')]
    out = [blank(r, False, style)]
    if r.random() < 0.5 and '#' not in toks:
        toks = [p for t in toks for p in pieces(r, t)]
    for a, b in zip(toks, toks[1:] + ['']):
        out.append(a)
        w = blank(r, b != '' and glue(a, b), style)
        out.append(' ' + w if a == '/' and w.startswith('/') else w)
    s = ''.join(out)
    if s.lstrip(' \t\n\r').startswith('#'):
        return '\n' + s
    return s


def pieces(r, t):
    """Adjacent string literals are one literal."""
    if t[0] != '"' or t[-1] != '"' or len(t) < 2 or r.random() < 0.7:
        return [t]
    cut = r.randint(1, len(t) - 1)
    if t[cut - 1] == '\\' or '\\' in t[:cut] and len(t[:cut]) - len(t[:cut].rstrip('\\')):
        return [t]
    return [t[:cut] + '"', '"' + t[cut:]]


def glue(a, b):
    x, y = a[-1], b[0]
    w = lambda c: c.isalnum() or c == '_'
    if w(x) and w(y) or w(x) and y == '.' or x == '.' and w(y):
        return True
    if x == '"' and y == '"':
        return False
    return not w(x) and not w(y) and x not in '()[]{};,"\'' and y not in '()[]{};,"\''


def tokens(src):
    out = []
    for t in mutate.tokens(src):
        if out and (t in '+-' and NUM_E.match(out[-1]) or t[0].isdigit() and NUM_S.match(out[-1]) or t[0].isdigit() and out[-1] == '.'):
            out[-1] += t
        elif t == '.' and out and out[-1].isdigit():
            out[-1] += t
        else:
            out.append(t)
    return out


NUM_E = re.compile(r'(\d+\.?\d*|\.\d+)[eE]$')
NUM_S = re.compile(r'(\d+\.?\d*|\.\d+)[eE][-+]$')
