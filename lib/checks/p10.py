"""P10: several source files and included files mean the one text they stand for."""
import os
import posixpath
import random
import shutil
import tempfile

import frame
import gen
import p08
import pp
import respell

DIRS = ['', 'sub', 'sub/deep', 'inc1', 'inc2', 'inc2/sub', 'other', 'папка', 'with space']
NAMES = ['a.h', 'b.h', 'c.h', 'x.c', 'имя.h', 'no_suffix', 'long name.h', 'd.h']


def norm(p):
    p = posixpath.normpath(p)
    return '' if p == '.' else p


class Files(pp.Model):
    """Model with files: path -> nodes; includes are resolved the way the language describes."""
    def __init__(self, tree, dirs, defs=None):
        super().__init__(defs)
        self.tree, self.dirs = tree, dirs
        self.here = None
        self.deep = 0
        self.log = []

    def resolve(self, quote, name):
        name = name.replace('\\\\', '/')
        near = norm(posixpath.join(posixpath.dirname(self.here), name))
        far = [norm(posixpath.join(x, name)) for x in self.dirs]
        order = [near] + far if quote == '"' else far + [near]
        for i, p in enumerate(order):
            if p in self.tree:
                self.seen.add('include %s found at %d of %d' % (quote, i, len(order)))
                return p
        return None

    def run(self, nodes):
        out = []
        for n in nodes:
            if n[0] != 'include':
                out += super().run([n])
                continue
            p = self.resolve(n[1], n[2])
            if p is None:
                raise pp.Wrong('missing')
            if p in self.included:
                self.seen.add('included again')
                continue
            if self.deep >= 32:
                raise pp.Wrong('depth')
            self.included.add(p)
            before, self.here = self.here, p
            self.deep += 1
            self.seen.add('depth %d' % self.deep)
            out += self.run(self.tree[p])
            self.deep -= 1
            self.here = before
        return out

    def sources(self, names):
        out = []
        for s in names:
            self.included.add(s)
            self.here = s
            out += self.run(self.tree[s])
        return out


def spelled(r, model, here, target):
    """A name for target as seen from the file here, or None."""
    ways = []
    base = posixpath.dirname(here)
    rel = posixpath.relpath(target, base or '.')
    ways.append(('"', rel))
    ways.append(('"', './' + rel))
    if base and not rel.startswith('..'):
        ways.append(('"', '../' + posixpath.basename(base) + '/' + rel))
    if '/' in rel and not rel.startswith('..'):
        ways.append(('"', rel.replace('/', '\\\\')))
    for x in model.dirs:
        rx = posixpath.relpath(target, x or '.')
        ways += [('<', rx), ('"', rx)]
    ways += [('<', rel), (r.choice('"<'), posixpath.basename(target)), (r.choice('"<'), posixpath.basename(target))]
    return r.choice(ways)


def layout(r):
    """tree, source names, search directories"""
    g = pp.Gen(r, 'both')
    dirs = r.sample([x for x in DIRS if x], r.choice([0, 1, 1, 2, 3]))
    sources = ['main.c'] + ['second.c', 'sub/third.c'][:r.choice([0, 0, 0, 1, 2])]
    if r.random() < 0.2:
        sources[0] = 'sub/main.c'
    headers = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        p = posixpath.join(r.choice(DIRS), r.choice(NAMES[:r.choice([2, 8])]))
        if p not in headers:
            headers.append(p)
    tree = {}
    m = Files({}, dirs)

    def content(path, k):
        nodes = g.values() if k == 0 else []
        nodes += [g.define() for _ in range(r.randint(0, 2))]
        nodes += g.block(1, r.choice([0, 1, 2, 3]))
        mark = 'mark_%d' % k
        nodes.insert(r.randint(0, len(nodes)) if k else len(nodes), ('text', [(mark, True)]))
        return nodes

    def inclusion(here, allowed):
        if r.random() < 0.01:
            return ('include', r.choice('"<'), 'missing.h')
        m.here = here
        for _ in range(r.choice([1, 8, 8])):
            q, name = spelled(r, m, here, r.choice(allowed))
            if m.resolve(q, name):
                break
        return ('include', q, name)
    m.tree = set(sources + headers)
    for k, p in enumerate(sources + headers):
        tree[p] = content(p, k)
    for k, p in enumerate(sources + headers):
        allowed = headers + (sources[:1] if r.random() < 0.1 else [])
        for _ in range(r.choice([0, 1, 2]) if p in headers else r.choice([1, 2, 3])):
            n = inclusion(p, allowed)
            x = r.random()
            if x < 0.75:
                tree[p].insert(r.randint(0, len(tree[p])), n)
            elif x < 0.85:
                tree[p].append(('if', [([('1', True)], [n])], None))
            elif x < 0.92:
                tree[p].append(('if', [([('0', True)], [('include', '"', 'never.h'), n])], None))
            else:
                tree[p].append(('ifdef', r.random() < 0.5, 'A', [n], [], None))
    return tree, sources, dirs


def put(d, path, text, r):
    full = os.path.join(d, path)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if r.random() < 0.2:
        text = text.rstrip('\n') if not text.rstrip('\n').endswith('\\') else text
    if r.random() < 0.1 and '\\\n' not in text and '//' not in text and '/*' not in text:
        text = text.replace('\n', '\r\n')
    with open(full, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return text


def tree_case(res, r, d):
    tree, sources, dirs = layout(r)
    m = Files(tree, dirs)
    try:
        want = pp.flat(m.sources(sources))
    except pp.Wrong:
        want = None
    for x in dirs:
        os.makedirs(os.path.join(d, x), exist_ok=True)
    texts = {}
    for p, nodes in tree.items():
        texts[p] = put(d, p, pp.Render(random.Random(r.random()), plain=r.random() < 0.3).nodes(nodes), r)
    absolute = r.random() < 0.2

    def given(p):
        if absolute:
            return os.path.join(d, p)
        return r.choice(['', '', './', 'sub/../']) + p if os.path.isdir(os.path.join(d, 'sub')) else p
    args = []
    opts = ['-I' + given(x) + r.choice(['', '', '/']) for x in dirs]
    files = [given(s) for s in sources]
    other = ['-Wno', '-E', ('-o', 'out.txt')]
    r.shuffle(other)
    mixed = [iter(opts), iter(files), iter(other)]
    counts = [len(opts), len(files), len(other)]
    while any(counts):
        k = r.choice([i for i in range(3) if counts[i]])
        counts[k] -= 1
        x = next(mixed[k])
        args += list(x) if isinstance(x, tuple) else [x]
    run = frame.execute([p08.BIN['rel']] + args, d, 20)
    c = frame.Compiled()
    c.run = run
    try:
        with open(os.path.join(d, 'out.txt'), 'rb') as f:
            c.output = f.read()
    except OSError:
        c.output = None
    bad = p08.compare(c, want)
    res['n'] += 1
    res['saw'] += ['tree: ' + s for s in m.seen if 'include' in s or 'depth' in s] + ['tree: %d sources, %s' % (len(sources), 'absolute' if absolute else 'relative')]
    res['info']['files read'] += len(m.included)
    if want is None:
        res['info']['trees that have to be rejected'] += 1
    if bad:
        files = dict(texts)
        files['command.txt'] = ' '.join(args)
        files['expected.txt'] = ' '.join(want) if want is not None else 'rejected'
        res.violation('tree:' + bad[0], bad[1] + '\ncommand: ' + ' '.join(args) + '\nfiles: ' + ', '.join(tree), files)
    return texts.get('main.c')


def split_program(res, r, seed, k, d):
    """A program cut at the borders of its declarations into files."""
    p, src, _, _ = gen.generate('p10-%s-%s' % (seed, k), size=r.choice([0.4, 0.8]), feats={'cyr': r.random() < 0.5})
    toks = respell.tokens(src)
    cuts, level = [0], 0
    pos = 0
    for i, t in enumerate(toks):
        level += (t in '([{') - (t in ')]}') if len(t) == 1 else 0
        pos += len(t)
        if level == 0 and t in (';', '}') and not (t == '}' and next((x for x in toks[i + 1:] if not x.isspace()), '') in (';', ',')):
            nxt = next((x for x in toks[i + 1:] if not x.isspace()), '')
            if t == ';' or nxt not in (';',) and not (pp.word(nxt) and t == '}' and struct_end(toks, i)):
                cuts.append(pos)
    parts = [src[a:b] for a, b in zip(cuts, cuts[1:])] + [src[cuts[-1]:]]
    if len(parts) < 2:
        return
    files, order, main = {}, [], []
    n = 0
    # each part stays in the main file or goes to a file of its own, possibly a chain of includes
    stack = main
    sources = []
    for part in parts:
        x = r.random()
        if x < 0.5:
            stack.append(part)
        elif x < 0.85:
            n += 1
            name = r.choice(['p%d.h', 'sub/p%d.h', 'inc/p%d.h']) % n
            files[name] = part
            stack.append('\n#include ' + ('<p%d.h>' % n if name.startswith('inc/') else '"%s"' % name) + '\n')
        else:
            stack.append(part)
            sources.append(''.join(stack))
            stack = []
            main = stack
    sources.append(''.join(stack))
    names = []
    for i, s in enumerate(sources):
        names.append('s%d.c' % i)
        files['s%d.c' % i] = s
    # everything included a second time adds nothing
    again = [x for x in files if x.endswith('.h')]
    if again and r.random() < 0.5:
        files[names[-1]] += '\n' + ''.join('#include "%s"\n' % x for x in again)
    os.makedirs(os.path.join(d, 'inc'), exist_ok=True)
    for t in ('-VM', '-LLVM'):
        a = frame.compile_text(p08.BIN['rel'], src, t, keep=d)
        for name, text in files.items():
            full = os.path.join(d, name)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'w', encoding='utf-8') as f:
                f.write(text)
        run = frame.execute([p08.BIN['rel']] + names + [t, '-Iinc', '-o', 'out2.txt'], d, 20)
        if run.timeout or a.run.timeout or a.run.rc not in (0, 64):
            continue
        out = b''
        if os.path.exists(os.path.join(d, 'out2.txt')):
            with open(os.path.join(d, 'out2.txt'), 'rb') as f:
                out = f.read()
        res['n'] += 1
        res['saw'].append('program %s in %d sources, %d headers' % (t, len(names), len(files) - len(names)))
        rep = dict(files)
        rep['whole.c'] = src
        if run.rc != a.run.rc:
            res.violation('program:accept:' + t, 'program in files: exit %s instead of %s\n%s' % (run.rc, a.run.rc, run.text[-1000:]), rep)
        elif run.rc == 0 and out != a.output:
            res.violation('program:code:' + t, 'program in files compiles to other code', rep)


def struct_end(toks, i):
    """Does the closing bracket at i end a struct or initialiser (rather than a function)?"""
    level = 0
    for j in range(i, -1, -1):
        level += (toks[j] == '}') - (toks[j] == '{')
        if level == 0:
            prev = [x for x in toks[max(0, j - 6):j] if not x.isspace()]
            return not (prev and prev[-1] == ')')
    return True


def fixed(res, d):
    """Limits and failures."""
    def one(name, files, args, ok, want=None):
        w = tempfile.mkdtemp(dir=d)
        for n, t in files.items():
            full = os.path.join(w, n)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if t is None:
                os.makedirs(full)
                continue
            with open(full, 'w') as f:
                f.write(t)
        run = frame.execute([p08.BIN['rel']] + args + ['-E', '-Wno', '-o', 'out.txt'], w, 20)
        if run.timeout:
            return
        res['n'] += 1
        res['saw'].append('case: ' + name)
        got = None
        if os.path.exists(os.path.join(w, 'out.txt')):
            with open(os.path.join(w, 'out.txt'), encoding='utf-8') as f:
                got = pp.lex(f.read())
        if (run.rc == 0) != ok or ok and want is not None and got != want:
            res.violation('case:' + name, 'exit %s, tokens %s instead of %s\n%s' % (run.rc, got, want, run.text[-600:]),
                          {n: t for n, t in files.items() if t is not None})
        if not ok and run.rc != 0 and not run.err and not run.out:
            res.violation('silent:' + name, 'fails without a message', {})
    for n in (1, 5, 31, 32, 33, 60):
        chain = {'main.c': '#include "h1.h"\nmain\n'}
        for i in range(1, n + 1):
            chain['h%d.h' % i] = ('#include "h%d.h"\n' % (i + 1) if i < n else '') + 'h%d\n' % i
        one('chain of %d' % n, chain, ['main.c'], n <= 32, ['h%d' % i for i in range(n, 0, -1)] + ['main'])
    many = {'main.c': ''.join('#include "h%d.h"\n' % i for i in range(200)) * 2 + 'main\n'}
    for i in range(200):
        many['h%d.h' % i] = 'h%d\n' % i
    one('200 headers twice', many, ['main.c'], True, ['h%d' % i for i in range(200)] + ['main'])
    one('includes itself', {'main.c': 'a\n#include "main.c"\nb\n'}, ['main.c'], True, ['a', 'b'])
    one('cycle', {'main.c': '#include "x.h"\nm\n', 'x.h': 'x\n#include "y.h"\nx2\n', 'y.h': 'y\n#include "x.h"\n#include "main.c"\ny2\n'}, ['main.c'], True, ['x', 'y', 'y2', 'x2', 'm'])
    one('missing quoted', {'main.c': '#include "x.h"\n'}, ['main.c'], False)
    one('missing angle', {'main.c': '#include <x.h>\n', 'inc/y.h': ''}, ['main.c', '-Iinc'], False)
    one('directory', {'main.c': '#include "x"\n', 'x': None}, ['main.c'], False)
    one('missing in a header', {'main.c': '#include "x.h"\n', 'x.h': '#include "nothing.h"\n'}, ['main.c'], False)
    one('missing source', {'main.c': 'm\n'}, ['main.c', 'other.c'], False)
    one('missing first source', {'main.c': 'm\n'}, ['other.c', 'main.c'], False)
    one('missing directory', {'main.c': 'm\n'}, ['main.c', '-Inowhere'], False)
    one('no name', {'main.c': '#include\nm\n'}, ['main.c'], False)
    one('no quote', {'main.c': '#include x.h\nm\n', 'x.h': 'x\n'}, ['main.c'], False)
    one('unterminated name', {'main.c': '#include "x.h\nm\n', 'x.h': 'x\n'}, ['main.c'], False)
    one('unterminated angle', {'main.c': '#include <x.h\nm\n', 'x.h': 'x\n'}, ['main.c'], False)
    one('group across files', {'main.c': '#include "x.h"\n#endif\n', 'x.h': '#if 1\nx\n'}, ['main.c'], False)
    one('group closed by a header', {'main.c': '#if 1\n#include "x.h"\n', 'x.h': 'x\n#endif\n'}, ['main.c'], False)
    one('comment across files', {'main.c': '#include "x.h"\n*/\nm\n', 'x.h': 'x /* c\n'}, ['main.c'], False)
    one('error in a header', {'main.c': '#include "x.h"\nm\n', 'x.h': '#error_directive\n'}, ['main.c'], False)
    one('empty header', {'main.c': '#include "x.h"\nm\n', 'x.h': ''}, ['main.c'], True, ['m'])
    one('same source twice', {'main.c': 'm\n'}, ['main.c', './main.c'], True, ['m'])
    one('include in a macro', {'main.c': '#macro M\n#include "x.h"\n#endm\nM\n', 'x.h': 'x\n'}, ['main.c'], False)
    one('two sources', {'b.c': 'b\n', 'a.c': 'a\n'}, ['b.c', 'a.c'], True, ['b', 'a'])
    one('macros go on', {'b.c': '#define X 1\n', 'a.c': 'X\n'}, ['b.c', 'a.c'], True, ['1'])
    one('order of directories', {'m.c': '#include <x.h>\n', '1/x.h': 'one\n', '2/x.h': 'two\n'}, ['m.c', '-I2', '-I1'], True, ['two'])
    one('quoted is near first', {'m.c': '#include "x.h"\n', '1/x.h': 'one\n', 'x.h': 'near\n'}, ['m.c', '-I1'], True, ['near'])
    one('angle is far first', {'m.c': '#include <x.h>\n', '1/x.h': 'one\n', 'x.h': 'near\n'}, ['m.c', '-I1'], True, ['one'])
    one('back after an include', {'m.c': '#include "1/x.h"\n#include "y.h"\n', '1/x.h': 'x\n', '1/y.h': 'wrong\n', 'y.h': 'y\n'}, ['m.c'], True, ['x', 'y'])
    one('back after an include again', {'m.c': '#include "1/x.h"\n#include "1/x.h"\n#include "y.h"\n', '1/x.h': 'x\n', '1/y.h': 'wrong\n', 'y.h': 'y\n'}, ['m.c'], True, ['x', 'y'])
    one('two ways to one file', {'m.c': '#include "1/x.h"\n#include "1/../1/x.h"\n#include "./1/x.h"\n#include <x.h>\n', '1/x.h': 'x\n'}, ['m.c', '-I1', '-I./1'], True, ['x'])


def case(key):
    kind, seed, k = key
    res = frame.Result()
    r = random.Random('p10-%s-%s-%s' % (kind, seed, k))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        if kind == 'tree':
            text = tree_case(res, r, d)
            if k == 0:
                res['sample'] = text
        elif kind == 'fixed':
            fixed(res, d)
        else:
            split_program(res, r, seed, k, d)
    except (pp.TooLong, RecursionError):
        res['info']['documents beyond the limits of the model'] += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def known(ctx):
    """The same file under an absolute and a relative name."""
    d = tempfile.mkdtemp(dir=ctx.work)
    for n, t in {'m.c': '#include "1/x.h"\n#include <x.h>\n', '1/x.h': 'x\n'}.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), 'w') as f:
            f.write(t)
    run = frame.execute([p08.BIN['rel'], 'm.c', '-I' + os.path.join(d, '1'), '-E', '-o', 'out.txt'], d, 20)
    if run.rc == 0:
        with open(os.path.join(d, 'out.txt'), encoding='utf-8') as f:
            got = pp.lex(f.read())
        ctx.known_probe('same-file-by-absolute-and-relative-name', got == ['x', 'x'],
                        'a file included through a relative name and through an absolute -I directory is included twice')


def run(ctx):
    p08.BIN['rel'] = ctx.build('rel')
    ctx.rule = ('file trees whose preprocessed tokens were compared with the model, programs cut into files whose code was compared with the whole program, '
                'and fixed cases of limits and failures; distinct = (kind of name, place where it was found), depths, numbers of files, cases')
    ctx.assumptions += ['one tree names its files either all relatively or all absolutely (see the known finding)', 'no symbolic links']
    known(ctx)
    ctx.map(case, [('fixed', ctx.seed, 0)] + [('tree', ctx.seed, k) for k in range(ctx.size(12000, 150000))]
            + [('program', ctx.seed, k) for k in range(ctx.size(3000, 40000))], chunk=8)
