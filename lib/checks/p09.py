"""P09: conditional groups, loops and expressions of the preprocessor."""
import random
import shutil
import tempfile

import frame
import p08
import pp


def arithmetic(res, r, d):
    """Many expressions at once, each with its own value."""
    g = pp.Gen(r, 'directives')
    nodes = g.values()
    exprs, want = [], []
    for _ in range(40):
        e = g.expr(r.randint(1, 7))
        m = pp.Model()
        try:
            m.run(nodes)
            v = m.condition(e)
        except (pp.Wrong, pp.TooLong):
            continue
        exprs.append((e, v))
    doc = list(nodes)
    for e, v in exprs:
        way = r.choice(['eval', 'if', 'define', 'elif', 'while', 'set'])
        if way == 'eval':
            doc.append(('eval', e))
        elif way == 'if':
            doc.append(('if', [(e, [('text', [('yes', True)])])], [('text', [('no', True)])]))
        elif way == 'elif':
            doc.append(('if', [([('0', True)], []), (e, [('text', [('yes', True)])])], [('text', [('no', True)])]))
        elif way == 'while':
            doc += [('define', 'set', 'ONCE', [], [('t', '1', True)]),
                    ('while', [('ONCE', True), ('&&', True), ('(', True)] + e + [(')', True)],
                     [('define', 'set', 'ONCE', [], [('t', '0', True)]), ('text', [('again', True)])]), ('text', [('done', True)])]
        else:
            doc += [('define', 'set', 'VALUE', [], [('e', e, True)]), ('text', [('VALUE', True)])]
        res['saw'] += ['operator %s %s' % (t, way) for t, _ in e if t in pp.PREC or t in '~!']
    rseed = r.random()
    bad, text, want, m = p08.judged(doc, d, rseed)
    res['n'] += len(exprs)
    res['info']['expressions computed'] += len(exprs)
    if bad:
        def fails(x):
            b = p08.judged(x, d, rseed)[0]
            return b is not None and b[0] == bad[0]
        small = p08.shrink(doc, fails)
        b2, text2, _, _ = p08.judged(small, d, rseed)
        res.violation('arithmetic:' + bad[0], (b2 or bad)[1] + '\n--- document\n' + text2, {'document.c': text2, 'full.c': text})


def limits(res, d):
    """Depth and repetition limits: just below works, beyond is rejected."""
    def one(name, text, ok):
        c = p08.preprocess(text, d)
        if c.run.timeout:
            return
        res['n'] += 1
        res['saw'].append('limit %s %s' % (name, 'below' if ok else 'beyond'))
        if (c.run.rc == 0) != ok:
            res.violation('limit:%s:%s' % (name, ok), 'exit %s\n%s\n%s' % (c.run.rc, c.run.text[-800:], text[:600]), {'document.c': text})
        return c
    for n in (0, 1, 5, 300, 3000):
        c = one('iterations', '#set I 0\n#while I < %d\nx I\n#set I #eval I + 1\n#endw\nend\n' % n, True)
        got = pp.lex((c.output or b'').decode()) if c else None
        if c and got != [t for i in range(n) for t in ('x', str(i))] + ['end']:
            res.violation('limit:loop tokens', 'a loop of %d repetitions gives %d tokens' % (n, len(got)), {})
    one('iterations', '#while 1\n#endw\n', False)
    one('iterations', '#set I 0\n#while I < 40000\n#set I #eval I + 1\n#endw\n', False)
    for n in (1, 10, 60, 200):
        nest = ''.join('#if %s\n' % ('1' if i % 2 == 0 else '!0') for i in range(n)) + 'deep\n' + '#endif\n' * n
        c = one('nesting', nest, True)
        if c and pp.lex((c.output or b'').decode()) != ['deep']:
            res.violation('limit:nesting tokens', '%d nested groups lost their text' % n, {'document.c': nest})
        one('nesting', nest[:-7], False)
        one('nesting', nest + '#endif\n', False)
        skipped = '#if 0\n' + nest + '#else\nother\n#endif\n'
        c = one('nesting skipped', skipped, True)
        if c and pp.lex((c.output or b'').decode()) != ['other']:
            res.violation('limit:skipped tokens', '%d nested skipped groups' % n, {'document.c': skipped})


def case(key):
    kind, seed, k = key
    res = frame.Result()
    r = random.Random('p09-%s-%s-%s' % (kind, seed, k))
    d = tempfile.mkdtemp(dir=frame.WORK)
    try:
        if kind in ('doc', 'junk'):
            text = p08.document(res, r, 'directives', d, kind, kind == 'junk')
            if k == 0:
                res['sample'] = text
        elif kind == 'broken':
            p08.broken(res, r, pp.BROKEN_DIRECTIVE, d, 'broken', 'directives')
        elif kind == 'limits':
            limits(res, d)
        else:
            arithmetic(res, r, d)
    except pp.TooLong:
        res['info']['documents beyond the limits of the model'] += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def run(ctx):
    p08.BIN['rel'] = ctx.build('rel')
    ctx.rule = ('documents (and single expressions) whose tokens after preprocessing were compared with the model, documents with broken text in groups '
                'never entered, and broken documents that had to be rejected; distinct = kinds of step of the model, operators and where they stood, broken constructions')
    ctx.assumptions += ['every operand of && and || is computed, as the implementation documents', 'identifiers that are not macros count as 0']
    ctx.map(case, [('limits', ctx.seed, 0)] + [('doc', ctx.seed, k) for k in range(ctx.size(9000, 120000))] + [('junk', ctx.seed, k) for k in range(ctx.size(7000, 100000))]
            + [('broken', ctx.seed, k) for k in range(ctx.size(1500, 12000))] + [('arith', ctx.seed, k) for k in range(ctx.size(1500, 30000))], chunk=8)
