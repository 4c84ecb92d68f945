"""P15: random histories of container operations; each result is compared with a mathematical model's."""
import build
import containers
import frame

EXE = {}
WIDTHS = [-64, -32, -16, 64, 32, 8, -8, 16]


def judge(case):
    width, name, seed, ops = case
    model = [m for m in containers.MODELS if m.__name__ == name][0]
    r = frame.Result()
    m, e, log = containers.history(EXE[width], width, model, '%s-%s-%s' % (width, name, seed), ops)
    r['n'] = m.ops
    r['saw'] += ['%d bit %s' % (width, s) if width != -64 else s for s in sorted(m.saw)]
    r['info']['histories of ' + name] += 1
    if e:
        r.violation(e.key, 'table word %d, %s\n%s\nhistory of %d operations, the last:\n%s' % (width, name, e.text, len(log), '\n'.join(log[-8:])),
                    {'history.txt': '\n'.join(log) + '\n'})
    return r


def run(ctx):
    widths = WIDTHS if not ctx.quick else [-64, -32, 16, 64, 8]
    for w in widths:
        EXE[w] = build.standalone('util', ['utils'], str(w), ['-DITEM=%d' % w])
    ctx.rule = 'operations whose result was compared with the model; distinct = (operation, kind of outcome, word width)'
    cases = []
    for m in containers.MODELS:
        for w in widths:
            if not containers.narrow(w, m):
                continue
            n = ctx.size(400 if w == -64 else 60, 6000 if w == -64 else 1000)
            cases += [(w, m.__name__, '%s-%d' % (ctx.seed, i), ctx.rng.choice([60, 300, 300, 900])) for i in range(n)]
    ctx.rng.shuffle(cases)
    ctx.map(judge, cases, chunk=4)
