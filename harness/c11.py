"""C11: optimization levels and routes."""
from common import *
from gen import *
import c02, c03, c04, c05, c07, c10, progs
import grids
import grids2
import grids3

LV = ['-O0', '-O1', '-O2', '-O3']


def routes():
    """Every way from source to program: a list of compiler runs; %s stands for
    the level.  The last run links."""
    out = []
    for g in ([], ['-g']):
        for o in LV:
            out.append([[o] + g + ['-o', 'x', 'u.b']])
    for a in LV:
        out.append([['--emit-llvm', a, '-o', 'u.ll', 'u.b'], [a, '-o', 'x', 'u.ll']])
        out.append([['-S', a, '-o', 'u.s', 'u.b'], ['-o', 'x', 'u.s']])
        out.append([['-c', a, '-o', 'u.o', 'u.b'], ['-o', 'x', 'u.o']])
        out.append([['-c', a, '-g', 'u.b'], ['-g', 'u.o', '-o', 'x']])
        out.append([['-S', a, '-g', 'u.b'], ['-c', 'u.s'], ['u.o', '-o', 'x']])
        out.append([['--emit-llvm', 'u.b'], ['-S', a, 'u.ll'], ['u.s', '-o', 'x', a]])
        out.append([['--emit-llvm', 'u.b'], ['-c', a, 'u.ll'], ['u.o', '-o', 'x']])
        out.append([['-S', a, 'u.b'], ['-c', '-O1', '-o', 'v.o', 'u.s'], ['-o', 'x', '-O2', 'v.o']])
    out.append([['-Ono', '-o', 'x', 'u.b']])
    return out[:-1]


ROUTES = routes()


def walk(ctx, c, chosen):
    d = ctx.sub('w')
    obs = []
    try:
        for f in ('input', 'u.b'):
            with open(os.path.join(d, f), 'wb') as g:
                g.write(bytes(c['input'] if f == 'input' else c['units'][0]))
        for r in chosen:
            tag = ' | '.join(' '.join(s) for s in r)
            for n in ('x', 'u.ll', 'u.s', 'u.o', 'v.o'):
                if os.path.exists(os.path.join(d, n)):
                    os.remove(os.path.join(d, n))
            good = True
            for step in r:
                code, so, se = ctx.compile(['-L', ctx.lib] + step, d)
                if not clean_end(code, so, se):
                    obs.append({'t': 'clean', 'ok': False, 'tag': tag})
                if code != 0:
                    good = False
                    break
            x = os.path.join(d, 'x')
            good = good and os.path.exists(x)
            obs.append({'t': 'link', 'ok': good, 'tag': tag})
            if good:
                obs += run_exe(ctx, x, d, tag, timeout=8, loops=c.get('loops'))
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    rng = ctx.rng
    cases = []
    for t in c10.FIXED:
        cases.append(case(t, tag='fixed'))
    for t in c04.fixed(rng)[:40]:
        cases.append(case(t, tag='storage') if not isinstance(t, dict) else t)
    for n in ('labs', 'memset', 'strlen', 'abs', 'llabs', 'memcpy', 'printf1', 'define', 'rax', 'offset'):
        cases.append(case('%s(a, b) return (a * 3 + b);\nmain() { auto i; i = 0; while (i < 9) { printd(%s(i - 4, i)); writeb(32); i++; } }' % (n, n), tag='names'))
    for _ in range(ctx.scale(400, 3000)):
        t, inp = progs.any_program(rng)
        cases.append(case(t, input=inp, tag='any'))
    for _ in range(ctx.scale(12, 100)):
        cases.append(case(progs.reader(rng), input=rng.choice(progs.TEXTS), tag='reader'))
    for t in (grids.contexts(rng, ctx.scale(1300, 8000)) + grids.vector_names(rng, ctx.scale(12, 150)) + grids.wraps(rng, ctx.scale(30, 300))
              + grids.callshapes(rng, ctx.scale(24, 300)) + grids.sizes(rng, ctx.scale(6, 60)) + grids.bigflow(rng, ctx.scale(8, 80))):
        cases.append(case(t, tag='families'))
    for t in grids2.order(rng, ctx.scale(40, 500)) + grids2.purity(rng, ctx.scale(40, 500)) + grids2.counts(rng, per=ctx.scale(0, 6)) + grids2.bigsizes(rng, ctx.scale(10, 100)) + grids2.libnames(rng, ctx.scale(16, 150)) + grids3.literals(rng, ctx.scale(200, 4000)) + grids3.twice(rng, ctx.scale(150, 3000)) + grids3.pairs(rng, ctx.scale(150, 6000)) + grids3.aliases(rng, ctx.scale(12, 250)) + grids3.effects(rng, ctx.scale(100, 2500)) + grids3.scopes(rng, ctx.scale(30, 300)):
        cases.append(case(''.join(t), tag='families'))
    for t in grids3.forever(rng, ctx.scale(16, 150)):
        cases.append(case(t, loops=True, tag='forever'))
    for k, c in enumerate(cases):
        c.setdefault('input', b'')
        c['fuel'] = 120000
        c['routes'] = ROUTES if ctx.thorough and k % 4 == 0 else [ROUTES[0]] + rng.sample(ROUTES[1:8], 2) + rng.sample(ROUTES[8:], 3)
    ctx.log('%d programs' % len(cases))

    def observe(c):
        return walk(ctx, c, c['routes'])
    observe_all(cases, observe)
    ctx.log('observed')
    ctx.check_cases(cases, observe)
    ctx.extra['programs'] = len(cases)
    ctx.extra['routes'] = len(ROUTES)
    ctx.extra['executables run'] = sum(len([o for o in c['obs'] if o['t'] == 'run']) for c in cases)
