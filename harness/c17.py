"""C17: order of definitions, and definitions replaced."""
import itertools
from common import *
from gen import *
from c01 import LEVELS
import progs

# Programs whose definitions all use each other
SMALL = [
    ['a 5;', 'f() { extrn a; return (a++); }', 'main() { extrn a; printd(f()); printd(f()); printd(a); }'],
    ['v[3] 1, 2, 3;', 'sum(n) { extrn v; return (n < 0 ? 0 : v[n] + sum(n - 1)); }', 'main() { extrn v; v[1] = 7; printd(sum(2)); }'],
    ['even(n) return (n ? odd(n - 1) : 1);', 'odd(n) return (n ? even(n - 1) : 0);', 'main() { printd(even(10)); printd(odd(7)); printd(even(3)); }'],
    ['s "text*n";', 'w 1, 2, 3;', 'show() { extrn s, w; auto p; printf(s); p = &w; printd(p[2]); }', 'main() { show(); show(); }'],
    ['n;', 'tick() { extrn n; n = n + 1; }', 'twice(f) { f(); f(); }', 'main() { extrn n; auto g; tick(); g = tick; twice(g); printd(n); }'],
    ['tab[2];', 'f(x, y) return (x - y);', 'g(x) return (f(x, 1) + f(1, x));', 'main() { extrn tab; f(); tab[0] = f; tab[1] = g; printd(tab[0](9, 2)); printd(tab[1](4)); }'],
    ['a; ', 'b 3;', 'c[2] 4;', 'set(x) { extrn a, b, c; a = b; b = c[0]; c[0] = x; }', 'main() { extrn a, b, c; set(1); set(2); printf("%d %d %d*n", a, b, c[0]); }'],
    ['f(a) { g(a, 1); return (a); }', 'g(a, b) { if (a > 0) f(a - 1); printd(a * 10 + b); writeb(32); }', 'x 2;', 'main() { extrn x; f(x); f(x); }'],
    ['l() { a: goto b; b: return (1); }', 'm() { b: goto a; a: return (2); }', 'a 9;', 'main() { extrn a; auto b; b = l; printd(l() + m() + a + b()); }'],
    ['a(b) { auto c; c = b; return (c); }', 'b(c) { auto a; a = c + 1; return (a); }', 'c(a) { auto b; b = a * 2; return (b); }', 'main() { printd(a(1)); printd(b(2)); printd(c(3)); }'],
    ['f();'.replace(';', ' ;'), 'v[];', 'w "a", "b", 3;', 'main() { extrn v, w; auto p; p = &w; v[0] = f(); printf("%s%s%d%d", p[0], p[1], p[2], v[0]); }'],
]

# Replacement: kinds of definitions of one name, in sequence
VARDEF = ['x;', 'x 1;', 'x -2;', 'x "s";', 'x 3, 4;', 'x[2];', 'x[3] 5;', 'x[1] 6, 7, 8;', "x 'c';", 'x[0];']
FUNDEF = ['x() return (1);', 'x(a) return (a + 2);', 'x(a, b) return (a * 10 + b);', 'x() { }', 'x(a) { auto b; b = a; l: if (b-- > 3) goto l; return (b); }', 'x(a, b, c) return (c - a);', 'x() { extrn y; return (y++); }']
VARUSE = ['u@() { extrn x; x =+ 1; }', 'u@() { extrn x; auto p; p = &x; p[0] = p[0]; }', 'u@() { extrn x; if (x) ; }', 'u@() { extrn x; }', 'u@() { extrn x; x = 9; }', 'u@() ;']
FUNUSE = ['u@() { printd(x(5, 6, 7)); }', 'u@() { auto p; p = x; printd(p(7, 8, 9)); }', 'u@() { printd(x(4)); }', 'u@() { x(1, 2); }', 'u@() { printd(x()); }', 'u@(z, w) { printd(x()); }', 'u@(z, w, t) { printd(x(w)); printd(x()); }', 'u@(z) { auto p; p = x; printd(p()); }', 'u@(z, w) return (x());', 'u@(z, w) { x(); printd(x() + z); }', 'u@() { auto p; p = x; printd(p(1) == x(1)); }', 'u@() ;']
PRINTVAR = 'x; %d'


def replaced(rng):
    """A file that defines x (and y) several times, with uses in between."""
    fun = rng.random() < .5
    n = rng.choice([2, 2, 3, 4])
    defs = [rng.choice(FUNDEF if fun else VARDEF) for _ in range(n)]
    out, k = [], 0
    body = ''
    for i, d in enumerate(defs):
        for _ in range(rng.choice([0, 1, 1, 2])):
            out.append(rng.choice(FUNUSE if fun else VARUSE).replace('@', str(k)))
            body += rng.choice([' u%d();', ' u%d(71, 72, 73);', ' u%d(91);']) % k
            k += 1
        out.append(d)
    for _ in range(rng.choice([0, 1, 2])):
        out.append(rng.choice(FUNUSE if fun else VARUSE).replace('@', str(k)))
        body += rng.choice([' u%d();', ' u%d(71, 72, 73);', ' u%d(91);']) % k
        k += 1
    last = defs[-1]
    if fun:
        show = 'printd(x(1, 2, 3)); writeb(32);'
        pre = ''
        use = ' %s%s %s%s ' % (show, body, show, body)
    else:
        pre = 'extrn x; auto p;'
        if '[' in last:
            size = {'x[2];': 2, 'x[3] 5;': 3, 'x[1] 6, 7, 8;': 3, 'x[0];': 1}[last]
            show = ''.join('printd(x[%d]); writeb(32);' % i for i in range(size)) + 'x[%d] = 77;' % (size - 1)
            use = show + show
        elif last == 'x "s";':
            use = 'printf("%s*n", x);'
        elif last == 'x 3, 4;':
            use = 'p = &x; printd(p[1]); p[1] = 8; printd(p[0]);' + body + ' printd(p[1]); printd(x);'
        else:
            use = 'printd(x);' + body + ' writeb(32); printd(x); x = 4;' + body + ' printd(x);'
    main = 'main() { %s %s }' % (pre, use)
    out.insert(rng.randrange(len(out) + 1), 'y 40;')
    out.insert(rng.randrange(len(out) + 1), main)
    return '\n'.join(out) + '\n'


def run(ctx):
    rng = ctx.rng
    cases = []
    for defs in SMALL:
        perms = list(itertools.permutations(defs))
        if len(perms) > 24 and not ctx.thorough:
            perms = rng.sample(perms, 24)
        for p in perms:
            cases.append(case('\n'.join(p), opts=[(), rng.choice(LEVELS[1:])], tag='permutation'))
    ctx.extra['permutations of small programs'] = len(cases)
    for _ in range(ctx.scale(60, 700)):
        defs, inp = progs.split_program(rng)
        for k in range(ctx.scale(3, 4)):
            ds = list(defs)
            if k == 0: ds.reverse()
            elif k == 1: ds.sort(key=lambda d: (d[1] != 'fun', rng.random()))
            elif k == 2: ds.sort(key=lambda d: (d[1] == 'fun', rng.random()))
            else: rng.shuffle(ds)
            cases.append(case(progs.write_defs(ds), input=inp, opts=[(), rng.choice(LEVELS[1:])], tag='permuted', fuel=100000))
    for a in VARDEF:
        for b in VARDEF:
            cases.append(case('%s\n%s\nmain() { extrn x; auto p; p = &x; if (p[0]) printd(1); %s }' % (a, b, 'printd(x[0]);' if '[' in b else 'x = 2; printd(x);'), opts=[()], tag='replaced pair'))
    for a in FUNDEF:
        for b in FUNDEF:
            for c in (('%s', '%s', 'y 5; main() { extrn y; printd(x(1, 2, 3)); printd(x(1)); printd(y); }'), ('%s', 'main() { printd(x(1, 2, 3)); printd(x(1)); } y 3;', '%s'), ('main() { auto q; printd(x(1, 2, 3)); q = x; printd(q(1)); } y;', '%s', '%s'),
                      ('%s', 'u(q) return (q(4, 5, 6));', 'w() return (u(x));', '%s', 'y; main() { printd(w()); printd(u(x)); printd(x(2)); }')):
                t = '\n'.join(c)
                cases.append(case(t % (a, b), opts=[()], tag='replaced function'))
    if not ctx.thorough:
        keep = [c for c in cases if c['tag'] != 'replaced function']
        cases = keep + rng.sample([c for c in cases if c['tag'] == 'replaced function'], 110)
    for _ in range(ctx.scale(260, 4000)):
        cases.append(case(replaced(rng), opts=[(), rng.choice(LEVELS[1:])], tag='replaced'))
    ctx.log('%d programs' % len(cases))
    obs = lambda c: front(ctx, c) + build_and_run(ctx, c, c['opts'], timeout=8)
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
