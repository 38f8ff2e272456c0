"""C05: calls, arguments, returned values, exit status."""
from common import *
from gen import *
from c01 import LEVELS
import grids
import grids2


def params(n):
    return ['p%d' % i for i in range(n)]


class Calls:
    def __init__(self, rng):
        self.rng = rng
        self.sub = rng.choice([1 << 62, 1000, 9])
        self.arity = [rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12]) for _ in range(rng.choice([3, 5, 7]))]
        self.n = len(self.arity)

    def num(self):
        r = self.rng
        return r.choice([str(r.randrange(100)), '-%d' % r.randrange(1, 100), str(r.choice(EXT[:21])),
                         '1000000000000', "'%s'" % r.choice('abz')])

    def value(self, d, names, me):
        """An expression without side effects; calls only functions before me."""
        r = self.rng
        k = r.random()
        if d <= 0 or k < .3:
            return r.choice(names) if names and r.random() < .6 else self.num()
        if k < .5:
            return '(%s %s %s)' % (self.value(d - 1, names, me), r.choice('+-&|'), self.value(d - 1, names, me))
        if k < .9 and me:
            return self.call(d - 1, names, me)
        return '(%s ? %s : %s)' % (self.value(d - 1, names, me), self.value(d - 1, names, me), self.value(d - 1, names, me))

    def call(self, d, names, me, form=None):
        r = self.rng
        f = r.randrange(me)
        args = [self.value(d, names, me) for _ in range(self.arity[f])]
        if r.random() < .08:
            args.append(self.num())
        if args and r.random() < .1:
            same = [g for g in range(me) if self.arity[g] == self.arity[f]]
            g = r.choice(same)
            fun = '(%s ? f%d : f%d)' % (self.value(0, names, me), f, g)
        else:
            fun = r.choice(['f%d', 'f%d', 'f%d', '(f%d)', 'pick(%d)', 'tab[%d]', 'self(f%d)', 'lv[%d]', '(*(tab + 8 * %d))']) % f
        if fun.startswith(('lv', 'tab', '(*')) and 'T' not in self.flags:
            fun = 'f%d' % f
        if fun.startswith('lv'):
            fun = 'tab' + fun[2:]
        return '%s(%s)' % (fun, ', '.join(args))

    def text(self):
        r = self.rng
        out = []
        self.flags = 'T'
        for i, n in enumerate(self.arity):
            ps = params(n)
            k = r.random()
            sum_ = ' + '.join(['%d' % i] + ['%s * %d' % (p, 3 * j + 1) for j, p in enumerate(ps)])
            if k < .25:
                b = 'return (%s);' % sum_
            elif k < .5:
                b = '{ extrn tab, ncall; ncall++; ' + ''.join('%s =+ %d; ' % (p, j) for j, p in enumerate(ps)) + 'return (%s); }' % sum_
            elif k < .65:
                b = '{ extrn tab; auto r; r = %s; return (r + (%s)); }' % (self.value(2, ps, i), sum_)
            elif k < .75 and ps:
                b = '{ extrn tab; if (%s > 5) return (%s); %s = 3; return (%s); }' % (ps[0], self.value(1, ps, i), ps[-1], sum_)
            elif k < .82:
                b = '{ if (%s) return; ncalls(); }' % (ps[0] if ps else '1')
            elif k < .9:
                b = '{ auto x; x = %s; }' % sum_
            else:
                b = '{ extrn tab; auto x; x = %s; return (%s); }' % (self.num(), sum_ + ' - x')
            out.append('f%d(%s) %s\n' % (i, ', '.join(ps), b))
        out.append('tab[%d];\nncall;\nncalls() { extrn ncall; return (ncall++); }\nself(f) return (f);\n' % (self.n + 1))
        out.append('pick(k) { switch (k) { %s } return (f0); }\n' % ' '.join('case %d: return (f%d);' % (i, i) for i in range(self.n)))
        # recursion
        out.append('fact(n) { if (n < 2) return (1); return (n * fact(n - 1)); }\n')
        out.append('fib(n) return (n < 2 ? n : fib(n - 1) + fib(n - 2));\n')
        out.append('even(n) return (n ? odd(n - 1) : 1);\nodd(n) return (n ? even(n - 1) : 0);\n')
        out.append('ack(m, n) { if (m == 0) return (n + 1); if (n == 0) return (ack(m - 1, 1)); return (ack(m - 1, ack(m, n - 1))); }\n')
        out.append('apply(f, x, n) { while (n--) x = f(x); return (x); }\ninc(x) return (++x);\ndbl(x) return (x + x);\n')
        out.append('comp(f, g, x) return (f(g(x)));\nid(x) return (x);\nsum8(a, b, c, d, e, f, g, h) return (a + 2*b + 3*c + 4*d + 5*e + 6*f + 7*g + 8*h);\n')
        out.append('hanoi(n, a, b, c) { if (n == 0) return (0); return (hanoi(n - 1, a, c, b) + 1 + hanoi(n - 1, c, b, a)); }\n')
        m = ['main() {\n extrn tab, ncall; auto a, b, fp, loc[3];\n a = %s; b = %s; fp = f0; loc[0] = inc; loc[1] = id; loc[2] = dbl;\n' % (self.num(), self.num())]
        m.append(' ' + ' '.join('tab[%d] = f%d;' % (i, i) for i in range(self.n)) + '\n')
        for _ in range(r.choice([6, 10])):
            m.append(' printf("%%d*n", %s);\n' % self.call(2, ['a', 'b'], self.n))
        extra = ['printf("%%d %%d*n", fact(%d), fib(%d));' % (r.choice([0, 1, 5, 20, 25]), r.choice([0, 1, 2, 9])),
                 'printf("%%d %%d %%d*n", even(%d), odd(%d), ack(%d, %d));' % (r.choice([0, 1, 24, 31]), r.choice([0, 13]), r.choice([0, 1, 2]), r.choice([0, 1, 3])),
                 'printf("%%d %%d*n", apply(%s, 3, %d), comp(inc, dbl, %d));' % (r.choice(['inc', 'dbl', 'id', 'loc[2]', 'self(inc)']), r.choice([0, 1, 5]), r.randrange(50)),
                 'printd(sum8(a, b, 3, 4, 5, id(6), sum8(1, 2, 3, 4, 5, 6, 7, 8), -1)); writeb(10);',
                 'printd(sum8(1, 2, 3, 4, 5, 6, 7, sum8(8, 7, 6, 5, 4, 3, 2, b))); writeb(10);',
                 'fp = (a > 0 ? inc : dbl); printd(fp(20)); fp = &loc[1]; printd((*fp)(9)); printd(fp[1](9)); writeb(10);',
                 'printd(self(self)(self)(dbl)(21)); writeb(10);',
                 'printd(hanoi(%d, 1, 2, 3)); writeb(10);' % r.choice([0, 1, 4]),
                 'printf("%d %d %d %d %d %d %d %d %d*n", 1, 2, 3, 4, 5, 6, 7, 8, a);',
                 'printf("%d%d%d*n", fp == f0, f0 == f0, self(id) == id);',
                 'id; fact; a; 5; id(3);', 'printd(id(ncall)); writeb(10);',
                 'a = 5; inc(a); printd(a); printd(inc(a)); printd(a); writeb(10);']
        r.shuffle(extra)
        m += [' ' + e + '\n' for e in extra[:7]]
        m.append(' printd(ncall);\n')
        m.append(' %s\n}\n' % self.leave())
        order = out + [''.join(m)]
        if r.random() < .6:
            r.shuffle(order)
        return ''.join(order)

    def leave(self):
        r = self.rng
        k = r.random()
        if k < .45: return 'return (%s);' % r.choice(['0', '1', '7', '127', '128', '200', '255', '256', '257', '-1', '-128', '65535', '1000', '4294967296', "'A'", "'AB'"])
        if k < .55: return 'return (%s);' % self.call(1, ['a'], self.n)
        if k < .65: return 'return;'
        if k < .75: return 'exit();'
        if k < .85: return 'if (a | 1) { while (1) { return (%d); } } return (3);' % r.randrange(256)
        return ''


def fixed(rng):
    out = ['main() return (%d);' % rng.randrange(256), 'main() ;', 'main() { }', 'main() return;', 'main() exit();',
           'q() exit(); main() { printd(1); q(); printd(2); return (5); }',
           'f(n) { if (n == 0) exit(); f(n - 1); return (9); } main() { return (f(20)); }',
           'main() { if (0) return (1); }', 'main() return (-%d);' % rng.randrange(1, 300),
           'f(n) return (n ? 1 + f(n - 1) : 0); main() printd(f(%d));' % rng.choice([400, 700]),
           'main() { auto x; x = 3; goto out; return (1); out: return (x); }',
           'f() { auto g; g = f; if (g == f) return (8); } main() return (f());',
           'main() { main2(); } main2() return (7);',
           'n; main() { extrn n; if (n++ < 5) return (main() + 1); return (10); }']
    # every number of arguments, printed one by one, direct and through a variable
    for n in list(range(0, 15)):
        ps = params(n)
        t = 'f(%s) { ' % ', '.join(ps) + ''.join('printd(%s); writeb(32);' % p for p in ps) + ' return (%s); }\n' % (rng.choice(ps) if ps else '77')
        args = ', '.join(str(rng.randrange(-99, 1000)) for _ in ps)
        args2 = ', '.join(rng.choice(['x', 'x + %d' % i, 'f2(%d)' % i, '-x']) for i in range(n))
        m = 'main() { auto x, g; x = 50; g = f; printd(f(%s)); printd(g(%s)); printd((x ? f : g)(%s)); return (f(%s)); }\nf2(x) return (x * x);\n' % (args, args2, args2, args2)
        out.append(t + m if rng.random() < .5 else m + t)
    return out


def run(ctx):
    rng = ctx.rng
    cases = [case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000) for t in fixed(rng)]
    for _ in range(ctx.scale(170, 2500)):
        t = Calls(rng).text()
        if rng.random() < .1:
            t = layout(tokens(t), rng, 'compact')
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=200000))
    for t in grids.callshapes(rng, ctx.scale(70, 900)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    cases += grids2.fam(rng, grids2.libnames(rng, ctx.scale(60, 700)), LEVELS, tag='library names')
    cases += grids2.fam(rng, grids2.counts(rng, ['params', 'autos', 'functions', 'callnest', 'recursion'], per=ctx.scale(4, 40)), LEVELS, tag='counts')
    obs = lambda c: build_and_run(ctx, c, c['opts'])
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
