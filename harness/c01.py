"""C01: expressions."""
from common import *
from gen import *
import grids
import grids2
import grids3

LEVELS = [(), ('-O1',), ('-O2',), ('-O3',)]


class Builder:
    """One program that prints the value of many expressions."""

    def __init__(self, rng):
        self.rng = rng
        self.names = ['a', 'b', 'c', 'd', 'e', 'f']
        self.val = {n: rng.choice(EXT) if rng.random() < .75 else wrap(rng.getrandbits(64)) for n in self.names}
        small = rng.random() < .4
        if small:
            self.val = {n: rng.randrange(-20, 60) for n in self.names}
        self.g = {n: rng.choice(EXT) for n in ('g0', 'g1')}
        self.v = [rng.choice(EXT) for _ in range(6)]
        self.gv = [rng.choice(EXT[1:-2]) for _ in range(5)]
        for x in (self.g, ):
            for k in x:
                if x[k] == -(1 << 63): x[k] += 1
        self.gv = [x if x != -(1 << 63) else 77 for x in self.gv]
        self.stm = []
        self.funs = []
        self.n = 0

    def leaf(self):
        r = self.rng
        k = r.random()
        if k < .30:
            n = r.choice(self.names)
            return ('leaf', n, self.val[n])
        if k < .50:
            v = r.choice(EXT)
            return ('leaf', lit(r, v), v)
        if k < .58:
            n = r.choice(list(self.g))
            return ('leaf', n, self.g[n])
        if k < .66:
            i = r.randrange(6)
            return ('leaf', r.choice(['v[%d]', 'v[%d - 1 + 1]', '(v)[%d]']) % i, self.v[i])
        if k < .73:
            i = r.randrange(5)
            return ('leaf', r.choice(['gv[%d]', '(gv)[(%d)]']) % i, self.gv[i])
        if k < .79:
            return ('leaf', '*p', self.val['a'])
        if k < .83:
            return ('leaf', '*(&b)' if r.random() < .5 else '*&b', self.val['b'])
        if k < .91:
            n = r.choice(self.names)
            return ('leaf', 'id(%s)' % n, self.val[n])
        n, m = r.choice(self.names), r.choice(EXT)
        return ('leaf', 'sub(%s, %s)' % (n, lit(r, m).strip()), wrap(self.val[n] - m))

    def var(self, v=None):
        """A variable operand; when v is given a fresh global vector element
        that holds it."""
        if v is None:
            return self.leaf()
        self.consts = getattr(self, 'consts', [])
        if v not in self.consts:
            self.consts.append(v)
        return ('leaf', 'k[%d]' % self.consts.index(v), v)

    def add(self, text, v):
        r = self.rng
        self.n += 1
        k = r.random()
        if k < .35:
            self.stm.append('printf("%%d*n", %s);' % text)
        elif k < .5:
            self.stm.append('r = %s; printd(r); writeb(10);' % text)
        elif k < .58:
            self.stm.append('if (%s) printd(1); else printd(0); writeb(10);' % text)
        elif k < .66:
            self.stm.append('v[%d] = %s; printd(v[%d]); writeb(10);' % (7, text, 7))
        elif k < .74:
            self.stm.append('r = 1; r =+ %s; printd(r); writeb(10);' % text)
        elif k < .8:
            self.stm.append('r = 100; while (%s) { r++; if (r > 102) goto w%d; } w%d: printd(r); writeb(10);'
                            % (text, self.n, self.n))
        elif k < .86:
            self.stm.append('switch (%s) { case %s: printd(1); default: printd(2); } writeb(10);' % (
                text, str(v) if v is not None and v >= 0 else '3'))
        elif k < .93:
            self.stm.append('printd(sub(%s, 1)); writeb(10);' % text)
        else:
            self.funs.append('f%d(a,b,c,d,e,f,v,p,k) { extrn g0, g1, gv; return (%s); }' % (self.n, text))
            self.stm.append('printd(f%d(a,b,c,d,e,f,v,p,k)); writeb(10);' % self.n)

    def text(self):
        s = 'g0 %d;\ng1 %d;\n' % (self.g['g0'], self.g['g1'])
        s += 'gv[5] %s;\n' % ', '.join(str(x) for x in self.gv)
        s += 'id(x) return (x);\nsub(x, y) { return (x - y); }\n'
        s += '\n'.join(self.funs) + '\n'
        s += 'main() {\n extrn g0, g1, gv;\n auto a, b, c, d, e, f, v[8], p, r, k[%d];\n' % (
            max(1, len(getattr(self, 'consts', []))))
        for n in self.names:
            s += ' %s = %s;\n' % (n, lit(self.rng, self.val[n]))
        for i, x in enumerate(self.v):
            s += ' v[%d] = %s;\n' % (i, lit(self.rng, x))
        for i, x in enumerate(getattr(self, 'consts', [])):
            s += ' k[%d] = %s;\n' % (i, lit(self.rng, x))
        s += ' p = &a;\n'
        s += ' ' + '\n '.join(self.stm) + '\n}\n'
        return s


def pick(rng, make, alt, tries=60):
    """Leaf values that make an expression defined, and different from another
    grouping where possible."""
    best = None
    for _ in range(tries):
        e, o = make()
        v = ev(e)
        if v is None:
            continue
        best = e
        w = ev(o) if o is not None else None
        if o is None or w != v:
            break
    return best


SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 13, 20, 33, 62, -1, -2, -3, -7, -9, 100, 255]


def enumerated(rng, triples):
    """Expressions of every sequence of two (or three) binary operators, of
    unary operators around every binary operator, and of conditionals."""
    out = []

    def num():
        v = rng.choice(SMALL) if rng.random() < .75 else rng.choice(EXT)
        return ('num', v)

    def chain(ops, vals):
        # parse by precedence, left associative
        def go(lo, hi):
            if lo == hi:
                return ('leaf', vals[lo], vals[lo])
            p = min(PREC[o] for o in ops[lo:hi])
            i = max(k for k in range(lo, hi) if PREC[ops[k]] == p)
            return ('bin', ops[i], go(lo, i), go(i + 1, hi))
        return go(0, len(ops))

    def other(ops, vals):
        # right-associative and without precedence
        def go(lo, hi):
            if lo == hi:
                return ('leaf', vals[lo], vals[lo])
            return ('bin', ops[lo], ('leaf', vals[lo], vals[lo]), go(lo + 1, hi))
        return go(0, len(ops))

    def left(ops, vals):
        e = ('leaf', vals[0], vals[0])
        for o, v in zip(ops, vals[1:]):
            e = ('bin', o, e, ('leaf', v, v))
        return e

    def seqs():
        for a in BIN:
            for b in BIN:
                yield (a, b)
        if triples == 'all':
            for a in BIN:
                for b in BIN:
                    for c in BIN:
                        yield (a, b, c)
        else:
            for _ in range(triples):
                yield tuple(rng.choice(BIN) for _ in range(3))
            for _ in range(triples // 2):
                yield tuple(rng.choice(BIN) for _ in range(rng.choice([4, 5, 6])))

    for ops in seqs():
        best = None
        for _ in range(40):
            vals = [num()[1] for _ in range(len(ops) + 1)]
            e = chain(ops, vals)
            v = ev(e)
            if v is None:
                continue
            best = e
            if ev(other(ops, vals)) != v and ev(left(ops, vals)) != v or len(set(map(PREC.get, ops))) == 1 and ev(other(ops, vals)) != v:
                break
        if best:
            out.append(best)
    for op in BIN:
        for form in range(8):
            for _ in range(40):
                x, y = ('leaf', 0, num()[1]), ('leaf', 0, num()[1])
                x = ('leaf', x[2], x[2]); y = ('leaf', y[2], y[2])
                e = [('bin', op, ('un', '-', x), y), ('bin', op, x, ('un', '-', y)),
                     ('un', '-', ('bin', op, x, y)), ('bin', op, ('un', '!', x), y),
                     ('bin', op, x, ('un', '!', y)), ('un', '!', ('bin', op, x, y)),
                     ('bin', op, ('un', '-', ('un', '-', x)), ('un', '!', ('un', '-', y))),
                     ('cond', ('bin', op, x, y), ('un', '-', x), ('un', '!', y))][form]
                if ev(e) is not None:
                    break
            else:
                continue
            out.append(e)
        for form in range(5):
            for _ in range(40):
                a, b, c, d = [('leaf', v, v) for v in (num()[1], num()[1], num()[1], num()[1])]
                e = [('cond', ('bin', op, a, b), c, d), ('cond', a, ('bin', op, b, c), d),
                     ('cond', a, b, ('bin', op, c, d)), ('bin', op, ('cond', a, b, c), d),
                     ('cond', a, b, ('cond', ('bin', op, b, c), c, d))][form]
                if ev(e) is not None:
                    break
            else:
                continue
            out.append(e)
    return out


def materialize(e, b, rng):
    """Give the value leaves operand texts."""
    if e[0] == 'leaf':
        if isinstance(e[1], str):
            return e
        v = e[2]
        if rng.random() < .6:
            return b.var(v)
        return ('leaf', lit(rng, v), v)
    return (e[0],) + tuple(materialize(x, b, rng) if isinstance(x, tuple) else x for x in e[1:])


def run(ctx):
    rng = ctx.rng
    cases = []

    def finish(b):
        t = b.text()
        r = rng.random()
        if r < .3:
            t = layout(tokens(t), rng, 'compact')
        elif r < .4:
            t = layout(tokens(t), rng, 'random')
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])]))

    exprs = enumerated(rng, ctx.scale(500, 'all'))
    rng.shuffle(exprs)
    ctx.extra['enumerated operator sequences'] = len(exprs)
    for i in range(0, len(exprs), 30):
        b = Builder(rng)
        for e in exprs[i:i + 30]:
            e = materialize(e, b, rng)
            b.add(show(e, 0, rng, .04), ev(e))
        finish(b)
    for _ in range(ctx.scale(60, 900)):
        b = Builder(rng)
        for _ in range(rng.choice([8, 14, 20])):
            e = rexpr(rng, rng.choice([2, 3, 3, 4, 5, 6]), b.leaf)
            if len(show(e)) < 600:
                b.add(show(e, 0, rng, rng.choice([0, 0, .2])), ev(e))
        finish(b)
    # long chains and deep nesting
    for _ in range(ctx.scale(4, 30)):
        b = Builder(rng)
        for n in (10, 25, 40):
            op = rng.choice(['+', '-', '*', '&', '|', '<', '=='])
            ops = [rng.choice(['+', '-', '*', '&', '|', '==', '<']) for _ in range(n)]
            s = b.leaf()[1]
            for o in ops:
                s += ' %s ' % o + b.leaf()[1]
            b.add(s if rng.random() < .5 else '(' * n + s.replace(' ', ' ') + ')' * n, None)
            s = 'a'
            for k in range(n):
                s = '(%s %s %s)' % (('-' if rng.random() < .2 else '') + s, op, rng.choice(['b', 'c', '3', 'd']))
            b.add(s, None)
            s = 'a'
            for k in range(n):
                s = '%s %s (%s)' % (rng.choice(['b', 'c', '3', 'd']), op, s)
            b.add(s, None)
        finish(b)
    for t in grids.operators(rng, ctx.scale(.7, 1)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    for t in grids.wraps(rng, ctx.scale(60, 900)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    for t in grids.contexts(rng, ctx.scale(800, 3000)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    cases += grids2.fam(rng, grids2.counts(rng, ['parens', 'unary', 'ternary', 'chain', 'index'], per=ctx.scale(2, 20)), LEVELS, ordered=True, tag='counts')
    cases += grids2.fam(rng, grids3.literals(rng, ctx.scale(1600, 6000)) + grids3.twice(rng, ctx.scale(500, 5000)) + grids3.pairs(rng, ctx.scale(800, 12000)), LEVELS, tag='literals')
    obs = lambda c: build_and_run(ctx, c, c['opts'])
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
