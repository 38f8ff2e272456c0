"""Yet more families: literals of every kind under every operator and pair of
operators, storage reached in several ways within one stretch of code, effects
on what is read elsewhere in the same expression, names declared in one part
of a body and used in another, loops that never end.  As everywhere, the
programs carry no expectation."""
from gen import *
from grids import const, ASGOP, VALS

POW = [0, 1, 2, 3, 4, 7, 8, 10, 15, 16, 20, 24, 30, 31, 32, 33, 40, 47, 48, 53, 56, 61, 62]


def _value(rng, k=None):
    """A value that stands in some relation to k."""
    r = rng.random()
    if k is None or r < .35: return rng.choice(VALS)
    if r < .5: return wrap(rng.choice([k, -k, k + 1, k - 1, ~k, -k - 1, -k + 1]))
    if r < .62: return wrap(k * rng.choice([2, 3, 5, -1, -2, -3, -7, 1000]) + rng.choice([0, 1, -1]))
    if r < .72: return wrap(k ^ rng.choice(VALS))
    if r < .8: return wrap(1 << rng.randrange(64))
    if r < .86: return wrap((1 << rng.randrange(64)) - 1)
    if r < .93: return wrap(rng.getrandbits(64))
    return wrap(rng.getrandbits(rng.choice([8, 16, 31, 32, 33, 48])))


def _litval(rng, op):
    if op in ('<<', '>>'): return rng.choice([0, 1, 2, 3, 4, 7, 8, 12, 15, 16, 24, 31, 32, 33, 40, 48, 56, 60, 62, 63])
    k = 1 << rng.choice(POW)
    v = rng.choice([k, k, k - 1, k + 1, rng.choice([3, 5, 6, 7, 9, 10, 12, 100, 1000, 1000003, 0])])
    if rng.random() < .25: v = -v
    return v


def _tables(rng, exprs, nv):
    """exprs: (text over x and y, function of x and y or None); every expression in a
    function, called for the values of a table for which it has a meaning."""
    out = []
    for k in range(0, len(exprs), 24):
        part = exprs[k:k + 24]
        t, m = '', ''
        tabs = 'tx[%d];\nty[%d];\n' % (nv, nv)
        for j, (e, f, kx) in enumerate(part):
            xs = []
            for _ in range(nv * 4):
                x, y = _value(rng, kx), _value(rng, kx) if rng.random() < .6 else rng.choice([0, 1, 2, 3, 5, 31, 40, 63])
                if f(x, y) is not None:
                    xs.append((x, y))
                if len(xs) == nv: break
            if not xs: continue
            how = rng.randrange(5)
            if how == 0: b = 'return (%s);' % e
            elif how == 1: b = 'auto r; r = %s; return (r);' % e
            elif how == 2: b = 'auto r; r = 0; r =+ %s; return (r);' % e
            elif how == 3: b = 'extrn k; k = %s; return (k);' % e
            else: b = 'if (%s) return (1); return (%s);' % (e, e) if rng.random() < .5 else 'return (%s);' % e
            t += 'f%d(x, y) { %s }\n' % (j, b)
            # the values in statements of their own: nothing is known of them when f is compiled
            for x, y in xs:
                m += ' c(f%d, %s, %s);' % (j, const(x), const(y)) if rng.random() < .9 else ' h = h * 31 + f%d(%s, %s);' % (j, const(x), const(y))
            m += ' printf("%d*n", h);\n'
        out.append('h; k;\n' + t + 'c(f, x, y) { extrn h; h = h * 31 + f(x, y); }\nmain() { extrn h;\n%s}\n' % m)
    return out


def literals(rng, n):
    """x op literal and literal op x (n: how many).  Every shift count, every
    power of two and the numbers around them come first."""
    todo = [(op, k) for op in ('<<', '>>') for k in range(64)]
    todo += [(op, wrap(s * (1 << k) + d)) for op in ('&', '*', '/', '%', '|') for k in range(64) for s, d in ((1, 0), (1, -1))]
    todo += [(op, wrap(-(1 << k))) for op in ('&', '*', '/', '%') for k in range(0, 64)]
    rng.shuffle(todo)
    todo = todo[:n * 2 // 3]
    todo += [(op, _litval(rng, op)) for op in BIN for _ in range((n - len(todo)) // len(BIN) + 1)]
    ex = []
    for op, k in todo:
        if op in '/%' and k == 0: continue
        q = lit(rng, k).strip() if rng.random() < .7 or k < 0 else '0%o' % k
        if rng.random() < .15 and op not in ('<<', '>>'):
            ex.append(('%s %s x' % (q, op), lambda x, y, op=op, k=k: apply(op, k, x), k))
        elif rng.random() < .2 and op in ASGOP:
            ex.append(('(x %s %s)' % (ASGOP[op], q), lambda x, y, op=op, k=k: apply(op, x, k), k))
        else:
            ex.append(('x %s %s' % (op, q), lambda x, y, op=op, k=k: apply(op, x, k), k))
    rng.shuffle(ex)
    return _tables(rng, ex, 8)


def twice(rng, n):
    """x op literal op literal, for operators that can be taken together (n: how
    many)."""
    sh = [(40, 40), (1, 63), (63, 1), (32, 32), (31, 33), (8, 8), (60, 20), (63, 63), (0, 63), (3, 4), (16, 48), (24, 24)]
    big = 1 << 62
    ar = [(1, 1), (1, -1), (5, 7), (big, big), (1 << 63, 1 << 63), (big, -big), ((1 << 63) - 1, 1), (7, 5), (1 << 32, 1 << 32), (1 << 31, 1 << 33), (3, 3), (10, 100), (2, 2), (-1, -1), (4, 6), (0, 1), (6, 4), (255, 65535), (15, 240), (65535, 255), (-2, 3)]
    todo = [(a, b, k, l) for a in ('<<', '>>') for b in ('<<', '>>') for k, l in sh]
    todo += [(a, b, k, l) for a, b in [('+', '-'), ('-', '+'), ('+', '+'), ('-', '-'), ('*', '*'), ('/', '/'), ('*', '/'), ('/', '*'), ('%', '%'), ('%', '/'), ('/', '%'), ('*', '%'), ('&', '&'), ('|', '|'), ('&', '|'), ('|', '&'), ('+', '*'), ('*', '+'), ('+', '&'), ('-', '&'), ('+', '%'),
                                       ('+', '<'), ('-', '<'), ('-', '=='), ('+', '=='), ('+', '>='), ('-', '>'), ('*', '=='), ('*', '<'), ('&', '=='), ('&', '!='), ('%', '=='), ('/', '=='), ('/', '<'), ('|', '=='), ('-', '!='), ('+', '<='), ('<', '=='), ('<', '<'), ('==', '=='), ('==', '!='), ('>', '<'), ('<', '!=')] for k, l in ar]
    todo += [(a, b, k, wrap(l)) for a in ('<<', '>>') for b in '&|*/%+-' for k in (1, 4, 31, 32, 33, 63) for l in (1, 255, (1 << 32) - 1, 1 << 63, -1, 2)]
    todo += [(b, a, wrap(l), k) for a in ('<<', '>>') for b in '&|*/%+-' for k in (1, 4, 31, 32, 33, 63) for l in (1, 255, (1 << 32) - 1, 1 << 63, -1, 2)]
    first = [t for t in todo if t[0] in ('<<', '>>') and t[1] in ('<<', '>>')]
    rest = [t for t in todo if t not in first]
    rng.shuffle(rest)
    ex = []
    for a, b, k, l in (first + rest)[:n]:
        k, l = wrap(k), wrap(l)
        e = ('bin', b, ('bin', a, ('leaf', 'x', 'x'), ('leaf', lit(rng, k).strip(), k)), ('leaf', lit(rng, l).strip(), l))

        def f(x, y, a=a, b=b, k=k, l=l):
            v = apply(a, x, k)
            return None if v is None else apply(b, v, l)
        ex.append((show(e), f, k))
    rng.shuffle(ex)
    return _tables(rng, ex, 8)


def pairs(rng, n):
    """Two or three operators with literals and a variable or two, in every
    grouping (n: how many)."""
    ex = []
    ops = [(a, b) for a in BIN for b in BIN]
    rng.shuffle(ops)
    for i in range(n):
        a, b = ops[i % len(ops)]
        if i % 3 == 1:                    # pairs that simplifiers like to combine
            fam = rng.choice([['+', '-'], ['<<', '>>'], ['*', '/', '%'], ['&', '|'], ['<', '<=', '>', '>=', '==', '!='], ['<<', '>>', '&', '*'], ['+', '-', '<', '>', '=='], ['&', '>>', '=='], ['<<', '*', '+']])
            a, b = rng.choice(fam), rng.choice(fam)
        ka, kb = _litval(rng, a), _litval(rng, b)
        if rng.random() < .15: kb = ka
        L = lambda k: ('leaf', lit(rng, k).strip(), k)
        X, Y = ('leaf', 'x', 'x'), ('leaf', 'y', 'y')
        V = lambda: rng.choice([X, X, X, Y])
        s = rng.randrange(10)
        if s < 4: e = ('bin', b, ('bin', a, V(), L(ka)), L(kb))
        elif s == 4: e = ('bin', b, ('bin', a, V(), L(ka)), V())
        elif s == 5: e = ('bin', b, V(), ('bin', a, V(), L(ka)))
        elif s == 6: e = ('bin', b, ('bin', a, L(ka), X), L(kb))
        elif s == 7: e = ('bin', b, ('un', rng.choice('-!'), ('bin', a, X, L(ka))), L(kb))
        elif s == 8: e = ('bin', b, ('bin', a, X, Y), ('bin', rng.choice([a, b]), V(), V()))
        else: e = ('bin', b, ('bin', a, ('un', rng.choice('-!'), X), L(ka)), V())
        if rng.random() < .1: e = ('un', rng.choice('-!'), e)
        if rng.random() < .1: e = ('cond', ('bin', rng.choice(['<', '==', '>=']), X, L(ka)), e, V())

        def f(x, y, e=e):
            def sub(t):
                if t[0] == 'leaf': return ('leaf', t[1], {'x': x, 'y': y}.get(t[2], t[2]))
                return (t[0],) + tuple(sub(z) if isinstance(z, tuple) else z for z in t[1:])
            return ev(sub(e))
        text = show(e)
        if rng.random() < .1 and e[0] == 'bin' and e[1] in ASGOP and e[2][0] == 'bin' and e[2][2][0] == 'leaf' and e[2][2][1] == 'x' and e[3][1] not in ('x',) and e[3][0] == 'leaf':
            # in two steps
            text = '((x = %s) %s %s)' % (show(e[2]), '', '') if False else text
        ex.append((text, f, ka))
    return _tables(rng, ex, 8)


# -- several ways to the same storage ------------------------------------------------

def aliases(rng, n):
    """Straight stretches of code (no call in them, few joins) in which the same
    words are written and read in several ways."""
    out = []
    for _ in range(n):
        t, m = 'g; g2 7; gv[3] 1, 2, 3; mv 4, 5, 6;\n', ''
        for j in range(9):
            # places: word -> ways to write it
            ways = {
                'x': ['x', 'x', 'x', '*p', 'p[0]', '(&x)[0]', '*&x', '**pp', '*pp[0]', 'p[z]', '*(p + z)', '*((&x))'],
                'a': ['a', 'a', '*q', 'q[0]', '(&a)[0]', '*&a', '*(q)', 'q[z]'],
                'g': ['g', 'g', 'g', '*r', 'r[0]', '(&g)[z]', '*&g', '*(&g + z)'],
                'v1': ['v[1]', 'v[1]', '*(v + 8)', 's[0]', '*s', 'w[1]', '*(w + 8)', 'v[o]', '(v)[o]', '*&v[1]', 's[z]', '(&v[2])[-1]', '(&v)[0][1]', '*((*&v) + 8)', '(&v[0])[o]'],
                'v2': ['v[2]', 's[1]', '*(s + 8)', 'w[2]', 'v[o + 1]', '(&v[1])[1]', 'w[o + o]'],
                'gv1': ['gv[1]', 'gv[1]', '*(gv + 8)', 'u[0]', '*u', 'gv[o]', '*&gv[1]', '(&gv)[0][1]'],
                'mv1': ['(&mv)[1]', '*(&mv + 8)', 'k[1]', '*(k + 8)', 'k[o]'],
                'mv': ['mv', 'mv', '*k', 'k[0]', '(&mv)[0]'],
                'y': ['y', 'y', '*(e ? &y : &x)', 'y'],
            }
            live = rng.sample(list(ways), rng.choice([1, 2, 2, 3, 4]))
            st = []
            nr = 0
            lits = ['5', '0', '1', '7', '-1', '100', "'A'"]
            for _ in range(rng.choice([5, 8, 12, 18])):
                w = lambda x=None: rng.choice(ways[x or rng.choice(live)])
                x = rng.choice(live)
                k = rng.random()
                # (a postfix operator binds tighter than *, and what stands in parentheses is no place)
                if k < .32: st.append('%s = %s;' % (w(x), rng.choice(lits) if rng.random() < .7 else w()))
                elif k < .42: st.append('%s %s %s;' % (w(x), rng.choice(['=+', '=-', '=*', '=|', '=&', '=<', '===', '=!=']), rng.choice(lits) if rng.random() < .6 else w()))
                elif k < .52: 
                    y = w(x)
                    st.append(rng.choice(['++%s;', '--%s;', '%s =+ 1;'] + ['%s++;', '%s--;'] * (y[0] != '*')) % y)
                elif k < .90:
                    nr += 1
                    y = rng.choice(['R = W;', 'R = W;', 'R = W + 1;', 'R = W == 5;', 'R = W - W;', 'R = W ? 3 : 4;', 'R = - W;', 'if (W) R = 1; else R = 2;', 'if (W == W) R = 8;', 'R = W < 6;', 'R = (W = 3) + 1;', 'R = 1 - (W =+ 2);', 'R = W > 1;', 'R = i[W & 1];'])
                    y = y.replace('R', 'i[%d]' % (nr + 1))
                    while 'W' in y: y = y.replace('W', w(x), 1)
                    st.append(y)
                elif k < .94: st.append('if (%s) { %s = %s; }' % (rng.choice(['e', 'z', w()]), w(x), rng.choice(lits)))
                elif k < .97: st.append('e%d: if (e-- > 0) { %s = %s; goto e%d; }' % (len(st), w(x), rng.choice(lits), len(st)))
                else: st.append('while (e-- > 0) %s =+ %s;' % (w(x), rng.choice(lits)))
            t += '''f%d(a, e) { extrn g, gv, mv; auto x, y, z, o, v[4], w, p, pp, q, r, s, u, k, i[24];
 z = 0; o = 1; g = 3; gv[1] = 2; mv = 4; (&mv)[1] = 5; x = 11; y = 12; v[0] = 20; v[1] = 21; v[2] = 22; v[3] = 23; w = v; p = &x; pp = &p; q = &a; r = &g; s = &v[1]; u = &gv[1]; k = &mv;
 o = 0; while (o < 24) i[o++] = 0; o = 1;
 %s
 printf("%%d %%d %%d %%d %%d %%d %%d", a, e, g, gv[1], mv, (&mv)[1], x); printf(" %%d %%d %%d %%d %%d:", y, v[0], v[1], v[2], v[3]);
 o = 0; while (o < %d) printf(" %%d", i[o++]); writeb(10); }
''' % (j, '\n '.join(st), nr + 2)
            for _ in range(2):
                m += ' f%d(%d, %d);\n' % (j, rng.choice([0, 1, 5, -3]), rng.choice([0, 1, 2, 3]))
        out.append(t + 'main() {\n%s}\n' % m)
    return out


# -- effects on what is read elsewhere -------------------------------------------------

def effects(rng, n):
    """Every place an expression reads from, with every kind of effect on it in
    every other place of the expression (n: how many)."""
    head = '''g; gf; gv[4] 1, 2, 3, 4; gt[3];
fa(x, y) { return (100 + x * 2 + y); }
fb(x, y) { return (200 + x * 3 - y); }
setp(p, x) { *p = x; return (1); }
setg(x) { extrn g; g = x; return (2); }
setf(f) { extrn gf; gf = f; return (1); }
'''
    # a place that holds a small number, and ways to change it to T
    num = {'x': ['(x = T)', 'setp(&x, T)', '(*px = T)', 'x++', '++x', '(x =+ 1)', 'x--', '(x =- 1)'],
           'g': ['(g = T)', 'setg(T)', 'setp(&g, T)', 'g++', '--g', '(g =* 2)'],
           'v[1]': ['(v[1] = T)', 'setp(v + 8, T)', 'v[1]++', '--v[1]', '(*(v + 8) = T)', '(v[o] = T)', '(v = v2)[0]'],
           'v[x]': ['(x = T)', 'x++', '(v[1] = T)', 'setp(&x, T)', '(v[x] = T)', '(v[x]++)', '--x', '(v = v2)[1]'],
           '*p': ['(p = &v[2])[0]', '(*p = T)', 'setp(p, T)', 'setp(&p, v)', '++*p', '(p =+ 8)[0]', '(p = v)[1]'],
           'p[1]': ['(p = &v[1])[0]', '(p[1] = T)', 'setp(&p, v)', 'p[1]++', '(p =+ 8)[0]'],
           'gv[x]': ['x++', '(x = T)', '(gv[x] = T)', 'gv[x]--', '(gv = v2)[0]'],
           'a': ['(a = T)', 'setp(&a, T)', 'a++', '--a', '(*pa = T)'],
           'gt[x]': ['x--', '(gt[x] = T)', '(gt[1] = T)', 'setp(gt, T)']}
    rctx = ['R - (H)', '(H) - R', 'R - H - R', 'fa(R, H)', 'fb(H, R)', 'fa(R, H) - R', 'v[R & 3] - (H)', 'v[(R & 1) + ((H) & 1)]', 'R * 8 + (H)', 'R < (H)', 'R == (H)', '(H) > R', 'R | (H)', '- R + (H)', '!R - (H)',
            'R ? (H) : R', '(H) ? R : 5', '(H) & 0 ? 4 : R', '(R + (H)) * 10 + R', 'R - ((H) - R)', 'gf(R, H)', 'lf(R, H)', 'lt[R & 1](H, R)', '(R ? fa : fb)(H, R)', 'fb(fa(R, H), R)', 'R << ((H) & 7)', '(R & 63) + ((H) << 2)']
    wctx = ['R = (H) + R', 'R =+ (H)', 'R =- (H)', 'R =* (H) + R', 'v[R & 3] = (H)', 'v[R & 3] =+ (H)', 'v[(H) & 3] = R', '*(v + 8 * (R & 3)) = (H)', '(v[R & 3] = (H)) - R', 'y = R = (H)', 'y = (R =- (H)) + R', 'R = R = (H)', 'v[R & 3]++ - (H)', '++v[R & 3] - (H)', 'R === (H)', 'R =< (H) + R', 'v[R & 1] = v[(H) & 1] = R', 'gv[R & 3] =| (H)']
    # a place that holds a function, with ways to change it
    fun = {'lf': ['(lf = fb) != 0', 'setp(&lf, fb)', '(*pf = fb) != 0'], 'gf': ['(gf = fb) != 0', 'setf(fb)', 'setp(&gf, fb)'], 'lt[1]': ['(lt[1] = fb) != 0', 'setp(lt + 8, fb)'],
           'lt[x]': ['(x = 0)', 'x--', '(lt[x] = fb) != 0', '(lt = v2)[0]'], '*pf': ['(lf = fb) != 0', '(pf = &gf) != 0', 'setp(pf, fb)', '(*pf = fb) != 0'], 'gt[2]': ['(gt[2] = fb) != 0', 'setp(gt + 16, fb)'], 'af': ['(af = fb) != 0', 'setp(&af, fb)'],
           'pf[0]': ['(pf = &gf) != 0', '(pf[0] = fb) != 0'], '(o ? lf : af)': ['(lf = fb) != 0', '(o = 0)'], 'gt[x + 1]': ['x++ - 1', '(x = 0)', '(gt[2] = fb) != 0']}
    fctx = ['F(H, 4)', 'F(4, H)', 'F(H, H)', 'F(F(H, 1), 2)', 'F(2, F(1, H))', 'F(1, 2) - F(H, 4)', 'F(H, 4) - F(1, 2)', '(H) + F(1, 2)', 'fa(H, F(1, 2))', 'fa(F(1, H), F(1, 2))', '(F)(H, 4)', 'F(x, H) + F(H, x)', 'F(9, (H) ? 3 : 4)', 'F(H, H, H)']
    jobs = []
    for r, hs in num.items():
        for h in hs:
            for c in rctx + wctx: jobs.append((c, r, h))
    fj = [(c, r, h) for r, hs in fun.items() for h in hs for c in fctx]
    rng.shuffle(jobs)
    rng.shuffle(fj)
    jobs = jobs[:n - n // 4] + fj[:n // 4]
    rng.shuffle(jobs)
    out = []
    for k in range(0, len(jobs), 10):
        t, m = head, ''
        for j, (c, r, h) in enumerate(jobs[k:k + 10]):
            e = c.replace('R', r).replace('H', h)
            e = e.replace('F', '(%s)' % r if r.startswith('*') else r).replace('T', rng.choice(['0', '1', '2', '3']))
            s = rng.choice(['n = %s;', 'n = %s;', '%s;', 'if (%s) n = 1; else n = 2;', 'n = fa(%s, 1);', 'n = (%s) - x;', 'switch (%s) { case 0: n = 3; case 1: n = n + 4; default: n = n + 5; }']) % ('(%s)' % e if ' ? ' in c or ' = ' in c or '=' in c else e)
            t += '''h%d(a, af) { extrn g, gf, gv, gt; auto x, y, o, n, v[4], v2[4], p, pa, px, lf, pf, lt[3];
 x = 1; y = 0; o = 1; n = 0; g = 2; gf = fa; gv[0] = 1; gv[1] = 2; gv[2] = 3; gv[3] = 0; gt[0] = 3; gt[1] = 1; gt[2] = fa; lf = fa; pf = &lf; lt[0] = fb; lt[1] = fa; lt[2] = fb;
 v[0] = 2; v[1] = 1; v[2] = 3; v[3] = 0; v2[0] = fb; v2[1] = fb; v2[2] = 1; v2[3] = 2; %sp = v; pa = &a; px = &x;
 %s
 printf("%%d %%d %%d %%d %%d %%d %%d", n, x, y, o, g, a, gv[x & 1] < 1000); printf(" %%d %%d %%d %%d %%d %%d %%d %%d*n", v[0] < 1000, v[1] == 1, v[2], v[3], lf == fa, gf == fa, af == fa, p == v); }
''' % (j, 'v2[0] = 3; v2[1] = 0; ' if not r.startswith('lt') else '', s)
            for a in rng.sample([0, 1, 2, 3], 2):
                m += ' h%d(%d, fa);\n' % (j, a)
        out.append(t + 'main() { extrn g, gf, gv, gt; gv[0] = 1;\n%s}\n' % m.replace(');\n', '); gv = gv;\n') if False else t + 'main() {\n%s}\n' % m)
    return out


# -- names in the parts of a body ---------------------------------------------------------

def scopes(rng, n):
    """Names declared in one part of a body and used in others."""
    out = []
    for _ in range(n):
        names = rng.sample(['a', 'b', 'c', 'd', 'x1'], rng.choice([1, 2, 2, 3]))
        role = {x: rng.choice(['auto', 'auto', 'autov', 'extrn', 'extrn', 'extrnv', 'param', 'fun', 'none']) for x in names}
        top = []
        for x in names:
            if role[x] == 'extrn': top.append(rng.choice(['%s 5;\n', '%s;\n', '%s 1, 2;\n']) % x if rng.random() < .8 else '')
            elif role[x] == 'extrnv': top.append(rng.choice(['%s[3] 1, 2, 3;\n', '%s[2];\n']) % x)
            elif role[x] == 'fun': top.append('%s(q) { return (q + %d); }\n' % (x, rng.randrange(9)))
            elif rng.random() < .25: top.append(rng.choice(['%s 9;\n', '%s(q) return (q + 1);\n', '%s[2] 3;\n']) % x)
        decl = {'auto': 'auto %s;', 'autov': 'auto %s[2];', 'extrn': 'extrn %s;', 'extrnv': 'extrn %s;'}

        def use(x):
            r = role[x]
            if rng.random() < .02: r = rng.choice(['auto', 'autov', 'fun'])
            if r in ('auto', 'extrn', 'param'): return rng.choice(['%s = 3;', 'printd(%s);', '%s++;', 'p = &%s; *p = 4;', 'if (%s < 3) %s =+ 2;', 'printd(%s + 1);']).replace('%s', x)
            if r in ('autov', 'extrnv'): return rng.choice(['%s[1] = 3;', 'printd(%s[0]);', 'p = %s; p[0] = 8;', '%s[0]++;', 'printd(%s[1]);']).replace('%s', x)
            return rng.choice(['printd(%s(2));', 'n = %s(n);', 'p = %s; printd(p(1));']).replace('%s', x)

        def label(x):
            return rng.choice(['%s: ;', 'goto %s; %s: ;', '%s: if (n++ < 2) goto %s;', 'if (n) goto %s; %s: n = 2;']).replace('%s', x)
        todo = [x for x in names if role[x] in decl]
        labels = set()

        def seq(d, k):
            s = []
            for _ in range(k):
                r = rng.random()
                if todo and r < .3:
                    x = todo.pop(rng.randrange(len(todo)))
                    if rng.random() < .3 and todo and role[todo[-1]][:4] == role[x][:4] and role[x] == 'extrn':
                        y = todo.pop()
                        s.append('extrn %s, %s;' % (x, y))
                    else:
                        s.append(decl[role[x]] % x)
                elif r < .32 and names:
                    x = rng.choice(names)
                    if role[x] in decl: s.append(decl[role[x]] % x)
                elif r < .42:
                    x = rng.choice(names + ['l'])
                    if x not in labels and (role.get(x) not in decl or role[x][:4] == 'extr' or rng.random() < .05):
                        labels.add(x)
                        s.append(label(x))
                elif d and r < .72:
                    i = rng.randrange(9)
                    b = seq(d - 1, rng.choice([1, 2, 3]))
                    s.append(['{ %s }', 'if (1) { %s }', 'if (0) { %s }', 'if (n > 3) ; else { %s }', 'w = 2; while (w-- > 0) { %s }', 'switch (n & 1) { case 0: %s }', 'switch (n) { case 5: { %s } default: ; }', 'if (n < 99) { { %s } } else ;', 'switch (1) { default: %s }'][i].replace('%s', b))
                else:
                    s.append(use(rng.choice(names if rng.random() < .1 else [x for x in names if x not in todo and role[x] != 'none'] or names)))
            return ' '.join(s)
        b = seq(2, rng.choice([3, 4, 6]))
        params = [x for x in names if role[x] == 'param']
        t = 'f(%s) { auto n, w, p; n = 0; %s printd(n); }\n' % (', '.join(params), b)
        if rng.random() < .4:
            x = rng.choice(names)
            t += rng.choice(['g() { extrn %s; printd(%s); }\n', 'g() { auto %s; %s = 1; printd(%s); }\n', 'g() { printd(%s(1)); }\n', 'g() { %s: ; }\n', 'g(%s) return (%s);\n']).replace('%s', x)
        else:
            t += 'g() ;\n'
        top.append(t)
        if rng.random() < .4: rng.shuffle(top)
        out.append(''.join(top) + 'main() { f(%s); g(%s); }\n' % (', '.join('%d' % i for i in range(len(params))), '1'))
    return out


# -- loops that never end --------------------------------------------------------------------

def forever(rng, n):
    """Programs that write something and may then compute for ever, without
    another effect."""
    loops = ['while (1) ;', 'while (1);', 'while (x) ;', 'l: goto l;', 'while (!z) ;', 'while (x == x) ;', 'while (x < 5) x = x;', 'while (1) { x = 1 - x; }', 'while (1) x++, x--;' if False else 'while (1) { x++; x--; }', 'a: x = 3; goto b; b: x = 4; goto a;',
             'while (g < 2) ;', 'while (g == 0) x = g;', 'while (*p) ;', 'while (*p < 9) *p = 4;', 'while (v[1] == 0) v[0] = v[1];', 'while (1) { if (x > 100) return (5); }', 'while (1) if (g) goto out;', 'while (x) { if (z) x = 0; }', 'while (1) switch (x) { case 1: x = 2; default: x = 1; }',
             'switch (x) { case 1: while (1) ; default: printf("d"); }', 'if (x) while (1) ; else printf("e");', 'while (x ? 1 : z) ;', 'while (x) while (x) ;', 'while (1) { while (z) ; }', 'while ((x = 7 - x) | 1) ;', 'while (x | z) g = z;', 'while (-1) ;', "while ('a') ;", 'while (x != 9) { x =+ 2; x =& 7; }', 'm: if (x) goto m;',
             'while (!0) { z = x; z = 0; }', 'while ("a") ;', 'while (main) ;', 'while (&x) ;', 'while (v) ;', 'x = 1; while (x & 1) x =+ 2, 0;' if False else 'x = 1; while (x & 1) { x =+ 2; x =% 8; }', 'while (z == 0) if (x == 0) printf("never");', 'y = 0; while (y <= 3) y = (y + 1) & 3;',
             # these end
             'while (z) ;', 'while (x-- > 0) ;', 'while (x < 100) x++;', 'goto out;', 'while (x) x =>> 1;', 'return (3);', 'if (z) while (1) ;', 'y = 50; while (y) y--;', 'while (x != 9) x++;', 'while (x + 1 > x) x = x + x + 1;']
    out = []
    rng.shuffle(loops)
    for i in range(n):
        lp = loops[i % len(loops)]
        wrap_ = rng.randrange(8)
        body = 'x = 1; z = 0; y = 2; v[0] = 0; v[1] = 0; p = &x; %s out: ;' % lp
        auto = 'auto x, y, z, v[3], p;'
        if 'goto out' not in lp: body = body.replace(' out: ;', '')
        t = 'g;\n'
        if wrap_ < 2: t += 'main() { extrn g; %s printf("a*n"); %s printf("b"); return (4); }\n' % (auto, body)
        elif wrap_ == 2: t += 'f() { extrn g; %s %s }\nmain() { printf("a*n"); f(); printf("b"); }\n' % (auto, body)
        elif wrap_ == 3: t += 'f(k) { extrn g; %s %s return (k); }\nmain() { auto r; printf("a*n"); r = f(4); printf("b%%d", r); }\n' % (auto, body)
        elif wrap_ == 4: t += 'main() { printf("a*n"); if (f(1) == 2) printf("c"); printf("b"); }\nf(k) { extrn g; %s %s return (k); }\n' % (auto, body)
        elif wrap_ == 5: t += 'f(k) { extrn g; %s if (k == 0) return (7); %s return (k); }\nmain() { auto h; h = f; printf("%%d*n", h(0)); h(1); printf("b"); }\n' % (auto, body)
        elif wrap_ == 6: t += 'main() { extrn g; %s g = 0; printf("a"); if (g) printf("c"); %s }\n' % (auto, body)
        else: t += 'f(k) { extrn g; %s %s g = k; }\nmain() { extrn g; auto n; n = 0; while (n < 3) { if (n == 2) f(n); printf("%%d*n", n++); } }\n' % (auto, body)
        out.append(t.replace('%%', '%'))
    return out


# -- long tokens ------------------------------------------------------------------------------

LENGTHS = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, 700, 999, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000]


def longtokens(rng, n):
    """A token, a comment or a gap of a chosen length wherever one can stand:
    at the start of statements, before and behind each kind of token."""
    uses = ['N = 3; printd(N);', 'N: printd(4); N2: ;', 'goto N; printd(1); N: printd(2);', 'G(5);', 'printd(G(5));', 'N++; printd(N);', '++N; printd(N);', 'V[1] = 4; printd(V[1]);', 'N = G(N = 2) + 1; printd(N);',
            'if (N) printd(1); else N = 6; printd(N);', 'switch (N) { case 0: N = 1; case 5: N = 2; } printd(N);', 'while (N-- > 0) N = 0; printd(N);', 'printd(&N == 0);', 'N =+ 2; printd(N);', 'N === 2; printd(N);', 'N ? G(1) : G(2); printd(N);',
            'V = 0; printd(V);', '{ N = 7; } printd(N);', 'N;', 'return (N);', '(N) + 1;', 'printd(-N);', 'if (!N) N2: N = 8; printd(N);', '*&N = 5; printd(N);', 'N2: N = 1; printd(N);', 'G(G(N), N);', 'N=-1;printd(N);', 'N/**/=/**/5;printd(N);', 'N\n=\n5\n;printd(N);', 'printd(N)/**/;', 'N == 0; printd(N);']
    out = []
    for _ in range(n):
        L = rng.choice(LENGTHS)
        N = ''.join(rng.choice(rng.choice(['a', 'xyz_09', 'ab'])) for _ in range(L - 1))
        N = 'n' + N
        k = rng.randrange(8)
        if k < 4:
            how = rng.choice(['auto', 'extrn', 'param'])
            body = ' '.join(u.replace('N2', 'L%d' % i + N).replace('N', N).replace('G', 'g' + N).replace('V', 'v' + N) for i, u in enumerate(rng.sample(uses, 3)) if True)
            labels = re.findall(r'(?:^| |;)(n\w+):', body)
            if labels:                                      # the name is a label in it: of another name
                body = re.sub(r'\b(n\w{8,}):', r'L\1:', re.sub(r'goto (n\w{8,});', r'goto L\1;', body))
                seen = set()
                if any(x in seen or seen.add(x) for x in re.findall(r'\b(\w+):', body)): continue
            t = 'g%s(x) return (x + 1);\n' % N
            if how == 'extrn': t = '%s 3;\n' % N + t
            d = {'auto': 'auto %s;' % N, 'extrn': 'extrn %s;' % N, 'param': ''}[how]
            t += 'f(%s) { %s auto v%s[3]; %s %s }\nmain() { printd(f(3)); }\n' % (N if how == 'param' else 'x', d, N, '' if how != 'auto' else '%s = 3;' % N, body)
        elif k == 4:                                        # numbers
            z = '0' * L
            t = 'g %s17; v[%s4] %s1, -%s2;\nmain() { extrn g, v; auto w[%s3]; %s5; printd(g); printd(v[1]); switch (%s12) { case %s12: printd(%s7); } w[2] = 1; printd(%s777 - %s1); }\n' % ((z,) * 11)
        elif k == 5:                                        # strings
            s = ''.join(rng.choice(rng.choice(['a', 'xyz ', '/', '(', ' '])) for _ in range(L))
            t = 'g "%s"; main() { extrn g; "%s"; printf("%s"); "%s"[0]; printf("%%s.%%s", g, "x%s"); }\n' % (s, s, s, s, s)
        else:                                               # gaps
            toks = [x.decode() for x in _tokens(rng.choice(GAPPED))]
            i = rng.randrange(len(toks) + 1)
            gap = rng.choice([' ' * L, '\n' * L, '\t' * L, '/*' + ' ' * L + '*/', '/*' + '*' * L + '*/', '/*' + '/' * L + '*/', ' /**/' * (L // 5), '/* */ ' * (L // 6), '\r\n' * (L // 2), '/*"*/' * (L // 5), "/*'*/\n" * (L // 6), '/*' + 'x\n' * (L // 2) + '*/'])
            t = ' '.join(toks[:i]) + gap + ' '.join(toks[i:])
            if rng.random() < .3:
                j = rng.randrange(len(t) - 2)
                t = t + rng.choice(['', gap, gap.replace('*/', '* /') if False else gap])
        out.append(t)
    return out


GAPPED = [b'g 1, -2; v[2] 3, "s"; f(a, b) return (a + b); main() { auto x, w[3]; extrn g, v; x = f(1, 2); w[0] = w[1] = 4; l: if (x-- > 0) goto l; else w[0] =+ 3; while (!x) { x++; } switch (x) { case 1: printd(5); default: printd(6); } printf("%d%s", x ? g : w[1], v[1]); return (0); }',
          b'f() { } main() { auto x, p; p = &x; *p = 3; x =<< 2; x = x >= 4 | x == 12; ++x; printd(x); if (x) f(); printf("a*n"); x = \'ab\'; write(x); }']


def _tokens(b):
    return tokens(b)
