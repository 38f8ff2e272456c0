"""Systematic families of programs, shared by several checks: every operator
on every kind of operand, every producer of a value in every context that
consumes one, sizes and counts around likely thresholds.  As everywhere, the
programs carry no expectation: the specification says what they mean."""
from gen import *

LITS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1024, 4096, 65535, 65536,
        (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 62), (1 << 63) - 1]
VALS = [0, 1, -1, 2, -2, 3, -3, 7, -7, 8, -8, 9, -9, 15, -17, 63, 64, 65, 100, -100, 255, -256, 1000003,
        (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32), (1 << 32) - 1, -(1 << 32), (1 << 52) + 1,
        (1 << 62), -(1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 0x0123456789abcdef]


def const(v):
    """A constant expression of value v: a literal where there is one."""
    if v == -(1 << 63): return '(-9223372036854775807 - 1)'
    return '(-%d)' % -v if v < 0 else str(v)


def operators(rng, share=1.0):
    """x op literal, literal op x and x op y for values of every kind; the
    results go into a checksum that is printed now and then."""
    jobs = []
    for op in BIN:
        for k in LITS:
            for neg in (False, True):
                if neg and (k == 0 or rng.random() < .5): continue
                kk = -k if neg else k
                for v in rng.sample(VALS, 5) + [rng.choice([-9, -7, -17, -1, 7, 9])]:
                    if apply(op, v, kk) is not None:
                        jobs.append((op, 'vl', v, kk))
                for v in rng.sample(VALS, 2):
                    if apply(op, kk, v) is not None:
                        jobs.append((op, 'lv', kk, v))
    for op in BIN:
        for _ in range(30):
            a, b = rng.choice(VALS), rng.choice(VALS)
            if apply(op, a, b) is not None:
                jobs.append((op, 'll', a, b))
            a, b = rng.choice(VALS), rng.choice(VALS)
            if apply(op, a, b) is not None:
                jobs.append((op, 'vv', a, b))
    rng.shuffle(jobs)
    jobs = jobs[:int(len(jobs) * share)]
    out = []
    for n in range(0, len(jobs), 110):
        part = jobs[n:n + 110]
        vals = sorted({j[2] for j in part if j[1] in ('vl', 'vv')} | {j[3] for j in part if j[1] in ('lv', 'vv')})
        pos = {v: i for i, v in enumerate(vals)}
        t = 'h;\nk[%d];\nid(x) return (x);\nset() { extrn k;\n' % len(vals)
        t += ''.join(' k[%d] = %s;\n' % (i, const(v)) for i, v in enumerate(vals)) + '}\n'
        nf = 0
        body = []
        funs = []
        for m, (op, kind, a, b) in enumerate(part):
            var = lambda v: rng.choice(['k[%d]', 'k[%d]', 'id(k[%d])', '(k[%d])', 'x']) % pos[v] if True else ''
            pre = ''

            def opnd(v, isvar):
                nonlocal pre
                if not isvar:
                    return '(' + const(v) + ')' if rng.random() < .2 else const(v) if v >= 0 or rng.random() < .5 else '-%d' % -v if v > -(1 << 63) else const(v)
                f = rng.randrange(5)
                if f == 0 and not pre:
                    pre = 'x = k[%d]; ' % pos[v]
                    return 'x'
                return ['k[%d]', 'k[%d]', 'id(k[%d])', '(k[%d])', '*(&k[%d])'][f] % pos[v]
            ta = opnd(a, kind in ('vl', 'vv'))
            tb = opnd(b, kind in ('lv', 'vv'))
            e = '%s %s %s' % (ta, op, tb)
            f = rng.randrange(6)
            if f == 0 and kind in ('vl', 'vv') and op in ASGOP:
                s = pre + 'y = %s; y %s %s; h = h * 31 + y;' % (ta, ASGOP[op], tb)
            elif f == 1:
                s = pre + 'if (%s) h = h * 31 + 7; else h = h * 31 + 3;' % e
            elif f == 2:
                s = pre + 'y = %s; h = h * 31 + y;' % e
            elif f == 3:
                s = pre + 'h = h * 31 + %s(%s);' % (rng.choice(['!', '-', 'id']), e)
            else:
                s = pre + 'h = h * 31 + (%s);' % e
            body.append(s)
            if m % 11 == 10 or m == len(part) - 1:
                body.append('printf("%d*n", h);')
        t += 'main() { extrn h, k; auto x, y; set();\n %s\n}\n' % '\n '.join(body)
        out.append(t)
    return out


ASGOP = {'*': '=*', '/': '=/', '%': '=%', '+': '=+', '-': '=-', '<<': '=<<', '>>': '=>>', '<': '=<', '<=': '=<=',
         '>': '=>', '>=': '=>=', '==': '===', '!=': '=!=', '&': '=&', '|': '=|'}


def wraps(rng, n):
    """Functions whose result changes when an optimizer may assume that
    arithmetic does not wrap, called where they can and cannot be inlined."""
    steps = ['y = x + %(k)s;', 'y = x - %(k)s;', 'y = x; ++y;', 'y = x; --y;', 'y = x; y++;', 'y = x; y--;',
             'y = x; y =+ %(k)s;', 'y = x; y =- %(k)s;', 'y = x * %(k)s;', 'y = x; y =* %(k)s;', 'y = -x;',
             'y = x << %(s)s;', 'y = x; y =<< %(s)s;', 'y = x << %(s)s >> %(s)s;', 'y = x * %(k)s / %(k1)s;',
             'y = x + z;', 'y = x - z;', 'y = x * z;', 'y = %(k)s - x;', 'y = x + x;', 'y = x + %(k)s - x;',
             'w[0] = x; ++w[0]; y = w[0];', 'w[1] = x; w[1]--; y = w[1];', 'w[1] = x; w[1] =+ z; y = w[1];',
             'y = x >> %(s)s << %(s)s;', 'y = x / %(k1)s * %(k1)s;', 'y = (x - 1) & x;', 'y = x %% %(k1)s;',
             'y = x + 1; y = y + 1;', 'y = x; while (n--) y = y + %(k)s;', 'y = x; while (n--) y =* 3;',
             'y = x; while (n-- > 0) ++y;', 'p = &y; y = x; ++*p;', 'y = x; p = &y; *p =+ %(k)s;']
    uses = ['y > x', 'y < x', 'y >= x', 'y <= x', 'y == x', 'y != x', 'y > 0', 'y < 0', 'y >= 0', 'y == 0', 'y',
            'y - x', 'x - y > 0', '(y > x) + 2 * (x > 0)', '(y < 0) == (x < 0)', 'y / 2', 'y %% 8', 'y >> 1', '-y', '!y',
            'y - 1 < y', 'y + 1 > y', '-y < 0', 'y * 2 / 2 == y', 'y << 1 >> 1 == y', 'x > 0 ? y > 0 : y < 0',
            '(y | x) < 0', '(y & x) > 0', 'y == x + 1', 'x < y - 1', 'x - 1 < y', 'y - z > x - z', 'y * 3 > x * 3']
    vals = [v for v in VALS if v not in (65,)] + [(1 << 63) - 2, (1 << 63) - 3, -(1 << 63) + 2, (1 << 61), 3 << 61, -(3 << 61)]
    out = []
    for _ in range(n):
        t = 'fp;\ncall(f, x, z) return (f(x, z, 3));\n'
        m = ['main() { extrn fp; auto h; h = 0;\n']
        for j in range(12):
            k = rng.choice([1, 1, 2, 3, 5, 8, 10, 100, 1 << 31, (1 << 62), (1 << 63) - 1])
            sub = {'k': const(k if rng.random() < .8 else -k), 's': str(rng.choice([1, 2, 3, 8, 31, 32, 33, 62, 63])),
                   'k1': rng.choice(['2', '3', '8', '10', '-3', '1000', '64'])}
            st = rng.choice(steps) % sub
            u = rng.choice(uses).replace('%%', '%')
            ret = 'return (%s);' % u if rng.random() < .7 else 'if (%s) return (5); return (6);' % u
            t += 'f%d(x, z, n) { auto y, w[2], p; %s %s }\n' % (j, st, ret)
            for _ in range(4):
                x, z = const(rng.choice(vals)), const(rng.choice(vals))
                how = rng.random()
                if how < .4: c = 'f%d(%s, %s, 3)' % (j, x, z)
                elif how < .7: c = 'call(f%d, %s, %s)' % (j, x, z)
                else:
                    m.append(' fp = f%d;\n' % j)
                    c = 'fp(%s, %s, 3)' % (x, z)
                m.append(' printf("%%d ", %s);\n' % c)
            m.append(' printf("*n");\n')
        out.append(t + ''.join(m) + '}\n')
    return out


# -- every producer of a value in every context ---------------------------------

PRODUCERS = [                       # text; each has at most one side effect
    '0', '1', '5', '-1', "'A'", "'*e'", '010', '9223372036854775807', 'a', 'b', 'z', 'g', 'v[1]', 'gv[2]', 'big[3]', '*p', 'p[0]', '*q',
    'id(a)', 'id(0)', 'two(b, 1)', 'none()', 'fp(b)', 'a < b', 'a <= 3', 'a == b', 'a != b', 'b > 2', '3 >= b', '!a', '!b', '!!b', '!(a < b)',
    '-a', '- -b', '-b', 'a + b', 'a - a', 'a * b', 'b / 2', 'b % 2', 'a & b', 'a | b', 'b << 1', 'b >> 1',
    'x = 0', 'x = 5', 'x = b', 'x = a < b', 'x = a == b', 'x = !a', 'x = !b', 'x = -b', 'x = a > b', 'x = id(b)', 'x = a + b',
    'x = (y = a < b)', 'x = y = b', 'g = a < b', 'g = !b', 'v[1] = a < b', 'v[1] = !b', '*p = a < b', '*p = !b', 'gv[2] = a == b',
    'x =+ 3', 'x =- 9', 'x =* b', 'x =/ 2', 'x =% 4', 'x =& 1', 'x =| 4', 'x =<< 2', 'x =>> 1', 'x =< b', 'x =<= b', 'x => b',
    'x =>= b', 'x === b', 'x =!= b', 'x === a', 'x =+ (a < b)', 'x =| !b', 'v[2] =+ 1', 'v[2] =< 100', '*p =- 1', '*p === 3', 'g =+ 1',
    'x++', 'x--', '++x', '--x', 'v[1]++', '--v[2]', '++*p', 'g++', '--g', 'gv[1]++', 'z++', '--z', 'o--', '--o', 'q[0]++', '(&x)[0]++',
    'a ? b : 3', 'b ? 0 : 1', 'a < b ? 1 : 0', 'a < b ? x++ : 5', 'a > b ? x++ : 0', 'b ? (a ? 2 : 3) : 4', 'a ? 1 : b ? 2 : 3',
    '(a == b) ? !a : !b', 'b ? a < b : a > b', 'v == v', 'v == q', '&a == &b', '&v[1] == v + 8', '&x == p', 'id == id', 'id == none',
    '"s" == 0', 'char("xyz", 1)', 'char("", 0)', 'x = "q" != 0', '(x)', '((a))', '(x = 3)', '(x++)', '(a < b)', '(!b)',
    'v[x++ & 3]', 'v[a < b]', 'v[!a]', 'gv[x =- 1]', 'id(x++)', 'id(a < b)', 'id(!b)', 'id(x = !b)', 'two(x++, 1)', 'two(1, a < b)',
    '*(&x)', '*&b', '&*p == p', '-(a < b)', '!(x = a == b)', '!(x = a < b)', '!(x = !b)', '-(x = !a)', '!(x === b)', '!x++', '-x--', '!--o',
    '(a < b) + (b > a)', '(a < b) == 1', '(a < b) < 2', '!a == 0', '!a + 1', '(x = a < b) + 1', '(x = !b) == 0', '1 < (x = b)',
    # what a simplification might take for something simpler
    'a ? a : 0', 'b ? b : 0', 'a ? 0 : a', 'b ? 0 : b', 'a ? b : a', 'a ? a : b', 'a ? b : b', 'a ? 1 : 0', 'a ? 0 : 1', 'b ? 1 : 1', '0 ? a : b', '1 ? a : b', 'g ? g : 0', 'v[1] ? v[1] : 0', '*p ? *p : 0', 'x ? x : 0', 'x ? 0 : x',
    'a < b ? a : b', 'a > b ? a : b', 'a <= b ? b : a', 'a == b ? a : b', 'a != b ? a : b', 'a < 0 ? - a : a', 'a > 0 ? a : 0', 'a ? !a : a', 'a ? b / a : 9', 'a == 0 ? 8 : b % a', 'z ? *z : 6', 'o - 1 ? *z : 6', 'z == 0 ? 7 : z[1]',
    'a * 0', 'a * 1', '0 * a', '1 * a', 'a + 0', '0 + a', 'a - 0', '0 - a', 'a / 1', 'a % 1', 'a & 0', 'a | 0', 'a & a', 'a | a', 'b - b', 'o / o', 'b == b', 'b != b', 'b < b', 'b <= b', 'a << 0', 'a >> 0', 'b * 2', 'b * 8', 'b / 8', 'b % 8', '- b / 2', '- b % 4', '- b >> 1', '(0 - b) / 4',
    '-(-b)', '!!!b', '!(a == b)', '!(a < b) == 0', '-(a - b)', '(a + b) - b', '(a - b) + b', '(b * a) / 3', 'b * 3 / 3', 'b << 2 >> 2', 'b >> 1 << 1', '(b & 6) | (b & 1)', 'a + a', 'a * a', 'b + b + b', '2 * b + b', '(a & 1) == 0', '(b & 1) != 0', '(b & 2) == 2',
    'a == 0', 'b == 0', 'a != 0', '0 == b', '0 != b', 'a < 1', 'b >= 1', '0 < b', 'b > 0 == 1', '(b > 0) == 0', '(a == 0) != 1', 'a < 0', 'b >= 0', '-b < 0', '(a < b) & (b > 2)', '(a < b) | (a > b)', '(a < b) & b', 'a & (a < b)', '!a & !b', '!(a & b)', '!(a | b)',
    'x = x', 'x =+ x', 'x =- x', 'x =* x', 'x =/ x', 'x =% x', 'x =& x', 'x =| x', 'x =< x', 'x === x', 'x =* 0', 'x =+ 0', 'x =- 0', 'x =* 1', 'x =/ 1', 'x =% 1', 'x =& 0', 'x =| 0', 'x =<< 0', 'x =& -1', 'x =| -1', 'x =- 1', 'x =+ -1', 'x =+ 1', 'x = x + 1', 'x = x - 1', 'x = 1 + x', 'x = x * 2', 'x = x + x', 'x = - x', 'x = !x', 'x = x == 3', 'x = x ? x : b', 'v[1] = v[1] + 1', 'v[1] = v[2]', '*p = *p + 1', 'g = g + 1', 'g = g',
    'x = b ? a : b', 'x = b ? 5 : a', 'x = (a ? 0 : b)', 'v[b & 1] = a ? 1 : 2', 'v[a & 1]', 'v[(b & 1) + 2 - 1]', 'v[0 + 1]', 'v[2 - 1]', '(v)[1]', '*(v + 8)', '*v', '*&v[1]', '&v[1] - v', '(&v[2] - &v[0]) / 8', '*(8 + v)', '(v + 16)[-1]', '(&v[1])[1]', '*(&v[2] - 8)', 'id(v)[1]', '*id(&b)', '(a ? v : gv)[1]', '*(b ? p : q)',
]

CONSUMERS = [                       # statements; E is the producer
    'if (E) t(1);', 'if (E) t(1); else t(2);', 'if (!(E)) t(1); else t(2);', 'if (E) ; else t(2);', 'if (E) { } t(3);',
    'while (E) { t(1); goto out; } t(2);', 'while (!(E)) { t(1); goto out; } t(2);', 'while (E) { t(1); if (n++ > 1) return (n); a = 0; b = 0; }',
    'switch (E) { case 0: t(1); case 1: t(2); goto out; case 5: t(3); default: t(4); }', 'switch (E) { case 1: t(1); }', 'switch (E) { default: t(1); }', 'switch (E) ;',
    't((E) ? 3 : 4);', 'r = (E) ? 3 : 4;', 'r = a ? (E) : 4;', 'r = b ? (E) : 4;', 'r = b ? 4 : (E);', 'r = a ? 4 : E;', 'r = (E) ? (a ? 1 : 2) : (b ? 3 : 4);',
    'r = E;', 'r = (E);', 'r =+ (E);', 'r =- E;', 'r =* (E);', 'r =| E;', 'r =< E;', 'r === E;', 'r =>> (E) & 3;', 'w[0] = E;', 'w[(E) & 1] = 8;', '*pw = E;', 'g2 = E;', 'gw[1] = E;',
    'r = !(E);', 'r = -(E);', 'r = !!(E);', 'r = (E) + 1;', 'r = 1 + (E);', 'r = (E) - 1;', 'r = 7 - (E);', 'r = (E) * 3;', 'r = (E) / 2;', 'r = 100 / (((E) & 7) + 1);', 'r = (E) << 2;', 'r = (E) >> 1;',
    'r = (E) == 1;', 'r = 0 == (E);', 'r = (E) != 0;', 'r = (E) < 2;', 'r = 1 > (E);', 'r = (E) >= 1;', 'r = (E) & 1;', 'r = (E) | 8;', 'r = 6 & (E);',
    'return (E);', 'return (!(E));', 'return ((E) ? 8 : 9);', 'if (E) return (4); return (5);', 'if (E) return; t(9);',
    'E;', '(E);', 't(E);', 't(!(E));', 'r = id(E);', 'r = two(1, E);', 'r = two(E, 1);', 'r = six(1, 2, 3, 4, 5, E);', 'r = eight(1, 2, 3, 4, 5, 6, 7, E);', 'r = fp(E);', 'r = fp2(2, E);', 'r = (b ? id : none)(E);',
    'printf("%d", E);', 'printf("%d %d", 1, E);', 'printd(E);', 'r = w[(E) & 1];', 'r = *(&w[(E) & 1]);', 'p = &w[(E) & 1]; r = *p;', 'r = s = E;', 'r = (s = E) + 1;', 'if (s = E) t(1); t(s);', 'if (!(s = E)) t(1); t(s);', 'while (s = E) { t(s); goto out; } t(s);', 't((s = E) ? s : 7);', 'r = ((E));', '{ auto k; k = E; t(k); }', '; E; ;', 'lab: E;', 'goto lab; t(9); lab: t(E);', 'n = 2; while (n) { t(E); n--; }', 'if (a) ; else if (E) t(5); else t(6);', 'if (b) if (E) t(5); else t(6);', 'switch (b) { case 3: t(E); default: t(1); }',
]

CTX_HEAD = '''g 4;
g2;
gv[4] 1, 2, 3, 4;
gw[3];
big[20];
id(x) return (x);
two(x, y) { return (x * 10 + y); }
six(a, b, c, d, e, f) return (a + b * 2 + c * 3 + d * 4 + e * 5 + f * 1000);
eight(a, b, c, d, e, f, g, h) { return (a + b + c + d + e + f + g * 100 + h * 1000); }
none() { }
t(x) { printd(x); writeb(' '); return (x + 1); }
'''


def contexts(rng, n=None):
    """Functions that give every producer to every consumer (n: how many)."""
    # (an assignment is no third operand)
    jobs = [(p, c) for p in PRODUCERS for c in CONSUMERS if c != 'r = a ? 4 : E;' or ' =' not in p]
    rng.shuffle(jobs)
    if n is not None:
        # every producer and every consumer at least a few times
        jobs = jobs[:n]
    out = []
    for k in range(0, len(jobs), 26):
        part = jobs[k:k + 26]
        t, calls = CTX_HEAD, ''
        for j, (p, c) in enumerate(part):
            s = c.replace('E', p)
            t += '''f%d(a, b) { extrn g, g2, gv, gw, big; auto x, y, z, o, r, s, n, v[4], w[2], p, q, pw, fp, fp2;
 x = 3; y = 4; o = 1; v[0] = 6; v[1] = 7; v[2] = 8; v[3] = 9; w[0] = 1; w[1] = 2; r = 0; s = 0; n = 0; p = &x; q = gv; pw = &w[1]; fp = id; fp2 = two; big[3] = 9;
 %s
out: printf("%%d %%d %%d %%d %%d %%d %%d %%d %%d.", x, y, z, o, r, s, v[1], v[2], a);
 printf("%%d %%d %%d %%d %%d %%d %%d*n", g, g2, w[0], w[1], gv[1], gv[2], gw[1]); return (r); }
''' % (j, s)
            calls += ' printd(f%d(0, 3)); printd(f%d(%d, %d));\n' % (j, j, rng.choice([1, 3, 5]), rng.choice([0, 3, 5]))
        out.append(t + 'main() {\n%s}\n' % calls)
    return out


# -- storage ----------------------------------------------------------------------

SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300]
FILLERS = '''fill(v, n, x) { while (n--) v[n] = x + n; }
sum(v, n) { auto s; s = 0; while (n--) s = s * 3 + v[n]; return (s); }
'''


def sizes(rng, n):
    """Vectors of many sizes with many numbers of initial values, in use up to
    their last word while their neighbours are watched."""
    out = []
    pool = [(s, m) for s in SIZES for m in sorted({0, 1, 2, 3, s // 2, s - 1, s, s + 1}) if 0 <= m <= 70]
    rng.shuffle(pool)
    for k in range(n):
        vs, ls = [], []
        text = FILLERS
        defs, watch, fills = [], [], []
        for i in range(rng.choice([4, 6])):
            s, m = pool[(k * 6 + i) % len(pool)]
            words = max(1, s, m)
            vals = [str(rng.randrange(-50, 1000)) if rng.random() < .9 else '0' for _ in range(m)]
            defs.append('g%d[%s]%s;\n' % (i, s if s else '', ' ' + ', '.join(vals) if vals else ''))
            vs.append(('g%d' % i, words))
        for i in range(rng.choice([1, 2])):
            m = rng.choice([1, 2, 3, 9, 20])
            defs.append('h%d%s;\n' % (i, ' ' + ', '.join(str(rng.randrange(99)) for _ in range(m)) if m > 1 or rng.random() < .5 else ''))
            vs.append(('&h%d' % i, m))
        names = [x[0].strip('&') for x in vs]
        rng.shuffle(defs)
        for i in range(rng.choice([2, 4])):
            s = rng.choice(SIZES)
            ls.append(('l%d' % i, max(1, s)))
        decl = ['%s[%s]' % (x, w) for x, w in ls] + ['z']
        rng.shuffle(decl)
        if rng.random() < .4 and len(decl) > 1:
            auto = 'auto %s; auto %s;' % (', '.join(decl[:1]), ', '.join(decl[1:]))
        else:
            auto = 'auto %s;' % ', '.join(decl)
        allv = vs + ls
        body = ['printf("%%d ", sum(%s, %d));' % x for x in vs]
        for x, w in rng.sample(allv, len(allv)) + rng.sample(vs, 2):
            body.append('fill(%s, %d, %d);' % (x, w, rng.randrange(1000)))
            y, u = rng.choice(allv if len(body) > 3 * len(allv) else vs)
            body.append('printf("%%d ", sum(%s, %d));' % (y, u))
        body += ['printf("%%d ", sum(%s, %d));' % x for x in allv]
        body.append('printf("%d*n", z);')
        fun = 'main() { extrn %s; %s\n %s\n}\n' % (', '.join(names), auto, '\n '.join(body))
        parts = [FILLERS, ''.join(defs), fun]
        rng.shuffle(parts)
        out.append(''.join(parts))
    return out


def vector_names(rng, n):
    """Vector names, strings and functions as values that are assigned,
    exchanged, passed and indexed far from their base."""
    out = []
    for _ in range(n):
        a, b, c = [rng.choice([1, 2, 3, 8, 20, 64, 65]) for _ in range(3)]
        ia = rng.choice(['', ' 5', ' 5, 6'])
        big = rng.choice([1 << 31, 1 << 32, (1 << 31) - 1, (1 << 32) + 1, 5000000000, 1 << 40, 3 << 58, 1 << 60, -(1 << 32), -5, -3000000000, (1 << 33) + 7, 1 << 59])
        defs = ['va[%d]%s;\n' % (a, ia), 'vb[%d];\n' % b, 'vc[%d] 7;\n' % c, 'sc 3;\n', 'mv 1, 2, 3;\n']
        fs = ['first(v) { return (v[0]); }\n', 'put(v, i, x) { v[i] = x; return (v); }\n',
              'swapv() { extrn va, vb; auto t; t = va; va = vb; vb = t; }\n', 'where(i) { extrn va; return (&va[i]); }\n']
        st = [
            'va[0] = 11; vb[0] = 22; vc[0] = 33; swapv(); printf("%d %d ", va[0], vb[0]);',
            'vb = vc; vb[0] = 44; printf("%d ", vc[0]);',
            'va = lv; va[1] = 55; printf("%d %d ", lv[1], first(lv));',
            'lv = vc; printf("%d ", lv[0]); lv[0]++; printf("%d ", vc[0]);',
            'lv = lw; lv[2] = 9; printf("%d ", lw[2]);',
            'vc = "hello"; printf("%s ", vc); vc = lw; ',
            'p = va; va = p + 8; va[-1] = 5; printf("%d ", p[0]); va = p;',
            'p = &va; printf("%d ", *p == va);',
            'p = lv + 8; p[-1] = 70; printf("%d %d ", lv[0], p - lv);',
            'i = %s; p = lw - 8 * i; p[i] = 4; p[i + 1] = 6; printf("%%d %%d %%d ", lw[0], lw[1], p[i + 1]); p[i + 2] =+ 3; p[i]++; printf("%%d %%d ", lw[0], lw[2]);' % const(big),
            'i = %s; p = vc - i * 8; printf("%%d %%d ", p[i] == vc[0], &p[i] == vc);' % const(big),
            'put(put(lw, 0, 3), 1, 4); printf("%d %d ", lw[0], lw[1]);',
            'sc = first; printf("%d ", sc(lw)); sc = 8;',
            'i = first; printf("%d ", i(vc)); i = &lw[1]; printf("%d ", first(i));',
            'p = &mv; p[1] = 8; p[2] =+ p[1]; printf("%d %d %d ", mv, p[1], p[2]);',
            'p = where(0); *p = 31; printf("%d ", va[0]);',
            'p = &vb; *p = lw; vb[0] = 77; printf("%d ", lw[0]);',
            'vb = 0; printf("%d ", vb); vb = lw;',
            'if (va) printf("y "); if (!lv) printf("n "); printf("%d ", va == va);',
            'i = 3; while (i--) { auto x[2], y; x[0] = i; y =+ i; x = lw; printf("%d %d ", y, x[0]); }',
            'lw[0] = &lw[1]; *lw[0] = 6; **lw = 7; printf("%d ", lw[1]); lw[0] = 2;',
            'lw[1] = lv; lw[1][0] = 60; printf("%d ", lv[0]); lw[1] = 3;',
            'lw[2] = "abc"; printf("%c%s ", char(lw[2], 1), lw[2]); lw[2] = 1;',
        ]
        rng.shuffle(st)
        main = 'main() { extrn va, vb, vc, sc, mv; auto lv[%d], lw[%d], p, i, j;\n lw[0] = 1; lw[1] = 2; lw[2] = 3; lv[0] = 4; lv[1] = 5; lv[2] = 6;\n %s\n}\n' % (
            rng.choice([3, 4, 70]), rng.choice([3, 5, 66]), '\n '.join(st[:rng.choice([8, 14, 24])]))
        parts = defs + fs + [main]
        if rng.random() < .7: rng.shuffle(parts)
        out.append(''.join(parts))
    return out


# -- calls ---------------------------------------------------------------------------

def callshapes(rng, n):
    """Calls in every position, of every kind, that pass addresses of locals
    and parameters to functions that use a lot of stack."""
    out = []
    head = '''sink;
hp;
clob(n) { extrn sink; auto w[40], i; i = 0; while (i < 40) { w[i] = -1 - i; i++; } sink =+ w[n]; return (n); }
get(p, q) { clob(3); return (p[0] * 10 + p[1] + q); }
get1(p) { clob(5); return (*p); }
set(p, x) { clob(7); *p = x; return (p); }
many(a, b, c, d, e, f, p, g) { clob(1); return (a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + *p * 100 + g * 7); }
idp(p) return (p);
deep(n, p) { auto l; l = n; if (n == 0) return (get1(p)); return (deep(n - 1, &l) * 2 + *p); }
chain(n, p) { auto l; l = n + *p; if (n == 0) return (*p); return (chain(n - 1, &l)); }
'''
    kinds = ['%s(%s)', '%s(%s)', 'fp(%s)', 'tab[1](%s)', 'lt[1](%s)', '(c ? %s : %s)(%s)', '(*q)(%s)', 'idp(%s)(%s)', '(%s)(%s)', 'hp(%s)']
    args = {'get': ['v, k', '&x, k' if False else 'v, 100', 'v + 8, k', '&v[1], 3', 'idp(v), k', 'w, clob(2)'],
            'get1': ['v', '&x', '&k', '&v[2]', 'w', '&w[1]', 'idp(&x)', 'set(&x, 9)', 'set(v, k)'],
            'set': ['&x, 5', 'v, k', '&v[1], 8', '&k, 6', 'w, x'],
            'many': ['1, 2, 3, 4, 5, 6, v, 8', 'x, k, 3, x, 5, k, &x, k', 'k, k, k, k, k, k, &k, x', '1, 2, 3, 4, 5, 6, set(v, 4), 8', 'x, 2, v[1], 4, w[0], 6, w, 8'],
            'deep': ['3, &x', '5, v', '0, &k'], 'chain': ['0, &x', '4, &x', '6, &k', '3, v']}
    forms = ['return (C);', 'return (C);', 'return (C);', 'r = C; return (r);', 'if (C) return (C); return (5);', 'return (C + 1);', 'return (- C);', 'C; return (x + k * 2 + v[0] * 4 + v[1] * 8 + w[0] * 16);',
             'return (c ? C : 3);', 'return (!C);', 'while (C) return (x); return (4);', 'return (clob(C & 7));', 'switch (C & 1) { case 1: return (C); default: return (x); }', 'x = C; v[0] = C; return (x + v[0]);', 'return (1 + C * 2);', 'if (c) { return (C); } else { return (C); }', 'goto l; l: return (C);', '{ auto u[3]; u[0] = k; u[1] = 2; w = u; } return (C);']
    for _ in range(n):
        t = head
        m = ['main() { extrn sink, hp; auto c;\n']
        for j in range(14):
            body = rng.choice(forms)

            def call():
                f = rng.choice(list(args))
                a = rng.choice(args[f])
                kd = rng.choice(kinds)
                if kd == '(c ? %s : %s)(%s)': s = kd % (f, f, a)
                elif kd.count('%s') == 2: s = kd % (f, a)
                else:
                    pre.append({'f': 'fp = %s;', 't': 'tab[1] = %s;', 'l': 'lt[1] = %s;', '(': 'q = &fp2; fp2 = %s;', 'h': 'hp = %s;'}[kd[0]] % f)
                    cur[kd[0]] = cur.get(kd[0], 0) + 1
                    s = kd % a
                if f == 'set': s = '(*%s)' % s if True else s
                return s
            cur = {}
            pre = []
            while 'C' in body:
                body = body.replace('C', call(), 1)
                if any(v > 1 for v in cur.values()):
                    # one function value each
                    body = 'return (get(v, 1));'
                    pre = []
            t += 'f%d(k, c) { extrn hp; auto x, v[3], w[4], r, fp, fp2, q, tab[3], lt[2]; x = k + 1; v[0] = k * 2; v[1] = 3; v[2] = 4; w[0] = x; w[1] = 7; w[2] = 8; w[3] = 9;\n %s %s }\n' % (
                j, ' '.join(pre), body)
            m.append(' c = f%d; printf("%%d %%d*n", f%d(%d, %d), c(%d, %d));\n' % (
                j, j, rng.randrange(-9, 50), rng.randrange(2), rng.randrange(99), rng.randrange(2)))
        m.append(' printd(sink);\n}\n')
        out.append(t + ''.join(m))
    return out


# -- control ---------------------------------------------------------------------------

def bigflow(rng, n):
    """Functions with many control statements: dozens of switch statements
    with dense values, long chains, deep nests, literal conditions."""
    out = []
    for k in range(n):
        t = 'k;\nt(x) { extrn k; k = k * 31 + x; return (x); }\n'
        body = []
        u = [0]

        def mark():
            u[0] += 1
            return 't(%d);' % u[0]

        def switch(d):
            base = rng.choice([0, 0, 1, 10, 100, 1000, 5])
            cnt = rng.choice([1, 2, 4, 10, 25])
            step = rng.choice([1, 1, 1, 2, 10, 11])
            vals = [base + i * step for i in range(cnt)]
            if rng.random() < .3: rng.shuffle(vals)
            cs = []
            for v in vals:
                cs.append('case %s: %s' % (v if rng.random() < .8 or not 65 <= v < 91 else "'%c'" % v,
                                           rng.choice([mark(), mark(), mark(), ';'])))
            if rng.random() < .4: cs.insert(rng.randrange(len(cs) + 1), 'default: ' + mark())
            return 'switch (%s) { %s }' % (rng.choice(['x', 'x', 'x - %d' % rng.choice([10, 20, 100]), 'x & 31', 'x / 2', 'x * 11']), ' '.join(cs))

        def stm(d):
            r = rng.random()
            if d <= 0 or r < .25: return mark()
            if r < .55: return switch(d)
            if r < .62: return 'if (%s) %s' % (rng.choice(['x > 3', '0', '1', "'*e'", 'x', '7', '00']), block(d - 1))
            if r < .70: return 'if (%s) %s else %s' % (rng.choice(['x < 9', '0', '1', '!x', '!0', '- 0', '1 - 1']), block(d - 1), block(d - 1))
            if r < .76: return 'while (%s) %s' % (rng.choice(['0', "'*0'", '000', '1 - 1', '!1', '(0)']), block(d - 1))
            if r < .84:
                u[0] += 1
                q = u[0]
                return 'n = %d; while (%s) { if (n-- <= 0) goto E%d; %s } E%d: ;' % (
                    rng.randrange(4), rng.choice(['1', '5', "'a'", '!0', '-1', '(1)']), q, mark(), q)
            if r < .9:
                u[0] += 1
                q = u[0]
                return rng.choice(['while (0) { L%d: %s } if (n++ < 2) goto L%d; n = 0;', 'if (0) { L%d: %s } if (n++ < 2) goto L%d; n = 0;', 'if (1) ; else { L%d: %s } if (n++ < 2) goto L%d; n = 0;']) % (q, mark(), q)
            return block(d - 1)

        def block(d):
            return '{ %s }' % ' '.join(stm(d - 1) for _ in range(rng.choice([1, 2, 3])))
        kind = k % 4
        if kind == 0:
            body = [stm(1) if rng.random() < .3 else switch(1) for _ in range(30)]
        elif kind == 1:
            body = [stm(4) for _ in range(10)]
        elif kind == 2:                   # deep nests and long chains
            s = mark()
            for i in range(rng.choice([10, 25])):
                s = rng.choice(['if (x > %d) { %s } else t(%d);', 'if (x < %d) t(999); else { %s } t(%d);', 'if (x != %d) { %s } t(%d);']) % (rng.randrange(20), s, i + 500)
            body = [s]
            c = ' else '.join('if (x == %d) %s' % (i, mark()) for i in range(25)) + ' else ' + mark()
            body.append(c)
            s = mark()
            for i in range(12):
                s = 'switch (x) { case %d: %s default: t(%d); case %d: t(%d); }' % (rng.choice([i, 3, 5]), s, i + 300, 100 + i, i + 600)
            body.append(s)
            s = mark()
            for i in range(8):
                s = 'n%d = 2; while (n%d--) { %s }' % (i % 3, i % 3, s) if i < 3 else '{ %s %s }' % (s, mark())
            body.append(s)
        else:                             # a machine of labels
            m = rng.choice([8, 20, 40])
            body = ['n = 0;']
            for i in range(m):
                to = rng.randrange(m)
                body.append('S%d: t(%d); if (n++ > 30) goto done; %s' % (i, i, rng.choice([
                    'goto S%d;' % to, 'if (x & %d) goto S%d;' % (rng.choice([1, 2, 4]), to), 'switch (x) { case %d: goto S%d; case %d: goto S%d; }' % (rng.randrange(4), to, rng.randrange(4, 9), rng.randrange(m)),
                    'if (n & 1) goto S%d; else goto S%d;' % (to, rng.randrange(m)), ';'])))
            body.append('done: ;')
        two = rng.random() < .5
        fun = 'f(x) { extrn k; auto n, n0, n1, n2; k = 0;\n %s\n return (k); }\n' % '\n '.join(body)
        xs = list(range(0, 8)) + rng.sample(range(8, 130), 10) + [-1, 23, 33, 1000]
        t += ('g(x) { switch (x) { case 1: return (5); case 2: return (6); } if (x) return (7); }\n' if two else '') + fun
        t += 'main() { auto i; i = 0; while (i < 8) printf("%%d ", f(i++)); %s }\n' % ' '.join('printf("%%d ", f(%d));' % x for x in xs[8:])
        out.append(t)
    return out
