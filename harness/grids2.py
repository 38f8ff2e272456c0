"""More systematic families: the order in which operands are evaluated, every
countable dimension of a program swept over likely thresholds, storage of many
sizes used at its ends, names derived from other names, functions that only
read.  As everywhere, the programs carry no expectation."""
from gen import *

THRESH = [8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 24, 25, 30, 31, 32, 33, 40, 50, 60, 63, 64, 65, 66, 80, 99, 100, 101, 126, 127, 128, 129, 130, 150, 199, 200, 201,
          250, 254, 255, 256, 257, 258, 300, 333, 400, 499, 500, 501, 510, 511, 512, 513, 600, 700, 800, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1100]


# -- order of evaluation ------------------------------------------------------------

ORDER_HEAD = '''g; h; arr[4] 1, 2, 3, 4;
inc(x) { extrn g; g = g + x; return (g); }
seth(x) { extrn h; auto o; o = h; h = x; return (o); }
poke(p, x) { *p = x; return (x); }
bumpp(p) { *p = *p + 1; return (*p); }
geth() { extrn h; return (h); }
two(x, y) return (x * 10 + y);
three(x, y, z) return (x * 100 + y * 10 + z);
sub(x, y) { return (x - y); }
zero(p) { *p = 0; return (7); }
'''


class Order:
    def __init__(self, rng):
        self.rng = rng

    def place(self, d):
        r = self.rng
        return r.choice(['a', 'b', 'a', 'b', 'c', 'g', 'h', '*p', '*q', 'v[i & 3]', 'v[1]', 'arr[i & 3]', 'arr[2]',
                         'v[%s & 3]' % self.e(d - 1), 'v[i++ & 3]', '*(&b)']) if d > 0 else r.choice(['a', 'b', 'c', 'g', 'h', '*p', '*q', 'v[i & 3]', 'v[1]'])

    def e(self, d):
        r = self.rng
        k = r.random()
        if d <= 0 or k < .1:
            return r.choice(['a', 'b', 'c', 'g', 'h', '*p', '*q', 'v[i & 3]', 'v[1]', 'arr[i & 3]', 'i', '0', '1', '2', '5', 'a', 'b', '*p', 'g'])
        if k < .34:
            if r.random() < .25:            # the same twice
                x = self.e(d - 1)
                y = x
            else:
                x, y = self.e(d - 1), self.e(d - 1)
            return '(%s) %s (%s)' % (x, r.choice(['+', '-', '*', '&', '|', '<', '<=', '>', '>=', '==', '!=', '-', '-', '<']), y)
        if k < .38:
            return '(%s) %s (((%s) & 7) + 1)' % (self.e(d - 1), r.choice('/%'), self.e(d - 1))
        if k < .40:
            return '(%s) %s ((%s) & 7)' % (self.e(d - 1), r.choice(['<<', '>>']), self.e(d - 1))
        if k < .52:
            pl = self.place(d - 1)
            return r.choice(['(%s++)', '(%s--)', '(++%s)', '(--%s)'] if not pl.startswith('*') else ['(++%s)', '(--%s)']) % pl
        if k < .70:
            pl = self.place(d - 1)
            op = r.choice(['=', '=', '=+', '=-', '=-', '=*', '=&', '=|', '=<', '=<=', '=>', '=>=', '===', '=!=', '=/', '=%', '=<<', '=>>'])
            x = self.e(d - 1)
            if r.random() < .15: x = pl
            if op in ('=/', '=%'): x = '((%s) & 7) + 1' % x
            if op in ('=<<', '=>>'): x = '(%s) & 7' % x
            return '(%s %s %s)' % (pl, op, x)
        if k < .88:
            return r.choice(['inc(X)', 'seth(X)', 'poke(&a, X)', 'poke(p, X)', 'bumpp(&b)', 'bumpp(q)', 'geth()', 'two(X, Y)', 'two(X, Y)', 'three(X, Y, Z)', 'sub(X, Y)', 'f(X)',
                             'fp(X, Y)', '(X ? two : sub)(Y, Z)', 'tab[X & 1](Y, Z)']).replace('X', self.e(d - 1)).replace('Y', self.e(d - 1)).replace('Z', self.e(d - 1))
        if k < .95:
            return '((%s) ? (%s) : (%s))' % (self.e(d - 1), self.e(d - 1), self.e(d - 1))
        return r.choice(['!', '- ']) + '(%s)' % self.e(d - 1)


GUARDS = ['z ? *z : 7', 'a ? 10 / a : 3', 'a == 0 ? 0 : 10 / a', 'z == 0 ? 5 : z[1]', '!z ? b : *z', 'z != 0 ? z[2] : a', 'a ? b % a : b', 'b == 0 ? a : a % b',
          'a ? v[1] : v[2]', 'z ? **z : *p', 'c ? *p : *q', 'a ? g : h', 'z ? z[0] : v[0]', 'a < 4 ? v[a] : *z', 'a >= 0 & a < 4 ? v[a & 3] : 9', 'i < 4 ? arr[i] : *z',
          'a ? a : 0', 'b ? b : 0', 'a ? 0 : a', 'a < b ? a : b', 'a > b ? a : b', 'a < 0 ? - a : a', 'a ? b : b', 'a ? 1 : 0', 'a ? 0 : 1', 'a == b ? a : b', 'a ? !a : a',
          'a > 0 ? a : 0', 'v[1] ? v[1] : 0', '*p ? *p : 0', 'g ? g : 0', 'g ? g : h', 'a ? a : b', 'p ? *p : 0', 'q ? *q : 0']

CORE = ['x - (x = 3)', '(x = 3) - x', 'x + (++x)', 'x++ + x', 'x + x++', 'x++ - x++', '--x - x--', 'x =- (x = 3)', 'x =+ x++', 'x =+ ++x', 'x =- x', 'x =- x--', 'x =* (x = 2) + x', 'x = x++', 'x = ++x', 'x = x-- - x',
        'x =- f(&x)', 'x =+ f(&x)', 'x =* f(&x)', 'x =/ f(&x)', 'x =% f(&x)', 'x =& f(&x)', 'x =| f(&x)', 'x =<< f(&x)', 'x =>> f(&x)', 'x =< f(&x)', 'x =<= f(&x)', 'x => f(&x)', 'x =>= f(&x)', 'x === f(&x)', 'x =!= f(&x)', 'x = f(&x)',
        'x - f(&x)', 'f(&x) - x', 'x + f(&x)', 'x * f(&x)', 'x / f(&x)', 'x % f(&x)', 'x & f(&x)', 'x | f(&x)', 'x << f(&x)', 'x >> f(&x)', 'x < f(&x)', 'x <= f(&x)', 'x > f(&x)', 'x >= f(&x)', 'x == f(&x)', 'x != f(&x)',
        'f(&x) < x', 'f(&x) == x', 'f(&x) / (x + 1)', 'two(x, x++)', 'two(x++, x)', 'two(++x, ++x)', 'two(x = 4, x)', 'two(x, x = 4)', 'two(x, f(&x))', 'two(f(&x), x)', 'two(x =- 1, x =* 2)',
        'v[x] = x++', 'v[x++] = x', 'v[x = 1] = x', 'v[x] - v[x = 2]', 'v[x++] - v[x++]', 'v[x] =+ x++', 'v[x++] =+ x', 'v[x++]++ + x', 'v[f(&x) & 3] = x', 'v[x] = f(&x)', 'v[x] =- f(&x)', '*p = f(&x) - *p', '*p =- f(&x)', '*p - f(&x)', '*p - (x = 2)', 'x - (*p = 2)',
        '++*p - x', 'x - ++*p', 'x - --*p', '*p =+ x =+ 2', 'x =+ *p =- 1', 'v[1] =+ v[1] =+ v[1]', 'x = v[1] = x + 1', 'v[v[1] = 2] = v[1]', 'v[v[1]] = v[1] = 3',
        'x ? (x = 0) : (x = 5)', '(x = 0) ? x : x + 1', 'x++ ? x : - x', 'x-- ? x : - x', '(x ? f(&x) : 0) + x', 'x + (x ? f(&x) : 0)', '!(x = 0) + x', '- x + (x = 2)', '- (x++) - x', '!x++ + x', 'x == x++', 'x++ == x', 'x != x--', 'x < x++', 'x++ < x', 'x =< x++', 'x === x', 'x === x++', 'x =!= ++x',
        'two(x, x) - two(x++, x)', 'x * x++ * x', 'x - x - x++ - x', 'x - (x - (x++ - x))', 'x & x++ & x', 'x | (x = 8) | x', '(x | 1) - (x =| 1)', 'g - setg(9)', 'setg(9) - g', 'g =- setg(2)', 'g =+ setg(3) + g', 'g + x + setg(x++) + x + g', 'two(g, setg(1)) + g', 'two(setg(1), g)', 'v[g] - v[setg(2) & 3]', 'g++ - g', 'g - g++', 'g = g++', 'g ? setg(0) + g : g',
        '(x = v)[1] + x[2]', 'p[0] + (p = &v[2])[0] + p[0]', '*p + *(p = v) + *p', '*(p = &v[1]) - *p', 'p[x = 0] - x', 'x[y = v][0]' if False else 'v[x]', 'two(x, x) - fp(x, 1) + (fp = two)(x, 2)', '(fp = two)(x, 2) + fp(1, x)', '(x++ ? two : sub2)(x, x++)', 'tab[x & 1](x++, x)', 'sub2(x++, x++) - sub2(x, x--)', 'sub2(sub2(x, x = 2), sub2(x++, x))']


def order(rng, n, core=True):
    out = []
    if core:
        jobs = [(c, s) for c in CORE for s in ('r = %s;', 'if (%s) r = 1; else r = 2;', 'r = two(%s, x);', '%s;', 'return (%s);', 'r = (%s) + x;', 'r = x - (%s);')
                if not (c.startswith('(x = v)') and ', x)' in s or ('+ x;' in s or 'x - (' in s) and c.startswith('(x = v)'))]
        rng.shuffle(jobs)
        for k in range(0, len(jobs), 40):
            t = '''g 1; gvv[4] 5, 1, 2, 3;
f(p) { auto o; o = *p; *p = o + 2; return (o + 1); }
two(x, y) return (x * 10 + y);
sub2(x, y) return (x - y);
setg(x) { extrn g; auto o; o = g; g = x; return (o); }
'''
            m = 'main() {\n'
            for j, (c, s) in enumerate(jobs[k:k + 40]):
                if ' ? ' in c and '%s' in s and s.startswith('r = %s'): s = s.replace('%s', '(%s)')
                ptr = c.startswith(('(x = v)',))
                t += '''h%d(x) { extrn g, gvv; auto r, v[4], p, fp, tab[2]; r = 0; g = 1; v[0] = 5; v[1] = 1; v[2] = 2; v[3] = 3; p = &x; fp = sub2; tab[0] = two; tab[1] = sub2;
 %s%s
 printf("%%d %%d %%d %%d %%d %%d:", r, %s, g, v[0], v[1], v[2]); }
''' % (j, '' if 'p[' not in c and '(p =' not in c and '*p + *(p' not in c else 'p = &v[3];', ' ' + s % c, '0' if ptr else 'x')
                for v in rng.sample([0, 1, 2, 3], 3):
                    if v > 1 and ('v[x' in c): v = 1
                    m += ' printf("%%d ", h%d(%d));\n' % (j, v)
            out.append(t + m + '}\n')
    for _ in range(n):
        o = Order(rng)
        t = ORDER_HEAD
        m = 'main() { extrn g, h;\n'
        for j in range(8):
            st = []
            for _ in range(rng.choice([3, 5])):
                k = rng.random()
                if k < .2:
                    e = rng.choice(GUARDS)
                elif k < .3:
                    e = '(%s) %s (%s)' % (rng.choice(GUARDS), rng.choice('+-*<'), o.e(1))
                else:
                    e = o.e(rng.choice([1, 2, 2, 3, 4]))
                st.append(rng.choice(['r = %s;', 'r = %s;', '%s;', 'if (%s) r = r + 1; else r = r - 1;', 'r =- %s;', 'while (%s) { n = n + 1; if (n > 2) goto e%d; } e%d: ;' % ('%s', len(st), len(st)),
                                      'switch (%s) { case 0: r = 1; case 1: r = r + 2; case 2: r = r - 5; }', 'printf("%%d ", %s);', 'r = two(%s, r);', 'v[i & 3] = %s;', '*p =+ %s;', 'a = b = %s;']).replace('%s', '(%s)' % e if rng.random() < .9 or ' ? ' in e else e, 1).replace('%%', '%'))
            st = [s.replace('f(', 'fp1(') if False else s for s in st]
            t += '''k%d(a, b, i) { extrn g, h, arr; auto c, v[4], p, q, z, r, n, fp, f, tab[2];
 c = 2; r = 0; n = 0; v[0] = 4; v[1] = a; v[2] = 3; v[3] = -2; p = %s; q = %s; fp = two; f = inc; tab[0] = sub; tab[1] = two;
 %s
 printf("%%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d*n", a, b, c, i, r, n, v[0], v[1], v[2], v[3], g);
 printf("%%d %%d %%d %%d %%d*n", h, arr[0], arr[1], arr[2], arr[3]); }
''' % (j, rng.choice(['&a', '&a', '&b', '&g', '&v[1]', '&arr[2]']), rng.choice(['&b', '&h', '&i' if False else '&c', '&v[2]', '&a']), '\n '.join(st))
            for _ in range(3):
                m += ' g = %d; h = %d; k%d(%d, %d, %d);\n' % (rng.randrange(-2, 4), rng.randrange(3), j, rng.randrange(-1, 5), rng.randrange(-1, 5), rng.randrange(4))
        out.append(t + m + '}\n')
    return out


# -- counts ---------------------------------------------------------------------------

def _params(n, r):
    a = [str(r.randrange(1, 99)) for _ in range(n)]
    s = ' + '.join('p%d * %d' % (i, r.randrange(1, 50)) for i in range(n)) or '0'
    w = ' '.join('printf("%%d ", p%d);' % i for i in sorted({0, n // 2, n - 1} & set(range(n))))
    return 'main() { auto f; f = s; printd(s(%s)); writeb(32); printd(f(%s)); }\ns(%s) { %s return (%s); }\n' % (
        ', '.join(a), ', '.join(reversed(a)), ', '.join('p%d' % i for i in range(n)), w, s)


def _locals(n, r):
    how = r.randrange(3)
    d = 'auto ' + ', '.join('x%d' % i for i in range(n)) + ';' if how == 0 else ' '.join('auto x%d;' % i for i in range(n)) if how == 1 else ' '.join('auto x%d; x%d = %d;' % (i, i, i) for i in range(n))
    return 'main() { auto s; %s s = 0; %s printd(s); %s printf("%%d %%d", x%d, x0); }\n' % (
        d, ' '.join('s = s * 3 + x%d; x%d = %d;' % (i, i, r.randrange(99)) for i in range(n)), ' '.join('s =+ x%d;' % i for i in range(n)), n - 1)


def _localvecs(n, r):
    z = [r.choice([1, 2, 3]) for _ in range(n)]
    return 'main() { auto %s; auto s; %s s = 0; %s printd(s); }\n' % (', '.join('v%d[%d]' % (i, z[i]) for i in range(n)), ' '.join('v%d[%d] = %d; v%d[0] = %d;' % (i, z[i] - 1, i + 7, i, i) for i in range(n)), ' '.join('s = s * 3 + v%d[%d] - v%d[0];' % (i, z[i] - 1, i) for i in range(n)))


def _globals(n, r):
    vals = [r.choice(['', ' %d' % r.randrange(-99, 99)]) for _ in range(n)]
    one = r.random() < .5
    ex = 'extrn ' + ', '.join('x%d' % i for i in range(n)) + ';' if one else ' '.join('extrn x%d;' % i for i in range(n))
    return ''.join('x%d%s;\n' % (i, v) for i, v in enumerate(vals)) + 'main() { auto s; %s s = 0; %s printd(s); }\n' % (ex, ' '.join('s = s * 3 + x%d; x%d = s & 15;' % (i, i) for i in range(n)) + ' '.join('s = s + x%d;' % i for i in range(0, n, 7)))


def _functions(n, r):
    calls = sorted(r.sample(range(n), min(n, 40)) + [n - 1, 0])
    return ''.join('f%d(x) return (x + %d);\n' % (i, r.randrange(999)) for i in range(n)) + 'main() { %s }\n' % ' '.join('printf("%%d ", f%d(%d));' % (i, i) for i in calls)


def _strings(n, r):
    dup = r.random() < .4
    s = ['s%d' % (i % 7 if dup else i) for i in range(n)]
    return 'main() { auto p; %s p = "last"; printf("%%s", p); %s printf("%%s", p); }\n' % (' '.join('writeb(char("%s", %d));' % (x, r.randrange(2)) for x in s[:-3]) + ' p = "abc";' , ' '.join('printf("%s ");' % x for x in s[-3:]))


def _labels(n, r):
    to = list(range(n))
    r.shuffle(to)
    pos = {to[i]: to[i + 1] for i in range(n - 1)}
    return 'main() { auto s; s = 0; goto L%d;\n%s out: printd(s); }\n' % (to[0], ''.join(' L%d: s = s * 3 + %d; goto %s;\n' % (i, i, 'L%d' % pos[i] if i in pos else 'out') for i in range(n)))


def _cases(n, r):
    vals = list(range(n)) if r.random() < .5 else r.sample(range(-0, 4 * n), n)
    if r.random() < .5: r.shuffle(vals)
    return 'f(x) { auto s; s = 0; switch (x) { %s } return (- s - 1); out: return (s); }\nmain() { %s }\n' % (
        ' '.join('case %d: s =+ %d;%s' % (v, i + 1, ' goto out;' if r.random() < .8 else '') for i, v in enumerate(vals)),
        ' '.join('printf("%%d ", f(%d));' % v for v in sorted(r.sample(vals, min(n, 30))) + [vals[-1], vals[0], -1, 4 * n + 1]))


def _switches(n, r):
    return 'main() { auto s, i; i = 0; while (i < 3) { s = 0; %s printf("%%d ", s); i++; } }\n' % ' '.join('switch (i) { case %d: s =+ %d; case %d: s = s * 3; }' % (r.randrange(2), k, r.randrange(2, 4)) for k in range(n))


def _statements(n, r):
    return 'main() { auto s, i; i = 3; s = 0; %s printd(s); }\n' % ' '.join(r.choice(['s = s + %d;', 's =+ %d;', 's = s * 3 - %d;', 'if (s & 1) s = s + %d;', 'i = %d;', ';'
                                                                                       ]).replace('%d', str(k)) for k in range(n))


def _loops(n, r):
    n = min(n, 300)
    return 'main() { auto s, i; s = 0; %s printd(s); }\n' % ' '.join('i = %d; while (i--) s = s * 3 + %d;' % (r.randrange(3), k) for k in range(n))


def _ifs(n, r):
    n = min(n, 500)
    return 'f(x) { auto s; s = 0; %s return (s); }\nmain() { printf("%%d %%d %%d", f(0), f(5), f(%d)); }\n' % (' '.join(r.choice(['if (x == %d) s =+ %d;', 'if (x > %d) s =+ %d; else s =- 1;', 'if (x < %d) { s = s * 3; } else { s = s + %d; }']).replace('%d', str(k)) for k in range(n)), n - 1)


def _parens(n, r):
    return 'main() { auto a; a = 3; printd(%sa%s + 1); a = 5; printd(a); if (%s) printd(7); }\n' % ('(' * n, ')' * n, '(' * n + 'a' + ')' * n) if r.random() < .5 else 'main() { auto a; a = 3; printd(%s1%s); }\n' % ('(a - ' * n, ')' * n)


def _blocks(n, r):
    return 'main() { auto a; a = 3; %s a = a + 1; %s printd(a); }\n' % ('{' * n, '}' * n)


def _ifnest(n, r):
    n = min(n, 250)
    k = r.randrange(2)
    if k: return 'f(x) { %s printd(x); %s }\nmain() { f(5); f(-1); }\n' % (' '.join('if (x > %d) ' % -i for i in range(n)), ' '.join('else printd(%d);' % i for i in range(n)))
    return 'f(x) { %s writeb(\'n\'); }\nmain() { f(%d); f(0); f(%d); f(-5); }\n' % (' '.join('if (x == %d) printd(%d); else' % (i, i) for i in range(n)), n - 1, n // 2)


def _whilenest(n, r):
    n = min(n, 40)
    return 'main() { auto s, %s; s = 0; %s s = s + 1; %s printd(s); }\n' % (', '.join('n%d' % i for i in range(n)), ' '.join('n%d = %d; while (n%d--) {' % (i, 2 if i < 3 else 1, i) for i in range(n)), '}' * n)


def _ternary(n, r):
    n = min(n, 300)
    return 'f(x) return (%s -1);\nmain() { printf("%%d %%d %%d %%d", f(%d), f(0), f(%d), f(-5)); }\n' % (' '.join('x == %d ? %d :' % (i, r.randrange(999)) for i in range(n)), n - 1, n // 2)


def _unary(n, r):
    n = min(n, 400)
    k = r.randrange(3)
    if k == 0: return 'main() { auto a; a = 5; printd(%sa); printd(%s0); }\n' % ('!' * n, '!' * n)
    if k == 1: return 'main() { auto a; a = 5; printd(%sa); }\n' % ('- ' * n)
    return 'main() { auto a, b; a = 5; printd(%sa); b = &a; printd(%sb); }\n' % ('*&' * n, '*' + '&*' * n)


def _index(n, r):
    n = min(n, 200)
    return 'main() { auto v[4]; v[0] = 1; v[1] = 2; v[2] = 3; v[3] = 0; printd(%s0%s); }\n' % ('v[' * n, ']' * n)


def _callnest(n, r):
    n = min(n, 200)
    return 'f(x) return (x + 1);\nmain() { printd(%s0%s); }\n' % ('f(' * n, ')' * n)


def _chain(n, r):
    op = r.choice(['+', '-', '|', '&', '*', '+ 1 -', '<', '=='])
    k = r.randrange(3)
    if k == 0: return 'main() { auto a, b; a = 7; b = 3; printd(%s); }\n' % (' %s ' % op).join(r.choice(['a', 'b', '1', '2']) for _ in range(n))
    if k == 1: return 'main() { auto a, b; a = 7; b = 3; %s = 4; printd(a); printd(b); }\n' % ' = '.join(r.choice('ab') for _ in range(n))
    return 'main() { auto a, b; a = 7; b = 3; %s 4; printd(a); printd(b); }\n' % ' '.join('%s %s' % (r.choice('ab'), r.choice(['=+', '=-', '=|'])) for _ in range(n))


def _inits(n, r):
    v = [r.choice([str(r.randrange(999)), '-%d' % r.randrange(1, 99), "'%s'" % r.choice('abc'), str(r.randrange(9))]) for _ in range(n)]
    head = r.choice(['v', 'v[]', 'v[%d]' % n, 'v[2]', 'v[%d]' % (n + 3)])
    idx = 'v' if head != 'v' else '(&v)'
    return '%s %s;\nw 5;\nmain() { extrn v, w; auto i, s; s = 0; i = 0; while (i < %d) { s = s * 3 + %s[i]; i++; } printf("%%d %%d %%d %%d", s, %s[0], %s[%d], w); }\n' % (head, ', '.join(v), n, idx, idx, idx, n - 1)


def _strlen(n, r):
    n = n * r.choice([1, 1, 4])
    s = ''.join(r.choice('abcdefgh') for _ in range(n))
    g = r.random() < .4
    return '%smain() { %sauto i, s; %ss = 0; i = 0; while (i < %d) { s = s * 3 + char(p, i); i++; } printf("%%d %%d %%d*n", s, char(p, %d), char(p, %d)); printf("%%s*n", p); printf(p); }\n' % (
        'p "%s";\n' % s if g else '', 'extrn p; ' if g else 'auto p; ', '' if g else 'p = "%s"; ' % s, n + 1, n, n - 1)


def _idlen(n, r):
    n = min(n, 1100)
    x = 'n' * n
    same = [x + c for c in ('', 'a', 'b', 'ab')] + [x[:-1] + 'z']
    return '%s;\n%s(a) return (a + 1);\n%s 7;\nmain() { extrn %s, %s; auto %s, %s; %s = 3; %s = 4; %s = 5; goto %s; %s = 9; %s: printf("%%d %%d %%d %%d %%d", %s, %s, %s, %s, %s(1)); }\n' % (
        same[0], same[1], same[2], same[0], same[2], same[3], same[4], same[0], same[3], same[4], same[1], same[3], same[1], same[0], same[2], same[3], same[4], same[1])


def _zeros(n, r):
    return 'v[%s10]; main() { auto a; a = %s17; printd(a); printd(%s); switch (a) { case %s17: printd(4); } }\n' % ('0' * min(n, 20), '0' * n, '0' * n, '0' * n)


def _comment(n, r):
    n = n * r.choice([1, 8, 16])
    return 'main() { /*%s*/ printd(1); /*%s*/ writeb(10); }\n' % ('x' * n, '*' * n)


def _autos(n, r):
    return 'g(%s) { extrn %s; auto %s; b0 = a%d; return (b0 + c0); }\n%s main() { printd(g(%s)); }\n' % (
        ', '.join('a%d' % i for i in range(n)), ', '.join('c%d' % i for i in range(n)), ', '.join('b%d' % i for i in range(n)), n - 1, ''.join('c%d %d;\n' % (i, i + 3) for i in range(n)), ', '.join(str(i) for i in range(n)))


def _printf(n, r):
    kinds = [r.choice(['%d', '%d', '%c', '%s', '%o', '%%', 'x']) for _ in range(n)]
    args = []
    for k in kinds:
        if k == '%d': args.append(str(r.randrange(999)))
        if k == '%o': args.append(str(r.randrange(999)))
        if k == '%c': args.append("'%s'" % r.choice('pqr'))
        if k == '%s': args.append('"%s"' % r.choice(['', 'uv', 'w']))
    return 'main() { printf("%s"%s); }\n' % (' '.join(kinds), ''.join(', ' + a for a in args))


def _recursion(n, r):
    n = n * r.choice([1, 3])
    return 'f(n, a) { auto x, v[3]; x = n; v[1] = a; if (n == 0) return (a); return (f(n - 1, a + 1) * 3 + x + v[1]); }\nmain() { printd(f(%d, 2)); }\n' % n


def _iterations(n, r):
    n = n * r.choice([1, 4])
    return 'main() { auto i, s; i = s = 0; while (i++ < %d) s = s * 3 + i; printd(s); i = %d; l: s = s * 5 - i; if (--i) goto l; printd(s); }\n' % (n, n)


def _writes(n, r):
    return 'main() { auto i; i = 0; while (i < %d) { writeb(\'a\' + (i & 7)); i++; } printf("|%%d", i); write(\'end*n\'); }\n' % n


def _gvecs(n, r):
    z = [r.choice([0, 1, 2, 5]) for _ in range(n)]
    return ''.join('v%d[%s]%s;\n' % (i, z[i] if z[i] else '', r.choice(['', ' %d' % i])) for i in range(n)) + 'main() { extrn %s; auto s; s = 0; %s %s printd(s); }\n' % (
        ', '.join('v%d' % i for i in range(n)), ' '.join('s = s * 3 + v%d[0];' % i for i in range(n)), ' '.join('v%d[%d] = %d;' % (i, max(0, z[i] - 1), i) for i in range(n)) + ' '.join('s = s * 3 + v%d[%d];' % (i, max(0, z[i] - 1)) for i in range(n)))


def _fnlocals(n, r):
    """The same names in every one of n functions."""
    return 'x 5;\n' + ''.join(r.choice(['f%d(x) { l: if (x > 90) { x = x - %d; goto l; } return (x); }\n', 'f%d(a) { auto x; x = a + %d; return (x); }\n', 'f%d(a) { extrn x; x = x + a; return (x - %d); }\n']) % (i, i + 1) for i in range(n)) + 'main() { auto s; s = 0; %s printd(s); }\n' % ' '.join('s = s * 3 + f%d(%d);' % (i, i) for i in range(n))


DIMS = {'params': (_params, 300), 'locals': (_locals, 700), 'localvecs': (_localvecs, 300), 'globals': (_globals, 1100), 'gvecs': (_gvecs, 500), 'functions': (_functions, 1100), 'strings': (_strings, 700), 'labels': (_labels, 700),
        'cases': (_cases, 600), 'switches': (_switches, 300), 'statements': (_statements, 1100), 'loops': (_loops, 300), 'ifs': (_ifs, 500), 'parens': (_parens, 300), 'blocks': (_blocks, 300), 'ifnest': (_ifnest, 250),
        'whilenest': (_whilenest, 40), 'ternary': (_ternary, 300), 'unary': (_unary, 400), 'index': (_index, 200), 'callnest': (_callnest, 200), 'chain': (_chain, 1100), 'inits': (_inits, 1100), 'strlen': (_strlen, 1100), 'idlen': (_idlen, 1100),
        'zeros': (_zeros, 1100), 'comment': (_comment, 1100), 'autos': (_autos, 300), 'printf': (_printf, 300), 'recursion': (_recursion, 1100), 'iterations': (_iterations, 1100), 'writes': (_writes, 1100), 'fnlocals': (_fnlocals, 300)}


def counts(rng, dims=None, per=4):
    """For every dimension: its largest number and some more."""
    out = []
    for d in dims or sorted(DIMS):
        f, top = DIMS[d]
        th = [x for x in THRESH if x <= top]
        for n in [top] + rng.sample(th, min(per, len(th))):
            out.append(f(n, rng))
    return out


def bignumbers(rng, n):
    """Numbers around the powers of two up to 64 bits, in every base and place."""
    out = []
    def num():
        k = rng.random()
        if k < .5:
            v = (1 << rng.choice([64, 64, 63, 63, 62, 60, 57, 56, 54, 53, 48, 47, 40, 33, 32, 31, 24, 16, 15, 8])) + rng.choice([0, 0, -1, -1, 1, -2, -8, 7, -1000])
        elif k < .65: v = rng.choice([10 ** 19, 10 ** 19 - 1, 10 ** 18, 1844674407370955161, 18446744073709551609, 18446744073709551610, 9223372036854775800, 12345678901234567890, 0o1000000000000000000000, 0o1777777777777777777770])
        else: v = rng.getrandbits(rng.choice([64, 64, 64, 63, 61, 33]))
        v %= 1 << 64
        v = v or 1
        k = rng.random()
        return ('0' * rng.choice([1, 1, 2, 7]) + '%o' % v) if k < .5 else '%d' % v
    for _ in range(n):
        g = [num() for _ in range(4)]
        vs = [num() for _ in range(3)]
        t = 'g0 %s; g1 -%s; v[5] %s, -%s, %s;\n w %s, %s;\n' % (g[0], g[1], vs[0], vs[1], vs[2], g[2], g[3])
        b = ['printf("%d %d %d %d %d %d %d*n", g0, g1, v[0], v[1], v[2], w, (&w)[1]);']
        for _ in range(12):
            x, y = num(), num()
            b.append(rng.choice(['printd(%s);', 'printd(- %s);', 'printo(%s);', 'x = %s; printd(x);', 'x =+ %s; printd(x);', 'printd(%s + Y);', 'printd(%s - Y);', 'printd(%s < Y);', 'printd(%s > Y);', 'printd(%s & Y);', 'printd(%s | Y);',
                                 'printd(%s == Y);', 'printd(!%s);', 'printd(%s >> 5);', 'printd(%s << 3);', 'printd(%s * 3);', 'printd(%s / 7);', 'printd(%s % 1000);', 'printd(x / %s);', 'if (%s) printd(1);', 'printd(f(%s, Y));', 'printd(%s ? 1 : 2);', 'x = %s == Y ? 3 : 4; printd(x);',
                                 'printd(i & %s);', 'printd(x < %s);', 'printd(x >= %s);', 'v[1] = %s; printd(v[1]);']).replace('%s', x).replace('Y', rng.choice([y, x])) + ' writeb(32);')
        cs = list({int(c, 8) if c[0] == '0' else int(c): c for c in [num() for _ in range(4)]}.values())
        b.append('switch (%s) { %s } writeb(10);' % (rng.choice(cs + [num()]), ' '.join('case %s: printd(%d);' % (c, i) for i, c in enumerate(cs))))
        for c in rng.sample(cs, min(2, len(cs))):
            b.append('sw(%s);' % c)
        t += 'sw(x) { switch (x) { %s } writeb(10); }\nf(a, b) return (a - b);\n' % ' '.join('case %s: printd(%d);%s' % (c, i, rng.choice(['', ' return;'])) for i, c in enumerate(cs))
        out.append(t + 'main() { extrn g0, g1, v, w; auto x, i; x = 5; i = -1;\n ' + '\n '.join(b) + ' }\n')
    return out


# -- positions in the source text ------------------------------------------------------------

CRIT = ['printf("%s|", "ab  cd*n\n  e");', 'printf("x      y\n\n\nz ");', 'a =+ 2;', 'a++;', 'b =<< 1;', 'b = a <= b;', 'b = a >= 3;', 'a = b == a;', 'a =!= b;', 'a =>= b;', 'a = a >> 1;', 'a===b;', 'a = 12345678;', 'b = 01777;', 'longname = 7;', 'longname =- a;',
        "writeb('a');", "write('ab  c d');", "write('*n*t  *'*'');", 'if (a) b = 2; else b = 3;', 'while (a > 99) a = 0;', '/* comment  * / ** */ a = 4;', 'a = a /* / */ / /**/ 1;', 'a = a/b;', 'return0: ;', 'printd(fn(1,   2));', 'a = b ? 3 : 4;', 'a = - -1;', 'a = a - -1;', 'printf("****");', 'printf("*"*"");', 'a = !b;', 'a = a % 7;',
        'a = a  \n\n  \t  + 1;', 'writeb(65)   \n   ;', "a = '  ';", "a = ' *n ';", 'printd(a);', 'p = &a; *p = 3;', 'v[1] = v[0]++;', 'switch (a) { case 3: b = 1; case 4: a = 1; }']


def positions(rng, n, sizes=None):
    """Texts in which something that must not be cut or lost lies at multiples
    of powers of two, and texts that end there."""
    out = []
    for k in range(n):
        block = (sizes or [64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 4096, 4096, 8192, 8192, 8192, 10000, 16384, 32768, 65536])[k % (len(sizes) if sizes else 18)]
        top = block * (2 if block > 4096 else 4 if block > 512 else 12)
        t = 'fn(x, y) return (x * 10 + y); main() { auto a, b, longname, p, v[2]; a = 3; b = 4; v[0] = 5; v[1] = 6;'
        if block == 64: t = 'fn(x,y)return(x-y);main(){auto a,b,longname,p,v[2];a=b=3;'
        style = rng.randrange(4)
        nlab = 0

        def filler(m):
            """m characters that mean little."""
            f = ''
            while m - len(f) > 0:
                left = m - len(f)
                q = rng.random()
                if style == 0 or left < 12: f += rng.choice([' ', '\n', ' ', '\t']) * rng.choice([left, min(left, 9)])
                elif style == 1: f += '/*' + rng.choice(['x', '*', ' ', '\n', '/']) * (left - 5) + '_*/' if left > 5 else ' ' * left
                elif q < (.5 if block <= 1024 else .02): f += rng.choice(['a=a+1;', 'b=a;', 'printd(a);', 'a=a&15;', 'b =+ 1;\n'])[:99] if left > 60 else ' '
                elif q < .8: f += '/* ' + rng.choice(['note', '** ', 'a; ', '" ', "' "]) * rng.randrange(4) + '*/'  if left > 60 else '\n'
                else: f += ' ' * min(left, rng.randrange(1, 40))
            return f

        at = block
        while at <= top:
            s = rng.choice(CRIT)
            if s.startswith('return0'):
                s = 'label%d: ;' % nlab
                nlab += 1
            c = rng.randrange(len(s) + 1)
            if at - c - len(t) > 0:
                t += filler(at - c - len(t)) + s
            at += block
        t += ' printf("%d %d %d*n", a, b, longname = 1);'
        if rng.random() < .5:               # the text ends at a multiple
            end = -(-(len(t) + 2) // block) * block + rng.choice([0, 0, 1, -1])
            if end > len(t) + 1:
                last = '}'
                style = rng.randrange(2)
                f = filler(end - len(t) - 1)
                t += f + last if rng.random() < .5 else last + f
            else: t += '}'
        else:
            t += '}' + rng.choice(['', '\n', ' ', '/* end */'])
        out.append(t)
    return out


# -- what the library transfers, in many lengths ------------------------------------------

LENGTHS = list(range(0, 40)) + [47, 48, 49, 55, 56, 57, 62, 63, 64, 65, 66, 71, 72, 79, 80, 81, 95, 96, 97, 99, 100, 101, 119, 120, 126, 127, 128, 129, 130, 132, 135, 136, 143, 144, 150, 159, 160, 161, 191, 192, 193, 199, 200, 201, 239, 240, 250, 254, 255, 256, 257, 258, 260,
                           299, 300, 319, 320, 321, 383, 384, 385, 399, 400, 401, 449, 499, 500, 511, 512, 513, 514, 520, 639, 640, 641, 767, 768, 769, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1280, 1535, 1536, 1537, 2000, 2047, 2048, 2049, 3000, 4094, 4095, 4096, 4097, 4098]


def transfers(rng, share=1):
    """printf of strings, formats, runs of bytes and nwrite, in every length."""
    out = []
    todo = [(n, how) for n in LENGTHS for how in ('s', 'fmt', 'n', 'mix', 'b') if how in 's' or rng.random() < share]
    rng.shuffle(todo)
    while todo:
        part, size = [], 0
        while todo and size < 1400 and len(part) < 16:
            part.append(todo.pop())
            size += part[-1][0]
        t = 'main() { extrn fout; auto i, s;\n'
        for n, how in part:
            if rng.random() < .2: t += ' fout = %d;' % rng.randrange(2)
            x = ''.join(rng.choice('abcdefgh ijk') for _ in range(n))
            pre, post = rng.choice(['', '<', 'ab']), rng.choice(['', '>', '%d', '%%'])
            arg = ', 7' if post == '%d' else ''
            if how == 's': t += ' printf("%s%%s%s", "%s"%s);\n' % (pre, post, x, arg)
            elif how == 'fmt': t += ' printf("%s%s%s"%s);\n' % (pre, x, post, arg)
            elif how == 'n': t += ' s = "%s"; nwrite(%d, s, %d); %s\n' % (x, rng.choice([1, 1, 2]), n, rng.choice(['', 'printd(nwrite(1, s, %d));' % n]))
            elif how == 'mix':
                c = rng.randrange(n + 1)
                t += ' printf("%s%%s%s%%c%%s", "%s", 66, s = "%s"); printf(s);\n' % (pre, x[:7], x[:c], x[c:])
            elif n <= 600: t += ' i = %d; while (i--) %s;\n' % (n, rng.choice(["writeb('a' + (i & 7))", 'write(65)', 'printf("%d", i & 7)', 'printd(i & 7)', 'printf("z")', "write('a')"]))
            if rng.random() < .3: t += ' flush();'
            if rng.random() < .3: t += ' writeb(%d);' % rng.choice([10, 33])
        out.append(t + rng.choice([' exit(); }', ' return (3); }', ' }', ' }']) + '\n')
    return out



def inputs(rng, n):
    """(program, input): input of many lengths read in many ways, beyond its
    end too, into buffers whose other bytes are watched."""
    out = []
    for k in range(n):
        ln = rng.choice([x for x in LENGTHS if x < (300 if k % 4 else 4100)])
        data = bytes(rng.choice(b'abcdefg \n\x00\x04\xff') if rng.random() < .2 else rng.choice(b'abcdefghij') for _ in range(ln))
        cap = 600
        st = []
        for _ in range(rng.choice([2, 3, 5])):
            m = rng.choice([ln, ln + 1, ln + 5, max(ln - 1, 0), ln // 2, 8, 1, 7, 9, 16, 64, 100, 128, rng.randrange(ln + 20)])
            off = rng.choice([0, 0, 1, 3, 8, 11])
            m = min(m, cap - 20)
            st.append(rng.choice(['r = nread(0, buf + %d, %d); printf("%%d ", r); look(%d); look(%d);' % (off, m, off, off + m), 'r = nread(0, buf + %d, %d); printf("%%d ", r); if (r > 0) { look(r + %d); } clear();' % (off, m, off),
                                  'k = %d; while (k--) s = s * 3 + read(); printf("%%d ", s);' % m, 'k = 0; while ((c = read()) != 4) { k++; s = s * 5 + c; if (k > 5000) goto done; } printf("%d %d ", k, s);',
                                  'k = %d; while (k--) printf("%%d ", read());' % min(m, 30), 'k = %d; while (k--) { lchar(buf, k %% 200, c = read()); printf("%%d", c == 4); }' % min(m, 40),
                                  'r = nread(0, &x, 8); printf("%d %o %o ", r, x, y); x = y = -1;', 'while ((r = nread(0, buf, %d)) > 0) { look(r); s = s * 7 + char(buf, r - 1); nwrite(1, buf, r); } printf("%%d %%d ", r, s); look(0);' % rng.choice([1, 2, 3, 8, 13, 64, 100, 128, 300]),
                                  'r = nread(0, v, %d); printf("%%d %%o %%o %%o %%o ", r, v[0], v[1], v[2], v[3]); v[0] = v[1] = v[2] = v[3] = -1;' % rng.randrange(33)]))
        more = rng.choice([1, 4, 5, 6, 8, 9, 12, 17, 40, 70, 130, 260])
        st.append('k = %d; while (k--) printf("%%d", read());' % more if rng.random() < .6 else 'k = %d; while (k--) { printf("%%d ", read()); printf("%%d ", nread(0, buf, 9)); }' % min(more, 40) if rng.random() < .5 else 'k = 0; while (k++ < %d) { c = read(); if (c != 4) printf("%%d:%%d ", k, c); }' % (ln + more))
        t = """buf[75]; m1 1; m2 2;
clear() { extrn buf; auto i; i = 0; while (i < 75) buf[i++] = 3327647950551526912; }
look(i) { extrn buf; auto k; k = i - 3; if (k < 0) k = 0; while (k < i + 4 & k < 600) printf("%o,", char(buf, k++)); }
main() { extrn buf, m1, m2; auto k, s, c, r, y, x, v[4]; clear(); s = 0; x = y = -1; v[0] = v[1] = v[2] = v[3] = -1;
 STMTS
 done: printf("%d %d %d*n", m1, m2, s); k = 0; while (k < 600) { if (char(buf, k) != (k & 7 ? 46 : 0)) s = s * 3 + k; k++; } printd(s); }
""".replace('STMTS', '\n '.join(st))
        out.append((t, data))
    return out



# -- large storage ----------------------------------------------------------------------

BIG = [300, 400, 511, 512, 513, 600, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 12000, 16383, 16384, 16385, 20000, 30000, 32767, 32768, 32769, 40000, 50000, 65535, 65536, 65537, 70000, 99999]


def bigsizes(rng, n):
    """Large vectors, with and without initial values, used at a few words
    while what lies next to them is watched; local ones in activations that
    exist at the same time."""
    out = []
    for k in range(n):
        s = rng.choice(BIG)
        s2 = rng.choice(BIG)
        ls = rng.choice([x for x in BIG if x <= 20000])
        m = rng.choice([0, 0, 1, 2, 3, 10])
        m2 = rng.choice([0, 1, 5])
        wr = rng.random() < .3                 # the number of words by the values
        defs = ['b1 11;\n', 'big[%d]%s;\n' % (s, ' ' + ', '.join(str(rng.randrange(1, 99)) for _ in range(m)) if m else ''),
                'b2 22, 23;\n', 'big2[%d]%s;\n' % (s2, ' ' + ', '.join(str(rng.randrange(1, 99)) for _ in range(m2)) if m2 else ''), 'b3[2] 33;\n', 'b4 "tail";\n', 'b5;\n']
        rng.shuffle(defs)
        def pts(n_, m_=0): return sorted({0, 1, m_, m_ + 1, n_ // 2, n_ - 2, n_ - 1} & set(range(n_)))
        show = 'show() { extrn b1, b2, b3, b4, b5, big, big2; printf("%%d %%d %%d %%d %%d %%s %%d:", b1, b2, (&b2)[1], b3[0], b3[1], b4, b5); printf("%s*n", %s); printf("%s*n", %s); }\n' % (
            ' '.join(['%d'] * len(pts(s, m))), ', '.join('big[%d]' % i for i in pts(s, m)), ' '.join(['%d'] * len(pts(s2, m2))), ', '.join('big2[%d]' % i for i in pts(s2, m2)))
        show = show.replace('%%', '%')
        body = ['show();']
        for i in rng.sample(pts(s, m), len(pts(s, m))):
            body.append('big[%d] = %d;' % (i, rng.randrange(100, 999)))
            if rng.random() < .3: body.append('show();')
        for i in rng.sample(pts(s2, m2), len(pts(s2, m2))):
            body.append('big2[%d] = %d;' % (i, rng.randrange(1000, 9999)))
            if rng.random() < .3: body.append('show();')
        body += rng.sample(['b1 = 1;', 'b2 = 2;', '(&b2)[1] = 3;', 'b3[0] = 4;', 'b3[1] = 5;', 'lchar(b4, 1, 65);' if False else 'b4 = "T";', 'b5 = 6;'], 5)
        body.append('show();')
        dep = rng.choice([1, 2, 3])
        lp = pts(ls)
        how = rng.randrange(3)
        loc = 'rec(d, x) { auto %s; %s if (d) { rec(d - 1, x + 100); } %s printf("%%d %%d %%d*n", before, after, d); }\n' % (
            ['before, v[%d], after', 'v[%d], before, after', 'before, after, v[%d]'][how] % ls, ' '.join('v[%d] = x + %d;' % (i, i % 97) for i in lp) + ' before = d; after = x;', ' '.join('printf("%%d ", v[%d]);' % i for i in lp))
        once = 'once(x) { auto w[%d], p; p = w; %s if (x) { return (p); } return (0); }\n' % (ls, ' '.join('w[%d] = x;' % i for i in lp))
        if rng.random() < .5: loc = loc + once
        parts = [''.join(defs), show, loc, 'main() { extrn big, big2, b1, b2, b3, b4, b5; auto t; t = 77; %s rec(%d, 3); printd(t); %s }\n' % (' '.join(body), dep, 'once(4); rec(0, 9);' if 'once' in loc else '')]
        rng.shuffle(parts)
        out.append(''.join(parts))
    return out


# -- user functions with the names of library functions -----------------------------------

LIB = ['char', 'exit', 'flush', 'lchar', 'nread', 'nwrite', 'printo', 'read', 'write', 'writeb', 'printd']


def libnames(rng, n):
    """Programs that define functions of the library's names themselves (of
    names that no library function in use refers to)."""
    out = []
    other = ['main2', 'start', 'end', 'exitt', 'abort', 'putchar', 'getchar', 'system', 'time', 'errno', 'stdin', 'malloc', 'free', 'memcpy', 'strlen', 'printff']
    for _ in range(n):
        pf = rng.random() < .5
        lib = ['exit', 'flush', 'lchar', 'nread', 'read'] if pf else [x for x in LIB if x not in ('writeb',)] + ['printf']
        names = rng.sample(lib, rng.choice([1, 2, 3])) + rng.sample(other, rng.choice([0, 1]))
        defs, calls = [], []
        for x in names:
            k = rng.randrange(4)
            c = rng.randrange(1000)
            if k == 0: defs.append('%s() { return (%d); }\n' % (x, c)); a = ['', '1', '1, 2']
            elif k == 1: defs.append('%s(a, b) { extrn cnt; cnt++; return (a * 2 + b + %d); }\n' % (x, c)); a = ['1, 2', '3, 4']
            elif k == 2: defs.append('%s(a) return (a + %d);\n' % (x, c)); a = ['1', '7', '8, 9']
            else: defs.append('%s() { extrn cnt; cnt = cnt * 3 + 1; }\n' % x); a = ['', '5']
            for _ in range(2):
                calls.append(rng.choice(['P(X(A));', 'r = X(A); P(r);', 'if (X(A)) P(1); else P(2);', 'X(A); P(cnt);', 'f = X; P(f(A));']).replace('X', x).replace('A', rng.choice(a)))
        rng.shuffle(calls)
        if rng.random() < .5:
            main = ['main() { extrn cnt; auto r, f; r = 5; %s P(cnt); return (%d); }\n' % (' '.join(calls), rng.randrange(200))]
        else:
            main = ['main() { extrn cnt; auto r, f; w(1); %s P(w(0)); }\n' % ' '.join(calls[:2]), 'w(k) { extrn cnt; auto r, f; if (k) { %s } else return (4); P(cnt); }\n' % ' '.join(calls[2:])]
        if pf:
            main = [m.replace('P(', 'printf("%d ", ') for m in main]
        else:
            main = [m.replace('P(', 'pd(') for m in main] + ["pd(x) { if (x < 0) { writeb('-'); x = - x; } pn(x); writeb(' '); }\n", "pn(x) { if (x > 9) pn(x / 10); writeb('0' + x % 10); }\n"]
        parts = main + defs + ['cnt;\n']
        if rng.random() < .5: rng.shuffle(parts)
        if rng.random() < .35:
            cut = rng.randrange(1, len(parts))
            out.append((''.join(parts[:cut]), ''.join(parts[cut:])))
        else:
            out.append((''.join(parts),))
    return out


# -- names derived from names --------------------------------------------------------------

DERIVE = ['%s_data', '%sdata', '%s_', '_%s', '%s0', '%s1', '%s_0', '%s_1', 'b_%s', 'b%s', '%s_b', '%s_addr', '%s_vec', '%s_ptr', '%s_len', '%s_init', '%s_str', '%s_end', '%s_start', '%s_val', '%s_word', '%s_fn', '%s_2', '%s%s', '__%s', '%s__', 'str%s', 'g_%s', 'l_%s', 'fn_%s', 'L%s', 'x%s', '%sx', '_data_%s', 'data_%s', '%s_array', '%s_storage', '%s_body', 'init_%s', 'vec_%s', 'var_%s']


def derived(rng, n):
    """Names that one might be tempted to derive from one another."""
    out = []
    fixed = ['str0', 'str_0', 'str1', 'strdata', 'entry', 'then', 'else0', 'then0', 'end', 'loop', 'body', 'cond', 'label0', 'L0', 'L1', 'l0', 'block', 'ret', 'retval', 'tmp', 'tmp0', 't0', 'va', 'valist', 'va_list', 'ap', 'args', 'main0', 'main_', 'b_main', '_start', 'start', 'undef', 'null', 'zero', 'i64', 'i8', 'ptr', 'define', 'global', 'llvm', 'data', 'text', 'bss', 'end_', 'edata', 'etext', 'case0', 'case_0', 'switch0', 'default0', 'while0', 'unreachable', 'dead', 'param0', 'arg0', 'p0', 'x0', 'strs', 'string0', 'string', 'fout0', 'const0', 'name', 'size', 'slot', 'auto0', 'extrn0', 'left', 'right', 'result', 'stack', 'frame', 'rip', 'rsp', 'eax', 'al', 'st', 'cs', 'offset', 'byte', 'word', 'dword', 'qword', 'eq', 'ne', 'lt', 'gt', 'not', 'and', 'or', 'mod', 'shl', 'shr', 'xor']
    for _ in range(n):
        base = rng.choice(['v', 'x', 'f', 'a', 'main2', 'vec', 'b', 's', 'buf', 't', 'q1', 'v_data'])
        names = [base] + [d.replace('%s', base) for d in rng.sample(DERIVE, 3)] + rng.sample(fixed, 2)
        names = list(dict.fromkeys(x for x in names if x not in ('main', 'if', 'else', 'case', 'auto', 'extrn', '_start', 'printf', 'printd', 'read', 'write', 'b')))
        defs, uses, ex, loc = [], [], [], []
        for i, x in enumerate(names):
            k = rng.randrange(7)
            if k == 0: defs.append('%s %d;\n' % (x, i + 3)); ex.append(x); uses.append('printf("%%d ", %s); %s =+ 1;' % (x, x))
            elif k == 1: defs.append('%s[%d];\n' % (x, rng.choice([1, 3, 20]))); ex.append(x); uses.append('printf("%%d ", %s[0]); %s[0] = 7;' % (x, x))
            elif k == 2: defs.append('%s[%d] %d, %d;\n' % (x, rng.choice([1, 3, 20]), i, i + 1)); ex.append(x); uses.append('printf("%%d ", %s[1]); %s[1]++;' % (x, x))
            elif k == 3: defs.append('%s "str%d", "more";\n' % (x, i)); ex.append(x); uses.append('printf("%%s %%s ", %s, (&%s)[1]);' % (x, x))
            elif k == 4: defs.append('%s(a) return (a + %d);\n' % (x, i)); uses.append('printf("%%d ", %s(2));' % x)
            elif k == 5: ex.append(x); uses.append('printf("%%d ", %s); %s = 5;' % (x, x))
            else: loc.append(x + rng.choice(['', '', '[3]'])); uses.append(('%s = 4; printf("%%d ", %s);' if not loc[-1].endswith(']') else '%s[1] = 4; printf("%%d ", %s[1]);') % (x, x))
        fns = 'g(%s) { %s: return (%s); }\n' % (', '.join(names[:3]), names[0], names[1])
        lab = rng.choice(names)
        main = 'main() { %s %s %s printf("%%d*n", g(1, 2, 3)); goto %s; printf("no"); %s: printf("str%%d", 1); }\n' % ('extrn %s;' % ', '.join(ex) if ex else '', 'auto %s;' % ', '.join(loc) if loc else '', ' '.join(uses), lab, lab)
        parts = defs + [fns.replace('g(', 'zz('), main.replace('g(1', 'zz(1')]
        parts = [p.replace('%%', '%') for p in parts]
        rng.shuffle(parts)
        out.append(''.join(parts))
    return out


def derived_all(rng):
    """For every kind of name, everything that might be derived from it."""
    out = []
    for base_kind in ('vec', 'vecinit', 'var', 'varinit', 'str', 'list', 'fun', 'autovec', 'auto', 'label', 'param'):
        for kind in ('var', 'vec', 'fun'):
            base = rng.choice(['v', 'tab', 'q', 'name', 'a1', 'x_'])
            names = sorted({d.replace('%s', base) for d in DERIVE} | {'_', '__', 'str', 'label', 'L', 'd'} - {base})
            defs = []
            d0 = {'vec': '%s[3];', 'vecinit': '%s[4] 1, 2;', 'var': '%s;', 'varinit': '%s 5;', 'str': '%s "text";', 'list': '%s 1, 2, 3;', 'fun': '%s() return (1);'}.get(base_kind, '').replace('%s', base)
            use = {'vec': 'B[0] = 5; B[2] = 6; printd(B[0] + B[2]);', 'vecinit': 'B[3] = B[1]++; printd(B[3]); printd(B[1]);', 'var': 'B = B + 3; printd(B);', 'varinit': 'B =+ 3; printd(B);', 'str': 'printf(B);', 'list': 'p = &B; p[1]++; printd(p[1]);', 'fun': 'printd(B());',
                   'autovec': 'B[0] = 3; B[1] = 4; printd(B[0] * B[1]);', 'auto': 'B = 9; B++; printd(B);', 'label': 'n = 0; B: n++; if (n < 3) goto B; printd(n);', 'param': 'printd(B);'}[base_kind].replace('B', base)
            ext = [base] if base_kind in ('vec', 'vecinit', 'var', 'varinit', 'str', 'list') else []
            use2 = ''
            for i, x in enumerate(names):
                init = rng.random() < .5
                if kind == 'var': defs.append('%s%s;' % (x, ' %d' % i if init else '')); use2 += ' s = s * 3 + %s; %s = %d;' % (x, x, i + 50); ext.append(x)
                elif kind == 'vec': defs.append('%s[2]%s;' % (x, ' %d' % i if init else '')); use2 += ' s = s * 3 + %s[0]; %s[1] = %d;' % (x, x, i + 50); ext.append(x)
                else: defs.append('%s() return (%d);' % (x, i)); use2 += ' s = s * 3 + %s();' % x
            rng.shuffle(ext)
            t = '\n'.join(rng.sample(defs, len(defs)) + [d0]) + '\n' if rng.random() < .5 else '\n'.join([d0] + defs) + '\n'
            t += 'work(%s) { extrn %s; auto s, n, p%s; s = 0; %s %s %s printd(s); }\nmain() { work(4); work(5); }\n' % (
                base if base_kind == 'param' else 'z9', ', '.join(ext) if ext else 'fout', {'autovec': ', %s[2]' % base, 'auto': ', ' + base}.get(base_kind, ''), use, use2, use if base_kind != 'label' else '')
            out.append(t)
    return out


# -- functions that only read, counters that cross zero -------------------------------------

def purity(rng, n):
    """Functions of every kind of effect, called repeatedly with the same
    arguments while what they read changes, and with their value not used."""
    out = []
    for _ in range(n):
        t = 'g 1; w[3] 4, 5, 6; s "xyz";\n'
        pool = ['f%d() { extrn g; return (g); }\n', 'f%d() { extrn g; return (g * 2 + 1); }\n', 'f%d() { extrn w; return (w[1]); }\n', 'f%d(p) { return (*p); }\n' if False else 'f%d() { extrn g, w; return (g + w[2]); }\n',
                'f%d() { extrn g; return (g++); }\n', 'f%d() { extrn g; g = 7; }\n', 'f%d() { return (f0() + 1); }\n', 'f%d() { extrn s; return (char(s, 1)); }\n', 'f%d() { writeb(65); return (2); }\n', 'f%d() { extrn w; w[1]++; }\n',
                'f%d() { auto x; x = 5; return (x); }\n', 'f%d() { extrn g; if (g > 2) return (1); return (0); }\n', 'f%d() { extrn g; auto i, r; r = 0; i = 0; while (i < g & i < 9) r =+ i++; return (r); }\n', 'f%d() { extrn g; switch (g) { case 1: return (10); case 2: return (20); } return (30); }\n',
                'f%d() { extrn s; s = "q*n"; return (1); }\n', 'f%d() { extrn w; return (*w); }\n', 'f%d() { extrn g; auto p; p = &g; return (*p); }\n', 'f%d() { extrn g; auto p; p = &g; *p = *p + 1; }\n', 'f%d() { extrn fout; return (fout); }\n', 'f%d() return (g2() + 1);\n']
        k = rng.choice([4, 6])
        for j in range(k):
            t += (rng.choice(pool) if j else 'f%d() { extrn g; return (g); }\n') % j
        t += 'g2() { extrn g; return (g ? 3 : 4); }\nrd(p) return (*p);\nrd2(p, i) { return (p[i]); }\nst(p, x) { *p = x; }\nid(x) return (x);\n'
        if rng.random() < .5:
            a = t.split('\n')
            rng.shuffle(a)
            t = '\n'.join(a) + '\n'
        b = []
        for _ in range(rng.choice([12, 20])):
            f = 'f%d()' % rng.randrange(k)
            b.append(rng.choice(['printf("%%d ", %s);', 'printf("%%d ", %s);', 'r = %s;', '%s;', 'printf("%%d ", %s + %s);' % ('%s', f), 'printf("%%d ", rd(&g)); %s;', 'st(&g, 3); r =+ %s;', 'g = g + 1;', 'w[1] = w[1] + 2;', 'w[0] =+ 3;', 's = "abc";', 'printf("%%d ", rd2(w, 1));',
                                 'i = 0; while (i++ < 3) { g =+ %s; printf("%%d ", %s); }' % ('%s', f), 'if (%s == %s) r =+ 1; else r =+ 2;' % ('%s', f), 'a = 4; printf("%%d ", rd(&a)); a = 5; printf("%%d ", rd(&a)); %s;', 'v[1] = 6; r =+ rd2(v, 1); st(v + 8, 9); r =+ rd2(v, 1); %s;']).replace('%s', f).replace('%%', '%'))
        t += 'main() { extrn g, w, s; auto r, i, a, v[2]; r = 0; ' + '\n '.join(b) + ' printf("%d %d %d %d %s*n", r, g, w[0], w[1], s); return (r & 127); }\n'
        out.append(t)
    for _ in range(n):
        # counters that cross zero and the ends of the range
        t = ''
        m = 'main() { auto f;\n'
        for j in range(8):
            var = rng.choice(['x', 'x', '*p', 'v[1]', 'g'])
            st = rng.choice(['%s++', '++%s', '%s--', '--%s', '%s =+ 1', '%s =- 1', '%s = %s + 1', '%s = %s - 1', '%s =+ 2', '%s =* 3', '%s =<< 1', '%s =- 3', '%s = %s * 5', '%s = - %s'] if var != '*p' else ['++%s', '--%s', '%s =+ 1', '%s =- 1', '%s = %s + 1', '%s = %s - 3', '%s = - %s', '%s =* 3']).replace('%s', var)
            test = rng.choice(['%s < lim', '%s <= lim', '%s > lim', '%s >= lim', '%s != lim', '%s == lim', '%s', '!%s', '%s < 0', '%s > 0', '%s >= 0']).replace('%s', var)
            t += 'c%d(x, lim) { extrn g; auto n, p, v[2], s; p = &x; v[1] = x; g = x; n = 0; s = 0; while (n < 9) { if (%s) s = s * 3 + 1; else s = s * 3 + 2; %s; n++; } printf("%%d %%d ", s, %s); return (%s); }\n' % (j, test, st, var, var)
            for _ in range(3):
                x = rng.choice([-4, -3, -1, 0, 1, 3, -9, (1 << 63) - 4, -(1 << 63) + 3, (1 << 32) - 3, -(1 << 32), (1 << 31) - 2, -(1 << 31) - 2, (1 << 62), 255])
                m += ' f = c%d; printd(%s(%s, %s)); writeb(10);\n' % (j, rng.choice(['f', 'c%d' % j]), x if x != -(1 << 63) else 0, rng.choice([0, -1, 1, 2, (1 << 63) - 1, -(1 << 63) + 1, 1 << 32, 1 << 31]))
        # a step and then a test, without a loop
        CONST = ['0', '1', '-1', '2', '3', '-2', '255', '256', '9223372036854775807', '-9223372036854775807', '4294967296', '2147483648', '-2147483648', '10']
        for j in range(8, 20):
            k = rng.choice(CONST)
            st = rng.choice(['x++;', 'x--;', '++x;', '--x;', 'x =+ K;', 'x =- K;', 'x = x + K;', 'x = x - K;', 'x = K - x;', 'x =* 2;', 'x = x * 3;', 'x =<< 1;', 'x = - x;', 'x = x + x;', 'x =+ lim;', 'x = x - lim;', 'x = x * lim;', 'x =& 255;', 'x =>> 1;', 'x = x / 2;', 'x = x % 8;', 'p = &x; ++*p;', 'v[1] = x; v[1]++; x = v[1];', 'g = x; g--; x = g;', 'x = x << 3;']).replace('K', k)
            if rng.random() < .3: st += rng.choice([' x--;', ' x++;', ' x = x / 2;', ' x = x - 1;', ' x =>> 1;'])
            test = rng.choice(['x == K', 'x != K', 'x < K', 'x > K', 'x <= K', 'x >= K', '!x', 'x', 'x < lim', 'x > o', 'x >= o', 'x == o', 'x < o', 'x / 2 * 2 == x', 'x - 1 < x', 'x + 1 > x', 'x + 1 > lim + 1', 'x - lim > 0', 'x * 2 / 2 == x', '(x << 1) >> 1 == x', '(x >> 1) << 1 == x', 'x - lim == 0', '- x < 0', 'x + x == 2 * x'])
            test = test.replace('K', k if rng.random() < .3 else rng.choice(['0', '0', '0', rng.choice(CONST)]))
            t += 'd%d(x, lim) { extrn g; auto o, p, v[2]; o = x; %s if (%s) return (1); return (2); }\n' % (j, st, test)
            for x in rng.sample(['0', '1', '-1', '-2', '2', '3', '-3', '7', '-8', '9223372036854775807', '-9223372036854775807', '-9223372036854775807 - 1', '4294967295', '-4294967296', '4611686018427387904', '-4611686018427387904', '-255', '2147483647'], 10) + ['-1', '1']:
                m += ' printd(d%d(%s, %s));' % (j, x, rng.choice(['0', '1', '-1', x, '9223372036854775807']))
            m += ' writeb(10);\n'
        out.append('g;\n' + t + m + '}\n')
    return out


# -- long names -----------------------------------------------------------------------------

def longnames(rng, n):
    """Pairs of names with a long common beginning or end, in every role."""
    out = []
    for _ in range(n):
        L = rng.choice([6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 23, 24, 30, 31, 32, 33, 40, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1023, 1024, 1025])
        stem = ''.join(rng.choice('abcxyz_019') for _ in range(L - 1))
        stem = 'n' + stem
        if rng.random() < .7: a, b, c = stem, stem + 'q', stem + 'r'
        elif rng.random() < .5: a, b, c = 'q' + stem, 'r' + stem, 'Q' + stem
        else:
            m = rng.randrange(L)
            a, b, c = stem[:m] + 'A' + stem[m:], stem[:m] + 'a' + stem[m:], stem[:m] + '_' + stem[m:]
            if not a[:1].isalpha(): a = 'a' + a
            if b == a or not (b[:1].isalpha() or b[:1] == '_'): b = 'b' + b
        ns = [a, b, c]
        k = rng.randrange(7)
        if k == 0: t = '%s 1;\n%s 2;\n%s 3;\nmain() { extrn %s, %s, %s; %s =+ 10; %s =+ 20; printf("%%d %%d %%d", %s, %s, %s); }\n' % (a, b, c, a, b, c, a, b, a, b, c)
        elif k == 1: t = '%s() return (1);\n%s() return (2);\n%s() return (3);\nmain() { printf("%%d %%d %%d", %s(), %s(), %s()); }\n' % (a, b, c, a, b, c)
        elif k == 2: t = 'main() { auto %s, %s, %s; %s = 1; %s = 2; %s = 3; printf("%%d %%d %%d", %s, %s, %s); }\n' % (a, b, c, a, b, c, a, b, c)
        elif k == 3: t = 'main() { goto %s; %s: printf("1"); goto %s; %s: printf("2"); goto %s; %s: printf("3"); }\n' % (b, a, c, b, a, c)
        elif k == 4: t = 'f(%s, %s, %s) return (%s * 100 + %s * 10 + %s);\nmain() { printd(f(1, 2, 3)); }\n' % (a, b, c, a, b, c)
        elif k == 5: t = '%s[3] 1, 2, 3;\n%s 5;\nmain() { extrn %s, %s; auto %s; %s = 7; printf("%%d %%d %%d", %s[1], %s, %s); }\n' % (a, b, a, b, c, c, a, b, c)
        else: t = '%s(x) { extrn %s; return (x + %s); }\n%s 4;\nmain() { extrn %s; auto %s; %s = 6; printf("%%d %%d %%d", %s(1), %s, %s); }\n' % (a, b, b, b, b, c, c, a, b, c)
        out.append(t.replace('%%', '%'))
    # misuse of one of a pair
    for _ in range(n // 3):
        L = rng.choice([7, 8, 15, 16, 31, 32, 63, 64, 127, 255, 256, 1000])
        x = 'n' * L
        out.append(rng.choice(['main() { auto %sa; %sb = 1; }\n', 'main() { goto %sa; %sb: ; }\n', '%sa; main() { extrn %sa; %sb = 1; }\n', 'main() { auto %sa; auto %sa; }\n', 'main() { %sa: ; %sa: ; }\n', '%sa; %sa() ;\nmain() ;\n', '%sa; main() { extrn %sa; auto %sa; }\n']).replace('%s', x))
    return out


FAMILIES = {'order': order, 'bigsizes': bigsizes, 'derived': derived, 'purity': purity, 'longnames': longnames}


def fam(rng, texts, levels, fuel=300000, **kw):
    """Cases of a family: both the plain and one other level."""
    from gen import case
    out = []
    for t in texts:
        out.append(case(*(t if isinstance(t, tuple) else (t,)), opts=[(), rng.choice(levels[1:])], fuel=fuel, **kw))
    return out
