"""C02: side effects happen once and in place."""
from common import *
from gen import *
from c01 import LEVELS
import grids
import grids2
import grids3

GLOB = '''g0 3;
g1;
gv[6] 10, 20, 30, 40;
cnt[12];
m[4];
bump(k, x) { extrn cnt; cnt[k]++; return (x); }
id(x) return (x);
setg(x) { extrn g1; auto o; o = g1; g1 = x; return (o); }
at(v, i) return (&v[i]);
swap(x, y) { auto z; z = *x; *x = *y; *y = z; return (z); }
show(a, b, c, i, v, w, p, q) {
 extrn g0, g1, gv, cnt;
 auto k;
 printf("%d %d %d %d / %d %d / %d %d |", a, b, c, i, g0, g1, *p, q[0]);
 k = 0;
 while (k < 6) { printf(" %d", v[k]); k++; }
 printf(" ; %d %d %d ; %d %d %d %d %d %d|", w[0], w[1], w[2], gv[0], gv[1], gv[2], gv[3], gv[4], gv[5]);
 k = 0;
 while (k < 12) { writeb('0' + (cnt[k] & 7)); k++; }
 writeb(10);
}
'''


class Body:
    """Statements of one function, with the cells every expression touches."""

    def __init__(self, rng):
        self.rng = rng
        self.nlab = 0
        self.begin()

    def begin(self):
        self.rd, self.wr = set(), set()
        self.nb = 0

    def cells(self, base, k=None):
        n = {'v': 6, 'w': 3, 'gv': 6}[base]
        return {'%s.%d' % (base, i) for i in (range(n) if k is None else [k])}

    def place(self, simple=False):
        """An lvalue: (text, cells read to reach it, cells it may designate)."""
        r = self.rng
        k = r.random()
        if k < .28:
            x = r.choice('abc')
            return x, set(), {x}
        if k < .40:
            x = r.choice(['g0', 'g1'])
            return x, set(), {x}
        if k < .58:
            b = r.choice(['v', 'w', 'gv'])
            i = r.randrange({'v': 6, 'w': 3, 'gv': 6}[b])
            form = r.choice(['%s[%d]', '%s[%d]', '*(%s + 8 * %d)', '(%s)[(%d)]', '*(&%s[%d])', '(&%s[0])[%d]',
                             '*at(%s, %d)', 'at(%s, %d)[0]', 'id(%s)[%d]'])
            return form % (b, i), set(), self.cells(b, i)
        if k < .66 and not simple:
            b = r.choice(['v', 'gv'])
            return '%s[i & 3]' % b, {'i'}, self.cells(b)
        if k < .72 and not simple and 'i' not in self.rd | self.wr:
            self.wr.add('i')
            b = r.choice(['v', 'gv'])
            e = r.choice(['i++ & 3', '--i & 3', '(i =+ 1) & 3', '++i & 3'])
            return '%s[%s]' % (b, e), set(), self.cells(b)
        if k < .80:                          # p points to b's cell or v[2]: see start
            return r.choice(['*p', 'p[0]', '*(p)', '*&*p', '*p']), {'p'}, {'P'}
        if k < .88:
            return r.choice(['*q', 'q[0]', 'q[1 - 1]']), {'q'}, {'Q'}
        if k < .94:
            i = r.randrange(3)
            return r.choice(['m[1][%d]', '(m[1])[%d]', '*(m[1] + %d * 8)']) % i, set(), self.cells('w', i)
        return '**&p' if False else 'c', set(), {'c'}

    def alias(self, cells):
        """Cells with P and Q resolved."""
        out = set()
        for c in cells:
            out.add(self.P if c == 'P' else self.Q if c == 'Q' else c)
        return out

    def read(self):
        for _ in range(8):
            save = set(self.rd), set(self.wr)
            t, r, c = self.place()
            need = self.alias(r) | self.alias(c)
            if not need & self.wr:
                self.rd |= need
                return t
            self.rd, self.wr = save
        return str(self.rng.randrange(9))

    def write(self, own_reads=True):
        for _ in range(12):
            save = set(self.rd), set(self.wr)
            t, r, c = self.place()
            c, r = self.alias(c), self.alias(r)
            if not c & (self.rd | self.wr) and not r & self.wr:
                self.rd |= r
                self.wr |= c
                return t, c
            self.rd, self.wr = save
        return None, None

    def expr(self, d):
        r = self.rng
        k = r.random()
        if d <= 0 or k < .15:
            return self.read() if r.random() < .6 else str(r.choice([0, 1, 2, 3, 5, 7, 12, 100]))
        if k < .33:
            op = r.choice(['+', '-', '&', '|', '<', '==', '!=', '>=', '*'])
            return '(%s %s %s)' % (self.expr(d - 1), op, self.expr(d - 1))
        if k < .40:
            op = r.choice(['/', '%'])
            return '(%s %s ((%s & 7) + 1))' % (self.expr(d - 1), op, self.expr(d - 1))
        if k < .44:
            return '(%s %s (%s & 3))' % (self.expr(d - 1), r.choice(['<<', '>>']), self.expr(d - 1))
        if k < .49:
            return r.choice(['- ', '!']) + '(%s)' % self.expr(d - 1)
        if k < .66:
            t, c = self.write()
            if t:
                if t.startswith('*'):
                    return '(%s)' % r.choice(['++%s', '--%s']) % t
                return '(%s)' % r.choice(['%s++', '%s--', '++%s', '--%s']) % t
            return self.read()
        if k < .80:
            return '(%s)' % self.assign(d - 1)
        if k < .90 and self.nb < 12:
            n = self.nb
            self.nb += 1
            return 'bump(%d, %s)' % (n, self.expr(d - 1))
        if k < .93 and 'g1' not in self.rd | self.wr:
            self.wr.add('g1')
            return 'setg(%s)' % self.expr(d - 1)
        if k < .99:
            return self.cond(d - 1)
        return 'id(%s)' % self.expr(d - 1)

    def cond(self, d):
        """c ? x : y; what the condition writes may be read in the branches."""
        outer_rd, outer_wr = set(self.rd), set(self.wr)
        c = self.expr(d)
        crd, cwr = self.rd, self.wr
        # branches see the cells of the condition as settled
        self.rd, self.wr = set(outer_rd), set(outer_wr)
        x = self.expr(d)
        xr, xw = self.rd, self.wr
        self.rd, self.wr = set(outer_rd), set(outer_wr)
        y = self.expr(d)
        self.rd |= xr | crd
        self.wr |= xw | cwr
        return '((%s) ? %s : %s)' % (c, '(%s)' % x, '(%s)' % y)

    def assign(self, d):
        r = self.rng
        t, c = self.write()
        if t is None:
            return self.read()
        op = r.choice(ASG)
        # the right side may read (not write) what is assigned
        outer = set(self.wr)
        self.wr -= c
        rd0 = set(self.rd)
        if r.random() < .5:
            e = self.expr(d)
        else:
            e = self.read()
        bad = self.wr & c
        self.wr |= c
        # (cells of c read on the right are fine; written ones are not)
        if bad:
            e = '1'
        self.rd -= c - rd0
        if op in ('=/', '=%'):
            e = '((%s & 7) + 1)' % e
        elif op in ('=<<', '=>>'):
            e = '(%s & 3)' % e
        elif r.random() < .2:
            e = '(%s)' % e
        return '%s %s %s' % (t, op, e)

    def label(self):
        self.nlab += 1
        return 'l%d' % self.nlab

    def stmt(self):
        r = self.rng
        self.begin()
        k = r.random()
        d = r.choice([1, 1, 2, 2, 3])
        sh = 'show(a, b, c, i, v, w, p, q);'
        if k < .40:
            return self.assign(d) + ';'
        if k < .50:
            return self.expr(d) + ';'
        if k < .60:
            s = 'if (%s) a = a + 1; else b = b - 1;' % self.expr(d)
            return s
        if k < .66:
            return 'i = i & 7; r = 3; while ((%s | 1) & (r-- > 0)) c = c + 2;' % self.expr(d)
        if k < .73:
            return 'switch (%s & 3) { case 0: a = 7; case 1: b = b + 1; goto %s; case 2: c = 3; } %s: ;' % (
                self.expr(d), self.label(), 'l%d' % self.nlab)
        if k < .80:
            return 'printf("%%d %%d*n", %s, %s);' % (self.expr(d), self.expr(d))
        if k < .86:
            t, c = self.write()
            u, c2 = self.write()
            if t and u:
                return 'swap(&%s, &%s);' % (t, u)
            return ';'
        if k < .90:
            new = r.choice(['a', 'b', 'c', 'v.1', 'v.4', 'w.2', 'gv.3', 'gv.0', 'g0', 'g1'])
            which = r.choice('pq')
            if which == 'p': self.P = new
            else: self.Q = new
            n = new.replace('.', '[') + (']' if '.' in new else '')
            form = '%s = &%s;' if '[' not in n or r.random() < .5 else '%s = at(%s);'
            arg = n if 'at' not in form else n.replace('[', ', ').replace(']', '')
            return form % (which, arg)
        if k < .95:
            return 'a = b = c = %s;' % self.expr(d) if r.random() < .5 else 'a = b =+ c =- 2;'
        return 'printd(%s); printd(%s); writeb(10);' % (self.assign(1), self.expr(2))


def program(rng, nstm):
    b = Body(rng)
    b.P, b.Q = 'b', 'gv.2'
    st = []
    for _ in range(nstm):
        s = b.stmt()
        if len(s) > 900:
            continue
        st.append(s + '\n show(a, b, c, i, v, w, p, q);')
    param = rng.random() < .5
    t = GLOB
    body = ''' extrn g0, g1, gv, cnt, m;
 auto %sb, c, v[6], i, p, q, w[3], r;
 b = 2; c = -3; i = 1; r = 0;
 v[0] = 5; v[1] = 6; v[2] = 7; v[3] = 8; v[4] = 9; v[5] = -1;
 w[0] = 50; w[1] = 60; w[2] = 70;
 m[1] = w; m[2] = v;
 p = &b; q = &gv[2];
''' % ('' if param else 'a, ')
    if not param:
        body += ' a = 1;\n'
    body += ' ' + '\n '.join(st) + '\n'
    if param:
        t += 'work(a) {\n%s return (a);\n}\nmain() { printd(work(1)); writeb(10); }\n' % body
    else:
        t += 'main() {\n%s}\n' % body
    return t


PLACES = ['x', 'l', 'g0', 'v[1]', 'v[i]', 'gv[2]', 'gv[i]', '*p', '*q', 'q[1]', '*(&v[3])', '*(v + 8)',
          '(&gv[1])[1]', 'm[1][0]', '*at(v, 2)', 'at(gv, 1)[1]', '(v)[2]', '*p++', 'v[i++]', 'v[--i]',
          'gv[bump(3, 1)]', '*bump(4, q)', 'bump(5, v)[2]', 'v[v[5]]', '**pp', '*&l', 'm[bump(2, 1)][1]']


def systematic(rng):
    """Every operator on every kind of place, with the value used and not."""
    out = []
    jobs = []
    for pl in PLACES:
        forms = []
        for op in ASG:
            for rhs in ['3', 'y']:
                forms.append('%s %s %s' % (pl, op, rhs))
        if not pl.startswith('*'):
            forms += ['++%s' % pl, '--%s' % pl]
        else:
            forms += ['++%s' % pl, '--%s' % pl]
        if pl.startswith('*') and pl != '*p++':
            forms += ['(%s)++' % pl, '(%s)--' % pl] if False else []
        else:
            forms += ['%s++' % pl, '%s--' % pl]
        if pl == '*p++':
            forms = [f for f in forms if not f.endswith(('p++++', 'p++--'))]
        for f in forms:
            if pl == '(l)' and False:
                continue
            jobs.append((pl, f))
    rng.shuffle(jobs)
    head = GLOB + '''
f%d(x, y) {
 extrn g0, g1, gv, cnt, m;
 auto l, i, v[6], w[3], p, q, pp, r, k;
 l = 41; i = 2; r = 0; p = &v[4]; q = &gv[1]; pp = &q; m[1] = w;
 v[0] = 11; v[1] = 13; v[2] = 17; v[3] = 19; v[4] = 23; v[5] = 3;
 w[0] = 50; w[1] = 60; w[2] = 70;
 g0 = 9; gv[0] = 31; gv[1] = 37; gv[2] = 43; gv[3] = 47;
%s
 printf("%%d %%d %%d %%d: ", %d, r, x, y);
 k = 0; while (k < 6) { printf("%%d,", p == &v[k]); k++; }
 show(l, i, 0, 0, v, w, &l, q);
}
'''
    for n in range(0, len(jobs), 14):
        part = jobs[n:n + 14]
        fs, calls = '', ''
        for j, (pl, f) in enumerate(part):
            use = rng.random()
            if use < .3: s = ' %s;' % f
            elif use < .6: s = ' r = (%s);' % f
            elif use < .75: s = ' r = 1 + (%s);' % f
            elif use < .85: s = ' if (%s) r = 5; else r = 6;' % f
            else: s = ' r = id(%s);' % f
            fs += head.replace(GLOB, '') % (j, s, j)
            calls += ' f%d(%d, %d);\n' % (j, rng.choice([6, 21, -5, 1]), rng.choice([2, 3, 1, 5]))
        out.append(GLOB + fs + 'main() {\n%s}\n' % calls)
    return out


def run(ctx):
    rng = ctx.rng
    cases = []
    for t in systematic(rng):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])]))
    ctx.extra['systematic programs'] = len(cases)
    for _ in range(ctx.scale(170, 2200)):
        t = program(rng, rng.choice([6, 9, 12]))
        if rng.random() < .15:
            t = layout(tokens(t), rng, 'compact')
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])]))
    for t in grids.contexts(rng, ctx.scale(4000, None)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    for t in grids.vector_names(rng, ctx.scale(60, 600)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    cases += grids2.fam(rng, grids2.order(rng, ctx.scale(60, 800)), LEVELS, ordered=True, tag='order')
    cases += grids2.fam(rng, grids2.counts(rng, ['index', 'chain', 'callnest'], per=ctx.scale(2, 20)), LEVELS, ordered=True, tag='counts')
    cases += grids2.fam(rng, grids3.effects(rng, ctx.scale(1500, None) or 100000), LEVELS, ordered=True, tag='effects')
    obs = lambda c: build_and_run(ctx, c, c['opts'])
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
