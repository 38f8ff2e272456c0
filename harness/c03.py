"""C03: control flow."""
from common import *
from gen import *
from c01 import LEVELS
import grids
import grids2
import grids3

HEAD = '''bits;
left;
t(k) { extrn left; if (left > 0) { left--; writeb(k); } }
c(k) { extrn bits; auto r; t(k); r = bits & 1; bits =>> 1; return (r); }
e(k) { extrn bits; auto r; t(k); r = bits & 3; bits =>> 2; return (r); }
'''


class Render:
    """Text of one function from a tree of BFlow (labels may carry numbers)."""

    def __init__(self, rng, name):
        self.rng = rng
        self.name = name
        self.k = 0
        self.mul = rng.choice([1, 1, 3, 100, 1 << 33])
        self.nlab = 0

    def ch(self):
        self.k += 1
        return 33 + (self.k - 1) % 90 + (1 if (self.k - 1) % 90 >= 6 else 0)

    def order(self, s, pos, labs):
        """Positions of labels in text order."""
        pos[0] += 1
        if s[0] == 'l':
            labs[s[2] if len(s) > 2 else 0] = pos[0]
        for x in s[1:]:
            if isinstance(x, (list, tuple)):
                self.order(x, pos, labs)

    def body(self, s):
        self.labs = {}
        self.order(s, [0], self.labs)
        self.pos = 0
        return self.stmt(s)

    def const(self, k):
        v = k * self.mul
        return "'%c'" % v if 65 <= v <= 90 else ('0%o' % v if self.rng.random() < .2 and v else str(v))

    def stmt(self, s):
        r = self.rng
        self.pos += 1
        k = s[0]
        if k == 't': return 't(%d);' % self.ch()
        if k == 'n': return r.choice([';', ';', '{ }', '{ ; }'])
        if k == 'r': return 'return;'
        if k == 'v': return 'return (%d);' % self.ch()
        if k == 'g':
            lab = s[1] if len(s) > 1 else 0
            if self.labs[lab] > self.pos and r.random() < .8:
                return 'goto L%d;' % lab
            return '{ if (c(%d)) goto L%d; }' % (self.ch(), lab)
        if k == 'i':
            c = self.ch()
            return 'if (%s) %s' % (self.cond(c), self.stmt(s[1]))
        if k == 'e':
            c = self.cond(self.ch())
            a = self.stmt(s[1])
            if self.dangles(s[1]):
                a = '{ %s }' % a
            return 'if (%s) %s else %s' % (c, a, self.stmt(s[2]))
        if k == 'w':
            c = self.ch()
            return 'while (%s) %s' % (self.cond(c), self.stmt(s[1]))
        if k == 'l':
            return 'L%d: %s' % (s[2] if len(s) > 2 else 0, self.stmt(s[1]))
        if k == 's':
            c = self.ch()
            m = '' if self.mul == 1 else ' * %d' % self.mul
            f = r.choice(['(e(%d)%s)', 'e(%d)%s', '(e(%d))%s']) % (c, m)
            return 'switch %s %s' % (f, self.stmt(s[1]))
        if k == 'c': return 'case %s: %s' % (self.const(s[1]), self.stmt(s[2]))
        if k == 'd': return 'default: %s' % self.stmt(s[1])
        if k == 'q':
            return '{ %s }' % ' '.join(self.stmt(x) for x in s[1:])
        raise ValueError(s)

    def cond(self, c):
        return self.rng.choice(['c(%d)', 'c(%d)', 'c(%d) != 0', '-c(%d)', 'c(%d) << 40', '(c(%d))']) % c

    def dangles(self, s):
        """Would an else after s bind inside it?"""
        k = s[0]
        if k == 'i': return True
        if k in ('w', 'l', 's', 'd'): return self.dangles(s[1])
        if k == 'c': return self.dangles(s[2])
        if k == 'e': return self.dangles(s[2])
        return False


def rtree(rng, n, st, sw=None):
    """A random tree of about n nodes; st: labels of the function, sw: values
    used in the innermost switch or None."""
    if n <= 1:
        k = rng.random()
        if k < .66: return ['t']
        if k < .72: return ['n']
        if k < .76: return ['r']
        if k < .80: return ['v']
        st['gotos'] += 1
        return ['g', None]
    k = rng.random()
    if sw is not None and k < .45 and len(sw) < 5:
        v = rng.choice([x for x in range(5) if x not in sw])
        sw.add(v)
        if v == 4:
            return ['d', rtree(rng, n - 1, st, sw)]
        return ['c', v, rtree(rng, n - 1, st, sw)]
    if k < .62:
        m = rng.choice([2, 3, 4]) if n > 3 else 2
        cuts = [max(1, (n - 1) // m)] * m
        return ['q'] + [rtree(rng, x, st, sw) for x in cuts]
    if k < .72: return ['i', rtree(rng, n - 1, st)]
    if k < .80: return ['e', rtree(rng, n // 2, st), rtree(rng, n // 2, st)]
    if k < .88: return ['w', rtree(rng, n - 1, st)]
    if k < .93:
        st['labels'] += 1
        k = st['labels'] - 1
        return ['l', rtree(rng, n - 1, st, sw), k]
    return ['s', rtree(rng, n - 1, st, set())]


def fix_gotos(s, rng, nlab):
    if s[0] == 'g':
        return ['g', rng.randrange(nlab)] if nlab else ['t']
    return [s[0]] + [fix_gotos(x, rng, nlab) if isinstance(x, list) else x for x in s[1:]]


def has(s, k):
    return s[0] == k or any(has(x, k) for x in s[1:] if isinstance(x, list))


def programs(rng, trees, per, patterns):
    out = []
    for i in range(0, len(trees), per):
        t, calls = HEAD, ''
        for j, tree in enumerate(trees[i:i + per]):
            R = Render(rng, 'f%d' % j)
            b = R.body(tree)
            style = rng.random()
            if style < .5:
                b = '{ %s t(%d); }' % (b, R.ch())
            elif style < .6:
                b = '{ %s }' % b
            t += 'f%d() %s\n' % (j, b)
            calls += ' go(f%d);' % j
        t += 'go(f) {\n extrn bits, left;\n'
        for p in patterns():
            t += ' bits = %d; left = 60; printd(f()); writeb(10);\n' % p
        t += '}\nmain() {%s\n}\n' % calls
        out.append(t)
    return out


def run(ctx):
    rng = ctx.rng
    cases = []
    d, _ = ctx.tlc('BFlow', 'BFlow.cfg', cfgtext='SPECIFICATION Spec\nCONSTANT MaxSize = 5\nCHECK_DEADLOCK FALSE\n',
                   heap='4g', young='1g')
    trees = []
    for n in range(1, 6):
        with open(os.path.join(d, 'out', '%d.json' % n)) as f:
            ts = json.load(f)
        # the return value of TLC's sets has no order of its own
        ts.sort(key=json.dumps)
        ctx.extra['trees of size %d' % n] = len(ts)
        if n == 5:
            rng.shuffle(ts)
            ts = ts[:ctx.scale(900, len(ts))]
        trees += ts
    ctx.extra['trees replayed'] = len(trees)
    rng.shuffle(trees)
    pats = lambda: [0, 1, 2, 3, 6, 11, 5, 22] if not ctx.thorough else list(range(12)) + [21, 22, 27, 45, 109]
    texts = programs(rng, trees, 20, pats)
    ctx.extra['exhaustive programs'] = len(texts)
    big = []
    for _ in range(ctx.scale(600, 6000)):
        st = {'labels': 0, 'gotos': 0}
        s = rtree(rng, rng.choice([6, 8, 10, 14, 20]), st)
        if st['labels'] == 0 and st['gotos']:
            s = ['q', s, ['l', ['t'], 0]]
            st['labels'] = 1
        big.append(fix_gotos(s, rng, st['labels']))
    rp = lambda: [rng.getrandbits(rng.choice([3, 6, 12, 30])) for _ in range(6)]
    texts += programs(rng, big, 8, rp)
    for t in texts:
        if rng.random() < .1:
            t = layout(tokens(t), rng, 'compact')
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=200000))
    obs = lambda c: build_and_run(ctx, c, c['opts'])
    for t in grids.bigflow(rng, ctx.scale(60, 700)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    for t in grids.contexts(rng, ctx.scale(600, 4000)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    cases += grids2.fam(rng, grids2.counts(rng, ['labels', 'cases', 'switches', 'statements', 'loops', 'ifs', 'ifnest', 'whilenest', 'blocks', 'iterations'], per=ctx.scale(2, 20)), LEVELS, tag='counts')
    cases += grids2.fam(rng, grids3.forever(rng, ctx.scale(64, 500)), LEVELS, loops=True, tag='forever')
    ctx.log('generated')
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
