"""C04: storage."""
from common import *
from gen import *
from c01 import LEVELS
import grids
import grids2
import grids3


class Vars:
    """Cells of a set of declarations: name -> list of access texts."""

    def __init__(self, rng):
        self.rng = rng
        self.cells = []            # (access text forms, initial value known?)

    def acc(self, forms):
        self.cells.append(forms)


def ival(rng):
    k = rng.random()
    if k < .45: return str(rng.choice(EXT[:22]))
    if k < .6: return str(wrap(rng.getrandbits(64))).replace('-9223372036854775808', '1')
    if k < .7: return bchr(rng, bytes(rng.choice(b'abcXYZ 019') for _ in range(rng.randrange(1, 9)))).decode('latin1')
    if k < .8: return '0%o' % rng.getrandbits(20)
    return 'S'


def global_decls(rng, n):
    """Definitions; returns (text, cells) with cell = (kind, access)."""
    t, cells, strs = '', [], []
    for i in range(n):
        name = 'g%d' % i if rng.random() < .8 else rng.choice(['count', 'G_%d', '_x%d', 'Tab%d', 'default%d']).replace('%d', '%d') % () \
            if False else 'g%d' % i
        k = rng.randrange(9)
        vals = []
        if k == 0:
            t += '%s;\n' % name
            cells.append(('i', name, name))
        elif k in (1, 2):
            v = ival(rng)
            if v == 'S':
                s = rng.choice(['hello', '', 'a*nb', 'x' * 20])
                t += '%s "%s";\n' % (name, s)
                cells.append(('s', name, name))
            else:
                t += '%s %s;\n' % (name, v)
                cells.append(('i', name, name))
        elif k == 3:                       # several words
            m = rng.randrange(2, 6)
            vals = [ival(rng) for _ in range(m)]
            t += '%s %s;\n' % (name, ', '.join('"s%d"' % rng.randrange(5) if v == 'S' else v for v in vals))
            for j, v in enumerate(vals):
                cells.append(('s' if v == 'S' else 'i', name, name if j == 0 and rng.random() < .5 else '(&%s)[%d]' % (name, j)))
        else:
            size = rng.choice([0, 1, 2, 3, 4, 7, 16, 40])
            m = rng.choice([0, 0, 1, 2, 3, 5, 9])
            vals = [ival(rng) for _ in range(m)]
            t += '%s[%s]%s;\n' % (name, '' if size == 0 else rng.choice(['%d' % size, '0%o' % size]),
                                  ' ' + ', '.join('"v%d"' % rng.randrange(5) if v == 'S' else v for v in vals) if vals else '')
            words = max(1, size, m)
            for j in range(words):
                v = vals[j] if j < m else '0'
                cells.append(('s' if v == 'S' else 'i', name, '%s[%d]' % (name, j)))
    return t, cells


def program(rng):
    ng = rng.choice([2, 4, 7, 10])
    gt, gc = global_decls(rng, ng)
    names = sorted({c[1] for c in gc})
    nparam = rng.choice([0, 1, 2, 3, 6, 8])
    ps = ['p%d' % i for i in range(nparam)]
    # locals
    decl = []
    lc = [('i', p, p) for p in ps]
    code = []
    nl = rng.choice([1, 3, 6, 12])
    for i in range(nl):
        if rng.random() < .5:
            decl.append(('s%d' % i, None))
            lc.append(('i', 's%d' % i, 's%d' % i))
        else:
            size = rng.choice([0, 1, 2, 3, 5, 8, 30])
            decl.append(('v%d' % i, size))
            for j in range(max(1, size)):
                lc.append(('u', 'v%d' % i, 'v%d[%d]' % (i, j)))
    rng.shuffle(decl)
    # declarations in groups, some in nested blocks
    lines = []
    i = 0
    while i < len(decl):
        m = rng.choice([1, 1, 2, 3])
        grp = decl[i:i + m]
        i += m
        d = 'auto ' + ', '.join(n if s is None else '%s[%s]' % (n, s if s else '') for n, s in grp) + ';'
        if rng.random() < .25:
            d = '{ %s }' % d
        lines.append(d)
    ext = 'extrn ' + ', '.join(names) + ';' if names else ''
    lines.insert(rng.randrange(len(lines) + 1) if rng.random() < .5 else 0, ext)
    inits = []
    for k, n, a in lc:
        if k == 'u':
            inits.append('%s = d * 1000 + %d;' % (a, rng.randrange(900)))
        elif n.startswith('s'):
            inits.append('printd(%s);' % a if rng.random() < .5 else '%s = %s + %d;' % (a, a, rng.randrange(99)))
    rng.shuffle(inits)
    cells = gc + lc
    ops = []
    uniq = [1000]

    def dump(cs):
        out = []
        for n in range(0, len(cs), 4):
            part = cs[n:n + 4]
            fmt = ' '.join('%s' if k == 's' else '%d' for k, _, _ in part)
            out.append('printf("%s*n", %s);' % (fmt, ', '.join(a for _, _, a in part)))
        return out
    ints = [c for c in cells if c[0] != 's']
    ssc = [c for c in cells if c[0] == 's']
    for _ in range(rng.choice([5, 15, 30])):
        k = rng.random()
        if not ints:
            break
        a = rng.choice(ints)[2]
        if k < .55:
            uniq[0] += 1
            ops.append('%s = %d + d;' % (a, uniq[0]))
        elif k < .7:
            ops.append('%s = %s;' % (a, rng.choice(ints)[2]))
        elif k < .8:
            ops.append('%s =+ %d;' % (a, rng.randrange(50)))
        elif k < .85 and ssc:
            ops.append('%s = %s;' % (rng.choice(ssc)[2], '"t%d"' % rng.randrange(9)))
        elif k < .9:
            b = rng.choice(ints)
            if b[2] != a:
                ops.append('printd(&%s == &%s);' % (a, b[2]))
        else:
            ops.append('printd(%s); writeb(32);' % a)
    call = 'if (d) { k = rec(d - 1%s); printd(k); }' % ''.join(', %s' % rng.choice(
        [str(rng.randrange(100)), rng.choice(ints)[2] if ints else '1']) for _ in ps)
    keep = dump(cells) if rng.random() < .7 else dump(rng.sample(cells, min(len(cells), 12)))
    body = ['auto k;'] + lines + dump(gc)[:6] + inits + ops[:len(ops) // 2] + [call] + ops[len(ops) // 2:] + keep
    rec = 'rec(%s) {\n %s\n return (d + 40);\n}\n' % (', '.join(['d'] + ps), '\n '.join(body))
    more = ('' if rng.random() < .5 else 'loop(n) { while (n--) { auto x, y[%d], z; printd(x); printd(z); x = n; z = n + 5;'
            ' y[0] = x; y[%d] = 3; printd(y[0] + x + z); } writeb(10); }\n' % (rng.choice([1, 2, 9]), 0))
    main = 'main() { printd(rec(%d%s)); %s printd(rec(0%s)); writeb(10); }\n' % (
        rng.choice([0, 1, 2, 3]), ''.join(', %d' % rng.randrange(200) for _ in ps),
        'loop(4);' if more else '', ''.join(', %d' % rng.randrange(200) for _ in ps))
    parts = [gt, rec, more, main]
    if rng.random() < .3:
        rng.shuffle(parts)
    return ''.join(parts)


def fixed(rng):
    """Larger storage: many words, many locals, loops, deep recursion."""
    out = []
    n = rng.choice([700, 900, 1100])
    out.append('main() { auto n, s; n = %d; s = 0; while (n) { auto a[1500], b; b =+ n; a[0] = n; a[1499] = n; '
               's =+ a[0] + a[1499] + b; n--; } printd(s); }' % n)
    out.append('f(n) { auto v[3], s; v[0] = n; v[2] = n + 1; if (n == 0) return (0); s = f(n - 1); '
               'return (s + v[2] - v[0]); } main() printd(f(%d));' % rng.choice([150, 300]))
    out.append('big[5000]; z 7; big2[3000] 1, 2; main() { extrn big, big2, z; auto i; big[0] = 1; big[4999] = 2; '
               'big2[2999] = 5; printf("%d %d %d %d %d %d %d*n", big[0], big[4999], big[2500], big2[0], big2[1], big2[2999], z);'
               ' i = 4990; while (i < 5000) big[i++] = i; i = 4990; while (i < 5000) printd(big[i++]); printd(z); printd(big2[0]); }')
    m = 60
    t = ''.join('x%d %d;\n' % (i, i * 3) for i in range(m))
    t += 'main() { extrn %s; auto %s;\n' % (', '.join('x%d' % i for i in range(m)), ', '.join('y%d' % i for i in range(m)))
    order = list(range(m))
    rng.shuffle(order)
    for i in order:
        t += ' y%d = x%d + %d; x%d = %d;\n' % (i, rng.randrange(m), i, i, i * 7)
    for i in range(m):
        t += ' printf("%%d %%d ", x%d, y%d);\n' % (i, i)
    out.append(t + '}\n')
    # strings: equal literals, long ones, many
    ss = ['abc', 'abc', 'b', '', 'q' * 300] + ['s%d' % i for i in range(40)]
    t = 'a "abc"; b[3] "abc", "xyz";\nmain() { extrn a, b; auto v[%d], i;\n' % len(ss)
    for i, s in enumerate(ss):
        t += ' v[%d] = "%s";\n' % (i, s)
    t += ' i = 0; while (i < %d) { printf("%%s,", v[i]); i++; } printf("%%s %%s %%s*n", a, b[0], b[1]); }' % len(ss)
    out.append(t)
    # pointers into other activations
    out.append('set(p, n) { if (n == 0) return; *p = n * 3; p[1] = *p + 1; set(p + 16, n - 1); }\n'
               'main() { auto v[20], i, w[2]; w[0] = 5; w[1] = 6; i = 0; while (i < 20) v[i++] = -i; set(v, 8); '
               'set(&v[17], 1); i = 0; while (i < 20) printf("%d ", v[i++]); printf("%d %d %d", i, w[0], w[1]); }')
    out.append('c; next() { extrn c; return (c++); }\nmain() { extrn c; auto i; i = 5; while (i--) printd(next()); c = 100; '
               'printd(next()); printd(c); }')
    out.append('f(a, n) { auto b; if (n) { b = a; f(a + 1, n - 1); printf("%d %d|", a, b); a = 99; } else return; }'
               ' main() { auto a; a = 5; f(a, 6); printd(a); }')
    for k in range(3):
        sizes = [rng.choice([1, 2, 3, 5, 17, 64]) for _ in range(8)]
        t = 'fill(v, n, x) { auto i; i = 0; while (i < n) v[i++] = x; }\nsum(v, n) { auto s; s = 0; while (n) s =+ v[--n]; return (s); }\n'
        gl = [i for i in range(8) if rng.random() < .5]
        for i in gl:
            t += 'v%d[%d]%s;\n' % (i, sizes[i], ' 1, 2, 3' if rng.random() < .3 else '')
        t += 'main() { %s auto %s;\n' % ('extrn %s;' % ', '.join('v%d' % i for i in gl) if gl else '',
                                         ', '.join(['z'] + ['v%d[%d]' % (i, sizes[i]) for i in range(8) if i not in gl]))
        order = list(range(8)) * 2
        rng.shuffle(order)
        for i in order:
            t += ' fill(v%d, %d, %d);\n' % (i, sizes[i], rng.randrange(1000))
            if rng.random() < .4:
                j = rng.choice([i, i, order[0]])
                t += ' printf("%%d ", sum(v%d, %d));\n' % (i, sizes[i])
        for i in sorted(set(order)):
            t += ' printf("%%d*n", sum(v%d, %d));\n' % (i, sizes[i])
        out.append(t + '}\n')
    return out


def run(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.scale(1, 6)):
        cases += [case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=400000) for t in fixed(rng)]
    for _ in range(ctx.scale(300, 4000)):
        t = program(rng)
        if rng.random() < .1:
            t = layout(tokens(t), rng, 'compact')
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])]))
    for t in grids.sizes(rng, ctx.scale(60, 700)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    for t in grids.vector_names(rng, ctx.scale(80, 1000)):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])], fuel=300000))
    cases += grids2.fam(rng, grids2.bigsizes(rng, ctx.scale(60, 600)), LEVELS, tag='big')
    cases += grids2.fam(rng, grids2.counts(rng, ['locals', 'localvecs', 'globals', 'gvecs', 'inits', 'strings', 'strlen', 'recursion'], per=ctx.scale(2, 20)), LEVELS, tag='counts')
    cases += grids2.fam(rng, grids3.aliases(rng, ctx.scale(60, 700)), LEVELS, tag='aliases')
    obs = lambda c: build_and_run(ctx, c, c['opts'])
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
