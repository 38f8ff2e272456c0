"""C08: white space and comments."""
import hashlib, itertools
from common import *
from gen import *
from c01 import LEVELS
import grids2
import grids3
import c02, c03, c04, c05, c06, c07

# Programs that put every token next to every neighbour the grammar allows
BASES = [
'''v 1; w -2; x 'ab'; y "s*"t"; vec[3]; vec2[2] 1, -1, 'c'; vec3[] 1, 2; e[0];
a; b 1, 2, 3;
main() { extrn v, w; auto p, q[2], r, s[1]; extrn vec; p = v; q[0] = w; r = 1; printf("%d %d %d*n", p, q[0], vec[1]);
 return (r); }
''',
'''f(a, b) { return (a + b * 2); } g() return (7); h(x) x = 1; k() ; m(a) { ; } n() { return; }
main() { auto p; p = f; printd(f(1, 2)); writeb(10); printd(p(3, 4)); writeb(10); h(1); k(); m(2); n(); return (g()); }
''',
'''main() { auto i, j; i = 0; lab: while (i < 3) { j = 0; again: if (j == 2) goto done; j++; goto again; done: i =+ 1; printd(i*10+j); writeb(32); }
 if (i == 3) if (j == 1) writeb('a'); else writeb('b'); else { writeb('c'); }
 if (!i) ; else ; while (i--) ; end: ; }
''',
'''main() { auto i; i = 0; while (i < 7) { switch (i) { case 0: writeb('z'); case 1: writeb('o'); goto out;
 case '*n': case 017: ; case 3: { writeb('t'); } default: writeb('d'); case 5: return1(i); } out: i++; } switch i case 7: writeb('e');
 writeb(10); } return1(x) { if (x > 5) return; writeb('r'); return (x ? 1 : 0); }
''',
'''main() { auto a, b, c, d[4]; a = 1; b = 2; c = a = b; a =+ b; b =- a; c =* 3; c =/ 2; c =% 5; a =& 7; a =| 8; a =<< 2; a =>> 1;
 b =< 1; b =<= 2; b => 1; b =>= 0; b === 1; b =!= 3; printf("%d %d %d*n", a, b, c);
 d[0] = -a; d[1] = !b; d[2] = - -c; d[3] = -(-a); d[a - a] = ++a + b++; d[1] = --a - b--; d[2] = *&a; *d = **&d; ++*(&d[1]); ++*d; --d[1]; d[2]++;
 printf("%d %d %d %d %d %d*n", d[0], d[1], d[2], d[3], a, b); }
''',
'''main() { auto a, b; a = 5; b = 3; printd(a+b-a*b/b%b); writeb(10); printd(a<<b>>1); printd(a<b); printd(a>b); printd(a<=b); printd(a>=b);
 printd(a==b); printd(a!=b); printd(a&b); printd(a|b); printd(a&b|a==b); printd(!a==b); printd(a?b:a?b:a); printd((a)?(b):(a)); printd(-a*-b); printd(a- -b);
 printd(a&!b); printd(a|!b); printd(*&a/ *&b); printd(a = b); printd(a=b); writeb(10); }
''',
'''main() { auto v[5], p, i; p = v; i = 1; v[0] = 'a'; v[i] = 'b*'c'; v[i+1] = "q*"r"; p[3] = p[0] + p[1]; v[4] = 2; p[v[4]] = "q*"r"; (p + 8)[0] =+ 1; writeb(p[0]);
 printf("%s %d %d*n", p[2], p[1], v[3]); printf("a*tb%%*n"); writeb(char("xyz", 1)); lchar(p, 2, 'W'); writeb(char(p, 2)); writeb(10); return (v[0] & 63); }
''',
'''/**/main/**/(/**/)/**/{/* auto x; */auto/* */x/**/;/***/x/**/=/**/1/**/;/****/x/* y */=+/*z*/2/**/;printd(/*'*/x/*"*/)/**/;/* * / */}/*/*/
''',
'''elsewhere; autos 3; ifx 4; returned 5; whilex 6; gotox 7; casex 8; switchx 9; extrns 10; defaultx 11; else_ 12; _if 13; if1 14;
main() { extrn elsewhere, autos, ifx, returned, whilex, gotox, casex, switchx, extrns, else_, _if, if1; elsewhere = 1;
 if (elsewhere) else_ = 20; else else_ = 21; if (autos == 1) ifx = 1; else ifx = 2; returned = 1; whilex++; gotox = casex; switchx--; extrns =+ 1; _if = if1;
 printf("%d %d %d %d %d %d %d %d %d %d*n", elsewhere, ifx, returned, whilex, gotox, casex, switchx, extrns, else_, _if); }
''',
'''main() { auto f, g; f = twice; g = twice; printd(f(g(2))); printd((f)(3)); printd((f ? f : g)(4)); printd(f(f(f(1)))); { { auto z; z = 1; ; } } { } ; ;
 if (f) { } else { } while (0) { } lbl: lbl2: { lbl3: ; } writeb('*0'); writeb('**'); writeb('*''); writeb('"'); return (0); } twice(x) { return (x * 2); }
''',
]

# No program: the same must stay rejected
REJECTED = ['main( { }', 'main() { x = 1; }', 'main() { auto a; a = ; }', 'main() { if () ; }', 'f(a,) ;', 'x 1 2;', 'main() { goto l; }',
            "main() { auto a; a = 'abc; }", 'main() { case 1: ; }', 'main() { auto a a; }', 'v[2', 'main() { 1 = 2; }']

GAPS = [b' ', b'\n', b'\t', b'/**/', b'\r\n', b'/***/', b'\v', b'\f', b'/* */', b'\r', b' /**/ ', b'/**//**/', b'\n\n',
        b'/* a\n*b */', b'/*/*/', b'/****/', b'/*"*/', b"/*'*/", b'/*;*/', b'/*}*/', b'/*//*/', b'\n/*x*/', b'/*x*/\n', b'/* / */',
        b'/***//***/', b'/* **/', b'  ', b'\t\n ']


def gaps_of(text):
    """Tokens and gaps (one more than tokens) of a program."""
    toks = tokens(text)
    out, pos, gs = [], 0, []
    b = text if isinstance(text, bytes) else text.encode('latin1')
    for t in TOK.findall(b):
        if t.isspace() or t.startswith(b'/*'):
            gs.append(t)
        else:
            out.append((b''.join(gs), t))
            gs = []
    return out, b''.join(gs)


def compile_unit(ctx, text, keep=False):
    """(accepted, digest of the translation, clean)"""
    d = os.path.join(ctx.tmp, 'p%d' % os.getpid())
    if not os.path.isdir(d):
        os.mkdir(d)
    src, out = os.path.join(d, 'u.b'), os.path.join(d, 'u.ll')
    if os.path.exists(out):
        os.remove(out)
    with open(src, 'wb') as f:
        f.write(text)
    code, so, se = ctx.compile(['--emit-llvm', '-o', out, src], d, timeout=10)
    dig = ''
    if code == 0 and os.path.exists(out):
        with open(out, 'rb') as f:
            dig = hashlib.sha1(f.read()).hexdigest()
    return code == 0, dig, clean_end(code, so, se)


def run(ctx):
    rng = ctx.rng
    # the specification of layout by itself
    texts = sorted({t for b in BASES for t in tokens(b) if not (t[:1].isalnum() or t[:1] in b'_\'"')} | {o.encode() for o in BIN + ASG} |
                   {b'"*""', b"'*''", b'"/**"', b'"x"', b"'ab'", b'0', b'017', b'9', b'a', b'_b1', b'if', b'else', b'auto', b'extrn',
                    b'goto', b'switch', b'case', b'while', b'return', b'ifx', b'Z'})
    texts = [list(t) for t in texts]
    d, text = ctx.tlc('BLayout', 'BLayoutPairs.cfg', heap='4g', young='1g',
                      data={'texts.json': texts, 'gaps.json': [list(g) for g in GAPS], 'layouts.json': {'bases': [], 'variants': []}},
                      cfgtext='SPECIFICATION SpecPairs\nINVARIANTS Single Neutral Munch\nCHECK_DEADLOCK FALSE\n')
    ctx.extra['pairs of token shapes in the model'] = len(texts) ** 2
    ctx.log('pairs model')

    bases = [b.encode('latin1') for b in BASES + REJECTED]
    for f in ('fibonacci.b', 'fizzbuzz.b', 'hello.b', 'helloworld.b', 'e-2.b', 'showcase.b'):
        p = os.path.join(REPO, 'examples', f)
        if os.path.exists(p):
            with open(p, 'rb') as g:
                bases.append(g.read())
    nfix = len(bases)
    for _ in range(ctx.scale(14, 120)):
        k = rng.randrange(5)
        if k == 0: p = c02.program(rng, 3)
        elif k == 1: p = c04.program(rng)
        elif k == 2: p = c07.program(rng)
        elif k == 3: p = render_any(rng)
        else: p = c06.render(c06.random_history(rng), rng)
        p = p['units'][0] if isinstance(p, dict) else p
        p = p if isinstance(p, bytes) else p.encode('latin1')
        bases.append(p)

    def one_gap(pieces, tail, i, g):
        out = b''.join((g if j == i else gap) + t for j, (gap, t) in enumerate(pieces))
        return out + (g if i == len(pieces) else tail)
    variants, canonical = [], []
    for bi, b in enumerate(bases):
        pieces, tail = gaps_of(b)
        toks = [t for _, t in pieces]
        canon = [(b'' if i == 0 else b' ', t) for i, t in enumerate(toks)]
        n = len(toks)
        # every gap of the fixed programs, in turn, with several separators
        if bi < nfix:
            per = ctx.scale(5, len(GAPS)) if n < 400 else ctx.scale(1, 6)
        else:
            per = ctx.scale(1, 4)
        idx = list(range(n + 1))
        if n > 500 and not ctx.thorough:
            idx = rng.sample(idx, 250)
        tight = [b'' if i == 0 or not glued(toks[i - 1], toks[i]) else b' ' for i in range(n)]
        tightp = list(zip(tight, toks))
        canonical.append([b''.join(g + t for g, t in tightp) + tail, b''.join(g + t for g, t in canon)])
        for i in idx:
            for g in (rng.sample(GAPS, per) if per < len(GAPS) else GAPS):
                g = safe(g, toks, i)
                variants.append((bi, one_gap(pieces if rng.random() < .3 else tightp, tail, i, g)))
            if i and i < n and not glued(toks[i - 1], toks[i]):
                variants.append((bi, one_gap(pieces, tail, i, b'')))
                variants.append((bi, one_gap(canon, b'', i, b'')))
        # whole layouts
        for style in ('compact', 'spaced', 'lines', 'comments', 'tight-comments', 'random', 'random', 'random') * ctx.scale(1, 5):
            variants.append((bi, layout(toks, rng, style)))
        # two tokens joined: another program, most often not a program
        for i in rng.sample(range(1, n), min(n - 1, ctx.scale(4, 30))):
            if glued(toks[i - 1], toks[i]):
                variants.append((bi, one_gap(canon, b'', i, b'')))
    ctx.extra['base programs'] = len(bases)
    ctx.extra['layouts'] = len(variants)
    ctx.log('%d variants' % len(variants))
    rb = pmap(lambda t: compile_unit(ctx, t), bases)
    rv = pmap(lambda v: compile_unit(ctx, v[1]), variants)
    ctx.log('compiled')
    for (bi, t), r in zip(variants, rv):
        if not r[2]:
            ctx.violation('the compiler did not end cleanly', case(t, obs=[]))
    todo = []
    for k in range(0, len(variants), 20000):
        part = list(zip(variants, rv))[k:k + 20000]
        # variants as edits of a base or of its canonical layouts
        forms, of = [], {}
        for i, b in enumerate(bases):
            of[i] = []
            for t in [b] + canonical[i]:
                of[i].append(len(forms))
                forms.append({'text': list(t), 'ok': rb[i][0], 'ir': rb[i][1]})
        vs = []
        for v, r in part:
            best = None
            for k2, t in zip(of[v[0]], [bases[v[0]]] + canonical[v[0]]):
                e = edit(t, v[1])
                if best is None or len(e[2]) < len(best[3]):
                    best = (k2 + 1,) + e
            vs.append({'base': best[0], 'from': best[1], 'to': best[2], 'ins': list(best[3]), 'ok': r[0], 'ir': r[1]})
        data = {'bases': forms, 'variants': vs}
        d, text = ctx.tlc('BLayout', 'BLayoutCases.cfg', data={'layouts.json': data, 'texts.json': [], 'gaps.json': []},
                          cfgtext='SPECIFICATION SpecCases\nCHECK_DEADLOCK FALSE\n')
        shutil.rmtree(d, ignore_errors=True)
        for m in re.finditer(r'"LAYOUT (\d+) (\w+)"', text):
            todo.append((k + int(m.group(1)) - 1, m.group(2)))
        ctx.count('layouts with the tokens of the base', len(part) - text.count(' new"'))
    ctx.validated += len(variants) - len(todo)
    ctx.log('judged layouts')
    cases = [case(b, tag='base %d' % i, fuel=300000) for i, b in enumerate(bases)]
    for i, why in todo:
        bi, t = variants[i]
        if why == 'verdict':
            ok2 = compile_unit(ctx, t)[0]
            if ok2 != rb[bi][0]:
                ctx.violation('layout changes acceptance: the base is %s, this layout of the same tokens is not' %
                              ('accepted' if rb[bi][0] else 'rejected'), case(t, bases[bi], obs=[]))
        else:
            ctx.count('layouts run' if why == 'run' else 'layouts that are other programs')
            cases.append(case(t, tag='%s of %d' % (why, bi)))

    # maximal munch: every string of operator characters between two operands
    ops = [''.join(o) for k in (1, 2, 3) for o in itertools.product('=!<>+-*/%&|', repeat=k)]
    ops += ['*/' .join(['', ''])] + ['=' + o for o in ops if len(o) == 3]
    if not ctx.thorough:
        ops = [o for o in ops if len(o) < 3] + rng.sample([o for o in ops if len(o) > 2], 700)
    for o in ops:
        b, init = rng.choice([('b', 'b = %d;' % rng.choice([1, 2, 3, -1, 5, 0, 7])), ('b', 'b = &c;'), ('b', 'b = 3;')])
        form = rng.choice(['x = a%sb;', 'x = (a%sb);', 'a%sb;', 'x = a %s b;', 'v[1]%sb;', 'x = 1%s2;', 'printd(a%s(b));', "x = a%s'c'*/;"[:-3] + ';'])
        cases.append(case('main() { auto a, b, c, x, v[2]; a = %d; %s c = 9; x = 77; v[1] = 4; %s printf("%%d %%d %%d %%d*n", a, x, c, v[1]); }' % (
            rng.choice([1, 2, 6, -4, 9]), init, form % o), tag='munch ' + o))
    ctx.extra['operator strings'] = len(ops)
    for t in grids2.positions(rng, ctx.scale(54, 700)) + grids2.counts(rng, ['comment'], per=ctx.scale(3, 20)) + grids3.longtokens(rng, ctx.scale(40, 900)):
        cases.append(case(t, tag='positions', fuel=300000))

    def observe(c):
        o = front(ctx, c)
        if o[0]['ok']:
            o += build_and_run(ctx, c, [()], timeout=6)
        return o
    observe_all(cases, observe)
    ctx.log('observed')
    ctx.check_cases(cases, observe)


def render_any(rng):
    return c05.Calls(rng).text()


def edit(a, b):
    """b as an edit of a: (from, to, bytes in between)"""
    n = min(len(a), len(b))
    i = next((k for k in range(n) if a[k] != b[k]), n) if a[:n] != b[:n] else n
    j = 0
    while j < n - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]:
        j += 1
    return i, len(a) - j, b[i:len(b) - j]


def safe(g, toks, i):
    """A gap that does not form a comment with the token before it."""
    if 0 < i and toks[i - 1] in (b'/', b'=/') and g[:1] == b'/':
        return b' ' + g
    return g
