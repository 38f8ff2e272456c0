"""C09: malformed programs are rejected cleanly, well-formed ones accepted."""
from common import *
from gen import *
import c02, c03, c04, c05, c06, c07, c08
import grids2

EXPR = ['a', '1', '(', ')', '[', ']', '++', '-', '*', '&', '=', '==', '?', ':', ',', '!', '"s"', "'c'", '+', '|', '=+', 'f', '<', '>>', 'if', ';', '{', '%']
STMT = ['a', '1', ';', '{', '}', 'if', 'else', 'while', '(', ')', 'switch', 'case', ':', 'goto', 'return', 'auto', 'extrn', ',', '=', '[', ']', 'default', 'f', '"s"']
TOP = ['f', 'a', '1', '"s"', "'c'", '(', ')', '[', ']', '{', '}', ';', ',', '-', 'auto', 'return', 'extrn', '=', '*', 'if']
CONTEXTS = [
    ('expression', EXPR, 'g; f(p) ; main() { auto a; a = ', '; }'),
    ('expression statement', EXPR, 'f(p) ; main() { auto a; ', '; }'),
    ('statement', STMT, 'f(p) ; main() { auto a; ', ' }'),
    ('statement of a function', STMT, 'f(a) ', ' main() ;'),
    ('statement of a switch', STMT, 'f(p) ; main() { auto a; switch (a) { ', ' } }'),
    ('after if', STMT, 'f(p) ; main() { auto a; if (a) ', ' }'),
    ('definition', TOP, '', ''),
    ('second definition', TOP, 'f(a) return (a); g ', '; main() ;'),
    ('initial values', TOP, 'g[2] ', '; main() ;'),
    ('parameters', TOP, 'g(', ') ; main() ;'),
    ('arguments', EXPR, 'f(p) ; main() { auto a; f(', '); }'),
    ('index', EXPR, 'main() { auto a, f; f[', '] = 1; }'),
    ('condition', EXPR, 'f(p) ; main() { auto a; while (', ') a = 1; }'),
]

CH = [bytes([c]) for c in range(256)]


def grammar(ctx, rng):
    """Texts of the sequences of BGrammar in every context."""
    out = []
    for name, alphabet, before, after in CONTEXTS:
        depth = ctx.scale(3, 4) if alphabet is not TOP else ctx.scale(3, 4)
        alpha = alphabet
        if ctx.thorough and alphabet is not TOP:            # every token on several seeds, all short ones
            alpha = rng.sample(alphabet, 14) + [t for t in ('a', '(', ')', ';') if t in alphabet]
            alpha = sorted(set(alpha), key=alphabet.index)
        elif not ctx.thorough:
            alpha = sorted(set(rng.sample(alphabet, 15) + ['a', '1']), key=alphabet.index)
        d, text = ctx.tlc('BGrammar', 'BGrammar.cfg', heap='6g', young='2g',
                          data={'grammar.json': {'alphabet': [list(t.encode()) for t in alpha], 'before': list(before.encode()), 'after': list(after.encode())}},
                          cfgtext='SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n' % depth)
        seqs = [json.loads(json.loads(l)[4:]) for l in text.splitlines() if l.startswith('"SEQ ')]
        seqs.sort(key=json.dumps)
        shutil.rmtree(d, ignore_errors=True)
        ctx.extra['sequences: ' + name] = len(seqs)
        keep = ctx.scale(420, 6000)
        good = [s for s in seqs if s['v'] == 'ok' or len(s['s']) < 2]
        rest = [s for s in seqs if not (s['v'] == 'ok' or len(s['s']) < 2)]
        good = rng.sample(good, min(len(good), keep // 2))
        rest = rng.sample(rest, min(len(rest), keep - len(good)))
        for s in good + rest:
            toks = [alpha[i - 1] for i in s['s']]
            t = before.encode() + layout([x.encode() for x in toks], rng, rng.choice(['spaced', 'compact', 'random'])).strip(b'\n') + after.encode()
            out.append(case(t, tag=name + ': ' + ' '.join(toks), grammar=s['v'], pre=before))
    return out


JUNK = [b'', b';', b'(', b')', b'{', b'}', b'[', b']', b',', b'=', b'+', b'-', b'*', b'&', b'!', b'++', b'--', b'?', b':', b'1', b'0',
        b'x', b'if', b'else', b'while', b'switch', b'case', b'goto', b'return', b'auto', b'extrn', b'"s"', b"'c'", b'==', b'=+', b'<', b'|', b'%', b'/',
        b'default', b'main', b'$', b'@', b'#', b'\\', b'`', b'^', b'~', b'.', b'"', b"'", b'/*', b'*/', b'//', b'0x1', b'1.5', b'\x00', b'\x7f', b'\x01', b'a b', b'= =', b'&&', b'||', b'+=', b'->']


def mutate(rng, b):
    """A program with one mistake (or, at times, none)."""
    toks = tokens(b)
    n = len(toks)
    k = rng.random()
    if k < .15:
        i = rng.randrange(n); toks = toks[:i] + toks[i + 1:]
    elif k < .25:
        i = rng.randrange(n); toks = toks[:i] + [toks[i]] + toks[i:]
    elif k < .40:
        i = rng.randrange(n + 1); toks = toks[:i] + [rng.choice(JUNK)] + toks[i:]
    elif k < .55:
        i = rng.randrange(n); toks = toks[:i] + [rng.choice(JUNK)] + toks[i + 1:]
    elif k < .63:
        i = rng.randrange(n - 1); toks[i], toks[i + 1] = toks[i + 1], toks[i]
    elif k < .70:
        i = rng.randrange(n); toks = toks[:i]
    elif k < .75:
        i, j = sorted((rng.randrange(n), rng.randrange(n))); toks = toks[:i] + toks[j:]
    elif k < .80:
        i = rng.randrange(n); j = rng.randrange(n); toks[i] = toks[j]
    else:
        t = bytearray(b)
        i = rng.randrange(len(t))
        m = rng.random()
        if m < .4: t[i:i + 1] = rng.choice([b'', b'(', b')', b'{', b'}', b';', b'"', b"'", b'*', b'/', b'=', b' ', b'\n', b'0', b'a', rng.choice(CH)])
        elif m < .6: t[i:i] = rng.choice(CH)
        elif m < .8: t = t[:i]
        else: del t[i:i + rng.choice([1, 2, 3, 8])]
        return bytes(t)
    return layout(toks, rng, rng.choice(['spaced', 'lines', 'compact'])) if n else b''


def nested(rng, thorough):
    """Deep and long programs, well formed and not."""
    out = []
    for n in (1, 10, 60) + ((300,) if thorough else ()):
        e = '(' * n + '1' + ')' * n
        out += ['main() return (%s);' % e, 'main() return (%s;' % e, 'main() return (%s));' % e, 'main() { %s ; %s }' % ('{' * n, '}' * n),
                'main() { %s ; %s }' % ('{' * n, '}' * (n - 1)), 'main() { %s ; %s }' % ('{' * n, '}' * (n + 1)),
                'main() { auto a; a = %s 1; }' % ('-' + ' -' * n), 'main() { auto a; a = %s a; }' % ('!' * n), 'main() { auto a; a = %sa; }' % ('*' * n),
                'main() { auto a; a = %s1%s; }' % ('a[' * n, ']' * n), 'main() { auto a; a = %s1%s; }' % ('a[' * n, ']' * (n - 1)),
                'f(x) ; main() f(%s1%s);' % ('f(' * n, ')' * n), 'f(x) ; main() f(%s1%s);' % ('f(' * n, ')' * (n + 1)),
                'main() { auto a; %s ; }' % ('if (a) ' * n), 'main() { auto a; %s ; %s }' % ('if (a) ' * n, 'else ; ' * n),
                'main() { auto a; %s ; %s }' % ('if (a) ' * n, 'else ; ' * (n + 1)), 'main() { auto a; %s ; }' % ('while (a) ' * n),
                'main() { auto a; %s case 1: ; }' % ('switch (a) ' * n), 'main() { auto a; %s ; }' % 'l: m: n: o:', 'main() { auto a; a %s; }' % ('= a ' * n),
                'main() { auto a; a = %s 1; }' % ('a ? a : ' * n), 'main() { auto a; a = a %s; }' % ('+ a ' * n), 'main() { auto a; a = a %s; }' % ('+ a ' * n + '+'),
                'main() { %s }' % (';' * n), 'main() { auto %s; }' % ', '.join('a%d' % i for i in range(n)), 'f(%s) ; main() ;' % ', '.join('a%d' % i for i in range(n)),
                'f(%s,) ; main() ;' % ', '.join('a%d' % i for i in range(n)), 'v %s; main() ;' % ', '.join('%d' % i for i in range(n)), 'v %s,; main() ;' % ', '.join('%d' % i for i in range(n)),
                'main() ; ' + ' '.join('g%d %d;' % (i, i) for i in range(n)), 'main() { auto %s; %s = 1; }' % ('x' * n, 'x' * n), 'main() { auto %s; %s = 1; }' % ('x' * n, 'x' * (n + 1)),
                'main() return (%s);' % ('1' * min(n, 18)), 'main() return (0%s);' % ('0' * n), "main() { auto a; a = '%s'; }" % ('a' * n), 'main() printf("%s");' % ('a' * n),
                '/*' + '*' * n + '/ main() ;', '/*' + '/' * n + '*/ main() ;', '/*' + '*' * n + ' main() ;', 'main() ; /*' + ' ' * n, 'main() ; /*' + ' ' * n + '*', ' ' * n + 'main() ;' + '\n' * n]
    return out


def skeleton(rng, d=3):
    """A statement of every kind, most often without braces."""
    s = lambda: skeleton(rng, d - 1)
    e = lambda: rng.choice(['x', '1', 'y', 'f(x)', 'x + 1', '(x)', 'y[0]', '!x', 'x ? y : 1', '-1', 'x++', "'a'", 'x = y'])
    k = rng.randrange(14) if d > 0 else rng.randrange(5)
    if k == 0: return ';'
    if k == 1: return '%s;' % rng.choice(['x = %s', 'f(%s)', 'x++', 'y =+ %s', 'x = y = %s']).replace('%s', e())
    if k == 2: return rng.choice(['return;', 'return (%s);' % e(), 'return;'])
    if k == 3: return 'printf("a");'
    if k == 4: return 'x = %s;' % e()
    if k in (5, 6): return 'if (%s) %s' % (e(), s()) + (' else %s' % s() if rng.random() < .6 else '')
    if k in (7, 8): return 'while (%s) %s' % (e(), s())
    if k == 9: return '{ %s }' % ' '.join(s() for _ in range(rng.randrange(3)))
    if k == 13: return 'l%d: %s' % (rng.randrange(10 ** 6), s())
    h = rng.choice(['switch (%s)', 'switch %s']) % rng.choice(['x', 'y', 'x + 1', '(x)', 'f(x)'])
    if k == 10: return '%s case %d: %s' % (h, rng.randrange(9), s())
    cs = rng.sample(['case 1:', 'case 2:', "case 'a':", 'default:', 'case 010:'], rng.choice([1, 2, 3]))
    if 'default:' in cs:
        cs.remove('default:')
        cs.append('default:')
    return '%s { %s }' % (h, ' '.join('%s %s' % (c, ' '.join(s() for _ in range(rng.choice([1, 1, 2])))) for c in cs))


def cuts(rng, n):
    """Functions whose bodies are single statements, cut at every token, with a
    token left out, or with one doubled (n: how many functions)."""
    out = []
    for _ in range(n):
        kind = rng.randrange(4)
        f = 'f(x, y) %s' % skeleton(rng, rng.choice([1, 2, 2, 3]))
        t = [f, 'main() ; ' + f, 'g 1, 2; ' + f + ' main() ;', f + ' h[2] 1;'][kind]
        toks = tokens(t)
        out.append(t)
        first = len(tokens('g 1, 2; main()')) if kind else 0
        for i in range(max(0, len(toks) - 24), len(toks)):
            out.append(layout(toks[:i], rng, rng.choice(['spaced', 'compact', 'lines'])) if i else b'')
        for i in rng.sample(range(len(toks)), min(len(toks), 6)):
            out.append(layout(toks[:i] + toks[i + 1:], rng, 'spaced'))
        i = rng.randrange(len(toks))
        out.append(layout(toks[:i + 1] + toks[i:], rng, 'spaced'))
        out.append(layout(toks + [rng.choice([b'}', b';', b')', b'{', b'1', b'x'])], rng, 'spaced'))
    return out


RAW = [b'', b' ', b'\n', b'/**/', b'/*', b'/', b'*/', b'\x00', b'\xef\xbb\xbfmain() ;', b'\xff\xfe', b'main', b'main(', b'main()', b'main() ', b'main() ;\x00', b'main() ;\x1a', b'main() {',
       b'main() {}', b'main() {};', b'main() ; ;', b';', b'{}', b'()', b'main() ; }', b'main();', b'main()\r;\r', b'1', b'1;', b'"a";', b'a', b'a;', b'a ;', b'a 1', b'a 1;', b'a,b;', b'a 1 2;', b'a -;', b'a --1;', b'a +1;',
       b'a (1);', b'a 1,;', b'a ,1;', b'a[', b'a[]', b'a[];', b'a[1', b'a[1]', b'a[1];', b'a[-1];', b'a[b];', b'a[1+1];', b'a[1] 1', b'a[1] 1,2;', b'a[1],b;', b'a[1][2];', b'a b;', b'a = 1;', b'a[1] = 1;', b'auto a;', b'extrn a;',
       b'a[2] {1,2};', b'int main() ;', b'main() return 0;', b'main(void) { }', b'main() { int a; }', b'#include <stdio.h>', b'main() { for (;;) ; }', b'main() { do ; while (1); }', b'main() { break; }', b'main() { continue; }',
       b'main() { x; }', b'main() { x(); }', b'main() { 1; }', b'main() { ; }', b'main() { auto; }', b'main() { auto a,; }', b'main() { auto ,a; }', b'main() { auto a b; }', b'main() { auto a[; }', b'main() { auto a[]; }', b'main() { auto a[1; }',
       b'main() { auto a[1]; }', b'main() { auto a[b]; }', b'main() { auto a[-1]; }', b'main() { auto a = 1; }', b'main() { auto a 1; }', b'main() { auto a[1] 2; }', b"main() { auto a['c']; }", b"main() { auto a['*n']; a[9] = 1; }",
       b'main() { extrn; }', b'main() { extrn a,; }', b'main() { extrn a b; }', b'main() { extrn a[1]; }', b'main() { extrn 1; }', b'main() { extrn main; }', b'main() { goto; }', b'main() { goto 1; }', b'main() { goto a }', b'main() { goto a b; }',
       b'main() { a: }', b'main() { a: ; }', b'main() { a : ; }', b'main() { 1: ; }', b'main() { if: ; }', b'main() { case 1: ; }', b'main() { default: ; }', b'main() { switch 1 { case: ; } }', b'main() { switch 1 { case a: ; } }',
       b'main() { switch 1 { case 1 ; } }', b'main() { switch 1 { case 1: } }', b'main() { switch 1 { case 1: ; } }', b'main() { switch { case 1: ; } }', b'main() { switch (1) ; }', b'main() { switch (1) }', b'main() { if }',
       b'main() { if () ; }', b'main() { if 1 ; }', b'main() { if (1 ; }', b'main() { if (1) }', b'main() { if (1) else ; }', b'main() { if (1) ; else }', b'main() { else ; }', b'main() { if (1) ; ; else ; }', b'main() { while () ; }',
       b'main() { while 1 ; }', b'main() { while (1) }', b'main() { return 1; }', b'main() { return (1) }', b'main() { return () ; }', b'main() { return (1; }', b'main() { return }', b'main() { return; }', b'main() { return(1); }', b'main() { return (1)+1; }',
       b'f(1) ;', b'f(a b) ;', b'f(a,) ;', b'f(,a) ;', b'f(a;', b'f(a) b;', b'f(a) a;', b'f(a) a', b'f(a, a) ;', b'f(auto) ;', b'f(a[]) ;', b'f(f) ;', b'f(a) { } g', b'f(a) { } }', b'f(a) { } ; g() ;', b'f() f();', b'f(x) if (x) return; else f();']


def run(ctx):
    rng = ctx.rng
    cases = grammar(ctx, rng)
    ctx.log('%d grammar cases' % len(cases))
    bases = [b.encode() for b in c08.BASES] + [c08.BASES[3].encode(), c08.BASES[0].encode()]
    for _ in range(ctx.scale(30, 150)):
        p = rng.choice([lambda: c02.program(rng, 2), lambda: c04.program(rng), lambda: c07.program(rng), lambda: c05.Calls(rng).text(), lambda: c06.render(c06.random_history(rng), rng)])()
        bases.append(p if isinstance(p, bytes) else p.encode('latin1'))
    # every truncation of the short programs, mutations of all
    for b in bases[:10]:
        if len(b) < 900:
            at = range(len(b)) if ctx.thorough else rng.sample(range(len(b)), 40)
            for i in at:
                cases.append(case(b[:i], tag='cut'))
        toks = tokens(b)
        for i in (range(len(toks)) if ctx.thorough else rng.sample(range(len(toks)), min(len(toks), 50))):
            cases.append(case(b' '.join(toks[:i] + toks[i + 1:]), tag='without %s' % toks[i]))
    for _ in range(ctx.scale(2600, 30000)):
        cases.append(case(mutate(rng, rng.choice(bases)), tag='mutation'))
    for t in nested(rng, ctx.thorough):
        cases.append(case(t, tag='nested'))
    for t in cuts(rng, ctx.scale(70, 800)):
        cases.append(case(t, tag='cut or short of a token'))
    for t in grids2.counts(rng, per=ctx.scale(2, 12)):
        cases.append(case(t, tag='counts'))
    for t in RAW:
        cases.append(case(t, tag='raw'))
    for _ in range(ctx.scale(60, 2000)):
        cases.append(case(bytes(rng.choice(CH)[0] for _ in range(rng.choice([1, 3, 20, 200]))), tag='bytes'))
        cases.append(case(b' '.join(rng.choice(JUNK) for _ in range(rng.choice([2, 4, 9, 30]))), tag='junk'))
    for c in cases:
        c['run'] = False
        c['mode'] = rng.choice([None] * 30 + [['-S'], ['-c'], [], ['-O2'], ['-c', '-g'], ['--save-temps', '-c']])

    def observe(c):
        o = front(ctx, c)
        if c['mode'] is not None and not o[0]['ok']:
            o += rejected(ctx, c)
        return o
    observe_all(cases, observe)
    ctx.log('observed')
    ctx.check_cases(cases, observe)
    for c in cases:
        v = c.get('grammar')
        if v in ('ok', 'err') and c['result']['front'] != 'any':
            if v == 'err' and c['result']['front'] == 'ok':
                raise CheckError('BGrammar and BTranslate disagree on ' + c['tag'])
    ctx.extra['programs'] = len(cases)


def rejected(ctx, c):
    """A rejected file in another output form: everything stays as it was."""
    d = ctx.sub('r')
    try:
        files = {'u.b': bytes(c['units'][0]), 'out': SENTINEL, 'u': b'mine', 'u.o': b'mine too', 'u.s': b'and mine', 'u.tmp.ll': b'x', 'other': b'y'}
        for n, t in files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(t)
        named = len(c['tag']) % 2
        code, so, se = ctx.compile(c['mode'] + (['-o', 'out'] if named else []) + ['-L', ctx.lib, 'u.b'], d, timeout=10)
        after = {}
        for n in os.listdir(d):
            with open(os.path.join(d, n), 'rb') as f:
                after[n] = f.read()
        ok = clean_end(code, so, se) and code != 0 and after == files
        return [{'t': 'clean', 'ok': ok, 'tag': '%s: status %s, changed %s' % (' '.join(c['mode']), code, sorted(
            n for n in set(files) | set(after) if files.get(n) != after.get(n)))}]
    finally:
        shutil.rmtree(d, ignore_errors=True)
