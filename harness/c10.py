"""C10: every accepted file translates in every output form."""
import itertools
from common import *
from gen import *
import c03, c06, c09, progs
import grids
import grids2
import grids3

LEVEL_OPTS = [[], ['-O0'], ['-O1'], ['-O2'], ['-O3'], ['-g'], ['-O2', '-g']]

# LLVM's own judgement of a unit, where it is installed
VERIFIER = shutil.which('llvm-as') or shutil.which('llvm-as-18')

# Names that mean something to the tools behind the compiler
NAMES = ['define', 'declare', 'i64', 'entry', 'label', 'br', 'ret', 'store', 'load', 'ptr', 'null', 'true', 'void', 'global', 'common', 'private', 'switch_', 'undef', 'target',
         'memset', 'memcpy', 'memmove', 'strlen', 'labs', 'llabs', 'abs', 'malloc', 'free', 'puts', 'putchar', 'bcmp', 'memcmp', 'sqrt', 'exp', 'pow', 'ffsl', 'isdigit', 'toascii',
         'rax', 'eax', 'rsp', 'st', 'al', 'r8', 'text', 'data', 'bss', 'section', 'globl', 'offset', 'byte', 'and', 'or', 'not', 'mod', 'eq', 'shl', 'int', 'char1', 'x', '_', '__', '_start1', 'a_b', 'B', 'b', 'L', 'Lfoo', 'str', 'strings', 'tmp', 'b1', 'llvm', 'printf1', 'main1', 'if_', 'b_printf']


def names(rng):
    out = []
    for n in NAMES:
        out += ['%s(a) return (a + 1);\nmain() { printd(%s(4)); }' % (n, n), '%s 5;\nmain() { extrn %s; printd(%s); %s = 3; return (%s); }' % ((n,) * 5),
                '%s[3] 1, 2;\nmain() { extrn %s; printd(%s[1]); }' % ((n,) * 3), 'main() { auto %s; %s = 7; printd(%s++); }' % ((n,) * 3),
                'f(%s) { return (%s * 2); }\nmain() { printd(f(3)); }' % (n, n), 'main() { auto i; i = 0; %s: i++; if (i < 3) goto %s; printd(i); }' % (n, n),
                'main() { auto %s[4]; %s[3] = 1; printd(%s[3]); }' % ((n,) * 3), 'main() { printd(%s(2, 3)); }\n%s(a, b) { return (a - b); }' % (n, n),
                'main() { extrn %s; printd(%s); }' % (n, n), 'f() { extrn %s; %s = 6; }\nmain() { extrn %s; f(); printd(%s); }\n%s;' % ((n,) * 5)]
    return out


# Loops an optimizer likes to turn into calls, big frames, odd control flow
FIXED = [
    'v[1000]; w[1000];\nclear(p, n) { auto i; i = 0; while (i < n) { p[i] = 0; i++; } }\nmain() { extrn v, w; auto i; clear(v, 1000); i = 0; while (i < 1000) w[i++] = 0; i = 0; while (i < 1000) { v[i] = w[i]; i++; } printd(v[999]); }',
    'copy(p, q, n) { auto i; i = 0; while (i < n) { p[i] = q[i]; i++; } }\nmain() { auto a[200], b[200], i; i = 0; while (i < 200) b[i++] = 5; copy(a, b, 200); printd(a[199]); }',
    'eq(p, q, n) { auto i; i = 0; while (i < n) { if (p[i] != q[i]) return (0); i++; } return (1); }\nlen(s) { auto n; n = 0; while (char(s, n)) n++; return (n); }\nmain() { auto a[30], b[30], i; i = 0; while (i < 30) { a[i] = b[i] = -1; i++; } printd(eq(a, b, 30)); printd(len("hello")); }',
    'fill(p, n) { auto i; i = 0; while (i < n) lchar(p, i++, 65); }\nmain() { auto a[30]; fill(a, 239); lchar(a, 239, 0); printf("%s*n", a); }',
    'main() { auto a[100], i, s; i = 100; while (i--) a[i] = 0; i = 0; s = 0; while (i < 100) s =+ a[i++]; printd(s); }',
    'main() { auto i; i = 0; while (1) { if (i == 3) return (i); i++; } }', 'main() { while (1) return (4); }', 'main() { a: goto b; b: return (2); goto a; }',
    'main() { return (1); a: b: c: return (2); goto a; goto b; goto c; }', 'main() { goto e; while (0) { e: return (3); } }', 'main() { if (1) return (1); else return (2); return (3); }',
    'main() { { { return (1); } return (2); } return (3); }', 'main() { switch (1) { } }', 'main() { switch (1) { ; } }', 'main() { switch (1) { printd(1); } }', 'main() { switch (1) { case 1: return (5); } return (6); }',
    'main() { switch (1) { return (5); case 1: return (7); } }', 'main() { switch (1) { case 1: goto x; case 2: x: return (8); } }', 'main() { switch (2) { case 1: while (0) case1: ; goto case1; } return (1); }',
    'main() { auto x; x = 2; switch (x) { case 0: switch (x) { case 0: ; } case 2: switch (x) { case 2: printd(1); default: printd(2); } } }', 'main() { goto l; { auto a; l: a = 1; printd(a); } }',
    'main() { while (return1()) ; return (1); } return1() return (0);', 'main() { auto x; x = (1 ? 2 : 3) + (0 ? 4 : (1 ? 5 : 6)); return (x); }', 'main() return (1 ? 2 : 3);', 'main() if (1) return (1);', 'main() while (0) ;',
    'main() goto l;', 'main() l: ;', 'main() l: return (1);', 'main() { l: goto l2; l2: ; }', 'f() goto f; main() ;', 'f() f: return; main() f();', 'main() auto x;', 'main() extrn x;', 'main() { return; return; return (1); ; ; { } }',
    'main() { if (0) ; else ; if (0) { } else { } while (0) { } }', 'main() { if (1) { return (1); } else { goto q; } q: return (2); }', 'main() { x: y: z: ; }', 'main() { while (1) { while (1) { goto out; } } out: ; }',
    'a; b 1; c "x"; d[2]; e[]; f[2] 1; g 1, 2; main() ;', 'f(a) ; g(a, b, c, d, e, h, i, j, k, l) return (l); main() printd(g(1,2,3,4,5,6,7,8,9,10));', 'main() { auto a; a = f; a(1); (a)(2); } f(x) printd(x);',
    'main() { auto a, b; a = &b; *a = 5; **&a = 6; (*a)++; printd(b); }', 'main() { printd(-9223372036854775807 - 1); }', 'main() { "abc"; 1; main; &*"abc"; }', 'main() { auto v[0]; v[0] = 1; printd(v[0]); }', 'v[0]; main() { extrn v; v[0] = 1; printd(v[0]); }',
    'main() { auto x; x = 1; x = x = x = x; x =+ x =+ x; printd(x); }', 'f() return (0); main() { f() ? f() : f(); f() | f(); !f(); -f(); }', 'main() { auto a[2], b; b = a; b[0] = a[1] = 3; printd(b[1]); }',
]


def forms(ctx, c, levels):
    """Every output form of every file, and the executable."""
    d = ctx.sub('q')
    obs = []
    try:
        names_ = []
        for i, u in enumerate(c['units']):
            with open(os.path.join(d, 'u%d.b' % i), 'wb') as f:
                f.write(bytes(u))
            names_.append('u%d.b' % i)
            code, so, se = ctx.compile(['--emit-llvm', '-o', 'u%d.ll' % i, 'u%d.b' % i], d)
            obs.append({'t': 'unit', 'i': i + 1, 'ok': code == 0, 'tag': 'ir'})
            if not clean_end(code, so, se):
                obs.append({'t': 'clean', 'ok': False, 'tag': 'ir'})
            if code == 0 and VERIFIER:
                # the back end compiles some invalid units without noticing
                vc, _, _ = run_cmd([VERIFIER, '-o', os.devnull, 'u%d.ll' % i], d, ctx.env, timeout=30)
                obs.append({'t': 'unit', 'i': i + 1, 'ok': vc == 0, 'tag': 'verifier'})
            for mode, opts in levels:
                if mode == 'exe':
                    continue
                out = 'o'
                code, so, se = ctx.compile([mode] + opts + ['-o', out, 'u%d.b' % i], d)
                ok = code == 0 and os.path.exists(os.path.join(d, out))
                obs.append({'t': 'unit', 'i': i + 1, 'ok': ok, 'tag': ' '.join([mode] + opts)})
                if not clean_end(code, so, se) or (code == 0) != ok:
                    obs.append({'t': 'clean', 'ok': False, 'tag': ' '.join([mode] + opts)})
                if os.path.exists(os.path.join(d, out)):
                    os.remove(os.path.join(d, out))
        for mode, opts in levels:
            if mode == 'exe':
                code, so, se = ctx.compile(opts + ['-L', ctx.lib, '-o', 'x'] + names_, d)
                obs.append({'t': 'link', 'ok': code == 0 and os.path.exists(os.path.join(d, 'x')), 'tag': ' '.join(opts)})
                if os.path.exists(os.path.join(d, 'x')):
                    os.remove(os.path.join(d, 'x'))
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    rng = ctx.rng
    cases = []
    for t in FIXED:
        cases.append(case(t, tag='fixed', full=True))
    ns = names(rng)
    for t in ns if ctx.thorough else rng.sample(ns, 160):
        cases.append(case(t, tag='names'))
    # all control skeletons, without the code that drives them
    d, _ = ctx.tlc('BFlow', 'BFlow.cfg', cfgtext='SPECIFICATION Spec\nCONSTANT MaxSize = 4\nCHECK_DEADLOCK FALSE\n', heap='4g', young='1g')
    trees = []
    for n in range(1, 5):
        with open(os.path.join(d, 'out', '%d.json' % n)) as f:
            trees += sorted(json.load(f), key=json.dumps)
    ctx.extra['trees'] = len(trees)
    rng.shuffle(trees)
    for i in range(0, len(trees), 8 if not ctx.thorough else 3):
        t = c03.HEAD
        for j, tree in enumerate(trees[i:i + (8 if not ctx.thorough else 3)]):
            t += 'f%d() { %s }\n' % (j, c03.Render(rng, 'f%d' % j).body(tree)) if rng.random() < .7 else 'f%d() %s\n' % (j, c03.Render(rng, 'f%d' % j).body(tree))
        cases.append(case(t + 'main() ;\n', tag='trees'))
    lab = [b for n in (1, 2, 3, 4) for b in c06.label_bodies(n)]
    for b in rng.sample(lab, ctx.scale(150, 2500)):
        cases.append(case('f(x) { %s }\nmain() ;\n' % ' '.join(b), tag='labels'))
    for g in c09.grammar(ctx, rng):
        if g['grammar'] == 'ok' and (ctx.thorough or rng.random() < .25):
            g['tag'] = 'grammar'
            cases.append(g)
    for _ in range(ctx.scale(90, 1200)):
        t, inp = progs.any_program(rng)
        cases.append(case(t, tag='any'))
    for t in (grids.contexts(rng, ctx.scale(1300, 8000)) + grids.vector_names(rng, ctx.scale(12, 150)) + grids.wraps(rng, ctx.scale(30, 300))
              + grids.callshapes(rng, ctx.scale(24, 300)) + grids.sizes(rng, ctx.scale(6, 60)) + grids.bigflow(rng, ctx.scale(8, 80))):
        cases.append(case(t, tag='families'))
    for t in (grids2.derived(rng, ctx.scale(30, 500)) + grids2.derived_all(rng) + grids2.libnames(rng, ctx.scale(30, 300)) + grids2.order(rng, ctx.scale(16, 200), core=False) + grids2.purity(rng, ctx.scale(12, 150))
              + grids2.longnames(rng, ctx.scale(20, 200)) + grids2.counts(rng, per=ctx.scale(0, 8)) + grids2.bigsizes(rng, ctx.scale(6, 60))
              + grids3.literals(rng, ctx.scale(150, 2000)) + grids3.pairs(rng, ctx.scale(150, 2000)) + grids3.aliases(rng, ctx.scale(8, 100)) + grids3.effects(rng, ctx.scale(120, 1500)) + grids3.scopes(rng, ctx.scale(40, 400)) + grids3.longtokens(rng, ctx.scale(10, 200)) + grids3.forever(rng, ctx.scale(12, 100))):
        cases.append(case(*(t if isinstance(t, tuple) else (t,)), ordered=True, tag='families'))
    all_levels = [(m, o) for m in ('-S', '-c', 'exe') for o in LEVEL_OPTS]
    for c in cases:
        c['run'] = False
        few = [('-c', []), rng.choice([('exe', []), ('-S', [])]), ('exe', rng.choice(LEVEL_OPTS[2:5])), (rng.choice(['-S', '-c']), rng.choice(LEVEL_OPTS[2:]))]
        c['levels'] = all_levels if (c.get('full') or ctx.thorough and rng.random() < .3) else few
        # (what is linked is judged when the calls of undefined functions are known to be reached)
        c['run'] = True
        c['fuel'] = 3000
    ctx.log('%d programs' % len(cases))

    def observe(c):
        o = forms(ctx, c, c['levels'])
        return o
    observe_all(cases, observe)
    ctx.log('observed')
    ctx.check_cases(cases, observe)
    ctx.extra['programs'] = len(cases)
    ctx.extra['translations'] = sum(len([o for o in c['obs'] if o['t'] != 'clean']) for c in cases)
