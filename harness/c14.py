"""C14: what command lines mean."""
import itertools
from common import *
from driver import *
from c13 import BASE, USER, DIRS, MODES, A, B, A2, LL, LL2, AS, OO, AR, TXT, DOT, DEEP, BAD_, GONE, acceptable, std_dirs, make

BADS = ['--bogus', '-Z', '-x', '--emit', '--emit-llvm-ir', '-o', '-O', '-l', '-L', '--output', '--library', '--optimise=2', '-c=maybe',
        '--save-temps=perhaps', '--Version', '-j4', '--debugging', '-W', '--assemble=2', '-std', '--no-such=1']
LEVELS_BAD = ['4', '5', '9', '-1', 's', 'fast', 'z', '10', '2.0', 'O2', 'empty', '1 ', 'x1', '33']
ODD = [['', 'noext', ''], ['', 'up', '.B'], ['', 'c', '.c'], ['', 'tar', '.a.gz'], ['sub/', 'h', '.hs'], ['', 'dotted.b', '.txt'], ['', 'bb', '.bb'], ['', 'q', '.']]


def run(ctx):
    rng = ctx.rng
    build_fake(ctx)
    home = ctx.sub('home')
    os.makedirs(os.path.join(home, '.local', 'lib'))
    stds = {h: std_dirs(h) for h in (home, ctx.home)}
    files = BASE + [[p, ['file', 'odd%d' % i]] for i, p in enumerate(ODD)]
    user = files + [[p, ['file', 'u%d' % i]] for i, p in enumerate(USER)]
    scs = []

    def add(cmd, n=1, **kw):
        for _ in range(n):
            h = rng.choice([home, ctx.home])
            sc = {'cmds': [dict(cmd)], 'files': rng.choice([files, user]), 'dirs': DIRS, 'fails': [], 'full': False, 'tmp': True,
                  'std': stds[h], 'home': h}
            sc.update(kw)
            c = sc['cmds'][0]
            if rng.random() < .08: c['dot'] = True
            if rng.random() < .08: c['dashdash'] = True
            if rng.random() < .12: c['v'] = True
            if c['bad'] or acceptable(sc):
                sc['argv'] = render(rng, c) if c['any'] else []
                scs.append(sc)
    # every combination of the options without value
    flags = ['S', 'c', 'ir', 'save', 'g', 'help', 'version']
    for bits in itertools.product([False, True], repeat=len(flags)):
        kw = dict(zip(flags, bits))
        for ins in ([A], [B, LL], [LL], [AS], [OO], []):
            add(command(L=['rt'], **dict(kw, **{'in': ins})), n=ctx.scale(1, 4))
            if rng.random() < .5:
                add(command(L=['rt'], o=[['', 'out', '']], **dict(kw, **{'in': ins})))
    add(command(any=False), 2)
    # every kind of input in every form, alone and after another
    for mode in MODES:
        for p in [A, B, DOT, DEEP, LL, LL2, AS, OO, AR, TXT, GONE, BAD_] + ODD:
            for q in [None, A, LL, OO]:
                for o in ([], [['', 'out', '']]):
                    ins = [p] if q is None else [q, p]
                    add(make(mode, rng.random() < .3, o, ins))
                    if q:
                        add(make(mode, rng.random() < .3, o, [p, q]))
    # levels
    for mode in MODES:
        for lv in ['', '0', '1', '2', '3'] + LEVELS_BAD:
            for ins in ([A], [B, LL], [A, A2] if mode == 'exe' else [A, B], []):
                add(make(mode, False, [], ins, level=lv, g=rng.random() < .3))
    # options that are not understood, anywhere
    for b in BADS:
        for mode in MODES:
            add(make(mode, rng.random() < .3, rng.choice([[], [['', 'out', '']]]), rng.choice([[A], [A, B], [LL], []]), bad=True, bad_text=b,
                     level=rng.choice(['', '2'])), n=2)
    # anything
    for _ in range(ctx.scale(3600, 40000)):
        ins = [rng.choice([A, B, A2, DOT, LL, AS, OO, AR, DEEP]) if rng.random() < .93 else rng.choice([TXT, GONE, BAD_] + ODD)
               for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))]
        mode = rng.choice(MODES + ['exe'])
        o = rng.choice([[], [['', 'out', '']], [['sub/', 'out', '.x']], [['', 'out.v1', '.s']]]) if mode == 'exe' or len(ins) == 1 or rng.random() < .1 else []
        c = make(mode, rng.random() < .25, o, ins, level=rng.choice(['', '', '0', '1', '2', '3']), g=rng.random() < .3,
                 L=[rng.choice(['rt', 'sub', './lib', '/opt/x', 'a b', 'x=y', 'lib-1', '../up', '.', 'q.r']) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                 l=[rng.choice(['m', 'foo', 'foo2', 'x.y', 'c', 'bar-baz', 'z']) for _ in range(rng.choice([0, 0, 1, 2, 3]))])
        if rng.random() < .15:
            for f in ('S', 'c', 'ir'):
                c[f] = c[f] or rng.random() < .4
        add(c)
    check_scenarios(ctx, scs)
    verbose(ctx)
    libraries(ctx)
    ctx.extra['command lines'] = len(scs)
    ctx.assumptions += ['an option is not repeated, except -L and -l; names of directories and libraries hold no comma',
                        'the order of the standard library directories relative to those of -L is not judged']


def verbose(ctx):
    """-v tells what is done, and changes nothing else."""
    for mode in MODES:
        for ins in ([A], [LL]) if mode != 'll' else ([A],):
            sc = {'cmds': [make(mode, False, [], ins)], 'files': BASE, 'dirs': DIRS, 'fails': [], 'full': False, 'tmp': True, 'std': std_dirs(ctx.home)}
            argv = render(ctx.rng, sc['cmds'][0], plain=True)
            quiet = run_one(ctx, sc, argv)
            for flag in ('-v', '--verbose'):
                loud = run_one(ctx, sc, argv + [flag])
                ctx.count('verbose runs')
                if loud[0] != quiet[0] or loud[3] != quiet[3] or len(loud[1] + loud[2]) <= len(quiet[1] + quiet[2]):
                    ctx.violation('blang %s %s: status %s (without %s), output %r' % (' '.join(argv), flag, loud[0], quiet[0], loud[1][:200]),
                                  files={'argv': argv + [flag], 'files': sorted(loud[3]), 'quiet': sorted(quiet[3])})


def libraries(ctx):
    """-L, -l and the standard directories with the real linker: a program that
    needs a library is linked exactly when the library is named and its
    directory is known."""
    d = ctx.sub('lib')
    w = lambda n, t: open(os.path.join(d, n), 'wb').write(t)
    w('p.b', b'main() { printf("%d*n", one() * 10 + two()); }\n')
    w('one.b', b'one() { return (4); }\n')
    w('two.b', b'two() { return (2); }\n')
    w('wrong.b', b'one() { return (9); }\n')
    for x in ('l1', 'l2', 'l3', 'home/.local/lib', 'empty'):
        os.makedirs(os.path.join(d, x))
    for src, lib in (('one', 'l1/libone.a'), ('two', 'l2/libtwo.a'), ('two', 'home/.local/lib/libtwo.a'), ('wrong', 'l3/libone.a')):
        code, out, err = ctx.compile(['-c', '-o', 'x.o', src + '.b'], d)
        if code:
            raise CheckError('cannot compile a library')
        subprocess.run(['ar', 'rc', lib, 'x.o'], cwd=d, check=True)
    shutil.copy(os.path.join(ctx.lib, 'libb.a'), os.path.join(d, 'home/.local/lib/libb.a'))
    home = os.path.join(d, 'home')
    rt = ctx.lib
    tests = [(['-L', rt, '-L', 'l1', '-L', 'l2', '-l', 'one', '-l', 'two'], None, 42),
             (['-L' + rt, '-Ll1', '-Ll2', '-lone', '-ltwo'], None, 42),
             (['--library-dir', rt, '--library-dir=l2', '--library-dir=l1', '--library=two', '--library', 'one'], None, 42),
             (['-L', rt, '-L', 'l1', '-L', 'l2', '-l', 'one'], None, None),
             (['-L', rt, '-L', 'l1', '-l', 'one', '-l', 'two'], None, None),
             (['-L', 'l1', '-L', 'l2', '-l', 'one', '-l', 'two'], None, None),
             (['-L', 'l1', '-L', 'l2', '-l', 'one', '-l', 'two'], home, 42),
             (['-L', 'l1', '-l', 'one', '-l', 'two'], home, 42),
             (['-L', 'l3', '-L', 'l1', '-l', 'one', '-l', 'two'], home, 92),
             (['-L', 'l1', '-L', 'l3', '-l', 'one', '-l', 'two'], home, 42),
             (['-L', 'l1', '-l', 'one'], home, None),
             (['-L', 'none', '-L', 'empty', '-L', 'l1', '-l', 'one', '-l', 'two'], home, 42)]
    def go(t):
        args, h, want = t
        e = ctx.sub('lw')
        try:
            for i, order in enumerate((args + ['p.b', '-o', os.path.join(e, 'x')], ['p.b', '-o', os.path.join(e, 'x')] + args)):
                x = os.path.join(e, 'x')
                if os.path.exists(x): os.remove(x)
                code, out, err = ctx.compile(order, d, env=dict(ctx.env, HOME=h or ctx.home))
                if want is None:
                    if code == 0 or os.path.exists(x) or not err.strip():
                        return 'linked, although a library is missing' if code == 0 else 'no message, or an output'
                    continue
                if code != 0 or not os.path.exists(x):
                    return 'not linked: %r' % err[:200]
                code, out, err = run_cmd([x], e, ctx.env)
                if out != b'%d\n' % want:
                    return 'printed %r, wanted %d' % (out, want)
            return None
        finally:
            shutil.rmtree(e, ignore_errors=True)
    for t, why in zip(tests, pmap(go, tests)):
        ctx.count('links with libraries')
        if why:
            ctx.violation('blang %s p.b -o x (libraries in HOME: %s): %s' % (' '.join(t[0]), bool(t[1]), why),
                          files={'argv': t[0], 'home': bool(t[1]), 'difference': why})
