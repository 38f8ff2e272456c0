"""C12: programs of several files."""
import itertools
from common import *
from gen import *
import progs

LV = ['-O0', '-O1', '-O2', '-O3']


def make(ctx, d, name, form, lv):
    """Turn name.b into the given form; the path for the command line or None."""
    if form == 'b':
        return name + '.b'
    if form == 'll':
        cmds = [['--emit-llvm', '-o', name + '.ll', name + '.b']]
    elif form == 's':
        cmds = [['-S', lv, '-o', name + '.s', name + '.b']]
    elif form == 'o':
        cmds = [['-c', lv, '-o', name + '.o', name + '.b']]
    elif form == 'lo':
        cmds = [['--emit-llvm', '-o', name + '.ll', name + '.b'], ['-c', lv, '-o', name + '.o', name + '.ll']]
    else:                                   # 'so', 'a'
        cmds = [['-S', lv, '-o', name + '.s', name + '.b'], ['-c', '-o', name + '.o', name + '.s']]
    for c in cmds:
        code, so, se = ctx.compile(c, d)
        if code != 0 or not clean_end(code, so, se):
            return None
    if form == 'a':
        subprocess.run(['ar', 'cr', name + '.a', name + '.o'], cwd=d, check=True)
        return name + '.a'
    return name + ('.' + form[-1] if form != 'll' else '.ll')


def link_forms(ctx, c, configs):
    """Build from the files in given forms and orders, and run."""
    d = ctx.sub('l')
    obs = []
    try:
        with open(os.path.join(d, 'input'), 'wb') as f:
            f.write(bytes(c.get('input', b'')))
        for k, cfg in enumerate(configs):
            sub = os.path.join(d, 'k%d' % k)
            os.mkdir(sub)
            names = cfg['names']
            for i, u in enumerate(c['units']):
                os.makedirs(os.path.dirname(os.path.join(sub, names[i])) or sub, exist_ok=True)
                with open(os.path.join(sub, names[i] + '.b'), 'wb') as f:
                    f.write(bytes(u))
            tag = ' '.join('%s.%s' % (names[i], cfg['forms'][i]) for i in cfg['order']) + ' ' + cfg['level']
            args, ok = [], True
            for i in cfg['order']:
                p = make(ctx, sub, names[i], cfg['forms'][i], cfg['level'])
                ok = ok and p is not None
                args.append(p)
            if ok:
                if cfg.get('bundle'):       # all archived files in one archive
                    objs = [a[:-2] + '.o' for a in args if a.endswith('.a')]
                    args = [a for a in args if not a.endswith('.a')]
                    if objs:
                        subprocess.run(['ar', 'cr', 'all.a'] + objs, cwd=sub, check=True)
                        args.append('all.a')
                opts = [cfg['level'], '-L', ctx.lib, '-o', 'x.out']
                at = cfg['at'] % (len(args) + 1)
                code, so, se = ctx.compile(args[:at] + opts + args[at:], sub)
                if not clean_end(code, so, se):
                    obs.append({'t': 'clean', 'ok': False, 'tag': tag})
                ok = code == 0 and os.path.exists(os.path.join(sub, 'x.out'))
            obs.append({'t': 'link', 'ok': ok, 'tag': tag})
            if ok and not c.get('norun'):
                obs += run_exe(ctx, os.path.join(sub, 'x.out'), d, tag, timeout=8)
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def config(rng, units, archives=True, plain=False):
    """Forms, names and order of the files; archives come last."""
    n = len(units)
    order = list(range(n))
    rng.shuffle(order)
    level = rng.choice(LV)
    if plain:
        forms = ['b'] * n
    else:
        forms = [rng.choice(['b', 'b', 'll', 's', 'o', 'lo', 'so'] + (['a', 'a'] if archives else [])) for _ in range(n)]
    main = [i for i, u in enumerate(units) if b'main' in bytes(u)]
    for i in main:                          # the start of the program is linked first
        if forms[i] == 'a':
            forms[i] = 'o'
    arch = [i for i in order if forms[i] == 'a']
    rest = [i for i in order if forms[i] != 'a']
    bundle = len(arch) > 1                  # members of one archive find each other
    k = rng.random()
    if k < .4: names = ['u%d' % i for i in range(n)]
    elif k < .6: names = ['d%d/same' % i for i in range(n)]
    elif k < .8: names = [chr(ord('z') - i) for i in range(n)]
    else: names = ['p.%d' % i for i in range(n)]
    return {'order': rest + arch, 'forms': forms, 'names': names, 'level': level, 'bundle': bundle, 'at': rng.randrange(9)}


# -- what two or three files may say about one name --------------------------

ITEMS = {
    'none': '', 'var': 'a 7;', 'tent': 'f@() { extrn a; } ', 'vec': 'a[3] 5, 6;', 'fun': 'a() return (65);', 'str': 'a "str";', 'list': 'a 1, 2, 3;', 'zero': 'a;',
    'read': 'f@() { extrn a; printd(a ? 1 : 0); }', 'write': 'f@() { extrn a; a = @; printd(a); }', 'inc': 'f@() { extrn a; a =+ 10; printd(a); }', 'call': 'f@() { printd(a()); }', 'value': 'f@() { auto x; x = a; printd(x()); }',
    'index': 'f@() { extrn a; printd(a[1]); a[1] = @; }', 'addr': 'f@() { extrn a; auto p; p = &a; *p =+ 1; printd(*p); }', 'auto': 'f@() { auto a; a = @; printd(a); }', 'param': 'f@(a) { printd(a); }', 'label': 'f@() { a: printd(@); if (0) goto a; }',
    'autovec': 'f@() { auto a[2]; a[1] = @; printd(a[1]); }', 'strings': 'f@() { printf("a%s@*n", "b"); }', 'static': 'f@() { extrn a; auto b; b = "a"; printf(b); a = 0; }',
}


def sharing(rng, kinds):
    units, calls = [], ''
    for k, it in enumerate(kinds):
        t = ITEMS[it].replace('@', str(k + 1))
        units.append(t)
        if 'f%d(' % (k + 1) in t:
            calls += ' f%d(4); writeb(32);' % (k + 1)
    calls *= 2
    main = 'main() {%s }\n' % calls
    where = rng.randrange(len(units) + 1)
    if where == len(units):
        units.append(main)
    else:
        units[where] = units[where] + ('\n' + main if rng.random() < .5 else '') if rng.random() < .5 else main + units[where]
        if 'main()' not in units[where]:
            units[where] = main + units[where]
    return units


def run(ctx):
    rng = ctx.rng
    cases = []
    pairs = list(itertools.combinations_with_replacement(sorted(ITEMS), 2))
    triples = list(itertools.combinations_with_replacement(sorted(ITEMS), 3))
    if not ctx.thorough:
        triples = rng.sample(triples, 160)
    for kinds in pairs + triples:
        kinds = list(kinds)
        rng.shuffle(kinds)
        u = sharing(rng, kinds)
        c = case(*u, tag=' + '.join(kinds))
        c['configs'] = [config(rng, c['units'], archives=False, plain=True), config(rng, c['units'], archives=False)]
        cases.append(c)
    ctx.extra['sharing patterns'] = len(cases)
    # references to the library from several files
    lib = ['main() { extrn fout; printd(1); one(); fout = 1; printd(3); two(); }', 'one() { extrn fout; fout = 2; printd(7); writeb(10); }', 'two() { printf("two %d*n", 2); }',
           'main() { one(); two(); nwrite(1, "x*n", 2); }', 'one() printf("%s %d*n", "one", 1);', 'two() { extrn fout; fout = 2; write("ab"); fout = 1; }']
    for part in (lib[:3], lib[3:]):
        for perm in itertools.permutations(range(3)):
            c = case(*[part[i] for i in perm], tag='library')
            c['configs'] = [config(rng, c['units']) for _ in range(3)]
            cases.append(c)
    for t in (['main() { f(); }', 'f() exit();', 'g;'], ['main() ;', ''], ['main() ;', '/* nothing */', ' '], ['x 1;'], ['f() ;', 'g() ;'], ['main() ;', 'main() ;'], ['main() { f(); }', 'f() { g(); }'],
              ['main() return (f(2));', 'f(x) return (g(x) + 1);', 'g(x) return (x > 5 ? x : f(x * 2));'],
              ['printd(x) { writeb(65 + x); }', 'main() { f(); printd(2); }', 'f() { printd(1); }'], ['char(s, i) return (i);', 'main() { f(); writeb(65 + char("zz", 2)); }', 'f() { nwrite(1, "q", 1); writeb(66 + char("x", 1)); }'],
              ['s "x"; main() { extrn s, t; printf("%s%s*n", s, t); f(); }', 's1 "y"; f() { extrn s, t; printf("%s%s%s*n", "x", s, t); }', 't "x";'],
              ['v[10]; main() { extrn v; f(); printd(v[9]); g(); printd(v[0]); }', 'f() { extrn v; v[9] = 33; }', 'g() { extrn v, w; w = v; w[0] = w[9] + 1; }'],
              ['x; main() { extrn x, y; x = 5; y = 6; f(); printd(x); printd(y); }', 'y; f() { extrn x, y; auto t; t = x; x = y; y = t; }']):
        c = case(*t, tag='fixed')
        c['configs'] = [config(rng, c['units'], archives=len(t) > 1 and t[0] != t[1]) for _ in range(4)]
        cases.append(c)
    # any program, taken apart
    for _ in range(ctx.scale(130, 1500)):
        defs, inp = progs.split_program(rng)
        n = rng.choice([2, 2, 3, 4, len(defs)])
        files = [[] for _ in range(n)]
        rng.shuffle(defs)
        for i, df in enumerate(defs):
            files[i % n if rng.random() < .5 else rng.randrange(n)].append(df)
        units = [progs.write_defs(f, rng, rng.choice([None, None, 'compact'])) for f in files]
        c = case(*units, input=inp, tag='taken apart')
        c['configs'] = [config(rng, units, plain=True)] + [config(rng, units, archives=k > 0) for k in range(2)]
        cases.append(c)
    # many files
    for _ in range(ctx.scale(14, 150)):
        n = rng.choice([8, 9, 10, 11, 12, 13, 16, 17, 18, 20, 21, 26, 31, 33])
        units = ['n; main() { extrn n; auto s; s = 0; n = 3; %s printd(s); printd(n); }' % ' '.join('s = s * 3 + f%d(%d);' % (i, i) for i in range(1, n))]
        for i in range(1, n):
            units.append('f%d(x) { extrn n, v%d; v%d[1] =+ x; n =+ v%d[1]; printf("%d:%%d ", v%d[0]); %s return (x * 2 + %d); } v%d[2] %d, %d;' % (
                i, i, i, i, i, i, 'if (x > 40) return (f%d(x - 1));' % (i % (n - 1) + 1), i, i, i * 3, i * 5))
        c = case(*units, tag='many files')
        c['configs'] = [config(rng, c['units'], plain=True), config(rng, c['units']), dict(config(rng, c['units'], plain=True), names=['d%d/same' % i for i in range(n)])]
        cases.append(c)
    for c in cases:
        c['fuel'] = 60000
    ctx.log('%d programs' % len(cases))

    def observe(c):
        return link_forms(ctx, c, c['configs'])
    observe_all(cases, observe)
    ctx.log('observed')
    ctx.check_cases(cases, observe)
    ctx.extra['programs'] = len(cases)
    ctx.extra['builds'] = sum(len([o for o in c['obs'] if o['t'] == 'link']) for c in cases)
