"""C13: the files a command creates, and what is left when a step fails."""
from common import *
from driver import *

A, B, A2, BAD_, BAD2, GONE, DIRB = (['', 'a', '.b'], ['sub/', 'b', '.b'], ['sub/', 'a', '.b'], ['', 'bad', '.b'],
                                    ['sub/', 'bad', '.b'], ['', 'gone', '.b'], ['', 'd', '.b'])
LL, AS, OO, AR, TXT, DOT = (['', 'i', '.ll'], ['sub/', 'j', '.s'], ['', 'k', '.o'], ['', 'm', '.a'], ['', 'w', '.txt'], ['', 'x.y', '.b'])
LL2, DEEP = ['sub/', 'i2', '.ll'], ['sub/deep/', 'z', '.b']
INPUTS = [A, B, A2, BAD_, BAD2, GONE, DIRB, LL, AS, OO, AR, TXT, DOT, LL2, DEEP]
BASE = [[A, ['src', 'A']], [B, ['src', 'B']], [A2, ['src', 'A2']], [BAD_, ['bad', 'bad']], [BAD2, ['bad', 'bad2']],
        [DIRB, ['dir']], [LL, ['file', 'i']], [LL2, ['file', 'i2']], [AS, ['file', 'j']], [OO, ['file', 'k']], [AR, ['file', 'm']],
        [TXT, ['file', 'w']], [DOT, ['src', 'X']], [DEEP, ['src', 'X']], [['', 'blk', ''], ['dir']]]
# files of the user whose names are like those of outputs and intermediate files
USER = [['', 'a', '.tmp.ll'], ['', 'a', '.tmp.0.ll'], ['', 'a', '.tmp.1.ll'], ['', 'b', '.tmp.0.ll'], ['', 'b', '.tmp.1.ll'], ['', 'out', '.tmp.ll'],
        ['', 'out', ''], ['', 'a', '.s'], ['', 'a', '.o'], ['', 'a', '.ll'], ['', 'a', ''], ['', 'b', '.s'], ['', 'a', '.s.tmp.ll'],
        ['', 'a', '.o.tmp.ll'], ['sub/', 'a', '.tmp.ll'], ['sub/', 'out', '.x.tmp.ll'], ['', 'b', '.o'], ['', 'tmp', '.ll'], ['sub/', 'out', '.x'],
        ['', 'bad', '.s'], ['', 'bad', ''], ['', 'bad', '.ll'], ['', 'x.y', ''], ['', 'i', ''], ['', 'x', '']]
OUTS = [[], [['', 'out', '']], [['sub/', 'out', '.x']], [['nodir/', 'out', '']], [['', 'blk', '']], [['', 'out.v1', '.s']], [['', 'c', '.ll']]]
DIRS = ['sub/', 'sub/deep/']
MODES = ['exe', 's', 'o', 'll']


def make(mode, save, o, ins, **kw):
    return command(S=mode == 's', c=mode == 'o', ir=mode == 'll', save=save, o=o, **dict({'in': ins, 'L': ['rt']}, **kw))


def std_dirs(home):
    return [x for x in (os.path.join(home, '.local/lib'), '/opt/homebrew/lib', '/opt/local/lib', '/usr/local/lib', '/usr/lib')
            if os.path.isdir(x)]


def acceptable(sc):
    """Outputs that fall together or on an input are left open."""
    c = sc['cmds'][0]
    mode = 's' if c['S'] else 'o' if c['c'] else 'll' if c['ir'] else 'exe'
    ins = c['in']
    if len({tuple(p) for p in ins}) != len(ins):
        return False
    suffix = {'s': '.s', 'o': '.o', 'll': '.ll', 'exe': ''}[mode]
    if c['o']:
        outs = [c['o'][0]]
    elif mode == 'exe':
        outs = [['', ins[0][1], '']] if ins else []
    else:
        outs = [['', p[1], suffix] for p in ins]
    names = [path_text(o) for o in outs]
    if c['save'] and mode != 'll':
        names += [path_text([o[0], o[1], o[2] + '.tmp.ll']) for o in outs]
    if len(set(names)) != len(names) or set(names) & {path_text(p) for p in ins}:
        return False
    if sc['full'] and (not ins or ins[0][2] != '.b'):
        return False
    return True


def run(ctx):
    rng = ctx.rng
    # the specification on its whole bounded space
    d, text = ctx.tlc('BDriverAll', 'BDriverAll.cfg', timeout=800) if not ctx.thorough else ctx.tlc(
        'BDriverAll', 'all2.cfg', timeout=820, cfgtext=open(os.path.join(SPEC, 'BDriverAll.cfg')).read().replace('MaxIn = 1', 'MaxIn = 2'))
    shutil.rmtree(d, ignore_errors=True)
    ctx.log('space explored')
    build_fake(ctx)
    std = std_dirs(ctx.home)
    scs = []

    def add(cmd, **kw):
        sc = {'cmds': [cmd], 'files': BASE, 'dirs': DIRS, 'fails': [], 'full': False, 'tmp': True, 'std': std}
        sc.update(kw)
        if acceptable(sc):
            sc['argv'] = render(rng, cmd)
            scs.append(sc)
    user = BASE + [[p, ['file', 'u%d' % i]] for i, p in enumerate(USER)]
    # one input: everything
    for mode in MODES:
        for save in (False, True):
            for o in OUTS:
                for p in INPUTS:
                    for fails in ([], [1], [0]):
                        for files in (BASE, user):
                            add(make(mode, save, o, [p]), fails=fails, files=files)
                    if p[2] == '.b':
                        add(make(mode, save, o, [p]), full=True, files=user)
                        add(make(mode, save, o, [p]), tmp=False, files=user)
    ctx.extra['scenarios with one input'] = len(scs)
    for _ in range(ctx.scale(6000, 60000)):
        mode = rng.choice(MODES)
        ins = [rng.choice([A, B, A2, DOT, DEEP] if rng.random() < .6 else INPUTS) for _ in range(rng.choice([2, 2, 3, 4]))]
        o = [] if mode != 'exe' or rng.random() < .4 else rng.choice(OUTS)
        if rng.random() < .05:
            o = rng.choice(OUTS)
        add(make(mode, rng.random() < .4, o, ins, level=rng.choice(['', '', '1', '3']), g=rng.random() < .2),
            files=rng.choice([BASE, user]), fails=rng.choice([[], [], [], [1], [2], [3], [0], [1, 2]]),
            full=rng.random() < .06, tmp=rng.random() < .95)
    many(ctx, add)
    spelled(ctx, add)
    check_scenarios(ctx, scs)
    faults(ctx, std, user)
    real(ctx)
    histories(ctx)
    ctx.extra['scenarios'] = len(scs)
    ctx.assumptions += ['the back end is one that writes its output completely or fails; real clang in a part of the runs',
                        'outputs that coincide with each other or with inputs are left open']


def many(ctx, add):
    """Commands with many inputs, most of them of the same name in different
    directories, and with names that end in numbers."""
    rng = ctx.rng
    for _ in range(ctx.scale(90, 1200)):
        n = rng.choice([5, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 21, 22, 25, 30, 32, 33, 34, 40])
        dirs = ['d%d/' % i for i in range(n)]
        mode = rng.choice(['exe', 'exe', 'exe'] + MODES)
        save = rng.random() < .4
        whole = mode == 'exe' and not save         # (what a failure may leave are all the subsets of the outputs)
        files, ins = [], []
        for i in range(n):
            base = rng.choice(['a', 'a', 'a', 'b', 'a%d' % (i % 10), 'a%d' % i]) if mode == 'exe' else 'a%d' % i
            k = rng.random()
            p = [dirs[i] if mode == 'exe' or rng.random() < .5 else '', base, '.b']
            if k < .03 and mode == 'exe': p, t = [dirs[i], 'i', '.ll'], ['file', 'i']
            elif k < .06 and mode == 'exe': p, t = [dirs[i], 'k', '.o'], ['file', 'k']
            elif k < .075 and whole: t = ['bad', rng.choice(['bad', 'bad2'])]
            else: t = ['src', rng.choice(['A', 'B', 'A2', 'X'])]
            files.append([p, t])
            ins.append(p)
        add(make(mode, save, rng.choice([[], [['', 'out', '']]]) if mode == 'exe' else [], ins), files=files + [[['', 'a', '.tmp.1.ll'], ['file', 'u1']], [['', 'keep', '.txt'], ['file', 'u2']]],
            dirs=DIRS + dirs, fails=rng.choice([[], [], [], [1], [rng.randrange(1, n + 1)]]) if whole else [])


BASES = ['x.tmp', 'x.exe', 'a.b', 'a.ll', 'a.o', 'a.s', 'A', 'a b', 'tmp', 'lib', 'a.out', 'x.tmp.0', 'x.c', 'out', 'x..y', 'x.', '_', 'a-b', '0', 'b', 'bb', 'a.b.b', 'x.tmp.ll', 'libb', 'crt0', '.x', 'x.1', 'x~', 'x+y', "x'y", 'x=y', '#x', '@x', 'x,y', 'x.B', 'stdin', 'abob', 'blob', 'ab.bb', 'ss', 'll', 'x.a', 'x.so']
OUTEXT = ['', '.exe', '.ll', '.s', '.o', '.b', '.tmp', '.tmp.ll', '.a', '.out', '.bin', '.x', '.', '.b.o', '.B', '.txt', '.so', '.1', '.obj', '.asm']


def spelled(ctx, add):
    """Files with all kinds of names, as inputs and as outputs."""
    rng = ctx.rng
    for _ in range(ctx.scale(900, 15000)):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        mode = rng.choice(MODES + ['exe'])
        ins, files = [], []
        for i in range(n):
            p = [rng.choice(['', '', '', 'sub/', 'd.x/']), rng.choice(BASES), '.b']
            if p[1][:1] in '@#' and p[0] == '': p[0] = 'sub/'
            k = rng.random()
            t = ['src', ['A', 'B', 'A2'][i]]
            if i and k < .35 or k < .25:
                p[2], t = rng.choice([['.ll', ['file', 'i']], ['.ll', ['file', 'i']], ['.s', ['file', 'j']], ['.o', ['file', 'k']], ['.o', ['file', 'k']]])
            if any(q == p for q in ins): continue
            ins.append(p)
            files.append([p, t])
        o = []
        if (len(ins) == 1 or mode == 'exe') and rng.random() < .65:
            o = [[rng.choice(['', '', 'sub/']), rng.choice(BASES + ['p', 'out', 'a', ins[0][1]]), rng.choice(OUTEXT)]]
            if o[0][1][:1] in '@#' and o[0][0] == '': o[0][0] = 'sub/'
        files += [[['', 'keep', '.txt'], ['file', 'u1']]]
        # files a careless program might use or remove
        for q in ins[:1] + o:
            if rng.random() < .5:
                r = [q[0], q[1], rng.choice(['.ll', '.tmp', '.o', '.s', '.bak', '.tmp.0.ll', '.b~', '.exe', '', '.tmp.s'])]
                if not any(path_text(r) == path_text(f[0]) for f in files) and path_text(r) not in DIRS:
                    files.append([r, ['file', 'u2']])
        if any(path_text(f[0]) + '/' in DIRS + ['d.x/'] for f in files): continue
        if any(path_text(x).rstrip('/') + '/' in DIRS + ['d.x/'] for x in o): continue
        add(make(mode, rng.random() < .45, o, ins), files=files, dirs=DIRS + ['d.x/'], fails=rng.choice([[], [], [], [1]]))


def faults(ctx, std, user):
    """An operation on a file fails, at any point: the command fails with a
    message and leaves what the specification allows, or it does not need the
    operation and succeeds as if nothing had happened."""
    rng = ctx.rng
    if not strace_works(ctx):
        ctx.extra['injected faults'] = 'not possible here'
        return
    scs = []
    while len(scs) < ctx.scale(700, 8000):
        mode = rng.choice(MODES + ['ll', 'll'])
        save = mode != 'll' and rng.random() < .6
        ins = [rng.choice([A, B, A2, DOT, DEEP]) for _ in range(rng.choice([1, 1, 2, 3]))]
        o = [] if len(ins) > 1 and mode != 'exe' or rng.random() < .5 else rng.choice([[['', 'out', '']], [['sub/', 'out', '.x']]])
        sc = {'cmds': [make(mode, save, o, ins)], 'files': rng.choice([BASE, user]), 'dirs': DIRS, 'fails': [], 'full': False, 'fault': True, 'tmp': True, 'std': std}
        if not acceptable(sc):
            continue
        i = rng.randrange(len(ins))
        suffix = {'s': '.s', 'o': '.o', 'll': '.ll', 'exe': ''}[mode]
        kind = rng.choice(['source', 'source', 'written', 'written', 'written', 'clang'])
        err = lambda *x: rng.choice(x)
        if kind == 'source':
            path = path_text(ins[i])
            n = len(GOOD[dict((path_text(p), t) for p, t in BASE)[path][1]])
            # (a program that reads the source at once reads it in few calls)
            k = rng.choice([1, 1, 2, 3, n, n + 1, rng.randrange(1, n + 1), rng.randrange(1, n + 1)])
            calls = rng.choice(['openat:error=%s' % err('EACCES', 'EMFILE', 'EIO'), 'read,pread64:error=EIO:when=%d+' % k, 'read,pread64:error=EISDIR',
                                'read,pread64:error=EIO:when=%d+' % k, 'newfstatat,stat,lstat,statx:error=%s' % err('EACCES', 'EIO'), 'close:error=EIO', 'fstat:error=EIO'])
        elif kind == 'clang':
            if mode == 'll':
                continue
            path, calls = 'clang', 'execve:error=%s' % err('ENOENT', 'EACCES', 'ENOMEM', 'ETXTBSY', 'EAGAIN')
        else:
            if mode != 'll' and not save:
                continue
            c = sc['cmds'][0]
            out = path_text(o[0]) if o else ins[0][1] if mode == 'exe' else ins[i][1] + suffix
            path = out if mode == 'll' else '%s.tmp.%d.ll' % (ins[i][1], i) if mode == 'exe' and len(ins) > 1 else out + '.tmp.ll'
            calls = rng.choice(['openat,creat:error=%s' % err('EACCES', 'ENOSPC', 'EROFS', 'EMFILE', 'EDQUOT'), 'write,pwrite64,writev:error=%s:when=1+' % err('ENOSPC', 'EIO', 'EDQUOT'),
                                'write,pwrite64,writev:error=%s:when=%d+' % (err('ENOSPC', 'EIO'), rng.choice([1, 2, 2, 3, 5])), 'close:error=%s' % err('EIO', 'ENOSPC', 'EDQUOT'),
                                'fsync,fdatasync:error=EIO', 'rename,renameat,renameat2,link,linkat:error=%s' % err('EACCES', 'EIO', 'ENOSPC'),
                                'ftruncate,fallocate,fchmod,chmod,fchmodat:error=EPERM'])
        sc['inject'] = [path, calls]
        sc['argv'] = render(rng, sc['cmds'][0])
        scs.append(sc)
    check_scenarios(ctx, scs)
    with open(os.path.join(ctx.dir, 'injected')) as f:
        seen = f.read().split('\n')
    ctx.extra['injected faults'] = {'tried': len(scs), 'made the command fail': seen.count('failed'), 'were not needed': seen.count('not needed')}


def files_of(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in files:
            with open(os.path.join(root, x), 'rb') as f:
                out[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return out


def real(ctx):
    """The same with the real back end: which files are there afterwards?"""
    rng = ctx.rng
    lib = ctx.sub('real')
    for name, text in (('i.b', b'side() { return (3); }\n'), ('j.b', b'other() { return (4); }\n'), ('k.b', b'third() { return (5); }\n'), ('m.b', b'fourth() return (6);\n')):
        with open(os.path.join(lib, name), 'wb') as f:
            f.write(text)
    for args in (['--emit-llvm', 'i.b'], ['-S', 'j.b'], ['-c', 'k.b'], ['-c', 'm.b']):
        ctx.compile(args, lib)
    subprocess.run(['ar', 'rc', 'm.a', 'm.o'], cwd=lib, check=True)
    raw = {}
    for n in ('i.ll', 'j.s', 'k.o', 'm.a'):
        with open(os.path.join(lib, n), 'rb') as f:
            raw[n[0]] = f.read()
    raw['junk'] = b'this is no IR at all\n'
    JUNK = ['', 'junk', '.ll']
    JUNKS = ['sub/', 'junk2', '.s']
    files = [[A, ['src', 'A']], [B, ['src', 'B']], [A2, ['src', 'A2']], [BAD_, ['bad', 'bad']], [LL, ['file', 'i']], [AS, ['file', 'j']],
             [OO, ['file', 'k']], [AR, ['file', 'm']], [JUNK, ['file', 'junk']], [JUNKS, ['file', 'junk']], [['', 'keep', '.txt'], ['file', 'u1']], [['', 'a', '.tmp.ll'], ['file', 'u2']]]
    scs = []
    for _ in range(ctx.scale(110, 900)):
        mode = rng.choice(MODES)
        n = rng.choice([1, 1, 2, 3])
        ins = [rng.choice([A, B, A2, B, LL, AS, OO, AR, JUNK, JUNKS, BAD_] if rng.random() < .5 else [A, B, A2]) for _ in range(n)]
        if mode == 'exe' and A not in ins and rng.random() < .8:
            ins[0] = A
        ins.sort(key=lambda p: p == AR)
        o = rng.choice([[], [['', 'out', '']], [['sub/', 'out', '.x']], [['nodir/', 'out', '']]]) if mode == 'exe' or n == 1 else []
        cmd = make(mode, rng.random() < .4, o, ins, L=[ctx.lib], level=rng.choice(['', '1', '2']), g=rng.random() < .3)
        # which call of the back end is going to fail?
        fails = []
        if mode == 'exe':
            if any(p in (JUNK, JUNKS) for p in ins) or A not in ins:
                fails = [1]
        else:
            junk = [i + 1 for i, p in enumerate(ins) if p in (JUNK, JUNKS)]
            fails = junk[:1]
        sc = {'cmds': [cmd], 'files': files, 'dirs': ['sub/'], 'fails': fails, 'full': False, 'tmp': True, 'std': []}
        if not acceptable(sc):
            continue
        sc['argv'] = render(rng, cmd)
        scs.append(sc)
    want = expected(ctx, scs)

    def go(sc):
        d = ctx.sub('w')
        t = os.path.join(ctx.tmp, 'r%d-%d' % (os.getpid(), ctx.n))
        os.mkdir(t)
        try:
            os.mkdir(os.path.join(d, 'sub'))
            for p, tok in sc['files']:
                with open(os.path.join(d, path_text(p)), 'wb') as f:
                    f.write(raw[tok[1]] if tok[0] == 'file' and tok[1] in raw else contents(tok))
            before = files_of(d)
            code, out, err = run_cmd([ctx.blang] + sc['argv'], d, dict(ctx.env, TMPDIR=t), timeout=60)
            after = files_of(d)
            names = sorted(after)
            same = sorted(n for n in before if after.get(n) == before[n])
            empty = sorted(n for n in after if not after[n])
            return code, err[:300], names, same, empty, sorted(os.listdir(t))
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(t, ignore_errors=True)

    def wrong(sc, w, g):
        code, err, names, same, empty, left = g
        st = w[0]['st'][0]
        if code == 'timeout' or code < 0:
            return 'ended abnormally: %s' % code
        if (code == 0) != (st == 'ok'):
            return 'exit status %s, wanted %s: %r' % (code, st, err)
        if code != 0 and not err:
            return 'failed without a message'
        if left:
            return 'left in the directory for temporary files: %s' % left
        if empty:
            return 'empty files: %s' % empty
        before = {path_text(p): t for p, t in sc['files']}
        for x in w:
            if sorted(x['fs']) == names and sorted(n for n in before if x['fs'].get(n) == before[n]) == same:
                return None
        return 'files %s, unchanged %s; wanted %s' % (names, same, [sorted(x['fs']) for x in w])
    got = pmap(go, scs)
    for s, w, g in zip(scs, want, got):
        ctx.count('with the real back end')
        why = wrong(s, w, g)
        if why is None:
            ctx.validated += 1
        else:
            why = wrong(s, w, go(s))
            if why:
                ctx.violation('blang %s\n%s' % (' '.join(s['argv']), why), files={'argv': s['argv'], 'scenario': s, 'difference': why})


def histories(ctx):
    """Several commands one after the other in one directory: each finds the
    files as the specification says the one before left them."""
    rng = ctx.rng
    std = std_dirs(ctx.home)
    names = {}
    runs = []
    for _ in range(ctx.scale(150, 1500)):
        runs.append({'files': BASE + [[p, ['file', 'u%d' % i]] for i, p in enumerate(USER) if rng.random() < .2], 'log': [], 'live': True,
                     'dir': ctx.sub('h')})
    for r in runs:
        populate(r['dir'], {'dirs': DIRS, 'files': r['files']})
    for step in range(4):
        scs = []
        for r in runs:
            if not r['live']:
                continue
            for _ in range(20):
                mode = rng.choice(MODES)
                ins = [rng.choice([A, B, A2, DOT, BAD_]) for _ in range(rng.choice([1, 1, 2, 3]))]
                o = rng.choice([[], [], [['', 'out', '']], [['', 'a', '']], [['sub/', 'out', '.x']]]) if mode == 'exe' or len(ins) == 1 else []
                sc = {'cmds': [make(mode, rng.random() < .4, o, ins)], 'files': r['files'], 'dirs': DIRS, 'fails': rng.choice([[], [], [], [1], [2]]),
                      'full': False, 'tmp': True, 'std': std, 'run': r}
                if acceptable(sc):
                    break
            else:
                continue
            sc['argv'] = render(rng, sc['cmds'][0])
            scs.append(sc)
        want = expected(ctx, scs)

        def go(sc):
            fake = ctx.sub('fake')
            if sc['fails']:
                with open(os.path.join(fake, 'fail'), 'w') as f:
                    f.write('\n'.join(map(str, sc['fails'])) + '\n')
            env = dict(ctx.env, FAKE_DIR=fake, PATH=ctx.fakebin + ':' + STD_PATH)
            code, out, err = run_cmd([ctx.blang] + sc['argv'], sc['run']['dir'], env, timeout=30)
            return code, out, err, snapshot(ctx, sc['run']['dir'], sc)
        for s, w, g in zip(scs, want, pmap(go, scs)):
            r = s['run']
            r['log'].append(s['argv'])
            ctx.count('commands in histories')
            why = differs(s, w, g)
            if why is None:
                ctx.validated += 1
                fs = g[3]
                r['files'] = [[split(n), t] for n, t in sorted(fs.items())]
            else:
                r['live'] = False
                ctx.violation('after %s: blang %s\n%s' % ([' '.join(a) for a in r['log'][:-1]], ' '.join(s['argv']), why),
                              files={'log': r['log'], 'difference': why, 'scenario': {k: v for k, v in s.items() if k != 'run'}})


def split(n):
    d, b = os.path.split(n)
    base, ext = os.path.splitext(b)
    return [d + '/' if d else '', base, ext]
