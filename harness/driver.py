"""Running the blang command under control: scratch directories, a back end
that does as it is told, and what is left afterwards, in the terms of BDriver."""
from common import *

GOOD = {'A': b'f(x) { return (x + 1); }\nmain() { printf("%d*n", f(41)); }\n',
        'B': b'g(a, b) { auto c; c = a * b; while (c > 10) c =- 3; return (c); }\ntable[3] 1, 2, 3;\n',
        'A2': b'h() { extrn count; count++; if (count > 3) count = 0; while (count < 2) count++; printf("%d*n", count); return (count); }\ncount 7;\nname "A2";\n',
        'X': b'k(n) return (n < 2 ? 1 : n * k(n - 1));\nl(n) { while (n > 3) { printd(n); n =- k(2); } return (n); }\n'}
BAD = {'bad': b'main() { printf("never" ; }\n', 'bad2': b'f( { }\n', 'bad3': b'main() { undefined_name = 1; }\n'}
LEVEL_TEXT = {'empty': ''}


def build_fake(ctx):
    ctx.fakebin = os.path.join(ctx.dir, 'fakebin')
    os.mkdir(ctx.fakebin)
    p = subprocess.run(['gcc', '-O1', '-o', os.path.join(ctx.fakebin, 'clang'),
                        os.path.join(VERIF, 'harness', 'fakeclang.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise CheckError('cannot build the controlled back end: ' + p.stdout.decode(errors='replace'))
    ctx.nobin = os.path.join(ctx.dir, 'nobin')
    os.mkdir(ctx.nobin)
    # the IR of every good source, compiled on its own
    ctx.ir = {}
    for name, text in GOOD.items():
        d = ctx.sub('ir')
        with open(os.path.join(d, 'x.b'), 'wb') as f:
            f.write(text)
        code, out, err = ctx.compile(['--emit-llvm', '-o', 'x.ll', 'x.b'], d)
        try:
            with open(os.path.join(d, 'x.ll'), 'rb') as f:
                ctx.ir[f.read()] = name
        except OSError:
            raise CheckError('cannot compile a plain program: ' + err.decode(errors='replace'))
    if len(ctx.ir) != len(GOOD):
        raise CheckError('different programs have the same IR')
    if min(map(len, ctx.ir)) < 560:
        raise CheckError('the IR is too small to run out of room')


def contents(tok):
    """The bytes of a file of a scenario."""
    if tok[0] == 'src': return GOOD[tok[1]]
    if tok[0] == 'bad': return BAD[tok[1]]
    if tok[0] == 'file': return b'contents of ' + tok[1].encode() + b'\n'
    raise ValueError(tok)


def token(ctx, data, std):
    """What a file holds, in the terms of the specification."""
    for name, text in GOOD.items():
        if data == text: return ['src', name]
    for name, text in BAD.items():
        if data == text: return ['bad', name]
    if data in ctx.ir: return ['IR', ctx.ir[data]]
    m = re.fullmatch(rb'contents of (\w+)\n', data)
    if m: return ['file', m.group(1).decode()]
    m = re.match(rb'MADE (\w+) (\S*) (g?)\.\n((?:[Ll] [^\n]*\n)*)', data)
    if not m:
        return ['?', data[:60].decode('latin1')]
    dirs, libs = [], []
    for line in m.group(4).decode('latin1').splitlines():
        (dirs if line[0] == 'L' else libs).append(line[2:])
    rest = data[m.end():]
    parts = []
    while rest:
        k = re.match(rb'IN (\S+) (\d+)\n', rest)
        if not k: return ['?', data[:60].decode('latin1')]
        n = int(k.group(2))
        parts.append([k.group(1).decode(), token(ctx, rest[k.end():k.end() + n], std)])
        rest = rest[k.end() + n + 1:]
    kind = m.group(1).decode()
    if kind != 'exe':
        return ['made', kind, m.group(2).decode(), bool(m.group(3)), [], [], parts]
    # the order of the standard directories among the others is not specified
    names = [d for d in dirs if d not in std] + [d for d in std if d in dirs]
    libs = [x for x in libs if x != 'b'] + ['b' for x in libs if x == 'b'][:1]
    return ['made', kind, m.group(2).decode(), bool(m.group(3)), names, libs, parts]


def path_text(p):
    return p[0] + p[1] + p[2]


def populate(d, sc):
    for x in sc['dirs']:
        os.makedirs(os.path.join(d, x), exist_ok=True)
    for p, tok in sc['files']:
        f = os.path.join(d, path_text(p))
        if tok[0] == 'dir':
            os.mkdir(f)
            continue
        with open(f, 'wb') as g:
            g.write(contents(tok))


def snapshot(ctx, d, sc, skip=()):
    """The files of a directory as a mapping from path texts to tokens."""
    out = {}
    for root, dirs, files in os.walk(d):
        rel = os.path.relpath(root, d)
        rel = '' if rel == '.' else rel + '/'
        for x in dirs:
            if rel + x + '/' not in sc['dirs'] and rel + x not in skip:
                out[rel + x] = ['dir']
        for x in files:
            f = os.path.join(root, x)
            if os.path.islink(f):
                out[rel + x] = ['?', 'link']
                continue
            with open(f, 'rb') as g:
                out[rel + x] = token(ctx, g.read(), sc['std'])
    return out


def expected(ctx, scs, extra_inv=True):
    """For every scenario the outcomes the specification allows."""
    for i, s in enumerate(scs):
        s['n'] = i + 1
    keys = ('n', 'cmds', 'files', 'dirs', 'fails', 'full', 'fault', 'tmp', 'std')
    out = {i + 1: [] for i in range(len(scs))}
    step = 4000
    for k in range(0, len(scs), step):
        data = [{x: s.get(x, False) for x in keys} for s in scs[k:k + step]]
        d, text = ctx.tlc('BDriverRun', 'run.cfg', data={'scenarios.json': data}, cfgtext='''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- FromFile
  MicroSteps = TRUE
INVARIANTS OthersUntouched OutputsMade NothingFromFailed FailsForAReason PrivateStaysPrivate Emit
''')
        shutil.rmtree(d, ignore_errors=True)
        for line in text.splitlines():
            if line.startswith('"END '):
                e = json.loads(json.loads(line)[4:])
                st = e['st']
                st = [st[x] for x in sorted(st)] if isinstance(st, dict) else list(st)
                fs = {p: c for p, c in e['fs']}
                out[e['n']].append({'st': st, 'fs': fs})
    for i, o in out.items():
        if not o:
            raise CheckError('no outcome for scenario %d' % i)
    return [out[i + 1] for i in range(len(scs))]


LONG = {'S': '--assemble', 'c': '--compile', 'g': '--debug', 'v': '--verbose', 'o': '--output', 'O': '--optimize',
        'L': '--library-dir', 'l': '--library', 'h': '--help', 'V': '--version'}


def render(rng, cmd, plain=False):
    """A command line for an abstract command; the order of options among each
    other and the files is free, except for repeated ones."""
    groups = []

    def flag(short, long=None):
        groups.append([[('-' + short) if short and (plain or rng.random() < .6) else (long or LONG[short])]])

    def value(short, v):
        forms = [['-' + short + v], ['-' + short, v], [LONG[short], v], [LONG[short] + '=' + v]]
        if v == '':
            forms = forms[1:]
        return forms[1] if plain and v else rng.choice(forms)
    if cmd['S']: flag('S')
    if cmd['c']: flag('c')
    if cmd['ir']: groups.append([['--emit-llvm']])
    if cmd['save']: groups.append([['--save-temps']])
    if cmd['g']: flag('g')
    if cmd.get('v'): flag('v')
    if cmd['help']: flag('h')
    if cmd['version']: flag('V')
    if cmd['level']: groups.append([value('O', LEVEL_TEXT.get(cmd['level'], cmd['level']))])
    if cmd['o']: groups.append([value('o', path_text(cmd['o'][0]))])
    groups.append([value('L', x) for x in cmd['L']])
    groups.append([value('l', x) for x in cmd['l']])
    files = [[path_text(p)] for p in cmd['in']]
    if cmd.get('dot'):
        files = [['./' + f[0]] for f in files]
    groups.append(files)
    last = None
    if cmd['bad']:
        if cmd['bad_text'] in ('-o', '-O', '-l', '-L', '--output', '--library'):
            last = [cmd['bad_text']]
        else:
            groups.append([[cmd['bad_text']]])
    # interleave the groups, keeping the order inside each
    groups = [g for g in groups if g]
    out = []
    if plain:
        for g in groups:
            for x in g: out += x
    else:
        cluster = [g[0][0][1:] for g in groups if len(g) == 1 and len(g[0]) == 1 and re.fullmatch(r'-[Scgv]', g[0][0])]
        if len(cluster) > 1 and rng.random() < .3:
            groups = [g for g in groups if not (len(g) == 1 and len(g[0]) == 1 and re.fullmatch(r'-[Scgv]', g[0][0]))]
            groups.append([['-' + ''.join(cluster)]])
        while groups:
            g = rng.choice(groups)
            out += g.pop(0)
            groups = [x for x in groups if x]
    if last:
        out += last
    elif cmd.get('dashdash'):
        # everything after -- is a file
        fl = [f[0] for f in ([['./' + path_text(p)] for p in cmd['in']] if cmd.get('dot') else [[path_text(p)] for p in cmd['in']])]
        out = [x for x in out if x not in fl] + ['--'] + fl
    return out


def command(**kw):
    c = {'bad': False, 'help': False, 'version': False, 'any': True, 'S': False, 'c': False, 'ir': False,
         'save': False, 'g': False, 'level': '', 'o': [], 'L': [], 'l': [], 'in': []}
    c.update(kw)
    return c


def run_one(ctx, sc, argv=None):
    """Run the single command of a scenario; (status, message?, files, streams)."""
    d = ctx.sub('w')
    t = os.path.join(ctx.tmp, 't%d-%d' % (os.getpid(), ctx.n))
    try:
        populate(d, sc)
        if sc['tmp']:
            os.mkdir(t)
        fake = ctx.sub('fake')
        if sc['fails'] and 0 not in sc['fails']:
            with open(os.path.join(fake, 'fail'), 'w') as f:
                f.write('\n'.join(map(str, sc['fails'])) + '\n')
        env = dict(ctx.env, TMPDIR=t, FAKE_DIR=fake, HOME=sc.get('home', ctx.home),
                   PATH=(ctx.nobin if 0 in sc['fails'] else ctx.fakebin + ':' + STD_PATH))
        cmd = [ctx.blang] + (argv if argv is not None else sc['argv'])
        if sc.get('inject'):
            path, calls = sc['inject']
            path = ctx.fakebin + '/clang' if path == 'clang' else path
            cmd = ['strace', '-f', '-qq', '-o', os.path.join(fake, 'strace'), '-P', path, '-P', os.path.join(d, path),
                   '-e', 'inject=' + calls] + cmd
        if sc['full']:
            cmd = ['/bin/sh', '-c', 'ulimit -f 1; exec "$0" "$@"'] + cmd
        code, out, err = run_cmd(cmd, d, env, timeout=30)
        fs = snapshot(ctx, d, sc)
        if sc['tmp']:
            for x in os.listdir(t):
                fs['$TMP/' + x] = ['left']
        if sc.get('inject'):
            with open(os.path.join(fake, 'strace'), 'rb') as f:
                if b'INJECTED' in f.read():
                    with open(os.path.join(ctx.dir, 'injected'), 'a') as g:
                        g.write('%s\n' % ('failed' if code else 'not needed'))
            err = b''.join(x for x in err.splitlines(True) if not x.startswith(b'strace: '))
        shutil.rmtree(fake, ignore_errors=True)
        return code, out, err, fs
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(t, ignore_errors=True)


def differs(sc, want, got):
    """None when an observed run is among the outcomes wanted."""
    code, out, err, fs = got
    if code == 'timeout' or code < 0 or PANIC.search(err):
        return 'ended abnormally: %s' % code
    st = want[0]['st'][0]
    if sc.get('fault'):                 # several outcomes are allowed
        st = 'ok' if code == 0 else 'fail'
        want = [w for w in want if w['st'][0] == st] or want[:1]
    if (code == 0) != (want[0]['st'][0] in ('ok', 'info')):
        return 'exit status %s, wanted %s; stderr %r' % (code, st, err[:200])
    if st == 'fail' and not err.strip() and not (b'Usage' in out and not sc['cmds'][0]['any']):
        return 'failed without a message'
    if st == 'info':
        c = sc['cmds'][0]
        if not ((c['help'] and b'Usage' in out + err) or (c['version'] and b'version' in out + err)):
            return 'nothing printed'
    for w in want:
        if w['fs'] == fs:
            return None
    w = want[0]['fs']
    d = ['%s: %s, wanted %s' % (p, json.dumps(fs.get(p, 'absent'))[:200], json.dumps(w.get(p, 'absent'))[:200])
         for p in sorted(set(fs) | set(w)) if fs.get(p) != w.get(p)]
    return '; '.join(d[:4])


def check_scenarios(ctx, scs):
    want = expected(ctx, scs)
    ctx.log('%d scenarios' % len(scs))
    got = pmap(lambda s: run_one(ctx, s), scs)
    ctx.log('observed')
    for s, w, g in zip(scs, want, got):
        ctx.count('outcome ' + ('fault' if s.get('fault') else w[0]['st'][0]))
        why = differs(s, w, g)
        if why is None:
            ctx.validated += 1
            if len(ctx.samples) < 4 and s['cmds'][0]['in']:
                ctx.samples.append({'argv': s['argv'], 'fails': s['fails'], 'outcome': w[0]['st'][0],
                                    'files': sorted(w[0]['fs'])})
            continue
        why2 = differs(s, w, run_one(ctx, s))
        if why2 is None:
            ctx.count('differences not reproduced')
            continue
        ctx.violation('blang %s (back end fails: %s, full: %s, tmp: %s)\n%s' % (
            ' '.join(s['argv']), s['fails'], s['full'], s['tmp'], why2), files={
                'argv': s['argv'], 'scenario': {k: v for k, v in s.items() if k != 'argv'}, 'wanted': w, 'difference': why2})
        if len(ctx.violations) > 20:
            break


def strace_works(ctx):
    """Can the commands of this check be traced here?"""
    code, out, err = run_cmd(['strace', '-f', '-qq', '-o', '/dev/null', '-e', 'inject=getppid:error=EIO', '/bin/true'], ctx.dir, ctx.env)
    return code == 0
