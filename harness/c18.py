"""C18: determinism, and compilations that run at the same time."""
import hashlib, select
from common import *
from driver import *
from c13 import BASE, USER, DIRS, MODES, A, B, A2, LL, AS, OO, DOT, BAD_, GONE, DEEP, make, std_dirs
import progs
from gen import *


# -- commands that run at the same time ----------------------------------------

def schedules(ctx, scs):
    """All schedules of the scenarios, with the outcome of each."""
    for i, s in enumerate(scs):
        s['n'] = i + 1
    keys = ('n', 'cmds', 'files', 'dirs', 'fails', 'full', 'fault', 'tmp', 'std')
    data = [{x: s.get(x, False) for x in keys} for s in scs]
    inv = 'OthersUntouched OutputsMade NothingFromFailed FailsForAReason PrivateStaysPrivate AsAlone'
    # at the level of single steps, for the specification alone
    d, text = ctx.tlc('BDriverSched', 'micro.cfg', data={'scenarios.json': data[:ctx.scale(24, 200)]}, cfgtext='''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- FromFile
  MicroSteps = TRUE
INVARIANTS %s
'''.replace('SPECIFICATION Spec', 'INIT SchedInit\nNEXT MicroNext') % inv)
    shutil.rmtree(d, ignore_errors=True)
    d, text = ctx.tlc('BDriverSched', 'sched.cfg', data={'scenarios.json': data}, cfgtext='''SPECIFICATION SchedSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- FromFile
  MicroSteps = FALSE
INVARIANTS %s EmitSchedule
''' % inv)
    shutil.rmtree(d, ignore_errors=True)
    out = {}
    for line in text.splitlines():
        if line.startswith('"END '):
            e = json.loads(json.loads(line)[4:])
            st = e['st']
            st = [st[x] for x in sorted(st)] if isinstance(st, dict) else list(st)
            out.setdefault((e['n'], tuple(e['hist'])), []).append({'st': st, 'fs': {p: c for p, c in e['fs']}})
    return out


class Gated:
    """A command whose calls of the back end wait to be released."""

    def __init__(self, ctx, fake, tag, argv, cwd, env):
        self.tag, self.fake = tag, fake
        for k in ('here', 'go'):
            os.mkfifo(os.path.join(fake, '%s-%s' % (k, tag)))
        self.here = os.open(os.path.join(fake, 'here-%s' % tag), os.O_RDWR)
        self.argv, self.cwd, self.ctx = argv, cwd, ctx
        self.env = dict(env, FAKE_TAG=tag)
        self.p = None
        self.err = None

    def turn(self):
        """Go on until the back end is called or the command ends."""
        if self.p is None:
            self.log = open(os.path.join(self.fake, 'err-' + self.tag), 'wb+')
            self.p = subprocess.Popen([self.ctx.blang] + self.argv, cwd=self.cwd, env=self.env, stdin=subprocess.DEVNULL,
                                      stdout=self.log, stderr=self.log, start_new_session=True)
        else:
            end = time.time() + 10
            while True:
                try:
                    fd = os.open(os.path.join(self.fake, 'go-' + self.tag), os.O_WRONLY | os.O_NONBLOCK)
                    break
                except OSError:
                    if time.time() > end or self.p.poll() is not None:
                        return False
                    time.sleep(0.001)
            os.write(fd, b'x')
            os.close(fd)
        end = time.time() + 20
        while time.time() < end:
            if select.select([self.here], [], [], 0.002)[0]:
                os.read(self.here, 1)
                return True
            if self.p.poll() is not None:
                if select.select([self.here], [], [], 0)[0]:
                    continue
                return True
        return False

    def finish(self):
        if self.p is not None:
            if self.p.poll() is None:
                try:
                    os.killpg(self.p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                self.p.wait()
                self.code = 'stuck'
            else:
                self.code = self.p.returncode
            self.log.seek(0)
            self.err = self.log.read()
            self.log.close()
        else:
            self.code, self.err = 'not started', b''
        os.close(self.here)


def replay(ctx, sc, hist):
    """Make real processes take the turns of a schedule."""
    d = ctx.sub('w')
    fake = ctx.sub('fake')
    t = os.path.join(ctx.tmp, 'c%d-%d' % (os.getpid(), ctx.n))
    os.mkdir(t)
    procs = []
    try:
        populate(d, sc)
        if sc['fails']:
            with open(os.path.join(fake, 'fail'), 'w') as f:
                f.write('\n'.join(map(str, sc['fails'])) + '\n')
        env = dict(ctx.env, TMPDIR=t, FAKE_DIR=fake, PATH=ctx.fakebin + ':' + STD_PATH)
        for i, c in enumerate(sc['cmds']):
            procs.append(Gated(ctx, fake, str(i + 1), sc['argvs'][i], os.path.join(d, c.get('cwd', '')), env))
        problem = None
        for p in hist:
            if procs[p - 1].p is not None and procs[p - 1].p.poll() is not None:
                problem = 'command %d ended before its turn %s' % (p, list(hist))
                break
            if not procs[p - 1].turn():
                problem = 'command %d did not take its turn' % p
                break
        if problem is None:
            for i, g in enumerate(procs):
                if g.p is None or g.p.poll() is None:
                    problem = 'command %d goes on after its last turn' % (i + 1)
        for g in procs:
            g.finish()
        fs = snapshot(ctx, d, sc)
        for x in os.listdir(t):
            fs['$TMP/' + x] = ['left']
        return problem, [g.code for g in procs], [g.err[-300:] for g in procs], fs
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(fake, ignore_errors=True)
        shutil.rmtree(t, ignore_errors=True)


def judge(want, got):
    problem, codes, errs, fs = got
    if problem:
        return problem
    for i, code in enumerate(codes):
        ok = all(w['st'][i] == 'ok' for w in want)
        if code == 'stuck' or code < 0 or (code == 0) != ok:
            return 'command %d: exit status %s, wanted %s; %r' % (i + 1, code, want[0]['st'][i], errs[i])
        if code != 0 and not errs[i].strip():
            return 'command %d failed without a message' % (i + 1)
    if any(w['fs'] == fs for w in want):
        return None
    w = want[0]['fs']
    return '; '.join(['%s: %s, wanted %s' % (p, json.dumps(fs.get(p, 'absent'))[:160], json.dumps(w.get(p, 'absent'))[:160])
                      for p in sorted(set(fs) | set(w)) if fs.get(p) != w.get(p)][:4])


def outputs(c):
    """Everything a command may write."""
    mode = 's' if c['S'] else 'o' if c['c'] else 'll' if c['ir'] else 'exe'
    suffix = {'s': '.s', 'o': '.o', 'll': '.ll', 'exe': ''}[mode]
    if c['o']: outs = [path_text(c['o'][0])]
    elif mode == 'exe': outs = [c['in'][0][1]]
    else: outs = [p[1] + suffix for p in c['in']]
    temps = []
    if c['save'] and mode != 'll':
        temps = [o + '.tmp.ll' for o in outs] if mode != 'exe' or len(c['in']) == 1 else \
                ['%s.tmp.%d.ll' % (p[1], i) for i, p in enumerate(c['in']) if p[2] == '.b']
    return outs + temps


def scenario(rng, n):
    """Commands whose outputs are distinct, on the same files and base names."""
    std = ['?']
    while True:
        cmds = []
        for i in range(n):
            mode = rng.choice(MODES if rng.random() < .25 else MODES[:3])
            k = 1 if n > 2 else rng.choice([1, 1, 2])
            ins = [rng.choice([A, A2, A, A2, B, DOT] if rng.random() < .93 else [BAD_, LL]) for _ in range(k)]
            if len({path_text(p) for p in ins}) != len(ins):
                break
            o = [] if rng.random() < .3 or (k > 1 and mode != 'exe') else [[rng.choice(['', '', 'sub/']), rng.choice(['out', 'out', 'a', 'o%d' % i]), rng.choice(['', '.x', '.%d' % i])]]
            c = make(mode, rng.random() < .2, o, ins, level=rng.choice(['', '1', '2']))
            cmds.append(c)
        else:
            names = [x for c in cmds for x in outputs(c)]
            ins = {path_text(p) for c in cmds for p in c['in']}
            if len(set(names)) == len(names) and not set(names) & ins:
                return {'cmds': cmds, 'files': BASE, 'dirs': DIRS, 'fails': [] if rng.random() < .8 else [rng.choice([1, 2])], 'full': False, 'tmp': True}


def concurrent(ctx):
    rng = ctx.rng
    std = std_dirs(ctx.home)
    scs = []
    # the usual cases first: one source to several outputs, sources of one name
    same = [(make('exe', False, [['', 'out1', '']], [A]), make('exe', False, [['', 'out2', '']], [A])),
            (make('exe', False, [['', 'out1', '']], [A]), make('exe', False, [['', 'out2', '']], [A2])),
            (make('exe', False, [['', 'out', '']], [A]), make('exe', False, [['sub/', 'out', '']], [A2])),
            (make('exe', False, [], [A]), make('exe', False, [['sub/', 'a', '']], [A2])),
            (make('exe', False, [['', 'out1', '']], [A, B]), make('exe', False, [['', 'out2', '']], [A2, B])),
            (make('exe', False, [['', 'out1', '']], [A, A2]), make('exe', False, [['', 'out2', '']], [A2, A])),
            (make('s', False, [], [A]), make('s', False, [['sub/', 'a', '.s']], [A2])),
            (make('o', False, [], [A]), make('o', False, [['sub/', 'a', '.o']], [A2])),
            (make('s', False, [], [A]), make('o', False, [], [A2])),
            (make('s', False, [], [A, B]), make('o', False, [], [A2, B])),
            (make('exe', False, [], [A]), make('s', False, [], [A2])),
            (make('exe', True, [['', 'out1', '']], [A]), make('exe', True, [['', 'out2', '']], [A2])),
            (make('o', True, [['', 'o1', '.o']], [A]), make('o', False, [['', 'o2', '.o']], [A2])),
            (make('exe', False, [['', 'out', '']], [A]), make('exe', False, [['', 'out', '.x']], [A2]), make('exe', False, [['sub/', 'out', '']], [DOT])),
            (make('o', False, [], [A]), make('s', False, [], [A2]), make('exe', False, [], [A])),
            (make('s', False, [['', 'x1', '.s']], [A]), make('s', False, [['', 'x2', '.s']], [A2]), make('ll', False, [['', 'x3', '.ll']], [A2]))]
    for cs in same:
        for fails in ([], [1]):
            scs.append({'cmds': list(cs), 'files': BASE, 'dirs': DIRS, 'fails': fails, 'full': False, 'tmp': True})
    for _ in range(ctx.scale(60, 500)):
        scs.append(scenario(rng, 2))
    for _ in range(ctx.scale(4, 40)):
        scs.append(scenario(rng, 3))
    for s in scs:
        s['std'] = std
        s['argvs'] = [render(rng, c, plain=True) for c in s['cmds']]
    want = schedules(ctx, scs)
    todo = sorted(want)
    ctx.log('%d scenarios, %d schedules' % (len(scs), len(todo)))
    if len(todo) > ctx.scale(1500, 20000):
        todo = sorted(rng.sample(todo, ctx.scale(1500, 20000)))
    got = pmap(lambda t: replay(ctx, scs[t[0] - 1], t[1]), todo)
    ctx.log('replayed')
    for t, g in zip(todo, got):
        ctx.count('schedules replayed')
        why = judge(want[t], g)
        if why and judge(want[t], replay(ctx, scs[t[0] - 1], t[1])):
            s = scs[t[0] - 1]
            ctx.violation('%s in the order %s: %s' % (' | '.join('blang ' + ' '.join(a) for a in s['argvs']), list(t[1]), why),
                          files={'argvs': s['argvs'], 'schedule': list(t[1]), 'difference': why, 'wanted': want[t], 'fails': s['fails']})
        elif not why:
            ctx.validated += 1
            if len(ctx.samples) < 2:
                ctx.samples.append({'commands': scs[t[0] - 1]['argvs'], 'schedule': list(t[1]), 'outcome': want[t][0]['st']})
        if len(ctx.violations) > 10:
            break
    crowds(ctx, std)


SLOW = 'openat,creat,write,pwrite64,rename,renameat,renameat2,link,linkat,unlink,unlinkat,mkdir,mkdirat,newfstatat,ftruncate,execve'


def crowds(ctx, std):
    """Many commands at once, without gates: every one must end as alone.  In
    some crowds every operation on a file takes a while, so that the commands
    are in the middle of everything at the same time."""
    rng = ctx.rng
    groups = []
    slow = strace_works(ctx)
    ctx.extra['slowed down'] = 'yes' if slow else 'not possible here'
    for k in range(ctx.scale(48, 400)):
        crawl = slow and k % 4 != 0
        mode = MODES[(k // 4) % 4]
        suffix = {'exe': '', 's': '.s', 'o': '.o', 'll': '.ll'}[mode]
        cmds = []
        for i in range(3 if crawl else 12):
            m = mode if rng.random() < .8 else rng.choice(MODES)
            suffix = {'exe': '', 's': '.s', 'o': '.o', 'll': '.ll'}[m]
            ins = [rng.choice([A, A2])] if i % 3 else [rng.choice([A, A2, BAD_])]
            cmds.append(make(m, m != 'll' and rng.random() < .2, [[rng.choice(['', 'sub/']), 'p%d' % i, suffix if rng.random() < .8 else '']], ins))
        if crawl and rng.random() < .3:  # without names for the outputs
            cmds[0] = make(mode, False, [], [A])
            cmds[1] = make(mode, False, [], [B])
        groups.append({'cmds': cmds, 'files': BASE, 'dirs': DIRS, 'fails': [], 'full': False, 'tmp': True, 'std': std, 'crawl': crawl})
    # the specification: each alone
    alone = [dict(g, cmds=[c]) for g in groups for c in g['cmds']]
    want = expected(ctx, alone)

    def go(g):
        d = ctx.sub('w')
        fake = ctx.sub('fake')
        t = os.path.join(ctx.tmp, 'k%d-%d' % (os.getpid(), ctx.n))
        os.mkdir(t)
        try:
            populate(d, g)
            env = dict(ctx.env, TMPDIR=t, FAKE_DIR=fake, PATH=ctx.fakebin + ':' + STD_PATH)
            ps = []
            for c in g['cmds']:
                argv = [ctx.blang] + render(rng, c, plain=True)
                if g['crawl']:
                    argv = ['strace', '-f', '-qq', '-o', '/dev/null', '-e', 'trace=' + SLOW,
                            '-e', 'inject=%s:delay_%s=%d' % (SLOW, rng.choice(['enter', 'exit']), rng.choice([300, 1000, 4000]))] + argv
                ps.append(subprocess.Popen(argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            codes = []
            for p in ps:
                try:
                    codes.append(p.wait(timeout=60))
                except subprocess.TimeoutExpired:
                    p.kill()
                    codes.append('stuck')
            fs = snapshot(ctx, d, g)
            for x in os.listdir(t):
                fs['$TMP/' + x] = ['left']
            return codes, fs
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(fake, ignore_errors=True)
            shutil.rmtree(t, ignore_errors=True)
    k = 0
    for g in groups:                    # one group after the other, all cores
        codes, fs = go(g)
        base = {path_text(p): t for p, t in BASE}
        merged = dict(base)
        why = None
        for c, code in zip(g['cmds'], codes):
            w = want[k][0]
            k += 1
            ctx.count('commands in crowds')
            if (code == 0) != (w['st'][0] == 'ok'):
                why = 'exit status %s, wanted %s: %s' % (code, w['st'][0], render(rng, c, plain=True))
            merged.update({p: t for p, t in w['fs'].items() if p not in base})
        if why is None and fs != merged:
            why = '; '.join('%s: %s, wanted %s' % (p, json.dumps(fs.get(p, 'absent'))[:160], json.dumps(merged.get(p, 'absent'))[:160])
                            for p in sorted(set(fs) | set(merged)) if fs.get(p) != merged.get(p))[:800]
        if why:
            ctx.violation('12 commands at once: ' + why, files={'argvs': [render(rng, c, plain=True) for c in g['cmds']], 'difference': why})
        else:
            ctx.validated += len(g['cmds'])


# -- determinism ------------------------------------------------------------------

MANY = [
    # many names of every kind
    b''.join(b'v%d %d;\n' % (i, i) for i in range(40)) + b''.join(b'f%d(a) { extrn v%d; l%d: if (a) { v%d = a; a = 0; goto l%d; } return (v%d); }\n' % (i, i, i, i, i, i) for i in range(30))
    + b'main() { ' + b' '.join(b'printd(f%d(%d));' % (i, i) for i in range(30)) + b' }\n',
    # several errors of one kind
    b'main() { goto a1; goto b2; goto c3; goto d4; goto e5; goto f6; }\n',
    b'main() { a: b: c: ; a: b: c: ; }\n',
    b'main() { x1 = 1; x2 = 2; x3 = 3; }\n',
    b'main() { auto a, b, c, a, b, c; }\n',
    b'f() { switch (1) { case 1: case 2: case 3: case 1: case 2: ; } }\n',
    b'x; y; x() { } y() { } z() { extrn z, x; }\n',
    b'main() { extrn a, b, c, d, e, f; a = b = c = d = e = f; }\n',
    b's1 "a"; s2 "b"; s3 "a"; main() { printf("a"); printf("b"); printf("c"); printf("a"); }\n',
    b'main() { f(1); g(2); h(3); i(); j(); k(4, 5); }\n',
    b'main( { }\n', b'main() { if } \n', b"main() { a = 'abcdefghi'; }\n", b'main() { "unterminated\n',
    b'main() { switch (read()) { case 1: printd(1); case 9: printd(2); case 3: printd(3); case 7: case 5: case 2: printd(4); default: printd(5); } }\n',
]


def deterministic(ctx):
    rng = ctx.rng
    sources = list(MANY)
    for _ in range(ctx.scale(50, 600)):
        p = progs.any_program(rng)
        u = p['units'][0] if isinstance(p, dict) else p[0][0] if isinstance(p[0], (list, tuple)) else p[0]
        sources.append(u if isinstance(u, bytes) else u.encode('latin1'))
    for s in list(sources[len(MANY):len(MANY) + ctx.scale(25, 300)]):      # broken ones
        k = rng.randrange(len(s))
        sources.append(s[:k] + rng.choice([b'', b'(', b'}', b';', b'?']) + s[k + rng.randrange(0, 3):])
    junkdir = {'x.ll': b'junk', 'x.s.tmp.ll': b'junk', 'x.o.tmp.ll': b'junk', 'x.tmp.ll': b'junk', 'x.tmp.0.ll': b'junk', 'out.ll': b'old' * 1000,
               'out.s': b'old' * 5000, 'out.o': b'old' * 5000, 'out': b'old'}

    def variants(k):
        base = dict(ctx.env)
        yield base, {}, 'd'
        yield dict(base, TMPDIR=os.path.join(ctx.dir, 'other tmp'), LANG='C', LC_ALL='C', TZ='Asia/Tokyo', GOMAXPROCS='1'), junkdir, 'another directory'
        if k % 3 == 0:
            yield dict(base, HOME='/nonexistent', USER='nobody', GODEBUG='x=1', SOURCE_DATE_EPOCH='1', COLUMNS='20', TERM='xterm', NO_COLOR='1', PWD='/'), {}, 'd2'
            e = dict(base)
            for x in ('HOME', 'LANG', 'LC_ALL'): e.pop(x, None)
            yield dict(e, GOGC='1'), junkdir, 'e'

    os.makedirs(os.path.join(ctx.dir, 'other tmp'), exist_ok=True)

    def go(kt):
        k, text = kt
        obs = []
        real = k < ctx.scale(24, 300)
        forms = [(['--emit-llvm'], 'out.ll')] + ([(['-S'], 'out.s'), (['-c', '-O%d' % (k % 4)], 'out.o')] if real else [])
        for env, junk, name in variants(k):
            d = ctx.sub('v')
            w = os.path.join(d, name)
            os.mkdir(w)
            for n, b in junk.items():
                with open(os.path.join(w, n), 'wb') as f:
                    f.write(b)
            with open(os.path.join(w, 'x.b'), 'wb') as f:
                f.write(text)
            for args, out in forms:
                for rep in range(4 if args[0] == '--emit-llvm' else 1):
                    for o in ((args + ['-o', out, 'x.b'], out), (args + ['x.b'], 'x' + out[3:])):
                        code, so, se = ctx.compile(o[0], w, env=env)
                        data = b''
                        if code == 0 and os.path.exists(os.path.join(w, o[1])):
                            with open(os.path.join(w, o[1]), 'rb') as f:
                                data = f.read()
                        # the name of the output is only part of the key where the format has it
                        key = 'IR' if args[0] == '--emit-llvm' else ' '.join(o[0])
                        val = hashlib.sha1(repr((code, so, se)).encode() + data).hexdigest()
                        obs.append({'key': '%d %s' % (k, key), 'value': val, 'what': (o[0], name, se[:100].decode('latin1'), sorted(junk))})
            shutil.rmtree(d, ignore_errors=True)
        return obs
    all_obs = [o for part in pmap(go, list(enumerate(sources))) for o in part]
    ctx.log('%d observations' % len(all_obs))
    ctx.count('sources compiled repeatedly', len(sources))
    bad = []
    per = 2000
    # all observations of a source in one part
    parts, cur = [], []
    for i, o in enumerate(all_obs):
        if len(cur) >= per and o['key'].split()[0] != cur[-1]['key'].split()[0]:
            parts.append(cur)
            cur = []
        cur.append(o)
    parts.append(cur)
    for part in parts:
        d, text = ctx.tlc('BSame', 'same.cfg', data={'observations.json': [{'key': o['key'], 'value': o['value']} for o in part]},
                          workers=1, cfgtext='SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n')
        shutil.rmtree(d, ignore_errors=True)
        for line in text.splitlines():
            if line.startswith('"DIFFERS '):
                bad.append(part[int(line.strip('"').split()[1]) - 1])
    ctx.validated += len(all_obs) - len(bad)
    seen = set()
    for o in bad:
        k = int(o['key'].split()[0])
        if k in seen:
            continue
        seen.add(k)
        ctx.violation('outputs or messages differ between runs of the same compilation: %s\n%s' % (o['what'], sources[k][:300].decode('latin1')),
                      files={'source': sources[k].decode('latin1'), 'run': o['what']})


def run(ctx):
    build_fake(ctx)
    concurrent(ctx)
    deterministic(ctx)
    ctx.assumptions += ['interleavings at the granularity of calls of the back end are replayed, single steps are explored in the specification',
                        'concurrent commands have distinct outputs and distinct names of saved files']
