"""Building and running the real code, running TLC, reporting.

Nothing here decides a property: programs and schedules are produced, the real
compiler and the programs it builds are observed, and TLC compares the
observations with the specification in /verif/spec.
"""
import json, os, pickle, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
STD_PATH = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = 8


class CheckError(Exception):
    """The check itself failed; no verdict."""


def limits():
    """Limits that every observed command inherits."""
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_cmd(argv, cwd, env, stdin=None, timeout=20, merge=False):
    """Run a command; (code, out, err).  code is 'timeout' when it had to be
    stopped, negative when a signal ended it.  After several commands that had
    to be stopped, a worker becomes impatient; differences are confirmed by
    the main process, which is not."""
    global stopped
    if stopped >= 2:
        timeout = min(timeout, 3 if stopped < 8 else 1)
    fin = open(stdin, 'rb') if stdin else open(os.devnull, 'rb')
    try:
        p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=fin, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                             start_new_session=True)
    finally:
        fin.close()
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        stopped += 1 if IMPATIENT else 0
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return 'timeout', b'', b''
    return p.returncode, out, err or b''


IMPATIENT = False                       # set in worker processes
stopped = 0


class Ctx:
    """One run of a check: scratch directory, builds, counters, verdicts."""

    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
        self.tmp = os.path.join(self.dir, 'tmp')
        self.home = os.path.join(self.dir, 'home')
        os.mkdir(self.tmp)
        os.mkdir(self.home)
        self.env = {'PATH': STD_PATH, 'HOME': self.home, 'TMPDIR': self.tmp,
                    'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}
        self.n = 0
        self.states = self.transitions = self.validated = 0
        self.stats = {}
        self.samples = []
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = []
        self.tlc_runs = 0
        self.assumptions = []
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, budget_quick=60, budget_thorough=780):
        return (budget_thorough if self.thorough else budget_quick) - (time.time() - self.t0)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sub(self, name='d'):
        self.n += 1
        d = os.path.join(self.dir, '%s%d-%d' % (name, os.getpid(), self.n))
        os.mkdir(d)
        return d

    def log(self, what):
        if os.environ.get('VERIF_LOG'):
            print('[%6.1f] %s' % (time.time() - self.t0, what), file=sys.stderr)

    def count(self, key, k=1):
        self.stats[key] = self.stats.get(key, 0) + k

    # -- builds ---------------------------------------------------------
    def build(self):
        """Compiler and runtime library from the current tree, in scratch."""
        self.blang = os.path.join(self.dir, 'blang')
        self.lib = os.path.join(self.dir, 'rt')
        env = dict(os.environ)
        env.update({'PATH': STD_PATH, 'GOTOOLCHAIN': 'local', 'GOPROXY': 'off',
                    'GOFLAGS': '-mod=mod -buildvcs=false', 'HOME': '/root', 'GOPATH': '/root/go',
                    'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': '/root/.cache/go-build'})
        for k in ('GOOS', 'GOARCH', 'GOWORK', 'CC', 'CFLAGS', 'DESTDIR', 'MAKEFLAGS'):
            env.pop(k, None)
        p = subprocess.run(['go', 'build', '-o', self.blang, '.'], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('go build failed:\n' + p.stdout.decode(errors='replace'))
        os.mkdir(self.lib)
        for f in os.listdir(os.path.join(REPO, 'runtime')):
            if f.endswith(('.c', '.h')) or f == 'Makefile':
                shutil.copy(os.path.join(REPO, 'runtime', f), self.lib)
        p = subprocess.run(['make', '-B', 'all'], cwd=self.lib, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('runtime build failed:\n' + p.stdout.decode(errors='replace'))

    def compile(self, args, cwd, timeout=30, env=None):
        return run_cmd([self.blang] + args, cwd, env or self.env, timeout=timeout)

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, files=(), data=None, heap='8g', young='4g', timeout=700,
            workers=WORKERS, opts=(), cfgtext=None):
        """Run TLC on a module of the specification in a directory of its own
        that holds the given data files; returns (directory, output text)."""
        d = self.sub('tlc')
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), d)
        if cfgtext is not None:
            with open(os.path.join(d, cfg), 'w') as f:
                f.write(cfgtext)
        for name, obj in (data or {}).items():
            with open(os.path.join(d, name), 'w') as f:
                json.dump(obj, f, separators=(',', ':'))
        os.mkdir(os.path.join(d, 'out'))
        argv = ['java', '-Xss1g', '-Xmx' + heap, '-Xmn' + young, '-XX:+UseParallelGC',
                '-Djava.io.tmpdir=' + self.tmp, '-cp', TLA_CP, 'tlc2.TLC', '-noTE',
                '-workers', str(workers), '-metadir', os.path.join(d, 'meta')]
        argv += list(opts) + ['-config', cfg, module + '.tla']
        env = {'PATH': STD_PATH, 'HOME': self.home, 'LANG': 'C.UTF-8'}
        try:
            p = subprocess.run(argv, cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        text = p.stdout.decode(errors='replace')
        self.tlc_runs += 1
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', text)
        if m:                           # the last is the total
            self.transitions += int(m[-1][0].replace(',', ''))
            self.states += int(m[-1][1].replace(',', ''))
        if p.returncode != 0:
            keep = [l for l in text.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting'))]
            raise CheckError('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, '\n'.join(keep[:60])))
        return d, text

    def judge(self, cases, chunk=300):
        """Have TLC compare the observations of every case with the
        specification; returns one result per case."""
        if not cases:
            return []
        # An identifier lets the specification read the cases by number only
        data = [{'units': [list(u) for u in c['units']], 'input': list(c.get('input', b'')),
                 'rtl': bool(c.get('rtl')), 'run': bool(c.get('run', True)),
                 'fuel': c.get('fuel', 30000), 'loops': bool(c.get('loops')),
                 'closed': list(c.get('closed', ())), 'packs': list(c.get('packs', ())), 'obs': [enc_obs(o) for o in c['obs']]} for c in cases]
        res = []
        step = 3000
        for k in range(0, len(data), step):
            part = data[k:k + step]
            d, text = self.tlc('BTrace', 'BTrace.cfg', data={'cases.json': part})
            for i in range(1, len(part) + 1):
                f = os.path.join(d, 'out', '%d.json' % i)
                if not os.path.exists(f):
                    raise CheckError('no result for case %d' % i)
                with open(f) as fh:
                    res.append(json.load(fh)[0])
            shutil.rmtree(d, ignore_errors=True)
        return res

    # -- verdicts -----------------------------------------------------------
    def check_cases(self, cases, observe):
        """Judge cases (with obs filled in by observe); confirm and report
        every difference.  observe(case) makes the observations again."""
        res = self.judge(cases)
        bad = []
        for c, r in zip(cases, res):
            self.count('judged ' + r['kind'])
            self.count('machine steps', r['steps'])
            c['result'] = r
            if os.environ.get('VERIF_LOG') == '2' and r['kind'] in ('front', 'open', 'ub', 'fuel'):
                print(r['kind'], r['why'], r['front'], r['link'], c.get('tag', ''), file=sys.stderr)
            if r['kind'] in ('ok', 'loop'):
                self.validated += sum(1 for o in c['obs'] if o['t'] in ('run', 'runall', 'hang'))
            if r['kind'] in ('ok', 'front', 'loop'):
                self.validated += sum(1 for o in c['obs'] if o['t'] in ('unit', 'link'))
                if len(self.samples) < 4 and r['kind'] == c.get('sample_kind', 'ok') and not r['diff']:
                    self.samples.append(sample(c, r))
            if r['diff']:
                bad.append(c)
        if os.environ.get('VERIF_RTL'):            # for development: which programs depend on the order
            for c, r, r3 in zip(cases, res, self.judge([dict(c, rtl=True) for c in cases])):
                if not c.get('ordered') and (r3['kind'] != r['kind'] or r['kind'] in ('ok', 'loop') and r3['expect'] != r['expect']):
                    self.count('order matters: ' + str(c.get('tag'))[:30])
                    if c.get('tag') is None and os.environ['VERIF_RTL'] == '2':
                        print(bytes(c['units'][0]).decode('latin1'), file=sys.stderr)
        if not bad:
            return
        self.count('differences first seen', len(bad))
        # Again, by itself, and with the operands evaluated the other way
        bad.sort(key=lambda c: any(o.get('code') == 'timeout' for o in c['obs']))
        for k in range(0, min(len(bad), 240), 24):
            again = [dict(c) for c in bad[k:k + 24]]
            observe_all(again, observe)
            rs = self.judge(again + [dict(c, rtl=True) for c in again])
            for c, r2, r3 in zip(again, rs, rs[len(again):]):
                if r2['diff'] and any(o.get('code') == 'timeout' for o in c['obs']):
                    c['obs'] = observe(c)          # once more, with nothing beside it
                    r2 = self.judge([c])[0]
                if not r2['diff']:
                    self.count('differences not reproduced')
                elif not c.get('ordered') and (r3['kind'] != r2['kind'] or (
                        r2['kind'] in ('ok', 'loop') and (not r3['diff'] or r3['expect'] != r2['expect']))) and not disagree(c['obs'], r2, r3):
                    self.count('depends on evaluation order, not judged')
                else:
                    self.violation(describe(c, r2), c, r2)
                    if len(self.violations) >= 3:
                        return

    def violation(self, what, case=None, result=None, files=None):
        for k in self.known:
            if k['match'] in what or (case and any(k['match'].encode() in bytes(u) for u in case['units'])):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append((what, case, result, files))

    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'samples': self.samples or ['(none)'], 'tlc_runs': self.tlc_runs}
        cov.update(self.stats)
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['text']))
        if not self.violations:
            print('%s: held on everything explored; %s' % (self.pid, json.dumps(
                {k: v for k, v in cov.items() if k != 'samples'})))
            return 0
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, (what, case, result, files) in enumerate(self.violations[:5]):
            path = os.path.join(rdir, '%s-%d.json' % (self.pid, i + 1))
            rec = {'property': self.pid, 'what': what, 'result': result, 'seed': self.seed}
            if case:
                rec['units'] = [bytes(u).decode('latin1') for u in case['units']]
                rec['input'] = bytes(case.get('input', b'')).decode('latin1')
                rec['obs'] = [enc_obs(o) for o in case['obs']]
                rec['how'] = case.get('how')
            if files:
                rec.update(files)
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  ' + what[:600].replace('\n', '\n  '))
        return 1


def enc_obs(o):
    o = dict(o)
    for k in ('out', 'err'):
        if k in o and isinstance(o[k], (bytes, bytearray)):
            o[k] = list(o[k])
    if 'code' in o and not isinstance(o['code'], int):
        o['code'] = -1000
    o.pop('tag', None)
    return o


def sample(c, r):
    s = {'source': [bytes(u).decode('latin1')[:700] for u in c['units']], 'kind': r['kind'],
         'steps': r['steps']}
    if c.get('input'):
        s['input'] = bytes(c['input']).decode('latin1')[:100]
    for o in c['obs']:
        if o['t'] == 'run':
            s['code'] = o['code']
            s['out'] = bytes(o['out']).decode('latin1')[:200]
            break
    return s


def describe(c, r):
    lines = []
    for i in r['diff'][:3]:
        o = c['obs'][i - 1]
        lines.append('observation %s%s' % (o['t'], ' (%s)' % o['tag'] if o.get('tag') else ''))
        for k in ('i', 'ok', 'code'):
            if k in o:
                lines.append('  %s = %r' % (k, o[k]))
        for k in ('out', 'err'):
            if k in o:
                lines.append('  %s = %r' % (k, bytes(o[k])[:300]))
    if r['expect']:
        e = r['expect'][0]
        lines.append('specification: code %s out %r err %r' % (e['code'], bytes(e['out'])[:300], bytes(e['err'])[:300]))
    else:
        lines.append('specification: %s (front %s, link %s) %s' % (r['kind'], r['front'], r['link'], r['why']))
    return '\n'.join(lines)


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append({'match': m.group(2), 'text': m.group(3)})
    return out


# ---------------------------------------------------------------------------
# Observing programs

PANIC = re.compile(rb'panic:|goroutine \d|runtime error|fatal error|SIGSEGV')


def clean_end(code, out, err):
    """Did a command end by itself, with a message when it failed?"""
    if code == 'timeout' or code < 0 or PANIC.search(err) or PANIC.search(out):
        return False
    if code != 0 and not err.strip():
        return False
    return True


def build_and_run(ctx, case, optlist=((),), merge=False, keep=None, timeout=20):
    """Observations of a program: is it linked, and what does it do at each of
    the option lists?"""
    d = ctx.sub('c')
    try:
        names = []
        for i, u in enumerate(case['units']):
            n = 'u%d.b' % i
            with open(os.path.join(d, n), 'wb') as f:
                f.write(bytes(u))
            names.append(n)
        with open(os.path.join(d, 'input'), 'wb') as f:
            f.write(bytes(case.get('input', b'')))
        obs = []
        for k, opts in enumerate(optlist):
            exe = os.path.join(d, 'a%d' % k)
            code, out, err = ctx.compile(list(opts) + ['-L', ctx.lib, '-o', exe] + names, d)
            tag = ' '.join(opts)
            ok = code == 0 and os.path.exists(exe)
            obs.append({'t': 'link', 'ok': ok, 'tag': tag})
            if not clean_end(code, out, err):
                obs.append({'t': 'clean', 'ok': False, 'tag': tag})
            if ok:
                obs += run_exe(ctx, exe, d, tag, merge, timeout, case.get('closed', ()), case.get('loops'))
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_exe(ctx, exe, d, tag='', merge=False, timeout=20, closed=(), loops=False):
    argv = [exe]
    if loops:                   # stopped after a second of its own time
        code, out, err = run_cmd(['/bin/sh', '-c', 'ulimit -S -t 1; exec "$0"', exe], d, ctx.env, stdin=os.path.join(d, 'input'), timeout=90)
        if code == -signal.SIGXCPU:
            return [{'t': 'hang', 'out': out[:60000], 'err': err[:60000], 'tag': tag}]
        return [{'t': 'run', 'code': code, 'out': out[:60000], 'err': err[:60000], 'tag': tag}]
    if closed:                  # the shell closes them and becomes the program
        argv = ['/bin/sh', '-c', 'exec "$0" ' + ' '.join(
            '%d%s&-' % (fd, '<' if fd == 0 else '>') for fd in closed), exe]
    code, out, err = run_cmd(argv, d, ctx.env, stdin=os.path.join(d, 'input'), timeout=timeout)
    obs = [{'t': 'run', 'code': code, 'out': out[:60000], 'err': err[:60000], 'tag': tag}]
    if merge:
        code, out, err = run_cmd(argv, d, ctx.env, stdin=os.path.join(d, 'input'), timeout=timeout,
                                 merge=True)
        obs.append({'t': 'runall', 'code': code, 'out': out[:60000], 'tag': tag})
    return obs


def pmap(f, xs, workers=WORKERS):
    """f of every x, in worker processes; the order is kept."""
    xs = list(xs)
    if not xs:
        return []
    if len(xs) == 1:
        return [f(xs[0])]
    workers = min(workers, len(xs))
    sys.stdout.flush()
    sys.stderr.flush()
    pids, pipes = [], []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for q in pipes:
                    q.close()
                limits()
                global IMPATIENT
                IMPATIENT = True
                res = []
                for i in range(w, len(xs), workers):
                    res.append((i, f(xs[i])))
                with os.fdopen(wr, 'wb') as g:
                    pickle.dump(res, g)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        pipes.append(os.fdopen(r, 'rb'))
    out = [None] * len(xs)
    ok = True
    for pid, q in zip(pids, pipes):
        data = q.read()
        q.close()
        ok = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0 and ok
        if ok:
            for i, v in pickle.loads(data):
                out[i] = v
    if not ok:
        raise CheckError('a worker process failed')
    return out


def disagree(obs, *results):
    """Do runs of one program differ where the specification has one outcome?"""
    return all(r['kind'] in ('ok', 'loop') for r in results) and len({json.dumps({k: v for k, v in enc_obs(o).items() if k != 'tag'}, sort_keys=True) for o in obs if o['t'] in ('run', 'link', 'hang')}) > 2


def observe_all(cases, observe):
    for c, o in zip(cases, pmap(observe, cases)):
        c['obs'] = o


SENTINEL = b'previous contents\n'


def front(ctx, case, timeout=10):
    """Observations of the compiler alone: is every file accepted, does the
    compiler end cleanly, and does a rejected file leave everything as it was?"""
    d = ctx.sub('f')
    obs = []
    try:
        for i, u in enumerate(case['units']):
            src = os.path.join(d, 'u%d.b' % i)
            out = os.path.join(d, 'out%d.ll' % i)
            with open(src, 'wb') as f:
                f.write(bytes(u))
            with open(out, 'wb') as f:
                f.write(SENTINEL)
            before = set(os.listdir(d))
            code, so, se = ctx.compile(['--emit-llvm', '-o', out, src], d, timeout=timeout)
            obs.append({'t': 'unit', 'i': i + 1, 'ok': code == 0, 'tag': se[:80].decode('latin1')})
            clean = clean_end(code, so, se) and set(os.listdir(d)) == before
            with open(src, 'rb') as f:
                clean = clean and f.read() == bytes(u)
            with open(out, 'rb') as f:
                text = f.read()
            clean = clean and (text == SENTINEL) == (code != 0)
            if not clean:
                obs.append({'t': 'clean', 'ok': False, 'tag': 'status %s, files %s, output %s' % (
                    code, sorted(set(os.listdir(d)) ^ before), 'kept' if text == SENTINEL else 'changed')})
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)
