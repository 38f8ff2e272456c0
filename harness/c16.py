"""C16: what the runtime library reads, and bytes of strings and buffers."""
import fcntl, struct, termios, threading
from common import *
from gen import *
from c15 import histories, LEVELS
import grids2

# A program that carries out calls its input names, so that one executable
# serves all histories.  The calls end with a newline; what follows is the data
# they consume.  The buffer is shown at the end, byte by byte.
SCRIPT = b'''
script[16]; buf[5]; zone[7];
shown(p, n) { auto i; i = 0; while (i < n) { printf("%%o ", char(p, i)); i++; } }
main() {
  extrn script, buf, zone;
  auto i, k, c, at, r, b[4];
  i = 0;
  while (i < 4) { b[i] = 3327647950551526912 + i; i++; }
  i = 0;
  while (i < 40) lchar(buf, i++, 46);
  while (i < 96) { lchar(zone, i - 40, 47); i++; }
  k = 0;
  while ((c = read()) != 10) lchar(script, k++, c);
  at = 0;
  i = 0;
  while (i < k) {
    switch (char(script, i++)) {
    case 'r': r = read(); printf("r%%d ", r); if (at < 40) lchar(buf, at++, r); %(brk)s
    case 'c': printf("c%%d ", char(buf, at %% 40)); %(brk)s
    case 'l': lchar(buf, at %% 40, at * 37 + i); at++; %(brk)s
    case 'b': printf("b%%d ", nread(%(bad)s, buf, 3) < 0); %(brk)s
    case 'z': r = nread(0, zone + 5, 11); printf("z%%d ", r); %(brk)s
    case 'v': r = nread(0, &b[1], 8); printf("v%%d %%d ", r, b[1]); %(brk)s
    default:
      r = nread(0, buf + at, c = char(script, i - 1) - '0'); printf("n%%d ", r);
      if (r < 0) write('bad'); at = at + r;
    }
  }
  writeb(10);
  shown(buf, 40); shown(zone, 56); shown(b, 32);
  %(end)s
}
'''


def script(rng):
    # no break in B: the cases end with goto
    text = SCRIPT % {b'brk': b'goto next;', b'bad': rng.choice([b'-1', b'1', b'2', b'5', b'60', b'99999']),
                     b'end': rng.choice([b'', b'return (at);', b'exit();'])}
    return text.replace(b'    }\n  }\n  writeb', b'    }\n    next: ;\n  }\n  writeb')


def rdata(rng, n):
    k = rng.random()
    if k < .3: return bytes(rng.choice(b'abcdefgh\n 019') for _ in range(n))
    if k < .5: return bytes(rng.choice([0, 1, 4, 10, 127, 128, 255, 65]) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def observe_shared(ctx, group):
    """Build one program and run it on the inputs of all cases of the group."""
    d = ctx.sub('s')
    try:
        with open(os.path.join(d, 'u.b'), 'wb') as f:
            f.write(group[0]['units'][0])
        exe = os.path.join(d, 'a')
        code, out, err = ctx.compile(list(group[0]['opts'][0]) + ['-L', ctx.lib, '-o', exe, 'u.b'], d)
        res = []
        for c in group:
            obs = [{'t': 'link', 'ok': code == 0 and os.path.exists(exe)}]
            if obs[0]['ok']:
                with open(os.path.join(d, 'input'), 'wb') as f:
                    f.write(c['input'])
                obs += run_exe(ctx, exe, d)
            res.append(obs)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def piecewise(ctx, c):
    """The same program with its input arriving in pieces through a pipe."""
    obs = build_and_run(ctx, c, c['opts'])
    d = ctx.sub('p')
    try:
        with open(os.path.join(d, 'u.b'), 'wb') as f:
            f.write(c['units'][0])
        exe = os.path.join(d, 'a')
        code, out, err = ctx.compile(['-L', ctx.lib, '-o', exe, 'u.b'], d)
        if code != 0:
            return obs
        p = subprocess.Popen([exe], cwd=d, env=ctx.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)

        def feed():
            data = c['input']
            try:
                for i in range(0, len(data), c['piece']):
                    os.write(p.stdin.fileno(), data[i:i + c['piece']])
                    time.sleep(0.004)
            except OSError:
                pass
            p.stdin.close()
        t = threading.Thread(target=feed)
        t.start()
        outs = []
        te = threading.Thread(target=lambda: outs.append(p.stderr.read()))
        te.start()
        killer = threading.Timer(20, lambda: os.killpg(p.pid, signal.SIGKILL))
        killer.start()
        out = p.stdout.read()
        te.join()
        code = p.wait()
        killer.cancel()
        t.join()
        obs.append({'t': 'run', 'code': code, 'out': out, 'err': outs[0], 'tag': 'input in pieces'})
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def packets(ctx, c):
    """The program with its input arriving through a pipe in pieces, each of
    them only when the program has taken all that was there."""
    d = ctx.sub('p')
    try:
        with open(os.path.join(d, 'u.b'), 'wb') as f:
            f.write(c['units'][0])
        exe = os.path.join(d, 'a')
        code, out, err = ctx.compile(list(c['opts'][0]) + ['-L', ctx.lib, '-o', exe, 'u.b'], d)
        obs = [{'t': 'link', 'ok': code == 0 and os.path.exists(exe)}]
        if not obs[0]['ok']:
            return obs
        r, w = os.pipe()
        with open(os.path.join(d, 'out'), 'wb') as so, open(os.path.join(d, 'err'), 'wb') as se:
            p = subprocess.Popen([exe], cwd=d, env=ctx.env, stdin=r, stdout=so, stderr=se, start_new_session=True)

        def taken():
            end = time.time() + 20
            while p.poll() is None and time.time() < end:
                if struct.unpack('i', fcntl.ioctl(r, termios.FIONREAD, b'0000'))[0] == 0:
                    return True
                time.sleep(.0005)
            return False
        at = 0
        for e in c['packs']:
            os.write(w, c['input'][at:e])
            at = e
            if not taken():
                break
        os.close(w)
        os.close(r)
        try:
            code = p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            code = p.wait()
        so, se = (open(os.path.join(d, x), 'rb').read() for x in ('out', 'err'))
        obs.append({'t': 'run', 'code': code, 'out': so, 'err': se, 'tag': 'input as it is taken'})
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def packed(rng, n):
    """Programs that read a pipe (n: how many)."""
    out = []
    for _ in range(n):
        cut, data = [], rdata(rng, 200)
        at = 0
        for _ in range(rng.randrange(1, 9)):
            at += rng.choice([1, 1, 2, 3, 5, 7, 8, 9, 15, 16, 20, 31])
            if at > 200: break
            cut.append(at)
        data = data[:cut[-1]]
        k = rng.choice([1, 2, 3, 7, 8, 9, 16, 33, 64])
        t = rng.choice([
            b'main() { auto b[10], k; b[0] = 0; while ((k = nread(0, b, %d)) > 0) { printf("%%d:", k); nwrite(1, b, k); } printf("end %%d %%d", k, nread(0, b, %d)); }' % (k, k),
            b'main() { auto b[10], k, c; k = 1; while (k > 0) { c = read(); k = nread(0, b, %d); printf("%%d %%d;", c, k); } printd(read()); }' % k,
            b'main() { auto b[30], k, t; t = 0; while (t < 100 & (k = nread(0, b + t, %d)) > 0) { t =+ k; printd(t); writeb(32); } nwrite(1, b, t); }' % k,
            b'main() { auto b[10], k, i; i = 1; while ((k = nread(0, b, i)) > 0) { printf("%d/%d ", k, i); i = i * 2 % 61; } printd(k); }',
            b'main() { auto c; while ((c = read()) != 4) writeb(c + 1); printd(read()); }',
            b'main() { auto b[10], v, k; v = b; printd(nread(0, v + 3, %d)); printd(nread(0, v + 3, 1)); printd(read()); k = nread(0, v, 64); printd(k); nwrite(1, v, k); }' % k])
        out.append(case(t, input=data, packs=cut, opts=[(rng.choice(LEVELS))], tag='pipe'))
    return out


READERS = [
    b'main() { auto c, n; n = 0; while ((c = read()) != 4) { printf("%d ", c); n++; } printf("*n%d %d %d*n", n, read(), read()); }',
    b'main() { auto c; while (c = read(), 1) ; }',
    b'line(v, n) { auto i, c; i = 0; while (i < n) { c = read(); lchar(v, i, c); if (c == 4) return (i); if (c == \'*n\') return (i + 1); i++; } return (i); }\n'
    b'main() { auto v[4], n; while ((n = line(v, 20)) > 0) { printf("%d:", n); nwrite(1, v, n); } printf("end %d", read()); }',
    b'main() { auto a, b; a = read(); b = read(); while (a != 4 & b != 4) { writeb(b); writeb(a); a = read(); b = read(); } printd(a); printd(b); return (read()); }',
    b'copy(n) { auto b[8], k; while ((k = nread(0, b, n)) > 0) { if (nwrite(1, b, k) != k) write(\'?\'); printd(k); } return (k); }\nmain() { auto b; printd(copy(%d)); printd(nread(0, &b, 8)); printd(read()); }',
    b'main() { auto b[6], i, k, t; t = 0; i = 1; while ((k = nread(0, b + t %% 7, i)) > 0) { nwrite(2, b + t %% 7, k); t =+ k; i = i %% 9 + 1; if (t %% 3 == 0) printd(read()); } printd(t); return (t); }',
]


def strings(rng):
    """char and lchar over strings, buffers, words, with every kind of index."""
    out = [b'gs "%s";\n' % b''.join(rng.choice([b'a', b'Z', b'9', b'*n', b'**', b'\x80', b'\xff', b'\xe9', b'*0', b'\x01']) for _ in range(rng.randrange(1, 20)))]
    vals = [rng.getrandbits(62) for _ in range(3)]
    out.append(b'gv[3] %d, %d, %d;\ngw %d;\n' % (*vals, rng.getrandbits(60)))
    body = [b'lv[0] = %d; lv[1] = %d; lv[2] = -%d; lw = %d; p = &lv[1];' % (rng.getrandbits(60), rng.getrandbits(60), rng.getrandbits(60), rng.getrandbits(60))]
    size = {b'gv': 24, b'(&gw)': 8, b'lv': 24, b'(&lw)': 8, b'(gv + 8)': 16, b'(lv + 3)': 21, b'&lv[2]': 8}
    for _ in range(rng.randrange(4, 14)):
        k = rng.random()
        if k < .12:
            n = rng.randrange(1, 12)
            body.append(b'printf("%%d ", char(%s, %d));' % (bstr(rng, bytes(rng.randrange(1, 256) for _ in range(n))), rng.randrange(n + 1)))
        elif k < .2:
            body.append(b'printf("%d ", char(gs, 0));')
        elif k < .3:
            body.append(b'printf("%%d ", char(p, %s));' % lit(rng, rng.randrange(-8, 16)).encode())
        elif k < .4:
            body.append(b'lchar(p, %s, %s);' % (lit(rng, rng.randrange(-8, 16)).encode(), lit(rng, rng.choice(EXT + [65, 200, 0, 255, 256, -1])).encode('latin1')))
        elif k < .7:
            b = rng.choice(list(size))
            body.append(b'lchar(%s, %d, %s);' % (b, rng.randrange(size[b]), rng.choice([b"'x'", b"'xy'", lit(rng, rng.randrange(256)).encode('latin1'), lit(rng, wrap(rng.getrandbits(64))).encode('latin1')])))
        else:
            b = rng.choice(list(size))
            body.append(b'printf("%%d ", char(%s, %d));' % (b, rng.randrange(size[b])))
    body.append(b'printf("*n%d %d %d %d|%d %d %d %d", gv[0], gv[1], gv[2], gw, lv[0], lv[1], lv[2], lw);')
    body.append(b'printf(" %s", gs);')
    out.append(b'main() { extrn gs, gv, gw; auto lv[3], lw, p; %s }\n' % b' '.join(body))
    rng.shuffle(out)
    return b''.join(out)


def run(ctx):
    rng = ctx.rng
    # every history of input calls, with every length of the data
    hs = histories(ctx, ctx.scale(3, 4), printing=[], direct=[], silent=[], counts=[0, 1, 3, 9],
                   lengths=ctx.scale([0, 1, 2, 3, 5, 8, 13, 20], [0, 1, 2, 3, 4, 5, 8, 13, 20, 29]),
                   other=['c', 'l', 'b', 'z', 'v'])
    ctx.extra['histories of input calls'] = len(hs)
    want = ctx.scale(2400, 40000)
    if len(hs) > want:
        hs = rng.sample(hs, want)
    progs = [case(script(rng), opts=[rng.choice(LEVELS)]) for _ in range(8)]
    groups = [[] for _ in progs]
    for i, x in enumerate(hs):
        g = i % len(progs)
        text = ''.join(x['h'])
        groups[g].append(dict(progs[g], input=text.encode() + b'\n' + rdata(rng, x['len']), tag='history'))
    for _ in range(ctx.scale(400, 6000)):           # longer ones
        g = rng.randrange(len(progs))
        text = ''.join(rng.choice('rrr013579clbzv') for _ in range(rng.randrange(5, 12)))
        # the counts must fit the buffer
        if sum(int(ch) if ch.isdigit() else 1 if ch in 'rl' else 0 for ch in text) <= 38:
            groups[g].append(dict(progs[g], input=text.encode() + b'\n' + rdata(rng, rng.randrange(60)), tag='long history'))
    shared = [c for g in groups for c in g]
    per = 40
    parts = [g[i:i + per] for g in groups for i in range(0, len(g), per)]
    for part, obs in zip(parts, pmap(lambda p: observe_shared(ctx, p), parts)):
        for c, o in zip(part, obs):
            c['obs'] = o
    ctx.log('%d histories observed' % len(shared))
    ctx.check_cases(shared, lambda c: observe_shared(ctx, [c])[0])
    ctx.log('judged')

    cases = []
    for t in READERS:
        for _ in range(ctx.scale(14, 200)):
            n = rng.choice([0, 1, 2, 7, 8, 9, 30, 64, 120])
            text = t.replace(b'%d));', b'%d));').replace(b'%%', b'%')
            if b'copy(%d)' in text:
                text = text.replace(b'copy(%d)', b'copy(%d)' % rng.choice([1, 2, 3, 7, 8, 9, 33, 64]))
            cases.append(case(text, input=rdata(rng, n), opts=[rng.choice(LEVELS)], tag='reader'))
    for closed in ((0,), (0, 2)):
        for t in READERS[:1] + READERS[2:4] + [b'main() { auto b[3], r; b[0] = 5; r = nread(0, b, 8); if (r < 0) write(\'neg\'); printd(b[0]); printd(read()); }']:
            cases.append(case(t, input=b'not read', closed=closed, opts=[()], tag='closed input'))
    cases = [c for c in cases if b'read(), 1' not in c['units'][0]]
    # all byte values through read, nread, char, lchar
    for base in range(0, 256, 32):
        data = bytes(range(base, base + 32))
        cases.append(case(b'main() { auto i; i = 0; while (i < 34) { printf("%d ", read()); i++; } }', input=data, opts=[()], tag='bytes'))
        cases.append(case(b'main() { auto i, b[4]; printd(nread(0, b, 32)); i = 0; while (i < 32) { printf(" %d", char(b, i)); i++; } i = 0; while (i < 4) printf(" %d", b[i++]); }', input=data, opts=[()], tag='bytes'))
        cases.append(case(b'main() { auto i, b[5]; b[4] = 0; i = 0; while (i < 32) { lchar(b, i, i + %d); i++; } }' % base, opts=[()], tag='bytes'))
        cases.append(case(b'v[5];\nmain() { extrn v; auto i; i = 0; while (i < 32) { lchar(v, i + 3, i + %d); i++; } i = 0; while (i < 40) { printf("%%d ", char(v, i)); i++; } i = 0; while (i < 5) printf("%%o ", v[i++]); }' % base, opts=[()], tag='bytes'))
        raw = bytes(range(max(base, 1), base + 32))
        cases.append(case(b's %s;\nmain() { extrn s; auto i, t; t = %s; i = 0; while (i <= %d) { printf("%%d %%d ", char(s, i), char(t, i)); i++; } }' % (bstr(rng, raw), bstr(rng, raw), len(raw)), opts=[()], tag='bytes'))
    for t, data in grids2.inputs(rng, ctx.scale(160, 2500)):
        cases.append(case(t, input=data, opts=[rng.choice(LEVELS)], fuel=300000, tag='lengths of input'))
    for _ in range(ctx.scale(500, 8000)):
        cases.append(case(strings(rng), opts=[rng.choice(LEVELS)], tag='strings'))
    ctx.log('%d programs' % len(cases))
    obs = lambda c: build_and_run(ctx, c, c['opts'])
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.log('judged')
    # read does not depend on how the input arrives
    pieces = [case(READERS[k], input=rdata(rng, n), piece=p, opts=[()], tag='pieces')
              for k in (0, 2, 3) for n, p in ((5, 1), (40, 7), (64, 1), (30, 29))]
    observe_all(pieces, lambda c: piecewise(ctx, c))
    ctx.check_cases(pieces, lambda c: piecewise(ctx, c))
    pieces += packed(rng, ctx.scale(150, 1500))
    observe_all([c for c in pieces if 'packs' in c], lambda c: packets(ctx, c))
    ctx.check_cases([c for c in pieces if 'packs' in c], lambda c: packets(ctx, c))
    ctx.extra['programs'] = len(cases) + len(progs) + len(pieces)
    ctx.assumptions += ['counts at most the room in the buffer; input a file, for read also a pipe; standard input may be closed']
