"""C15: what the runtime library writes."""
from common import *
from gen import *
import grids2

LEVELS = [(), ('-O1',), ('-O2',), ('-O3',)]

PRINTING = ['w', 'b', 'p', 'P', 'd', 'o', 's']
DIRECT = ['1', '2', '9']
SILENT = ['-']


def set_of(xs):
    return '{' + ', '.join('"%s"' % x for x in xs) + '}'


def histories(ctx, n, printing=PRINTING, direct=DIRECT, silent=SILENT, counts=(), lengths=(0,), other=()):
    """All histories of n calls, from the specification."""
    cfg = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = %d
  Printing = %s
  Direct = %s
  Silent = %s
  Counts = {%s}
  Lengths = {%s}
  Other = %s
INVARIANTS InOrder NothingLost ToItsStream Consumed EndStays Emit
''' % (n, set_of(printing), set_of(direct), set_of(silent), ', '.join(map(str, counts)),
       ', '.join(map(str, lengths)), set_of(other))
    if not printing:
        cfg = cfg.replace('SPECIFICATION Spec', 'INIT Init\nNEXT InputNext')
    d, text = ctx.tlc('BIO', 'BIO.cfg', cfgtext=cfg)
    shutil.rmtree(d, ignore_errors=True)
    out = []
    for line in text.splitlines():
        if line.startswith('"IO '):
            out.append(json.loads(json.loads(line)[3:]))
    if not out:
        raise CheckError('no histories')
    out.sort(key=lambda x: json.dumps(x))
    return out


def rword(rng):
    """A word for write: packed characters, or any number."""
    k = rng.random()
    if k < .35:
        return bchr(rng, bytes(rng.choice(b'abcXYZ 019.,%*\n\t') for _ in range(rng.randrange(1, 9))))
    if k < .5:
        return bchr(rng, bytes(rng.choice([0, 0, 1, 65, 127, 128, 200, 255, 10, 37]) for _ in range(rng.randrange(1, 9))))
    if k < .6:
        return b'0'
    if k < .75:
        return lit(rng, rng.randrange(256)).encode('latin1')
    if k < .9:
        return lit(rng, wrap(rng.getrandbits(8) << (8 * rng.randrange(8)))).encode()
    return lit(rng, wrap(rng.getrandbits(64))).encode()


def rnumber(rng):
    k = rng.random()
    if k < .4:
        return rng.choice(EXT)
    if k < .6:
        return wrap(10 ** rng.randrange(19) * rng.choice([1, -1, 9, -9]) + rng.choice([-1, 0, 1]))
    if k < .75:
        return wrap(8 ** rng.randrange(22) * rng.choice([1, -1, 7]) + rng.choice([-1, 0, 1]))
    v = rng.getrandbits(rng.randrange(1, 65))
    return wrap(v if rng.random() < .5 else -v)


def num(rng, v):
    return lit(rng, v).encode('latin1')


TEXT = [b'a', b'Z', b' ', b'0', b'%%', b'\n', b'\t', b'x y', b'\x01', b'\x7f', b'\x80', b'\xff', b'\xc3\xa9', b'"', b"'", b'*', b'{', b'}', b'\\n', b'abcdefghijklmnop']
UNKNOWN = [b'%x', b'%u', b'%D', b'%S', b'% d', b'%-d', b'%5d', b'%05o', b'%ld', b'%.2f', b'%i', b'%\n', b'%\xff', b'%C', b'%O', b'%1', b'%\x80d', b'%p', b'%e', b'%*']
END = [b'%', b'%', b'%%%']


def rformat(rng, n=None):
    """printf arguments: (format bytes, [argument texts])."""
    f, args = b'', []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 13]) if n is None else n):
        k = rng.random()
        if k < .2: f += rng.choice(TEXT)
        elif k < .3: f += rng.choice(UNKNOWN)
        elif k < .5: f += b'%d'; args.append(num(rng, rnumber(rng)))
        elif k < .65: f += b'%o'; args.append(num(rng, rnumber(rng)))
        elif k < .8: f += b'%c'; args.append(rword(rng))
        else:
            f += b'%s'
            args.append(rng.choice([b'vs', b'(&us)', b'(ls + 8)'] if rng.random() < .3 else
                                   [bstr(rng, bytes(rng.choice(b'ab %d%s\n\xff\x80*"') for _ in range(rng.choice([0, 1, 3, 7, 8, 20]))))]))
    if rng.random() < .1:
        f += rng.choice(END)
        return f, args
    if rng.random() < .15:
        args += [num(rng, rnumber(rng)) for _ in range(rng.choice([1, 3, 9]))]
    return f, args


def buf_of(rng):
    """A place that holds at least 8 bytes of integers, and its length."""
    return rng.choice([(b'vs', 24), (b'ls', 24), (b'(&us)', 8), (b'(vs + 3)', 21), (b'(ls + 8)', 16)])


def render(rng, c):
    if c == 'F0': return b'fout = 0;'
    if c == 'F1': return b'fout = 1;'
    if c == 'w': return b'write(%s);' % rword(rng)
    if c == 'b': return b'writeb(%s);' % rword(rng)
    if c == 'd': return b'printd(%s);' % num(rng, rnumber(rng))
    if c == 'o': return b'printo(%s);' % num(rng, rnumber(rng))
    if c == 'p':
        f, a = rformat(rng)
        return b'printf(%s);' % b', '.join([bstr(rng, f)] + a)
    if c == 'P':
        f, a = rformat(rng, 1)
        return b'printf(%s);' % b', '.join([bstr(rng, b'<' + f + b'>')] + a)
    if c == 's':
        return rng.choice([b'say(%s);' % bstr(rng, b'in %d\n'), b'say("");', b'lf(); /**/'.replace(b' /**/', b''), b'p = say; p("*"");',
                           b'lf(lf());', b'flush(); say("x");'])
    if c in '12':
        b, n = buf_of(rng)
        k = rng.choice([0, 1, 1, 2, 7, 8, n])
        call = b'nwrite(%s, %s, %d)' % (c.encode(), b, k)
        if rng.random() < .4:
            s = bytes(rng.choice(b'abc\0\xff%\n') for _ in range(rng.randrange(1, 12)))
            call = b'nwrite(%s, %s, %d)' % (c.encode(), bstr(rng, s), rng.randrange(len(s) + 2))
        return rng.choice([call + b';', b'p = %s; writeb(p + 48);' % call]) if rng.random() < .7 else b'if ((p = %s) < 0) write(\'neg\');' % call
    if c == '9':
        return b'if (nwrite(%s, ls, 4) < 0) writeb(\'n\'); else writeb(\'p\');' % rng.choice([b'0', b'-1', b'3', b'9', b'50', b'-100', b'1000'])
    if c == '-':
        return rng.choice([b'flush();', b'char(vs, 0);', b'read();', b'nread(0, ls, 3);', b'lchar(ls, 3, 65);', b'p = 0;', b'nwrite(1, vs, 0);'])
    raise ValueError(c)


ENDS = [b'', b'return;', b'return (0);', b'return (7);', b'return (256);', b'return (-1);', b'exit();', b'quit();', b'deep(5);', b'return (exit());', b'{ exit(); write(\'lost\'); }',
        b'if (1) return (3); write(\'no\');', b'goto end; write(\'no\'); end: ;', b'while (1) exit();']


def program(rng, hists, end):
    """One program that makes the calls of the histories, one after the other,
    each in a function of its own."""
    out = [b'us 29104508263162465;\nvs[] 7018141438172095841, -2, 3;\n'.replace(b'[]', b'[3]'),
           b'say(s) { extrn fout; auto f; f = fout; printf("%s%d", s, f); return (1); }\n',
           b'lf() { write(10); return (2); }\nquit() { exit(); }\ndeep(n) { if (n) deep(n - 1); else exit(); writeb(110); }\n']
    body = []
    for i, h in enumerate(hists):
        calls = b' '.join(render(rng, c) for c in h)
        out.append(b'h%d() { extrn fout, us, vs; auto ls[3], p; ls[0] = 478560413032; ls[1] = 7453010373645639777; ls[2] = 0; %s }\n' % (i, calls))
        body.append(b'h%d();%s' % (i, rng.choice([b'', b' fout = 0;', b' write(\'|\');'])))
    main = b'main() { extrn fout; %s %s }\n' % (b' '.join(body), end)
    out.insert(rng.randrange(len(out) + 1), main)
    return b''.join(out)


def run(ctx):
    rng = ctx.rng
    cases = []
    # every history of calls
    hs = [x['h'] for x in histories(ctx, 3)]
    ctx.extra['histories of calls'] = len(hs)
    for rep in range(ctx.scale(3, 20)):
        order = hs[:]
        rng.shuffle(order)
        per = 14
        for i in range(0, len(order), per):
            cases.append(case(program(rng, order[i:i + per], rng.choice(ENDS)), opts=[rng.choice(LEVELS)], input=b'some input\n',
                              tag='histories', fuel=100000))
    # every end of a program after a few calls
    for end in ENDS:
        for f in (b'', b'fout = 1;', b'lf();'):
            for last in (b'write(\'ab\');', b'printf("%s", "x");', b'nwrite(1, "abc", 3);', b'writeb(0);'):
                cases.append(case(b'lf() { write(10); return (2); }\nquit() { exit(); }\ndeep(n) { if (n) deep(n - 1); else exit(); writeb(110); }\n'
                                  b'main() { extrn fout; %s %s %s }' % (f, last, end), opts=[rng.choice(LEVELS)], tag='end'))
    # every byte by every route; every number
    for base in range(0, 256, 16):
        calls = b''.join(b'writeb(%d); write(%d); printf("%%c", %d); write(%d); w[0] = %d; nwrite(1, w, 1); nwrite(2, w, 2); fout = 1; writeb(%d); fout = 0;' %
                         (v, v, v, 65 * 256 + v, v, v + 256) for v in range(base, base + 16))
        cases.append(case(b'w[2];\nmain() { extrn w, fout; %s }' % calls, opts=[()], tag='bytes'))
        raw = bytes(range(max(base, 1), base + 16))
        cases.append(case(b'main() { printf(%s); printf("%%s", %s); nwrite(1, %s, %d); }' % ((bstr(rng, raw.replace(b'%', b'%%')),) + (bstr(rng, raw),) * 2 + (len(raw),)),
                          opts=[()], tag='text bytes'))
        cases.append(case(b'main() { %s }' % b' '.join(b'printf(%s, 1, 2);' % bstr(rng, b'<%' + bytes([v]) + b'>')
                                                      for v in range(max(base, 1), base + 16) if v not in b's'), opts=[()], tag='conversions'))
    nums = sorted(set(EXT + [wrap(s * (10 ** k) + d) for k in range(19) for s in (1, -1) for d in (-1, 0, 1)] +
                      [wrap((1 << k) + d) for k in range(64) for d in (-1, 0)] + [wrap(-(8 ** k)) for k in range(21)]))
    nums += [rnumber(rng) for _ in range(ctx.scale(600, 6000))]
    ctx.extra['numbers printed'] = len(nums)
    for i in range(0, len(nums), 30):
        part = nums[i:i + 30]
        cases.append(case(b'main() {\n%s}' % b''.join(
            b'printd(%s); writeb(32); printo(%s); printf(" %%d %%o*n", %s, %s);\n' % ((num(rng, v),) * 4) for v in part), opts=[rng.choice(LEVELS)], tag='numbers'))
    for _ in range(ctx.scale(250, 4000)):
        fs = [rformat(rng) for _ in range(8)]
        cases.append(case(b'us 29104508263162465;\nvs[3] 7018141438172095841, 24930;\nmain() { extrn us, vs; auto ls[3]; ls[1] = 97; us = us / 256; %s }' % b' '.join(
            b'printf(%s);' % b', '.join([bstr(rng, f + b'|')] + a) for f, a in fs), opts=[rng.choice(LEVELS)], tag='formats'))
    # long outputs, and long formats with many arguments
    for n in ctx.scale((300, 5000), (300, 5000, 50000)):
        s = bytes(rng.choice(b'abcdefgh %\n') for _ in range(n))
        cases.append(case(b'main() { auto i, s; s = %s; printf("%%s", s); nwrite(1, s, %d); nwrite(2, s, %d); }' % (bstr(rng, s), n, n // 2), opts=[()], tag='long'))
    for n in (4, 5, 6, 7, 8, 20):
        cases.append(case(b'main() { printf(%s, %s); }' % (bstr(rng, b'%d,%c,%o;' * n), b', '.join(b'%d, %d, %d' % (i - 3, 65 + i, -i) for i in range(n))), opts=[(), ('-O2',)], tag='many arguments'))
    cases += grids2.fam(rng, grids2.transfers(rng, ctx.scale(.35, 1)), LEVELS, tag='lengths')
    cases += grids2.fam(rng, grids2.counts(rng, ['printf', 'writes', 'strlen'], per=ctx.scale(2, 20)), LEVELS, tag='counts')
    # streams that are closed: what is written there is lost, nothing else
    for closed in ((1,), (2,), (1, 2), (0,), (0, 1)):
        for f in (b'0', b'1'):
            cases.append(case(b'main() { extrn fout; auto r; fout = %s; write(\'a\'); printf("%%d%%s", 5, "bc"); r = nwrite(1, "def", 3); fout = 1 - fout; writeb(r < 0 ? 78 : r + 48);'
                              b' r = nwrite(2, "ghi", 2); printd(r < 0); fout = 1 - fout; printd(r < 0); printo(r < 0 ? 9 : r); r = nwrite(1, "", 0); flush(); return (r < 0 ? 3 : 4); }' % f,
                              opts=[()], closed=closed, tag='closed streams'))
    ctx.log('%d programs' % len(cases))
    obs = lambda c: build_and_run(ctx, c, c['opts'], merge=1 not in c.get('closed', ()) and 2 not in c.get('closed', ()))
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
    ctx.assumptions += ['fout is 0 or 1; transfers of at most 100000 bytes; standard streams are pipes or closed']
