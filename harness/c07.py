"""C07: literals."""
from common import *
from gen import *
import grids2
from c01 import LEVELS

ESC = b'0etnr*\'"()'


def rnum(rng):
    k = rng.random()
    if k < .2: v = rng.randrange(100)
    elif k < .4: v = rng.choice([7, 8, 9, 10, 63, 64, 255, 256, 1023, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
                                 (1 << 63) - 1, (1 << 63) - 2, 1 << 62, 999999999999999999, 1000000000000000000,
                                 0o777777777777777777777, 0o400000000000000000000, 9223372036854775799])
    else: v = rng.getrandbits(rng.randrange(1, 64))
    v &= (1 << 63) - 1
    if rng.random() < .4:
        return '0' * rng.choice([1, 1, 1, 2, 5]) + ('%o' % v if v or rng.random() < .5 else '')
    return '%d' % v


def rbytes(rng, n, zero=True):
    k = rng.random()
    out = bytearray()
    for _ in range(n):
        if k < .4: out.append(rng.choice(b'abcXYZ09 .,;:{}()[]/*"\'\\%$#@!?&|^~`<>=+-_'))
        elif k < .7: out.append(rng.randrange(1, 256))
        elif k < .85: out.append(rng.choice(b'\n\t\r\x01\x7f\x80\xff\xc3\xa9*\'"{}()'))
        else: out.append(rng.choice(b'abc\0' if zero else b'abc'))
    if not zero:
        out = bytearray(x or 1 for x in out)
    return bytes(out)


def rchr(rng):
    return bchr(rng, rbytes(rng, rng.randrange(1, 9)))


def rstr(rng, n=None):
    return bstr(rng, rbytes(rng, rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 40]) if n is None else n))


def program(rng):
    """Literals in every position a literal can occur."""
    out = []
    calls = []
    prints = [b'ps(s, n) { auto i; i = 0; while (i < n) { printd(char(s, i)); writeb(32); i++; } writeb(10); }\n',
              b'pw(w) { printf("%d*n", w); }\n']
    ext = []

    def lit(neg=False):
        return rnum(rng).encode() if rng.random() < .5 else rchr(rng)

    def strlen(s):
        return len(eval_bytes(s))
    for i in range(rng.randrange(2, 6)):
        v = rnum(rng).encode()
        k = rng.randrange(6)
        ext.append('g%d' % i)
        if k == 0:
            out.append(b'g%d %s;\n' % (i, v)); calls.append(b'pw(g%d);' % i)
        elif k == 1:
            out.append(b'g%d -%s;\n' % (i, v)); calls.append(b'pw(g%d);' % i)
        elif k == 2:
            out.append(b'g%d %s;\n' % (i, rchr(rng))); calls.append(b'pw(g%d);' % i)
        elif k == 3:
            s = rstr(rng); out.append(b'g%d %s;\n' % (i, s)); calls.append(b'ps(g%d, %d);' % (i, strlen(s)))
        elif k == 4:
            s = rstr(rng)
            out.append(b'g%d[3] %s, -%s, %s, %s;\n' % (i, lit(), v, rchr(rng), s))
            calls.append(b'pw(g%d[0]); pw(g%d[1]); pw(g%d[2]); ps(g%d[3], %d);' % (i, i, i, i, strlen(s)))
        else:
            n = rng.choice([1, 5, 8, 17, 64])
            out.append(b'g%d[%s];\n' % (i, (rng.choice(['%d', '0%o', '00%o']) % n).encode()))
            calls.append(b'g%d[%d] = %s; pw(g%d[%d]);' % (i, n - 1, lit(), i, n - 1))
    for i in range(rng.randrange(6, 14)):
        k = rng.random()
        if k < .2:
            calls.append(b'pw(%s);' % lit())
        elif k < .3:
            calls.append(b'pw(%s - %s);' % (lit(), lit()))
        elif k < .4:
            calls.append(b'pw(- %s);' % lit())
        elif k < .6:
            s = rstr(rng)
            calls.append(b'ps(%s, %d);' % (s, strlen(s)))
        elif k < .7:
            s = rstr(rng, rng.choice([1, 3, 8, 30, 300]))
            calls.append(b'nwrite(1, %s, %d); writeb(10);' % (s, strlen(s)))
        elif k < .8:
            a = lit()
            b = lit()
            if a != b:
                calls.append(b'switch (%s) { case %s: pw(1); case %s: pw(2); }' % (rng.choice([a, b, lit()]), a, b))
        elif k < .9:
            calls.append(b'write(%s); writeb(10);' % rchr(rng))
        else:
            s = bstr(rng, rbytes(rng, rng.randrange(12), zero=False).replace(b'%', b'-'))
            calls.append(b'printf(%s); writeb(10); printf("<%%s>*n", %s);' % (s, s))
    main = b'main() { %s auto v[%s], w[010]; v[2] = 1; w[7] = 2; ' % (
        b'extrn %s;' % ', '.join(ext).encode(), rng.choice([b'3', b'03', b"'*t'", b"010"])) + b'\n '.join(calls) + b'}\n'
    return b''.join(prints + out) + main


def eval_bytes(s):
    """Contents of a string literal (to know how many bytes to print)."""
    m = {48: 0, 101: 0, 42: 42, 39: 39, 34: 34, 40: 123, 41: 125, 116: 9, 110: 10, 114: 13}
    out, i = bytearray(), 1
    while i < len(s) - 1:
        if s[i] == 42:
            out.append(m[s[i + 1]])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return bytes(out) + b'\0'


def systematic(rng):
    out = []
    # every byte as a character constant and in strings, raw where possible
    def raw(c): return c not in (42, 39)
    for lo in range(0, 256, 64):
        t = b'main() { auto i; '
        for c in range(lo, min(lo + 64, 256)):
            if raw(c):
                t += b"printd('%s'); writeb(32); " % bytes([c])
                t += b"printd('a%sb'); writeb(32); " % bytes([c])
        out.append(t + b'}')
        s = bytes(c for c in range(lo, min(lo + 64, 256)) if c not in (42, 34))
        out.append(b'g "%s"; ps(s) { auto i; i = 0; while (i < %d) { printd(char(s, i)); writeb(32); i++; } }\n'
                   b'main() { extrn g; ps("%s"); ps(g); nwrite(1, "%s", %d); printf("%%s", g); }' % (s, len(s) + 1, s, s, len(s) + 1))
    for c in ESC:
        e = b'*' + bytes([c])
        t = b'g "x%sy"; h \'%s\'; v[2] \'a%s\', "%s"; ps(s) { auto i; i = 0; while (i < 4) { printd(char(s, i++)); writeb(32); } }\n' % (e, e, e, e + b'...')
        t += b"main() { extrn g, h, v; printd('%s'); printd('%s%s'); printd('a%sbcdefg'); ps(\"%s...\"); ps(\"a%sb.\"); ps(\"ab%s.\"); ps(\"abc%s\"); ps(g); printd(h); printd(v[0]); ps(v[1]);" % ((e,) * 8)
        t += b" switch ('%s') { case '%s': printd(5); default: printd(6); } }" % (e, e)
        out.append(t)
    # every number of characters
    for n in range(1, 9):
        s = bytes(rng.choice(b'abcXYZ19') for _ in range(n))
        out.append(b"g '%s'; main() { extrn g; auto x; x = '%s'; printd(x); printd(g == x); write('%s'); switch (x) { case '%s': printd(1); } }" % (s, s, s, s))
    return out


def sequences(rng, n):
    """Every escape sequence with every character behind it and before it, in
    strings and character constants (n: how many of the pairs)."""
    todo = [(e, c) for e in ESC for c in range(32, 127) if c not in (42, 34, 39)]
    rng.shuffle(todo)
    # digits and letters first: these could be taken as part of the sequence
    todo.sort(key=lambda p: not (48 <= p[1] < 58 or chr(p[1]) in 'abcdefABCDEFxXn'))
    out = []
    todo = todo[:n]
    rng.shuffle(todo)
    for k in range(0, len(todo), 40):
        t = b'ps(s, n) { auto i; i = 0; while (i < n) { printd(char(s, i++)); writeb(32); } }\n'
        g, m, x = b'', b'', []
        for j, (e, c) in enumerate(todo[k:k + 40]):
            q = b'*' + bytes([e])
            c = bytes([c])
            d = rng.choice([c, b'1', b'0', b'7', b'9', b'a', b''])
            s = rng.choice([q + c + d, q + c + d, c + q + d + c, q + q + c, q + c + q + d, b'x' + q + c + d])
            i = rng.randrange(5)
            if i == 0:
                g += b'g%d "%s";\n' % (j, s)
                x.append(b'g%d' % j)
                m += b' ps(g%d, %d);' % (j, len(eval_bytes(b'"%s"' % s)))
            elif i == 1:
                g += b"g%d '%s';\n" % (j, s)
                x.append(b'g%d' % j)
                m += b' printd(g%d); writeb(32);' % j
            elif i == 2:
                m += b" printd('%s'); writeb(32);" % s
            elif i == 3:
                m += b" switch ('%s') { case '%s': printd(1); case '%s': printd(2); }" % (s, s, s + b'+')
            else:
                m += b' ps("%s", %d);' % (s, len(eval_bytes(b'"%s"' % s)))
        out.append(t + g + b'main() {%s\n%s}\n' % (b' extrn ' + b', '.join(x) + b';' if x else b'', m))
    return out


def numerals(rng, n):
    """Numbers with and without leading zeros, made of chosen digits, wherever a
    number can stand (n: how many)."""
    out = []
    for _ in range(n):
        m, g, x = '', '', []
        seen = set()
        for j in range(14):
            k = rng.random()
            digits = rng.choice(['0123456789', '89', '0189', '01', '7', '1234567', '08', '78'])
            s = rng.choice(['0', '0', '0', '00', '', '000']) + ''.join(rng.choice(digits) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 6, 10, 15, 18])))
            def val(s):
                v = 0
                for c in s: v = v * (8 if s[0] == '0' else 10) + int(c)
                return v
            if val(s) >= 1 << 62: s = s[:12]
            v = val(s)
            i = rng.randrange(9)
            if i == 0: g += 'g%d %s;\n' % (j, s); x.append('g%d' % j); m += ' printf("%%d ", g%d);' % j
            elif i == 1: g += 'g%d -%s;\n' % (j, s); x.append('g%d' % j); m += ' printf("%%d ", g%d);' % j
            elif i == 2: g += 'g%d[2] 1, %s;\n' % (j, s); x.append('g%d' % j); m += ' printf("%%d ", g%d[1]);' % j
            elif i == 3: m += ' switch (%s) { case %s: printf("c"); case %s: printf("d"); }' % (rng.choice(['%d' % v, s]), s, '0' + s if s[0] == '0' else s + '0' if v else '5')
            elif i == 4 and v < 3000: m += ' vec%d();' % j; g += 'vec%d() { auto v[%s], w; w = 5; v[%d] = 3; printf("%%d %%d ", v[%s - 1], w); }\n' % (j, s, max(v - 1, 0), s) if v else 'vec%d() ;\n' % j
            elif i == 5: m += ' printf("%%d ", %s * 2 + 1);' % s
            elif i == 6: m += ' printf("%%d ", - %s);' % s
            elif i == 7: m += ' printf("%%d ", %s == %d);' % (s, v)
            else: m += ' x = %s; printf("%%d ", x);' % s
        out.append((g + 'main() { auto x;%s\n%s }\n' % (' extrn ' + ', '.join(x) + ';' if x else '', m)).encode())
    return out


def malformed(rng):
    out = []
    pos = [b'main() { auto x; x = %s; }', b'main() printd(%s);', b'g %s;\nmain() ;', b'v[2] 1, %s;\nmain() ;',
           b'main() { switch (1) { case %s: ; } }', b'main() return (%s);']
    for c in range(0, 256):
        if c in ESC and c:
            continue
        out.append(rng.choice(pos[:4]) % (b'"a*' + bytes([c]) + b'b"'))
        out.append(rng.choice(pos) % (b"'*" + bytes([c]) + b"'"))
    for bad in (b"'abcdefghi'", b"'*n*n*n*n*n*n*n*n*n'", b"'abcdefgh*0'", b"'a", b'"a', b"'", b'"', b"'*'", b'"*"', b"'abc\n", b'"abc\n',
                b"'''", b'"""', b'"a"b"', b"'a'b'", b'"*', b"'*", b'1a', b'0x10', b'1.5', b'1e3', b'$', b'@1', b'`', b'\\n', b'#', b'~1', b'^1',
                b"'abcdefgh", b'"' + b'a' * 300, b'12 34', b'"a" "b"', b"'a' 'b'", b'- "a"', b"-'a'", b'--1', b'+1', b'08', b'09', b'019'):
        for p in pos:
            out.append(p % bad)
    return out


def run(ctx):
    rng = ctx.rng
    cases = []
    for t in systematic(rng):
        cases.append(case(t, opts=[(), rng.choice(LEVELS[1:])]))
    for _ in range(ctx.scale(350, 5000)):
        cases.append(case(program(rng), opts=[(), rng.choice(LEVELS[1:])]))
    cases += grids2.fam(rng, grids2.counts(rng, ['zeros', 'inits', 'strlen', 'strings'], per=ctx.scale(2, 20)), LEVELS, tag='counts')
    cases += grids2.fam(rng, grids2.bignumbers(rng, ctx.scale(60, 800)), LEVELS, tag='64-bit numbers')
    cases += grids2.fam(rng, sequences(rng, ctx.scale(500, 2000)) + numerals(rng, ctx.scale(60, 700)), LEVELS, tag='digits')
    bad = [case(t, run=False, bad=True) for t in malformed(rng)]
    ctx.extra['malformed literals'] = len(bad)

    def obs(c):
        return front(ctx, c) if c.get('bad') else build_and_run(ctx, c, c['opts'])
    cases += bad
    observe_all(cases, obs)
    ctx.log('observed')
    ctx.check_cases(cases, obs)
    ctx.extra['programs'] = len(cases)
