"""Programs for the properties that hold of every program: the generators of
C01 to C07 together, and the definitions of a program taken apart."""
from gen import *
import c01, c02, c03, c04, c05, c06, c07, c08


def flow(rng):
    big = []
    for _ in range(4):
        st = {'labels': 0, 'gotos': 0}
        s = c03.rtree(rng, rng.choice([6, 10, 14]), st)
        if st['labels'] == 0 and st['gotos']:
            s = ['q', s, ['l', ['t'], 0]]
            st['labels'] = 1
        big.append(c03.fix_gotos(s, rng, st['labels']))
    return c03.programs(rng, big, 4, lambda: [rng.getrandbits(rng.choice([3, 6, 12])) for _ in range(3)])[0]


def expressions(rng):
    """Nested expressions over variables, printed."""
    out = ['id(x) return (x);\nmain() {\n auto a, b, c, d;\n']
    vals = [rng.choice(EXT) for _ in range(4)]
    for n, v in zip('abcd', vals):
        out.append(' %s = %s;\n' % (n, lit(rng, v)))
    env = dict(zip('abcd', vals))

    def leaf():
        k = rng.random()
        if k < .5:
            n = rng.choice('abcd')
            return ('leaf', n, env[n])
        v = rng.choice(EXT)
        return ('leaf', lit(rng, v), v) if k < .9 or v < 0 else ('leaf', 'id(%s)' % lit(rng, v), v)
    for _ in range(rng.choice([4, 8])):
        e = rexpr(rng, rng.choice([2, 3, 4]), leaf)
        if ev(e) is not None:
            out.append(' printf("%%d*n", %s);\n' % show(e, 0, rng, .1))
    out.append(' return (%s);\n}\n' % rng.choice(['a', 'b & 255', '0', '17']))
    return ''.join(out)


def reader(rng):
    """A program that answers to its input."""
    return '''buf[64]; n;
get() { extrn n; auto c; c = read(); n++; return (c); }
up(c) return (c >= 'a' & c <= 'z' ? c - 32 : c);
main() {
 extrn buf, n; auto c, i, sum, words, in;
 i = 0; sum = 0; words = 0; in = 0;
 while ((c = get()) != 4) {
  switch (c) { case ' ': case '*n': case '*t': in = 0; goto next; }
  if (!in) { words++; in = 1; }
  next: sum = sum * 31 + c; if (i < %d) lchar(buf, i++, up(c));
 }
 lchar(buf, i, 0);
 printf("%%d %%d %%o %%s*n", n, words, sum, buf);
 while (i-- > 0) writeb(char(buf, i));
 writeb(10);
 return (sum);
}
''' % rng.choice([5, 64, 200, 500])


TEXTS = [b'', b'a', b'hello world\n', b'The quick brown fox\njumps over the lazy dog\n', b'a b  c\td\n\n', b'x' * 70, b'end\x04 of it', b'nul \x00 byte', b'\x80\xff high', b'\n\n']


def any_program(rng):
    """(text, input)"""
    k = rng.randrange(9)
    if k == 0: t = c02.program(rng, rng.choice([2, 3, 4]))
    elif k == 1: t = c04.program(rng)
    elif k == 2: t = c05.Calls(rng).text()
    elif k == 3: t = c07.program(rng)
    elif k == 4: t = flow(rng)
    elif k == 5: t = expressions(rng)
    elif k == 6: return reader(rng).encode(), rng.choice(TEXTS)
    elif k == 7: t = flow(rng)
    else: t = rng.choice(c08.BASES)
    return (t if isinstance(t, bytes) else t.encode('latin1')), b''


# -- definitions ----------------------------------------------------------------

def skip_statement(t, i):
    """Position after the statement at i of a token list."""
    x = t[i]
    if x == b'{':
        i += 1
        while t[i] != b'}':
            i = skip_statement(t, i)
        return i + 1
    if x in (b'if', b'while'):
        i = skip_parens(t, i + 1)
        i = skip_statement(t, i)
        if x == b'if' and i < len(t) and t[i] == b'else':
            i = skip_statement(t, i + 1)
        return i
    if x == b'switch':
        depth = 0
        i += 1
        # the expression ends where a statement begins
        while True:
            if t[i] in (b'(', b'['): depth += 1
            elif t[i] in (b')', b']'):
                depth -= 1
                if depth == 0 and t[i] == b')' and (t[i + 1] == b'{' or t[i + 1] == b'case' or t[i + 1] == b';'):
                    return skip_statement(t, i + 1)
            elif depth == 0 and t[i] in (b'{', b'case'):
                return skip_statement(t, i)
            i += 1
    if x == b'case':
        return skip_statement(t, i + 3)
    if i + 1 < len(t) and t[i + 1] == b':' and (x[:1].isalpha() or x[:1] == b'_'):
        return skip_statement(t, i + 2)
    while t[i] != b';':
        i += 1
    return i + 1


def skip_parens(t, i):
    depth = 0
    while True:
        if t[i] == b'(': depth += 1
        if t[i] == b')':
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1


def definitions(text):
    """The definitions of a program: (name, kind, tokens)."""
    t = tokens(text)
    out, i = [], 0
    while i < len(t):
        j = i + 1
        if t[j] == b'(':
            j = skip_statement(t, skip_parens(t, j))
            kind = 'fun'
        else:
            kind = 'var'
            while t[j] != b';':
                j += 1
            j += 1
        out.append((t[i], kind, t[i:j]))
        i = j
    return out


def write_defs(defs, rng=None, style=None):
    return b'\n'.join(layout(d[2], rng, style) if style else b' '.join(d[2]) for d in defs) + b'\n'


def split_program(rng):
    """(definitions, input) of some program"""
    while True:
        t, inp = any_program(rng)
        try:
            d = definitions(t)
        except IndexError:
            continue
        if sum((x[2] for x in d), []) == tokens(t) and sum(x[0] == b'main' for x in d) == 1:
            return d, inp
