"""Programs: structure and random choices only.  What they mean is decided by
the specification; the arithmetic below merely keeps generated programs away
from undefined behaviour."""
import re

M = (1 << 64) - 1
BIN = ['*', '/', '%', '+', '-', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '|']
PREC = {'*': 7, '/': 7, '%': 7, '+': 6, '-': 6, '<<': 5, '>>': 5, '<': 4, '<=': 4, '>': 4,
        '>=': 4, '==': 3, '!=': 3, '&': 2, '|': 1}
ASG = ['=', '=+', '=-', '=*', '=/', '=%', '=&', '=|', '=<<', '=>>', '=<', '=<=', '=>', '=>=',
       '===', '=!=']
EXT = [0, 1, -1, 2, 3, -2, -3, 5, 7, 8, 10, 63, 64, 100, 127, 128, 255, 256, -128, -256, 1000,
       (1 << 31) - 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) - 1, -(1 << 32), (1 << 63) - 1,
       -(1 << 63), -(1 << 63) + 1, 1 << 62, 0x5555555555555555, 0x0123456789abcdef,
       1000000007, 10 ** 18, -10 ** 18]


def wrap(v):
    v &= M
    return v - (1 << 64) if v >> 63 else v


def apply(op, a, b):
    """Value of a op b, None when undefined."""
    if op == '*': return wrap(a * b)
    if op == '+': return wrap(a + b)
    if op == '-': return wrap(a - b)
    if op in '/%':
        if b == 0 or (a == -(1 << 63) and b == -1): return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q if op == '/' else a - q * b
    if op in ('<<', '>>'):
        if not 0 <= b <= 63: return None
        return wrap(a << b) if op == '<<' else a >> b
    if op == '&': return a & b
    if op == '|': return a | b
    return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])


# -- expressions: ('leaf', text, value) ('un', op, e) ('bin', op, a, b)
#    ('cond', c, a, b); every node is (tuple, value) ------------------------

def ev(e):
    k = e[0]
    if k == 'leaf':
        return e[2]
    if k == 'un':
        v = ev(e[2])
        if v is None: return None
        return wrap(-v) if e[1] == '-' else int(v == 0)
    if k == 'bin':
        a, b = ev(e[2]), ev(e[3])
        return None if a is None or b is None else apply(e[1], a, b)
    if k == 'cond':
        c = ev(e[1])
        if c is None: return None
        return ev(e[2]) if c else ev(e[3])
    raise ValueError(e)


def show(e, min_prec=0, rng=None, extra=0.0):
    """Text of an expression, with parentheses where grouping needs them (and
    some more with probability extra)."""
    k = e[0]
    if k == 'leaf':
        s, p = e[1], 9
        if s.startswith(('-', '*', '&', '!', '+')): p = 8
        if s.endswith('!c'): s, p = s[:-2], 0
    elif k == 'un':
        s, p = e[1] + ' ' + show(e[2], 8, rng, extra), 8
    elif k == 'bin':
        q = PREC[e[1]]
        s, p = show(e[2], q, rng, extra) + ' ' + e[1] + ' ' + show(e[3], q + 1, rng, extra), q
    else:
        s = '%s ? %s : %s' % (show(e[1], 1, rng, extra), show(e[2], 1, rng, extra), show(e[3], 0, rng, extra))
        p = 0
    if p < min_prec or (rng and extra and rng.random() < extra):
        s = '(' + s + ')'
    return s


def lit(rng, v):
    """A literal expression text of value v (parenthesized when compound)."""
    if v == -(1 << 63):
        return '(-9223372036854775807 - 1)'
    if v < 0:
        return '(-%s)' % lit(rng, -v)
    r = rng.random()
    if r < 0.15:
        return '0%o' % v if v else '0'
    if r < 0.3 and 32 <= v < 127 and chr(v) not in '\'*':
        return "'%s'" % chr(v)
    return str(v)


def rexpr(rng, depth, leaf, ops=BIN, cond=0.12, un=0.15):
    """A random expression that is defined for the values of its leaves."""
    if depth <= 0 or rng.random() < 0.1:
        return leaf()
    r = rng.random()
    if r < un:
        return ('un', rng.choice('-!-'), rexpr(rng, depth - 1, leaf, ops, cond, un))
    if r < un + cond:
        return ('cond', rexpr(rng, depth - 1, leaf, ops, cond, un),
                rexpr(rng, depth - 1, leaf, ops, cond, un), rexpr(rng, depth - 1, leaf, ops, cond, un))
    a = rexpr(rng, depth - 1, leaf, ops, cond, un)
    b = rexpr(rng, depth - 1, leaf, ops, cond, un)
    for _ in range(6):
        e = ('bin', rng.choice(ops), a, b)
        if ev(e) is not None:
            return e
    return ('bin', '+', a, b)


# -- tokens and layout ----------------------------------------------------------

TOK = re.compile(rb'''\s+|/\*.*?\*/|[A-Za-z_][A-Za-z0-9_]*|[0-9]+|'(?:\*.|[^*'])*'|"(?:\*.|[^*"])*"
                     |===|=!=|=<=|=<<|=>=|=>>|==|=\+|=-|=\*|=/(?!\*)|=%|=&|=\||=<|=>|!=|<<|<=|>>|>=|\+\+|--|.''',
                 re.S | re.X)


def tokens(text):
    if isinstance(text, str):
        text = text.encode('latin1')
    return [t for t in TOK.findall(text) if not t.isspace() and not t.startswith(b'/*')]


def glued(a, b):
    """Would a and b written together be read differently?"""
    return tokens(a + b) != [a, b] or (a[-1:] in b'=/<>!' and b[:1] in b'=/*<>!')


COMMENTS = [b'/**/', b'/* */', b'/***/', b'/*/ */', b'/* ** / * // */', b'/* " */', b"/* ' */",
            b'/* } ; */', b'/*x*/', b'/* a\n b */', b'/****/', b'/* else */', b'/* * */', b'/*"*/',
            b'/* *e *n */', b'/*\t*/', b'/* return ( 1 ) ; */', b'/*/**/', b"/*'*/", b'/* \xc3\xa9 */']
BLANKS = [b' ', b'\n', b'\t', b'  ', b'\n\n', b' \n ', b'\r\n', b'\t ', b'\n\t', b'\v', b'\f', b'\r']


def layout(toks, rng, style):
    """Bytes of a token sequence in a layout style."""
    out = []
    prev = None
    for t in toks:
        if prev is not None:
            need = glued(prev, t)
            if style == 'compact':
                out.append(b' ' if need else b'')
            elif style == 'spaced':
                out.append(b' ')
            elif style == 'lines':
                out.append(b'\n')
            elif style == 'comments':
                out.append(rng.choice(COMMENTS))
            elif style == 'tight-comments':
                out.append(rng.choice(COMMENTS) if need or rng.random() < 0.3 else b'')
            else:                                   # random
                r = rng.random()
                if r < 0.35:
                    out.append(b' ' if need else b'')
                else:
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        out.append(rng.choice(BLANKS) if rng.random() < 0.65 else rng.choice(COMMENTS))
        out.append(t)
        prev = t
    if style in ('comments', 'random', 'tight-comments'):
        pre = rng.choice(COMMENTS + BLANKS + [b'', b''])
        post = rng.choice(COMMENTS + BLANKS + [b''])
        return pre + b''.join(out) + post
    return b''.join(out) + (b'' if style == 'compact' else b'\n')


def prog(text):
    return text.encode('latin1') if isinstance(text, str) else bytes(text)


def case(*units, **kw):
    c = {'units': [prog(u) for u in units]}
    c.update(kw)
    return c


def bstr(rng, data):
    """A string literal for bytes (without NUL unless escaped)."""
    out = b'"'
    for c in data:
        if c == 0: out += rng.choice([b'*0', b'*e'])
        elif c == 42: out += b'**'
        elif c == 34: out += b'*"'
        elif c == 9 and rng.random() < .7: out += b'*t'
        elif c == 10: out += b'*n' if rng.random() < .9 else b'\n'
        elif c == 13: out += b'*r'
        elif c == 39 and rng.random() < .5: out += b"*'"
        elif c == 123 and rng.random() < .5: out += b'*('
        elif c == 125 and rng.random() < .5: out += b'*)'
        else: out += bytes([c])
    return out + b'"'


def bchr(rng, data):
    out = b"'"
    for c in data:
        if c == 0: out += rng.choice([b'*0', b'*e'])
        elif c == 42: out += b'**'
        elif c == 39: out += b"*'"
        elif c == 34 and rng.random() < .5: out += b'*"'
        elif c == 9: out += b'*t'
        elif c == 10: out += b'*n' if rng.random() < .9 else b'\n'
        elif c == 13: out += b'*r'
        elif c == 123 and rng.random() < .5: out += b'*('
        elif c == 125 and rng.random() < .5: out += b'*)'
        else: out += bytes([c])
    return out + b"'"
