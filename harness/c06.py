"""C06: names."""
import itertools
from common import *
from gen import *
import grids2
import grids3
from c01 import LEVELS


def item(it, k):
    """Text of an item of BNames; k numbers it.  Returns (text, call)."""
    n = it[1]
    if it[0] == 'var': return '%s 7;\n' % n, ''
    if it[0] == 'vec': return '%s[3] 1, 2;\n' % n, ''
    if it[0] == 'fun': return '%s() return (%d);\n' % (n, 65 + k), ''
    if it[0] == 'two':
        d1, b1, _ = body(it[3], it[1], k)
        d2, b2, _ = body(it[4], it[2], k)
        return 'f%d() { %s %s %s %s }\n' % (k, d1, d2, b1, b2), 'f%d();' % k
    d, b, p = body(it[2], n, k)
    return 'f%d(%s) { %s %s }\n' % (k, p[0], d, b), 'f%d(%s);' % (k, p[1])


def body(form, n, k):
    no = ('', '')
    ch = 97 + k % 26
    test = 'if (%s) writeb(%d); else writeb(%d);' % (n, ch, ch - 32)
    return {
        'read': ('', test, no),
        'write': ('', '%s = %d;' % (n, k), no),
        'call': ('', 'writeb(%s());' % n, no),
        'addr': ('auto p%s;' % n, 'p%s = &%s;' % (n, n), no),
        'index': ('', 'if (0) %s[0];' % n, no),
        'inc': ('', '%s++;' % n, no),
        'extrn-read': ('extrn %s;' % n, test, no),
        'extrn-write': ('extrn %s;' % n, '%s = %d;' % (n, k % 2 * 5), no),
        'extrn-call': ('extrn %s;' % n, 'if (0) %s();' % n, no),
        'extrn-late': ('', test + ' extrn %s; %s = 1;' % (n, n), no),
        'extrn-addr': ('extrn %s; auto p%s;' % (n, n), 'p%s = &%s; *p%s = 0;' % (n, n, n), no),
        'extrn-only': ('extrn %s;' % n, '', no),
        'auto': ('auto %s;' % n, '%s = %d; printd(%s);' % (n, k, n), no),
        'auto-extrn': ('auto %s; %s = 5; extrn %s;' % (n, n, n), 'printd(%s++); printd(%s);' % (n, n), no),
        'extrn-auto': ('extrn %s; auto %s;' % (n, n), '%s = %d; printd(%s);' % (n, k, n), no),
        'auto-call': ('auto %s;' % n, '%s = h; writeb(%s());' % (n, n), no),
        'auto-twice': ('auto %s; auto %s;' % (n, n), '', no),
        'auto-block': ('', '{ auto %s; %s = 3; } %s =+ 1; printd(%s);' % (n, n, n, n), no),
        'autovec': ('auto %s[2];' % n, '%s[1] = %d; printd(%s[1]);' % (n, k, n), no),
        'param': ('', '%s++; printd(%s);' % (n, n), (n, '3')),
        'param-extrn': ('extrn %s;' % n, '%s = %s + 4; printd(%s);' % (n, n, n), (n, '%d' % k)),
        'param-auto': ('auto %s;' % n, '', (n, '1')),
        'param-call': ('', 'writeb(%s());' % n, (n, 'h')),
        'label': ('', '%s: writeb(%d);' % (n, ch), no),
        'label-auto': ('auto %s;' % n, '%s = 0; %s: if (%s++ < 2) goto %s; printd(%s);' % (n, n, n, n, n), no),
        'goto': ('', 'goto %s;' % n, no),
    }[form]


def render(hist, rng, names=()):
    t, calls, items = '', '', []
    for k, it in enumerate(hist):
        x, c = item(it, k)
        items.append(x)
        calls += ' ' + c
    t = ''.join(items)
    h = 'h() return (72);\n'
    m = 'main() {%s }\n' % calls
    return h + t + m if rng.random() < .5 else t + h + m


FORMS = ['read', 'write', 'call', 'addr', 'index', 'inc', 'extrn-read', 'extrn-write', 'extrn-call', 'extrn-late',
         'extrn-addr', 'auto', 'auto-extrn', 'extrn-auto', 'auto-call', 'auto-twice', 'auto-block', 'param',
         'param-extrn', 'param-auto', 'param-call', 'label', 'label-auto', 'goto', 'extrn-only', 'autovec']
SAFE = ['auto', 'auto-call', 'auto-block', 'autovec', 'param', 'param-call', 'label-auto', 'label']
VARF = ['extrn-read', 'extrn-write', 'extrn-addr', 'auto-extrn', 'extrn-auto', 'param-extrn', 'extrn-only']
FUNF = ['read', 'call', 'call']


def random_history(rng):
    """A longer, mostly legal history of several names."""
    names = rng.sample(['a', 'b', 'c', 'd', 'ab', 'a1', 'x', '_'], rng.choice([2, 3, 4, 5]))
    role = {n: rng.choice(['var', 'vec', 'fun', 'var']) for n in names}
    hist, defined = [], {}
    for _ in range(rng.choice([6, 10, 15])):
        n = rng.choice(names)
        k = rng.random()
        if k < .25:
            hist.append([role[n] if role[n] != 'vec' or rng.random() < .5 else 'var', n])
        elif k < .55:
            hist.append(['use', n, rng.choice(SAFE)])
        elif k < .92:
            hist.append(['use', n, rng.choice(FUNF if role[n] == 'fun' else VARF)])
        elif k < .955:
            hist.append(['use', n, rng.choice(FORMS)])
        else:
            m = rng.choice([x for x in names if x != n])
            f = rng.choice(['read', 'call', 'auto'] if role[n] == 'fun' else ['extrn-read', 'extrn-write', 'auto'])
            g = rng.choice(['read', 'call', 'auto'] if role[m] == 'fun' else ['extrn-read', 'extrn-write', 'auto'])
            hist.append(['two', n, m, f, g])
    seen = {i[1] for i in hist if i[0] in ('var', 'vec', 'fun')}
    for n in names:
        if role[n] == 'fun' and n not in seen:
            hist.insert(rng.randrange(len(hist) + 1), ['fun', n])
    return hist


LAB = ['A: ;', 'B: ;', 'goto A;', 'goto B;', '{', '}', 'switch (x) {', 'case 1: ;', 'case 2: ;', 'default: ;',
       'if (x)', 'auto A;', 'while (x)', "case 'a': ;", 'case 01:', 'A :']


def label_bodies(n):
    """All bodies of n of these items whose braces balance."""
    for c in itertools.product(range(len(LAB)), repeat=n):
        depth = 0
        for i in c:
            if LAB[i].endswith('{'): depth += 1
            if LAB[i] == '}': depth -= 1
            if depth < 0: break
        else:
            if depth == 0:
                yield [LAB[i] for i in c]


def run(ctx):
    rng = ctx.rng
    hists = []
    for names, items, pairs, keep in (('{"a"}', 3, 'FALSE', ctx.scale(2600, 0)),
                                      ('{"a", "b"}', 2, 'TRUE', ctx.scale(600, 8000))):
        d, text = ctx.tlc('BNames', 'BNames.cfg', heap='4g', young='1g', cfgtext='SPECIFICATION Spec\nCONSTANTS Names = %s '
                          'MaxItems = %d Pairs = %s\nINVARIANTS OneKind Emit\nPROPERTY NoLeak\nCHECK_DEADLOCK FALSE\n' % (names, items, pairs))
        hs = [json.loads(json.loads(l)[5:]) for l in text.splitlines() if l.startswith('"HIST ')]
        hs = [h for h in hs if h['v'] != 'ok' or len(h['h']) == items]
        hs.sort(key=json.dumps)
        ctx.extra['histories of ' + names] = len(hs)
        if keep and len(hs) > keep:
            short = [h for h in hs if len(h['h']) < 3 and items == 3]
            rest = [h for h in hs if not (len(h['h']) < 3 and items == 3)]
            hs = short + rng.sample(rest, keep)
        hists += hs
    ctx.extra['histories replayed'] = len(hists)
    cases = []
    for h in hists:
        c = case(render(h['h'], rng), tag=json.dumps(h['h']), names=h['v'])
        cases.append(c)
    lab = [b for n in (1, 2, 3, 4) for b in (label_bodies(n))]
    if not ctx.thorough:
        short = [b for b in lab if len(b) <= 2]
        lab = short + rng.sample([b for b in lab if len(b) > 2], 1500)
    ctx.extra['label bodies'] = len(lab)
    for b in lab:
        body_ = ' '.join(b)
        other = rng.choice(['', 'g(x) { A: B: x = 1; }\n', 'h(A) { goto B; B: A = 2; }\n', 'g(x) { switch (x) { case 1: ; } }\n'])
        cases.append(case(other + 'f(x) { %s }\nmain() ;\n' % body_, tag=body_))
    for _ in range(ctx.scale(500, 8000)):
        h = random_history(rng)
        cases.append(case(render(h, rng), tag=json.dumps(h)))
    for t in grids2.longnames(rng, ctx.scale(90, 900)) + grids2.derived(rng, ctx.scale(60, 600)) + grids2.derived_all(rng) + grids2.counts(rng, ['idlen', 'fnlocals', 'labels'], per=ctx.scale(2, 20)):
        cases.append(case(t, tag='long and related names', fuel=300000))
    for t in grids3.scopes(rng, ctx.scale(260, 3000)):
        cases.append(case(t, tag='parts of a body', fuel=300000, loops=True, always=True))
    rng.shuffle(cases)

    def observe(c):
        o = front(ctx, c)
        if o[0]['ok'] and c.get('always') or o[0]['ok'] and 'goto' not in c['tag'] and 'while' not in c['tag']:
            o += build_and_run(ctx, c, [()], timeout=6)
        return o
    observe_all(cases, observe)
    ctx.log('observed')
    ctx.check_cases(cases, observe)
    # both statements of the rules must agree
    for c in cases:
        v = c.get('names')
        if v and v != 'any' and c['result']['front'] != 'any' and c['result']['front'] != v:
            raise CheckError('BNames and BTranslate disagree (%s, %s) on %s: %s' % (
                v, c['result']['front'], c['tag'], c['result']['why']))
    ctx.extra['programs'] = len(cases)
