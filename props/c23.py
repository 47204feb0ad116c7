"""Quadrature rules and their application: tabulated nodes and weights, gl_quad, gk_quad, shanks, shanks_table"""
from fractions import Fraction as F
from sa import terms as t
from sa.scal import Script, Call, A, same
from sa.terms import num, ZERO, ONE, add, sub, mul, div

TECHNIQUE = ('The tables of nodes and weights are read from the source as exact decimals and decided by exact rational arithmetic (Legendre moments up to the degree of the rule); abstract interpretation of client '
             'programs gives the value graphs of gl_quad, gk_quad, shanks and shanks_table, compared with the Gauss/Kronrod sums, the iterated Shanks transform and the epsilon table by random interpretation.')
QU = 'geotecha.mathematics.quadrature'
GL = list(range(2, 21)) + [32, 64, 100]
GK = [7, 10, 15, 20, 25, 30]
s = t.sym
fn = t.fn
TOL = F(1, 10 ** 14)


def const(n):
    return F(n.args[0]) if isinstance(n, t.Node) and n.op == 'num' else None


def vec(c, n, k):
    out = [const(c.value(j, of=c.item(k))) for j in range(n)]
    return None if any(v is None for v in out) else out


def rnd(q):
    """to 40 decimals: keeps exact arithmetic of high-degree recurrences affordable"""
    return F(round(q * 10 ** 40), 10 ** 40)


def moments(x, w, deg):
    """sum_j w_j P_k(x_j), k = 0..deg"""
    p0, p1 = [F(1)] * len(x), list(x)
    out = [sum(w)]
    for k in range(1, deg + 1):
        out.append(sum(a * b for a, b in zip(w, p1)))
        p0, p1 = p1, [rnd(((2 * k + 1) * xx * b - k * a) / (k + 1)) for xx, a, b in zip(x, p0, p1)]
    return out


def exact(ctx, rule, lab, where, x, w, deg):
    for k, m in enumerate(moments(x, w, deg)):
        want = 2 if k == 0 else 0
        if abs(m - want) > TOL:
            ctx.violation(rule, lab, 'the rule does not integrate the Legendre polynomial of degree %d: %.3g instead of %d (it should be exact to degree %d)' % (k, float(m), want, deg), where)
            return
    ctx.ok(rule, lab, 'moments 0..%d' % deg)


def nodes(ctx, rule, lab, where, x, w):
    if any(not a < b for a, b in zip(x, x[1:])):
        ctx.violation(rule, lab, 'the abscissae are not increasing', where)
    elif not (-1 < x[0] and x[-1] < 1):
        ctx.violation(rule, lab, 'an abscissa is outside (-1, 1)', where)
    elif any(v <= 0 for v in w):
        ctx.violation(rule, lab, 'a weight is not positive', where)
    else:
        ctx.ok(rule, lab, '%d nodes' % len(x))


def lengths(ctx, lab, name, n, m, k):
    c = Script(ctx, QU, 'def client(n):\n r = %s(n)\n return len(r), %s' % (name, ', '.join('len(r[%d])' % j for j in range(k))), [num(n)], need=[name])
    got = [const(c.value(of=c.item(j))) for j in range(k + 1)]
    if None in got:
        ctx.undecided('rules', lab, 'lengths not constant')
    elif got != [k] + [m] * k:
        ctx.violation('rules', lab, 'array lengths %s, not %d each' % ([int(v) for v in got[1:]], m), c.where)
    else:
        ctx.ok('rules', lab, '%d arrays of %d' % (k, m))


def read(ctx, lab, c, m, ks):
    if c.rejected() is t.TRUE:
        ctx.violation('rules', lab, 'it raises', c.where)
        return None
    out = [vec(c, m, k) for k in ks]
    if any(v is None for v in out):
        ctx.undecided('rules', lab, 'the %d values are not constants' % m)
        return None
    return out


def legendre(ctx, n):
    lab = 'gauss_legendre n=%d' % n
    c = Call(ctx, QU, 'gauss_legendre_abscissae_and_weights', [num(n)])
    lengths(ctx, lab + ' lengths', 'gauss_legendre_abscissae_and_weights', n, n, 2)
    v = read(ctx, lab, c, n, (0, 1))
    if v:
        nodes(ctx, 'rules', lab, c.where, *v)
        exact(ctx, 'exact', lab, c.where, v[0], v[1], 2 * n - 1)


def kronrod(ctx, n):
    lab = 'gauss_kronrod n=%d' % n
    c = Call(ctx, QU, 'gauss_kronrod_abscissae_and_weights', [num(n)])
    lengths(ctx, lab + ' lengths', 'gauss_kronrod_abscissae_and_weights', n, 2 * n + 1, 3)
    v = read(ctx, lab, c, 2 * n + 1, (0, 1, 2))
    if v:
        x, w1, w2 = v
        nodes(ctx, 'rules', lab, c.where, x, w2)
        exact(ctx, 'exact', lab + ' fine', c.where, x, w2, 3 * n + 1)
        used = [j for j in range(2 * n + 1) if w1[j] != 0]
        if len(used) != n:
            ctx.violation('rules', lab + ' coarse', '%d coarse weights are not zero, not %d' % (len(used), n), c.where)
        else:
            ctx.ok('rules', lab + ' coarse', 'embedded nodes %s' % used)
            exact(ctx, 'exact', lab + ' coarse', c.where, [x[j] for j in used], [w1[j] for j in used], 2 * n - 1)


def refused(ctx):
    for name, bad in (('gauss_legendre_abscissae_and_weights', (0, 1, 21, 24, 31, 33, 63, 65, 99, 101, -2)), ('gauss_kronrod_abscissae_and_weights', (0, 1, 2, 6, 8, 9, 11, 21, 31, 61, -7))):
        for n in bad:
            c = Call(ctx, QU, name, [num(n)])
            lab = '%s(%d)' % (name, n)
            if c.rejected() is t.TRUE:
                ctx.ok('refused', lab, 'raises')
            else:
                ctx.violation('refused', lab, 'a number of points that has no rule is not refused', c.where)


def rule_of(ctx, n, kind='gauss_legendre_abscissae_and_weights', k=1):
    c = Call(ctx, QU, kind, [num(n)])
    m = n if kind.startswith('gauss_leg') else 2 * n + 1
    return [(c.value(j, of=c.item(0)), c.value(j, of=c.item(k))) for j in range(m)]


def gauss(rule, lo, hi, f):
    h, m = mul(num(F(1, 2)), sub(hi, lo)), mul(num(F(1, 2)), add(hi, lo))
    return add(*[mul(h, w, f(add(mul(h, x), m))) for x, w in rule])


def cmp(ctx, rule, lab, c, got, want, msg, **kw):
    if c.rejected() is t.TRUE:
        ctx.violation(rule, lab, 'it raises', c.where)
        return
    same(ctx, rule, lab, c.where, got(), want, msg, **kw)


BODIES = (
    ('scalar', 'np.sin(x*p) + q', (), lambda x, p, q: add(fn('sin', mul(x, p)), q)),
    ('vector', 'np.sin(x*np.array([p, q]))', (2,), lambda x, p, q: [fn('sin', mul(x, p)), fn('sin', mul(x, q))]),
    ('matrix', 'np.exp(x*np.array([[p, q, 1.0], [q, 2.0, p]]))', (2, 3), lambda x, p, q: [[fn('exp', mul(x, v)) for v in row] for row in ((p, q, num(1)), (q, num(2), p))]),
)
LIMITS = (('two intervals', 2), ('one interval', 1), ('scalar limits', 0), ('three intervals', 3))


def pick(v, ix):
    for i in ix:
        v = v[i]
    return v


def indices(shape):
    out = [()]
    for n in shape:
        out = [o + (i,) for o in out for i in range(n)]
    return out


def quads(ctx, which, n):
    """n None: the documented default 10"""
    p, q = s('p'), s('q')
    kind = {'gl_quad': 'gauss_legendre_abscissae_and_weights', 'gk_quad': 'gauss_kronrod_abscissae_and_weights'}[which]
    fine = rule_of(ctx, n or 10, kind, 1 if which == 'gl_quad' else 2)
    coarse = rule_of(ctx, n or 10, kind, 1)
    for bl, body, shape, ref in BODIES:
        if n and n > 8 and shape:
            continue
        for ll, k in LIMITS:
            if k == 3 and shape:
                continue
            a, b = [s('a%d' % i) for i in range(max(k, 1))], [s('b%d' % i) for i in range(max(k, 1))]
            for summed in (None, False, True):
                opts = ('' if n is None else ', n=%d' % n) + ('' if summed is None else ', sum_intervals=%s' % summed)
                src = 'def client(a, b, p, q):\n return %s(lambda x, p, q: %s, a, b, args=(p, q)%s)' % (which, body, opts)
                c = Script(ctx, QU, src, [A(a), A(b), p, q] if k else [a[0], b[0], p, q], need=[which])
                lab = '%s %s, %s%s' % (which, bl, ll, opts)
                for ix in indices(shape):
                    fs = [gauss(fine, lo, hi, lambda x: pick(ref(x, p, q), ix)) for lo, hi in zip(a, b)]
                    cs = [gauss(coarse, lo, hi, lambda x: pick(ref(x, p, q), ix)) for lo, hi in zip(a, b)]
                    er = [fn('abs', sub(u, v)) for u, v in zip(fs, cs)]
                    if summed:
                        fs, er = [add(*fs)], [add(*er)]
                    for j, (f, e) in enumerate(zip(fs, er)):
                        at = ix if summed else (j,) + ix
                        dom = {'p': (1, 2), 'q': (2, 3)}
                        if which == 'gl_quad':
                            cmp(ctx, 'gl_quad', '%s %s' % (lab, list(at)), c, lambda: c.at(*at), f, 'not the Gauss-Legendre sum over the interval(s)', domain=dom)
                        else:
                            cmp(ctx, 'gk_quad', '%s %s' % (lab, list(at)), c, lambda: c.value(*at, of=c.item(0)), f, 'not the Kronrod sum over the interval(s)', domain=dom)
                            cmp(ctx, 'gk_quad', '%s %s error' % (lab, list(at)), c, lambda: c.value(*at, of=c.item(1)), e, 'the error estimate is not |fine - coarse|', domain=dom)


def noargs(ctx):
    for which, k in (('gl_quad', 1), ('gk_quad', 2)):
        n = 10
        R = rule_of(ctx, n, 'gauss_legendre_abscissae_and_weights' if k == 1 else 'gauss_kronrod_abscissae_and_weights', k)
        c = Script(ctx, QU, 'def client(a, b):\n return %s(lambda x: np.exp(x), a, b)' % which, [A([s('a0')]), A([s('b0')])], need=[which])
        cmp(ctx, which, which + ' without args', c, (lambda: c.at(0)) if k == 1 else (lambda: c.value(0, of=c.item(0))), gauss(R, s('a0'), s('b0'), lambda x: fn('exp', x)), 'not the sum of the rule')


def shanks_of(seq, ind):
    if ind is None:
        return seq[-1]
    n = len(seq)
    v = list(seq[max(ind + n if ind < 0 else ind, 0):])
    if not v:
        return seq[-1]
    while len(v) > 2:
        v = [div(sub(mul(a, c), mul(b, b)), add(a, c, mul(num(-2), b))) for a, b, c in zip(v, v[1:], v[2:])]
    return v[-1]


def around(name, values):
    w = F(1, 10 ** 7)
    return {name % i: (v - w, v + w) for i, v in enumerate(values)}


def shanks(ctx):
    for n in range(1, 8):
        v = [s('v%d' % i) for i in range(n)]
        box = around('v%d', [10 + F(3 * (-1) ** i, 2 * i + 1) for i in range(n)])
        for ind in [None, 0, 1, 2, 3, 6, 9, -1, -2, -3, -4, -5, -9, 'default']:
            if isinstance(ind, int) and (abs(ind) > n + 2):
                continue
            if n > 5 and ind not in (None, 0, 1, -3, -5, 'default'):
                continue
            arg = '' if ind == 'default' else ', %s' % ind
            lab = 'shanks of %d terms%s' % (n, arg)
            with t.ranges(box):
                for form in ('np.array(v)', 'v'):
                    c = Script(ctx, QU, 'def client(v):\n return shanks(%s%s)' % (form, arg), [A(v)], need=['shanks'])
                    cmp(ctx, 'shanks', lab + (' (list)' if form == 'v' else ''), c, lambda: c.at(), shanks_of(v, 0 if ind == 'default' else ind), 'not the iterated Shanks transform of the terms from the start index', domain=box)


def shanks_rows(ctx):
    v = [[s('v%d_%d' % (k, i)) for i in range(5)] for k in range(2)]
    box = {}
    for k in range(2):
        box.update(around('v%d_%%d' % k, [10 + k + F((3 + k) * (-1) ** i, (2 + k) * i + 1) for i in range(5)]))
    for ind in (None, 0, 1, 2, -3):
        with t.ranges(box):
            c = Script(ctx, QU, 'def client(v):\n return shanks(v, %s)' % ind, [A(v)], need=['shanks'])
            for k in range(2):
                cmp(ctx, 'shanks', 'shanks of two rows, ind=%s [%d]' % (ind, k), c, lambda: c.at(k), shanks_of(v[k], ind), 'each row is a separate sequence', domain=box)


def degenerate(ctx):
    a, b = s('a'), s('b')
    for lab, v, want in (('constant sequence', [a, a, a], a), ('arithmetic sequence', [a, add(a, b), add(a, b, b)], add(a, b, b)), ('constant tail', [a, b, b, b, b], b)):
        c = Script(ctx, QU, 'def client(v):\n return shanks(v)', [A(v)], need=['shanks'])
        cmp(ctx, 'shanks', 'shanks of %s' % lab, c, lambda: c.at(), want, 'the last term is not returned when the transform is undefined', domain={'a': (1, 2), 'b': (3, 4)})


def epsilon(v):
    """eps[k][n]: Wynn's algorithm; eps[-1] = 0, eps[0] = v"""
    prev, cur = [ZERO] * (len(v) + 1), list(v)
    out = []
    while len(cur) > 1:
        nxt = [add(prev[n + 1], div(ONE, sub(cur[n + 1], cur[n]))) for n in range(len(cur) - 1)]
        out.append(nxt)
        prev, cur = cur, nxt
    return out


def table(ctx):
    for n in range(2, 7):
        v = [s('v%d' % i) for i in range(n)]
        box = around('v%d', [10 + F(3 * (-1) ** i, 2 * i + 1) for i in range(n)])
        rows = n - 1 - ((n - 1) & 1)
        eps = epsilon(v)
        lab = 'shanks_table of %d terms' % n
        with t.ranges(box):
            c = Script(ctx, QU, 'def client(v):\n T = shanks_table(v)\n return [len(T)] + [len(row) for row in T]', [A(v)], need=['shanks_table'])
            for k in range(rows + 1):
                cmp(ctx, 'shanks_table', '%s length %d' % (lab, k), c, lambda: c.at(k), num(k or rows), 'not the size of the epsilon table', domain=box)
            if not rows:
                continue
            c = Script(ctx, QU, 'def client(v):\n T = shanks_table(v)\n return [%s]' % ', '.join('T[%d][%d]' % (i, j) for i in range(rows) for j in range(i + 1)), [A(v)], need=['shanks_table'])
            k = 0
            for i in range(rows):
                for j in range(i + 1):
                    cmp(ctx, 'shanks_table', '%s [%d][%d]' % (lab, i, j), c, lambda: c.at(k), eps[j][i - j], 'not the entry of the epsilon table', domain=box)
                    k += 1
            if rows >= 4:
                c = Script(ctx, QU, 'def client(v):\n T = shanks_table(v[:3])\n U = shanks_table(v, T)\n return [len(U)] + [%s]' % ', '.join('U[%d][%d]' % (i, j) for i in range(rows) for j in range(i + 1)), [A(v)], need=['shanks_table'])
                k = 0
                cmp(ctx, 'shanks_table', '%s extended length' % lab, c, lambda: c.at(0), num(rows), 'an existing table is not extended', domain=box)
                for i in range(rows):
                    for j in range(i + 1):
                        k += 1
                        cmp(ctx, 'shanks_table', '%s extended [%d][%d]' % (lab, i, j), c, lambda: c.at(k), eps[j][i - j], 'not the entry of the epsilon table when an existing table is extended', domain=box)
    c = Script(ctx, QU, 'def client(v):\n return shanks_table([v])', [s('v')], need=['shanks_table'])
    if c.rejected() is t.TRUE:
        ctx.ok('shanks_table', 'shanks_table of one term', 'raises')
    else:
        ctx.violation('shanks_table', 'shanks_table of one term', 'a sequence of one term is not refused', c.where)


def check(ctx):
    jobs = [lambda n=n: legendre(ctx, n) for n in GL] + [lambda n=n: kronrod(ctx, n) for n in GK]
    jobs += [lambda: refused(ctx), lambda: noargs(ctx), lambda: shanks(ctx), lambda: shanks_rows(ctx), lambda: degenerate(ctx), lambda: table(ctx)]
    jobs += [lambda n=n: quads(ctx, 'gl_quad', n) for n in (None, 2, 3, 5)]
    jobs += [lambda n=n: quads(ctx, 'gk_quad', n) for n in (None, 7, 15)]
    ctx.parallel(jobs)
