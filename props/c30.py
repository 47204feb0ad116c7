"""piecewise-linear functions: classification of segments, interpolation, integration, averaging, conversions, subdivision"""
from fractions import Fraction as F
from sa import terms as t
from sa import chain as cn
from sa.chain import Chain
from sa.scal import Call, A, same, wrap
from sa.front import Arr, PyList
from sa.terms import num, ZERO, ONE, add, sub, mul, div

TECHNIQUE = ('Abstract interpretation with an order domain: break points and query points are placed on a chain of symbolic levels (every order type of up to six '
             'break points with steps, queries before / on / between / after them), all values symbolic; selected segments are compared with the defining condition '
             'and values with the defining line, integral or mean by random interpretation of the value graphs.')
MOD = 'geotecha.piecewise.piecewise_linear_1d'
s = t.sym
# data on even levels, queries also on odd ones
INCR = {'increasing': [2, 4, 6, 8], 'step inside': [2, 4, 4, 6], 'step first': [2, 2, 4, 6], 'step last': [2, 4, 6, 6], 'two steps': [2, 4, 4, 6, 6, 8],
        'double step': [2, 4, 4, 4, 6], 'single piece': [2, 6]}
DECR = {'decreasing': [8, 6, 4, 2], 'decreasing with step': [6, 4, 4, 2]}
BACK = {'switchback': [2, 6, 4, 8]}
YP = {4: ['+++', '+0-', '0+0', '00+', '-00'], 5: ['++0+', '0-0+', '+00+'], 6: ['+-+0+', '0+0-0', '00+-0'], 2: ['+', '0']}


def ylist(pattern):
    box, ys = {'y0': (F(-9), F(9))}, [s('y0')]
    for i, c in enumerate(pattern):
        if c == '0':
            ys.append(ys[-1])
            continue
        box['d%d' % i] = cn.GAP
        ys.append(add(ys[-1], mul(num(1 if c == '+' else -1), s('d%d' % i))))
    return box, ys


def ys_of(n, nm='y'):
    return [s('%s%d' % (nm, i)) for i in range(n)]


def concrete(call, v):
    """python value of a list of known integers / booleans, None when it is not known"""
    I, st = call.I, call.st
    if isinstance(v, bool):
        return v
    if isinstance(v, t.Node):
        return int(v.args[0]) if v.op == 'num' else t.truth(v)
    if isinstance(v, PyList):
        out = [concrete(call, x) for x in st.store[v.key]]
        return None if any(x is None for x in out) else out
    if isinstance(v, Arr):
        q = I.items1(v, st)
        if q is None:
            return None
        out = [concrete(call, x) for x in q]
        return None if any(x is None for x in out) else out
    return None


def known(ctx, rule, c, call, v, want, msg):
    ctx.count('selections')
    got = concrete(call, v)
    if call.rejected() is t.TRUE:
        ctx.violation(rule, c, msg + ' (it raises)', call.where)
    elif got is None or call.rejected() is not t.FALSE:
        ctx.undecided(rule, c, 'selection not known')
    elif got != want:
        ctx.violation(rule, c, '%s (got %s, expected %s)' % (msg, got, want), call.where)
    else:
        ctx.ok(rule, c)


def val(ctx, rule, c, call, got, want, msg, box):
    if call.rejected() is t.TRUE:
        ctx.violation(rule, c, msg + ' (it raises)', call.where)
        return
    same(ctx, rule, c, call.where, got, want, msg, values=lambda seed: cn.sample(box, seed), seeds=(1, 2) if ctx.tier != 'quick' else (1,))


def run(ctx, name, *args, **kw):
    return Call(ctx, MOD, name, [a for a in args], kw)


def vals(ctx, rule, c, call, want, msg, box):
    """1d result"""
    n = call.I.items1(call.r, call.st) if isinstance(call.r, (Arr, PyList)) else None
    if n is not None and len(n) != len(want):
        ctx.violation(rule, c, '%s (%d values, expected %d)' % (msg, len(n), len(want)), call.where)
        return
    for i, w in enumerate(want):
        val(ctx, rule, '%s [%d]' % (c, i), call, call.at(i), w, msg, box)


# ---- which segments -------------------------------------------------------------------------------------------------
def kinds(lx, pat):
    out = {'ramps': [], 'constants': [], 'steps': []}
    for k in range(len(lx) - 1):
        v, h = lx[k] == lx[k + 1], pat[k] == '0'
        if v and not h:
            out['steps'].append(k)
        elif h and not v:
            out['constants'].append(k)
        elif not h:
            out['ramps'].append(k)
    return out


def segments(ctx, nm, lx):
    ch = Chain(10)
    x = A([ch.at[i] for i in lx])
    for pat in YP[len(lx)]:
        box, y = ylist(pat)
        box = dict(ch.box, **box)
        k = kinds(lx, pat)
        lab = '%s, y %s' % (nm, pat)
        with t.ranges(box):
            for kind, fn in (('ramps', 'start_index_of_ramps'), ('constants', 'start_index_of_constants'), ('steps', 'start_index_of_steps')):
                c = run(ctx, fn, x, A(y))
                known(ctx, 'kind of segment', '%s: %s' % (fn, lab), c, c.r, k[kind], '%s are not the segments that are %s' % (kind, kind))
            c = run(ctx, 'ramps_constants_steps', x, A(y))
            known(ctx, 'kind of segment', 'ramps_constants_steps: ' + lab, c, c.r, [k['ramps'], k['constants'], k['steps']], 'ramps, constants and steps are mixed up')
            qs = list(range(1, max(lx) + 2))
            xi = A([ch.at[q] for q in qs])
            for ste in (None, True, False):
                for rce in (None, True):
                    for cm in (None, True):
                        if (ste, rce, cm).count(None) < 2 and ctx.tier == 'quick' and nm not in ('step inside',):
                            continue
                        kw = {}
                        if ste is not None:
                            kw['steps_or_equal_to'] = ste
                        if rce is not None:
                            kw['ramp_const_or_equal_to'] = rce
                        if cm is not None:
                            kw['choose_max'] = cm
                        S, R, M = ste is not False, bool(rce), bool(cm)
                        less = lambda ks, q, e: [j for j in ks if (lx[j + 1] <= q if e else lx[j + 1] < q)]
                        want = [[less(k['ramps'], q, R) for q in qs], [less(k['constants'], q, R) for q in qs], [less(k['steps'], q, S) for q in qs], [], []]
                        for q in qs:
                            j = cn.containing(lx, q, M)
                            want[3].append([j] if j in k['ramps'] else [])
                            want[4].append([j] if j is not None and j not in k['ramps'] else [])
                        c = run(ctx, 'segment_containing_also_segments_less_than_xi', x, A(y), xi, **kw)
                        known(ctx, 'segments at xi', 'segment_containing_also_segments_less_than_xi: %s %s' % (lab, kw), c, c.r, want,
                              'the ramps, constants and steps before xi, and the segment containing xi, are not those of the definition')


def order(ctx, nm, lx):
    ch = Chain(10)
    x = A([ch.at[i] for i in lx])
    n = len(lx)
    up = nm not in DECR and nm not in BACK
    with t.ranges(ch.box):
        d = [b - a for a, b in zip(lx, lx[1:])]
        for fn, w in (('has_steps', any(v == 0 for v in d)), ('strictly_increasing', all(v > 0 for v in d)), ('strictly_decreasing', all(v < 0 for v in d)),
                      ('non_increasing', all(v <= 0 for v in d)), ('non_decreasing', all(v >= 0 for v in d)), ('is_initially_increasing', [v for v in d if v][0] > 0)):
            c = run(ctx, fn, x)
            known(ctx, 'order', '%s: %s' % (fn, nm), c, c.r, w, '%s does not test what it says' % fn)
        qs = list(range(1, max(lx) + 2))
        xi = A([ch.at[q] for q in qs])
        for cm in (None, False, True):
            kw = {} if cm is None else {'choose_max': cm}
            one = lambda q, sub_=None: [j for j in [None if sub_ is None else cn_sub(lx, q, sub_, bool(cm))] if j is not None] if sub_ is not None else \
                [j for j in [cn.containing(lx, q, bool(cm))] if j is not None]
            c = run(ctx, 'segment_containing_xi', x, xi, **kw)
            known(ctx, 'segment containing', 'segment_containing_xi: %s %s' % (nm, kw), c, c.r, [one(q) for q in qs], 'the segment holding xi is not the first / last that holds it')
            if n > 2:
                sb = [1, 2]
                c = run(ctx, 'segment_containing_xi', x, xi, subset=A([num(1), num(2)]), **kw)
                known(ctx, 'segment containing', 'segment_containing_xi: %s, subset %s' % (nm, kw), c, c.r, [one(q, sb) for q in qs], 'a segment outside the subset is returned, or none')
        if up:
            for e in (None, False, True):
                kw = {} if e is None else {'or_equal_to': e}
                ends = lambda q, ks: [k for k in ks if (lx[k + 1] <= q if e else lx[k + 1] < q)]
                c = run(ctx, 'segments_less_than_xi', x, xi, **kw)
                known(ctx, 'segments before', 'segments_less_than_xi: %s %s' % (nm, kw), c, c.r, [ends(q, range(n - 1)) for q in qs], 'segments before xi are not those that end before it')
                if n > 2:
                    c = run(ctx, 'segments_less_than_xi', x, xi, subset=A([num(0), num(2)]), **kw)
                    known(ctx, 'segments before', 'segments_less_than_xi: %s, subset %s' % (nm, kw), c, c.r, [ends(q, [0, 2]) for q in qs], 'subset ignored')
            every = [(a, b) for a in qs for b in qs if a < b]
            for m in range(0, len(every), 12):
                prs = every[m:m + 12]
                xa, xb = A([ch.at[a] for a, b in prs]), A([ch.at[b] for a, b in prs])
                w = [[], [], [], []]
                w2 = [[], []]
                for a, b in prs:
                    i, j = cn.containing(lx, a, True), cn.containing(lx, b, False)
                    w2[0].append([] if i is None else [i])
                    w2[1].append([] if j is None else [j])
                    none = i is None or j is None
                    w[0].append([i] if not none and i == j else [])
                    w[1].append([i] if not none and i != j else [])
                    w[2].append([j] if not none and i != j else [])
                    w[3].append(list(range(i + 1, j)) if not none and i != j else [])
                lab = '%s, %d' % (nm, m)
                c = run(ctx, 'segment_containing_xi_also_containing_xj', x, xa, xb)
                known(ctx, 'segments at xi and xj', 'segment_containing_xi_also_containing_xj: ' + lab, c, c.r, w2, 'segments of xi and xj are not the highest and the lowest that hold them')
                c = run(ctx, 'segments_between_xi_and_xj', x, xa, xb)
                known(ctx, 'segments at xi and xj', 'segments_between_xi_and_xj: ' + lab, c, c.r, w, 'segments between, or holding one or both of xi and xj, are not those of the definition')


def cn_sub(lx, q, sub_, last):
    ks = [k for k in sub_ if k < len(lx) - 1 and lx[k] != lx[k + 1] and min(lx[k], lx[k + 1]) <= q <= max(lx[k], lx[k + 1])]
    return None if not ks else ks[-1] if last else ks[0]


# ---- values ---------------------------------------------------------------------------------------------------------
def x1x2(lx, y):
    ks = [k for k in range(len(lx) - 1) if lx[k] != lx[k + 1]]
    return [[lx[k] for k in ks], [lx[k + 1] for k in ks], [y[k] for k in ks], [y[k + 1] for k in ks]]


def interp(ctx, nm, lx):
    ch = Chain(10)
    x = A([ch.at[i] for i in lx])
    y = ys_of(len(lx))
    qs = list(range(1, max(lx) + 2))
    xi = A([ch.at[q] for q in qs])
    at = lambda ls: A([ch.at[i] for i in ls])
    with t.ranges(ch.box):
        for cm in (None, False, True):
            kw = {} if cm is None else {'choose_max': cm}
            c = run(ctx, 'interp_x_y', x, A(y), xi, **kw)
            vals(ctx, 'interpolation', 'interp_x_y: %s %s' % (nm, kw), c, [cn.value(ch, lx, y, q, bool(cm)) for q in qs], 'interpolated value is not on the line', ch.box)
            if nm in BACK or 'first' in nm or 'last' in nm:
                continue
            a, b, p, q_ = x1x2(lx, y)
            c = run(ctx, 'interp_x1_x2_y1_y2', at(a), at(b), A(p), A(q_), xi, **kw)
            vals(ctx, 'interpolation', 'interp_x1_x2_y1_y2: %s %s' % (nm, kw), c, [cn.value(ch, lx, y, q, bool(cm)) for q in qs], 'interpolated value is not on the line', ch.box)
        c = run(ctx, 'interp_x_y', x, A(y), ch.at[3])
        vals(ctx, 'interpolation', 'interp_x_y: %s, scalar xi' % nm, c, [cn.value(ch, lx, y, 3)], 'interpolated value is not on the line', ch.box)


def conversions(ctx, nm, lx, pat):
    ch = Chain(10)
    by, y = ylist(pat)
    box = dict(ch.box, **by)
    at = lambda ls: A([ch.at[i] for i in ls])
    lab = '%s, y %s' % (nm, pat)
    with t.ranges(box):
        a, b, p, q = x1x2(lx, y)
        c = run(ctx, 'convert_x_y_to_x1_x2_y1_y2', at(lx), A(y))
        for k, w in enumerate(([ch.at[i] for i in a], [ch.at[i] for i in b], p, q)):
            it = c.item(k)
            for j, v in enumerate(w):
                val(ctx, 'conversion', 'convert_x_y_to_x1_x2_y1_y2: %s %s[%d]' % (lab, ('x1', 'x2', 'y1', 'y2')[k], j), c, c.value(j, of=it), v, 'the pieces are not those of the line', box)
            n = concrete_len(c, it)
            if n is not None and n != len(w):
                ctx.violation('conversion', 'convert_x_y_to_x1_x2_y1_y2: %s number of pieces' % lab, 'vertical pieces are not dropped, or others are', c.where)
        c = run(ctx, 'convert_x1_x2_y1_y2_to_x_y', at(a), at(b), A(p), A(q))
        wx, wy = [ch.at[a[0]]], [p[0]]
        for k in range(len(a)):
            if k and t.sign(sub(p[k], q[k - 1])) != 0:
                wx.append(ch.at[a[k]])
                wy.append(p[k])
            wx.append(ch.at[b[k]])
            wy.append(q[k])
        for k, w in enumerate((wx, wy)):
            it = c.item(k)
            n = concrete_len(c, it)
            if n is not None and n != len(w):
                ctx.violation('conversion', 'convert_x1_x2_y1_y2_to_x_y: %s number of points' % lab, 'points of the line are lost or repeated', c.where)
                continue
            for j, v in enumerate(w):
                val(ctx, 'conversion', 'convert_x1_x2_y1_y2_to_x_y: %s %s[%d]' % (lab, 'xy'[k], j), c, c.value(j, of=it), v, 'the points are not those of the line', box)


def concrete_len(c, it):
    q = c.I.items1(it, c.st) if isinstance(it, (Arr, PyList)) else None
    return None if q is None or any(getattr(x, "unk", True) for x in q) else len(q)


def apart(prs, lx):
    """the pairs in an order in which the k-th pair does not use the k-th levels of the line, so a mix-up of the two indices shows"""
    seg = [(a, b) for a, b in zip(lx, lx[1:]) if a != b]
    for r in range(len(prs)):
        q = prs[r:] + prs[:r]
        for c in (q, q[::-1]):
            if not any(set(p) & set(g) for p, g in zip(c, seg)):
                return c
    return prs[::-1]


def integrals(ctx, nm, lx):
    ch = Chain(10)
    n = len(lx)
    y, z = ys_of(n), ys_of(n, 'z')
    at = lambda ls: A([ch.at[i] for i in ls])
    lo, hi = lx[0], lx[-1]
    prs = [(a, b) for a in range(lo, hi + 1) for b in range(lo, hi + 1) if a < b]
    if ctx.tier == 'quick' and len(prs) > 10:
        keep = [(lo, hi), (lo, lo + 1), (lo + 1, hi), (lo + 1, hi - 1), (lo + 2, hi - 2), (lo, lo + 2), (hi - 2, hi), (lo + 2, lo + 3), (lo + 1, lo + 2), (lo + 1, lo + 3)]
        prs = [p for p in prs if p in keep]
    if n == 2:
        prs = [(2, 6), (3, 6), (2, 5), (3, 5)]
    prs = apart(prs, lx)
    xa, xb = at([a for a, b in prs]), at([b for a, b in prs])
    a, b, p, q = x1x2(lx, y)
    a2, b2, p2, q2 = x1x2(lx, z)
    with t.ranges(ch.box):
        one = [cn.product_integral(ch, [(lx, y)], i, j) for i, j in prs]
        two = [cn.product_integral(ch, [(lx, y), (lx, z)], i, j) for i, j in prs]
        mean = [div(v, sub(ch.at[j], ch.at[i])) for v, (i, j) in zip(one, prs)]
        edge = 'first' in nm or 'last' in nm
        for fn, args, w, msg in (('integrate_x_y_between_xi_xj', (at(lx), A(y)), one, 'not the integral of the line between xi and xj'),
                                 ('avg_x_y_between_xi_xj', (at(lx), A(y)), mean, 'not the mean of the line between xi and xj'),
                                 ('integrate_x1_x2_y1_y2_between_xi_xj', (at(a), at(b), A(p), A(q)), one, 'not the integral of the line between xi and xj'),
                                 ('avg_x1_x2_y1_y2_between_xi_xj', (at(a), at(b), A(p), A(q)), mean, 'not the mean of the line between xi and xj'),
                                 ('integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between', (at(a), at(b), A(p), A(q), at(a2), at(b2), A(p2), A(q2)), two,
                                  'not the integral of the product of the lines between xi and xj')):
            c = run(ctx, fn, *(args + (xa, xb)))
            vals(ctx, 'integral', '%s: %s' % (fn, nm), c, w, msg, ch.box)
        c = run(ctx, 'integrate_x_y_between_xi_xj', at(lx), A(y), ch.at[prs[0][0]], ch.at[prs[0][1]])
        vals(ctx, 'integral', 'integrate_x_y_between_xi_xj: %s, scalar limits' % nm, c, one[:1], 'not the integral of the line between xi and xj', ch.box)


def composites(ctx):
    """products of a line in time and lines in depth: rows are depth intervals, columns are times"""
    ch, tc = Chain(10), Chain(10, 'u0', 'h')
    box = dict(ch.box, **tc.box)
    lt, lx = [2, 4, 4, 6], [2, 4, 4, 6]
    f, y, z = ys_of(4, 'f'), ys_of(4), ys_of(4, 'z')
    a, b, p, q = x1x2(lx, y)
    a2, b2, p2, q2 = x1x2(lx, z)
    at = lambda c, ls: A([c.at[i] for i in ls])
    tq = [1, 3, 4, 5, 7]
    zq = [1, 3, 4, 6]
    prs = [(2, 3), (2, 6), (3, 5)]
    fx, xd = (at(tc, lt), A(f)), (at(ch, a), at(ch, b), A(p), A(q))
    xd2 = (at(ch, a2), at(ch, b2), A(p2), A(q2))
    w_, ph = s('w'), s('ph')
    with t.ranges(box):
        def table(fn, c, rows, cols, msg, lab):
            for i, r in enumerate(rows):
                for j, k in enumerate(cols):
                    val(ctx, 'composite', '%s: %s [%d,%d]' % (fn, lab, i, j), c, c.at(i, j), mul(r, k), msg, box)
        for am in (None, True):
            tv = [cn.value(tc, lt, f, k, bool(am)) for k in tq]
            ka = {} if am is None else {'achoose_max': am}
            for bm in (None, False):
                kw = dict(ka, **({} if bm is None else {'bchoose_max': bm}))
                fn = 'interp_xa_ya_multipy_x1b_x2b_y1b_y2b'
                table(fn, run(ctx, fn, *(fx + xd + (at(tc, tq), at(ch, zq))), **kw), [cn.value(ch, lx, y, k, bm is None) for k in zq], tv, 'not f(xa) g(xb) for each row xb and column xa', kw)
            xa, xb = at(ch, [i for i, j in prs]), at(ch, [j for i, j in prs])
            one = [cn.product_integral(ch, [(lx, y)], i, j) for i, j in prs]
            two = [cn.product_integral(ch, [(lx, y), (lx, z)], i, j) for i, j in prs]
            fn = 'xa_ya_multipy_avg_x1b_x2b_y1b_y2b_between'
            table(fn, run(ctx, fn, *(fx + xd + (at(tc, tq), xa, xb)), **ka), [div(v, sub(ch.at[j], ch.at[i])) for v, (i, j) in zip(one, prs)], tv, 'not f(xa) times the mean of g', ka)
            fn = 'xa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between'
            table(fn, run(ctx, fn, *(fx + xd + xd2 + (at(tc, tq), xa, xb)), **ka), two, tv, 'not f(xa) times the integral of g h', ka)
            fn = 'xa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between'
            tc_ = [mul(v, t.fn('cos', add(mul(w_, tc.at[k]), ph))) for v, k in zip(tv, tq)]
            table(fn, run(ctx, fn, *(fx + (w_, ph) + xd + xd2 + (at(tc, tq), xa, xb)), **ka), two, tc_, 'not f(xa) cos(omega xa + phase) times the integral of g h', ka)


# ---- reshaping ------------------------------------------------------------------------------------------------------
def reshape(ctx):
    ch = Chain(10)
    at = lambda ls: A([ch.at[i] for i in ls])
    eps = s('eps')
    box = dict(ch.box, eps=(F(1, 10 ** 6), F(1, 10 ** 5)))
    with t.ranges(box):
        for nm, lx in list(INCR.items()) + list(DECR.items()):
            y = ys_of(len(lx))
            up = lx[0] < lx[-1]
            sx = lx if up else lx[::-1]
            sy = y if up else y[::-1]
            c = run(ctx, 'force_non_decreasing', at(lx), A(y))
            for k, w in enumerate(([ch.at[i] for i in sx], sy)):
                for j, v in enumerate(w):
                    val(ctx, 'reshape', 'force_non_decreasing: %s %s[%d]' % (nm, 'xy'[k], j), c, c.value(j, of=c.item(k)), v, 'line is not the same line in increasing order', box)
            steps = [k for k in range(len(sx) - 1) if sx[k] == sx[k + 1]]
            for keep in (None, True, False):
                kw = {'eps': eps}
                if keep is not None:
                    kw['keep_end_points'] = keep
                wx = [ch.at[i] for i in sx]
                for m, k in enumerate(steps):
                    if keep is False:
                        wx[k + 1] = add(wx[k + 1], mul(num(m + 1), eps))
                    else:
                        wx[k] = sub(wx[k], mul(num(len(steps) - m), eps))
                c = run(ctx, 'force_strictly_increasing', at(lx), A(y), **kw)
                for k, w in enumerate((wx, sy)):
                    for j, v in enumerate(w):
                        val(ctx, 'reshape', 'force_strictly_increasing: %s %s %s[%d]' % (nm, keep, 'xy'[k], j), c, c.value(j, of=c.item(k)), v,
                            'steps are not moved by multiples of eps, or other points are', box)
        for nm, lx in BACK.items():
            for fn in ('force_non_decreasing', 'force_strictly_increasing'):
                c = run(ctx, fn, at(lx), A(ys_of(len(lx))))
                ctx.count('selections')
                if c.rejected() is t.FALSE:
                    ctx.violation('reshape', '%s: %s' % (fn, nm), 'data that turns back is accepted', c.where)
                elif c.rejected() is t.TRUE:
                    ctx.ok('reshape', '%s: %s' % (fn, nm))
                else:
                    ctx.undecided('reshape', '%s: %s' % (fn, nm))
        for lx, parts in (([2, 4, 6, 5, 3], [[0, 1], [2, 3]]), ([2, 4, 4, 6], [[0, 1, 2]]), ([6, 4, 4, 5, 2], [[0, 1], [2], [3]]), ([2, 2, 4, 3, 3, 5], [[0, 1], [2, 3], [4]])):
            for inc in (None, True):
                want = [p + [p[-1] + 1] for p in parts] if inc else parts
                c = run(ctx, 'non_increasing_and_non_decreasing_parts', at(lx), **({'include_end_point': True} if inc else {}))
                known(ctx, 'parts', 'non_increasing_and_non_decreasing_parts: %s %s' % (lx, inc), c, c.r, want, 'a part mixes increasing and decreasing segments, or points are lost')


def superfluous(ctx):
    """points inside a straight run go, corners stay"""
    ch = Chain(6)
    m, m2 = s('m'), s('m2')
    box = dict(ch.box, m=(F(1), F(2)), m2=(F(-2), F(-1)), y0=(F(-5), F(5)))
    lin = lambda i0, y0, k, i: add(y0, mul(k, sub(ch.at[i], ch.at[i0])))
    y0 = s('y0')
    up = [lin(0, y0, m, i) for i in range(6)]
    y3 = up[2]
    cases = {'all on one line': (list(range(5)), up[:5], [0, 4]),
             'corner': (list(range(5)), up[:3] + [lin(2, y3, m2, 3), lin(2, y3, m2, 4)], [0, 2, 4]),
             'two points': ([0, 1], up[:2], [0, 1]),
             'zigzag': ([0, 1, 2, 3], [y0, up[1], sub(y0, ONE), add(y0, num(30))], [0, 1, 2, 3]),
             'level then step': ([0, 1, 2, 2, 3], [y0, y0, y0, add(y0, ONE), add(y0, ONE)], [0, 2, 3, 4])}
    with t.ranges(box):
        for nm, (lx, y, keep) in cases.items():
            c = run(ctx, 'remove_superfluous_from_x_y', A([ch.at[i] for i in lx]), A(y))
            for k, w in enumerate(([ch.at[lx[i]] for i in keep], [y[i] for i in keep])):
                it = c.item(k)
                n = concrete_len(c, it)
                lab = 'remove_superfluous_from_x_y: %s %s' % (nm, 'xy'[k])
                if n is not None and n != len(w):
                    ctx.violation('superfluous', lab, 'a corner is removed or a point inside a straight run is kept (%d points, expected %d)' % (n, len(w)), c.where)
                    continue
                for j, v in enumerate(w):
                    val(ctx, 'superfluous', '%s[%d]' % (lab, j), c, c.value(j, of=it), v, 'a corner is removed or a point inside a straight run is kept', box)


    h = s('h')
    for nm, pts, tol in (('level', [(0, ZERO), (5, h), (10, ZERO)], 5), ('sloped', [(0, ZERO), (4, add(num(3), mul(num(F(5, 4)), h))), (8, num(6))], 5)):
        # distance from the chord is h in both cases
        for gone, rng in ((True, (F(2), F(3))), (True, (F(9, 2), F(49, 10))), (False, (F(51, 10), F(11, 2))), (False, (F(6), F(7)))):
            with t.ranges({'h': rng}):
                c = run(ctx, 'remove_superfluous_from_x_y', A([num(a) for a, b in pts]), A([b for a, b in pts]), atol=num(tol))
                n = concrete_len(c, c.item(0))
                lab = 'remove_superfluous_from_x_y: %s chord, distance %s to %s, atol=%d' % (nm, rng[0], rng[1], tol)
                ctx.count('selections')
                if n is None:
                    ctx.undecided('superfluous', lab)
                elif n != (2 if gone else 3):
                    ctx.violation('superfluous', lab, 'a point %s atol from the line is %s' % (('nearer than', 'kept') if gone else ('further than', 'removed')), c.where)
                else:
                    ctx.ok('superfluous', lab)


def mismatched(ctx):
    """two lines to be multiplied must have the same x values"""
    ch = Chain(6)
    y = ys_of(4)
    at = lambda ls: A([ch.at[i] for i in ls])
    good = ([0, 2, 4], [2, 4, 5])
    fn = 'integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between'
    for nm, other in (('starts differ', ([1, 2, 4], [2, 4, 5])), ('ends differ', ([0, 2, 4], [2, 4, 3])), ('both differ', ([1, 3, 4], [3, 4, 5]))):
        with t.ranges(ch.box):
            for sw in (0, 1):
                p, q = (good, other) if not sw else (other, good)
                c = run(ctx, fn, at(p[0]), at(p[1]), A(y[:3]), A(y[1:]), at(q[0]), at(q[1]), A(y[:3]), A(y[1:]), A([ch.at[2]]), A([ch.at[3]]))
                ctx.count('selections')
                lab = '%s: %s%s' % (fn, nm, ', swapped' if sw else '')
                r = c.rejected()
                (ctx.ok('mismatch', lab) if r is t.TRUE else ctx.violation('mismatch', lab, 'lines with different x values are multiplied', c.where) if r is t.FALSE
                 else ctx.undecided('mismatch', lab))


def subdivide(ctx):
    """evenly spaced points in each interval, all original points kept"""
    ch = Chain(4)
    y = ys_of(4)
    g = [s('g%d' % i) for i in (1, 2, 3)]
    one = F(1)
    logx = [s('lx%d' % i) for i in range(4)]
    lrange = {'lx0': (F(1), F(2)), 'lx1': (F(3), F(4)), 'lx2': (F(9), F(10)), 'lx3': (F(30), F(31))}
    cases = [('default', {}, [2, 2, 2], None), ('min_segments=3', {'min_segments': num(3)}, [3, 3, 3], None),
             ('dx', {'dx': num(F(1, 2)), 'min_segments': num(1)}, [2, 4, 7], None), ('dx and min_segments', {'dx': num(F(1, 2)), 'min_segments': num(3)}, [3, 4, 7], None),
             ('just_before', {'just_before': s('jb')}, [2, 2, 2], s('jb')), ('just_before, dx', {'just_before': s('jb'), 'dx': num(F(1, 2)), 'min_segments': num(1)}, [2, 4, 7], s('jb'))]
    box = dict(ch.box, g1=(F(101, 100), F(149, 100)), g2=(F(201, 100), F(249, 100)), g3=(F(351, 100), F(399, 100)), jb=(F(1, 100), F(1, 10)))

    def points(v, ns, jb):
        out = []
        for a, b, n in zip(v, v[1:], ns):
            if jb is None:
                out += [add(a, mul(num(F(i, n)), sub(b, a))) for i in range(n)]
            else:
                out += [add(a, mul(num(F(i, n)), sub(ONE, jb), sub(b, a))) for i in range(n + 1)]
        return out + [v[-1]]
    for nm, kw, ns, jb in cases:
        with t.ranges(box):
            c = run(ctx, 'subdivide_x_into_segments', A(ch.at), **kw)
            vals(ctx, 'subdivide', 'subdivide_x_into_segments: ' + nm, c, points(ch.at, ns, jb), 'sub-divided points are not evenly spaced points of each interval', box)
            c = run(ctx, 'subdivide_x_y_into_segments', A(ch.at), A(y), **kw)
            for k, v in enumerate((ch.at, y)):
                pair(ctx, c, k, points(v, ns, jb), 'subdivide_x_y_into_segments: %s %s' % (nm, 'xy'[k]), box)
    lg = lambda x: t.fn('log10', x)
    ten = lambda x: t.pow_(num(10), x)
    lbox = dict(lrange, y0=(F(1), F(2)), y1=(F(3), F(4)), y2=(F(1), F(2)), y3=(F(5), F(6)), zz=(F(1, 10), F(1, 5)), zy=(F(1, 10), F(1, 5)))
    for lx_, ly_ in ((True, False), (False, True), (True, True)):
        kw = {}
        if lx_:
            kw['logx'] = True
        if ly_:
            kw['logy'] = True
        for zero in (False, True):
            X, Y = list(logx), list(y)
            k2 = dict(kw)
            if zero:
                X[0], Y[2] = (ZERO if lx_ else X[0]), (ZERO if ly_ else Y[2])
                if lx_:
                    k2['logxzero'] = s('zz')
                if ly_:
                    k2['logyzero'] = s('zy')
            px = [s('zz') if zero and lx_ and v is ZERO else v for v in X]
            py = [s('zy') if zero and ly_ and v is ZERO else v for v in Y]
            wx = [ten(v) for v in points([lg(v) for v in px], [2, 2, 2], None)] if lx_ else points(px, [2, 2, 2], None)
            wy = [ten(v) for v in points([lg(v) for v in py], [2, 2, 2], None)] if ly_ else points(py, [2, 2, 2], None)
            with t.ranges(lbox):
                lab = 'log axes %s%s%s' % ('x' if lx_ else '', 'y' if ly_ else '', ', zero value' if zero else '')
                c = run(ctx, 'subdivide_x_y_into_segments', A(X), A(Y), **k2)
                for k, w in enumerate((wx, wy)):
                    pair(ctx, c, k, w, 'subdivide_x_y_into_segments: %s %s' % (lab, 'xy'[k]), lbox)
                if lx_ and not ly_:
                    c = run(ctx, 'subdivide_x_into_segments', A(X), **k2)
                    vals(ctx, 'subdivide', 'subdivide_x_into_segments: ' + lab, c, wx, 'sub-divided points are not evenly spaced in the logarithm', lbox)
    # layers
    hs = [s('h0'), s('h1'), s('h2')]
    hbox = {'h0': (F(19, 10), F(195, 100)), 'h1': (F(1, 10), F(2, 10)), 'h2': (F(390, 100), F(395, 100))}
    for nm, segs, kw, ns in (('one per part', 9, {}, [2, 1, 5]), ('min_segs', 9, {'min_segs': num(3)}, [3, 3, 5])):
        with t.ranges(hbox):
            c = run(ctx, 'layer_coords', A(hs), num(segs), **kw)
            z = [ZERO, hs[0], add(hs[0], hs[1]), add(*hs)]
            vals(ctx, 'layers', 'layer_coords: ' + nm, c, points(z, ns, None), 'layers are not divided evenly, or layer ends are lost', hbox)
    p, h = s('p'), s('h')
    for n in range(2, 7 if ctx.tier == 'quick' else 10):
        for sym_ in (None, True, False):
            for lo, hi in ((F(11, 10), F(3)), (F(1, 4), F(9, 10)), (1, 1)):
                bx = {'p': (F(lo), F(hi)), 'h': (F(1), F(9))}
                q = ONE if lo == hi else p
                e = list(range(n)) if sym_ is False else [min(i, n - 1 - i) for i in range(n)]
                tot = add(*[t.pow_(q, num(i)) for i in e])
                with t.ranges(bx):
                    kw = {'n': num(n), 'h': h, 'p': q}
                    if sym_ is not None:
                        kw['symmetry'] = sym_
                    c = run(ctx, 'subdivide_into_elements', **kw)
                    vals(ctx, 'elements', 'subdivide_into_elements: n=%d symmetry=%s p in %s' % (n, sym_, (str(lo), str(hi))), c, [div(mul(h, t.pow_(q, num(i))), tot) for i in e],
                         'element lengths do not follow the ratio p, or do not add up to h', bx)


def pair(ctx, c, k, w, lab, box):
    it = c.item(k)
    n = concrete_len(c, it)
    if n is not None and n != len(w):
        ctx.violation('subdivide', lab, 'number of points is %d, expected %d' % (n, len(w)), c.where)
        return
    for j, v in enumerate(w):
        val(ctx, 'subdivide', '%s[%d]' % (lab, j), c, c.value(j, of=it), v, 'sub-divided points are not evenly spaced points of each interval', box)


def check(ctx):
    jobs = []
    for nm, lx in INCR.items():
        jobs.append(lambda nm=nm, lx=lx: segments(ctx, nm, lx))
        jobs.append(lambda nm=nm, lx=lx: integrals(ctx, nm, lx))
        for pat in YP[len(lx)]:
            if 'first' not in nm and 'last' not in nm and 'double' not in nm:
                jobs.append(lambda nm=nm, lx=lx, pat=pat: conversions(ctx, nm, lx, pat))
    for d in (INCR, DECR, BACK):
        for nm, lx in d.items():
            jobs.append(lambda nm=nm, lx=lx: order(ctx, nm, lx))
            jobs.append(lambda nm=nm, lx=lx: interp(ctx, nm, lx))
    jobs += [lambda: composites(ctx), lambda: reshape(ctx), lambda: superfluous(ctx), lambda: mismatched(ctx), lambda: subdivide(ctx)]
    ctx.parallel(jobs)
