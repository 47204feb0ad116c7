"""layered soil: closed-form solutions satisfy their governing equations and interface conditions"""
from fractions import Fraction
from sa import terms as t
from sa import kern
from sa.scal import Inst, Call, A, same, sym, integral, wrap, rejects
from sa.terms import num
from sa.front import ObjV, newkey
from props.c32 import near, add, sub, mul, div, diff, neg, pw, fn, ZERO, ONE, x

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): the methods are abstracted to gated terms in layer properties, eigenvalues, depth, time and load history; '
             'matrix rows, coefficients and series are compared with the conditions and integrals that the eigenfunctions have to satisfy, formed symbolically. Nothing from /repo is imported or run.')
SS = 'geotecha.consolidation.schiffmanandstein1970'
NL = 'geotecha.consolidation.nogamiandli2003'
PW = kern.PW
CHECKER = 'geotecha.inputoutput.inputoutput.InputFileLoaderCheckerSaver.check_input_attributes'
POLAR = {'cmath.polar': lambda I, a, k, st, f: wrap(I, st, (fn('abs', I.node(a[0], st)), t.mk('call', 'phase', I.node(a[0], st))))}
TWO = num(2)
sq = lambda a: mul(a, a)
LOADS = {'step, ramp, hold': ((0, 0, 2.0, 5.0), (0, 1.3, 0.4, 0.4)), 'ramp, ramp, step': ((0, 1.0, 3.0, 3.0), (0, 0.9, 2.2, 1.1)),
         'hold then step then ramp': ((0, 1.5, 1.5, 4.0), (0.0, 0.0, 1.2, 3.3)), 'step on a starting value': ((0.3, 0.3, 1.2, 3.5, 3.5), (0.5, 0.9, 1.6, 1.6, 0.2))}
TIMES = (0.4, 1.8, 2.7, 3.7, 8.0)


def check(ctx):
    ctx.rule('conditions', 'the rows of the boundary matrix (the transfer across a layer) are the end and interface conditions of the eigenfunctions')
    ctx.rule('eigenvalues', 'the roots asked for are those of the characteristic equation, the requested number of them')
    ctx.rule('coefficients', 'each mode has the coefficient that a uniform unit pore pressure gives it')
    ctx.rule('time', 'the time function of a mode is its response to the load history, jumps included')
    ctx.rule('pore pressure', 'the pore pressure is the sum of the modes, each depth in its own layer')
    ctx.rule('derived', 'average pore pressure and settlement follow from the pore pressure and the load')
    ctx.rule('elements', 'each depth and time of an array gets its own value')
    ctx.rule('domain', 'unknown boundary conditions are refused')
    ctx.assumptions += ['arithmetic is over the reals', 'root finding is an uninterpreted operator (C52)', 'linear systems are solved exactly', 'one to three layers and one to three terms']
    th = []
    for nl in (1, 2, 3):
        for top in (0, 1, 3):
            for bot in (0, 1, 3):
                if nl == 2 or (top, bot) in ((0, 1), (3, 3)) or ctx.thorough:
                    th.append(lambda nl=nl, top=top, bot=bot: schiff(ctx, nl, top, bot))
    th += [lambda: schiff_time(ctx), lambda: schiff_domain(ctx), lambda: nogami_time(ctx)]
    for nl, top, bot, radial, rcalc, slow in ((1, 0, 1, True, False, False), (2, 0, 1, True, False, False), (2, 1, 0, True, True, False), (2, 0, 0, True, True, True), (3, 1, 1, True, False, True), (2, 0, 1, False, False, False), (3, 1, 0, False, False, False)):
        th.append(lambda a=(nl, top, bot, radial, rcalc), slow=slow: nogami(ctx, *a, slow=slow))
    for drn in (0, 1):
        th.append(lambda drn=drn: shan(ctx, drn, (), ()))
        for form in ('list', 'float'):
            th.append(lambda drn=drn, form=form: shan(ctx, drn, ('f', 'f3'), ('exp', 'sin'), form))
        for kind in ('exp', 'sin'):
            for k in ('f', 'f1', 'f2', 'f3', 'f4'):
                th.append(lambda a=(drn, (k,), (kind,)): shan(ctx, *a))
        th.append(lambda drn=drn: shan(ctx, drn, ('f', 'f1', 'f2', 'f3', 'f4'), ('exp', 'sin', 'exp', 'sin', 'exp')))
        th.append(lambda drn=drn: shan(ctx, drn, ('f', 'f1', 'f2', 'f3', 'f4'), ('sin', 'exp', 'sin', 'exp', 'sin')))
    th.append(lambda: shan_domain(ctx))
    ctx.parallel(th)


def proportional(ctx, rule, c, where, got, want, msg, values):
    """got = factor*want with a factor that is not zero"""
    ref = add(*[mul(w, num(k + 2)) for k, w in enumerate(want)])
    gref = add(*[mul(w, num(k + 2)) for k, w in enumerate(got)])
    for k, (g, w) in enumerate(zip(got, want)):
        same(ctx, rule, '%s, entry %d' % (c, k), where, div(g, gref), div(w, ref), msg, values=values)


def duhamel(xs, ys, lx, ly, tq, T, b):
    """int_0^T q'(s) exp(-b(T-s)) ds including jumps; tq is the sampled value of T"""
    tot = []
    for k in range(len(xs) - 1):
        if xs[k] == xs[k + 1]:
            if xs[k] <= tq:
                tot.append(mul(sub(ly[k + 1], ly[k]), fn('exp', neg(mul(b, sub(T, lx[k]))))))
        elif ys[k] != ys[k + 1] and tq > xs[k]:
            end = lx[k + 1] if tq >= xs[k + 1] * 1.05 else T
            e1 = fn('exp', neg(mul(b, sub(T, end))))
            e0 = fn('exp', neg(mul(b, sub(T, lx[k]))))
            tot.append(mul(div(sub(ly[k + 1], ly[k]), sub(lx[k + 1], lx[k])), div(sub(e1, e0), b)))
    return add(*tot) if tot else ZERO


def line(lx, ly):
    def make(I, st):
        p = I.p.modules['geotecha.piecewise.piecewise_linear_1d']
        from sa.front import ClassV
        r = I.p.resolve('geotecha.piecewise.piecewise_linear_1d', 'PolyLine')
        o = ObjV(newkey(), ClassV(r[1], r[2]))
        a, b = wrap(I, st, A(lx)), wrap(I, st, A(ly))
        st.store[o.key] = {'x': a, 'y': b, '_x': a, '_y': b}
        return o
    return make


class Soil(object):
    def __init__(self, nl):
        self.nl = nl
        for q in ('h', 'kv', 'kh', 'mv'):
            setattr(self, q, [sym('%s%d' % (q, i)) for i in range(nl)])
        self.top = [add(*self.h[:i]) if i else ZERO for i in range(nl)]
        self.bot = [add(*self.h[:i + 1]) for i in range(nl)]
        self.H = self.bot[-1]
        self.cv = [div(k, m) for k, m in zip(self.kv, self.mv)]
        self.base = {}
        for i in range(nl):
            self.base.update({'h%d' % i: (1.3, 0.8, 1.1)[i], 'kv%d' % i: (0.6, 1.5, 0.9)[i], 'kh%d' % i: (0.8, 1.1, 2.0)[i], 'mv%d' % i: (0.35, 0.5, 0.27)[i]})


def schiff_inst(ctx, s, top, bot, hooks, **kw):
    hk = {CHECKER: lambda I, args, kw, st, f: None, PW + '.segment_containing_also_segments_less_than_xi': kern.seg_hook}
    hk[PW + '.pinterp_x_y'] = lambda I, a, k, st, f: wrap(I, st, A([t.mk('call', 'load', I.node(a[1], st))]))
    hk.update(hooks or {})
    m = Inst(ctx, SS, 'SchiffmanAndStein1970', bare=True, hooks=hk)
    m.set(h=A(s.h), kv=A(s.kv), mv=A(s.mv), bctop=top, bcbot=bot, htop=sym('htop'), ktop=sym('ktop'), hbot=sym('hbot'), kbot=sym('kbot'), _debug=False, title=None, author='x', version='1', t=A([sym('t0'), sym('t1')]), **kw)
    return m


def schiff(ctx, nl, top, bot):
    s = Soil(nl)
    n = 2
    roots = [sym('root%d' % j) for j in range(n)]
    sol = [[sym('x%d_%d' % (j, i)) for i in range(2 * nl - 1)] for j in range(n)]
    seen = dict(det=[], solve=[], find=[])

    def rows(I, st, v):
        a = I.as_array(v, st)
        ax = I.axes(a, st)
        k = [int(q.size.args[0]) for q in ax]
        return [[I.elem(a, (num(i), num(j)), st) for j in range(k[1])] for i in range(k[0])] if len(k) == 2 else [I.elem(a, (num(i),), st) for i in range(k[0])]

    def det(I, args, kw, st, f):
        seen['det'].append(rows(I, st, args[0]))
        return sym('det')

    def solve(I, args, kw, st, f):
        seen['solve'].append((rows(I, st, args[0]), rows(I, st, args[1])))
        return wrap(I, st, A(sol[len(seen['solve']) - 1]))

    def find(I, args, kw, st, f):
        seen['find'].append((I.node(I.call(args[0], [sym('b')], {}, st), st), dict(kw), list(args[1:])))
        return wrap(I, st, A(roots))
    z = [sym('z0'), sym('z1')]
    tp = [sym('p0'), sym('p1')]
    m = schiff_inst(ctx, s, top, bot, {'numpy.linalg.det': det, 'numpy.linalg.solve': solve, 'geotecha.mathematics.root_finding.find_n_roots': find}, n=n, z=A(z), tpor=A(tp))
    xs, ys = LOADS['step, ramp, hold']
    lx, ly = [sym('lx%d' % i) for i in range(len(xs))], [sym('ly%d' % i) for i in range(len(xs))]
    m.st.store[m.o.key]['surcharge_vs_time'] = line(lx, ly)(m.I, m.st)
    times = dict(t0=0.4, t1=2.9, p0=1.3, p1=3.1)
    base = dict(s.base, htop=0.4, hbot=0.3, ktop=0.7, kbot=0.25, b=0.83, z0=0.3 * 1.3, z1=sum((1.3, 0.8, 1.1)[:nl]) - 0.37, **times)
    for j in range(n):
        base['root%d' % j] = (0.61, 1.37)[j]
        for i in range(2 * nl - 1):
            base['x%d_%d' % (j, i)] = 0.3 + 0.21 * i + 0.4 * j
    V0 = near(base)

    def V(seed):
        r = V0(seed)
        for i in range(len(xs)):
            r['lx%d' % i] = t.mpf(xs[i])
            r['ly%d' % i] = t.mpf(ys[i]) * (1 + t._rnd((seed, 'y', ys[i]), 0, .1))
        return r
    tag = '%d layers, bctop=%d, bcbot=%d' % (nl, top, bot)
    N = 'SchiffmanAndStein1970'
    c = m.call('make_output')
    where = c.where

    def modes(b0):
        return [mul(b0, fn('sqrt', div(s.cv[0], s.cv[i]))) for i in range(nl)]

    def conditions(b0):
        """coefficients of (B0, C0, B1, C1, ...) in each condition"""
        be = modes(b0)
        B = [sym('B%d' % i) for i in range(nl)]
        C = [sym('C%d' % i) for i in range(nl)]
        Z = [add(mul(B[i], fn('cos', mul(be[i], x))), mul(C[i], fn('sin', mul(be[i], x)))) for i in range(nl)]
        at = lambda e, d: t.subst(e, {x: d})
        dZ = [diff(q, x) for q in Z]
        out = []
        if top == 0:
            out.append(at(Z[0], ZERO))
        elif top == 1:
            out.append(at(dZ[0], ZERO))
        else:
            out.append(sub(mul(s.kv[0], at(dZ[0], ZERO)), mul(div(sym('ktop'), sym('htop')), at(Z[0], ZERO))))
        for i in range(nl - 1):
            out.append(sub(at(Z[i], s.bot[i]), at(Z[i + 1], s.bot[i])))
            out.append(sub(mul(s.kv[i], at(dZ[i], s.bot[i])), mul(s.kv[i + 1], at(dZ[i + 1], s.bot[i]))))
        if bot == 0:
            out.append(at(Z[-1], s.H))
        elif bot == 1:
            out.append(at(dZ[-1], s.H))
        else:
            out.append(add(mul(s.kv[-1], at(dZ[-1], s.H)), mul(div(sym('kbot'), sym('hbot')), at(Z[-1], s.H))))
        co = [q for p in zip(B, C) for q in p]
        return [[diff(o, c) for c in co] for o in out]
    # 1 eigenvalues and the matrix
    if len(seen['find']) != 1 or len(seen['det']) != 1:
        ctx.undecided('eigenvalues', '%s [%s]' % (N, tag), 'no single search for roots of a determinant')
        return
    same(ctx, 'eigenvalues', '%s function searched [%s]' % (N, tag), where, seen['find'][0][0], sym('det'), 'the roots are not those of the determinant', values=V)
    kw = seen['find'][0][1]
    nn = kw.get('n', (seen['find'][0][2] + [None, None])[1])
    same(ctx, 'eigenvalues', '%s number of roots [%s]' % (N, tag), where, nn if isinstance(nn, t.Node) else t.unk('n') if nn is None else num(nn), num(n), 'the number of roots asked for is not n', values=V)
    M = seen['det'][0]
    for i, w in enumerate(conditions(sym('b'))):
        proportional(ctx, 'conditions', '%s row %d [%s]' % (N, i, tag), where, M[i], w, 'a row is not the end or interface condition of the eigenfunctions', V)
    # 2 linear system for the coefficients of the eigenfunctions, the last of them one
    if len(seen['solve']) != n:
        ctx.undecided('conditions', '%s [%s]' % (N, tag), 'no linear system for each mode')
        return
    for j in range(n):
        a, b = seen['solve'][j]
        want = conditions(roots[j])
        for r in range(2 * nl - 1):
            proportional(ctx, 'conditions', '%s equation %d of mode %d [%s]' % (N, r, j, tag), where, a[r] + [neg(b[r])], want[r], 'the coefficients of a mode do not satisfy the conditions', V)
    co = [sol[j] + [ONE] for j in range(n)]
    Zof = lambda j, i, zz: add(mul(co[j][2 * i], fn('cos', mul(modes(roots[j])[i], zz))), mul(co[j][2 * i + 1], fn('sin', mul(modes(roots[j])[i], zz))))
    # 3 sums
    am = []
    for j in range(n):
        nu = add(*[mul(s.mv[i], integral(s.top[i], s.bot[i], Zof(j, i, x), x)) for i in range(nl)])
        de = add(*[mul(s.mv[i], integral(s.top[i], s.bot[i], sq(Zof(j, i, x)), x)) for i in range(nl)])
        am.append(div(nu, de))
    Tm = lambda j, T: duhamel(xs, ys, lx, ly, times[T.args[0]], T, mul(s.cv[0], sq(roots[j])))
    por = m.attr('por')
    for k, zz in enumerate(z):
        for q, T in enumerate(tp):
            for lay in range(nl):
                mid = sum((1.3, 0.8, 1.1)[:lay]) + 0.4
                W = lambda seed, k=k, mid=mid: dict(V(seed), **{'z%d' % k: t.mpf(mid)})
                w = add(*[mul(am[j], Zof(j, lay, zz), Tm(j, T)) for j in range(n)])
                same(ctx, 'pore pressure', '%s depth %d in layer %d, time %d [%s]' % (N, k, lay, q, tag), where, por.at(k, q), w, 'the pore pressure is not the sum of the modes of its layer', values=W, seeds=(1,))
    for what, val, lay in (('top', '0', 0), ('base', None, nl - 1)):
        W = lambda seed, val=val: (lambda r: dict(r, z0=t.mpf(val) if val else sum(r['h%d' % i] for i in range(nl))))(V(seed))
        w = add(*[mul(am[j], Zof(j, lay, z[0]), Tm(j, tp[0])) for j in range(n)])
        same(ctx, 'pore pressure', '%s at the %s [%s]' % (N, what, tag), where, por.at(0, 0), w, 'the pore pressure is not the sum of the modes of its layer', values=W, seeds=(1,))
    for q, T in enumerate((sym('t0'), sym('t1'))):
        ex = [[mul(am[j], Tm(j, T), integral(s.top[i], s.bot[i], Zof(j, i, x), x)) for i in range(nl)] for j in range(n)]
        load = t.mk('call', 'load', T)
        w = div(add(*[e for r in ex for e in r]), s.H)
        same(ctx, 'derived', '%s avp, time %d [%s]' % (N, q, tag), where, item(m.attr('avp'), q), w, 'the average is not the depth mean of the pore pressure', values=V, seeds=(1,))
        w = add(*[sub(mul(s.mv[i], s.h[i], load), mul(s.mv[i], add(*[ex[j][i] for j in range(n)]))) for i in range(nl)])
        same(ctx, 'derived', '%s settlement, time %d [%s]' % (N, q, tag), where, item(m.attr('set'), q), w, 'the settlement is not the sum of mv*h*(load - mean pore pressure)', values=V, seeds=(1,))


def item(c, q):
    return c.at(0, q) if c.rank() == 2 else c.at(q)


def history(ctx, N, m, por, where, factor, rate, V0, tname, xs, ys, lx, ly, ln):
    """the time function of a one-mode solution for each position of the time in the load history"""
    T = sym(tname)
    for tq in TIMES:
        def V(seed, tq=tq):
            f = 1 + t._rnd((seed, 'ts'), 0, .04)
            r = dict(V0(seed))
            for i in range(len(xs)):
                r['lx%d' % i] = t.mpf(xs[i]) * f
                r['ly%d' % i] = t.mpf(ys[i]) * (1 + t._rnd((seed, 'y', ys[i]), 0, .1))
            r[tname] = t.mpf(tq)
            return r
        same(ctx, 'time', '%s [%s, t=%s]' % (N, ln, tq), where, add(por, ONE), add(mul(factor, duhamel(xs, ys, lx, ly, tq, T, rate)), ONE), 'the time function is not the response to the load history', values=V)
    if xs[0] == xs[1]:
        V1 = lambda seed: (lambda r: dict(r, **{tname: r['lx0']}))(V(seed))
        same(ctx, 'time', '%s [%s, at the first jump]' % (N, ln), where, add(por, ONE), add(mul(factor, sub(ly[1], ly[0])), ONE), 'the pore pressure does not rise with the load', values=V1)


def schiff_time(ctx):
    s = Soil(1)
    V0 = near(dict(s.base, root0=0.9, X0=0.7, z0=0.5, p0=1.0, t0=1.0, t1=2.0))
    for ln, (xs, ys) in LOADS.items():
        lx, ly = [sym('lx%d' % i) for i in range(len(xs))], [sym('ly%d' % i) for i in range(len(xs))]
        hk = {'numpy.linalg.solve': lambda I, a, k, st, f: wrap(I, st, A([sym('X0')])), 'numpy.linalg.det': lambda I, a, k, st, f: sym('det'),
              'geotecha.mathematics.root_finding.find_n_roots': lambda I, a, k, st, f: wrap(I, st, A([sym('root0')]))}
        m = schiff_inst(ctx, s, 0, 1, hk, n=1, z=A([sym('z0')]), tpor=A([sym('p0')]))
        m.st.store[m.o.key]['surcharge_vs_time'] = line(lx, ly)(m.I, m.st)
        c = m.call('make_output')
        Z = lambda zz: add(mul(sym('X0'), fn('cos', mul(sym('root0'), zz))), fn('sin', mul(sym('root0'), zz)))
        am = div(integral(ZERO, s.H, Z(x), x), integral(ZERO, s.H, sq(Z(x)), x))
        history(ctx, 'SchiffmanAndStein1970', m, m.attr('por').at(0, 0), c.where, mul(am, Z(sym('z0'))), mul(s.cv[0], sq(sym('root0'))), V0, 'p0', xs, ys, lx, ly, ln)


NB = dict(r0=0.07, r1=0.52, rc=0.21)


def radial_roots(nn, count):
    """roots of J1(nn*s)*Y0(s) - J0(s)*Y1(nn*s)"""
    from mpmath import besselj, bessely, findroot, mpf
    f = lambda q: besselj(1, nn * q) * bessely(0, q) - besselj(0, q) * bessely(1, nn * q)
    out, a = [], mpf('0.02')
    while len(out) < count:
        if f(a) * f(a + mpf('0.02')) < 0:
            out.append(findroot(f, (a, a + mpf('0.02')), solver='anderson'))
        a += mpf('0.02')
    return out


def nogami(ctx, nl, top, bot, radial, rcalc, loads=('step, ramp, hold',), nv=2, nh=2, times=None, slow=False):
    s = Soil(nl)
    if not radial:
        nh = 1
    alp = [[sym('a%d_%d' % (i, j)) for j in range(nv)] for i in range(nh)]
    sn = [sym('s%d' % i) for i in range(nh)]
    r0, r1, rc = sym('r0'), sym('r1'), sym('rc')
    xs, ys = LOADS[loads[0]]
    lx, ly = [sym('lx%d' % i) for i in range(len(xs))], [sym('ly%d' % i) for i in range(len(xs))]
    seen = []

    def find(I, args, kw, st, f):
        extra = kw.get('args')
        extra = list(I.items1(extra, st) or []) if extra is not None else []
        seen.append((I.node(I.call(args[0], [sym('q')] + extra, {}, st), st), kw.get('n', args[1] if len(args) > 1 else None), extra, dict(kw)))
        k = len(seen) - 1
        if radial and k == 0:
            return wrap(I, st, A(sn))
        k -= 1 if radial else 0
        return wrap(I, st, A(alp[k % nh]))
    hk = {CHECKER: lambda I, a, k, st, f: None, PW + '.segment_containing_also_segments_less_than_xi': kern.seg_hook, 'geotecha.mathematics.root_finding.find_n_roots': find,
          PW + '.pinterp_x_y': lambda I, a, k, st, f: wrap(I, st, A([t.mk('call', 'load', I.node(a[1], st))]))}
    hk.update(POLAR)
    m = Inst(ctx, NL, 'NogamiAndLi2003', bare=True, hooks=hk)
    z, tp, tt = [sym('z0'), sym('z1')], [sym('p0'), sym('p1')], [sym('t0'), sym('t1')]
    m.set(h=A(s.h), kv=A(s.kv), kh=A(s.kh) if radial else None, mv=A(s.mv), bctop=top, bcbot=bot, r0=r0 if radial else None, r1=r1 if radial else None, rcalc=rc if rcalc else None, nv=nv, nh=nh,
          radial_roots_x0=sym('rx0'), radial_roots_dx=sym('rdx'), radial_roots_p=sym('rp'), vertical_roots_x0=sym('vx0'), vertical_roots_dx=sym('vdx'), vertical_roots_p=sym('vp'), max_iter=sym('mi'),
          title=None, author='x', version='1', t=A(tt), tpor=A(tp), z=A(z))
    m.st.store[m.o.key]['surcharge_vs_time'] = line(lx, ly)(m.I, m.st)
    times = dict(t0=0.4, t1=2.9, p0=1.3, p1=3.1)
    base = dict(s.base, z0=0.39, z1=sum((1.3, 0.8, 1.1)[:nl]) - 0.37, q=0.83, rx0=.1, rdx=.2, rp=1.1, vx0=.01, vdx=.02, vp=1.05, mi=100, **times)
    roots = radial_roots(t.mpf(NB['r1']) / t.mpf(NB['r0']), nh) if radial else []
    V0 = near(base)
    # eigenvalues: mostly so that cv*beta^2 = alp^2 - ch*s^2/r0^2 is positive in some layers and negative in others

    def V(seed):
        r = V0(seed)
        for k, v in NB.items():
            r[k] = t.mpf(v)
        for i in range(nh):
            if radial:
                r['s%d' % i] = roots[i]
                off = roots[i] ** 2 / r['r0'] ** 2
            else:
                off = 0
            for j in range(nv):
                lead = off * (r['kh0'] / r['mv0'] if radial else 0)
                r['a%d_%d' % (i, j)] = t.mpmath.sqrt(lead * (t.mpf('0.93') if slow else 1) + t.mpf('1.9') + t.mpf('2.7') * j + t.mpf('0.3') * i + t._rnd((seed, 'a', i, j), 0, .1))
        for i in range(len(xs)):
            r['lx%d' % i] = t.mpf(xs[i])
            r['ly%d' % i] = t.mpf(ys[i]) * (1 + t._rnd((seed, 'y', ys[i]), 0, .1))
        return r
    tag = '%d layers, bctop=%d, bcbot=%d%s%s%s' % (nl, top, bot, ', radial' if radial else ', vertical only', ', at a radius' if rcalc else '', ', low eigenvalues' if slow else '')
    N = 'NogamiAndLi2003'
    c = m.call('make_output')
    where = c.where
    u = lambda order, arg, s_: sub(mul(fn('jn', num(order), arg), fn('yn', ZERO, s_)), mul(fn('jn', ZERO, s_), fn('yn', num(order), arg)))
    beta = lambda a, s_, k: fn('sqrt', div(sub(sq(a), mul(div(s.kh[k], s.mv[k]), div(sq(s_), sq(r0)))) if radial else sq(a), s.cv[k]))

    def phi(a, s_):
        """eigenfunction in each layer, in the depth x below the top of the layer"""
        v, d = (ZERO, ONE) if top == 0 else (ONE, ZERO)
        out = []
        for k in range(nl):
            b = beta(a, s_, k)
            e = add(mul(v, fn('cos', mul(b, x))), mul(d, div(fn('sin', mul(b, x)), b)))
            out.append(e)
            if k + 1 < nl:
                v, d = t.subst(e, {x: s.h[k]}), mul(t.subst(diff(e, x), {x: s.h[k]}), div(s.kv[k], s.kv[k + 1]))
        return out
    want = (1 if radial else 0) + nh
    if len(seen) != want:
        ctx.undecided('eigenvalues', '%s [%s]' % (N, tag), '%d searches for roots' % len(seen))
        return
    vert = seen[1 if radial else 0:]
    if radial:
        same(ctx, 'eigenvalues', '%s radial function searched [%s]' % (N, tag), where, div(seen[0][0], u(1, div(mul(sym('q'), r1), r0), sym('q'))), ONE, 'the radial eigenvalues are not those of no flow at r1 with zero pressure at r0', values=V)
    count = lambda v: v if isinstance(v, t.Node) else t.unk('n') if v is None else num(v)
    for k, e in enumerate(seen):
        isr = radial and k == 0
        same(ctx, 'eigenvalues', '%s number of roots %d [%s]' % (N, k, tag), where, count(e[1]), num(nh if isr else nv), 'the number of roots asked for is not the number of terms', values=V)
        for key, nm in (('dx', 'rdx' if isr else 'vdx'), ('p', 'rp' if isr else 'vp'), ('max_iter', 'mi')):
            if key in e[3]:
                same(ctx, 'eigenvalues', '%s %s of search %d [%s]' % (N, key, k, tag), where, count(e[3][key]), sym(nm), 'the search does not use the given %s' % key, values=V)
    for i, e in enumerate(vert):
        f = phi(sym('q'), sn[i] if radial else ZERO)[-1]
        f = f if bot == 0 else diff(f, x)
        W = lambda seed, i=i: dict(V(seed), q=V(seed)['a%d_0' % i] * t.mpf('1.07'))
        same(ctx, 'eigenvalues', '%s vertical function searched, radial mode %d [%s]' % (N, i, tag), where, real(e[0]), real(t.subst(f, {x: s.h[-1]})), 'the vertical eigenvalues are not those of the base condition', values=W)
    # modes
    am, radialpart = [], []
    for i in range(nh):
        if not radial:
            cn, un = ONE, ONE
        else:
            us = lambda o, r_: u(o, div(mul(r_, sn[i]), r0), sn[i])
            # int r u dr and int r u^2 dr from r0 to r1
            one = integral(r0, r1, mul(x, us(0, x)), x)
            two = integral(r0, r1, mul(x, sq(us(0, x))), x)
            cn = div(one, two)
            un = us(0, rc) if rcalc else div(mul(TWO, one), sub(sq(r1), sq(r0)))
        radialpart.append(mul(cn, un))
        am.append([])
        for j in range(nv):
            f = phi(alp[i][j], sn[i] if radial else ZERO)
            nu = add(*[mul(s.mv[k], integral(ZERO, s.h[k], f[k], x)) for k in range(nl)])
            de = add(*[mul(s.mv[k], integral(ZERO, s.h[k], sq(f[k]), x)) for k in range(nl)])
            am[-1].append((div(nu, de), f, [integral(ZERO, s.h[k], f[k], x) for k in range(nl)]))
    Tm = lambda i, j, T: duhamel(xs, ys, lx, ly, times[T.args[0]], T, sq(alp[i][j]))
    por = m.attr('por')
    depths = (0.3, 0.5, 0.2)
    for k, zz in enumerate(z):
        for q, T in enumerate(tp):
            for lay in range(nl):
                mid = sum((1.3, 0.8, 1.1)[:lay]) + 0.4
                W = lambda seed, k=k, mid=mid: dict(V(seed), **{'z%d' % k: t.mpf(mid)})
                w = add(*[mul(radialpart[i], am[i][j][0], t.subst(am[i][j][1][lay], {x: sub(zz, s.top[lay])}), Tm(i, j, T)) for i in range(nh) for j in range(nv)])
                if k == 0 or lay == nl - 1:
                    same(ctx, 'pore pressure', '%s depth %d in layer %d, time %d [%s]' % (N, k, lay, q, tag), where, real(por.at(k, q)), real(w), 'the pore pressure is not the sum of the modes of its layer', values=W, seeds=(1,))
    for q, T in enumerate(tt):
        ex = [mul(radialpart[i], Tm(i, j, T), am[i][j][0]) for i in range(nh) for j in range(nv)]
        ints = [am[i][j][2] for i in range(nh) for j in range(nv)]
        w = div(add(*[mul(e, f[k]) for e, f in zip(ex, ints) for k in range(nl)]), s.H)
        same(ctx, 'derived', '%s avp, time %d [%s]' % (N, q, tag), where, real(item(m.attr('avp'), q)), real(w), 'the average is not the depth mean of the pore pressure', values=V, seeds=(1,))
        load = t.mk('call', 'load', T)
        w = add(*[mul(s.mv[k], sub(mul(s.h[k], load), add(*[mul(e, f[k]) for e, f in zip(ex, ints)]))) for k in range(nl)])
        same(ctx, 'derived', '%s settlement, time %d [%s]' % (N, q, tag), where, real(item(m.attr('set'), q)), real(w), 'the settlement is not the sum of mv*h*(load - mean pore pressure)', values=V, seeds=(1,))


def real(e):
    return fn('real', e)


def nogami_time(ctx):
    s = Soil(1)
    V0 = near(dict(s.base, a0=1.9, z0=0.5, p0=1.0))
    for ln, (xs, ys) in LOADS.items():
        lx, ly = [sym('lx%d' % i) for i in range(len(xs))], [sym('ly%d' % i) for i in range(len(xs))]
        hk = {CHECKER: lambda I, a, k, st, f: None, PW + '.segment_containing_also_segments_less_than_xi': kern.seg_hook,
              'geotecha.mathematics.root_finding.find_n_roots': lambda I, a, k, st, f: wrap(I, st, A([sym('a0')])), PW + '.pinterp_x_y': lambda I, a, k, st, f: wrap(I, st, A([t.mk('call', 'load', I.node(a[1], st))]))}
        hk.update(POLAR)
        m = Inst(ctx, NL, 'NogamiAndLi2003', bare=True, hooks=hk)
        m.set(h=A(s.h), kv=A(s.kv), kh=None, mv=A(s.mv), bctop=0, bcbot=1, r0=None, r1=None, rcalc=None, nv=1, nh=1, vertical_roots_x0=ONE, vertical_roots_dx=ONE, vertical_roots_p=ONE, max_iter=ONE,
              title=None, author='x', version='1', t=None, tpor=A([sym('p0')]), z=A([sym('z0')]))
        m.st.store[m.o.key]['surcharge_vs_time'] = line(lx, ly)(m.I, m.st)
        c = m.call('make_output')
        b = div(sym('a0'), fn('sqrt', s.cv[0]))
        Z = lambda zz: fn('sin', mul(b, zz))
        am = div(integral(ZERO, s.H, Z(x), x), integral(ZERO, s.H, sq(Z(x)), x))
        history(ctx, 'NogamiAndLi2003', m, real(m.attr('por').at(0, 0)), c.where, mul(am, Z(sym('z0'))), sq(sym('a0')), V0, 'p0', xs, ys, lx, ly, ln)


def schiff_domain(ctx):
    s = Soil(2)
    for a, b in ((2, 0), (0, 2), (4, 1), (1, -1)):
        m = schiff_inst(ctx, s, a, b, None, n=2, z=A([sym('z0')]), tpor=A([sym('p0')]))
        c = m.call('make_output')
        rejects(ctx, 'domain', 'SchiffmanAndStein1970 [bctop=%d, bcbot=%d]' % (a, b), c, near(s.base)(1), True, 'an unknown boundary condition is accepted')


SH = 'geotecha.consolidation.shanetal2012'


def shan(ctx, drn, which, kinds, form='array'):
    """unsaturated soil: C*du/dt = -K*u'' + c*dq/dt in the water and air phases, linear start, loads and boundary pressures in time"""
    N = 2
    z, T = [sym('z0'), sym('z1')], [sym('p0'), sym('p1')]
    H, Cw, Cvw, Ca, Cva, Csw, Csa = [sym(q) for q in ('H', 'Cw', 'Cvw', 'Ca', 'Cva', 'Csw', 'Csa')]
    wi, ai = [sym('w0'), sym('w1')], [sym('g0'), sym('g1')]
    ev = [sym('e0'), sym('e1')]
    vv = [[sym('v00'), sym('v01')], [sym('v10'), sym('v11')]]
    seen = []

    def eig(I, args, kw, st, f):
        a = I.small(args[0], st)
        seen.append(a)
        return wrap(I, st, (A(ev), A([A(r) for r in vv])))
    loads = {}
    for k, kind in zip(which, kinds):
        loads[k] = {'type': kind, 'q0': sym('q0' + k), ('b' if kind == 'exp' else 'omega'): sym('b' + k)}
    zz, TT = (A(z), A(T)) if form == 'array' else (z, T) if form == 'list' else (z[0], T[0])
    c = Call(ctx, SH, 'shanetal2012', [zz, TT, H, Cw, Cvw, Ca, Cva], dict(drn=drn, Csw=Csw, Csa=Csa, uwi=tuple(wi), uai=tuple(ai), nterms=N, **loads), hooks={'numpy.linalg.eig': eig})
    base = dict(z0=0.4, z1=1.3, p0=0.35, p1=1.6, H=2.1, Cw=-0.45, Cvw=-0.5, Ca=-0.2, Cva=-0.9, Csw=0.3, Csa=0.17, w0=1.4, w1=0.6, g0=0.5, g1=1.1)
    for k in ('f', 'f1', 'f2', 'f3', 'f4'):
        base['q0' + k] = 0.8 + 0.1 * len(k) + 0.07 * ord(k[-1]) % 0.5
        base['b' + k] = 0.6 + 0.03 * ord(k[-1]) % 0.4
    V0 = near(base)

    def V(seed):
        r = V0(seed)
        d = 1 - r['Ca'] * r['Cw']
        a = [[r['Cvw'] / d, -r['Cw'] * r['Cva'] / d], [-r['Ca'] * r['Cvw'] / d, r['Cva'] / d]]
        tr, de = a[0][0] + a[1][1], a[0][0] * a[1][1] - a[0][1] * a[1][0]
        root = t.mpmath.sqrt(tr * tr / 4 - de)
        for k, s_ in enumerate((1, -1)):
            r['e%d' % k] = tr / 2 + s_ * root
            # eigenvectors, scaled differently
            r['v0%d' % k], r['v1%d' % k] = a[0][1] * (k + 1), (r['e%d' % k] - a[0][0]) * (k + 1)
        return r
    tag = '%s, %s%s' % ('both ends drained' if drn == 0 else 'base impervious', ' '.join('%s:%s' % q for q in zip(which, kinds)) or 'start only', '' if form == 'array' else ', ' + form)
    nm = 'shanetal2012'
    if len(seen) != 1 or seen[0] is None:
        ctx.undecided('eigenvalues', '%s [%s]' % (nm, tag), 'no single eigenvalue problem')
        return
    C = [[ONE, Cw], [Ca, ONE]]
    K = [Cvw, Cva]
    for i in range(2):
        for j in range(2):
            # C * N = K
            got = add(*[mul(C[i][k], seen[0][k][j]) for k in range(2)])
            same(ctx, 'eigenvalues', '%s matrix %d,%d [%s]' % (nm, i, j, tag), c.where, add(got, ONE), add(K[i] if i == j else ZERO, ONE), 'the eigenvalue problem is not that of the coupled flow equations', values=V, seeds=(1,))
    d = sub(mul(vv[0][0], vv[1][1]), mul(vv[0][1], vv[1][0]))
    iv = [[div(vv[1][1], d), neg(div(vv[0][1], d))], [neg(div(vv[1][0], d)), div(vv[0][0], d)]]
    dc = sub(ONE, mul(Ca, Cw))
    icm = lambda a, b: [div(sub(a, mul(Cw, b)), dc), div(sub(b, mul(Ca, a)), dc)]

    def evolve(vec, g):
        """V diag(g(e_k)) V^-1 vec"""
        y = [mul(add(mul(iv[k][0], vec[0]), mul(iv[k][1], vec[1])), g(ev[k])) for k in range(2)]
        return [add(mul(vv[i][0], y[0]), mul(vv[i][1], y[1])) for i in range(2)]

    def q(k, tau):
        l = loads[k]
        return mul(l['q0'], sub(ONE, fn('exp', neg(mul(l['b'], tau))))) if l['type'] == 'exp' else mul(l['q0'], fn('sin', mul(l['omega'], tau)))
    Ms = [mul(fn('pi'), num(Fraction(2 * j + 1, 2) if drn == 1 else j + 1)) for j in range(N)]
    phases = {'f1': 0, 'f2': 1, 'f3': 0, 'f4': 1}

    def want(zz, TT):
        out = [[], []]
        for M in Ms:
            m = div(M, H)
            S = fn('sin', mul(m, zz))
            part = lambda shape: mul(div(TWO, H), integral(ZERO, H, mul(fn('sin', mul(m, x)), shape), x))
            lin = lambda p: part(add(p[0], mul(sub(p[1], p[0]), div(x, H))))
            for i, e in enumerate(evolve([lin(wi), lin(ai)], lambda l: fn('exp', mul(l, sq(m), TT)))):
                out[i].append(mul(S, e))
            for k in loads:
                w = sym('tau')
                resp = lambda l, k=k: integral(ZERO, TT, mul(diff(q(k, w), w), fn('exp', mul(l, sq(m), sub(TT, w)))), w)
                if k == 'f':
                    vec = [mul(part(ONE), e) for e in icm(Csw, Csa)]
                else:
                    vec = [ZERO, ZERO]
                    vec[phases[k]] = neg(part(shape(k, x)))
                for i, e in enumerate(evolve(vec, resp)):
                    out[i].append(mul(S, e))
        for k in loads:
            if k != 'f':
                out[phases[k]].append(mul(q(k, TT), shape(k, zz)))
        return [add(*o) for o in out]

    def shape(k, d):
        if drn == 0:
            return sub(ONE, div(d, H)) if k in ('f1', 'f2') else div(d, H)
        return ONE if k in ('f1', 'f2') else d
    n = 1 if form == 'float' else 2
    for a in range(n):
        for b in range(n):
            if a != b and len(which) == 1:
                continue
            w = want(z[a], T[b])
            for i in range(2):
                same(ctx, 'pore pressure', '%s %s, depth %d, time %d [%s]' % (nm, ('water', 'air')[i], a, b, tag), c.where, c.at(a, b, of=c.item(i)), w[i], 'the pore pressure is not the sum of the modes of the coupled flow equations', values=V, seeds=(1,))


def shan_domain(ctx):
    good = {'type': 'exp', 'q0': sym('q0'), 'b': sym('b')}
    vals = near(dict(z0=0.4, p0=0.5, H=2.1, Cw=-0.45, Cvw=-0.5, Ca=-0.2, Cva=-0.9, q0=0.7, b=1.1))(1)
    for k in ('f', 'f1', 'f2', 'f3', 'f4'):
        for what, l, bad in (('valid', good, False), ('unknown type', dict(good, type='ramp'), True), ('no magnitude', {'type': 'exp', 'b': sym('b')}, True), ('no rate', {'type': 'exp', 'q0': sym('q0')}, True),
                             ('no frequency', {'type': 'sin', 'q0': sym('q0'), 'b': sym('b')}, True)):
            c = Call(ctx, SH, 'shanetal2012', [A([sym('z0')]), A([sym('p0')])] + [sym(q) for q in ('H', 'Cw', 'Cvw', 'Ca', 'Cva')], {'nterms': 1, k: l},
                     hooks={'numpy.linalg.eig': lambda I, a, kw, st, f: wrap(I, st, (A([ONE, TWO]), A([A([ONE, ZERO]), A([ZERO, ONE])])))})
            rejects(ctx, 'domain', 'shanetal2012 [%s, %s]' % (k, what), c, vals, bad, 'an incomplete load is accepted' if bad else 'a complete load is rejected')
