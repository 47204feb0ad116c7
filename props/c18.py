"""soil compressibility and permeability models: forward and inverse maps, slopes, creep increments"""
from sa import terms as t
from sa.scal import Call, Inst, A, same, sym, integral, rejects, wrap
from sa.terms import num
from sa.front import FuncV, ExtV
from props.c32 import near, fix, add, sub, mul, div, diff, neg, pw, fn, ZERO, ONE, x

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): the model classes are abstracted on symbolic parameters; compositions of their methods, and symbolic '
             'derivatives, are compared as terms in every range of the piecewise definitions. Nothing from /repo is imported or run.')
VS = 'geotecha.constitutive_models.void_ratio_stress'
VP = 'geotecha.constitutive_models.void_ratio_permeability'
ln = lambda a: fn('log', a)


def check(ctx):
    ctx.rule('inverse', 'the two directions of a relationship are inverse to each other wherever the relationship is defined')
    ctx.rule('definition', 'the relationship passes through its reference points and has the documented form between them')
    ctx.rule('slope', 'the compressibility is minus the slope of the void ratio - effective stress curve')
    ctx.rule('creep', 'initial conditions, increments and rate equations of the viscoplastic model agree')
    ctx.rule('plot', 'the curve returned for plotting is the relationship')
    ctx.rule('elements', 'each array element gets its own value')
    ctx.assumptions += ['arithmetic is over the reals', 'piecewise-linear models are decided for four points in any spacing, stored in either order']
    jobs = [lambda: ck(ctx), lambda: av(ctx), lambda: cccr(ctx), lambda: functions(ctx)]
    for xl in (False, True):
        for yl in (False, True):
            for rev in (False, True):
                jobs.append(lambda xl=xl, yl=yl, rev=rev: pwl_soil(ctx, xl, yl, rev))
                jobs.append(lambda xl=xl, yl=yl, rev=rev: pwl_perm(ctx, xl, yl, rev))
    jobs += [lambda: yin_initial(ctx), lambda: yin(ctx)]
    ctx.parallel(jobs)


def el(c, *ix):
    return c.at(*ix)


# ------------------------------------------------------------------ permeability
def ck(ctx):
    Ck, ka, ea, k, e, k2 = [sym(q) for q in ('Ck', 'ka', 'ea', 'k', 'e', 'k2')]
    V = near(dict(Ck=0.7, ka=2.5, ea=1.9, k=0.31, k2=8.0, e=1.2))
    pos = lambda a, b: all(b[q] > 0 for q in ('Ck', 'ka', 'k', 'k2'))
    m = Inst(ctx, VP, 'CkPermeabilityModel', (Ck, ka, ea))
    E = m.call('e_from_k', k)
    K = m.call('k_from_e', e)
    kw = dict(values=V, vary=True, domain=pos)
    same(ctx, 'inverse', 'CkPermeabilityModel k_from_e(e_from_k(k))', E.where, m.call('k_from_e', E.at()).at(), k, 'k_from_e does not invert e_from_k', **kw)
    same(ctx, 'inverse', 'CkPermeabilityModel e_from_k(k_from_e(e))', K.where, add(m.call('e_from_k', K.at()).at(), ONE), add(e, ONE), 'e_from_k does not invert k_from_e', **kw)
    same(ctx, 'definition', 'CkPermeabilityModel reference point', E.where, t.subst(E.at(), {k: ka}), ea, 'the reference point (ea, ka) is not on the line', **kw)
    same(ctx, 'definition', 'CkPermeabilityModel slope', E.where, mul(k, ln(num(10)), diff(E.at(), k)), Ck, 'the slope of e against log10(k) is not Ck', **kw)
    for nm, q, one in (('e_from_k', k, E), ('k_from_e', e, K)):
        two = m.call(nm, A([k2, q]))
        same(ctx, 'elements', 'CkPermeabilityModel.%s' % nm, two.where, two.at(1), one.at(), 'an element does not get its own value', values=V)
    plot(ctx, m, 'e_and_k_for_plotting', 'CkPermeabilityModel', lambda q: t.subst(E.at(), {k: q}), V)
    c = Inst(ctx, VP, 'ConstantPermeabilityModel', (ka,))
    K = c.call('k_from_e', e)
    same(ctx, 'definition', 'ConstantPermeabilityModel.k_from_e', K.where, K.at(), ka, 'permeability is not the constant', values=V)
    K = c.call('k_from_e', A([e, k2, k]))
    for i in range(3):
        same(ctx, 'elements', 'ConstantPermeabilityModel.k_from_e %d' % i, K.where, K.at(i), ka, 'permeability is not the constant', values=V)


def plot(ctx, m, method, name, forward, V, lo=None, hi=None, **kw):
    """x runs evenly over the range, y is the relationship at x"""
    p = m.call(method, npts=3, **kw)
    xs, ys = p.item(0), p.item(1)
    for i in range(3):
        xi = p.at(i, of=xs)
        same(ctx, 'plot', '%s.%s point %d' % (name, method, i), p.where, p.at(i, of=ys), forward(xi), 'a plotted point is not on the curve', values=V)
    a, b = sym('xmin'), sym('xmax')
    W = lambda seed: dict(V(seed), xmin=t.mpf('1.7'), xmax=t.mpf('9.3'))
    if lo is None:
        p = m.call(method, npts=3, xmin=a, xmax=b, **kw)
        lo, hi = a, b
    for i in range(3):
        same(ctx, 'plot', '%s.%s abscissa %d' % (name, method, i), p.where, p.at(i, of=p.item(0)), add(lo, mul(num(i), div(sub(hi, lo), num(2)))), 'the abscissae do not run evenly from xmin to xmax', values=W)


# ------------------------------------------------------------------ linear / log soil models
def av(ctx):
    a, sa, ea, s, e, s2 = [sym(q) for q in ('av', 'siga', 'ea', 's', 'e', 's2')]
    V = near(dict(av=0.7, siga=2.5, ea=1.9, s=4.1, s2=0.3, e=1.2))
    pos = lambda o, b: b['av'] > 0
    m = Inst(ctx, VS, 'AvSoilModel', (a, sa, ea))
    kw = dict(values=V, vary=True, domain=pos)
    E, Sg, Av = m.call('e_from_stress', s), m.call('stress_from_e', e), m.call('av_from_stress', s)
    same(ctx, 'inverse', 'AvSoilModel stress_from_e(e_from_stress(s))', E.where, m.call('stress_from_e', E.at()).at(), s, 'stress_from_e does not invert e_from_stress', **kw)
    same(ctx, 'inverse', 'AvSoilModel e_from_stress(stress_from_e(e))', Sg.where, add(m.call('e_from_stress', Sg.at()).at(), ONE), add(e, ONE), 'e_from_stress does not invert stress_from_e', **kw)
    same(ctx, 'definition', 'AvSoilModel reference point', E.where, t.subst(E.at(), {s: sa}), ea, 'the reference point (siga, ea) is not on the line', **kw)
    same(ctx, 'slope', 'AvSoilModel', Av.where, Av.at(), neg(diff(E.at(), s)), 'av is not -de/dstress', **kw)
    same(ctx, 'definition', 'AvSoilModel.av_from_stress', Av.where, Av.at(), a, 'av_from_stress is not av', **kw)
    for nm, q, one in (('e_from_stress', s, E), ('stress_from_e', e, Sg)):
        two = m.call(nm, A([s2, q]))
        same(ctx, 'elements', 'AvSoilModel.%s' % nm, two.where, two.at(1), one.at(), 'an element does not get its own value', values=V)
    plot(ctx, m, 'e_and_stress_for_plotting', 'AvSoilModel', lambda q: t.subst(E.at(), {s: q}), V)


def cccr(ctx):
    Cc, Cr, sa, ea, s, p, e, s2, p2 = [sym(q) for q in ('Cc', 'Cr', 'siga', 'ea', 's', 'p', 'e', 's2', 'p2')]
    base = near(dict(Cc=0.9, Cr=0.17, siga=2.5, ea=1.9, s=4.1, s2=0.3, p=7.3, p2=1.1, e=1.75))
    m = Inst(ctx, VS, 'CcCrSoilModel', (Cc, Cr, sa, ea))
    lg = lambda q: div(ln(q), ln(num(10)))
    vcl = lambda q: sub(ea, mul(Cc, lg(div(q, sa))))
    N = 'CcCrSoilModel'
    # normally consolidated, no preconsolidation stress
    E, Sg, Av = m.call('e_from_stress', s), m.call('stress_from_e', e), m.call('av_from_stress', s)
    pos = lambda o, b: all(b[q] > 0 for q in ('Cc', 'Cr', 'siga', 's', 'p', 's2', 'p2')) and b['Cr'] < b['Cc']
    kw = dict(values=base, vary=True, domain=pos)
    same(ctx, 'definition', N + '.e_from_stress normally consolidated', E.where, E.at(), vcl(s), 'the void ratio is not on the virgin compression line', **kw)
    same(ctx, 'inverse', N + ' stress_from_e(e_from_stress(s)) normally consolidated', Sg.where, m.call('stress_from_e', E.at()).at(), s, 'stress_from_e does not invert e_from_stress', **kw)
    same(ctx, 'inverse', N + ' e_from_stress(stress_from_e(e)) normally consolidated', Sg.where, add(m.call('e_from_stress', Sg.at()).at(), ONE), add(e, ONE), 'e_from_stress does not invert stress_from_e', **kw)
    same(ctx, 'slope', N + ' normally consolidated', Av.where, Av.at(), neg(diff(vcl(s), s)), 'av is not -de/dstress', **kw)
    # with preconsolidation stress: overconsolidated, at, and beyond
    for nm, vals in (('below the preconsolidation stress', dict(s=4.1, p=7.3)), ('above the preconsolidation stress', dict(s=9.9, p=7.3)), ('far below', dict(s=0.03, p=70.0))):
        V = near(base.base, **vals)
        oc = vals['s'] < vals['p']
        line = add(vcl(p), mul(Cr, lg(div(p, s)))) if oc else vcl(s)
        dom = lambda o, b, oc=oc: pos(o, b) and (b['s'] < b['p']) == oc
        kw = dict(values=V, vary=['Cc', 'Cr', 'siga', 'ea', 's', 'p'], domain=dom)
        E = m.call('e_from_stress', s, pstress=p)
        same(ctx, 'definition', N + '.e_from_stress ' + nm, E.where, E.at(), line, 'the void ratio is not on the compression / recompression line', **kw)
        Av = m.call('av_from_stress', s, pstress=p)
        same(ctx, 'slope', N + ' ' + nm, Av.where, Av.at(), neg(diff(line, s)), 'av is not -de/dstress', **kw)
        back = m.call('stress_from_e', line, pstress=p)
        same(ctx, 'inverse', N + ' stress_from_e ' + nm, back.where, back.at(), s, 'stress_from_e does not invert e_from_stress', **kw)
        # arrays with one preconsolidation stress each
        for nme, a1, spec in (('e_from_stress', s, E.at()), ('av_from_stress', s, Av.at()), ('stress_from_e', line, s)):
            o = s2 if nme != 'stress_from_e' else e
            two = m.call(nme, A([o, a1]), pstress=A([p2, p]))
            same(ctx, 'elements', '%s.%s %s' % (N, nme, nm), two.where, two.at(1), spec, 'an element does not get its own value', values=V)
    at = m.call('av_from_stress', s, pstress=s)
    same(ctx, 'slope', N + ' at the preconsolidation stress', at.where, at.at(), neg(diff(vcl(s), s)), 'av at the preconsolidation stress is not that of the virgin line', values=base)
    E = m.call('e_from_stress', s)
    plot(ctx, m, 'e_and_stress_for_plotting', N, lambda q: vcl(q), near(base.base))


# ------------------------------------------------------------------ piecewise linear models
def spans(X, Y):
    """linear pieces through the points"""
    return [lambda q, i=i: add(Y[i], mul(sub(Y[i + 1], Y[i]), div(sub(q, X[i]), sub(X[i + 1], X[i])))) for i in range(len(X) - 1)]


SIG = (1.3, 2.9, 6.1, 14.0)
EE = (4.4, 3.3, 2.6, 1.2)


def tr(on):
    return (lambda q: div(ln(q), ln(num(10)))) if on else (lambda q: q)


def inv(on):
    return (lambda q: pw(num(10), q)) if on else (lambda q: q)


def pwl_soil(ctx, xl, yl, rev):
    N = 4
    S = [sym('s%d' % i) for i in range(N)]
    E = [sym('e%d' % i) for i in range(N)]
    q, p, Cr, e = sym('q'), sym('p'), sym('Cr'), sym('e')
    o = (lambda L: list(reversed(L))) if rev else list
    m = Inst(ctx, VS, 'PwiseLinearSoilModel', (A(o(S)), A(o(E))), dict(Cr=Cr, xlog=xl, ylog=yl))
    X, Y, Xi, Yi = tr(xl), tr(yl), inv(xl), inv(yl)
    seg = spans([X(v) for v in S], [Y(v) for v in E])
    base = dict(Cr=0.02, q=5.0, p=5.0, e=3.0)
    base.update({'s%d' % i: SIG[i] for i in range(N)})
    base.update({'e%d' % i: EE[i] for i in range(N)})
    T = 'PwiseLinearSoilModel[%s%s%s]' % ('log stress, ' if xl else '', 'log e, ' if yl else '', 'decreasing input' if rev else 'increasing input')
    mid = lambda i, f=.5: SIG[i] * (1 - f) + SIG[i + 1] * f
    nc = m.call('e_from_stress', q)
    ncav = m.call('av_from_stress', q)
    oc = m.call('e_from_stress', q, pstress=p)
    ocav = m.call('av_from_stress', q, pstress=p)
    for i in range(N - 1):
        V = near(base, q=mid(i, .4 + .1 * i))
        line = Yi(seg[i](X(q)))
        same(ctx, 'definition', '%s.e_from_stress segment %d' % (T, i), nc.where, nc.at(), line, 'the void ratio is not on the line through the two nearest points', values=V)
        same(ctx, 'slope', '%s segment %d' % (T, i), ncav.where, ncav.at(), neg(diff(line, q)), 'av is not -de/dstress', values=V)
        back = m.call('stress_from_e', line)
        same(ctx, 'inverse', '%s.stress_from_e segment %d' % (T, i), back.where, back.at(), q, 'stress_from_e does not invert e_from_stress', values=V)
        # preconsolidation in this segment, stress lower (same or lower segment) or higher
        for j in range(i + 1):
            V = near(base, q=mid(j, .3), p=mid(i, .7))
            line = Yi(add(seg[i](X(p)), mul(Cr, sub(X(p), X(q)))))
            K = '%s stress in segment %d, preconsolidation in %d' % (T, j, i)
            same(ctx, 'definition', K, oc.where, oc.at(), line, 'the void ratio is not on the recompression line from the preconsolidation stress', values=V)
            same(ctx, 'slope', K, ocav.where, ocav.at(), neg(diff(line, q)), 'av is not -de/dstress', values=V)
            back = m.call('stress_from_e', line, pstress=p)
            same(ctx, 'inverse', K, back.where, back.at(), q, 'stress_from_e does not invert e_from_stress', values=V)
        for j in range(i, N - 1):
            V = near(base, q=mid(j, .7), p=mid(i, .3))
            line = Yi(seg[j](X(q)))
            K = '%s stress in segment %d, past preconsolidation in %d' % (T, j, i)
            same(ctx, 'definition', K, oc.where, oc.at(), line, 'the void ratio is not on the compression line', values=V)
            same(ctx, 'slope', K, ocav.where, ocav.at(), neg(diff(line, q)), 'av is not -de/dstress', values=V)
            back = m.call('stress_from_e', line, pstress=p)
            same(ctx, 'inverse', K, back.where, back.at(), q, 'stress_from_e does not invert e_from_stress', values=V)
    V = near(base)
    for i in range(N):
        same(ctx, 'definition', '%s point %d' % (T, i), nc.where, t.subst(nc.at(), {q: S[i]}), E[i], 'a given point is not on the curve', values=V)
    q2, p2 = sym('q2'), sym('p2')
    W = near(base, q=mid(1), p=mid(2), q2=mid(2, .8), p2=mid(1, .2))
    for nm in ('e_from_stress', 'av_from_stress', 'stress_from_e'):
        a1, a2 = (q, q2) if nm != 'stress_from_e' else (oc.at(), m.call('e_from_stress', q2, pstress=p2).at())
        two = m.call(nm, A([a2, a1]), pstress=A([p2, p]))
        one = m.call(nm, a1, pstress=p)
        same(ctx, 'elements', '%s.%s' % (T, nm), two.where, two.at(1), one.at(), 'an element does not get its own value', values=W)
        two = m.call(nm, A([a2, a1]))
        one = m.call(nm, a1)
        same(ctx, 'elements', '%s.%s normally consolidated' % (T, nm), two.where, two.at(1), one.at(), 'an element does not get its own value', values=W)
    plot(ctx, m, 'e_and_stress_for_plotting', T, lambda v: t.subst(nc.at(), {q: v}), V, S[0], S[-1])


def pwl_perm(ctx, xl, yl, rev):
    N = 4
    K = [sym('k%d' % i) for i in range(N)]
    E = [sym('e%d' % i) for i in range(N)]
    q, e = sym('q'), sym('e')
    o = (lambda L: list(reversed(L))) if rev else list
    X, Y, Xi, Yi = tr(xl), tr(yl), inv(xl), inv(yl)
    seg = spans([X(v) for v in K], [Y(v) for v in E])
    for grow in (True, False):
        ee = tuple(reversed(EE)) if grow else EE
        base = dict(q=5.0, e=3.0)
        base.update({'k%d' % i: SIG[i] for i in range(N)})
        base.update({'e%d' % i: ee[i] for i in range(N)})
        m = Inst(ctx, VP, 'PwiseLinearPermeabilityModel', (A(o(K)), A(o(E))), dict(xlog=xl, ylog=yl))
        T = 'PwiseLinearPermeabilityModel[%s%s%s, k %s with e]' % ('log k, ' if xl else '', 'log e, ' if yl else '', 'decreasing input' if rev else 'increasing input', 'grows' if grow else 'falls')
        mid = lambda i, f=.5: SIG[i] * (1 - f) + SIG[i + 1] * f
        f = m.call('e_from_k', q)
        V = near(base)
        for i in range(N - 1):
            W = near(base, q=mid(i, .4 + .1 * i))
            line = Yi(seg[i](X(q)))
            same(ctx, 'definition', '%s.e_from_k segment %d' % (T, i), f.where, f.at(), line, 'the void ratio is not on the line through the two nearest points', values=W)
            b = m.call('k_from_e', line)
            same(ctx, 'inverse', '%s.k_from_e segment %d' % (T, i), b.where, b.at(), q, 'k_from_e does not invert e_from_k', values=W)
        for i in range(N):
            same(ctx, 'definition', '%s point %d' % (T, i), f.where, t.subst(f.at(), {q: K[i]}), E[i], 'a given point is not on the curve', values=V)
            b = m.call('k_from_e', E[i])
            same(ctx, 'inverse', '%s point %d' % (T, i), b.where, b.at(), K[i], 'a given point is not on the curve', values=V)
        two = m.call('k_from_e', A([e, f.at()]))
        same(ctx, 'elements', T + '.k_from_e', two.where, two.at(1), q, 'an element does not get its own value', values=V)
        two = m.call('e_from_k', A([e, q]))
        same(ctx, 'elements', T + '.e_from_k', two.where, two.at(1), f.at(), 'an element does not get its own value', values=V)
        plot(ctx, m, 'e_and_k_for_plotting', T, lambda v: t.subst(f.at(), {q: v}), V, K[0], K[-1])


# ------------------------------------------------------------------ user functions
def functions(ctx):
    a1, a2, kb, v = sym('a1'), sym('a2'), sym('kb'), sym('v')
    V = near(dict(a1=1.3, a2=2.1, kb=0.7, v=3.3))
    for mod, cls, names in ((VS, 'FunctionSoilModel', ('e_from_stress', 'stress_from_e', 'av_from_stress')), (VP, 'FunctionPermeabilityModel', ('e_from_k', 'k_from_e'))):
        fs = [ExtV('user.f%d' % i) for i in range(len(names))]
        hooks = {'user.f%d' % i: (lambda I, args, kw, st, f, i=i: t.mk('call', 'user_f%d' % i, *([I.node(q, st) for q in args] + [I.node(kw[k], st) for k in sorted(kw)]))) for i in range(len(names))}
        m = Inst(ctx, mod, cls, tuple(fs) + (a1, a2), dict(kb=kb), hooks=hooks)
        for i, nm in enumerate(names):
            c = m.attr(nm)
            r = c.I.call(c.r, [v], {}, c.st)
            same(ctx, 'definition', '%s.%s' % (cls, nm), m.where, r if isinstance(r, t.Node) else t.unk('result'), t.mk('call', 'user_f%d' % i, a1, a2, v, kb), 'the user function is not called with the stored positional arguments, the value, and the stored keyword arguments', values=V)


# ------------------------------------------------------------------ Yin and Graham
YP = ('lam', 'kap', 'psi', 'siga', 'ea', 'ta')
YV = dict(lam=0.35, kap=0.06, psi=0.021, siga=2.3, ea=1.4, ta=0.8)


def yin_initial(ctx):
    """any two of (e0, stress, preconsolidation stress, equivalent time) give the other two"""
    lam, kap, psi, sa, ea, ta = [sym(q) for q in YP]
    S0, P0 = sym('S0'), sym('P0')
    e0 = add(ea, neg(mul(lam, ln(div(P0, sa)))), mul(kap, ln(div(P0, S0))))
    t0 = mul(ta, pw(div(P0, S0), div(sub(lam, kap), psi)))
    full = dict(e0=e0, estress0=S0, pstress0=P0, t0=t0)
    names = ['e0', 'estress0', 'pstress0', 't0']
    V = near(YV, S0=3.1, P0=3.4)
    pos = lambda o, b: all(b[q] > 0 for q in ('kap', 'psi', 'siga', 'ta', 'S0', 'P0')) and b['lam'] > b['kap']
    for i in range(4):
        for j in range(i + 1, 4):
            given = (names[i], names[j])
            m = Inst(ctx, VS, 'YinAndGrahamSoilModel', tuple(sym(q) for q in YP), {n: full[n] for n in given})
            for n in names:
                c = m.attr(n)
                same(ctx, 'creep', 'YinAndGrahamSoilModel %s from %s and %s' % (n, given[0], given[1]), m.where, c.at(), full[n], 'the initial conditions are not on one consistent state', values=V, vary=True, domain=pos)
    m = Inst(ctx, VS, 'YinAndGrahamSoilModel', tuple(sym(q) for q in YP))
    s = sym('s')
    W = near(YV, s=4.4, p=6.0, e=1.3)
    c = m.call('e_from_stress', s)
    same(ctx, 'creep', 'YinAndGrahamSoilModel.e_from_stress without a time step', c.where, c.at(), sub(ea, mul(lam, ln(div(s, sa)))), 'the void ratio is not on the reference time line', values=W)
    m = Inst(ctx, VS, 'YinAndGrahamSoilModel', tuple(sym(q) for q in YP))
    c = m.call('e_from_stress', s, pstress=sym('p'))
    same(ctx, 'creep', 'YinAndGrahamSoilModel.e_from_stress overconsolidated', c.where, c.at(), add(ea, neg(mul(lam, ln(div(sym('p'), sa)))), mul(kap, ln(div(sym('p'), s)))), 'the void ratio is not on the instant line', values=W)
    m = Inst(ctx, VS, 'YinAndGrahamSoilModel', tuple(sym(q) for q in YP))
    c = m.call('stress_from_e', sym('e'))
    same(ctx, 'inverse', 'YinAndGrahamSoilModel.stress_from_e without a time step', c.where, c.at(), mul(sa, fn('exp', div(sub(ea, sym('e')), lam))), 'the stress is not on the reference time line', values=W)


def yin(ctx):
    lam, kap, psi, sa, ea, ta = [sym(q) for q in YP]
    S0, P0 = sym('S0'), sym('P0')
    s1, s2, d1, d2, e1, root, sd = [sym(q) for q in ('s1', 's2', 'd1', 'd2', 'e1', 'root', 'sd')]
    alpha = div(sub(lam, kap), psi)
    e0 = add(ea, neg(mul(lam, ln(div(P0, sa)))), mul(kap, ln(div(P0, S0))))
    t0 = mul(ta, pw(div(P0, S0), alpha))
    V = near(YV, S0=3.1, P0=3.4, s1=3.9, s2=3.3, d1=0.9, d2=2.3, e1=1.1, root=3.6, sd=0.2)

    def inc(a, b, d):
        """dt/t0 * mean of (stress/stress0)^alpha while the stress runs evenly from a to b"""
        return integral(ZERO, ONE, mul(div(d, t0), pw(div(add(a, mul(sub(b, a), x)), S0), alpha)), x)
    creep = lambda s, total: sub(sub(e0, mul(kap, ln(div(s, S0)))), mul(psi, ln(add(ONE, total))))
    mk = lambda hooks=None: Inst(ctx, VS, 'YinAndGrahamSoilModel', tuple(sym(q) for q in YP), dict(estress0=S0, pstress0=P0), hooks=hooks)
    N = 'YinAndGrahamSoilModel'
    m = mk()
    c = m.call('e_from_stress', s1, dt=d1)
    same(ctx, 'creep', N + '.e_from_stress first step', c.where, c.at(0), creep(s1, inc(S0, s1, d1)), 'the void ratio is not e0 - kap*ln(s/s0) - psi*ln(1+int (s/s0)^alpha dt/t0)', values=V)
    A1 = m.call('av_from_stress', s1)
    same(ctx, 'slope', N + '.av_from_stress instant', A1.where, A1.at(), div(kap, s1), 'the instant compressibility is not kap/stress', values=V)
    # rate form: -de/dt / (ds/dt) with the creep rate psi/t0*(s/s0)^alpha/(1+int)
    A2 = m.call('av_from_stress', s1, estressdot=sd)
    rate = add(div(kap, s1), mul(div(psi, mul(t0, sd)), div(pw(div(s1, S0), alpha), add(ONE, inc(S0, s1, d1)))))
    same(ctx, 'slope', N + '.av_from_stress with a stress rate', A2.where, A2.at(0), rate, 'the compressibility is not kap/s + creep rate / stress rate', values=V)
    c = m.call('e_from_stress', s2, dt=d2)
    same(ctx, 'creep', N + '.e_from_stress second step', c.where, c.at(0), creep(s2, add(inc(S0, s1, d1), inc(s1, s2, d2))), 'the second step does not continue from the first', values=V)

    m = mk()
    c = m.call('e_from_stress', s1, dt=d1)
    const = near(YV, S0=3.1, P0=3.4, s1=3.1, d1=0.9, d2=2.3, s2=3.3)
    hold = lambda seed: dict(const(seed), s1=const(seed)['S0'])
    same(ctx, 'creep', N + '.e_from_stress at constant stress', c.where, c.at(0), creep(S0, div(d1, t0)), 'creep at constant stress is not psi*ln(1 + t/t0)', values=hold)
    c = m.call('e_from_stress', s2, dt=d2)
    same(ctx, 'creep', N + '.e_from_stress after constant stress', c.where, c.at(0), creep(s2, add(div(d1, t0), inc(S0, s2, d2))), 'the step after a constant stress step is wrong', values=hold)
    m = mk()
    m.call('e_from_stress', s1, dt=d2)
    c = m.call('e_from_stress', s2, dt=d1)
    hold2 = lambda seed: dict(V(seed), s2=V(seed)['s1'])
    same(ctx, 'creep', N + '.e_from_stress held after a change', c.where, c.at(0), creep(s1, add(inc(S0, s1, d2), mul(div(d1, t0), pw(div(s1, S0), alpha)))), 'creep at constant stress after a stress change is wrong', values=hold2)

    def solver(I, args, kw, st, f):
        """scipy.optimize.fixed_point: returns a value that the function maps to itself"""
        fn_, start = args[0], args[1]
        extra = kw.get('args', args[2] if len(args) > 2 else None)
        extra = list(st.store[extra.key]) if extra is not None else []
        r = I.elementwise(lambda q: root, [start], st)
        I.call(fn_, [r] + extra, {}, st)
        return r
    m = mk({'scipy.optimize.fixed_point': solver})
    c = m.call('stress_from_e', e1, dt=d1)
    got = c.at(0)
    same(ctx, 'creep', N + '.stress_from_e first step', c.where, sub(sub(e0, mul(kap, ln(div(got, S0)))), mul(psi, ln(add(ONE, inc(S0, root, d1))))), e1, 'the stress does not satisfy the void ratio equation at the fixed point', values=V)
    # step-by-step simulations start from, and leave behind, the initial state
    sub_ = 'geotecha.piecewise.piecewise_linear_1d.subdivide_x_into_segments'
    T1 = sym('T1')
    for nm in ('CRSS', 'CRSN'):
        m = mk({sub_: lambda I, args, kw, st, f: args[0], 'scipy.optimize.fixed_point': solver})
        for run in (1, 2):
            c = m.call(nm, A([ZERO, T1]), A([sd, sd]), method='step')
            W = lambda seed: dict(V(seed), T1=t.mpf('1.3'), sd=t.mpf('0.21'))
            if nm == 'CRSS':
                end = add(S0, mul(sd, T1))
                same(ctx, 'creep', '%s.CRSS run %d stress' % (N, run), c.where, c.at(1, of=c.item(1)), end, 'the stress does not follow the given rate', values=W)
                same(ctx, 'creep', '%s.CRSS run %d start' % (N, run), c.where, c.at(0, of=c.item(2)), e0, 'the simulation does not start from the initial void ratio', values=W)
                same(ctx, 'creep', '%s.CRSS run %d void ratio' % (N, run), c.where, c.at(1, of=c.item(2)), creep(end, inc(S0, end, T1)), 'the void ratio is not that of the constitutive law from the initial state', values=W)
            else:
                end = add(e0, mul(sd, T1))
                same(ctx, 'creep', '%s.CRSN run %d void ratio' % (N, run), c.where, c.at(1, of=c.item(2)), end, 'the void ratio does not follow the given rate', values=W)
                same(ctx, 'creep', '%s.CRSN run %d start' % (N, run), c.where, c.at(0, of=c.item(1)), S0, 'the simulation does not start from the initial stress', values=W)
                got = c.at(1, of=c.item(1))
                same(ctx, 'creep', '%s.CRSN run %d stress' % (N, run), c.where, sub(sub(e0, mul(kap, ln(div(got, S0)))), mul(psi, ln(add(ONE, inc(S0, root, T1))))), end, 'the stress does not satisfy the constitutive law from the initial state', values=W)
        c = m.call('e_from_stress', s1, dt=d1)
        same(ctx, 'creep', '%s.e_from_stress after %s' % (N, nm), c.where, c.at(0), creep(s1, inc(S0, s1, d1)), 'a simulation changes the later behaviour of the model', values=W)
    # odeint right-hand sides
    for nm, var in (('CRSN', 'edot'), ('CRSS', 'estressdot')):
        rec = {}

        def ode(I, args, kw, st, f, rec=rec):
            rec['rhs'] = I.node(I.call(args[0], [sym('y'), sym('tt')], {}, st), st)
            rec['y0'] = I.node(args[1], st) if not isinstance(args[1], t.Node) else args[1]
            raise Stop()
        other = {'geotecha.piecewise.piecewise_linear_1d.integrate_x_y_between_xi_xj': lambda I, args, kw, st, f: sym('total'),
                 'numpy.interp': lambda I, args, kw, st, f: sym('now'), 'geotecha.piecewise.piecewise_linear_1d.subdivide_x_into_segments': lambda I, args, kw, st, f: args[0],
                 'scipy.integrate.odeint': ode}
        m = mk(other)
        try:
            m.call(nm, A([ZERO, sym('T1')]), A([sd, sd]), method='odeint')
        except Stop:
            pass
        y, now, total = sym('y'), sym('now'), sym('total')
        W = near(YV, S0=3.1, P0=3.4, y=1.2, now=0.3, total=-0.2, tt=1.0, T1=2.0, sd=0.3)
        where = m.where + '.' + nm
        if nm == 'CRSN':
            e = add(e0, total)
            want = neg(mul(div(y, kap), add(now, mul(div(psi, ta), fn('exp', div(sub(e, ea), psi)), pw(div(y, sa), div(lam, psi))))))
        else:
            s = add(S0, total)
            want = neg(add(div(mul(kap, now), s), mul(div(psi, ta), fn('exp', div(sub(y, ea), psi)), pw(div(s, sa), div(lam, psi)))))
        same(ctx, 'creep', '%s.%s rate equation' % (N, nm), where, rec.get('rhs', t.unk('no rate equation')), want, 'the rate equation is not that of the constitutive law', values=W)

    varying(ctx, N, mk, solver, e0, creep, inc, V, root)


def varying(ctx, N, mk, solver, e0, creep, inc, V, root):
    """simulations with a rate that changes in time: steps, outputs of both methods, and the sub-division asked for"""
    lam, kap, psi, sa, ea, ta = [sym(q) for q in YP]
    S0, P0 = sym('S0'), sym('P0')
    T = [sym('T0'), sym('T1'), sym('T2')]
    R = [sym('r0'), sym('r1'), sym('r2')]
    W = lambda seed: dict(V(seed), q0=t.mpf('0.6'), q1=t.mpf('0.8'), q2=t.mpf('0.93'), T0=t.mpf('0.4'), T1=t.mpf('1.3'), T2=t.mpf('2.9'), r0=t.mpf('0.21'), r1=t.mpf('0.37'), r2=t.mpf('0.11'), g=t.mpf('0.05'), y0=t.mpf('1.7'), y1=t.mpf('2.1'), y2=t.mpf('2.6'))
    D1, D2 = sub(T[1], T[0]), sub(T[2], T[1])
    g = sym('g')
    for nm in ('CRSS', 'CRSN'):
        asked = []

        def divide(I, args, kw, st, f, asked=asked):
            asked.append(dict(kw))
            return args[0]
        m = mk({SUBDIV: divide, 'scipy.optimize.fixed_point': solver})
        c = m.call(nm, A(T), A(R))
        what = '%s.%s with a varying rate' % (N, nm)
        for k in range(3):
            same(ctx, 'creep', '%s, time %d' % (what, k), c.where, c.at(k, of=c.item(0)), T[k], 'the times are not those of the given subdivision', values=W)
            same(ctx, 'creep', '%s, rate %d' % (what, k), c.where, c.at(k, of=c.item(3)), R[k], 'the rate at the times is not the given one', values=W)
        if nm == 'CRSS':
            a = add(S0, mul(R[0], D1))
            b = add(a, mul(R[1], D2))
            for k, w in enumerate((S0, a, b)):
                same(ctx, 'creep', '%s, stress %d' % (what, k), c.where, c.at(k, of=c.item(1)), w, 'the stress does not follow the given rate', values=W)
            first = inc(S0, a, D1)
            for k, w in enumerate((e0, creep(a, first), creep(b, add(first, inc(a, b, D2))))):
                same(ctx, 'creep', '%s, void ratio %d' % (what, k), c.where, c.at(k, of=c.item(2)), w, 'the void ratio is not that of the constitutive law', values=W)
        else:
            a = add(e0, mul(R[0], D1))
            b = add(a, mul(R[1], D2))
            for k, w in enumerate((e0, a, b)):
                same(ctx, 'creep', '%s, void ratio %d' % (what, k), c.where, c.at(k, of=c.item(2)), w, 'the void ratio does not follow the given rate', values=W)
            s1_, s2_ = c.at(1, of=c.item(1)), c.at(2, of=c.item(1))
            law = lambda s, total: sub(sub(e0, mul(kap, ln(div(s, S0)))), mul(psi, ln(add(ONE, total))))
            first = inc(S0, root, D1)
            same(ctx, 'creep', '%s, stress 1' % what, c.where, law(s1_, first), a, 'the stress does not satisfy the constitutive law', values=W)
            same(ctx, 'creep', '%s, stress 2' % what, c.where, law(s2_, add(first, inc(s1_, root, D2))), b, 'the stress does not satisfy the constitutive law', values=W)
        m.call(nm, A(T), A(R), dx=g, min_segments=7, method='step')
        wh = c.where
        for q, (dx, ms) in enumerate(((div(sub(T[2], T[0]), num(200)), num(50)), (g, num(7)))):
            kw = asked[q] if len(asked) > q else {}
            w = 'given' if q else 'default'
            for key, want in (('dx', dx), ('min_segments', ms)):
                got = kw.get(key)
                same(ctx, 'creep', '%s.%s, %s %s' % (N, nm, w, key), wh, got if got is None or isinstance(got, t.Node) else num(got), want, 'the %s %s is not used for the subdivision' % (w, key), values=W)
        # the other method: outputs
        Y = [sym('y0'), sym('y1'), sym('y2')]
        rec = []

        def ode(I, args, kw, st, f, rec=rec):
            rec.append((args[1], args[2]))
            return wrap(I, st, A([[y] for y in Y]))
        Q = [sym('q%d' % k) for k in range(3)]
        asked2 = []

        def running(I, args, kw, st, f, asked2=asked2):
            asked2.append([[u[k] if len(u) == 3 else u[0] if len(u) == 1 else t.unk('length') for k in range(3)] for u in [I.items1(v, st) or [] for v in args]])
            return wrap(I, st, A(Q))
        m = mk({SUBDIV: divide, 'scipy.integrate.odeint': ode, RUNNING: running})
        c = m.call(nm, A([ZERO, T[1], T[2]]), A(R), method='odeint')
        what = '%s.%s by odeint' % (N, nm)
        solved, other_ = (c.item(2), c.item(1)) if nm == 'CRSS' else (c.item(1), c.item(2))
        start = S0 if nm == 'CRSS' else e0
        xs = [ZERO, T[1], T[2]]
        for k in range(3):
            same(ctx, 'creep', '%s, given quantity %d' % (what, k), c.where, c.at(k, of=other_), add(start, Q[k]), 'the given quantity is not its start plus the integral of its rate', values=W)
            for p, (w, what2) in enumerate(((xs[k], 'times'), (R[k], 'rates'), (ZERO, 'start'), (xs[k], 'end'))):
                got = asked2[0][p][k] if asked2 else t.unk('no integral')
                same(ctx, 'creep', '%s, %s of the integral %d' % (what, what2, k), c.where, got, w, 'the integral of the rate has the wrong %s' % what2, values=W)
            same(ctx, 'creep', '%s, solved quantity %d' % (what, k), c.where, c.at(k, of=solved), Y[k], 'the solution is not returned', values=W)
            same(ctx, 'creep', '%s, rate %d' % (what, k), c.where, c.at(k, of=c.item(3)), R[k], 'the rate at the times is not the given one', values=W)


RUNNING = 'geotecha.piecewise.piecewise_linear_1d.integrate_x_y_between_xi_xj'
SUBDIV = 'geotecha.piecewise.piecewise_linear_1d.subdivide_x_into_segments'


class Stop(Exception):
    pass
