"""closed-form solutions for a single layer satisfy their governing equations"""
from fractions import Fraction
from sa import terms as t
from sa import scal
from sa.scal import Call, Inst, A, same, sym, integral
from sa.terms import num

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): the functions are abstracted to terms in depth, time and parameters; '
             'the terms are differentiated and integrated symbolically and compared with the governing equations. Nothing from /repo is imported or run.')
TZ = 'geotecha.consolidation.terzahi'
XL = 'geotecha.consolidation.xieandleo2004'
ZY = 'geotecha.consolidation.zhuandyin2012'
ZERO, ONE = t.ZERO, t.ONE
x = sym('@x')
add, sub, mul, div, diff, neg, pw, fn = t.add, t.sub, t.mul, t.div, t.diff, t.neg, t.pow_, t.fn


def zero(ctx, rule, c, where, a, msg, scale=ONE, **kw):
    """a vanishes (relative to scale)"""
    return same(ctx, rule, c, where, add(a, scale), scale, msg, **kw)


def near(v, **k):
    """scenario values with small random variation"""
    base = dict(v, **k)

    def f(seed):
        return {q: t.mpf(p) * (1 + t._rnd((seed, 'near', q), -0.04, 0.04)) for q, p in base.items()}
    f.base = base
    return f


def fix(f, **k):
    return lambda seed: dict(f(seed), **{q: t.mpf(p) for q, p in k.items()})


def check(ctx):
    ctx.rule('equation', 'the returned pore pressure satisfies the governing differential equation')
    ctx.rule('boundary', 'the boundary conditions hold at all times')
    ctx.rule('initial', 'every mode has the coefficient that the initial condition gives it')
    ctx.rule('derived', 'degree of consolidation, settlement, velocities, stresses follow from the pore pressure')
    ctx.rule('elements', 'each point and time of an array gets its own value')
    ctx.assumptions += ['arithmetic is over the reals', 'series are decided for small numbers of terms (the number of terms is a parameter of the same term shape)']
    ctx.parallel([lambda: terzaghi(ctx), lambda: xie(ctx, 'PTIB'), lambda: xie(ctx, 'PTPB'), lambda: xie_scalars(ctx), lambda: zhu(ctx, 0), lambda: zhu(ctx, 1)])


def terzaghi(ctx):
    z, z2, tt, t2, H, kv, mv, g, ui = [sym(q) for q in ('z', 'z2', 'tt', 't2', 'H', 'kv', 'mv', 'gamw', 'ui')]
    V = near(dict(z=1.1, z2=2.3, tt=0.9, t2=2.1, H=3.1, kv=1.3, mv=0.4, gamw=2.2, ui=1.7))
    pos = lambda a, b: all(b[k] > 0 for k in ('H', 'kv', 'mv', 'gamw'))
    for N in (1, 3) if not ctx.thorough else (1, 2, 5):
        kw = dict(H=H, kv=kv, mv=mv, gamw=g, ui=ui, nterms=N)
        c = Call(ctx, TZ, 'terzaghi_1d', [[z], [tt]], kw)
        u, doc = c.at(0, 0, of=c.item(0)), c.at(0, of=c.item(1))
        T = '%d terms' % N
        k = dict(values=V, vary=['z', 'tt', 'ui', 'mv', 'H'], domain=pos)
        same(ctx, 'equation', 'terzaghi_1d [%s]' % T, c.where, mul(mv, g, diff(u, tt)), mul(kv, diff(diff(u, z), z)), 'mv*gamw*du/dt is not kv*d2u/dz2', **k)
        zero(ctx, 'boundary', 'terzaghi_1d top [%s]' % T, c.where, t.subst(u, {z: ZERO}), 'pore pressure at the drained top is not zero', **k)
        zero(ctx, 'boundary', 'terzaghi_1d base [%s]' % T, c.where, t.subst(diff(u, z), {z: H}), 'there is flow through the impervious base', **k)
        u0 = t.subst(u, {tt: ZERO, z: x})
        for j in range(N):
            w = fn('sin', mul(num(Fraction(2 * j + 1, 2)), fn('pi'), div(x, H)))
            same(ctx, 'initial', 'terzaghi_1d mode %d of %d' % (j + 1, N), c.where, integral(ZERO, H, mul(u0, w), x), integral(ZERO, H, mul(ui, w), x), 'the initial pore pressure is not ui', values=V)
        same(ctx, 'derived', 'terzaghi_1d doc [%s]' % T, c.where, mul(H, ui, sub(ONE, doc)), integral(ZERO, H, t.subst(u, {z: x}), x), 'the degree of consolidation is not 1 - mean(u)/ui', values=V)
        f = Call(ctx, TZ, 'terzaghi_1d_flowrate', [[z], [tt]], kw)
        q = f.at(0, 0)
        same(ctx, 'derived', 'terzaghi_1d_flowrate [%s]' % T, f.where, q, mul(div(kv, g), diff(u, z)), 'the flow rate is not kv/gamw*du/dz', **k)
    c = Call(ctx, TZ, 'terzaghi_1d', [[z, z2], [tt, t2, sym('t3')]], kw)
    f = Call(ctx, TZ, 'terzaghi_1d_flowrate', [[z, z2], [tt, t2, sym('t3')]], kw)
    for i, a in enumerate((z, z2)):
        for j, b in enumerate((tt, t2, sym('t3'))):
            same(ctx, 'elements', 'terzaghi_1d (%d,%d)' % (i, j), c.where, c.at(i, j, of=c.item(0)), t.subst(u, {z: a, tt: b}), 'a value does not belong to its depth and time', values=V)
            same(ctx, 'elements', 'terzaghi_1d_flowrate (%d,%d)' % (i, j), f.where, f.at(i, j), t.subst(q, {z: a, tt: b}), 'a value does not belong to its depth and time', values=V)
            same(ctx, 'elements', 'terzaghi_1d doc %d' % j, c.where, c.at(j, of=c.item(1)), t.subst(doc, {tt: b}), 'a value does not belong to its time', values=V)
    for args in ([z, [tt]], [[z], tt], [z, tt]):
        c = Call(ctx, TZ, 'terzaghi_1d', args, kw)
        same(ctx, 'elements', 'terzaghi_1d scalar inputs', c.where, c.at(0, 0, of=c.item(0)), u, 'scalar inputs change the result', values=V)


XLP = ('qu', 'qp', 'H', 'Hw', 'kv0', 'mvl', 'e00', 'Gs', 'gamw')
XLV = dict(qu=1.3, qp=0.7, H=2.1, Hw=0.6, kv0=0.9, mvl=0.31, e00=3.4, Gs=2.6, gamw=1.2, a=0.8, a2=1.5, tt=0.4, t2=0.9, t3=1.4)


def xl(ctx, drn, N):
    return Inst(ctx, XL, 'XieAndLeo2004', [sym(q) for q in XLP], dict(drn=drn, nterms=N))


def xie(ctx, D):
    a, a2, tt, t2, t3 = [sym(q) for q in ('a', 'a2', 'tt', 't2', 't3')]
    qu, qp, H, Hw, kv0, mvl, e00, Gs, g = [sym(q) for q in XLP]
    V = near(XLV)
    dom = lambda p, q: all(q[k] > 0 for k in ('H', 'kv0', 'mvl', 'gamw', 'e00')) and q['a'] >= 0 and q['tt'] >= 0 and 1 + q['e00'] > q['mvl'] * q['gamw'] * (q['Gs'] - 1) * max(q['a'], q['H']) * 1.2 and q['mvl'] * q['qu'] < 4
    K = dict(values=V, vary=['a', 'tt', 'qu', 'qp', 'Hw', 'H', 'Gs'], domain=dom)
    cv = div(kv0, mul(mvl, g))
    for N in (1, 3) if not ctx.thorough else (1, 2, 5):
        I = xl(ctx, 1 if D == 'PTIB' else 0, N)
        m = lambda nm: I.call('%s_%s' % (nm, D), A([a]), A([tt]))
        T = '%s, %d terms' % (D, N)
        c = m('u')
        u = c.at(0, 0)
        w = fn('exp', mul(mvl, u))
        same(ctx, 'equation', 'u_%s [%s]' % (D, T), c.where, diff(w, tt), mul(cv, diff(diff(w, a), a)), 'exp(mvl*u) does not satisfy the linear consolidation equation with cv0', **K)
        wa = sub(w, ONE)
        zero(ctx, 'boundary', 'u_%s top [%s]' % (D, T), c.where, t.subst(u, {a: ZERO}), 'excess pore pressure at the drained top is not zero', values=V)
        if D == 'PTIB':
            zero(ctx, 'boundary', 'u_%s base [%s]' % (D, T), c.where, t.subst(diff(u, a), {a: H}), 'there is flow through the impervious base', values=V)
        else:
            zero(ctx, 'boundary', 'u_%s base [%s]' % (D, T), c.where, t.subst(u, {a: H}), 'excess pore pressure at the drained base is not zero', values=V)
        w0 = t.subst(wa, {tt: ZERO, a: x})
        tgt = sub(fn('exp', mul(mvl, qu)), ONE)
        for j in range(N):
            s_ = fn('sin', mul(num(Fraction(2 * j + 1, 2 if D == 'PTIB' else 1)), fn('pi'), div(x, H)))
            same(ctx, 'initial', 'u_%s mode %d of %d' % (D, j + 1, N), c.where, integral(ZERO, H, mul(w0, s_), x), integral(ZERO, H, mul(tgt, s_), x), 'the initial excess pore pressure is not qu', values=V)
        e = m('e')
        ee = e.at(0, 0)
        e0c, efc = I.call('e0', A([a])), I.call('efinal', A([a]))
        e0, ef = e0c.at(0), efc.at(0)
        same(ctx, 'derived', 'e_%s [%s]' % (D, T), e.where, ee, sub(mul(add(ONE, e0), fn('exp', mul(mvl, sub(u, qu)))), ONE), 'void ratio is not (1+e0)*exp(-mvl*(qu-u))-1', **K)
        same(ctx, 'derived', 'e0 [%s]' % T, e0c.where, e0, sub(e00, mul(mvl, g, sub(Gs, ONE), a)), 'initial void ratio is not e00 - mvl*gamw*(Gs-1)*a', **K)
        same(ctx, 'derived', 'efinal [%s]' % T, efc.where, ef, sub(mul(add(ONE, e0), fn('exp', neg(mul(mvl, qu)))), ONE), 'final void ratio is not (1+e0)*exp(-mvl*qu)-1', **K)
        s = m('settlement')
        S = s.at(0, 0)
        strain = div(sub(e0, ee), add(ONE, e0))
        same(ctx, 'derived', 'settlement_%s rate with depth [%s]' % (D, T), s.where, neg(diff(S, a)), strain, 'the settlement gradient is not the strain (e0-e)/(1+e0)', **K)
        zero(ctx, 'derived', 'settlement_%s at the base [%s]' % (D, T), s.where, t.subst(S, {a: H}), 'the base settles', values=V)
        us = I.call('Us_' + D, A([tt]))
        fin = I.call('settlement_final')
        same(ctx, 'derived', 'Us_%s [%s]' % (D, T), us.where, mul(us.at(0), fin.at()), t.subst(S, {a: ZERO}), 'Us is not surface settlement over final settlement', **K)
        up = I.call('Up_' + D, A([tt]))
        same(ctx, 'derived', 'Up_%s [%s]' % (D, T), up.where, mul(H, qu, sub(ONE, up.at(0))), integral(ZERO, H, t.subst(u, {a: x}), x), 'Up is not 1 - mean(u)/qu', values=V)
        vs = m('vs')
        v = vs.at(0, 0)
        same(ctx, 'derived', 'vs_%s [%s]' % (D, T), vs.where, v, diff(S, tt), 'the particle velocity is not the settlement rate', **K)
        vw = m('vw')
        q = vw.at(0, 0)
        flux = add(mul(q, ee), v)
        if D == 'PTIB':
            zero(ctx, 'derived', 'vw_%s [%s]' % (D, T), vw.where, div(flux, v), 'fluid and particle velocities violate continuity (the total flux (vs + e*vw)/(1+e) must vanish above an impervious base)', values=V)
        else:
            tot = div(flux, add(ONE, ee))
            zero(ctx, 'derived', 'vw_%s [%s]' % (D, T), vw.where, div(diff(tot, a), div(v, H)), 'fluid and particle velocities violate continuity (the total flux (vs + e*vw)/(1+e) must not vary with depth)', values=V)
        # Darcy: porosity * relative velocity = -k/gamw du/dxi, dxi = (1+e)/(1+e0) da, k = kv0 ((1+e)/(1+e0))^2
        por = div(ee, add(ONE, ee))
        rel = mul(por, sub(q, v))
        same(ctx, 'derived', 'Darcy law %s [%s]' % (D, T), vw.where, rel, neg(mul(div(kv0, g), div(add(ONE, ee), add(ONE, e0)), diff(u, a))), 'the fluid velocity relative to the particles does not follow Darcy\'s law', values=V)
        sg = I.call('initial_effective_stress', A([a]))
        s0 = sg.at(0)
        same(ctx, 'derived', 'initial_effective_stress [%s]' % T, sg.where, mul(add(ONE, e00), fn('exp', mul(mvl, sub(qp, s0)))), add(ONE, e0), 'initial effective stress is not qp + ln((1+e00)/(1+e0))/mvl', **K)
        es, ts, tp, xi = m('effective_stress'), m('total_stress'), m('total_pore_pressure'), m('xi')
        same(ctx, 'derived', 'xi_%s [%s]' % (D, T), xi.where, xi.at(0, 0), add(a, S), 'xi is not a + settlement', **K)
        same(ctx, 'derived', 'effective_stress_%s [%s]' % (D, T), es.where, es.at(0, 0), sub(add(s0, qu), u), 'effective stress is not initial + qu - u', **K)
        same(ctx, 'derived', 'total_pore_pressure_%s [%s]' % (D, T), tp.where, tp.at(0, 0), add(u, mul(g, add(Hw, a, S))), 'pore pressure is not u + gamw*(Hw + a + settlement)', **K)
        same(ctx, 'derived', 'total_stress_%s [%s]' % (D, T), ts.where, ts.at(0, 0), add(es.at(0, 0), tp.at(0, 0)), 'total stress is not effective stress plus pore pressure', **K)
    one = {nm: m(nm).at(0, 0) for nm in ('u', 'e', 'settlement', 'vs', 'vw', 'xi', 'effective_stress', 'total_stress', 'total_pore_pressure')}
    for nm, base in one.items():
        c = I.call('%s_%s' % (nm, D), A([a, a2]), A([tt, t2, t3]))
        for i, aa in enumerate((a, a2)):
            for j, b in enumerate((tt, t2, t3)):
                same(ctx, 'elements', '%s_%s (%d,%d)' % (nm, D, i, j), c.where, c.at(i, j), t.subst(base, {a: aa, tt: b}), 'a value does not belong to its depth and time', values=V, seeds=(1,))
    for nm in ('Us', 'Up'):
        c = I.call('%s_%s' % (nm, D), A([tt, t2]))
        for j, b in enumerate((tt, t2)):
            same(ctx, 'elements', '%s_%s %d' % (nm, D, j), c.where, c.at(j), t.subst(I.call('%s_%s' % (nm, D), A([tt])).at(0), {tt: b}), 'a value does not belong to its time', values=V, seeds=(1,))


def xie_scalars(ctx):
    qu, qp, H, Hw, kv0, mvl, e00, Gs, g = [sym(q) for q in XLP]
    I = xl(ctx, 0, 1)
    V = near(XLV)
    c = I.call('settlement_final')
    same(ctx, 'derived', 'settlement_final', c.where, c.at(), mul(H, sub(ONE, fn('exp', neg(mul(mvl, qu))))), 'final settlement is not H*(1-exp(-mvl*qu))', values=V)
    c = I.call('Tv', sym('tt'))
    same(ctx, 'derived', 'Tv', c.where, mul(c.at(), mvl, g, H, H), mul(kv0, sym('tt')), 'the time factor is not cv0*t/H^2', values=V)


def zhu(ctx, drn):
    z, tt, t2, H, kv0, mv0, g, ui, alpha, p, q = [sym(s_) for s_ in ('z', 'tt', 't2', 'H', 'kv0', 'mv0', 'gamw', 'ui', 'alpha', 'p', 'q')]
    E = [sym('eta%d' % i) for i in range(2)]
    got = {}

    def roots(I, args, kw, st, fnn):
        d = dict(zip(('func', 'args', 'n', 'x0', 'dx', 'p', 'fsolve_kwargs'), args))
        d.update(kw)
        extra = list(st.store[d['args'].key]) if 'args' in d else []
        got['chi'] = I.node(I.call(d['func'], [E[0]] + extra, {}, st), st)
        return I.np_array([I.new_list(st, list(E))], {}, st)
    c = Call(ctx, ZY, 'zhuandyin2012', [[z], [tt], alpha, p, q], dict(drn=drn, tpor=[t2], H=H, kv0=kv0, mv0=mv0, gamw=g, ui=ui, nterms=2),
             hooks={'geotecha.mathematics.root_finding.find_n_roots': roots})
    u, doc, settle = c.at(0, 0, of=c.item(0)), c.at(0, of=c.item(1)), c.at(0, of=c.item(2))
    chi = got.get('chi', t.unk('eigenvalue equation'))
    grow = lambda e: pw(add(ONE, mul(alpha, div(z, H))), e)
    kv, mv = mul(kv0, grow(p)), mul(mv0, grow(q))
    zx = lambda f: t.subst(f, {z: x})
    D = 'both ends drained' if drn == 0 else 'base impervious'
    base = dict(z=0.9, tt=0.11, t2=0.17, H=2.2, kv0=1.2, mv0=0.4, gamw=1.3, ui=1.8)
    import mpmath
    for nm, pq in (('p<1', dict(alpha=0.6, p=0.4, q=-0.3)), ('p>1', dict(alpha=0.8, p=1.6, q=0.7)), ('alpha<0', dict(alpha=-0.4, p=0.5, q=0.3)), ('n>2', dict(alpha=0.5, p=2.6, q=0.2)), ('p=1', dict(alpha=0.7, p=1, q=0.4))):
        T = '%s, %s' % (D, nm)
        V = near(dict(base), **pq)
        if nm == 'p=1':
            V = fix(V, p=1)

        def root(seed, V=V, k=0):
            """a root of the code's own eigenvalue equation, located on its term"""
            v = V(seed)
            f = lambda e: t.evaluate(chi, sample(dict(v, eta0=e)))
            # scan in the transformed thickness, roots are about pi apart in eta*|b-1|
            b = (1 + v['alpha']) ** (1 - (v['p'] - v['q']) / 2)
            h = mpmath.pi / abs(b - 1) / 7
            e = h / 3
            found = []
            last = f(e)
            for _ in range(60):
                e2 = e + h
                cur = f(e2)
                if cur * last < 0:
                    found.append(mpmath.findroot(f, (e, e2), solver='anderson', tol=mpmath.mpf(10) ** -40, maxsteps=200))
                    if len(found) > 2:
                        break
                e, last = e2, cur
            return dict(v, eta0=found[0], eta1=found[1])
        cache = {}

        def W(seed):
            if seed not in cache:
                cache[seed] = root(seed)
            return cache[seed]
        free = lambda seed, V=V: dict(V(seed), eta0=t.mpf('1.7'), eta1=t.mpf('3.3'))
        sd = dict(seeds=(1,))
        same(ctx, 'equation', 'zhuandyin2012 [%s]' % T, c.where, mul(mv, g, diff(u, t2)), diff(mul(kv, diff(u, z)), z), 'mv*gamw*du/dt is not d/dz(kv*du/dz)', values=free, **sd)
        zero(ctx, 'boundary', 'zhuandyin2012 top [%s]' % T, c.where, t.subst(u, {z: ZERO}), 'pore pressure at the drained top is not zero', values=free, **sd)
        try:
            W(1)
        except (t.Undecided, ValueError, IndexError, ZeroDivisionError, TypeError) as ex:
            ctx.undecided('boundary', 'zhuandyin2012 base [%s]' % T, 'no root located: %s' % ex)
            continue
        if drn == 0:
            zero(ctx, 'boundary', 'zhuandyin2012 base [%s]' % T, c.where, t.subst(u, {z: H}), 'pore pressure at the drained base is not zero', values=W, **sd)
        else:
            zero(ctx, 'boundary', 'zhuandyin2012 base [%s]' % T, c.where, t.subst(diff(u, z), {z: H}), 'there is flow through the impervious base', values=W, **sd)
        # projection of the initial condition on each mode (weight mv)
        u0 = t.subst(u, {t2: ZERO})
        for j in range(2):
            mode = t.subst(u0, {E[1 - j]: E[j], E[0]: E[j]})        # twice the same mode
            lhs = integral(ZERO, H, zx(mul(mv, u0, mode)), x)
            rhs = integral(ZERO, H, zx(mul(mv, ui, mode)), x)
            same(ctx, 'initial', 'zhuandyin2012 mode %d [%s]' % (j + 1, T), c.where, lhs, rhs, 'the initial pore pressure is not ui', values=W, **sd)
        load = integral(ZERO, H, zx(mv), x)
        at_t = t.subst(u, {t2: tt})
        same(ctx, 'derived', 'zhuandyin2012 doc [%s]' % T, c.where, mul(load, ui, sub(ONE, doc)), integral(ZERO, H, zx(mul(mv, at_t)), x), 'the degree of consolidation is not that of the settlement, 1 - int(mv*u)/int(mv*ui)', values=W, **sd)
        same(ctx, 'derived', 'zhuandyin2012 settlement [%s]' % T, c.where, settle, mul(doc, ui, load), 'the settlement is not doc*ui*int(mv)', values=W, **sd)


def sample(values):
    S = t.Sample(1, values=values, truth_fn=scal.concrete_truth)
    S.points = scal.full
    return S
