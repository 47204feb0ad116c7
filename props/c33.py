"""vertical drain solutions satisfy their governing equations"""
from fractions import Fraction
from sa import terms as t
from sa import scal, kern
from sa.scal import Call, A, same, sym, integral
from sa.terms import num
from props.c32 import zero, near, fix, sample, add, sub, mul, div, diff, neg, pw, fn, ZERO, ONE, x

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): the functions are abstracted to gated terms in depth, time, load history and parameters; '
             'the terms are differentiated and integrated symbolically and compared with the governing equations. Nothing from /repo is imported or run.')
TO = 'geotecha.consolidation.tangandonitsuka2000'
DE = 'geotecha.consolidation.dengetal2013and2014'
LU = 'geotecha.consolidation.luetal2010'
CK = 'geotecha.consolidation.cosenzaandkorosak2014'
SZ = 'geotecha.consolidation.smear_zones'
PI = fn('pi')
TWO = num(2)
sq = lambda a: mul(a, a)


def check(ctx):
    ctx.rule('equation', 'every mode of the returned pore pressure satisfies the governing equation')
    ctx.rule('boundary', 'the boundary conditions hold at all times')
    ctx.rule('initial', 'every mode has the coefficient that the initial condition gives it')
    ctx.rule('domain', 'parameters outside the documented range are rejected, valid ones accepted')
    ctx.rule('derived', 'average pore pressure and settlement follow from the pore pressure and the load')
    ctx.rule('elements', 'each point and time of an array gets its own value')
    ctx.assumptions += ['arithmetic is over the reals', 'series are decided for small numbers of terms', 'numerical Laplace inversion is an uninterpreted operator of the transform']
    th = [lambda d=d: tang(ctx, d) for d in (0, 1)] + [lambda: deng13(ctx), lambda: deng14(ctx), lambda: lu(ctx), lambda: cosenza(ctx)]
    ctx.parallel(th)


def modes(N, H):
    return [div(mul(num(Fraction(2 * j + 1, 2)), PI), H) for j in range(N)]


def series(N, H, z, T):
    """sum 2/M sin(M z/H) T_j"""
    return add(*[mul(div(TWO, mul(m, H)), fn('sin', mul(m, z)), T(j, m)) for j, m in enumerate(modes(N, H))])


def tang(ctx, drn):
    z, z2, tt, t2, t3 = [sym(q) for q in ('z', 'z2', 'tt', 't2', 't3')]
    P = ('kv', 'kh', 'ks', 'kw', 'mv', 'gamw', 'rw', 'rs', 're', 'H')
    kv, kh, ks, kw, mv, g, rw, rs, re, H = [sym(q) for q in P]
    base = dict(z=0.4, z2=1.9, tt=0.5, t2=0.6, t3=0.4, kv=0.7, kh=1.2, ks=0.5, kw=40.0, mv=0.35, gamw=1.1, rw=0.08, rs=0.2, re=0.9, H=2.3, q0=0.8, q1=1.7, q2=-0.6)
    n, kap = div(re, rw), div(kh, ks)
    mu = Call(ctx, SZ, 'mu_constant', [n, div(rs, rw), kap]).at()
    Hd = div(H, TWO) if drn == 0 else H
    hooks = {kern.PW + '.segment_containing_also_segments_less_than_xi': kern.seg_hook, kern.PW + '.segments_less_than_xi': None}
    hooks.pop(kern.PW + '.segments_less_than_xi')
    N = 2 if not ctx.thorough else 3
    # load histories: step at 0, ramp, constant; positions of the query time
    loads = {'step, ramp, hold': ((0, 0, 2.0, 5.0), (0, 1.3, 0.4, 0.4)), 'ramp, ramp, step': ((0, 1.0, 3.0, 3.0), (0, 0.9, 2.2, 1.1)), 'hold then step then ramp': ((0, 1.5, 1.5, 4.0), (0.0, 0.0, 1.2, 3.3)),
             'two steps, two ramps': ((0, 0, 1.0, 1.5, 1.5, 2.3, 2.3, 3.0), (0, 0.7, 0.7, 1.6, 0.9, 0.9, 2.0, 3.1))}
    times = (0.4, 1.8, 2.7, 3.4)
    # the drn=0 case mirrors depths below the middle
    for ln, (xs, ys) in loads.items():
        NP = len(xs)
        lx = [sym('x%d' % i) for i in range(NP)]
        ly = [sym('y%d' % i) for i in range(NP)]
        c = Call(ctx, TO, 'tangandonitsuka2000', [[z], [tt], kv, kh, ks, kw, mv, g, rw, rs, re, H, drn], dict(surcharge_vs_time=[lx, ly], tpor=[t2], nterms=N), hooks=hooks)
        u, avp, settle = c.at(0, 0, of=c.item(0)), c.at(0, of=c.item(1)), c.at(0, of=c.item(2))
        for tq in times:
            def V(seed, tq=tq, xs=xs, ys=ys):
                r = near(base)(seed)
                f = 1 + t._rnd((seed, 'ts'), 0, .04)
                for i in range(NP):
                    r['x%d' % i] = t.mpf(xs[i]) * f
                    r['y%d' % i] = t.mpf(ys[i]) * (1 + t._rnd((seed, 'y', ys[i]), 0, .1))
                r['tt'] = t.mpf(tq)
                r['t2'] = t.mpf(tq)
                return r
            tag = '%s, t=%s, %s' % (ln, tq, 'both ends drained' if drn == 0 else 'base impervious')

            def rate(j, m):
                Dm = mul(TWO, div(mul(kh, sq(Hd)), mul(kw, sq(rw), sq(mul(m, Hd)))), sub(ONE, div(ONE, sq(n))))
                return add(mul(div(kv, mul(mv, g)), sq(m)), div(mul(TWO, kh), mul(mv, g, sq(re), add(mu, Dm))))

            def duhamel(tq_, b):
                """int_0^t q'(s) exp(-b(t-s)) ds including jumps"""
                tot = []
                for k in range(NP - 1):
                    if xs[k] == xs[k + 1]:
                        if xs[k] <= tq:
                            tot.append(mul(sub(ly[k + 1], ly[k]), fn('exp', neg(mul(b, sub(tq_, lx[k]))))))
                    elif ys[k] != ys[k + 1] and tq > xs[k]:
                        end = lx[k + 1] if tq >= xs[k + 1] * 1.05 else tq_
                        e1 = fn('exp', neg(mul(b, sub(tq_, end))))
                        e0 = fn('exp', neg(mul(b, sub(tq_, lx[k]))))
                        tot.append(mul(div(sub(ly[k + 1], ly[k]), sub(lx[k + 1], lx[k])), div(sub(e1, e0), b)))
                return add(*tot) if tot else ZERO
            zm = z
            spec = lambda zz, tq_: series(N, Hd, zz, lambda j, m: duhamel(tq_, rate(j, m)))
            same(ctx, 'equation', 'tangandonitsuka2000 por [%s]' % tag, c.where, add(u, ONE), add(spec(z, t2), ONE), 'the pore pressure is not the modal solution of mv*gamw*du/dt = mv*gamw*dq/dt + kv*u\'\' - 2*kh/re^2*u/(mu+Dm)', values=V)
            if drn == 0:
                W = lambda seed, V=V: dict(V(seed), z=V(seed)['z2'])
                same(ctx, 'boundary', 'tangandonitsuka2000 below mid-depth [%s]' % tag, c.where, add(u, ONE), add(spec(sub(H, z), t2), ONE), 'the pore pressure is not symmetric about mid-depth', values=W)
            same(ctx, 'derived', 'tangandonitsuka2000 avp [%s]' % tag, c.where, add(mul(Hd, avp), ONE), add(integral(ZERO, Hd, spec(x, tt), x), ONE), 'the average is not the depth mean of the pore pressure', values=V)
            q = ZERO
            for k in range(NP - 1):
                if xs[k] <= tq <= xs[k + 1] and xs[k] < xs[k + 1]:
                    q = add(ly[k], mul(sub(ly[k + 1], ly[k]), div(sub(tt, lx[k]), sub(lx[k + 1], lx[k]))))
            if tq > xs[-1]:
                q = ly[-1]
            same(ctx, 'derived', 'tangandonitsuka2000 settlement [%s]' % tag, c.where, settle, mul(H, mv, sub(q, avp)), 'the settlement is not H*mv*(load - average pore pressure)', values=V)
    zero(ctx, 'boundary', 'tangandonitsuka2000 top [%d]' % drn, c.where, t.subst(u, {z: ZERO}), 'pore pressure at the drained top is not zero', values=V)
    if drn == 1:
        zero(ctx, 'boundary', 'tangandonitsuka2000 base', c.where, t.subst(diff(u, z), {z: H}), 'there is flow through the impervious base', values=V)
    d = Call(ctx, TO, 'tangandonitsuka2000', [[z, z2, sym('z3')], [tt, t3], kv, kh, ks, kw, mv, g, rw, rs, re, H, drn], dict(surcharge_vs_time=[lx, ly], tpor=[t2, t3], nterms=N), hooks=hooks)
    W = lambda seed: dict(V(seed), z3=t.mpf('0.2') if drn else t.mpf('2.1'))
    for i, a in enumerate((z, z2, sym('z3'))):
        for j, b in enumerate((t2, t3)):
            same(ctx, 'elements', 'tangandonitsuka2000 por (%d,%d) [%d]' % (i, j, drn), d.where, d.at(i, j, of=d.item(0)), t.subst(u, {z: a, t2: b}), 'a value does not belong to its depth and time', values=W, seeds=(1,))
    for j, b in enumerate((tt, t3)):
        same(ctx, 'elements', 'tangandonitsuka2000 avp %d [%d]' % (j, drn), d.where, d.at(j, of=d.item(1)), t.subst(avp, {tt: b}), 'a value does not belong to its time', values=W, seeds=(1,))
        same(ctx, 'elements', 'tangandonitsuka2000 settlement %d [%d]' % (j, drn), d.where, d.at(j, of=d.item(2)), t.subst(settle, {tt: b}), 'a value does not belong to its time', values=W, seeds=(1,))


DB = dict(z=0.7, z2=1.6, tt=0.3, t2=0.5, H=2.2, rw=0.1, rs=0.25, re=0.8, ks=0.6, kw0=6.0, kh=1.4, mv=0.4, gamw=1.2, ui=1.9, A1=1.3, A2=0.7, A3=0.5)


def deng13(ctx):
    z, z2, tt, t2, H, rw, rs, re, ks, kw0, kh, mv, g, ui, A1, A2, A3 = [sym(q) for q in DB]
    n = div(re, rw)
    qw0 = mul(kw0, PI, sq(rw))
    for smear in (True, False):
        kw = dict(A1=A1, A2=A2, A3=A3, H=H, kw0=kw0, kh=kh, mv=mv, gamw=g, ui=ui)
        if smear:
            kw.update(rs=rs, ks=ks)
            mu = Call(ctx, SZ, 'mu_constant', [n, div(rs, rw), div(kh, ks)]).at()
        else:
            mu = Call(ctx, SZ, 'mu_ideal', [n]).at()
        c = Call(ctx, DE, 'dengetal2013', [[z], [tt], rw, re], kw)
        u = c.at(0, 0)
        well = integral(ZERO, z, div(sub(H, x), sub(A1, mul(A2, div(x, H)))), x)
        muw = mul(TWO, PI, kh, div(well, qw0), fn('exp', mul(A3, tt)))
        eta = div(mul(TWO, kh), mul(mv, g, sq(re), add(mu, muw)))
        for cn, tie in (('constant', dict(A2=0, A3=0)), ('depth', dict(A3=0)), ('time', dict(A2=0)), ('depth and time', {}), ('increasing with depth', dict(A2=-0.4, A3=0)),
                        ('increasing with depth, time', dict(A2=-0.4)), ('slow decay', dict(A3=0.001)), ('full taper', dict(A2=1.3, A1=1.3)), ('full taper, time', dict(A2=1.3, A1=1.3, A3=0.7))):
            V = fix(near(DB), **tie)
            tag = '%s, %s' % (cn, 'smear zone' if smear else 'no smear zone')
            same(ctx, 'equation', 'dengetal2013 [%s]' % tag, c.where, div(diff(u, tt), u), neg(eta), 'du/dt is not -2*kh/(mv*gamw*re^2*(mu+mu_well))*u with the stated drain permeability', values=V,
                 vary=['z', 'tt', 'kw0', 'ui'], domain=lambda a, b: 0 < b['z'] < b['H'] and b['kw0'] > 0 and b['ui'] != 0)
            same(ctx, 'initial', 'dengetal2013 [%s]' % tag, c.where, t.subst(u, {tt: ZERO}), ui, 'the initial pore pressure is not ui', values=V)
            W = fix(V, z=0)
            same(ctx, 'boundary', 'dengetal2013 at z=0 [%s]' % tag, c.where, u, mul(ui, fn('exp', neg(div(mul(TWO, kh, tt), mul(mv, g, sq(re), mu))))), 'there is well resistance at the drained end', values=W)
    base = dict(A1=A1, A2=A2, A3=A3, H=H, kw0=kw0, kh=kh, mv=mv, gamw=g, ui=ui)
    for lab, more in (('rs only', dict(rs=rs)), ('ks only', dict(ks=ks))):
        q = Call(ctx, DE, 'dengetal2013', [[z], [tt], rw, re], dict(base, **more))
        same(ctx, 'derived', 'dengetal2013 with %s' % lab, q.where, q.at(0, 0), u, 'without both rs and ks there is no smear zone', values=near(DB))
    r = Call(ctx, DE, 'dengetal2013', [[z], [tt], rw, re], base)
    for lab, vals, want in (('A1=0', dict(A1=0, A2=-1), True), ('A1<0', dict(A1=-1, A2=-2), True), ('A2>A1', dict(A1=0.5, A2=0.6), True), ('A3<0', dict(A3=-0.01), True),
                            ('A1=1/2', dict(A1=0.5, A2=0.2), False), ('A1 small', dict(A1=0.01, A2=0), False), ('A2=A1', dict(A1=0.5, A2=0.5), False), ('A2<0', dict(A2=-1), False),
                            ('A3=0', dict(A3=0), False), ('A3=0, A2=0', dict(A3=0, A2=0), False), ('A1 large', dict(A1=2.5, A2=1.5), False)):
        scal.rejects(ctx, 'domain', 'dengetal2013 %s' % lab, r, {q_: t.mpf(str(v_)) for q_, v_ in dict(DB, **vals).items()}, want, 'parameters outside the documented range are accepted' if want else 'valid parameters are refused')
    e = Call(ctx, DE, 'dengetal2013', [[z, z2], [tt, t2]  , rw, re], kw)
    for i, a in enumerate((z, z2)):
        for j, b in enumerate((tt, t2)):
            for cn, tie in (('constant', dict(A2=0, A3=0)), ('depth', dict(A3=0)), ('time', dict(A2=0)), ('depth and time', {})):
                same(ctx, 'elements', 'dengetal2013 (%d,%d) [%s]' % (i, j, cn), e.where, e.at(i, j), t.subst(u, {z: a, tt: b}), 'a value does not belong to its depth and time', values=fix(near(DB), **tie), seeds=(1,))


def deng14(ctx):
    z, z2, tt, t2, H, rw, rs, re, ks, kw0, kh, mv, g, ui, A1, A2, A3 = [sym(q) for q in DB]
    n = div(re, rw)
    qw0 = mul(kw0, PI, sq(rw))
    for smear in (True, False):
        kw = dict(A3=A3, H=H, kw0=kw0, kh=kh, mv=mv, gamw=g, ui=ui)
        if smear:
            kw.update(rs=rs, ks=ks)
            mu = Call(ctx, SZ, 'mu_constant', [n, div(rs, rw), div(kh, ks)]).at()
        else:
            mu = Call(ctx, SZ, 'mu_ideal', [n]).at()
        for N in (1, 3):
            c = Call(ctx, DE, 'dengetal2014', [[z], [tt], rw, re], dict(kw, nterms=N))
            u = c.at(0, 0)
            for cn, tie in (('decaying well', {}), ('constant well', dict(A3=0)), ('slow decay', dict(A3=0.002))):
                V = fix(near(DB), **tie)
                tag = '%s, %s, %d terms' % (cn, 'smear zone' if smear else 'no smear zone', N)

                def T(j, m, tie=tie):
                    muw = lambda s_: mul(TWO, PI, div(mul(kh, sq(H)), mul(qw0, sq(mul(m, H)))), sub(ONE, div(ONE, sq(n))), fn('exp', mul(A3, s_)))
                    return fn('exp', neg(integral(ZERO, tt, div(mul(TWO, kh), mul(mv, g, sq(re), add(mu, muw(x)))), x)))
                same(ctx, 'equation', 'dengetal2014 [%s]' % tag, c.where, u, mul(ui, series(N, H, z, T)), 'the modes do not decay at 2*kh/(mv*gamw*re^2*(mu+mu_well))', values=V)
            same(ctx, 'initial', 'dengetal2014 [%s]' % tag, c.where, t.subst(u, {tt: ZERO}), mul(ui, series(N, H, z, lambda j, m: ONE)), 'the initial pore pressure is not ui', values=near(DB))
    base = dict(A3=A3, H=H, kw0=kw0, kh=kh, mv=mv, gamw=g, ui=ui, nterms=3)
    for lab, more in (('rs only', dict(rs=rs)), ('ks only', dict(ks=ks))):
        q = Call(ctx, DE, 'dengetal2014', [[z], [tt], rw, re], dict(base, **more))
        same(ctx, 'derived', 'dengetal2014 with %s' % lab, q.where, q.at(0, 0), u, 'without both rs and ks there is no smear zone', values=near(DB))
    r = Call(ctx, DE, 'dengetal2014', [[z], [tt], rw, re], base)
    for lab, vals, want in (('A3<0', dict(A3=-0.01), True), ('A3=0', dict(A3=0), False), ('A3>0', dict(A3=0.2), False)):
        scal.rejects(ctx, 'domain', 'dengetal2014 %s' % lab, r, {q_: t.mpf(str(v_)) for q_, v_ in dict(DB, **vals).items()}, want, 'parameters outside the documented range are accepted' if want else 'valid parameters are refused')
    e = Call(ctx, DE, 'dengetal2014', [[z, z2], [tt, t2], rw, re], dict(kw, nterms=3))
    for i, a in enumerate((z, z2)):
        for j, b in enumerate((tt, t2)):
            for cn, tie in (('constant well', dict(A3=0)), ('decaying well', {})):
                same(ctx, 'elements', 'dengetal2014 (%d,%d) [%s]' % (i, j, cn), e.where, e.at(i, j), t.subst(u, {z: a, tt: b}), 'a value does not belong to its depth and time', values=fix(near(DB), **tie), seeds=(1,))


def lu(ctx):
    B = dict(z=0.7, z2=1.6, tt=0.3, t2=0.5, H=2.2, rc=0.3, re=0.8, rs=0.4, ks=0.6, kv=0.9, kvc=2.1, kh=1.4, khc=1.7, mvs=0.4, mvc=0.15, gamw=1.2, utop=1.9, ubot=1.1)
    z, z2, tt, t2, H, rc, re, rs, ks, kv, kvc, kh, khc, mvs, mvc, g, ut, ub = [sym(q) for q in B]
    n = div(re, rc)
    n2 = sq(n)
    Y = div(mvs, mvc)
    for smear in (True, False):
        kw = dict(H=H, kv=kv, kvc=kvc, kh=kh, khc=khc, mvs=mvs, mvc=mvc, gamw=g, utop=ut, ubot=ub)
        if smear:
            kw.update(rs=rs, ks=ks)
            mu = Call(ctx, SZ, 'mu_constant', [n, div(rs, rc), div(kh, ks)]).at()
        else:
            mu = Call(ctx, SZ, 'mu_ideal', [n]).at()
        for N in (1, 3):
            c = Call(ctx, LU, 'luetal2010', [[z], [tt], rc, re], dict(kw, nterms=N))
            u, us, uc = (c.at(0, 0, of=c.item(k)) for k in range(3))
            avp, settle = c.at(0, of=c.item(3)), c.at(0, of=c.item(4))
            V = near(B)
            tag = '%s, %d terms' % ('smear zone' if smear else 'no smear zone', N)
            m1 = sub(n2, ONE)
            same(ctx, 'derived', 'luetal2010 area average [%s]' % tag, c.where, mul(n2, u), add(mul(m1, us), uc), 'the overall pore pressure is not the area average of soil and column', values=V)
            strain = lambda q: mul(div(mul(mvs, n2), add(m1, Y)), q)             # strain per unit effective stress
            dz2 = lambda q: diff(diff(q, z), z)
            same(ctx, 'equation', 'luetal2010 storage [%s]' % tag, c.where, mul(n2, g, strain(diff(u, tt))), add(mul(m1, kv, dz2(us)), mul(kvc, dz2(uc))), 'the rate of volume change does not match the vertical outflow of soil and column', values=V)
            q = sub(neg(strain(diff(u, tt))), neg(mul(div(kv, g), dz2(us))))     # radial outflow of the soil ring per volume
            radial = add(div(mul(sq(re), mu), mul(TWO, kh)), div(mul(sq(rc), m1), mul(num(8), khc)))
            same(ctx, 'equation', 'luetal2010 radial flow [%s]' % tag, c.where, sub(us, uc), mul(g, radial, q), 'the soil - column pressure difference does not match the radial flow', values=V)
            zero(ctx, 'boundary', 'luetal2010 top [%s]' % tag, c.where, t.subst(u, {z: ZERO}), 'pore pressure at the drained top is not zero', values=V)
            zero(ctx, 'boundary', 'luetal2010 base [%s]' % tag, c.where, t.subst(diff(u, z), {z: H}), 'there is flow through the impervious base', values=V)
            prof = add(ut, mul(sub(ub, ut), div(x, H)))
            u0 = t.subst(u, {tt: ZERO, z: x})
            for j, m in enumerate(modes(N, H)):
                w = fn('sin', mul(m, x))
                same(ctx, 'initial', 'luetal2010 mode %d [%s]' % (j + 1, tag), c.where, integral(ZERO, H, mul(u0, w), x), integral(ZERO, H, mul(prof, w), x), 'the initial pore pressure is not linear from utop to ubot', values=V)
            same(ctx, 'derived', 'luetal2010 average [%s]' % tag, c.where, mul(H, avp), integral(ZERO, H, t.subst(u, {z: x}), x), 'avp is not the depth mean of the overall pore pressure', values=V)
            same(ctx, 'derived', 'luetal2010 settlement [%s]' % tag, c.where, settle, mul(H, strain(sub(div(add(ut, ub), TWO), avp))), 'the settlement is not H*mv_composite*(mean initial - mean pore pressure)', values=V)
    e = Call(ctx, LU, 'luetal2010', [[z, z2], [tt, t2, sym('t3')], rc, re], dict(kw, nterms=3))
    for i, a in enumerate((z, z2)):
        for j, b in enumerate((tt, t2, sym('t3'))):
            for k, (nm, q) in enumerate((('por', u), ('pors', us), ('porc', uc))):
                same(ctx, 'elements', 'luetal2010 %s (%d,%d)' % (nm, i, j), e.where, e.at(i, j, of=e.item(k)), t.subst(q, {z: a, tt: b}), 'a value does not belong to its depth and time', values=V, seeds=(1,))
    for j, b in enumerate((tt, t2)):
        for k, (nm, q) in enumerate((('avp', avp), ('settlement', settle))):
            same(ctx, 'elements', 'luetal2010 %s %d' % (nm, j), e.where, e.at(j, of=e.item(3 + k)), t.subst(q, {tt: b}), 'a value does not belong to its time', values=V, seeds=(1,))


def cosenza(ctx):
    B = dict(z=0.7, z2=1.6, tt=0.3, t2=0.5, tp=0.8, L=2.2, kv=0.9, mv=0.4, gamw=1.2, ui=1.9, th0=0.3, th1=0.7, v0=0.4, v1=0.6)
    z, z2, tt, t2, tp, L, kv, mv, g, ui, th0, th1, v0, v1 = [sym(q) for q in B]
    s_ = sym('laplace_s')
    LA = 'geotecha.mathematics.laplace'

    def inv(I, args, kw, st, f):
        """Talbot object applied to (times, args): uninterpreted inversion of the transform it was built with"""
        self = getattr(f, 'selfv', None)
        if self is None:
            self, args = args[0], args[1:]
        F = I.getattr(self, 'f', st)
        extra = kw.get('args', args[1] if len(args) > 1 else None)
        extra = list(st.store[extra.key]) if extra is not None else []
        Fs = I.node(I.call(F, [s_] + extra, {}, st), st)
        ts = I.as_array(args[0], st)
        return I.elementwise(lambda q: t.mk('call', 'invlap', Fs, q), [ts], st)
    N = 2
    V = near(B)
    for nth in (1, 2):
        ths, vs = [th0, th1][:nth], [v0, v1][:nth]
        c = Call(ctx, CK, 'cosenzaandkorosak2014', [[z, z2], [tt, t2, sym('t3')], ths, vs], dict(tpor=[tp, sym('tp2')], L=L, kv=kv, mv=mv, gamw=g, ui=ui, nterms=N), hooks={LA + '.Talbot.__call__': inv})
        d = Call(ctx, CK, 'cosenzaandkorosak2014', [[z, z2], [tt, t2, sym('t3')], ths, vs], dict(L=L, kv=kv, mv=mv, gamw=g, ui=ui, nterms=N), hooks={LA + '.Talbot.__call__': inv})

        def B_(j, time):
            m = mul(num(2 * j + 1), PI)
            lam = mul(div(kv, mul(mv, g, sq(L))), sq(m))
            F = div(add(ONE, *[mul(a, pw(s_, sub(b, ONE))) for a, b in zip(ths, vs)]), add(s_, lam, *[mul(a, pw(s_, b)) for a, b in zip(ths, vs)]))
            return t.mk('call', 'invlap', F, time)
        por = lambda zz, time: mul(ui, add(*[mul(div(num(4), mul(num(2 * j + 1), PI)), fn('sin', mul(num(2 * j + 1), PI, div(zz, L))), B_(j, time)) for j in range(N)]))
        doc = lambda time: sub(ONE, add(*[mul(div(num(8), sq(mul(num(2 * j + 1), PI))), B_(j, time)) for j in range(N)]))
        for i, a in enumerate((z, z2)):
            for j, b in enumerate((tp, sym('tp2'))):
                same(ctx, 'equation', 'cosenzaandkorosak2014 por (%d,%d) [%d terms]' % (i, j, nth), c.where, c.at(i, j, of=c.item(0)), por(a, b), 'the pore pressure is not the modal solution of the fractional consolidation equation', values=V)
            for j, b in enumerate((tt, t2, sym('t3'))):
                same(ctx, 'equation', 'cosenzaandkorosak2014 por default times (%d,%d) [%d terms]' % (i, j, nth), d.where, d.at(i, j, of=d.item(0)), por(a, b), 'the pore pressure is not the modal solution of the fractional consolidation equation', values=V)
        for j, b in enumerate((tt, t2, sym('t3'))):
            for nm, q in (('own tpor', c), ('default tpor', d)):
                same(ctx, 'derived', 'cosenzaandkorosak2014 doc %d [%s, %d terms]' % (j, nm, nth), q.where, q.at(j, of=q.item(1)), doc(b), 'the degree of consolidation is not 1 - mean(u)/ui', values=V)
