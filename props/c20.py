"""smear zone profiles, mu and permeability agree with the radial flow law"""
from fractions import Fraction
from sa import terms as t
from sa import scal
from sa.scal import Call, sym, integral
from sa.terms import num

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): each smear-zone function is abstracted to a gated term; the profile is '
             'differentiated symbolically and compared, region by region and case by case, with the radial flow law built from the abstracted '
             'permeability function; mu is compared with the integral of that law. Nothing from /repo is imported or run.')
SZ = 'geotecha.consolidation.smear_zones'
n, s, kap, si, ua, uw, muw, x = [sym(q) for q in ('n', 's', 'kap', 'si', 'uavg', 'uw', 'muw', '@x')]
EPS = t.mpf(10) ** -13


def keeps(a, b):
    """b keeps the zone structure of a: order of the radii, equalities, positive permeabilities"""
    rad = [k for k in a if k[0] in 'sn@x' and k != 'nflow']
    for k in b:
        if k[0] == 'k' and b[k] <= 0 or k in ('nflow', 'r', 're', 'rw', 'eta', 'X', 'sp', 'H', 'kh', 'qw', 'z', 'iL', 'gamw') and b[k] != a.get(k):
            return False
    if b.get('muw', 0) < 0:
        return False
    sg = lambda q: (q > 0) - (q < 0)
    for i, p in enumerate(rad):
        if sg(a[p] - 1) != sg(b[p] - 1):
            return False
        for q in rad[i + 1:]:
            if sg(a[p] - a[q]) != sg(b[p] - b[q]):
                return False
    ks = list(a)
    for i, p in enumerate(ks):
        for q in ks[i + 1:]:
            if (a[p] == a[q]) != (b[p] == b[q]):
                return False
            if p[0] == 'k' and q[0] == 'k' and (p, q) != ('k', 'kap') and b[p] == b[q]:
                return False
    return True


def same(ctx, rule, c, where, a, b, msg, **kw):
    v = kw.get('values')
    if v is not None and rule != 'mu':
        base = v(1) if callable(v) else v
        if rule == 'continuity':
            kw['tol'] = t.mpf(10) ** -8
        names = ['uavg', 'uw', 'muw'] if rule in ('degenerate', 'continuity') or 'vertex' in c or 'overlapping' in c or 'proportional' in c else [k for k in base if k not in ('nflow',)]
        kw.setdefault('vary', names)
        kw.setdefault('domain', keeps)
    return scal.same(ctx, rule, c, where, a, b, msg, **kw)


def drive():
    """right hand side of the flow law: (1/si - si/n^2)"""
    return t.sub(t.div(t.ONE, si), t.div(si, t.mul(n, n)))


def mu_of(K, nn, *breaks):
    """n^2/(n^2-1) int_1^n (1-x^2/n^2)^2/(x K(x)) dx"""
    n2 = t.mul(nn, nn)
    f = t.div(t.pow_(t.sub(t.ONE, t.div(t.mul(x, x), n2)), num(2)), t.mul(x, K))
    return t.mul(t.div(n2, t.sub(n2, t.ONE)), integral(t.ONE, nn, f, x, *breaks))


def pick(seed, base):
    r = {}
    for k, v in base.items():
        r[k] = t.mpf(v) * (1 + t._rnd((seed, 'pick', k), -0.04, 0.04))
    return r


def vals(base, **tie):
    def f(seed):
        r = pick(seed, base)
        for k, e in tie.items():
            r[k] = e(r)
        return r
    return f


U = dict(uavg=2.3, uw=0.7, muw=1.9)
BASE = dict(U, n=11.0, s=3.1, kap=2.2)
ZONES = {'smear': dict(si=1.8), 'undisturbed': dict(si=6.5)}


def check(ctx):
    ctx.rule('flow law', 'k(si) * du/dsi = (uavg-uw)/(mu+muw) * (1/si - si/n^2) in every zone and special case')
    ctx.rule('drain face', 'u at the drain face is uw + (uavg-uw)*muw/(mu+muw)')
    ctx.rule('continuity', 'profiles (and linear / parabolic permeability) are continuous where zones meet')
    ctx.rule('mu', 'mu equals n^2/(n^2-1) * integral of (1-x^2/n^2)^2/(x k(x))')
    ctx.rule('average', 'the area average of the profile without well resistance is uavg')
    ctx.rule('permeability', 'the permeability law takes its stated values at the drain face, the smear boundary and outside, with its stated shape')
    ctx.rule('degenerate', 'special cases reduce to the simpler scheme')
    ctx.rule('helpers', 'drain spacing, eta and well resistance helpers follow their definitions')
    ctx.assumptions += ['arithmetic is over the reals', 'piecewise schemes are decided for one to four zones', 'non-Darcy series are compared with their closed form for r/re <= 0.3 and 20 terms']
    ctx.parallel([lambda: simple(ctx, 'constant'), lambda: simple(ctx, 'linear'), lambda: simple(ctx, 'parabolic'), lambda: overlapping(ctx),
                  lambda: piecewise(ctx, 'constant'), lambda: piecewise(ctx, 'linear'), lambda: nondarcy(ctx), lambda: helpers(ctx),
                  lambda: elements(ctx)])


def K_of(ctx, scheme, at):
    if scheme == 'constant':
        return t.ite(t.lt(at, s), t.div(t.ONE, kap), t.ONE)
    c = Call(ctx, SZ, 'k_' + scheme, [n, s, kap, [at]])
    return c.at(0)


def simple(ctx, scheme):
    C = lambda f, *a: Call(ctx, SZ, f, a, dict(uavg=ua, uw=uw, muw=muw))
    c = C('u_' + scheme, n, s, kap, [si])
    u = c.at(0)
    m = Call(ctx, SZ, 'mu_' + scheme, [n, s, kap])
    mu = m.at()
    K = K_of(ctx, scheme, si)
    cases = [('general', {}), ('s=kap', dict(kap=lambda r: r['s']))] if scheme != 'constant' else [('general', {})]
    if scheme != 'parabolic':
        cases.append(('kap<1', dict(kap=lambda r: r['kap'] / 4)))
    cases.append(('kap>s', dict(kap=lambda r: r['kap'] * 3)))
    cases.append(('s close to 1', dict(s=lambda r: 1 + r['s'] / 20)))
    scale = t.div(t.sub(ua, uw), t.add(mu, muw))
    for cn, tie in cases:
        for zn, z in ZONES.items():
            if cn == 's close to 1' and zn == 'smear':
                z = dict(si=1.05)
            v = vals(dict(BASE, **z), **tie)
            same(ctx, 'flow law', 'u_%s [%s, %s]' % (scheme, zn, cn), c.where, t.mul(K, t.diff(u, si)), t.mul(scale, drive()), 'the pore pressure gradient does not follow the flow law for this zone', values=v, probe=(zn != 'smear' or cn == 'general'))
        v = vals(BASE, si=lambda r: 1, **tie)
        same(ctx, 'drain face', 'u_%s [%s]' % (scheme, cn), c.where, u, t.add(uw, t.mul(scale, muw)), 'the pore pressure at the drain face is wrong', values=v)
        lo, hi = t.subst(u, {si: t.sub(s, num(Fraction(1, 10 ** 13)))}), t.subst(u, {si: s})
        v = vals(BASE, **tie)
        same(ctx, 'continuity', 'u_%s [%s]' % (scheme, cn), c.where, lo, hi, 'the profile jumps at the smear zone boundary', values=v)
        Kx = K_of(ctx, scheme, x)
        same(ctx, 'mu', 'mu_%s [%s]' % (scheme, cn), m.where, mu, mu_of(Kx, n, s), 'mu is not the integral of the permeability law', values=v, seeds=(1,) if not ctx.thorough else (1, 2))
    # degenerate
    ui = C('u_ideal', n, [si]).at(0)
    mi = Call(ctx, SZ, 'mu_ideal', [n]).at()
    for cn, tie in (('kap=1', dict(kap=lambda r: 1)), ('s=1', dict(s=lambda r: 1))):
        v = vals(dict(BASE, si=2.0), **tie)
        same(ctx, 'degenerate', 'mu_%s [%s]' % (scheme, cn), m.where, mu, mi, 'does not reduce to the ideal drain', values=v)
        same(ctx, 'degenerate', 'u_%s [%s]' % (scheme, cn), c.where, u, ui, 'does not reduce to the ideal drain', values=v)
    if scheme == 'constant':
        same(ctx, 'mu', 'mu_ideal', '%s' % m.where, mi, mu_of(t.ONE, n), 'mu_ideal is not the integral for uniform permeability', values=vals(BASE), seeds=(1,))
        ci = C('u_ideal', n, [si])
        sc = t.div(t.sub(ua, uw), t.add(mi, muw))
        same(ctx, 'flow law', 'u_ideal', ci.where, t.diff(ui, si), t.mul(sc, drive()), 'the pore pressure gradient does not follow the flow law', values=vals(dict(BASE, si=2.4)))
        same(ctx, 'drain face', 'u_ideal', ci.where, ui, t.add(uw, t.mul(sc, muw)), 'the pore pressure at the drain face is wrong', values=vals(BASE, si=lambda r: 1))
        return
    kc = Call(ctx, SZ, 'k_' + scheme, [n, s, kap, [si]])
    k = kc.at(0)
    for cn, tie in cases:
        v1 = vals(BASE, si=lambda r: 1, **tie)
        same(ctx, 'permeability', 'k_%s at the drain face [%s]' % (scheme, cn), kc.where, k, t.div(t.ONE, kap), 'permeability at the drain face is not 1/kap', values=v1)
        v2 = vals(dict(BASE, si=7), **tie)
        same(ctx, 'permeability', 'k_%s outside [%s]' % (scheme, cn), kc.where, k, t.ONE, 'permeability outside the smear zone is not 1', values=v2)
        v3 = vals(BASE, **tie)
        same(ctx, 'continuity', 'k_%s [%s]' % (scheme, cn), kc.where, t.subst(k, {si: t.sub(s, num(Fraction(1, 10 ** 13)))}), t.ONE, 'permeability jumps at the smear zone boundary', values=v3)
        v4 = vals(dict(BASE, si=1.04 if cn == 's close to 1' else 1.8), **tie)
        d = k
        for _ in range(2 if scheme == 'linear' else 3):
            d = t.diff(d, si)
        same(ctx, 'permeability', 'k_%s shape [%s]' % (scheme, cn), kc.where, t.add(d, t.ONE), t.ONE, 'permeability in the smear zone is not %s in radius' % scheme, values=v4)
        if scheme == 'parabolic':
            dk = t.subst(t.diff(k, si), {si: t.sub(s, num(Fraction(1, 10 ** 14)))})
            same(ctx, 'permeability', 'k_parabolic vertex [%s]' % cn, kc.where, t.add(dk, t.ONE), t.ONE, 'the parabola does not have its vertex at the smear boundary', values=v3)


def overlapping(ctx):
    m = Call(ctx, SZ, 'mu_overlapping_linear', [n, s, kap])
    mu = m.at()
    kc = Call(ctx, SZ, 'k_overlapping_linear', [n, s, kap, [x]])
    kx = kc.at(0)
    sx = t.sub(t.mul(num(2), n), s)
    lin = Call(ctx, SZ, 'k_linear', [n, s, kap, [x]]).at(0)
    law = lambda z: t.div(t.add(t.ONE, t.mul(t.div(t.sub(kap, t.ONE), t.sub(s, t.ONE)), t.sub(z, t.ONE))), kap)
    mi = Call(ctx, SZ, 'mu_ideal', [n]).at()
    O = dict(BASE, n=4.0, s=5.0, kap=2.2)
    cases = [('separate zones', BASE, {}), ('overlapping', O, {}), ('all disturbed', dict(O, n=3.0, s=7.5), {}),
             ('overlapping, s=kap', O, dict(kap=lambda r: r['s']))]
    for cn, b, tie in cases:
        v = vals(b, **tie)
        same(ctx, 'mu', 'mu_overlapping_linear [%s]' % cn, m.where, mu, mu_of(kx, n, s if cn == 'separate zones' else sx) if cn != 'all disturbed' else mu_of(kx, n), 'mu is not the integral of the permeability law', values=v, seeds=(1,))
    for cn, b, z, spec in (('separate, smear', BASE, 1.7, lin), ('separate, outside', BASE, 7.0, t.ONE), ('overlapping, inner', O, 2.0, law(x)), ('overlapping, outer', O, 3.5, law(sx)),
                           ('all disturbed', dict(O, n=3.0, s=7.5), 2.0, t.div(t.ONE, kap))):
        same(ctx, 'permeability', 'k_overlapping_linear [%s]' % cn, kc.where, kx, spec, 'permeability is not the stated law', values=vals(dict(b, **{'@x': z})))
    for cn, tie in (('kap=1', dict(kap=lambda r: 1)), ('s=1', dict(s=lambda r: 1))):
        same(ctx, 'degenerate', 'mu_overlapping_linear [%s]' % cn, m.where, mu, mi, 'does not reduce to the ideal drain', values=vals(BASE, **tie))


def zones(L):
    ss = [sym('s%d' % i) for i in range(1, L + 1)]
    ks = [sym('k%d' % i) for i in range(1, L + 1)]
    return ss, ks


def pvals(L, kind, si_=None, case='general'):
    def f(seed):
        r = pick(seed, U)
        a = 1.0
        for i in range(1, L + 1):
            a = a * (1.6 + t._rnd((seed, 's', i), 0, 0.5))
            r['s%d' % i] = a
            r['k%d' % i] = t._rnd((seed, 'k', i), 0.8, 3.0)
        if kind == 'linear':
            r['k0'] = t._rnd((seed, 'k', 0), 0.8, 3.0)
        if case == 'equal':
            for i in range(1, L + 1):
                r['k%d' % i] = r['k%d' % (i - 1)] if (kind == 'linear' or i > 1) else r['k1']
        if case == 'jump':
            r['s2'] = r['s1']
        if case == 'thin':
            r['s1'] = t.mpf(1) + t.mpf('0.008')
            r['s2'] = r['s1'] * (1 + t.mpf('0.01')) if L > 1 else 0
        if case == 'proportional':
            for i in range(1, L + 1):
                r['k%d' % i] = r['k%d' % (i - 1)] / (r['s%d' % i] / (r['s%d' % (i - 1)] if i > 1 else 1))
        if si_ is not None:
            seg, w = si_
            lo = r['s%d' % seg] if seg else t.mpf(1)
            r['si'] = lo + (r['s%d' % (seg + 1)] - lo) * w
        return r
    return f


def piecewise(ctx, kind):
    nmax = 4 if ctx.thorough else 3
    kw = dict(uavg=ua, uw=uw, muw=muw)
    for L in range(1, nmax + 1):
        ss, ks = zones(L)
        if kind == 'linear':
            sl, kl = [t.ONE] + ss, [sym('k0')] + ks
        else:
            sl, kl = ss, ks
        c = Call(ctx, SZ, 'u_piecewise_' + kind, [sl, kl, [si]], kw)
        u = c.at(0)
        m = Call(ctx, SZ, 'mu_piecewise_' + kind, [sl, kl])
        mu = m.at()
        nn = ss[-1]
        scale = t.div(t.sub(ua, uw), t.add(mu, muw))
        rhs = t.mul(scale, t.sub(t.div(t.ONE, si), t.div(si, t.mul(nn, nn))))

        def K(i, z):
            if kind == 'constant':
                return t.div(t.ONE, ks[i])
            a, b = sl[i], sl[i + 1]
            ka, kb = t.div(t.ONE, kl[i]), t.div(t.ONE, kl[i + 1])
            return t.add(ka, t.mul(t.sub(kb, ka), t.div(t.sub(z, a), t.sub(b, a))))
        cases = ['general', 'equal', 'thin'] + (['proportional'] if kind == 'linear' else []) + (['jump'] if kind == 'linear' and L > 2 else [])
        for case in cases:
            tag = '%d zones, %s' % (L, case)
            live = [i for i in range(L) if not (case == 'jump' and i == 1)]
            for i in live:
                same(ctx, 'flow law', 'u_piecewise_%s [%s, zone %d]' % (kind, tag, i + 1), c.where, t.mul(K(i, si), t.diff(u, si)), rhs,
                     'the pore pressure gradient does not follow the flow law in this zone', values=pvals(L, kind, (i, t.mpf('0.43')), case))
            f = pvals(L, kind, None, case)
            same(ctx, 'drain face', 'u_piecewise_%s [%s]' % (kind, tag), c.where, u, t.add(uw, t.mul(scale, muw)), 'the pore pressure at the drain face is wrong',
                 values=lambda seed: dict(f(seed), si=1))
            for i in live[:-1]:
                e = num(Fraction(1, 10 ** 13))
                same(ctx, 'continuity', 'u_piecewise_%s [%s, boundary %d]' % (kind, tag, i + 1), c.where, t.subst(u, {si: t.sub(ss[i], e)}), t.subst(u, {si: t.add(ss[i], e)}),
                     'the profile jumps between zones', values=f)
            tot = []
            for i in live:
                lo = ss[i - 1] if i else t.ONE
                n2 = t.mul(nn, nn)
                g = t.div(t.pow_(t.sub(t.ONE, t.div(t.mul(x, x), n2)), num(2)), t.mul(x, K(i, x)))
                tot.append(integral(lo, ss[i], g, x))
            spec = t.mul(t.div(t.mul(nn, nn), t.sub(t.mul(nn, nn), t.ONE)), t.add(*tot))
            same(ctx, 'mu', 'mu_piecewise_%s [%s]' % (kind, tag), m.where, mu, spec, 'mu is not the integral of the permeability law', values=f, seeds=(1,))
        if L >= 2:
            m2 = Call(ctx, SZ, 'mu_piecewise_' + kind, [sl[:-1], kl[:-1]], dict(n=nn, kap_m=kl[-1]))
            same(ctx, 'degenerate', 'mu_piecewise_%s n,kap_m [%d zones]' % (kind, L), m.where, m2.at(), mu, 'giving the last zone as n and kap_m changes the result', values=pvals(L, kind))
            u2 = Call(ctx, SZ, 'u_piecewise_' + kind, [sl[:-1], kl[:-1], [si]], dict(kw, n=nn, kap_m=kl[-1]))
            same(ctx, 'degenerate', 'u_piecewise_%s n,kap_m [%d zones]' % (kind, L), c.where, u2.at(0), u, 'giving the last zone as n and kap_m changes the result', values=pvals(L, kind, (0, t.mpf('0.6'))))
            m3 = Call(ctx, SZ, 'mu_piecewise_' + kind, [sl[:-1], kl[:-1]], dict(n=nn))
            m4 = Call(ctx, SZ, 'mu_piecewise_' + kind, [sl, kl[:-1] + [kl[-2]]])
            same(ctx, 'degenerate', 'mu_piecewise_%s n only [%d zones]' % (kind, L), m.where, m3.at(), m4.at(), 'without kap_m the last zone does not keep the last kap', values=pvals(L, kind))
    if kind == 'constant':
        a = Call(ctx, SZ, 'mu_piecewise_constant', [[s, n], [kap, 1]])
        b = Call(ctx, SZ, 'mu_constant', [n, s, kap])
        same(ctx, 'degenerate', 'mu_piecewise_constant = mu_constant', a.where, a.at(), b.at(), 'two zones do not reduce to the constant smear zone', values=vals(BASE))


def nondarcy(ctx):
    nf, r, re = sym('nflow'), sym('r'), sym('re')
    V = vals(dict(r=2.4, re=10.0, nflow=1.4))
    one = t.ONE
    for form, wrap in (('scalar', lambda z: z), ('array', lambda z: [z])):
        g = Call(ctx, SZ, '_g', [wrap(r), re, nf])
        gb = Call(ctx, SZ, '_gbar', [wrap(r), re, nf])
        gv, gbv = (z.at() if form == 'scalar' else z.at(0) for z in (g, gb))
        inner = t.pow_(t.sub(one, t.pow_(t.div(r, re), num(2))), t.div(one, nf))
        spec = t.mul(t.pow_(r, t.neg(t.div(one, nf))), inner)
        same(ctx, 'flow law', 'non-Darcy g [%s]' % form, g.where, t.diff(gv, r), spec, 'the derivative of g is not the non-Darcy gradient', values=V)
        same(ctx, 'flow law', 'non-Darcy gbar [%s]' % form, gb.where, t.diff(gbv, r), t.mul(r, gv), 'gbar is not the first moment integral of g', values=V)
    L = 3 if ctx.thorough else 2
    kw = dict(uavg=ua, uw=uw, muw=muw, nflow=nf)

    def gsym(interp, args, kw_, st, f):
        z = [interp.as_array(a, st) for a in args[:3]]
        g = 'g' if f.node.name == '_g' else 'gbar'
        if any(type(q).__name__ == 'Arr' and interp.axes(q, st) for q in z):
            return t.unk('array g')
        return t.mk('call', g, *[interp.node(q, st) for q in args[:3]])
    hooks = {SZ + '._g': gsym, SZ + '._gbar': gsym}

    def gcall(nm, *a):
        return t.mk('call', nm, *a)
    for L in (1, 2, 3):
        ss, ks = zones(L)
        nn = ss[-1]
        b = Call(ctx, SZ, 'non_darcy_beta_piecewise_constant', [ss, ks], dict(nflow=nf), hooks=hooks)
        beta = b.at()
        ex = lambda q: t.pow_(q, t.div(one, nf))
        G = lambda z: gcall('g', z, nn, nf)
        B = lambda z: gcall('gbar', z, nn, nf)
        tot, start = t.ZERO, t.ZERO
        for i in range(L):
            lo = ss[i - 1] if i else one
            # 2/(n^2-1) int r w(r), w = start + k^(1/nf) (g(r)-g(lo))
            area = t.sub(t.mul(ss[i], ss[i]), t.mul(lo, lo))
            tot = t.add(tot, t.mul(area, start), t.mul(ex(ks[i]), t.sub(t.mul(num(2), t.sub(B(ss[i]), B(lo))), t.mul(G(lo), area))))
            start = t.add(start, t.mul(ex(ks[i]), t.sub(G(ss[i]), G(lo))))
        spec = t.div(tot, t.sub(t.mul(nn, nn), one))
        f = pvals(L, 'constant')
        v = lambda seed: dict(f(seed), nflow=t.mpf('1.3') + t._rnd((seed, 'nf'), 0, .2))
        same(ctx, 'average', 'non_darcy_beta_piecewise_constant [%d zones]' % L, b.where, beta, spec, 'beta is not the area average of the profile', values=v)
        c = Call(ctx, SZ, 'non_darcy_u_piecewise_constant', [ss, ks, [si]], kw, hooks=hooks)
        u = c.at(0)
        sc = t.div(t.sub(ua, uw), t.add(beta, muw))
        start = t.ZERO
        for i in range(L):
            lo = ss[i - 1] if i else one
            w = t.add(start, t.mul(ex(ks[i]), t.sub(G(si), G(lo))))
            fi = pvals(L, 'constant', (i, t.mpf('0.37')))
            same(ctx, 'flow law', 'non_darcy_u_piecewise_constant [%d zones, zone %d]' % (L, i + 1), c.where, u, t.add(uw, t.mul(sc, t.add(w, muw))),
                 'the non-Darcy profile in this zone is not uw + (uavg-uw)/(beta+muw)*(accumulated head loss + muw)', values=lambda seed, fi=fi: dict(fi(seed), nflow=t.mpf('1.3')))
            start = t.add(start, t.mul(ex(ks[i]), t.sub(G(ss[i]), G(lo))))
        if L == 1:
            bi = Call(ctx, SZ, 'non_darcy_beta_ideal', [nn], dict(nflow=nf), hooks=hooks)
            same(ctx, 'degenerate', 'non_darcy_beta_ideal', bi.where, bi.at(), t.subst(beta, {ks[0]: one}), 'one uniform zone does not reduce to the ideal drain', values=v)
        if L == 2:
            bc = Call(ctx, SZ, 'non_darcy_beta_constant', [nn, ss[0], ks[0]], dict(nflow=nf), hooks=hooks)
            v2 = lambda seed: dict(v(seed), k2=1, k1=2 + t._rnd((seed, 'k')))
            same(ctx, 'degenerate', 'non_darcy_beta_constant', bc.where, bc.at(), beta, 'the two zone scheme does not reduce to the constant smear zone', values=v2)


def helpers(ctx):
    sp, re, rw, kh, qw, H, z = [sym(q) for q in ('sp', 're', 'rw', 'kh', 'qw', 'H', 'z')]
    pi = t.fn('pi')
    for pat, area in (('Triangle', t.div(t.fn('sqrt', num(3)), num(2))), ('Square', t.ONE), ('t', t.div(t.fn('sqrt', num(3)), num(2))), ('s', t.ONE)):
        c = Call(ctx, SZ, 're_from_drain_spacing', [sp], dict(pattern=pat))
        r = c.at()
        same(ctx, 'helpers', 're_from_drain_spacing [%s]' % pat, c.where, t.mul(pi, r, r), t.mul(area, sp, sp), 'the influence area is not the area per drain', tol=t.mpf(10) ** -12)
    a = Call(ctx, SZ, 'mu_well_resistance', [kh, qw, n, H])
    b = Call(ctx, SZ, 'mu_well_resistance', [kh, qw, n, H, z])
    v = vals(dict(kh=1.2, qw=3.0, n=9.0, H=6.0, z=2.0))
    same(ctx, 'helpers', 'mu_well_resistance average', a.where, t.mul(H, a.at()), integral(t.ZERO, H, t.subst(b.at(), {z: x}), x), 'the average well resistance is not the mean over depth', values=v)
    n2 = t.mul(n, n)
    same(ctx, 'helpers', 'mu_well_resistance at depth', b.where, b.at(), t.mul(pi, z, t.sub(t.mul(num(2), H), z), t.div(kh, qw), t.sub(t.ONE, t.div(t.ONE, n2))), 'well resistance at depth is not pi*z*(2H-z)*kh/qw*(1-1/n^2)', values=v)
    for f, args in (('mu_ideal', [n]), ('mu_constant', [n, s, kap]), ('mu_linear', [n, s, kap]), ('mu_parabolic', [n, s, kap])):
        for byname in (True, False):
            from sa.front import FuncV

            def setup(I, st, f=f, args=args, byname=byname):
                m, node, _ = ctx.func(SZ, f)
                return [re, f if byname else FuncV(m, node)] + args, dict(muw=muw)
            c = Call(ctx, SZ, 'drain_eta', setup=setup)
            mu = Call(ctx, SZ, f, args).at()
            same(ctx, 'helpers', 'drain_eta [%s, %s]' % (f, 'name' if byname else 'function'), c.where, c.at(), t.div(num(2), t.mul(re, re, t.add(mu, muw))), 'eta is not 2/(re^2*(mu+muw))', values=vals(dict(BASE, re=1.4)))
    iL, gamw, nf = sym('iL'), sym('gamw'), sym('nflow')
    hooks = {SZ + '.non_darcy_beta_ideal': lambda I, a, k, st, f: t.mk('call', 'beta', *[I.node(q, st) for q in list(a)[:1] + ([k['n']] if 'n' in k else []) + [k['nflow']]])}

    def setup(I, st):
        return [re, iL, gamw, 'non_darcy_beta_ideal', n], dict(nflow=nf)
    c = Call(ctx, SZ, 'non_darcy_drain_eta', setup=setup, hooks=hooks)
    beta = t.mk('call', 'beta', n, nf)
    m1 = t.sub(nf, t.ONE)
    spec = t.div(num(2), t.mul(re, re, t.pow_(beta, nf), t.pow_(t.mul(t.div(re, n), gamw), m1), nf, t.pow_(iL, m1)))
    same(ctx, 'helpers', 'non_darcy_drain_eta', c.where, c.at(), spec, 'the non-Darcy eta does not follow its definition', values=vals(dict(re=1.4, n=9, nflow=1.3, iL=5, gamw=9.8)))
    backcalc(ctx)


def elements(ctx):
    """array arguments: every element is what the scalar call gives, special cases in any position"""
    ctx.rule('elements', 'an array argument gives, element by element, the values of the scalar calls')
    special = {'general': {}, 's=kap': dict(kap='s'), 'kap=1': dict(kap=1), 's=1': dict(s=1)}
    for f in ('mu_ideal', 'mu_constant', 'mu_linear', 'mu_parabolic', 'mu_overlapping_linear'):
        nm = ['n'] if f == 'mu_ideal' else ['n', 's', 'kap']
        L = 3
        c = Call(ctx, SZ, f, [[sym('%s%d' % (a, i)) for i in range(L)] for a in nm])
        for pos in range(L):
            one = Call(ctx, SZ, f, [sym('%s%d' % (a, pos)) for a in nm])
            for other in range(L):
                for cn, tie in special.items():
                    if cn != 'general' and len(nm) == 1:
                        continue

                    def v(seed, other=other, tie=tie):
                        r = {}
                        for i in range(L):
                            b = pick((seed, i), BASE if not (f == 'mu_overlapping_linear' and i == 1) else dict(BASE, n=4., s=5.))
                            r.update({k + str(i): q for k, q in b.items() if k in nm})
                        for k, e in tie.items():
                            r[k + str(other)] = r[e + str(other)] if isinstance(e, str) else e
                        return r
                    same(ctx, 'elements', '%s element %d of %d [%s at %d]' % (f, pos + 1, L, cn, other + 1), c.where, c.at(pos), one.at(), 'an element differs from the scalar call', values=v, seeds=(1,))
    B = dict(BASE, si0=1.5, si1=6.5, si2=2.0, x0=1.5, x1=6.5, x2=2.0)
    prof = [('u_ideal', [n]), ('u_constant', [n, s, kap]), ('u_linear', [n, s, kap]), ('u_parabolic', [n, s, kap]), ('k_linear', [n, s, kap]), ('k_parabolic', [n, s, kap]),
            ('k_overlapping_linear', [n, s, kap]), ('u_piecewise_constant', [[s, n], [kap, muw]]), ('u_piecewise_linear', [[t.ONE, s, n], [kap, muw, kap]])]
    xs = [sym('si%d' % i) for i in range(3)]
    for f, a in prof:
        kw = dict(uavg=ua, uw=uw, muw=muw) if f[0] == 'u' else {}
        c = Call(ctx, SZ, f, a + [xs], kw)
        more = dict(vary=['uavg', 'uw']) if 'piecewise' in f else {}      # muw is a permeability there
        for i in range(3):
            one = Call(ctx, SZ, f, a + [[xs[i]]], kw)
            same(ctx, 'elements', '%s radius %d of 3' % (f, i + 1), c.where, c.at(i), one.at(0), 'the value at a radius depends on the other radii', values=vals(B), seeds=(1,), **more)


def backcalc(ctx):
    """the residual handed to the solver is eta(spacing)-eta and the outputs follow from its root"""
    from sa.front import FuncV, ExtV
    eta, rw, X = sym('eta'), sym('rw'), sym('X')
    for f, patt in (('mu_constant', 'Triangle'), ('mu_linear', 'Square'), ('mu_overlapping_linear', 'Square'), ('mu_piecewise_constant', 'Triangle')):
        got = {}

        def solve(I, args, kw, st, fn):
            names = ['func', 'x0', 'args']
            d = dict(zip(names, args))
            d.update(kw)
            extra = d.get('args')
            extra = st.store[extra.key] if extra is not None and hasattr(extra, 'key') else []
            got['res'] = I.call_func(d['func'], [I.new_list(st, [X]) if False else X] + list(extra), {}, st)
            got['I'], got['st'] = I, st
            return I.new_list(st, [X])
        pw = 'piecewise' in f

        def setup(I, st):
            m, node, _ = ctx.func(SZ, f)
            sv, kv = (s, kap) if not pw else (I.new_list(st, [s]), I.new_list(st, [kap]))
            return [eta, patt, FuncV(m, node), rw, sv, kv], dict(muw=muw)
        c = Call(ctx, SZ, 'back_calc_drain_spacing_from_eta', setup=setup, hooks={'scipy.optimize.fsolve': solve})
        re = Call(ctx, SZ, 're_from_drain_spacing', [X], dict(pattern=patt)).at()
        nn = t.div(re, rw)
        mu = Call(ctx, SZ, f, [nn, s, kap]).at() if not pw else Call(ctx, SZ, f, [[s], [kap]], dict(n=nn)).at()
        v = vals(dict(BASE, eta=2.0, rw=0.05, X=1.3))
        if 'res' not in got:
            ctx.undecided('helpers', 'back_calc_drain_spacing_from_eta [%s]' % f, 'solver call not recognised')
            continue
        res = got['I'].node(got['res'], got['st'])
        same(ctx, 'helpers', 'back_calc_drain_spacing_from_eta residual [%s]' % f, c.where, t.add(res, eta), t.div(num(2), t.mul(re, re, t.add(mu, muw))), 'the solved equation is not drain_eta(spacing) = eta', values=v)
        for i, (nm, spec) in enumerate((('spacing', X), ('re', re), ('n', nn))):
            it = c.item(i)
            it = it if isinstance(it, t.Node) else t.unk('result')
            same(ctx, 'helpers', 'back_calc_drain_spacing_from_eta %s [%s]' % (nm, f), c.where, it, spec, 'a returned value does not follow from the solved spacing', values=v)
