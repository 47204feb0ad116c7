"""speccon1d building blocks: every option of the functions the spectral programs (and users' own programs) are made of"""
from sa import terms as t
from sa import spec as sp
from sa.spec import World, BC, TH, DAB, P, INT, sins, vscale, avg_basis, mag, response, E, mm, col
from sa.scal import Call, A, same
from sa.terms import num, ZERO, ONE, add, mul
from sa.front import ExtV, SliceV
from props.c36 import VALUES

TECHNIQUE = ('Abstract interpretation of each building block into value graphs in which depth integrals and time responses are uninterpreted multilinear functionals; '
             'the graphs are compared with the documented matrix product by random interpretation, for every combination of options.')
MOD = 'geotecha.speccon.speccon1d'
s = t.sym
N = 3
BLOCKS = {
    # name: (depth lines, kind of response, theta of (lines, shape, m), sign)
    'BC_aDfDt_linear': (1, 'ED', lambda L, shp, m: TH('th2', L + [shp], m)),
    'BC_abf_linear': (2, 'E', lambda L, shp, m: TH('th3', L + [shp], m)),
    'BC_abDfDt_linear': (2, 'ED', lambda L, shp, m: TH('th3', L + [shp], m)),
    'BC_D_aDf_linear': (1, 'E', lambda L, shp, m: DAB(L[0], shp, m)),
}
LOADS = {'aDmagDt_bilinear': (1, 'ED', 'th2'), 'abmag_bilinear': (2, 'E', 'th3')}


def check(ctx):
    ctx.rule('load', 'E Igamv theta of the documented term: response to each line, times Igamv, times theta, summed over the lines')
    ctx.rule('extra', 'f(t) Ipsiw theta of the documented term')
    ctx.rule('output', 'pressure, mean pressure and weighted integral = sum of the sine terms and the boundary pressure')
    ctx.assumptions += ['three series terms, two layers, up to two lines of each kind and two times; all values symbolic',
                        'depth integrals and time responses are uninterpreted multilinear functionals (their values are decided by C08 and C10)']
    th = []
    for drn in (0, 1):
        for name in BLOCKS:
            th.append(lambda drn=drn, name=name: boundary(ctx, name, drn))
        th += [lambda drn=drn: deltaf(ctx, drn), lambda drn=drn: foft(ctx, drn), lambda drn=drn: outputs(ctx, drn)]
    for name in LOADS:
        th.append(lambda name=name: loads(ctx, name))
    th += [lambda: deltamag(ctx), lambda: moving(ctx)]
    ctx.parallel(th)


class Env(object):
    """symbols shared by the call and the specification"""

    def __init__(self):
        self.W = World(True)
        self.m = [s('m%d' % i) for i in range(N)]
        self.lam = [s('lam%d' % i) for i in range(N)]
        self.tv = [s('t0'), s('t1')]
        self.Ig = [[s('g%d%d' % (i, j)) for j in range(N)] for i in range(N)]
        self.dT = s('dT')
        self.common = [A(self.m), A(self.lam), A(self.tv), A([list(r) for r in self.Ig])]

    def call(self, ctx, name, args, kw, hooks=None):
        """Line values among the arguments become PolyLine objects"""
        def conv(I, st, v):
            if isinstance(v, sp.Line):
                return self.W.obj(I, st, v)
            if isinstance(v, A):
                return A([conv(I, st, x) for x in v])
            if isinstance(v, list):
                return [conv(I, st, x) for x in v]
            if isinstance(v, tuple):
                return tuple(conv(I, st, x) for x in v)
            return v
        h = dict(self.W.hooks)
        h.update(hooks or {})
        return Call(ctx, MOD, name, hooks=h, setup=lambda I, st: ([conv(I, st, a) for a in args], {k: conv(I, st, v) for k, v in kw.items()}))

    def zeros(self):
        return [[ZERO] * len(self.tv) for i in range(N)]

    def term(self, out, theta, kind, ln, cyc, zero=()):
        th = [ZERO if p in zero else v for p, v in enumerate(theta)]
        g = mm(self.Ig, col(th))
        for e in range(N):
            for j, tt in enumerate(self.tv):
                out[e][j] = add(out[e][j], mul(g[e][0], response(kind, ln, cyc, mul(self.dT, self.lam[e]), tt)))


def lines(nm, n, cyc):
    """[(line, omega and phase)]"""
    return [(sp.time('%s%d' % (nm, k)), (s('%s.om%d' % (nm, k)), s('%s.ph%d' % (nm, k))) if cyc and cyc[k] else None) for k in range(n)]


def compare(ctx, rule, label, c, want, msg):
    for i, r in enumerate(want):
        for j, w in enumerate(r):
            same(ctx, rule, '%s [%d,%d]' % (label, i, j), c.where, add(c.at(i, j), ONE), add(w, ONE), msg, values=VALUES, seeds=(1, 2, 3) if ctx.thorough else (1,))


# label, lines at the top, at the bottom, cyclic flags (None: argument left out), dT given, entries of theta set to zero
CASES = [('top and bottom, cyclic and not', 2, 2, [0, 1], True, None), ('top only', 1, 0, None, True, None), ('bottom only', 0, 1, None, True, None),
         ('all cyclic, theta entries from 1 on zero', 2, 2, [1, 1], True, slice(1, None)), ('theta entries up to 2 zero', 1, 1, [0, 0], True, slice(None, 2)),
         ('theta entries listed', 1, 1, [1, 0], True, [0, 2]), ('dT left out', 1, 1, None, False, None), ('two of each, no phases', 2, 2, None, True, None), ('neither', 0, 0, None, True, None)]


def zero_of(z):
    return () if z is None else tuple(range(N))[z] if isinstance(z, slice) else tuple(z)


def zarg(z):
    return SliceV(None if z.start is None else num(z.start), None if z.stop is None else num(z.stop), None) if isinstance(z, slice) else z


def setup(case):
    label, nt, nb, cyc, dT, zero = case
    e = Env()
    top, bot = lines('top', nt, cyc), lines('bot', nb, cyc)
    kw = {}
    if cyc is not None:
        kw['top_omega_phase'] = [c for l, c in top] if top else None
        kw['bot_omega_phase'] = [c for l, c in bot] if bot else None
    if dT:
        kw['dT'] = e.dT
    else:
        e.dT = ONE
    if zero is not None:
        kw['theta_zero_indexes'] = zarg(zero)
    return e, top, bot, [l for l, c in top] if top else None, [l for l, c in bot] if bot else None, kw, zero_of(zero)


def boundary(ctx, name, drn):
    n, kind, theta = BLOCKS[name]
    full = 'dim1sin_E_Igamv_the_' + name
    for case in CASES:
        e, top, bot, ta, ba, kw, zero = setup(case)
        L = [sp.depth(q) for q in ('ca', 'cb')[:n]]
        c = e.call(ctx, full, [num(drn)] + e.common + list(L) + [ta, ba], kw)
        bc = BC(drn, ONE, top, bot)
        out = e.zeros()
        for ln, cyc, w in bc:
            e.term(out, [theta(L, bc.shape(w, L[0]), m) for m in e.m], kind, ln, cyc, zero)
        compare(ctx, 'load', '%s [drn=%d, %s]' % (full, drn, case[0]), c, out, 'not the response to the boundary values times Igamv theta of the documented term')
        if case[0].startswith('top and'):
            for k in range(n):
                args = list(L)
                args[k] = None
                c = e.call(ctx, full, [num(drn)] + e.common + args + [ta, ba], kw)
                compare(ctx, 'load', '%s [drn=%d, coefficient absent]' % (full, drn), c, e.zeros(), 'an absent coefficient contributes')


def deltaf(ctx, drn):
    full = 'dim1sin_E_Igamv_the_BC_deltaf_linear'
    for case in CASES:
        e, top, bot, ta, ba, kw, zero = setup(case)
        zz, kk = [s('zf0'), s('zf1')], [s('k0'), s('k1')]
        c = e.call(ctx, full, [num(drn)] + e.common + [list(zz), list(kk), ta, ba], kw)
        bc = BC(drn, ONE, top, bot)
        out = e.zeros()
        for ln, cyc, w in bc:
            for z, k in zip(zz, kk):
                e.term(out, vscale(mul(k, bc.depth(w, z)), sins(e.m, z)), 'E', ln, cyc, zero)
        compare(ctx, 'load', '%s [drn=%d, %s]' % (full, drn, case[0]), c, out, 'not the response to the boundary values times Igamv theta at the given depths')


def foft(ctx, drn):
    full = 'dim1sin_foft_Ipsiw_the_BC_D_aDf_linear'
    for case in CASES:
        e, top, bot, ta, ba, kw, zero = setup(case)
        kw.pop('dT', None)
        a = sp.depth('ca')
        c = e.call(ctx, full, [num(drn)] + e.common + [a, ta, ba], kw)
        bc = BC(drn, ONE, top, bot)
        out = e.zeros()
        for ln, cyc, w in bc:
            th = [ZERO if p in zero else DAB(a, bc.shape(w, a), m) for p, m in enumerate(e.m)]
            g = mm(e.Ig, col(th))
            for i in range(N):
                for j, tt in enumerate(e.tv):
                    out[i][j] = add(out[i][j], mul(g[i][0], mag(ln, cyc, tt, True)))
        compare(ctx, 'extra', '%s [drn=%d, %s]' % (full, drn, case[0]), c, out, 'not the boundary values at each time times Ipsiw theta')
    c = e.call(ctx, full, [num(drn)] + e.common + [None, ta, ba], {})
    compare(ctx, 'extra', '%s [drn=%d, coefficient absent]' % (full, drn), c, e.zeros(), 'an absent coefficient contributes')


def loads(ctx, name):
    n, kind, th = LOADS[name]
    full = 'dim1sin_E_Igamv_the_' + name
    for label, nl, cyc, dT, zero in (('one load', 1, None, True, None), ('two loads, cyclic and not', 2, [0, 1], True, None), ('two cyclic loads, theta entries zero', 2, [1, 1], True, slice(1, None)),
                                     ('dT left out', 2, [1, 0], False, None), ('theta entries listed', 1, [0], True, [1]), ('theta entries up to 2 zero', 2, None, True, slice(None, 2))):
        e = Env()
        ld = lines('mag', nl, cyc)
        dep = [sp.depth('shape%d' % k) for k in range(nl)]
        L = [sp.depth(q) for q in ('ca', 'cb')[:n]]
        kw = {}
        if cyc is not None:
            kw['omega_phase'] = [c for l, c in ld]
        if dT:
            kw['dT'] = e.dT
        else:
            e.dT = ONE
        if zero is not None:
            kw['theta_zero_indexes'] = zarg(zero)
        c = e.call(ctx, full, e.common + list(L) + [list(dep), [l for l, q in ld]], kw)
        out = e.zeros()
        for (ln, q), d in zip(ld, dep):
            e.term(out, [TH(th, L + [d], m) for m in e.m], kind, ln, q, zero_of(zero))
        compare(ctx, 'load', '%s [%s]' % (full, label), c, out, 'not the response to the load times Igamv theta of the documented term')
    c = e.call(ctx, full, e.common + list(L) + [None, [l for l, q in ld]], {})
    compare(ctx, 'load', '%s [no depth distribution]' % full, c, e.zeros(), 'an absent load contributes')
    c = e.call(ctx, full, e.common + list(L) + [list(dep), None], {})
    compare(ctx, 'load', '%s [no magnitudes]' % full, c, e.zeros(), 'an absent load contributes')


def deltamag(ctx):
    full = 'dim1sin_E_Igamv_the_deltamag_linear'
    for label, nl, cyc, dT, zero, skip in (('one', 1, None, True, None, None), ('two, cyclic and not', 2, [0, 1], True, None, None), ('two, one without magnitude', 2, [1, 0], True, slice(1, None), 0),
                                           ('dT left out', 2, [1, 0], False, None, None), ('theta entries listed', 2, [0, 0], True, [0, 2], None)):
        e = Env()
        ld = lines('mag', nl, cyc)
        zz, kk = [s('zf0'), s('zf1')][:nl], [s('k0'), s('k1')][:nl]
        kw = {}
        if cyc is not None:
            kw['omega_phase'] = [c for l, c in ld]
        if dT:
            kw['dT'] = e.dT
        else:
            e.dT = ONE
        if zero is not None:
            kw['theta_zero_indexes'] = zarg(zero)
        c = e.call(ctx, full, e.common + [list(zz), list(kk), [None if k == skip else l for k, (l, q) in enumerate(ld)]], kw)
        out = e.zeros()
        for i, ((ln, q), z, k) in enumerate(zip(ld, zz, kk)):
            if i != skip:
                e.term(out, vscale(k, sins(e.m, z)), 'E', ln, q, zero_of(zero))
        compare(ctx, 'load', '%s [%s]' % (full, label), c, out, 'not the response to the magnitudes times Igamv theta at the given depths')


def moving(ctx):
    full = 'dim1sin_E_Igamv_the_mvpl'
    for label, nv, dT, zero in (('one vehicle', 1, True, None), ('two vehicles', 2, True, None), ('dT left out', 1, False, None), ('theta entries zero', 2, True, slice(1, None))):
        e = Env()
        veh = [[(sp.time('v%d.%d' % (i, k)), (s('v%d.om%d' % (i, k)), s('v%d.ph%d' % (i, k)))) for k in range(2)] for i in range(nv)]
        hooks = {}
        for i in range(nv):
            def give(I, args, kw, st, f, i=i):
                return I.new_list(st, [I.new_list(st, [e.W.obj(I, st, l) for l, q in veh[i]]), I.new_list(st, [I.new_list(st, list(q), True) for l, q in veh[i]])], True)
            hooks['vehicle%d.convert_to_specbeam' % i] = give
        kw = {}
        if dT:
            kw['dT'] = e.dT
        else:
            e.dT = ONE
        if zero is not None:
            kw['theta_zero_indexes'] = zarg(zero)
        c = e.call(ctx, full, e.common + [[ExtV('vehicle%d' % i) for i in range(nv)]], kw, hooks)
        out = e.zeros()
        for v in veh:
            for ln, (om, ph) in v:
                for p, m in enumerate(e.m):
                    if p not in zero_of(zero):
                        for i in range(N):
                            for j, tt in enumerate(e.tv):
                                out[i][j] = add(out[i][j], mul(e.Ig[i][p], E('Eload_sinlinear', ln, mul(e.dT, e.lam[i]), tt, mul(om, m), mul(ph, m))))
        compare(ctx, 'load', '%s [%s]' % (full, label), c, out, 'not the response to each moving load with its own frequency and phase')


def outputs(ctx, drn):
    zz = [s('z0'), s('z1')]
    pairs = [(s('za'), s('zc')), (s('zd'), s('ze'))]
    half = num(t.Fraction(1, 2))
    for case in CASES:
        if case[4] is False or case[5] is not None:
            continue
        e, top, bot, ta, ba, kw, zero = setup(case)
        kw.pop('dT')
        for k, v in (('top_vs_time', ta), ('bot_vs_time', ba)):
            if v is not None:
                kw[k] = v
        v = [[s('v%d%d' % (i, j)) for j in range(2)] for i in range(N)]
        bc = BC(drn, ONE, top, bot)
        modes = lambda phi: [add(*[mul(f, v[p][j]) for p, f in enumerate(phi)]) for j in range(2)]
        V = A([list(r) for r in v])
        m, tv = A(e.m), A(e.tv)
        c = e.call(ctx, 'dim1sin_f', [m, A(zz), tv, V, num(drn)], kw)
        compare(ctx, 'output', 'dim1sin_f [drn=%d, %s]' % (drn, case[0]), c, [[add(x, bc.value(z, e.tv[j], True)) for j, x in enumerate(modes(sins(e.m, z)))] for z in zz],
                'not the sum of the sine terms and the boundary pressure')
        P2 = A([list(p) for p in pairs])
        c = e.call(ctx, 'dim1sin_avgf', [m, P2, tv, V, num(drn)], kw)
        compare(ctx, 'output', 'dim1sin_avgf [drn=%d, %s]' % (drn, case[0]), c,
                [[add(x, mul(half, add(bc.value(p, e.tv[j], True), bc.value(q, e.tv[j], True)))) for j, x in enumerate(modes([avg_basis(m_, p, q) for m_ in e.m]))] for p, q in pairs],
                'not the mean of the pressure over the interval')
        a = sp.depth('ca')
        c = e.call(ctx, 'dim1sin_integrate_af', [m, P2, tv, V, num(drn), a], kw)
        compare(ctx, 'output', 'dim1sin_integrate_af [drn=%d, %s]' % (drn, case[0]), c,
                [[add(x, bc.integral(a, p, q, e.tv[j], True)) for j, x in enumerate(modes([P(a, m_, p, q) for m_ in e.m]))] for p, q in pairs],
                'not the integral of a times the pressure over the interval')
