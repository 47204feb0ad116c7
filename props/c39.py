"""speccon1d_unsat: air and water pressures and settlements are the Galerkin solution of the documented coupled equations"""
from sa import terms as t
from sa import spec as sp
from sa.spec import BC, Galerkin, K, TH, DAB, P, INT, madd, mscale, sins, vscale, basis, mag, block, zeros
from sa.terms import num, ZERO, ONE, add, sub, mul, neg
from props.c36 import Case, compare, shape_of, system, por_avg

TECHNIQUE = ('Abstract interpretation of the whole program run (block system, load vectors per phase, output) into value graphs in which depth integrals and time '
             'responses are uninterpreted multilinear functionals; compared with the Galerkin form of the documented equations by random interpretation.')
MOD = 'geotecha.speccon.speccon1d_unsat'
s = t.sym

CONFIGS = [
    ('everything, both ends drained', 0, dict(surch=2, wtop=2, wbot=2, atop=2, abot=2, cyc=1)),
    ('everything, impervious base', 1, dict(surch=2, wtop=2, wbot=2, atop=2, abot=2, cyc=1)),
    ('surcharge only', 0, dict(surch=1)),
    ('top water pressure only', 0, dict(wtop=1)),
    ('bottom water gradient only', 1, dict(wbot=1)),
    ('top air pressure only', 1, dict(atop=1)),
    ('bottom air pressure only', 0, dict(abot=1)),
    ('air boundary pressures', 0, dict(surch=1, atop=1, abot=1)),
    ('water boundary pressures', 1, dict(surch=1, wtop=1, wbot=1)),
    ('no vertical water flow', 0, dict(surch=1, wtop=1, atop=1, dTw0=1)),
    ('no vertical air flow', 0, dict(surch=1, wtop=1, atop=1, dTa0=1)),
    ('three terms', 0, dict(surch=1, wtop=1, abot=1, neig=3)),
    ('at load steps', 0, dict(surch=1, wtop=1, abot=1, steps=1)),
    ('at load steps, impervious base', 1, dict(surch=2, wtop=2, abot=2, wbot=2, atop=2, cyc=1, steps=1)),
    ('selected output times', 1, dict(surch=1, wtop=1, abot=1, tsel=1)),
    ('unit time factors', 0, dict(surch=1, wtop=1, atop=1, wbot=1, abot=1, unit=1)),
]


def check(ctx):
    ctx.rule('system', 'the matrix whose eigen system is used is gam^-1 psi of the coupled air and water equations')
    for a, what in (('porw', 'water pressure at depth'), ('pora', 'air pressure at depth'), ('avpw', 'average water pressure'), ('avpa', 'average air pressure'),
                    ('setw', 'settlement from the water strain m1kw (sigma - ua) + m2w (ua - uw)'), ('seta', 'settlement from the air strain m1ka (sigma - ua) + m2a (ua - uw)'),
                    ('set', 'total settlement = air part + water part'), ('shape', 'one row per depth or interval, one column per selected time')):
        ctx.rule(a, what)
    ctx.assumptions += ['two or three series terms per phase, two layers, up to two loads of each kind and two output times; all values symbolic',
                        'depth integrals and time responses are uninterpreted multilinear functionals (their values are decided by C08 and C10)',
                        'the eigen decomposition returned by numpy is taken as given']
    ctx.parallel([lambda c=c: one(ctx, *c) for c in CONFIGS])


def one(ctx, label, drn, f):
    case = Case(ctx, MOD, 'Speccon1dUnsat', drn, f.get('neig', 2), bool(f.get('steps')))
    g = f.get
    cy = lambda k: [0, 1][:k] if g('cyc') else None
    case.depth('m1kw', 'm2w', 'm1ka', 'm2a', 'n', 'S', 'kw', 'Da')
    m1kw, m2w, m1ka, m2a, n, S, kw, Da = [case.data[q] for q in ('m1kw', 'm2w', 'm1ka', 'm2a', 'n', 'S', 'kw', 'Da')]
    dTw, dTa, ua_ = ZERO if g('dTw0') else ONE if g('unit') else s('dTw'), ZERO if g('dTa0') else ONE if g('unit') else s('dTa'), s('ua_')
    case.o.set(dTw=dTw, dTa=dTa, ua_=ua_)
    surch = case.loads('surcharge_vs_time', g('surch'), cy(2), 'surcharge_vs_depth', 'surcharge_omega_phase') if g('surch') else []
    B = {}
    for q in ('wtop', 'wbot', 'atop', 'abot'):
        B[q] = case.loads(q + '_vs_time', g(q), cy(2), None, q + '_omega_phase') if g(q) else []
    case.o.set(ppress_z=list(case.zz), avg_ppress_z_pairs=[list(p) for p in case.pairs], settlement_z_pairs=[list(p) for p in case.pairs])
    jp = ja = js = None
    if g('tsel'):
        jp, ja, js = [1], [0], [1]
        case.o.set(ppress_z_tval_indexes=[1], avg_ppress_z_pairs_tval_indexes=[0], settlement_z_pairs_tval_indexes=[1])
    case.run()
    ms = basis(case.neig, drn)
    ne = case.neig
    # storage terms (coefficient of the rate of water and of air pressure) of both equations, as lists of (factor, lines)
    um = t.div(ONE, mul(ua_, case.mvref))
    store = {('w', 'w'): [(ONE, [m2w])], ('w', 'a'): [(ONE, [m1kw]), (num(-1), [m2w])],
             ('a', 'w'): [(ONE, [m2a])], ('a', 'a'): [(ONE, [m1ka]), (num(-1), [m2a]), (neg(um), [n]), (um, [n, S])]}
    flow = {'w': (dTw, kw), 'a': (dTa, Da)}
    KN = {1: 'dim1sin_af_linear', 2: 'dim1sin_abf_linear'}
    mat = lambda e, u: [[add(*[mul(k, K(KN[len(L)], L, p, q)) for k, L in store[e, u]]) for q in ms] for p in ms]
    gam = block([[mat('w', 'w'), mat('w', 'a')], [mat('a', 'w'), mat('a', 'a')]])
    D = lambda e: mscale(t.div(flow[e][0], case.dT), [[K('dim1sin_D_aDf_linear', [flow[e][1]], p, q) for q in ms] for p in ms])
    psi = block([[D('w'), zeros(ne)], [zeros(ne), D('a')]])
    G = Galerkin(ms + ms, gam, psi, case.dT, case.tv)
    bc = {'w': BC(drn, case.H, B['wtop'], B['wbot']), 'a': BC(drn, case.H, B['atop'], B['abot'])}
    no = [ZERO] * ne
    put = lambda e, v: list(v) + no if e == 'w' else no + list(v)
    for ln, c, shp in surch:
        for e, a in (('w', m1kw), ('a', m1ka)):
            G.load(put(e, [TH('th2', [a, shp], m) for m in ms]), 'ED', ln, c)
    for u in 'wa':
        for ln, c, wh in bc[u]:
            for e in 'wa':
                for k, L in store[e, u]:
                    G.load(put(e, vscale(neg(k), [TH('th%d' % (len(L) + 1), L + [bc[u].shape(wh, L[0])], m) for m in ms])), 'ED', ln, c)
            k, a = flow[u]
            G.load(put(u, vscale(neg(k), [DAB(a, bc[u].shape(wh, a), m) for m in ms])), 'E', ln, c)
    system(ctx, case, label, G)
    u = G.solve()
    ch = case.choose()
    U = {'w': u[:ne], 'a': u[ne:]}
    for e in 'wa':
        por, _ = por_avg(case, U[e], bc[e], ms, ch, case.zz, [], jp)
        _, avp = por_avg(case, U[e], bc[e], ms, ch, [], case.pairs, ja)
        nm = {'w': 'water', 'a': 'air'}[e]
        for attr, want, msg in (('por' + e, por, nm + ' pressure is not the sum of the sine terms and the boundary pressure'),
                                ('avp' + e, avp, 'average %s pressure is not the mean of the pressure over the interval' % nm)):
            shape_of(ctx, case, label, attr, len(want), len(want[0]))
            compare(ctx, case, label, attr, want, msg)
    hm = mul(case.H, case.mvref)
    press = lambda e, a, z1, z2, j: add(*[mul(P(a, m, z1, z2), U[e][p][j]) for p, m in enumerate(ms)] + [bc[e].integral(a, z1, z2, case.tv[j], ch)])

    def strain(m1, m2, z1, z2, j):
        r = add(*[mul(INT(shape, m1, z1, z2), mag(ln, c, case.tv[j], ch)) for ln, c, shape in surch])
        r = sub(r, press('a', m1, z1, z2, j))
        return mul(hm, add(r, sub(press('a', m2, z1, z2, j), press('w', m2, z1, z2, j))))
    J = js if js is not None else range(len(case.tv))
    sw = [[strain(m1kw, m2w, z1, z2, j) for j in J] for z1, z2 in case.pairs]
    sa = [[strain(m1ka, m2a, z1, z2, j) for j in J] for z1, z2 in case.pairs]
    for attr, want, msg in (('setw', sw, 'water settlement is not the integral of m1kw (sigma - ua) + m2w (ua - uw)'),
                            ('seta', sa, 'air settlement is not the integral of m1ka (sigma - ua) + m2a (ua - uw)'),
                            ('set', madd(sw, sa), 'settlement is not the sum of the air and water parts')):
        shape_of(ctx, case, label, attr, len(want), len(want[0]))
        compare(ctx, case, label, attr, want, msg)
