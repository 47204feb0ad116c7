"""speccon1d_vrw: pore pressures in soil and drain and settlements with well resistance are the Galerkin solution of the documented equations"""
from sa import terms as t
from sa import spec as sp
from sa.spec import BC, Galerkin, K, TH, DAB, mm, madd, mscale, sins, vscale, basis, mag, col
from sa.terms import num, ZERO, ONE, add, mul, neg
from props.c36 import Case, compare, shape_of, system, point_loads, vr_system, settlement, por_avg

TECHNIQUE = ('Abstract interpretation of the whole program run (system assembly with the drain unknown eliminated, load vectors, output) into value graphs in which depth '
             'integrals and time responses are uninterpreted multilinear functionals; compared with the Galerkin form of the documented equations by random interpretation.')
MOD = 'geotecha.speccon.speccon1d_vrw'
s = t.sym

CONFIGS = [
    ('everything, both ends drained', 0, dict(v=1, surch=2, top=2, bot=2, fix=2, pump=2, cyc=1)),
    ('everything, impervious base', 1, dict(v=1, surch=2, top=2, bot=2, fix=2, pump=2, cyc=1)),
    ('no vertical drainage in the soil', 0, dict(surch=1, top=1, bot=1)),
    ('surcharge only', 1, dict(v=1, surch=1)),
    ('top pore pressure only', 0, dict(v=1, top=1)),
    ('bottom gradient only', 1, dict(v=1, bot=1)),
    ('bottom pore pressure only', 0, dict(v=1, bot=1)),
    ('fixed pore pressure only', 1, dict(v=1, fix=1)),
    ('pumping only', 0, dict(v=1, pump=1)),
    ('zero vertical time factor', 0, dict(v=1, surch=1, top=1, bot=1, dTv0=1)),
    ('three terms', 0, dict(v=1, surch=1, top=1, neig=3)),
    ('at load steps', 0, dict(v=1, surch=1, top=1, bot=1, steps=1)),
    ('at load steps, impervious base', 1, dict(v=1, surch=2, top=2, bot=2, cyc=1, steps=1)),
    ('selected output times', 1, dict(v=1, surch=1, top=1, bot=1, tsel=1)),
    ('unit time factors', 0, dict(v=1, surch=1, top=1, bot=1, unit=1)),
]


def check(ctx):
    ctx.rule('system', 'the matrix whose eigen system is used is gam^-1 psi with psi = psi0 - S psi_w^-1 S')
    ctx.rule('por', 'pore pressure in the soil at depth')
    ctx.rule('porwell', 'pore pressure in the drain = phi psi_w^-1 (S u + dTw/dT theta) + boundary pressure')
    ctx.rule('avp', 'average pore pressure in the soil between depths')
    ctx.rule('set', 'settlement = H mvref * integral of mv (surcharge - u) over the interval')
    ctx.rule('shape', 'one row per depth or interval, one column per selected time')
    ctx.assumptions += ['two or three series terms, two layers, up to two loads of each kind and two output times; all values symbolic',
                        'depth integrals and time responses are uninterpreted multilinear functionals (their values are decided by C08 and C10)',
                        'the eigen decomposition returned by numpy is taken as given']
    ctx.parallel([lambda c=c: one(ctx, *c) for c in CONFIGS])


def one(ctx, label, drn, f):
    case = Case(ctx, MOD, 'Speccon1dVRW', drn, f.get('neig', 2), bool(f.get('steps')))
    g = f.get
    cy = lambda k: [0, 1][:k] if g('cyc') else None
    case.depth('mv', 'kh', 'et', 'kw')
    mv, kh, et, kw = [case.data[n] for n in ('mv', 'kh', 'et', 'kw')]
    dTh, dTw = s('dTh'), ONE if g('unit') else s('dTw')
    case.o.set(dTh=dTh, dTw=dTw)
    kv = dTv = None
    if g('v'):
        case.depth('kv')
        kv, dTv = case.data['kv'], ZERO if g('dTv0') else ONE if g('unit') else s('dTv')
        case.o.set(dTv=dTv)
    surch = case.loads('surcharge_vs_time', g('surch'), cy(2), 'surcharge_vs_depth', 'surcharge_omega_phase') if g('surch') else []
    top = case.loads('top_vs_time', g('top'), cy(2), None, 'top_omega_phase') if g('top') else []
    bot = case.loads('bot_vs_time', g('bot'), cy(2), None, 'bot_omega_phase') if g('bot') else []
    fixed = point_loads(case, 'fixed_ppress', g('fix'), cy(2), True) if g('fix') else []
    pump = point_loads(case, 'pumping', g('pump'), cy(2), False) if g('pump') else []
    case.o.set(ppress_z=list(case.zz), avg_ppress_z_pairs=[list(p) for p in case.pairs], settlement_z_pairs=[list(p) for p in case.pairs])
    jp = ja = js = None
    if g('tsel'):
        jp, ja, js = [1], [0], [1]
        case.o.set(ppress_z_tval_indexes=[1], avg_ppress_z_pairs_tval_indexes=[0], settlement_z_pairs_tval_indexes=[1])
    case.run()
    ms = basis(case.neig, drn)
    gam, psi, S = vr_system(case, ms, mv, kv, kh, et, dTv, dTh, fixed)
    w = t.div(dTw, case.dT)
    psiw = madd(S, [[K('dim1sin_D_aDf_linear', [kw], p, q) for q in ms] for p in ms], neg(w))
    Iw = sp.inv(psiw)
    SI = mm(S, Iw)
    psi = madd(psi, mm(SI, S), num(-1))
    G = Galerkin(ms, gam, psi, case.dT, case.tv)
    bc = BC(drn, case.H, top, bot)
    for ln, c, shp in surch:
        G.load([TH('th2', [mv, shp], m) for m in ms], 'ED', ln, c)
    for z, k, ln, c in fixed:
        G.load(vscale(k, sins(ms, z)), 'E', ln, c)
    for z, k, ln, c in pump:
        G.load(vscale(t.div(ONE, mul(case.mvref, case.H)), sins(ms, z)), 'E', ln, c)
    drain = lambda wh: [DAB(kw, bc.shape(wh, kw), m) for m in ms]
    for ln, c, wh in bc:
        G.load([neg(TH('th2', [mv, bc.shape(wh, mv)], m)) for m in ms], 'ED', ln, c)
        if kv is not None:
            G.load(vscale(dTv, [DAB(kv, bc.shape(wh, kv), m) for m in ms]), 'E', ln, c)
        for z, k, l2, c2 in fixed:
            G.load(vscale(neg(mul(k, bc.depth(wh, z))), sins(ms, z)), 'E', ln, c)
        G.load(vscale(dTw, [r[0] for r in mm(SI, col(drain(wh)))]), 'E', ln, c)
    system(ctx, case, label, G)
    u = G.solve()
    ch = case.choose()
    js_ = lambda js: js if js is not None else range(len(case.tv))
    por, _ = por_avg(case, u, bc, ms, ch, case.zz, [], jp)
    _, avp = por_avg(case, u, bc, ms, ch, [], case.pairs, ja)
    uw = mm(Iw, mm(S, u))
    for j in range(len(case.tv)):
        for ln, c, wh in bc:
            th = mm(Iw, col(drain(wh)))
            for p in range(case.neig):
                uw[p][j] = add(uw[p][j], mul(w, th[p][0], mag(ln, c, case.tv[j], ch)))
    well, _ = por_avg(case, uw, bc, ms, ch, case.zz, [], jp)
    hm = mul(case.H, case.mvref)
    st = [[mul(hm, settlement(case, mv, u, bc, surch, ms, z1, z2, j, ch)) for j in js_(js)] for z1, z2 in case.pairs]
    out = [('por', por, 'pore pressure is not the sum of the sine terms and the boundary pressure'),
           ('avp', avp, 'average pore pressure is not the mean of the pore pressure over the interval'),
           ('set', st, 'settlement is not H mvref times the integral of mv (surcharge - pore pressure)'),
           ('porwell', well, 'drain pore pressure does not satisfy the flow balance of the drain')]
    for attr, want, msg in out:
        shape_of(ctx, case, label, attr, len(want), len(want[0]))
        compare(ctx, case, label, attr, want, msg)
