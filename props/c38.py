"""speccon1d_vrc: soil, column and overall pore pressures with stone columns are the Galerkin solution of the documented equations"""
from sa import terms as t
from sa import spec as sp
from sa.spec import BC, Galerkin, K, TH, DAB, mm, madd, mscale, vscale, vadd, basis, mag, col, block, zeros, eye
from sa.terms import num, ZERO, ONE, add, sub, mul, neg
from props.c36 import Case, compare, shape_of, system, settlement, por_avg

TECHNIQUE = ('Abstract interpretation of the whole program run (elimination of the soil, column and interface pressures, load vectors, output) into value graphs in which '
             'depth integrals and time responses are uninterpreted multilinear functionals; compared with the Galerkin form of the documented equations by random interpretation.')
MOD = 'geotecha.speccon.speccon1d_vrc'
s = t.sym

CONFIGS = [
    ('everything, both ends drained', 0, dict(surch=2, top=2, bot=2, cyc=1)),
    ('everything, impervious base', 1, dict(surch=2, top=2, bot=2, cyc=1)),
    ('surcharge only', 0, dict(surch=1)),
    ('top pore pressure only', 0, dict(top=1)),
    ('bottom gradient only', 1, dict(bot=1)),
    ('bottom pore pressure only', 0, dict(bot=1)),
    ('no vertical flow in the soil', 0, dict(surch=1, top=1, bot=1, dTv0=1)),
    ('no vertical flow in the column', 0, dict(surch=1, top=1, bot=1, dTvc0=1)),
    ('three terms', 0, dict(surch=1, top=1, neig=3)),
    ('at load steps', 0, dict(surch=1, top=1, bot=1, steps=1)),
    ('at load steps, impervious base', 1, dict(surch=2, top=2, bot=2, cyc=1, steps=1)),
    ('selected output times', 1, dict(surch=1, top=1, bot=1, tsel=1)),
    ('unit time factors', 0, dict(surch=1, top=1, bot=1, unit=1)),
]


def check(ctx):
    ctx.rule('system', 'the matrix whose eigen system is used is gam^-1 psi with soil, column and interface pressures eliminated')
    for a, what in (('por', 'overall average pressure at depth'), ('pors', 'soil pressure at depth'), ('porc', 'column pressure at depth'),
                    ('avp', 'overall average pressure between depths'), ('avps', 'soil pressure between depths'), ('avpc', 'column pressure between depths'),
                    ('set', 'settlement = H mvref * integral of mv (surcharge - u) over the interval'),
                    ('shape', 'one row per depth or interval, one column per selected time')):
        ctx.rule(a, what)
    ctx.assumptions += ['two (or three) series terms, two layers, up to two loads of each kind and two output times; all values symbolic',
                        'depth integrals and time responses are uninterpreted multilinear functionals (their values are decided by C08 and C10)',
                        'the eigen decomposition returned by numpy is taken as given']
    ctx.parallel([lambda c=c: one(ctx, *c) for c in CONFIGS])


def one(ctx, label, drn, f):
    case = Case(ctx, MOD, 'Speccon1dVRC', drn, f.get('neig', 2), bool(f.get('steps')))
    g = f.get
    cy = lambda k: [0, 1][:k] if g('cyc') else None
    names = ('mv', 'kh', 'et', 'kv', 'khc', 'kvc')
    case.depth(*names)
    mv, kh, et, kv, khc, kvc = [case.data[q] for q in names]
    n, dTh, dThc = s('n'), s('dTh'), s('dThc')
    dTv, dTvc = ZERO if g('dTv0') else ONE if g('unit') else s('dTv'), ZERO if g('dTvc0') else ONE if g('unit') else s('dTvc')
    case.o.set(n=n, dTh=dTh, dTv=dTv, dThc=dThc, dTvc=dTvc)
    surch = case.loads('surcharge_vs_time', g('surch'), cy(2), 'surcharge_vs_depth', 'surcharge_omega_phase') if g('surch') else []
    top = case.loads('top_vs_time', g('top'), cy(2), None, 'top_omega_phase') if g('top') else []
    bot = case.loads('bot_vs_time', g('bot'), cy(2), None, 'bot_omega_phase') if g('bot') else []
    case.o.set(ppress_z=list(case.zz), avg_ppress_z_pairs=[list(p) for p in case.pairs], settlement_z_pairs=[list(p) for p in case.pairs])
    jp = ja = js = None
    if g('tsel'):
        jp, ja, js = [1], [0], [1]
        case.o.set(ppress_z_tval_indexes=[1], avg_ppress_z_pairs_tval_indexes=[0], settlement_z_pairs_tval_indexes=[1])
    case.run()
    ms = basis(case.neig, drn)
    ne = case.neig
    al = t.div(ONE, mul(n, n))
    la = sub(ONE, al)
    Kf = lambda nm, L: [[K(nm, L, p, q) for q in ms] for p in ms]
    d = lambda k: t.div(k, case.dT)
    gam = Kf('dim1sin_af_linear', [mv])
    sv = mscale(d(dTv), Kf('dim1sin_D_aDf_linear', [kv]))
    sh = mscale(d(dTh), Kf('dim1sin_abf_linear', [kh, et]))
    cv = mscale(d(dTvc), Kf('dim1sin_D_aDf_linear', [kvc]))
    chh = mscale(d(dThc), Kf('dim1sin_af_linear', [khc]))
    m1 = num(-1)
    # unknown soil, column and interface pressures from: average; equal strain of soil and column; total outflow
    rows = block([[mscale(la, eye(ne)), mscale(al, eye(ne)), zeros(ne)],
                  [madd(sh, sv, m1), madd(cv, chh, m1), madd(chh, sh, m1)],
                  [madd(sh, sv, neg(al)), mscale(al, cv), mscale(m1, sh)]])
    bet = sp.inv(rows)
    part = lambda i, j: [r[j * ne:(j + 1) * ne] for r in bet[i * ne:(i + 1) * ne]]
    b00, b10 = part(0, 0), part(1, 0)
    B1, B2 = madd(part(0, 1), part(0, 2), al), madd(part(1, 1), part(1, 2), al)
    psi = mscale(m1, madd(mscale(la, mm(sv, b00)), mm(cv, b10), al))
    Gc = madd(madd(mscale(al, eye(ne)), mm(sv, B1), neg(la)), mm(cv, B2), neg(al))
    Gs = madd(eye(ne), Gc, m1)
    G = Galerkin(ms, gam, psi, case.dT, case.tv)
    bc = BC(drn, case.H, top, bot)
    th = lambda a, wh: [DAB(a, bc.shape(wh, a), m) for m in ms]
    times = lambda M, v: [r[0] for r in mm(M, col(v))]
    for ln, c, shp in surch:
        G.load([TH('th2', [mv, shp], m) for m in ms], 'ED', ln, c)
    for ln, c, wh in bc:
        G.load([neg(TH('th2', [mv, bc.shape(wh, mv)], m)) for m in ms], 'ED', ln, c)
        G.load(vscale(dTv, times(Gs, th(kv, wh))), 'E', ln, c)
        G.load(vscale(dTvc, times(Gc, th(kvc, wh))), 'E', ln, c)
    system(ctx, case, label, G)
    u = G.solve()
    ch = case.choose()

    def share(b, B):
        r = [list(x) for x in mm(b, u)]
        for j, tt in enumerate(case.tv):
            for ln, c, wh in bc:
                v = times(B, vadd(vscale(d(dTv), th(kv, wh)), vscale(neg(d(dTvc)), th(kvc, wh))))
                for p in range(ne):
                    r[p][j] = add(r[p][j], mul(v[p], mag(ln, c, tt, ch)))
        return r
    for suf, U, nm in (('', u, 'overall'), ('s', share(b00, B1), 'soil'), ('c', share(b10, B2), 'column')):
        por, _ = por_avg(case, U, bc, ms, ch, case.zz, [], jp)
        _, avp = por_avg(case, U, bc, ms, ch, [], case.pairs, ja)
        for attr, want, msg in (('por' + suf, por, '%s pore pressure does not satisfy the flow balance of soil and column' % nm),
                                ('avp' + suf, avp, '%s average pore pressure is not the mean of the pore pressure over the interval' % nm)):
            shape_of(ctx, case, label, attr, len(want), len(want[0]))
            compare(ctx, case, label, attr, want, msg)
    hm = mul(case.H, case.mvref)
    st = [[mul(hm, settlement(case, mv, u, bc, surch, ms, z1, z2, j, ch)) for j in (js if js is not None else range(len(case.tv)))] for z1, z2 in case.pairs]
    shape_of(ctx, case, label, 'set', len(st), len(st[0]))
    compare(ctx, case, label, 'set', st, 'settlement is not H mvref times the integral of mv (surcharge - pore pressure)')
