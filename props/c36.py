"""speccon1d_vr: the computed pore pressures and settlements are the Galerkin solution of the documented equation"""
from sa import terms as t
from sa import spec as sp
from sa.spec import World, BC, Galerkin, K, TH, DAB, P, INT, mm, madd, mscale, sins, vscale, vadd, basis, mag
from sa.scal import Inst, same
from sa.terms import num, ZERO, ONE, add, sub, mul, neg

TECHNIQUE = ('Abstract interpretation of the whole program run (system assembly, load vectors, output) into value graphs in which depth integrals and time '
             'responses are uninterpreted multilinear functionals; the graphs are compared with the Galerkin form of the documented equation by random interpretation.')
MOD = 'geotecha.speccon.speccon1d_vr'
s = t.sym
NZ = 2


def listy(names, f):
    return [f(n) for n in names]


class Case(object):
    """one configuration: python-side line data, and the same data as analysed objects"""

    def __init__(self, ctx, mod, cls, drn, neig=2, steps=False, opaque=()):
        self.W = World(steps)
        self.drn, self.neig, self.steps = drn, neig, steps
        self.H, self.dT, self.mvref = s('H'), s('dT'), s('mvref')
        self.tv = [s('t0'), s('t1')]
        self.zz = [s('z0'), s('z1')]
        self.pairs = [(s('za'), s('zc')), (s('zd'), s('ze'))]
        self.o = Inst(ctx, mod, cls, hooks=self.W.hooks)
        self.o.set(H=self.H, dT=self.dT, mvref=self.mvref, drn=drn, neig=neig, tvals=list(self.tv))
        self.data = {}

    def line(self, name, kind=sp.depth):
        ln = self.data.get(name) or kind(name)
        self.data[name] = ln
        return ln

    def obj(self, ln):
        return self.W.obj(self.o.I, self.o.st, ln)

    def depth(self, *names):
        for n in names:
            self.o.set(**{n: self.obj(self.line(n))})

    def loads(self, attr, n, cyc=None, shape=None, omega=None):
        """n loads for attr (vs_time list); cyc marks the cyclic ones; shape: name of the depth attribute"""
        out = []
        for k in range(n):
            ln = self.line('%s%d' % (attr, k), sp.time)
            c = (s('%s.om%d' % (attr, k)), s('%s.ph%d' % (attr, k))) if cyc and cyc[k] else None
            out.append((ln, c) + ((self.line('%s%d' % (shape, k)),) if shape else ()))
        self.o.set(**{attr: [self.obj(x[0]) for x in out]})
        if shape:
            self.o.set(**{shape: [self.obj(x[2]) for x in out]})
        if cyc:
            self.o.set(**{omega: [x[1] for x in out]})
        return out

    def run(self):
        for m in ('make_time_independent_arrays', 'make_time_dependent_arrays', 'make_output'):
            self.last = self.o.call(m)
        return self

    def choose(self):
        return True if self.steps else None


VALUES = {'zb': t.mpf('0.41'), 'z0': t.mpf('0.23'), 'z1': t.mpf('0.77'), 'za': t.mpf('0.11'), 'zc': t.mpf('0.63'), 'zd': t.mpf('0.35'), 'ze': t.mpf('0.92'),
          'zf0': t.mpf('0.3'), 'zf1': t.mpf('0.66'), 'zp0': t.mpf('0.52'), 'zp1': t.mpf('0.83')}


def compare(ctx, case, label, attr, want, msg, where=None):
    """want: rows x times"""
    c = case.o.attr(attr)
    w = case.last.where
    nr, nt = len(want), len(want[0])
    for i in range(nr):
        for j in range(nt):
            got = c.value(i, j)
            same(ctx, attr, '%s: %s[%d,%d]' % (label, attr, i, j), w, got, want[i][j], msg, values=VALUES, seeds=(1, 2, 3) if ctx.thorough else (1,))


def shape_of(ctx, case, label, attr, nr, nt):
    """the array has one row per depth (pair) and one column per selected time"""
    from sa.front import Arr
    c = case.o.attr(attr)
    w = case.last.where
    ctx.count('shapes')
    if isinstance(c.r, Arr):
        ax = [x.size for x in c.I.axes(c.r, c.st)]
        if all(x.op == 'num' for x in ax):
            if [int(x.args[0]) for x in ax] != [nr, nt]:
                ctx.violation('shape', '%s: %s' % (label, attr), '%s has shape %s instead of (%d, %d)' % (attr, [t.show(x) for x in ax], nr, nt), w)
            else:
                ctx.ok('shape', '%s: %s' % (label, attr))
            return
    ctx.undecided('shape', '%s: %s' % (label, attr), 'shape not concrete')


def system(ctx, case, label, G):
    """gam.A = psi for the matrix A whose eigen system is used"""
    w = case.last.where
    if len(case.W.eigs) != 1:
        ctx.undecided('system', label, '%d eigen problems traced' % len(case.W.eigs))
        return
    A = case.W.eigs[0]
    if len(A) != len(G.gam):
        ctx.violation('system', label, 'the system has %d unknowns instead of %d' % (len(A), len(G.gam)), w)
        return
    B = mm(G.gam, A)
    for i in range(len(A)):
        for j in range(len(A)):
            same(ctx, 'system', '%s: [%d,%d]' % (label, i, j), w, B[i][j], G.psi[i][j],
                 'the eigen problem solved is not that of the documented equation', values=VALUES, seeds=(1, 2, 3) if ctx.thorough else (1,))


def pk(prefix, n):
    return [(s('%s%d' % ('zf' if prefix == 'fixed_ppress' else 'zp', k)), s('%s.k%d' % (prefix, k))) for k in range(n)]


def point_loads(case, attr, n, cyc, fixed):
    """(z, k, line, cyc)"""
    out = []
    for k in range(n):
        z = s(('zf%d' if fixed else 'zp%d') % k)
        ln = case.line('%s%d' % (attr, k), sp.time)
        c = (s('%s.om%d' % (attr, k)), s('%s.ph%d' % (attr, k))) if cyc and cyc[k] else None
        out.append((z, s('%s.k%d' % (attr, k)) if fixed else ONE, ln, c))
    case.o.set(**{attr: [(z, k, case.obj(ln)) if fixed else (z, case.obj(ln)) for z, k, ln, c in out]})
    if cyc:
        case.o.set(**{attr + '_omega_phase': [c for z, k, ln, c in out]})
    return out


def vr_system(case, ms, mv, kv, kh, et, dTv, dTh, fixed):
    n = len(ms)
    gam = [[K('dim1sin_af_linear', [mv], p, q) for q in ms] for p in ms]
    psi = sp.zeros(n)
    if kv is not None:
        psi = madd(psi, [[K('dim1sin_D_aDf_linear', [kv], p, q) for q in ms] for p in ms], neg(t.div(dTv, case.dT)))
    S = None
    if kh is not None:
        S = mscale(t.div(dTh, case.dT), [[K('dim1sin_abf_linear', [kh, et], p, q) for q in ms] for p in ms])
        psi = madd(psi, S)
    for z, k, ln, c in fixed:
        v = sins(ms, z)
        psi = madd(psi, [[mul(k, a, b) for b in v] for a in v], t.div(ONE, case.dT))
    return gam, psi, S


def settlement(case, a, u, bc, surch, ms, z1, z2, j, ch):
    """integral of a*(surcharge - u) between z1 and z2 (not yet multiplied by H mvref)"""
    tt = case.tv[j]
    r = add(*[mul(INT(shape, a, z1, z2), mag(ln, c, tt, ch)) for ln, c, shape in surch])
    return sub(r, add(*[mul(P(a, m, z1, z2), u[p][j]) for p, m in enumerate(ms)] + [bc.integral(a, z1, z2, tt, ch)]))


def por_avg(case, u, bc, ms, ch, zz, pairs, jt=None):
    js = jt if jt is not None else range(len(case.tv))
    por = [[add(*[mul(v, u[p][j]) for p, v in enumerate(sins(ms, z))] + [bc.value(z, case.tv[j], ch)]) for j in js] for z in zz]
    half = num(t.Fraction(1, 2))
    avp = [[add(*[mul(sp.avg_basis(m, z1, z2), u[p][j]) for p, m in enumerate(ms)] +
                [mul(half, add(bc.value(z1, case.tv[j], ch), bc.value(z2, case.tv[j], ch)))]) for j in js] for z1, z2 in pairs]
    return por, avp


CONFIGS = [
    # label, drn, features
    ('everything, both ends drained', 0, dict(v=1, h=1, surch=2, vac=2, top=2, bot=2, fix=2, pump=2, cyc=1)),
    ('everything, impervious base', 1, dict(v=1, h=1, surch=2, vac=2, top=2, bot=2, fix=2, pump=2, cyc=1)),
    ('radial drainage only', 0, dict(h=1, surch=1, vac=1, top=1, bot=1)),
    ('vertical drainage only', 1, dict(v=1, surch=1, top=1, bot=1)),
    ('surcharge only', 0, dict(v=1, h=1, surch=1)),
    ('top pore pressure only', 0, dict(v=1, h=1, top=1)),
    ('bottom gradient only', 1, dict(v=1, h=1, bot=1)),
    ('bottom pore pressure only', 0, dict(v=1, h=1, bot=1)),
    ('vacuum only', 1, dict(v=1, h=1, vac=1)),
    ('fixed pore pressure only', 0, dict(v=1, h=1, fix=1)),
    ('pumping only', 0, dict(v=1, h=1, pump=1)),
    ('fixed pore pressure and pumping, cyclic', 1, dict(v=1, h=1, fix=2, pump=2, cyc=1)),
    ('zero vertical time factor', 0, dict(v=1, h=1, surch=1, top=1, bot=1, dTv0=1)),
    ('zero horizontal time factor', 0, dict(v=1, h=1, surch=1, vac=1, top=1, bot=1, dTh0=1)),
    ('at load steps', 0, dict(v=1, h=1, surch=1, top=1, bot=1, steps=1)),
    ('at load steps, impervious base', 1, dict(v=1, h=1, surch=1, top=1, bot=1, steps=1)),
    ('three terms', 0, dict(v=1, h=1, surch=1, top=1, neig=3)),
    ('selected output times', 0, dict(v=1, h=1, surch=1, top=1, bot=1, tsel=1)),
    ('selected output times, impervious base', 1, dict(v=1, h=1, surch=1, top=1, bot=1, tsel=1)),
    ('unit time factors', 0, dict(v=1, h=1, surch=1, vac=1, top=1, bot=1, unit=1)),
]


def check(ctx):
    ctx.rule('system', 'the matrix whose eigen system is used is gam^-1 psi of the documented equation')
    ctx.rule('por', 'pore pressure at depth = sum of sine terms of the solution plus the boundary pressure')
    ctx.rule('avp', 'average pore pressure = mean over the interval of the same expression')
    ctx.rule('set', 'settlement = H mvref * integral of mv (surcharge - u) over the interval')
    ctx.rule('shape', 'one row per depth or interval, one column per selected time')
    ctx.assumptions += ['two or three series terms, two layers, up to two loads of each kind and two output times; all values symbolic',
                        'depth integrals and time responses are uninterpreted multilinear functionals (their values are decided by C08 and C10)',
                        'the eigen decomposition returned by numpy is taken as given']
    ctx.parallel([lambda c=c: one(ctx, *c) for c in CONFIGS])


def one(ctx, label, drn, f):
    case = Case(ctx, MOD, 'Speccon1dVR', drn, f.get('neig', 2), bool(f.get('steps')))
    g = f.get
    cy = lambda k: [0, 1][:k] if g('cyc') else None
    case.depth('mv')
    mv = case.data['mv']
    kv = kh = et = dTv = dTh = None
    if g('v'):
        case.depth('kv')
        kv, dTv = case.data['kv'], ZERO if g('dTv0') else ONE if g('unit') else s('dTv')
        case.o.set(dTv=dTv)
    if g('h'):
        case.depth('kh', 'et')
        kh, et, dTh = case.data['kh'], case.data['et'], ZERO if g('dTh0') else ONE if g('unit') else s('dTh')
        case.o.set(dTh=dTh)
    surch = case.loads('surcharge_vs_time', g('surch'), cy(2), 'surcharge_vs_depth', 'surcharge_omega_phase') if g('surch') else []
    vac = case.loads('vacuum_vs_time', g('vac'), cy(2), 'vacuum_vs_depth', 'vacuum_omega_phase') if g('vac') else []
    top = case.loads('top_vs_time', g('top'), cy(2), None, 'top_omega_phase') if g('top') else []
    bot = case.loads('bot_vs_time', g('bot'), cy(2), None, 'bot_omega_phase') if g('bot') else []
    fixed = point_loads(case, 'fixed_ppress', g('fix'), cy(2), True) if g('fix') else []
    pump = point_loads(case, 'pumping', g('pump'), cy(2), False) if g('pump') else []
    case.o.set(ppress_z=list(case.zz), avg_ppress_z_pairs=[list(p) for p in case.pairs], settlement_z_pairs=[list(p) for p in case.pairs])
    jp = ja = js = None
    if g('tsel'):
        jp, ja, js = [1], [0], [1]
        case.o.set(ppress_z_tval_indexes=[1], avg_ppress_z_pairs_tval_indexes=[0], settlement_z_pairs_tval_indexes=[1])
    case.run()
    ms = basis(case.neig, drn)
    gam, psi, S = vr_system(case, ms, mv, kv, kh, et, dTv, dTh, fixed)
    G = Galerkin(ms, gam, psi, case.dT, case.tv)
    bc = BC(drn, case.H, top, bot)
    for ln, c, shp in surch:
        G.load([TH('th2', [mv, shp], m) for m in ms], 'ED', ln, c)
    for ln, c, shp in vac:
        if kh is not None:
            G.load(vscale(dTh, [TH('th3', [kh, et, shp], m) for m in ms]), 'E', ln, c)
    for z, k, ln, c in fixed:
        G.load(vscale(k, sins(ms, z)), 'E', ln, c)
    for z, k, ln, c in pump:
        G.load(vscale(t.div(ONE, mul(case.mvref, case.H)), sins(ms, z)), 'E', ln, c)
    for ln, c, w in bc:
        G.load([neg(TH('th2', [mv, bc.shape(w, mv)], m)) for m in ms], 'ED', ln, c)
        if kh is not None:
            G.load(vscale(neg(dTh), [TH('th3', [kh, et, bc.shape(w, kh)], m) for m in ms]), 'E', ln, c)
        if kv is not None:
            G.load(vscale(dTv, [DAB(kv, bc.shape(w, kv), m) for m in ms]), 'E', ln, c)
        for z, k, l2, c2 in fixed:
            G.load(vscale(neg(mul(k, bc.depth(w, z))), sins(ms, z)), 'E', ln, c)
    system(ctx, case, label, G)
    u = G.solve()
    ch = case.choose()
    por, _ = por_avg(case, u, bc, ms, ch, case.zz, [], jp)
    _, avp = por_avg(case, u, bc, ms, ch, [], case.pairs, ja)
    hm = mul(case.H, case.mvref)
    st = [[mul(hm, settlement(case, mv, u, bc, surch, ms, z1, z2, j, ch)) for j in (js if js is not None else range(len(case.tv)))] for z1, z2 in case.pairs]
    for attr, want, msg in (('por', por, 'pore pressure is not the sum of the sine terms and the boundary pressure'),
                            ('avp', avp, 'average pore pressure is not the mean of the pore pressure over the interval'),
                            ('set', st, 'settlement is not H mvref times the integral of mv (surcharge - pore pressure)')):
        shape_of(ctx, case, label, attr, len(want), len(want[0]))
        compare(ctx, case, label, attr, want, msg)
