"""flow laws and soil water characteristic curves: inverse maps, slopes, continuity, relative permeability"""
from sa import terms as t
from sa.scal import Call, Inst, A, same, sym, rejects
from sa.terms import num
from props.c32 import near, fix, add, sub, mul, div, diff, neg, pw, fn, ZERO, ONE
from props.c18 import plot, ln

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): the flow-law and water-retention classes are abstracted on symbolic parameters for every way of defining them; '
             'compositions of their methods and symbolic derivatives are compared as terms in every range of the piecewise definitions. Nothing from /repo is imported or run.')
VH = 'geotecha.constitutive_models.velocity_hydraulic_gradient'
SW = 'geotecha.constitutive_models.swcc'
FIXED_POINT = 'geotecha.mathematics.root_finding.fixed_point_no_accel'
V0 = dict(kstar=2, n=1.3, iL=16.2402611294, i0=3.7477525683, klinear=6, q=7.5, q2=3.1, q3=29.0, root=1.3, eta=0.7, head=4.2, gamw=9.7)
PAR = ('kstar', 'n', 'iL', 'i0', 'klinear')


def check(ctx):
    ctx.rule('inverse', 'velocity and gradient methods are inverse to each other')
    ctx.rule('definition', 'the relationship has the documented form')
    ctx.rule('parameters', 'every way of defining the flow law gives the same five related parameters')
    ctx.rule('slope', 'the slope method is the derivative of the relationship')
    ctx.rule('elements', 'each array element gets its own value')
    ctx.rule('plot', 'the curve returned for plotting is the relationship')
    ctx.rule('permeability', 'relative permeability is the documented ratio of integrals')
    ctx.rule('rejects', 'inconsistent definitions are rejected')
    ctx.assumptions += ['arithmetic is over the reals', 'integrals over suction are decided for three intervals and discrete curves for five points (both are parameters of one formula)']
    jobs = [lambda: darcy(ctx), lambda: hansbo_law(ctx), lambda: hansbo_rejects(ctx), lambda: air(ctx), lambda: discrete(ctx)]
    for given in TRIPLES:
        jobs.append(lambda given=given: hansbo_parameters(ctx, given))
        jobs.append(lambda given=given: hansbo_special(ctx, given))
    for cls in CURVES:
        for corr in (False, True):
            jobs.append(lambda cls=cls, corr=corr: retention(ctx, cls, corr))
            jobs.append(lambda cls=cls, corr=corr: relative(ctx, cls, corr))
    ctx.parallel(jobs)


TRIPLES = [g for g in [('kstar', 'n', 'iL'), ('kstar', 'n', 'i0'), ('kstar', 'n', 'klinear'), ('kstar', 'iL', 'i0'), ('kstar', 'iL', 'klinear'), ('kstar', 'i0', 'klinear'),
                       ('n', 'iL', 'klinear'), ('n', 'i0', 'klinear'), ('iL', 'i0', 'klinear')]]


def scalar(ctx, N, c):
    """documented: a scalar argument gives a scalar"""
    r = c.rank()
    if r is None:
        ctx.undecided('elements', N + ' scalar', 'rank')
    elif r:
        ctx.violation('elements', N + ' scalar', 'a scalar argument gives an array', c.where)
    else:
        ctx.ok('elements', N + ' scalar')


def darcy(ctx):
    k, q, q2, eta, head = [sym(s) for s in ('k', 'q', 'q2', 'eta', 'head')]
    V = near(dict(k=1.7, q=7.5, q2=-3.1, eta=0.7, head=4.2))
    m = Inst(ctx, VH, 'DarcyFlowModel', (k,))
    N = 'DarcyFlowModel'
    f, g, s = m.call('v_from_i', q), m.call('i_from_v', q), m.call('dv_di', q)
    dom = lambda a, b: b['k'] > 0 and b['q'] > 0
    kw = dict(values=V, vary=True, domain=dom)
    same(ctx, 'definition', N + '.v_from_i', f.where, f.at(), mul(k, q), 'velocity is not k*i', **kw)
    same(ctx, 'inverse', N, g.where, m.call('i_from_v', f.at()).at(), q, 'i_from_v does not invert v_from_i', **kw)
    same(ctx, 'slope', N, s.where, s.at(), k, 'the slope is not k', **kw)
    for nm, one in (('v_from_i', f), ('i_from_v', g), ('dv_di', s)):
        two = m.call(nm, A([q2, q]))
        same(ctx, 'elements', '%s.%s' % (N, nm), two.where, two.at(1), one.at(), 'an element does not get its own value', values=V)
    r = m.call('vdrain_strain_rate', eta, head)
    same(ctx, 'definition', N + '.vdrain_strain_rate', r.where, r.at(), mul(head, k, eta), 'strain rate is not head*k*eta', values=V)
    d = Inst(ctx, VH, 'DarcyFlowModel').call('v_from_i', q)
    same(ctx, 'definition', N + ' default', d.where, d.at(), q, 'the default permeability is not 1', values=V)
    plot(ctx, m, 'v_and_i_for_plotting', N, lambda z: t.subst(f.at(), {q: z}), V)


# ------------------------------------------------------------------ Hansbo
def relations(a):
    """what the five parameters must satisfy"""
    return [('i0 = iL*(n-1)/n', mul(a['i0'], a['n']), mul(a['iL'], sub(a['n'], ONE))),
            ('klinear = kstar*n*iL**(n-1)', a['klinear'], mul(a['kstar'], a['n'], pw(a['iL'], sub(a['n'], ONE))))]


def hansbo_parameters(ctx, given):
    N = 'HansboNonDarcianFlowModel(%s)' % ', '.join(given)
    V = near(V0)
    root = sym('root')
    seen = []

    def solver(I, args, kw, st, f):
        extra = kw.get('args', args[2] if len(args) > 2 else None)
        extra = list(st.store[extra.key]) if extra is not None else []
        seen.append(I.node(I.call(args[0], [root] + extra, {}, st), st))
        return root
    m = Inst(ctx, VH, 'HansboNonDarcianFlowModel', (), {g: sym(g) for g in given}, hooks={FIXED_POINT: solver})
    a = {p: m.attr(p).at() for p in PAR}
    for g in given:
        same(ctx, 'parameters', '%s keeps %s' % (N, g), m.where, a[g], sym(g), 'a given parameter is changed', values=V)
    if seen:
        # the equation solved has the parameter relation as its solution
        K = mul(sym('kstar'), root, pw(a['iL'], sub(root, ONE)))
        same(ctx, 'parameters', N + ' iteration', m.where, t.subst(seen[-1], {sym('klinear'): K}), root, 'n found by iteration does not satisfy klinear = kstar*n*iL**(n-1)', values=V)
        same(ctx, 'parameters', N + ' n', m.where, a['n'], root, 'n is not the result of the iteration', values=V)
        (nm, l, r), = relations(a)[:1]
        same(ctx, 'parameters', '%s %s' % (N, nm), m.where, l, r, 'the parameters are not related as documented', values=V)
    else:
        for nm, l, r in relations(a):
            same(ctx, 'parameters', '%s %s' % (N, nm), m.where, l, r, 'the parameters are not related as documented', values=V)
    vL = m.attr('vL').at()
    same(ctx, 'parameters', N + ' vL', m.where, vL, mul(a['klinear'], sub(a['iL'], a['i0'])), 'the limiting velocity is not klinear*(iL-i0)', values=V)
    q = sym('q')
    # the law itself is the same however it is defined
    for lo, val in ((True, 7.5), (False, 29.0)):
        W = fix(V, q=val)
        v = m.call('v_from_i', q)
        want = mul(a['kstar'], pw(q, a['n'])) if lo else mul(a['klinear'], sub(q, a['i0']))
        same(ctx, 'definition', '%s v_from_i %s iL' % (N, 'below' if lo else 'above'), v.where, v.at(), want, 'the flow law is not the documented one', values=W)


def hansbo_special(ctx, given):
    """n=1, iL=0 or i0=0: Darcy's law with klinear (or kstar)"""
    N = 'HansboNonDarcianFlowModel(%s)' % ', '.join(given)
    k = sym('klinear' if 'klinear' in given else 'kstar')
    q = sym('q')
    cases = [{g: 1} if g == 'n' else {g: 0} for g in given if g in ('n', 'iL', 'i0')]
    if 'iL' in given and 'i0' in given:
        cases = [dict(i0=0)]
    for c in cases:
        label = '%s with %s' % (N, ', '.join('%s=%s' % x for x in c.items()))
        V = near({s: v for s, v in V0.items() if s not in c})
        m = Inst(ctx, VH, 'HansboNonDarcianFlowModel', (), {g: c.get(g, sym(g)) for g in given})
        for p, want in (('n', ONE), ('i0', ZERO), ('kstar', k), ('klinear', k)):
            a = m.attr(p)
            same(ctx, 'parameters', '%s %s' % (label, p), m.where, a.at(), want, 'the parameters do not reduce to those of Darcy\'s law', values=V)
        r = m.call('vdrain_strain_rate', sym('eta'), sym('head'), gamw=sym('gamw'))
        same(ctx, 'definition', label + ' vdrain_strain_rate', r.where, r.at(), mul(sym('head'), k, sym('eta')), 'the strain rate is not head*k*eta', values=V)
        for val in (0.3, 7.5, 290.0):
            W = fix(V, q=val)
            f, g_, s = m.call('v_from_i', q), m.call('i_from_v', q), m.call('dv_di', q)
            if val == 7.5:
                rejects(ctx, 'rejects', label, f, W(1), False, 'a definition documented to reduce to Darcy\'s law is rejected')
            same(ctx, 'definition', '%s v_from_i at %s' % (label, val), f.where, f.at(), mul(k, q), 'the law does not reduce to Darcy\'s', values=W)
            same(ctx, 'definition', '%s i_from_v at %s' % (label, val), g_.where, g_.at(), div(q, k), 'the law does not reduce to Darcy\'s', values=W)
            same(ctx, 'slope', '%s at %s' % (label, val), s.where, s.at(), k, 'the law does not reduce to Darcy\'s', values=W)


def hansbo_law(ctx):
    kstar, n, iL, q, q2, q3 = [sym(s) for s in ('kstar', 'n', 'iL', 'q', 'q2', 'q3')]
    V = near({s: V0[s] for s in ('kstar', 'n', 'iL', 'q', 'q2', 'q3', 'eta', 'head', 'gamw')})
    m = Inst(ctx, VH, 'HansboNonDarcianFlowModel', (), dict(kstar=kstar, n=n, iL=iL))
    N = 'HansboNonDarcianFlowModel'
    klinear = mul(kstar, n, pw(iL, sub(n, ONE)))
    i0 = div(mul(iL, sub(n, ONE)), n)
    lo = lambda z: mul(kstar, pw(z, n))
    hi = lambda z: mul(klinear, sub(z, i0))
    v, i, s = m.call('v_from_i', q), m.call('i_from_v', q), m.call('dv_di', q)
    back = m.call('i_from_v', v.at())
    forth = m.call('v_from_i', i.at())
    for nm, val, law in (('below iL', 7.5, lo), ('far below iL', 0.002, lo), ('above iL', 29.0, hi), ('far above iL', 3000.0, hi)):
        W = fix(V, q=val)
        dom = lambda a, b: b['kstar'] > 0 and b['n'] > 1 and b['iL'] > 0 and (a['q'] < a['iL']) == (b['q'] < b['iL']) and b['q'] > 0
        kw = dict(values=W, vary=dict(kstar=(1, 'small', 'large'), n=(2, 3), iL=(1, 'small', 'large')), domain=dom)
        same(ctx, 'definition', '%s.v_from_i %s' % (N, nm), v.where, v.at(), law(q), 'the flow law is not the documented one', **kw)
        same(ctx, 'slope', '%s %s' % (N, nm), s.where, s.at(), diff(law(q), q), 'dv_di is not the slope of the flow law', **kw)
        same(ctx, 'inverse', '%s i_from_v(v_from_i(i)) %s' % (N, nm), back.where, back.at(), q, 'i_from_v does not invert v_from_i', **kw)
        f1 = t.subst(v.at(), {q: neg(q)})
        same(ctx, 'definition', '%s.v_from_i odd %s' % (N, nm), v.where, f1, neg(law(q)), 'reversing the gradient does not reverse the flow', values=W)
        f2 = t.subst(back.at(), {q: neg(q)})
        same(ctx, 'inverse', '%s negative gradient %s' % (N, nm), back.where, f2, neg(q), 'i_from_v does not invert v_from_i for negative gradients', values=W)
        same(ctx, 'inverse', '%s v_from_i(i_from_v(v)) %s' % (N, nm), forth.where, t.subst(forth.at(), {q: law(q)}), law(q), 'v_from_i does not invert i_from_v', values=W)
    for val, one, nm in ((0, v, 'v_from_i'), (0, i, 'i_from_v'), (0, s, 'dv_di')):
        same(ctx, 'definition', '%s.%s at zero' % (N, nm), one.where, one.at(), ZERO, 'there is flow without gradient', values=fix(V, q=0))
    at = m.call('v_from_i', iL)
    same(ctx, 'definition', N + ' at iL', at.where, at.at(), lo(iL), 'the flow law is not continuous at iL', values=V)
    same(ctx, 'definition', N + ' at iL, linear', at.where, at.at(), hi(iL), 'the flow law is not continuous at iL', values=V)
    at = m.call('dv_di', iL)
    same(ctx, 'slope', N + ' at iL', at.where, at.at(), klinear, 'the slope at iL is not klinear', values=V)
    W = V
    for nm, one in (('v_from_i', v), ('i_from_v', i), ('dv_di', s)):
        two = m.call(nm, A([q2, neg(q3), q]))
        for val in (7.5, 29.0, 400.0):
            W = fix(V, q=val)
            same(ctx, 'elements', '%s.%s third element, %s' % (N, nm, val), two.where, two.at(2), one.at(), 'an element does not get its own value', values=W)
            same(ctx, 'elements', '%s.%s second element, %s' % (N, nm, val), two.where, two.at(1), t.subst(one.at(), {q: neg(q3)}), 'an element does not get its own value', values=W)
    eta, head, gamw = sym('eta'), sym('head'), sym('gamw')
    r = m.call('vdrain_strain_rate', eta, head, gamw=gamw)
    want = mul(pw(head, n), klinear, pw(gamw, sub(n, ONE)), eta)
    same(ctx, 'definition', N + '.vdrain_strain_rate', r.where, r.at(), want, 'strain rate is not head**n*klinear*gamw**(n-1)*eta', values=V)
    r = m.call('vdrain_strain_rate', eta, head)
    same(ctx, 'definition', N + '.vdrain_strain_rate default gamw', r.where, r.at(), t.subst(want, {gamw: num(10)}), 'the default gamw is not 10', values=V)
    for val in (1.7, 40.0):
        plot(ctx, m, 'v_and_i_for_plotting', '%s near %s' % (N, val), lambda z: t.subst(v.at(), {q: z}), fix(V, iL=val))


def hansbo_rejects(ctx):
    N = 'HansboNonDarcianFlowModel'
    V = dict(V0)
    mk = lambda kw: Inst(ctx, VH, N, (), {g: (sym(g) if v is True else v) for g, v in kw.items()})

    class R(object):
        def __init__(self, inst):
            self.inst, self.where = inst, inst.where

        def rejected(self):
            return t.or_(*[c for c, f, s in self.inst.init_raised]) if self.inst.init_raised else t.FALSE
    for given in TRIPLES:
        if 'kstar' in given and 'klinear' in given and 'n' not in given:
            continue
        rejects(ctx, 'rejects', '%s(%s)' % (N, ', '.join(given)), R(mk({g: True for g in given})), V, False, 'a valid definition is rejected')
    for given in (('kstar', 'n'), ('klinear', 'i0'), ('n', 'iL', 'i0'), ('kstar',), (), ('kstar', 'klinear', 'n', 'iL'), PAR):
        rejects(ctx, 'rejects', '%s(%s)' % (N, ', '.join(given)), R(mk({g: True for g in given})), V, True, 'an incomplete or overdetermined definition is accepted')
    for given in (('kstar', 'n', 'iL'), ('kstar', 'n', 'i0'), ('n', 'iL', 'klinear'), ('n', 'i0', 'klinear')):
        rejects(ctx, 'rejects', '%s(%s) n<1' % (N, ', '.join(given)), R(mk({g: True for g in given})), dict(V, n=t.mpf('0.8')), True, 'n less than 1 is accepted')
    for given in (('kstar', 'iL', 'i0'), ('iL', 'i0', 'klinear')):
        rejects(ctx, 'rejects', '%s(%s) iL<i0' % (N, ', '.join(given)), R(mk({g: True for g in given})), dict(V, iL=t.mpf('2.8')), True, 'iL less than i0 is accepted')


# ------------------------------------------------------------------ water retention
CURVES = {
    'SWCC_FredlundAndXing1994': dict(a=2.77, n=3.2, m=0.45, ws=0.9, psir=300, psi=4.1, p2=17.0, p3=0.6, corr=0.83, aev=1.3),
    'SWCC_PhamAndFredlund2008': dict(ws=0.9, a=55.0, b=2.1, wr=0.12, s1=0.04, psir=300, psi=4.1, p2=17.0, p3=0.6, corr=0.83, aev=1.3),
}
ARGS = {'SWCC_FredlundAndXing1994': ('a', 'n', 'm'), 'SWCC_PhamAndFredlund2008': ('ws', 'a', 'b', 'wr', 's1')}
log10 = lambda z: div(ln(z), ln(num(10)))


def curve(cls, psi, corr, psir=None):
    a, n, m, ws, b, wr, s1 = [sym(s) for s in ('a', 'n', 'm', 'ws', 'b', 'wr', 's1')]
    psir = psir or sym('psir')
    C = sym('corr') if corr else sub(ONE, div(ln(add(ONE, div(psi, psir))), ln(add(ONE, div(num(10 ** 6), psir)))))
    if cls == 'SWCC_FredlundAndXing1994':
        return div(mul(C, ws), pw(ln(add(fn('exp', ONE), pw(div(psi, a), n))), m))
    return mul(C, add(div(mul(sub(sub(ws, mul(s1, log10(psi))), wr), a), add(pw(psi, b), a)), wr))


def build(ctx, cls, corr, **kw):
    args = tuple(sym(s) for s in ARGS[cls])
    kw.setdefault('psir', sym('psir'))
    if cls == 'SWCC_FredlundAndXing1994':
        kw.setdefault('ws', sym('ws'))
    if corr:
        kw['correction'] = sym('corr')
    kw = {k: v for k, v in kw.items() if v is not None}
    return Inst(ctx, SW, cls, args, kw)


def retention(ctx, cls, corr):
    N = cls + (' with a constant correction' if corr else '')
    V = near(CURVES[cls])
    psi, p2, p3 = sym('psi'), sym('p2'), sym('p3')
    m = build(ctx, cls, corr)
    w, d = m.call('w_from_psi', psi), m.call('dw_dpsi', psi)
    want = curve(cls, psi, corr)
    dom = lambda a, b: all(b[s] > 0 for s in b)
    kw = dict(values=V, vary=True, domain=dom)
    same(ctx, 'definition', N + '.w_from_psi', w.where, w.at(), want, 'the water content is not that of the documented curve', **kw)
    same(ctx, 'slope', N, d.where, d.at(), diff(want, psi), 'dw_dpsi is not the derivative of w_from_psi', **kw)
    for nm, one in (('w_from_psi', w), ('dw_dpsi', d)):
        two = m.call(nm, A([p2, p3, psi]))
        same(ctx, 'elements', '%s.%s' % (N, nm), two.where, two.at(2), one.at(), 'an element does not get its own value', values=V)
    # documented defaults
    if cls == 'SWCC_FredlundAndXing1994':
        m = build(ctx, cls, corr, ws=None, psir=None)
        dflt = t.subst(want, {sym('ws'): ONE, sym('psir'): num(10 ** 6)})
    else:
        m = build(ctx, cls, corr, psir=None)
        dflt = curve(cls, psi, corr, pw(mul(t.real('2.7') if hasattr(t, 'real') else div(num(27), num(10)), sym('a')), div(ONE, sym('b'))))
    w = m.call('w_from_psi', psi)
    same(ctx, 'definition', N + ' defaults', w.where, w.at(), dflt, 'defaults are not the documented ones', values=V)
    p = m.call('psi_and_w_for_plotting', npts=3, xmin=p3, xmax=p2)
    for i in range(3):
        z = p.at(i, of=p.item(0))
        same(ctx, 'plot', '%s abscissa %d' % (N, i), p.where, ln(z), add(ln(p3), mul(num(i), div(sub(ln(p2), ln(p3)), num(2)))), 'the suctions do not run evenly (in log) from xmin to xmax', values=V)
        same(ctx, 'plot', '%s point %d' % (N, i), p.where, p.at(i, of=p.item(1)), t.subst(dflt, {psi: z}), 'a plotted point is not on the curve', values=V)


def relative(ctx, cls, corr):
    N = cls + ('.k_from_psi with a constant correction' if corr else '.k_from_psi')
    V = near(CURVES[cls])
    psi, p2, p3, aev = sym('psi'), sym('p2'), sym('p3'), sym('aev')
    m = build(ctx, cls, corr)
    W = lambda z: curve(cls, z, corr)
    y = sym('y_')

    def integral_(lo, ref, n):
        """mid-point rule for int_{ln lo}^{ln 1e6} (w(e^y) - ref) w'(e^y)/e^y dy"""
        h = div(sub(ln(num(10 ** 6)), ln(lo)), num(n))
        slope = diff(W(y), y)
        s = ZERO
        for i in range(n):
            e = fn('exp', add(ln(lo), mul(h, num('%s' % (i + 0.5)) if False else div(num(2 * i + 1), num(2)))))
            s = add(s, mul(h, div(mul(sub(W(e), ref), t.subst(slope, {y: e})), e)))
        return s

    def want(z, av, n=3):
        ref = sym('ws') if cls == 'SWCC_FredlundAndXing1994' else W(av)
        return div(integral_(z, W(z), n), integral_(av, ref, n))
    k = m.call('k_from_psi', psi, aev=aev, npts=3)
    scalar(ctx, N, k)
    same(ctx, 'permeability', N, k.where, k.at(), want(psi, aev), 'relative permeability is not the documented ratio of integrals', values=V)
    k = m.call('k_from_psi', psi, npts=3)
    dflt = ONE if cls == 'SWCC_FredlundAndXing1994' else div(ONE, num(1000))
    same(ctx, 'permeability', N + ' default aev', k.where, k.at(), want(psi, dflt), 'the default air entry value is not the documented one', values=V)
    k = m.call('k_from_psi', A([p2, psi, p3]), aev=aev, npts=2)
    for i, z in enumerate((p2, psi, p3)):
        same(ctx, 'elements', '%s element %d' % (N, i), k.where, k.at(i), want(z, aev, 2), 'an element does not get its own value', values=V)


def discrete(ctx):
    """integration of a discrete curve with mid-point water contents and segment slopes"""
    X = [sym('x%d' % i) for i in range(5)]
    Y = [sym('y%d' % i) for i in range(5)]
    base = dict(x0=0.7, x1=1.9, x2=6.0, x3=14.0, x4=55.0, y0=0.9, y1=0.8, y2=0.55, y3=0.3, y4=0.13, psi=4.1, p2=20.0)
    psi, p2 = sym('psi'), sym('p2')
    V = near(base)
    seg = []
    for i in range(4):
        dl = sub(log10(X[i + 1]), log10(X[i]))
        xb = mul(X[i], pw(num(10), div(dl, num(2))))
        seg.append((dl, xb, div(add(Y[i], Y[i + 1]), num(2)), div(sub(Y[i + 1], Y[i]), mul(dl, ln(num(10)), xb))))

    def part(j):
        return add(*[mul(dl, div(sub(yb, seg[j][2]), xb), sl) for i, (dl, xb, yb, sl) in enumerate(seg) if i >= j])
    c = Call(ctx, SW, 'kwrel_from_discrete_swcc', (psi, A(X), A(Y)))
    scalar(ctx, 'kwrel_from_discrete_swcc', c)
    for j in range(4):
        W = fix(V, psi=(base['x%d' % j] * base['x%d' % (j + 1)]) ** 0.5)
        same(ctx, 'permeability', 'kwrel_from_discrete_swcc segment %d' % j, c.where, c.at(), div(part(j), part(0)), 'relative permeability is not the ratio of integrals beyond the suction and over the whole curve', values=W)
    W = lambda seed: dict(V(seed), psi=V(seed)['x2'])
    same(ctx, 'permeability', 'kwrel_from_discrete_swcc at a point', c.where, c.at(), div(part(2), part(0)), 'relative permeability at a curve point is not that of the segment beyond', values=W)
    c = Call(ctx, SW, 'kwrel_from_discrete_swcc', (A([p2, psi, X[0]]), A(X), A(Y)))
    for i, j in ((0, 3), (1, 1), (2, 0)):
        same(ctx, 'elements', 'kwrel_from_discrete_swcc element %d' % i, c.where, c.at(i), div(part(j), part(0)), 'an element does not get its own value', values=V)


def air(ctx):
    S, S2, q = sym('Sr'), sym('S2'), sym('qfit')
    V = near(dict(Sr=0.6, S2=0.3, qfit=0.7))
    want = lambda s, q: mul(pw(sub(ONE, s), div(ONE, num(2))), pw(sub(ONE, pw(s, div(ONE, q))), mul(num(2), q)))
    c = Call(ctx, SW, 'karel_air_from_saturation', (S, q))
    same(ctx, 'permeability', 'karel_air_from_saturation', c.where, c.at(), want(S, q), 'relative air permeability is not the documented one', values=V)
    c = Call(ctx, SW, 'karel_air_from_saturation', (A([S2, S]),))
    same(ctx, 'elements', 'karel_air_from_saturation', c.where, c.at(1), want(S, div(ONE, num(2))), 'an element does not get its own value', values=V)
