"""beams on foundations: the Galerkin equations are those of the beam"""
from fractions import Fraction
from sa import terms as t
from sa import kern
from sa.scal import Inst, A, same, sym, integral, wrap, rejects
from sa.terms import num
from sa.front import ObjV, ClassV, PyList, newkey
from props.c32 import near, add, sub, mul, div, diff, neg, pw, fn, ZERO, ONE, x
from props.c35 import line

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): constructors and methods of the beam models are abstracted to gated terms in the beam, foundation and load '
             'parameters and the state vector; the resulting rates, matrices, trial functions and quadrature rules are compared with the projection of the beam equation on the trial '
             'functions, for all parameter values. Nothing from /repo is executed.')
DM = 'geotecha.beam_on_foundation.dingetal2012'
SM = 'geotecha.beam_on_foundation.specbeam'
IN = 'geotecha.speccon.integrals.'
SC = 'geotecha.speccon.speccon1d.'
PHYS = ('E', 'I', 'rho', 'A', 'L', 'k1', 'k3', 'mu', 'Fz', 'v')
V = near(dict(E=2.1, I=0.7, rho=1.3, A=0.8, L=1.9, k1=1.1, k3=0.6, mu=0.9, Fz=1.7, v=0.4, tn=0.8, b=2.3, x=0.37))
SQ = Fraction(1, 2)
sq = lambda a: mul(a, a)
call = lambda name, *a: t.mk('call', name, *a)


def norms(L='L'):
    E, I, rho, Ar, L, k1, k3, mu, Fz, v = [sym(q) for q in PHYS]
    root = lambda a: pw(a, num(SQ))
    return dict(kf=div(root(div(I, Ar)), L), v_norm=mul(v, root(div(rho, E))), Fz_norm=div(Fz, mul(E, Ar)), mu_norm=mul(div(mu, Ar), root(div(sq(L), mul(rho, E)))),
                k1_norm=div(mul(k1, sq(L)), mul(E, Ar)), k3_norm=div(mul(k3, sq(sq(L))), mul(E, Ar)))


def check(ctx):
    ctx.rule('normalise', 'dimensionless parameters follow from the physical ones, given ones are kept')
    ctx.rule('trial functions', 'a trial function is a mode of the free beam: its fourth derivative is beta**4 times itself and it has the end conditions')
    ctx.rule('rigid-mode', 'the free beam mode of beta=0 is a uniform displacement')
    ctx.rule('quadrature', 'the points are distinct, span the beam, and the weights integrate powers of x exactly')
    ctx.rule('equation', 'the rate of the state vector is the projection of the equation of motion on the trial functions')
    ctx.rule('matrices', 'mass, stiffness and damping matrices are those integrals of the property profiles')
    ctx.rule('solution', 'initial state at rest, time and distance scales, the deflection is the sum of the modes')
    ctx.rule('analytical', 'the block matrices and load terms of the analytical method are those of the same equation')
    ctx.rule('domain', 'unknown end conditions are refused')
    ctx.assumptions += ['arithmetic is over the reals', 'ODE integration, root finding and eigen decomposition are uninterpreted operators', 'spectral integrals are decided by C20, load integrals by C18/C40',
                        'few terms and few quadrature points (the code is uniform in both)']
    th = [lambda: ding_norm(ctx), lambda: ding_domain(ctx)]
    for BC in ('SS', 'CC', 'FF'):
        th.append(lambda BC=BC: modes(ctx, DM, 'DingEtAl2012', BC))
        th.append(lambda BC=BC: quad(ctx, BC))
        for nq in (4, None) if BC == 'SS' else (7, None):
            for n in (1, 3):
                th.append(lambda a=(BC, nq, n): ding(ctx, *a))
    th.append(lambda: solution(ctx, DM, 'DingEtAl2012'))
    th.append(lambda: modes(ctx, SM, 'SpecBeam', 'SS'))
    for moving, still in ((0, 1), (1, 0), (2, 0), (0, 2), (1, 1)):
        th.append(lambda a=(moving, still): spec(ctx, *a))
    th += [lambda: spec_norm(ctx, False), lambda: spec_norm(ctx, True), lambda: spec_quad(ctx), lambda: analytical(ctx), lambda: solution(ctx, SM, 'SpecBeam'), lambda: specdomain(ctx)]
    ctx.parallel(th)


def roots_hook(seen, beta):
    def find(I, a, kw, st, f):
        kw = dict(zip(('func', 'args', 'n', 'x0', 'dx', 'p', 'max_iter', 'phi', 'fsolve_options'), a), **kw)
        seen.append((I.node(I.call(kw['func'], [sym('b')], {}, st), st), kw.get('n')))
        return wrap(I, st, A(beta))
    return {'geotecha.mathematics.root_finding.find_n_roots': find}


def rows(I, st, v):
    a = I.as_array(v, st)
    k = [int(q.size.args[0]) for q in I.axes(a, st)]
    return [[I.elem(a, (num(i), num(j)), st) for j in range(k[1])] for i in range(k[0])] if len(k) == 2 else [I.elem(a, (num(i),), st) for i in range(k[0])]


def make(ctx, BC, nterms, nquad, hooks=None, **kw):
    d = dict(BC=BC, nterms=nterms, nquad=nquad, **{n: sym(n) for n in PHYS})
    d.update(kw)
    return Inst(ctx, DM, 'DingEtAl2012', [], d, hooks=hooks)


def ding_norm(ctx):
    full = make(ctx, 'SS', 2, 3)
    for k, w in norms().items():
        same(ctx, 'normalise', 'DingEtAl2012 %s' % k, full.where, full.attr(k).value(), w, '%s is not what the physical parameters give' % k, values=V)
        g = Inst(ctx, DM, 'DingEtAl2012', [], dict(BC='SS', nterms=2, nquad=3, **dict({n: sym(n) for n in PHYS}, **{k: sym('given')})))
        same(ctx, 'normalise', 'DingEtAl2012 given %s' % k, g.where, g.attr(k).value(), sym('given'), 'a given %s is not used' % k, values=V)
        for k2, w2 in norms().items():
            if k2 != k:
                same(ctx, 'normalise', 'DingEtAl2012 %s, %s given' % (k2, k), g.where, g.attr(k2).value(), w2, '%s is not what the physical parameters give when %s is given' % (k2, k), values=V)
    g = Inst(ctx, DM, 'DingEtAl2012', [], dict(BC='SS', nterms=2, nquad=3, **{k: sym(k) for k in norms()}))
    for k in norms():
        same(ctx, 'normalise', 'DingEtAl2012 all given, %s' % k, g.where, g.attr(k).value(), sym(k), 'a given %s is not used' % k, values=near({q: 1.3 for q in norms()}))


def refused(ctx, m, c, msg):
    call = m.attr('BC')
    call.where = m.where
    rejects(ctx, 'domain', c, call, {q: t.mpf(1.3) for q in PHYS + ('kf', 'mu_norm', 'k1_norm', 'k', 't0', 'x0')}, True, msg)


def items(I, v, st):
    """the members of a list (of anything)"""
    if isinstance(v, PyList):
        return list(st.store[v.key])
    return list(I.items1(v, st) or [])


def ding_domain(ctx):
    for bad in ('SC', 'ss', ''):
        refused(ctx, make(ctx, bad, 2, 3), 'DingEtAl2012 BC=%r' % bad, 'the unknown end condition is accepted')


def specdomain(ctx):
    kw = dict(nterms=2, nquad=3, tvals_norm=A([sym('t0')]), xvals_norm=A([sym('x0')]), **{k: sym(k) for k in ('kf', 'mu_norm', 'k1_norm')})
    for bad in ('CC', 'FF', 'SC'):
        refused(ctx, Inst(ctx, SM, 'SpecBeam', [], dict(kw, BC=bad)), 'SpecBeam BC=%r' % bad, 'an end condition that is not implemented is accepted')
    for k in ('k3', 'k3_norm'):
        m = Inst(ctx, SM, 'SpecBeam', [], dict(kw, BC='SS', use_analytical=True, **{k: sym('k'), 'E': sym('E'), 'A': sym('A'), 'L': sym('L')}))
        if True:
            refused(ctx, m, 'SpecBeam analytical with %s' % k, 'the linear analytical method is accepted with a non-linear stiffness')


def modes(ctx, M, cls, BC):
    """trial functions: differential equation, end conditions, eigenvalues"""
    n = 3
    seen = []
    rts = [sym('beta%d' % i) for i in range(n)]
    vals = near(dict(beta0=4.7, beta1=7.9, beta2=11.0, x=0.37, b=2.3))
    if M == DM:
        m = make(ctx, BC, n, 5, roots_hook(seen, rts))
    else:
        m = Inst(ctx, SM, 'SpecBeam', [], dict(BC='SS', nterms=n, nquad=3, tvals_norm=A([sym('t0')]), xvals_norm=A([sym('x0')]), **{k: sym(k) for k in ('kf', 'mu_norm', 'k1_norm')}))
    X, B = sym('x'), sym('b')
    w = m.where
    ph = m.call('phi' + BC, X, B)
    via = m.I.node(m.I.call(m.attr('phi').r, [X, B], {}, m.st), m.st)
    ph = ph.value()
    T = '%s %s' % (cls, BC)
    same(ctx, 'trial functions', '%s choice' % T, w, via, ph, 'the trial function in use is not that of the end condition', values=vals)
    d = [ph]
    for i in range(4):
        d.append(diff(d[-1], X))
    same(ctx, 'trial functions', '%s fourth derivative' % T, w, d[4], mul(pw(B, num(4)), ph), 'the fourth derivative is not beta**4 times the function', values=vals)
    zero = lambda nm, k, at, extra=ONE, char=None: same(ctx, 'trial functions', '%s %s' % (T, nm), w, add(mul(t.subst(d[k], {X: at}), extra), ONE), ONE if char is None else add(ONE, char), nm + ': the end condition does not hold', values=vals)
    ch, cs, sh, sn = [fn(q, B) for q in ('cosh', 'cos', 'sinh', 'sin')]
    cc = sub(mul(ch, cs), ONE)
    beta = [m.attr('beta').at(i) for i in range(n)]
    if BC == 'SS':
        zero('deflection at the start', 0, ZERO)
        zero('moment at the start', 2, ZERO)
        for i in range(n):
            same(ctx, 'trial functions', '%s eigenvalue %d' % (T, i + 1), w, beta[i], mul(num(i + 1), fn('pi')), 'the eigenvalue is not i*pi', values=vals)
        for k in (0, 2):
            q = t.subst(d[k], {X: ONE, B: beta[1]})
            same(ctx, 'trial functions', '%s end derivative %d' % (T, k), w, add(q, ONE), ONE, 'the end condition does not hold', values=vals)
    else:
        k0 = 0 if BC == 'CC' else 2
        zero('first condition at the start', k0, ZERO)
        zero('second condition at the start', k0 + 1, ZERO)
        zero('first condition at the end', k0, ONE)
        # the second one holds exactly at the roots of cos*cosh = 1
        fac = div(mul(num(2), pw(B, num(k0 + 1))), sub(sh, sn))
        same(ctx, 'trial functions', '%s second condition at the end' % T, w, t.subst(d[k0 + 1], {X: ONE}), mul(fac, cc), 'the end condition does not hold at the roots of cos(beta)*cosh(beta) = 1', values=vals)
        if len(seen) != 1 or seen[0][1] not in (n, num(n)):
            ctx.violation('trial functions', '%s roots' % T, 'not nterms roots of one characteristic equation', w)
        elif seen:
            same(ctx, 'trial functions', '%s characteristic equation' % T, w, seen[0][0], neg(cc), 'the eigenvalues are not the roots of cos(beta)*cosh(beta) = 1', values=vals)
        want = rts if BC == 'CC' else [ZERO] + rts[:-1]
        for i in range(n):
            same(ctx, 'trial functions', '%s eigenvalue %d' % (T, i + 1), w, beta[i], want[i], 'the eigenvalue is not that of the mode', values=vals)
        if BC == 'FF':
            still = near(dict(b=0.0, x=0.37, x2=0.8))
            ctx.count('equations')
            if t.equal(ph, t.subst(ph, {X: sym('x2')}), values=still).verdict == 'equal':
                ctx.ok('rigid-mode', 'DingEtAl2012.phiFF')
            else:
                ctx.violation('rigid-mode', 'DingEtAl2012.phiFF', 'the mode of beta=0 that BC=FF includes is not a uniform displacement but 0/0', w)


def quad(ctx, BC):
    for N in (5, 6, 9, 20):
        seen = []

        def solve(I, a, kw, st, f):
            seen.append((rows(I, st, a[0]), rows(I, st, a[1])))
            return wrap(I, st, A([sym('w%d' % i) for i in range(N)]))
        m = make(ctx, BC, 1, N, dict(roots_hook([], [sym('beta0')]), **{'numpy.linalg.solve': solve}))
        weights(ctx, m, seen, N, '%s %d points' % (BC, N))


def weights(ctx, m, seen, N, T):
    w = m.where
    p = [m.attr('xj').at(i) for i in range(N)]
    one = lambda i, what: same(ctx, 'quadrature', '%s %s' % (T, 'first' if not i else 'last'), w, add(p[i], ONE), add(what, ONE), 'the points do not span the beam')
    one(0, ZERO)
    one(N - 1, ONE)
    for i in range(N - 1):
        # increasing: a rearrangement that the sampled value decides
        gap = sub(p[i + 1], p[i])
        same(ctx, 'quadrature', '%s gap %d' % (T, i), w, fn('abs', gap), gap, 'the points do not increase')
        if t.equal(add(gap, ONE), ONE).verdict == 'equal':
            ctx.violation('quadrature', '%s gap %d' % (T, i), 'two quadrature points coincide', w)
    if len(seen) != 1:
        ctx.undecided('quadrature', T, 'the weights are not from one linear system')
        return
    lhs, rhs = seen[0]
    for i in range(N):
        same(ctx, 'quadrature', '%s moment %d' % (T, i), w, rhs[i], num(Fraction(1, i + 1)), 'the moment is not 1/(k+1)')
        for j in range(N) if N < 7 or i in (0, 1, N - 1) else (0, N // 2):
            want = ONE if i == 0 else pw(p[j], num(i))
            same(ctx, 'quadrature', '%s power %d of point %d' % (T, i, j), w, add(lhs[i][j], ONE), add(want, ONE), 'the row is not that power of the points')
    for i in range(N):
        same(ctx, 'quadrature', '%s weight %d' % (T, i), w, m.attr('Ij').at(i), sym('w%d' % i), 'the weights are not the solution')


def ding(ctx, BC, nq, n):
    rts = [sym('beta%d' % i) for i in range(n)]
    wts = [sym('w%d' % i) for i in range(nq or 0)]
    hk = dict(roots_hook([], rts))
    hk['numpy.linalg.solve'] = lambda I, a, kw, st, f: wrap(I, st, A(wts))

    def scipy_quad(I, a, kw, st, f):
        kw = dict(zip(('func', 'a', 'b', 'args'), a), **kw)
        ar = items(I, kw['args'], st) if 'args' in kw else []
        body = I.node(I.call(kw['func'], [x] + list(ar), {}, st), st)
        return wrap(I, st, (integral(I.node(kw['a'], st), I.node(kw['b'], st), body, x), sym('err')))
    hk['scipy.integrate.quad'] = scipy_quad
    m = make(ctx, BC, n, nq, hk)
    if BC == 'FF':
        m.set(beta=A(rts))
    P = norms()
    q = [sym('q%d' % i) for i in range(n)]
    qd = [sym('d%d' % i) for i in range(n)]
    tn = sym('tn')
    c = m.call('vectorfield', A(q + qd), tn)
    beta = [mul(num(i + 1), fn('pi')) for i in range(n)] if BC == 'SS' else rts
    phi = lambda X, i: m.I.node(m.I.call(m.attr('phi').r, [X, beta[i]], {}, m.st), m.st)
    pts = [m.attr('xj').at(i) for i in range(nq or 0)]
    vals = near(dict(V.base, beta0=4.7, beta1=7.9, beta2=11.0, q0=0.6, q1=-0.4, q2=0.7, d0=0.3, d1=0.8, d2=-0.5, **{'w%d' % i: 0.3 + 0.1 * i for i in range(nq or 0)}))
    T = 'DingEtAl2012 %s, %d terms, %s points' % (BC, n, nq)
    coef = num(2) if BC == 'SS' else ONE           # one over the integral of the squared trial function
    for i in range(n):
        same(ctx, 'equation', '%s rate of q%d' % (T, i), c.where, c.at(i), qd[i], 'the rate of a coefficient is not its velocity', values=vals, vary=['d%d' % i])
        cube = lambda X: mul(pw(add(*[mul(q[k], phi(X, k)) for k in range(n)]), num(3)), phi(X, i))
        y = add(*[mul(wts[j], cube(pts[j])) for j in range(nq)]) if nq else integral(ZERO, ONE, cube(x), x)
        want = add(neg(mul(P['mu_norm'], qd[i])), neg(mul(add(P['k1_norm'], mul(sq(P['kf']), pw(beta[i], num(4)))), q[i])), mul(coef, P['Fz_norm'], phi(mul(P['v_norm'], tn), i)), neg(mul(coef, P['k3_norm'], y)))
        same(ctx, 'equation', '%s acceleration of q%d' % (T, i), c.where, c.at(n + i), want, 'the acceleration is not that of the equation of motion', values=vals, vary=['q0', 'd0', 'tn', 'k3', 'Fz'])
    if BC == 'SS' and n > 1:
        for i in range(n):
            same(ctx, 'equation', '%s norm of mode %d' % (T, i), c.where, mul(m.attr('BC_coeff').value(), integral(ZERO, ONE, sq(phi(x, i)), x)), ONE, 'the coefficient is not one over the integral of the squared trial function', values=vals)
    if BC != 'SS':
        same(ctx, 'equation', '%s BC_coeff' % T, m.where, m.attr('BC_coeff').value(), ONE, 'the coefficient is not one over the integral of the squared trial function', values=vals)


def solution(ctx, M, cls):
    n, nt = 2, 3
    seen = []

    def ode(I, a, kw, st, f):
        kw = dict(zip(('func', 'y0', 't', 'args'), a), **kw)
        seen.append((kw.get('func'), rows(I, st, kw['y0']), I.as_array(kw['t'], st), sorted(kw)))
        return wrap(I, st, A([A([sym('s%d_%d' % (j, i)) for i in range(2 * n)]) for j in range(nt)]))
    hk = {'scipy.integrate.odeint': ode}
    hk.update(mats(n, []))
    tt = [sym('t%d' % i) for i in range(nt)]
    E, rho, L = sym('E'), sym('rho'), sym('L')
    scale = div(pw(div(E, rho), num(SQ)), L)
    vals = near(dict(V.base, t0=0.2, t1=0.9, t2=1.7, x0=0.3, x1=0.8, **{'s%d_%d' % (j, i): 0.3 + 0.2 * j + 0.05 * i for j in range(nt) for i in range(2 * n)}))
    X = [sym('x0'), sym('x1')]
    for form in ('t', 't_norm'):
        if M == DM:
            m = make(ctx, 'SS', n, 3, hk)
        else:
            m = Inst(ctx, SM, cls, [], dict(BC='SS', nterms=n, nquad=3, tvals=A(tt), xvals=A(X), **{k: sym(k) for k in PHYS if k not in ('Fz', 'v', 'k3')}), hooks=hk)
        del seen[:]
        c = m.call('calulate_qk', **{form: A(tt)})
        if len(seen) != 1:
            ctx.violation('solution', '%s %s' % (cls, form), 'the equations are not integrated once', c.where)
            continue
        f, y0, ts, kws = seen[0]
        want = [mul(q, scale) for q in tt] if form == 't' else tt
        nm = getattr(getattr(f, 'node', None), 'name', None)
        (ctx.ok if nm == 'vectorfield' else ctx.undecided)('solution', '%s %s function' % (cls, form), *([] if nm == 'vectorfield' else ['integrates %s' % nm]))
        for i in range(nt):
            same(ctx, 'solution', '%s %s time %d' % (cls, form, i), c.where, m.I.elem(ts, (num(i),), m.st), want[i], 'the equations are integrated over other times', values=vals)
        if len(y0) != 2 * n:
            ctx.violation('solution', '%s %s initial state' % (cls, form), 'the state vector has the wrong length', c.where)
        for i, v in enumerate(y0):
            same(ctx, 'solution', '%s %s initial %d' % (cls, form, i), c.where, add(v, ONE), ONE, 'the beam does not start at rest', values=vals)
        phi = lambda X, k: fn('sin', mul(num(k + 1), fn('pi'), X))
        for xf in ('x', 'x_norm'):
            for norm in (True, False, None):
                for sl in (None, 'last'):
                    kw = {xf: A(X)}
                    if norm is not None:
                        kw['normalise_w'] = norm
                    if sl:
                        from sa.front import SliceV
                        kw['tslice'] = SliceV(num(1), None, None)
                    js = range(nt) if not sl else range(1, nt)
                    if form == 't_norm' and sl:
                        continue
                    c = m.call('wofx', **kw)
                    T = '%s wofx %s normalise_w=%s%s%s' % (cls, xf, norm, ', from the second time' if sl else '', ', normalised times' if form == 't_norm' else '')
                    for a in range(2):
                        xx = div(X[a], L) if xf == 'x' else X[a]
                        for jj, j in enumerate(js):
                            w = add(*[mul(sym('s%d_%d' % (j, k)), phi(xx, k)) for k in range(n)])
                            same(ctx, 'solution', '%s [%d,%d]' % (T, a, j), c.where, c.at(a, jj), w if norm is not False else mul(w, L), 'the deflection is not the sum of the modes', values=vals)
                    if not sl:
                        c = m.call('wofx', **dict(kw, **{xf: X[0]}))
                        for j in range(nt):
                            xx = div(X[0], L) if xf == 'x' else X[0]
                            w = add(*[mul(sym('s%d_%d' % (j, k)), phi(xx, k)) for k in range(n)])
                            same(ctx, 'solution', '%s, one point [%d]' % (T, j), c.where, c.at(j), w if norm is not False else mul(w, L), 'the deflection is not the sum of the modes', values=vals)


def mats(n, seen):
    def mat(name, names):
        def h(I, a, k, st, f):
            kw = dict(zip(names, a), **k)
            ob = lambda v: (lambda d: tuple(I.node(I.elem(I.as_array(d[q], st), (ZERO,), st), st) for q in ('_y',)) if '_y' in d else ())(st.store[v.key]) if isinstance(v, ObjV) else None
            tag = '_'.join(str(kw[q].symname if isinstance(kw[q], ObjV) else '?') for q in names if q not in ('m', 'implementation'))
            m = rows(I, st, kw['m'])
            seen.append((name, tag, m))
            return wrap(I, st, A([A([sym('%s:%s:%d%d' % (name, tag, i, j)) for j in range(len(m))]) for i in range(len(m))]))
        return h
    return {IN + 'pdim1sin_abf_linear': mat('abf', ('m', 'a', 'b', 'implementation')), IN + 'pdim1sin_DD_abDDf_linear': mat('DDabDDf', ('m', 'a', 'b', 'implementation')),
            IN + 'pdim1sin_af_linear': mat('af', ('m', 'a', 'implementation'))}


BARS = ('Ebar', 'Ibar', 'rhobar', 'Abar', 'k1bar', 'k3bar', 'mubar')


def bar(name):
    def mk(I, st):
        r = I.p.resolve('geotecha.piecewise.piecewise_linear_1d', 'PolyLine')
        o = ObjV(newkey(), ClassV(r[1], r[2]))
        st.store[o.key] = {}
        o.symname = name
        return o
    return mk


def interp(I, a, k, st, f):
    kw = dict(zip(('a', 'xi'), a), **k)
    nm = kw['a'].symname if isinstance(kw['a'], ObjV) and kw['a'].symname else '?'
    v = I.as_array(kw['xi'], st)
    if v is None or isinstance(kw['xi'], t.Node):
        return wrap(I, st, A([call('at_' + nm, I.node(kw['xi'], st))]))
    return wrap(I, st, A([call('at_' + nm, q) for q in rows(I, st, v)]))


def beam(ctx, n, nq, seen, moving=0, still=0, extra=None, hooks=None, **kw):
    hk = mats(n, seen)
    hk['geotecha.piecewise.piecewise_linear_1d.pinterp_x_y'] = interp
    hk['numpy.linalg.solve'] = lambda I, a, k, st, f: wrap(I, st, A([sym('w%d' % i) for i in range(nq)]))
    hk.update(hooks or {})

    def setup(I, st):
        d = dict(BC='SS', nterms=n, nquad=nq, kf=sym('kf'), mu_norm=sym('mu_n'), k1_norm=sym('k1_n'), k3_norm=sym('k3_n'), tvals_norm=A([sym('t0'), sym('t1')]), xvals_norm=A([sym('x0'), sym('x1'), sym('x2')]), implementation='scalar')
        for b in BARS:
            d[b] = bar(b)(I, st)
        if moving:
            d.update(moving_loads_x_norm=A([A([sym('mx%d%d' % (g, i)) for i in range(2)]) for g in range(moving)]), moving_loads_Fz_norm=A([A([sym('mp%d%d' % (g, i)) for i in range(2)]) for g in range(moving)]),
                     moving_loads_v_norm=A([sym('mv%d' % g) for g in range(moving)]), moving_loads_offset_norm=A([sym('mo%d' % g) for g in range(moving)]), moving_loads_t0_norm=A([sym('mt%d' % g) for g in range(moving)]),
                     moving_loads_x0_norm=A([sym('ms%d' % g) for g in range(moving)]), moving_loads_L_norm=A([sym('mL%d' % g) for g in range(moving)]))
        if still:
            d.update(stationary_loads_x_norm=[sym('px%d' % g) for g in range(still)], stationary_loads_vs_t_norm=[bar('load%d' % g)(I, st) for g in range(still)],
                     stationary_loads_omega_phase_norm=[(sym('om%d' % g), sym('ph%d' % g)) if g % 2 == 0 else None for g in range(still)])
        d.update(kw)
        return [], d
    return Inst(ctx, SM, 'SpecBeam', setup=setup, hooks=hk)


def spec(ctx, moving, still):
    n, nq = 2, 3
    seen, solved = [], []
    m = beam(ctx, n, nq, seen, moving, still)
    T = 'SpecBeam %d moving, %d stationary' % (moving, still)
    tn = sym('tn')
    q, qd = [sym('q0'), sym('q1')], [sym('d0'), sym('d1')]
    r = m.call('time_independant_matrices')
    base = dict(kf=0.7, mu_n=0.9, k1_n=1.1, k3_n=0.6, q0=0.6, q1=-0.4, d0=0.3, d1=0.8, tn=1.1, w0=0.2, w1=0.7, w2=0.3)
    for g in range(2):
        base.update({'px%d' % g: 0.4 + 0.2 * g, 'om%d' % g: 1.2, 'ph%d' % g: 0.5, 'mo%d' % g: 0.1 - 0.3 * g, 'mt%d' % g: 0.3 + 0.1 * g, 'ms%d' % g: 0.15, 'mL%d' % g: 0.9, 'mv%d' % g: 0.8 - 1.9 * g, 'mx%d0' % g: -0.05, 'mx%d1' % g: -0.3, 'mp%d0' % g: 1.4, 'mp%d1' % g: 0.7 + g})
    mm = lambda nm, i, j: sym('%s:%d%d' % (nm, i, j))
    xj = [m.attr('xj').at(i) for i in range(nq)]
    beta = [mul(num(i + 1), fn('pi')) for i in range(n)]
    for i in range(n):
        for j in range(n):
            at = '%s [%d,%d]' % (T, i, j)
            base.update({'%s:%d%d' % (nm, i, j): v + 0.3 * i - 0.2 * j for nm, v in (('abf:rhobar_Abar', 1.5), ('DDabDDf:Ebar_Ibar', 2.1), ('af:k1bar', 0.8), ('af:mubar', 1.3))})
    vals = near(base)
    for i in range(n):
        for j in range(n):
            at = '%s [%d,%d]' % (T, i, j)
            same(ctx, 'matrices', 'mass ' + at, r.where, m.attr('lam_qdotdot').at(i, j), mm('abf:rhobar_Abar', i, j), 'the mass matrix is not the integral of rho*A', values=vals)
            same(ctx, 'matrices', 'stiffness ' + at, r.where, m.attr('psi_q').at(i, j), neg(add(mul(sq(sym('kf')), mm('DDabDDf:Ebar_Ibar', i, j)), mul(sym('k1_n'), mm('af:k1bar', i, j)))), 'the stiffness matrix is not that of bending and foundation', values=vals)
            same(ctx, 'matrices', 'damping ' + at, r.where, m.attr('psi_qdot').at(i, j), neg(mul(sym('mu_n'), mm('af:mubar', i, j))), 'the damping matrix is not that of the foundation', values=vals)
    for j in range(nq):
        same(ctx, 'matrices', 'k3 at point %d %s' % (j, T), r.where, m.attr('k3barj').at(j), call('at_k3bar', xj[j]), 'the non-linear stiffness is not that at the quadrature points', values=vals)
    for nm, tag, ms in seen:
        for i in range(n):
            same(ctx, 'matrices', '%s eigenvalue %d %s' % (nm, i, T), r.where, ms[i], beta[i], 'the integral is not over the modes of the beam', values=vals)
    m.I.hooks['numpy.linalg.solve'] = lambda I, a, k, st, f: (solved.append(rows(I, st, a[0])), a[1])[1]
    c = m.call('vectorfield', A(q + qd), tn)
    phi = lambda X, i: fn('sin', mul(beta[i], X))
    lo = []
    for i in range(n):
        f = []
        for g in range(moving):
            v, t0, s, Lg, off = [sym('%s%d' % (k, g)) for k in ('mv', 'mt', 'ms', 'mL', 'mo')]
            left = base['mv%d' % g] < 0
            for a in range(2):
                xt = add(sym('mx%d%d' % (g, a)), off)
                xt = neg(xt) if left else xt
                s0 = add(s, Lg) if left else s
                pos = add(s0, xt, mul(v, sub(tn, t0)))
                end = sub(t0, div(add(Lg, xt), v)) if left else add(t0, div(sub(Lg, xt), v))
                st_ = sub(t0, div(xt, v))
                on = t.ite(t.and_(t.le(st_, tn), t.le(tn, end)), ONE, ZERO)
                f.append(mul(on, sym('mp%d%d' % (g, a)), phi(pos, i)))
        for g in range(still):
            mag = mul(call('at_load%d' % g, tn), phi(sym('px%d' % g), i))
            f.append(mul(mag, fn('cos', add(mul(sym('om%d' % g), tn), sym('ph%d' % g)))) if g % 2 == 0 else mag)
        y = add(*[mul(sym('w%d' % j), pw(add(*[mul(q[k], phi(xj[j], k)) for k in range(n)]), num(3)), call('at_k3bar', xj[j]), phi(xj[j], i)) for j in range(nq)])
        psi = [mul(m.attr('psi_q').at(i, k), q[k]) for k in range(n)] + [mul(m.attr('psi_qdot').at(i, k), qd[k]) for k in range(n)]
        lo.append(add(*(psi + f + [neg(mul(sym('k3_n'), y))])))
    for i in range(n):
        same(ctx, 'equation', '%s rate of q%d' % (T, i), c.where, c.at(i), qd[i], 'the rate of a coefficient is not its velocity', values=vals)
        for tv in (0.02, 0.5, 0.8, 1.3, 4.0) if moving else (1.1,):
            same(ctx, 'equation', '%s force on q%d at time %s' % (T, i, tv), c.where, c.at(n + i), lo[i], 'the right-hand side is not that of the equation of motion', values=near(dict(base, tn=tv)))
    if len(solved) != 1:
        ctx.undecided('equation', T + ' mass', 'no linear system with the mass matrix')
    else:
        for i in range(n):
            for j in range(n):
                same(ctx, 'equation', '%s mass [%d,%d]' % (T, i, j), c.where, solved[0][i][j], mm('abf:rhobar_Abar', i, j), 'the accelerations are not found with the mass matrix', values=vals)


def spec_quad(ctx):
    for N in (4, 7, 20):
        seen = []

        def solve(I, a, kw, st, f):
            seen.append((rows(I, st, a[0]), rows(I, st, a[1])))
            return wrap(I, st, A([sym('w%d' % i) for i in range(N)]))
        m = beam(ctx, 2, N, [], hooks={'numpy.linalg.solve': solve})
        weights(ctx, m, seen, N, 'SpecBeam %d points' % N)


def spec_norm(ctx, optional):
    """normalised loads from physical ones, with and without the optional ones"""
    E, I, rho, Ar, L, k1, k3, mu, Fz, v = [sym(q) for q in PHYS]
    ts = div(pw(div(E, rho), num(SQ)), L)
    base = dict(V.base)
    syms = {}

    def S(nm, val):
        base[nm] = val
        return sym(nm)
    made = []
    kw = dict(BC='SS', nterms=2, nquad=3, **{k: sym(k) for k in PHYS if k not in ('Fz', 'v')})
    kw.update(tvals=A([S('t0', 0.3), S('t1', 0.9)]), xvals=A([S('x0', 0.4), S('x1', 0.8)]))
    mx = [[S('mx%d%d' % (g, i), -0.1 - 0.2 * i - 0.07 * g) for i in range(2)] for g in range(2)]
    mp = [[S('mp%d%d' % (g, i), 1.1 + 0.2 * i - 0.07 * g) for i in range(2)] for g in range(2)]
    mv = [S('mv0', 0.7), S('mv1', -0.9)]
    kw.update(moving_loads_x=A([A(q) for q in mx]), moving_loads_Fz=A([A(q) for q in mp]), moving_loads_v=A(mv))
    opt = {}
    for k, w in (('offset', 0.2), ('t0', 0.5), ('x0', 0.1), ('L', 1.2)):
        opt[k] = [S('m%s%d' % (k, g), w + 0.1 * g) for g in range(2)]
        if optional:
            kw['moving_loads_' + k] = A(opt[k])
    px = [S('px0', 0.6), S('px1', 1.1)]
    om = (S('om', 1.4), S('ph', 0.6))

    def setup(I_, st):
        d = dict(kw)
        d['stationary_loads_x'] = px
        d['stationary_loads_vs_t'] = [line([sym('la0'), sym('la1')], [sym('lb0'), sym('lb1')])(I_, st) for g in range(2)]
        if optional:
            d['stationary_loads_omega_phase'] = [om, None]
        return [], d
    base.update(la0=0.2, la1=0.9, lb0=0.6, lb1=1.4)
    vals = near(base)
    m = Inst(ctx, SM, 'SpecBeam', setup=setup)
    T = 'SpecBeam %s optional values' % ('with' if optional else 'without')
    P = norms()
    w = m.where
    for k in ('kf', 'mu_norm', 'k1_norm', 'k3_norm'):
        same(ctx, 'normalise', '%s %s' % (T, k), w, m.attr(k).value(), P[k], '%s is not what the physical parameters give' % k, values=vals)
    for i in range(2):
        same(ctx, 'normalise', '%s time %d' % (T, i), w, m.attr('tvals_norm').at(i), mul(sym('t%d' % i), ts), 'the normalised time is not t/L*sqrt(E/rho)', values=vals)
        same(ctx, 'normalise', '%s distance %d' % (T, i), w, m.attr('xvals_norm').at(i), div(sym('x%d' % i), L), 'the normalised distance is not x/L', values=vals)
    for g in range(2):
        want = dict(x=[div(q, L) for q in mx[g]], p=[div(q, mul(E, Ar)) for q in mp[g]], v=mul(mv[g], pw(div(rho, E), num(SQ))), offset=div(opt['offset'][g], L) if optional else ZERO,
                    t0=mul(opt['t0'][g], ts) if optional else ZERO, x0=div(opt['x0'][g], L) if optional else ZERO, L=div(opt['L'][g], L) if optional else ONE)
        phys = dict(x=mx[g], p=mp[g], v=mv[g], offset=opt['offset'][g] if optional else ZERO, t0=opt['t0'][g] if optional else ZERO, x0=opt['x0'][g] if optional else ZERO, L=opt['L'][g] if optional else L)
        for which, ref in (('moving_loads_norm', want), ('moving_loads', phys)):
            lst = items(m.I, m.attr(which).r, m.st)
            if len(lst) != 2 or not isinstance(lst[g], ObjV):
                ctx.violation('normalise', '%s %s' % (T, which), 'there is not one group of loads for each one given', w)
                continue
            for a, r in ref.items():
                got = m.I.getattr(lst[g], a, m.st)
                if a in 'xp':
                    for i in range(2):
                        same(ctx, 'normalise', '%s %s %d %s%d' % (T, which, g, a, i), w, m.I.elem(m.I.as_array(got, m.st), (num(i),), m.st), r[i], 'the loads are not those given', values=vals)
                else:
                    same(ctx, 'normalise', '%s %s %d %s' % (T, which, g, a), w, add(m.I.node(got, m.st), ONE), add(r, ONE), 'the %s of the load group is not that given' % a, values=vals)
    sx = m.attr('stationary_loads_x_norm')
    sl = items(m.I, m.attr('stationary_loads_vs_t_norm').r, m.st)
    so = items(m.I, m.attr('stationary_loads_omega_phase_norm').r, m.st)
    for g in range(2):
        same(ctx, 'normalise', '%s stationary x %d' % (T, g), w, sx.at(g), div(px[g], L), 'the position is not x/L', values=vals)
        for i in range(2):
            el = lambda a: m.I.elem(m.I.as_array(m.I.getattr(sl[g], a, m.st), m.st), (num(i),), m.st)
            same(ctx, 'normalise', '%s stationary load %d time %d' % (T, g, i), w, el('x'), mul(sym('la%d' % i), ts), 'the times of the load are not normalised', values=vals)
            same(ctx, 'normalise', '%s stationary load %d size %d' % (T, g, i), w, el('y'), div(sym('lb%d' % i), mul(E, Ar)), 'the size of the load is not normalised by E*A', values=vals)
        if g == 0 and optional:
            o = items(m.I, so[g], m.st)
            same(ctx, 'normalise', '%s omega' % T, w, m.I.node(o[0], m.st), div(om[0], ts), 'the frequency does not belong to the normalised time', values=vals)
            same(ctx, 'normalise', '%s phase' % T, w, m.I.node(o[1], m.st), om[1], 'the phase angle has changed', values=vals)
        elif so[g] is not None:
            ctx.violation('normalise', '%s omega %d' % (T, g), 'a load without cyclic component has one', w)
        else:
            ctx.ok('normalise', '%s omega %d' % (T, g))


def analytical(ctx):
    n, nq = 2, 3
    seen, got = [], {}

    def rec(name, names, shape):
        def h(I, a, kw, st, f):
            d = dict(zip(names, a), **kw)
            got.setdefault(name, []).append((I, st, d))
            return wrap(I, st, A([A([sym('%s_%d_%d' % (name, i, j)) for j in range(shape[1])]) for i in range(shape[0])]))
        return h
    hk = {SC + 'dim1sin_E_Igamv_the_mvpl': rec('mvpl', ('m', 'eigs', 'tvals', 'Igamv', 'moving_loads', 'dT', 'theta_zero_indexes', 'implementation'), (2 * n, 2)),
          SC + 'dim1sin_E_Igamv_the_deltamag_linear': rec('still', ('m', 'eigs', 'tvals', 'Igamv', 'zvals', 'pseudo_k', 'mag_vs_time', 'omega_phase', 'dT', 'theta_zero_indexes', 'implementation'), (2 * n, 2)),
          SC + 'dim1sin_f': rec('f', ('m', 'outz', 'tvals', 'v_E_Igamv_the', 'drn', 'phi_over_k'), (3, 2))}
    inv = []

    def np_inv(I, a, kw, st, f):
        r = rows(I, st, a[0])
        inv.append(r)
        return wrap(I, st, A([A([sym('inv%d_%d_%d' % (len(inv), i, j)) for j in range(len(r))]) for i in range(len(r))]))

    def eig(I, a, kw, st, f):
        got['eig'] = rows(I, st, a[0])
        return wrap(I, st, (A([sym('eig%d' % i) for i in range(2 * n)]), A([A([sym('v%d%d' % (i, j)) for j in range(2 * n)]) for i in range(2 * n)])))
    hk.update({'numpy.linalg.inv': np_inv, 'numpy.linalg.eig': eig, SM + '.SpecBeam.load_defl': lambda I, a, kw, st, f: False})
    for moving, still in ((1, 1), (1, 0), (0, 1)):
        got.clear()
        del inv[:]
        m = beam(ctx, n, nq, seen, moving, still, hooks=hk, use_analytical=True, force_calc=True, L=sym('L'), k3_norm=0, k3=0)
        c = m.call('runme')
        T = 'SpecBeam analytical %d moving %d stationary' % (moving, still)
        w = c.where
        mm = lambda nm, i, j: sym('%s:%d%d' % (nm, i, j))
        base = dict(kf=0.7, mu_n=0.9, k1_n=1.1, L=1.6)
        for i in range(4):
            for j in range(4):
                base.update({'%s:%d%d' % (nm, i, j): v + 0.3 * i - 0.2 * j for nm, v in (('abf:rhobar_Abar', 1.5), ('DDabDDf:Ebar_Ibar', 2.1), ('af:k1bar', 0.8), ('af:mubar', 1.3))})
        vals = near(base)
        Z = lambda a, b, key, msg: same(ctx, 'analytical', '%s %s' % (T, key), w, add(a, ONE), add(b, ONE), msg, values=vals)
        if len(inv) != 2 or 'eig' not in got:
            ctx.undecided('analytical', T, 'not an eigen problem of inverse(gam)*psi')
            continue
        dl = lambda i, j: ONE if i == j else ZERO
        for i in range(2 * n):
            for j in range(2 * n):
                g = dl(i, j) if i < n or j < n else mm('abf:rhobar_Abar', i - n, j - n)
                Z(inv[0][i][j], g, 'gamma [%d,%d]' % (i, j), 'gamma is not [[1, 0], [0, mass]]')
                if i < n:
                    p = neg(dl(i, j - n)) if j >= n else ZERO
                elif j < n:
                    p = add(mul(sq(sym('kf')), mm('DDabDDf:Ebar_Ibar', i - n, j)), mul(sym('k1_n'), mm('af:k1bar', i - n, j)))
                else:
                    p = mul(sym('mu_n'), mm('af:mubar', i - n, j - n))
                Z(m.attr('psi').at(i, j), p, 'psi [%d,%d]' % (i, j), 'psi is not [[0, -1], [stiffness, damping]]')
                Z(got['eig'][i][j], add(*[mul(sym('inv1_%d_%d' % (i, k)), m.attr('psi').at(k, j)) for k in range(2 * n)]), 'eigenproblem [%d,%d]' % (i, j), 'the eigenvalues are not those of inverse(gam)*psi')
                Z(inv[1][i][j], add(*[mul(inv[0][i][k], sym('v%d%d' % (k, j))) for k in range(2 * n)]), 'gam*v [%d,%d]' % (i, j), 'the matrix is not gam*v')
        beta = [mul(num(i + 1), fn('pi')) for i in range(n)]
        for name, on in (('mvpl', moving), ('still', still)):
            if len(got.get(name, [])) != (1 if on else 0):
                ctx.violation('analytical', '%s %s' % (T, name), 'the contribution is not added exactly when there are such loads', w)
                continue
            if not on:
                continue
            I, st, d = got[name][0]
            for i in range(2 * n):
                Z(I.elem(I.as_array(d['m'], st), (num(i),), st), beta[i % n], '%s m %d' % (name, i), 'the modes of the two blocks are not those of the beam')
                Z(I.elem(I.as_array(d['eigs'], st), (num(i),), st), sym('eig%d' % i), '%s eig %d' % (name, i), 'the eigenvalues are not those found')
                for j in range(2 * n):
                    Z(I.elem(I.as_array(d['Igamv'], st), (num(i), num(j)), st), sym('inv2_%d_%d' % (i, j)), '%s Igamv [%d,%d]' % (name, i, j), 'the matrix is not inverse(gam*v)')
            for j in range(2):
                Z(I.elem(I.as_array(d['tvals'], st), (num(j),), st), sym('t%d' % j), '%s time %d' % (name, j), 'the times are not those asked for')
            if 'dT' in d:
                Z(I.node(d['dT'], st), ONE, '%s dT' % name, 'time is scaled')
            tz = d.get('theta_zero_indexes')
            ok = [getattr(tz, k, 0) for k in ('lo', 'hi', 'step')] if tz is not None else None
            ctx.count('slices')
            sv = m.I.as_array(wrap(m.I, m.st, A([sym('z%d' % i) for i in range(2 * n)])), m.st)
            part = m.I.index(sv, [tz], m.st) if tz is not None else None
            if part is None:
                ctx.violation('analytical', '%s %s theta' % (T, name), 'the load acts on the deflections as well as on the velocities', w)
            else:
                r = rows(m.I, m.st, part)
                if len(r) != n:
                    ctx.violation('analytical', '%s %s theta' % (T, name), 'the load does not act on exactly the velocity block', w)
                else:
                    for i in range(n):
                        Z(r[i], sym('z%d' % i), '%s theta %d' % (name, i), 'the load does not act on exactly the velocity block')
        if still:
            I, st, d = got['still'][0]
            Z(I.node(items(I, d['pseudo_k'], st)[0], st), ONE, 'stationary factor', 'the load is scaled')
            Z(I.node(items(I, d['zvals'], st)[0], st), sym('px0'), 'stationary position', 'the load is elsewhere')
            o = items(I, items(I, d['omega_phase'], st)[0], st)
            Z(I.node(o[0], st), sym('om0'), 'stationary frequency', 'the frequency is another')
            Z(I.node(o[1], st), sym('ph0'), 'stationary phase', 'the phase is another')
            mg = items(I, d['mag_vs_time'], st)
            if len(mg) != 1 or getattr(mg[0], 'symname', None) != 'load0':
                ctx.violation('analytical', T + ' stationary load', 'the load is not the one given', w)
        if moving:
            I, st, d = got['mvpl'][0]
            if [getattr(q, 'key', None) for q in items(I, d['moving_loads'], st)] != [getattr(q, 'key', 0) for q in items(I, m.attr('moving_loads_norm').r, m.st)]:
                ctx.violation('analytical', T + ' moving loads', 'the loads are not the normalised ones', w)
        if len(got.get('f', [])) != 1:
            ctx.violation('analytical', T + ' output', 'the deflection is not a sum of modes', w)
            continue
        I, st, d = got['f'][0]
        el = lambda k, *ix: I.elem(I.as_array(d[k], st), tuple(num(q) for q in ix), st)
        for i in range(n):
            Z(el('m', i), beta[i], 'output mode %d' % i, 'the output is not a sum over the modes')
            for j in range(2):
                tot = [add(*[sym('%s_%d_%d' % (nm, k, j)) for nm, on in (('mvpl', moving), ('still', still)) if on]) for k in range(2 * n)]
                Z(el('v_E_Igamv_the', i, j), add(*[mul(sym('v%d%d' % (i, k)), tot[k]) for k in range(2 * n)]), 'coefficient [%d,%d]' % (i, j), 'the coefficients are not v times the sum of the contributions')
        for i in range(3):
            Z(el('outz', i), sym('x%d' % i), 'output x %d' % i, 'the deflection is at other points')
        for i in range(2):
            Z(el('tvals', i), sym('t%d' % i), 'output t %d' % i, 'the deflection is at other times')
        if d.get('drn') is not None:
            Z(I.node(d['drn'], st), ZERO, 'output drn', 'the modes are not those of simple supports')
        for i in range(3):
            for j in range(2):
                Z(m.attr('defl').at(i, j), mul(m.attr('defl_norm').at(i, j), sym('L')), 'defl [%d,%d]' % (i, j), 'the deflection is not the normalised one times L')
                Z(m.attr('defl_norm').at(i, j), sym('f_%d_%d' % (i, j)), 'defl_norm [%d,%d]' % (i, j), 'the normalised deflection is not the sum of the modes')
