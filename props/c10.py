"""kernel == its defining integral (fundamental theorem of calculus on the value graph)"""
from fractions import Fraction
from sa import terms as t
from sa import kern
from sa.terms import num, ZERO

TECHNIQUE = ('Symbolic differentiation of the value graph of each kernel: with the layer property written a(z)=alpha+beta*z, the derivative with respect to '
             'the layer (or load segment) end must be the defining integrand there, minus the integrand for the start, and the value must vanish for an '
             'empty layer; decided by random interpretation of the terms. Nothing from /repo is imported or run.')

D = t.sym('@D')
LIN = {'at': ('zt', 'A'), 'ab': ('zb', 'A'), 'bt': ('zt', 'B'), 'bb': ('zb', 'B'), 'ct': ('zt', 'C'), 'cb': ('zb', 'C')}


def lin(name, k, z):
    return t.add(t.mk('sel', name + '.alpha', k), t.mul(t.mk('sel', name + '.beta', k), z))


def shift(n, moved, at):
    """express the end values by the linear law, and move `moved` ('zb'|'zt') of layer `at` by D"""
    def zz(nm, k):
        z = t.mk('sel', nm, k)
        if nm != moved:
            return z
        return t.add(z, t.mul(D, t.ite(t.eq(k, at), t.ONE, ZERO)))

    def f(x):
        if x.op != 'sel':
            return None
        nm = x.args[0]
        if nm in LIN:
            zn, pn = LIN[nm]
            k = t.subst(x.args[1], f)
            return lin(pn, k, zz(zn, k))
        if nm == moved:
            return zz(nm, t.subst(x.args[1], f))
        return None
    return t.subst(n, f)


def sin(x):
    return t.fn('sin', x)


def cos(x):
    return t.fn('cos', x)


def integrand(f, p, q, k, z):
    m = lambda i: t.mk('sel', 'm', i)
    A, B, C = (lin(x, k, z) for x in 'ABC')
    bB = t.mk('sel', 'B.beta', k)
    mi = m(p)
    if f == 'dim1sin_af_linear':
        return t.mul(A, sin(t.mul(mi, z)), sin(t.mul(m(q), z)))
    if f == 'dim1sin_abf_linear':
        return t.mul(A, B, sin(t.mul(mi, z)), sin(t.mul(m(q), z)))
    if f == 'dim1sin_D_aDf_linear':
        return t.neg(t.mul(A, mi, m(q), cos(t.mul(mi, z)), cos(t.mul(m(q), z))))
    if f == 'dim1sin_DD_abDDf_linear':
        return t.mul(A, B, mi, mi, m(q), m(q), sin(t.mul(mi, z)), sin(t.mul(m(q), z)))
    if f == 'dim1sin_ab_linear':
        return t.mul(A, B, sin(t.mul(mi, z)))
    if f == 'dim1sin_abc_linear':
        return t.mul(A, B, C, sin(t.mul(mi, z)))
    if f == 'dim1sin_D_aDb_linear':
        return t.neg(t.mul(A, bB, mi, cos(t.mul(mi, z))))


K0 = 6


def one_layer(lo, hi):
    return [(lo + K0, 1)]


def check(ctx):
    ctx.rule('end derivative', 'd(kernel)/d(bottom of a layer) equals the integrand at the bottom')
    ctx.rule('start derivative', 'd(kernel)/d(top of a layer) equals minus the integrand at the top')
    ctx.rule('empty', 'the contribution of a layer (segment) tends to zero with its thickness (duration)')
    ctx.rule('short', 'a short load segment contributes integrand times duration')
    ctx.rule('step', 'an instantaneous load change contributes its jump times the decay since then (zero for the undifferentiated load)')
    ctx.rule('before start', 'a segment that starts after the current time contributes nothing')
    ctx.assumptions += ['arithmetic is over the reals', 'every layer has non-zero thickness and every ramp segment non-zero duration',
                        'which load segments are active at a time is given by the documented contract of the segment search']
    R = kern.Runner(ctx)
    impls = ('vectorized', 'scalar', 'fortran')
    jobs = [lambda f=f, impl=impl: loads(ctx, R, f, impl) for f in reversed(kern.LOADS) for impl in impls]
    jobs += [lambda: basis(ctx, R), lambda: between(ctx, R)]
    jobs += [lambda f=f, impl=impl: matrix(ctx, R, f, impl) for f in kern.MATRIX + kern.VECTOR for impl in impls]
    ctx.parallel(jobs)


def verdict(ctx, rule, c, where, r, msg):
    ctx.count('equations')
    if r.verdict == 'different':
        ctx.violation(rule, c, msg + ' (' + r.detail + ')', where)
    elif r.verdict == 'equal':
        ctx.ok(rule, c)
    else:
        ctx.undecided(rule, c, r.detail)


def thin_z(S, n, ix):
    return t._rnd((S.seed, 'sel', 'zt', tuple(t.vkey(i) for i in ix))) + t.mpf(10) ** -16


def matrix(ctx, R, f, impl):
    p, q = t.idx('p'), t.idx('q')
    I, st, r = R.run(f, impl)
    K = kern.element(I, st, r, (p, q)[:1 if f in kern.VECTOR else 2])
    where = 'geotecha/speccon/integrals.py:%s (implementation=%s)' % (f, impl)
    if f in kern.VECTOR:
        regs = [('any', {p: 5})]
    else:
        regs = [('upper', {p: 5, q: 9}), ('lower', {p: 9, q: 5}), ('diagonal', {p: 7, q: 7})]
    seeds = (1, 2, 3) if ctx.thorough else (1, 2)
    layers = [('inner layer', num(K0), one_layer)]
    if f == 'dim1sin_D_aDb_linear':
        layers += [('first layer', ZERO, lambda lo, hi: [(lo, 1)]), ('last layer', t.sub(kern.NLAY, t.ONE), lambda lo, hi: [(hi - 1, 1)])]
    for lname, kk, pts in layers:
        Kb = t.diff(shift(K, 'zb', kk), D)
        Kt = t.diff(shift(K, 'zt', kk), D)
        zb, zt = t.mk('sel', 'zb', kk), t.mk('sel', 'zt', kk)
        fb = integrand(f, p, q, kk, zb)
        ft = t.neg(integrand(f, p, q, kk, zt))
        if f == 'dim1sin_D_aDb_linear' and lname != 'inner layer':
            # the end of the profile carries the boundary term a*b'*phi of the integration by parts
            strong = lambda z: t.mul(t.mk('sel', 'A.beta', kk), t.mk('sel', 'B.beta', kk), sin(t.mul(t.mk('sel', 'm', p), z)))
            if lname == 'first layer':
                ft = t.neg(strong(zt))
            else:
                fb = strong(zb)
        for nm, rg in regs:
            c = '%s/%s [%s, %s]' % (f, impl, nm, lname)
            kw = dict(index=rg, points=pts, seeds=seeds, values={'@D': 0})
            verdict(ctx, 'end derivative', c, where, t.equal(Kb, fb, **kw), 'the derivative of %s with respect to the bottom of a layer is not the defining integrand' % f)
            verdict(ctx, 'start derivative', c, where, t.equal(Kt, ft, **kw), 'the derivative of %s with respect to the top of a layer is not minus the defining integrand' % f)
            arrays = {'zb': thin_z}
            if f == 'dim1sin_D_aDb_linear':
                arrays = {'zb': lambda S, n, ix: t.mpf(2) / 10 ** 16, 'zt': lambda S, n, ix: t.mpf(1) / 10 ** 16}
            verdict(ctx, 'empty', c, where, t.equal(t.add(shift(K, None, kk), t.ONE), t.ONE, arrays=arrays, **kw), '%s does not vanish with the layer thickness' % f)


def basis(ctx, R):
    ctx.rule('basis', 'eigenvalues satisfy their boundary condition and the sampled / averaged basis functions are sin(m z) and its mean')
    p, q = t.idx('p'), t.idx('q')
    m = t.mk('sel', 'm', q)
    from sa.front import Interp, State, FuncV
    for b in (0, 1):
        I, st = Interp(ctx.p), State()
        mod, node, _ = ctx.func(kern.INTEG, 'm_from_sin_mx')
        r = I.call_func(FuncV(mod, node), [], {'i': t.sym('i'), 'boundary': num(b)}, st)
        spec = t.mul(t.fn('pi'), t.add(t.sym('i'), num(Fraction(2 - b, 2))))
        verdict(ctx, 'basis', 'm_from_sin_mx [boundary=%d]' % b, '%s:m_from_sin_mx' % mod.rel, t.equal(I.node(r, st), spec),
                'the i-th eigenvalue for this boundary condition is not pi*(i+1-%d/2)' % b)
    I, st = Interp(ctx.p), State()
    mod, node, _ = ctx.func(kern.INTEG, 'dim1sin')
    r = I.call_func(FuncV(mod, node), [I.sym_array(st, 'm', [kern.NEIG]), I.sym_array(st, 'zz', [kern.NZ])], {}, st)
    verdict(ctx, 'basis', 'dim1sin', '%s:dim1sin' % mod.rel, t.equal(kern.element(I, st, r, (p, q)), sin(t.mul(m, t.mk('sel', 'zz', p)))), 'element [z, m] is not sin(m*z)')
    I, st, r = R.run('dim1sin_avg_between', None)
    A = kern.element(I, st, r, (p, q))
    zz = [t.mk('sel', 'z', p, num(k)) for k in (0, 1)]
    F = t.mul(A, t.sub(zz[1], zz[0]))
    where = 'geotecha/speccon/integrals.py:dim1sin_avg_between'
    for k in (0, 1):
        dF = t.diff(t.subst(F, lambda x: t.add(zz[k], D) if x is zz[k] else None), D)
        spec = t.mul(num(2 * k - 1), sin(t.mul(m, zz[k])))
        verdict(ctx, 'basis', 'dim1sin_avg_between d/dz%d' % (k + 1), where, t.equal(dF, spec, values={'@D': 0}), 'average times length is not an antiderivative of sin(m*z)')
    near = {'z': lambda S, n, ix: t.mpf('0.7') + int(ix[1]) * t.mpf(10) ** -16}
    verdict(ctx, 'basis', 'dim1sin_avg_between mean', where, t.equal(A, sin(t.mul(m, zz[0])), arrays=near), 'the average over a vanishing interval is not the value there')


def between(ctx, R):
    """integral of a(z)*sin(m z) between two depths, by which layers hold the end points"""
    p, q = t.idx('p'), t.idx('q')
    I, st, r = R.run('dim1sin_a_linear_between', None)
    K = kern.element(I, st, r, (p, q))
    where = 'geotecha/speccon/integrals.py:dim1sin_a_linear_between'
    m = t.mk('sel', 'm', q)
    kk = num(K0)
    zz = [t.mk('sel', 'z', p, num(k)) for k in (0, 1)]
    zt, zb = t.mk('sel', 'zt', kk), t.mk('sel', 'zb', kk)
    f = lambda z: t.mul(lin('A', kk, z), sin(t.mul(m, z)))
    base = lambda S, k: t.mpf(k) + t._rnd((S.seed, 'z', k), 0.1, 0.6)
    for name, (a, b), ends in (('inside one layer', (K0 + .2, K0 + .8), (zz[0], zz[1])), ('from inside a layer', (K0 + .2, K0 + 3.5), (zz[0], zb)),
                               ('across a layer', (K0 - 2.5, K0 + 3.5), (zt, zb)), ('to inside a layer', (K0 - 2.5, K0 + .8), (zt, zz[1]))):
        def at(S, x):
            k = int(x // 1)
            return base(S, k) + (base(S, k + 1) - base(S, k)) * (x - k)
        arrays = {'zt': lambda S, n, ix: base(S, int(ix[0])), 'zb': lambda S, n, ix: base(S, int(ix[0]) + 1),
                  'z': lambda S, n, ix: at(S, (a, b)[int(ix[1])])}
        kw = dict(index={p: 5, q: 9}, points=one_layer, values={'@D': 0}, truth_fn=kern.concrete_truth)
        for k in (0, 1):
            end = ends[k]
            moved = end.args[0] if end in (zt, zb) else None
            Ks = shift(K, moved, kk)
            if moved is None:
                Ks = t.subst(Ks, lambda x: t.add(end, D) if x is end else None)
            spec = t.mul(num(2 * k - 1), f(end))
            verdict(ctx, 'end derivative' if k else 'start derivative', 'dim1sin_a_linear_between [%s]' % name, where,
                    t.equal(t.diff(Ks, D), spec, arrays=arrays, probe=True, **kw), 'the derivative with respect to the %s of the interval is not the integrand there' % ('end' if k else 'start'))
        mid = t.mul(num(Fraction(1, 2)), t.add(*ends))
        thin = dict(arrays)
        # shrink the part of the interval that lies in the layer
        eps = t.mpf(10) ** -6
        if ends == (zz[0], zz[1]):
            thin['z'] = lambda S, n, ix: at(S, K0 + .5) + int(ix[1]) * eps
        elif ends == (zz[0], zb):
            thin['z'] = lambda S, n, ix: (base(S, K0 + 1) - eps) if int(ix[1]) == 0 else at(S, b)
        elif ends == (zt, zz[1]):
            thin['z'] = lambda S, n, ix: (base(S, K0) + eps) if int(ix[1]) == 1 else at(S, a)
        else:
            thin['zb'] = lambda S, n, ix: base(S, K0) + eps if int(ix[0]) == K0 else base(S, int(ix[0]) + 1)
            thin['zt'] = lambda S, n, ix: base(S, K0) + eps if int(ix[0]) == K0 + 1 else base(S, int(ix[0]))
        spec = t.mul(f(mid), t.sub(ends[1], ends[0]))
        verdict(ctx, 'short', 'dim1sin_a_linear_between [%s]' % name, where, t.equal(t.add(shift(K, None, kk), t.ONE), t.add(spec, t.ONE), arrays=thin, **kw),
                'a short interval does not integrate to integrand times length')


def loads(ctx, R, f, impl):
    p, q = t.idx('p'), t.idx('q')
    I, st, r = R.run(f, impl)
    K = kern.element(I, st, r, (p, q))
    where = 'geotecha/speccon/integrals.py:%s (implementation=%s)' % (f, impl)
    seeds = (1, 2, 3) if ctx.thorough else (1, 2)
    dT, eig = t.sym('dT'), t.mk('sel', 'eigs', q)
    tt = t.mk('sel', 'tvals', p)
    k0 = num(kern.Scenario.K0)
    ta = t.mk('sel', 'loadtim', k0)
    al, be = t.sym('load.alpha'), t.sym('load.beta')

    def trig(x):
        if 'coslinear' in f:
            return cos(t.add(t.mul(t.sym('omega'), x), t.sym('phase')))
        if 'sinlinear' in f:
            return sin(t.add(t.mul(t.sym('omega'), x), t.sym('phase')))
        return t.ONE

    def kernel_at(x):
        return t.fn('exp', t.neg(t.mul(dT, eig, t.sub(tt, x))))
    X = t.sym('@X')
    for sc in kern.SCENARIOS:
        b = be if sc.kind == 'ramp' else ZERO
        g = t.mul(t.add(al, t.mul(b, X)), trig(X))
        if f.startswith('ED'):
            g = t.diff(g, X)
        c = '%s/%s [%s]' % (f, impl, sc.name)
        kw = dict(index={p: 5, q: 9}, points=sc.points, truth_fn=kern.concrete_truth, seeds=seeds, values={'@D': 0})
        if sc.pos == 'before':
            verdict(ctx, 'before start', c, where, t.equal(t.add(K, t.ONE), t.ONE, arrays=sc.arrays(), **kw), '%s is affected by a load segment that has not started' % f)
            continue
        if sc.kind == 'step':
            spec = ZERO
            if f.startswith('ED'):
                spec = t.mul(t.sub(t.mk('sel', 'loadmag', num(sc.K0 + 1)), t.mk('sel', 'loadmag', k0)), trig(ta), kernel_at(ta))
            verdict(ctx, 'step', c, where, t.equal(t.add(K, t.ONE), t.add(spec, t.ONE), arrays=sc.arrays(), **kw), 'the contribution of an instantaneous load step to %s is wrong' % f)
            continue

        def law(x, moved=True):
            if x.op != 'sel':
                return None
            if x.args[0] == 'loadmag':
                k = t.subst(x.args[1], law)
                return t.add(al, t.mul(b, tim(k)))
            if x.args[0] == 'loadtim':
                return tim(t.subst(x.args[1], law))
            return None

        def tim(k):
            return t.add(t.mk('sel', 'loadtim', k), t.mul(D, t.ite(t.eq(k, k0), t.ONE, ZERO)))
        Ka = t.subst(K, law)
        arrays = sc.arrays()
        arrays.pop('loadmag')
        if sc.pos == 'at start':
            verdict(ctx, 'empty', c, where, t.equal(t.add(Ka, t.ONE), t.ONE, arrays=arrays, **kw), '%s does not vanish when a segment has only just started' % f)
            continue
        spec = t.neg(t.subst(t.mul(g, kernel_at(X)), {X: ta}))
        verdict(ctx, 'start derivative', c, where, t.equal(t.diff(Ka, D), spec, arrays=arrays, probe=True, **kw),
                'the derivative of %s with respect to the start of a load segment is not minus the defining integrand' % f)
        arr2 = dict(arrays)
        base = arrays['tvals'] if sc.pos == 'inside' else arrays['loadtim']
        orig = arrays['loadtim']
        end = (lambda S: base(S, None, [0])) if sc.pos == 'inside' else (lambda S: base(S, None, [sc.K0 + 1]))
        arr2['loadtim'] = lambda S, n, ix: (end(S) - t.mpf(10) ** -4) if int(ix[0]) == sc.K0 else orig(S, n, ix)
        endn = tt if sc.pos == 'inside' else t.mk('sel', 'loadtim', num(sc.K0 + 1))
        mid = t.mul(num(Fraction(1, 2)), t.add(ta, endn))
        spec = t.mul(t.subst(t.mul(g, kernel_at(X)), {X: mid}), t.sub(endn, ta))
        verdict(ctx, 'short', c, where, t.equal(t.add(Ka, t.ONE), t.add(spec, t.ONE), arrays=arr2, **kw), '%s of a short load segment is not integrand times duration' % f)
