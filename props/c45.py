"""closed-form curves of beams on foundations"""
from fractions import Fraction
from sa import terms as t
from sa.scal import Call, A, same, sym, wrap, rejects
from sa.terms import num
from props.c32 import near, add, sub, mul, div, diff, neg, pw, fn, ZERO, ONE, x
from props.c43 import rows, SM

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): the functions are abstracted to gated terms in their arguments, differentiated symbolically and compared with the '
             'equations, matching conditions and inverse relations they have to satisfy. Nothing from /repo is executed.')


def check(ctx):
    ctx.rule('moving load', 'the deflection under a moving load satisfies the equation of the beam, is smooth to the second derivative under the load and has the jump of the third')
    ctx.rule('amplification', 'the amplification factor is that of the largest deflection, velocity and damping ratios converted for the stiffness ratio')
    ctx.rule('static', 'the static shape satisfies the equation of the beam on either side of the load, symmetric, with unit value and zero slope under it')
    ctx.rule('superpose', 'several static loads superpose')
    ctx.rule('transition', 'the transition curve has its centre at the position asked for; its inverses invert it')
    ctx.rule('reverse curve', 'two circular arcs that meet the end points and each other with the same slope')
    ctx.rule('domain', 'a transition without length is refused')
    ctx.assumptions += ['arithmetic is over the reals', 'polynomial roots and linear solves are uninterpreted operators; the first two roots are those with negative real part, as the code assumes (observed for all velocity and damping ratios up to 3)']
    th = [lambda: static(ctx), lambda: tanh(ctx), lambda: daf(ctx)]
    for lim in (None, (-2, 4)):
        th.append(lambda lim=lim: moving(ctx, lim))
    for order in (1, -1):
        for up in (1, -1, 0):
            th.append(lambda a=(order, up): reverse(ctx, *a))
    th += [lambda: same_x(ctx), lambda: relative(ctx)]
    ctx.parallel(th)


def moving(ctx, lim, name='moving_load_on_beam_on_elastic_foundation'):
    g = [sym('g%d' % i) for i in range(4)]
    amp = [sym('A%d' % i) for i in range(4)]
    seen = dict(poly=[], lin=[])

    def np_roots(I, a, kw, st, f):
        seen['poly'].append(rows(I, st, a[0]))
        return wrap(I, st, A(g))

    def solve(I, a, kw, st, f):
        seen['lin'].append((rows(I, st, a[0]), rows(I, st, a[1])))
        return wrap(I, st, A(amp))
    al, be = sym('alp'), sym('bet')
    kw = dict(npts=7)
    if lim:
        kw['slim'] = lim
    c = Call(ctx, SM, name, [al, be], kw, hooks={'numpy.roots': np_roots, 'numpy.linalg.solve': solve})
    V = near(dict(alp=0.7, bet=0.3, g0=-0.8, g1=-1.1, g2=0.6, g3=1.3, A0=0.4, A1=0.7, A2=0.9, A3=0.2))
    T = name + (' limits %s..%s' % lim if lim else '')
    if len(seen['poly']) != 1 or len(seen['lin']) != 1:
        ctx.undecided('moving load', T, 'not one polynomial and one linear system')
        return
    p = seen['poly'][0]
    want = [ONE, ZERO, mul(num(4), al, al), mul(num(-8), al, be), num(4)]
    if len(p) != 5:
        ctx.violation('moving load', T + ' polynomial', 'the characteristic polynomial is not of fourth degree', c.where)
        return
    for k, q in enumerate(p):
        same(ctx, 'moving load', '%s coefficient %d' % (T, k), c.where, add(q, ONE), add(want[k], ONE), 'the polynomial is not that of w\'\'\'\' + 4 alp^2 w\'\' - 8 alp bet w\' + 4 w = 0', values=V, vary=['alp', 'bet'])
    lhs, rhs = seen['lin'][0]
    # conditions at the load: the right-hand solution minus the left-hand one
    for r in range(4):
        for j in range(4):
            w = num(1 if j < 2 else -1) if r == 0 else mul(num(1 if j < 2 else -1), pw(g[j], num(r)))
            same(ctx, 'moving load', '%s derivative %d, root %d' % (T, r, j), c.where, lhs[r][j], w, 'the condition under the load is not that on this derivative', values=V)
        same(ctx, 'moving load', '%s jump of derivative %d' % (T, r), c.where, add(rhs[r], ONE), num(9 if r == 3 else 1), 'the jump under the load is wrong', values=V)
    lo, hi = lim or (-6, 6)
    for k in range(7):
        s = Fraction(lo) + Fraction(hi - lo, 6) * k
        same(ctx, 'moving load', '%s point %d' % (T, k), c.where, add(c.at(k, of=c.item(0)), num(10)), num(s + 10), 'the points do not span the limits evenly', values=V)
        w = [add(*[mul(amp[j], fn('exp', mul(num(s), g[j]))) for j in js]) for js in ((0, 1), (2, 3))]
        same(ctx, 'moving load', '%s deflection %d' % (T, k), c.where, c.at(k, of=c.item(1)), w[0] if s >= 0 else w[1], 'the deflection is not the decaying solution on that side', values=V)


def daf(ctx):
    seen = []

    def mv(I, a, kw, st, f):
        d = dict(zip(('alp', 'bet', 'slim', 'npts'), a), **kw)
        seen.append((I.node(d['alp'], st), I.node(d['bet'], st), d))
        return wrap(I, st, (A([sym('s0'), sym('s1')]), A([sym('d0'), sym('d1')])))
    al, be, k = sym('alp'), sym('bet'), sym('k')
    V = near(dict(alp=0.7, bet=0.3, k=2.2, d0=0.4, d1=0.9))
    for given in (True, False):
        del seen[:]
        kw = dict(kratio=k) if given else {}
        c = Call(ctx, SM, 'DAFinfinite', [al, be], kw, hooks={SM + '.moving_load_on_beam_on_elastic_foundation': mv})
        kk = k if given else ONE
        T = 'DAFinfinite' + ('' if given else ' (default stiffness)')
        if len(seen) != 1:
            ctx.undecided('amplification', T, 'the moving load solution is not used once')
            continue
        same(ctx, 'amplification', T + ' velocity ratio', c.where, seen[0][0], div(al, pw(kk, num(Fraction(1, 4)))), 'the velocity ratio is not that of the critical velocity for the other stiffness', values=V, vary=['k'] if False else None)
        same(ctx, 'amplification', T + ' damping ratio', c.where, seen[0][1], div(be, pw(kk, num(Fraction(1, 2)))), 'the damping ratio is not that for the other stiffness', values=V)
        for d0, d1 in ((0.4, 0.9), (0.9, 0.4)):
            VV = near(dict(alp=0.7, bet=0.3, k=2.2, d0=d0, d1=d1))
            same(ctx, 'amplification', '%s factor %s' % (T, 'ab'[d0 > d1]), c.where, c.value(), div(fn('max', sym('d0'), sym('d1')) if False else (sym('d0') if d0 > d1 else sym('d1')), pw(kk, num(Fraction(3, 4)))), 'the factor is not the largest deflection times the ratio of static deflections', values=VV)


def static(ctx):
    X, L, C = sym('x'), sym('L'), sym('xc')
    for name, args, at in (('static_point_load_shape', dict(x=X, L=L), ZERO), ('point_load_static_defl_shape_function', dict(x=X, L=L), ZERO), ('point_load_static_defl_shape_function', dict(x=X, L=L, xc=C), C)):
        c = Call(ctx, SM, name, [], args)
        y = c.value()
        T = name + (' about xc' if 'xc' in args else '')
        for side in (1, -1):
            V = near(dict(x=0.4 + side * 0.7 if 'xc' in args else side * 0.7, xc=0.4, L=1.3))
            ab = mul(num(side), sub(X, at))
            f = mul(fn('exp', neg(div(ab, L))), add(fn('cos', div(ab, L)), fn('sin', div(ab, L))))
            same(ctx, 'static', '%s side %d' % (T, side), c.where, y, f, 'the shape is not that of a point load', values=V)
            d = f
            for k in range(4):
                d = diff(d, X)
            same(ctx, 'static', '%s equation, side %d' % (T, side), c.where, mul(pw(L, num(4)), d), neg(mul(num(4), y)), 'L^4*w\'\'\'\' + 4*w is not zero', values=V)
            for k, (w0, what) in enumerate(((ONE, 'value'), (ZERO, 'slope'))):
                q = f if k == 0 else diff(f, X)
                same(ctx, 'static', '%s %s under the load, side %d' % (T, what, side), c.where, add(t.subst(q, {X: at}), ONE), add(w0, ONE), 'the shape is not smooth with unit value under the load', values=V)
        V0 = near(dict(x=0.0, xc=0.0, L=1.3))
        same(ctx, 'static', '%s exactly under the load' % T, c.where, t.subst(y, {X: at}), ONE, 'the shape is not one under the load', values=near(dict(xc=0.4, L=1.3)))
        arr = Call(ctx, SM, name, [], dict(args, x=A([sym('x'), sym('x2')])))
        for i, q in enumerate((X, sym('x2'))):
            same(ctx, 'static', '%s element %d' % (T, i), c.where, arr.at(i), t.subst(y, {X: q}), 'an element is not the value at its point', values=near(dict(x=0.9, x2=-0.4, xc=0.4, L=1.3)))
    n = 5
    for form, xlim in (('default', None), ('given', (-3, 5))):
        kw = dict(xc=A([sym('c0'), sym('c1'), sym('c2')]), frel=A([sym('f0'), sym('f1'), sym('f2')]), n=n)
        if form == 'given':
            kw.update(wsingle=sym('w'), xlim=xlim, L=sym('L'))
        c = Call(ctx, SM, 'multi_static', [], kw)
        lo, hi = xlim or (-10, 10)
        V = near(dict(c0=-1.0, c1=0.6, c2=2.2, f0=1.0, f1=0.5, f2=1.6, w=0.4, L=1.4))
        for k in range(n):
            s = num(Fraction(lo) + Fraction(hi - lo, n - 1) * k)
            Ls = sym('L') if form == 'given' else ONE
            same(ctx, 'superpose', 'multi_static %s x %d' % (form, k), c.where, add(c.at(k, of=c.item(0)), num(20)), add(s, num(20)), 'the points do not span the limits evenly', values=V)
            tot = []
            for i in range(3):
                ab = div(fn('abs', sub(s, sym('c%d' % i))), Ls)
                tot.append(mul(sym('f%d' % i), fn('exp', neg(ab)), add(fn('cos', ab), fn('sin', ab))))
            tot = add(*tot)
            same(ctx, 'superpose', 'multi_static %s w %d' % (form, k), c.where, c.at(k, of=c.item(1)), mul(tot, sym('w')) if form == 'given' else tot, 'the deflection is not the sum over the loads', values=V)


def tanh(ctx):
    X, a, b, y = sym('x'), sym('a'), sym('b'), sym('y')
    V = near(dict(x=0.9, a=0.4, b=0.7, y=0.8))
    for sgn, V in ((1, V), (-1, near(dict(x=-0.3, a=0.4, b=0.7, y=0.2)))):
        f = Call(ctx, SM, 'tanhtran', [X, a, b])
        same(ctx, 'transition', 'tanhtran %d' % sgn, f.where, f.value(), add(num(Fraction(1, 2)), mul(num(Fraction(1, 2)), fn('tanh', div(sub(X, a), b)))), 'the curve is not 0.5 + 0.5*tanh((x-a)/b)', values=V, vary=['x', 'a'])
        same(ctx, 'transition', 'tanhtran centre %d' % sgn, f.where, t.subst(f.value(), {X: a}), num(Fraction(1, 2)), 'the curve is not 0.5 at the position asked for', values=V)
        i = Call(ctx, SM, 'tanhtrani', [y, a, b])
        ath = mul(num(Fraction(1, 2)), fn('log', div(y, sub(ONE, y))))      # arctanh(2y - 1)
        same(ctx, 'transition', 'tanhtrani %d' % sgn, i.where, i.value(), add(a, mul(b, ath)), 'the value is not where the curve is y', values=V, vary={'a': (0, 'large', 'small')})
        k = Call(ctx, SM, 'tanhtranib', [X, y, a])
        same(ctx, 'transition', 'tanhtranib %d' % sgn, k.where, mul(k.value(), ath), sub(X, a), 'the curve with that factor does not go through the point', values=V)
    for name, args in (('tanhtran', lambda q: [A(q), a, b]), ('tanhtrani', lambda q: [A(q), a, b])):
        q = [sym('y'), sym('y2')]
        arr = Call(ctx, SM, name, args(q))
        for n in range(2):
            one = Call(ctx, SM, name, [q[n], a, b])
            same(ctx, 'transition', '%s element %d' % (name, n), arr.where, arr.at(n), one.value(), 'an element is not the value at its point', values=near(dict(y=0.8, y2=0.3, a=0.4, b=0.7)))


def reverse(ctx, order, up):
    """order -1: the start point is to the right; up 0: level"""
    xa, xb, ya, yb = (0.4, 2.8, 1.1, 1.1 + 0.7 * up)
    s = dict(x1=xa, y1=ya, x2=xb, y2=yb) if order > 0 else dict(x1=xb, y1=yb, x2=xa, y2=ya)
    a, b, ya_, yb_ = [sym(q) for q in (('x1', 'x2', 'y1', 'y2') if order > 0 else ('x2', 'x1', 'y2', 'y1'))]
    q = [sym('q%d' % i) for i in range(6)]
    at = (0.1, 0.9, 1.5, 1.7, 2.4, 3.0)
    args = [A(q), sym('x1'), sym('y1'), sym('x2'), sym('y2')]
    if not up:
        args[4] = args[2]
    c = Call(ctx, SM, 'reverse_curve_transition', args)
    base = dict(s, **{'q%d' % i: v for i, v in enumerate(at)})
    V = lambda seed: {k: t.mpf(v) * (1 + t._rnd((seed, 'near', k), -0.02, 0.02)) for k, v in base.items()}
    T = 'reverse_curve_transition %s, %s' % ('start to the left' if order > 0 else 'start to the right', ('level', 'up', 'down')[up])
    if not up:
        for i in range(6):
            same(ctx, 'reverse curve', '%s %d' % (T, i), c.where, c.at(i), sym('y1'), 'the curve is not the horizontal line', values=V)
        return
    h, L = mul(num(up), sub(yb_, ya_)), sub(b, a)
    R = div(add(mul(h, h), mul(L, L)), mul(num(4), h))          # h = 2R(1-cos d), L = 2R sin d
    root = lambda X, m: fn('sqrt', sub(mul(R, R), mul(sub(X, m), sub(X, m)))) if False else pw(sub(mul(R, R), mul(sub(X, m), sub(X, m))), num(Fraction(1, 2)))
    left = lambda X: add(ya_, mul(num(up), sub(R, root(X, a))))
    right = lambda X: sub(yb_, mul(num(up), sub(R, root(X, b))))
    X = sym('X')
    mid = div(add(a, b), num(2))
    W = lambda seed: dict(V(seed))
    same(ctx, 'reverse curve', T + ' arcs meet', c.where, t.subst(left(X), {X: mid}), t.subst(right(X), {X: mid}), 'the arcs do not meet', values=V)
    same(ctx, 'reverse curve', T + ' arcs meet smoothly', c.where, t.subst(diff(left(X), X), {X: mid}), t.subst(diff(right(X), X), {X: mid}), 'the arcs do not meet smoothly', values=V)
    for i in range(6):
        want = ya_ if at[i] < xa else yb_ if at[i] > xb else left(q[i]) if at[i] < (xa + xb) / 2 else right(q[i])
        same(ctx, 'reverse curve', '%s at %s' % (T, at[i]), c.where, c.at(i), want, 'the point is not on the curve', values=V)
    for nm, p, v in (('start', a, ya_), ('middle', mid, div(add(ya_, yb_), num(2))), ('end', b, yb_)):
        e = Call(ctx, SM, 'reverse_curve_transition', [A([p])] + args[1:])
        same(ctx, 'reverse curve', '%s at the %s' % (T, nm), c.where, e.at(0), v, 'the end points or the middle are not on the curve', values=V)
    one = Call(ctx, SM, 'reverse_curve_transition', [q[1]] + args[1:])
    same(ctx, 'reverse curve', '%s, a number' % T, c.where, one.at(0), c.at(1), 'a number is treated otherwise', values=V)


def same_x(ctx):
    c = Call(ctx, SM, 'reverse_curve_transition', [A([sym('q0')]), sym('x1'), sym('y1'), sym('x1'), sym('y2')])
    rejects(ctx, 'domain', 'reverse_curve_transition', c, {k: t.mpf(v) for k, v in dict(q0=0.5, x1=0.4, y1=1.0, y2=2.0).items()}, True, 'a transition without length is accepted')


def relative(ctx):
    """the terse amplification factor solves the same equation as the other one"""
    g = [sym('g%d' % i) for i in range(4)]
    seen = dict(poly=[], lin=[])

    def np_roots(I, a, kw, st, f):
        seen['poly'].append(rows(I, st, a[0]))
        return wrap(I, st, A(g))

    def solve(I, a, kw, st, f):
        seen['lin'].append((rows(I, st, a[0]), rows(I, st, a[1])))
        return wrap(I, st, A([sym('A%d' % i) for i in range(4)]))
    al, be, k = sym('alp'), sym('bet'), sym('k')
    c = Call(ctx, SM, 'DAFrelative', [al, be, k], hooks={'numpy.roots': np_roots, 'numpy.linalg.solve': solve})
    V = near(dict(alp=0.7, bet=0.3, k=2.2, g0=-0.8, g1=-1.1, g2=0.6, g3=1.3))
    if len(seen['poly']) != 1 or len(seen['lin']) != 1 or len(seen['poly'][0]) != 5:
        ctx.undecided('amplification', 'DAFrelative', 'not one polynomial and one linear system')
        return
    a2, b2 = div(al, pw(k, num(Fraction(1, 4)))), div(be, pw(k, num(Fraction(1, 2))))
    want = [ONE, ZERO, mul(num(4), a2, a2), mul(num(-8), a2, b2), num(4)]
    for i, q in enumerate(seen['poly'][0]):
        same(ctx, 'amplification', 'DAFrelative coefficient %d' % i, c.where, add(q, ONE), add(want[i], ONE), 'the polynomial is not that of the beam on the other stiffness', values=V)
    lhs, rhs = seen['lin'][0]
    for r in range(4):
        for j in range(4):
            w = num(1 if j < 2 else -1) if r == 0 else mul(num(1 if j < 2 else -1), pw(g[j], num(r)))
            same(ctx, 'amplification', 'DAFrelative derivative %d, root %d' % (r, j), c.where, lhs[r][j], w, 'the condition under the load is not that on this derivative', values=V)
        same(ctx, 'amplification', 'DAFrelative jump of derivative %d' % r, c.where, add(rhs[r], ONE), num(9 if r == 3 else 1), 'the jump under the load is wrong', values=V)
