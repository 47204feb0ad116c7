"""Integral transforms: which integrand, weight, interval, sign and factor reach the quadrature; which quadrature sum is returned"""
import itertools
from fractions import Fraction as F
from sa import terms as t
from sa.scal import Script, Call, Inst, A, same
from sa.front import Arr, PyList, Gate
from sa.terms import num, ZERO, ONE, add, sub, mul, div

TECHNIQUE = ('Abstract interpretation of client programs: the quadrature routine is an uninterpreted linear functional of the integrand it is given (applied to the closure symbolically), so the value '
             'graph of each transform is compared with its documented integral for every combination of symmetry flags; vectorised transforms are compared with the weighted sums they stand for.')
FO = 'geotecha.mathematics.fourier'
HA = 'geotecha.mathematics.hankel'
LA = 'geotecha.mathematics.laplace'
ML = 'geotecha.mathematics.mp_laplace'
MT = 'geotecha.mathematics.multi_transform'
QU = 'geotecha.mathematics.quadrature'
s = t.sym
I_ = t.I()
fn = t.fn


def call(name, *a):
    return t.mk('call', name, *a)


def functional(kind, lo, hi, body):
    """a linear functional of the function body (node -> node) over (lo, hi): one generic point, one generic weight"""
    x = call('point_' + kind, lo, hi)
    return mul(call('weight_' + kind, lo, hi), body(x))


def quad_hook(I, args, kw, st, f):
    names = ['func', 'a', 'b', 'args']
    g = dict(zip(names, args))
    g.update(kw)
    lo, hi = I.node(g['a'], st), I.node(g['b'], st)
    extra = st.store[g['args'].key] if isinstance(g.get('args'), PyList) else []
    w = g.get('weight')
    wv = I.node(g['wvar'], st) if g.get('wvar') is not None else None

    def body(x):
        v = I.node(I.call(g['func'], [x] + list(extra), {}, st), st)
        if w is None:
            return v
        return mul(v, fn(w, mul(wv, x)))
    v = functional('quad', lo, hi, body)
    return I.new_list(st, [v, call('err', v)], True)


def script(ctx, mod, src, args, **k):
    k.setdefault('hooks', {})['scipy.integrate.quad'] = quad_hook
    k['hooks']['scipy.integrate.quadpack.quad'] = quad_hook
    return Script(ctx, mod, src, args, **k)


def cmp(ctx, rule, lab, c, got, want, msg, **kw):
    if c.rejected() is t.TRUE:
        ctx.violation(rule, lab, 'it raises', c.where)
        return
    same(ctx, rule, lab, c.where, got, want, msg, **kw)


# ---- Fourier --------------------------------------------------------------------------------------------------------
RE = lambda x, p: add(fn('exp', mul(p, x)), fn('cos', add(x, num(1))))
IM = lambda x, p: add(mul(p, fn('sin', add(x, p))), num(2))
F_REAL = ' def f(x, p):\n  return np.exp(p*x) + np.cos(x + 1)\n'
F_CPLX = ' def f(x, p):\n  return np.exp(p*x) + np.cos(x + 1) + 1j*(p*np.sin(x + p) + 2)\n'


def fourier(ctx):
    w, p, a, b = s('w'), s('p'), s('a'), s('b')
    neg = lambda x: sub(ZERO, x)
    for kind, trig in (('cosine', 'cos'), ('sine', 'sin')):
        for lim in (True, False):
            lab = '%s_transform%s' % (kind, '' if lim else ', default limits')
            c = script(ctx, FO, 'def client(w, p, a, b):\n%s return %s_transform(f, w, (p,)%s)' % (F_REAL, kind, ', a=a, b=b' if lim else ''), [w, p, a, b], need=[kind + '_transform'])
            lo, hi = (a, b) if lim else (ZERO, fn('const_inf'))
            cmp(ctx, 'weight', lab, c, c.value(of=c.item(0)), functional('quad', lo, hi, lambda x: mul(RE(x, p), fn(trig, mul(w, x)))), 'not the integral of f(x) %s(w x)' % trig)
    for nm, want in (('real_func', lambda x: RE(x, p)), ('imag_func', lambda x: IM(x, p))):
        c = script(ctx, FO, 'def client(x, p):\n%s return %s(x, f, p)' % (F_CPLX, nm), [s('x'), p], need=[nm])
        cmp(ctx, 'parts', nm, c, c.value(), want(s('x')), 'not the %s part of the function' % nm[:4])
    for nm, sg in (('func_mirror_for_even_weight', 1), ('func_mirror_for_odd_weight', -1)):
        c = script(ctx, FO, 'def client(x, p):\n%s return %s(x, f, p)' % (F_REAL, nm), [s('x'), p], need=[nm])
        cmp(ctx, 'parts', nm, c, c.value(), mul(num(sg), RE(neg(s('x')), p)), 'not the mirrored function')
    flags = ('func_is_real', 'func_is_imag', 'real_part_even', 'real_part_odd', 'imag_part_even', 'imag_part_odd')
    q = lambda body: functional('quad', a, b, body)
    for inv in (None, False, True):
        k = div(ONE, mul(num(2), fn('pi'))) if inv else ONE
        sg = num(-1 if inv else 1)
        for typ in ('complex', 'func_is_real', 'func_is_imag'):
            for r, i in itertools.product(('', 'real_part_even', 'real_part_odd'), ('', 'imag_part_even', 'imag_part_odd')):
                if typ == 'func_is_real' and i or typ == 'func_is_imag' and r:
                    continue
                on = [x for x in (typ if typ != 'complex' else '', r, i) if x]
                lab = 'FourierTransform(%s)' % ', '.join(on + (['inv=%s' % inv] if inv is not None else []))
                kws = ''.join(', %s=True' % x for x in on) + (', inv=%s' % inv if inv is not None else '')
                src = 'def client(w, p, a, b):\n%s return FourierTransform(f, (p,), a=a, b=b%s)(w)' % (F_CPLX if typ == 'complex' else F_REAL, kws)
                c = script(ctx, FO, src, [w, p, a, b], need=['FourierTransform'])
                tot = ZERO
                parts = []
                if typ != 'func_is_imag':
                    parts.append((ONE, (lambda x: RE(x, p)), r))
                if typ != 'func_is_real':
                    parts.append((I_, (lambda x: IM(x, p)) if typ == 'complex' else (lambda x: RE(x, p)), i))
                for unit, f, sy in parts:
                    co = lambda x: fn('cos', mul(w, x))
                    si = lambda x: fn('sin', mul(w, x))
                    if not sy.endswith('odd'):
                        if sy:
                            v = mul(num(2), q(lambda x: mul(f(x), co(x))))
                        else:
                            v = q(lambda x: mul(add(f(x), f(neg(x))), co(x)))
                        tot = add(tot, mul(unit, v))
                    if not sy.endswith('even'):
                        if sy:
                            v = mul(num(2), q(lambda x: mul(f(x), si(x))))
                        else:
                            v = q(lambda x: mul(sub(f(x), f(neg(x))), si(x)))
                        tot = sub(tot, mul(I_, sg, unit, v))
                cmp(ctx, 'fourier', lab, c, c.value(of=c.item(0)), mul(k, tot), 'not the integral of f(x) exp(%si w x)%s with the stated symmetry' % ('+' if inv else '-', ' / (2 pi)' if inv else ''), domain={'w': (0.3, 2)})


# ---- vectorised transforms: the weighted sums they stand for ----------------------------------------------------------
G = lambda x, p: add(fn('exp', mul(p, x)), fn('sin', add(x, num(1))))
G_SRC = 'lambda x, p: np.exp(p*x) + np.sin(x + 1)'


def rule_of(ctx, n, kind='gauss_legendre_abscissae_and_weights', k=1):
    c = Call(ctx, QU, kind, [num(n)])
    m = n if kind.startswith('gauss_leg') else 2 * n + 1
    return [(c.value(j, of=c.item(0)), c.value(j, of=c.item(k))) for j in range(m)]


def gauss(rule, lo, hi, f):
    h, m = mul(num(F(1, 2)), sub(hi, lo)), mul(num(F(1, 2)), add(hi, lo))
    return add(*[mul(h, w, f(add(mul(h, x), m))) for x, w in rule])


def shanks_of(seq, ind):
    seq = list(seq)
    if ind is None:
        return seq[-1]
    n = len(seq)
    ind = max(ind + n if ind < 0 else ind, 0)
    v = seq[ind:]
    while len(v) > 2:
        v = [div(sub(mul(a, c), mul(b, b)), add(a, c, mul(num(-2), b))) for a, b, c in zip(v, v[1:], v[2:])]
    return v[-1]


def running(v):
    out = []
    for x in v:
        out.append(add(out[-1], x) if out else x)
    return out


ZS = [s('z%d' % i) for i in range(1, 25)]


def zeros_hook(I, args, kw, st, f):
    """zeros of J_n: 0 < z1 < z2 < ..., functions of the order"""
    g = dict(zip(('n', 'nt'), args))
    g.update(kw)
    k, n = g['nt'], g['n']
    return I.np_array([I.new_list(st, [call('zero', I.node(n, st), num(j + 1)) for j in range(int(k.args[0]))])], {}, st)


HOOKS = {'scipy.special.jn_zeros': zeros_hook}


def total(igrals, ind):
    return add(*igrals) if ind is None else shanks_of(running(igrals), ind)


def vectorised(ctx, order):
    p, r = s('p'), [s('r0'), s('r1')]
    zero = lambda k: call('zero', num(order), num(k)) if k else ZERO
    for m, ng, ind in ((2, 2, None), (3, 3, None), (4, 2, 1), (5, 2, 0), (5, 2, -3), (3, 2, 2)):
        R = rule_of(ctx, ng)
        for one in (False, True):
            lab = 'm=%d ng=%d shanks_ind=%s%s' % (m, ng, ind, ', one point' if one else '')
            rs = r[:1] if one else r
            kw = 'm=%d, ng=%d%s' % (m, ng, '' if ind is None else ', shanks_ind=%d' % ind)
            arg = r[0] if one else A(r)
            c = script(ctx, HA, 'def client(r, p):\n return vhankel_transform(%s, r, args=(p,), order=%d, %s)' % (G_SRC, order, kw), [arg, p], need=['vhankel_transform'], hooks=dict(HOOKS))
            for k, x in enumerate(rs):
                ig = [gauss(R, div(zero(j), x), div(zero(j + 1), x), lambda q: mul(q, G(q, p), fn('jn', num(order), mul(x, q)))) for j in range(m)]
                cmp(ctx, 'hankel', 'vhankel_transform order=%d %s [%d]' % (order, lab, k), c, c.at(k), total(ig, ind), 'not the sum over the intervals between zeros of J(r x) of the Gauss sums of x f(x) J(r x)')
            if order == 0:
                c = script(ctx, FO, 'def client(r, p):\n return vcosine_transform(%s, r, args=(p,), %s)' % (G_SRC, kw), [arg, p], need=['vcosine_transform'])
                cz = lambda j: mul(num(F(2 * j - 1, 2)), fn('pi')) if j else ZERO
                for k, x in enumerate(rs):
                    ig = [gauss(R, div(cz(j), x), div(cz(j + 1), x), lambda q: mul(G(q, p), fn('cos', mul(x, q)))) for j in range(m)]
                    cmp(ctx, 'cosine', 'vcosine_transform %s [%d]' % (lab, k), c, c.at(k), total(ig, ind), 'not the sum over the intervals between zeros of cos(s x) of the Gauss sums of f(x) cos(s x)')


def twod(ctx):
    p, r, q = s('p'), [s('r0'), s('r1')], [s('q0'), s('q1'), s('q2')]
    cz = lambda j: mul(num(F(2 * j - 1, 2)), fn('pi')) if j else ZERO
    H = lambda x, y: add(fn('exp', mul(p, x, y)), mul(y, fn('sin', add(x, num(1)))))
    for m, ng, ind in ((2, 2, None), (3, 2, 0)):
        R = rule_of(ctx, ng)
        src = 'def client(r, q, p):\n return v2dcosine_transform(lambda x, y, p: np.exp(p*x*y) + y*np.sin(x + 1), r, q, args=(p,), m=%d, ng=%d%s)' % (m, ng, '' if ind is None else ', shanks_ind=%d' % ind)
        c = script(ctx, FO, src, [A(r), A(q), p], need=['v2dcosine_transform'])
        for i, x in enumerate(r):
            for j, y in enumerate(q):
                rows = []
                for a in range(m):
                    def inner(u):
                        return total([gauss(R, div(cz(b), y), div(cz(b + 1), y), lambda v: mul(H(u, v), fn('cos', mul(y, v)), fn('cos', mul(x, u)))) for b in range(m)], ind)
                    rows.append(gauss(R, div(cz(a), x), div(cz(a + 1), x), inner))
                cmp(ctx, 'cosine', 'v2dcosine_transform m=%d shanks_ind=%s [%d,%d]' % (m, ind, i, j), c, c.at(i, j), total(rows, ind), 'not the double sum of the Gauss sums of f(x, y) cos(s1 x) cos(s2 y)')


def hankel(ctx):
    p, w = s('p'), s('w')
    K = {n: rule_of(ctx, n, 'gauss_kronrod_abscissae_and_weights', 2) for n in (7, 10)}
    rng = {'w': (F(1), F(11, 10))}
    zk = [ZERO] + ZS
    for i in range(1, 7):
        rng['z%d' % i] = (F(3 * i), F(3 * i) + F(1, 10))
    hk = {'scipy.special.jn_zeros': lambda I, a, k, st, f: I.np_array([I.new_list(st, ZS[:int((list(a) + [k.get('nt')])[1].args[0])])], {}, st)}
    pts = [s('p1'), s('p2'), s('p3'), s('p0')]
    rng.update(p1=(F(1), F(11, 10)), p2=(F(4), F(41, 10)), p3=(F(200), F(201)), p0=(F(-3), F(-2)), a=(F(2), F(21, 10)), b=(F(7), F(71, 10)))
    a, b = s('a'), s('b')
    Z = lambda *ks: [div(zk[k], w) if isinstance(k, int) else s(k) for k in ks]
    cases = [('plain', 'm=3, ng=7, ng0=10, order=1', '', Z(0, 1, 2, 3), None, 1), ('order 2', 'm=2, ng=7, ng0=10, order=2', '', Z(0, 1, 2), None, 2),
             ('ng above ng0', 'm=3, ng=10, ng0=7, order=0', '', Z(0, 1, 2, 3), None, 0), ('single interval', 'm=1, ng=7, ng0=10, order=1', '', Z(0, 1), None, 1),
             ('extra points', 'm=3, ng=7, ng0=10, order=1, points=pts', '', Z(0, 'p1', 1, 'p2', 2, 3), None, 1),
             ('from a', 'm=4, ng=7, ng0=10, order=1', ', a=a', Z('a', 1, 2, 3, 4), None, 1), ('to b', 'm=4, ng=7, ng0=10, order=1', ', b=b', Z(0, 1, 2, 'b'), None, 1),
             ('from a to b', 'm=4, ng=7, ng0=10, order=1', ', a, b', Z('a', 1, 2, 'b'), None, 1), ('points, from a to b', 'm=4, ng=7, ng0=10, order=1, points=pts', ', a, b', Z('a', 1, 'p2', 2, 'b'), None, 1),
             ('shanks', 'm=6, ng=7, ng0=10, order=1, shanks_ind=1', '', Z(0, 1, 2, 3, 4, 5, 6), 1, 1), ('shanks ignored', 'm=6, ng=7, ng0=10, order=1, shanks_ind=1', ', b=b', Z(0, 1, 2, 'b'), None, 1)]
    for lab, kw, lim, zs, ind, order in cases:
        n, n0 = (7, 10) if 'ng=7' in kw else (10, 7)
        with t.ranges(rng):
            c = script(ctx, HA, 'def client(w, p, pts, a, b):\n return HankelTransform(%s, (p,), %s)(w%s)' % (G_SRC, kw, lim), [w, p, A(pts), a, b], need=['HankelTransform'], hooks=dict(hk))
            f = lambda x: mul(x, G(x, p), fn('jn', num(order), mul(w, x)))
            ig = [gauss(K[n0 if k == 0 else n], lo, hi, f) for k, (lo, hi) in enumerate(zip(zs, zs[1:]))]
            want = ig[0] if len(ig) == 1 else add(ig[0], total(ig[1:], ind))
            cmp(ctx, 'hankel', 'HankelTransform: ' + lab, c, c.value(of=c.item(0)), want, 'not the sum over the intervals of the Kronrod sums of r f(r) J(s r)', domain={k: (float(v[0]), float(v[1])) for k, v in rng.items()})


# ---- Laplace --------------------------------------------------------------------------------------------------------
def laplace(ctx):
    tt, p = [s('t0'), s('t1')], s('p')
    for mod in (LA, ML):
        for n, sh, vec in ((4, True, True), (3, True, True), (2, False, True), (4, True, False), (5, False, False)):
            if mod == ML and not vec:
                continue
            sft = s('sh') if sh else ZERO
            N = n + n % 2
            for one in (True, False):
                kw = ', n=%d%s%s' % (n, ', shift=sh' if sh else '', '' if vec else ', vectorized=False')
                src = 'def client(t, p, sh):\n return Talbot(lambda x, p: 1/(x + p), n=%d%s)(t, args=(p,))' % (n, kw.split('%d' % n, 1)[1])
                c = script(ctx, mod, src, [tt[0] if one else A(tt), p, s('sh')], need=['Talbot'])
                th = s('theta')
                for k, x in enumerate(tt[:1] if one else tt):
                    cot = div(fn('cos', mul(num(F('0.6407')), th)), fn('sin', mul(num(F('0.6407')), th)))
                    z = add(sft, mul(div(num(N), x), add(mul(num(F('0.5017')), th, cot), num(F('-0.6122')), mul(num(F('0.2645')), I_, th))))
                    dz = t.diff(z, th)
                    v = mul(fn('exp', mul(z, x)), dz, div(ONE, add(z, p)))
                    tot = add(*[t.subst(v, {th: mul(fn('pi'), num(F(2 * j + 1, N) - 1))}) for j in range(N)])
                    want = fn('real', mul(div(ONE, mul(num(N), I_)), tot))
                    got = c.value() if one else c.at(k)
                    cmp(ctx, 'laplace', '%s.Talbot n=%d%s%s%s [%d]' % (mod.split('.')[-1], n, ' shift' if sh else '', '' if vec else ' not vectorised', '' if one else ' array', k), c, got, want,
                        'not the midpoint rule on the Talbot contour of exp(z t) F(z) / (2 pi i)', domain={'t0': (0.3, 2), 't1': (0.3, 2), 'sh': (0.1, 1), 'p': (3, 4)})
        c = script(ctx, mod, 'def client(t, p):\n return Talbot(lambda x, p: 1/(x + p), n=2)(t, (p,))', [A([tt[0], ZERO]), p], need=['Talbot'])
        ctx.count('equations')
        lab = '%s.Talbot at t=0' % mod.split('.')[-1]
        (ctx.ok('laplace', lab) if c.rejected() is t.TRUE else ctx.violation('laplace', lab, 'accepted', c.where) if c.rejected() is t.FALSE else ctx.undecided('laplace', lab))


# ---- several transforms ---------------------------------------------------------------------------------------------
F3 = ' def f(x, y, z, p):\n  return np.exp(p*x*y) + np.cos(x + 2*y*z) + y*z**2\n'
F2 = ' def f(x, y, p):\n  return np.exp(p*x*y) + np.cos(x + 2*y)*y\n'
F2L = ' def f(x, y, p):\n  return 1/(x + p) + y/(x*y + p)\n'


def multi(ctx):
    w, p, b, b2 = [s('w0'), s('w1'), s('w2')], s('p'), s('b'), s('b2')
    real = "'func_is_real': True"
    o = ["{%s, 'b': b}" % real, "{%s, 'b': b2, 'real_part_even': True}" % real, "{'a': 1, 'b': b}"]

    def nest(cls, wv, f, args, opt, k):
        # one transform of g, called with the remaining variables then the arguments
        return ' def %s(%s):\n  return %s(%s, (%s,), **%s)(%s)[0]\n' % (k, args, cls, f, args, opt, wv)
    progs = [('two Fourier', F2, "['Fourier', 'Fourier']", '[%s, %s]' % (o[0], o[1]),
              ' def g(y, p):\n  return FourierTransform(f, (y, p), **%s)(w0)[0]\n return FourierTransform(g, (p,), **%s)(w1)[0]\n' % (o[0], o[1]), 2),
             ('Fourier and inverse', F2, "['Fourier', 'Fourier_inverse']", '[%s, %s]' % (o[0], o[2]),
              ' def g(y, p):\n  return FourierTransform(f, (y, p), **%s)(w0)[0]\n return FourierTransform(g, (p,), inv=True, **%s)(w1)[0]\n' % (o[0], o[2]), 2),
             ('inverse and Fourier', F2, "['Fourier_inverse', 'Fourier']", '[%s, %s]' % (o[0], o[2]),
              ' def g(y, p):\n  return FourierTransform(f, (y, p), inv=True, **%s)(w0)[0]\n return FourierTransform(g, (p,), **%s)(w1)[0]\n' % (o[0], o[2]), 2),
             ('one dict of options', F2, "['Fourier', 'Fourier_inverse']", o[2],
              ' def g(y, p):\n  return FourierTransform(f, (y, p), **%s)(w0)[0]\n return FourierTransform(g, (p,), inv=True, **%s)(w1)[0]\n' % (o[2], o[2]), 2),
             ('no options', F2, "['Fourier', 'Fourier']", 'None',
              ' def g(y, p):\n  return FourierTransform(f, (y, p))(w0)[0]\n return FourierTransform(g, (p,))(w1)[0]\n', 2),
             ('options from a function', F2, "['Fourier', 'Fourier']", "[lambda *a: %s, %s]" % (o[0], o[1]),
              ' def g(y, p):\n  return FourierTransform(f, (y, p), **%s)(w0)[0]\n return FourierTransform(g, (p,), **%s)(w1)[0]\n' % (o[0], o[1]), 2),
             ('three', F3, "['Fourier', 'Fourier_inverse', 'Fourier']", '[%s, %s, %s]' % (o[0], o[1], o[0]),
              ' def g(y, z, p):\n  return FourierTransform(f, (y, z, p), **%s)(w0)[0]\n def h(z, p):\n  return FourierTransform(g, (z, p), inv=True, **%s)(w1)[0]\n return FourierTransform(h, (p,), **%s)(w2)[0]\n' % (o[0], o[1], o[0]), 3),
             ('Laplace inverse then Fourier', F2L, "['Laplace_inverse', 'Fourier']", "[{'n': 2, 'shift': 2}, %s]" % o[0],
              ' def g(y, p):\n  return Talbot(f, n=2, shift=2)(w0, (y, p))\n return FourierTransform(g, (p,), **%s)(w1)[0]\n' % o[0], 2),
             ('Hankel then Fourier', F2, "['Hankel', 'Fourier']", "[{'m': 1, 'ng0': 7}, %s]" % o[0],
              ' def g(y, p):\n  return HankelTransform(f, (y, p), m=1, ng0=7)(w0)[0]\n return FourierTransform(g, (p,), **%s)(w1)[0]\n' % o[0], 2),
             ('Hankel inverse', ' def f(x, p):\n  return np.exp(p*x)\n', "['Hankel_inverse']", "[{'m': 1, 'ng0': 7, 'order': 1}]", ' return HankelTransform(f, (p,), m=1, ng0=7, order=1)(w0)[0]\n', 1)]
    hk = dict(HOOKS)
    for lab, fs, tr, op, ref, n in progs:
        head = 'def client(w0, w1, w2, p, b, b2):\n' + fs
        args = w + [p, b, b2]
        for k in (True, False):
            if not k and op == 'None':
                call_ = 'ntransform(f, %s, (%s,), args=(p,))' % (tr, ', '.join('w%d' % i for i in range(n)))
            else:
                call_ = 'ntransform(f, %s, (%s,), (p,), %s)' % (tr, ', '.join('w%d' % i for i in range(n)), op)
                if not k:
                    continue
            c = script(ctx, MT, head + ' return %s[0]\n' % call_, args, need=['ntransform'], hooks=dict(hk))
            d = script(ctx, MT, head + ref, args, hooks=dict(hk))
            cmp(ctx, 'several', 'ntransform: %s%s' % (lab, '' if k else ' (default)'), c, c.value(), d.value(), 'not the transforms applied one after the other, the first one innermost',
                domain={'w0': (0.3, 2), 'w1': (0.3, 2), 'w2': (0.3, 2)})
    for lab, tv in (('too few variables', '(w0,)'), ('too many variables', '(w0, w1, w2)'), ('not iterable', 'w0')):
        c = script(ctx, MT, 'def client(w0, w1, w2, p):\n%s return ntransform(f, ["Fourier", "Fourier"], %s, (p,))\n' % (F2, tv), w + [p], need=['ntransform'])
        ctx.count('equations')
        lab = 'ntransform: ' + lab
        (ctx.ok('several', lab) if c.rejected() is t.TRUE else ctx.violation('several', lab, 'accepted', c.where) if c.rejected() is t.FALSE else ctx.undecided('several', lab))


def defaults(ctx):
    p, r = s('p'), s('r0')
    for mod, name, call_, full in ((HA, 'vhankel_transform', 'vhankel_transform(f, r)', 'vhankel_transform(f, r, args=(), order=0, m=20, ng=20, shanks_ind=None)'),
                                   (FO, 'vcosine_transform', 'vcosine_transform(f, r)', 'vcosine_transform(f, r, args=(), m=20, ng=20, shanks_ind=None)'),
                                   (HA, 'HankelTransform', 'HankelTransform(f)(r)[0]', 'HankelTransform(f, args=(), order=0, m=20, points=None, ng=10, ng0=20, shanks_ind=None)(r, a=0, b=np.inf)[0]'),
                                   (LA, 'Talbot', 'Talbot(f)(r)', 'Talbot(f, n=24, shift=0, vectorized=True)(r, args=())'), (ML, 'Talbot', 'Talbot(f)(r)', 'Talbot(f, n=24, shift=0)(r, args=())')):
        src = 'def client(r, p):\n f = lambda x: 1/(x*x + p)\n return %s'
        v = [script(ctx, mod, src % k, [r, p], need=[name], hooks=dict(HOOKS), unroll=60) for k in (call_, full)]
        at = lambda c: c.at(0) if name.startswith('v') else c.value()
        cmp(ctx, 'defaults', '%s.%s' % (mod.split('.')[-1], name), v[0], at(v[0]), at(v[1]), 'documented default values are not used', domain={'p': (2, 3), 'r0': (1, 2)}, seeds=(1,))


def check(ctx):
    ctx.parallel([lambda: fourier(ctx), lambda: vectorised(ctx, 0), lambda: vectorised(ctx, 1), lambda: twod(ctx), lambda: hankel(ctx), lambda: laplace(ctx), lambda: multi(ctx), lambda: defaults(ctx)])
