"""Abstraction of the speccon programs: integrals over depth and responses over time are multilinear functionals of the nodal values of the lines
they are given, with uninterpreted coefficients that depend on the break points, eigenvalues and times only (the coefficients themselves are the
subject of the kernel checks)."""
from . import terms as t
from . import kern
from .front import Arr, ClassV, ObjV, newkey, Interp, State, FuncV
from .terms import num, ZERO, ONE, mul, add, sub

INTEG, PW = kern.INTEG, kern.PW
NL = 2


def nodes(I, st, v):
    """elements of a 1d array (or scalar) with a concrete length"""
    a = I.as_array(v, st)
    if isinstance(a, t.Node):
        return None if a.unk else [a]
    if not isinstance(a, Arr):
        return None
    ax, f = st.store[a.key]
    if len(ax) != 1 or ax[0].size.op != 'num':
        return None
    return [I.elem(a, (num(i),), st) for i in range(int(ax[0].size.args[0]))]


def rows(I, st, v):
    a = I.as_array(v, st)
    if not isinstance(a, Arr):
        return None
    ax, f = st.store[a.key]
    if len(ax) != 2 or any(x.size.op != 'num' for x in ax):
        return None
    return [[I.elem(a, (num(i), num(j)), st) for j in range(int(ax[1].size.args[0]))] for i in range(int(ax[0].size.args[0]))]


def attr(I, st, o, n):
    if not isinstance(o, ObjV):
        return None
    return nodes(I, st, I.getattr(o, n, st))


def vec(I, st, xs):
    return I.np_array([I.new_list(st, list(xs))], {}, st)


class Lost(Exception):
    pass


def need(v, what):
    if v is None:
        raise Lost(what)
    return v


class Line(object):
    """plain data of a line in the specification: x1, x2, y1, y2 (depth) or x, y (time)"""

    def __init__(self, x1=None, x2=None, y1=None, y2=None, x=None, y=None):
        self.x1, self.x2, self.y1, self.y2, self.x, self.y = x1, x2, y1, y2, x, y

    def scaled(self, k):
        f = lambda v: None if v is None else [mul(k, q) for q in v]
        return Line(self.x1, self.x2, f(self.y1), f(self.y2), self.x, f(self.y))

    def plus(self, o, k=ONE):
        return Line(self.x1, self.x2, [add(a, mul(k, b)) for a, b in zip(self.y1, o.y1)], [add(a, mul(k, b)) for a, b in zip(self.y2, o.y2)])

    def ends(self):
        return [((l, e), v) for l in range(len(self.y1)) for e, v in ((0, self.y1[l]), (1, self.y2[l]))]


def depth(name, zb=None):
    zb = zb or t.sym('zb')
    s = lambda q, l: t.sym('%s.%s%d' % (name, q, l))
    return Line([ZERO, zb], [zb, ONE], [s('y1', 0), s('y1', 1)], [s('y2', 0), s('y2', 1)])


def time(name):
    return Line(x=[t.sym(name + '.t%d' % k) for k in range(2)], y=[t.sym(name + '.q%d' % k) for k in range(2)])


def functional(name, lines, extra, symmetric=True):
    """sum over layers and over the nodes of each line; coefficients symmetric in the lines when asked"""
    out = []
    nl = len(lines[0].y1)
    if any(len(ln.y1) != nl for ln in lines):
        raise Lost('lines with different numbers of pieces')
    k = num(t.Fraction(1, len(lines)))
    for l in range(nl):
        x1 = mul(k, add(*[ln.x1[l] for ln in lines]))
        x2 = mul(k, add(*[ln.x2[l] for ln in lines]))
        for m in range(2 ** len(lines)):
            bits = [(m >> i) & 1 for i in range(len(lines))]
            tag = (sum(bits),) if symmetric else tuple(bits)
            c = t.mk('sel', '%s%s' % (name, ''.join(map(str, tag))), x1, x2, *extra)
            out.append(mul(c, *[ln.y2[l] if b else ln.y1[l] for ln, b in zip(lines, bits)]))
    return add(*out)


# ---- the functionals -------------------------------------------------------------------------------------------------
def K(name, lines, p, q):
    return functional(name, lines, [add(p, q), mul(p, q)])


def TH(name, lines, p):
    """int sin(p z) a b (c)"""
    return functional(name, lines, [p])


def DAB(a, b, p):
    """int sin(p z) d/dz(a db/dz)"""
    slope = Line(b.x1, b.x2, [sub(y2, y1) for y1, y2 in zip(b.y1, b.y2)], [ZERO for y in b.y1])
    return functional('DAB', [a, slope], [p], False)


def resp(kind, line, extra):
    return add(*[mul(y, t.mk('sel', kind, x, *extra)) for x, y in zip(line.x, line.y)])


def interp(line, tt, choose=None):
    return resp('interp' + ('' if choose is None else str(choose)), line, [tt])


def at_depth(b, z):
    """value of a one-piece line"""
    if len(b.y1) != 1:
        return functional('at', [b], [z])
    return add(b.y1[0], mul(sub(b.y2[0], b.y1[0]), t.div(sub(z, b.x1[0]), sub(b.x2[0], b.x1[0]))))


class World(object):
    """hooks giving the depth integrals and time responses their uninterpreted meaning"""

    def __init__(self, steps=False):
        self.steps = steps
        self.eigs = []
        self.hooks = {}
        for n, (args, fn) in self.table().items():
            self.hooks[n] = self.hook(args, fn)
        self.hooks[PW + '.polyline_make_x_common'] = lambda I, args, kw, st, f: I.new_list(st, list(args), True)
        self.hooks['numpy.linalg.eig'] = self.eig
        for op, k in (('__sub__', -1), ('__add__', 1)):
            self.hooks[PW + '.PolyLine.' + op] = self.plus(k)

    def hook(self, formals, fn):
        def h(I, args, kw, st, f):
            fr = I.bind(f, args, kw, st)
            if fr is None:
                return t.unk('binding')
            env = st.store[fr.key]
            try:
                return fn(I, st, *[env.get(n) for n in formals])
            except Lost as e:
                return t.unk(str(e))
        return h

    # ---- conversions
    def line(self, I, st, o):
        return Line(*[need(attr(I, st, o, n), 'line ' + n) for n in ('x1', 'x2', 'y1', 'y2')])

    def obj(self, I, st, ln):
        r = I.p.resolve(PW, 'PolyLine')
        o = ObjV(newkey(), ClassV(r[1], r[2]))
        d = {'__obj__': True, 'atol': t.sym('atol'), 'rtol': t.sym('rtol'), '_xy': None, '_x1': None, '_x2': None, '_y1': None, '_y2': None}
        if ln.x is None:
            for n in ('x1', 'x2', 'y1', 'y2'):
                d[n] = d['_' + n] = vec(I, st, getattr(ln, n))
            inter = lambda a, b: [v for p in zip(a, b) for v in p]
            d['x'] = d['_x'] = vec(I, st, inter(ln.x1, ln.x2))
            d['y'] = d['_y'] = vec(I, st, inter(ln.y1, ln.y2))
        else:
            d['x'] = d['_x'] = vec(I, st, ln.x)
            d['y'] = d['_y'] = vec(I, st, ln.y)
        st.store[o.key] = d
        return o

    def plus(self, k):
        def h(I, args, kw, st, f):
            a = f.selfv if f.selfv is not None else args[0]
            b = args[-1]
            try:
                return self.obj(I, st, self.line(I, st, a).plus(self.line(I, st, b), num(k)))
            except Lost as e:
                return t.unk(str(e))
        return h

    def eig(self, I, args, kw, st, f):
        A = rows(I, st, args[0])
        if A is None:
            return t.unk('eig')
        self.eigs.append(A)
        n = len(A)
        return I.new_list(st, [vec(I, st, [t.sym('lam%d' % i) for i in range(n)]),
                               I.matrix([[t.sym('V%d%d' % (i, j)) for j in range(n)] for i in range(n)], st)], True)

    # ---- meanings
    def table(self):
        T = {}
        ab = 'at ab bt bb ct cb'.split()
        for nm, k in (('dim1sin_af_linear', 1), ('dim1sin_abf_linear', 2), ('dim1sin_D_aDf_linear', 1)):
            T[INTEG + '.' + nm] = (['m', 'zt', 'zb'] + ab[:2 * k], lambda I, st, m, zt, zb, *y, nm=nm: self.square(I, st, nm, m, self.lines(I, st, zt, zb, y)))
        for nm, k in (('dim1sin_ab_linear', 2), ('dim1sin_abc_linear', 3)):
            T[INTEG + '.' + nm] = (['m', 'zt', 'zb'] + ab[:2 * k], lambda I, st, m, zt, zb, *y, k=k: vec(I, st, [
                TH('th%d' % k, self.lines(I, st, zt, zb, y), p) for p in need(nodes(I, st, m), 'm')]))
        T[INTEG + '.dim1sin_D_aDb_linear'] = (['m', 'zt', 'zb'] + ab[:4], lambda I, st, m, zt, zb, *y: vec(I, st, [
            DAB(*(self.lines(I, st, zt, zb, y) + [p])) for p in need(nodes(I, st, m), 'm')]))
        T[INTEG + '.dim1sin_a_linear_between'] = (['m', 'z', 'zt', 'zb', 'at', 'ab'], self.between)
        for nm in ('Eload_linear', 'EDload_linear'):
            T[INTEG + '.' + nm] = (['loadtim', 'loadmag', 'eigs', 'tvals', 'dT'], self.load(nm))
        for nm in ('Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear'):
            T[INTEG + '.' + nm] = (['loadtim', 'loadmag', 'eigs', 'tvals', 'dT', 'omega', 'phase'], self.load(nm))
        T[PW + '.interp_x_y'] = (['x', 'y', 'xi', 'choose_max'], self.interp)
        T[PW + '.interp_x1_x2_y1_y2'] = (['x1', 'x2', 'y1', 'y2', 'xi'], lambda I, st, x1, x2, y1, y2, z: vec(I, st, [
            at_depth(self.lines(I, st, x1, x2, [y1, y2])[0], q) for q in need(nodes(I, st, z), 'z')]))
        T[PW + '.avg_x1_x2_y1_y2_between_xi_xj'] = (['x1', 'x2', 'y1', 'y2', 'xi', 'xj'], lambda I, st, x1, x2, y1, y2, zi, zj: vec(I, st, [
            avg_depth(self.lines(I, st, x1, x2, [y1, y2])[0], p, q) for p, q in zip(need(nodes(I, st, zi), 'z'), need(nodes(I, st, zj), 'z'))]))
        T[PW + '.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between'] = (
            'x1a x2a y1a y2a x1b x2b y1b y2b xi xj'.split(), self.product)
        return T

    def lines(self, I, st, x1, x2, ys):
        X1, X2 = need(nodes(I, st, x1), 'x1'), need(nodes(I, st, x2), 'x2')
        Y = [need(nodes(I, st, y), 'y') for y in ys]
        return [Line(X1, X2, Y[2 * k], Y[2 * k + 1]) for k in range(len(Y) // 2)]

    def product(self, I, st, x1, x2, y1, y2, u1, u2, v1, v2, zi, zj):
        B, C = self.lines(I, st, x1, x2, [y1, y2])[0], self.lines(I, st, u1, u2, [v1, v2])[0]
        return vec(I, st, [INT(B, C, p, q) for p, q in zip(need(nodes(I, st, zi), 'z'), need(nodes(I, st, zj), 'z'))])

    def flag(self, ch):
        if not self.steps:
            return None
        if ch is True or ch is False:
            return ch
        if isinstance(ch, t.Node) and ch.op == 'num':
            return bool(ch.args[0])
        raise Lost('choose_max')

    def square(self, I, st, nm, m, L):
        ms = need(nodes(I, st, m), 'm')
        return I.matrix([[K(nm, L, p, q) for q in ms] for p in ms], st)

    def between(self, I, st, m, z, zt, zb, at, ab):
        ms, zz, L = need(nodes(I, st, m), 'm'), need(rows(I, st, z), 'z'), self.lines(I, st, zt, zb, [at, ab])[0]
        return I.matrix([[P(L, p, z1, z2) for p in ms] for z1, z2 in zz], st)

    def load(self, nm):
        def h(I, st, lt, lm, eigs, tt, dT, *cyc):
            L = Line(x=need(nodes(I, st, lt), 'load times'), y=need(nodes(I, st, lm), 'load values'))
            e, ts, d = need(nodes(I, st, eigs), 'eigs'), need(nodes(I, st, tt), 't'), I.node(dT, st)
            return I.matrix([[E(nm, L, mul(d, q), s, *[I.node(c, st) for c in cyc]) for q in e] for s in ts], st)
        return h

    def interp(self, I, st, x, y, xi, ch):
        L, ch = Line(x=need(nodes(I, st, x), 'x'), y=need(nodes(I, st, y), 'y')), self.flag(ch)
        v = I.as_array(xi, st)
        if isinstance(v, t.Node):
            return interp(L, v, ch)
        return vec(I, st, [interp(L, s, ch) for s in need(nodes(I, st, xi), 't')])


def avg_depth(B, p, q):
    if len(B.y1) == 1:
        return mul(num(t.Fraction(1, 2)), add(at_depth(B, p), at_depth(B, q)))
    return functional('avg', [B], [p, q])


def P(L, p, z1, z2):
    return functional('between', [L], [p, z1, z2])


def E(nm, L, q, s, *cyc):
    return resp(nm, L, list(cyc) + [q, s])


def INT(B, C, z1, z2):
    return functional('int', [B, C], [z1, z2])


# ---- the specification: documented equations on plain matrices ---------------------------------------------------------
def mm(A, B):
    return [[add(*[mul(a, B[k][j]) for k, a in enumerate(r)]) for j in range(len(B[0]))] for r in A]


def madd(A, B, k=ONE):
    return [[add(a, mul(k, b)) for a, b in zip(r, s)] for r, s in zip(A, B)]


def mscale(k, A):
    return [[mul(k, a) for a in r] for r in A]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def zeros(n, m=None):
    return [[ZERO] * (m or n) for i in range(n)]


def inv(A):
    es = [x for r in A for x in r]
    n = len(A)
    return [[t.mk('minv', n, i, j, *es) for j in range(n)] for i in range(n)]


def block(M):
    return [sum((list(b[i]) for b in row), []) for row in M for i in range(len(row[0]))]


def col(v):
    return [[x] for x in v]


def basis(neig, drn):
    return [mul(t.fn('pi'), num(t.Fraction(2 * p + 1, 2)) if drn else num(p + 1)) for p in range(neig)]


class BC(object):
    """boundary lines of one pore pressure: value ub(z, t) and its depth shapes"""

    def __init__(self, drn, H, top=(), bot=()):
        self.drn = drn
        self.parts = [(ln, cyc, 'top') for ln, cyc in top or ()] + [(ln.scaled(H) if drn else ln, cyc, 'bot') for ln, cyc in bot or ()]

    def shape(self, which, a):
        """depth distribution on the pieces of line a"""
        if which == 'bot':
            return Line(a.x1, a.x2, a.x1, a.x2)
        if self.drn:
            return Line(a.x1, a.x2, [ONE] * len(a.x1), [ONE] * len(a.x1))
        return Line(a.x1, a.x2, [sub(ONE, x) for x in a.x1], [sub(ONE, x) for x in a.x2])

    def depth(self, which, z):
        return z if which == 'bot' else ONE if self.drn else sub(ONE, z)

    def __iter__(self):
        return iter(self.parts)

    def value(self, z, s, ch=None):
        return add(*[mul(self.depth(w, z), mag(ln, cyc, s, ch)) for ln, cyc, w in self.parts])

    def integral(self, a, z1, z2, s, ch=None):
        return add(*[mul(INT(a, self.shape(w, a), z1, z2), mag(ln, cyc, s, ch)) for ln, cyc, w in self.parts])


def mag(ln, cyc, s, ch=None):
    v = interp(ln, s, ch)
    return v if cyc is None else mul(t.fn('cos', add(mul(cyc[0], s), cyc[1])), v)


def response(kind, ln, cyc, q, s):
    """kind 'E' or 'ED'"""
    return E(kind + ('load_linear' if cyc is None else 'load_coslinear'), ln, q, s, *(cyc or ()))


class Galerkin(object):
    def __init__(self, ms, gam, psi, dT, tvals):
        self.ms, self.gam, self.psi, self.dT, self.tvals = ms, gam, psi, dT, tvals
        n = len(gam)
        self.lam = [t.sym('lam%d' % i) for i in range(n)]
        self.V = [[t.sym('V%d%d' % (i, j)) for j in range(n)] for i in range(n)]
        self.Igamv = inv(mm(gam, self.V))
        self.the = []

    def load(self, theta, kind, ln, cyc):
        self.the.append((theta, kind, ln, cyc))

    def solve(self):
        n = len(self.gam)
        out = zeros(n, len(self.tvals))
        for theta, kind, ln, cyc in self.the:
            g = mm(self.Igamv, col(theta))
            for e in range(n):
                for j, s in enumerate(self.tvals):
                    out[e][j] = add(out[e][j], mul(g[e][0], response(kind, ln, cyc, mul(self.dT, self.lam[e]), s)))
        return mm(self.V, out)


def vadd(*vs):
    return [add(*x) for x in zip(*vs)]


def vscale(k, v):
    return [mul(k, x) for x in v]


def sins(ms, z):
    return [t.fn('sin', mul(m, z)) for m in ms]


def avg_basis(m, z1, z2):
    return t.div(sub(t.fn('cos', mul(m, z1)), t.fn('cos', mul(m, z2))), mul(m, sub(z2, z1)))
