"""Shared driver for the spectral integral kernels (scalar / vectorised / Fortran)."""
import os
from . import terms as t
from . import fortran
from .front import Interp, State, FuncV, Axis, Arr, PyList, Opaque, ExtV, ObjV, Frame
from .terms import num, ZERO, ONE

INTEG = 'geotecha.speccon.integrals'
PW = 'geotecha.piecewise.piecewise_linear_1d'
MATRIX = ['dim1sin_af_linear', 'dim1sin_abf_linear', 'dim1sin_D_aDf_linear', 'dim1sin_DD_abDDf_linear']
VECTOR = ['dim1sin_ab_linear', 'dim1sin_abc_linear', 'dim1sin_D_aDb_linear']
LOADS = ['Eload_linear', 'EDload_linear', 'Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear']
NEIG, NLAY, NLOAD, NT, NZ = t.size('NE'), t.size('L'), t.size('NL'), t.size('NT'), t.size('NZ')


class FakeMod(object):
    """module wrapper for translated Fortran units"""

    def __init__(self, name, rel, p):
        self.name, self.rel, self.p = name, rel, p
        self.defs = {}

    def resolve_from(self, s):
        return s.module or ''

    def sa_name(self, n):
        if n == 'numpy':
            return ExtV('numpy')
        if n in ('sin', 'cos', 'tan', 'exp', 'log', 'log10', 'sqrt', 'sinh', 'cosh', 'tanh', 'arctan', 'arcsin', 'arccos'):
            return ExtV('numpy.' + n)
        u = self.unit(n) if self.unit else None
        if u is not None:
            return FuncV(self, u)
        return ExtV('builtins.' + n)

    unit = None


def fortran_hooks(project, rel, modname, parsers, log):
    """hooks: dotted name of the compiled routine -> interpretation of its source"""
    path = os.path.join(project.repo, rel)
    if not os.path.exists(path):
        return {}
    if path not in parsers:
        parsers[path] = fortran.load(path)
    P = parsers[path]
    hooks = {}
    fm = FakeMod('fortran:' + rel, rel, project)

    def unit(n):
        u = P.units.get(n)
        if u is None or u.host is not None:
            return None
        if ('ftn', n) not in parsers:
            parsers[('ftn', n)] = fortran.Translator(P, u).translate()
        log.add('%s:%s' % (rel, n))
        return parsers[('ftn', n)]
    fm.unit = unit
    for name, u in P.units.items():
        if u.host is not None:
            continue

        def hook(interp, args, kw, st, f, u=u):
            key = ('ftn', u.name)
            if key not in parsers:
                parsers[key] = fortran.Translator(P, u).translate()
            fd = parsers[key]
            log.add('%s:%s' % (rel, u.name))
            old = getattr(interp, 'allow_break', False)
            interp.allow_break = True
            # f2py: array dimension arguments are implied by the array arguments
            names = [a.arg for a in fd.args.args]
            bound = {}
            dimvals = {}
            plain = [n for n in names if not is_dim(u, n)]
            rest = list(args)
            for n in plain:
                if rest:
                    bound[n] = rest.pop(0)
                elif n in kw:
                    bound[n] = kw[n]
            for n in plain:
                v = bound.get(n)
                d = u.dims.get(n)
                if d and isinstance(v, Arr):
                    ax = interp.axes(v, st)
                    for (lo, hi), x in zip(d, ax):
                        dn = dimname(hi)
                        if dn:
                            dimvals.setdefault(dn, x.size)
            fn = FuncV(FTN(fm), fd)
            try:
                return interp.call_func(fn, [], {n: bound.get(n, dimvals.get(n)) for n in names if n in bound or n in dimvals}, st)
            finally:
                interp.allow_break = old
        hooks[modname + '.' + name] = hook
    return hooks


def FTN(fm):
    return fm


def dimname(hi):
    import re
    m = re.match(r'^\s*(\w+)\s*(?:-\s*1)?\s*$', hi or '')
    return m.group(1).lower() if m and not m.group(1).isdigit() else None


def is_dim(u, n):
    for a, ds in u.dims.items():
        if a in u.args and u.intent.get(a) != 'out':
            for lo, hi in ds:
                if dimname(hi) == n:
                    return True
    return False


def seg_hook(interp, args, kw, st, f):
    """segment_containing_also_segments_less_than_xi(x, y, xi, steps_or_equal_to, choose_max):
    contract model - five index sets per xi, described by membership conditions."""
    names = ['x', 'y', 'xi', 'steps_or_equal_to', 'choose_max']
    d = {'steps_or_equal_to': True}
    d.update(zip(names, args))
    d.update(kw)
    x, y, xi = (interp.np_atleast_1d([d[k]], {}, st) for k in ('x', 'y', 'xi'))
    if not all(isinstance(v, Arr) for v in (x, y, xi)):
        return t.unk('segments')
    (axx, fx), (axy, fy), (axi, fi) = (st.store[v.key] for v in (x, y, xi))
    n = t.sub(axx[0].size, ONE)
    ste = d['steps_or_equal_to']
    ste = True if ste is True else (False if ste is False else None)
    if ste is None:
        return t.unk('segments')
    eps = num(5e-7)

    def nearly(a, b):
        return t.le(t.fn('abs', t.sub(a, b)), t.mul(eps, t.fn('abs', t.add(a, b))))

    def sets(i):
        T = fi((i,))

        def parts(k):
            a, b = fx((k,)), fx((t.add(k, ONE),))
            step = nearly(a, b)
            const = t.and_(t.not_(step), nearly(fy((k,)), fy((t.add(k, ONE),))))
            ramp = t.and_(t.not_(step), t.not_(nearly(fy((k,)), fy((t.add(k, ONE),)))))
            after = t.le(b, T)
            inside = t.and_(t.le(a, T), t.lt(T, b))
            saft = t.le(b, T) if ste else t.lt(b, T)
            return step, const, ramp, after, inside, saft
        return [lambda k: t.and_(parts(k)[2], parts(k)[3]), lambda k: t.and_(parts(k)[1], parts(k)[3]),
                lambda k: t.and_(parts(k)[0], parts(k)[5]), lambda k: t.and_(parts(k)[2], parts(k)[4]),
                lambda k: t.and_(parts(k)[1], parts(k)[4])]
    out = []
    for c in range(5):
        out.append(ListOfLists(axi[0].size, lambda i, c=c: sets(i)[c], n))
    return interp.new_list(st, out, True)


def between_hook(interp, args, kw, st, f):
    """segments_between_xi_and_xj(x, xi, xj): four disjoint index sets (opaque, mutually
    exclusive per segment)"""
    x, xi, xj = (interp.np_atleast_1d([a], {}, st) for a in args[:3])
    if not all(isinstance(v, Arr) for v in (x, xi, xj)):
        return t.unk('segments')
    (axx, fx), (axi, fi), (axj, fj) = (st.store[v.key] for v in (x, xi, xj))
    n = t.sub(axx[0].size, ONE)

    def sets(i):
        a, b = fi((i,)), fj((i,))

        def ins(v, k):
            return t.and_(t.le(fx((k,)), v), t.lt(v, fx((t.add(k, ONE),))))
        both = lambda k: t.and_(ins(a, k), ins(b, k))
        z1 = lambda k: t.and_(ins(a, k), t.not_(ins(b, k)))
        z2 = lambda k: t.and_(ins(b, k), t.not_(ins(a, k)))
        btw = lambda k: t.and_(t.lt(a, fx((k,))), t.lt(fx((t.add(k, ONE),)), b))
        return [both, z1, z2, btw]
    out = [ListOfLists(axi[0].size, lambda i, c=c: sets(i)[c], n) for c in range(4)]
    return interp.new_list(st, out, True)


class ListOfLists(object):
    """list (per query point) of index lists, described by membership"""

    def __init__(self, n, member, nseg):
        self.n, self.member, self.nseg = n, member, nseg

    def sa_getitem(self, interp, ix, st):
        m = self.member(ix)
        ax = Axis(self.nseg, mask=m, base=self.nseg)
        return interp.new_arr(st, [ax], lambda k: k[0])


class Runner(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.parsers = {}
        self.log = set()
        self.hooks = {
            PW + '.segment_containing_also_segments_less_than_xi': seg_hook,
            PW + '.segments_between_xi_and_xj': between_hook,
        }
        self.hooks.update(fortran_hooks(ctx.p, 'geotecha/speccon/ext_integrals.f95', 'geotecha.speccon.ext_integrals', self.parsers, self.log))

    def run(self, fname, impl, poly=False):
        I = Interp(self.ctx.p, hooks=self.hooks)
        st = State()
        m, node, _ = self.ctx.func(INTEG, fname)
        kw = {}
        for a in node.args.args:
            n = a.arg
            if n == 'implementation':
                continue
            if n in ('m', 'eigs'):
                v = I.sym_array(st, n, [NEIG])
            elif n in ('at', 'ab', 'bt', 'bb', 'ct', 'cb', 'zt', 'zb'):
                v = I.sym_array(st, n, [NLAY])
            elif n in ('loadtim', 'loadmag'):
                v = I.sym_array(st, n, [NLOAD])
            elif n == 'tvals':
                v = I.sym_array(st, n, [NT])
            elif n == 'z':
                v = I.sym_array(st, n, [NZ, num(2)])
            else:
                v = t.sym(n)
            kw[n] = v
        if impl:
            kw['implementation'] = impl
        r = I.call_func(FuncV(m, node), [], kw, st)
        self.ctx.functions |= I.funcs | self.log
        return I, st, r


def element(I, st, r, ix):
    if isinstance(r, Arr) and len(I.axes(r, st)) == len(ix):
        return I.elem(r, ix, st)
    return t.unk('result is not an array of rank %d' % len(ix))


class Scenario(object):
    """concrete interpretation of load arrays for one (segment kind, position) case"""

    def __init__(self, kind, pos):
        self.kind, self.pos = kind, pos
        self.name = '%s segment, time %s' % (kind, pos)

    K0 = 6

    def points(self, lo, hi):
        return [(lo + self.K0, 1)]

    def arrays(self):
        kind, pos, K0 = self.kind, self.pos, self.K0

        def loadtim(S, n, ix):
            k = int(ix[0])
            if kind == 'step' and k == K0 + 1:
                k = K0
            if kind == 'short ramp' and k == K0 + 1:
                return loadtim(S, n, [K0]) * (1 + t.mpf(10) ** -5)
            return t.mpf(k) * 3 + 1 + t._rnd((S.seed, 'lt', k), 0.1, 0.9)

        def loadmag(S, n, ix):
            k = int(ix[0])
            if kind == 'constant' and k == K0 + 1:
                k = K0
            if kind == 'gentle ramp' and k == K0 + 1:
                return loadmag(S, n, [K0]) * (1 + t.mpf(10) ** -5)
            return t._rnd((S.seed, 'lm', k))

        def tvals(S, n, ix):
            a, b = loadtim(S, n, [K0]), loadtim(S, n, [K0 + 1])
            return {'before': a - t.mpf('0.7'), 'at start': a, 'inside': a + (b - a) * t.mpf('0.37'),
                    'at end': b, 'after': b + t.mpf('0.9')}[pos]
        return {'loadtim': loadtim, 'loadmag': loadmag, 'tvals': tvals}


def concrete_truth(kind, d):
    """order conditions decided by the sampled values themselves"""
    if t.vkey(d) == '0':
        return 0 if kind == 'sign' else True
    x = d.real if hasattr(d, 'imag') and isinstance(d, t.mpc) else d
    if kind == 'sign':
        return 1 if x > 0 else -1
    return False


SCENARIOS = [Scenario(k, p) for k in ('ramp', 'constant', 'step') for p in ('before', 'at start', 'inside', 'at end', 'after')
             if not (k == 'step' and p in ('inside', 'at end'))]
# segments that a sloppy tolerance would mistake for constants / steps
EDGE_SCENARIOS = [Scenario(k, p) for k in ('gentle ramp', 'short ramp') for p in ('inside', 'after')]
