"""Small driver: abstract a public function applied to symbolic scalars / short lists."""
from fractions import Fraction
from . import core
from . import terms as t
from .front import Interp, State, FuncV, Arr, Gate, PyList, PyDict, StrV, Opaque, ClassV, ObjV, newkey
from .kern import concrete_truth


class A(list):
    """items of a numpy array argument"""


def wrap(I, st, v):
    if isinstance(v, A):
        return I.np_array([I.new_list(st, [wrap(I, st, x) for x in v])], {}, st)
    if isinstance(v, (list, tuple)):
        return I.new_list(st, [wrap(I, st, x) for x in v], isinstance(v, tuple))
    if isinstance(v, dict):
        d = PyDict(newkey())
        st.store[d.key] = {k: wrap(I, st, x) for k, x in v.items()}
        return d
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, float):
        return t.num(Fraction(v))
    if isinstance(v, (int, Fraction)):
        return t.num(v)
    return v


class Call(object):
    """result of abstracting one call"""

    def __init__(self, ctx, mod, name, args=(), kw=None, hooks=None, opaque=(), setup=None, unroll=24):
        self.ctx = ctx
        self.I = I = Interp(ctx.p, hooks=hooks, opaque=opaque, unroll=unroll)
        self.st = st = State()
        m, node, cls = ctx.func(mod, name)
        self.where = '%s:%s' % (m.rel, name)
        self.name = name
        if setup:
            args, kw = setup(I, st)
        a = [wrap(I, st, x) for x in args]
        k = {n: wrap(I, st, v) for n, v in (kw or {}).items()}
        self.r = I.run(lambda: I.call_func(FuncV(m, node), a, k, st))
        self.raised = list(I.raised)
        ctx.functions |= I.funcs

    def rejected(self):
        """condition under which the call raises"""
        return t.or_(*[c for c, f, s in self.raised]) if self.raised else t.FALSE

    def rank(self):
        r = self.r
        while isinstance(r, Gate):
            r = r.a
        return 0 if isinstance(r, t.Node) else len(self.I.axes(r, self.st)) if isinstance(r, Arr) else None

    def at(self, *ix, **k):
        """element of the result; an explicit failure where the call raises"""
        v = self.value(*ix, **k)
        for c, f, s in self.raised:
            if c is not t.FALSE and not t.atoms(c, lambda n: n.op == 'idx'):
                v = t.ite(c, t.fail('raise in ' + getattr(f.node, 'name', '?')), v)
        return v

    def value(self, *ix, **k):
        r = k.get('of', self.r)
        I, st = self.I, self.st
        try:
            if isinstance(r, t.Node):
                return r
            if isinstance(r, Gate):
                return t.ite(r.c, self.value(*ix, of=r.a), self.value(*ix, of=r.b))
            if isinstance(r, PyList) or not isinstance(r, Arr):
                a = I.as_array(r, st)
                if isinstance(a, Arr):
                    r = a
                else:
                    return I.node(r, st)
            n = len(I.axes(r, st))
            ix = [t.num(i) if isinstance(i, int) else i for i in ix]
            if len(ix) == n:
                return I.elem(r, tuple(ix), st)
            if n == 1 and len(ix) == 0:
                return I.elem(r, (t.ZERO,), st)
            if n == 0:
                return I.elem(r, (), st)
        except Exception as e:
            return t.unk('element: %s' % e)
        return t.unk('rank')

    def item(self, i, of=None):
        I, st = self.I, self.st
        r = self.r if of is None else of
        if isinstance(r, Gate):
            return Gate(r.c, self.item(i, r.a), self.item(i, r.b))
        if isinstance(r, PyList):
            items = st.store[r.key]
            if isinstance(items, list) and len(items) > i:
                return items[i]
        return t.unk('item')


class Inst(object):
    """an instance of a class of the analysed package; methods are abstracted on it"""

    def __init__(self, ctx, mod, cls, args=(), kw=None, hooks=None, opaque=(), setup=None, unroll=24, bare=False):
        r = ctx.p.resolve(mod, cls)
        if not r or r[0] != 'class':
            raise core.AnchorLost('%s.%s' % (mod, cls))
        self.ctx, self.mod, self.cls = ctx, mod, cls
        self.I = I = Interp(ctx.p, hooks=hooks, opaque=opaque, unroll=unroll)
        self.st = st = State()
        if setup:
            args, kw = setup(I, st)
        self.where = '%s:%s' % (r[1].rel, cls)
        c = ClassV(r[1], r[2])
        if bare:
            self.o = ObjV(newkey(), c)
            st.store[self.o.key] = {}          # attributes not set here are unknown, not missing
        else:
            self.o = I.run(lambda: I.instantiate(c, [wrap(I, st, x) for x in args], {n: wrap(I, st, v) for n, v in (kw or {}).items()}, st))
            if not isinstance(self.o, ObjV):
                self.o = ObjV(newkey(), c)
                st.store[self.o.key] = {}
        ctx.functions |= I.funcs
        self.init_raised = list(I.raised)

    def set(self, **kw):
        for k, v in kw.items():
            self.st.store[self.o.key][k] = wrap(self.I, self.st, v)

    def attr(self, name):
        c = Call.__new__(Call)
        c.ctx, c.I, c.st, c.where, c.name = self.ctx, self.I, self.st, self.where, name
        self.I.raised = list(self.init_raised)
        c.r = self.I.run(lambda: self.I.getattr(self.o, name, self.st))
        c.raised = list(self.I.raised)
        return c

    def call(self, name, *args, **kw):
        f = self.ctx.p.func(self.mod, self.cls + '.' + name)
        if f is None:
            raise core.AnchorLost('%s.%s.%s' % (self.mod, self.cls, name))
        c = Call.__new__(Call)
        c.ctx, c.I, c.st, c.name = self.ctx, self.I, self.st, name
        c.where = '%s:%s.%s' % (f[0].rel, self.cls, name)
        I, st = self.I, self.st
        I.raised = list(self.init_raised)
        c.r = I.run(lambda: I.call(I.getattr(self.o, name, st), [wrap(I, st, x) for x in args], {n: wrap(I, st, v) for n, v in kw.items()}, st))
        c.raised = list(I.raised)
        self.ctx.functions |= I.funcs
        return c


def sym(n):
    return t.sym(n)


def full(lo, hi):
    """exact expansion of sums with concrete bounds"""
    return [(k, 1) for k in range(int(lo), int(hi))]


def verdict(ctx, rule, c, where, r, msg, count='equations'):
    ctx.count(count)
    if r.verdict == 'different':
        ctx.violation(rule, c, msg + ' (' + r.detail + ')', where)
    elif r.verdict == 'equal':
        ctx.ok(rule, c)
    else:
        ctx.undecided(rule, c, r.detail)


def integral(lo, hi, body, v, *breaks):
    return t.mk('integral', v, lo, hi, body, *breaks)


def same(ctx, rule, c, where, a, b, msg, **kw):
    kw.setdefault('truth_fn', concrete_truth)
    kw.setdefault('points', full)
    vary, domain = kw.pop('vary', None), kw.pop('domain', None)
    if isinstance(domain, dict):
        from . import chain
        box = {n: (Fraction(lo), Fraction(hi)) for n, (lo, hi) in domain.items()}
        kw['values'] = lambda seed: chain.sample(box, seed)
        domain = None
    try:
        r = t.equal(a, b, **kw)
        if r.verdict == 'equal' and vary and a is not b:
            r = corners(ctx, a, b, r, vary, domain, kw)
    except RecursionError:
        r = t.Result('undecided', 'recursion')
    verdict(ctx, rule, c, where, r, msg)
    return r


ZERO_ONE = (0, 1, 'small', 'large')


def corners(ctx, a, b, r, vary, domain, kw):
    """the same comparison with one input at a time at 0, at 1, very small and very large (inside the stated domain)"""
    values = kw.get('values') or {}
    seed = (kw.get('seeds') or (1,))[0]
    base = dict(values(seed) if callable(values) else values)
    have = set(base)
    syms = {x.args[0] for q in (a, b) for x in t.atoms(q, lambda n: n.op == 'sym')}
    kw = dict(kw, seeds=(seed,))
    for nm in sorted(syms) if vary is True else vary:
        if nm not in syms:
            continue
        v0 = base.get(nm)
        if v0 is None:
            v0 = t._rnd((seed, 'sym', nm))
        for how in (ZERO_ONE if not isinstance(vary, dict) else vary[nm]):
            v = v0 / 1000 if how == 'small' else v0 * 37 if how == 'large' else t.mpf(how)
            new = dict(base, **{nm: v})
            if domain and not domain(base, new):
                continue
            try:
                r2 = t.equal(a, b, **dict(kw, values=new))
            except ZeroDivisionError:
                continue
            if r2.verdict == 'different':
                r2.detail = 'with %s = %s, ' % (nm, t.mpmath.nstr(v, 5)) + r2.detail
                return r2
            ctx.count('corner cases')
    return r


def rejects(ctx, rule, c, call, values, want, msg, seeds=(1,)):
    """the call raises (want=True) / can return (want=False) for these argument values"""
    ctx.count('argument classes')
    cond = call.rejected()
    outcomes = set()
    for seed in seeds:
        stack = [{}]
        k = 0
        while stack and k < 200:
            assign = stack.pop()
            k += 1
            S = t.Sample(seed, values=dict(values), assign=dict(assign), truth_fn=concrete_truth)
            S.points = full
            try:
                outcomes.add(bool(t.evalbool(cond, S)))
            except t.Undecided as e:
                outcomes.add(str(e))
            base = dict(assign)
            for key, nv in S.trail:
                for v in range(1, nv):
                    stack.append(dict(base, **{}) | {key: v})
                base[key] = 0
    odd = [o for o in outcomes if not isinstance(o, bool)]
    if want and False in outcomes and not odd:
        ctx.violation(rule, c, msg, call.where)
    elif not want and outcomes == {True}:
        ctx.violation(rule, c, msg, call.where)
    elif odd:
        ctx.undecided(rule, c, odd[0])
    else:
        ctx.ok(rule, c)


class Script(Call):
    """a client program (source of one function) abstracted in the namespace of a module of the package"""

    def __init__(self, ctx, mod, src, args=(), kw=None, hooks=None, opaque=(), unroll=24, where=None, need=()):
        import ast
        import textwrap
        self.ctx = ctx
        for n in need:
            r = ctx.p.resolve(mod, n)
            if not r:
                raise core.AnchorLost('%s.%s' % (mod, n))
        m = ctx.p.modules[mod]
        self.I = I = Interp(ctx.p, hooks=hooks, opaque=opaque, unroll=unroll)
        self.st = st = State()
        node = ast.parse(textwrap.dedent(src)).body[0]
        self.where, self.name = where or m.rel, node.name
        self.r = I.run(lambda: I.call_func(FuncV(m, node), [wrap(I, st, x) for x in args], {n: wrap(I, st, v) for n, v in (kw or {}).items()}, st))
        self.raised = list(I.raised)
        ctx.functions |= I.funcs
