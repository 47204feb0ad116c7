"""Abstract interpreter: Python AST -> value graph (terms.Node).

Every statement is translated once per abstract context; branches are merged
with ITE gates, loops over symbolic ranges are summarised (accumulations become
Sum binders, element writes become index-guarded gates).  Project functions are
inlined (so helper extraction or inlining does not change the graph).
Anything outside the understood fragment becomes an `unk` node, which poisons
only the values that depend on it.
"""
import ast
import re
import string
import contextlib
import itertools
from fractions import Fraction
from . import terms as t
from .terms import Node, num, ZERO, ONE, TRUE, FALSE


class Abort(Exception):
    pass


def plain(ax):
    """an axis of known length"""
    return ax.mask is None and not ax.region and ax.size.op == 'num'


_LOCALS = {}


def local_names(fn):
    """names a function binds itself"""
    if not isinstance(fn, ast.FunctionDef):
        return ()
    if fn not in _LOCALS:
        out, glob, todo = set(), set(), list(fn.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            todo += list(ast.iter_child_nodes(n))
        _LOCALS[fn] = out - glob
    return _LOCALS[fn]


def missing(v, depth=8):
    """condition under which a value is an explicit failure"""
    if isinstance(v, Gate):
        c, a, b = v.c, v.a, v.b
    elif isinstance(v, Node) and v.op == 'ite':
        c, a, b = v.args
    else:
        return TRUE if isinstance(v, Node) and v.op == 'fail' else FALSE
    if depth == 0:
        return FALSE
    a, b = missing(a, depth - 1), missing(b, depth - 1)
    if a is FALSE and b is FALSE:
        return FALSE
    return t.or_(t.and_(c, a), t.and_(t.not_(c), b))


class LookupFail(Exception):
    """a lookup that is known to fail, inside a try statement"""


class GlobalsV(object):
    def __init__(self, mod):
        self.mod = mod


class Axis(object):
    __slots__ = ('size', 'mask', 'region', 'base')

    def __init__(self, size, mask=None, region=None, base=None):
        self.base = base        # number of elements before masking
        self.size = size
        self.mask = mask        # callable(idx)->bool node, for x[mask]
        self.region = region    # callable((p,q))->bool node, composite axis

    def is1(self):
        return self.size is ONE and self.mask is None and self.region is None


_k = [0]


def newkey():
    _k[0] += 1
    return _k[0]


class Arr(object):
    """array handle; content in state.store[key] = (axes, fn)"""

    def __init__(self, key, view=None):
        self.key = key
        self.view = view


class IdxMask(Arr):
    """positions where a condition holds: usable as an index, not as numbers"""


class PyList(object):
    def __init__(self, key, tup=False):
        self.key = key
        self.tup = tup


class PyDict(object):
    def __init__(self, key):
        self.key = key


class Opaque(object):
    """result of an uninterpreted project/external function: structured but unknown"""

    def __init__(self, node):
        self.node = node


class Gate(object):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.leaves = getattr(a, 'leaves', 1) + getattr(b, 'leaves', 1)


class Dead(Exception):
    """every path has raised: nothing after this point runs"""


MAXLEAVES = 200


LISTOPS = ('append', 'extend', 'pop', 'insert', 'remove', 'sort', 'reverse', 'clear', 'add', 'update', 'discard')
OPERATOR = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'pow': ast.Pow, 'mod': ast.Mod, 'floordiv': ast.FloorDiv}


NOTIMPL = type('NotImplementedV', (), {})()


class OpenList(list):
    """contents of a list of unknown length"""


class FuncV(object):
    def __init__(self, mod, node, closure=None, selfv=None, cls=None):
        self.mod, self.node, self.closure, self.selfv, self.cls = mod, node, closure, selfv, cls


class ClassV(object):
    def __init__(self, mod, node):
        self.mod, self.node = mod, node


class ModV(object):
    def __init__(self, mod):
        self.mod = mod


class ExtV(object):
    def __init__(self, name, selfv=None):
        self.name, self.selfv = name, selfv


class PartialV(object):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class ObjV(object):
    def __init__(self, key, cls, symname=None):
        self.key, self.cls, self.symname = key, cls, symname


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class EnumV(object):
    def __init__(self, it, start):
        self.it, self.start = it, start


class ZipV(object):
    def __init__(self, its):
        self.its = its


class StrV(object):
    """non-constant string; parts: literal text and (value, format spec) in order, None when unknown"""

    def __init__(self, parts=None):
        self.parts = parts


def strv(*parts):
    """string made of str, StrV, (value, spec) pieces"""
    out = []
    for p in parts:
        q = [p]
        if isinstance(p, StrV):
            if p.parts is None:
                return StrV()
            q = p.parts
        for x in q:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
    if all(isinstance(x, str) for x in out):
        return ''.join(out)
    return StrV(tuple(out))


def piece(v, spec=''):
    """formatted value as a piece of a string"""
    if isinstance(v, str) and not spec.strip('s'):
        return v
    if isinstance(v, StrV) and not spec.strip('s'):
        return v
    if v is None or isinstance(v, bool):
        return format(str(v), '') if not spec else StrV()
    if isinstance(v, Node):
        return StrV(((v, spec),))
    return StrV()


def format_parts(s, args, kw):
    out, auto = [], 0
    try:
        for text, name, spec, conv in string.Formatter().parse(s):
            out.append(text or '')
            if name is None:
                continue
            if conv or '{' in (spec or ''):
                return StrV()
            if name == '':
                v = args[auto]
                auto += 1
            elif name.isdigit():
                v = args[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                return StrV()
            out.append(piece(v, spec or ''))
    except Exception:
        return StrV()
    return strv(*out)


def percent_parts(s, args):
    out = re.split(r'%([-+ #0]*\d*(?:\.\d+)?)([diouxXeEfFgGsr%])', s)
    res = [out[0]]
    args = list(args)
    try:
        for k in range(1, len(out), 3):
            if out[k + 1] == '%':
                res.append('%')
            else:
                res.append(piece(args.pop(0), '' if out[k + 1] in 'sr' and not out[k] else out[k] + out[k + 1]))
            res.append(out[k + 2])
    except IndexError:
        return StrV()
    return strv(*res)


NEWAXIS = None


class State(object):
    __slots__ = ('store',)

    def __init__(self, store=None):
        self.store = store if store is not None else {}

    def copy(self):
        return State(dict(self.store))


class Out(object):
    __slots__ = ('kind', 'cond', 'st', 'val')

    def __init__(self, kind, cond, st, val=None):
        self.kind, self.cond, self.st, self.val = kind, cond, st, val


UFUNC = {
    'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sqrt': 'sqrt',
    'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh',
    'arctan': 'arctan', 'arcsin': 'arcsin', 'arccos': 'arccos', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos',
    'arcsinh': 'arcsinh', 'arccosh': 'arccosh', 'arctanh': 'arctanh', 'log1p': 'log1p', 'expm1': 'expm1', 'log2': 'log2',
    'sign': 'sign', 'erf': 'erf', 'erfc': 'erfc', 'j0': 'j0', 'j1': 'j1', 'y0': 'y0', 'y1': 'y1', 'gamma': 'gamma',
    'floor': 'floor', 'ceil': 'ceil', 'real': 'real', 'imag': 'imag', 'i0': 'i0', 'i1': 'i1', 'k0': 'k0', 'k1': 'k1',
    'expi': 'expi', 'exp1': 'exp1', 'radians': 'radians', 'degrees': 'degrees', 'factorial': 'factorial', 'isnan': None,
}
UFUNC2 = {'jn': 'jn', 'yn': 'yn', 'jv': 'jn', 'yv': 'yn', 'poch': 'poch', 'arctan2': 'arctan2', 'atan2': 'arctan2', 'iv': 'iv', 'kv': 'kv', 'hypot': 'hypot'}
NUMERIC_PKGS = ('numpy', 'math', 'scipy', 'cmath', 'mpmath')


class Interp(object):
    def __init__(self, project, opaque=(), hooks=None, maxdepth=40, budget=400000, unroll=12):
        self.p = project
        self.opaque = set(opaque)       # 'module.func' treated as uninterpreted
        self.hooks = hooks or {}        # dotted -> callable(interp, args, kw, st)
        self.depth = 0
        self.gave_up = False            # something was skipped that could have set attributes
        self.maxdepth = maxdepth
        self.budget = budget
        self.unroll = unroll
        self.modcache = {}
        self.reads = set()
        self.mods = []
        self.intry = 0
        self.raises = []                # (cond, exception name, function name)
        self.pc = TRUE                  # path condition of the statement being interpreted
        self.aborts = False
        self.raised = []                # (condition, function) of every raise reached
        self.pathcond = [TRUE]
        self.funcs = set()              # functions inlined
        self.notes = []

    # ------------------------------------------------------------ values
    def new_arr(self, st, axes, fn):
        a = Arr(newkey())
        st.store[a.key] = (tuple(axes), fn)
        return a

    def new_list(self, st, items, tup=False):
        l = PyList(newkey(), tup)
        st.store[l.key] = list(items)
        return l

    def new_dict(self, st, d=None):
        x = PyDict(newkey())
        st.store[x.key] = dict(d or {})
        return x

    def sym_array(self, st, name, sizes):
        return self.new_arr(st, [Axis(s) for s in sizes], lambda ix, _n=name: t.mk('sel', _n, *ix))

    def sym_obj(self, st, mod, clsname, name=''):
        r = self.p.resolve(mod, clsname)
        o = ObjV(newkey(), ClassV(r[1], r[2]), name)
        st.store[o.key] = {}
        return o

    def axes(self, a, st):
        return st.store[a.key][0]

    def elem(self, a, ix, st):
        axes, fn = st.store[a.key]
        return fn(tuple(ix))

    # merge ---------------------------------------------------------
    def merge(self, c, a, b, sa=None, sb=None, st=None):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Node) and isinstance(b, Node):
            return t.ite(c, a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else t.not_(c)
        if isinstance(a, bool) and isinstance(b, Node):
            return t.ite(c, TRUE if a else FALSE, b)
        if isinstance(b, bool) and isinstance(a, Node):
            return t.ite(c, a, TRUE if b else FALSE)
        if isinstance(a, (str, type(None))) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and sa is not None:
            if a.key == b.key:
                return a
            ca, cb = sa.store.get(a.key), sb.store.get(b.key)
            if ca and cb and len(ca[0]) == len(cb[0]) and not any(x.region or y.region or (x.size is not y.size and x.size.op == y.size.op == 'num' and ONE not in (x.size, y.size))
                                                                  for x, y in zip(ca[0], cb[0])):
                axes = [y if (x.is1() and not y.is1()) else x for x, y in zip(ca[0], cb[0])]
                fa, fb = ca[1], cb[1]
                return self.new_arr(st, axes, lambda ix: t.ite(c, fa(ix), fb(ix)))
        if isinstance(a, PyList) and isinstance(b, PyList) and sa is not None and a.key != b.key:
            la, lb = sa.store.get(a.key), sb.store.get(b.key)
            if la is not None and lb is not None and len(la) == len(lb):
                return self.new_list(st, [self.merge(c, x, y, sa, sb, st) for x, y in zip(la, lb)], a.tup)
        if isinstance(a, PyList) and isinstance(b, PyList) and a.key == b.key:
            return a
        if isinstance(a, ObjV) and isinstance(b, ObjV) and a.key == b.key:
            return a
        if isinstance(a, StrV) or isinstance(b, StrV):
            return a if isinstance(a, StrV) and isinstance(b, StrV) and a.parts is not None and a.parts == b.parts else StrV()
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.selfv is b.selfv:
            return a
        if isinstance(a, ExtV) and isinstance(b, ExtV) and a.name == b.name:
            return a
        return Gate(c, a, b)

    def merge_states(self, c, sa, sb):
        st = State()
        keys = set(sa.store) | set(sb.store)
        for k in keys:
            a, b = sa.store.get(k), sb.store.get(k)
            if a is b:
                st.store[k] = a
            elif a is None:
                st.store[k] = b
            elif b is None:
                st.store[k] = a
        for k in keys:
            if k in st.store:
                continue
            a, b = sa.store[k], sb.store[k]
            if isinstance(a, tuple):
                fa, fb = a[1], b[1]
                if len(a[0]) != len(b[0]):
                    st.store[k] = (a[0], lambda ix: t.unk('rank merge'))
                else:
                    st.store[k] = (a[0], lambda ix, fa=fa, fb=fb: t.ite(c, fa(ix), fb(ix)))
            elif isinstance(a, dict):
                d = {}
                attrs = '__obj__' in a and '__obj__' in b
                for n in list(a) + [x for x in b if x not in a]:
                    if n in a and n in b:
                        d[n] = self.merge(c, a[n], b[n], sa, sb, st)
                    elif attrs and not self.gave_up:
                        none = t.fail('no attribute ' + n)
                        d[n] = self.merge(c, a.get(n, none), b.get(n, none), sa, sb, st)
                    else:
                        d[n] = a[n] if n in a else b[n]
                st.store[k] = d
            elif isinstance(a, list):
                if len(a) == len(b):
                    st.store[k] = [self.merge(c, x, y, sa, sb, st) for x, y in zip(a, b)]
                else:
                    st.store[k] = OpenList([t.unk('list length depends on a condition')])
            else:
                st.store[k] = a
        return st

    def lift(self, v, f, st):
        if isinstance(v, Gate):
            if v.leaves > MAXLEAVES:
                return t.unk('too many alternatives')
            with self.under(v.c):
                a = self.lift(v.a, f, st)
            with self.under(t.not_(v.c)):
                b = self.lift(v.b, f, st)
            return self.merge(v.c, a, b, st, st, st)
        return f(v)

    @contextlib.contextmanager
    def under(self, *conds):
        pc = self.pc
        self.pc = t.and_(pc, *conds)
        try:
            yield
        finally:
            self.pc = pc

    def fails(self, why, cond=TRUE):
        """the expression being evaluated raises (under cond)"""
        if self.intry:
            if cond is TRUE:
                raise LookupFail()
            return
        c = t.and_(self.pc, cond)
        if c is not FALSE and not c.unk:
            self.raised.append((c, FuncV(None, ast.Name(id=why, ctx=ast.Load(), name=why)), None))
            if self.aborts and c is TRUE and not why.startswith("no attribute"):
                raise Dead(why)

    def run(self, thunk):
        """thunk(), or an unknown value when every path raises"""
        self.aborts = True
        try:
            return thunk()
        except Dead as e:
            return t.unk('raises: %s' % e)
        finally:
            self.aborts = False

    # conversions ------------------------------------------------------
    def node(self, v, st):
        """scalar node of a value"""
        if isinstance(v, Node):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, Opaque):
            return v.node
        if isinstance(v, Gate):
            return t.ite(v.c, self.node(v.a, st), self.node(v.b, st))
        if isinstance(v, Arr):
            axes = self.axes(v, st)
            if all(x.is1() for x in axes):
                return self.elem(v, [ZERO] * len(axes), st)
        if isinstance(v, PyList):
            l = st.store[v.key]
            if len(l) == 1:
                return self.node(l[0], st)
        return t.unk('not a scalar: ' + type(v).__name__)

    def as_array(self, v, st):
        """value -> Arr or Node (rank-0)"""
        if isinstance(v, (Node, Arr)):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, Opaque):
            n = v.node
            return self.new_arr(st, [Axis(lenof(n))], lambda ix: t.mk('call', 'elt', n, ix[0]))
        if isinstance(v, PyList):
            items = [self.as_array(x, st) for x in st.store[v.key]]
            if not items:
                return self.new_arr(st, [Axis(ZERO)], lambda ix: t.unk('empty'))
            if all(isinstance(x, Node) for x in items):
                return self.new_arr(st, [Axis(num(len(items)))], lambda ix, items=items: pick(items, ix[0]))
            if all(isinstance(x, Arr) for x in items):
                ax = self.axes(items[0], st)
                cont = [st.store[x.key] for x in items]
                if all(len(c[0]) == len(ax) for c in cont):
                    return self.new_arr(st, [Axis(num(len(items)))] + list(ax),
                                        lambda ix, cont=cont: pick([c[1](ix[1:]) for c in cont], ix[0]))
            return t.unk('ragged list')
        if isinstance(v, RangeV):
            lo, hi, step = v.lo, v.hi, v.step
            if step is ONE:
                return self.new_arr(st, [Axis(t.sub(hi, lo))], lambda ix: t.add(lo, ix[0]))
            return t.unk('range step')
        if isinstance(v, Gate):
            return self.lift(v, lambda x: self.as_array(x, st), st)
        return t.unk('array from ' + type(v).__name__)

    # broadcasting --------------------------------------------------------
    def elementwise(self, f, vals, st):
        """apply f (nodes->node) elementwise with broadcasting"""
        for k, v in enumerate(vals):
            if isinstance(v, Gate):
                A, B = list(vals), list(vals)
                A[k], B[k] = v.a, v.b
                with self.under(v.c):
                    ra = self.elementwise(f, A, st)
                with self.under(t.not_(v.c)):
                    rb = self.elementwise(f, B, st)
                return self.merge(v.c, ra, rb, st, st, st)
        vals = [self.as_array(v, st) if not isinstance(v, (Node, Arr)) else v for v in vals]
        if any(isinstance(v, Gate) for v in vals):
            return self.elementwise(f, vals, st)
        if all(isinstance(v, Node) for v in vals):
            return f(*vals)
        if any(isinstance(v, IdxMask) for v in vals):
            return t.unk('positions')
        ranks = [len(self.axes(v, st)) if isinstance(v, Arr) else 0 for v in vals]
        R = max(ranks)
        axes = [None] * R
        conts = []
        for v, r in zip(vals, ranks):
            if isinstance(v, Arr):
                ax, fn = st.store[v.key]
                conts.append((fn, r, ax))
                for k in range(r):
                    kk = R - r + k
                    if axes[kk] is None or (axes[kk].is1() and not ax[k].is1()):
                        axes[kk] = ax[k]
                    elif not ax[k].is1() and plain(ax[k]) and plain(axes[kk]) and ax[k].size is not axes[kk].size:
                        self.fails('array sizes do not match')
            else:
                conts.append((None, v, None))

        out_axes = tuple(axes)

        def fn(ix):
            args = []
            for c in conts:
                if c[0] is None:
                    args.append(c[1])
                else:
                    f0, r, ax = c
                    sub = ix[R - r:]
                    args.append(f0(tuple(ZERO if (a.is1() and not o.is1()) else i for a, i, o in zip(ax, sub, out_axes[R - r:]))))
            return f(*args)
        return self.new_arr(st, axes, memo1(fn))

    # ------------------------------------------------------------ calling
    def call(self, f, args, kw, st):
        if isinstance(f, Gate):
            sa, sb = st.copy(), st.copy()
            a = self.call(f.a, args, kw, sa)
            b = self.call(f.b, args, kw, sb)
            m = self.merge_states(f.c, sa, sb)
            r = self.merge(f.c, a, b, sa, sb, m)
            st.store.clear()
            st.store.update(m.store)
            return r
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2, st)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, st)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kw, st)
        if isinstance(f, ObjV):
            m = self.find_method(f.cls, '__call__')
            if m:
                return self.call(FuncV(m[0], m[1], None, f, m[2]), args, kw, st)
        if isinstance(f, Node) and f.op == 'sym':
            # symbolic function value
            ns = [self.as_array(a, st) for a in args]
            return self.elementwise(lambda *x: t.mk('call', 'fnval:' + f.args[0], *x), ns, st) if ns else t.mk('call', 'fnval:' + f.args[0])
        if isinstance(f, Opaque):
            return Opaque(t.mk('call', 'apply', f.node, *[self.node(a, st) for a in args]))
        return t.unk('call of ' + type(f).__name__)

    def instantiate(self, c, args, kw, st):
        o = ObjV(newkey(), c)
        st.store[o.key] = {'__obj__': True}
        m = self.find_method(c, '__init__')
        if m:
            self.call_func(FuncV(m[0], m[1], None, o, m[2]), args, kw, st)
        return o

    def closed_class(self, c):
        """all bases known, no dynamic attribute lookup"""
        for (m, cn) in self.p.mro(c.mod, c.node):
            for b in cn.bases:
                r = self.p.resolve_expr(m, b)
                if not (r and r[0] == 'class') and not (isinstance(b, ast.Name) and b.id == 'object'):
                    return False
            if any(isinstance(s, ast.FunctionDef) and s.name in ('__getattr__', '__getattribute__') for s in cn.body):
                return False
        return True

    def find_method(self, c, name, after=None):
        mro = self.p.mro(c.mod, c.node)
        skip = after is not None
        for (m, cn) in mro:
            if skip:
                if cn is after:
                    skip = False
                continue
            for s in cn.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return (m, s, cn)
        return None

    def managed(self, c, a):
        """(getter, setter) of an attribute the class manages, else None"""
        key = (c.mod, c.node, a)
        memo = self.__dict__.setdefault('_managed', {})
        if key in memo:
            return memo[key]
        r = None
        for (m, cn) in self.p.mro(c.mod, c.node):
            fns = {}
            for s in cn.body:
                if isinstance(s, ast.FunctionDef):
                    fns.setdefault(s.name, []).append(s)
                    if s.name == a:
                        decs = [ast.unparse(d) for d in s.decorator_list]
                        if 'property' in decs:
                            r = ((m, s, cn), None)
                        elif a + '.setter' in decs and r:
                            r = (r[0], (m, s, cn))
                elif isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == a for x in s.targets) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'property':
                    kw = {k.arg: k.value for k in s.value.keywords}
                    ar = list(s.value.args) + [None, None]
                    pick = [ar[0] or kw.get('fget'), ar[1] or kw.get('fset')]
                    pick = [fns.get(x.id, [None])[-1] if isinstance(x, ast.Name) else None for x in pick]
                    r = tuple((m, x, cn) if x is not None else None for x in pick)
            if r:
                break
        memo[key] = r
        return r

    def dotted(self, f):
        nm = f.node.name
        if f.cls is not None:
            nm = f.cls.name + '.' + nm
        return f.mod.name + '.' + nm

    def call_func(self, f, args, kw, st):
        name = self.dotted(f) if isinstance(f.node, ast.FunctionDef) else None
        if name in self.hooks:
            return self.hooks[name](self, args, kw, st, f)
        if name in self.opaque:
            return self.opaque_call(name, args, kw, st)
        if self.depth >= self.maxdepth:
            self.gave_up = True
            return t.unk('depth')
        fr = self.bind(f, args, kw, st)
        if fr is None:
            self.gave_up = True
            return t.unk('binding of %s' % (name or 'lambda'))
        if name:
            self.funcs.add(name)
        self.depth += 1
        self.mods.append(f.mod)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr, st)
            outs = self.block(f.node.body, fr, st)
        finally:
            self.depth -= 1
            if self.mods:
                self.mods.pop()
        return self.finish(outs, st)

    def finish(self, outs, st):
        rets = []
        for o in outs:
            if o.kind == 'raise':
                continue
            rets.append((o.cond, o.val if o.kind == 'return' else None, o.st))
        if not rets:
            return t.unk('always raises')
        c, v, s = rets[-1]
        for (c2, v2, s2) in reversed(rets[:-1]):
            m = self.merge_states(c2, s2, s)
            v = self.merge(c2, v2, v, s2, s, m)
            s = m
        if s is not st:
            st.store.clear()
            st.store.update(s.store)
        return v

    def bind(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.args]
        env = {}
        args = list(args)
        if f.selfv is not None:
            args = [f.selfv] + args
        kw = dict(kw)
        for n in names:
            if args:
                env[n] = args.pop(0)
            elif n in kw:
                env[n] = kw.pop(n)
        if args:
            if a.vararg is None:
                return None
            env[a.vararg.arg] = self.new_list(st, args, True)
        elif a.vararg is not None:
            env[a.vararg.arg] = self.new_list(st, [], True)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
        fr = Frame(f)
        st.store[fr.key] = env
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self.ev(d, Frame(FuncV(f.mod, None, f.closure)).link(st), st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, Frame(FuncV(f.mod, None, f.closure)).link(st), st)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(st, kw)
        elif kw:
            return None
        for n in names:
            if n not in env:
                return None
        st.store[fr.key] = env
        return fr

    def opaque_call(self, name, args, kw, st):
        ns = []
        for a in args:
            ns.append(self.descr(a, st))
        for k in sorted(kw):
            ns.append(t.mk('call', 'kw:' + k, self.descr(kw[k], st)))
        return Opaque(t.mk('call', name, *ns))

    def descr(self, v, st):
        """a node that identifies a value (generic element for arrays)"""
        if isinstance(v, Node):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None or isinstance(v, str):
            return t.mk('sym', 'const:%r' % (v,))
        if isinstance(v, Opaque):
            return v.node
        if isinstance(v, Arr):
            axes = self.axes(v, st)
            ph = []
            for k, a in enumerate(axes):
                ph.append((t.idx('@d%da' % k), t.idx('@d%db' % k)) if a.region else t.idx('@d%d' % k))
            return t.mk('call', 'arr%d' % len(axes), self.elem(v, ph, st))
        if isinstance(v, PyList):
            return t.mk('call', 'list', *[self.descr(x, st) for x in st.store[v.key]])
        if isinstance(v, PyDict):
            d = st.store[v.key]
            return t.mk('call', 'dict', *[t.mk('call', 'k:%s' % (k,), self.descr(d[k], st)) for k in sorted(d, key=str)])
        if isinstance(v, Gate):
            return t.ite(v.c, self.descr(v.a, st), self.descr(v.b, st))
        if isinstance(v, FuncV) and isinstance(v.node, ast.FunctionDef):
            return t.mk('sym', 'func:' + self.dotted(v))
        if isinstance(v, ExtV):
            return t.mk('sym', 'ext:' + v.name)
        if isinstance(v, ObjV):
            return t.mk('sym', 'obj:%s' % (v.symname or v.key))
        return t.unk('descr ' + type(v).__name__)

    # ------------------------------------------------------------ blocks
    def block(self, stmts, fr, st):
        outs = []
        cur = Out('next', TRUE, st)
        pc0 = self.pc
        for s in stmts:
            if cur is None:
                break
            self.pc = pc0 if cur.cond is TRUE else t.and_(pc0, cur.cond)
            self.budget -= 1
            if self.budget < 0:
                raise Abort('budget')
            res = self.stmt(s, fr, cur.st)
            nxt = [o for o in res if o.kind == 'next']
            for o in res:
                if o.kind != 'next':
                    o.cond = t.and_(cur.cond, o.cond)
                    outs.append(o)
            if not nxt:
                cur = None
            elif len(nxt) == 1:
                cur = Out('next', t.and_(cur.cond, nxt[0].cond), nxt[0].st)
            else:
                o = nxt[-1]
                for q in reversed(nxt[:-1]):
                    o = Out('next', t.or_(q.cond, o.cond), self.merge_states(q.cond, q.st, o.st))
                cur = Out('next', t.and_(cur.cond, o.cond), o.st)
        self.pc = pc0
        if cur is not None:
            outs.append(cur)
        return outs

    def stmt(self, s, fr, st):
        N = lambda: [Out('next', TRUE, st)]
        if isinstance(s, ast.Expr):
            self.ev(s.value, fr, st)
            return N()
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, fr, st)
            for tg in s.targets:
                self.assign(tg, v, fr, st)
            return N()
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr, st), fr, st)
            return N()
        if isinstance(s, ast.AugAssign):
            self.augassign(s.target, s.op, self.ev(s.value, fr, st), fr, st)
            return N()
        if isinstance(s, ast.Return):
            v = self.ev(s.value, fr, st) if s.value is not None else None
            return [Out('return', TRUE, st, v)]
        if isinstance(s, ast.If):
            c = self.cond(s.test, fr, st)
            if c is TRUE:
                return self.block(s.body, fr, st)
            if c is FALSE:
                return self.block(s.orelse, fr, st)
            sa, sb = st.copy(), st.copy()
            nc = t.not_(c)
            pc = self.pc
            self.pc = t.and_(pc, c)
            oa = self.block(s.body, fr, sa)
            self.pc = t.and_(pc, nc)
            ob = self.block(s.orelse, fr, sb)
            self.pc = pc
            for o in oa:
                o.cond = t.and_(c, o.cond)
            for o in ob:
                o.cond = t.and_(nc, o.cond)
            return [o for o in oa + ob if o.cond is not FALSE]
        if isinstance(s, ast.For):
            return self.for_(s, fr, st)
        if isinstance(s, ast.While):
            r = self.while_(s, fr, st)
            if r is not None:
                return r
            self.havoc(s.body + s.orelse, fr, st, 'while')
            if any(isinstance(x, ast.Return) for y in s.body for x in ast.walk(y)):
                return [Out('return', TRUE, st, t.unk('return in while'))]
            return N()
        if isinstance(s, (ast.FunctionDef,)):
            self.setname(s.name, FuncV(fr.func.mod, s, fr), fr, st)
            return N()
        if isinstance(s, ast.Raise):
            self.raises.append((fr.func, s))
            self.raised.append((self.pc, fr.func, s))
            return [Out('raise', TRUE, st)]
        if isinstance(s, ast.Try):
            nr = len(self.raised)
            keep = st.copy()
            pc, depth, nm = self.pc, self.depth, len(self.mods)
            self.intry += 1 if s.handlers else 0
            try:
                outs = self.block(s.body, fr, st)
            except LookupFail:
                self.pc, self.depth = pc, depth
                del self.mods[nm:]
                outs = [Out('raise', TRUE, keep)]
            finally:
                self.intry -= 1 if s.handlers else 0
            if s.handlers:
                del self.raised[nr:]
            res = []
            for o in outs:
                if o.kind == 'next' and s.orelse:
                    for q in self.block(s.orelse, fr, o.st):
                        q.cond = t.and_(o.cond, q.cond)
                        res.append(q)
                elif o.kind == 'raise':
                    # handled: take first handler
                    if s.handlers:
                        for q in self.block(s.handlers[0].body, fr, o.st):
                            q.cond = t.and_(o.cond, q.cond)
                            res.append(q)
                    else:
                        res.append(o)
                else:
                    res.append(o)
            if s.finalbody:
                out2 = []
                for o in res:
                    if o.kind == 'next':
                        for q in self.block(s.finalbody, fr, o.st):
                            q.cond = t.and_(o.cond, q.cond)
                            out2.append(q)
                    else:
                        self.block(s.finalbody, fr, o.st)
                        out2.append(o)
                res = out2
            return res
        if isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, fr, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr, st)
            return self.block(s.body, fr, st)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.import_(s, fr, st)
            return N()
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return N()
        if isinstance(s, ast.Assert):
            w = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Raise(exc=ast.Name(id='AssertionError', ctx=ast.Load()), cause=None)], orelse=[])
            return self.stmt(ast.fix_missing_locations(ast.copy_location(w, s)), fr, st)
        if isinstance(s, ast.Delete):
            return N()
        if isinstance(s, ast.Break):
            return [Out('break', TRUE, st)]
        if isinstance(s, ast.Continue):
            return [Out('continue', TRUE, st)]
        return N()

    def import_(self, s, fr, st):
        if isinstance(s, ast.Import):
            for a in s.names:
                top = a.name if a.asname else a.name.split('.')[0]
                v = ModV(self.p.modules[top]) if top in self.p.modules else ExtV(top)
                self.setname(a.asname or a.name.split('.')[0], v, fr, st)
        else:
            base = fr.func.mod.resolve_from(s)
            for a in s.names:
                if base in self.p.modules:
                    v = self.modname(self.p.modules[base], a.name, st)
                    if v is None and base + '.' + a.name in self.p.modules:
                        v = ModV(self.p.modules[base + '.' + a.name])
                else:
                    v = ModV(self.p.modules[base + '.' + a.name]) if base + '.' + a.name in self.p.modules else ext_const(base + '.' + a.name)
                self.setname(a.asname or a.name, v, fr, st)

    def havoc(self, stmts, fr, st, why):
        self.gave_up = True
        env = dict(st.store[fr.key])
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    env[x.id] = t.unk(why + ':' + x.id)
                elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                    b = x.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id in env:
                        v = env[b.id]
                        if isinstance(v, Arr):
                            ax = self.axes(v, st)
                            u = t.unk(why + ':' + b.id)
                            st.store[v.key] = (ax, lambda ix, u=u: u)
                        elif isinstance(v, PyList):
                            self.open_up(v, st, why)
                        elif isinstance(v, ObjV) and isinstance(x, ast.Attribute):
                            d = dict(st.store[v.key])
                            d[x.attr] = t.unk(why)
                            st.store[v.key] = d
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in LISTOPS:
                    b = x.func.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    v = env.get(b.id) if isinstance(b, ast.Name) else None
                    if isinstance(v, PyList):
                        self.open_up(v, st, why)
        st.store[fr.key] = env

    def open_up(self, v, st, why):
        """nothing is known any more about a list and the lists in it"""
        l = st.store[v.key]
        if isinstance(l, OpenList):
            return
        st.store[v.key] = OpenList([t.unk(why)])
        for x in l:
            if isinstance(x, PyList):
                self.open_up(x, st, why)

    # ------------------------------------------------------------ loops
    def for_(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        seq = self.concrete_iter(it, st)
        if seq is not None:
            return self.unrolled(s, seq, fr, st)
        return self.summarise(s, it, fr, st)

    def concrete_iter(self, it, st):
        if isinstance(it, PyList):
            return list(st.store[it.key])
        if isinstance(it, PyDict):
            return list(st.store[it.key].keys())
        if isinstance(it, str):
            return list(it)
        if isinstance(it, RangeV):
            if all(x.op == 'num' for x in (it.lo, it.hi, it.step)):
                r = range(int(it.lo.args[0]), int(it.hi.args[0]), int(it.step.args[0]))
                if len(r) <= self.unroll:
                    return [num(x) for x in r]
            return None
        if isinstance(it, Arr):
            ax = self.axes(it, st)
            if ax and ax[0].size.op == 'num' and not ax[0].mask and not ax[0].region and ax[0].size.args[0] <= self.unroll:
                return [self.index(it, [num(k)], st) for k in range(int(ax[0].size.args[0]))]
        if isinstance(it, EnumV):
            q = self.concrete_iter(it.it, st)
            if q is not None:
                return [self.new_list(st, [t.add(it.start, num(k)), v], True) for k, v in enumerate(q)]
        if isinstance(it, ZipV):
            qs = [self.concrete_iter(x, st) for x in it.its]
            if all(q is not None for q in qs) and qs:
                return [self.new_list(st, list(z), True) for z in zip(*qs)]
        return None

    def unrolled(self, s, seq, fr, st):
        outs = []
        cur = [Out('next', TRUE, st)]
        done = []
        for v in seq:
            nxt = []
            for o in cur:
                self.assign(s.target, v, fr, o.st)
                for q in self.block(s.body, fr, o.st):
                    q.cond = t.and_(o.cond, q.cond)
                    if q.kind in ('next', 'continue'):
                        nxt.append(Out('next', q.cond, q.st))
                    elif q.kind == 'break':
                        done.append(Out('next', q.cond, q.st))
                    else:
                        outs.append(q)
            if len(nxt) > 1:
                o = nxt[-1]
                for q in reversed(nxt[:-1]):
                    o = Out('next', t.or_(q.cond, o.cond), self.merge_states(q.cond, q.st, o.st))
                nxt = [o]
            cur = nxt
            if not cur:
                break
        if s.orelse:
            n2 = []
            for o in cur:
                for q in self.block(s.orelse, fr, o.st):
                    q.cond = t.and_(o.cond, q.cond)
                    (n2 if q.kind == 'next' else outs).append(q)
            cur = n2
        return outs + done + cur

    def while_(self, s, fr, st):
        """a loop whose condition is known before every pass"""
        keep, n0 = st.copy(), len(self.raised)
        cur, outs = st, []
        ok = False
        for k in range(4 * self.unroll):
            c = self.cond(s.test, fr, cur)
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            nxt = []
            for q in self.block(s.body, fr, cur):
                (nxt if q.kind in ('next', 'continue', 'break') else outs).append(q)
            brk = [q for q in nxt if q.kind == 'break']
            if brk and len(nxt) == 1 and brk[0].cond is TRUE:
                return outs + [Out('next', TRUE, brk[0].st)]
            if brk or not nxt:
                ok = not nxt
                if ok:
                    return outs
                break
            o = nxt[-1]
            for q in reversed(nxt[:-1]):
                o = Out('next', t.or_(q.cond, o.cond), self.merge_states(q.cond, q.st, o.st))
            if o.cond is not TRUE:
                break
            cur = o.st
        if ok:
            res = self.block(s.orelse, fr, cur) if s.orelse else [Out('next', TRUE, cur)]
            return outs + res
        st.store = keep.store
        del self.raised[n0:]
        return None

    def iter_view(self, it, st):
        """-> (count node, callable(e)->value, cond(e) or None, hint)"""
        if isinstance(it, RangeV):
            if it.step is ONE:
                return t.sub(it.hi, it.lo), (lambda e: t.add(it.lo, e)), None
            if t.isnum(it.step, -1):
                return t.sub(it.lo, it.hi), (lambda e: t.sub(it.lo, e)), None
            return None
        if isinstance(it, Arr):
            ax = self.axes(it, st)
            if not ax or ax[0].region:
                return None
            m = ax[0].mask
            return ax[0].size, (lambda e: self.index(it, [e], st)), m
        if isinstance(it, Opaque):
            n = it.node
            return lenof(n), (lambda e: t.mk('call', 'elt', n, e)), None
        if isinstance(it, EnumV):
            r = self.iter_view(it.it, st)
            if r is None:
                return None
            return r[0], (lambda e: self.new_list(st, [t.add(it.start, e), r[1](e)], True)), r[2]
        if isinstance(it, ZipV):
            rs = [self.iter_view(x, st) for x in it.its]
            if any(r is None for r in rs) or not rs:
                return None
            return rs[0][0], (lambda e: self.new_list(st, [r[1](e) for r in rs], True)), None
        return None

    def summarise(self, s, it, fr, st):
        iv = self.iter_view(it, st)
        if iv is None or s.orelse:
            self.havoc([s], fr, st, 'loop')
            return [Out('next', TRUE, st)]
        n, getter, mask = iv
        e = t.fresh_idx('e')

        def run(state):
            self.assign(s.target, getter_in(state)(e), fr, state)
            outs = self.block(s.body, fr, state)
            live = []
            bad = False
            for o in outs:
                if o.kind in ('next', 'continue'):
                    live.append(o)
                elif o.kind == 'break':
                    live.append(o)
                    self.notes.append('break treated as guard')
                    if not getattr(self, 'allow_break', False):
                        bad = True
                elif o.kind == 'return':
                    bad = True
            if not live:
                return None, bad
            o = live[-1]
            for q in reversed(live[:-1]):
                o = Out('next', t.or_(q.cond, o.cond), self.merge_states(q.cond, q.st, o.st))
            return o.st, bad

        def getter_in(state):
            r = self.iter_view(it, state)
            return r[1]

        # pass 1: discover modified cells
        probe = st.copy()
        p1, bad = run(probe)
        if p1 is None or bad:
            self.havoc([s], fr, st, 'loop-exit')
            if any(isinstance(x, ast.Return) for y in s.body for x in ast.walk(y)):
                return [Out('return', TRUE, st, t.unk('return in loop'))]
            return [Out('next', TRUE, st)]
        changed = [k for k in st.store if p1.store.get(k) is not st.store[k]]
        # pass 2: placeholders for carried values
        work = st.copy()
        carry = {}
        for k in changed:
            v0, v1 = st.store[k], p1.store[k]
            if isinstance(v0, tuple):
                nm = 'carry#%d' % newkey()
                work.store[k] = (v0[0], lambda ix, nm=nm: t.mk('sel', nm, *flat(ix)))
                carry[k] = nm
            elif isinstance(v0, dict):
                d = dict(v0)
                for n2 in v0:
                    if v1.get(n2) is not v0[n2] and isinstance(v0[n2], Node):
                        sv = t.fresh_sym('carry')
                        d[n2] = sv
                        carry[(k, n2)] = sv
                work.store[k] = d
        before = dict(work.store)
        fin, bad = run(work)
        if fin is None:
            self.havoc([s], fr, st, 'loop')
            return [Out('next', TRUE, st)]
        guard = (lambda x: x) if mask is None else (lambda x: t.ite(mask(e), x, ZERO))
        last = t.sub(n, ONE)
        carrysyms = set(v for v in carry.values() if isinstance(v, Node))
        carrynames = set(v for v in carry.values() if isinstance(v, str))

        def dirty(nd, allow=None):
            for x in t.atoms(nd, lambda z: (z.op == 'sym' and z in carrysyms) or (z.op == 'sel' and z.args[0] in carrynames)):
                if allow is not None and allow(x):
                    continue
                return True
            return False
        new = {}
        for k in list(fin.store):
            v1 = fin.store[k]
            if k not in st.store:
                new[k] = v1
                continue
            v0 = st.store[k]
            if v1 is before.get(k) and k not in carry and not isinstance(v0, dict):
                new[k] = v0
                continue
            if k in carry:
                nm = carry[k]
                new[k] = (v0[0], self.loop_array(v0, v1, nm, e, n, guard, dirty))
            elif isinstance(v0, dict):
                d = {}
                for n2 in v1:
                    if n2 in v0 and v1[n2] is v0[n2]:
                        d[n2] = v0[n2]
                        continue
                    b = v1[n2]
                    if (k, n2) in carry:
                        d[n2] = self.loop_scalar(v0[n2], b, carry[(k, n2)], e, n, guard, dirty)
                    else:
                        d[n2] = self.after_loop(b, e, last, fin, dirty, fr)
                for n2 in v0:
                    d.setdefault(n2, v0[n2])
                new[k] = d
            elif isinstance(v0, list):
                new[k] = self.loop_list(v0, v1, e, n, st, fin)
            else:
                new[k] = v1
        st2 = State(new)
        return [Out('next', TRUE, st2)]

    def loop_list(self, v0, v1, e, n, st, fin):
        return [t.unk('list built in loop')]

    def after_loop(self, b, e, last, fin, dirty, fr):
        if isinstance(b, Node):
            if dirty(b):
                return t.unk('loop carried')
            return t.subst(b, {e: last})
        return b

    def loop_scalar(self, v0, b, cs, e, n, guard, dirty):
        if not isinstance(b, Node):
            return t.unk('loop carried')
        if b is cs:
            return v0
        d = delta(b, cs)
        if d is not None and not dirty(d):
            return t.add(v0, t.mk_sum(e, ZERO, n, guard(d)))
        r = ratio(b, cs)
        if r is not None and not dirty(r):
            return t.mul(v0, t.mk('prod', e, ZERO, n, r))
        if not dirty(b):
            return t.subst(b, {e: t.sub(n, ONE)})
        return t.unk('loop carried')

    def loop_array(self, v0, v1, nm, e, n, guard, dirty):
        f0, f1 = v0[1], v1[1]
        memo = {}

        def fn(ix):
            key = tuple(flat_ids(ix))
            if key in memo:
                return memo[key]
            val = f1(ix)
            c0 = t.mk('sel', nm, *flat(ix))
            r = self.loop_elem(val, c0, f0(ix), nm, e, n, guard, dirty, f0)
            memo[key] = r
            return r
        return fn

    def loop_elem(self, val, c0, old, nm, e, n, guard, dirty, f0):
        if val is c0:
            return old
        d = delta(val, c0)
        if d is not None and not dirty(d):
            return t.add(old, t.mk_sum(e, ZERO, n, guard(d)))
        # element assignment: nested ITE whose else is c0, guarded by index equality on e
        r = self.loop_assign(val, c0, old, nm, e, n, dirty, f0)
        if r is not None:
            return r
        return t.unk('loop array')

    def loop_assign(self, val, c0, old, nm, e, n, dirty, f0):
        if val is c0:
            return old
        if val.op == 'ite':
            c, a, b = val.args
            for cc in t.conj(c):
                x = t.solve_eq(cc, e)
                if x is not None:
                    others = [z for z in t.conj(c) if z is not cc]
                    m = {e: x}
                    cond = t.and_(t.le(ZERO, x), t.lt(x, n), *[t.subst(z, m) for z in others])
                    rest = self.loop_assign(b, c0, old, nm, e, n, dirty, f0)
                    if rest is None:
                        return None
                    av = t.subst(a, m)
                    # reads of other (not yet written) elements of the same array
                    av2 = self.resolve_reads(av, c0, old, nm, cond, f0, val, e, n)
                    if av2 is None or dirty(av2):
                        return None
                    return t.ite(cond, av2, rest)
            # condition independent of e on both sides
            if not t.contains(c, e):
                x = self.loop_assign(a, c0, old, nm, e, n, dirty, f0)
                y = self.loop_assign(b, c0, old, nm, e, n, dirty, f0)
                if x is not None and y is not None:
                    return t.ite(c, x, y)
            return None
        if not dirty(val) and not t.contains(val, e):
            return val
        d = delta(val, c0)
        if d is not None and not dirty(d):
            return t.add(old, t.mk_sum(e, ZERO, n, d))
        return None

    def resolve_reads(self, av, c0, old, nm, cond, f0, val, e, n):
        reads = t.atoms(av, lambda z: z.op == 'sel' and z.args[0] == nm)
        if not reads:
            return av
        m = {}
        for r in reads:
            if r is c0:
                m[r] = old
                continue
            # is the element read ever written by this loop?  (decide on a generic sample)
            ix = r.args[1:]
            m[r] = f0(tuple(ix))
            # written condition for that element
            w = t.subst(val, lambda z, a=c0.args[1:], b=ix: dict(zip(a, b)).get(z))
            if self.may_write(w, e, n, ix, cond):
                return None
        return t.subst(av, lambda z: m.get(z))

    def may_write(self, w, e, n, ix, cond):
        # w: value of element ix at iteration e; written if condition chain true for some e
        conds = []

        def walk(x):
            if x.op == 'ite':
                for cc in t.conj(x.args[0]):
                    v = t.solve_eq(cc, e)
                    if v is not None:
                        others = [z for z in t.conj(x.args[0]) if z is not cc]
                        conds.append(t.and_(t.le(ZERO, v), t.lt(v, n), *[t.subst(z, {e: v}) for z in others]))
                        walk(x.args[2])
                        return
                conds.append(TRUE)
        walk(w)
        for c in conds:
            if feasible(t.conj(t.and_(c, cond))):
                return True
        return False

    # ------------------------------------------------------------ names
    def setname(self, n, v, fr, st):
        d = dict(st.store[fr.key])
        d[n] = v
        st.store[fr.key] = d

    def name(self, n, fr, st):
        f = fr
        while f is not None:
            d = st.store.get(f.key)
            if d is not None and n in d:
                return d[n]
            f = f.func.closure
        v = self.modname(fr.func.mod, n, st)
        if v is not None:
            return v
        if n in ('None', 'True', 'False'):
            return {'None': None, 'True': True, 'False': False}[n]
        if n == '__file__' and getattr(fr.func.mod, 'rel', None):
            return '/package/' + fr.func.mod.rel
        if n in local_names(fr.func.node) and not self.gave_up:
            self.fails('local variable %s is not set' % n)
            return t.fail('local variable %s is not set' % n)
        return ExtV('builtins.' + n)

    def modname(self, mod, n, st):
        fake = getattr(mod, 'sa_name', None)
        if fake is not None:
            return fake(n)
        r = self.p.resolve(mod.name, n)
        if r is None:
            return None
        if r[0] == 'func':
            return FuncV(r[1], r[2])
        if r[0] == 'class':
            return ClassV(r[1], r[2])
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'ext':
            return ext_const(r[1])
        if r[0] == 'assign':
            key = (r[1].name, n)
            if key not in self.modcache:
                self.modcache[key] = t.unk('recursive module constant')
                fr = Frame(FuncV(r[1], None)).link(st)
                s = r[2]
                v = t.unk('module assign')
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = self.ev(s.value, fr, st)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple):
                    vv = self.ev(s.value, fr, st)
                    if isinstance(vv, PyList):
                        for tg, x in zip(s.targets[0].elts, st.store[vv.key]):
                            if isinstance(tg, ast.Name) and tg.id == n:
                                v = x
                self.modcache[key] = v
                if isinstance(v, (PyList, PyDict, Arr)):
                    self.modcache[key] = (v, st.store[v.key])
            v = self.modcache[key]
            if isinstance(v, tuple):
                st.store.setdefault(v[0].key, v[1])
                return v[0]
            return v
        return None

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, fr, st):
        if isinstance(tg, ast.Name):
            self.setname(tg.id, v, fr, st)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(tg.elts), st)
            for x, y in zip(tg.elts, items):
                self.assign(x, y, fr, st)
        elif isinstance(tg, ast.Subscript):
            base = self.ev(tg.value, fr, st)
            ix = self.evindex(tg.slice, fr, st)
            self.store_item(base, ix, v, st)
        elif isinstance(tg, ast.Attribute):
            base = self.ev(tg.value, fr, st)
            if isinstance(base, ObjV):
                g = self.managed(base.cls, tg.attr) if base.cls is not None else None
                if g and g[1]:
                    self.call_func(FuncV(g[1][0], g[1][1], None, base, g[1][2]), [v], {}, st)
                    return
                d = dict(st.store[base.key])
                d[tg.attr] = v
                st.store[base.key] = d
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, fr, st)

    def unpack(self, v, n, st):
        if isinstance(v, PyList):
            l = st.store[v.key]
            if len(l) == n:
                return l
            if not self.gave_up:
                self.fails('wrong number of values to unpack')
        if (v is None or isinstance(v, Node) and v.op == 'num') and not self.gave_up:
            self.fails('a value that is not a sequence is unpacked')
        if isinstance(v, Opaque):
            return [Opaque(t.mk('call', 'elt', v.node, num(k))) for k in range(n)]
        if isinstance(v, Arr):
            return [self.index(v, [num(k)], st) for k in range(n)]
        if isinstance(v, Gate):
            a = self.unpack(v.a, n, st)
            b = self.unpack(v.b, n, st)
            return [self.merge(v.c, x, y, st, st, st) for x, y in zip(a, b)]
        return [t.unk('unpack') for _ in range(n)]

    def augassign(self, tg, op, v, fr, st):
        if isinstance(tg, ast.Name):
            cur = self.name(tg.id, fr, st)
            if isinstance(cur, Arr):
                self.inplace(cur, op, v, st)
                return
            if isinstance(cur, PyList) and isinstance(op, ast.Add) and isinstance(v, PyList) and not cur.tup:
                st.store[cur.key] = st.store[cur.key] + st.store[v.key]
                return
            self.setname(tg.id, self.binop(op, cur, v, st), fr, st)
        elif isinstance(tg, ast.Subscript):
            base = self.ev(tg.value, fr, st)
            ix = self.evindex(tg.slice, fr, st)
            if isinstance(base, Arr):
                self.write(base, ix, v, st, op)
            else:
                cur = self.getitem(base, ix, st)
                self.store_item(base, ix, self.binop(op, cur, v, st), st)
        elif isinstance(tg, ast.Attribute):
            base = self.ev(tg.value, fr, st)
            cur = self.getattr(base, tg.attr, st)
            if isinstance(cur, Arr):
                self.inplace(cur, op, v, st)
                return
            if isinstance(base, ObjV):
                d = dict(st.store[base.key])
                d[tg.attr] = self.binop(op, cur, v, st)
                st.store[base.key] = d

    def inplace(self, a, op, v, st):
        axes, f0 = st.store[a.key]
        tmp = self.new_arr(st, axes, f0)
        r = self.binop(op, tmp, v, st)
        if isinstance(r, Arr) and len(self.axes(r, st)) == len(axes):
            st.store[a.key] = (axes, st.store[r.key][1])
        else:
            u = t.unk('inplace')
            st.store[a.key] = (axes, lambda ix: u)
        if a.view is not None:
            base, ix = a.view
            self.write(base, ix, a, st, None)

    def store_item(self, base, ix, v, st):
        if isinstance(base, Arr):
            self.write(base, ix, v, st, None)
            if base.view is not None:
                b2, ix2 = base.view
                self.write(b2, ix2, base, st, None)
        elif isinstance(base, PyDict):
            k = dkey(ix)
            d = dict(st.store[base.key])
            d[k] = v
            st.store[base.key] = d
        elif isinstance(base, PyList):
            l = list(st.store[base.key])
            if isinstance(ix, Node) and ix.op == 'num' and -len(l) <= ix.args[0] < len(l):
                l[int(ix.args[0])] = v
            else:
                l = [t.unk('list store')] * len(l)
            st.store[base.key] = l
        elif isinstance(base, Gate):
            for b in (base.a, base.b):
                if isinstance(b, (Arr, PyList, PyDict)):
                    self.store_item(b, ix, t.unk('gated store'), st)

    def write(self, a, ix, v, st, op):
        """a[ix] (op)= v"""
        axes, f0 = st.store[a.key]
        m = ix[0] if isinstance(ix, list) and len(ix) == 1 else ix
        if isinstance(m, Arr) and len(self.axes(m, st)) == len(axes) > 1 and isinstance(v, Node) and op is None:
            max_, mf = st.store[m.key]
            if isbool(mf(tuple(t.fresh_idx('m') for _ in axes))) and not any(x.mask or x.region for x in axes):
                # a[mask] = scalar, mask of full rank
                fix1 = lambda p: tuple(ZERO if x.is1() else q for x, q in zip(max_, p))
                st.store[a.key] = (axes, memo1(lambda p: t.ite(mf(fix1(p)), v, f0(p))))
                return
        ixs = self.norm_index(ix, axes, st)
        if isinstance(v, Gate):
            v = self.as_array(v, st)
        if not isinstance(v, (Node, Arr)):
            v = self.as_array(v, st)
        bad = None
        if ixs is None or isinstance(v, Gate):
            bad = t.unk('write index')
        if bad is not None:
            st.store[a.key] = (axes, lambda i: bad)
            return
        vax, vf = (None, None)
        if isinstance(v, Arr):
            vax, vf = st.store[v.key]
        if op is None and len(ixs) == 1 and isinstance(ixs[0], Arr) and (vf is None or len(vax) == 1 and plain(vax[0])):
            max_, mf = st.store[ixs[0].key]
            if len(max_) == 1 and plain(max_[0]) and max_[0].size.args[0] <= 64:
                cs = [mf((num(j),)) for j in range(int(max_[0].size.args[0]))]
                if cs and all(c is TRUE or c is FALSE for c in cs):
                    # a[mask] = v, mask known element by element
                    for k, j in enumerate(j for j, c in enumerate(cs) if c is TRUE):
                        self.write(a, num(j), v if vf is None else vf((ZERO if vax[0].is1() else num(k),)), st, None)
                    return
        spec = self.write_spec(ixs, axes, vax, st)
        if spec is None and op is None and len(ixs) == 1 and isinstance(ixs[0], Arr):
            max_, mf = st.store[ixs[0].key]
            if len(max_) == 1 and max_[0].mask is None and max_[0].size.op == 'num' and max_[0].size.args[0] <= 16 and (vf is None or len(vax) == 1 and vax[0].mask is None):
                # a[[i0, i1, ...]] = v: one element after the other
                for j in range(int(max_[0].size.args[0])):
                    self.write(a, mf((num(j),)), v if vf is None else vf((ZERO if vax[0].is1() else num(j),)), st, None)
                return
        if spec is None:
            u = t.unk('write')
            st.store[a.key] = (axes, lambda i: u)
            return

        def fn(p):
            c, vix, sub = spec(p)
            if c is FALSE:
                return f0(p)
            val = v if vf is None else vf(vix)
            cur = f0(p)
            here = None
            if op is None and vf is None and all(isinstance(i, Node) for i in ixs):
                # a[i] = ... a[i] ... : the element read is the element written
                at = f0(tuple(ixs))
                if at.op == 'sel' and at is not cur and node_in(val, at):
                    here = t.sym('@here')
                    val = t.subst(val, lambda z: here if z is at else None)
            if sub:
                val = t.subst(val, sub)
            if here is not None:
                val = t.subst(val, {here: cur})
            if op is None:
                return t.ite(c, val, cur)
            if isinstance(op, (ast.Add, ast.Sub)):
                d = val if isinstance(op, ast.Add) else t.neg(val)
                return t.add(cur, t.ite(c, d, ZERO))
            if isinstance(op, (ast.Mult, ast.Div)):
                d = val if isinstance(op, ast.Mult) else t.pow_(val, t.MONE)
                return t.mul(cur, t.ite(c, d, ONE))
            return t.ite(c, self.scalar_binop(op, cur, val), cur)
        st.store[a.key] = (axes, memo1(fn))

    def write_spec(self, ixs, axes, vax, st):
        """-> callable(p) -> (cond, value index tuple, substitution)"""
        # expand: list of (kind, payload) per axis
        kinds = []
        vpos = 0
        # number of result axes
        fancy = [k for k, i in enumerate(ixs) if isinstance(i, Arr)]
        if fancy and not all(isinstance(i, (Arr, Node)) for i in ixs):
            if len(fancy) > 1:
                return None
        if len(ixs) == 1 and len(fancy) == 1 and len(axes) == 1:
            m = ixs[0]
            max_, mf = st.store[m.key]
            if len(max_) != 1:
                return None
            e = t.fresh_idx('m')
            probe = mf((e,))
            if isbool(probe):
                def spec(p):
                    return mf((p[0],)), ((p[0],) if vax is not None and not vax[0].is1() else (ZERO,)), None
                if vax is not None and not vax[0].is1():
                    # value must live on the same mask
                    if vax[0].mask is None or not same(vax[0].mask, lambda q: mf((q,))):
                        return None
                return spec
            sol = t.solve_eq(t.eq(probe, t.idx('@p')), e)
            if sol is None:
                return None

            def spec(p):
                ev = t.subst(sol, {t.idx('@p'): p[0]})
                return t.and_(t.le(ZERO, ev), t.lt(ev, max_[0].size)), ((ev,) if vax is not None and not vax[0].is1() else (ZERO,)), None
            return spec
        if len(fancy) == 2 and len(ixs) == 2 and len(axes) == 2:
            (ax1, f1), (ax2, f2) = st.store[ixs[0].key], st.store[ixs[1].key]
            if len(ax1) != 1 or len(ax2) != 1:
                return None
            reg = ax1[0].region
            if reg:
                a, b = t.fresh_idx('a'), t.fresh_idx('b')
                x, y = f1(((a, b),)), f2(((a, b),))

                def spec(p):
                    if x is a and y is b:
                        k = (p[0], p[1])
                    elif x is b and y is a:
                        k = (p[1], p[0])
                    else:
                        return TRUE, (t.unk('fancy'),), None
                    return reg(k), ((k,) if vax is not None and not vax[0].is1() else (ZERO,)), None
                return spec
            e = t.fresh_idx('e')
            x, y = f1((e,)), f2((e,))
            if x is e and y is e:
                def spec(p):
                    return t.eq(p[0], p[1]), ((p[0],) if vax is not None and not vax[0].is1() else (ZERO,)), None
                return spec
            return None
        if len(fancy) == 2:
            return None
        rax = [k for k, i in enumerate(ixs) if isinstance(i, SliceV) or isinstance(i, Arr)]
        nv = len(vax) if vax is not None else 0
        if nv > len(rax):
            # allow leading length-1 axes
            if all(x.is1() for x in vax[:nv - len(rax)]):
                pass
            else:
                return None
        probes = {}
        for k in fancy:
            m = ixs[k]
            max_, mf = st.store[m.key]
            if len(max_) != 1 or max_[0].region:
                return None
            e = t.fresh_idx('m')
            pr = mf((e,))
            probes[k] = (e, pr, mf, max_)

        def spec(p):
            conds = []
            vix = []
            sub = {}
            for k, i in enumerate(ixs):
                if isinstance(i, Node):
                    # a[i] with symbolic i: cond p==i; substitute loop vars in value by p
                    conds.append(t.eq(p[k], i))
                    for leaf in t.free_leaves(i):
                        if leaf.op == 'idx' and leaf not in sub and isinstance(p[k], Node):
                            sol = t.solve_eq(t.eq(i, p[k]), leaf)
                            if sol is not None and not t.contains(sol, leaf):
                                sub[leaf] = sol
                                break
                elif isinstance(i, SliceV):
                    lo, hi, step = slice_bounds(i, axes[k].size)
                    if step is None:
                        return TRUE, None, None
                    if lo is not ZERO:
                        conds.append(t.le(lo, p[k]))
                    if hi is not axes[k].size:
                        conds.append(t.lt(p[k], hi))
                    if t.isnum(step, -1):
                        vix.append(t.sub(t.sub(axes[k].size, ONE), p[k]))
                    elif t.isnum(step, 1):
                        vix.append(t.sub(p[k], lo))
                    elif step.op == 'num' and step.args[0] > 1 and p[k].op == 'num' and lo.op == 'num':
                        d = p[k].args[0] - lo.args[0]
                        if d % step.args[0]:
                            conds.append(FALSE)
                            vix.append(ZERO)
                        else:
                            vix.append(t.num(d / step.args[0]))
                    elif step.op == 'num' and step.args[0] > 1:
                        d = t.sub(p[k], lo)
                        conds.append(t.eq(t.mk('mod', d, step), ZERO))
                        vix.append(t.div(d, step))
                    else:
                        return TRUE, None, None
                else:
                    e, pr, mf, max_ = probes[k]
                    if isbool(pr):
                        conds.append(mf((p[k],)))
                        vix.append(p[k])
                    else:
                        sol = t.solve_eq(t.eq(pr, p[k]), e)
                        if sol is None:
                            conds.append(t.unk('fancy write'))
                            vix.append(p[k])
                        else:
                            conds.append(t.and_(t.le(ZERO, sol), t.lt(sol, max_[0].size)))
                            vix.append(sol)
            if vax is not None:
                if nv <= len(vix):
                    vv = vix[len(vix) - nv:]
                else:
                    vv = [ZERO] * (nv - len(vix)) + vix
                vv = tuple(ZERO if a.is1() else x for a, x in zip(vax, vv))
            else:
                vv = ()
            c = t.and_(*conds) if conds else TRUE
            if sub:
                # cond keeps original; drop substitution identities
                pass
            return c, vv, sub or None
        return spec

    def norm_index(self, ix, axes, st):
        """-> list of Node | SliceV | Arr, one per axis; None if not understood"""
        items = ix if isinstance(ix, list) else [ix]
        if len(items) == 1 and isinstance(items[0], PyList) and items[0].tup:
            items = list(st.store[items[0].key])
        out = []
        for i in items:
            if isinstance(i, Gate):
                return None
            if i is Ellipsis:
                k = len(axes) - (len(items) - 1)
                out.extend([SliceV(None, None, None)] * k)
            elif isinstance(i, SliceV):
                out.append(i)
            elif isinstance(i, Node):
                out.append(i)
            elif isinstance(i, Arr):
                out.append(i)
            elif isinstance(i, (Opaque, PyList)):
                a = self.as_array(i, st)
                if not isinstance(a, Arr):
                    return None
                out.append(a)
            else:
                return None
        if len(out) > len(axes):
            return None
        # boolean mask of higher rank
        if len(out) == 1 and isinstance(out[0], Arr) and len(self.axes(out[0], st)) > 1:
            return None
        while len(out) < len(axes):
            out.append(SliceV(None, None, None))
        for k, i in enumerate(out):
            if isinstance(i, Node) and i.op == 'num' and i.args[0] < 0:
                out[k] = t.add(axes[k].size, i)
        return out

    # ------------------------------------------------------------ indexing
    def evindex(self, s, fr, st):
        if isinstance(s, ast.Tuple):
            return [self.evindex1(x, fr, st) for x in s.elts]
        return self.evindex1(s, fr, st)

    def evindex1(self, s, fr, st):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, fr, st)
            return SliceV(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return Ellipsis
        v = self.ev(s, fr, st)
        if isinstance(v, bool):
            return v
        return v

    def getitem(self, b, ix, st):
        if isinstance(b, Gate):
            return self.lift(b, lambda x: self.getitem(x, ix, st), st)
        if isinstance(ix, Gate):
            return self.lift(ix, lambda x: self.getitem(b, x, st), st)
        if b is None and not self.gave_up:
            self.fails('item of None')
            return t.fail('item of None')
        if isinstance(b, Arr):
            return self.index(b, ix if isinstance(ix, list) else [ix], st)
        if isinstance(b, str):
            val = lambda x: x.args[0] if isinstance(x, Node) and x.op == 'num' else x
            if isinstance(ix, SliceV):
                q = [val(x) for x in (ix.lo, ix.hi, ix.step)]
                if all(x is None or not isinstance(x, Node) and x == int(x) for x in q):
                    return b[slice(*[None if x is None else int(x) for x in q])]
            else:
                q = val(ix)
                if q is not None and isinstance(q, (int, float)) or hasattr(q, 'numerator'):
                    if -len(b) <= int(q) < len(b):
                        return b[int(q)]
                    self.fails('string index out of range')
                    return t.fail('string index out of range')
            return t.unk('part of a string')
        if isinstance(b, GlobalsV):
            if isinstance(ix, StrV):
                ix = getattr(ix, 'val', ix)
            if isinstance(ix, str):
                if ix in b.mod.defs or ix in getattr(b.mod, 'imports', {}):
                    return self.modname(b.mod, ix, st)
                if self.intry:
                    raise LookupFail()
            elif isinstance(ix, FuncV) and self.intry:
                raise LookupFail()
            return t.unk('globals item')
        if hasattr(b, 'sa_getitem') and isinstance(ix, Node):
            return b.sa_getitem(self, ix, st)
        if isinstance(b, PyDict):
            d = st.store[b.key]
            try:
                k = dkey(ix)
            except TypeError:
                return t.unk('dict key')
            if k in d:
                return d[k]
            if self.intry and not isinstance(k, tuple):
                raise LookupFail()
            return t.unk('dict item')
        if isinstance(b, PyList):
            l = st.store[b.key]
            if isinstance(ix, Node) and ix.op == 'num':
                k = int(ix.args[0])
                if -len(l) <= k < len(l):
                    return l[k]
                if not any(isinstance(x, Node) and x.unk for x in l):
                    self.fails('list index out of range')
                return t.unk('list index')
            if isinstance(ix, SliceV):
                g = lambda x: None if x is None else (int(x.args[0]) if isinstance(x, Node) and x.op == 'num' else 'bad')
                a, c, d = g(ix.lo), g(ix.hi), g(ix.step)
                if 'bad' not in (a, c, d):
                    return self.new_list(st, l[a:c:d], b.tup)
            if isinstance(ix, Node) and all(isinstance(x, Node) for x in l) and l:
                return pick(l, ix)
            if isinstance(ix, list):
                if not self.gave_up and all(i is None or i is Ellipsis or isinstance(i, SliceV) or (isinstance(i, Node) and not i.unk) for i in ix):
                    self.fails('list indexed by a tuple')
                    return t.fail('list indexed by a tuple')
                return t.unk('list tuple index')
            return t.unk('list index')
        if isinstance(b, Opaque):
            if isinstance(ix, list):
                n = b.node
                for i in ix:
                    if not isinstance(i, Node):
                        return t.unk('opaque index')
                    n = t.mk('call', 'elt', n, i)
                return Opaque(n)
            if isinstance(ix, Node):
                return Opaque(t.mk('call', 'elt', b.node, ix))
            if isinstance(ix, (SliceV, Arr)):
                a = self.as_array(b, st)
                return self.index(a, [ix], st)
            if isinstance(ix, str):
                return Opaque(t.mk('call', 'key:' + ix, b.node))
        if isinstance(b, str):
            if isinstance(ix, Node) and ix.op == 'num':
                try:
                    return b[int(ix.args[0])]
                except IndexError:
                    pass
            return StrV()
        if isinstance(b, Node):
            if b.unk:
                return t.unk('item of unk')
            items = ix if isinstance(ix, list) else [ix]
            if b.op == 'sym' and any(isinstance(i, SliceV) for i in items) and not self.gave_up:
                self.fails('slice of a number')
                return t.fail('slice of a number')
            if all(i is None or i is Ellipsis or (isinstance(i, SliceV)) for i in items):
                n = sum(1 for i in items if i is None)
                if n == 0:
                    return b
                return self.new_arr(st, [Axis(ONE)] * n, lambda ix: b)
            if len(items) == 1 and isinstance(items[0], Node) and isbool(items[0]):
                return b
            return t.unk('index of scalar')
        if isinstance(b, RangeV):
            a = self.as_array(b, st)
            return self.getitem(a, ix, st)
        if isinstance(b, ExtV) and b.name == 'numpy.r_':
            out = []
            for i in ix if isinstance(ix, list) else [ix]:
                if isinstance(i, SliceV):
                    r = RangeV(i.lo or ZERO, i.hi, i.step or ONE)
                    i = self.as_array(r, st) if i.hi is not None and all(isinstance(x, Node) and x.op == 'num' for x in (r.lo, r.hi, r.step)) else None
                i = None if i is None else self.items1(i, st)
                if i is None:
                    return t.unk('r_')
                out += i
            return self.vec(out, st)
        return t.unk('getitem ' + type(b).__name__)

    def index(self, a, items, st):
        axes, f0 = st.store[a.key]
        if len(items) == 1 and isinstance(items[0], PyList) and items[0].tup:
            items = list(st.store[items[0].key])
        if len(items) == 1 and isinstance(items[0], (PyList, Opaque)):
            items = [self.as_array(items[0], st)]
        # newaxis positions
        src = []     # per base axis
        out = []     # result axes descr: ('new',) or ('ax', k)
        nb = sum(1 for i in items if i is not None and i is not Ellipsis)
        k = 0
        conv = []
        for i in items:
            if i is None:
                conv.append(None)
            elif i is Ellipsis:
                for _ in range(len(axes) - nb):
                    conv.append(SliceV(None, None, None))
            elif isinstance(i, (Opaque, PyList)):
                x = self.as_array(i, st)
                if not isinstance(x, Arr):
                    return t.unk('index list')
                conv.append(x)
            elif isinstance(i, (SliceV, Node, Arr)):
                conv.append(i)
            elif isinstance(i, bool):
                return t.unk('bool index')
            else:
                return t.unk('index')
        while sum(1 for i in conv if i is not None) < len(axes):
            conv.append(SliceV(None, None, None))
        if sum(1 for i in conv if i is not None) > len(axes):
            return t.unk('too many indices')
        fancy = [i for i in conv if isinstance(i, Arr)]
        if len(fancy) == 1 and len(self.axes(fancy[0], st)) > 1:
            m = fancy[0]
            max_, mf = st.store[m.key]
            if len(conv) == 1 and isbool(mf(tuple(t.fresh_idx() for _ in max_))):
                return t.unk('nd mask')
            if len(axes) == 1:
                return self.new_arr(st, max_, memo1(lambda ix: f0((mf(ix),))))
            return t.unk('nd fancy')
        faxes = None
        if len(fancy) >= 2:
            # all fancy share one (broadcast) axis
            fax = [self.axes(x, st) for x in fancy]
            if any(len(x) != 1 for x in fax):
                return t.unk('fancy rank')
            faxes = fax[0][0]
            for x in fax:
                if not x[0].is1():
                    faxes = x[0]
        res_axes = []
        build = []   # per base axis: callable(rix)->index
        pos = 0
        fpos = None
        b = 0
        for i in conv:
            if i is None:
                res_axes.append(Axis(ONE))
                pos += 1
                continue
            ax = axes[b]
            b += 1
            if isinstance(i, Node):
                if isbool(i):
                    return t.unk('bool scalar index')
                if i.op == 'num' and plain(ax) and not -ax.size.args[0] <= i.args[0] < ax.size.args[0]:
                    self.fails('index out of range')
                    return t.unk('index out of range')
                if ax.mask is not None and i.op == 'num':
                    i = kth_selected(ax, int(i.args[0]))
                elif i.op == 'num' and i.args[0] < 0:
                    i = t.add(ax.size, i)
                build.append(lambda r, i=i: i)
            elif isinstance(i, SliceV):
                if i.lo is None and i.hi is None and i.step is None:
                    res_axes.append(ax)
                    build.append(lambda r, p=pos: r[p])
                    pos += 1
                    continue
                lo, hi, step = slice_bounds(i, ax.size)
                if step is None or ax.mask or ax.region:
                    return t.unk('slice')
                if t.isnum(step, -1):
                    res_axes.append(Axis(ax.size))
                    build.append(lambda r, p=pos, n=ax.size: t.sub(t.sub(n, ONE), r[p]))
                elif t.isnum(step, 1):
                    res_axes.append(Axis(t.sub(hi, lo)))
                    build.append(lambda r, p=pos, lo=lo: t.add(r[p], lo))
                else:
                    res_axes.append(Axis(t.mk('call', 'slicelen', hi, lo, step)))
                    build.append(lambda r, p=pos, lo=lo, s=step: t.add(t.mul(r[p], s), lo))
                pos += 1
            else:
                max_, mf = st.store[i.key]
                e = (t.fresh_idx('x'), t.fresh_idx('y')) if max_[0].region else t.fresh_idx('x')
                if plain(max_[0]) and max_[0].size.args[0] <= 64 and (not isinstance(i, IdxMask)):
                    cs = [mf((num(j),)) for j in range(int(max_[0].size.args[0]))]
                    if all(c is TRUE or c is FALSE for c in cs):
                        # a mask known element by element
                        sel = [num(j) for j, c in enumerate(cs) if c is TRUE]
                        max_, mf = [Axis(num(len(sel)))], (lambda q, sel=sel: pick(sel, q[0]) if sel else t.unk('empty'))
                if isbool(mf((e,))):
                    if len(fancy) > 1:
                        return t.unk('mask + fancy')
                    msk = lambda q, mf=mf: mf((q,))
                    nb_ = max_[0].size
                    if nb_.op == 'num' and nb_.args[0] <= 16 and max_[0].mask is None:
                        cnt = t.add(ZERO, *[t.ite(msk(num(j)), ONE, ZERO) for j in range(int(nb_.args[0]))])
                    else:
                        cnt = t.mk('call', 'count', mf((t.idx('@m'),)))
                    res_axes.append(Axis(cnt, mask=msk, base=nb_))
                    build.append(lambda r, p=pos: r[p])
                    pos += 1
                elif len(fancy) > 1:
                    if fpos is None:
                        fpos = pos
                        res_axes.append(faxes)
                        pos += 1
                    one = max_[0].is1()
                    build.append(lambda r, p=fpos, mf=mf, one=one: mf((ZERO if one else r[p],)))
                else:
                    res_axes.append(max_[0])
                    build.append(lambda r, p=pos, mf=mf: mf((r[p],)))
                    pos += 1
        if not res_axes:
            return f0(tuple(g(()) for g in build))
        r = self.new_arr(st, res_axes, memo1(lambda ix: f0(tuple(g(ix) for g in build))))
        if not fancy:
            r.view = (a, items)
        return r

    # ------------------------------------------------------------ expressions
    def cond(self, e, fr, st):
        v = self.ev(e, fr, st)
        return self.tobool(v, st)

    def tobool(self, v, st):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, Node):
            return t.asbool(v)
        if isinstance(v, PyList):
            return TRUE if st.store[v.key] else FALSE
        if isinstance(v, PyDict):
            return TRUE if st.store[v.key] else FALSE
        if isinstance(v, Gate):
            return t.ite(v.c, self.tobool(v.a, st), self.tobool(v.b, st))
        if isinstance(v, Opaque):
            return t.mk('batom', 'truth', v.node)
        if isinstance(v, Arr):
            ax = self.axes(v, st)
            if all(x.is1() for x in ax):
                return t.asbool(self.elem(v, [ZERO] * len(ax), st))
            return t.mk('batom', 'truth', self.descr(v, st))
        if isinstance(v, StrV):
            return t.mk('batom', 'str#%d' % newkey())
        return TRUE

    def ev(self, e, fr, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return t.unk('expr ' + type(e).__name__)
        r = m(e, fr, st)
        if type(r) is PyList and type(st.store.get(r.key)) is OpenList:
            return t.unk('list of unknown length')
        return r

    def ev_Constant(self, e, fr, st):
        v = e.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, float, complex)):
            return num(v)
        return StrV()

    def ev_Name(self, e, fr, st):
        if e.id == 'NotImplemented':
            return NOTIMPL
        return self.name(e.id, fr, st)

    def ev_Tuple(self, e, fr, st):
        return self.new_list(st, self.elts(e.elts, fr, st), True)

    def ev_List(self, e, fr, st):
        return self.new_list(st, self.elts(e.elts, fr, st))

    def ev_Set(self, e, fr, st):
        return self.new_list(st, self.elts(e.elts, fr, st))

    def elts(self, es, fr, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr, st)
                if isinstance(v, PyList):
                    out.extend(st.store[v.key])
                else:
                    out.append(t.unk('star'))
            else:
                out.append(self.ev(x, fr, st))
        return out

    def ev_Dict(self, e, fr, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                q = self.ev(v, fr, st)
                if isinstance(q, PyDict):
                    d.update(st.store[q.key])
                continue
            kk = self.ev(k, fr, st)
            vv = self.ev(v, fr, st)
            try:
                d[dkey(kk)] = vv
            except TypeError:
                pass
        return self.new_dict(st, d)

    def ev_JoinedStr(self, e, fr, st):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
                continue
            x = self.ev(v.value, fr, st)
            spec = ''
            if v.format_spec is not None:
                spec = self.ev_JoinedStr(v.format_spec, fr, st)
            out.append(piece(x, spec) if isinstance(spec, str) and v.conversion == -1 else StrV())
        return strv(*out)

    def ev_Lambda(self, e, fr, st):
        return FuncV(fr.func.mod, e, fr)

    def ev_IfExp(self, e, fr, st):
        c = self.cond(e.test, fr, st)
        if c is TRUE:
            return self.ev(e.body, fr, st)
        if c is FALSE:
            return self.ev(e.orelse, fr, st)
        with self.under(c):
            a = self.ev(e.body, fr, st)
        with self.under(t.not_(c)):
            b = self.ev(e.orelse, fr, st)
        return self.merge(c, a, b, st, st, st)

    def ev_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)
        cs = []
        v = None
        for x in e.values:
            with self.under(*(cs if isand else [t.not_(q) for q in cs])):
                v = self.ev(x, fr, st)
            c = self.tobool(v, st)
            if isand and c is FALSE:
                return False
            if not isand and c is TRUE:
                return True if not cs else TRUE
            cs.append(c)
        return t.and_(*cs) if isand else t.or_(*cs)

    def ev_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return t.not_(self.tobool(v, st))
        if isinstance(e.op, ast.USub):
            return self.arith1(t.neg, v, st, '__neg__')
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.arith1(lambda x: t.not_(x) if isbool(x) else t.sub(t.neg(x), ONE), v, st)
        return t.unk('unary')

    def arith1(self, f, v, st, dunder=None):
        if isinstance(v, ObjV) and dunder:
            m = self.find_method(v.cls, dunder)
            if m:
                return self.call_func(FuncV(m[0], m[1], None, v, m[2]), [], {}, st)
        return self.elementwise(f, [v], st)

    DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow'}

    def ev_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        if isinstance(a, Gate):
            return self.lift(a, lambda x: self.binop(op, x, b, st), st)
        if isinstance(b, Gate):
            return self.lift(b, lambda x: self.binop(op, a, x, st), st)
        if (a is None and not isinstance(b, ObjV)) or (b is None and not isinstance(a, ObjV)):
            self.fails('arithmetic with None')
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)) and isinstance(op, ast.Add):
                return strv(a, b)
            if isinstance(a, str) and isinstance(op, ast.Mod):
                q = st.store.get(b.key) if isinstance(b, PyList) and b.tup else [b]
                return percent_parts(a, q) if isinstance(q, (list, tuple)) else StrV()
            if isinstance(op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow)) and not isinstance(a, ObjV) and not isinstance(b, ObjV) and not self.gave_up:
                self.fails('arithmetic with a string')
                return t.fail('arithmetic with a string')
            n = b if isinstance(a, str) else a
            if isinstance(op, ast.Mult) and t.isnum(n) and isinstance(a, str) | isinstance(b, str):
                return (a if isinstance(a, str) else b) * int(n.args[0])
            return StrV()
        if not isinstance(op, (ast.Add, ast.Mult, ast.Mod)) and not self.gave_up:
            if isinstance(a, PyList) and isinstance(b, PyList) or any(isinstance(q, PyList) and any(z is None for z in st.store[q.key]) for q in (a, b)):
                self.fails('arithmetic with a list')
        if isinstance(a, PyList) and isinstance(b, PyList) and isinstance(op, ast.Add):
            return self.new_list(st, st.store[a.key] + st.store[b.key], a.tup)
        if isinstance(b, PyList) and isinstance(op, ast.Mult) and isinstance(a, Node):
            a, b = b, a
        if isinstance(a, PyList) and isinstance(op, ast.Mult) and isinstance(b, Node) and b.op == 'num':
            return self.new_list(st, st.store[a.key] * int(b.args[0]), a.tup)
        if isinstance(a, PyList) and isinstance(op, ast.Mult) and isinstance(b, Node) and len(st.store[a.key]) == 1:
            x = st.store[a.key][0]
            if isinstance(x, Node):
                return self.new_arr(st, [Axis(b)], lambda ix: x)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            nm = self.DUNDER.get(type(op))
            if nm and isinstance(a, ObjV):
                m = self.find_method(a.cls, '__%s__' % nm)
                if m:
                    return self.call_func(FuncV(m[0], m[1], None, a, m[2]), [b], {}, st)
            if nm and isinstance(b, ObjV):
                m = self.find_method(b.cls, '__r%s__' % nm)
                if m:
                    return self.call_func(FuncV(m[0], m[1], None, b, m[2]), [a], {}, st)
            return t.unk('object arithmetic')
        if isinstance(op, ast.MatMult):
            return self.np_dot([a, b], {}, st)
        return self.elementwise(lambda x, y: self.scalar_binop(op, x, y), [a, b], st)

    def scalar_binop(self, op, x, y):
        if isinstance(op, ast.Add):
            return t.add(x, y)
        if isinstance(op, ast.Sub):
            return t.sub(x, y)
        if isinstance(op, ast.Mult):
            if isbool(x) and isbool(y):
                return t.and_(x, y)         # the product of two masks is a mask
            return t.mul(unb(x), unb(y))
        if isinstance(op, ast.Div):
            if t.isnum(y, 0):
                return t.fail('division by zero')
            return t.div(x, y)
        if isinstance(op, ast.Pow):
            if t.isnum(x, 0) and y.op == 'num' and y.args[0] < 0:
                return t.unk('0**-')
            return t.pow_(x, y)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)) and all(v.op == 'num' and v.args[0] == int(v.args[0]) for v in (x, y)):
            i, j = int(x.args[0]), int(y.args[0])
            if isinstance(op, (ast.LShift, ast.RShift)):
                return num(i << j if isinstance(op, ast.LShift) else i >> j) if 0 <= j < 64 else t.unk('shift')
            return num(i & j if isinstance(op, ast.BitAnd) else i | j if isinstance(op, ast.BitOr) else i ^ j)
        if isinstance(op, ast.BitXor) and isbool(x) and isbool(y):
            return t.or_(t.and_(x, t.not_(y)), t.and_(t.not_(x), y))
        if isinstance(op, ast.BitAnd):
            return t.and_(t.asbool(x), t.asbool(y)) if isbool(x) or isbool(y) else t.unk('&')
        if isinstance(op, ast.BitOr):
            return t.or_(t.asbool(x), t.asbool(y)) if isbool(x) or isbool(y) else t.unk('|')
        if isinstance(op, ast.FloorDiv):
            if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
                return num(x.args[0] // y.args[0])
            k = t.quotient(x, y)
            return t.mk('floordiv', x, y) if k is None else num(k)
        if isinstance(op, ast.Mod):
            if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
                return num(x.args[0] % y.args[0])
            k = t.quotient(x, y)
            return t.mk('mod', x, y) if k is None else t.sub(x, t.mul(num(k), y))
        return t.unk('binop')

    def ev_Compare(self, e, fr, st):
        left = self.ev(e.left, fr, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr, st)
            c = self.compare(op, left, right, st)
            if res is None:
                res = c
            else:
                res = t.and_(self.tobool(res, st), self.tobool(c, st))
            left = right
        return res

    def compare(self, op, a, b, st):
        if isinstance(a, Gate) or isinstance(b, Gate):
            v = a if isinstance(a, Gate) else b
            other = b if v is a else a
            return self.lift(v, lambda x: self.compare(op, x if v is a else other, other if v is a else x, st), st)
        if isinstance(op, (ast.Is, ast.IsNot)):
            pos = isinstance(op, ast.Is)
            for x, y in ((a, b), (b, a)):
                if y is None or isinstance(y, bool):
                    if isinstance(x, (type(None), bool)):
                        return (x is y) == pos
                    if isinstance(x, Node) and x.op == 'sym' and getattr(self, 'maybe_none', None) and x.args[0] in self.maybe_none:
                        c = t.mk('batom', 'isnone', x)
                        return c if pos else t.not_(c)
                    if isinstance(x, Node) and x.unk:
                        return x
                    return not pos
            if a is NOTIMPL or b is NOTIMPL:
                return (a is b) == pos
            return t.mk('batom', 'is#%d' % newkey())
        if isinstance(op, (ast.Eq, ast.NotEq)) and (isinstance(a, ObjV) or isinstance(b, ObjV)):
            r = NOTIMPL
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ObjV):
                    nm = '__eq__' if isinstance(op, ast.Eq) else '__ne__'
                    m = self.find_method(x.cls, nm)
                    neg = False
                    if not m and nm == '__ne__':
                        m, neg = self.find_method(x.cls, '__eq__'), True
                    if m:
                        r = self.call_func(FuncV(m[0], m[1], None, x, m[2]), [y], {}, st)
                        if neg and r is not NOTIMPL:
                            r = t.not_(self.tobool(r, st))
                    elif not self.closed_class(x.cls):
                        return t.unk('object comparison')
                    if r is not NOTIMPL:
                        return r
            same_ = isinstance(a, ObjV) and isinstance(b, ObjV) and a.key == b.key
            return same_ == isinstance(op, ast.Eq)
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            items = None
            if isinstance(b, PyList):
                items = st.store[b.key]
            elif isinstance(b, PyDict):
                items = list(st.store[b.key])
            elif isinstance(b, str) and isinstance(a, str):
                return (a in b) == pos
            elif isinstance(b, (Arr, RangeV)):
                items = self.items1(b, st)
            if items is not None:
                cs = []
                for x in items:
                    c = self.compare(ast.Eq(), a, x if not isinstance(x, (int, float)) or isinstance(x, bool) else num(x), st)
                    c = self.tobool(c, st)
                    if c is TRUE:
                        return pos
                    cs.append(c)
                r = t.or_(*cs) if cs else FALSE
                return r if pos else t.not_(r)
            return t.mk('batom', 'in#%d' % newkey())
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (a is None or b is None) and not isinstance(a, ObjV) and not isinstance(b, ObjV):
            self.fails('comparison with None')
        if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
            if isinstance(a, (str, type(None), bool)) and isinstance(b, (str, type(None), bool)):
                if isinstance(op, ast.Eq):
                    return a == b
                if isinstance(op, ast.NotEq):
                    return a != b
            if isinstance(op, (ast.Eq, ast.NotEq)):
                x, y = (a, b) if isinstance(b, (str, type(None), bool)) else (b, a)
                if isinstance(x, Node) and x.op == 'sym' and isinstance(y, str):
                    c = t.mk('batom', 'streq:' + y, x)
                    return c if isinstance(op, ast.Eq) else t.not_(c)
                if isinstance(x, StrV):
                    return t.mk('batom', 'str#%d' % newkey())
                if isinstance(y, bool) and isinstance(x, (Node,)):
                    pass
                else:
                    return isinstance(op, ast.NotEq)
            return t.unk('compare str')
        if isinstance(a, (FuncV, ClassV)) and isinstance(b, (FuncV, ClassV)):
            same_ = a.node is b.node
            return same_ if isinstance(op, ast.Eq) else not same_
        if isinstance(a, (FuncV, ClassV, ExtV)) or isinstance(b, (FuncV, ClassV, ExtV)):
            return isinstance(op, ast.NotEq)
        if isinstance(a, PyList) and isinstance(b, PyList):
            la, lb = st.store[a.key], st.store[b.key]
            if len(la) == len(lb) and isinstance(op, (ast.Eq, ast.NotEq)):
                c = t.and_(*[self.tobool(self.compare(ast.Eq(), x, y, st), st) for x, y in zip(la, lb)])
                return c if isinstance(op, ast.Eq) else t.not_(c)
            if isinstance(op, ast.Eq):
                return False
        f = {ast.Lt: t.lt, ast.LtE: t.le, ast.Gt: lambda x, y: t.lt(y, x), ast.GtE: lambda x, y: t.le(y, x),
             ast.Eq: t.eq, ast.NotEq: lambda x, y: t.not_(t.eq(x, y))}.get(type(op))
        if f is None:
            return t.unk('compare')
        return self.elementwise(f, [a, b], st)

    def ev_Subscript(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        ix = self.evindex(e.slice, fr, st)
        return self.getitem(b, ix, st)

    def ev_Starred(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ev_Attribute(self, e, fr, st):
        return self.getattr(self.ev(e.value, fr, st), e.attr, st)

    def getattr(self, b, a, st):
        if isinstance(b, Gate):
            return self.lift(b, lambda x: self.getattr(x, a, st), st)
        if b is None and not a.startswith('__') and not self.gave_up:
            self.fails('attribute %s of None' % a)
            return t.fail('attribute %s of None' % a)
        if isinstance(b, ModV):
            v = self.modname(b.mod, a, st)
            return v if v is not None else t.unk('attr ' + a)
        if isinstance(b, ExtV):
            return ext_const(b.name + '.' + a)
        if isinstance(b, ObjV):
            d = st.store[b.key]
            if a in d:
                c = missing(d[a])
                if c is not FALSE:
                    self.fails('no attribute ' + a, c)
                return d[a]
            m = self.find_method(b.cls, a)
            if not m and a in ('__getattribute__', '__setattr__'):
                return ExtV('object.' + a, b)
            if a == '__dict__':
                x = PyDict(newkey())
                st.store[x.key] = {k: v for k, v in d.items() if k != '__obj__'}
                return x
            g = self.managed(b.cls, a) if b.cls is not None else None
            if g and g[0]:
                return self.call_func(FuncV(g[0][0], g[0][1], None, b, g[0][2]), [], {}, st)
            if m:
                decs = [x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '') for x in m[1].decorator_list]
                if 'property' in decs:
                    return self.call_func(FuncV(m[0], m[1], None, b, m[2]), [], {}, st)
                if 'staticmethod' in decs:
                    return FuncV(m[0], m[1], None, None, m[2])
                return FuncV(m[0], m[1], None, b, m[2])
            for (mm, cn) in self.p.mro(b.cls.mod, b.cls.node):
                for s in cn.body:
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == a for x in s.targets):
                        return self.ev(s.value, Frame(FuncV(mm, None)).link(st), st)
            if a == '__class__':
                return b.cls
            if b.symname is not None:
                return t.sym((b.symname + '.' if b.symname else '') + a)
            if '__obj__' in d and not self.gave_up and self.closed_class(b.cls) and not a.startswith('__'):
                self.fails('no attribute ' + a)
                return t.fail('no attribute ' + a)
            return t.unk('attr ' + a)
        if isinstance(b, ClassV):
            m = self.find_method(b, a)
            if m:
                return FuncV(m[0], m[1], None, None, m[2])
            if a == '__name__':
                return b.node.name
            for (mm, cn) in self.p.mro(b.mod, b.node):
                for s in cn.body:
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == a for x in s.targets):
                        return self.ev(s.value, Frame(FuncV(mm, None)).link(st), st)
            return t.unk('class attr')
        if isinstance(b, FuncV):
            if a == '__name__' and isinstance(b.node, ast.FunctionDef):
                return b.node.name
            return t.unk('func attr')
        if isinstance(b, Arr):
            ax = self.axes(b, st)
            if a == 'shape':
                return self.new_list(st, [x.size for x in ax], True)
            if a == 'ndim':
                return num(len(ax))
            if a == 'size':
                return t.mul(*[x.size for x in ax])
            if a == 'T':
                f = st.store[b.key][1]
                return self.new_arr(st, list(reversed(ax)), lambda ix: f(tuple(reversed(ix))))
            if a == 'flat':
                return b if len(ax) == 1 else t.unk('flat')
            if a in ('real', 'imag'):
                return self.elementwise(lambda x: t.fn(a, x), [b], st)
            return ExtV('ndarray.' + a, b)
        if isinstance(b, Node):
            if a == 'shape':
                return self.new_list(st, [], True)
            if a == 'ndim':
                return ZERO
            if a == 'size':
                return ONE
            if a == 'T':
                return b
            if a in ('real', 'imag'):
                return t.fn(a, b)
            if b.op == 'sym' and a != 'copy':
                return ExtV('sym.' + a, b)
            return ExtV('ndarray.' + a, b)
        if b is None and self.intry:
            raise LookupFail()
        if isinstance(b, (PyList, PyDict, str, StrV)):
            return ExtV(type(b).__name__ + '.' + a, b)
        if isinstance(b, Opaque):
            if a in ('x', 'y', 'x1', 'x2', 'y1', 'y2', 'shape', 'size'):
                return Opaque(t.mk('call', 'attr:' + a, b.node))
            return ExtV('ndarray.' + a, b)
        return t.unk('attr of ' + type(b).__name__)

    def ev_Call(self, e, fr, st):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            s0 = None
            f = fr
            while f is not None and f.func.selfv is None:
                f = f.func.closure
            if f is None:
                return t.unk('super')
            m = self.find_method(f.func.selfv.cls, e.func.attr, after=f.func.cls)
            args, kw = self.args(e, fr, st)
            if m is None:
                return None
            return self.call_func(FuncV(m[0], m[1], None, f.func.selfv, m[2]), args, kw, st)
        f = self.ev(e.func, fr, st)
        args, kw = self.args(e, fr, st)
        return self.call(f, args, kw, st)

    def args(self, e, fr, st):
        args = self.elts(e.args, fr, st)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                if isinstance(v, PyDict):
                    kw.update({a: b for a, b in st.store[v.key].items()})
            else:
                kw[k.arg] = v
        return args, kw

    def comp(self, e, fr, st):
        """list/generator comprehension -> PyList | Arr | unk"""
        if len(e.generators) != 1:
            return self.comp_n(e, fr, st)
        g = e.generators[0]
        it = self.ev(g.iter, fr, st)
        seq = self.concrete_iter(it, st)
        sub = Frame(FuncV(fr.func.mod, None, fr, None, fr.func.cls))
        if seq is not None:
            out = []
            for v in seq:
                st.store[sub.key] = {}
                self.assign(g.target, v, sub, st)
                keep = True
                for c in g.ifs:
                    cc = self.cond(c, sub, st)
                    if cc is FALSE:
                        keep = False
                    elif cc is not TRUE:
                        keep = None
                        break
                if keep is None:
                    return t.unk('filtered comprehension')
                if keep:
                    out.append(self.ev(e.elt, sub, st))
            return self.new_list(st, out)
        iv = self.iter_view(it, st)
        if iv is None or g.ifs:
            return t.unk('comprehension')
        n, getter, mask = iv
        ph = t.fresh_idx('c')
        st.store[sub.key] = {}
        self.assign(g.target, getter(ph), sub, st)
        v = self.ev(e.elt, sub, st)
        if isinstance(v, Node):
            return self.new_arr(st, [Axis(n, mask)], lambda ix, v=v: t.subst(v, {ph: ix[0]}))
        if isinstance(v, Arr):
            ax, f = st.store[v.key]
            return self.new_arr(st, [Axis(n, mask)] + list(ax), lambda ix: t.subst(f(ix[1:]), {ph: ix[0]}))
        return t.unk('comprehension value')

    def comp_n(self, e, fr, st):
        res = [dict()]
        sub = Frame(FuncV(fr.func.mod, None, fr, None, fr.func.cls))
        out = []

        def rec(k, env):
            if k == len(e.generators):
                st.store[sub.key] = dict(env)
                out.append(self.ev(e.elt, sub, st))
                return True
            g = e.generators[k]
            st.store[sub.key] = dict(env)
            seq = self.concrete_iter(self.ev(g.iter, sub, st), st)
            if seq is None:
                return False
            for v in seq:
                st.store[sub.key] = dict(env)
                self.assign(g.target, v, sub, st)
                ok = True
                for c in g.ifs:
                    cc = self.cond(c, sub, st)
                    if cc is FALSE:
                        ok = False
                    elif cc is not TRUE:
                        return False
                if ok and not rec(k + 1, st.store[sub.key]):
                    return False
            return True
        if rec(0, {}):
            return self.new_list(st, out)
        return t.unk('nested comprehension')

    def ev_ListComp(self, e, fr, st):
        return self.comp(e, fr, st)

    ev_GeneratorExp = ev_ListComp
    ev_SetComp = ev_ListComp

    def ev_DictComp(self, e, fr, st):
        if len(e.generators) == 1:
            g = e.generators[0]
            seq = self.concrete_iter(self.ev(g.iter, fr, st), st)
            if seq is not None and not g.ifs:
                sub = Frame(FuncV(fr.func.mod, None, fr, None, fr.func.cls))
                d = {}
                for v in seq:
                    st.store[sub.key] = {}
                    self.assign(g.target, v, sub, st)
                    d[dkey(self.ev(e.key, sub, st))] = self.ev(e.value, sub, st)
                return self.new_dict(st, d)
        return t.unk('dict comprehension')

    # ------------------------------------------------------------ externals
    def call_ext(self, f, args, kw, st):
        for k, a in enumerate(args):
            if isinstance(a, Gate) and not f.name.startswith('builtins.print'):
                A, B = list(args), list(args)
                A[k], B[k] = a.a, a.b
                return self.merge(a.c, self.call_ext(f, A, kw, st), self.call_ext(f, B, kw, st), st, st, st)
        if isinstance(f.selfv, Gate):
            g = f.selfv
            return self.merge(g.c, self.call_ext(ExtV(f.name, g.a), args, kw, st), self.call_ext(ExtV(f.name, g.b), args, kw, st), st, st, st)
        name = f.name
        if name in self.hooks:
            return self.hooks[name](self, args, kw, st, f)
        base = name.split('.')[-1]
        pkg = name.split('.')[0]
        if name == 'object.__getattribute__' and len(args) == 1:
            return self.np_getattr([f.selfv] + list(args), {}, st)
        if name == 'object.__setattr__' and len(args) == 2:
            return self.np_setattr([f.selfv] + list(args), {}, st)
        if pkg == 'ndarray':
            return self.nd_method(base, f.selfv, args, kw, st)
        if pkg in ('PyList', 'PyDict', 'str', 'StrV'):
            return self.py_method(pkg, base, f.selfv, args, kw, st)
        if pkg == 'sym':
            ns = [self.as_array(a, st) for a in args]
            nm = 'method:%s.%s' % (f.selfv.args[0], base)
            return self.elementwise(lambda *x: t.mk('call', nm, *x), ns, st) if ns else t.mk('call', nm)
        if pkg in NUMERIC_PKGS or pkg == 'builtins':
            m = getattr(self, 'np_' + base, None)
            if m is not None:
                r = m(args, kw, st)
                if pkg != 'builtins' and base != 'cumprod':
                    self.to_out(kw, r, st)
                return r
            if base in UFUNC and UFUNC[base] and args:
                r = self.elementwise(lambda *x: t.fn(UFUNC[base], *x), args[:1], st)
                self.to_out(kw, r, st)
                return r
            if base in UFUNC2 and len(args) >= 2:
                return self.elementwise(lambda *x: t.fn(UFUNC2[base], *x), args[:2], st)
        if pkg == 'operator' and not kw:
            op = OPERATOR.get(base[1:] if base[:1] == 'i' and base[1:] in OPERATOR else base)
            if op is not None and len(args) == 2:
                return self.binop(op(), args[0], args[1], st)
            if base == 'neg' and len(args) == 1:
                return self.binop(ast.Mult(), num(-1), args[0], st)
        if name == 'functools.partial':
            return PartialV(args[0], args[1:], kw)
        if name in ('collections.OrderedDict', 'builtins.dict'):
            if not args:
                return self.new_dict(st, kw)
            if isinstance(args[0], PyDict):
                return self.new_dict(st, dict(st.store[args[0].key], **kw))
        if name in self.opaque or pkg in self.opaque:
            return self.opaque_call(name, args, kw, st)
        if any(isinstance(a, ObjV) for a in list(args) + list(kw.values())):
            self.gave_up = True
        return t.unk('ext ' + name)

    def to_out(self, kw, r, st):
        o = kw.get('out')
        if not isinstance(o, Arr) or r is o:
            return
        ax, f = st.store[o.key]
        if isinstance(r, Arr) and len(self.axes(r, st)) == len(ax):
            st.store[o.key] = (ax, st.store[r.key][1])
        else:
            u = t.unk('out')
            st.store[o.key] = (ax, lambda ix: u)
        if o.view is not None:
            self.write(o.view[0], o.view[1], o, st, None)

    # builtins / numpy --------------------------------------------------
    def np_asarray(self, args, kw, st):
        v = self.as_array(args[0], st)
        return v
    np_asfarray = np_ascontiguousarray = np_asanyarray = np_asarray

    def np_array(self, args, kw, st):
        v = self.as_array(args[0], st)
        if isinstance(v, Arr):
            ax, f = st.store[v.key]
            return self.new_arr(st, ax, f)
        return v
    np_copy = np_array

    def np_deepcopy(self, args, kw, st):
        return args[0]

    def np_atleast_1d(self, args, kw, st):
        v = self.as_array(args[0], st)
        if isinstance(v, Node):
            return self.new_arr(st, [Axis(ONE)], lambda ix: v)
        if isinstance(v, Gate):
            return self.lift(v, lambda x: self.np_atleast_1d([x], {}, st), st)
        return v

    def np_atleast_2d(self, args, kw, st):
        v = self.as_array(args[0], st)
        if isinstance(v, Node):
            return self.new_arr(st, [Axis(ONE), Axis(ONE)], lambda ix: v)
        if isinstance(v, Arr):
            ax, f = st.store[v.key]
            if len(ax) == 1:
                return self.new_arr(st, [Axis(ONE), ax[0]], lambda ix: f(ix[1:]))
        return v

    def shape_of(self, v, st):
        if isinstance(v, Node):
            return [v]
        if isinstance(v, PyList):
            return [self.node(x, st) for x in st.store[v.key]]
        if isinstance(v, Arr):
            ax = self.axes(v, st)
            if len(ax) == 1 and ax[0].size.op == 'num':
                return [self.elem(v, [num(k)], st) for k in range(int(ax[0].size.args[0]))]
        return None

    def const_arr(self, val):
        def f(args, kw, st):
            sh = self.shape_of(args[0] if args else kw.get('shape'), st)
            if sh is None:
                return t.unk('shape')
            if not sh:
                return val()
            v = val()
            if v is None:
                nm = 'uninit#%d' % newkey()
                return self.new_arr(st, [Axis(s) for s in sh], lambda ix: t.mk('sel', nm, *flat(ix)))
            return self.new_arr(st, [Axis(s) for s in sh], lambda ix: v)
        return f

    def np_zeros(self, args, kw, st):
        return self.const_arr(lambda: ZERO)(args, kw, st)

    def np_ones(self, args, kw, st):
        return self.const_arr(lambda: ONE)(args, kw, st)

    def np_empty(self, args, kw, st):
        return self.const_arr(lambda: None)(args, kw, st)

    def np_full(self, args, kw, st):
        v = self.node(args[1], st)
        return self.const_arr(lambda: v)(args[:1], kw, st)

    def like(self, args, kw, st, val):
        v = self.as_array(args[0], st)
        if isinstance(v, Arr):
            ax = self.axes(v, st)
            if val is None:
                nm = 'uninit#%d' % newkey()
                return self.new_arr(st, ax, lambda ix: t.mk('sel', nm, *flat(ix)))
            return self.new_arr(st, ax, lambda ix: val)
        if isinstance(v, Gate):
            return self.lift(v, lambda x: self.like([x], kw, st, val), st)
        if v.unk:
            return v
        return val if val is not None else t.fresh_sym('uninit')

    def np_zeros_like(self, args, kw, st):
        return self.like(args, kw, st, ZERO)

    def np_ones_like(self, args, kw, st):
        return self.like(args, kw, st, ONE)

    def np_empty_like(self, args, kw, st):
        return self.like(args, kw, st, None)

    def np_full_like(self, args, kw, st):
        return self.like(args, kw, st, self.node(args[1], st))

    def np_eye(self, args, kw, st):
        n = self.node(args[0], st)
        return self.new_arr(st, [Axis(n), Axis(n)], lambda ix: t.ite(t.eq(ix[0], ix[1]), ONE, ZERO))
    np_identity = np_eye

    def np_diag(self, args, kw, st):
        a = self.as_array(args[0], st)
        if len(args) > 1 or kw or not isinstance(a, Arr):
            return t.unk('diag')
        ax, f = st.store[a.key]
        if len(ax) == 1:
            n = ax[0].size
            return self.new_arr(st, [Axis(n), Axis(n)], lambda ix: t.ite(t.eq(ix[0], ix[1]), f((ix[0],)), ZERO))
        if len(ax) == 2:
            if ax[0].size is not ax[1].size:
                return t.unk('diag of a rectangle')
            return self.new_arr(st, [ax[0]], lambda ix: f((ix[0], ix[0])))
        return t.unk('diag')

    def np_bmat(self, args, kw, st):
        """block matrix of blocks with concrete sizes"""
        q = self.concrete_iter(args[0], st)
        if q is None:
            return t.unk('bmat')
        out = []
        for r in q:
            bs = self.concrete_iter(r, st)
            ms = [self.rect(b, st) for b in bs] if bs is not None else [None]
            if any(m is None for m in ms):
                return t.unk('bmat block')
            if len({len(m) for m in ms}) != 1:
                self.fails('bmat: blocks of a row differ in height')
                return t.fail('bmat')
            out += [sum((m[i] for m in ms), []) for i in range(len(ms[0]))]
        if len({len(r) for r in out}) != 1:
            self.fails('bmat: rows differ in length')
            return t.fail('bmat')
        return self.matrix(out, st)
    np_block = np_bmat

    def rect(self, a, st, big=24):
        a = self.as_array(a, st)
        if not isinstance(a, Arr):
            return None
        ax, f = st.store[a.key]
        if len(ax) != 2 or any(x.size.op != 'num' or x.mask or x.region or x.size.args[0] > big for x in ax):
            return None
        return [[self.elem(a, (num(i), num(j)), st) for j in range(int(ax[1].size.args[0]))] for i in range(int(ax[0].size.args[0]))]

    def np_arange(self, args, kw, st):
        ns = [self.node(a, st) for a in args if not isinstance(a, (ExtV, str))]
        if len(ns) == 1:
            return self.new_arr(st, [Axis(ns[0])], lambda ix: ix[0])
        if len(ns) == 2:
            return self.new_arr(st, [Axis(t.sub(ns[1], ns[0]))], lambda ix: t.add(ns[0], ix[0]))
        return self.new_arr(st, [Axis(t.mk('call', 'arangelen', *ns))], lambda ix: t.add(ns[0], t.mul(ns[2], ix[0])))

    def np_linspace(self, args, kw, st):
        a, b = self.node(args[0], st), self.node(args[1], st)
        n = args[2] if len(args) > 2 else kw.get('num', num(50))
        n = self.node(n, st)
        end = kw.get('endpoint', args[3] if len(args) > 3 else TRUE)
        end = True if end in (True, TRUE) else False if end in (False, FALSE) else None
        if end is None or set(kw) - {'num', 'endpoint', 'dtype'}:
            return t.unk('linspace')
        if end and n is not ONE:
            n1 = t.sub(n, ONE)
        else:
            n1 = n
        return self.new_arr(st, [Axis(n)], lambda ix: t.add(a, t.mul(t.sub(b, a), t.div(ix[0], n1))))

    def np_logspace(self, args, kw, st):
        r = self.np_linspace(args, {k: v for k, v in kw.items() if k == 'num'}, st)
        base = self.node(args[4] if len(args) > 4 else kw.get('base', num(10)), st)
        return self.elementwise(lambda x: t.pow_(base, x), [r], st)

    def np_indices(self, args, kw, st):
        sizes = self.concrete_iter(args[0], st)
        if sizes is None or len(sizes) > 3:
            return t.unk('indices')
        axes = [Axis(self.node(x, st)) for x in sizes]
        return self.new_list(st, [self.new_arr(st, axes, lambda ix, k=k: ix[k]) for k in range(len(axes))], True)

    def np_isclose(self, args, kw, st):
        f = t.close
        if len(args) > 2 or 'rtol' in kw or 'atol' in kw:
            from fractions import Fraction
            rt = self.node(args[2] if len(args) > 2 else kw.get('rtol', num(Fraction(1, 10 ** 5))), st)
            at = self.node(args[3] if len(args) > 3 else kw.get('atol', num(Fraction(1, 10 ** 8))), st)
            if not all(q.op == 'num' and q.args[0] <= Fraction(1, 10 ** 4) for q in (rt, at)):
                f = lambda a, b: t.le(t.fn('abs', t.sub(a, b)), t.add(at, t.mul(rt, t.fn('abs', b))))
            elif t.RANGES:
                def f(a, b):
                    c = t.le(t.fn('abs', t.sub(a, b)), t.add(at, t.mul(rt, t.fn('abs', b))))
                    return c if c is TRUE or c is FALSE else t.close(a, b)
        return self.elementwise(f, args[:2], st)

    def np_allclose(self, args, kw, st):
        r = self.np_isclose(args, kw, st)
        return self.np_all([r], {}, st)

    def np_array_equal(self, args, kw, st):
        a, b = [self.as_array(x, st) if not isinstance(x, Node) else x for x in args[:2]]
        if isinstance(a, Node) and isinstance(b, Node):
            return t.eq(a, b)
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            return t.unk('array_equal')
        aa, bb = self.axes(a, st), self.axes(b, st)
        if len(aa) != len(bb):
            return FALSE
        if any(x.mask or x.region or x.size.op != 'num' for x in list(aa) + list(bb)):
            return t.unk('array_equal')
        if any(x.size is not y.size for x, y in zip(aa, bb)):
            return FALSE
        return self.np_all([self.elementwise(t.eq, [a, b], st)], {}, st)

    def np_any(self, args, kw, st):
        return self.quant('any', args, kw, st)

    def np_all(self, args, kw, st):
        return self.quant('all', args, kw, st)

    def quant(self, q, args, kw, st):
        v = args[0]
        if isinstance(v, PyList):
            cs = [self.tobool(x, st) if not isinstance(x, Arr) else self.quant(q, [x], {}, st) for x in st.store[v.key]]
            return (t.or_ if q == 'any' else t.and_)(*cs) if cs else (FALSE if q == 'any' else TRUE)
        v = self.as_array(v, st)
        if isinstance(v, Node):
            return t.asbool(v)
        if isinstance(v, Gate):
            return self.lift(v, lambda x: self.quant(q, [x], kw, st), st)
        ax = self.axes(v, st)
        if all(x.is1() for x in ax):
            return t.asbool(self.elem(v, [ZERO] * len(ax), st))
        if all(isinstance(x.size, Node) and t.isnum(x.size) and x.mask is None and x.region is None for x in ax):
            dims = [int(x.size.args[0]) for x in ax]
            tot = 1
            for d in dims:
                tot *= max(d, 0)
            if tot <= 64:
                cs = [t.asbool(self.elem(v, tuple(num(i) for i in ix), st)) for ix in itertools.product(*[range(d) for d in dims])]
                return (t.or_ if q == 'any' else t.and_)(*cs) if cs else (FALSE if q == 'any' else TRUE)
        ph = tuple((t.idx('@q%da' % k), t.idx('@q%db' % k)) if a.region else t.idx('@q%d' % k) for k, a in enumerate(ax))
        e = t.asbool(self.elem(v, ph, st))
        if e is FALSE or e is TRUE:
            return e
        return t.mk('batom', q, e) if not e.unk else e

    def np_where(self, args, kw, st):
        if len(args) == 3:
            return self.elementwise(lambda c, a, b: t.ite(t.asbool(c), a, b), args, st)
        m = self.as_array(args[0], st)
        if isinstance(m, Arr) and len(self.axes(m, st)) == 1:
            ax, f = st.store[m.key]
            cs = self.items1(m, st)
            if cs is not None and all(t.asbool(c) in (TRUE, FALSE) for c in cs):
                return self.new_list(st, [self.vec([num(j) for j, c in enumerate(cs) if t.asbool(c) is TRUE], st)], True)
            r = IdxMask(newkey())
            st.store[r.key] = (ax, lambda ix: t.asbool(f(ix)))
            return self.new_list(st, [r], True)
        return t.unk('where1')
    np_nonzero = np_where

    def items1(self, v, st, most=64):
        """elements of a 1d array (or list) of known length"""
        v = self.as_array(v, st)
        if isinstance(v, Node) and not v.unk:
            return [v]
        if not isinstance(v, Arr):
            return None
        ax, f = st.store[v.key]
        if len(ax) != 1 or not plain(ax[0]) or ax[0].size.args[0] > most:
            return None
        return [f((num(i),)) for i in range(int(ax[0].size.args[0]))]

    def vec(self, xs, st):
        xs = list(xs)
        return self.new_arr(st, [Axis(num(len(xs)))], lambda ix: pick(xs, ix[0]) if xs else t.unk('empty'))

    def ints(self, v, st):
        q = self.items1(v, st)
        if q is None or any(x.op != 'num' for x in q):
            return None
        return [int(x.args[0]) for x in q]

    def np_flatnonzero(self, args, kw, st):
        r = self.np_where(args[:1], {}, st)
        return self.getitem(r, ZERO, st) if isinstance(r, PyList) else r

    def np_concatenate(self, args, kw, st):
        q = self.concrete_iter(args[0], st)
        if q is None or kw.get('axis', args[1] if len(args) > 1 else ZERO) is not ZERO:
            return t.unk('concatenate')
        out = []
        for x in q:
            x = self.items1(x, st)
            if x is None:
                return t.unk('concatenate')
            out += x
        return self.vec(out, st)
    np_hstack = np_concatenate

    def np_append(self, args, kw, st):
        a, b = self.items1(args[0], st), self.items1(args[1], st)
        if a is None or b is None or kw or len(args) > 2:
            return t.unk('append')
        return self.vec(a + b, st)

    def np_insert(self, args, kw, st):
        a, at, v = self.items1(args[0], st), self.ints(args[1], st), self.items1(args[2], st)
        if a is None or at is None or v is None or kw or len(args) > 3:
            return t.unk('insert')
        scalar = isinstance(self.as_array(args[1], st), Node)
        if len(v) == 1 and not scalar:
            v = v * len(at)
        if scalar:
            at = at * len(v)
        if len(v) != len(at):
            self.fails('insert: lengths differ')
            return t.unk('insert')
        at = [i + len(a) if i < 0 else i for i in at]
        new = sorted(zip(at, range(len(at))))
        out = []
        for i in range(len(a) + 1):
            out += [v[k] for j, k in new if j == i]
            if i < len(a):
                out.append(a[i])
        return self.vec(out, st)

    def np_delete(self, args, kw, st):
        a, at = self.items1(args[0], st), self.ints(args[1], st)
        if a is None or at is None or kw or len(args) > 2:
            return t.unk('delete')
        if any(not -len(a) <= i < len(a) for i in at):
            self.fails('delete: index out of range')
            return t.unk('delete')
        gone = {i % len(a) for i in at}
        return self.vec([x for i, x in enumerate(a) if i not in gone], st)

    def order(self, keys):
        """permutation that sorts by the keys (most significant first), None unless every comparison needed is known"""
        import functools

        class Odd(Exception):
            pass

        def cmp(i, j):
            for k in keys:
                if t.lt(k[i], k[j]) is TRUE:
                    return -1
                if t.lt(k[j], k[i]) is TRUE:
                    return 1
                if t.eq(k[i], k[j]) is not TRUE:
                    raise Odd()
            return 0
        try:
            return sorted(range(len(keys[0])), key=functools.cmp_to_key(cmp))
        except Odd:
            return None

    def np_lexsort(self, args, kw, st):
        q = self.concrete_iter(args[0], st)
        keys = [self.items1(x, st) for x in q] if q else [None]
        if any(k is None for k in keys) or kw or len(args) > 1:
            return t.unk('lexsort')
        p = self.order(keys[::-1])
        return t.unk('lexsort') if p is None else self.vec([num(i) for i in p], st)

    def np_argsort(self, args, kw, st):
        q = self.items1(args[0], st)
        p = self.order([q]) if q else None
        return t.unk('argsort') if p is None else self.vec([num(i) for i in p], st)

    def np_sort(self, args, kw, st):
        q = self.items1(args[0], st)
        p = self.order([q]) if q else None
        return t.unk('sort') if p is None else self.vec([q[i] for i in p], st)

    def np_sorted(self, args, kw, st):
        l = self.concrete_iter(args[0], st)
        if l is not None and all(isinstance(x, str) for x in l) and not kw:
            return self.new_list(st, sorted(l))
        if kw or l is None or not all(isinstance(x, Node) for x in l):
            return t.unk('sorted')
        p = self.order([l]) if l else []
        return t.unk('sorted') if p is None else self.new_list(st, [l[i] for i in p])

    def np_unique(self, args, kw, st):
        q = self.items1(args[0], st)
        p = self.order([q]) if q and not kw and len(args) == 1 else None
        if p is None:
            return t.unk('unique')
        out = []
        for i in p:
            if not out or t.eq(out[-1], q[i]) is not TRUE:
                out.append(q[i])
        return self.vec(out, st)

    def np_norm(self, args, kw, st):
        v = self.as_array(args[0], st)
        if kw or len(args) > 1 or not isinstance(v, Arr):
            return t.unk('norm')
        v = self.elementwise(lambda x: t.mul(x, x), [v], st)
        return self.elementwise(lambda x: t.fn('sqrt', x), [self.reduce_sum(v, None, st)], st)

    def np_argmax(self, args, kw, st):
        return self.argext(args, kw, st, -1)

    def np_argmin(self, args, kw, st):
        return self.argext(args, kw, st, 1)

    def argext(self, args, kw, st, sgn):
        q = self.items1(args[0], st)
        p = self.order([[t.mul(num(sgn), t.ite(x, ONE, ZERO) if isbool(x) else x) for x in q]]) if q and not kw and len(args) == 1 else None
        return t.unk('argmax') if p is None else num(p[0])

    def np_sign(self, args, kw, st):
        return self.elementwise(lambda x: t.fn('sign', x), args[:1], st)

    def np_sum(self, args, kw, st):
        v = args[0]
        if isinstance(v, PyList):
            r = ZERO if len(args) < 2 else args[1]
            if 'axis' not in kw:
                for x in st.store[v.key]:
                    r = self.binop(ast.Add(), r, x, st)
                if isinstance(r, Arr) and False:
                    pass
                return r
        v = self.as_array(v, st)
        axis = kw.get('axis', args[1] if len(args) > 1 else None)
        return self.reduce_sum(v, axis, st)

    def reduce_sum(self, v, axis, st):
        if isinstance(v, Gate):
            return self.lift(v, lambda x: self.reduce_sum(x, axis, st), st)
        if isinstance(v, Node):
            return v
        ax, f = st.store[v.key]
        if axis is None:
            which = list(range(len(ax)))
        elif isinstance(axis, Node) and axis.op == 'num':
            which = [int(axis.args[0]) % len(ax)]
        else:
            return t.unk('axis')
        keep = [k for k in range(len(ax)) if k not in which]

        def fn(ix):
            full = [None] * len(ax)
            for k, i in zip(keep, ix):
                full[k] = i
            es = []
            for k in which:
                if ax[k].region:
                    full[k] = (t.fresh_idx('s'), t.fresh_idx('s'))
                else:
                    full[k] = t.fresh_idx('s')
                es.append((k, full[k]))
            b = f(tuple(full))
            for k, e in es:
                if ax[k].region:
                    return t.unk('sum region')
                if ax[k].mask:
                    b = t.ite(ax[k].mask(e), b, ZERO)
                b = t.mk_sum(e, ZERO, ax[k].size, b)
            return b
        if not keep:
            return fn(())
        return self.new_arr(st, [ax[k] for k in keep], memo1(fn))

    def np_dot(self, args, kw, st):
        a, b = self.as_array(args[0], st), self.as_array(args[1], st)
        if isinstance(a, Gate) or isinstance(b, Gate):
            return t.unk('dot gate')
        if isinstance(a, Node) or isinstance(b, Node):
            return self.elementwise(lambda x, y: t.mul(x, y), [a, b], st)
        axa, fa = st.store[a.key]
        axb, fb = st.store[b.key]
        ra, rb = len(axa), len(axb)
        kb = 0 if rb == 1 else rb - 2
        oa = list(axa[:-1])
        ob = [x for k, x in enumerate(axb) if k != kb]
        n = axa[-1].size

        def fn(ix):
            e = t.fresh_idx('d')
            ia = tuple(ix[:len(oa)]) + (e,)
            jb = list(ix[len(oa):])
            jb.insert(kb, e)
            return t.mk_sum(e, ZERO, n, t.mul(fa(ia), fb(tuple(jb))))
        if not oa and not ob:
            return fn(())
        return self.new_arr(st, oa + ob, memo1(fn))

    def small(self, a, st, big=4):
        """concrete square matrix -> list of rows of nodes, or None"""
        a = self.as_array(a, st)
        if not isinstance(a, Arr):
            return None
        ax, f = st.store[a.key]
        if len(ax) != 2 or any(x.size.op != 'num' or x.mask or x.region for x in ax):
            return None
        n = int(ax[0].size.args[0])
        if n != int(ax[1].size.args[0]) or n > big:
            return None
        return [[f((num(i), num(j))) for j in range(n)] for i in range(n)]

    def matrix(self, rows, st):
        return self.new_arr(st, [Axis(num(len(rows))), Axis(num(len(rows[0])))], lambda ix: pick([pick(r, ix[1]) for r in rows], ix[0]))

    def np_inv(self, args, kw, st):
        A = self.small(args[0], st, 12)
        if A is None:
            return t.unk('inv')
        if len(A) > 2:
            es = [x for r in A for x in r]
            return self.matrix([[t.mk('minv', len(A), i, j, *es) for j in range(len(A))] for i in range(len(A))], st)
        d = det(A)
        n = len(A)
        cof = lambda i, j: t.mul(num((-1) ** (i + j)), det([r[:j] + r[j + 1:] for k, r in enumerate(A) if k != i])) if n > 1 else ONE
        return self.matrix([[t.div(cof(j, i), d) for j in range(n)] for i in range(n)], st)

    def np_det(self, args, kw, st):
        A = self.small(args[0], st)
        return t.unk('det') if A is None else det(A)

    def np_solve(self, args, kw, st):
        A = self.small(args[0], st)
        b = self.as_array(args[1], st)
        if A is None or not isinstance(b, Arr) or len(self.axes(b, st)) != 1:
            return t.unk('solve')
        f = st.store[b.key][1]
        b = [f((num(i),)) for i in range(len(A))]
        d = det(A)
        sol = [t.div(det([r[:j] + [b[i]] + r[j + 1:] for i, r in enumerate(A)]), d) for j in range(len(A))]
        return self.new_arr(st, [Axis(num(len(A)))], lambda ix: pick(sol, ix[0]))

    def np_eig(self, args, kw, st):
        A = self.small(args[0], st)
        if A is None or len(A) != 2:
            return t.unk('eig')
        (a, b), (c, d) = A
        half = num(Fraction(1, 2))
        q = t.fn('sqrt', t.add(t.pow_(t.sub(a, d), num(2)), t.mul(num(4), b, c)))
        r = [t.mul(half, t.sub(t.add(a, d), q)), t.mul(half, t.add(a, d, q))]
        w = self.new_arr(st, [Axis(num(2))], lambda ix: pick(r, ix[0]))
        return self.new_list(st, [w, self.matrix([[t.sub(x, d) for x in r], [c, c]], st)], True)

    def np_einsum(self, args, kw, st):
        s = args[0]
        if not isinstance(s, str):
            return t.unk('einsum')
        s = s.replace(' ', '')
        lhs, _, rhs = s.partition('->')
        ins = lhs.split(',')
        ops = [self.as_array(x, st) for x in args[1:]]
        if len(ins) != len(ops) or not all(isinstance(o, Arr) for o in ops) or '.' in s:
            return t.unk('einsum')
        if '->' not in s:
            allc = ''.join(ins)
            rhs = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
        axof = {}
        for term, o in zip(ins, ops):
            ax = self.axes(o, st)
            if len(ax) != len(term):
                return t.unk('einsum')
            for c, a in zip(term, ax):
                if c not in axof or axof[c].is1():
                    axof[c] = a
        red = [c for c in axof if c not in rhs]
        if any(c not in axof for c in rhs):
            return t.unk('einsum')
        cont = [st.store[o.key] for o in ops]

        def fn(ix):
            base = dict(zip(rhs, ix))
            es = {c: t.fresh_idx('d') for c in red}
            base.update(es)
            v = t.mul(*[f(tuple(ZERO if (a.is1() and not axof[c].is1()) else base[c] for c, a in zip(term, ax))) for term, (ax, f) in zip(ins, cont)])
            for c in red:
                v = t.mk_sum(es[c], ZERO, axof[c].size, v)
            return v
        if not rhs:
            return fn(())
        return self.new_arr(st, [axof[c] for c in rhs], memo1(fn))

    def np_quad(self, args, kw, st):
        """scipy.integrate.quad(func, a, b, args): the defining integral"""
        d = dict(zip(('func', 'a', 'b', 'args'), args))
        d.update(kw)
        x = t.sym('@quad%d' % newkey())
        extra = d.get('args')
        if isinstance(extra, PyList):
            extra = list(st.store[extra.key])
        elif extra is None:
            extra = []
        else:
            extra = [extra]
        v = self.node(self.call(d['func'], [x] + extra, {}, st), st)
        return self.new_list(st, [t.mk('integral', x, self.node(d['a'], st), self.node(d['b'], st), v), t.unk('quad error')], True)

    def np_outer(self, args, kw, st):
        a, b = self.as_array(args[0], st), self.as_array(args[1], st)
        if isinstance(a, Arr) and isinstance(b, Arr):
            (xa, fa), (xb, fb) = st.store[a.key], st.store[b.key]
            if len(xa) == 1 and len(xb) == 1:
                return self.new_arr(st, [xa[0], xb[0]], lambda ix: t.mul(fa(ix[:1]), fb(ix[1:])))
        return t.unk('outer')

    def np_diff(self, args, kw, st):
        a = self.as_array(args[0], st)
        if isinstance(a, Arr):
            ax, f = st.store[a.key]
            if len(ax) == 1:
                return self.new_arr(st, [Axis(t.sub(ax[0].size, ONE))], lambda ix: t.sub(f((t.add(ix[0], ONE),)), f(ix)))
        return t.unk('diff')

    def np_diag_indices(self, args, kw, st):
        n = self.node(args[0], st)
        mk = lambda: self.new_arr(st, [Axis(n)], lambda ix: ix[0])
        return self.new_list(st, [mk(), mk()], True)

    def tri(self, args, kw, st, upper):
        n = self.node(args[0], st)
        k = kw.get('k', args[1] if len(args) > 1 else ZERO)
        k = self.node(k, st)
        if upper:
            reg = lambda q: t.le(t.add(q[0], k), q[1])
        else:
            reg = lambda q: t.le(q[1], t.add(q[0], k))
        ax = Axis(t.mk('call', 'tri%d' % upper, n, k), region=reg)
        a = self.new_arr(st, [ax], lambda ix: ix[0][0])
        b = self.new_arr(st, [ax], lambda ix: ix[0][1])
        return self.new_list(st, [a, b], True)

    def np_triu_indices(self, args, kw, st):
        return self.tri(args, kw, st, True)

    def np_tril_indices(self, args, kw, st):
        return self.tri(args, kw, st, False)

    def np_transpose(self, args, kw, st):
        return self.getattr(self.as_array(args[0], st), 'T', st)

    def np_ravel(self, args, kw, st):
        v = self.as_array(args[0], st)
        if isinstance(v, Arr) and len(self.axes(v, st)) == 1:
            return v
        if isinstance(v, Node):
            return self.np_atleast_1d([v], {}, st)
        if isinstance(v, Arr):
            ax, f = st.store[v.key]
            big = [k for k, a in enumerate(ax) if not a.is1()]
            if len(big) <= 1 and not any(a.region for a in ax):
                k = big[0] if big else 0
                return self.new_arr(st, [ax[k]], lambda ix: f(tuple(ix[0] if j == k else ZERO for j in range(len(ax)))))
            dims = [int(a.size.args[0]) if a.size.op == 'num' and a.mask is None else None for a in ax]
            if None not in dims:
                n = 1
                for d in dims:
                    n *= d

                def g(ix):
                    def at(k):
                        pos = []
                        for d in reversed(dims):
                            pos.insert(0, num(k % d))
                            k //= d
                        return f(tuple(pos))
                    if ix[0].op == 'num':
                        return at(int(ix[0].args[0]))
                    return pick([at(k) for k in range(n)], ix[0])
                return self.new_arr(st, [Axis(num(n))], g)
        return t.unk('ravel')

    def np_squeeze(self, args, kw, st):
        v = self.as_array(args[0], st)
        return v if isinstance(v, Node) else t.unk('squeeze')

    def np_maximum(self, args, kw, st):
        return self.elementwise(lambda a, b: t.ite(t.lt(a, b), b, a), args[:2], st)

    def np_minimum(self, args, kw, st):
        return self.elementwise(lambda a, b: t.ite(t.lt(b, a), b, a), args[:2], st)

    def extremum(self, which, args, kw, st):
        if len(args) > 1 and all(isinstance(a, Node) for a in args):
            r = args[0]
            for a in args[1:]:
                r = t.ite(t.lt(r, a), a, r) if which == 'max' else t.ite(t.lt(a, r), a, r)
            return r
        v = args[0]
        if isinstance(v, PyList):
            l = st.store[v.key]
            if l and all(isinstance(a, Node) for a in l):
                return self.extremum(which, l, kw, st) if len(l) > 1 else l[0]
        v = self.as_array(v, st)
        if isinstance(v, Node):
            return v
        if isinstance(v, Gate):
            return self.lift(v, lambda q: self.extremum(which, [q] + list(args[1:]), kw, st), st)
        if isinstance(v, Arr):
            ax = self.axes(v, st)
            if all(q.mask is None and q.region is None and q.size.op == 'num' for q in ax) and not kw and len(args) == 1:
                n = 1
                for q in ax:
                    n *= int(q.size.args[0])
                if 1 <= n <= 40:
                    import itertools
                    els = [self.elem(v, tuple(num(i) for i in ix), st) for ix in itertools.product(*[range(int(q.size.args[0])) for q in ax])]
                    return self.extremum(which, els, kw, st) if n > 1 else els[0]
            return t.mk('call', which, self.descr(v, st))
        return t.unk(which)

    def np_max(self, args, kw, st):
        return self.extremum('max', args, kw, st)
    np_amax = np_max

    def np_min(self, args, kw, st):
        return self.extremum('min', args, kw, st)
    np_amin = np_min

    def np_power(self, args, kw, st):
        return self.binop(ast.Pow(), args[0], args[1], st)
    np_pow = np_power

    def np_add(self, args, kw, st):
        return self.binop(ast.Add(), args[0], args[1], st)

    def np_subtract(self, args, kw, st):
        return self.binop(ast.Sub(), args[0], args[1], st)

    def np_multiply(self, args, kw, st):
        return self.binop(ast.Mult(), args[0], args[1], st)

    def np_divide(self, args, kw, st):
        return self.binop(ast.Div(), args[0], args[1], st)
    np_true_divide = np_divide

    def np_negative(self, args, kw, st):
        return self.elementwise(t.neg, args[:1], st)

    def np_reciprocal(self, args, kw, st):
        return self.elementwise(lambda x: t.pow_(x, t.MONE), args[:1], st)

    def np_isnan(self, args, kw, st):
        return self.elementwise(lambda q: t.mk('isnan', q) if not q.op == 'num' else FALSE, args[:1], st)

    def np_square(self, args, kw, st):
        return self.elementwise(lambda x: t.pow_(x, num(2)), args[:1], st)

    def np_logical_and(self, args, kw, st):
        return self.elementwise(lambda x, y: t.and_(t.asbool(x), t.asbool(y)), args[:2], st)

    def np_logical_or(self, args, kw, st):
        return self.elementwise(lambda x, y: t.or_(t.asbool(x), t.asbool(y)), args[:2], st)

    def np_logical_not(self, args, kw, st):
        return self.elementwise(lambda x: t.not_(t.asbool(x)), args[:1], st)

    def np_greater(self, args, kw, st):
        return self.compare(ast.Gt(), args[0], args[1], st)

    def np_greater_equal(self, args, kw, st):
        return self.compare(ast.GtE(), args[0], args[1], st)

    def np_less(self, args, kw, st):
        return self.compare(ast.Lt(), args[0], args[1], st)

    def np_less_equal(self, args, kw, st):
        return self.compare(ast.LtE(), args[0], args[1], st)

    def np_isscalar(self, args, kw, st):
        v = args[0]
        if isinstance(v, Node):
            return True if not v.unk else v
        return not isinstance(v, (Arr, PyList, Opaque))

    def np_searchsorted(self, args, kw, st):
        arr = self.as_array(args[0], st)
        side = args[2] if len(args) > 2 else kw.get('side', 'left')
        if isinstance(arr, Arr) and isinstance(side, str) and len(self.axes(arr, st)) == 1 and t.isnum(self.axes(arr, st)[0].size) and self.axes(arr, st)[0].mask is None:
            els = [self.elem(arr, (num(k),), st) for k in range(int(self.axes(arr, st)[0].size.args[0]))]
            cmp = t.lt if side == 'left' else t.le
            return self.elementwise(lambda x: t.add(*[t.ite(cmp(a, x), ONE, ZERO) for a in els]) if els else ZERO, [args[1]], st)
        a = self.descr(arr, st)
        side = self.descr(side, st)
        return self.elementwise(lambda x: t.mk('call', 'searchsorted', a, x, side), [args[1]], st)

    def np_slice(self, args, kw, st):
        if len(args) == 1:
            return SliceV(None, args[0], None)
        return SliceV(args[0], args[1], args[2] if len(args) > 2 else None) if 2 <= len(args) <= 3 else t.unk('slice')

    def np_interp(self, args, kw, st):
        xs, ys = [self.as_array(x, st) for x in args[1:3]]
        for k, v in ((0, xs), (1, ys)):
            if isinstance(v, Gate):
                return self.lift(v, lambda q: self.np_interp([args[0]] + ([q, args[2]] if k == 0 else [args[1], q]) + list(args[3:]), kw, st), st)
        if isinstance(xs, Arr) and isinstance(ys, Arr):
            ax, ay = self.axes(xs, st), self.axes(ys, st)
            if len(ax) == 1 == len(ay) and not ax[0].mask and not ay[0].mask and ax[0].size.op == 'num' and ax[0].size is ay[0].size and 1 <= ax[0].size.args[0] <= 40:
                n = int(ax[0].size.args[0])
                px = [self.elem(xs, (num(i),), st) for i in range(n)]
                py = [self.elem(ys, (num(i),), st) for i in range(n)]
                left = kw.get('left', args[3] if len(args) > 3 else None)
                right = kw.get('right', args[4] if len(args) > 4 else None)
                left = py[0] if left is None else self.node(left, st)
                right = py[-1] if right is None else self.node(right, st)
                if 'period' not in kw and len(args) <= 5:
                    def f(x):
                        r = t.ite(t.le(x, px[-1]), py[-1], right)
                        for i in range(n - 2, -1, -1):
                            seg = t.add(py[i], t.mul(t.sub(py[i + 1], py[i]), t.div(t.sub(x, px[i]), t.sub(px[i + 1], px[i]))))
                            r = t.ite(t.lt(x, px[i + 1]), seg, r)
                        return t.ite(t.lt(x, px[0]), left, r)
                    return self.elementwise(f, [args[0]], st)
        a = [self.descr(self.as_array(x, st), st) for x in args[1:3]]
        return self.elementwise(lambda x: t.mk('call', 'interp', x, *a), [args[0]], st)

    def np_cumprod(self, args, kw, st):
        v = self.as_array(args[0], st)
        r = t.unk('cumprod')
        if isinstance(v, Arr):
            ax, f = st.store[v.key]
            if len(ax) == 1 and t.isnum(ax[0].size):
                n = int(ax[0].size.args[0])
                vals, acc = [], ONE
                for k in range(n):
                    acc = t.mul(acc, f((num(k),)))
                    vals.append(acc)
                r = self.new_arr(st, ax, lambda ix: pick(vals, ix[0]))
        return self.into(kw, r, st)

    def np_cumsum(self, args, kw, st):
        v = self.as_array(args[0], st)
        axis = kw.get('axis', args[1] if len(args) > 1 else None)
        r = t.unk('cumsum')
        if isinstance(v, Arr):
            ax, f = st.store[v.key]
            k = None
            if axis is None:
                k = 0 if len(ax) == 1 else None
            elif isinstance(axis, Node) and t.isnum(axis) and -len(ax) <= axis.args[0] < len(ax):
                k = int(axis.args[0]) % len(ax)
            if k is not None and not ax[k].mask and not ax[k].region:
                def fn(ix):
                    if t.isnum(ix[k]) and plain(ax[k]):
                        return t.add(ZERO, *[f(ix[:k] + (num(j),) + ix[k + 1:]) for j in range(int(ix[k].args[0]) + 1)])
                    e = t.fresh_idx('cs')
                    return t.mk_sum(e, ZERO, t.add(ix[k], ONE), f(ix[:k] + (e,) + ix[k + 1:]))
                r = self.new_arr(st, ax, memo1(fn))
        return self.into(kw, r, st)

    def into(self, kw, r, st):
        """the out= argument"""
        o = kw.get('out')
        if isinstance(o, Arr):
            if isinstance(r, Arr):
                st.store[o.key] = st.store[r.key]
            else:
                u = r if isinstance(r, Node) else t.unk('out')
                st.store[o.key] = (st.store[o.key][0], lambda ix: u)
        return r

    def np_apply_along_axis(self, args, kw, st):
        fun, axis, v = args[:3]
        v = self.as_array(v, st)
        if not isinstance(v, Arr) or not isinstance(axis, Node) or not t.isnum(axis):
            return t.unk('apply_along_axis')
        ax, f = st.store[v.key]
        k = int(axis.args[0]) % len(ax)
        rest = ax[:k] + ax[k + 1:]

        def fn(ix):
            s2 = st.copy()
            a = self.new_arr(s2, [ax[k]], lambda q: f(tuple(ix[:k]) + (q[0],) + tuple(ix[k:])))
            return self.node(self.call(fun, [a] + list(args[3:]), kw, s2), s2)
        if not rest:
            return fn(())
        return self.new_arr(st, rest, memo1(fn))

    def np_frompyfunc(self, args, kw, st):
        return args[0]

    def np_mpf(self, args, kw, st):
        v = args[0]
        if isinstance(v, str):
            try:
                return num(Fraction(v))
            except ValueError:
                return t.unk('mpf')
        return self.node(v, st)

    def np_mpc(self, args, kw, st):
        p = [self.np_mpf([a], {}, st) for a in args]
        return t.add(p[0], t.mul(p[1], t.I())) if len(p) > 1 else p[0]

    def np_clip(self, args, kw, st):
        v, lo, hi = args[0], kw.get('a_min', kw.get('min', args[1] if len(args) > 1 else None)), kw.get('a_max', kw.get('max', args[2] if len(args) > 2 else None))
        inf = t.fn('const_inf')
        if lo is not None:
            v = self.np_maximum([v, lo], {}, st)
        if hi is not None and hi is not inf:
            v = self.np_minimum([v, hi], {}, st)
        return self.into(kw, v, st)

    def np_broadcast_to(self, args, kw, st):
        return args[0]

    def np_float(self, args, kw, st):
        if not args:
            return ZERO
        return self.node(args[0], st)
    np_float64 = np_complex = np_float

    def np_int(self, args, kw, st):
        if len(args) == 1 and isinstance(args[0], str) and args[0].strip().isdigit():
            return num(int(args[0]))
        n = self.node(args[0], st)
        if n.op == 'num' and n.args[0].denominator == 1 or n.isidx:
            return n
        if n.op == 'num':
            return num(int(n.args[0]))
        k = None if n.unk else t.quotient(n, ONE)
        if k is not None:
            return num(k if k >= 0 or t.sign(t.sub(n, num(k))) == 0 else k + 1)
        return t.mk('call', 'int', n)

    def np_bool(self, args, kw, st):
        return self.tobool(args[0], st)

    def np_round(self, args, kw, st):
        return self.elementwise(lambda x: t.mk('call', 'round', x), args[:1], st)

    def np_set(self, args, kw, st):
        if not args:
            return self.new_list(st, [])
        q = self.concrete_iter(args[0], st)
        if q is None or not all(isinstance(x, str) or (isinstance(x, Node) and x.op == 'num') for x in q):
            return t.unk('set')
        return self.new_list(st, list(dict.fromkeys(q)))
    np_frozenset = np_set

    def np_len(self, args, kw, st):
        v = args[0]
        if isinstance(v, PyList) or isinstance(v, PyDict):
            return num(len(st.store[v.key]))
        if isinstance(v, IdxMask):
            return t.unk('count')
        if isinstance(v, Arr):
            ax = self.axes(v, st)
            return ax[0].size
        if isinstance(v, Opaque):
            return lenof(v.node)
        if isinstance(v, str):
            return num(len(v))
        if isinstance(v, RangeV):
            return t.sub(v.hi, v.lo)
        if isinstance(v, Node) and v.op in ('sym', 'num') and not self.gave_up:
            self.fails('len of a number')
            return t.fail('len of a number')
        return t.unk('len')

    def np_range(self, args, kw, st):
        ns = [self.node(a, st) for a in args]
        if len(ns) == 1:
            return RangeV(ZERO, ns[0], ONE)
        if len(ns) == 2:
            return RangeV(ns[0], ns[1], ONE)
        return RangeV(*ns)
    np_xrange = np_range

    def np_enumerate(self, args, kw, st):
        s = args[1] if len(args) > 1 else kw.get('start', ZERO)
        return EnumV(args[0], self.node(s, st))

    def np_zip(self, args, kw, st):
        return ZipV(args)

    def np_isinstance(self, args, kw, st):
        v, c = args
        cs = st.store[c.key] if isinstance(c, PyList) else [c]
        res = False
        for x in cs:
            if isinstance(x, ExtV):
                b = x.name.split('.')[-1]
                if b == 'ndarray' and (isinstance(v, Arr) or isinstance(v, Node)):
                    return True if isinstance(v, Arr) else t.mk('batom', 'isarray')
                if b == 'str' and isinstance(v, (str, StrV)):
                    return True
                if b in ('list', 'tuple') and isinstance(v, PyList):
                    return (b == 'tuple') == v.tup
                if b == 'dict' and isinstance(v, PyDict):
                    return True
                if b in ('Number', 'float', 'int') and isinstance(v, Node):
                    return True
            elif isinstance(x, ClassV) and isinstance(v, ObjV):
                if any(cn is x.node for _, cn in self.p.mro(v.cls.mod, v.cls.node)):
                    return True
            elif isinstance(v, Opaque):
                return t.mk('batom', 'isinst', v.node)
        return res

    def np_hasattr(self, args, kw, st):
        o, a = args
        if isinstance(o, ObjV) and isinstance(a, str):
            if a in st.store[o.key] or self.find_method(o.cls, a):
                return True
            return t.mk('batom', 'hasattr:' + a) if o.symname is not None else False
        if isinstance(o, (Arr, PyList)) and a in ('__len__', '__iter__'):
            return True
        return t.mk('batom', 'hasattr#%d' % newkey())

    def class_assign(self, cls, a):
        return any(isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == a for x in s.targets)
                   for (mm, cn) in self.p.mro(cls.mod, cls.node) for s in cn.body)

    def np_getattr(self, args, kw, st):
        if isinstance(args[1], str):
            o = args[0]
            if len(args) > 2 and isinstance(o, ObjV) and '__obj__' in st.store[o.key] and args[1] not in st.store[o.key] \
                    and o.symname is None and not self.gave_up and self.closed_class(o.cls) and not args[1].startswith('__') \
                    and not self.find_method(o.cls, args[1]) and not self.class_assign(o.cls, args[1]):
                return args[2]
            return self.getattr(args[0], args[1], st)
        return t.unk('getattr')

    def np_setattr(self, args, kw, st):
        o, a, v = args
        if not isinstance(a, str):
            self.gave_up = True
        if isinstance(o, ObjV) and isinstance(a, str):
            d = dict(st.store[o.key])
            d[a] = v
            st.store[o.key] = d
        return None

    def np_list(self, args, kw, st):
        if not args:
            return self.new_list(st, [])
        q = self.concrete_iter(args[0], st)
        if q is not None:
            return self.new_list(st, q)
        if isinstance(args[0], (Arr, RangeV)):
            return self.as_array(args[0], st)
        return args[0] if isinstance(args[0], Opaque) else t.unk('list()')

    def np_tuple(self, args, kw, st):
        r = self.np_list(args, kw, st)
        if isinstance(r, PyList):
            return self.new_list(st, st.store[r.key], True)
        return r

    def np_str(self, args, kw, st):
        if args and isinstance(args[0], (str, StrV)):
            return args[0]
        return strv(piece(args[0])) if len(args) == 1 and not kw else StrV()

    def np_format(self, args, kw, st):
        spec = args[1] if len(args) > 1 else ''
        return strv(piece(args[0], spec)) if args and isinstance(spec, str) else StrV()

    def np_repr(self, args, kw, st):
        if len(args) == 1 and (isinstance(args[0], (str, bool)) or args[0] is None):
            return repr(args[0])
        return StrV()

    def np_print(self, args, kw, st):
        return None

    def np_type(self, args, kw, st):
        v = args[0]
        return v.cls if isinstance(v, ObjV) else t.unk('type')

    def np_globals(self, args, kw, st):
        return GlobalsV(self.mods[-1]) if self.mods else t.unk('globals')

    def np_callable(self, args, kw, st):
        return isinstance(args[0], (FuncV, ExtV, PartialV, ClassV))

    def np_map(self, args, kw, st):
        q = self.concrete_iter(args[1], st)
        if q is not None:
            return self.new_list(st, [self.call(args[0], [x], {}, st) for x in q])
        return t.unk('map')

    def np_vectorize(self, args, kw, st):
        return args[0]

    def np_errstate(self, args, kw, st):
        return None

    def np_seterr(self, args, kw, st):
        return self.new_dict(st)

    def np_log(self, args, kw, st):
        if len(args) == 2:
            return self.elementwise(lambda x, b: t.div(t.fn('log', x), t.fn('log', b)), args, st)
        return self.elementwise(lambda x: t.fn('log', x), args, st)

    def np_meshgrid(self, args, kw, st):
        return t.unk('meshgrid')

    def np_prod(self, args, kw, st):
        v = args[0]
        q = self.concrete_iter(v, st)
        if q is not None:
            r = ONE
            for x in q:
                r = self.binop(ast.Mult(), r, x, st)
            return r
        return t.unk('prod')

    def nd_method(self, m, v, args, kw, st):
        if m in ('copy', 'astype', 'conjugate', 'conj'):
            return self.np_array([v], {}, st)
        if m in ('sum', 'any', 'all', 'max', 'min', 'cumsum', 'dot', 'prod', 'ravel', 'transpose', 'squeeze', 'round', 'clip', 'cumprod'):
            return getattr(self, 'np_' + m)([v] + list(args), kw, st)
        if m == 'flatten':
            return self.np_ravel([self.np_array([v], {}, st)], {}, st)
        if m == 'tolist':
            return v
        if m == 'item':
            return self.node(v, st)
        if m == 'mean':
            return t.unk('mean')
        if m == 'fill' and isinstance(v, Arr):
            x = self.node(args[0], st)
            st.store[v.key] = (self.axes(v, st), lambda ix: x)
            return None
        if m == 'reshape' and isinstance(v, Arr):
            sh = self.shape_of(args[0] if len(args) == 1 else self.new_list(st, args, True), st)
            ax, f = st.store[v.key]
            if sh and len(ax) == 1:
                if len(sh) == 2 and t.isnum(sh[0], -1) and t.isnum(sh[1], 1):
                    return self.new_arr(st, [ax[0], Axis(ONE)], lambda ix: f(ix[:1]))
                if len(sh) == 2 and t.isnum(sh[1], -1) and t.isnum(sh[0], 1):
                    return self.new_arr(st, [Axis(ONE), ax[0]], lambda ix: f(ix[1:]))
                if len(sh) == 1:
                    return v
        return t.unk('method ' + m)

    def py_method(self, kind, m, v, args, kw, st):
        if kind == 'PyList':
            l = st.store[v.key]
            if m == 'append':
                st.store[v.key] = l + [args[0]]
                return None
            if m == 'extend' and isinstance(args[0], PyList):
                st.store[v.key] = l + st.store[args[0].key]
                return None
            if m in ('add', 'update', 'discard'):           # of a set
                new = [args[0]] if m != 'update' else self.concrete_iter(args[0], st)
                flat = lambda x: x is None or isinstance(x, (str, bool)) or isinstance(x, Node) and x.op == 'num'
                if new is None or isinstance(l, OpenList) or not all(flat(x) for x in list(l) + list(new)):
                    st.store[v.key] = OpenList([t.unk('set.' + m)])
                elif m == 'discard':
                    st.store[v.key] = [x for x in l if x != new[0]]
                else:
                    st.store[v.key] = list(dict.fromkeys(list(l) + list(new)))
                return None
            if m == 'pop':
                l = list(l)
                try:
                    r = l.pop(int(args[0].args[0]) if args else -1)
                except Exception:
                    return t.unk('pop')
                st.store[v.key] = l
                return r
            if m in ('index', 'remove'):
                for k, x in enumerate(l):
                    c = self.tobool(self.compare(ast.Eq(), args[0], x, st), st)
                    if c is TRUE:
                        if m == 'remove':
                            st.store[v.key] = l[:k] + l[k + 1:]
                            return None
                        return num(k)
                    if c is not FALSE:
                        break
                if m == 'remove':
                    st.store[v.key] = OpenList([t.unk('list.remove')])
                return t.unk('list.' + m)
            if m == 'insert':
                l = list(l)
                if isinstance(args[0], Node) and args[0].op == 'num':
                    l.insert(int(args[0].args[0]), args[1])
                    st.store[v.key] = l
                    return None
        if kind == 'PyDict':
            d = st.store[v.key]
            if m in ('get', 'pop'):
                k = dkey(args[0])
                r = d.get(k, args[1] if len(args) > 1 else None)
                if m == 'pop' and k in d:
                    d2 = dict(d)
                    del d2[k]
                    st.store[v.key] = d2
                return r
            if m == 'items':
                return self.new_list(st, [self.new_list(st, [k if not isinstance(k, (int, Fraction)) else num(k), x], True) for k, x in d.items()])
            if m == 'keys':
                return self.new_list(st, list(d.keys()))
            if m == 'values':
                return self.new_list(st, list(d.values()))
            if m == 'update':
                d2 = dict(d)
                if args and isinstance(args[0], PyDict):
                    d2.update(st.store[args[0].key])
                d2.update(kw)
                st.store[v.key] = d2
                return None
            if m == 'copy':
                return self.new_dict(st, d)
            if m == 'setdefault':
                k = dkey(args[0])
                if k not in d:
                    d2 = dict(d)
                    d2[k] = args[1] if len(args) > 1 else None
                    st.store[v.key] = d2
                    return d2[k]
                return d[k]
        if kind == 'str' and m in ('upper', 'lower', 'strip', 'capitalize', 'title'):
            return getattr(v, m)()
        if kind == 'str' and m in ('split', 'splitlines', 'rsplit') and all(isinstance(a, str) for a in args) and not kw:
            return self.new_list(st, getattr(v, m)(*args))
        if kind == 'str' and m == 'join':
            q = self.concrete_iter(args[0], st)
            if q is not None and all(isinstance(x, (str, StrV)) for x in q):
                out = []
                for k, x in enumerate(q):
                    out += [v, x] if k else [x]
                return strv(*out)
        if kind == 'str' and m == 'format':
            return format_parts(v, args, kw)
        if kind == 'str' and m in ('replace', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'title', 'capitalize') and all(isinstance(a, str) for a in args) and not kw:
            return getattr(v, m)(*args)
        if kind == 'str' and m in ('zfill', 'ljust', 'rjust', 'center') and not kw and args and isinstance(args[0], Node) and args[0].op == 'num' and args[0].args[0].denominator == 1 \
                and all(isinstance(a, str) for a in args[1:]):
            return getattr(v, m)(int(args[0].args[0]), *args[1:])
        if kind == 'str' and m in ('isdigit', 'isalpha', 'isalnum', 'isspace') and not args and not kw:
            return getattr(v, m)()
        if kind == 'str' and m in ('startswith', 'endswith') and isinstance(args[0], str):
            return getattr(v, m)(args[0])
        return StrV() if kind in ('str', 'StrV') else t.unk('method ' + m)


def det(A):
    if not A:
        return ONE
    if len(A) == 1:
        return A[0][0]
    return t.add(*[t.mul(num((-1) ** j), A[0][j], det([r[:j] + r[j + 1:] for r in A[1:]])) for j in range(len(A))])


class Frame(object):
    def __init__(self, func):
        self.func = func
        self.key = newkey()

    def link(self, st):
        st.store[self.key] = {}
        return self


def lenof(n):
    return t.mk('call', 'len', n)


def ext_const(name):
    b = name.split('.')
    if name in ('os.curdir', 'os.path.curdir'):
        return '.'
    if b[0] in NUMERIC_PKGS:
        if b[-1] == 'pi':
            return t.fn('pi')
        if b[-1] == 'e' and len(b) == 2:
            return t.fn('e')
        if b[-1] == 'newaxis':
            return None
        if b[-1] in ('nan', 'inf', 'NaN', 'Inf', 'infty'):
            return t.fn('const_' + b[-1].lower())
    return ExtV(name)


def isbool(n):
    return n.op in t.BOOLOPS or (n.op == 'ite' and isbool(n.args[1]) and isbool(n.args[2]))


def unb(n):
    if n is TRUE:
        return ONE
    if n is FALSE:
        return ZERO
    if n.op in t.BOOLOPS:
        return t.ite(n, ONE, ZERO)
    return n


def pick(items, i):
    if i.op == 'num':
        k = int(i.args[0])
        if -len(items) <= k < len(items):
            return items[k]
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = t.ite(t.eq(i, num(k)), items[k], r)
    return r


def flat(ix):
    out = []
    for i in ix:
        if isinstance(i, tuple):
            out.extend(i)
        else:
            out.append(i)
    return out


def flat_ids(ix):
    return [i.id for i in flat(ix)]


def memo1(f):
    memo = {}

    def g(ix):
        k = tuple(flat_ids(ix)) + (len(ix),)
        if k not in memo:
            memo[k] = f(ix)
        return memo[k]
    return g


def same(f, g):
    x = t.fresh_idx('z')
    return f(x) is g(x)


def dkey(v):
    if isinstance(v, Node):
        if v.op == 'num':
            x = v.args[0]
            return int(x) if x.denominator == 1 else x
        raise TypeError
    if isinstance(v, (str, bool, type(None), int)):
        return v
    raise TypeError


def kth_selected(ax, k):
    """position (before masking) of the k-th element a mask keeps"""
    n = ax.base
    if not isinstance(n, Node) or n.op != 'num' or n.args[0] > 64:
        return t.unk('position within a masked array')
    n = int(n.args[0])
    m = [ax.mask(t.num(j)) for j in range(n)]
    pos = range(n) if k >= 0 else range(n - 1, -1, -1)
    k = k if k >= 0 else -1 - k
    if k > 3:
        return t.unk('position within a masked array')

    def go(rest, k):
        if not rest:
            return t.unk('position within an empty selection')
        j = rest[0]
        if m[j] is FALSE:
            return go(rest[1:], k)
        yes = t.num(j) if k == 0 else go(rest[1:], k - 1)
        if m[j] is TRUE:
            return yes
        return t.ite(m[j], yes, go(rest[1:], k))
    return go(list(pos), k)


def slice_bounds(s, n):
    def g(x, d):
        if x is None:
            return d
        if isinstance(x, Node):
            if x.op == 'num' and x.args[0] < 0:
                return t.add(n, x)
            return x
        return t.unk('slice bound')
    step = ONE if s.step is None else s.step
    if not isinstance(step, Node):
        return None, None, None
    if t.isnum(step, -1):
        if s.lo is None and s.hi is None:
            return ZERO, n, step
        return None, None, None
    return g(s.lo, ZERO), g(s.hi, n), step


def delta(b, c):
    """b - c when b is c plus something not containing c; None otherwise"""
    if b is c:
        return ZERO
    if not node_in(b, c):
        return None
    if b.op == 'add':
        hit = [a for a in b.args if node_in(a, c)]
        if len(hit) != 1:
            return None
        d = delta(hit[0], c)
        if d is None:
            return None
        return t.add(d, *[a for a in b.args if a is not hit[0]])
    if b.op == 'ite':
        x, y = delta(b.args[1], c), delta(b.args[2], c)
        if x is None or y is None or node_in(b.args[0], c):
            return None
        return t.ite(b.args[0], x, y)
    return None


def ratio(b, c):
    if b is c:
        return ONE
    if b.op == 'mul':
        hit = [a for a in b.args if node_in(a, c)]
        if len(hit) == 1:
            d = ratio(hit[0], c)
            if d is not None:
                return t.mul(d, *[a for a in b.args if a is not hit[0]])
    if b.op == 'ite':
        x, y = ratio(b.args[1], c), ratio(b.args[2], c)
        if x is not None and y is not None and not node_in(b.args[0], c):
            return t.ite(b.args[0], x, y)
    return None


def node_in(n, c, seen=None):
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x is c:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        for a in x.args:
            if isinstance(a, Node):
                stack.append(a)
    return False


def linform(n):
    """index node -> ({leaf id: coef}, const) or None"""
    if n.op == 'num':
        return {}, n.args[0]
    if n.op in ('idx', 'size', 'sym', 'call', 'sel'):
        return {n.id: Fraction(1)}, Fraction(0)
    if n.op == 'add':
        d, c = {}, Fraction(0)
        for a in n.args:
            r = linform(a)
            if r is None:
                return None
            for k, v in r[0].items():
                d[k] = d.get(k, 0) + v
            c += r[1]
        return {k: v for k, v in d.items() if v != 0}, c
    if n.op == 'mul' and len(n.args) == 2 and n.args[0].op == 'num':
        r = linform(n.args[1])
        if r is None:
            return None
        k0 = n.args[0].args[0]
        return {k: v * k0 for k, v in r[0].items()}, r[1] * k0
    return None


def feasible(cs):
    """False only if the conjunction of index conditions is certainly unsatisfiable
    over the integers (difference-bound closure)"""
    edges = []      # (u, v, w): u - v <= w
    for c in cs:
        if c is FALSE:
            return False
        pos = True
        if c.op == 'not':
            pos, c = False, c.args[0]
        if c.op not in ('lt', 'le', 'eq'):
            continue
        r = linform(t.sub(c.args[0], c.args[1]))
        if r is None:
            continue
        d, k = r
        if not d:
            v = k < 0 if c.op == 'lt' else (k <= 0 if c.op == 'le' else k == 0)
            if v != pos:
                return False
            continue
        items = sorted(d.items(), key=lambda x: -x[1])
        if len(items) == 1 and abs(items[0][1]) == 1:
            u, v = (items[0][0], 0) if items[0][1] == 1 else (0, items[0][0])
        elif len(items) == 2 and items[0][1] == 1 and items[1][1] == -1:
            u, v = items[0][0], items[1][0]
        else:
            continue
        # u - v + k  op  0
        if c.op == 'eq':
            if pos:
                edges += [(u, v, -k), (v, u, k)]
        elif c.op == 'lt':
            edges.append((u, v, -k - 1) if pos else (v, u, k))
        else:
            edges.append((u, v, -k) if pos else (v, u, k - 1))
    nodes = set()
    for u, v, w in edges:
        nodes |= {u, v}
    dist = {x: Fraction(0) for x in nodes}
    for _ in range(len(nodes)):
        ch = False
        for u, v, w in edges:
            if dist[v] + w < dist[u]:
                dist[u] = dist[v] + w
                ch = True
        if not ch:
            return True
    return not edges
