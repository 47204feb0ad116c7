"""Value-graph terms: hash-consed, gated (ITE) expression nodes with summation
binders, symbolic substitution / differentiation, and a zero test.

The zero test is *random interpretation* (Gulwani & Necula, POPL 2003/2005):
two terms are equal iff they agree under a random interpretation of their
atoms.  Atoms (parameters, array elements, opaque calls) are interpreted as
pseudo-random 50-digit reals; conditions on data are free boolean atoms that
are enumerated exhaustively (so every gated path is compared, feasible or
rarely taken alike); conditions on indices are interpreted in the index
ordering.  No code of the analysed project is imported or run.
"""
import hashlib
from fractions import Fraction
import mpmath
from mpmath import mp, mpf, mpc

mp.dps = 50


class Node(object):
    __slots__ = ('op', 'args', 'id', 'isidx', 'unk', '_fv', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_cnt = [0]


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, Node) else ('c', type(a).__name__, a) for a in args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        _cnt[0] += 1
        n.id = _cnt[0]
        n._fv = None
        kids = [a for a in args if isinstance(a, Node)]
        n.unk = (op == 'unk') or any(k.unk for k in kids)
        if op in ('idx', 'size'):
            n.isidx = True
        elif op == 'num':
            n.isidx = isinstance(args[0], int) or (isinstance(args[0], Fraction) and args[0].denominator == 1)
        elif op in ('add', 'mul', 'ite', 'max', 'min', 'floordiv', 'mod'):
            n.isidx = all(k.isidx or k.op in BOOLOPS for k in kids)
        elif op == 'call' and args[0] in SIZECALLS:
            n.isidx = True
        elif op in BOOLOPS:
            n.isidx = bool(kids) and all(k.isidx for k in kids)
        else:
            n.isidx = False
        _table[key] = n
    return n


SIZECALLS = {'len', 'count', 'tri0', 'tri1', 'triTrue', 'triFalse', 'slicelen', 'arangelen'}
BOOLOPS = {'lt', 'le', 'eq', 'not', 'and', 'or', 'batom', 'close', 'isnan'}


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('fn', 'const_' + repr(v))
        v = Fraction(repr(v))
    if isinstance(v, complex):
        return add(num(v.real), mul(num(v.imag), I()))
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    if isinstance(v, int):
        v = Fraction(v)
    return mk('num', v)


def I():
    return mk('fn', 'imag_unit')


ZERO = num(0)
ONE = num(1)
MONE = num(-1)
TRUE = mk('batom', True)
FALSE = mk('batom', False)
_fresh = [0]


def sym(name):
    return mk('sym', name)


def idx(name):
    return mk('idx', name)


def fresh_idx(hint='i'):
    _fresh[0] += 1
    return mk('idx', '%s#%d' % (hint, _fresh[0]))


def fresh_sym(hint='v'):
    _fresh[0] += 1
    return mk('sym', '%s#%d' % (hint, _fresh[0]))


def size(name):
    return mk('size', name)


def unk(reason):
    _fresh[0] += 1
    return mk('unk', '%s#%d' % (reason, _fresh[0]))


def isnum(n, v=None):
    return n.op == 'num' and (v is None or n.args[0] == v)


def add(*xs):
    c = Fraction(0)
    out = []
    for x in xs:
        if x.op == 'batom' and (x is TRUE or x is FALSE):
            x = ONE if x is TRUE else ZERO
        if x.op == 'num':
            c += x.args[0]
        elif x.op == 'add':
            for y in x.args:
                if y.op == 'num':
                    c += y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if len(out) > 1 and len(out) <= 8:
        # cancel x + (-1)*x, collect identical
        coef = {}
        order = []
        for y in out:
            k, b = 1, y
            if y.op == 'mul' and y.args[0].op == 'num':
                k = y.args[0].args[0]
                b = mul(*y.args[1:])
            if b.id not in coef:
                coef[b.id] = [Fraction(0), b]
                order.append(b.id)
            coef[b.id][0] += k
        out = []
        for i in order:
            k, b = coef[i]
            if k == 0:
                continue
            out.append(b if k == 1 else mul(num(k), b))
    if c != 0:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk('add', *out)


def mul(*xs):
    c = Fraction(1)
    out = []
    for x in xs:
        if x.op == 'batom' and (x is TRUE or x is FALSE):
            x = ONE if x is TRUE else ZERO
        if x.op == 'num':
            c *= x.args[0]
        elif x.op == 'mul':
            for y in x.args:
                if y.op == 'num':
                    c *= y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    out.sort(key=lambda n: n.id)
    if c != 1:
        out.insert(0, num(c))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return mk('mul', *out)


def neg(x):
    if x.op == 'add':
        return add(*[mul(MONE, a) for a in x.args])
    return mul(MONE, x)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, pow_(b, MONE))


def pow_(a, b):
    if isnum(b, 1):
        return a
    if isnum(b, 0):
        return ONE
    if a.op == 'num' and b.op == 'num' and b.args[0].denominator == 1:
        if a.args[0] != 0 and abs(b.args[0]) < 200:
            return num(a.args[0] ** int(b.args[0]))
        if a.args[0] == 0 and b.args[0] > 0:
            return ZERO
    if a.op == 'pow' and b.op == 'num' and b.args[0].denominator == 1:
        return pow_(a.args[0], mul(a.args[1], b))
    return mk('pow', a, b)


def fn(name, *args):
    if name == 'sqrt':
        return pow_(args[0], num(Fraction(1, 2)))
    if args and all(isnum(a, 0) for a in args):
        if name in ('sin', 'tan', 'sinh', 'tanh', 'erf', 'arctan', 'arcsin', 'expm1', 'log1p', 'abs', 'sign'):
            return ZERO
        if name in ('cos', 'exp', 'cosh'):
            return ONE
    if name == 'log' and isnum(args[0], 1):
        return ZERO
    if RANGES and name in ('abs', 'sign') and len(args) == 1:
        s = sign(args[0])
        if s is None and name == 'abs' and bounds(args[0])[0] >= 0:
            s = 1
        if s is not None:
            return (args[0] if s == 1 else neg(args[0]) if s == -1 else ZERO) if name == 'abs' else num(s)
    return mk('fn', name, *args)


# ---- interval domain -------------------------------------------------------------------------------------------------
# When a property declares ranges for its symbols (a box: each symbol anywhere between two bounds), comparisons whose
# outcome is the same everywhere in the box are decided when they are built.
RANGES = {}
_INF = float('inf')
_EPS = 1e-12


class ranges(object):
    def __init__(self, box):
        self.box = {k: (Fraction(lo), Fraction(hi)) for k, (lo, hi) in box.items()}

    def __enter__(self):
        self.old = dict(RANGES)
        RANGES.update(self.box)
        _bmemo.clear()
        _pmemo.clear()

    def __exit__(self, *a):
        RANGES.clear()
        RANGES.update(self.old)
        _bmemo.clear()
        _pmemo.clear()


_bmemo = {}
_pmemo = {}


def poly(n):
    """n as a polynomial: {((atom id, power), ...): coefficient}, or None when it is too large"""
    if n.id in _pmemo:
        return _pmemo[n.id]
    if n.op == 'num':
        r = {(): n.args[0]} if n.args[0] != 0 else {}
    elif n.op == 'add':
        r = {}
        for a in n.args:
            p = poly(a)
            if p is None:
                r = None
                break
            for k, v in p.items():
                r[k] = r.get(k, 0) + v
        r = r if r is None else {k: v for k, v in r.items() if v != 0}
    elif n.op == 'mul' or (n.op == 'pow' and n.args[1].op == 'num' and n.args[1].args[0].denominator == 1 and 1 < n.args[1].args[0] <= 8
                           and n.args[0].op in ('add', 'mul', 'sym')):
        fs = n.args if n.op == 'mul' else [n.args[0]] * int(n.args[1].args[0])
        r = {(): Fraction(1)}
        for a in fs:
            p = poly(a)
            if p is None or len(p) * len(r) > 3000:
                r = None
                break
            q = {}
            for k1, v1 in r.items():
                for k2, v2 in p.items():
                    d = dict(k1)
                    for x, e in k2:
                        d[x] = d.get(x, 0) + e
                        if d[x] == 0:
                            del d[x]
                    k = tuple(sorted(d.items()))
                    q[k] = q.get(k, 0) + v1 * v2
            r = {k: v for k, v in q.items() if v != 0}
    elif n.op == 'pow' and n.args[1].op == 'num' and n.args[1].args[0] == -1:
        b = n.args[0]
        p = poly(b)
        if p is not None and len(p) == 1:          # 1/(c x^k ...) as a monomial
            (k, v), = p.items()
            r = {tuple((x, -e) for x, e in k): 1 / Fraction(v)}
        elif p:
            # the same denominator written differently is the same atom: divide by its leading coefficient
            k0 = min(p)
            c = Fraction(p[k0])
            key = tuple(sorted((k, v / c) for k, v in p.items()))
            a = _den.setdefault(key, b if c == 1 else mul(num(1 / c), b))
            _batoms[a.id] = a
            r = {((a.id, -1),): 1 / c}
        else:
            _batoms[n.id] = n
            r = {((n.id, 1),): Fraction(1)}
    else:
        _batoms[n.id] = n
        r = {((n.id, 1),): Fraction(1)}
    _pmemo[n.id] = r
    return r


_den = {}
_batoms = {}


def _imul(a, b):
    ps = [0 if (x == 0 or y == 0) else x * y for x in a for y in b]
    return min(ps), max(ps)


def _ipow(a, e):
    lo, hi = a
    if e < 0:
        if lo <= 0 <= hi:
            return (-_INF, _INF)
        inv = lambda x: 0 if abs(x) == _INF else 1 / x
        lo, hi = inv(hi), inv(lo)
        e = -e
    r = (Fraction(1), Fraction(1))
    if e % 2 == 0 and lo <= 0 <= hi:
        return (0, max(lo ** e, hi ** e))
    for _ in range(e):
        r = (r[0] * lo, r[1] * hi) if lo >= 0 else _imul(r, (lo, hi))
    if e % 2 == 0 and hi < 0:
        r = tuple(sorted((lo ** e, hi ** e)))
    return r


def _abounds(n):
    """bounds of an atom"""
    if n.op == 'sym':
        return RANGES.get(n.args[0], (-_INF, _INF))
    if n.op == 'ite':
        a, b = bounds(n.args[1]), bounds(n.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    mono = None
    if n.op == 'fn' and n.args[0] in ('exp', 'log', 'log10') and len(n.args) == 2:
        import math
        mono = {'exp': math.exp, 'log': math.log, 'log10': math.log10}[n.args[0]]
        lo, hi = bounds(n.args[1])
        if abs(lo) == _INF or abs(hi) == _INF or hi > 600 or (n.args[0] != 'exp' and lo <= 0):
            return (0, _INF) if n.args[0] == 'exp' else (-_INF, _INF)
        lo, hi = mono(lo), mono(hi)
    elif n.op == 'fn' and n.args[0] == 'abs':
        lo, hi = bounds(n.args[1])
        return (0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
    elif n.op == 'fn' and n.args[0] in ('sin', 'cos', 'tanh', 'sign', 'erf'):
        return (-1, 1)
    elif n.op == 'pow' and n.args[1].op == 'num':
        e = n.args[1].args[0]
        lo, hi = bounds(n.args[0])
        if e.denominator == 1:
            return _ipow((lo, hi), int(e))
        if lo < 0 or abs(hi) == _INF or (e < 0 and lo == 0):
            return (0, _INF) if lo >= 0 else (-_INF, _INF)
        lo, hi = sorted((float(lo) ** float(e), float(hi) ** float(e)))
    elif n.op == 'pow' and n.args[0].op == 'num' and n.args[0].args[0] > 0:
        lo, hi = bounds(n.args[1])
        if abs(lo) == _INF or abs(hi) == _INF or max(abs(lo), abs(hi)) > 200:
            return (0, _INF)
        b = float(n.args[0].args[0])
        lo, hi = sorted((b ** float(lo), b ** float(hi)))
    elif n.op in ('max', 'min'):
        bs = [bounds(a) for a in n.args]
        f = max if n.op == 'max' else min
        return f(b[0] for b in bs), f(b[1] for b in bs)
    else:
        return (-_INF, _INF)
    return lo - abs(lo) * _EPS, hi + abs(hi) * _EPS


def _pbounds(p, at):
    """interval of a polynomial: term by term, and grouped by the atom most terms share (correlated terms)"""
    lo = hi = Fraction(0)
    cnt = {}
    for k, v in p.items():
        m = (v, v)
        for x, e in k:
            m = _imul(m, _ipow(at[x], e))
            if e > 0:
                cnt[x] = cnt.get(x, 0) + 1
        lo, hi = lo + m[0], hi + m[1]
    if lo > 0 or hi < 0 or len(p) > 60 or not cnt or max(cnt.values()) < 2:
        return lo, hi
    x = max(cnt, key=lambda q: (cnt[q], -q))
    e = min(d for k in p for y, d in k if y == x and d > 0)
    q, r = {}, {}
    for k, v in p.items():
        d = dict(k)
        if d.get(x, 0) > 0:
            d[x] -= e
            q[tuple(sorted((y, z) for y, z in d.items() if z))] = v
        else:
            r[k] = v
    a = _imul(_pbounds(q, at), _ipow(at[x], e))
    b = _pbounds(r, at) if r else (Fraction(0), Fraction(0))
    return max(lo, a[0] + b[0]), min(hi, a[1] + b[1])


def bounds(n):
    """interval enclosing n for every value of the symbols in their ranges"""
    r = _bmemo.get(n.id)
    if r is not None:
        return r
    p = poly(n)
    if p is None or n.unk:
        r = (-_INF, _INF)
    else:
        at = {}
        for k in p:
            for x, _ in k:
                if x not in at:
                    a = _batoms[x]
                    at[x] = _abounds(a) if a is not n or a.op not in ('add', 'mul') else (-_INF, _INF)
        lo, hi = _pbounds(p, at)
        r = (lo, hi)
    if n.op in ('add', 'mul', 'pow') and not n.unk and (n.op != 'pow' or (n.args[1].op == 'num' and n.args[1].args[0].denominator == 1)):
        # the structure may say more than the expanded form (squares)
        if n.op == 'pow':
            q = _ipow(bounds(n.args[0]), int(n.args[1].args[0]))
        else:
            q = (0, 0) if n.op == 'add' else (Fraction(1), Fraction(1))
            for a in n.args:
                b = bounds(a)
                q = (q[0] + b[0], q[1] + b[1]) if n.op == 'add' else _imul(q, b)
        r = (max(r[0], q[0]), min(r[1], q[1]))
    _bmemo[n.id] = r
    return r


def sign(n):
    """1, 0, -1 when known for every value of the symbols in their ranges, otherwise None"""
    lo, hi = bounds(n)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if lo == hi == 0:
        return 0
    return None


def quotient(a, b):
    """floor of a / b when the ranges of the symbols determine it"""
    if not RANGES or a.unk or b.unk or bounds(b)[0] <= 0:
        return None
    lo = bounds(a)[0]
    if abs(lo) == _INF:
        return None
    if bounds(b)[1] == _INF:
        k = 0
    else:
        q = [lo / x for x in bounds(b)]
        import math
        k = math.floor(min(q))
    for k in range(k, k + 40):
        if lt(a, mul(num(k + 1), b)) is TRUE:
            return k if le(mul(num(k), b), a) is TRUE else None
        if lt(a, mul(num(k + 1), b)) is not FALSE:
            return None


def truth(n):
    """Node -> python bool or None"""
    if n is TRUE:
        return True
    if n is FALSE:
        return False
    return None


def lt(a, b):
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if RANGES and not (a.isidx and b.isidx):
        lo, hi = bounds(sub(b, a))
        if lo > 0:
            return TRUE
        if hi <= 0:
            return FALSE
    return mk('lt', a, b)


def le(a, b):
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if RANGES and not (a.isidx and b.isidx):
        lo, hi = bounds(sub(b, a))
        if lo >= 0:
            return TRUE
        if hi < 0:
            return FALSE
    return mk('le', a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if RANGES and not (a.isidx and b.isidx):
        s = sign(sub(b, a))
        if s is not None:
            return TRUE if s == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def close(a, b):
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return TRUE if abs(a.args[0] - b.args[0]) < Fraction(1, 10 ** 8) else FALSE
    if RANGES:
        lo, hi = bounds(sub(b, a))
        if lo == hi == 0:
            return TRUE
        near_ = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        big = max([abs(x) for x in bounds(a)] + [abs(x) for x in bounds(b)])
        if near_ > Fraction(2, 10 ** 5) * big + Fraction(1, 10 ** 7) if big < _INF else False:
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('close', a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if not (a.op in BOOLOPS or a.op in ('ite', 'unk')):
        return eq(a, ZERO)
    return mk('not', a)


def asbool(a):
    if a.op in BOOLOPS or a.unk:
        return a
    if a.op == 'num':
        return TRUE if a.args[0] != 0 else FALSE
    if a.op == 'ite':
        return or_(and_(a.args[0], asbool(a.args[1])), and_(not_(a.args[0]), asbool(a.args[2])))
    return not_(eq(a, ZERO))


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        ys = x.args if x.op == 'and' else (x,)
        for y in ys:
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    for y in out:
        if not_(y) in out:
            return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk('and', *out)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk('ite', c, a, b)


def free_leaves(n):
    """set of idx/sym/carry leaf nodes in n"""
    if n._fv is not None:
        return n._fv
    if n.op in ('idx', 'sym', 'size'):
        s = frozenset([n])
    else:
        s = frozenset()
        for a in n.args:
            if isinstance(a, Node):
                s |= free_leaves(a)
        if n.op in ('sum', 'prod'):
            s -= frozenset([n.args[0]])
    n._fv = s
    return s


def contains(n, leaf):
    return leaf in free_leaves(n)


def atoms(n, pred, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            out.append(x)
        for a in x.args:
            if isinstance(a, Node):
                stack.append(a)
    return out


def rebuild(op, args):
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return pow_(*args)
    if op == 'fn':
        return fn(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'close':
        return close(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'sum':
        return mk_sum(*args)
    return mk(op, *args)


def subst(n, mapping, memo=None):
    """mapping: dict Node->Node or callable(node)->Node|None (applied top-down)."""
    if memo is None:
        memo = {}
    if n.id in memo:
        return memo[n.id]
    if callable(mapping):
        r = mapping(n)
    else:
        r = mapping.get(n)
        if r is None and not any(k in free_leaves(n) or k.op not in ('idx', 'sym', 'size') for k in mapping):
            r = n
    if r is None:
        if not any(isinstance(a, Node) for a in n.args):
            r = n
        else:
            args = [subst(a, mapping, memo) if isinstance(a, Node) else a for a in n.args]
            r = rebuild(n.op, args)
    memo[n.id] = r
    return r


# ---------------------------------------------------------------- sums

def lin_in(x, e):
    """x == e + k  -> k Node, or None ; handles x = k + e, x = k - e (returns ('-',k))."""
    if x is e:
        return ('+', ZERO)
    if x.op == 'add':
        rest = []
        sgn = None
        for a in x.args:
            if a is e and sgn is None:
                sgn = '+'
            elif a.op == 'mul' and len(a.args) == 2 and isnum(a.args[0], -1) and a.args[1] is e and sgn is None:
                sgn = '-'
            elif contains(a, e):
                return None
            else:
                rest.append(a)
        if sgn:
            return (sgn, add(*rest))
        return None
    if x.op == 'mul' and len(x.args) == 2 and isnum(x.args[0], -1) and x.args[1] is e:
        return ('-', ZERO)
    return None


def solve_eq(c, e):
    """c is eq(a,b) with e linear; return value of e"""
    if c.op != 'eq':
        return None
    d = sub(c.args[0], c.args[1])
    r = lin_in(d, e)
    if r is None:
        return None
    s, k = r
    return neg(k) if s == '+' else k


def conj(c):
    return list(c.args) if c.op == 'and' else [c]


def mk_sum(e, lo, hi, body):
    """sum_{e=lo}^{hi-1} body"""
    if body is ZERO:
        return ZERO
    if lo.op == 'num' and hi.op == 'num' and hi.args[0] - lo.args[0] <= 16:
        out = []
        k = int(lo.args[0])
        while k < hi.args[0]:
            out.append(subst(body, {e: num(k)}))
            k += 1
        return add(*out)
    r = _iverson(e, lo, hi, body)
    if r is not None:
        return r
    # shift to zero base
    if lo is not ZERO:
        e2 = fresh_idx('e')
        body = subst(body, {e: add(e2, lo)})
        return mk_sum(e2, ZERO, sub(hi, lo), body)
    if body.op == 'add':
        return add(*[mk_sum(e, lo, hi, b) for b in body.args])
    if body.op == 'mul':
        ind = [b for b in body.args if not contains(b, e)]
        dep = [b for b in body.args if contains(b, e)]
        if ind and dep:
            return mul(mul(*ind), mk_sum(e, lo, hi, mul(*dep)))
    if body.op == 'ite':
        c, a, b = body.args
        if not contains(c, e):
            return ite(c, mk_sum(e, lo, hi, a), mk_sum(e, lo, hi, b))
        if b is ZERO:
            ind = [x for x in conj(c) if not contains(x, e)]
            if ind:
                dep = [x for x in conj(c) if contains(x, e)]
                return ite(and_(*ind), mk_sum(e, lo, hi, ite(and_(*dep), a, ZERO)), ZERO)
    # canonical bound variable
    return mk('sum', e, lo, hi, body)


def has_eq_on(body, e, depth=0):
    if not contains(body, e):
        return False
    if body.op == 'ite':
        for c in conj(body.args[0]):
            if solve_eq(c, e) is not None:
                return True
        return has_eq_on(body.args[1], e) or has_eq_on(body.args[2], e)
    if body.op == 'add':
        return any(has_eq_on(b, e) for b in body.args)
    if body.op == 'mul':
        return any(has_eq_on(b, e) for b in body.args)
    return False


def eqs_on(body, e):
    """index equations e == v (v free of inner bound variables) used as gates in body"""
    if not contains(body, e):
        return []
    bound = set(x.args[0] for x in atoms(body, lambda n: n.op == 'sum'))
    out = []
    for x in atoms(body, lambda n: n.op == 'eq' and n.isidx and contains(n, e)):
        v = solve_eq(x, e)
        if v is not None and not contains(v, e):
            if any(b in free_leaves(v) for b in bound):
                continue
            out.append(x)
    return out


def _iverson(e, lo, hi, body):
    eqs = eqs_on(body, e)
    if not eqs:
        return None
    vals = set(solve_eq(x, e) for x in eqs)
    if len(vals) == 1:
        v = vals.pop()
        off = {x: FALSE for x in eqs}
        rest = subst(body, lambda n: off.get(n))
        at = subst(body, {e: v})
        inr = and_(le(lo, v), lt(v, hi))
        if rest is ZERO:
            return ite(inr, at, ZERO)
        return add(mk_sum(e, lo, hi, rest), ite(inr, sub(at, subst(rest, {e: v})), ZERO))
    if not has_eq_on(body, e):
        return None
    if body.op == 'add':
        return add(*[mk_sum(e, lo, hi, b) for b in body.args])
    if body.op == 'mul':
        for k, b in enumerate(body.args):
            if has_eq_on(b, e):
                rest = mul(*(body.args[:k] + body.args[k + 1:]))
                if b.op == 'add':
                    return add(*[mk_sum(e, lo, hi, mul(rest, x)) for x in b.args])
                if b.op == 'ite':
                    return mk_sum(e, lo, hi, ite(b.args[0], mul(rest, b.args[1]), mul(rest, b.args[2])))
        return None
    if body.op == 'ite':
        c, a, b = body.args
        for k, cc in enumerate(conj(c)):
            v = solve_eq(cc, e)
            if v is not None:
                others = [x for x in conj(c) if x is not cc]
                m = {e: v}
                cond = and_(le(lo, v), lt(v, hi), *[subst(o, m) for o in others])
                # sum ite(c,a,b) = sum b + [cond](a-b)(v)
                av = subst(a, m)
                if b is ZERO:
                    return ite(cond, av, ZERO)
                return add(mk_sum(e, lo, hi, b), ite(cond, sub(av, subst(b, m)), ZERO))
        # eq deeper
        return add(mk_sum(e, lo, hi, ite(c, a, ZERO)) if not has_eq_on(a, e) else _push(e, lo, hi, c, a, True),
                   mk_sum(e, lo, hi, ite(c, ZERO, b)) if not has_eq_on(b, e) else _push(e, lo, hi, c, b, False))
    return None


def _push(e, lo, hi, c, a, pos):
    cc = c if pos else not_(c)
    if a.op == 'ite':
        return add(mk_sum(e, lo, hi, ite(and_(cc, a.args[0]), a.args[1], ZERO)),
                   mk_sum(e, lo, hi, ite(and_(cc, not_(a.args[0])), a.args[2], ZERO)))
    if a.op == 'add':
        return add(*[mk_sum(e, lo, hi, ite(cc, x, ZERO)) for x in a.args])
    return mk('sum', e, lo, hi, ite(cc, a, ZERO))


# ---------------------------------------------------------------- diff

def diff(n, v, memo=None):
    if memo is None:
        memo = {}
    if not contains(n, v):
        return ZERO
    r = memo.get(n.id)
    if r is not None:
        return r
    op = n.op
    if n is v:
        r = ONE
    elif op == 'add':
        r = add(*[diff(a, v, memo) for a in n.args])
    elif op == 'mul':
        parts = []
        for k, a in enumerate(n.args):
            d = diff(a, v, memo)
            if d is not ZERO:
                parts.append(mul(d, *(n.args[:k] + n.args[k + 1:])))
        r = add(*parts)
    elif op == 'pow':
        a, b = n.args
        da, db = diff(a, v, memo), diff(b, v, memo)
        r = ZERO
        if da is not ZERO:
            r = add(r, mul(b, pow_(a, sub(b, ONE)), da))
        if db is not ZERO:
            r = add(r, mul(n, fn('log', a), db))
    elif op == 'fn':
        f = n.args[0]
        x = n.args[1]
        dx = diff(x, v, memo)
        tab = {
            'exp': lambda: n, 'log': lambda: pow_(x, MONE), 'sin': lambda: fn('cos', x),
            'cos': lambda: neg(fn('sin', x)), 'tan': lambda: add(ONE, pow_(n, num(2))),
            'sinh': lambda: fn('cosh', x), 'cosh': lambda: fn('sinh', x),
            'tanh': lambda: sub(ONE, pow_(n, num(2))),
            'arctan': lambda: pow_(add(ONE, pow_(x, num(2))), MONE),
            'log10': lambda: pow_(mul(x, fn('log', num(10))), MONE),
            'abs': lambda: fn('sign', x), 'sign': lambda: ZERO,
            'erf': lambda: mul(num(2), pow_(fn('pi'), num(Fraction(-1, 2))), fn('exp', neg(pow_(x, num(2))))),
            'erfc': lambda: mul(num(-2), pow_(fn('pi'), num(Fraction(-1, 2))), fn('exp', neg(pow_(x, num(2))))),
            'log1p': lambda: pow_(add(ONE, x), MONE), 'expm1': lambda: fn('exp', x),
            'j0': lambda: neg(fn('j1', x)), 'y0': lambda: neg(fn('y1', x)),
            'j1': lambda: sub(fn('j0', x), div(fn('j1', x), x)),
            'y1': lambda: sub(fn('y0', x), div(fn('y1', x), x)),
            'arcsin': lambda: pow_(sub(ONE, pow_(x, num(2))), num(Fraction(-1, 2))),
            'arccos': lambda: neg(pow_(sub(ONE, pow_(x, num(2))), num(Fraction(-1, 2)))),
            'arcsinh': lambda: pow_(add(ONE, pow_(x, num(2))), num(Fraction(-1, 2))),
        }
        if f in ('jn', 'yn') and len(n.args) == 3 and not contains(x, v):
            w = n.args[2]
            r = mul(sub(fn(f, sub(x, ONE), w), mul(div(x, w), n)), diff(w, v, memo))
        elif f in tab and len(n.args) == 2:
            r = mul(tab[f](), dx)
        else:
            r = unk('diff ' + str(f))
    elif op == 'ite':
        r = ite(n.args[0], diff(n.args[1], v, memo), diff(n.args[2], v, memo))
    elif op == 'sum':
        e, lo, hi, b = n.args
        r = mk_sum(e, lo, hi, diff(b, v, memo))
    elif op == 'integral' and n.args[0] is not v:
        e, lo, hi, b = n.args[:4]
        r = add(mul(subst(b, {e: hi}), diff(hi, v, memo)), neg(mul(subst(b, {e: lo}), diff(lo, v, memo))))
        db = diff(b, v, memo)
        if db is not ZERO:
            r = add(r, mk('integral', e, lo, hi, db, *n.args[4:]))
    else:
        r = unk('diff ' + op)
    memo[n.id] = r
    return r


# ---------------------------------------------------------------- eval

class Undecided(Exception):
    pass


class ZeroDiv(Undecided):
    pass


class Failure(Undecided):
    """the analysed code raises on the path being evaluated"""


def fail(reason):
    return mk('fail', reason)


def _rnd(key, lo=0.3, hi=1.9):
    h = hashlib.sha256(repr(key).encode()).digest()
    x = mpf(int.from_bytes(h[:24], 'big')) / (mpf(2) ** 192)
    return lo + (hi - lo) * x


def vkey(v):
    """hashable numeric key (values equal up to rounding share a key)"""
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, int):
        return '%d' % v
    if isinstance(v, mpc):
        if abs(v.imag) < mpf(10) ** (-35) * max(1, abs(v.real)):
            v = v.real
        else:
            return '%s|%s' % (mpmath.nstr(v.real, 22), mpmath.nstr(v.imag, 22))
    if abs(v) < mpf(10) ** -32:
        return '0'
    if v == int(v) and abs(v) < 10 ** 30:
        return '%d' % int(v)
    return mpmath.nstr(v, 22)


class Sample(object):
    """one random interpretation"""

    def __init__(self, seed=1, values=None, index=None, arrays=None, assign=None, truth_fn=None):
        self.seed = seed
        self.values = values or {}      # name -> number for sym
        self.index = index or {}        # Node idx -> int
        self.arrays = arrays or {}      # name -> callable(idxvals, ranges)->number
        self.assign = assign if assign is not None else {}
        self.trail = []                 # atoms in order of first use
        self.truth_fn = truth_fn        # callable(kind, diffvalue)->bool|None
        self.memo = {}
        self.ieee = False               # x/0 is infinite (only inside isnan)
        self.points = None              # override of the sample points of sums
        self.gates = None               # when a dict: gate node -> outcomes seen
        self.tune = {}                  # leaf name -> callable(value) (probing)

    # decision of a data condition
    def decide(self, key, n=2):
        if key not in self.assign:
            self.assign[key] = 0
            self.trail.append((key, n))
        return self.assign[key]


def evaluate(n, S):
    memo = S.memo
    r = memo.get(n.id)
    if r is not None:
        return r
    r = _ev(n, S)
    memo[n.id] = r
    return r


def _sumcount(v):
    return int(v)


def _ev(n, S):
    op = n.op
    if op == 'num':
        v = n.args[0]
        if v.denominator == 1:
            return int(v)
        return mpf(v.numerator) / v.denominator
    if op == 'sym':
        nm = n.args[0]
        if nm in S.values:
            return S.values[nm]
        v = _rnd((S.seed, 'sym', nm))
        return S.tune[nm](v, S, ()) if nm in S.tune else v
    if op == 'idx':
        if n in S.index:
            return S.index[n]
        h = int(hashlib.sha256(repr((S.seed, 'idx', n.args[0])).encode()).hexdigest()[:8], 16)
        return 20 + h % 400
    if op == 'size':
        if n.args[0] in S.values:
            return S.values[n.args[0]]
        h = int(hashlib.sha256(repr((S.seed, 'size', n.args[0])).encode()).hexdigest()[:8], 16)
        return 1000 + h % 100000
    if op == 'unk':
        raise Undecided(n.args[0])
    if op == 'fail':
        raise Failure(n.args[0])
    if op == 'add':
        r = 0
        for a in n.args:
            r = r + evaluate(a, S)
        return r
    if op == 'mul':
        r = 1
        for a in n.args:
            r = r * evaluate(a, S)
        return r
    if op == 'pow':
        a = evaluate(n.args[0], S)
        b = evaluate(n.args[1], S)
        if isinstance(b, int) and isinstance(a, int) and b >= 0 and abs(b) < 1000:
            return a ** b
        if a == 0:
            if isinstance(b, (int, mpf)) and b > 0:
                return 0
            if S.ieee and isinstance(b, (int, mpf)) and b < 0:
                return mpmath.inf
            raise ZeroDiv('zero division')
        return mpmath.power(mpmath.mpmathify(a), b)
    if op == 'fn':
        return _evfn(n, S)
    if op == 'ite':
        c = evalbool(n.args[0], S)
        return evaluate(n.args[1] if c else n.args[2], S)
    if op in BOOLOPS:
        return evalbool(n, S)
    if op == 'sum':
        e, lo, hi, body = n.args
        lo_v = evaluate(lo, S)
        hi_v = evaluate(hi, S)
        kb = vkey(hi_v - lo_v)
        tot = 0
        old = S.index.get(e)
        if S.points is not None:
            pts = S.points(lo_v, hi_v)
        else:
            pts = []
            for r in range(2):
                h = int(hashlib.sha256(repr((S.seed, 'e', kb, r)).encode()).hexdigest()[:6], 16)
                pts.append((lo_v + 3 + h % 700 + 5 * r, _rnd((S.seed, 'w', kb, r), 0.4, 1.6)))
        for ev, w in pts:
            S.index[e] = ev
            sub_memo = S.memo
            S.memo = {k: v for k, v in sub_memo.items() if False}
            # reuse values not depending on e
            S.memo = _ScopedMemo(sub_memo, e)
            tot = tot + w * evaluate(body, S)
            S.memo = sub_memo
        if old is None:
            S.index.pop(e, None)
        else:
            S.index[e] = old
        return tot
    if op == 'integral':
        v, lo, hi, body = n.args[:4]
        nm = v.args[0]
        brk = sorted([evaluate(x, S) for x in n.args[1:3]] + [evaluate(x, S) for x in n.args[4:]])
        sgn = 1 if evaluate(lo, S) <= evaluate(hi, S) else -1
        old, oldmemo = S.values.get(nm), S.memo

        def f(x):
            S.values[nm] = x
            S.memo = {}
            with mpmath.workdps(42):        # zero tests need the working precision
                return evaluate(body, S)
        try:
            with mpmath.workdps(20):
                r = mpmath.quad(f, brk, maxdegree=7)
        finally:
            S.memo = oldmemo
            if old is None:
                S.values.pop(nm, None)
            else:
                S.values[nm] = old
        return sgn * r
    if op == 'sel':
        name = n.args[0]
        ix = [evaluate(a, S) for a in n.args[1:]]
        f = S.arrays.get(name)
        if f is not None:
            v = f(S, n, ix)
            if v is not None:
                return v
        kx = tuple(vkey(i) for i in ix)
        v = _rnd((S.seed, 'sel', name, kx))
        return S.tune[name](v, S, kx) if name in S.tune else v
    if op == 'call':
        name = n.args[0]
        ix = [evaluate(a, S) if isinstance(a, Node) else a for a in n.args[1:]]
        if name in SIZECALLS:
            h = int(hashlib.sha256(repr((S.seed, 'sz', name, tuple(vkey(i) for i in ix))).encode()).hexdigest()[:8], 16)
            return 1000 + h % 100000
        return _rnd((S.seed, 'call', name, tuple(vkey(i) for i in ix)))
    if op == 'minv':
        k, i, j, es = n.args[0], n.args[1], n.args[2], n.args[3:]
        key = ('minv',) + tuple(x.id for x in es)
        M = S.memo.get(key)
        if M is None:
            try:
                M = mpmath.matrix(k, k)
                for q, x in enumerate(es):
                    M[q // k, q % k] = evaluate(x, S)
                M = M ** -1
            except ZeroDivisionError:
                raise Undecided('singular matrix')
            S.memo[key] = M
        return M[i, j]
    if op == 'max':
        return max(evaluate(n.args[0], S), evaluate(n.args[1], S))
    if op == 'min':
        return min(evaluate(n.args[0], S), evaluate(n.args[1], S))
    if op == 'floordiv':
        a, b = evaluate(n.args[0], S), evaluate(n.args[1], S)
        if isinstance(a, int) and isinstance(b, int) and b:
            return a // b
        return _rnd((S.seed, 'floordiv', vkey(a), vkey(b)))
    if op == 'mod':
        a, b = evaluate(n.args[0], S), evaluate(n.args[1], S)
        if isinstance(a, int) and isinstance(b, int) and b:
            return a % b
        return _rnd((S.seed, 'mod', vkey(a), vkey(b)))
    raise Undecided('op ' + op)


class _ScopedMemo(dict):
    """values of nodes not containing e are shared with the outer memo"""

    def __init__(self, outer, e):
        dict.__init__(self)
        self.outer = outer
        self.e = e

    def get(self, k, d=None):
        r = dict.get(self, k)
        if r is not None:
            return r
        return d


def _evfn(n, S):
    f = n.args[0]
    if f == 'pi':
        return mp.pi
    if f == 'e':
        return mp.e
    if f == 'imag_unit':
        return mpc(0, 1)
    a = [evaluate(x, S) for x in n.args[1:]]
    x = mpmath.mpmathify(a[0]) if a else None
    try:
        if f == 'exp':
            return mpmath.exp(x)
        if f == 'log':
            if x == 0:
                raise Undecided('log 0')
            return mpmath.log(x)
        if f == 'log10':
            return mpmath.log(x) / mpmath.log(10)
        if f == 'log2':
            return mpmath.log(x) / mpmath.log(2)
        if f == 'log1p':
            return mpmath.log(1 + x)
        if f == 'expm1':
            return mpmath.exp(x) - 1
        if f in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'erf', 'erfc'):
            return getattr(mpmath, f)(x)
        if f in ('arctan', 'arcsin', 'arccos', 'arcsinh', 'arccosh', 'arctanh'):
            return getattr(mpmath, f.replace('arc', 'a'))(x)
        if f == 'arctan2':
            return mpmath.atan2(x, a[1])
        if f in ('j0', 'j1', 'y0', 'y1'):
            return getattr(mpmath, 'bessel' + f[0])(int(f[1]), x)
        if f == 'jn':
            return mpmath.besselj(a[0], a[1])
        if f == 'yn':
            return mpmath.bessely(a[0], a[1])
        if f == 'gamma':
            return mpmath.gamma(x)
        if f == 'factorial':
            return mpmath.gamma(x + 1)
        if f in ('i0', 'i1', 'k0', 'k1'):
            return getattr(mpmath, 'bessel' + f[0])(int(f[1]), x)
        if f in ('floor', 'ceil'):
            return int(getattr(mpmath, f)(x.real if isinstance(x, mpc) else x))
        if f == 'real':
            return x.real
        if f == 'imag':
            return x.imag
        if f == 'radians':
            return x * mp.pi / 180
        if f == 'degrees':
            return x * 180 / mp.pi
        if f == 'hypot':
            return mpmath.hypot(x, a[1])
        if f == 'poch':
            return mpmath.rf(a[0], a[1])
        if f == 'abs':
            if isinstance(x, mpc):
                return abs(x)
            if n.isidx or all(z.op == 'num' for z in n.args[1:]):
                return abs(x)
            s = sign_of(x, S)
            return x * s
        if f == 'sign':
            return sign_of(x, S)
    except (ValueError, ZeroDivisionError, mpmath.libmp.libhyper.NoConvergence):
        raise Undecided('domain ' + f)
    # opaque function
    return _rnd((S.seed, 'fn', f, tuple(vkey(v) for v in a)))


def sign_of(d, S):
    """free trit for the sign of a data value"""
    if vkey(d) == '0':
        return 0
    if S.truth_fn is not None:
        r = S.truth_fn('sign', d)
        if r is not None:
            return r
    if isinstance(d, mpc):
        dd = d.real if d.real != 0 else d.imag
    else:
        dd = d
    flip = 1 if dd > 0 else -1
    k = ('sgn', vkey(d * flip))
    t = S.decide(k, 3)
    return (-1, 1, 0)[t] * flip


def evalbool(n, S):
    r = S.memo.get(('b', n.id))
    if r is not None:
        return r
    r = _evb(n, S)
    S.memo[('b', n.id)] = r
    return r


def _evb(n, S):
    if n is TRUE:
        return True
    if n is FALSE:
        return False
    op = n.op
    if op == 'not':
        return not evalbool(n.args[0], S)
    if op == 'and':
        # a conjunct that is false decides, whatever the others are
        why = None
        for a in n.args:
            try:
                if not evalbool(a, S):
                    return False
            except Undecided as ex:
                why = why or ex
        if why is not None:
            raise why
        return True
    if op in ('lt', 'le', 'eq'):
        try:
            a = evaluate(n.args[0], S)
            b = evaluate(n.args[1], S)
        except ZeroDiv:
            # array comparisons with inf / nan operands
            memo, old = S.memo, S.ieee
            S.memo, S.ieee = {}, True
            try:
                a = evaluate(n.args[0], S)
                b = evaluate(n.args[1], S)
            finally:
                S.memo, S.ieee = memo, old
            if isinstance(a, mpc) or isinstance(b, mpc):
                raise
            return bool(a < b if op == 'lt' else a <= b if op == 'le' else a == b)
        if n.args[0].isidx and n.args[1].isidx or (isinstance(a, int) and isinstance(b, int)):
            return a < b if op == 'lt' else (a <= b if op == 'le' else a == b)
        s = sign_of(a - b, S)
        r = s < 0 if op == 'lt' else (s <= 0 if op == 'le' else s == 0)
        if S.gates is not None:
            S.gates.setdefault(n, set()).add(r)
        return r
    if op == 'close':
        a = evaluate(n.args[0], S)
        b = evaluate(n.args[1], S)
        d = a - b
        if vkey(d) == '0':
            return True
        if S.truth_fn is not None:
            r = S.truth_fn('close', d)
            if r is not None:
                return r
        if isinstance(d, mpc):
            dd = d.real
        else:
            dd = d
        k = ('close', vkey(d if dd > 0 else -d))
        return bool(S.decide(k, 2))
    if op == 'isnan':
        memo, old = S.memo, S.ieee
        S.memo, S.ieee = {}, True
        try:
            v = evaluate(n.args[0], S)
        finally:
            S.memo, S.ieee = memo, old
        return bool(mpmath.isnan(v))
    if op == 'batom':
        name = n.args[0]
        ix = tuple(vkey(evaluate(a, S)) if isinstance(a, Node) else a for a in n.args[1:])
        return bool(S.decide(('batom', name, ix), 2))
    if op == 'ite':
        return evalbool(n.args[1] if evalbool(n.args[0], S) else n.args[2], S)
    if op == 'unk':
        raise Undecided(n.args[0])
    if op == 'fail':
        raise Failure(n.args[0])
    v = evaluate(n, S)
    if n.isidx or isinstance(v, int):
        return v != 0
    return sign_of(v, S) != 0


def near(a, b, tol=mpf(10) ** -10):
    a = mpmath.mpmathify(a)
    b = mpmath.mpmathify(b)
    return abs(a - b) <= tol * max(abs(a), abs(b), mpf(10) ** -20)


class Result(object):
    def __init__(self, verdict, detail='', cases=0, skipped=0):
        self.verdict = verdict      # 'equal' | 'different' | 'undecided'
        self.detail = detail
        self.cases = cases
        self.skipped = skipped


def equal(a, b, seeds=(1, 2), index=None, values=None, arrays=None, max_cases=600, truth_fn=None, tol=mpf(10) ** -10, where=None, assign0=None, points=None, probe=False):
    """Decide a == b for every assignment of the data conditions.

    'different' is reported only when the terms differ on some path for every
    seed tried (the difference is generic, not an accident of one sample)."""
    if a is b:
        return Result('equal', cases=1)
    if a.unk or b.unk:
        u = atoms(a, lambda n: n.op == 'unk') + atoms(b, lambda n: n.op == 'unk')
        # still try: the unknown may be on an unused path
        pass
    cases = skipped = 0
    verdict = 'equal'
    detail = ''
    for si, seed in enumerate(seeds):
        stack = [dict(assign0 or {})]
        seen_cases = 0
        while stack:
            assign = stack.pop()
            nfixed = len(assign)
            seen_cases += 1
            if seen_cases > max_cases:
                return Result('undecided', 'too many cases', cases, skipped)
            S = Sample(seed, values=dict(values(seed) if callable(values) else values or {}), index=dict(index or {}), arrays=arrays, assign=dict(assign), truth_fn=truth_fn)
            S.points = points
            ok = True
            try:
                va = evaluate(a, S)
                vb = evaluate(b, S)
            except Failure as ex:
                if not assign and not S.trail:
                    return Result('different', 'seed %s: the code raises: %s' % (seed, ex), cases, skipped)
                ok = False
                why = str(ex)
            except Undecided as ex:
                ok = False
                why = str(ex)
            # push alternatives for newly met atoms
            base = dict(assign)
            for key, nvals in S.trail:
                for v in range(1, nvals):
                    alt = dict(base)
                    alt[key] = v
                    stack.append(alt)
                base[key] = 0
            if not ok:
                skipped += 1
                detail = detail or why
                continue
            cases += 1
            if not near(va, vb, tol):
                return Result('different', 'seed %s, path %s: %s vs %s' % (
                    seed, {k: v for k, v in S.assign.items()}, mpmath.nstr(va, 12), mpmath.nstr(vb, 12)), cases, skipped)
    if cases == 0:
        return Result('undecided', detail, cases, skipped)
    if truth_fn is not None and probe:
        r = _probe(a, b, seeds, index, values, arrays, truth_fn, tol, points, assign0, probe)
        if r is not None:
            return r
    return Result('equal', detail, cases, skipped)


def _probe(a, b, seeds, index, values, arrays, truth_fn, tol, points, assign0, fixed):
    """Every value comparison met should be seen with both outcomes: leaves that the
    scenario leaves free are rescaled (or brought close to each other) to cross it."""
    fixed = set(fixed) if fixed is not True else set()
    fixed |= set(arrays or {})

    def run(seed, tune, gates):
        S = Sample(seed, values=dict(values(seed) if callable(values) else values or {}), index=dict(index or {}), arrays=arrays, assign=dict(assign0 or {}), truth_fn=truth_fn)
        S.points, S.gates, S.tune = points, gates, tune
        vals = set(S.values)
        try:
            return evaluate(a, S), evaluate(b, S), vals
        except Undecided:
            return None
    seen = {}
    for seed in seeds:
        r = run(seed, {}, seen)
    if r is None:
        return None
    fixed |= r[2]
    todo = [g for g in seen if len(seen[g]) == 1]
    for g in todo:
        if len(seen[g]) > 1:
            continue
        names = sorted({x.args[0] for x in atoms(g, lambda n: n.op in ('sym', 'sel'))} - fixed)
        tunes = []
        for nm in names[:6]:
            for sc in (mpf(10) ** -3, mpf(10) ** 3, mpf(10) ** -5, mpf(10) ** 5):
                tunes.append(({nm: lambda v, S, k, sc=sc: v * sc}, '%s scaled by %s' % (nm, mpmath.nstr(sc, 3))))
        for i, x in enumerate(names[:6]):
            for y in names[i + 1:6]:
                for d in (mpf('1e-3'), mpf('-1e-3'), mpf('1e-5'), mpf('-1e-5')):
                    tunes.append(({y: lambda v, S, k, x=x, d=d: _rnd((S.seed, 'sel', x, k) if k else (S.seed, 'sym', x)) * (1 + d)}, '%s close to %s' % (y, x)))
        for tune, what in tunes:
            gates = {}
            r = run(seeds[0], tune, gates)
            if r is None or g not in gates or gates[g] <= seen[g]:
                continue
            for k in gates:
                seen.setdefault(k, set()).update(gates[k])
            if not near(r[0], r[1], tol):
                return Result('different', 'seed %s, with %s: %s vs %s' % (seeds[0], what, mpmath.nstr(r[0], 12), mpmath.nstr(r[1], 12)), 1, 0)
            break
    return None


def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n)
    if depth == 0:
        return '…'
    op = n.op
    d = depth - 1
    if op == 'num':
        return str(n.args[0])
    if op in ('sym', 'idx', 'size'):
        return str(n.args[0])
    if op == 'add':
        return '(' + ' + '.join(show(a, d) for a in n.args) + ')'
    if op == 'mul':
        return '*'.join(show(a, d) for a in n.args)
    if op == 'pow':
        return '%s**%s' % (show(n.args[0], d), show(n.args[1], d))
    if op in ('fn', 'sel', 'call'):
        return '%s(%s)' % (n.args[0], ', '.join(show(a, d) for a in n.args[1:]))
    return '%s(%s)' % (op, ', '.join(show(a, d) if isinstance(a, Node) else repr(a) for a in n.args))
