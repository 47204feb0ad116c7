"""Definite assignment of local names, path by path.

A state is a set of disjuncts (assigned names, facts); facts are truth values of conditions (canonical text) taken on the way and
values of names assigned literals, so that branches on the same condition are correlated.  Choices made for quietness: loops run at least once
(and a test of the loop variable against a literal is true in the first round), a loop left by break finds what it looks for, a chain of two or more comparisons with literals is exhaustive,
an exception handler sees everything its try body assigns, and when there are too many disjuncts they are joined by union.
"""
import ast

COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
LIMIT = 160
EXITS = ('exit', '_exit', 'abort', 'error', 'fail', 'skipTest')


def txt(e):
    return ast.unparse(e)


def atom(e):
    """(canonical text, polarity, names)"""
    pol = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, pol = e.operand, not pol
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1 and not e.keywords:
        k, p = atom(e.args[0])
        return k, p == pol
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        l, r, o = e.left, e.comparators[0], e.ops[0]
        if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            l, r, o = r, l, flip.get(type(o), type(o))()
        if isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(o, (ast.IsNot, ast.NotEq))
            if isinstance(r, ast.Constant):
                return ('eq', txt(l), repr(r.value)), pol != neg
            a, b = sorted((txt(l), txt(r)))
            return ('same', a, b), pol != neg
        if isinstance(o, (ast.In, ast.NotIn)):
            return ('in', txt(l), txt(r)), pol != isinstance(o, ast.NotIn)
        a, b = txt(l), txt(r)
        if isinstance(o, (ast.Gt, ast.LtE)):
            return ('gt', a, b), pol != isinstance(o, ast.LtE)
        if isinstance(o, (ast.Lt, ast.GtE)):
            return ('gt', b, a), pol != isinstance(o, ast.GtE)
    return ('true', txt(e)), pol


def words(key):
    out = set()
    for part in key[1:]:
        try:
            for n in ast.walk(ast.parse(part, mode='eval')):
                if isinstance(n, ast.Name):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute):
                    out.add('.' + n.attr)
        except SyntaxError:
            pass
    return out


class Paths(object):
    def __init__(self, node, local, params):
        self.node = node
        self.local = set(local)
        self.bad = {}
        self.start = {(frozenset(params), frozenset())}
        self.breaks, self.conts = [], []
        self.first = []
        self.wcache = {}
        self.uses = {}      # how often something is tested: facts about things tested once are of no use
        for n in ast.walk(node):
            for e in ([n.test] if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)) else [n.value] if isinstance(n, ast.Assign) else []):
                self.tally(e)

    def tally(self, e):
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.tally(x)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.tally(e.operand)
        elif isinstance(e, (ast.Compare, ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
            k = self.about(atom(e)[0])
            self.uses[k] = self.uses.get(k, 0) + 1

    def about(self, k):
        return k[1] if k[0] in ('eq', 'true') else ' '.join(sorted(x for x in k[1:] if not x.replace('.', '').isdigit())) if k[0] == 'gt' else k

    def run(self):
        self.block(self.node.body, self.start)
        return self.bad

    # ---- facts --------------------------------------------------------------------------------------------------------
    def words(self, k):
        if k not in self.wcache:
            self.wcache[k] = words(k)
        return self.wcache[k]

    def known(self, facts, k):
        d = dict(facts)
        if k in d:
            return d[k]
        if k[0] == 'eq':
            for q, v in facts:
                if v and q[0] == 'eq' and q[1] == k[1]:
                    return q[2] == k[2]
                if v and q[0] == 'true' and q[1] == k[1] and k[2] in ('None', 'False', '0', "''"):
                    return False
        if k[0] == 'gt':
            val = {q[1]: q[2] for q, v in facts if v and q[0] == 'eq'}
            try:
                return ast.literal_eval(val.get(k[1], k[1])) > ast.literal_eval(val.get(k[2], k[2]))
            except Exception:
                return None
        if k[0] == 'true':
            for q, v in facts:
                if v and q[0] == 'eq' and q[1] == k[1]:
                    try:
                        return bool(ast.literal_eval(q[2]))
                    except Exception:
                        return None
        return None

    def assume(self, st, e, val):
        """states in which e has the truth value val"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(st, e.operand, not val)
        if isinstance(e, ast.Constant):
            return st if bool(e.value) == val else set()
        if isinstance(e, ast.BoolOp):
            all_ = isinstance(e.op, ast.And) == val
            if all_:
                for x in e.values:
                    st = self.assume(st, x, val)
                return st
            out = set()
            for x in e.values:
                out |= self.assume(st, x, val)
                st = self.assume(st, x, not val)
            return self.limit(out)
        if isinstance(e, ast.NamedExpr):
            return self.assume(st, e.target, val)
        k, p = atom(e)
        want = val == p
        if want is False and k[0] == 'eq' and any(k[1] in q for q in self.first):
            return set()
        keep = self.uses.get(self.about(k), 0) > 1
        out = set()
        for a, f in st:
            kn = self.known(f, k)
            if kn is None:
                out.add((a, f | {(k, want)} if keep else f))
            elif kn == want:
                out.add((a, f))
        return out

    def limit(self, st):
        if len(st) > LIMIT:
            # forget the facts, then join by union
            st = {(a, frozenset()) for a, f in st}
            if len(st) > LIMIT:
                st = {(frozenset().union(*[a for a, f in st]), frozenset())}
        return st

    def assign(self, st, name):
        out = set()
        for a, f in st:
            out.add((a | {name} if not name.startswith('.') else a, frozenset(x for x in f if name not in self.words(x[0]))))
        return out

    def fact(self, st, k, v):
        return {(a, f | {(k, v)}) for a, f in st}

    # ---- expressions --------------------------------------------------------------------------------------------------
    def load(self, e, st):
        if e.id in self.local and e.id not in self.bad:
            for a, f in sorted(st, key=repr):
                if e.id not in a:
                    self.bad[e.id] = (e, f)
                    return

    def expr(self, e, st):
        if e is None:
            return st
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.load(e, st)
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.expr(e.value, st)
            return self.assign(st, e.target.id)
        if isinstance(e, ast.BoolOp):
            # later operands are evaluated only when the earlier ones allow it
            cur, full = st, st
            for x in e.values:
                cur = self.expr(x, cur)
                full = self.walrus(x, full)
                cur = self.assume(cur, x, isinstance(e.op, ast.And))
            return full
        if isinstance(e, ast.IfExp):
            st = self.expr(e.test, st)
            self.expr(e.body, self.assume(st, e.test, True))
            self.expr(e.orelse, self.assume(st, e.test, False))
            return self.walrus(e, st)
        if isinstance(e, COMPS):
            st = self.expr(e.generators[0].iter, st)
            return self.walrus(e, st)
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                st = self.expr(d, st)
            return st
        for c in ast.iter_child_nodes(e):
            st = self.expr(c, st)
        return st

    def walrus(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                st = self.assign(st, n.target.id)
        return st

    def store(self, t, st):
        if isinstance(t, ast.Name):
            return self.assign(st, t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.store(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.store(t.value, st)
        st = self.expr(t, st)
        if isinstance(t, ast.Attribute):
            return self.assign(st, '.' + t.attr)
        return st

    # ---- statements ---------------------------------------------------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if not st:
                return st
            st = self.limit(self.stmt(s, st))
        return st

    def literal_chain(self, s):
        """number of comparisons with literals in an if/elif chain without else"""
        n = 0
        while True:
            for x in ast.walk(s.test):
                if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.In, ast.Is)):
                    c = x.comparators[0]
                    if isinstance(c, (ast.Constant, ast.List, ast.Tuple, ast.Set)) or isinstance(x.left, ast.Constant):
                        n += 1
                        break
            if not s.orelse:
                return n
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s = s.orelse[0]
            else:
                return 0

    def if_(self, s, st, exhaustive=None):
        st = self.expr(s.test, st)
        if exhaustive is None:
            exhaustive = self.literal_chain(s) >= 2
        a = self.block(s.body, self.assume(st, s.test, True))
        rest = self.assume(st, s.test, False)
        if not s.orelse:
            b = set() if exhaustive else rest
        elif len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            b = self.if_(s.orelse[0], rest, exhaustive)
        else:
            b = self.block(s.orelse, rest)
        return a | b

    def loop(self, s, st):
        w = isinstance(s, ast.While)
        names = set()
        if not w:
            st = self.expr(s.iter, st)
            it = s.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'enumerate', 'zip', 'reversed', 'list'):
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
        forever = w and isinstance(s.test, ast.Constant) and bool(s.test.value)
        ends = set()
        for k in range(3):
            self.breaks.append(set())
            self.conts.append(set())
            self.first.append(names if k == 0 else set())
            if w:
                cur = self.assume(self.expr(s.test, st), s.test, True)
            else:
                cur = self.store(s.target, st)
            cur = self.block(s.body, cur)
            cur |= self.conts.pop()
            brk = self.breaks.pop()
            self.first.pop()
            ends |= brk
            st = self.limit(cur if k == 0 else st | cur)
            if not st:
                break
        if ends and not w and not s.orelse:
            return ends     # a search that ends with break is taken to find something
        if not forever:
            done = self.assume(st, s.test, False) if w else st
            ends = ends | self.block(s.orelse, done)
        return ends

    def stmt(self, s, st):
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                st = self.expr(c, st)
            return set()
        if isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1] |= st
            return set()
        if isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1] |= st
            return set()
        if isinstance(s, ast.Assert):
            st = self.expr(s.test, st)
            return self.assume(st, s.test, True)
        if isinstance(s, ast.Expr):
            st = self.expr(s.value, st)
            c = s.value
            if isinstance(c, ast.Call) and (getattr(c.func, 'attr', None) or getattr(c.func, 'id', None)) in EXITS + ('quit',):
                return set()
            return st
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.store(t, st)
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                if isinstance(s.value, ast.Constant):
                    st = self.fact(st, ('eq', txt(s.targets[0]), repr(s.value.value)), True)
                elif isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                    # a flag that holds a condition
                    n, e = s.targets[0], s.value
                    if not any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(e)):
                        y, z = self.assume(st, e, True), self.assume(st, e, False)
                        st = self.fact(y, ('true', n.id), True) | self.fact(z, ('true', n.id), False)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.load(s.target, st)
            st = self.expr(s.value, st)
            return self.store(s.target, st)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.store(s.target, self.expr(s.value, st))
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st = self.assign(st, a.asname or a.name.split('.')[0])
            return st
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.expr(d, st)
            return self.assign(st, s.name)
        if isinstance(s, ast.If):
            return self.if_(s, st)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            names = {n.id for q in s.body for n in ast.walk(q) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for q in s.body:
                for n in ast.walk(q):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        names |= {a.asname or a.name.split('.')[0] for a in n.names}
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        names.add(n.name)
            out = self.block(s.orelse, self.block(s.body, st))
            mid = st
            for n in names:
                mid = self.assign(mid, n)
            for h in s.handlers:
                b = self.expr(h.type, mid)
                if h.name:
                    b = self.assign(b, h.name)
                out |= self.block(h.body, b)
            if s.finalbody:
                out = self.block(s.finalbody, out or mid) if out else (self.block(s.finalbody, mid), set())[1]
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.store(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    st = self.expr(t, st)
            return st
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            out = set()
            for c in s.cases:
                b = st
                for n in ast.walk(c.pattern):
                    if getattr(n, 'name', None):
                        b = self.assign(b, n.name)
                out |= self.block(c.body, b)
            return out
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                st = self.expr(c, st)
        return st
