"""May-alias and in-place effect analysis: which functions change, through any alias, an object the caller handed in, a default value or a module-level object.

A value is a set of tags (kind, name, depth, sure): kind 'p' parameter, 'g' module-level object; depth 0 the object or a view of its buffer, 1 something held by it;
sure: known to be an array or container (so that augmented assignment changes it in place).  Calls within the package are followed with summaries to a fixpoint.
Rebinding a name to a computed value ends the alias (flow-sensitive, joined over branches, loops to a fixpoint)."""
import ast
import re

VIEW_FN = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'transpose', 'squeeze', 'broadcast_to', 'swapaxes', 'rollaxis', 'moveaxis', 'expand_dims', 'ascontiguousarray',
           'asfarray', 'asarray_chkfinite', 'asmatrix', 'diagonal', 'real', 'imag', 'flipud', 'fliplr', 'rot90', 'require', 'split', 'array_split', 'broadcast_arrays', 'nditer', 'asfortranarray', 'flip'}
VIEW_METHOD = {'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes', 'diagonal', '__iter__'}
VIEW_ATTR = {'T', 'flat', 'real', 'imag', 'base'}
HOLD_METHOD = {'get', 'values', 'items', 'setdefault', 'pop', 'popitem', '__getitem__'}
CHANGE_METHOD = {'append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'popitem', 'fill', 'resize', 'put', 'itemset', 'partition', 'discard', 'pop', '__setitem__', 'add',
                 'setflags', 'byteswap', 'setfield', 'appendleft', 'popleft', '__iadd__', '__delitem__', 'intersection_update', 'difference_update'}
CHANGE_FN = {'put', 'place', 'copyto', 'fill_diagonal', 'putmask', 'shuffle', 'put_along_axis', 'heappush', 'heappop', 'heapify', 'insort'}
ITER_FN = {'enumerate', 'zip', 'reversed', 'iter', 'filter', 'list', 'tuple', 'sorted', 'set', 'dict', 'izip', 'chain', 'islice', 'copy_dict', 'copy', 'cycle'}   # hold the elements of their arguments
SCALARS = re.compile(r'^\s*(float|int|bool|boolean|str|string|callable|function|true/false|scalar|complex|integer|number|\{|\()', re.I)
ARRAYS = re.compile(r'array|ndarray|list|sequence|vector|matrix|dict|\b[123]d\b|tuple of|iterable|like', re.I)
EMPTY = frozenset()
SETTINGS = {'numpy.seterr', 'numpy.set_printoptions', 'numpy.set_string_function', 'numpy.random.seed', 'random.seed', 'warnings.filterwarnings', 'warnings.simplefilter', 'numpy.seterrcall',
            'sys.setrecursionlimit', 'locale.setlocale', 'os.chdir', 'os.putenv', 'os.umask', 'numpy.setbufsize', 'warnings.resetwarnings', 'socket.setdefaulttimeout', 'sys.path.append', 'sys.path.insert',
            'os.environ.update', 'matplotlib.use'}
UNARY = {'abs', 'absolute', 'sqrt', 'exp', 'log', 'log10', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'negative', 'square', 'reciprocal', 'floor', 'ceil', 'sign'}
BINARY = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'maximum', 'minimum', 'dot'}
# changes that are documented: (function, parameter)
DOCUMENTED = {('shanks', 'seq'): 'the docstring says that an array is changed in place',
              ('shanks_table', 'table'): 'the docstring says that a table passed in is extended'}


def param_docs(fn):
    """parameter -> documented type"""
    doc = ast.get_docstring(fn) or ''
    out = {}
    m = re.search(r'^\s*(Other )?Parameters\s*\n\s*-+', doc, re.M)
    if not m:
        return out
    for l in doc[m.end():].split('\n'):
        q = re.match(r'^ {0,4}((?:\*{0,2}[A-Za-z_]\w*)(?: *, *\*{0,2}[A-Za-z_]\w*)*) *: *(.*)$', l)
        if q:
            for n in q.group(1).split(','):
                out.setdefault(n.strip(' *'), q.group(2))
    return out


def arrayish(typ):
    if typ is None:
        return None
    return 2 if re.search(r'arr|ndarray|vector|matrix|[123]d|like', typ, re.I) else 1 if ARRAYS.search(typ) else 0


class Fn(object):
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.qual = (cls.name + '.' if cls is not None else '') + node.name
        a = node.args
        self.params = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.static = any(isinstance(d, ast.Name) and d.id in ('staticmethod',) for d in node.decorator_list)
        self.selfname = self.params[0] if cls is not None and self.params and not self.static else None
        self.docs = param_docs(node)
        if node.name == '__init__' and cls is not None:
            d2 = param_docs(cls)
            for k, v in d2.items():
                self.docs.setdefault(k, v)
        self.settings = {}      # process-wide settings changed: name -> line
        self.changes = {}       # (kind, name) -> (line, how)
        self.returns = EMPTY

    def all_params(self):
        return self.params + self.kwonly + [x for x in (self.vararg, self.kwarg) if x]


class Analysis(object):
    def __init__(self, project):
        self.p = project
        self.fns = {}
        self.methods = {}
        for m in project.modules.values():
            for n in m.tree.body:
                self._collect(m, n)
        self.attr = {}          # (mod, class, attribute) -> tags of __init__ parameters
        self.sites = 0
        self.calls = 0
        self._inputs, self._start = {}, {}
        for _ in range(6):
            before = self._state()
            self.sites = self.calls = 0
            for f in self.fns.values():
                Walk(self, f).run()
            if self._state() == before:
                break

    def _state(self):
        return (sum(len(f.changes) for f in self.fns.values()), sum(len(f.returns) for f in self.fns.values()), sum(len(v) for v in self.attr.values()))

    def _collect(self, m, n, cls=None):
        if isinstance(n, ast.FunctionDef):
            f = Fn(m, n, cls)
            self.fns[(m.name, f.qual)] = f
            if cls is not None:
                self.methods.setdefault(n.name, []).append(f)
        elif isinstance(n, ast.ClassDef) and cls is None:
            for b in n.body:
                self._collect(m, b, n)
        elif isinstance(n, (ast.If, ast.Try)):
            for f in ('body', 'orelse', 'finalbody'):
                for b in getattr(n, f, []) or []:
                    self._collect(m, b, cls)

    def inputs(self, mod, cls):
        """names of the input attributes of an analysis class (self._attributes)"""
        key = (mod.name, cls.name)
        if key not in self._inputs:
            out = set()
            for (m, c) in self.p.mro(mod, cls):
                for n in ast.walk(c):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '_attributes' for t in n.targets):
                        for q in ast.walk(n.value):
                            if isinstance(q, ast.Constant) and isinstance(q.value, str):
                                out |= set(q.value.split())
            self._inputs[key] = out
        return self._inputs[key]

    def set_at_start(self, mod, cls):
        key = (mod.name, cls.name)
        if key not in self._start:
            out = set()
            for (m, c) in self.p.mro(mod, cls):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name in ('__init__', '_setup'):
                        for n in ast.walk(f):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and f.args.args and n.value.id == f.args.args[0].arg:
                                out.add(n.attr)
            self._start[key] = out
        return self._start[key]

    def find_method(self, mod, cls, name):
        for (m, c) in self.p.mro(mod, cls):
            f = self.fns.get((m.name, c.name + '.' + name))
            if f is not None:
                return f
        return None


class Walk(object):
    """one pass over a function"""

    def __init__(self, an, fn):
        self.an, self.fn = an, fn
        self.cls = fn.cls

    def run(self):
        env = {}
        f = self.fn
        used = {n.value.id for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)}
        for q in f.all_params():
            if q == f.selfname:
                continue
            ar = arrayish(f.docs.get(q))
            if ar is None:
                ar = 1 if q in used else 0
            env[q] = frozenset([('p', q, 0, ar)])
        self.globals_ = set()
        self.in_catch = 0
        self.local_ext = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] != 'geotecha':
                        self.local_ext[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split('.')[0] != 'geotecha':
                for a in n.names:
                    self.local_ext[a.asname or a.name] = n.module + '.' + a.name
        end = self.block(f.node.body, env)
        if f.node.name == '__init__' and f.cls is not None and end is not None:
            for q, v in end.items():
                if q.startswith('self.'):
                    key = (f.mod.name, f.cls.name, q[5:])
                    self.an.attr[key] = self.an.attr.get(key, EMPTY) | frozenset(('i', n, d, s) for (k, n, d, s) in v if k == 'p')

    # -------------------------------------------------------------- effects
    def change(self, tags, node, how, need_sure=False):
        self.an.sites += 1
        for (k, n, d, sure) in tags:
            if need_sure and not sure:
                continue
            if (self.fn.vararg == n or self.fn.kwarg == n) and d == 0:
                continue
            self.fn.changes.setdefault((k, n), (getattr(node, 'lineno', 0), how))

    def hit(self, tags, elements):
        """what an in-place change reaches: not what is inside a new container, and a slice only if it is of an array"""
        return frozenset(x for x in tags if x[2] < 2 or x[2] == 3 and elements and x[3] == 2)

    # -------------------------------------------------------------- values
    def view(self, tags, sure=2):
        return frozenset((k, n, d, max(sure, s)) for (k, n, d, s) in tags)

    def held(self, tags):
        return frozenset((k, n, 1, 0) for (k, n, d, s) in tags)

    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return EMPTY

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        return self.shared(self.an.p.resolve(self.fn.mod.name, e.id)) if e.id not in self.local_ext else EMPTY

    def shared(self, r):
        """module-level objects"""
        if r and r[0] == 'assign' and isinstance(r[2], ast.Assign):
            n = r[2]
            if isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        return frozenset([('g', r[1].name + '.' + t.id, 0, 0 if isinstance(n.value, ast.Call) else 1)])
        return EMPTY

    def ev_Attribute(self, e, env):
        if isinstance(e.value, ast.Name) and e.value.id == self.fn.selfname and e.value.id not in env:
            key = 'self.' + e.attr
            if key in env:
                return env[key]
            return self.self_attr(e.attr)
        if not (isinstance(e.value, ast.Name) and e.value.id in env):
            r = self.an.p.resolve_expr(self.fn.mod, e)
            if r and r[0] == 'assign':
                return self.shared(r)
            r = self.an.p.resolve_expr(self.fn.mod, e.value)
            if r and r[0] == 'class':
                return self.class_attr(r[1], r[2], e.attr)
        if isinstance(e.value, ast.Attribute) and e.value.attr == '__class__' and self.cls is not None or isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'type':
            if self.cls is not None:
                return self.class_attr(self.fn.mod, self.cls, e.attr)
        v = self.ev(e.value, env)
        if e.attr in VIEW_ATTR:
            return self.view(v)
        return self.held(v)

    def self_attr(self, a):
        out = set()
        for (m, c) in self.an.p.mro(self.fn.mod, self.cls):
            out |= self.an.attr.get((m.name, c.name, a), EMPTY)
        if a in self.an.inputs(self.fn.mod, self.cls):
            out.add(('s', a, 0, 2))
        elif a not in self.an.set_at_start(self.fn.mod, self.cls):
            out |= self.class_attr(self.fn.mod, self.cls, a)
        return frozenset(out)

    def class_attr(self, mod, cls, a):
        for (m, c) in self.an.p.mro(mod, cls):
            for b in c.body:
                if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in b.targets) \
                        and isinstance(b.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)):
                    return frozenset([('c', c.name + '.' + a, 0, 0 if isinstance(b.value, ast.Call) else 1)])
        return EMPTY

    def ev_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        if not v:
            return EMPTY
        s = e.slice
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        if any(isinstance(x, ast.Slice) for x in parts) or any(isinstance(x, ast.Constant) and (x.value is None or x.value is Ellipsis) for x in parts) \
                or any(isinstance(x, ast.Attribute) and x.attr == 'newaxis' for x in parts):
            # of an array a view; a plain slice of a list is a new list (3)
            plain = len(parts) == 1 and isinstance(s, ast.Slice)
            return frozenset((k, n, 3 if plain and d == 0 else d, s2) for (k, n, d, s2) in v)
        if isinstance(s, (ast.Compare, ast.List, ast.ListComp)) or isinstance(s, ast.UnaryOp) and isinstance(s.op, (ast.Not, ast.Invert)):
            return EMPTY
        return self.held(v)

    def ev_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def ev_BoolOp(self, e, env):
        out = EMPTY
        for x in e.values:
            out |= self.ev(x, env)
        return out

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def ev_Starred(self, e, env):
        return self.held(self.ev(e.value, env))

    def display(self, e, env):
        out = EMPTY
        for x in e.elts:
            out |= self.held(self.ev(x, env))
        return frozenset((k, n, 2, s) for (k, n, d, s) in out)   # a new container holding it
    ev_List = ev_Tuple = ev_Set = display

    def ev_Dict(self, e, env):
        out = EMPTY
        for x in e.values:
            out |= self.held(self.ev(x, env))
        return frozenset((k, n, 2, s) for (k, n, d, s) in out)

    def comp(self, e, env):
        env = dict(env)
        for g in e.generators:
            self.bind(g.target, self.iterate(g.iter, env), env, g.iter)
            for c in g.ifs:
                self.ev(c, env)
        r = EMPTY
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            r |= self.ev(x, env)
        return frozenset((k, n, 2, 0) for (k, n, d, s) in r)
    ev_ListComp = ev_SetComp = ev_GeneratorExp = ev_DictComp = comp

    def iterate(self, it, env):
        return self.held(self.ev(it, env))

    def ev_Lambda(self, e, env):
        env = dict(env)
        for x in e.args.args:
            env[x.arg] = EMPTY
        self.ev(e.body, env)
        return EMPTY

    # -------------------------------------------------------------- calls
    def ev_Call(self, e, env):
        self.an.calls += 1
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args)
        if 'out' in kws and kws['out']:
            self.change(kws['out'], e, 'out=')
        fn = e.func
        dn = self.dotted(fn)
        if dn in SETTINGS and not self.in_catch:
            self.fn.settings.setdefault(dn, e.lineno)
        if dn is not None and len(args) > 1 and dn.split('.')[0] == 'numpy':
            k = 1 if dn.split('.')[-1] in UNARY else 2 if dn.split('.')[-1] in BINARY else None
            if k is not None and len(args) > k:
                self.change(args[k], e, 'output argument')
        target, bound = self.callee(fn, env)
        if target is not None:
            return self.apply(target, bound, args, kws, e, star)
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        base_ext = self.ext_base(fn)
        if isinstance(fn, ast.Attribute) and not base_ext:
            v = self.ev(fn.value, env)
            if v and name in CHANGE_METHOD:
                self.change(self.hit(v, name in ('sort', 'fill', 'put', 'itemset', 'partition', 'setfield', 'byteswap')), e, '.%s()' % name)
            if name in VIEW_METHOD:
                return self.view(v)
            if name in HOLD_METHOD:
                return self.held(v)
            if name == 'append' or name == 'extend':
                return EMPTY
            return EMPTY
        if isinstance(fn, ast.Attribute):
            if name == 'at' and args and args[0] and isinstance(fn.value, ast.Attribute):
                self.change(args[0], e, 'ufunc.at')
            if name in CHANGE_FN and args:
                k = 1 if name == 'nothing' else 0
                self.change(args[k], e, name + '()')
        elif not isinstance(fn, ast.Name):
            self.ev(fn, env)
        elif name in CHANGE_FN and args:
            self.change(args[0], e, name + '()')
        if name in VIEW_FN and args and (base_ext or isinstance(fn, ast.Name)):
            return self.view(args[0])
        if name == 'array' and args:
            for k in e.keywords:
                if k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False:
                    return self.view(args[0])
            return EMPTY
        if name in ('getattr',) and args:
            return self.held(args[0])
        if name in ITER_FN and args and isinstance(fn, ast.Name):
            out = EMPTY
            for a in args:
                out |= a
            # a shallow copy: what it holds is still the caller's
            return frozenset((k, n, 2, 0) for (k, n, d, s) in out)
        return EMPTY

    def dotted(self, fn):
        parts = []
        b = fn
        while isinstance(b, ast.Attribute):
            parts.append(b.attr)
            b = b.value
        if not isinstance(b, ast.Name):
            return None
        if b.id in self.local_ext:
            return '.'.join([self.local_ext[b.id]] + parts[::-1])
        r = self.an.p.resolve_expr(self.fn.mod, fn)
        return r[1] if r and r[0] == 'ext' else None

    def ext_base(self, fn):
        """np.xxx, copy.xxx: function of an imported module"""
        b = fn
        while isinstance(b, ast.Attribute):
            b = b.value
        if not isinstance(b, ast.Name) or b is fn:
            return False
        if b.id in self.local_ext:
            return True
        r = self.an.p.resolve(self.fn.mod.name, b.id)
        return bool(r) and r[0] in ('ext', 'module')

    def callee(self, fn, env):
        p, mod = self.an.p, self.fn.mod
        if isinstance(fn, ast.Name) and fn.id not in env:
            r = p.resolve(mod.name, fn.id)
            if r and r[0] == 'func':
                return self.an.fns.get((r[1].name, r[2].name)), None
            if r and r[0] == 'class':
                return self.an.find_method(r[1], r[2], '__init__'), 'new'
            return None, None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == self.fn.selfname and self.cls is not None:
                f = self.an.find_method(mod, self.cls, fn.attr)
                if f is not None:
                    return f, 'self'
                return None, None
            r = p.resolve_expr(mod, fn) if not (isinstance(fn.value, ast.Name) and fn.value.id in env) else None
            if r and r[0] == 'func':
                f = self.an.fns.get((r[1].name, r[2].name))
                return f, None
            if r and r[0] == 'class':
                return self.an.find_method(r[1], r[2], '__init__'), 'new'
        return None, None

    def apply(self, f, bound, args, kws, e, star):
        if f is None:
            return EMPTY
        names = list(f.params)
        if bound in ('self', 'new') and f.selfname:
            names = names[1:]
        m = {}
        if not star:
            for n, a in zip(names, args):
                m[n] = a
            if f.vararg and len(args) > len(names):
                m[f.vararg] = frozenset().union(*args[len(names):]) if args[len(names):] else EMPTY
        for k, v in kws.items():
            if k in names or k in f.kwonly:
                m[k] = v
            elif f.kwarg:
                m[f.kwarg] = m.get(f.kwarg, EMPTY) | v
        for (k, n), (line, how) in f.changes.items():
            if k == 'p' and m.get(n):
                self.change(frozenset(x for x in m[n] if x[2] < 2 or x[2] == 3 and x[3] == 2), e, 'call of %s, which changes its %s (%s)' % (f.qual, n, how))
        if bound == 'new':
            return EMPTY
        out = set()
        for (k, n, d, s) in f.returns:
            if k == 'p':
                for (k2, n2, d2, s2) in m.get(n, EMPTY):
                    out.add((k2, n2, d2 if d == 0 else d if d2 == 0 else min(2, max(d, d2)), max(s, s2)))
            elif k in 'gc' or k == 's' and bound == 'self':
                out.add((k, n, d, s))
        return frozenset(out)

    # -------------------------------------------------------------- statements
    def bind(self, tg, v, env, value=None):
        if isinstance(tg, ast.Name):
            if tg.id in self.globals_:
                self.fn.changes.setdefault(('g', tg.id), (tg.lineno, 'global'))
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(tg.elts):
                vs = [self.ev(x, env) for x in value.elts]
                for x, w in zip(tg.elts, vs):
                    self.bind(x, w, env)
            else:
                el = frozenset((k, n, min(d, 1) if d < 2 else 1, s) for (k, n, d, s) in v)
                for x in tg.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, self.held(el), env)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env)
            self.ev(tg.slice, env)
            self.change(self.hit(b, True), tg, 'item assignment')
        elif isinstance(tg, ast.Attribute):
            if isinstance(tg.value, ast.Name) and tg.value.id == self.fn.selfname and tg.value.id not in env:
                if tg.attr in self.an.inputs(self.fn.mod, self.cls) and self.fn.node.name not in ('__init__', '_setup') and not any(x[:2] == ('s', tg.attr) and x[2] == 0 for x in v):
                    self.fn.changes.setdefault(('s', tg.attr), (tg.lineno, 'assigned another value'))
                env['self.' + tg.attr] = v
                return
            dn = self.dotted(tg)
            if dn is not None and dn.split('.')[0] in ('mpmath', 'numpy', 'scipy', 'sys', 'os', 'warnings', 'math', 'sympy'):
                self.fn.settings.setdefault(dn, tg.lineno)
            b = self.ev(tg.value, env)
            self.change(self.hit(b, False), tg, 'attribute assignment')
        elif isinstance(tg, ast.Starred):
            self.bind(tg.value, v, env)

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, EMPTY) | v
        return out

    def block(self, body, env):
        """-> env after it, None when control does not reach the end"""
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for tg in s.targets:
                self.bind(tg, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                v = self.ev(s.target, env)
                self.change(frozenset(x for x in v if x[2] == 0 or x[2] == 3 and x[3] == 2), s, 'augmented assignment', need_sure=True)
                if s.target.id in self.globals_:
                    self.fn.changes.setdefault(('g', s.target.id), (s.lineno, 'global'))
            elif isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == self.fn.selfname:
                v = self.ev(s.target, env)
                self.change(frozenset(x for x in v if x[2] == 0 or x[2] == 3 and x[3] == 2), s, 'augmented assignment', need_sure=True)
            else:
                self.bind(s.target, EMPTY, env)
        elif isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    self.change(self.hit(self.ev(tg.value, env), False), tg, 'del')
                elif isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.fn.returns |= self.ev(s.value, env)
            return None
        elif isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, env)
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a = self.block(s.body, self.narrow(s.test, True, dict(env)))
            b = self.block(s.orelse, self.narrow(s.test, False, dict(env)))
            return b if a is None else a if b is None else self.join(a, b)
        elif isinstance(s, (ast.For, ast.While)):
            out = dict(env)
            for _ in range(3):
                e2 = dict(out)
                if isinstance(s, ast.For):
                    self.bind(s.target, self.iterate(s.iter, e2), e2)
                else:
                    self.ev(s.test, e2)
                r = self.block(s.body, e2)
                n = self.join(out, r) if r is not None else self.join(out, e2)
                if n == out:
                    break
                out = n
            r = self.block(s.orelse, dict(out))
            return out if r is None else r
        elif isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            outs = []
            if a is not None:
                a = self.block(s.orelse, a)
                if a is not None:
                    outs.append(a)
            for h in s.handlers:
                r = self.block(h.body, self.join(env, a or {}))
                if r is not None:
                    outs.append(r)
            o = None
            for r in outs:
                o = r if o is None else self.join(o, r)
            f = self.block(s.finalbody, dict(o if o is not None else env))
            return None if o is None else f
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, EMPTY, env)
            catch = any(isinstance(it.context_expr, ast.Call) and self.dotted(it.context_expr.func) in ('warnings.catch_warnings', 'numpy.errstate', 'mpmath.workdps') for it in s.items)
            self.in_catch += catch
            r = self.block(s.body, env)
            self.in_catch -= catch
            return r
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e2 = dict(env)
            for x in s.args.args + s.args.kwonlyargs:
                e2[x.arg] = EMPTY
            keep = self.fn.returns
            self.block(s.body, e2)
            self.fn.returns = keep
            env[s.name] = EMPTY
        elif isinstance(s, ast.Global):
            self.globals_ |= set(s.names)
        elif isinstance(s, (ast.Break, ast.Continue)):
            return env
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        return env

    def narrow(self, test, yes, env):
        """x is None / not isinstance: nothing of the caller's to change"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, not yes, env)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)) == yes:
                env[test.left.id] = EMPTY
        return env
