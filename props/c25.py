"""Every reference resolves: names, module attributes, imports, attributes of objects of known class, call signatures, format strings"""
import ast
import builtins
import json
import os
import re
import string
import subprocess
import sys
from sa.assigned import Paths

TECHNIQUE = ('Scope analysis of every module, may-assignment dataflow of local names, class member tables, signature binding of every call whose target resolves inside the package, placeholder checking of every '
             'format string; references into other libraries are resolved against the installed libraries by introspection of the library (never of the analysed package).')
PYTHONS = ('/opt/venv/bin/python', sys.executable)

ORACLE = r'''
import sys, json, importlib, inspect, warnings, re
warnings.simplefilter('ignore')
import os
os.environ['MPLBACKEND'] = 'agg'
q = json.load(sys.stdin)
def find(path):
    parts = path.split('.')
    obj, k = None, 0
    for n in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:n]))
            k = n
            break
        except ImportError:
            if n == 1:
                return 'nomodule', None
        except Exception:
            return 'unknown', None
    for p in parts[k:]:
        try:
            obj = getattr(obj, p)
        except AttributeError:
            if inspect.isclass(obj):
                if '__getattr__' in dir(obj):
                    return 'unknown', None
                for c in obj.__mro__[:-1]:
                    if c.__module__ == 'builtins' or obj.__module__ == 'numpy':
                        continue
                    try:
                        if re.search(r'\b' + p + r'\b\s*(=|,|\b)', inspect.getsource(c)):
                            return 'unknown', None
                    except Exception:
                        return 'unknown', None
            return 'no', None
    return 'yes', obj
out = {}
for p in q['paths']:
    out[p] = find(p)[0]
calls = []
for p, npos, kws in q['calls']:
    r, o = find(p)
    res = 'unknown'
    if r == 'yes' and callable(o):
        try:
            s = inspect.signature(o)
            try:
                s.bind(*[None] * npos, **dict.fromkeys(kws))
                res = 'yes'
            except TypeError as e:
                res = 'no: %s' % e
        except (ValueError, TypeError):
            pass
        except Exception:
            pass
    calls.append(res)
json.dump({'paths': out, 'calls': calls}, sys.stdout)
'''

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'}
MODULE_EXTRA = {'__file__', '__name__', '__doc__', '__path__', '__package__', '__dict__', '__spec__', '__loader__'}
# calls whose result has a known class
RESULT = {
    'matplotlib.pyplot.figure': 'matplotlib.figure.Figure', 'matplotlib.pyplot.gcf': 'matplotlib.figure.Figure', 'matplotlib.pyplot.gca': 'matplotlib.axes.Axes',
    'matplotlib.pyplot.subplot': 'matplotlib.axes.Axes', 'matplotlib.pyplot.axes': 'matplotlib.axes.Axes', 'matplotlib.pyplot.legend': 'matplotlib.legend.Legend',
    'matplotlib.figure.Figure.add_subplot': 'matplotlib.axes.Axes', 'matplotlib.axes.Axes.legend': 'matplotlib.legend.Legend', 'matplotlib.axes.Axes.twinx': 'matplotlib.axes.Axes',
    'matplotlib.axes.Axes.twiny': 'matplotlib.axes.Axes', 'matplotlib.figure.Figure.gca': 'matplotlib.axes.Axes',
    'matplotlib.axes.Axes.get_legend': 'matplotlib.legend.Legend',
}
for _n in 'array asarray zeros ones empty full linspace logspace arange zeros_like ones_like empty_like atleast_1d atleast_2d diff cumsum ravel hstack vstack concatenate repeat append insert where_ outer loadtxt'.split():
    RESULT['numpy.' + _n] = 'numpy.ndarray'


class Mod(object):
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.names = {}          # module level name -> binding
        self.star = False
        self.dynamic = set()     # names injected by sympy.var


class Bind(object):
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


def main_guard(st):
    return isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == '__name__'


def imports(st, mod):
    """[(local name, dotted path it stands for, dotted path that must exist)]"""
    out = []
    if isinstance(st, ast.Import):
        for a in st.names:
            out.append((a.asname or a.name.split('.')[0], a.name if a.asname else a.name.split('.')[0], a.name))
    elif isinstance(st, ast.ImportFrom) and st.module != '__future__':
        base = st.module or ''
        if st.level:
            pk = mod.name.split('.')
            pk = pk[:len(pk) - st.level + (1 if mod.is_pkg else 0)]
            base = '.'.join(pk + ([base] if base else []))
        for a in st.names:
            if a.name == '*':
                out.append(('*', base, base))
            else:
                out.append((a.asname or a.name, base + '.' + a.name, base + '.' + a.name))
    return out


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            for y in targets(x):
                yield y
    elif isinstance(t, ast.Starred):
        for y in targets(t.value):
            yield y


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(node, skip_main=False):
    """nodes of this scope only: nested scopes are yielded, not entered"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        if skip_main and main_guard(n):
            continue
        yield n
        if isinstance(n, SCOPES):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            if isinstance(n, ast.ClassDef):
                stack.extend(n.bases)
            else:
                stack.extend(n.args.defaults)
                stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def arg_names(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


class Scope(object):
    def __init__(self, node, parent, mod, cls=None):
        self.node, self.parent, self.mod, self.cls = node, parent, mod, cls
        self.binds = {}
        self.globals = set()
        self.children = []
        self.types = {}

    @property
    def is_fn(self):
        return isinstance(self.node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))

    @property
    def label(self):
        n = getattr(self.node, 'name', '<lambda>' if isinstance(self.node, ast.Lambda) else '')
        p = self.parent.label if self.parent and not isinstance(self.parent.node, ast.Module) else ''
        return (p + '.' if p else '') + n

    def add(self, name, kind, val=None):
        if name in self.globals:
            root = self
            while root.parent:
                root = root.parent
            root.binds.setdefault(name, []).append(Bind(kind, val))
            return
        self.binds.setdefault(name, []).append(Bind(kind, val))

    def lookup(self, name):
        s, first = self, True
        while s is not None:
            if (first or not isinstance(s.node, ast.ClassDef)) and name in s.binds:
                return s, s.binds[name]
            first = False
            s = s.parent
        return None, None


class Package(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.mods = {}
        root = ctx.p.repo
        for d, ds, fs in os.walk(os.path.join(root, 'geotecha')):
            ds[:] = [x for x in ds if x not in ('test', '__pycache__')]
            for f in sorted(fs):
                if f.endswith('.py'):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.mods[name] = Mod(name, path, rel, open(path, encoding='utf-8', errors='replace').read())
        self.ext = set()
        for d, ds, fs in os.walk(os.path.join(root, 'geotecha')):
            for f in fs:
                if f.endswith(('.so', '.f95', '.pyd')):
                    self.ext.add(os.path.relpath(os.path.join(d, f), root).split('.')[0].replace(os.sep, '.'))
        self.classes = {}
        self.scopes = []
        for m in self.mods.values():
            m.scope = self.build(m.tree, None, m)
        self.subs = {}
        for c in self.classes.values():
            for b in self.bases(c):
                if b in self.classes:
                    self.subs.setdefault(b, []).append(c.qual)

    # -- scopes ---------------------------------------------------------------------------------------------------------
    def build(self, node, parent, mod, cls=None):
        sc = Scope(node, parent, mod, cls)
        self.scopes.append(sc)
        nodes = list(own(node, isinstance(node, ast.Module)))
        sc.nodes = nodes
        if sc.is_fn:
            a = node.args
            for k, n in enumerate(arg_names(a)):
                sc.add(n, 'param', k)
        for n in nodes:
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                sc.globals |= set(n.names)
        for n in nodes:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for loc, path, _ in imports(n, mod):
                    if loc == '*':
                        mod.star = mod.star or not self.star(sc, path)
                    else:
                        sc.add(loc, 'import', path)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        sc.add(t.id, 'assign', n.value)
                    else:
                        for x in targets(t):
                            sc.add(x, 'other')
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                for x in targets(n.target):
                    sc.add(x, 'other' if isinstance(n, ast.AugAssign) else 'assign', n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                for x in targets(n.target):
                    sc.add(x, 'other')
            elif isinstance(n, ast.comprehension):
                for x in targets(n.target):
                    sc.add(x, 'comp')
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in targets(i.optional_vars):
                            sc.add(x, 'other')
            elif isinstance(n, ast.ExceptHandler) and n.name:
                sc.add(n.name, 'other')
            elif isinstance(n, ast.NamedExpr):
                sc.add(n.target.id, 'other')
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                sc.add(n.name, 'other')
            elif isinstance(n, ast.Delete):
                pass
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                sc.add(n.name, 'func', n)
            elif isinstance(n, ast.ClassDef):
                sc.add(n.name, 'class', n)
            elif isinstance(n, ast.Call):
                f = n.func
                if ((isinstance(f, ast.Attribute) and f.attr == 'var') or (isinstance(f, ast.Name) and f.id == 'var')) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                    mod.dynamic |= set(re.findall(r'\w+', n.args[0].value))
                if isinstance(f, ast.Attribute) and f.attr == 'update' and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id in ('globals', 'locals', 'vars'):
                    mod.star = True
        for n in nodes:
            if isinstance(n, ast.ClassDef):
                c = self.build(n, sc, mod, n)
                n.qual = mod.name + '.' + c.label
                n.scope, n.mod = c, mod
                self.classes[n.qual] = n
                sc.children.append(c)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                n.scope = self.build(n, sc, mod, cls=node if isinstance(node, ast.ClassDef) else None)
                sc.children.append(n.scope)
        return sc

    def star(self, sc, path):
        return False

    # -- resolution -----------------------------------------------------------------------------------------------------
    def member(self, path):
        """dotted path -> ('mod'|'func'|'class'|'ext'|'value'|'missing'|'external', thing)"""
        if path in self.mods:
            return 'mod', self.mods[path]
        if path in self.ext:
            return 'ext', path
        top = path.split('.')[0]
        if top != 'geotecha':
            return 'external', path
        head, _, last = path.rpartition('.')
        if not head:
            return 'missing', path
        k, v = self.member(head)
        if k == 'mod':
            b = v.scope.binds.get(last)
            if b:
                return self.binding(b, v.scope)
            if last in v.dynamic or v.star or last in MODULE_EXTRA:
                return 'value', None
            return 'missing', path
        if k == 'class':
            return ('value', None)
        if k == 'external':
            return 'external', v + '.' + last
        if k == 'missing':
            return k, v
        return 'value', None

    def binding(self, bs, sc):
        if len(bs) == 1 or all(b.kind == 'import' for b in bs):
            b = bs[0] if len(bs) == 1 else bs[0]
            if b.kind == 'import':
                return self.member(b.val)
            if b.kind == 'func':
                return 'func', b.val
            if b.kind == 'class':
                return 'class', b.val
            if b.kind == 'assign' and isinstance(b.val, (ast.Name, ast.Attribute)) and len(bs) == 1 and not sc.is_fn:
                r = self.expr(b.val, sc)
                if r[0] in ('func', 'class', 'external'):
                    return r
        return 'value', None

    def expr(self, e, sc):
        if isinstance(e, ast.Name):
            s, b = sc.lookup(e.id)
            if b is None:
                return ('builtin', e.id) if e.id in BUILTINS else ('value', None)
            return self.binding(b, s)
        if isinstance(e, ast.Attribute):
            k, v = self.expr(e.value, sc)
            if k == 'mod':
                return self.member(v.name + '.' + e.attr)
            if k == 'external':
                return 'external', v + '.' + e.attr
            if k == 'class':
                f, open_ = self.find(v, e.attr)
                return ('func', f) if isinstance(f, ast.FunctionDef) else ('value', None)
            return 'value', None
        return 'value', None

    # -- classes --------------------------------------------------------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.bases:
            k, v = self.expr(b, c.scope.parent)
            out.append(v.qual if k == 'class' else v if k in ('external', 'builtin') else None)
        return out

    def mro(self, c, seen=None):
        seen = seen if seen is not None else []
        if c.qual not in [x.qual for x in seen]:
            seen.append(c)
            for b in self.bases(c):
                if b in self.classes:
                    self.mro(self.classes[b], seen)
        return seen

    def family(self, c):
        """the class, its bases and everything that inherits from it"""
        out = list(self.mro(c))
        todo = [c]
        while todo:
            x = todo.pop()
            for q in self.subs.get(x.qual, []):
                y = self.classes[q]
                if y not in out:
                    out += [z for z in self.mro(y) if z not in out]
                    todo.append(y)
        return out

    def externals(self, c):
        out = []
        for x in self.mro(c):
            for b in self.bases(x):
                if b is None:
                    out.append(None)
                elif b not in self.classes and b != 'object':
                    out.append(b)
        return out

    def find(self, c, name):
        for x in self.mro(c):
            b = x.scope.binds.get(name)
            if b:
                return (b[-1].val if b[-1].kind == 'func' else None), False
        return None, True

    def attrs(self, c):
        """names an instance may have; None when names are computed"""
        if hasattr(c, 'attr_table'):
            return c.attr_table
        out = set()
        for x in self.family(c):
            out |= set(x.scope.binds)
            for n in ast.walk(x):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    out.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and not getattr(n, 'doc', False):
                    if len(n.value) < 4000:
                        out |= set(re.findall(r'[A-Za-z_]\w*', n.value))
        c.attr_table = out
        return out


def docstrings(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body[0].value.doc = True


# ---- local names: may-assigned sets ---------------------------------------------------------------------------------------
class Unbound(object):
    """reports loads of local names at points no assignment can reach"""

    def __init__(self, sc):
        self.sc = sc
        self.locals = {n for n in sc.binds if n not in sc.globals} - {n for n, b in sc.binds.items() if all(x.kind in ('comp',) for x in b)}
        self.bad = []
        self.breaks = []

    def run(self):
        st = {n for n, b in self.sc.binds.items() if any(x.kind == 'param' for x in b)}
        self.block(self.sc.node.body, st)
        return self.bad

    def expr(self, e, st):
        """loads in evaluation order; returns the state after"""
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in st:
                self.bad.append(e)
            return
        if isinstance(e, ast.Lambda) or isinstance(e, COMPS):
            if isinstance(e, COMPS):
                self.expr(e.generators[0].iter, st)
                inner = {x for g in e.generators for x in targets(g.target)}
                for n in ast.walk(e):
                    if isinstance(n, ast.NamedExpr):
                        st.add(n.target.id)
                    if isinstance(n, ast.Lambda):
                        inner |= set(arg_names(n.args))
                st2 = st | inner
                for g in e.generators:
                    for c in g.ifs:
                        self.expr(c, st2)
                for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    self.expr(x, st2)
            else:
                for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                    self.expr(d, st)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            st.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, st)

    def store(self, t, st):
        if isinstance(t, ast.Name):
            st.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, st)
        else:
            self.expr(t, st)

    def block(self, body, st):
        """-> False when the end is not reached"""
        live = True
        for s in body:
            if not live:
                return False
            live = self.stmt(s, st)
        return live

    def merge(self, st, branches):
        """branches: [(state, live)]"""
        alive = [b for b, l in branches if l]
        if not alive:
            return False
        new = set().union(*alive)
        st.clear()
        st |= new
        return True

    def stmt(self, s, st):
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.breaks:
                self.breaks[-1] |= st
            return False
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.store(t, st)
            return True
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in st:
                self.bad.append(s.target)
            self.expr(s.value, st)
            self.store(s.target, st)
            return True
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            if s.value is not None:
                self.store(s.target, st)
            return True
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.add(a.asname or a.name.split('.')[0])
            return True
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, st)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    self.expr(d, st)
            st.add(s.name)
            return True
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            a, b = set(st), set(st)
            la, lb = self.block(s.body, a), self.block(s.orelse, b)
            if isinstance(s.test, ast.Constant):
                la, lb = (la, False) if s.test.value else (False, lb)
            return self.merge(st, [(a, la), (b, lb)])
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                pass
            else:
                self.expr(s.iter, st)
            # what the body may assign in an earlier round
            n = len(self.bad)
            probe = set(st)
            self.breaks.append(set())
            if not isinstance(s, ast.While):
                self.store(s.target, probe)
            la = self.block(s.body, probe)
            probe |= self.breaks.pop()
            # first-round loads that are unbound in every round are unbound: judge with the state after a round
            del self.bad[n:]
            st2 = set(st) | probe if (la or True) else set(st)
            if isinstance(s, ast.While):
                self.expr(s.test, st2)
            else:
                self.store(s.target, st2)
            self.breaks.append(set())
            self.block(s.body, st2)
            st |= st2 | self.breaks.pop()
            self.block(s.orelse, st)
            return True
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            before = set(st)
            a = set(st)
            la = self.block(s.body, a)
            mid = before | a | {x for q in s.body for n in ast.walk(q) for x in ([n.id] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else [])}
            outs = []
            if la:
                la = self.block(s.orelse, a)
            outs.append((a, la))
            for h in s.handlers:
                b = set(mid)
                self.expr(h.type, b)
                if h.name:
                    b.add(h.name)
                lb = self.block(h.body, b)
                outs.append((b, lb))
            live = self.merge(st, outs)
            if not live:
                st |= mid
            lf = self.block(s.finalbody, st)
            return live and lf
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            self.block(s.body, st)
            return True
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.expr(t, st)
            return True
        if isinstance(s, ast.Match):
            self.expr(s.subject, st)
            outs = [(set(st), True)]
            for c in s.cases:
                b = set(st)
                for n in ast.walk(c.pattern):
                    if getattr(n, 'name', None):
                        b.add(n.name)
                outs.append((b, self.block(c.body, b)))
            return self.merge(st, outs)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return True


# ---- format strings -------------------------------------------------------------------------------------------------------
def text(e, sc):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = text(e.left, sc), text(e.right, sc)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Name):
        s, b = sc.lookup(e.id)
        if b and len(b) == 1 and b[0].kind == 'assign' and b[0].val is not None and not isinstance(b[0].val, ast.Name):
            return text(b[0].val, s)
    return None


def format_fault(txt, call):
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    kws = {k.arg for k in call.keywords}
    auto = 0

    def fields(t):
        for lit, name, spec, conv in string.Formatter().parse(t):
            if name is not None:
                yield name
                for x in fields(spec or ''):
                    yield x
    try:
        fs = list(fields(txt))
    except ValueError as e:
        return str(e)
    for f in fs:
        head = re.match(r'[^.\[]*', f).group()
        if head == '':
            head = str(auto)
            auto += 1
        if head.isdigit():
            if not star and int(head) >= len(call.args):
                return 'placeholder {%s} has no argument (%d given)' % (head, len(call.args))
        elif not dstar and head not in kws:
            return 'placeholder {%s} has no argument' % head
    return None


def percent_fault(txt, right):
    convs = re.findall(r'%(\(\w*\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', txt)
    for _, w, p, c in convs:
        if c not in 'diouxXeEfFgGcrsa%':
            return 'unsupported conversion %%%s' % c
    convs = [c for c in convs if c[3] != '%']
    named = [c for c in convs if c[0]]
    if named:
        return None
    need = len(convs) + sum((w == '*') + (p == '*') for _, w, p, _ in convs)
    if isinstance(right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in right.elts):
        if len(right.elts) != need:
            return '%d conversions, %d values' % (need, len(right.elts))
    elif isinstance(right, (ast.Constant, ast.BinOp, ast.List, ast.JoinedStr)) and need != 1:
        return '%d conversions, 1 value' % need
    return None


# ---- the check ------------------------------------------------------------------------------------------------------------
def bind_fault(fn, call, bound):
    """does the call bind to the signature?"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nposonly = len(a.posonlyargs)
    required = pos[:len(pos) - len(a.defaults)]
    if bound:
        if not pos and not a.vararg:
            return 'takes no positional argument but is called on an object'
        required = required[1:] if required else required
        pos = pos[1:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(not isinstance(x, ast.Starred) for x in call.args)
    if n > len(pos) and not a.vararg:
        return 'takes %d positional argument(s), %d given' % (len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return 'got two values for %r' % k.arg
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'has no parameter %r' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        for r in required:
            if r not in given:
                return 'missing argument %r' % r
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in given:
                return 'missing keyword argument %r' % x.arg
    return None


def decorated(fn):
    return [d for d in fn.decorator_list if not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'))]


def kind_of(fn):
    for d in fn.decorator_list:
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
            return d.id
    return 'method'


LIT = {ast.List: 'builtins.list', ast.ListComp: 'builtins.list', ast.Dict: 'builtins.dict', ast.DictComp: 'builtins.dict', ast.Set: 'builtins.set', ast.SetComp: 'builtins.set', ast.JoinedStr: 'builtins.str', ast.Tuple: 'builtins.tuple'}


def cond(facts):
    fs = ['%s is %s' % (' == '.join(k[1:]) if k[0] in ('eq', 'same') else ' in '.join(k[1:]) if k[0] == 'in' else ' > '.join(k[1:]), v) for k, v in sorted(facts)]
    return ' (%s)' % '; '.join(fs[:4]) if fs else ''


class Checker(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = Package(ctx)
        for m in self.P.mods.values():
            docstrings(m.tree)
        self.paths, self.calls = {}, []
        self.n = {}
        self.faults = []

    def where(self, sc, n):
        return '%s:%s' % (sc.mod.rel, sc.label or '<module>')

    def hold(self, rule, k=1):
        self.n[rule] = self.n.get(rule, 0) + k

    def bad(self, rule, sc, n, msg):
        self.faults.append((rule, '%s line %d' % (self.where(sc, n), n.lineno), msg, self.where(sc, n)))

    def ext(self, path, rule, sc, n, guarded=False):
        self.paths.setdefault(path, []).append((rule, sc, n, guarded))

    def guarded_imports(self, m):
        out = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and n.handlers:
                for q in n.body + [x for h in n.handlers for x in h.body] + n.orelse:
                    for x in ast.walk(q):
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            out.add(x)
                        if isinstance(x, ast.Attribute):
                            out.add(x)
        return out

    # class of the value of an expression: ('class', node) | ('external', dotted) | None
    def type_of(self, e, sc, depth=0):
        if depth > 6 or e is None:
            return None
        P = self.P
        if isinstance(e, tuple(LIT)):
            return 'external', LIT[type(e)]
        if isinstance(e, ast.Constant):
            return ('external', 'builtins.str') if isinstance(e.value, str) else None
        if isinstance(e, ast.Name):
            s, b = sc.lookup(e.id)
            if not b or e.id in sc.globals:
                return None
            if b[0].kind == 'param' and b[0].val == 0 and len(b) == 1 and s.cls is not None and isinstance(s.node, ast.FunctionDef) and kind_of(s.node) in ('method', 'property') and not decorated(s.node):
                return 'class', s.cls
            ts = []
            for x in b:
                if x.kind != 'assign':
                    return None
                ts.append(self.type_of(x.val, s, depth + 1))
            if any(q is None or q != ts[0] for q in ts):
                return None
            return ts[0]
        if isinstance(e, ast.Call):
            k, v = P.expr(e.func, sc)
            if k == 'class':
                return 'class', v
            if k == 'external':
                r = RESULT.get(v)
            elif isinstance(e.func, ast.Attribute):
                o = self.type_of(e.func.value, sc, depth + 1)
                r = RESULT.get(o[1] + '.' + e.func.attr) if o and o[0] == 'external' else None
            else:
                r = None
            if r and any(q.arg in ('projection', 'polar', 'axes_class') or q.arg is None for q in e.keywords):
                return None
            if r == 'numpy.ndarray' and any(q.arg == 'dtype' for q in e.keywords) and False:
                return None
            return ('external', r) if r else None
        return None

    def run(self):
        P = self.P
        for m in P.mods.values():
            g = self.guarded_imports(m)
            for sc in [s for s in P.scopes if s.mod is m]:
                self.scope(sc, g)
        self.finish()

    def scope(self, sc, guarded):
        P, mod = self.P, sc.mod
        if isinstance(sc.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            u = Unbound(sc)
            seen = set()
            for e in u.run():
                if (e.id, e.lineno) not in seen:
                    seen.add((e.id, e.lineno))
                    self.bad('local names', sc, e, 'local name %r is read where no assignment can have reached' % e.id)
            self.hold('local names', len(u.locals))
            params = {n for n, b in sc.binds.items() if any(x.kind == 'param' for x in b)}
            p = Paths(sc.node, u.locals, params)
            for name, (e, facts) in sorted(p.run().items()):
                if (e.id, e.lineno) not in seen:
                    self.bad('assigned on every path', sc, e, 'local name %r may be read before it is assigned%s' % (name, cond(facts)))
            self.hold('assigned on every path', len(u.locals))
        for n in sc.nodes:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for loc, path, need in imports(n, mod):
                    k, v = P.member(need)
                    if k == 'missing':
                        if n not in guarded:
                            self.bad('imports', sc, n, '%r does not exist' % need)
                    elif k == 'external':
                        self.ext(need, 'imports', sc, n, n in guarded)
                    else:
                        self.hold('imports')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                s, b = sc.lookup(n.id)
                if b is None and n.id not in BUILTINS and n.id not in mod.dynamic and not mod.star:
                    if not (n.id in ('__class__',) and sc.cls is not None):
                        self.bad('names', sc, n, 'name %r is not defined' % n.id)
                else:
                    self.hold('names')
            elif isinstance(n, ast.Attribute):
                self.attribute(sc, n, n in guarded)
            if isinstance(n, ast.Call):
                self.call(sc, n)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                t = text(n.left, sc) if not isinstance(n.left, ast.Name) else None
                if t is not None:
                    f = percent_fault(t, n.right)
                    if f:
                        self.bad('format strings', sc, n, f)
                    else:
                        self.hold('format strings')

    def attribute(self, sc, n, guarded):
        P = self.P
        k, v = P.expr(n.value, sc)
        if not isinstance(n.ctx, ast.Load):
            return
        if k == 'mod':
            r, _ = P.member(v.name + '.' + n.attr)
            if r == 'missing':
                # a submodule is an attribute once it is imported somewhere
                self.bad('module attributes', sc, n, 'module %s has no %r' % (v.name, n.attr))
            else:
                self.hold('module attributes')
            return
        if k == 'external':
            self.ext(v + '.' + n.attr, 'library attributes', sc, n, guarded)
            return
        if k == 'class':
            return
        t = self.type_of(n.value, sc)
        if t is None:
            return
        if t[0] == 'external':
            self.ext(t[1] + '.' + n.attr, 'object attributes', sc, n, guarded)
            return
        c = t[1]
        if n.attr.startswith('__') or n.attr in P.attrs(c):
            self.hold('object attributes')
            return
        exts = P.externals(c)
        if None in exts:
            return
        if exts:
            for b in exts[:1]:
                self.ext((b if '.' in b else 'builtins.' + b) + '.' + n.attr, 'object attributes', sc, n, True)
            return
        # attributes given from outside the class: obj.attr = ... anywhere in the package, or setattr
        if n.attr in self.stores():
            self.hold('object attributes')
            return
        self.bad('object attributes', sc, n, 'no %s object has an attribute %r' % (c.name, n.attr))

    def stores(self):
        if not hasattr(self, '_stores'):
            out = set()
            for m in self.P.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        out.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
            self._stores = out
        return self._stores

    def call(self, sc, n):
        P = self.P
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format':
            t = text(f.value, sc)
            if t is not None:
                bad = format_fault(t, n)
                if bad:
                    self.bad('format strings', sc, n, bad)
                else:
                    self.hold('format strings')
        k, v = P.expr(f, sc)
        if k == 'func' and not decorated(v):
            bound = False
            par = v.scope.cls
            if par is not None and isinstance(f, ast.Attribute):
                kk, _ = P.expr(f.value, sc)
                bound = kind_of(v) == 'classmethod' or (kind_of(v) == 'method' and kk != 'class')
                if kind_of(v) == 'property':
                    return
            bad = bind_fault(v, n, bound)
            if bad:
                self.bad('calls', sc, n, '%s %s' % (v.name, bad))
            else:
                self.hold('calls')
            return
        if k == 'class':
            self.construct(sc, n, v)
            return
        if k == 'external':
            if not any(isinstance(x, ast.Starred) for x in n.args) and not any(q.arg is None for q in n.keywords):
                self.calls.append((v, len(n.args), [q.arg for q in n.keywords], sc, n))
            return
        if isinstance(f, ast.Attribute):
            if f.attr in ('add_subplot', 'subplot'):
                # the position is an integer, three integers or a SubplotSpec
                if len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                    self.bad('library calls', sc, n, "%s takes the integer %s, not the string '%s'" % (f.attr, n.args[0].value, n.args[0].value))
                else:
                    self.hold('library calls')
            t = self.type_of(f.value, sc)
            if t and t[0] == 'class':
                g, op = P.find(t[1], f.attr)
                if isinstance(g, ast.FunctionDef) and not decorated(g) and kind_of(g) != 'property':
                    # any override in a subclass may be the one that is called: judged only when none differs
                    fam = [x.scope.binds[f.attr][-1].val for x in P.family(t[1]) if f.attr in x.scope.binds and x.scope.binds[f.attr][-1].kind == 'func']
                    fs = [bind_fault(h, n, kind_of(h) != 'staticmethod') for h in fam]
                    if fs and all(fs):
                        self.bad('calls', sc, n, '%s.%s %s' % (t[1].name, f.attr, fs[0]))
                    else:
                        self.hold('calls')

    def construct(self, sc, n, c):
        P = self.P
        init, op = P.find(c, '__init__')
        new, _ = P.find(c, '__new__')
        if new is not None or P.externals(c):
            return
        if isinstance(init, ast.FunctionDef):
            bad = bind_fault(init, n, True)
        elif op:
            bad = 'takes no arguments' if n.args or n.keywords else None
        else:
            bad = None
        if bad:
            self.bad('calls', sc, n, '%s() %s' % (c.name, bad))
        else:
            self.hold('calls')

    def finish(self):
        q = {'paths': sorted(self.paths), 'calls': [[p, k, ks] for p, k, ks, _, _ in self.calls]}
        res = None
        for py in PYTHONS:
            if not os.path.exists(py):
                continue
            try:
                r = subprocess.run([py, '-W', 'ignore', '-c', ORACLE], input=json.dumps(q), capture_output=True, text=True, timeout=300, cwd='/')
                res = json.loads(r.stdout)
                break
            except Exception as e:
                self.ctx.count('library introspection failures')
        if res is None:
            self.ctx.undecided('library attributes', 'all', 'the installed libraries could not be inspected')
            return
        for p, uses in sorted(self.paths.items()):
            got = res['paths'][p]
            for rule, sc, n, guarded in uses:
                if got == 'no' or (got == 'nomodule' and rule == 'imports'):
                    if guarded:
                        self.hold(rule)
                    else:
                        self.bad(rule, sc, n, 'the installed library has no %r' % p)
                elif got == 'yes':
                    self.hold(rule)
                else:
                    self.hold('of unknown libraries')
        for (p, k, ks, sc, n), got in zip(self.calls, res['calls']):
            if got.startswith('no'):
                self.bad('library calls', sc, n, '%s: %s' % (p, got[4:]))
            elif got == 'yes':
                self.hold('library calls')


def check(ctx):
    c = Checker(ctx)
    c.run()
    for rule, k in sorted(c.n.items()):
        ctx.count(rule, k)
        ctx.ok(rule, 'all %s that resolve' % rule, '%d references' % k)
    done = set()
    for rule, construct, msg, where in c.faults:
        if (construct, msg) not in done:
            done.add((construct, msg))
            ctx.violation(rule, construct, msg, where)
    for m in c.P.mods.values():
        ctx.ok('modules', m.rel, 'analysed')
        if m.star:
            ctx.undecided('modules', m.rel, 'names are injected')
