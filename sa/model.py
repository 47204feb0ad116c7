"""Project model: parsed modules of /repo/geotecha (non-test), name tables,
import resolution, classes with MRO."""
import ast
import os
import hashlib
import warnings

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'geotecha'


class Module(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.src = src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, path)
        self.defs = {}      # top-level name -> list of nodes that bind it
        self.is_pkg = path.endswith('__init__.py')
        self._index(self.tree.body)

    def _bind(self, name, node):
        self.defs.setdefault(name, []).append(node)

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self._bind(st.name, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self._bind(a.asname or a.name.split('.')[0], ('import', a.name if a.asname else a.name.split('.')[0]))
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(st)
                for a in st.names:
                    self._bind(a.asname or a.name, ('from', base, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self._bind(n.id, st)
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(st.target, ast.Name):
                    self._bind(st.target.id, st)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                if isinstance(st, ast.If) and is_main_guard(st.test):
                    continue
                for h in getattr(st, 'handlers', []) or []:          # the try body wins over its fallbacks
                    self._index(h.body)
                for f in ('body', 'orelse', 'finalbody'):
                    self._index(getattr(st, f, []) or [])

    def resolve_from(self, st):
        if st.level:
            parts = self.name.split('.')
            if not self.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            return '.'.join(parts + ([st.module] if st.module else []))
        return st.module or ''


def is_main_guard(test):
    return (isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == '__name__')


class Project(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ('test', 'tests', '__pycache__', 'build', 'testing'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel = rel[:-1]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                self.modules['.'.join(rel)] = Module('.'.join(rel), p, src)

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.modules):
            h.update(self.modules[k].src.encode())
        return h.hexdigest()

    def resolve(self, modname, name, seen=None):
        """-> ('func', Module, node) | ('class', Module, node) | ('assign', Module, stmt) |
        ('module', Module) | ('ext', dotted) | None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        ds = m.defs.get(name)
        if not ds:
            sub = modname + '.' + name
            if sub in self.modules:
                return ('module', self.modules[sub])
            return None
        d = ds[-1]
        if isinstance(d, tuple):
            if d[0] == 'import':
                if d[1] in self.modules:
                    return ('module', self.modules[d[1]])
                return ('ext', d[1])
            base, nm = d[1], d[2]
            if base.split('.')[0] == PKG:
                if base in self.modules:
                    r = self.resolve(base, nm, seen)
                    if r is not None:
                        return r
                if base + '.' + nm in self.modules:
                    return ('module', self.modules[base + '.' + nm])
            return ('ext', base + '.' + nm)
        if isinstance(d, ast.FunctionDef):
            return ('func', m, d)
        if isinstance(d, ast.ClassDef):
            return ('class', m, d)
        return ('assign', m, d)

    def func(self, modname, qual):
        """AST of 'f' or 'C.m' (follows imports and inheritance); (Module, node, classnode|None)"""
        parts = qual.split('.')
        r = self.resolve(modname, parts[0])
        if r is None:
            return None
        if len(parts) == 1:
            return (r[1], r[2], None) if r[0] == 'func' else None
        if r[0] != 'class':
            return None
        for (m, c) in self.mro(r[1], r[2]):
            for st in c.body:
                if isinstance(st, ast.FunctionDef) and st.name == parts[1]:
                    return (m, st, c)
        return None

    def mro(self, m, c, seen=None):
        seen = seen if seen is not None else []
        if any(x[1] is c for x in seen):
            return seen
        seen.append((m, c))
        for b in c.bases:
            r = self.resolve_expr(m, b)
            if r and r[0] == 'class':
                self.mro(r[1], r[2], seen)
        return seen

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            if r[0] == 'module':
                return self.resolve(r[1].name, e.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
        return None

    def all_functions(self):
        """(Module, classnode|None, funcnode, qualname) for every top-level function and method"""
        for k in sorted(self.modules):
            m = self.modules[k]
            for st in m.tree.body:
                if isinstance(st, ast.FunctionDef):
                    yield m, None, st, st.name
                elif isinstance(st, ast.ClassDef):
                    for s2 in st.body:
                        if isinstance(s2, ast.FunctionDef):
                            yield m, st, s2, st.name + '.' + s2.name
