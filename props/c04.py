"""text input: only whitelisted syntax is executed, and every part of the text is looked at before anything of it is executed"""
import ast
import re
import builtins
import numpy
from sa import terms as t
from sa.front import ClassV, ObjV, ExtV, FuncV, PyList, PyDict, OpenList, newkey
from sa.scal import Inst, Call
from sa.terms import Node, TRUE, FALSE

TECHNIQUE = ('Structural induction over programs: each visitor method of SyntaxChecker is abstracted on a node of every syntax class and every class of name (whitelisted, assigned, '
             'neither); the local decision is compared with the whitelist and every child node must be handed on. The whitelists are evaluated from the allow_* methods and '
             'compared with a list of constructs that give access to the system. Effect order of the loaders (parse, visit, compile, execute) is taken from their call sequence.')

MOD, CLS = 'geotecha.inputoutput.inputoutput', 'SyntaxChecker'
MODULES = {'ast': ast, 'builtins': builtins, '__builtin__': builtins, 'numpy': numpy}
ALLOW = ['ast', 'builtin', 'numpy', 'PolyLine']
BAD_NODES = {'Import', 'ImportFrom', 'ClassDef', 'alias', 'AsyncFunctionDef', 'Await', 'Exec', 'Nonlocal', 'Match', 'TypeAlias'}
BAD_NAMES = {'__import__', 'eval', 'exec', 'execfile', 'open', 'file', 'getattr', 'setattr', 'delattr', 'globals', 'vars', 'dir', 'reload', 'breakpoint', 'help', 'exit', 'quit',
             'memoryview', '__build_class__', '__loader__', '__builtins__', 'classmethod', 'staticmethod', 'property', 'object', 'os', 'sys', 'subprocess', 'importlib'}
BAD_ATTR = {'os', 'sys', 'subprocess', 'ctypeslib', 'f2py', 'distutils', 'testing', 'ctypes', 'func_globals', 'gi_frame', 'f_globals', 'f_locals', 'f_builtins', 'f_back', 'tb_frame', 'tb_next',
            'cr_frame', 'gi_code', 'mro', 'system', 'popen', 'open', 'eval', 'exec', 'importlib', 'builtins', 'lib', 'core', 'compat', 'ma', 'memmap', 'DataSource', 'random', 'linalg'}
BAD_ATTR -= {'random', 'linalg', 'ma'}          # harmless as such
NEED_NODES = ('Module Expr Assign AugAssign Call Name Load Store Attribute BinOp Add Sub Mult Div Pow UnaryOp USub List Tuple Dict Constant Subscript Slice For If IfExp Compare Lt Gt Eq ListComp '
              'comprehension BoolOp And Or Lambda arguments keyword').split()
NEED_NODES.remove('keyword')                     # the documented list excludes it
NEED_NAMES = 'abs len range float int max min sum round zip list tuple dict np numpy PolyLine'.split()
NEED_ATTR = 'array linspace arange zeros ones logspace pi sin cos exp log sqrt append x y'.split()


def h_dedent(I, args, kw, st, f):
    return args[0]


def h_hasattr(I, args, kw, st, f):
    o, a = args
    if isinstance(o, ExtV) and isinstance(a, str) and o.name in MODULES:
        return hasattr(MODULES[o.name], a)
    return I.np_hasattr(args, kw, st)


class Checker(object):
    """a SyntaxChecker and the nodes it was told to look at"""

    def __init__(self, ctx, allow=ALLOW, hooks=None, chatty=False):
        self.seen = []
        self.ctx = ctx
        H = {'textwrap.dedent': h_dedent, 'builtins.hasattr': h_hasattr, 'hasattr': h_hasattr,
             'ast.NodeVisitor.generic_visit': self.g_visit, 'sa.visit': self.visit, 'ast.iter_child_nodes': self.children, 'ast.iter_fields': self.fields,
             'ast.dump': lambda I, args, kw, st, f: 'dump'}
        H.update(hooks or {})
        self.o = o = Inst(ctx, MOD, CLS, args=[list(allow)], hooks=H, unroll=5000)
        self.d = d = dict(o.st.store[o.o.key])
        if not o.I.find_method(o.o.cls, 'visit'):
            d['visit'] = ExtV('sa.visit')
        if chatty:
            d['print_each_node'] = True
        o.st.store[o.o.key] = d

    # what the children of a node are, and what it means to look at them
    def kids(self, node):
        if not isinstance(node, ObjV):
            return []
        out = []
        for v in self.o.st.store[node.key].values():
            if isinstance(v, ObjV):
                out.append(v)
            elif isinstance(v, PyList):
                out += [x for x in self.o.st.store[v.key] if isinstance(x, ObjV)]
        return out

    def g_visit(self, I, args, kw, st, f):
        self.seen += self.kids(args[-1])
        return None

    def visit(self, I, args, kw, st, f):
        self.seen.append(args[-1])
        return None

    def children(self, I, args, kw, st, f):
        return I.new_list(st, self.kids(args[-1]))

    def fields(self, I, args, kw, st, f):
        return I.new_list(st, [I.new_list(st, [k, v], True) for k, v in st.store[args[-1].key].items() if k != '__obj__'])

    def node(self, kind_, **kw):
        c = ClassV(self.o.o.cls.mod, ast.parse('class %s: pass' % kind_).body[0])
        n = ObjV(newkey(), c)
        st = self.o.st
        st.store[n.key] = dict({k: self.o.I.new_list(st, v) if isinstance(v, list) else v for k, v in kw.items()}, __obj__=True)
        return n

    def typical(self, kind):
        """a node with something in each of its fields"""
        d = {}
        m = re.match(r'\w+\((.*)\)', (getattr(ast, kind).__doc__ or '').replace('\n', ' '))
        for x in (m.group(1).split(',') if m else []):
            q = x.split()
            if len(q) != 2:
                continue
            typ, name = q
            if typ.rstrip('*?') in ('identifier', 'string', 'int', 'constant'):
                d[name] = ['q'] if typ.endswith('*') else 'q'
            elif typ.endswith('*'):
                d[name] = [self.node('Name', id='eval', ctx=self.node('Load')), self.node('BinOp')]
            else:
                d[name] = self.node('Call')
        if not d:
            d = dict(body=[self.node('Name', id='eval', ctx=self.node('Load'))])
        return self.node(kind, **d)

    def sure(self, n):
        """a leaf that would be let through: an expression context, the reading of a listed function"""
        kind, d = n.cls.node.name, self.o.st.store[n.key]
        if kind in ('Load', 'Store'):
            return kind in (self.names('allowed_node_types') or ())
        return kind == 'Name' and isinstance(d.get('id'), str) and d['id'] in (self.names('allowed_functions') or ()) and isinstance(d.get('ctx'), ObjV) and d['ctx'].cls.node.name == 'Load'

    def method(self, kind):
        return 'visit_' + kind if self.o.I.find_method(self.o.o.cls, 'visit_' + kind) else 'generic_visit'

    def look(self, n):
        self.seen = []
        return self.o.call(self.method(n.cls.node.name), n)

    def names(self, attr):
        v = self.o.st.store[self.o.o.key].get(attr)
        if isinstance(v, (PyList, PyDict)):
            x = self.o.st.store[v.key]
            if not isinstance(x, OpenList) and all(isinstance(q, str) for q in x):
                return set(x)
        return None


def refused(c):
    return [r[0] for r in c.raised]


def decide(ctx, rule, label, ck, n, want, msg):
    """the decision about one node; whatever is let through has all its parts looked at"""
    c = ck.look(n)
    r = refused(c)
    if any(x is TRUE or t.isnum(x) and x for x in r) or r and all(x.op == 'batom' and x.args[0] is True for x in r):
        got = True
    elif not r:
        got = False
    else:
        return ctx.undecided(rule, label, 'refusal depends on %s' % t.show(t.or_(*r))[:80])
    if c.I.gave_up:
        return ctx.undecided(rule, label, 'the interpretation of %s is incomplete' % c.name)
    if got != want:
        return ctx.violation(rule, label, msg + (' is refused' if got else ' is let through'), c.where)
    ctx.ok(rule, label)
    ctx.count('decisions about nodes')
    if not got:
        miss = [k for k in ck.kids(n) if not any(k is q for q in ck.seen) and not ck.sure(k)]
        lab = label + ': parts'
        if miss:
            return ctx.violation('parts', lab, 'the %s in %s is not looked at' % (miss[0].cls.node.name, msg), c.where)
        ctx.ok('parts', lab)


def classes():
    return sorted({k for k, v in vars(ast).items() if isinstance(v, type) and issubclass(v, ast.AST)})


def whitelists(ctx):
    ck = Checker(ctx)
    W = {k: ck.names(k) for k in ('allowed_node_types', 'allowed_functions', 'allowed_attributes', 'safe_names')}
    for k, v in W.items():
        if v is None:
            ctx.undecided('whitelists', k, 'contents not derived')
            return None
    where = ck.o.where
    for k, bad, need in (('allowed_node_types', BAD_NODES, NEED_NODES), ('allowed_functions', BAD_NAMES, NEED_NAMES), ('allowed_attributes', BAD_ATTR, NEED_ATTR), ('safe_names', BAD_NAMES, ('True', 'False', 'None'))):
        for n in sorted(W[k]):
            b = n in bad or n.startswith('_')
            if b:
                ctx.violation('whitelists', '%s: %s' % (k, n), '%s is on the list %s' % (n, k), where)
            else:
                ctx.ok('whitelists', '%s: %s' % (k, n))
        for n in need:
            if n in W[k]:
                ctx.ok('usable', '%s: %s' % (k, n))
            else:
                ctx.violation('usable', '%s: %s' % (k, n), '%s is missing from %s' % (n, k), where)
    # nothing is allowed that was not asked for
    for sub in ([], ['ast'], ['builtin'], ['numpy'], ['PolyLine'], ['ast', 'builtin']):
        c2 = Checker(ctx, sub)
        part = {'allowed_node_types': 'ast' in sub, 'allowed_functions': any(q in sub for q in ('builtin', 'numpy', 'PolyLine')), 'allowed_attributes': any(q in sub for q in ('builtin', 'numpy', 'PolyLine'))}
        for k, want in part.items():
            g = c2.names(k)
            lab = '%s with %s' % (k, sub)
            if g is None:
                ctx.undecided('whitelists', lab, 'contents not derived')
            elif bool(g) != want or not g <= W[k]:
                ctx.violation('whitelists', lab, '%s allowed' % (sorted(g - W[k])[:3] or sorted(g)[:3]), c2.o.where)
            else:
                ctx.ok('whitelists', lab)
    return W


def nodes(ctx, W, allow, chatty):
    lab = 'allow=%s%s' % (','.join(allow), ', printing' if chatty else '')
    full = list(allow) == ALLOW

    def new():
        return Checker(ctx, allow, chatty=chatty)
    ck = new()
    T, Fn, At = (ck.names(k) for k in ('allowed_node_types', 'allowed_functions', 'allowed_attributes'))
    if T is None or Fn is None or At is None:
        return ctx.undecided('nodes', lab, 'contents of the lists not derived')
    for k in classes():
        if k in ('Name', 'Attribute', 'Call'):
            continue
        n = ck.typical(k)
        decide(ctx, 'nodes', '%s: %s' % (lab, k), ck, n, k not in T, 'a node of type %s' % k)
    some = lambda S, T=(): sorted(S - set(T))
    strange = sorted(BAD_NAMES | {'zzz', '_x', '__class__'} | (set(NEED_NAMES) if not full else set()))
    for q in strange:
        if q in Fn or q in At or q in ('True', 'False', 'None'):
            continue
        decide(ctx, 'names', '%s: %s' % (lab, q), ck, ck.node('Name', id=q, ctx=ck.node('Load')), True, 'the name %s' % q)
        decide(ctx, 'calls', '%s: %s' % (lab, q), ck, ck.node('Call', func=ck.node('Name', id=q, ctx=ck.node('Load')), args=[ck.node('Name')], keywords=[]), True, 'a call of %s' % q)
    for q in some(Fn):
        decide(ctx, 'names', '%s: %s' % (lab, q), ck, ck.node('Name', id=q, ctx=ck.node('Load')), False, 'the name %s' % q)
        decide(ctx, 'calls', '%s: %s' % (lab, q), ck, ck.node('Call', func=ck.node('Name', id=q, ctx=ck.node('Load')), args=[ck.node('Name'), ck.node('Call')], keywords=[ck.node('keyword', value=ck.node('Call')), ck.node('keyword')]), False, 'a call of %s' % q)
    for q in ('True', 'False', 'None'):
        decide(ctx, 'names', '%s: %s' % (lab, q), ck, ck.node('Name', id=q, ctx=ck.node('Load')), False, 'the name %s' % q)
    for q in sorted(BAD_ATTR | BAD_NAMES | {'zzz', '__class__', '__base__', '__subclasses__', '__globals__', '__dict__', '_x', 'save_to'}):
        if q not in At and q not in Fn:
            decide(ctx, 'attributes', '%s: %s' % (lab, q), ck, ck.node('Attribute', attr=q, value=ck.node('Name'), ctx=ck.node('Load')), True, 'the attribute %s' % q)
    for q in some(At):
        decide(ctx, 'attributes', '%s: %s' % (lab, q), ck, ck.node('Attribute', attr=q, value=ck.node('Name'), ctx=ck.node('Load')), False, 'the attribute %s' % q)
    for kind in ('Attribute', 'Subscript', 'Call', 'Lambda'):
        decide(ctx, 'calls', '%s: of a %s' % (lab, kind), ck, ck.node('Call', func=ck.node(kind), args=[ck.node('Name')], keywords=[ck.node('keyword', value=ck.node('Call'))]), False, 'a call of an expression')
    # assigned names: may be read, are neither functions nor attributes
    for q in ('zzz', '__class__', '__subclasses__', 'eval', 'os'):
        ck = new()
        decide(ctx, 'names', '%s: assignment to %s' % (lab, q), ck, ck.node('Name', id=q, ctx=ck.node('Store')), False, 'an assignment to %s' % q)
        decide(ctx, 'names', '%s: assigned %s' % (lab, q), ck, ck.node('Name', id=q, ctx=ck.node('Load')), False, 'the assigned name %s' % q)
        decide(ctx, 'names', '%s: other than assigned %s' % (lab, q), ck, ck.node('Name', id='yyy', ctx=ck.node('Load')), True, 'a name that was not assigned')
        decide(ctx, 'calls', '%s: assigned %s' % (lab, q), ck, ck.node('Call', func=ck.node('Name', id=q, ctx=ck.node('Load')), args=[], keywords=[]), True, 'a call of the assigned name %s' % q)
        decide(ctx, 'attributes', '%s: after an assignment to %s' % (lab, q), ck, ck.node('Attribute', attr=q, value=ck.node('Name'), ctx=ck.node('Load')), True, 'the attribute %s after an assignment to the name %s' % (q, q))


class Log(object):
    """the steps of a loader"""

    def __init__(self):
        self.ev = []

    def step(self, name, give=None):
        def h(I, args, kw, st, f):
            self.ev.append((name, args, kw))
            if callable(give):
                return give(I, args, kw, st, f)
            return give
        return h


def loader(ctx, with_checker, visit_raises=False):
    L = Log()
    tree, code, text = ExtV('sa.tree'), ExtV('sa.code'), t.sym('text')
    H = {}
    for n in ('exec', 'builtins.exec', 'eval', 'builtins.eval'):
        H[n] = L.step('exec')
    for n in ('compile', 'builtins.compile'):
        H[n] = L.step('compile', code)
    H['ast.parse'] = L.step('parse', tree)
    space = {}

    def newmod(I, args, kw, st, f):
        L.ev.append(('module', args, kw))
        o = ExtV('sa.module')
        return o
    for n in ('imp.new_module', 'types.ModuleType'):
        H[n] = newmod
    return L, H, tree, code, text


def make_module(ctx):
    f = ctx.p.func(MOD, 'make_module_from_text')
    if f is None:
        ctx.undecided('order', 'make_module_from_text', 'not found')
        return
    where = '%s:make_module_from_text' % f[0].rel
    for case in ('no checker', 'checker', 'not a checker', 'class instead of checker'):
        L, H, tree, code, text = loader(ctx, True)
        ck = Checker(ctx, hooks=H)
        o = ck.o
        o.I.hooks['sa.visit'] = L.step('visit')
        o.I.hooks['%s.%s.visit' % (MOD, CLS)] = L.step('visit')
        o.I.hooks['sa.module.__dict__.update'] = L.step('names')
        arg = {'no checker': None, 'checker': o.o, 'not a checker': 'checker', 'class instead of checker': o.o.cls}[case]
        I, st = o.I, o.st
        I.raised = []
        r = I.run(lambda: I.call(FuncV(f[0], f[1]), [text, arg], {}, st))
        yield case, L, I, st, r, tree, code, text, o, where


def order(ctx):
    for case, L, I, st, r, tree, code, text, o, where in make_module(ctx):
        ev = [e[0] for e in L.ev]
        ctx.count('loader paths')
        if case == 'no checker':
            x = [e for e in L.ev if e[0] == 'exec']
            if len(x) == 1 and x[0][1][0] is text:
                ctx.ok('order', case)
            else:
                ctx.violation('order', case, 'without a checker the text is executed as it is; steps %s' % ev, where)
            continue
        if case in ('not a checker', 'class instead of checker'):
            if any(c is TRUE or c.op == 'batom' and c.args[0] is True for c, *_ in I.raised) and 'exec' not in ev:
                ctx.ok('order', case)
            elif not I.raised and 'exec' in ev:
                ctx.violation('order', case, 'text is executed although the checker is not a SyntaxChecker', where)
            else:
                ctx.undecided('order', case, 'steps %s' % ev)
            continue
        P, V, C, X = ([k for k, e in enumerate(L.ev) if e[0] == n] for n in ('parse', 'visit', 'compile', 'exec'))
        if not X:
            ctx.violation('order', case, 'the text is not executed: %s' % ev, where)
            continue
        for x in X:
            e = L.ev[x]
            a = e[1][0]
            vis = [k for k in V if k < x and L.ev[k][1] and L.ev[k][1][-1] is tree]
            if not vis:
                ctx.violation('order', case, 'text is executed before it is checked: %s' % ev, where)
            elif a is not tree and not (a is code and any(L.ev[k][1][0] is tree for k in C if k < x)):
                ctx.violation('order', case, 'what is executed is not what was checked', where)
            elif not any(L.ev[k][1][0] is text for k in P):
                ctx.violation('order', case, 'what is checked is not the text', where)
            else:
                ctx.ok('order', case)
            ns = e[1][1] if len(e[1]) > 1 else None
            lab = case + ': names'
            N = [q for q in L.ev if q[0] == 'names']
            ok = any(isinstance(q[1][0], PyDict) and q[1][0] is o.st.store[o.o.key].get('allowed_functions') for q in N if q[1])
            if ns is None:
                ctx.violation('order', lab, 'the text is executed among the names of the loader', where)
            elif ok and isinstance(ns, ExtV) and ns.name.startswith('sa.module'):
                ctx.ok('order', lab)
            else:
                ctx.undecided('order', lab, 'names the text is executed with not derived')
        if isinstance(r, ExtV) and r.name == 'sa.module':
            ctx.ok('order', case + ': result')
        else:
            ctx.undecided('order', case + ': result', 'not the module')


def program(ctx):
    """programs with input text read it with all four parts of the whitelist and nothing else"""
    L = Log()
    T = t.sym('text')
    seen = []

    def h(I, args, kw, st, f):
        names = 'reader syntax_checker'.split()
        a = dict(zip(names, args))
        a.update(kw)
        ck = a.get('syntax_checker')
        what = None
        if isinstance(ck, ObjV) and ck.cls.node.name == CLS:
            d = st.store[ck.key]
            what = {k: set(st.store[d[k].key]) if isinstance(d.get(k), (PyList, PyDict)) else None for k in ('allowed_node_types', 'allowed_functions', 'allowed_attributes')}
        seen.append((a.get('reader'), ck, what))
        return ExtV('sa.module')
    H = {'textwrap.dedent': h_dedent, 'builtins.hasattr': h_hasattr, 'hasattr': h_hasattr, MOD + '.make_module_from_text': h}
    for n in ('exec', 'builtins.exec', 'eval', 'builtins.eval'):
        H[n] = L.step('exec')
    want = Checker(ctx)
    want = {k: want.names(k) for k in ('allowed_node_types', 'allowed_functions', 'allowed_attributes')}
    r = ctx.p.resolve(MOD, 'InputFileLoaderCheckerSaver')
    where = '%s:InputFileLoaderCheckerSaver' % r[1].rel
    for mod, cls in PROGRAMS:
        for lab, reader in (('text', 'a = 4\n'), ('file', ExtV('sa.file'))):
            del seen[:], L.ev[:]
            H['sa.file.read'] = lambda I, args, kw, st, f: T
            o = Inst(ctx, mod, cls, kw={'reader': reader}, hooks=H, unroll=5000)
            lab = '%s from %s' % (cls, lab)
            ctx.count('loader paths')
            if len(seen) != 1:
                if not seen:
                    ctx.undecided('programs', lab, 'how the text is read is not derived')
                else:
                    ctx.violation('programs', lab, 'the text is read %d times' % len(seen), where)
                continue
            rd, ck, what = seen[0]
            if ck is None or L.ev:
                ctx.violation('programs', lab, 'the text is executed without a checker', where)
            elif what is None or None in what.values():
                ctx.undecided('programs', lab, 'checker not derived')
            elif what != want:
                d = [(k, sorted(what[k] ^ want[k])[:3]) for k in want if what[k] != want[k]]
                ctx.violation('programs', lab, 'the checker of the program differs from the documented one: %s' % d, where)
            elif reader != rd and rd is not T:
                ctx.violation('programs', lab, 'the text read is not the input', where)
            else:
                ctx.ok('programs', lab)


PROGRAMS = [('geotecha.speccon.speccon1d_vr', 'Speccon1dVR'), ('geotecha.speccon.speccon1d_vrw', 'Speccon1dVRW'), ('geotecha.speccon.speccon1d_vrc', 'Speccon1dVRC'),
            ('geotecha.speccon.speccon1d_unsat', 'Speccon1dUnsat'), ('geotecha.consolidation.schiffmanandstein1970', 'SchiffmanAndStein1970'),
            ('geotecha.consolidation.nogamiandli2003', 'NogamiAndLi2003')]


def check(ctx):
    ctx.rule('whitelists', 'no listed node type, name or attribute gives access to files, modules, attributes by name or code execution; only what was asked for is listed')
    ctx.rule('usable', 'the constructs input files are written in are listed')
    ctx.rule('nodes', 'a node is refused iff its type is not listed')
    ctx.rule('names', 'a name that is read is refused iff it is neither listed nor assigned before')
    ctx.rule('calls', 'a call by name is refused iff the name is not a listed function')
    ctx.rule('attributes', 'an attribute is refused iff it is not listed, whatever names the text assigns')
    ctx.rule('parts', 'every part of a node that is let through is looked at')
    ctx.rule('order', 'text is parsed, looked at, compiled and executed in this order, and what is executed is what was looked at')
    ctx.rule('programs', 'programs read input text with the documented checker')
    ctx.assumptions += ['what listed numpy functions do with files (load, save, fromfile) is allowed by the documentation and not judged',
                        'which names exist in ast, builtins and numpy is taken from the installed Python of the checks']
    W = whitelists(ctx)
    if W is None:
        return
    ctx.parallel([lambda: nodes(ctx, W, ALLOW, False), lambda: nodes(ctx, W, ALLOW, True), lambda: nodes(ctx, W, [], False), lambda: nodes(ctx, W, ['ast'], False),
                  lambda: order(ctx), lambda: program(ctx)])
