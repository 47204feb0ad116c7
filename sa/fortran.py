"""Free-form Fortran subset -> Python AST, so that a Fortran kernel and the
Python kernel it replaces are turned into value graphs by the same interpreter.

Numeric kinds are kept: integer/integer division truncates, default-real
literals are rounded to single precision before they meet double precision.
"""
import ast
import re
import struct
from fractions import Fraction


class Unsupported(Exception):
    pass


def logical_lines(text):
    out = []
    cur = ''
    start = 0
    for n, raw in enumerate(text.split('\n'), 1):
        line = strip_comment(raw)
        if not line.strip():
            continue
        s = line.strip()
        if cur:
            if s.startswith('&'):
                s = s[1:]
                cur += s
            else:
                cur += s if not (cur and cur[-1:].isspace()) else s
        else:
            cur = s
            start = n
        if cur.endswith('&'):
            # Names and numbers may not be split across lines without a leading
            # '&'; the generated code does split between tokens only.
            cur = cur[:-1] + ' '
            if cur.rstrip().endswith('*') and not cur.rstrip().endswith('**'):
                cur = cur.rstrip()
            continue
        out.append((start, cur))
        cur = ''
    if cur:
        out.append((start, cur))
    return out


def strip_comment(l):
    q = None
    for i, c in enumerate(l):
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '!':
            return l[:i].rstrip()
    return l.rstrip()


TOK = re.compile(r"""\s*(?:
  (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[dDeE][+-]?\d+)?(?:_\w+)?)
 |(?P<name>[A-Za-z_]\w*)
 |(?P<dot>\.(?:and|or|not|true|false|eq|ne|lt|le|gt|ge|eqv|neqv)\.)
 |(?P<str>'[^']*'|"[^"]*")
 |(?P<op>\*\*|==|/=|<=|>=|=>|::|//|[-+*/(),<>=:%])
)""", re.X | re.I)

# "1.and." style ambiguity does not occur in this code base
DOTOPS = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}


def tokenize(s):
    out = []
    i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Unsupported('token at %r' % s[i:i + 20])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == 'name' or k == 'dot':
            v = v.lower()
        if k == 'dot' and v in DOTOPS:
            k, v = 'op', DOTOPS[v]
        if k == 'op' and v == '*' and out and out[-1] == ('op', '*'):
            out[-1] = ('op', '**')      # '**' split over a continuation
            continue
        out.append((k, v))
    return out


INTRINSIC = {
    'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sqrt': 'sqrt', 'abs': 'abs',
    'dabs': 'abs', 'dexp': 'exp', 'dlog': 'log', 'dlog10': 'log10', 'dsqrt': 'sqrt', 'dsin': 'sin', 'dcos': 'cos',
    'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos',
    'max': 'max', 'min': 'min', 'sum': 'sum', 'size': 'len', 'maxval': 'max', 'minval': 'min',
}
INT_INTR = {'int': 'int', 'floor': 'floor', 'nint': 'round'}
CMP = {'==': ast.Eq, '/=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE}


def N(name):
    return ast.Name(id=name, ctx=ast.Load())


def C(v):
    return ast.Constant(value=v)


def single(v):
    return struct.unpack('f', struct.pack('f', v))[0]


class Unit(object):
    """one subroutine/function"""

    def __init__(self, kind, name, args, line, result=None):
        self.kind, self.name, self.args, self.line, self.result = kind, name, args, line, result
        self.types = {}      # name -> 'i' | 'r8' | 'r4' | 'c' | 'l' | 's'
        self.dims = {}       # name -> [(lower ast or None, upper ast or None)]
        self.intent = {}
        self.params = {}     # PARAMETER initialisers
        self.body = []
        self.uses = []
        self.host = None     # containing module


class ModuleUnit(object):
    def __init__(self, name):
        self.name = name
        self.types, self.dims, self.params = {}, {}, {}
        self.uses = []
        self.units = {}


class Parser(object):
    def __init__(self, text):
        self.lines = logical_lines(text)
        self.i = 0
        self.modules = {}
        self.units = {}
        self.errors = {}
        self.parse()

    # ---------------------------------------------------- program structure
    def parse(self):
        mod = None
        while self.i < len(self.lines):
            n, l = self.lines[self.i]
            low = l.lower()
            m = re.match(r'module\s+(\w+)\s*$', low)
            if m and m.group(1) != 'procedure':
                mod = ModuleUnit(m.group(1))
                self.modules[mod.name] = mod
                self.i += 1
                continue
            if re.match(r'end\s*module', low):
                mod = None
                self.i += 1
                continue
            h = self.header(low)
            if h:
                u = Unit(h[0], h[1], h[2], n, h[3])
                u.host = mod
                if h[4]:
                    u.types[u.result or u.name] = h[4]
                self.i += 1
                self.unit(u)
                self.units[u.name] = u
                if mod:
                    mod.units[u.name] = u
                continue
            if mod is not None:
                m = re.match(r'use\s+(\w+)', low)
                if m:
                    mod.uses.append(m.group(1))
                else:
                    self.decl(l, mod)
            self.i += 1

    def header(self, low):
        m = re.match(r'(?:recursive\s+|pure\s+|elemental\s+)*subroutine\s+(\w+)\s*(?:\((.*)\))?\s*$', low)
        if m:
            return ('sub', m.group(1), [a.strip() for a in (m.group(2) or '').split(',') if a.strip()], None, None)
        m = re.match(r'(?:recursive\s+|pure\s+|elemental\s+)*((?:real|integer|logical|complex|double\s+precision)\s*(?:\([^)]*\))?)?\s*function\s+(\w+)\s*\(([^)]*)\)\s*(?:result\s*\(\s*(\w+)\s*\))?\s*$', low)
        if m:
            return ('func', m.group(2), [a.strip() for a in m.group(3).split(',') if a.strip()], m.group(4) or m.group(2), self.typ(m.group(1)) if m.group(1) else None)
        return None

    def typ(self, s):
        s = s.replace(' ', '').lower()
        if s.startswith('integer'):
            return 'i'
        if s.startswith('logical'):
            return 'l'
        if s.startswith('character'):
            return 's'
        if s.startswith('complex'):
            return 'c'
        if s.startswith('doubleprecision'):
            return 'r8'
        if s.startswith('real'):
            return 'r8' if '(' in s else 'r4'
        return None

    def decl(self, l, u):
        low = l.lower()
        if not re.match(r'(real|integer|logical|complex|character|double\s+precision)\b', low):
            return False
        if '::' in low:
            left, right = l.split('::', 1)
        else:
            m = re.match(r'(real|integer|logical|complex|character|double\s+precision)\s*(\([^)]*\))?', l, re.I)
            left, right = l[:m.end()], l[m.end():]
        ty = self.typ(re.match(r'(real|integer|logical|complex|character|double\s+precision)\s*(\([^)]*\))?', left, re.I).group(0))
        mdim = re.search(r'dimension\s*\(', left, re.I)
        dims = None
        if mdim:
            dims = self.dimlist(bal(left, mdim.end() - 1))
        mi = re.search(r'intent\s*\(\s*(\w+)\s*\)', left, re.I)
        isparam = re.search(r'\bparameter\b', left, re.I)
        for item in split_top(right):
            m = re.match(r'\s*(\w+)\s*(\()?', item)
            name = m.group(1).lower()
            u.types[name] = ty
            if m.group(2):
                u.dims[name] = self.dimlist(bal(item, m.end() - 1))
            elif dims is not None:
                u.dims[name] = dims
            if mi and isinstance(u, Unit):
                u.intent[name] = mi.group(1).lower()
            if '=' in item and isparam:
                u.params[name] = item.split('=', 1)[1].strip()
        return True

    def dimlist(self, s):
        out = []
        for d in split_top(s):
            d = d.strip()
            if d == ':':
                out.append((None, None))
            elif ':' in d:
                a, b = d.split(':', 1)
                out.append((a.strip() or None, b.strip() or None))
            else:
                out.append(('1', d))
        return out

    def unit(self, u):
        u.raw = []
        depth = 0
        while self.i < len(self.lines):
            n, l = self.lines[self.i]
            low = l.lower()
            if re.match(r'end\s*(subroutine|function)\b', low) or low.strip() == 'end':
                self.i += 1
                return
            self.i += 1
            if re.match(r'implicit\b', low):
                continue
            m = re.match(r'use\s+(\w+)', low)
            if m:
                u.uses.append(m.group(1))
                continue
            if not u.raw and self.decl(l, u):
                continue
            u.raw.append((n, l))


def bal(s, i):
    """text inside the parenthesis opening at s[i]"""
    d = 0
    for j in range(i, len(s)):
        if s[j] == '(':
            d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0:
                return s[i + 1:j]
    raise Unsupported('unbalanced')


def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([':
            d += 1
        elif c in ')]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


class Translator(object):
    """Unit -> ast.FunctionDef.

    Module variables become attributes of `self` (a stateful object) when the
    unit lives in a module; out arguments are returned."""

    def __init__(self, parser, unit, selfname='self'):
        self.p, self.u = parser, unit
        self.selfname = selfname
        self.hostvars = {}
        self.consts = {}
        mods = []

        def addmod(mn):
            m = parser.modules.get(mn)
            if m is None or m in mods:
                return
            mods.append(m)
            for x in m.uses:
                addmod(x)
        if unit.host is not None:
            addmod(unit.host.name)
        for x in unit.uses:
            addmod(x)
        for m in mods:
            for k in m.types:
                if k in m.params:
                    self.consts.setdefault(k, (m.params[k], m.types[k]))
                else:
                    self.hostvars.setdefault(k, (m.types[k], m.dims.get(k)))
        for k in list(unit.params):
            self.consts[k] = (unit.params[k], unit.types[k])

    # ------------------------------------------------ expressions -> (ast, kind)
    def expr(self, text):
        self.toks = tokenize(text)
        self.k = 0
        e = self.p_or()
        if self.k != len(self.toks):
            raise Unsupported('trailing tokens in %r' % text[:60])
        return e

    def peek(self):
        return self.toks[self.k] if self.k < len(self.toks) else (None, None)

    def take(self, v=None):
        t = self.peek()
        if v is not None and t[1] != v:
            raise Unsupported('expected %r got %r' % (v, t[1]))
        self.k += 1
        return t

    def p_or(self):
        a = self.p_and()
        while self.peek()[1] == '.or.':
            self.take()
            b = self.p_and()
            a = (ast.BoolOp(op=ast.Or(), values=[a[0], b[0]]), 'l')
        return a

    def p_and(self):
        a = self.p_not()
        while self.peek()[1] == '.and.':
            self.take()
            b = self.p_not()
            a = (ast.BoolOp(op=ast.And(), values=[a[0], b[0]]), 'l')
        return a

    def p_not(self):
        if self.peek()[1] == '.not.':
            self.take()
            a = self.p_not()
            return (ast.UnaryOp(op=ast.Not(), operand=a[0]), 'l')
        return self.p_cmp()

    def p_cmp(self):
        a = self.p_add()
        if self.peek()[1] in CMP and self.peek()[0] == 'op':
            op = self.take()[1]
            b = self.p_add()
            a = (ast.Compare(left=a[0], ops=[CMP[op]()], comparators=[b[0]]), 'l')
        return a

    def p_add(self):
        if self.peek()[1] in ('-', '+'):
            op = self.take()[1]
            a = self.p_mul()
            if op == '-':
                a = (ast.UnaryOp(op=ast.USub(), operand=a[0]), a[1])
        else:
            a = self.p_mul()
        while self.peek()[1] in ('+', '-') and self.peek()[0] == 'op':
            op = self.take()[1]
            b = self.p_mul()
            a = self.arith(ast.Add() if op == '+' else ast.Sub(), a, b)
        return a

    def p_mul(self):
        a = self.p_pow()
        while self.peek()[1] in ('*', '/') and self.peek()[0] == 'op':
            op = self.take()[1]
            b = self.p_pow()
            if op == '/' and a[1] == 'i' and b[1] == 'i':
                a = (ast.BinOp(left=a[0], op=ast.FloorDiv(), right=b[0]), 'i')
            else:
                a = self.arith(ast.Mult() if op == '*' else ast.Div(), a, b)
        return a

    def p_pow(self):
        a = self.p_prim()
        if self.peek()[1] == '**':
            self.take()
            if self.peek()[1] in ('-', '+'):
                s = self.take()[1]
                b = self.p_pow()
                if s == '-':
                    b = (ast.UnaryOp(op=ast.USub(), operand=b[0]), b[1])
            else:
                b = self.p_pow()
            k = a[1] if b[1] == 'i' else self.kind(a[1], b[1])
            a = (ast.BinOp(left=a[0], op=ast.Pow(), right=b[0]), k)
        return a

    def kind(self, a, b):
        order = ['i', 'r4', 'r8', 'c']
        if a not in order or b not in order:
            return a or b
        return order[max(order.index(a), order.index(b))]

    def arith(self, op, a, b):
        k = self.kind(a[1], b[1])
        if k == 'r4' and isinstance(a[0], ast.Constant) and isinstance(b[0], ast.Constant):
            x, y = single(float(a[0].value)), single(float(b[0].value))
            v = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y}[type(op)]()
            return (C(single(v)), 'r4')
        return (ast.BinOp(left=a[0], op=op, right=b[0]), k)

    def number(self, s):
        m = re.match(r'^([\d.]+)(?:([dDeE])([+-]?\d+))?(?:_(\w+))?$', s)
        if not m:
            raise Unsupported('number ' + s)
        if '.' not in m.group(1) and not m.group(2):
            return (C(int(m.group(1))), 'i' if not m.group(4) else 'i')
        v = float(m.group(1) + ('e' + m.group(3) if m.group(3) else ''))
        dbl = (m.group(2) or '').lower() == 'd' or m.group(4)
        if dbl:
            return (C(v), 'r8')
        return (C(single(v)), 'r4')

    def p_prim(self):
        k, v = self.take()
        if k == 'num':
            return self.number(v)
        if k == 'str':
            return (C(v[1:-1]), 's')
        if v == '.true.':
            return (C(True), 'l')
        if v == '.false.':
            return (C(False), 'l')
        if v == '(':
            a = self.p_or()
            self.take(')')
            return a
        if k != 'name':
            raise Unsupported('primary %r' % (v,))
        if self.peek()[1] == '(':
            self.take()
            args = []
            while self.peek()[1] != ')':
                if self.peek()[1] == ':':
                    self.take()
                    args.append((ast.Slice(), 'slice'))
                else:
                    e = self.p_or()
                    if self.peek()[1] == ':':
                        raise Unsupported('section')
                    if self.peek()[1] == '=':
                        self.take()
                        e = self.p_or()
                    args.append(e)
                if self.peek()[1] == ',':
                    self.take()
            self.take(')')
            return self.ref(v, args)
        return self.var(v)

    def vtype(self, v):
        if v in self.u.types:
            return self.u.types[v], self.u.dims.get(v)
        if v in self.hostvars:
            return self.hostvars[v]
        return None, None

    def var(self, v):
        if v in self.u.types and v not in self.consts:
            return (N(v), self.u.types[v])
        if v in self.u.args:
            return (N(v), 'r8')
        if v in self.consts:
            txt, ty = self.consts[v]
            save = (self.toks, self.k)
            e = self.expr(txt)
            self.toks, self.k = save
            return (e[0], ty)
        if v in self.hostvars:
            return (ast.Attribute(value=N(self.selfname), attr=v, ctx=ast.Load()), self.hostvars[v][0])
        if v == self.u.result:
            return (N(v), self.u.types.get(v, 'r8'))
        return (N(v), 'i' if v[0] in 'ijklmn' else 'r4')

    def ref(self, v, args):
        ty, dims = self.vtype(v)
        if dims is not None:
            base = self.var(v)[0]
            idx = []
            for a, d in zip(args, dims):
                if a[1] == 'slice':
                    idx.append(ast.Slice())
                    continue
                lo = d[0] if d is not None else None
                if v in self.hostvars and v not in self.u.types and (d is None or d == (None, None)):
                    lo = self.alloc_lower(v)
                if lo in (None, '1'):
                    idx.append(ast.BinOp(left=a[0], op=ast.Sub(), right=C(1)))
                elif lo == '0':
                    idx.append(a[0])
                else:
                    save = (self.toks, self.k)
                    l = self.expr(lo)
                    self.toks, self.k = save
                    idx.append(ast.BinOp(left=a[0], op=ast.Sub(), right=l[0]))
            sl = idx[0] if len(idx) == 1 else ast.Tuple(elts=idx, ctx=ast.Load())
            return (ast.Subscript(value=base, slice=sl, ctx=ast.Load()), ty)
        if v in self.p.units:
            u = self.p.units[v]
            k = u.types.get(u.result or u.name, 'r8')
            return (ast.Call(func=self.callee(v), args=[a[0] for a in args], keywords=[]), k)
        if v in ('dble', 'real', 'float'):
            return (args[0][0], 'r8' if v == 'dble' or len(args) > 1 else 'r4')
        if v in INT_INTR:
            return (ast.Call(func=N(INT_INTR[v]), args=[args[0][0]], keywords=[]), 'i')
        if v == 'mod':
            return (ast.BinOp(left=args[0][0], op=ast.Mod(), right=args[1][0]), args[0][1])
        if v in INTRINSIC:
            return (ast.Call(func=N(INTRINSIC[v]), args=[a[0] for a in args], keywords=[]), args[0][1] if v != 'size' else 'i')
        raise Unsupported('reference ' + v)

    def alloc_lower(self, v):
        if not hasattr(self.p, '_alloc'):
            self.p._alloc = {}
            for n, l in self.p.lines:
                for m in re.finditer(r'allocate\s*\(', l, re.I):
                    for item in split_top(bal(l, m.end() - 1)):
                        mm = re.match(r'\s*(\w+)\s*\((.*)\)\s*$', item)
                        if mm:
                            d = self.p.dimlist(mm.group(2))
                            self.p._alloc.setdefault(mm.group(1).lower(), d[0][0])
        return self.p._alloc.get(v, '1')

    def callee(self, v):
        if self.p.units[v].host is not None:
            return ast.Attribute(value=N(self.selfname), attr=v, ctx=ast.Load())
        return N(v)

    # ------------------------------------------------ statements
    def translate(self):
        lines = self.u.raw
        self.pos = 0
        self.lines = lines
        body = self.stmts(())
        u = self.u
        outs = [a for a in u.args if u.intent.get(a) in ('out', 'inout')]
        ins = [a for a in u.args if u.intent.get(a) != 'out']
        pre = []
        for a in list(u.types):
            if a in u.dims and (a not in u.args or u.intent.get(a) == 'out'):
                shape = []
                for lo, hi in u.dims[a]:
                    if hi is None:
                        shape = None
                        break
                    h = self.expr(hi)[0]
                    l = self.expr(lo or '1')[0]
                    shape.append(ast.BinOp(left=ast.BinOp(left=h, op=ast.Sub(), right=l), op=ast.Add(), right=C(1)))
                if shape is None:
                    continue
                pre.append(ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())], value=ast.Call(func=ast.Attribute(value=N('numpy'), attr='empty', ctx=ast.Load()), args=[ast.Tuple(elts=shape, ctx=ast.Load())], keywords=[])))
        if u.kind == 'func':
            ret = N(u.result or u.name)
        elif not outs:
            ret = None
        elif len(outs) == 1:
            ret = N(outs[0])
        else:
            ret = ast.Tuple(elts=[N(o) for o in outs], ctx=ast.Load())
        body = pre + body
        if ret is not None:
            body.append(ast.Return(value=ret))
            self.patch_returns(body[:-1], ret)
        if not body:
            body = [ast.Pass()]
        args = [ast.arg(arg=a) for a in ins]
        if u.host is not None:
            args.insert(0, ast.arg(arg=self.selfname))
        fd = ast.FunctionDef(name=u.name, args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[])
        ast.fix_missing_locations(fd)
        for n in ast.walk(fd):
            if hasattr(n, 'lineno'):
                n.lineno = getattr(n, '_fl', u.line)
        return fd

    def patch_returns(self, body, ret):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Return):
                    x.value = ret

    def stmts(self, stops):
        out = []
        while self.pos < len(self.lines):
            n, l = self.lines[self.pos]
            low = l.lower().strip()
            for s in stops:
                if re.match(s, low):
                    return out
            self.pos += 1
            r = self.stmt(l, low)
            for x in r:
                x._fl = n
            out.extend(r)
        if stops:
            raise Unsupported('missing end')
        return out

    def assign_target(self, text):
        e = self.expr(text)[0]
        if isinstance(e, ast.Name) and e.id in self.u.dims:
            e = ast.Subscript(value=e, slice=ast.Slice(), ctx=ast.Store())
        elif isinstance(e, ast.Attribute) and self.hostvars.get(e.attr, (None, None))[1] is not None:
            e = ast.Subscript(value=e, slice=ast.Slice(), ctx=ast.Store())
        e.ctx = ast.Store()
        return e

    def stmt(self, l, low):
        m = re.match(r'(?:\w+\s*:\s*)?do\s+(\w+)\s*=\s*(.*)$', l, re.I)
        if m:
            parts = split_top(m.group(2))
            a = self.expr(parts[0])[0]
            b = self.expr(parts[1])[0]
            args = [a, ast.BinOp(left=b, op=ast.Add(), right=C(1))]
            if len(parts) == 3:
                st = self.expr(parts[2])[0]
                neg = isinstance(st, ast.UnaryOp)
                if neg:
                    args[1] = ast.BinOp(left=b, op=ast.Sub(), right=C(1))
                args.append(st)
            var = m.group(1).lower()
            body = self.stmts((r'end\s*do\b',))
            self.pos += 1
            tgt = self.var(var)[0]
            tgt.ctx = ast.Store()
            return [ast.For(target=tgt, iter=ast.Call(func=N('range'), args=args, keywords=[]), body=body or [ast.Pass()], orelse=[])]
        m = re.match(r'do\s+while\s*\((.*)\)\s*$', l, re.I)
        if m or low == 'do':
            test = self.expr(m.group(1))[0] if m else C(True)
            body = self.stmts((r'end\s*do\b',))
            self.pos += 1
            return [ast.While(test=test, body=body or [ast.Pass()], orelse=[])]
        m = re.match(r'if\s*\(', l, re.I)
        if m:
            i = l.index('(')
            c = bal(l, i)
            rest = l[i + len(c) + 2:].strip()
            test = self.expr(c)[0]
            if rest.lower() == 'then':
                return [self.ifblock(test)]
            return [ast.If(test=test, body=self.stmt(rest, rest.lower()) or [ast.Pass()], orelse=[])]
        m = re.match(r'select\s+case\s*\(', l, re.I)
        if m:
            return self.select(bal(l, m.end() - 1))
        if low == 'exit':
            return [ast.Break()]
        if low == 'cycle':
            return [ast.Continue()]
        if low in ('continue',):
            return [ast.Pass()]
        if low == 'return':
            return [ast.Return(value=None)]
        if re.match(r'(print|write|read|open|close|stop|format|inquire)\b', low) and not re.match(r'\w+\s*(\(.*\))?\s*=[^=]', low):
            if low.startswith('stop'):
                return [ast.Raise(exc=N('Stop'), cause=None)]
            return [ast.Pass()]
        m = re.match(r'call\s+(\w+)\s*(?:\((.*)\))?\s*$', l, re.I)
        if m:
            return self.callstmt(m.group(1).lower(), m.group(2) or '')
        if re.match(r'(allocate|deallocate)\s*\(', low):
            out = []
            if low.startswith('allocate'):
                for item in split_top(bal(l, l.index('('))):
                    mm = re.match(r'\s*(\w+)\s*\((.*)\)\s*$', item)
                    if not mm:
                        continue
                    shape = []
                    for lo, hi in self.p.dimlist(mm.group(2)):
                        h, l0 = self.expr(hi)[0], self.expr(lo)[0]
                        shape.append(ast.BinOp(left=ast.BinOp(left=h, op=ast.Sub(), right=l0), op=ast.Add(), right=C(1)))
                    tgt = self.var(mm.group(1).lower())[0]
                    tgt.ctx = ast.Store()
                    out.append(ast.Assign(targets=[tgt], value=ast.Call(func=ast.Attribute(value=N('numpy'), attr='empty', ctx=ast.Load()), args=[ast.Tuple(elts=shape, ctx=ast.Load())], keywords=[])))
            return out
        # assignment: find top-level '='
        d = 0
        for i, c in enumerate(l):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
            elif c == '=' and d == 0 and l[i + 1:i + 2] != '=' and l[i - 1] not in '<>/=':
                tgt = self.assign_target(l[:i])
                v = self.expr(l[i + 1:])
                val = v[0]
                if isinstance(tgt, ast.Name) and self.u.types.get(tgt.id) == 'i' and v[1] not in ('i',):
                    val = ast.Call(func=N('int'), args=[val], keywords=[])
                elif isinstance(tgt, ast.Attribute) and self.hostvars.get(tgt.attr, (None,))[0] == 'i' and v[1] not in ('i',):
                    val = ast.Call(func=N('int'), args=[val], keywords=[])
                return [ast.Assign(targets=[tgt], value=val)]
        raise Unsupported('statement %r' % l[:60])

    def ifblock(self, test):
        body = self.stmts((r'else\b', r'elseif\b', r'end\s*if\b'))
        n, l = self.lines[self.pos]
        low = l.lower().strip()
        self.pos += 1
        if re.match(r'end\s*if', low):
            return ast.If(test=test, body=body or [ast.Pass()], orelse=[])
        m = re.match(r'else\s*if\s*\(', l, re.I)
        if m:
            c = bal(l, m.end() - 1)
            t2 = self.expr(c)[0]
            return ast.If(test=test, body=body or [ast.Pass()], orelse=[self.ifblock(t2)])
        orelse = self.stmts((r'end\s*if\b',))
        self.pos += 1
        return ast.If(test=test, body=body or [ast.Pass()], orelse=orelse)

    def select(self, sel):
        s = self.expr(sel)[0]
        cases = []
        while True:
            n, l = self.lines[self.pos]
            low = l.lower().strip()
            self.pos += 1
            if re.match(r'end\s*select', low):
                break
            m = re.match(r'case\s*\(', l, re.I)
            if m:
                vals = [self.expr(x)[0] for x in split_top(bal(l, m.end() - 1))]
                body = self.stmts((r'case\b', r'end\s*select\b'))
                tests = [ast.Compare(left=s, ops=[ast.Eq()], comparators=[v]) for v in vals]
                cases.append((tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.Or(), values=tests), body))
            elif re.match(r'case\s+default', low):
                cases.append((None, self.stmts((r'case\b', r'end\s*select\b'))))
            else:
                raise Unsupported('select')
        node = []
        for t, b in reversed(cases):
            if t is None:
                node = b
            else:
                node = [ast.If(test=t, body=b or [ast.Pass()], orelse=node)]
        return node

    def callstmt(self, name, argtext):
        if name not in self.p.units:
            raise Unsupported('call ' + name)
        u = self.p.units[name]
        args = [self.expr(a)[0] for a in split_top(argtext)]
        ins, outs = [], []
        for formal, a in zip(u.args, args):
            it = u.intent.get(formal)
            if it != 'out':
                ins.append(a)
            if it in ('out', 'inout') and u.kind == 'sub':
                outs.append(a)
        call = ast.Call(func=self.callee(name), args=ins, keywords=[])
        if not outs:
            return [ast.Expr(value=call)]
        tg = []
        for o in outs:
            import copy
            o2 = copy.deepcopy(o)
            if isinstance(o2, ast.Name) and o2.id in self.u.dims:
                o2 = ast.Subscript(value=o2, slice=ast.Slice(), ctx=ast.Store())
            o2.ctx = ast.Store()
            tg.append(o2)
        return [ast.Assign(targets=[tg[0] if len(tg) == 1 else ast.Tuple(elts=tg, ctx=ast.Store())], value=call)]


def load(path):
    with open(path, encoding='utf-8', errors='replace') as f:
        return Parser(f.read())
