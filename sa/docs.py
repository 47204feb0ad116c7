"""documented parameters and documented default values of functions, read from numpy-style docstrings"""
import ast
import difflib
import re

NOVAL = object()


def section(doc):
    """lines of the Parameters section"""
    m = re.search(r'^[ \t]*(?:Other )?Parameters[ \t]*\n[ \t]*-{3,}[ \t]*\n', doc, re.M)
    if not m:
        return ''
    rest = doc[m.end():]
    e = re.search(r'^\S[^\n]*\n-{3,}[ \t]*$', rest, re.M)
    return rest[:e.start()] if e else rest


def entries(doc):
    """[(names, header, text)] of the Parameters section"""
    out = []
    for line in section(doc).split('\n'):
        if line and not line[0].isspace():
            out.append([line, []])
        elif out:
            out[-1][1].append(line.strip())
    res = []
    for head, body in out:
        names = head.split(' : ')[0] if ' : ' in head else head.split(':')[0]
        names = [n.strip().strip('`') for n in names.split(',')]
        if names and all(re.fullmatch(r'\*{0,2}[A-Za-z_]\w*', n) for n in names):
            res.append((names, head, ' '.join(body)))
    return res


def literal(text):
    """value of the longest Python literal at the start of text, or NOVAL"""
    text = text.strip()
    m = re.match(r'[-+]?(?:\d+\.\d+|\d+\.(?![a-zA-Z])|\.\d+|\d+)(?:[eE][-+]?\d+)?', text)
    if m:
        after = text[m.end():m.end() + 2].lstrip()
        if after[:1] in ('*', '/', '+', '%', '^') or text[m.end():m.end() + 1].isalnum():
            return NOVAL
        return float(m.group(0))
    m = re.match(r'(None|none|True|False)\b', text)
    if m:
        return {'None': None, 'none': None, 'True': True, 'False': False}[m.group(1)]
    m = re.match(r'-?(?:np|numpy)\.inf\b', text)
    if m:
        return float('-inf' if m.group(0)[0] == '-' else 'inf')
    m = re.match(r'(dict|list|tuple)\(\)', text)
    if m:
        return {'dict': {}, 'list': [], 'tuple': []}[m.group(1)]
    m = re.match(r'slice\(None, ?None, ?None\)', text)
    if m:
        return ('slice', None, None, None)
    if text[:1] in '\'"([{' and text:
        for end in range(1, min(len(text), 120) + 1):
            if text[end - 1] in '\'")]}':
                try:
                    return plain(ast.literal_eval(text[:end]))
                except (SyntaxError, ValueError):
                    continue
    return NOVAL


def plain(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return NOVAL


def close(word, name, names):
    """word means this parameter (spelling slips allowed when the entry is about one parameter)"""
    if word == name:
        return True
    return len(names) == 1 and difflib.SequenceMatcher(None, word, name).ratio() >= 0.75


def documented(name, names, text):
    """documented default of parameter `name` whose entry documents `names`"""
    # Default a=b=1, c=2
    found = []
    for m in re.finditer(r'\bdefaul(?:te|e|t)?s?(?:\b|(?=line_))(?:\s+(?:is|to|value(?: is)?))?\s*:?\s*', text, re.I):
        rest = text[m.end():]
        if re.search(r'\(\s*(the\s+)?$', text[:m.start()]) and rest[:1] in '),':
            # a=True (default)
            q = re.search(r'(?:`?(\w+)`?\s*==?\s*)?(\S+?)[`\'*]*\s*\(\s*(?:the\s+)?$', text[:m.start()])
            if q and (q.group(1) is None or close(q.group(1), name, names)):
                found.append(literal(q.group(2).lstrip('`*')))
            continue
        groups, pos = [], 0
        while True:
            g = re.match(r'((?:\s*`?\w+`?\s*==?)+)\s*', rest[pos:])
            if not g:
                break
            pos += g.end()
            who = re.findall(r'\w+', g.group(1))
            groups.append((who, literal(rest[pos:])))
            nxt = re.match(r'[^,;.=]*?,', rest[pos:])
            if not nxt or literal(rest[pos:]) is NOVAL or rest[pos:pos + 1] in '([{"\'':
                break
            pos += nxt.end()
        if groups:
            for who, v in groups:
                if any(close(w, name, names) for w in who):
                    found.append(v)
            continue
        g = re.match(r'=\s*', rest)
        if g:
            found.append(literal(rest[g.end():]))
        elif len(names) == 1 and text[:m.start()].rstrip()[-1:] in ('', '.', ',', ';', ')', '('):
            v = literal(rest)
            if v is not NOVAL and re.match(r'\S+?[.,;)]?(\s|$)', rest):
                found.append(v)
    found = [v for v in found if v is not NOVAL]
    if not found or any(not alike(v, found[0]) for v in found):
        return NOVAL
    return found[0]


def alike(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


def value(project, mod, node, depth=0):
    """value of a default expression, or NOVAL"""
    if depth > 5:
        return NOVAL
    try:
        return plain(ast.literal_eval(node))
    except (ValueError, SyntaxError, TypeError):
        pass
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = value(project, mod, node.operand, depth + 1)
        return -v if isinstance(v, float) else NOVAL
    if isinstance(node, (ast.List, ast.Tuple)):
        vs = [value(project, mod, e, depth + 1) for e in node.elts]
        return NOVAL if any(v is NOVAL for v in vs) else vs
    if isinstance(node, ast.BinOp):
        a, b = value(project, mod, node.left, depth + 1), value(project, mod, node.right, depth + 1)
        if isinstance(a, float) and isinstance(b, float):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b}[type(node.op)]()
            except (KeyError, ArithmeticError):
                return NOVAL
        return NOVAL
    if isinstance(node, ast.Call) and not node.keywords:
        n = ast.unparse(node.func)
        if not node.args and n in ('dict', 'list', 'tuple'):
            return {'dict': {}, 'list': [], 'tuple': []}[n]
        if n == 'slice' and len(node.args) == 3 and all(isinstance(q, ast.Constant) and q.value is None for q in node.args):
            return ('slice', None, None, None)
        if n == 'slice' and len(node.args) == 1 and isinstance(node.args[0], ast.Constant) and node.args[0].value is None:
            return ('slice', None, None, None)
        if n in ('float', 'int', 'bool', 'list', 'tuple') and len(node.args) == 1:
            v = value(project, mod, node.args[0], depth + 1)
            if n in ('list', 'tuple') or isinstance(v, float):
                return v
        return NOVAL
    if isinstance(node, ast.Attribute) and node.attr in ('inf', 'Inf', 'infty', 'PINF') and isinstance(node.value, ast.Name) and node.value.id in ('np', 'numpy', 'math'):
        return float('inf')
    if isinstance(node, ast.Name):
        defs = [s for s in ast.walk(mod.tree) if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == node.id for x in s.targets) and s in mod.tree.body]
        if len(defs) == 1:
            return value(project, mod, defs[0].value, depth + 1)
    return NOVAL


def effective(project, mod, fn, name):
    """(value, how) that parameter `name` of fn has when it is left out"""
    a = fn.args
    pos = a.posonlyargs + a.args
    table = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    table.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    if name not in table:
        return NOVAL, 'required' if name in [x.arg for x in pos + a.kwonlyargs] else 'absent'
    v = value(project, mod, table[name])
    return v, 'signature'


def sentinel(project, mod, fn, name):
    """values given to `name` where it is found to be None, or [] when it is not replaced"""
    out = []
    for s in ast.walk(fn):
        test = None
        if isinstance(s, (ast.If, ast.IfExp)):
            test = s.test
        if test is None:
            continue
        mentions = any(isinstance(c, ast.Compare) and isinstance(c.left, ast.Name) and c.left.id == name for c in ast.walk(test)) or (
            isinstance(test, ast.UnaryOp) and isinstance(test.operand, ast.Name) and test.operand.id == name)
        if not mentions:
            continue
        if isinstance(s, ast.If):
            for b in s.body + s.orelse:
                if isinstance(b, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in b.targets):
                    out.append(value(project, mod, b.value))
        else:
            out += [value(project, mod, s.body), value(project, mod, s.orelse)]
    return out
