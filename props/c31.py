"""optional arguments left out take their documented default; documented arguments are accepted"""
import ast
from sa import docs

TECHNIQUE = ('Docstring-to-signature consistency over the syntax tree: parameter names and default values stated in the numpy-style documentation of every public '
             'function, method and class are parsed into literals and compared with the constant-folded defaults of the current signature (and with the value a None default is replaced by). '
             'Nothing from /repo is imported or run.')


def public(q):
    return all(p == '__init__' or not p.startswith('_') for p in q.split('.'))


def subjects(ctx):
    """(module, qualname, function node, docstring)"""
    for m, c, f, q in ctx.p.all_functions():
        if not public(q) or m.tree is None:
            continue
        doc = ast.get_docstring(f) or ''
        if f.name == '__init__' and c is not None:
            doc = (ast.get_docstring(c) or '') + '\n\n' + doc
        yield m, q, f, doc
    for name in sorted(ctx.p.modules):
        m = ctx.p.modules[name]
        for c in m.tree.body:
            if isinstance(c, ast.ClassDef) and public(c.name) and not any(isinstance(s, ast.FunctionDef) and s.name == '__init__' for s in c.body):
                r = ctx.p.func(m.name, c.name + '.__init__')
                if r is not None and r[2].name != 'InputFileLoaderCheckerSaver':     # those document the attributes of the input text
                    yield r[0], c.name + '.__init__', r[1], ast.get_docstring(c) or ''


def star(f):
    return f.args.kwarg is not None


def check(ctx):
    ctx.rule('defaults', 'an argument documented with a default value has that value when it is left out')
    ctx.rule('optional', 'an argument documented as optional can be left out')
    ctx.rule('names', 'an argument that is documented is accepted under its documented name')
    ctx.assumptions += ['the documentation in the docstrings is the specification', 'defaults that are not literals are compared as text']
    for m, q, f, doc in subjects(ctx):
        ents = docs.entries(doc)
        if not ents:
            continue
        ctx.count('documented functions')
        where = '%s:%d' % (m.rel, f.lineno)
        params = {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        if f.args.vararg:
            params.add(f.args.vararg.arg)
        if f.args.kwarg:
            params.add(f.args.kwarg.arg)
        for names, head, text in ents:
            for raw in names:
                n = raw.lstrip('*')
                ctx.count('documented arguments')
                label = '%s.%s(%s)' % (m.name.split('.')[-1], q, n)
                if n not in params:
                    if star(f) or f.args.vararg is not None:
                        continue
                    ctx.violation('names', label, 'the documented argument %s is not accepted' % n, where)
                    continue
                ctx.ok('names', label)
                want = docs.documented(n, names, text + (" Default" + head.split("efault", 1)[1] if "efault" in head else ""))
                got, how = docs.effective(ctx.p, m, f, n)
                starred = n in (getattr(f.args.vararg, 'arg', None), getattr(f.args.kwarg, 'arg', None))
                if starred:
                    continue
                opt = 'optional' in head.lower()
                if how == 'required':
                    if opt or (want is not docs.NOVAL):
                        ctx.violation('optional', label, 'the argument is documented as optional but has to be given', where)
                    continue
                if opt:
                    ctx.ok('optional', label)
                if want is docs.NOVAL:
                    continue
                if got is docs.NOVAL:
                    ctx.undecided('defaults', label, 'the default is not a constant')
                    continue
                if docs.alike(want, got):
                    ctx.ok('defaults', label)
                    continue
                if got is None:
                    repl = docs.sentinel(ctx.p, m, f, n)
                    if any(v is docs.NOVAL for v in repl):
                        ctx.undecided('defaults', label, 'the default is replaced by a value that is not constant')
                        continue
                    if any(docs.alike(v, want) for v in repl):
                        ctx.ok('defaults', label)
                        continue
                    if not repl and any((isinstance(s, ast.Name) and s.id == n and isinstance(s.ctx, ast.Store)) or (isinstance(s, ast.BoolOp) and isinstance(s.values[0], ast.Name) and s.values[0].id == n)
                                        for s in ast.walk(f)):
                        ctx.undecided('defaults', label, 'the default None is replaced in a way that is not recognised')
                        continue
                ctx.violation('defaults', label, 'documented default %r, actual default %r' % (want, got), where)
