from sa import terms as t
from sa import kern

TECHNIQUE = ('Value-graph equivalence (global value numbering by random interpretation) of the loop form, the array form and the Fortran source '
             'of every spectral integral: all three are abstracted to gated terms with summation binders and compared element by element, '
             'per index region and per load-segment case. Nothing from /repo is imported, compiled or run.')


def check(ctx):
    ctx.rule('same-value', 'element [p] / [p,q] of the three implementations denotes the same expression of the inputs on every index region and condition path')
    ctx.assumptions += ['arithmetic is over the reals (rounding ignored)', 'load times are in increasing order, so leaving the segment loop at the first later segment equals skipping it']
    R = kern.Runner(ctx)
    p, q = t.idx('p'), t.idx('q')
    def one(f):
        res = {}
        for impl in ('scalar', 'vectorized', 'fortran'):
            I, st, r = R.run(f, impl)
            rank = 1 if f in kern.VECTOR else 2
            res[impl] = kern.element(I, st, r, (p, q)[:rank])
        base = res['vectorized']
        for impl in ('scalar', 'fortran'):
            compare(ctx, f, 'vectorized', impl, base, res[impl])
    ctx.parallel([lambda f=f: one(f) for f in kern.LOADS + kern.MATRIX + kern.VECTOR])


def compare(ctx, f, n1, n2, a, b):
    p, q = t.idx('p'), t.idx('q')
    name = '%s %s=%s' % (f, n1, n2)
    where = 'geotecha/speccon/integrals.py:%s (implementation=%s vs %s)' % (f, n1, n2)
    seeds = (1, 2, 3) if ctx.thorough else (1, 2)
    if f in kern.LOADS:
        jobs = []
        for sc in kern.SCENARIOS + kern.EDGE_SCENARIOS:
            jobs.append((sc.name, dict(index={p: 5, q: 9}, arrays=sc.arrays(), points=sc.points, truth_fn=kern.concrete_truth)))
    else:
        if f in kern.VECTOR:
            regs = [('first', {p: 0}), ('middle', {p: 5})]
        else:
            regs = [('upper', {p: 5, q: 9}), ('lower', {p: 9, q: 5}), ('diagonal', {p: 7, q: 7}), ('first row', {p: 0, q: 8}), ('corner', {p: 0, q: 0})]
        jobs = [(nm, dict(index=rg)) for nm, rg in regs]
    for nm, kw in jobs:
        ctx.count('element comparisons')
        r = t.equal(a, b, seeds=seeds, tol=t.mpf(10) ** -14, probe=True, **kw)
        c = '%s [%s]' % (name, nm)
        if r.verdict == 'different':
            ctx.violation('same-value', c, 'the %s and %s forms of %s give different values for the %s case (%s)' % (n1, n2, f, nm, r.detail), where)
        elif r.verdict == 'equal':
            ctx.ok('same-value', c)
        else:
            ctx.undecided('same-value', c, r.detail)
