"""PolyLine objects: representations agree, arithmetic is pointwise, operands keep their points, common break points keep the functions"""
from fractions import Fraction as F
from sa import terms as t
from sa import chain as cn
from sa.chain import Chain
from sa.scal import Script, A, same
from sa.front import Arr, PyList
from sa.terms import num, ZERO, ONE, add, sub, mul, div

TECHNIQUE = ('Abstract interpretation with an order domain of client programs that use PolyLine: break points of one to three lines are placed on a chain of symbolic levels '
             '(coincident, interleaved, overlapping, nested, with steps, reversed), values symbolic; limits from both sides of the resulting lines are compared at every level.')
MOD = 'geotecha.piecewise.piecewise_linear_1d'
s = t.sym
OPS = {'+': add, '-': sub, '*': mul, '/': div}
LINES = {'plain': [2, 4, 6], 'same': [2, 4, 6], 'between': [2, 3, 5, 6], 'wider': [1, 3, 7], 'inside': [3, 5], 'later': [4, 6, 8], 'apart': [7, 9], 'step inside': [2, 4, 4, 6],
         'step shared': [1, 4, 4, 5], 'step first': [2, 2, 5], 'step last': [3, 6, 6], 'reversed': [6, 4, 2], 'reversed step': [7, 4, 4, 1], 'double step': [2, 3, 3, 3, 6]}
PAIRS = [('plain', 'same'), ('plain', 'between'), ('plain', 'wider'), ('wider', 'plain'), ('plain', 'inside'), ('inside', 'plain'), ('plain', 'later'), ('plain', 'apart'),
         ('apart', 'plain'), ('step inside', 'plain'), ('plain', 'step inside'), ('step inside', 'step shared'), ('step first', 'step last'), ('step last', 'plain'),
         ('reversed', 'plain'), ('plain', 'reversed'), ('reversed', 'wider'), ('reversed step', 'step inside'), ('step first', 'wider'), ('double step', 'plain'),
         ('reversed', 'reversed step'), ('between', 'step shared'), ('step last', 'step first')]
TRIPLES = [('plain', 'between', 'wider'), ('step inside', 'plain', 'later'), ('reversed', 'step shared', 'inside'), ('apart', 'reversed step', 'step first')]


class Line(object):
    """points on levels, values zigzag between two known bands so that no point lies on the straight run of its neighbours"""

    def __init__(self, ch, box, nm, lx, height):
        self.lx, self.ys = lx, []
        for i in range(len(lx)):
            k = '%s%d' % (nm, i)
            lo = 1 if i % 2 == 0 else height
            if lx.count(lx[i]) == 3:
                lo = height + 5 * (i - lx.index(lx[i]))       # a step over three points goes one way
            box[k] = (F(lo), F(lo + 1))
            self.ys.append(s(k))
        self.x, self.y = A([ch.at[i] for i in lx]), A(self.ys)
        up = lx[0] < lx[-1]
        self.sx, self.sy = (lx, self.ys) if up else (lx[::-1], self.ys[::-1])


def limits(ch, lx, ys, q):
    """values of the line just below and just above level q"""
    on = [k for k in range(len(lx)) if lx[k] == q]
    if on:
        return ys[on[0]], ys[on[-1]]
    v = cn.value(ch, lx, ys, q)
    return v, v


def elements(c, v):
    q = c.I.items1(v, c.st) if isinstance(v, (Arr, PyList)) else None
    return None if q is None or any(getattr(x, 'unk', True) for x in q) else q


def points(ctx, rule, lab, c, ch, ix, iy):
    """levels and values of a returned line; None when they cannot be told"""
    x, y = elements(c, c.item(ix)), elements(c, c.item(iy))
    if c.rejected() is t.TRUE:
        ctx.violation(rule, lab, 'it raises', c.where)
        return None
    if x is None or y is None or c.rejected() is not t.FALSE:
        ctx.undecided(rule, lab, 'points not known')
        return None
    lv = [ch.level(v) for v in x]
    if len(x) != len(y):
        ctx.violation(rule, lab, 'x and y have different lengths', c.where)
        return None
    if None in lv:
        ctx.violation(rule, lab, 'a point of the result is not at a break point of the operands', c.where)
        return None
    return lv, y


def kw(ctx, box):
    return dict(values=lambda seed: cn.sample(box, seed), seeds=(1, 2) if ctx.tier != 'quick' else (1,))


def is_function(ctx, rule, lab, c, ch, box, got, want, msg):
    """the returned points make the function whose limits at level q are want(q)"""
    lv, y = got
    if any(b < a for a, b in zip(lv, lv[1:])):
        lv, y = lv[::-1], y[::-1]
    if any(b < a for a, b in zip(lv, lv[1:])):
        ctx.violation(rule, lab, msg + ' (points out of order)', c.where)
        return
    for q in range(len(ch.at)):
        g, w = limits(ch, lv, y, q), want(q)
        for side in (0, 1):
            if w[side] is None:
                continue
            same(ctx, rule, '%s, level %d %s' % (lab, q, ('below', 'above')[side]), c.where, g[side], w[side], msg, **kw(ctx, box))


def binary(ctx, na, nb, op):
    ch = Chain(11)
    box = dict(ch.box)
    a, b = Line(ch, box, 'a', LINES[na], 20), Line(ch, box, 'b', LINES[nb], 60)
    lab = '%s %s %s' % (na, op, nb)
    with t.ranges(box):
        c = Script(ctx, MOD, 'def client(ax, ay, bx, by):\n l = PolyLine(ax, ay)\n m = PolyLine(bx, by)\n r = l %s m\n return r.x, r.y, l.x, l.y, m.x, m.y, ax, ay, bx, by' % op,
                   [a.x, a.y, b.x, b.y], need=['PolyLine'])
        got = points(ctx, 'sum', lab, c, ch, 0, 1)
        if got:
            f = OPS[op]
            is_function(ctx, 'sum', lab, c, ch, box, got, lambda q: tuple(f(u, v) for u, v in zip(limits(ch, a.sx, a.sy, q), limits(ch, b.sx, b.sy, q))),
                        'a %s b is not the pointwise value' % op)
            for k, (nm, w) in enumerate((('x of left', [ch.at[i] for i in a.lx]), ('y of left', a.ys), ('x of right', [ch.at[i] for i in b.lx]), ('y of right', b.ys)) * 2):
                e = elements(c, c.item(k % 4 + (2 if k < 4 else 6)))
                if e is None or len(e) != len(w):
                    ctx.undecided('operands', lab + nm)
                    continue
                for i, v in enumerate(w):
                    same(ctx, 'operands', '%s, %s [%d] %s' % (lab, nm, i, 'line' if k < 4 else 'array'), c.where, e[i], v, 'the operation changes its operands', **kw(ctx, box))


def scalars(ctx):
    ch = Chain(10)
    forms = {'l + k': lambda y, k: add(y, k), 'k + l': lambda y, k: add(y, k), 'l - k': lambda y, k: sub(y, k), 'k - l': lambda y, k: sub(k, y), 'l * k': lambda y, k: mul(y, k),
             'k * l': lambda y, k: mul(y, k), 'l / k': lambda y, k: div(y, k), 'k / l': lambda y, k: div(k, y)}
    for nm in ('plain', 'step inside', 'step first', 'reversed step'):
        for how in ('points', 'segments'):
            box = dict(ch.box, k=(F(3), F(4)))
            a = Line(ch, box, 'a', LINES[nm], 20)
            if how == 'segments' and nm in ('step first', 'reversed step'):
                continue
            for form, f in forms.items():
                with t.ranges(box):
                    args = 'PolyLine(x, y)'
                    if how == 'segments':
                        args = 'PolyLine(x1, x2, y1, y2)'
                    c = Script(ctx, MOD, 'def client(x, y, k, x1, x2, y1, y2):\n l = %s\n l.x1\n l.xy\n r = %s\n return r.x, r.y, l.x, l.y, l.y1, l.y2, r.y1, r.y2' % (args, form),
                               [a.x, a.y, s('k')] + segs(ch, a), need=['PolyLine'])
                    lab = '%s: %s from %s' % (form, nm, how)
                    _, _, y1, y2 = segs(ch, a)
                    ry1, ry2 = [f(v, s('k')) for v in y1], [f(v, s('k')) for v in y2]
                    xs, fy = [ch.at[i] for i in a.lx], [f(v, s('k')) for v in a.ys]
                    table(ctx, 'scalar', lab, c, box, [xs, fy, xs, a.ys, y1, y2, ry1, ry2], ['x of result', 'y of result', 'x of line after', 'y of line after',
                          'y1 of line after', 'y2 of line after', 'y1 of result', 'y2 of result'], 'line and scalar do not combine point by point, or the line is changed')


def segs(ch, a):
    ks = [k for k in range(len(a.lx) - 1) if a.lx[k] != a.lx[k + 1]]
    return [A([ch.at[a.lx[k]] for k in ks]), A([ch.at[a.lx[k + 1]] for k in ks]), A([a.ys[k] for k in ks]), A([a.ys[k + 1] for k in ks])]


def table(ctx, rule, lab, c, box, want, names, msg):
    for k, (nm, w) in enumerate(zip(names, want)):
        if c.rejected() is t.TRUE:
            ctx.violation(rule, '%s, %s' % (lab, nm), msg + ' (it raises)', c.where)
            return
        e = elements(c, c.item(k))
        if e is None or c.rejected() is not t.FALSE:
            ctx.undecided(rule, '%s, %s' % (lab, nm), str(c.item(k))[:80])
        elif len(e) != len(w):
            ctx.violation(rule, '%s, %s' % (lab, nm), '%s (%d values, expected %d)' % (msg, len(e), len(w)), c.where)
        else:
            for i, v in enumerate(w):
                same(ctx, rule, '%s, %s [%d]' % (lab, nm, i), c.where, e[i], v, msg, **kw(ctx, box))


def forms(ctx):
    """points, coordinates and segments describe the same line"""
    ch = Chain(10)
    for nm in ('plain', 'between', 'step inside', 'step first', 'step last', 'reversed', 'reversed step', 'double step'):
        box = dict(ch.box)
        a = Line(ch, box, 'a', LINES[nm], 20)
        xs, (x1, x2, y1, y2) = [ch.at[i] for i in a.lx], segs(ch, a)
        pts = A([A([p, q]) for p, q in zip(xs, a.ys)])
        tail = '\n return l.x, l.y, l.x1, l.x2, l.y1, l.y2, l.xy[:, 0], l.xy[:, 1], l.x1_x2_y1_y2[0], l.x1_x2_y1_y2[1], l.x1_x2_y1_y2[2], l.x1_x2_y1_y2[3], l.x, l.y'
        names = 'x y x1 x2 y1 y2 xy[:,0] xy[:,1] x1_x2_y1_y2[0] x1_x2_y1_y2[1] x1_x2_y1_y2[2] x1_x2_y1_y2[3] x y'.split()
        full = [xs, a.ys, x1, x2, y1, y2, xs, a.ys, x1, x2, y1, y2, xs, a.ys]
        with t.ranges(box):
            for lab, src, args in (('coordinates', 'def client(x, y):\n l = PolyLine(x, y)', [a.x, a.y]), ('points', 'def client(p):\n l = PolyLine(p)', [pts]),
                                   ('list of points', 'def client(p):\n l = PolyLine(p)', [[[p, q] for p, q in zip(xs, a.ys)]]),
                                   ('lists', 'def client(x, y):\n l = PolyLine(x, y)', [list(a.x), list(a.y)])):
                c = Script(ctx, MOD, src + tail, args, need=['PolyLine'])
                table(ctx, 'forms', '%s from %s' % (nm, lab), c, box, full, names, 'the representations of the line differ')
            if nm in ('plain', 'between', 'step inside', 'reversed'):
                c = Script(ctx, MOD, 'def client(a, b, c, d):\n l = PolyLine(a, b, c, d)' + tail, [x1, x2, y1, y2], need=['PolyLine'])
                table(ctx, 'forms', '%s from segments' % nm, c, box, full, names, 'the representations of the line differ')
    x, y = [s('p%d' % i) for i in range(3)], [s('q%d' % i) for i in range(3)]
    for lab, src, args, ok in (
            ('x longer than y', 'def client(x, y):\n return PolyLine(x, y)', [A(x), A(y[:2])], False), ('y longer than x', 'def client(x, y):\n return PolyLine(x, y)', [A(x[:2]), A(y)], False),
            ('one point', 'def client(x, y):\n return PolyLine(x, y)', [A(x[:1]), A(y[:1])], False), ('three arguments', 'def client(x, y):\n return PolyLine(x, y, x)', [A(x), A(y)], False),
            ('no argument', 'def client(x, y):\n return PolyLine()', [A(x), A(y)], False), ('segments of different length', 'def client(x, y):\n return PolyLine(x, x, x, y)', [A(x), A(y[:2])], False),
            ('one dimension', 'def client(x, y):\n return PolyLine(x)', [A(x), A(y)], False), ('three columns', 'def client(x, y):\n return PolyLine(x)', [A([A(x), A(y)]), A(y)], False),
            ('one row', 'def client(x, y):\n return PolyLine(x)', [A([A(x[:2])]), A(y)], False), ('coordinates', 'def client(x, y):\n return PolyLine(x, y)', [A(x), A(y)], True),
            ('segments', 'def client(x, y):\n return PolyLine(x, x, y, y)', [A(x), A(y)], True), ('two rows', 'def client(x, y):\n return PolyLine(x)', [A([A(x[:2]), A(y[:2])]), A(y)], True)):
        c = Script(ctx, MOD, src, args, need=['PolyLine'])
        decided(ctx, 'rejection', 'PolyLine with ' + lab, c, not ok, 'malformed data is accepted' if not ok else 'valid data is rejected')


def decided(ctx, rule, lab, c, raises, msg):
    ctx.count('rejections')
    r = c.rejected()
    if (r is t.TRUE) == raises and r in (t.TRUE, t.FALSE):
        ctx.ok(rule, lab)
    elif r in (t.TRUE, t.FALSE):
        ctx.violation(rule, lab, msg, c.where)
    else:
        ctx.undecided(rule, lab)


def unsupported(ctx):
    ch = Chain(10)
    for nm, a, b in (('line * line', 'plain', 'between'), ('line / line', 'plain', 'between')):
        box = dict(ch.box)
        la, lb = Line(ch, box, 'a', LINES[a], 20), Line(ch, box, 'b', LINES[b], 60)
        with t.ranges(box):
            c = Script(ctx, MOD, 'def client(ax, ay, bx, by):\n return PolyLine(ax, ay) %s PolyLine(bx, by)' % nm.split()[1], [la.x, la.y, lb.x, lb.y], need=['PolyLine'])
            decided(ctx, 'rejection', nm, c, True, 'a product or quotient of two lines is not a line')
    back = [2, 6, 4, 8]
    for nm, src in (('left + back', 'l + m'), ('back + right', 'm + l'), ('left - back', 'l - m'), ('back - right', 'm - l'), ('common with back', 'polyline_make_x_common(l, m)'),
                    ('common with back first', 'polyline_make_x_common(m, l)'), ('common with a number', 'polyline_make_x_common(l, 2)')):
        box = dict(ch.box)
        la, lb = Line(ch, box, 'a', LINES['plain'], 20), Line(ch, box, 'b', back, 60)
        with t.ranges(box):
            c = Script(ctx, MOD, 'def client(ax, ay, bx, by):\n l = PolyLine(ax, ay)\n m = PolyLine(bx, by)\n return ' + src, [la.x, la.y, lb.x, lb.y], need=['PolyLine'])
            decided(ctx, 'rejection', nm, c, True, 'lines that turn back are combined')


def equality(ctx):
    ch = Chain(10)
    cases = [('same points', None, True), ('other y', ('y', F(1)), False), ('other x', ('x', F(1)), False), ('last y', ('ylast', F(-1)), False), ('y within tolerance', ('y', F(1, 10 ** 7)), True),
             ('x within tolerance', ('x', F(-1, 10 ** 7)), True), ('one point more', 'more', False)]
    for nm in ('plain', 'step inside'):
        for lab, how, want in cases:
            box = dict(ch.box)
            a = Line(ch, box, 'a', LINES[nm], 20)
            x2, y2 = list(a.x), list(a.y)
            if how == 'more':
                x2, y2 = x2 + [ch.at[9]], y2 + [ONE]
            elif how:
                v, i = {'x': (x2, 0), 'y': (y2, 1), 'ylast': (y2, -1)}[how[0]]
                v[i] = add(v[i], num(how[1]))
            for op in ('==', '!='):
                with t.ranges(box):
                    c = Script(ctx, MOD, 'def client(x, y, u, v):\n return PolyLine(x, y) %s PolyLine(u, v)' % op, [a.x, a.y, A(x2), A(y2)], need=['PolyLine'])
                    r = c.r
                    if isinstance(r, t.Node):
                        r = t.truth(t.asbool(r))
                    ctx.count('comparisons')
                    if not isinstance(r, bool):
                        ctx.undecided('equality', '%s %s %s' % (nm, op, lab), str(c.r)[:80])
                    elif r != (want == (op == '==')):
                        ctx.violation('equality', '%s %s %s' % (nm, op, lab), 'lines compare %s when %s' % ('equal' if want != (op == '==') else op, lab), c.where)
                    else:
                        ctx.ok('equality', '%s %s %s' % (nm, op, lab))


def other_types(ctx):
    for other in ('None', '2', "'line'"):
        for op in ('==', '!='):
            c = Script(ctx, MOD, 'def client(x, y):\n return PolyLine(x, y) %s %s' % (op, other), [A([ZERO, ONE]), A([s('a'), s('b')])], need=['PolyLine'])
            ctx.count('comparisons')
            r = t.truth(t.asbool(c.r)) if isinstance(c.r, t.Node) else c.r
            lab = 'line %s %s' % (op, other)
            if c.rejected() is t.TRUE:
                ctx.violation('equality', lab, 'comparing with something else fails', c.where)
            elif not isinstance(r, bool) or c.rejected() is not t.FALSE:
                ctx.undecided('equality', lab)
            elif r != (op == '!='):
                ctx.violation('equality', lab, 'a line equals something that is no line', c.where)
            else:
                ctx.ok('equality', lab)


def common(ctx, names):
    ch = Chain(11)
    box = dict(ch.box)
    ls = [Line(ch, box, 'abc'[i], LINES[n], (20, 60, 140)[i]) for i, n in enumerate(names)]
    lab = ', '.join(names)
    n = len(ls)
    pars = ', '.join('x%d, y%d' % (i, i) for i in range(n))
    body = ''.join(' l%d = PolyLine(x%d, y%d)\n' % (i, i, i) for i in range(n))
    out = ', '.join('r[%d].x, r[%d].y, r[%d].x1, r[%d].x2' % (i, i, i, i) for i in range(n))
    with t.ranges(box):
        c = Script(ctx, MOD, 'def client(%s):\n%s r = polyline_make_x_common(%s)\n return %s' % (pars, body, ', '.join('l%d' % i for i in range(n)), out),
                   [v for l in ls for v in (l.x, l.y)], need=['PolyLine', 'polyline_make_x_common'])
        levels = sorted({i for l in ls for i in l.lx})
        for i, l in enumerate(ls):
            got = points(ctx, 'common', '%s: line %d' % (lab, i), c, ch, 4 * i, 4 * i + 1)
            if not got:
                continue
            is_function(ctx, 'common', '%s: line %d' % (lab, i), c, ch, box, got, lambda q: limits(ch, l.sx, l.sy, q), 'the line is no longer the same function')
            for k, w in ((2, levels[:-1]), (3, levels[1:])):
                e = elements(c, c.item(4 * i + k))
                lv = None if e is None else [ch.level(v) for v in e]
                ctx.count('break points')
                if lv is None:
                    ctx.undecided('common', '%s: line %d x%d' % (lab, i, k - 1))
                elif lv != w:
                    ctx.violation('common', '%s: line %d x%d' % (lab, i, k - 1), 'segments do not end at all break points of all lines', c.where)
                else:
                    ctx.ok('common', '%s: line %d x%d' % (lab, i, k - 1))


def check(ctx):
    jobs = [lambda: scalars(ctx), lambda: forms(ctx), lambda: unsupported(ctx), lambda: equality(ctx), lambda: other_types(ctx)]
    for a, b in PAIRS:
        for op in '+-':
            jobs.append(lambda a=a, b=b, op=op: binary(ctx, a, b, op))
        jobs.append(lambda a=a, b=b: common(ctx, (a, b)))
    jobs += [lambda n=n: common(ctx, n) for n in TRIPLES]
    if ctx.tier != 'quick':
        done = set(PAIRS)
        jobs += [lambda a=a, b=b, op=op: binary(ctx, a, b, op) for a in LINES for b in LINES if (a, b) not in done for op in '+-']
        jobs += [lambda a=a, b=b: common(ctx, (a, b)) for a in LINES for b in LINES if (a, b) not in done]
    ctx.parallel(jobs)
