"""Geometry of planar polygons and polyhedra: planes, areas, centroids, second moments, volumes"""
from fractions import Fraction as F
from sa import terms as t
from sa.scal import Script, A, same
from sa.terms import num, ZERO, ONE, add, sub, mul, div

TECHNIQUE = ('Abstract interpretation of client programs on symbolic polygons (vertices p0 + a U + b V with symbolic a, b, U, V bounded to one orientation class each); the value graphs are compared with the '
             'closed forms of the plane, area, centroid, second moments and volume by random interpretation.')
GE = 'geotecha.mathematics.geometry'
TR = 'geotecha.mathematics.transformations'
s = t.sym
W = F(1, 10000)
E = F(1, 100000)    # small slopes

# (name, U, V): centres of the ranges of the two in-plane vectors; None: exactly zero
FRAMES = [
    ('normal mostly +z', (2, F(1, 3), F(1, 4)), (F(-1, 3), 2, F(1, 5))),
    ('normal mostly -z', (F(-1, 3), 2, F(1, 5)), (2, F(1, 3), F(1, 4))),
    ('normal mostly +x', (F(1, 4), 2, F(1, 3)), (F(1, 5), F(-1, 3), 2)),
    ('normal mostly -x', (F(1, 5), F(-1, 3), 2), (F(1, 4), 2, F(1, 3))),
    ('normal mostly +y', (F(1, 3), F(1, 4), 2), (2, F(1, 5), F(-1, 3))),
    ('normal mostly -y', (2, F(1, 5), F(-1, 3)), (F(1, 3), F(1, 4), 2)),
    ('plane of constant z', (2, F(1, 3), None), (F(-1, 3), 2, None)),
    ('plane of constant z seen from below', (F(-1, 3), 2, None), (2, F(1, 3), None)),
    ('plane of constant x', (None, 2, F(1, 3)), (None, F(-1, 3), 2)),
    ('plane of constant y', (F(1, 3), None, 2), (2, None, F(-1, 3))),
    ('plane of constant y seen from behind', (2, None, F(-1, 3)), (F(1, 3), None, 2)),
    ('plane containing the x direction', (2, None, None), (None, F(3, 2), 1)),
    ('plane containing the y direction', (None, 2, None), (1, None, F(3, 2))),
    ('plane containing the z direction', (None, None, 2), (F(3, 2), 1, None)),
    ('plane of almost constant z', (2, F(1, 3), 2 * E), (F(-1, 3), 2, -E)),
    ('plane of almost constant x', (2 * E, 2, F(1, 3)), (-E, F(-1, 3), 2)),
    ('plane of almost constant y', (F(1, 3), E, 2), (2, 2 * E, F(-1, 3))),
]
SHAPES = [
    ('triangle', [(0, 0), (2, F(1, 2)), (F(1, 2), 3)]),
    ('quadrilateral', [(-1, -1), (2, F(-1, 2)), (3, 2), (F(-1, 2), F(3, 2))]),
    ('concave pentagon', [(0, 0), (4, F(1, 3)), (1, 1), (F(5, 2), 4), (F(-1, 2), 3)]),
]


class Poly(object):
    def __init__(self, frame, shape, order=1, repeat=False):
        self.box = {}
        self.U, self.V = [[self.var('%s%d' % (n, k), v) for k, v in enumerate(vec)] for n, vec in (('u', frame[1]), ('v', frame[2]))]
        self.p0 = [self.var('p%d' % k, v) for k, v in enumerate((1, -2, 3))]
        self.ab = [(self.var('a%d' % i, a), self.var('b%d' % i, b)) for i, (a, b) in enumerate(shape[1])]
        pts = [[add(self.p0[k], mul(a, self.U[k]), mul(b, self.V[k])) for k in range(3)] for a, b in self.ab]
        self.sign = order
        pts = pts if order > 0 else pts[:1] + pts[:0:-1]
        if repeat:
            pts = pts + pts[:1]
        self.pts = pts
        self.where = {}

    def var(self, n, c):
        if c is None:
            return ZERO
        w = min(W, abs(F(c)) / 8 or W)
        self.box[n] = (F(c) - w, F(c) + w)
        return s(n)

    def edges(self):
        return list(zip(self.ab, self.ab[1:] + self.ab[:1]))

    def cross(self, x, y):
        return [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))]

    def moment(self, f):
        """sum over triangles (origin, p, q) of cross * f"""
        return add(*[mul(sub(mul(p[0], q[1]), mul(p[1], q[0])), f(p, q)) for p, q in self.edges()])

    def all(self):
        h = lambda *v: num(F(*v))
        a2 = mul(h(1, 2), self.moment(lambda p, q: ONE))
        ca = div(mul(h(1, 6), self.moment(lambda p, q: add(p[0], q[0]))), a2)
        cb = div(mul(h(1, 6), self.moment(lambda p, q: add(p[1], q[1]))), a2)
        sq = lambda k: mul(h(1, 12), self.moment(lambda p, q: add(mul(p[k], p[k]), mul(p[k], q[k]), mul(q[k], q[k]))))
        pr = mul(h(1, 24), self.moment(lambda p, q: add(mul(num(2), p[0], p[1]), mul(p[0], q[1]), mul(q[0], p[1]), mul(num(2), q[0], q[1]))))
        vaa, vbb, vab = sub(div(sq(0), a2), mul(ca, ca)), sub(div(sq(1), a2), mul(cb, cb)), sub(div(pr, a2), mul(ca, cb))
        N = self.cross(self.U, self.V)
        L = t.fn('sqrt', add(*[mul(v, v) for v in N]))
        n = [div(mul(num(self.sign), v), L) for v in N]
        d = mul(num(-1), add(*[mul(p, v) for p, v in zip(self.p0, n)]))
        cen = [add(self.p0[k], mul(ca, self.U[k]), mul(cb, self.V[k])) for k in range(3)]
        sec = [add(mul(self.U[k], self.U[k], vaa), mul(num(2), self.U[k], self.V[k], vab), mul(self.V[k], self.V[k], vbb)) for k in range(3)]
        return mul(a2, L), n, d, cen, sec


def cmp(ctx, rule, lab, c, got, want, msg, **kw):
    if c.rejected() is t.TRUE:
        ctx.violation(rule, lab, 'it raises', c.where)
        return
    same(ctx, rule, lab, c.where, got(), want, msg, **kw)


XYZ = 'xyz'


def polygon(ctx, frame, shape, order, repeat, dim=3):
    P = Poly(frame, shape, order, repeat)
    lab = '%s, %s%s%s%s' % (shape[0], frame[0], '' if order > 0 else ', clockwise', ', first point repeated' if repeat else '', '' if dim == 3 else ', two coordinates')
    pts = [p[:dim] for p in P.pts]
    if dim == 2:
        P.p0[2] = ZERO
    area, n, d, cen, sec = P.all()
    k = dict(domain=P.box, seeds=(1, 2))
    with t.ranges(P.box):
        for form in ('p', 'np.array(p)'):
            run = lambda name, body='%s(%s)': Script(ctx, GE, 'def client(p):\n return %s' % (body % (name, form)), [A([A(p) for p in pts])], need=[name])
            f = '' if form == 'p' else ' (array)'
            c = run('eqn_of_plane')
            for i in range(3):
                cmp(ctx, 'plane', 'eqn_of_plane n%s of %s%s' % (XYZ[i], lab, f), c, lambda: c.value(i, of=c.item(0)), n[i], 'not the unit normal seen counter-clockwise', **k)
            cmp(ctx, 'plane', 'eqn_of_plane d of %s%s' % (lab, f), c, lambda: c.value(of=c.item(1)), d, 'not -n.p', **k)
            if f and repeat:
                continue
            c = run('polygon_area')
            cmp(ctx, 'area', 'polygon_area of %s%s' % (lab, f), c, lambda: c.at(), area, 'not the area', **k)
            c = run('polygon_centroid')
            for i in range(3):
                cmp(ctx, 'centroid', 'polygon_centroid %s of %s%s' % (XYZ[i], lab, f), c, lambda: c.at(i), cen[i], 'not the centroid', **k)
            if f:
                continue
            c = run('polygon_2nd_moment_of_area')
            for i in range(3):
                cmp(ctx, 'second moment', 'polygon_2nd_moment_of_area %s of %s' % (XYZ[i] * 2, lab), c, lambda: c.at(i), sec[i], 'not the mean squared distance from the centroid', **k)


def xyz(ctx):
    for dim in (2, 3):
        for close in (None, False, True):
            pts = [[s('%s%d' % (XYZ[k], i)) for k in range(dim)] for i in range(4)]
            c = Script(ctx, GE, 'def client(p):\n return xyz_from_pts(p%s)' % ('' if close is None else ', %s' % close), [A([A(p) for p in pts])], need=['xyz_from_pts'])
            rows = pts + pts[:1] if close else pts
            ln = Script(ctx, GE, 'def client(p):\n return [len(v) for v in xyz_from_pts(p%s)]' % ('' if close is None else ', %s' % close), [A([A(p) for p in pts])], need=['xyz_from_pts'])
            for k in range(3):
                lab = 'xyz_from_pts %s, %d coordinates, close=%s' % (XYZ[k], dim, close)
                cmp(ctx, 'coordinates', lab + ' length', ln, lambda: ln.at(k), num(len(rows)), 'wrong number of points')
                for i, p in enumerate(rows):
                    cmp(ctx, 'coordinates', '%s [%d]' % (lab, i), c, lambda: c.value(i, of=c.item(k)), p[k] if k < dim else ZERO, 'not the coordinate of the point')


def det(a, b, c):
    return add(mul(a[0], sub(mul(b[1], c[2]), mul(b[2], c[1]))), mul(num(-1), a[1], sub(mul(b[0], c[2]), mul(b[2], c[0]))), mul(a[2], sub(mul(b[0], c[1]), mul(b[1], c[0]))))


def vecs(names, centres, box):
    out = []
    for n, v in zip(names, centres):
        row = []
        for k, c in enumerate(v):
            if c is None:
                row.append(ZERO)
                continue
            w = min(W, abs(F(c)) / 8)
            box['%s%d' % (n, k)] = (F(c) - w, F(c) + w)
            row.append(s('%s%d' % (n, k)))
        out.append(row)
    return out


SOLIDS = [
    ('skew', (2, F(1, 3), F(1, 4)), (F(-1, 3), 2, F(1, 2)), (F(1, 5), F(-1, 4), 3)),
    ('axis-aligned', (2, None, None), (None, 3, None), (None, None, 1)),
    ('sheared along x', (2, None, None), (1, 3, None), (F(1, 2), None, 1)),
    ('almost axis-aligned', (2, E, 2 * E), (-E, 3, E), (3 * E, -2 * E, 1)),
    ('turned about y', (2, None, 1), (None, 3, None), (-1, None, 2)),
]


def plus(*v):
    return [add(*c) for c in zip(*v)]


def solids(ctx, sol):
    box = {}
    o, a, b, c = vecs('oabc', ((1, 2, -3),) + sol[1:], box)
    k = dict(domain=box, seeds=(1, 2))
    P = [o, plus(o, a), plus(o, b), plus(o, c)]
    V = det(a, b, c)
    faces = ((0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3))
    with t.ranges(box):
        for rep in (False, True):
            for flip in (False, True):
                fs = []
                for f in faces:
                    f = f[::-1] if flip else f
                    fs.append(A([A(P[i]) for i in (f + f[:1] if rep else f)]))
                src = 'def client(%s):\n return polyhedron_volume([%s])' % (', '.join('f%d' % i for i in range(4)), ', '.join('f%d' % i for i in range(4)))
                cl = Script(ctx, GE, src, fs, need=['polyhedron_volume'])
                lab = 'polyhedron_volume of a %s tetrahedron%s%s' % (sol[0], ', first points repeated' if rep else '', ', faces clockwise' if flip else '')
                cmp(ctx, 'volume', lab, cl, lambda: cl.at(), mul(num(F(-1 if flip else 1, 6)), V), 'not the volume', **k)
        # nodes 1..8: 1, 2 = 1 + up, 3 = 2 + right, 4 = 1 + right, 5..8 behind them
        right, behind, up = a, b, c
        N = [o, plus(o, up), plus(o, up, right), plus(o, right)]
        N += [plus(v, behind) for v in N]
        arg = [A([A(v) for v in N])]
        for form in ('v', 'np.array(v)'):
            cl = Script(ctx, GE, 'def client(v):\n return polyhedron_volume(make_hexahedron(%s))' % form, arg, need=['polyhedron_volume', 'make_hexahedron'])
            cmp(ctx, 'volume', 'polyhedron_volume of a %s parallelepiped from make_hexahedron(%s)' % (sol[0], form), cl, lambda: cl.at(), V, 'not the volume', **k)
        # six faces, each counter-clockwise seen from outside: the vector areas are the outward ones
        cl = Script(ctx, GE, 'def client(v):\n return [len(make_hexahedron(v))] + [len(f) for f in make_hexahedron(v)]', arg, need=['make_hexahedron'])
        for i in range(7):
            cmp(ctx, 'hexahedron', 'make_hexahedron of a %s parallelepiped, %s' % (sol[0], 'number of faces' if not i else 'nodes of face %d' % (i - 1)), cl, lambda: cl.at(i), num(4 if i else 6), 'wrong count', **k)


def rl(ctx):
    z, H, r = s('z'), s('H'), s('r')
    for lab, src, want in (('z', 'depth_to_reduced_level(z)', z), ('z, H', 'depth_to_reduced_level(z, H)', mul(z, H)), ('z, H=', 'depth_to_reduced_level(z, H=H)', mul(z, H)),
                           ('z, rlzero', 'depth_to_reduced_level(z, rlzero=r)', sub(r, z)), ('z, H, rlzero', 'depth_to_reduced_level(z, H, r)', sub(r, mul(z, H))),
                           ('z, H, rlzero=0', 'depth_to_reduced_level(z, H, 0)', mul(num(-1), z, H)), ('z, H, None', 'depth_to_reduced_level(z, H, None)', mul(z, H))):
        c = Script(ctx, TR, 'def client(z, H, r):\n return ' + src, [z, H, r], need=['depth_to_reduced_level'])
        cmp(ctx, 'level', 'depth_to_reduced_level(%s)' % lab, c, lambda: c.at(), want, 'not the depth or reduced level')
        c = Script(ctx, TR, 'def client(z, H, r):\n return ' + src, [A([s('z0'), s('z1')]), H, r], need=['depth_to_reduced_level'])
        for i in range(2):
            cmp(ctx, 'level', 'depth_to_reduced_level(%s) of an array [%d]' % (lab, i), c, lambda: c.at(i), t.subst(want, {z: s('z%d' % i)}), 'not the depth or reduced level')


def check(ctx):
    jobs = []
    for f in FRAMES:
        for sh in SHAPES:
            for order in (1, -1):
                for rep in (False, True):
                    if rep and (sh is SHAPES[2] or order < 0) and ctx.tier == 'quick':
                        continue
                    jobs.append(lambda f=f, sh=sh, order=order, rep=rep: polygon(ctx, f, sh, order, rep))
    for sh in SHAPES:
        for order in (1, -1):
            jobs.append(lambda sh=sh, order=order: polygon(ctx, FRAMES[6], sh, order, False, dim=2))
    jobs += [lambda: xyz(ctx), lambda: rl(ctx)] + [lambda v=v: solids(ctx, v) for v in SOLIDS]
    ctx.parallel(jobs)
