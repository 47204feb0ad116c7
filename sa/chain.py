"""Ordered abstract positions: a chain of levels c0 < c1 < ... whose gaps are symbols known to lie in a range.  Break points, query points and
limits are placed on levels, so every order relation between them is known, while their values stay symbolic."""
from fractions import Fraction as F
from . import terms as t
from .terms import num, ZERO, ONE, add, sub, mul, div

GAP = (F(1, 4), F(4))
BASE = (F(-20), F(20))


class Chain(object):
    def __init__(self, n, base='x0', gap='g', lo=BASE, rng=GAP):
        self.box = {base: lo} if lo else {}
        at = t.sym(base) if lo else ZERO
        self.at = [at]
        for i in range(1, n):
            nm = '%s%d' % (gap, i)
            self.box[nm] = rng
            self.at.append(add(self.at[-1], t.sym(nm)))

    def values(self, seed):
        """sample of the symbols inside their ranges"""
        return sample(self.box, seed)

    def level(self, n):
        """the level a term equals, None when it is not one of them"""
        for i, a in enumerate(self.at):
            if t.sign(sub(n, a)) == 0:
                return i


def sample(box, seed):
    out = {}
    for nm, (lo, hi) in box.items():
        lo, hi = t.mpf(lo.numerator) / lo.denominator, t.mpf(hi.numerator) / hi.denominator
        out[nm] = lo + (hi - lo) * t._rnd((seed, 'box', nm), t.mpf('0.02'), t.mpf('0.98'))
    return out


# ---- the meaning of a line: points (level, value) joined by straight pieces ------------------------------------------
def containing(lx, q, last=False):
    """start index of the non-vertical piece that holds level q"""
    ks = [k for k in range(len(lx) - 1) if lx[k] != lx[k + 1] and min(lx[k], lx[k + 1]) <= q <= max(lx[k], lx[k + 1])]
    return None if not ks else ks[-1] if last else ks[0]


def along(ch, lx, y, k, q):
    """value of piece k at level q"""
    if q == lx[k]:
        return y[k]
    if q == lx[k + 1]:
        return y[k + 1]
    x = ch.at
    return add(y[k], mul(sub(y[k + 1], y[k]), div(sub(x[q], x[lx[k]]), sub(x[lx[k + 1]], x[lx[k]]))))


def value(ch, lx, y, q, last=False):
    k = containing(lx, q, last)
    if k is None:
        near_first = (q < lx[0]) == (lx[0] <= lx[-1])
        return y[0] if near_first else y[-1]
    return along(ch, lx, y, k, q)


def product_integral(ch, lines, qa, qb):
    """integral from level qa to level qb (qa < qb) of the product of one or two increasing lines with the same break levels"""
    lx = lines[0][0]
    out = []
    for k in range(len(lx) - 1):
        a, b = max(lx[k], qa), min(lx[k + 1], qb)
        if a >= b:
            continue
        h = sub(ch.at[b], ch.at[a])
        va = [along(ch, lx, y, k, a) for _, y in lines]
        vb = [along(ch, lx, y, k, b) for _, y in lines]
        if len(lines) == 1:
            out.append(mul(num(F(1, 2)), h, add(va[0], vb[0])))
        else:
            (p, r), (q, s) = va, vb
            out.append(mul(num(F(1, 6)), h, add(mul(num(2), p, r), mul(p, s), mul(q, r), mul(num(2), q, s))))
    return add(ZERO, *out)
