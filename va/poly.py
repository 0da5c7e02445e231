"""Emptiness of a system of linear inequalities over the rationals, by Fourier-Motzkin elimination:
the polyhedral refinement of the interval facts of a path."""
from math import gcd

LIMIT = 600


def norm(c, d):
    """c + sum d >= 0 over the integers: divide by the gcd of the coefficients, round the constant down"""
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        return c // g, {t: k // g for t, k in d.items()}
    return c, d


def empty(cons):
    """True when no integer (hence when no rational) point satisfies all 'c + sum k*t >= 0'; False: unknown"""
    cs = {}

    def put(dst, c, d):
        if not d:
            return c >= 0
        c, d = norm(c, d)
        k = frozenset(d.items())
        if k not in dst or dst[k] > c:
            dst[k] = c
        return True
    for c, d in cons:
        if not put(cs, c, dict(d)):
            return True
    while cs:
        occ = {}
        for k in cs:
            for t, x in k:
                p = occ.setdefault(t, [0, 0])
                p[x > 0] += 1
        t = min(occ, key=lambda t: (occ[t][0] * occ[t][1] - occ[t][0] - occ[t][1], repr(t)))
        pos, neg, rest = [], [], {}
        for k, c in cs.items():
            d = dict(k)
            x = d.pop(t, 0)
            if x > 0:
                pos.append((x, c, d))
            elif x < 0:
                neg.append((-x, c, d))
            else:
                rest[k] = c
        if len(rest) + len(pos) * len(neg) > LIMIT:
            return False
        for x, c, d in pos:
            for y, c2, d2 in neg:
                e = {}
                for u, v in d.items():
                    e[u] = v * y
                for u, v in d2.items():
                    e[u] = e.get(u, 0) + v * x
                e = {u: v for u, v in e.items() if v}
                if not put(rest, c * y + c2 * x, e):
                    return True
        cs = rest
    return False
