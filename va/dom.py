"""Abstract values: constants, linear integer forms, uninterpreted terms, boolean atoms
and integer sets (interval lists)."""
INF = 1 << 200

UNIT = ('adt', '()', 0, ())
UNDEF = ('undef',)
TRUE = ('b', 1)
FALSE = ('b', 0)


def I(n):
    return ('i', n)


def B(x):
    return TRUE if x else FALSE


_rk = {}


def rk(t):
    k = _rk.get(t)
    if k is None:
        k = repr(t)
        _rk[t] = k
    return k


# ---------------------------------------------------------------- int sets
def iset(*rs):
    return tuple(rs)


FULL = ((-INF, INF),)


def is_norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def is_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def is_not(a):
    out = []
    cur = -INF
    for lo, hi in a:
        if lo > cur:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= INF:
        out.append((cur, INF))
    return tuple(out)


def is_size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def is_shift(a, k, sign=1):
    if sign > 0:
        return tuple((lo + k if lo > -INF else lo, hi + k if hi < INF else hi) for lo, hi in a)
    return tuple(sorted((k - hi if hi < INF else -INF, k - lo if lo > -INF else INF) for lo, hi in a))


def is_vals(a):
    for lo, hi in a:
        for v in range(lo, hi + 1):
            yield v


# ---------------------------------------------------------------- linear forms
def lin_of(v):
    """(const, {term: coef})"""
    if v[0] == 'i':
        return v[1], {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    if v[0] == 'b':
        return v[1], {}
    return 0, {v: 1}


def lin_mk(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return ('i', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: rk(x[0]))))


def ladd(a, b, kb=1):
    c, d = lin_of(a)
    c2, d2 = lin_of(b)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + kb * k
    return lin_mk(c + kb * c2, d)


def lscale(a, k):
    c, d = lin_of(a)
    return lin_mk(c * k, {t: x * k for t, x in d.items()})


def lsub(a, b):
    return ladd(a, b, -1)


def key_of(L):
    """normalised key of a non-constant linear form: (key, sign, const):
    L = const + sign*key, key a term or ('L', terms)"""
    c, d = lin_of(L)
    its = sorted(d.items(), key=lambda x: rk(x[0]))
    sign = 1 if its[0][1] > 0 else -1
    its = tuple((t, k * sign) for t, k in its)
    if len(its) == 1 and its[0][1] == 1:
        return its[0][0], sign, c
    return ('L', its), sign, c


def mk_ge0(L):
    if L[0] == 'i':
        return B(L[1] >= 0)
    key, s, c = key_of(L)
    # c + s*key >= 0
    if s > 0:
        return ('ge0', L)
    # c - key >= 0  <=> not (key >= c+1) <=> not(ge0(key - c - 1))
    return ('not', ('ge0', lin_neg1(L)))


def lin_neg1(L):
    # -L - 1
    return ladd(lscale(L, -1), I(-1))


def mk_eq0(L):
    if L[0] == 'i':
        return B(L[1] == 0)
    key, s, c = key_of(L)
    if s < 0:
        L = lscale(L, -1)
    return ('eq0', L)


def mk_not(b):
    if b[0] == 'b':
        return B(not b[1])
    if b[0] == 'not':
        return b[1]
    return ('not', b)


def is_term(v):
    return v[0] in ('t', 'p', 'y', 'elem')


def walk(v, f):
    """post-order rebuild of a value tree"""
    if not isinstance(v, tuple):
        return v
    r = tuple(walk(x, f) if isinstance(x, tuple) else x for x in v)
    return f(r)


def contains(v, pred):
    if not isinstance(v, tuple):
        return False
    if pred(v):
        return True
    return any(contains(x, pred) for x in v if isinstance(x, tuple))


def renorm(v):
    """rebuild linear forms after substitution"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'lin' and len(v) == 3 and isinstance(v[1], int):
        acc = I(v[1])
        for t, k in v[2]:
            acc = ladd(acc, lscale(renorm(t), k))
        return acc
    r = tuple(renorm(x) if isinstance(x, tuple) else x for x in v)
    return r


BINDERS = ('comp', 'sum')


def has_free(v, frm):
    if not isinstance(v, tuple):
        return False
    if v == frm:
        return True
    if v and v[0] in BINDERS and len(v) == 4 and v[1] == frm:
        return has_free(v[2], frm)
    for x in v:
        if isinstance(x, tuple) and has_free(x, frm):
            return True
    return False


def subst(v, frm, to):
    if not has_free(v, frm):
        return v

    def go(x):
        if x == frm:
            return to
        if not isinstance(x, tuple) or not x:
            return x
        if not has_free(x, frm):
            return x
        if x[0] == 'lin' and len(x) == 3 and isinstance(x[1], int):
            acc = I(x[1])
            for t, k in x[2]:
                acc = ladd(acc, lscale(go(t), k))
            return acc
        if x[0] in BINDERS and len(x) == 4:
            if x[1] == frm:
                return (x[0], x[1], go(x[2]), x[3])
            if has_free(to, x[1]):
                fresh = ('k', x[1][1] + "'")
                x = (x[0], fresh, x[2], subst(x[3], x[1], fresh))
            return (x[0], x[1], go(x[2]), go(x[3]))
        r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        if r[0] == 'eq0':
            return mk_eq0(r[1])
        if r[0] == 'ge0':
            return mk_ge0(r[1])
        if r[0] == 'not':
            return mk_not(r[1])
        if r[0] == 't':
            return mk_t(*r[1:])
        if r[0] == 'p':
            return mk_p(r[1], r[2], r[3])
        return r
    return go(v)


# ---------------------------------------------------------------- term constructors
def mk_p(base, variant, field):
    """projection of a field"""
    if base[0] == 'adt':
        if base[2] == variant and field < len(base[3]):
            return base[3][field]
        return ('t', 'badproj')
    if base[0] == 'clo':
        return base[2][field]
    if base[0] == 'o':
        for k, x in base[2]:
            if k == ('f', variant, field):
                return x
        return mk_p(base[1], variant, field)
    if base[0] == 'i':
        return base             # NonZero and the like
    return ('p', base, variant, field)


def mk_elem(seq, idx):
    if seq[0] == 'arr' and idx[0] == 'i':
        if 0 <= idx[1] < len(seq[1]):
            return seq[1][idx[1]]
        return ('t', 'badidx')
    if seq[0] == 'str' and idx[0] == 'i':
        b = seq[1].encode()
        return I(b[idx[1]]) if 0 <= idx[1] < len(b) else ('t', 'badidx')
    if seq[0] == 'comp':
        return subst(seq[3], seq[1], idx)
    if seq[0] == 't' and seq[1] == 'sub':
        return mk_elem(seq[2], ladd(seq[3], idx))
    if seq[0] == 'push' and lsub(mk_len(seq[1]), idx) == I(0):
        return seq[2]
    if seq[0] == 'push' and idx[0] == 'i' and mk_len(seq[1])[0] == 'i' and idx[1] < mk_len(seq[1])[1]:
        return mk_elem(seq[1], idx)
    if seq[0] == 'o':
        for k, x in seq[2]:
            if k[0] == 'i':
                if k[1] == idx:
                    return x
                d = lsub(k[1], idx)
                if d[0] != 'i':
                    return ('t', 'elem', seq, idx)
            elif k[0] == 's':
                return ('t', 'elem', seq, idx)
        return mk_elem(seq[1], idx)
    return ('t', 'elem', seq, idx)


def mk_len(s):
    if s[0] == 'arr':
        return I(len(s[1]))
    if s[0] == 'str':
        return I(len(s[1].encode()))
    if s[0] == 'comp':
        return s[2]
    if s[0] == 'push':
        return ladd(mk_len(s[1]), I(1))
    if s[0] in ('o', 'bytes'):
        return mk_len(s[1])
    if s[0] == 't' and s[1] == 'sub':
        return lsub(s[4], s[3])
    if s[0] == 't' and s[1] in ('sorted', 'splice', 'storeraw'):
        return mk_len(s[2])
    if s[0] == 't' and s[1] == 'concat':
        return ladd(mk_len(s[2]), mk_len(s[3]))
    if s[0] == 't' and s[1] == 'buf':
        return s[2]
    if s[0] == 't' and s[1] == 'nebytes':
        return I(s[2])
    if s[0] == 't' and s[1] == 'repeat':
        return s[3]
    return ('t', 'len', s)


def mk_push(s, x):
    if s[0] == 'arr':
        return ('arr', s[1] + (x,))
    if s[0] == 'comp' and s[3] == x and s[2] == s[1]:
        return ('comp', s[1], ladd(s[2], I(1)), s[3])
    return ('push', s, x)


def mk_t(op, *a):
    if op == 'elem':
        return mk_elem(*a)
    if op == 'len':
        return mk_len(*a)
    if op == '&' and a[0][0] == 't' and a[0][1] == '*':
        return a[0][2]
    if op == '*' and a[0][0] == 't' and a[0][1] == '&':
        return a[0][2]
    return ('t', op) + a


def plain(v):
    """erase references, dereferences and boxes: compare values modulo indirection"""
    def f(x):
        if x and x[0] == 't' and len(x) == 3 and x[1] in ('*', '&'):
            return x[2]
        if x and x[0] == 'box':
            return x[1]
        if x and x[0] == 'dyn':
            return x[1]
        if x and x[0] == 'p' and len(x) == 4:
            return mk_p(x[1], x[2], x[3])
        if x and x[0] == 't':
            return mk_t(*x[1:])
        return x
    return renorm(walk(v, f))
