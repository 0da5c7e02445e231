"""Byte buffers: memory as an unknown base plus an ordered list of writes at linear
offsets, raw pointers into slices, residues modulo powers of two and bit fields."""
from .dom import *
from . import models, poly
from .engine import Analysis, WIDTH, Imprecise
from .models import load, store, snap, split, NONE, some

U8S = ('u8', 'i8')


def is_bytes(v):
    return v[0] == 'bytes'


# ------------------------------------------------------------------ residues
def low(A, e):
    """e mod A (A a power of two) in normal form"""
    if A == 1:
        return I(0)
    c, d = lin_of(e)
    for _ in range(50):
        for t in d:
            if t[0] == 't' and t[1] == 'low' and t[2] % A == 0:
                k = d.pop(t)
                c2, d2 = lin_of(t[3])
                c += k * c2
                for x, y in d2.items():
                    d[x] = d.get(x, 0) + k * y
                break
        else:
            break
    h = A // 2

    def sym(k):
        k %= A
        return k - A if k > h else k
    d = {t: sym(k) for t, k in d.items() if k % A}
    c %= A
    if not d:
        return I(c)
    lead = [k for _, k in sorted(d.items(), key=lambda x: rk(x[0])) if k != h]
    if lead and lead[0] < 0:
        # e mod A = A-1 - ((-e-1) mod A)
        r = low(A, lin_mk(-c - 1, {t: -k for t, k in d.items()}))
        return lsub(I(A - 1), r)
    if not lead and c >= h:
        # adding A/2 flips the top bit of a value that is 0 or A/2 (mod A) apart from the constant
        if A == 2:
            return lsub(I(1), low(2, lin_mk(0, d)))
    return ('t', 'low', A, lin_mk(c, d))


def low_mods(v, out=None):
    out = set() if out is None else out
    for t, k in lin_of(v)[1].items():
        if t[0] == 't' and t[1] == 'low':
            out.add(t[2])
    return out


# ------------------------------------------------------------------ bits
def segs_norm(segs):
    """canonical form: constants become one mask of ones, which covers what lies under it"""
    ones = 0
    rest = []
    for lo, n, src, sl in segs:
        if n <= 0:
            continue
        if src[0] == 'i':
            ones |= ((src[1] >> sl) & ((1 << n) - 1)) << lo
        else:
            rest.append((lo, n, src, sl))
    rest.sort(key=lambda s: s[0])
    out = []
    for lo, n, src, sl in rest:
        j = 0
        while j < n:
            if ones >> (lo + j) & 1:
                j += 1
                continue
            k = j
            while k < n and not ones >> (lo + k) & 1:
                k += 1
            if out and out[-1][2] == src and out[-1][0] + out[-1][1] == lo + j and out[-1][3] + out[-1][1] == sl + j:
                l0, n0, _, sl0 = out.pop()
                out.append((l0, n0 + k - j, src, sl0))
            else:
                out.append((lo + j, k - j, src, sl + j))
            j = k
    lo = 0
    while ones >> lo:
        if ones >> lo & 1:
            n = 1
            while ones >> (lo + n) & 1:
                n += 1
            out.append((lo, n, I((1 << n) - 1), 0))
            lo += n
        else:
            lo += 1
    out.sort(key=lambda s: s[0])
    return out


class ByteAnalysis(Analysis):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.raw_viol = {}
        self.raw_ok = {}
        self.polymemo = {}
        self.ptrcast_hook = ptrcast
        self.hooks.update(BHOOKS)
        self.extra_ranges = {}
        self.forget = False     # memory of unknown contents: writes are only checked, every load gives any value

    # ------------------------------------------------------------ ranges and facts
    def default_range(self, t):
        if t[0] == 't':
            if t[1] == 'low':
                return ((0, t[2] - 1),)
            if t[1] == 'ld':
                return ((0, (1 << (8 * t[4])) - 1),)
            if t[1] == 'bits':
                lo, n = t[2][-1][0], t[2][-1][1]
                return ((0, (1 << (lo + n)) - 1),)
        return super().default_range(t)

    def prove_ge0(self, st, L, depth):
        if super().prove_ge0(st, L, depth):
            return True
        if L[0] == 'i' or depth < 1:
            return False
        for A in sorted(low_mods(L), reverse=True):
            r = low(A, L)
            if r[0] == 'i' and r[1] != A - 1:
                if Analysis.prove_ge0(self, st, ladd(L, I(A - 1 - r[1])), depth):
                    return True
        return depth == 2 and self.poly(st, L)

    def poly(self, st, L):
        """L >= 0 because the facts together with L < 0 have no solution"""
        k = (L, frozenset(st.facts.items()))
        r = self.polymemo.get(k)
        if r is None:
            neg = lin_neg1(L)
            for A in sorted(low_mods(L), reverse=True):
                m = low(A, L)
                if m[0] == 'i':
                    neg = ladd(lscale(L, -1), I(m[1] - A))
                    break
            r = self.polymemo[k] = self.infeasible(st, neg)
        return r

    def infeasible(self, st, extra=None):
        """the linear facts of the state have no common solution"""
        rows = []
        for k, r in st.facts.items():
            if not r:
                return True
            if k[0] == 'L':
                rows.append((dict(k[1]), r))
        need = set(lin_of(extra)[1]) if extra is not None else {t for d, _ in rows for t in d}
        cons = []
        if extra is not None:
            if extra[0] == 'i':
                return extra[1] < 0
            cons.append(lin_of(extra))
        left = rows
        while True:
            use = [x for x in left if not need.isdisjoint(x[0])]
            if not use:
                break
            left = [x for x in left if need.isdisjoint(x[0])]
            for d, r in use:
                need |= set(d)
                if r[0][0] > -INF:
                    cons.append((-r[0][0], d))
                if r[-1][1] < INF:
                    cons.append((r[-1][1], {t: -k for t, k in d.items()}))
        for t in need:
            r = self.rng(st, t)
            if not r:
                return True
            if r[0][0] > -INF:
                cons.append((-r[0][0], {t: 1}))
            if r[-1][1] < INF:
                cons.append((r[-1][1], {t: -1}))
        return poly.empty(cons)

    def addfact(self, st, key, w):
        if key[0] == 'L':
            if len(key[1]) == 1:
                t, k = key[1][0]
                return self.addfact(st, t, is_norm(tuple((lo if lo <= -INF else -(-lo // k), hi if hi >= INF else hi // k) for lo, hi in w)))
            e = lin_mk(0, dict(key[1]))
            for A in sorted(low_mods(e), reverse=True):
                r = low(A, e)
                if r[0] == 'i':
                    w = is_norm(tuple((lo if lo <= -INF else lo + (r[1] - lo) % A, hi if hi >= INF else hi - (hi - r[1]) % A) for lo, hi in w))
                    break
        return super().addfact(st, key, w)

    def proves(self, st, L):
        return self.decide(st, mk_ge0(L)) is True

    # ------------------------------------------------------------ bit operations
    def segs(self, st, v):
        """segments (position, width, source, position in source) of a non-negative value, or None"""
        if v[0] == 'i':
            return [(0, v[1].bit_length(), v, 0)] if v[1] >= 0 else None
        if v[0] == 't' and v[1] == 'bits':
            return list(v[2])
        r = self.vrange(st, v)
        if not r or r[0][0] < 0 or r[-1][1] >= INF:
            return None
        if v[0] == 'lin':
            if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] > 0 and v[2][0][1] & (v[2][0][1] - 1) == 0:
                t, k = v[2][0]
                s = self.segs(st, t)
                sh = k.bit_length() - 1
                return None if s is None else [(lo + sh, n, src, sl) for lo, n, src, sl in s]
            return None
        if is_term(v):
            return [(0, r[-1][1].bit_length(), v, 0)]
        return None

    def unsegs(self, st, segs):
        segs = segs_norm(segs)
        if not segs:
            return I(0)
        if all(x[2][0] == 'i' for x in segs):
            return I(sum(x[2][1] << x[0] for x in segs))
        if len(segs) == 1:
            lo, n, src, sl = segs[0]
            r = self.vrange(st, src)
            if sl == 0 and r and r[0][0] >= 0 and r[-1][1] < (1 << n):
                return lscale(src, 1 << lo)
        return ('t', 'bits', tuple(segs))

    def arith(self, st, op, a, b, s):
        if op in ('BitAnd', 'BitOr', 'Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked') and s in WIDTH and not (a[0] in 'ib' and b[0] in 'ib'):
            r = self.bitop(st, op, a, b, s)
            if r is not None:
                return r
        if op in ('Div', 'Rem') and b[0] == 'i' and b[1] > 0 and b[1] & (b[1] - 1) == 0 and a[0] != 'i':
            r = self.vrange(st, a)
            if r and r[0][0] >= 0:
                l = self.conc(st, low(b[1], a))
                if op == 'Rem':
                    return l
                q = self.exactdiv(lsub(a, l), b[1])
                if q is not None:
                    return q
        return super().arith(st, op, a, b, s)

    def exactdiv(self, e, k):
        c, d = lin_of(e)
        if c % k or any(x % k for x in d.values()):
            return None
        return lin_mk(c // k, {t: x // k for t, x in d.items()})

    def bitop(self, st, op, a, b, s):
        w = WIDTH[s]
        if s[0] != 'u':
            return None
        full = (1 << w) - 1
        if op == 'BitAnd':
            if a[0] == 'i':
                a, b = b, a
            if b[0] != 'i':
                return None
            m = b[1] & full
            ra = self.vrange(st, a)
            if not ra or (ra[0][0] < 0 or ra[-1][1] > full) and not (self.proves(st, a) and self.proves(st, lsub(I(full), a))):
                return None
            if m == full:
                return a
            sg = self.segs(st, a)
            arith_like = sg is None or not (a[0] == 't' and a[1] in ('bits', 'ld') or a[0] == 'lin')
            if arith_like or a[0] == 'lin':
                for k in range(1, w):
                    A = 1 << k
                    if m == A - 1:
                        return self.conc(st, low(A, a))
                    if m == full - (A - 1):
                        return self.conc(st, lsub(a, low(A, a)))
            if sg is None:
                return None
            out = []
            for lo, n, src, sl in sg:
                j = 0
                while j < n:
                    k = j
                    bit = m >> (lo + j) & 1
                    while k < n and (m >> (lo + k) & 1) == bit:
                        k += 1
                    if bit:
                        out.append((lo + j, k - j, src, sl + j))
                    j = k
            return self.unsegs(st, out)
        if op == 'BitOr':
            sa, sb = self.segs(st, a), self.segs(st, b)
            for x, y in ((a, b), (b, a)):
                r = self.vrange(st, y)
                if r and r[0][0] >= 0:
                    cand = [1 << k for k in range(1, 13)]
                    for A in cand:
                        if r[0][0] >= 0 and (r[-1][1] < A or self.proves(st, lsub(I(A - 1), y))):
                            if self.conc(st, low(A, x)) == I(0):
                                return ladd(x, y)
                            break
                elif y[0] != 'i' and self.proves(st, y):
                    for A in [1 << k for k in range(1, 13)]:
                        if self.proves(st, lsub(I(A - 1), y)):
                            if self.conc(st, low(A, x)) == I(0):
                                return ladd(x, y)
                            break
            if sa is None or sb is None:
                return None
            sa, sb = segs_norm(sa), segs_norm(sb)
            for x in sa:
                for y in sb:
                    if x[0] < y[0] + y[1] and y[0] < x[0] + x[1] and x[2][0] != 'i' and y[2][0] != 'i':
                        return None
            return self.unsegs(st, sa + sb)
        n = self.conc(st, b)
        if n[0] != 'i' or not 0 <= n[1] < w:
            return None
        if n[1] == 0:
            return a
        sg = self.segs(st, a)
        if sg is None:
            return None
        k = n[1]
        out = []
        for lo, m, src, sl in sg:
            if op.startswith('Shl'):
                lo2, m2 = lo + k, min(m, w - lo - k)
                if m2 > 0:
                    out.append((lo2, m2, src, sl))
            else:
                if lo + m <= k:
                    continue
                cut = max(0, k - lo)
                out.append((lo + cut - k, m - cut, src, sl + cut))
        return self.unsegs(st, out)

    def cast(self, st, kind, v, fi, ti, extra):
        if kind.startswith('IntToInt') and v[0] not in ('i', 'b'):
            s = self.prog.types[ti]['s']
            if s in WIDTH and s[0] == 'u' and not self.fits(st, v, s):
                sg = self.segs(st, v)
                if sg is not None:
                    w = WIDTH[s]
                    return self.unsegs(st, [(lo, min(n, w - lo), src, sl) for lo, n, src, sl in sg if lo < w])
                if self.proves(st, v) and self.proves(st, lsub(I((1 << WIDTH[s]) - 1), v)):
                    return v
        return super().cast(st, kind, v, fi, ti, extra)

    # ------------------------------------------------------------ memory
    def tsize(self, ti):
        t = self.prog.types[ti]
        s = t.get('size')
        if s is None and t['s'] in WIDTH:
            s = WIDTH[t['s']] // 8
        if s is None:
            raise Imprecise('size of %s' % t['s'])
        return s

    def talign(self, ti):
        return self.prog.types[ti].get('align') or 1

    def region(self, st, cell, projs):
        """(projections of the whole buffer, start, length) of a slice of bytes"""
        if projs and projs[-1][0] == 's':
            return projs[:-1], projs[-1][1], lsub(projs[-1][2], projs[-1][1])
        return projs, I(0), mk_len(Analysis.read(self, st, cell, projs))

    def rawat(self, projs):
        for i, p in enumerate(projs):
            if p[0] == 'raw':
                return i
        return None

    def site(self, st):
        fr = st.frames[-1]
        return (fr.func.path, getattr(self, 'cursite', None))

    def rawcheck(self, st, cell, projs, size, align, wr, mutable, deref):
        """bounds, alignment and permission of an access through a pointer"""
        p0, raw = projs[:-1], projs[-1]
        base, lo, n = self.region(st, cell, p0)
        fn, site = self.site(st)
        k = (fn, site or (st.frames[-1].bb,))
        self.raw_ok[k] = self.raw_ok.get(k, 0) + 1
        what = 'write' if wr else 'read'
        if wr and not mutable:
            self.raw_viol.setdefault((fn, 'writes through a pointer to shared data'), []).append((None, site))
        if deref and align > 1:
            self.raw_viol.setdefault((fn, '%s of a value aligned to %d at an arbitrary address' % (what, align)), []).append((None, site))
        for cond, msg in ((raw[1], 'before the start'), (lsub(n, ladd(raw[1], size)), 'past the end')):
            if self.decide(st, mk_ge0(cond)) is not True:
                s2 = st.copy()
                if self.assume(s2, mk_ge0(cond), False):
                    self.raw_viol.setdefault((fn, '%s %s of a slice' % (what, msg)), []).append((s2, site))
        return base, ladd(lo, raw[1])

    def bytesval(self, st, cell, base):
        v = Analysis.read(self, st, cell, base)
        return v if is_bytes(v) else ('bytes', v, ())

    def read(self, st, cell, projs):
        i = self.rawat(projs)
        if i is not None:
            raw = projs[i]
            n = self.tsize(raw[2])
            base, off = self.rawcheck(st, cell, projs[:i + 1], I(n), self.talign(raw[2]), False, raw[3], True)
            v = self.loadat(st, self.bytesval(st, cell, base), off, n, raw[2])
            for p in projs[i + 1:]:
                v = self.project(v, p)
            return v
        self._st = st
        return Analysis.read(self, st, cell, projs)

    def project(self, v, p):
        if is_bytes(v):
            if p[0] == 'i':
                return self.loadat(self._st, v, p[1], 1, None)
            if p[0] == 's':
                return self.chunk(self._st, v, p[1], p[2])
        return Analysis.project(self, v, p)

    def write(self, st, cell, projs, val):
        i = self.rawat(projs)
        if i is not None:
            if i != len(projs) - 1:
                raise Imprecise('write into a part of a raw value')
            raw = projs[i]
            n = self.tsize(raw[2])
            base, off = self.rawcheck(st, cell, projs, I(n), self.talign(raw[2]), True, raw[3], True)
            self.storeat(st, cell, base, off, n, val, raw[2])
            return
        if projs and projs[-1][0] in 'is':
            b = Analysis.read(self, st, cell, projs[:-1])
            if is_bytes(b):
                p = projs[-1]
                if p[0] == 'i':
                    self.storeat(st, cell, projs[:-1], p[1], 1, val, None)
                else:
                    self.storechunk(st, cell, projs[:-1], p[1], lsub(p[2], p[1]), val)
                return
        if not projs or projs[-1][0] not in 'is':
            b = Analysis.read(self, st, cell, projs) if cell in st.mem else UNDEF
            if is_bytes(b) and not is_bytes(val) and mk_len(b) == mk_len(val):
                self.storechunk(st, cell, projs, I(0), mk_len(b), val)
                return
        Analysis.write(self, st, cell, projs, val)

    def storeat(self, st, cell, base, off, n, val, ti):
        if self.forget:
            return
        v = self.bytesval(st, cell, base)
        ws = tuple(w for w in v[2] if not (w[0] == off and w[1] == I(n)))
        if val[0] == 'bytes':
            raise Imprecise('bytes of bytes')
        Analysis.write(self, st, cell, base, ('bytes', v[1], ws + ((off, I(n), val, -1 if ti is None else ti),)))

    def storechunk(self, st, cell, base, off, n, val):
        if self.forget:
            return
        if val[0] == 't' and val[1] == 'nebytes' and n[0] == 'i':
            self.storeat(st, cell, base, off, n[1], val[4], val[3])
            return
        n = self.conc(st, n)
        if n == I(0):
            return
        v = self.bytesval(st, cell, base)
        if val[0] == 'arr':
            for j, x in enumerate(val[1]):
                self.storeat(st, cell, base, ladd(off, I(j)), 1, x, None)
            return
        ws = tuple(w for w in v[2] if not (w[0] == off and w[1] == n))
        Analysis.write(self, st, cell, base, ('bytes', v[1], ws + ((off, n, ('chunk', val), -1),)))

    def disjoint(self, st, o1, n1, o2, n2):
        return self.proves(st, lsub(o2, ladd(o1, n1))) or self.proves(st, lsub(o1, ladd(o2, n2)))

    def loadat(self, st, v, off, n, ti):
        if not is_bytes(v):
            v = ('bytes', v, ())
        off = self.conc(st, off)
        r = None
        if self.forget:
            ti = self.prog.tyidx['u%d' % (8 * n)] if ti is None else ti
            return self.fresh('load', ti)
        for o, m, val, wt in reversed(v[2]):
            if m == I(n) and (o == off or self.conc(st, lsub(o, off)) == I(0)) and val[0] not in ('chunk', 'moved'):
                r = self.retype(st, val, None if wt == -1 else wt, ti, n)
                break
            if self.disjoint(st, o, m, off, I(n)):
                continue
            if val[0] == 'chunk' and n == 1 and self.proves(st, lsub(off, o)) and self.proves(st, lsub(ladd(o, m), ladd(off, I(1)))):
                r = mk_elem(val[1], lsub(off, o))
                break
            if val[0] == 'i' and m[0] == 'i' and lsub(off, o)[0] == 'i' and 0 <= lsub(off, o)[1] and lsub(off, o)[1] + n <= m[1] and val[1] >= 0:
                r = I(val[1] >> 8 * lsub(off, o)[1] & (1 << 8 * n) - 1)
                break
            r = ('t', 'ldx', v, off, n)
            break
        if r is None:
            r = ('t', 'ld', v[1], off, n)
        if is_term(r) and ti is not None and self.prog.types[ti]['k'] not in ('uint',):
            if r[1] in ('ld', 'ldx'):
                r = ('t', 'as', self.prog.types[ti]['s'], r)
        if is_term(r) and ti is not None:
            self.settype(r, ti)
        return r

    def retype(self, st, val, wt, ti, n):
        if ti is None or wt is None or wt == ti:
            return val
        a, b = self.prog.types[wt], self.prog.types[ti]
        if a['s'] == b['s']:
            return val
        if a['k'] in ('uint', 'int') and b['k'] in ('uint', 'int'):
            if val[0] == 'i':
                return I(self.wrap(val[1], b['s']))
            if self.fits(st, val, b['s']):
                return val
        r = ('t', 'as', b['s'], val)
        self.settype(r, ti)
        return r

    def chunk(self, st, v, lo, hi):
        n = self.conc(st, lsub(hi, lo))
        lo = self.conc(st, lo)
        if lo == I(0) and hi == mk_len(v):
            return v
        for o, m, val, wt in reversed(v[2]):
            if self.conc(st, lsub(o, lo)) == I(0) and self.conc(st, lsub(m, n)) == I(0):
                if val[0] == 'chunk':
                    return val[1]
                if val[0] != 'moved' and wt != -1:
                    return ('t', 'nebytes', m[1], wt, val)
            if self.disjoint(st, o, m, lo, n):
                continue
            break
        return ('t', 'sub', v, lo, hi)

    def memmove(self, st, cell, base, src, dst, n):
        v = self.bytesval(st, cell, base)
        n = self.conc(st, n)
        if n == I(0) or self.forget:
            return
        if self.conc(st, lsub(src, dst)) == I(0):
            return
        ws = list(v[2])
        whole = (dst, n, ('moved', v, src), -1)
        new = [whole]
        for o, m, val, wt in v[2]:
            if self.proves(st, lsub(o, src)) and self.proves(st, lsub(ladd(src, n), ladd(o, m))):
                new.append((ladd(o, lsub(dst, src)), m, val, wt))
            elif self.disjoint(st, o, m, src, n):
                continue
            else:
                new = [whole]
        Analysis.write(self, st, cell, base, ('bytes', v[1], tuple(ws + new)))


# ------------------------------------------------------------------ hooks
BHOOKS = {}


def bhook(*paths):
    def deco(f):
        for p in paths:
            BHOOKS[p] = f
        return f
    return deco


def unbox(A, st, r):
    if r[0] == 'ref':
        v = A.read(st, r[1], r[2])
        if v[0] == 'box':
            r = A.boxptr_v(v, r[1], r[2])
    return r


def ptrcast(A, st, v, fi, ti):
    ft, tt = A.prog.types[fi], A.prog.types[ti]
    if v[0] == 'ref' and v[2] and v[2][-1][0] == 'raw' and tt['k'] in ('ptr', 'ref'):
        raw = v[2][-1]
        return ('ref', v[1], v[2][:-1] + (('raw', raw[1], A.pointee(ti), raw[3]),))
    return v


@bhook('core::intrinsics::transmute', 'core::mem::transmute', 'core::intrinsics::transmute_unchecked')
def h_transmute(A, st, c, w):
    ti = c.dty
    fi = c.atys[0]
    v = c.args[0]
    if A.prog.types[ti]['k'] in ('ptr', 'ref') and A.prog.types[fi]['k'] in ('ptr', 'ref'):
        return [(st, ptrcast(A, st, v, fi, ti))]
    return NotImplemented


@bhook('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'alloc::vec::Vec::<T, A>::as_ptr', 'alloc::vec::Vec::<T, A>::as_mut_ptr')
def h_as_ptr(A, st, c, w):
    r = unbox(A, st, c.args[0])
    ti = c.cal['args'][0]
    if A.prog.types[ti]['s'] in U8S and r[0] == 'ref':
        return [(st, ('ref', r[1], r[2] + (('raw', I(0), ti, c.name == 'as_mut_ptr'),)))]
    return NotImplemented


@bhook('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut', 'core::str::<impl str>::get_unchecked')
def h_unchecked(A, st, c, w):
    """an index without a bounds check: a raw access"""
    ref, idx = c.args[0], c.args[1]
    r = unbox(A, st, ref)
    if r[0] != 'ref':
        return NotImplemented
    n = A.conc(st, mk_len(A.read(st, r[1], r[2])))
    A.cursite = c.site
    k = A.site(st)
    fn = k[0]
    A.raw_ok[k] = A.raw_ok.get(k, 0) + 1
    if idx[0] == 'adt':
        b = models.range_bounds(idx, n)
        if b is None:
            return NotImplemented
        conds = [(lsub(b[1], b[0]), 'a range that ends before it begins'), (lsub(n, b[1]), 'a range past the end of a slice')]
    else:
        conds = [(ladd(lsub(n, idx), I(-1)), 'an index past the end of a slice')]
    for cond, msg in conds:
        if A.decide(st, mk_ge0(cond)) is not True:
            s2 = st.copy()
            if A.assume(s2, mk_ge0(cond), False):
                A.raw_viol.setdefault((fn, msg), []).append((s2, c.site))
            if not A.assume(st, mk_ge0(cond), True):
                return None
    return [(st, models.subref(A, st, ref, b[0], b[1]) if idx[0] == 'adt' else models.elemref(A, st, ref, idx))]


CP, MP = 'core::ptr::const_ptr::<impl *const T>::', 'core::ptr::mut_ptr::<impl *mut T>::'


def rawptr(v):
    return v[0] == 'ref' and v[2] and v[2][-1][0] == 'raw'


def ptr_shift(sign, scaled):
    def h(A, st, c, w):
        v = c.args[0]
        if not rawptr(v):
            return NotImplemented
        raw = v[2][-1]
        n = lscale(c.args[1], sign * (A.tsize(raw[2]) if scaled else 1))
        return [(st, ('ref', v[1], v[2][:-1] + (('raw', ladd(raw[1], n), raw[2], raw[3]),)))]
    return h


for _q in (CP, MP):
    for _n in ('add', 'offset', 'wrapping_add', 'wrapping_offset'):
        BHOOKS[_q + _n] = ptr_shift(1, True)
    for _n in ('sub', 'wrapping_sub'):
        BHOOKS[_q + _n] = ptr_shift(-1, True)
    BHOOKS[_q + 'byte_add'] = ptr_shift(1, False)


@bhook(CP + 'cast', MP + 'cast', CP + 'cast_mut', MP + 'cast_const')
def h_cast(A, st, c, w):
    v = c.args[0]
    if not rawptr(v):
        return [(st, v)]
    return [(st, ptrcast(A, st, v, c.atys[0], c.dty))]


def reader(unaligned):
    def h(A, st, c, w):
        v = c.args[0]
        if not rawptr(v):
            return [(st, load(A, st, v))] if v[0] == 'ref' else NotImplemented
        raw = v[2][-1]
        ti = c.dty if c.dty is not None else raw[2]
        A.cursite = c.site
        n = A.tsize(ti)
        base, off = A.rawcheck(st, v[1], v[2], I(n), A.talign(ti), False, raw[3], not unaligned)
        return [(st, A.loadat(st, A.bytesval(st, v[1], base), off, n, ti))]
    return h


def writer(unaligned):
    def h(A, st, c, w):
        v = c.args[0]
        if not rawptr(v):
            if v[0] != 'ref':
                return NotImplemented
            store(A, st, v, c.args[1])
            return [(st, UNIT)]
        raw = v[2][-1]
        ti = c.atys[1]
        A.cursite = c.site
        n = A.tsize(ti)
        base, off = A.rawcheck(st, v[1], v[2], I(n), A.talign(ti), True, raw[3], not unaligned)
        A.storeat(st, v[1], base, off, n, c.args[1], ti)
        return [(st, UNIT)]
    return h


for _p in ('core::ptr::', CP, MP):
    BHOOKS[_p + 'read_unaligned'] = reader(True)
    BHOOKS[_p + 'read'] = reader(False)
    BHOOKS[_p + 'read_volatile'] = reader(False)
    BHOOKS[_p + 'write_unaligned'] = writer(True)
    BHOOKS[_p + 'write'] = writer(False)
    BHOOKS[_p + 'write_volatile'] = writer(False)


@bhook('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut')
def h_parts(A, st, c, w):
    v, n = c.args[0], A.conc(st, c.args[1])
    if not rawptr(v):
        return NotImplemented
    raw = v[2][-1]
    if A.tsize(raw[2]) != 1:
        return NotImplemented
    A.cursite = c.site
    base, off = A.rawcheck(st, v[1], v[2], n, 1, c.name.endswith('mut'), raw[3], False)
    return [(st, ('ref', v[1], base + (('s', off, ladd(off, n)),)))]


def mover(order):
    def h(A, st, c, w):
        a = c.args
        src, dst, n = (a[0], a[1], a[2]) if order == 'sd' else (a[1], a[0], a[2])
        if not (rawptr(src) and rawptr(dst)) or A.tsize(src[2][-1][2]) != 1:
            return NotImplemented
        A.cursite = c.site
        b1, o1 = A.rawcheck(st, src[1], src[2], n, 1, False, True, False)
        b2, o2 = A.rawcheck(st, dst[1], dst[2], n, 1, True, dst[2][-1][3], False)
        if (src[1], b1) != (dst[1], b2):
            v = A.chunk(st, A.bytesval(st, src[1], b1), o1, ladd(o1, n))
            A.storechunk(st, dst[1], b2, o2, n, v)
        else:
            A.memmove(st, dst[1], b2, o1, o2, n)
        return [(st, UNIT)]
    return h


for _n in ('copy', 'copy_nonoverlapping'):
    BHOOKS['core::ptr::' + _n] = BHOOKS['core::intrinsics::' + _n] = mover('sd')
    for _q in (CP, MP):
        BHOOKS[_q + _n.replace('copy', 'copy_to')] = mover('sd')
    BHOOKS[MP + _n.replace('copy', 'copy_from')] = mover('ds')


@bhook('core::slice::<impl [T]>::copy_within')
def h_within(A, st, c, w):
    r = unbox(A, st, c.args[0])
    v = A.read(st, r[1], r[2])
    n = A.conc(st, mk_len(v))
    b = models.range_bounds(c.args[1], n) if c.args[1][0] == 'adt' else None
    if b is None:
        return NotImplemented
    lo, hi = b
    dst = c.args[2]
    for cond, msg in ((lsub(hi, lo), 'slice index order'), (lsub(n, hi), 'slice end out of range'), (lsub(lsub(n, lsub(hi, lo)), dst), 'dest is out of bounds')):
        t, f = split(A, st, mk_ge0(cond))
        if f:
            A.panic(f, c.site, msg)
        if not t:
            return None
        st = t
    base, off, _ = A.region(st, r[1], r[2])
    A.memmove(st, r[1], base, ladd(off, lo), ladd(off, dst), lsub(hi, lo))
    return [(st, UNIT)]


@bhook('core::intrinsics::integer_max', 'core::intrinsics::integer_min', 'core::cmp::max', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min')
def h_minmax(A, st, c, w):
    a, b = c.args
    if A.prog.types[c.dty]['k'] not in ('uint', 'int') if c.dty is not None else True:
        return NotImplemented
    t, f = split(A, st, mk_ge0(lsub(a, b)))
    mx = 'max' in c.name
    out = []
    if t:
        out.append((t, a if mx else b))
    if f:
        out.append((f, b if mx else a))
    return out


for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64'):
    _m = 'core::num::<impl %s>::' % _t if _t[0] != 'f' else 'core::%s::<impl %s>::' % (_t, _t)
    for _e in ('ne', 'le'):
        def _to(A, st, c, w):
            return [(st, ('t', 'nebytes', A.tsize(c.atys[0]), c.atys[0], c.args[0]))]

        def _from(A, st, c, w):
            v = c.args[0]
            if v[0] == 't' and v[1] == 'nebytes':
                return [(st, A.retype(st, v[4], v[3], c.dty, 0))]
            if v[0] == 't' and v[1] == 'sub' and is_bytes(v[2]):
                return [(st, A.loadat(st, v[2], v[3], A.tsize(c.dty), c.dty))]
            return NotImplemented
        BHOOKS[_m + 'to_%s_bytes' % _e] = _to
        BHOOKS[_m + 'from_%s_bytes' % _e] = _from


@bhook('core::array::<impl core::convert::TryFrom<&[T]> for [T; N]>::try_from', "core::array::<impl core::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from")
def h_arr_from(A, st, c, w):
    t = A.prog.types[c.dty]
    ref = c.args[0]
    v = load(A, st, ref)
    n = mk_len(v)
    at = A.prog.types[t['args'][0]] if t['k'] == 'adt' and t['args'] else None
    if at is None or at['k'] != 'array' or not isinstance(at.get('n'), int):
        return NotImplemented
    s, f = split(A, st, mk_eq0(lsub(n, I(at['n']))))
    out = []
    if s:
        out.append((s, models.ok(v)))
    if f:
        out.append((f, models.err(('t', 'tryfromslice'))))
    return out

