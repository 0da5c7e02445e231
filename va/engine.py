"""Abstract interpreter over MIR.

Domain: value numbering terms + linear integer forms + integer-set facts, partitioned by
the branches taken (trace partitioning), with loop generalisation: induction variables,
sums and comprehensions are closed to symbolic forms, everything else is widened.
The result is a finite graph: nodes are abstract program points, edges carry the effects
(events) of the code between them, terminals are returns and panics.
"""
import math
import time
from .dom import *
from . import models

BOXY = ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::boxed::Box',
        'core::pin::Pin', 'alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc')
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
CHARS = ((0, 0xd7ff), (0xe000, 0x10ffff))


class Imprecise(Exception):
    pass


class Budget:
    """wall-clock limits: of the whole check, and of one run of the interpreter"""
    end = None
    per_run = 150


class Restart(Exception):
    pass


class Frame:
    __slots__ = ('func', 'bb', 'dest', 'ret', 'prev', 'site')

    def __init__(self, func, bb, dest, ret, prev=None, site=None):
        self.func = func
        self.bb = bb
        self.dest = dest
        self.ret = ret
        self.prev = prev
        self.site = site

    def copy(self):
        return Frame(self.func, self.bb, self.dest, self.ret, self.prev, self.site)


class State:
    __slots__ = ('frames', 'mem', 'facts', 'heads', 'ev', 'src', 'nh', 'tags')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.heads = dict(self.heads)
        s.ev = list(self.ev)
        s.src = self.src
        s.nh = self.nh
        s.tags = dict(self.tags)
        return s


class Call:
    __slots__ = ('path', 'ipath', 'cal', 'args', 'atys', 'dty', 'dest', 'target', 'site', 'name')


class Node:
    __slots__ = ('id', 'kind', 'info', 'state', 'ctx')


class Graph:
    def __init__(self):
        self.nodes = []
        self.edges = []      # (src, events, dst)
        self.loops = {}      # head hint id -> info

    def node(self, kind, info=None, state=None, ctx=None):
        n = Node()
        n.id = len(self.nodes)
        n.kind = kind
        n.info = info
        n.state = state
        n.ctx = ctx
        self.nodes.append(n)
        return n.id

    def terms(self, kind=None):
        return [n for n in self.nodes if n.kind in ('ret', 'panic', 'stop') and (kind is None or n.kind == kind)]


def fname(f):
    return f.path


class Analysis:
    def __init__(self, prog, hooks=None, max_nodes=20000, max_steps=400000, inline=None, rec=None, opaque=None,
                 unroll=9, keep_panics=True):
        self.prog = prog
        self.hooks = dict(models.HOOKS)
        self.hooks.update(hooks or {})
        self.max_nodes = max_nodes
        self.max_steps = max_steps
        self.until = float("inf")
        self.hints = {}
        self.hint_ids = {}
        self.closed_ids = {}
        self.inline = inline
        self.rec = rec
        self.opaque_log = {}
        self.all_panics = False
        self.rec_log = {}
        self.TY = {}
        self.nsym = 0
        self.unroll = unroll
        self.recdepth = 1
        self.funcs_seen = set()
        self.keep_panics = keep_panics
        self.opaque_pred = opaque
        self.models_used = set()
        self.steps = 0

    # ------------------------------------------------------------ types
    def settype(self, v, ty):
        if is_term(v) or v[0] == 'k':
            if v not in self.TY and ty is not None:
                self.TY[v] = ty

    def fresh(self, label, ty=None, persistent=False):
        self.nsym += 1
        v = ('y', label, 0 if persistent else self.nsym)
        if ty is not None:
            self.TY[v] = ty
        return v

    def tyrange(self, ti):
        t = self.prog.types[ti]
        k = t['k']
        if k == 'uint':
            return ((0, (1 << WIDTH[t['s']]) - 1),)
        if k == 'int':
            w = WIDTH[t['s']]
            return ((-(1 << (w - 1)), (1 << (w - 1)) - 1),)
        if k == 'char':
            return CHARS
        if k == 'bool':
            return ((0, 1),)
        return FULL

    def default_range(self, t):
        if t[0] == 'L':
            lo = hi = 0
            for x, k in t[1]:
                r = self.default_range(x)
                if not r:
                    return r
                a, b = r[0][0], r[-1][1]
                if k < 0:
                    a, b = b, a
                lo = -INF if a in (-INF, INF) or lo == -INF else lo + a * k
                hi = INF if b in (-INF, INF) or hi == INF else hi + b * k
            return ((max(lo, -INF), min(hi, INF)),)
        if t[0] == 't':
            if t[1] == 'discr':
                return self.TYD.get(t, FULL)
            if t[1] == 'len':
                return ((0, (1 << 63) - 1),)
            if t[1] == 'And' and t[4][0] == 'i' and t[4][1] >= 0:
                return ((0, t[4][1]),)
            if t[1] in ('min0',):
                return ((0, INF),)
            if t[1] == 'Shr' and t[4][0] == 'i':
                r = self.default_range(t[3]) if t[3][0] != 'i' else FULL
                if r and r[0][0] >= 0 and r[-1][1] < INF:
                    return ((r[0][0] >> t[4][1], r[-1][1] >> t[4][1]),)
            if t[1] == 'Trunc' and t[2] in WIDTH and t[2][0] == 'u':
                return ((0, (1 << WIDTH[t[2]]) - 1),)
            if t[1] in ('pred', 'call', 'contains'):
                pass
        if t[0] == 'k':
            return ((0, INF),)
        if t[0] == 'sum':
            return self.sum_range(t)
        ty = self.TY.get(t)
        if ty is None:
            return FULL
        return self.tyrange(ty)

    def sum_range(self, t):
        try:
            for g, c in t[3]:
                x, d = lin_of(c)
                if x < 0 or any(k < 0 or self.default_range(y)[0][0] < 0 for y, k in d.items()):
                    return FULL
            return ((0, INF),)
        except Exception:
            return FULL

    # ------------------------------------------------------------ facts
    def rng(self, st, key):
        r = st.facts.get(key)
        d = self.default_range(key)
        if key[0] == 'L':
            lo = hi = 0
            for x, k in key[1]:
                rr = self.rng(st, x)
                if not rr:
                    return rr
                a, b = rr[0][0], rr[-1][1]
                if k < 0:
                    a, b = b, a
                lo = -INF if a in (-INF, INF) or lo == -INF else lo + a * k
                hi = INF if b in (-INF, INF) or hi == INF else hi + b * k
            d = ((lo, hi),)
            if r is None:
                g = 0
                for x, k in key[1]:
                    g = math.gcd(g, k)
                if g > 1:
                    b, sg, _ = key_of(lin_mk(0, {x: k // g for x, k in key[1]}))
                    rb = st.facts.get(b)
                    if rb:
                        d = is_and(d, is_norm(tuple((lo2 * g if lo2 > -INF else lo2, hi2 * g if hi2 < INF else hi2)
                                                    for lo2, hi2 in is_shift(rb, 0, sg))))
        if key[0] == 't':
            d = is_and(d, self.term_range(st, key))
        if r is None:
            return d
        return is_and(r, d)

    def term_range(self, st, t):
        """range of a bit operation from the ranges of its operands"""
        op = t[1]
        if op == 'Mul' and len(t) == 5:
            x, y = self.vrange(st, t[3]), self.vrange(st, t[4])
            if x and y and x[0][0] >= 0 and y[0][0] >= 0:
                hi = x[-1][1] * y[-1][1] if x[-1][1] < INF and y[-1][1] < INF else INF
                return ((x[0][0] * y[0][0], hi),)
            return FULL
        if op in ('Shr', 'And', 'Trunc', 'Or') and len(t) in (4, 5):
            x = t[3]
            r = self.vrange(st, x)
            if not r or r[0][0] < 0 or r[-1][1] >= INF:
                return FULL
            if op == 'Shr' and t[4][0] == 'i':
                return ((r[0][0] >> t[4][1], r[-1][1] >> t[4][1]),)
            if op == 'And':
                r2 = self.vrange(st, t[4])
                hi = r[-1][1]
                if r2 and r2[0][0] >= 0:
                    hi = min(hi, r2[-1][1])
                return ((0, hi),)
            if op == 'Trunc':
                w = WIDTH.get(t[2])
                if w and r[-1][1] < (1 << (w - (t[2][0] == 'i'))):
                    return r
            if op == 'Or':
                r2 = self.vrange(st, t[4])
                if r2 and r2[0][0] >= 0 and r2[-1][1] < INF:
                    m = max(r[-1][1], r2[-1][1]).bit_length()
                    return ((max(r[0][0], r2[0][0]), (1 << m) - 1),)
        return FULL

    def vrange(self, st, v):
        if v[0] == 'i':
            return ((v[1], v[1]),)
        if v[0] == 'b':
            return ((v[1], v[1]),)
        if v[0] == 'lin' or is_term(v) or v[0] in ('k', 'sum'):
            key, s, c = key_of(v)
            return is_shift(self.rng(st, key), c, s)
        return FULL

    def conc(self, st, v):
        """constant if the facts pin the value"""
        if v[0] in ('lin', 'k') or is_term(v):
            r = self.vrange(st, v)
            if len(r) == 1 and r[0][0] == r[0][1]:
                ty = self.TY.get(v)
                if ty is not None and self.prog.types[ty]['k'] == 'bool':
                    return B(r[0][0])
                return I(r[0][0])
        return v

    def decide(self, st, b):
        k = b[0]
        if k == 'b':
            return bool(b[1])
        if k == 'i':
            return bool(b[1])
        if k == 'not':
            r = self.decide(st, b[1])
            return None if r is None else not r
        if k == 'ge0':
            key, s, c = key_of(b[1])
            r = self.rng(st, key)
            v = is_shift(r, c, s)
            if not v:
                return None
            if v[0][0] >= 0:
                return True
            if v[-1][1] < 0:
                return False
            if self.prove_ge0(st, b[1], 2):
                return True
            if self.prove_ge0(st, lin_neg1(b[1]), 2):
                return False
            return None
        if k == 'eq0':
            key, s, c = key_of(b[1])
            v = is_shift(self.rng(st, key), c, s)
            if v == ((0, 0),):
                return True
            if not is_and(v, ((0, 0),)):
                return False
            return None
        if k == 't' and b[1] == 'eq' and self.inty(b[2]) and self.inty(b[3]):
            return self.decide(st, mk_eq0(lsub(b[2], b[3])))
        r = self.rng(st, b)
        if r == ((1, 1),):
            return True
        if r == ((0, 0),):
            return False
        if k == 't':
            if b[1] == 'nameeq':
                return self.name_closure(st, b[2], b[3])
            if b[1] in ('band', 'bor'):
                x, y = self.decide(st, b[2]), self.decide(st, b[3])
                if b[1] == 'band':
                    return False if x is False or y is False else True if x and y else None
                return True if x or y else False if x is False and y is False else None
            if b[1] == 'eq':
                # equal to one text, hence to no other
                for x, y in ((b[2], b[3]), (b[3], b[2])):
                    if y[0] == 'str':
                        for f, r in st.facts.items():
                            if r == ((1, 1),) and f[0] == 't' and f[1] == 'eq' and f != b:
                                z = f[3] if f[2] == x else f[2] if f[3] == x else None
                                if z is not None and z[0] == 'str':
                                    return z == y
        return None

    def name_closure(self, st, x, y):
        """what the known (in)equalities of names, an equivalence, say about two of them"""
        eq, ne = [], []
        for f, r in st.facts.items():
            if f[0] == 't' and f[1] in ('nameeq', 'eq') and len(f) == 4:
                if r == ((1, 1),):
                    eq.append((f[2], f[3]))
                elif r == ((0, 0),) and f[1] == 'nameeq':
                    ne.append((f[2], f[3]))

        def cls(v):
            out, work = {v}, [v]
            while work:
                u = work.pop()
                for a, b in eq:
                    for p, q in ((a, b), (b, a)):
                        if p == u and q not in out:
                            out.add(q)
                            work.append(q)
            return out
        cx = cls(x)
        if y in cx:
            return True
        cy = cls(y)
        if any(a in cx and b in cy or a in cy and b in cx for a, b in ne):
            return False
        tx = {v[1].upper() for v in cx if v[0] == 'str'}
        ty = {v[1].upper() for v in cy if v[0] == 'str'}
        if tx and ty:
            return tx == ty
        return None

    def inty(self, v):
        ty = self.TY.get(v)
        return ty is not None and self.prog.types[ty]['k'] in ('uint', 'int', 'char')

    def prove_ge0(self, st, L, depth):
        if L[0] == 'i':
            return L[1] >= 0
        key, s, c = key_of(L)
        r = is_shift(self.rng(st, key), c, s)
        if r and r[0][0] >= 0:
            return True
        if depth <= 0:
            return False
        terms = set(lin_of(L)[1])
        for fk, r in st.facts.items():
            if not r:
                continue
            if fk[0] == 'L':
                ts = {t for t, _ in fk[1]}
                F = ('lin', 0, fk[1])
            else:
                continue
            if not (ts & terms):
                continue
            fd = dict(fk[1])
            t0 = next(iter(ts & terms))
            q = lin_of(L)[1][t0] // fd[t0]
            for q in ({1, -1} | ({q} if q * fd[t0] == lin_of(L)[1][t0] else set())):
                if q > 0 and r[0][0] > -INF:
                    X = lsub(L, lscale(ladd(F, I(-r[0][0])), q))
                elif q < 0 and r[-1][1] < INF:
                    X = lsub(L, lscale(lsub(I(r[-1][1]), F), -q))
                else:
                    continue
                if len(lin_of(X)[1]) <= len(terms) + 0 and self.prove_ge0(st, X, depth - 1):
                    return True
        return False

    def assume(self, st, b, truth):
        k = b[0]
        if k in ('b', 'i'):
            return bool(b[1]) == truth
        if k == 'not':
            return self.assume(st, b[1], not truth)
        d = self.decide(st, b)
        if d is not None:
            return d == truth
        if k == 'ge0':
            key, s, c = key_of(b[1])
            # c + s*key >= 0
            if s > 0:
                w = ((-c, INF),) if truth else ((-INF, -c - 1),)
            else:
                w = ((-INF, c),) if truth else ((c + 1, INF),)
            return self.addfact(st, key, w)
        if k == 'eq0':
            key, s, c = key_of(b[1])
            v = -c * s
            w = ((v, v),)
            return self.addfact(st, key, w if truth else is_not(w))
        if k == 't' and b[1] == 'eq' and self.inty(b[2]) and self.inty(b[3]):
            return self.assume(st, mk_eq0(lsub(b[2], b[3])), truth)
        if k == 't' and b[1] == ('band' if truth else 'bor'):
            return self.assume(st, b[2], truth) and self.assume(st, b[3], truth)
        return self.addfact(st, b, ((1, 1),) if truth else ((0, 0),))

    def addfact(self, st, key, w):
        r = is_and(self.rng(st, key), w)
        if not r:
            return False
        st.facts[key] = r
        if key[0] == 'L' and len(r) == 1 and r[0][0] == r[0][1]:
            # eliminate a loop counter pinned by an equation
            for t, kf in key[1]:
                if t[0] == 'k' and abs(kf) == 1:
                    rest = lin_mk(r[0][0], {x: -y for x, y in key[1] if x != t})
                    if kf < 0:
                        rest = lscale(rest, -1)
                    del st.facts[key]
                    return self.substitute(st, t, rest)
        return True

    def substitute(self, st, frm, to):
        for c, v in list(st.mem.items()):
            n = subst(v, frm, to)
            nc = subst(c, frm, to)
            if nc != c:
                del st.mem[c]
            st.mem[nc] = n
        old = st.facts
        st.facts = {}
        for k, r in old.items():
            if not has_free(k, frm):
                st.facts[k] = is_and(r, st.facts.get(k, FULL))
                continue
            if k[0] == 'L':
                e = lin_mk(0, dict(k[1]))
                e = subst(e, frm, to)
            else:
                e = subst(k, frm, to)
            if e[0] == 'i':
                if not is_and(r, ((e[1], e[1]),)):
                    return False
                continue
            if e[0] in ('lin',) or is_term(e) or e[0] == 'k':
                key, s, c = key_of(e)
                rr = is_shift(is_shift(r, -c), 0, s)
                if not self.addfact(st, key, rr):
                    return False
        st.ev = [subst(e, frm, to) if isinstance(e, tuple) else e for e in st.ev]
        for f in st.frames:
            if f.dest is not None:
                f.dest = subst(f.dest, frm, to)
        return True

    # ------------------------------------------------------------ memory
    def readcell(self, st, cell):
        v = st.mem.get(cell)
        if v is not None:
            return v
        k = cell[0]
        if k == 'k':
            return cell[1]
        if k == 'd':
            return mk_t('*', cell[1])
        if k == 'static':
            return ('t', 'static', cell[1])
        return UNDEF

    def project(self, v, p):
        k = p[0]
        if k == 'f':
            if v[0] in ('adt', 'clo', 'o'):
                return mk_p(v, p[1], p[2])
            if v[0] == 'ref':
                return v
            if v[0] == 'undef':
                return UNDEF
            return ('p', v, p[1], p[2])
        if k == 'i':
            return mk_elem(v, p[1])
        if k == 's':
            return self.sub(v, p[1], p[2])
        if k == 'bx':
            if v[0] == 'box':
                return v[1]
            return mk_t('*', v)
        if k == 'dy':
            if v[0] == 'dyn':
                return v[1]
            return v
        raise Imprecise('proj %r' % (p,))

    def sub(self, v, lo, hi):
        if v[0] == 't' and v[1] == 'sub':
            return self.sub(v[2], ladd(v[3], lo), ladd(v[3], hi))
        if v[0] == 'arr' and lo[0] == 'i' and hi[0] == 'i':
            return ('arr', v[1][lo[1]:hi[1]])
        if v[0] == 'str' and lo[0] == 'i' and hi[0] == 'i':
            return ('str', v[1].encode()[lo[1]:hi[1]].decode('utf8', 'replace'))
        if lo == I(0) and hi == mk_len(v):
            return v
        return ('t', 'sub', v, lo, hi)

    def read(self, st, cell, projs):
        v = self.readcell(st, cell)
        for p in projs:
            v = self.project(v, p)
        return v

    def update(self, v, projs, new):
        if not projs:
            return new
        p = projs[0]
        k = p[0]
        if k == 'f':
            if v[0] == 'adt' and v[2] == p[1] and p[2] < len(v[3]):
                fs = list(v[3])
                fs[p[2]] = self.update(fs[p[2]], projs[1:], new)
                return ('adt', v[1], v[2], tuple(fs))
            if v[0] == 'clo':
                fs = list(v[2])
                fs[p[2]] = self.update(fs[p[2]], projs[1:], new)
                return ('clo', v[1], tuple(fs))
            if v[0] == 'ref':
                return self.update(v, projs[1:], new)
        if k == 'i' and v[0] == 'arr' and p[1][0] == 'i' and 0 <= p[1][1] < len(v[1]):
            es = list(v[1])
            es[p[1][1]] = self.update(es[p[1][1]], projs[1:], new)
            return ('arr', tuple(es))
        if k == 'bx' and v[0] == 'box':
            return ('box', self.update(v[1], projs[1:], new))
        if k == 'dy' and v[0] == 'dyn':
            return ('dyn', self.update(v[1], projs[1:], new), v[2])
        if k == 's' and v[0] == 'arr' and p[1][0] == 'i' and p[2][0] == 'i' and len(projs) == 1 and new[0] == 'arr':
            es = list(v[1])
            es[p[1][1]:p[2][1]] = new[1]
            return ('arr', tuple(es))
        inner = self.update(self.project(v, p), projs[1:], new)
        if k == 's':
            return ('t', 'splice', v, p[1], p[2], inner)
        base, ov = (v[1], dict(v[2])) if v[0] == 'o' else (v, {})
        if k == 'i':
            for q in list(ov):
                if q[0] == 'i' and q != p and lsub(q[1], p[1])[0] != 'i':
                    base, ov = v, {}
                    break
        ov[p] = inner
        return ('o', base, tuple(sorted(ov.items(), key=rk)))

    def write(self, st, cell, projs, val):
        if not projs:
            st.mem[cell] = val
            return
        base = self.readcell(st, cell)
        st.mem[cell] = self.update(base, projs, val)

    def addproj(self, st, cell, projs, p):
        if projs and projs[-1][0] == 's':
            s = projs[-1]
            if p[0] == 'i':
                return projs[:-1] + (('i', ladd(s[1], p[1])),)
            if p[0] == 's':
                return projs[:-1] + (('s', ladd(s[1], p[1]), ladd(s[1], p[2])),)
        return projs + (p,)

    def mkref(self, cell, projs):
        if not projs and cell[0] == 'd':
            return cell[1]
        return ('ref', cell, projs)

    def deref(self, v):
        """location a pointer value points to"""
        while True:
            if v[0] == 'dyn':
                v = v[1]
            elif v[0] == 'adt' and v[1] == 'core::pin::Pin' and len(v[3]) == 1:
                v = v[3][0]
            else:
                break
        if v[0] == 'ref':
            return v[1], v[2]
        return ('d', v), ()

    def boxptr(self, st, cell, projs):
        """pointer to the content of the box stored at a location"""
        v = self.read(st, cell, projs)
        return self.boxptr_v(v, cell, projs)

    def boxptr_v(self, v, cell, projs):
        if v[0] == 'box':
            return ('ref', cell, projs + (('bx',),))
        if v[0] == 'dyn':
            return ('dyn', self.boxptr_v(v[1], cell, projs + (('dy',),)), v[2])
        return v

    def pointee(self, ti):
        t = self.prog.types[ti]
        if t['k'] in ('ref', 'ptr'):
            return t['t']
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        return None

    def loc(self, st, place):
        d = len(st.frames) - 1
        fr = st.frames[-1]
        cell = ('l', d, place[0])
        projs = ()
        ty = fr.func.locals[place[0]]
        pend = None
        boxy = False
        for e in place[1:]:
            k = e[0]
            if k == 'd':
                if boxy:
                    v = self.boxptr(st, cell, projs)
                    boxy = False
                else:
                    v = self.read(st, cell, projs)
                    if v[0] == 'box' or (v[0] == 'dyn' and v[1][0] == 'box'):
                        v = self.boxptr_v(v, cell, projs)
                self.settype(v, ty)
                cell, projs = self.deref(v)
                ty = self.pointee(ty) if ty is not None else None
            elif k == 'f':
                tk = self.prog.types[ty] if ty is not None else None
                if tk and tk['k'] == 'adt' and tk['adt'] in BOXY and e[1] == 0:
                    boxy = True
                    ty = e[2]
                    continue
                projs = self.addproj(st, cell, projs, ('f', pend or 0, e[1]))
                pend = None
                ty = e[2]
            elif k == 'v':
                pend = e[1]
            elif k == 'i':
                iv = self.conc(st, st.mem.get(('l', d, e[1]), UNDEF))
                projs = self.addproj(st, cell, projs, ('i', iv))
                ty = self.elemty(ty)
            elif k == 'ci':
                n = mk_len(self.read(st, cell, projs))
                iv = I(e[1]) if not e[3] else ladd(n, I(-e[1]))
                projs = self.addproj(st, cell, projs, ('i', iv))
                ty = self.elemty(ty)
            elif k == 'ss':
                n = mk_len(self.read(st, cell, projs))
                hi = ladd(n, I(-e[2])) if e[3] else I(e[2])
                projs = self.addproj(st, cell, projs, ('s', I(e[1]), hi))
            else:
                raise Imprecise('place elem %r' % (e,))
        return cell, projs, ty, boxy

    def elemty(self, ti):
        if ti is None:
            return None
        t = self.prog.types[ti]
        if t['k'] in ('array', 'slice'):
            return t['t']
        if t['k'] == 'adt' and t['adt'] == 'alloc::vec::Vec':
            return t['args'][0]
        return None

    def readplace(self, st, place):
        cell, projs, ty, boxy = self.loc(st, place)
        if boxy:
            return self.boxptr(st, cell, projs), ty
        v = self.read(st, cell, projs)
        if ty is not None:
            self.settype(v, ty)
        return v, ty

    # ------------------------------------------------------------ constants
    def const(self, c):
        k = c['c']
        if k == 'int' or k == 'char':
            return I(int(c['v']))
        if k == 'bool':
            return B(c['v'])
        if k == 'str':
            return ('ref', ('k', ('str', c['v'])), ())
        if k == 'ref':
            v = self.const(c['v'])
            return ('ref', ('k', v), ())
        if k == 'arr':
            return ('arr', tuple(self.const(x) for x in c['v']))
        if k == 'adt':
            t = self.prog.types[c['ty']]
            name = t['adt'] if t['k'] == 'adt' else '()'
            return ('adt', name, c['variant'], tuple(self.const(x) for x in c['fields']))
        if k == 'fn':
            return ('fn', self.intern_callee(c['callee']))
        if k == 'float':
            return ('fl', self.prog.tstr(c['ty']), int(c['v']))
        if k == 'fnptr':
            return ('fnptr', c['inst'])
        if k == 'static':
            return ('ref', ('static', c['path']), ())
        if k == 'closure':
            t = self.prog.types[c['ty']]
            fs = self.prog.find(t['path'])
            return ('clo', fs[0].key if fs else t['path'], ())
        t = self.prog.types[c['ty']]
        if t['k'] == 'adt' and len(t.get('ft', [])) == 1 and not t['ft'][0]:
            return ('adt', t['adt'], 0, ())
        if t['k'] == 'tuple' and not t['ts']:
            return UNIT
        if t['k'] == 'closure':
            fs = self.prog.find(t['path'])
            return ('clo', fs[0].key if fs else t['path'], ())
        v = ('t', 'const', c['s'])
        self.settype(v, c['ty'])
        return v

    _callees = {}
    _callee_list = []

    def intern_callee(self, cal):
        k = (cal['path'], cal['ipath'], cal['inst'], cal['kind'], tuple(cal['args']))
        i = self._callees.get(k)
        if i is None:
            i = len(self._callee_list)
            self._callee_list.append(cal)
            self._callees[k] = i
        return i

    def operand(self, st, o):
        if 'cp' in o:
            v, ty = self.readplace(st, o['cp'])
            return self.conc(st, v)
        if 'mv' in o:
            v, ty = self.readplace(st, o['mv'])
            return self.conc(st, v)
        if 'rtc' in o:
            return FALSE if 'Ub' in o['rtc'] or 'Contract' in o['rtc'] else TRUE
        return self.const(o)

    # ------------------------------------------------------------ arithmetic
    def wrap(self, n, s):
        w = WIDTH[s]
        n &= (1 << w) - 1
        if s[0] == 'i' and n >> (w - 1):
            n -= 1 << w
        return n

    def fits(self, st, v, s):
        w = WIDTH[s]
        lo, hi = (0, (1 << w) - 1) if s[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        r = self.vrange(st, v)
        if not r:
            return False
        return r[0][0] >= lo and r[-1][1] <= hi

    def arith(self, st, op, a, b, s):
        """mathematical result of an operator on width-s integers (no overflow assumed)"""
        if a[0] == 'b':
            a = I(a[1])
        if b[0] == 'b':
            b = I(b[1])
        if op == 'Add':
            return ladd(a, b)
        if op == 'Sub':
            return lsub(a, b)
        if op == 'Mul':
            if a[0] == 'i':
                return lscale(b, a[1])
            if b[0] == 'i':
                return lscale(a, b[1])
            x, y = sorted((a, b), key=rk)
            return ('t', 'Mul', s, x, y)
        ca, cb = a[0] == 'i', b[0] == 'i'
        if ca and cb:
            x, y = a[1], b[1]
            if op == 'Div' and y:
                q = abs(x) // abs(y)
                return I(q if (x < 0) == (y < 0) else -q)
            if op == 'Rem' and y:
                q = abs(x) % abs(y)
                return I(q if x >= 0 else -q)
            if op == 'BitAnd':
                return I(self.wrap(x & y, s))
            if op == 'BitOr':
                return I(self.wrap(x | y, s))
            if op == 'BitXor':
                return I(self.wrap(x ^ y, s))
            if op in ('Shl', 'ShlUnchecked'):
                return I(self.wrap(x << (y % WIDTH[s]), s))
            if op in ('Shr', 'ShrUnchecked'):
                return I(x >> (y % WIDTH[s]))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ca:
                a, b, ca, cb = b, a, cb, ca
            if cb:
                m = (1 << WIDTH[s]) - 1
                if op == 'BitAnd' and b[1] == 0:
                    return I(0)
                if op == 'BitAnd' and (b[1] & m) == m:
                    return a
                if op == 'BitAnd' and b[1] >= 0 and (b[1] & (b[1] + 1)) == 0:
                    r = self.vrange(st, a)
                    if r and r[0][0] >= 0 and r[-1][1] <= b[1]:
                        return a
                if op in ('BitOr', 'BitXor') and b[1] == 0:
                    return a
            elif op in ('BitAnd', 'BitOr') and a == b:
                return a
            elif op == 'BitXor' and a == b:
                return I(0)
            if op in ('BitOr', 'BitXor'):
                # bits that cannot overlap: the sum
                for x, y in ((a, b), (b, a)):
                    z = self.low_zeros(x)
                    if z:
                        r = self.vrange(st, y)
                        if r and r[0][0] >= 0 and r[-1][1] < (1 << z) and self.vrange(st, x)[0][0] >= 0:
                            return ladd(x, y)
            if not cb:
                a, b = sorted((a, b), key=rk)
            n = {'BitAnd': 'And', 'BitOr': 'Or', 'BitXor': 'Xor'}[op]
            if not cb and op in ('BitAnd', 'BitOr'):
                # flatten for associativity/commutativity
                its = []
                for x in (a, b):
                    if x[0] == 't' and x[1] == n and len(x) == 5 and x[4][0] != 'i':
                        its.extend(self.flat(x, n))
                    else:
                        its.append(x)
                its = sorted(set(its), key=rk)
                r = its[0]
                for x in its[1:]:
                    r = ('t', n, s, r, x)
                return r
            return ('t', n, s, a, b)
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            n = op[:3]
            if b == I(0):
                return a
            if n == 'Shl' and cb and 0 < b[1] < WIDTH[s]:
                r = self.vrange(st, a)
                w = WIDTH[s] - (1 if s[0] == 'i' else 0)
                if r and r[0][0] >= 0 and r[-1][1] < INF and (r[-1][1] << b[1]) < (1 << w):
                    return lscale(a, 1 << b[1])
            return ('t', n, s, a, b)
        if op == 'Div' and b == I(1):
            return a
        return ('t', op, s, a, b)

    def low_zeros(self, v):
        """number of low bits of a value known to be zero"""
        if v[0] == 'i':
            return 64 if v[1] == 0 else (v[1] & -v[1]).bit_length() - 1
        if v[0] == 'lin':
            g = v[1]
            for t, c in v[2]:
                g = math.gcd(g, c)
            return (g & -g).bit_length() - 1
        if v[0] == 't' and v[1] == 'Shl' and v[4][0] == 'i':
            return v[4][1] + self.low_zeros(v[3])
        return 0

    def flat(self, x, n):
        if x[0] == 't' and x[1] == n and len(x) == 5 and x[4][0] != 'i':
            return self.flat(x[3], n) + self.flat(x[4], n)
        return [x]

    def boolterm(self, a):
        return a

    def binop(self, st, op, a, b, ti):
        t = self.prog.types[ti]
        s = t['s']
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            if t['k'] == 'bool' and op in ('Eq', 'Ne', 'BitXor'):
                if a[0] == 'b':
                    a, b = b, a
                if b[0] == 'b':
                    r = a if b[1] else mk_not(a)
                    return r if op == 'Eq' else mk_not(r)
                if a == b:
                    return B(op == 'Eq')
                x, y = sorted((a, b), key=rk)
                r = ('t', 'beq', x, y)
                return r if op == 'Eq' else mk_not(r)
            if t['k'] == 'float' or t['k'] not in ('int', 'uint', 'char', 'bool', 'ptr', 'ref') or \
                    not self.intlike(a) or not self.intlike(b):
                if a == b and op in ('Eq', 'Le', 'Ge') and t['k'] != 'float':
                    return TRUE
                return ('t', 'cmpop', op, a, b)
            d = lsub(a, b)
            if op == 'Cmp':
                if d[0] == 'i':
                    return ('adt', 'core::cmp::Ordering', 1 if d[1] == 0 else 2 if d[1] > 0 else 0, ())
                return ('t', 'cmp', a, b)
            if op == 'Eq':
                return mk_eq0(d)
            if op == 'Ne':
                return mk_not(mk_eq0(d))
            if op == 'Ge':
                return mk_ge0(d)
            if op == 'Lt':
                return mk_not(mk_ge0(d))
            if op == 'Gt':
                return mk_ge0(ladd(d, I(-1)))
            if op == 'Le':
                return mk_ge0(lscale(d, -1))
        if t['k'] == 'bool':
            if op == 'BitAnd':
                if a == FALSE or b == FALSE:
                    return FALSE
                if a == TRUE:
                    return b
                if b == TRUE:
                    return a
                x, y = sorted((a, b), key=rk)
                return ('t', 'band', x, y)
            if op == 'BitOr':
                if a == TRUE or b == TRUE:
                    return TRUE
                if a == FALSE:
                    return b
                if b == FALSE:
                    return a
                x, y = sorted((a, b), key=rk)
                return ('t', 'bor', x, y)
            if op == 'BitXor':
                if b[0] == 'b':
                    return mk_not(a) if b[1] else a
                if a[0] == 'b':
                    return mk_not(b) if a[1] else b
                return ('t', 'bxor', a, b)
        if s not in WIDTH:
            r = ('t', op, s, a, b)
            self.settype(r, ti)
            return r
        if op.endswith('WithOverflow'):
            o = op[:-len('WithOverflow')]
            r = self.arith(st, o, a, b, s)
            if r[0] == 'i':
                wv = self.wrap(r[1], s)
                return ('adt', '()', 0, (I(wv), B(wv != r[1])))
            if is_term(r) and r[1] not in ('Mul', 'Add', 'Sub'):
                self.settype(r, ti)
            ov = FALSE if self.fits(st, r, s) else ('t', 'ovf', s, r)
            return ('adt', '()', 0, (r, ov))
        o = op.replace('Unchecked', '') if op.startswith(('Add', 'Sub', 'Mul')) else op
        r = self.arith(st, o, a, b, s)
        if o in ('Add', 'Sub', 'Mul'):
            if r[0] == 'i':
                return I(self.wrap(r[1], s))
            if not self.fits(st, r, s) and not op.endswith('Unchecked'):
                r = ('t', 'Wrap', s, r)
        if is_term(r):
            self.settype(r, ti)
        return r

    def intlike(self, v):
        return v[0] in ('i', 'lin', 'k', 't', 'p', 'y', 'b')

    def unop(self, st, op, a, ti):
        t = self.prog.types[ti]
        if op == 'Not':
            if t['k'] == 'bool':
                return mk_not(a)
            if a[0] == 'i':
                return I(self.wrap(~a[1], t['s']))
            if a[0] == 't' and a[1] == 'Not':
                return a[3]
            r = ('t', 'Not', t['s'], a)
            self.settype(r, ti)
            return r
        if op == 'Neg':
            if t['k'] == 'float':
                return ('t', 'fneg', a)
            return lscale(a, -1)
        if op == 'PtrMetadata':
            # len of a slice pointer
            c, p = self.deref(a)
            return mk_len(self.read(st, c, p))
        return ('t', op, a)

    def cast(self, st, kind, v, fi, ti, extra):
        ft, tt = self.prog.types[fi], self.prog.types[ti]
        if kind.startswith('IntToInt'):
            if ft['k'] == 'bool':
                if v[0] == 'b':
                    return I(v[1])
                r = ('t', 'b2i', v)
                self.settype(r, ti)
                return r
            if ft['k'] == 'adt':      # fieldless enum as int
                if v[0] == 'adt':
                    return I(int(self.prog.adts[v[1]]['variants'][v[2]]['discr']))
                return self.discr(v, fi)
            s = tt['s']
            if tt['k'] == 'char':
                return v
            if v[0] == 'i':
                return I(self.wrap(v[1], s))
            if self.fits(st, v, s):
                return v
            r = ('t', 'Trunc', s, v)
            self.settype(r, ti)
            return r
        if kind.startswith('PointerCoercion(Unsize'):
            src, dst = self.pointee(fi), self.pointee(ti)
            if self.prog.types[dst]['k'] == 'dyn' if dst is not None else False:
                if self.prog.types[src]['k'] == 'dyn':
                    return v
                return ('dyn', v, src)
            return v
        if kind.startswith(('Transmute', 'BoxDerefTransmute', 'PtrToPtr', 'Subtype', 'PointerCoercion', 'FnPtrToPtr', 'PointerExpose', 'PointerWith')):
            if 'ClosureFnPointer' in kind and extra:
                return ('fnptr', extra[0])
            if kind.startswith('Transmute') and v[0] == 'i' and tt['k'] == 'adt' and tt['adt'] == models.OPT:
                # an integer as Option<NonZero<_>>
                return models.some(v) if v[1] else models.NONE
            if kind.startswith(('PtrToPtr', 'Transmute')) and self.ptrcast_hook:
                return self.ptrcast_hook(self, st, v, fi, ti)
            return v
        r = ('t', 'cast', tt['s'], v)
        self.settype(r, ti)
        return r

    ptrcast_hook = None

    TYD = {}

    def discr(self, v, ti):
        if v[0] == 'adt':
            ad = self.prog.adts.get(v[1])
            if ad and ad['kind'] == 'enum':
                return I(int(ad['variants'][v[2]]['discr']))
            return I(v[2])
        t = self.prog.types[ti]
        d = ('t', 'discr', v)
        if t['k'] == 'adt':
            ad = self.prog.adts.get(t['adt'])
            if ad and ad['kind'] == 'enum':
                # an empty payload type (!, Infallible) makes a variant impossible
                vals = []
                for i, x in enumerate(ad['variants']):
                    ft = t['ft'][i] if i < len(t.get('ft', [])) else []
                    if any(self.prog.types[y]['k'] == 'never' or self.prog.types[y]['s'] == 'core::convert::Infallible' for y in ft):
                        continue
                    vals.append(int(x['discr']))
                self.TYD[d] = is_norm([(x, x) for x in vals])
        return d

    def variant_by_discr(self, adt, d):
        for i, v in enumerate(self.prog.adts[adt]['variants']):
            if int(v['discr']) == d:
                return i
        return None

    def rvalue(self, st, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k in ('ref', 'reborrow', 'raw'):
            place = r[2]
            if len(place) > 1 and place[-1][0] == 'd':
                # &*p is p
                cell, projs, ty, boxy = self.loc(st, place[:-1])
                if boxy:
                    return self.boxptr(st, cell, projs)
                v = self.read(st, cell, projs)
                if v[0] == 'box' or (v[0] == 'dyn' and v[1][0] == 'box'):
                    return self.boxptr_v(v, cell, projs)
                self.settype(v, ty)
                return v
            cell, projs, ty, boxy = self.loc(st, place)
            return self.mkref(cell, projs)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r[4])
        if k == 'un':
            return self.unop(st, r[1], self.operand(st, r[2]), r[3])
        if k == 'discr':
            v, ty = self.readplace(st, r[1])
            return self.conc(st, self.discr(v, r[2]))
        if k == 'agg':
            vs = tuple(self.operand(st, o) for o in r[4])
            if r[1] == 'arr':
                return ('arr', vs)
            if r[1] == 'tup':
                return ('adt', '()', 0, vs)
            if r[1] == 'adt':
                t = self.prog.types[r[2]]
                if len(r) > 5 and r[5] >= 0:
                    return ('adt', t['adt'], r[3], vs)
                return ('adt', t['adt'], r[3], vs)
            if r[1] == 'closure':
                return ('clo', r[5], vs)
            if r[1] == 'rawptr':
                return vs[0]
            if r[1] == 'coroutine':
                # captured variables, saved locals (none yet), and the number of the state: not started
                t = self.prog.types[r[2]]
                return ('adt', t['path'], 0, vs + (UNDEF,) * t['saved'] + (I(0),))
            return ('t', 'agg', r[1]) + vs
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4], r[5:])
        if k == 'repeat':
            v = self.operand(st, r[1])
            if 0 <= r[2] <= 64:
                return ('arr', (v,) * r[2])
            return ('t', 'repeat', v, I(r[2]))
        return ('t', 'rv', str(r[1])[:80])

    # ------------------------------------------------------------ snapshots
    def snap(self, st, v, depth=0):
        """value with references replaced by what they point to"""
        if depth > 12 or not isinstance(v, tuple):
            return v
        k = v[0]
        if k == 'ref':
            if v[1][0] == 'static':
                return ('t', 'static', v[1][1])
            c = self.read(st, v[1], v[2])
            return mk_t('&', self.snap(st, c, depth + 1))
        if k in ('i', 'b', 'y', 'k', 'str', 'fn', 'fl', 'undef', 'fnptr'):
            return v
        if k == 'dyn':
            return ('dyn', self.snap(st, v[1], depth + 1), v[2])
        if k == 'box':
            return ('box', self.snap(st, v[1], depth + 1))
        if k == 'mcell':
            return self.snap(st, self.read(st, v[1][1], v[1][2]), depth + 1)
        if k == 'adt':
            return ('adt', v[1], v[2], tuple(self.snap(st, x, depth + 1) for x in v[3]))
        if k == 'clo':
            return ('clo', v[1], tuple(self.snap(st, x, depth + 1) for x in v[2]))
        if k == 'arr':
            return ('arr', tuple(self.snap(st, x, depth + 1) for x in v[1]))
        if k == 'push':
            return mk_push(self.snap(st, v[1], depth + 1), self.snap(st, v[2], depth + 1))
        if k == 'comp':
            return ('comp', v[1], self.snap(st, v[2], depth + 1), self.snap(st, v[3], depth + 1))
        if k == 'o':
            return ('o', self.snap(st, v[1], depth + 1), tuple((a, self.snap(st, b, depth + 1)) for a, b in v[2]))
        if k in ('t', 'p'):
            # symbolic pointers into memory that has been modified locally
            if k == 't' and v[1] == '*' and ('d', v[2]) in st.mem:
                return self.snap(st, st.mem[('d', v[2])], depth + 1)
            if has_ref(v):
                return tuple(self.snap(st, x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v)
            return v
        return v

    # ------------------------------------------------------------ canonical state
    def canon(self, st):
        syms = {}
        cells = {}
        pend = []
        out = []
        leaves = []
        symset = set()

        def cellname(c):
            k = c[0]
            if k == 'h':
                n = cells.get(c)
                if n is None:
                    n = ('h', len(cells))
                    cells[c] = n
                    pend.append(c)
                return n
            if k == 'l':
                if c not in cells:
                    cells[c] = c
                    pend.append(c)
                return c
            if k == 'd':
                n = ('d', ser(c[1]))
                if c in st.mem and c not in cells:
                    cells[c] = n
                    pend.append(c)
                return n
            if k == 'k':
                return ('k', ser(c[1]))
            if k in ('g', 'm') and c not in cells:
                cells[c] = c
                pend.append(c)
            return c

        memo = {}
        closed = self.closed_ids

        def ser(v):
            if not isinstance(v, tuple):
                return v
            if id(v) in closed:
                return v
            r = memo.get(id(v))
            if r is not None:
                return r[1]
            k = v[0] if v else None
            if k == 'y':
                if v[2] == 0:
                    closed[id(v)] = v
                    return v
                else:
                    n = syms.get(v)
                    if n is None:
                        n = len(syms)
                        syms[v] = n
                    r = ('y', v[1], '#%d' % n)
                symset.add(v)
            elif k == 'k' and len(v) == 2 and isinstance(v[1], str):
                symset.add(v)
                r = v
            elif k == 'ref':
                r = ('ref', cellname(v[1]), tuple(ser(p) for p in v[2]))
            else:
                if k == 't' and len(v) == 3 and v[1] == '*' and ('d', v[2]) in st.mem:
                    cellname(('d', v[2]))
                r = tuple([ser(x) if isinstance(x, tuple) else x for x in v])
                for x in v:
                    if isinstance(x, tuple) and id(x) not in closed:
                        break
                else:
                    if not (k == 't' and len(v) == 3 and v[1] == '*'):
                        closed[id(v)] = v       # no symbol or cell that could be renamed
                        return v
            memo[id(v)] = (v, r)
            return r

        LEAF = ('i', 'lin', 't', 'p', 'y', 'k', 'push', 'comp', 'sum', 'arr', 'o', 'fcomp')

        def shape(v, path):
            k = v[0]
            if k in LEAF and not (k == 'k' and not isinstance(v[1], str)):
                leaves.append((path, v))
                return ('#',)
            if k == 'adt':
                return ('adt', v[1], v[2], tuple(shape(x, path + (i,)) for i, x in enumerate(v[3])))
            if k == 'clo':
                return ('clo', v[1], tuple(shape(x, path + (i,)) for i, x in enumerate(v[2])))
            if k == 'box':
                return ('box', shape(v[1], path + ('b',)))
            if k == 'dyn':
                return ('dyn', shape(v[1], path + ('y',)), v[2])
            if k == 'iter':
                return ('iter', v[1], ser(v[2]), shape(v[3], path + ('pos',)), ser(v[4]))
            return ser(v)

        for d, fr in enumerate(st.frames):
            top = d == len(st.frames) - 1
            b = fr.bb if top else st.frames[d + 1].ret
            out.append((fr.func.key, b, fr.site))
            if fr.dest is not None and not (fr.dest[0][0] == 'l'):
                out.append(ser(fr.dest))
            lv = fr.func.live(b) if b is not None and b >= 0 else ()
            for n in sorted(lv):
                c = ('l', d, n)
                if c in st.mem:
                    v = st.mem[c]
                    out.append((d, n, shape(v, (d, n))))
                    ser(v)
                    if c not in cells:
                        cells[c] = c
        for c in sorted(c for c in st.mem if c[0] in ('g', 'm')):
            cellname(c)
        i = 0
        while i < len(pend):
            c = pend[i]
            i += 1
            if c[0] == 'l' and any(o[:2] == c[1:] and len(o) == 3 and o[0] == c[1] for o in out if isinstance(o[0], int)):
                continue
            v = self.readcell(st, c)
            out.append((cells[c], shape(v, ('c', cells[c]))))
            ser(v)
        # input memory that was changed stays observable even when no live local reaches it
        for c in sorted((c for c in st.mem if c[0] == 'd' and c not in cells), key=rk):
            if self.persistent(c):
                cells[c] = c
                pend.append(c)
                while i < len(pend):
                    c2 = pend[i]
                    i += 1
                    v = self.readcell(st, c2)
                    out.append((cells[c2], shape(v, ('c', cells[c2]))))
                    ser(v)
        fx = []
        for k, r in st.facts.items():
            if self.factlive(k, symset):
                fx.append((ser(k), r))
        fx.sort(key=lambda x: repr(x))
        lv = [ser(v) for _, v in leaves]
        tg = tuple(sorted(st.tags.items()))
        return (repr(out), repr((lv, fx, tg)), leaves)

    def persistent(self, cell):
        return not contains(cell, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'y' and x[2] != 0)

    def factlive(self, k, symset):
        ok = True

        def chk(v):
            nonlocal ok
            if not ok or not isinstance(v, tuple):
                return
            if len(v) == 3 and v[0] == 'y' and v[2] != 0 and v not in symset:
                ok = False
                return
            if len(v) == 2 and v[0] == 'k' and isinstance(v[1], str) and v not in symset:
                ok = False
                return
            for x in v:
                if isinstance(x, tuple):
                    chk(x)
        chk(k)
        return ok

    # ------------------------------------------------------------ driver
    def start(self, key, args, facts=None, mem=None, tags=None):
        f = self.prog.funcs[key]
        st = State()
        st.frames = [Frame(f, 0, None, None)]
        st.mem = dict(mem or {})
        st.facts = dict(facts or {})
        st.heads = {}
        st.ev = []
        st.nh = 0
        st.src = None
        st.tags = dict(tags or {})
        for i, a in enumerate(args):
            st.mem[('l', 0, i + 1)] = a
            self.settype(a, f.locals[i + 1])
        return st

    def symargs(self, key, names=None):
        f = self.prog.funcs[key]
        out = []
        for i in range(f.nargs):
            n = (names or {}).get(i) or f.names.get(str(i + 1)) or 'a%d' % i
            s = ('y', n, 0)
            self.TY[s] = f.locals[i + 1]
            out.append(s)
        return out

    def run(self, key, args=None, facts=None, mem=None, tags=None):
        if args is None:
            args = self.symargs(key)
        self.until = time.time() + Budget.per_run
        if Budget.end is not None:
            self.until = min(self.until, Budget.end)
        for attempt in range(40):
            try:
                self.g = Graph()
                self.visited = {}
                self.loopupd = {}
                self.steps = 0
                self.panics = {}
                self.on_attempt()
                st = self.start(key, args, facts, mem, tags)
                st.src = self.g.node('start')
                self.explore([st])
                if self.close_loops():
                    continue
                return self.g
            except Restart:
                continue
        raise Imprecise('loop generalisation did not converge')

    def on_attempt(self):
        pass

    def explore(self, work):
        while work:
            st = work.pop()
            self.step(st, work)

    def emit(self, st, *e):
        st.ev.append(tuple(e))

    def terminal(self, st, kind, info):
        if kind == 'panic':
            # one node per site and message, unless every state is asked for
            k = ('panic',) + tuple(info)
            n = None if self.all_panics else self.panics.get(k)
            if n is None:
                n = self.g.node('panic', info, st)
                self.panics[k] = n
        else:
            n = self.g.node(kind, info, st)
        self.g.edges.append((st.src, tuple(st.ev), n))

    def panic(self, st, call_or_site, what):
        # reported at the innermost function of the crate that is on the stack
        fr = st.frames[-1]
        site = call_or_site
        for i in range(len(st.frames) - 1, -1, -1):
            f = st.frames[i].func
            if f.local and 'vmodels' not in f.path and 'vharness' not in f.path:
                fr = st.frames[i]
                if i + 1 < len(st.frames):
                    site = st.frames[i + 1].site
                    site = site[1] if isinstance(site, tuple) else site
                break
        self.terminal(st, 'panic', (what, fr.func.path, site))

    def goto(self, st, b, work):
        fr = st.frames[-1]
        fr.prev = fr.bb
        fr.bb = b
        f = fr.func
        if b in f.heads() or b in f.joins():
            if not self.enter(st, b):
                return
        work.append(st)

    def ctxof(self, st):
        return tuple((f.func.key, f.site) for f in st.frames) + (st.frames[-1].bb,)

    def enter(self, st, b):
        """visited check and loop generalisation; False if covered"""
        fr = st.frames[-1]
        f = fr.func
        if b in f.heads():
            r = self.loophead(st, b)
            if r != 'plain':
                return r
        shape, key, leaves = self.canon(st)
        kk = (shape, key)
        n = self.visited.get(kk)
        if n is not None:
            self.g.edges.append((st.src, tuple(st.ev), n))
            return False
        if len(self.g.nodes) > self.max_nodes:
            raise Imprecise('too many abstract states')
        n = self.g.node('pt', (f.path, b), None)
        self.visited[kk] = n
        self.g.edges.append((st.src, tuple(st.ev), n))
        st.src = n
        st.ev = []
        return True

    def hintid(self, ctx, shape):
        k = (ctx, shape)
        i = self.hint_ids.get(k)
        if i is None:
            i = 'k%d' % len(self.hint_ids)
            self.hint_ids[k] = i
        return i

    def loophead(self, st, b):
        fr = st.frames[-1]
        f = fr.func
        ctx = self.ctxof(st)
        isback = (fr.prev, b) in f.backedges()
        shape, key, leaves = self.canon(st)
        hid = self.hintid(ctx, shape)
        hkey = (ctx,)
        hist = st.heads.get(hkey) if isback else None
        if hist is None:
            hist = ()
            # inner loops restart
        hint = self.hints.get(hid)
        gen = None
        for h in hist:
            if h[0] == hid and h[1] == 'gen':
                gen = h
        if gen is not None:
            # arrived back at a generalised head
            _, _, base, kk = gen
            upd = {}
            bl = dict(base)
            ok = True
            nxt = ladd(kk, I(1))
            for path, cur in leaves:
                cls = hint['cls'].get(path)
                hv = bl.get(path)
                if cls is None:
                    if hv is None or (cur != hv):
                        if hv is not None and self.widen_new(hid, path, hv, cur, kk):
                            ok = False
                        elif hv is None:
                            ok = None
                    continue
                if cls[0] == 'ind':
                    if subst(hv, kk, nxt) != cur:
                        hint['cls'][path] = ('acc',)
                        ok = False
                elif cls[0] in ('acc', 'sum', 'comp', 'cases'):
                    upd[path] = cur
            if ok is False:
                raise Restart()
            if ok is True:
                guards = tuple(sorted(((k2, r) for k2, r in st.facts.items() if has_free(k2, kk)), key=rk))
                self.loopupd.setdefault(hid, []).append((upd, guards, dict(st.facts), bl, kk))
                tgt = hint.get('node')
                self.emit(st, 'loop', hid)
                # closed leaves: compare modulo the closed form
                if tgt is not None:
                    self.g.edges.append((st.src, tuple(st.ev), self.gennode[gen[:1] + (repr(base),)] if False else tgt))
                    return False
            # fallthrough: shape differs in the leaf set
        if hint is not None and gen is None:
            kk = ('k', hid)
            if any(has_free(v, kk) for _, v in leaves):
                kk = ('k', hid + "_%d" % len([1 for h in hist]))
                while any(has_free(v, kk) for _, v in leaves):
                    kk = ('k', kk[1] + "_")
            base = []
            # forget facts about a previous activation of the counter
            st.facts = {k2: r for k2, r in st.facts.items() if not has_free(k2, kk)}
            for path, cur in leaves:
                cls = hint['cls'].get(path)
                if cls is None:
                    base.append((path, cur))
                    continue
                if cls[0] == 'ind':
                    nv = ladd(cur, lscale(kk, cls[1]))
                elif cls[0] == 'acc':
                    nv = ('y', 'acc:%s:%s' % (hid, rk(path)), 0)
                    ty = self.TY.get(cur)
                    if ty is not None:
                        self.TY[nv] = ty
                elif cls[0] == 'sum':
                    nv = ladd(cur, ('sum', ('k', hid), kk, subst(cls[1], ('k', hid), ('k', hid))))
                elif cls[0] == 'comp':
                    if cur == ('arr', ()):
                        nv = ('comp', ('k', hid), kk, cls[1])
                    else:
                        nv = ('t', 'concat', cur, ('comp', ('k', hid), kk, cls[1]))
                elif cls[0] == 'top':
                    nv = self.fresh('top:%s' % rk(path))
                    ty = self.TY.get(cur)
                    if ty is not None:
                        self.TY[nv] = ty
                self.setleaf(st, path, nv)
                base.append((path, nv))
            for inv in hint.get('inv', ()):
                # invariants  inv >= 0 at the head, provided they hold on entry
                e0 = subst(inv, ('k', hid), I(0))
                e1 = subst(inv, ('k', hid), kk)
                if self.decide(st, mk_ge0(e0)) is True:
                    if not self.assume(st, mk_ge0(e1), True):
                        pass
            st.heads[hkey] = hist + ((hid, 'gen', tuple(base), kk),)
            shape2, key2, _ = self.canon(st)
            n = self.visited.get((shape2, key2))
            if n is not None:
                hint['node'] = n
                self.g.edges.append((st.src, tuple(st.ev), n))
                return False
            n = self.g.node('head', (f.path, b, hid), None)
            hint['node'] = n
            self.visited[(shape2, key2)] = n
            self.g.edges.append((st.src, tuple(st.ev), n))
            st.src = n
            st.ev = []
            return True
        # not generalised yet: compare with earlier visits of the same shape
        if gen is None:
            same = [h for h in hist if h[0] == hid and h[1] == 'raw']
            if same:
                prev = dict(same[-1][2])
                diff = [(p, prev.get(p), v) for p, v in leaves if prev.get(p) != v]
                symbolic = any(p and p[-1] == 'pos' for p, _, _ in diff) and not self.const_iter(st, diff)
                if diff and (symbolic or len(same) >= self.unroll):
                    h = {'cls': {}, 'inv': ()}
                    for p, a, c in diff:
                        h['cls'][p] = self.classify(a, c)
                    self.hints[hid] = h
                    raise Restart()
            st.heads[hkey] = hist + ((hid, 'raw', tuple(leaves)),)
        return 'plain'

    def const_iter(self, st, diff):
        # iteration over a concrete sequence is unrolled
        for p, a, c in diff:
            if p[-1] == 'pos':
                it = self.itat.get(p) if hasattr(self, 'itat') else None
        return self.iter_const(st, [p for p, _, _ in diff if p and p[-1] == 'pos'])

    def iter_const(self, st, paths):
        for p in paths:
            v = self.leafparent(st, p)
            if v is None or v[0] != 'iter':
                return False
            if v[4][0] != 'i':
                return False
        return True

    def leafparent(self, st, path):
        if path[0] == 'c':
            cell = None
            for c in st.mem:
                if c == path[1]:
                    cell = c
            if cell is None:
                return None
            v = st.mem[cell]
            rest = path[2:-1]
        else:
            v = st.mem.get(('l', path[0], path[1]))
            rest = path[2:-1]
        for e in rest:
            if v is None:
                return None
            if v[0] == 'adt':
                v = v[3][e]
            elif v[0] == 'clo':
                v = v[2][e]
            elif v[0] in ('box', 'dyn'):
                v = v[1]
        return v

    def classify(self, a, c):
        if a is None:
            return ('top',)
        num = ('i', 'lin', 'k', 't', 'p', 'y', 'sum')
        if a[0] in num and c[0] in num:
            d = lsub(c, a)
            if d[0] == 'i':
                return ('ind', d[1])
            return ('acc',)
        return ('acc',)

    def widen_new(self, hid, path, hv, cur, kk):
        h = self.hints[hid]
        c = self.classify(hv, cur)
        if c[0] == 'ind':
            c = ('ind', c[1])
        h['cls'][path] = c
        return True

    def setleaf(self, st, path, nv):
        def upd(v, rest):
            if not rest:
                return nv
            e = rest[0]
            if v[0] == 'adt':
                fs = list(v[3])
                fs[e] = upd(fs[e], rest[1:])
                return ('adt', v[1], v[2], tuple(fs))
            if v[0] == 'clo':
                fs = list(v[2])
                fs[e] = upd(fs[e], rest[1:])
                return ('clo', v[1], tuple(fs))
            if v[0] == 'box':
                return ('box', upd(v[1], rest[1:]))
            if v[0] == 'dyn':
                return ('dyn', upd(v[1], rest[1:]), v[2])
            if v[0] == 'iter':
                return v[:3] + (nv,) + v[4:]
            raise Imprecise('leaf')
        if path[0] == 'c':
            cell = path[1]
            if cell[0] == 'h':
                # canonical heap name: find by order
                raise Imprecise('heap leaf')
            st.mem[cell] = upd(self.readcell(st, cell), path[2:])
        else:
            c = ('l', path[0], path[1])
            st.mem[c] = upd(st.mem[c], path[2:])

    def close_loops(self):
        """after a full exploration: turn accumulators into closed forms; True if anything changed"""
        changed = False
        for hid, ups in self.loopupd.items():
            h = self.hints[hid]
            # induction invariants  X - k >= 0
            invs = None
            for upd, guards, facts, bl, kk in ups:
                s = set()
                for key, r in facts.items():
                    if key[0] == 'L' and r:
                        d = dict(key[1])
                        kf = d.get(kk)
                        if kf in (1, -1):
                            L = lin_mk(0, d)
                            if kf == -1 and r[0][0] > -INF:
                                inv = ladd(L, I(-r[0][0] + 1))
                            elif kf == 1 and r[-1][1] < INF:
                                inv = ladd(lscale(L, -1), I(r[-1][1] + 1))
                            else:
                                continue
                            inv = subst(inv, kk, ('k', hid))
                            if not has_acc(inv, hid):
                                s.add(inv)
                    elif key == kk and r and r[-1][1] < INF:
                        s.add(ladd(I(r[-1][1] + 1), ('k', hid), -1))
                invs = s if invs is None else invs & s
            invs = tuple(sorted(invs or (), key=rk))
            if set(invs) - set(h.get('inv', ())):
                h['inv'] = tuple(sorted(set(invs) | set(h.get('inv', ())), key=rk))
                changed = True
            for path, cls in list(h['cls'].items()):
                if cls[0] != 'acc':
                    continue
                acc = ('y', 'acc:%s:%s' % (hid, rk(path)), 0)
                new = None
                forms = []
                for upd, guards, facts, bl, kk in ups:
                    if path not in upd:
                        forms = None
                        break
                    u = subst(upd[path], kk, ('k', hid))
                    gs = tuple((subst(k2, kk, ('k', hid)), r) for k2, r in guards)
                    forms.append((u, gs))
                if forms:
                    new = self.closed(acc, forms, hid)
                if new is None:
                    h['cls'][path] = ('top',)
                else:
                    h['cls'][path] = new
                changed = True
        # heads that are never re-entered keep 'acc' (dead accumulators)
        return changed

    def closed(self, acc, forms, hid):
        def accfree(x):
            return not contains(x, lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == 'y' and isinstance(y[1], str) and y[1].startswith('acc:' + hid + ':'))
        # sums
        gs = []
        for u, g in forms:
            if u[0] in ('lin', 'i', 't', 'p', 'y', 'k', 'sum'):
                d = lsub(u, acc)
                if not accfree(d):
                    gs = None
                    break
                gs.append((g, d))
            else:
                gs = None
                break
        if gs:
            cases = {}
            for g, d in gs:
                g = tuple(x for x in g if accfree(x[0]) and x[0] != ('k', hid) and not (x[0][0] == 'L'))
                cases.setdefault(d, set()).add(g)
            if len(cases) == 1:
                return ('sum', (((), gs[0][1]),))
            out = []
            for d, g in cases.items():
                for x in g:
                    out.append((x, d))
            return ('sum', tuple(sorted(out, key=rk)))
        ps = set()
        for u, g in forms:
            if u[0] == 'push' and u[1] == acc and accfree(u[2]):
                ps.add(u[2])
            else:
                return None
        if len(ps) == 1:
            return ('comp', ps.pop())
        return None

    # ------------------------------------------------------------ stepping
    def step(self, st, work):
        self.steps += 1
        if self.steps & 63 == 0 and time.time() > self.until:
            raise Imprecise('time limit')
        if self.steps > self.max_steps:
            raise Imprecise('too many steps')
        fr = st.frames[-1]
        f = fr.func
        self.funcs_seen.add(f.key)
        bb = f.blocks[fr.bb]
        d = len(st.frames) - 1
        for s in bb['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, s[2], None)
                pl = s[1]
                if len(pl) == 1:
                    st.mem[('l', d, pl[0])] = v
                    self.settype(v, f.locals[pl[0]])
                else:
                    cell, projs, ty, boxy = self.loc(st, pl)
                    if self.store_hook:
                        self.store_hook(self, st, cell, projs, v, s[3])
                    self.write(st, cell, projs, v)
            elif k == 'dead':
                pass
            elif k == 'sd':
                cell, projs, ty, boxy = self.loc(st, s[1])
                v = self.read(st, cell, projs)
                t = self.prog.types[ty]
                n = len(self.prog.adts[t['adt']]['variants'][s[2]]['fields'])
                self.write(st, cell, projs, ('adt', t['adt'], s[2], (UNDEF,) * n))
            elif k == 'copynonoverlapping':
                raise Imprecise('copy_nonoverlapping')
        t = bb['t']
        k = t[0]
        if k == 'goto':
            self.goto(st, t[1], work)
        elif k == 'drop':
            if self.drop_hook:
                cell, projs, ty, boxy = self.loc(st, t[1])
                self.drop_hook(self, st, cell, projs, t[3])
            self.goto(st, t[2], work)
        elif k == 'return':
            self.ret(st, work)
        elif k == 'switch':
            self.switch(st, t, work)
        elif k == 'assert':
            self.do_assert(st, t, work)
        elif k == 'call':
            self.call(st, t, work)
        elif k == 'unreachable':
            pass
        elif k == 'cleanup':
            pass
        else:
            raise Imprecise('terminator %s' % k)

    store_hook = None
    drop_hook = None

    def ret(self, st, work):
        d = len(st.frames) - 1
        fr = st.frames[-1]
        v = st.mem.get(('l', d, 0), UNIT)
        if d == 0:
            self.terminal(st, 'ret', v)
            return
        st.frames.pop()
        for c in [c for c in st.mem if c[0] == 'l' and c[1] == d]:
            if not (self.may_escape(v, c)):
                del st.mem[c]
        self.settype(v, fr.func.locals[0])
        if fr.ret is None or fr.ret < 0:
            return
        cell, projs = fr.dest
        self.write(st, cell, projs, v)
        hk = [h for h in st.heads if len(h[0]) - 1 > len(st.frames)]
        for h in hk:
            del st.heads[h]
        self.goto(st, fr.ret, work)

    def may_escape(self, v, c):
        return False

    def split_bool(self, st, b, tb, fb, work):
        r = self.decide(st, b)
        if r is not None:
            self.goto(st, tb if r else fb, work)
            return
        s2 = st.copy()
        if self.assume(s2, b, False):
            self.goto(s2, fb, work)
        if self.assume(st, b, True):
            self.goto(st, tb, work)

    def switch(self, st, t, work):
        v = self.operand(st, t[1])
        ty = self.prog.types[t[4]]
        targets = [(int(x), b) for x, b in t[2]]
        if ty['k'] == 'int':
            w = WIDTH[ty['s']]
            targets = [(x - (1 << w) if x >> (w - 1) else x, b) for x, b in targets]
        other = t[3]
        if v[0] in ('i', 'b'):
            for x, b in targets:
                if x == v[1]:
                    self.goto(st, b, work)
                    return
            self.goto(st, other, work)
            return
        if ty['k'] == 'bool':
            tb, fb = other, other
            for x, b in targets:
                if x == 0:
                    fb = b
                else:
                    tb = b
            self.split_bool(st, v, tb, fb, work)
            return
        if v[0] == 't' and v[1] == 'discr' and v[2][0] == 't' and v[2][1] == 'cmp':
            self.split_cmp(st, v, targets, other, work)
            return
        if not self.intlike(v):
            # opaque scrutinee: all targets
            for x, b in targets:
                self.goto(st.copy(), b, work)
            self.goto(st, other, work)
            return
        rest = st
        for x, b in targets:
            s2 = rest.copy()
            if self.assume(s2, mk_eq0(ladd(v, I(-x))), True):
                self.goto(s2, b, work)
            if not self.assume(rest, mk_eq0(ladd(v, I(-x))), False):
                return
        self.goto(rest, other, work)

    def split_cmp(self, st, v, targets, other, work):
        a, b = v[2][2], v[2][3]
        d = lsub(a, b)
        conds = {-1: mk_not(mk_ge0(d)), 0: mk_eq0(d), 1: mk_ge0(ladd(d, I(-1)))}
        tm = dict(targets)
        for o, c in conds.items():
            s2 = st.copy()
            if self.assume(s2, c, True) and self.addfact(s2, v, ((o, o),)):
                self.goto(s2, tm.get(o, other), work)

    def do_assert(self, st, t, work):
        c = self.operand(st, t[1])
        want = t[2]
        b = c if want else mk_not(c)
        m = t[4]
        if m[0].startswith('Discriminant'):
            # alignment and null checks of the compiler's debug mode on references
            self.goto(st, t[3], work)
            return
        r = self.decide(st, b)
        if m[0] == 'overflow' and r is None:
            r = self.decide_ovf(st, c, want)
        if r is True:
            self.goto(st, t[3], work)
            return
        if self.keep_panics:
            s2 = st.copy()
            if r is False or self.assume(s2, b, False):
                w = ':' + c[2] if m[0] == 'overflow' and c[0] == 't' and c[1] == 'ovf' else ''
                self.panic(s2, t[5], 'assert:' + m[0] + w)
        if r is False:
            return
        if self.assume(st, b, True):
            if c[0] == 't' and c[1] == 'ovf':
                self.ovf_fact(st, c)
            self.goto(st, t[3], work)

    def decide_ovf(self, st, c, want):
        if c[0] == 't' and c[1] == 'ovf':
            r = self.vrange(st, c[3])
            s = c[2]
            w = WIDTH[s]
            lo, hi = (0, (1 << w) - 1) if s[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if self.prove_ge0(st, ladd(c[3], I(-lo)), 2) and self.prove_ge0(st, lsub(I(hi), c[3]), 2):
                return not want
            return None
        return None

    def ovf_fact(self, st, c):
        s = c[2]
        w = WIDTH[s]
        lo, hi = (0, (1 << w) - 1) if s[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        L = c[3]
        if L[0] == 'lin' or is_term(L):
            self.assume(st, mk_ge0(ladd(L, I(-lo))), True)
            if w < 64 or L[0] == 't' and L[1] == 'Mul':
                self.assume(st, mk_ge0(lsub(I(hi), L)), True)

    # ------------------------------------------------------------ calls
    def finish(self, st, c, v, work):
        if c.target is None or c.target < 0:
            return
        cell, projs = c.dest
        self.write(st, cell, projs, v)
        self.settype(v, c.dty)
        self.goto(st, c.target, work)

    def call(self, st, t, work):
        c = Call()
        fv = self.operand(st, t[1])
        c.args = [self.operand(st, o) for o in t[2]]
        cell, projs, ty, boxy = self.loc(st, t[3])
        c.dest = (cell, projs)
        c.target = t[4]
        c.site = t[5]
        c.dty = t[6]
        c.atys = t[7]
        self.invoke(st, c, fv, work)

    def invoke(self, st, c, fv, work):
        if fv[0] == 'fn':
            c.cal = self._callee_list[fv[1]]
        elif fv[0] == 'fnptr' and fv[1] in self.prog.funcs:
            self.push(st, c, fv[1], c.args, work)
            return
        elif fv[0] == 'clo':
            return self.call_value(st, c, fv, None, c.args, work)
        else:
            c.cal = None
            c.path = c.ipath = c.name = 'indirect'
            self.opaque(st, c, work, fv)
            return
        c.path = c.cal['path']
        c.ipath = c.cal['ipath']
        c.name = c.cal['name']
        # constructors
        if c.cal['kind'] == 'ctor':
            v = ('adt', c.cal['adt'], max(c.cal['variant'], 0), tuple(c.args))
            self.finish(st, c, v, work)
            return
        h = self.hooks.get(c.ipath) or self.hooks.get(c.path)
        if h is not None:
            r = h(self, st, c, work)
            if r is not NotImplemented:
                self.models_used.add(c.path)
                if r is None:
                    return
                for s2, v in r:
                    self.finish(s2, c, v, work)
                return
        # closures, fn items through the Fn traits
        if c.path in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once'):
            f = c.args[0]
            tup = c.args[1]
            args = list(tup[3]) if tup[0] == 'adt' else [('p', tup, 0, 0)]
            return self.call_value(st, c, f, c.args[0], args, work)
        # virtual
        if c.cal['kind'] == 'virtual':
            v = c.args[0]
            tyid = self.dynty(st, v)
            if tyid is not None:
                k = self.prog.vt.get((self.prog.tstr(tyid), c.path))
                if k and k in self.prog.funcs:
                    a = list(c.args)
                    a[0] = strip_dyn(v)
                    self.push(st, c, k, a, work)
                    return
            self.opaque(st, c, work)
            return
        k = c.cal['inst']
        if k and k in self.prog.funcs and (self.inline is None or self.inline(self.prog.funcs[k])):
            if '#cloneshim' in k:
                self.finish(st, c, self.clone_of(st, c.args[0]), work)
                return
            self.push(st, c, k, c.args, work)
            return
        self.opaque(st, c, work)

    def dynty(self, st, v):
        for _ in range(6):
            if v[0] == 'dyn':
                return v[2]
            if v[0] == 'ref':
                v = self.read(st, v[1], v[2])
                continue
            return None
        return None

    def clone_of(self, st, ref):
        c, p = self.deref(ref)
        return self.read(st, c, p)

    def call_value(self, st, c, f, selfref, args, work):
        """call a closure / fn item value"""
        loc = None
        for _ in range(8):
            if f[0] == 'ref':
                loc = f
                f = self.read(st, f[1], f[2])
                continue
            if f[0] == 'dyn':
                f = f[1]
                continue
            if f[0] == 'box':
                f = f[1]
                loc = None
                continue
            break
        if f[0] == 'fn':
            c.args = list(args)
            self.invoke(st, c, f, work)
            return
        if f[0] == 'fnptr' and f[1] in self.prog.funcs:
            self.push(st, c, f[1], list(args), work)
            return
        if f[0] == 'clo' and f[1] in self.prog.funcs:
            F = self.prog.funcs[f[1]]
            t = self.prog.types[F.locals[1]]
            if t['k'] == 'ref':
                if loc is None:
                    st.nh += 1
                    cell = ('h', st.nh)
                    st.mem[cell] = f
                    loc = ('ref', cell, ())
                a = [loc] + list(args)
            else:
                a = [f] + list(args)
            self.push(st, c, f[1], a, work)
            return
        c.path = c.ipath = 'indirect'
        c.name = 'indirect'
        c.args = [f] + list(args)
        self.opaque(st, c, work, f)

    def push(self, st, c, key, args, work):
        F = self.prog.funcs[key]
        if self.opaque_pred and self.opaque_pred(F, c):
            self.opaque(st, c, work)
            return
        if sum(fr.func.key == key for fr in st.frames) >= self.recdepth or len(st.frames) > 40:
            self.recursion(st, c, key, args, work)
            return
        d = len(st.frames)
        for cc in [cc for cc in st.mem if cc[0] == 'l' and cc[1] >= d]:
            del st.mem[cc]
        st.frames.append(Frame(F, 0, c.dest, c.target, None, (st.frames[-1].bb, c.site)))
        st.heads = {h: v for h, v in st.heads.items() if len(h[0]) - 1 <= d}
        for i, a in enumerate(args):
            st.mem[('l', d, i + 1)] = a
            if i + 1 < len(F.locals):
                self.settype(a, F.locals[i + 1])
        if F.nargs > len(args) and F.spread is not None:
            pass
        if 0 in F.heads():
            if not self.enter(st, 0):
                return
        work.append(st)

    def recursion(self, st, c, key, args, work):
        snap = tuple(self.snap(st, a) for a in args)
        self.rec_log.setdefault(key, []).append((snap, c.site))
        if self.rec:
            r = self.rec(self, st, c, key, args, snap, work)
            if r is not NotImplemented:
                if r is None:
                    return
                for s2, v in r:
                    self.finish(s2, c, v, work)
                return
        self.havoc_args(st, c, args)
        v = ('t', 'rec', key) + tuple(plain(x) for x in snap)
        self.emit(st, 'rec', key, snap)
        self.settype(v, c.dty)
        self.finish(st, c, v, work)

    def havoc_args(self, st, c, args=None):
        for a, ti in zip(args if args is not None else c.args, c.atys):
            t = self.prog.types[ti]
            if t['k'] == 'ref' and t['mut']:
                cell, projs = self.deref(a)
                if cell[0] in ('k', 'static'):
                    continue
                y = self.fresh('havoc')
                self.TY[y] = t['t']
                self.write(st, cell, projs, y)

    def opaque(self, st, c, work, fv=None):
        if c.target is None or c.target < 0:
            what = c.path
            self.panic(st, c.site, what)
            return
        self.opaque_log[c.ipath] = self.opaque_log.get(c.ipath, 0) + 1
        args = tuple(plain(self.snap(st, a)) for a in c.args)
        targs = tuple(self.prog.tstr(i) for i in c.cal['args']) if c.cal else ()
        mut = any(self.prog.types[ti]['k'] == 'ref' and self.prog.types[ti]['mut'] for ti in c.atys)
        if mut:
            self.emit(st, 'opaque', c.path, args)
            self.havoc_args(st, c)
            v = self.fresh('r:' + c.name)
        else:
            v = ('t', 'call', c.path, targs) + args
        if c.dty is not None:
            t = self.prog.types[c.dty]
            if t['k'] == 'tuple' and not t['ts']:
                v = UNIT
            self.settype(v, c.dty)
        self.finish(st, c, v, work)


def has_ref(v):
    return contains(v, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'ref')


def has_acc(v, hid):
    return contains(v, lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == 'y' and isinstance(y[1], str) and y[1].startswith('acc:'))


def strip_dyn(v):
    while v[0] == 'dyn':
        v = v[1]
    return v
