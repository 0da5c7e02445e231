"""Storage: locations, sizes, volume parameters and identifiers; the lists of the buffer pool."""
import itertools
from .common import *
from ..dom import *
from ..models import tup, UNIT

ST = 'crate::storage::'
LOC, VIDX, VPAR, VMAN = ST + 'Location', ST + 'VolumeIndex', ST + 'VolumeParameters', ST + 'VolumeManager'
HEAD, LINK, BUF, POOL = ST + 'BufferListHead', ST + 'BufferListLink', ST + 'Buffer', ST + 'BufferPool'


def sym(n):
    return ('y', n, 0)


def rng(lo, hi):
    return ((lo, hi),)


def lin(c, *ts):
    """c + sum of k * t"""
    r = I(c)
    for k, t in ts:
        r = ladd(r, lmul(t, k))
    return r


def lmul(t, k):
    return lscale(t, k)


def clean(A, st):
    return not A.opaque_log and not A.rec_log and all(not contains(k, lambda x: isinstance(x, tuple) and x[:1] in (('o',), ('undef',), ('comp',))) for k in st.facts)


def outcomes(A, R, f, args, facts, mem=None):
    A.all_panics = True
    g = A.run(f.key, args, facts=facts, mem=mem or {})
    R.seen(A)
    ts = g.terms()
    if not ts:
        raise Imprecise('no outcome')
    return ts


def must(A, R, label, st, got, want, what):
    """got equals want on this path"""
    d = A.decide(st, mk_eqv(got, want))
    if d is True or got == want:
        return
    (R.bad if d is False and clean(A, st) else R.undecided)('%s:value' % label, '%s is %s instead of %s' % (what, pp(A.prog, got), pp(A.prog, want)), None, ob=label)


# ------------------------------------------------------------------ C25
def c25(ctx, R):
    """locations, sizes, parameters of volumes and their identifiers"""
    P = ctx.P
    locations(P, R)
    rounding(P, R)
    parameters(P, R)
    identifiers(P, R)


def priv(R, P, path):
    f = P.one(path)
    if f is None:
        R.undecided('anchor:' + path, '%s was not found' % path)
    return f


def locations(P, R):
    new, index, offset = [priv(R, P, LOC + '::' + n) for n in ('new', 'index', 'offset')]
    if not (new and index and offset):
        return
    v, o = sym('volume'), sym('offset')
    H = ('h', 10001)
    vi = ('adt', VIDX, 0, (v,))
    for label, lo, hi in (('location:fits', 0, 2 ** 56 - 1), ('location:too-far', 2 ** 56, 2 ** 64 - 1)):
        with Guard(R, label):
            A = Analysis(P)
            A.settype(v, P.tyidx['u8'])
            A.settype(o, P.tyidx['u64'])
            doms = {v: (0, 255), o: (lo, hi)}
            for n in outcomes(A, R, new, [vi, o], {v: rng(0, 255), o: rng(lo, hi)}):
                if n.kind == 'panic':
                    if lo == 0:
                        judge(A, R, n.state, doms)(label + ':panic', 'making a location with an offset below 2^56 panics', n.info[2], ob=label)
                    continue
                if lo:
                    judge(A, R, n.state, doms)(label + ':accepted', 'an offset of 2^56 or more is accepted', None, ob=label)
                    continue
                loc = snap(A, n.state, n.info)
                for f, want, what in ((index, vi, 'the volume'), (offset, o, 'the offset')):
                    for m in outcomes(A, R, f, [('ref', H, ())] if is_ref(P, f) else [loc], n.state.facts, {H: loc}):
                        if m.kind == 'panic':
                            judge(A, R, m.state, doms)(label + ':panic', 'reading a location panics', m.info[2], ob=label)
                            continue
                        equal(A, R, label, m.state, snap(A, m.state, m.info), want, '%s of a location' % what, doms)


def is_ref(P, f):
    t = f.locals[1]
    return P.types[t if isinstance(t, int) else t[0]]['k'] == 'ref'


def simp(v, doms):
    """divisions of linear forms by constants, where the ranges of the symbols decide the remainder"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'adt':
        return v[:3] + (tuple(simp(x, doms) for x in v[3]),)
    if v[0] == 'lin':
        r = I(v[1])
        for t, k in v[2]:
            t = simp(t, doms)
            if t[0] == 't' and t[1] == 'Div' and len(t) == 5 and t[4][0] == 'i' and t[4][1] > 0 and k % t[4][1] == 0 and not t[4][1] & (t[4][1] - 1) and nonneg(t[3], doms):
                # d * (x / d) is x without its remainder
                t, k = ladd(t[3], ('t', 'low', t[4][1], t[3]), -1), k // t[4][1]
            r = ladd(r, t, k)
        return r
    if v[0] == 't' and v[1] in ('Div', 'Rem', 'Shr', 'And') and len(v) == 5:
        x, k = simp(v[3], doms), simp(v[4], doms)
        if v[1] == 'And' and x[0] == 'i':
            x, k = k, x
        if k[0] == 'i' and k[1] >= 0:
            d = 1 << k[1] if v[1] == 'Shr' else k[1] + 1 if v[1] == 'And' else k[1]
            if v[1] == 'And' and d & (d - 1):
                w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}.get(v[2])
                d, s = (1 << w) - k[1] if w else 0, span(x, doms)
                if d > 0 and not d & (d - 1) and s and 0 <= s[0] and s[1] < 1 << w:
                    # all but the low bits
                    r = parts(x, d, doms)[1]
                    return v if r is None else ladd(x, r, -1)
                return v
            if d:
                q, r = parts(x, d, doms)
                if r is not None:
                    return q if v[1] in ('Div', 'Shr') else r
        return v
    if v[0] == 't' and v[1] in ('Trunc', 'Wrap', 'as', 'low'):
        x = simp(v[3], doms)
        if v[1] == 'Trunc' and v[2] in ('i8', 'i16', 'i32', 'i64'):
            s, h = span(x, doms), 1 << int(v[2][1:]) - 1
            return x if s and -h <= s[0] and s[1] < h else v
        w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}.get(v[2]) if v[1] != 'low' else None
        d = v[2] if v[1] == 'low' else 1 << w if w else None
        if d:
            q, r = parts(x, d, doms)
            if r is not None:
                return r
        return v
    return v


def nonneg(x, doms):
    s = span(x, doms)
    return s is not None and s[0] >= 0


def parts(x, d, doms):
    """(quotient, remainder) of a linear form by d; the remainder is None if its range leaves 0..d-1 undecided"""
    c, ts = lin_of(x)
    q, r, lo, hi = I(c // d), I(c % d), c % d, c % d
    for t, k in ts.items():
        if k % d == 0:
            q = ladd(q, t, k // d)
            continue
        if t not in doms:
            return None, None
        a, b = doms[t]
        k1 = k % d
        q = ladd(q, t, k // d)
        r = ladd(r, t, k1)
        lo, hi = lo + k1 * a, hi + k1 * b
    if lo // d != hi // d:
        return None, None
    return ladd(q, I(lo // d)), ladd(r, I(-(lo // d) * d))


def equal(A, R, label, st, got, want, what, doms):
    if not feasible(st, doms):
        return
    got = simp(got, doms)
    if got == want or A.decide(st, mk_eqv(got, want)) is True:
        return
    w = find(A, st, got, want, doms)
    msg = '%s is %s instead of %s' % (what, pp(A.prog, got), pp(A.prog, want))
    if w is not None:
        R.bad(label + ':value', msg + ' (%s)' % w, None, ob=label)
    else:
        R.undecided(label + ':value', msg, None, ob=label)


def find(A, st, got, want, doms):
    """numbers for the symbols on which the two terms differ, as text"""
    from .. import witness

    def draw(r):
        env = {}
        for s, (lo, hi) in doms.items():
            k = r.randrange(5)
            b = max(1, hi.bit_length())
            x = lo if k == 0 else hi if k == 1 else r.randint(lo, hi) if k == 2 else (1 << r.randrange(b)) + r.randint(-2, 2) if k == 3 else r.randint(lo, hi) >> (j := r.randrange(b)) << j
            env[s] = min(max(x, lo), hi)
        return env

    def check(ev):
        g, w = value_of(ev, got), value_of(ev, want)
        if g != w:
            return '%s: %s, not %s' % (', '.join('%s = %d' % (s[1], ev.env[s]) for s in doms), g, w)
    hit = witness.search(st, draw, check)
    return None if hit is None else hit[1]


def judge(A, R, st, doms):
    """how to report a path that must not be: not at all if the ranges rule it out, as a violation if there are numbers that take it"""
    if not feasible(st, doms):
        return lambda *a, **k: None
    if not doms:
        return R.bad if clean(A, st) else R.undecided
    return R.bad if find(A, st, I(0), I(1), doms) else R.undecided


def value_of(ev, v):
    if v[0] == 'adt':
        return (v[2],) + tuple(value_of(ev, x) for x in v[3])
    return ev.n(v)


WIDTHS = {'align_u8': 8, 'align_u16': 16, 'align_u32': 32, 'align_u64': 64, 'align_u128': 128, 'align_usize': 64}


def rounding(P, R):
    x = sym('value')
    for name, w in WIDTHS.items():
        f = priv(R, P, ST + 'utils::' + name)
        if f is not None:
            roundings(P, R, f, name, x, name.split('_')[1], w)
    blocks(P, R)


def roundings(P, R, f, name, x, ty, w):
    """value up to a multiple of 2^k: as a bit mask over value + 2^k - 1, else with value as q 2^k and q 2^k + m"""
    q, m = sym('multiple'), sym('rest')
    for k in range(w):
        a = 1 << k
        label = 'round:%s:%d' % (name, k)
        with Guard(R, label):
            A = Analysis(P)
            A.settype(x, P.tyidx[ty])
            last, mask = ladd(x, I(a - 1)), (1 << w) - a
            forms = [x] if a == 1 else [('t', 'And', ty, last, I(mask)), ('t', 'And', ty, I(mask), last), ('t', 'BitAnd', ty, last, I(mask))]
            if all(n.kind != 'panic' and n.info in forms for n in outcomes(A, R, f, [x, I(a)], {x: rng(0, (1 << w) - 1 - a)})):
                continue
            qs = {q: (0, (1 << w - k) - 2)}
            for value, doms, want in ((lscale(q, a), qs, lscale(q, a)), (ladd(lscale(q, a), m), {m: (1, a - 1), **qs}, ladd(lscale(q, a), I(a)))):
                if a == 1 and value != q:
                    continue
                A = Analysis(P)
                for s in doms:
                    A.settype(s, P.tyidx[ty])
                for n in outcomes(A, R, f, [value, I(a)], {s: rng(*d) for s, d in doms.items()}):
                    if n.kind == 'panic':
                        judge(A, R, n.state, doms)(label + ':panic', 'rounding up to a multiple of 2^%d panics' % k, n.info[2], ob=label)
                    else:
                        equal(A, R, label, n.state, n.info, want, '%s(%s, %d)' % (name, pp(P, value), a), doms)


def blocks(P, R):
    f = priv(R, P, ST + 'utils::calc_file_blocks')
    if f is not None:
        n_, m = sym('whole'), sym('rest')
        for k in list(range(9, 19)) + [0, 1, 31]:
            a = 1 << k
            for label, size, facts, want in (('blocks:whole:%d' % k, lscale(n_, a), {n_: rng(0, (1 << 48) - 1 >> k)}, n_),
                                             ('blocks:part:%d' % k, ladd(lscale(n_, a), m), {n_: rng(0, (1 << 48) - 1 >> k), m: rng(1, a - 1)}, ladd(n_, I(1)))):
                if a == 1 and 'part' in label:
                    continue
                with Guard(R, label):
                    A = Analysis(P)
                    for s in (n_, m):
                        A.settype(s, P.tyidx['u64'])
                    for n in outcomes(A, R, f, [size, I(a)], facts):
                        if n.kind == 'panic':
                            judge(A, R, n.state, {s: r[0] for s, r in facts.items()})(label + ':panic', 'counting the blocks of a file panics', n.info[2], ob=label)
                        else:
                            equal(A, R, label, n.state, n.info, want, 'the number of blocks', {s: r[0] for s, r in facts.items()})


def span(v, doms):
    """the range of a linear form over the symbols, None if it has other parts"""
    c, ts = lin_of(v)
    lo = hi = c
    for t, k in ts.items():
        if t in doms:
            a, b = doms[t]
        elif t[0] == 't' and t[1] == 'low':
            a, b = 0, t[2] - 1
        elif t[0] == 't' and t[1] == 'Div' and len(t) == 5 and t[4][0] == 'i' and t[4][1] > 0 and nonneg(t[3], doms):
            a, b = [e // t[4][1] for e in span(t[3], doms)]
        else:
            return None
        lo += min(k * a, k * b)
        hi += max(k * a, k * b)
    return lo, hi


def feasible(st, doms):
    """False if a fact of the path contradicts the ranges of the symbols"""
    for k, r in st.facts.items():
        if k[0] == 'L':
            v = I(0)
            for t, c in k[1]:
                v = ladd(v, simp(t, doms), c)
        else:
            v = simp(k, doms)
        if v[0] == 't' and v[1] == 'ovf' and v[2][0] == 'u':
            x = span(simp(v[3], doms), doms)
            w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(v[2])
            if x is None or w is None:
                continue
            s = (0, 0) if x[0] >= 0 and x[1] < 1 << w else (1, 1) if x[1] < 0 or x[0] >= 1 << w else (0, 1)
        else:
            s = span(v, doms)
        if s is not None and not is_and(r, (s,)):
            return False
    return True


def parameters(P, R):
    f = anchor(R, P, VPAR + '::new_with_defaults')
    if f is None:
        return
    k, r = sym('blocks'), sym('rest')
    top = (1 << 52) - 1
    fields = {n: field(P, VPAR, n) for n in ('volume_size', 'log_block_size', 'log_file_header_size')}
    for label, size, doms, good in (
            ('parameters:whole', lscale(k, 4096), {k: (1, 1 << 32)}, True),
            ('parameters:none', I(0), {}, False),
            ('parameters:part', ladd(lscale(k, 4096), r), {k: (0, top), r: (1, 4095)}, False),
            ('parameters:too-many', lscale(k, 4096), {k: ((1 << 32) + 1, top)}, False)):
        with Guard(R, label):
            A = Analysis(P)
            for s in doms:
                A.settype(s, P.tyidx['u64'])
            seen = 0
            for n in outcomes(A, R, f, [size], {s: (d,) for s, d in doms.items()}):
                if not feasible(n.state, doms):
                    continue
                seen += 1
                rep = judge(A, R, n.state, doms)
                if n.kind == 'panic':
                    if good:
                        rep(label + ':refused', 'a volume of a whole number of blocks is refused', n.info[2], ob=label)
                    continue
                if not good:
                    rep(label + ':accepted', 'a volume of %s is accepted' % {'parameters:none': 'no blocks', 'parameters:part': 'a size that is not a whole number of blocks', 'parameters:too-many': 'more than 2^32 blocks'}[label], None, ob=label)
                    continue
                v = snap(A, n.state, n.info)
                for name, want in (('volume_size', size), ('log_block_size', I(12)), ('log_file_header_size', None)):
                    got = v[3][fields[name]]
                    if want is not None:
                        equal(A, R, label, n.state, got, want, name, doms)
                    elif got[0] != 'i':
                        R.undecided(label, 'the size of file headers is not a constant')
                    elif not 9 <= got[1] <= 12:
                        R.bad(label + ':header', 'a file header has 2^%d bytes: it must hold a name of 255 bytes and fit in a block of 4096' % got[1], None, ob=label)
            if not seen:
                R.undecided(label, 'no outcome')


def identifiers(P, R):
    f = priv(R, P, VMAN + '::next_volume')
    if f is None:
        return
    H = ('h', 10001)
    i = sym('next')
    fi = field(P, VMAN, 'next_volume')
    for label, lo, hi in (('identifier:next', 0, 254), ('identifier:last', 255, 255)):
        with Guard(R, label):
            A = Analysis(P)
            A.settype(i, P.tyidx['u8'])
            fs = [sym('other')] * len(P.adts[VMAN]['variants'][0]['fields'])
            fs[fi] = ('adt', VIDX, 0, (i if lo < hi else I(lo),))
            doms = {i: (lo, hi)}
            man = ('adt', VMAN, 0, tuple(fs))
            for n in outcomes(A, R, f, [('ref', H, ())], {i: rng(lo, hi)} if lo < hi else {}, {H: man}):
                if not feasible(n.state, doms):
                    continue
                rep = judge(A, R, n.state, doms)
                if n.kind == 'panic':
                    rep(label + ':panic', 'asking for a volume identifier panics', n.info[2], ob=label)
                    continue
                res = snap(A, n.state, n.info)
                after = simp(snap(A, n.state, n.state.mem[H])[3][fi], doms)
                if res[0] != 'adt' or res[1] != RES or after[0] != 'adt':
                    R.undecided(label, 'result not understood')
                    continue
                if res[2] != 0:
                    if lo < 255:
                        rep(label + ':refused', 'an identifier is refused although some are left', None, ob=label)
                    continue
                equal(A, R, label, n.state, res[3][0], fs[fi], 'the identifier', doms)
                d = span(ladd(after[3][0], fs[fi][3][0], -1), doms)
                if d is None or d[0] < 1:
                    low = ('t', 'ovf', 'u64', ladd(ladd(after[3][0], fs[fi][3][0], -1), I(-1)))
                    (R.bad if find(A, n.state, low, I(0), doms) else R.undecided)(label + ':again', 'an identifier is given out again', None, ob=label)


# ------------------------------------------------------------------ C33
UT = 'crate::core::util::'


def between(k):
    """some numbers between 2^k and 2^(k+1): with two bits set, two apart, the last one"""
    b = 1 << k
    return sorted({b + (b >> n) for n in range(1, k + 1)} | {2 * b - 1}) if k else []


def c33(ctx, R):
    """the helpers that round sizes and count bits"""
    P = ctx.P
    x = sym('value')
    f = anchor(R, P, UT + 'align')
    if f is not None:
        roundings(P, R, f, 'align', x, 'usize', 64)
        y = sym('alignment')
        for k in range(64):
            lo, hi = (1 << k) + 1, (2 << k) - 1
            for a in ([y] if k else [I(0)]) + [I(n) for n in between(k)]:
                label = 'round:align:refuse:' + ('%d' % a[1] if a != y else 'between:%d' % k)
                doms = {x: (0, 1 << 20)}
                if a == y:
                    doms[y] = (lo, hi)
                with Guard(R, label):
                    A = Analysis(P)
                    for t in doms:
                        A.settype(t, P.tyidx['usize'])
                    for n in outcomes(A, R, f, [x, a], {t: rng(*d) for t, d in doms.items()}):
                        if n.kind != 'panic':
                            judge(A, R, n.state, doms)(label, 'rounding up to a multiple of %s, which is no power of two, is not refused' % (a[1] if a != y else 'a number from %d to %d' % (lo, hi)), None, ob=label)
    f = anchor(R, P, UT + 'required_bits')
    for k in range(65) if f is not None else ():
        lo, hi = (1 << k) >> 1, (1 << k) - 1
        label = 'bits:%d' % k
        with Guard(R, label):
            A = Analysis(P)
            A.settype(x, P.tyidx['usize'])
            for n in outcomes(A, R, f, [x], {x: rng(lo, hi)}):
                if n.kind == 'panic':
                    judge(A, R, n.state, {x: (lo, hi)})(label + ':panic', 'counting the bits of a number of %d bits panics' % k, n.info[2], ob=label)
                else:
                    equal(A, R, label, n.state, n.info, I(k), 'the bits of a number from %d to %d' % (lo, hi), {x: (lo, hi)})
    f = anchor(R, P, UT + 'log2')
    for k in range(64) if f is not None else ():
        label = 'log2:%d' % k
        with Guard(R, label):
            A = Analysis(P)
            for n in outcomes(A, R, f, [I(1 << k)], {}):
                if n.kind == 'panic' or n.info != I(k):
                    (R.bad if clean(A, n.state) else R.undecided)(label, 'the logarithm of 2^%d %s' % (k, 'panics' if n.kind == 'panic' else 'is ' + pp(P, n.info)), None, ob=label)
            if k:
                A = Analysis(P)
                A.settype(x, P.tyidx['usize'])
                lo, hi = (1 << k) + 1, (2 << k) - 1
                for n in outcomes(A, R, f, [x], {x: rng(lo, hi)}):
                    if n.kind != 'panic':
                        judge(A, R, n.state, {x: (lo, hi)})(label + ':refuse', 'the logarithm of a number between 2^%d and 2^%d, which has none, is given' % (k, k + 1), None, ob=label)
        for v in between(k):
            with Guard(R, 'log2:refuse:%d' % v):
                A = Analysis(P)
                for n in outcomes(A, R, f, [I(v)], {}):
                    if n.kind != 'panic':
                        (R.bad if clean(A, n.state) else R.undecided)('log2:refuse:%d' % v, 'the logarithm of %d, which has none, is given' % v, None, ob='log2:refuse:%d' % v)
    if f is not None:
        with Guard(R, 'log2:none'):
            A = Analysis(P)
            for n in outcomes(A, R, f, [I(0)], {}):
                if n.kind != 'panic':
                    (R.bad if clean(A, n.state) else R.undecided)('log2:none', 'the logarithm of 0 is given', None, ob='log2:none')


# ------------------------------------------------------------------ C26
NIL = 0xffffffff


def c26(ctx, R):
    """the lists of the buffer pool, its construction, and the memory of its buffers"""
    P = ctx.P
    lists(P, R)
    pool(P, R)
    slices(P, R)


def mk(P, path, _id=0, **kw):
    """a struct with the named fields, the others symbolic"""
    names = [x['name'] for x in P.adts[path]['variants'][0]['fields']]
    for k in kw:
        if k not in names:
            raise Imprecise('%s has no field %s' % (path, k))
    return ('adt', path, 0, tuple(kw.get(n, ('y', n, _id)) for n in names))


def chain(P, size, order):
    """(head of the list, buffers) with the buffers of the order in a list and all others in none"""
    link = {}
    for p, i in enumerate(order):
        link[i] = (order[p - 1] if p else NIL, order[p + 1] if p + 1 < len(order) else NIL)
    bs = [mk(P, BUF, link=mk(P, LINK, prev=I(NIL), next=I(NIL)), _id=i) for i in range(size)]
    for i, (p, n) in link.items():
        bs[i] = mk(P, BUF, link=mk(P, LINK, prev=I(p), next=I(n)), _id=i)
    return mk(P, HEAD, head=I(order[0] if order else NIL), tail=I(order[-1] if order else NIL)), ('arr', tuple(bs))


ORDERS = [(6, (2, 0, 3, 1, 5)), (6, (5, 4, 3, 2, 1)), (6, (0, 1, 2, 3, 4)), (300, (298, 256, 257, 255, 0)), (66000, (65999, 65537, 65538, 65536))]


def lists(P, R):
    fs = {n: priv(R, P, HEAD + '::' + n) for n in ('list_push_front', 'list_push_back', 'list_remove')}
    for name, f in fs.items():
        if f is None:
            continue
        for size, full in ORDERS:
            for n in range(len(full)) if size < 60000 else [3]:
                order = full[:n] if name != 'list_remove' else full[:n + 1]
                for i in [full[n]] if name != 'list_remove' else order if size < 60000 else order[2:3]:
                    label = 'list:%s:%d:%s:%d' % (name[5:], size, '-'.join(map(str, order)), i)
                    after = (i,) + order if name == 'list_push_front' else order + (i,) if name == 'list_push_back' else tuple(x for x in order if x != i)
                    with Guard(R, label):
                        A = Analysis(P)
                        head, bufs = chain(P, size, order)
                        H, B = ('h', 10001), ('h', 10002)
                        what = '%s of buffer %d on the list %s' % (name, i, list(order))
                        for node in outcomes(A, R, f, [('ref', H, ()), ('ref', B, ()), I(i)], {}, {H: head, B: bufs}):
                            rep = R.bad if clean(A, node.state) else R.undecided
                            if node.kind == 'panic':
                                rep(label + ':panic', what + ' panics', node.info[2], ob=label)
                                continue
                            h2, b2 = node.state.mem[H], node.state.mem[B]
                            wh, wb = chain(P, size, after)
                            if h2 != wh:
                                rep(label + ':head', '%s leaves %s instead of %s' % (what, pp(P, h2), pp(P, wh)), None, ob=label)
                            if b2 != wb:
                                if b2[0] != 'arr' or len(b2[1]) != size:
                                    R.undecided(label + ':links', 'the buffers are not understood', None, ob=label)
                                    continue
                                k = [j for j in range(size) if b2[1][j] != wb[1][j]][0]
                                rep(label + ':links', '%s leaves buffer %d as %s instead of %s' % (what, k, pp(P, b2[1][k]), pp(P, wb[1][k])), None, ob=label)


OPAQUE = ('map_anon', 'Weak::<T>::new', 'mutex::Mutex::<T>::new', 'condvar::Condvar::new')


def pool(P, R):
    f = priv(R, P, POOL + '::new')
    if f is None:
        return
    MAP = ST + 'BufferPoolMapping'
    ends = []
    for size, n in ((4096, 1), (4096, 2), (512, 3), (1, 7), (1 << 18, 300)):
        label = 'pool:%d:%d' % (size, n)
        with Guard(R, label):
            A = Analysis(P)
            A.unroll = 1000
            ok = False
            for node in outcomes(A, R, f, [I(size), I(n)], {}):
                known = not A.rec_log and all(any(o in k for o in OPAQUE) for k in A.opaque_log)
                rep = R.bad if known else R.undecided
                if node.kind == 'panic':
                    rep(label + ':panic', 'making a pool of %d buffers of %d bytes panics' % (n, size), node.info[2], ob=label)
                    continue
                res = snap(A, node.state, node.info)
                if res[0] != 'adt' or res[1] != RES:
                    R.undecided(label, 'result not understood', None, ob=label)
                    continue
                if res[2] != 0:
                    if not contains(res, lambda x: isinstance(x, tuple) and 'map_anon' in str(x[:3])):
                        rep(label + ':refused', 'a pool of %d buffers of %d bytes is refused' % (n, size), None, ob=label)
                    continue
                ok = True
                v = res[3][0]
                mem, size_, m = [v[3][field(P, POOL, x)] for x in ('memory', 'buffer_size', 'mapping')]
                found = []
                contains(m, lambda x: isinstance(x, tuple) and x[:2] == ('adt', MAP) and found.append(x))
                if len(found) != 1:
                    R.undecided(label, 'the mapping of the pool was not found', None, ob=label)
                    continue
                get = lambda x: found[0][3][field(P, MAP, x)]
                if size_ != I(size):
                    rep(label + ':size', 'the pool states a buffer size of %s instead of %d' % (pp(P, size_), size), None, ob=label)
                calls = []
                contains(mem, lambda x: isinstance(x, tuple) and len(x) > 3 and x[:2] == ('t', 'call') and calls.append(x))
                amount = [a for a in calls[-1] if isinstance(a, tuple) and a[:1] == ('i',)] if calls else []
                if len(amount) != 1:
                    R.undecided(label, 'the memory of the pool was not understood', None, ob=label)
                elif amount[0][1] < n * size:
                    rep(label + ':memory', 'a pool of %d buffers of %d bytes has %d bytes' % (n, size, amount[0][1]), None, ob=label)
                bufs = get('buffers')
                if bufs[0] != 'arr':
                    R.undecided(label, 'the buffers were not understood', None, ob=label)
                    continue
                if len(bufs[1]) != n:
                    rep(label + ':count', 'a pool of %d buffers has %d' % (n, len(bufs[1])), None, ob=label)
                    continue
                order = walk(P, get('available_buffers'), bufs)
                if order is None or sorted(order) != list(range(n)):
                    rep(label + ':available', 'not all buffers of a new pool are available: %s' % (order if order is None else order[:10]), None, ob=label)
                ends.append((n, order and (order[0], order[-1])))
                for x in ('in_use_buffers', 'dirty_buffers'):
                    if get(x) != mk(P, HEAD, head=I(NIL), tail=I(NIL)):
                        rep(label + ':' + x, 'a new pool has %s' % x.replace('_', ' '), None, ob=label)
                for b in bufs[1]:
                    st = {x: b[3][field(P, BUF, x)] for x in ('access', 'mapped', 'dirty', 'submitted')}
                    if st['access'] != ('adt', OPT, 0, ()) or any(st[x] != ('b', 0) for x in ('mapped', 'dirty', 'submitted')):
                        rep(label + ':state', 'a new buffer is %s' % pp(P, b), None, ob=label)
                        break
            if not ok:
                R.undecided(label, 'no pool was made', None, ob=label)
    # how the list starts and ends in pools too large to build here: the same expression of the number of buffers
    label = 'pool:any:ends'
    k = sym('buffers')
    if ends and all(o == (0, n - 1) for n, o in ends):
        with Guard(R, label):
            A = Analysis(P)
            A.settype(k, P.tyidx['usize'])
            doms = {k: (1, NIL - 1)}
            for node in outcomes(A, R, f, [I(1), k], {k: rng(1, NIL - 1)}):
                if node.kind == 'panic':
                    continue
                found = []
                contains(snap(A, node.state, node.info), lambda x: isinstance(x, tuple) and x[:2] == ('adt', MAP) and found.append(x))
                for m in found:
                    h = m[3][field(P, MAP, 'available_buffers')]
                    for x, want in (('head', I(0)), ('tail', ladd(k, I(-1)))):
                        got = h[3][field(P, HEAD, x)]
                        if got != want and not contains(got, lambda t: isinstance(t, tuple) and t[:1] == ('o',)):
                            w = next((n for n in (1, 2, 255, 256, 257, 65536, 65537, 1 << 24, NIL - 1) if value_at(got, k, n) not in (None, value_at(want, k, n))), None)
                            if w:
                                R.bad(label + ':' + x, 'the list of available buffers of a pool of %d buffers has the %s %d instead of %d' % (w, x, value_at(got, k, w), value_at(want, k, w)), None, ob=label)
                            else:
                                R.undecided(label + ':' + x, 'the %s of the list is %s' % (x, pp(P, got)), None, ob=label)
    for size, n, what in ((0, 4, 'empty buffers'), (3, 4, 'buffers of 3 bytes'), (4097, 4, 'buffers of 4097 bytes'), (4096, 0, 'no buffers')):
        label = 'pool:refuse:%d:%d' % (size, n)
        with Guard(R, label):
            A = Analysis(P)
            for node in outcomes(A, R, f, [I(size), I(n)], {}):
                if node.kind != 'panic' and node.info[0] == 'adt' and node.info[2] == 0:
                    R.bad(label + ':accepted', 'a pool with %s is made' % what, None, ob=label)


def value_at(v, k, n):
    from ..witness import Ev, Unknown
    try:
        return Ev({k: n}).n(v)
    except Unknown:
        return None


def walk(P, head, bufs):
    """the buffers of a list in order, None if its links are not a list"""
    num = lambda v: v[1] if v[0] == 'i' else None
    at, last, out = num(head[3][field(P, HEAD, 'head')]), NIL, []
    while at != NIL:
        if at is None or at >= len(bufs[1]) or at in out:
            return None
        l = bufs[1][at][3][field(P, BUF, 'link')]
        if num(l[3][field(P, LINK, 'prev')]) != last:
            return None
        out.append(at)
        at, last = num(l[3][field(P, LINK, 'next')]), at
    return out if num(head[3][field(P, HEAD, 'tail')]) == last else None


def slices(P, R):
    s, i = sym('size'), sym('index')
    for name in ('writable_slice', 'readable_slice'):
        f = priv(R, P, POOL + '::' + name)
        if f is None:
            continue
        label = 'memory:' + name
        with Guard(R, label):
            A = Analysis(P)
            for x in (s, i):
                A.settype(x, P.tyidx['usize'])
            H = ('h', 10001)
            for node in outcomes(A, R, f, [('ref', H, ()), i], {s: rng(1, 1 << 20), i: rng(0, 1 << 20)}, {H: mk(P, POOL, buffer_size=s)}):
                if node.kind == 'panic':
                    rep = R.bad if find(A, node.state, I(0), I(1), {s: (1, 1 << 20), i: (0, 1 << 20)}) else R.undecided
                    rep(label + ':panic', 'the bytes of a buffer panic', node.info[2], ob=label)
                    continue
                v = snap(A, node.state, node.info)
                at = None
                if v[0] == 't' and v[1] == 'call' and 'from_raw_parts' in v[2]:
                    base, n = v[4], v[5]
                    offs = []
                    while base[0] == 't' and base[1] == 'call' and base[2].rsplit('::', 1)[-1] in ('add', 'offset', 'byte_add', 'cast'):
                        if len(base) > 5:
                            offs.append(base[5])
                        base = base[4]
                    if base == ('t', 'call', 'core::ops::deref::Deref::deref', ('memmap::MmapMut',), field_of(P, POOL, 'memory')):
                        at = I(0)
                        for o in offs:
                            at = ladd(at, o)
                if at is None:
                    R.undecided(label, 'the bytes are not understood: %s' % pp(P, v), None, ob=label)
                    continue
                product = [('t', 'Mul', 'usize', i, s), ('t', 'Mul', 'usize', s, i)]
                doms = {s: (1, 1 << 20), i: (0, 1 << 20)}
                for got, want, what in ((at, product, 'start'), (n, [s], 'length')):
                    if got in want or any(A.decide(node.state, mk_eqv(got, w)) is True for w in want):
                        continue
                    w = find(A, node.state, got, want[0], doms)
                    (R.bad if w else R.undecided)(label + ':' + what, 'the %s of the bytes of a buffer is %s%s' % (what, pp(P, got), ' (%s)' % w if w else ''), None, ob=label)


def field_of(P, path, name):
    field(P, path, name)
    return ('y', name, 0)


# ------------------------------------------------------------------ C29
MAP, ACC = ST + 'BufferPoolMapping', ST + 'BufferAccess'
LOCK, COND = 'async_lock::mutex::Mutex::<T>::lock', 'async_std::sync::condvar::Condvar::wait'
HP, HM, HF, HN, HW, HO, HS, HH = [('h', 20001 + k) for k in range(8)]
PEND = ('adt', 'core::task::poll::Poll', 1, ())
KIND = {'available_buffers': 'available', 'dirty_buffers': 'dirty', 'in_use_buffers': 'in use'}
LISTED = {'a': 'available_buffers', 'c': 'available_buffers', 'd': 'dirty_buffers', 'u': 'in_use_buffers'}
WORD = {'a': 'unused', 'c': 'clean', 'd': 'dirty', 'u': 'in use'}
LOCS = [0, (1 << 56) + 4096, (2 << 56) + 4096, (1 << 56) - 1]
OTHER = (255 << 56) + 8192


def HB(i):
    return ('h', 20100 + i)


def held(i, size):
    """the bytes of buffer i"""
    return ('arr', tuple(('y', 'byte%d' % k, i) for k in range(size)))


def ready(v):
    return PEND[:2] + (0, (v,))


def loc(n):
    return ('adt', LOC, 0, (I(n),))


def c29(ctx, R):
    """accesses to buffers and their release, between the pool's mutex being taken and given back"""
    P = ctx.P
    keys(P, R)
    steps(P, R, 4 if ctx.tier == 'thorough' else 3)
    handles(P, R)


class Pool:
    """a state of the pool: kinds[i] in 'a' (available, never used), 'c' (available, clean), 'd' (dirty), 'u' (in use)"""

    def __init__(self, P, kinds, rev=False, spare=1, locs=LOCS, size=4):
        self.P, self.kinds, self.size = P, kinds, size
        self.name = '%s%s%d' % (kinds, '-' if rev else '', spare)
        ids = list(range(len(kinds)))
        self.listed = [LISTED[k] for k in kinds]
        self.lists = {n: [i for i in (reversed(ids) if rev else ids) if self.listed[i] == n] for n in KIND}
        self.locations = [None if k == 'a' else locs[i] for i, k in enumerate(kinds)]
        self.handles = [('y', 'handles', i) for i in ids]
        self.dirty = [('b', 0) if k in 'ac' else ('b', 1) if k == 'd' else ('y', 'dirty', i) for i, k in enumerate(kinds)]
        self.spare = [('y', 'spare', i) for i in range(spare)]

    def text(self):
        return ', '.join('%d %s' % (i, WORD[k]) for i, k in enumerate(self.kinds))

    def value(self):
        P = self.P
        link = {i: (NIL, NIL) for i in range(len(self.kinds))}
        heads = {}
        for name, order in self.lists.items():
            heads[name] = mk(P, HEAD, head=I(order[0] if order else NIL), tail=I(order[-1] if order else NIL))
            for p, i in enumerate(order):
                link[i] = (order[p - 1] if p else NIL, order[p + 1] if p + 1 < len(order) else NIL)
        bs, m = [], ('t', 'map0')
        for i, k in enumerate(self.kinds):
            acc = ('adt', OPT, 0, ())
            if k == 'u':
                acc = ('adt', OPT, 1, (mk(P, ACC, lock=('y', 'lock', i), num_handles=self.handles[i]),))
            at = self.locations[i]
            bs.append(mk(P, BUF, _id=i, link=mk(P, LINK, prev=I(link[i][0]), next=I(link[i][1])), location=loc(at or 0),
                         access=acc, mapped=('b', int(at is not None)), dirty=self.dirty[i]))
            if at is not None:
                m = ('t', 'minsert', m, loc(at), I(i))
        return mk(P, MAP, buffers=('arr', tuple(bs)), mapped_locations=m, read_write_locks=('arr', tuple(self.spare)), **heads)

    def facts(self):
        return {self.handles[i]: rng(1, 1 << 31) for i, k in enumerate(self.kinds) if k == 'u'}


def keys(P, R):
    """locations as keys: equal only if they are the same, and in one order"""
    vals = sorted({0, 1, 255, 256, 4096, 1 << 31, 1 << 32, (1 << 32) + 4096, 1 << 55, (1 << 56) - 1, 1 << 56, (1 << 56) + 1, (1 << 56) + 4096, (255 << 56) + 4096, (1 << 63) - 1, 1 << 63, (1 << 64) - 1})
    HA, HC = ('h', 20201), ('h', 20202)
    num = lambda v: v[2] if v[0] == 'adt' else None
    for name, path in (('eq', '<%s as core::cmp::PartialEq>::eq'), ('cmp', '<%s as core::cmp::Ord>::cmp')):
        f = P.one(path % LOC)
        if f is None:
            R.undecided('anchor:' + path % LOC, '%s was not found' % (path % LOC))
            continue
        label = 'location:' + name
        with Guard(R, label):
            A = Analysis(P)
            run = lambda a, b: outcomes(A, R, f, [('ref', HA, ()), ('ref', HC, ())], {}, {HA: ('adt', LOC, 0, (a,)), HC: ('adt', LOC, 0, (b,))})
            got = {}
            for a in vals:
                for b in vals:
                    ts = run(I(a), I(b))
                    if len(ts) != 1:
                        raise Imprecise('not decided for %#x and %#x' % (a, b))
                    if ts[0].kind == 'panic':
                        (R.bad if not A.opaque_log else R.undecided)(label + ':panic', 'comparing the locations %#x and %#x panics' % (a, b), ts[0].info[2], ob=label)
                        continue
                    v = ts[0].info
                    got[a, b] = v[1] if v[0] == 'b' else num(v)
            if len(got) < len(vals) ** 2:
                continue
            if name == 'eq':
                wrong = [(a, b) for a, b in got if bool(got[a, b]) != (a == b)]
            else:
                same = got[vals[0], vals[0]]
                wrong = [(a, b) for a, b in got if (got[a, b] == same) != (a == b) or a != b and got[a, b] == got[b, a]]
                if not wrong:
                    less = got[vals[0], vals[1]]
                    wrong = [(a, c) for a in vals for b in vals for c in vals if got[a, b] == less and got[b, c] == less and got[a, c] != less]
            if wrong:
                (R.bad if not A.opaque_log else R.undecided)(label, 'the locations %#x and %#x compare wrongly' % wrong[0], None, ob=label)
            x, y = sym('one'), sym('other')
            for s in (x, y):
                A.settype(s, P.tyidx['u64'])
            for n in run(x, y):
                if n.kind != 'panic' and (n.info[0] == 'adt' and num(n.info) == got[0, 0] or n.info == ('b', 1)):
                    if A.decide(n.state, mk_eqv(x, y)) is not True:
                        R.undecided(label, 'locations that may differ compare as equal', None, ob=label)


def steps(P, R, most):
    fs = {}
    for n in ('buffer_access', 'release_read_only', 'release_read_write'):
        fs[n] = priv(R, P, POOL + '::' + n)
        fs[n + '#'] = priv(R, P, POOL + '::' + n + '::{closure#0}')
    if None in fs.values():
        return
    for n in range(1, most + 1):
        for k in itertools.product('acdu', repeat=n):
            for rev in (False, True)[:n]:
                for spare in ((0, 2) if n < 3 else (1,)):
                    p = Pool(P, ''.join(k), rev, spare)
                    for at in LOCS[:n] + [OTHER]:
                        access(P, R, fs, p, at)
                    for i in p.lists['in_use_buffers']:
                        for name in ('release_read_only', 'release_read_write'):
                            release(P, R, fs, p, name, i)
    # a wait that ends after others have changed the pool
    for kinds in ('u', 'd', 'uu', 'ud'):
        p = Pool(P, kinds)
        for q in itertools.product('acu', repeat=len(kinds)):
            for last in (LOCS[len(kinds) - 1], OTHER):
                then = Pool(P, ''.join(q), locs=LOCS[:len(kinds) - 1] + [last])
                if then.value() != p.value():
                    access(P, R, fs, p, OTHER, then, ':%x' % last)


def hooks(A, then=None):
    arg = lambda st, c: loadall(A, st, c.args[0])
    guard = ('adt', 'guard', 0, (('ref', HM, ()),))

    def behind(st, v):
        while v[0] == 'ref' or v[0] == 'adt' and v[1] == 'core::pin::Pin':
            v = loadall(A, st, v) if v[0] == 'ref' else v[3][0]
        return v

    def lock(A, st, c, w):
        return [(st, ('adt', 'locking', 0, (arg(st, c),)))]

    def locked(A, st, c, w):
        return [(st, ready(guard))]

    def wait(A, st, c, w):
        return [(st, ('adt', 'waiting', 0, (arg(st, c),)))]

    def waiting(A, st, c, w):
        n = st.mem.get(HW, I(0))[1]
        st.mem[HW], st.mem[HO] = I(n + 1), behind(st, c.args[0])
        if then is None or n:
            return [(st, PEND)]
        st.mem[HM] = then.value()
        return [(st, ready(guard))]

    def deref(A, st, c, w):
        v = arg(st, c)
        return [(st, v[3][0])] if v[0] == 'adt' and v[1] == 'guard' else NotImplemented

    def try_write(A, st, c, w):
        return [(st, ('adt', OPT, 1, (('adt', 'written', 0, (bare(A.snap(st, c.args[0])),)),)))]

    def notify(A, st, c, w):
        st.mem[HN] = ('arr', st.mem.get(HN, ('arr', ()))[1] + (arg(st, c),))
        return [(st, UNIT)]
    A.hooks[LOCK], A.hooks[LOCK + '::{closure#0}'] = lock, locked
    A.hooks[COND], A.hooks[COND + '::{closure#0}'] = wait, waiting
    for n in ('notify_one', 'notify_all'):
        A.hooks['async_std::sync::condvar::Condvar::' + n] = notify
    for n in ('DerefMut>::deref_mut', 'Deref>::deref'):
        A.hooks["<async_lock::mutex::MutexGuard<'_, T> as core::ops::deref::" + n] = deref

    def locking(how):
        def call(A, st, c, w):
            return [(st, ('adt', how, 0, (bare(A.snap(st, c.args[0])),)))]

        def done(A, st, c, w):
            v = behind(st, c.args[0])
            return [(st, ready(v))] if v[:2] == ('adt', how) else NotImplemented
        return call, done

    def downgrade(A, st, c, w):
        v = c.args[0]
        st.mem[HS] = ('arr', st.mem.get(HS, ('arr', ()))[1] + (('adt', 'share', 0, ()),))
        return [(st, ('adt', 'read', 0, v[3]))] if v[:2] == ('adt', 'written') else NotImplemented

    def fetched(A, st, c, w):
        return [(st, ready(('adt', RES, 0, (UNIT,))))]

    def bytes_of(A, st, c, w):
        i = c.args[1]
        if i[0] != 'i':
            return [(st, ('adt', 'bytes', 0, (i,)))]
        return [(st, ('ref', HB(i[1]), ()))]

    def fill(A, st, c, w):
        r, v = c.args[0], c.args[1]
        old = A.read(st, r[1], r[2]) if r[0] == 'ref' and r[1][0] == 'h' else UNIT
        if old[0] != 'arr':
            return NotImplemented
        A.write(st, r[1], r[2], ('arr', (v,) * len(old[1])))
        return [(st, UNIT)]

    def fetch(A, st, c, w):
        r, at = c.args[2], A.snap(st, c.args[1])
        old = A.read(st, r[1], r[2]) if r[0] == 'ref' and r[1][0] == 'h' else UNIT
        if old[0] != 'arr':
            return NotImplemented
        st.mem[HS] = ('arr', st.mem.get(HS, ('arr', ()))[1] + (('adt', 'fetch', 0, (at,)),))
        A.write(st, r[1], r[2], ('arr', tuple(('t', 'stored', at, I(k)) for k in range(len(old[1])))))
        return [(st, ('adt', 'fetching', 0, ()))]

    def upgrade(A, st, c, w):
        return [(st, ('adt', OPT, 1, (('y', 'store', 0),)))]

    def dropped(A, st, cell, projs, site):
        # the mutex of the pool is given back: no spare lock is still held through a handle
        v = A.read(st, cell, projs)
        h = st.mem.get(HH)
        if v == guard and h is not None:
            held = []
            contains(A.snap(st, h), lambda x: isinstance(x, tuple) and x[:2] in (('adt', 'read'), ('adt', 'written')) and held.append(x[3][0]))
            if any(x in held for x in After(A.prog, A.snap(st, st.mem[HM])).spare):
                st.mem[HS] = ('arr', st.mem.get(HS, ('arr', ()))[1] + (('adt', 'held', 0, ()),))
    A.drop_hook = dropped
    RW = 'async_lock::rwlock::RwLock::<T>::'
    A.hooks[RW + 'try_write'] = try_write
    for n, how in (('read', 'read'), ('write', 'written')):
        A.hooks[RW + n], A.hooks[RW + n + '::{closure#0}'] = locking(how)
    A.hooks["async_lock::rwlock::RwLockWriteGuard::<'a, T>::downgrade"] = downgrade
    A.hooks['core::slice::<impl [T]>::fill'] = fill
    A.hooks[VMAN + '::fetch'], A.hooks[VMAN + '::fetch::{closure#0}'] = fetch, fetched
    A.hooks[POOL + '::writable_slice'] = A.hooks[POOL + '::readable_slice'] = bytes_of
    A.hooks['alloc::sync::Weak::<T, A>::upgrade'] = A.hooks['alloc::rcs::arc::Weak::<T, A>::upgrade'] = upgrade


def poll(A, R, fs, name, mem, args, facts):
    """how polling the future of an async function ends"""
    A.all_panics = True
    ts = A.run(fs[name].key, args, facts=facts, mem=mem).terms()
    if len(ts) != 1 or ts[0].kind != 'ret':
        raise Imprecise('the future was not made')
    st = ts[0].state
    mem = dict(st.mem)
    mem[HF] = ts[0].info
    g = A.run(fs[name + '#'].key, [('adt', 'core::pin::Pin', 0, (('ref', HF, ()),)), ('y', 'context', 0)], facts=dict(st.facts), mem=mem)
    R.seen(A)
    ts = g.terms()
    if not ts:
        raise Imprecise('no outcome')
    return ts


def step(P, R, fs, name, pool, args, then=None, more=None):
    A = Analysis(P)
    hooks(A, then)
    facts = pool.facts()
    if then:
        facts.update(then.facts())
    for i in range(len(pool.kinds)):
        A.settype(pool.handles[i], P.tyidx['u32'])
    mem = {HP: mk(P, POOL, mapping=('y', 'mutex', 0), buffer_size=I(pool.size)), HM: pool.value()}
    mem.update((HB(i), held(i, pool.size)) for i in range(len(pool.kinds)))
    mem.update(more or {})
    return A, poll(A, R, fs, name, mem, args if more else [('ref', HP, ())] + args, facts)


def bare(v):
    while v[0] == 'box' or v[0] == 't' and v[1] in ('&', '*'):
        v = v[1] if v[0] == 'box' else v[2]
    return v


def new_lock(v):
    return v[:2] == ('t', 'call') and v[2] == 'async_lock::rwlock::RwLock::<T>::new'


class After:
    """a state of the pool as the code left it"""

    def __init__(self, P, v):
        get = lambda x: v[3][field(P, MAP, x)]
        bufs, locks = get('buffers'), get('read_write_locks')
        if bufs[0] != 'arr' or locks[0] != 'arr':
            raise Imprecise('buffers or locks not understood')
        names = [x['name'] for x in P.adts[BUF]['variants'][0]['fields']]
        self.bufs = [dict(zip(names, b[3])) for b in bufs[1]]
        self.spare = [bare(x) for x in locks[1]]
        self.lists = {n: walk(P, get(n), bufs) for n in KIND}
        self.map, m = {}, get('mapped_locations')
        while m[:2] == ('t', 'minsert'):
            self.map.setdefault(m[3], m[4])
            m = m[2]
        if m != ('t', 'map0'):
            raise Imprecise('mapped locations not understood: %s' % pp(P, m))
        self.access = []
        for b in self.bufs:
            a = b['access']
            if a[0] != 'adt' or a[2] == 1 and a[3][0][0] != 'adt':
                raise Imprecise('access not understood')
            self.access.append(None if a[2] == 0 else (bare(a[3][0][3][field(P, ACC, 'lock')]), a[3][0][3][field(P, ACC, 'num_handles')]))


def compare(A, P, st, rep, label, what, pool, changes, took=None):
    """the pool is as it was but for changes (buffer -> kind, handles, location, dirty); took: the buffer that got a lock"""
    a = After(P, A.snap(st, st.mem[HM]))
    size = len(pool.kinds)
    if len(a.bufs) != size:
        rep(label + ':buffers', '%s leaves %d buffers' % (what, len(a.bufs)), None, ob=label)
        return a
    new = lambda i, x, old: changes.get(i, {}).get(x, old)
    for n, word in KIND.items():
        want = [i for i in range(size) if new(i, 'kind', pool.listed[i]) == n]
        got = a.lists[n]
        if got is None:
            rep(label + ':links', '%s leaves the list of %s buffers broken' % (what, word), None, ob=label)
        elif sorted(got) != want:
            rep(label + ':lists', '%s leaves the list of %s buffers with %s instead of %s' % (what, word, sorted(got), want), None, ob=label)
    for i in range(size):
        b, at = a.bufs[i], new(i, 'location', pool.locations[i])
        here = [k for k, v in a.map.items() if v == I(i)]
        if sorted(here) != ([loc(at)] if at is not None else []):
            rep(label + ':mapped', '%s leaves buffer %d mapped to %s instead of %s' % (what, i, ', '.join(pp(P, k) for k in here) or 'nothing', at if at is not None else 'nothing'), None, ob=label)
        if b['mapped'] != ('b', int(at is not None)) or at is not None and b['location'] != loc(at):
            rep(label + ':location', '%s leaves buffer %d stating %s, mapped: %s' % (what, i, pp(P, b['location']), pp(P, b['mapped'])), None, ob=label)
        want = new(i, 'dirty', pool.dirty[i])
        same = b['dirty'] == want
        if not same and want[0] != 'b':
            d, e = A.decide(st, b['dirty']), A.decide(st, want)
            same = d is not None and d == e
        if not same:
            rep(label + ':dirty', '%s leaves buffer %d with dirty %s instead of %s' % (what, i, pp(P, b['dirty']), pp(P, want)), None, ob=label)
        for x in ('pinned', 'submitted'):
            if b[x] != ('y', x, i):
                rep(label + ':' + x, '%s changes whether buffer %d is %s' % (what, i, x), None, ob=label)
        want = new(i, 'handles', pool.handles[i] if pool.kinds[i] == 'u' else None)
        got = a.access[i]
        if (got is None) != (want is None):
            rep(label + ':access', '%s leaves buffer %d %s' % (what, i, 'without access' if got is None else 'accessed without handles'), None, ob=label)
        elif got is not None:
            if A.decide(st, mk_eqv(got[1], want)) is not True:
                rep(label + ':handles', '%s leaves buffer %d with %s handles instead of %s' % (what, i, pp(P, got[1]), pp(P, want)), None, ob=label)
            if i != took and got[0] != ('y', 'lock', i):
                rep(label + ':lock', '%s changes the lock of buffer %d' % (what, i), None, ob=label)
    if any(v[0] != 'i' or v[1] >= size for v in a.map.values()):
        rep(label + ':map', '%s leaves a location mapped to no buffer' % what, None, ob=label)
    locks = a.spare + [x[0] for x in a.access if x]
    if any(locks.count(x) > 1 and not new_lock(x) for x in locks):
        rep(label + ':shared', '%s leaves a lock with two buffers, or with a buffer and the spare ones' % what, None, ob=label)
    return a


def reporter(A, R):
    def rep(*a, **k):
        known = not A.rec_log and all('RwLock::<T>::new' in str(x) for x in A.opaque_log)
        (R.bad if known else R.undecided)(*a, **k)
    return rep


def access(P, R, fs, pool, n, then=None, more=''):
    label = 'access:%s:%x%s' % (pool.name, n, ':' + then.name + more if then else '')
    what = 'an access to location %#x with buffers %s%s' % (n, pool.text(), ', later %s' % then.text() if then else '')
    with Guard(R, label):
        A, ts = step(P, R, fs, 'buffer_access', pool, [loc(n)], then)
        rep = reporter(A, R)
        at = pool
        waits = n not in at.locations and not at.lists['available_buffers']
        if then and waits:
            at = then
            waits = n not in at.locations and not at.lists['available_buffers']
        for x in ts:
            st = x.state
            if x.kind == 'panic':
                rep(label + ':panic', what + ' panics', x.info[2], ob=label)
                continue
            v = A.snap(st, x.info)
            if v[0] != 'adt' or v[1] != PEND[1]:
                raise Imprecise('result not understood')
            if v[2] == 1:
                if not waits:
                    rep(label + ':waits', what + ' waits', None, ob=label)
                    continue
                if A.snap(st, st.mem.get(HO, UNIT)) != ('adt', 'waiting', 0, (field_of(P, POOL, 'buffer_available'),)):
                    rep(label + ':waits-for', what + ' does not wait for an available buffer', None, ob=label)
                compare(A, P, st, rep, label, what, at, {})
                continue
            if waits:
                rep(label + ':no-wait', what + ' does not wait for a buffer', None, ob=label)
                continue
            t = v[3][0]
            if t[0] != 'adt' or len(t[3]) != 3 or t[3][0][0] != 'i' or t[3][2][0] != 'adt':
                raise Imprecise('result not understood: %s' % pp(P, t))
            i, lock, init = t[3][0][1], bare(t[3][1]), t[3][2]
            if n in at.locations:
                k = at.locations.index(n)
                if i != k:
                    rep(label + ':index', '%s gives buffer %d instead of %d' % (what, i, k), None, ob=label)
                    continue
                used = at.kinds[k] == 'u'
                ch = {'handles': ladd(at.handles[k], I(1))} if used else {'handles': I(1), 'kind': 'in_use_buffers'}
                a = compare(A, P, st, rep, label, what, at, {k: ch}, None if used else k)
                if init[2] != 0 and at.kinds[k] != 'c':
                    rep(label + ':again', what + ' has the contents of the buffer set up again', None, ob=label)
            else:
                if i not in at.lists['available_buffers']:
                    rep(label + ':index', '%s gives buffer %d, which is not available' % (what, i), None, ob=label)
                    continue
                a = compare(A, P, st, rep, label, what, at, {i: {'handles': I(1), 'kind': 'in_use_buffers', 'location': n}}, i)
                if init[2] != 1:
                    rep(label + ':contents', what + ' does not have the contents of the buffer set up', None, ob=label)
                else:
                    g = init[3][0]
                    if g[:2] != ('adt', 'written'):
                        raise Imprecise('the lock for setting up a buffer is not understood')
                    if g[3][0] != lock:
                        rep(label + ':init-lock', what + ' sets up the contents under another lock', None, ob=label)
            if i < len(a.access) and a.access[i] and a.access[i][0] != lock:
                rep(label + ':other-lock', what + ' gives a lock other than that of the buffer', None, ob=label)


def release(P, R, fs, pool, name, i, handle=None):
    label = '%s:%s:%d%s' % (name, pool.name, i, ':handle' if handle else '')
    what = 'the release of a %s handle of buffer %d with buffers %s' % (name[8:].replace('_', '-'), i, pool.text())
    with Guard(R, label):
        if handle:
            A, ts = step(P, R, fs, 'drop_' + name, pool, [('ref', HH, ())], None, {HH: mk(P, handle, pool=('ref', HP, ()), guard=('adt', OPT, 1, (('adt', 'read', 0, (('y', 'lock', i),)),)), buffer_index=I(i))})
        else:
            A, ts = step(P, R, fs, name, pool, [I(i)])
        rep = reporter(A, R)
        write = name == 'release_read_write'
        h = pool.handles[i]
        for x in ts:
            st = x.state
            if x.kind == 'panic':
                rep(label + ':panic', what + ' panics', x.info[2], ob=label)
                continue
            if A.snap(st, x.info) != ready(UNIT):
                rep(label + ':waits', what + ' waits', None, ob=label)
                continue
            notes = st.mem.get(HN, ('arr', ()))[1]
            if handle and A.snap(st, st.mem[HH])[3][field(P, handle, 'guard')] != ('adt', OPT, 0, ()):
                rep(label + ':guard', what + ' keeps its guard', None, ob=label)
            if any(e[1] == 'held' for e in st.mem.get(HS, ('arr', ()))[1]):
                rep(label + ':held', what + ' gives the lock back to the pool while it is still held', None, ob=label)
            d = A.decide(st, mk_eqv(h, I(1)))
            for last in (True, False) if d is None else (d,):
                if not last:
                    ch = {'handles': ladd(h, I(-1))}
                    if write:
                        ch['dirty'] = ('b', 1)
                    compare(A, P, st, rep, label, what + ' while there are others', pool, {i: ch})
                    continue
                e = True if write else A.decide(st, pool.dirty[i])
                for dirty in (True, False) if e is None else (e,):
                    w = '%s, the last and %s,' % (what, 'dirty' if dirty else 'clean')
                    ch = {'handles': None, 'kind': 'dirty_buffers' if dirty else 'available_buffers'}
                    if write:
                        ch['dirty'] = ('b', 1)
                    compare(A, P, st, rep, label, w, pool, {i: ch})
                    if not dirty and field_of(P, POOL, 'buffer_available') not in notes:
                        rep(label + ':notify', w + ' wakes nobody who waits for an available buffer', None, ob=label)
                    if dirty and A.decide(st, ('y', 'submitted', i)) is not True and field_of(P, POOL, 'buffer_dirty') not in notes:
                        rep(label + ':write', w + ' does not tell that there is a dirty buffer', None, ob=label)


HANDLES = {'access_read_only': 'ReadOnlyBufferHandle', 'access_read_write': 'ReadWriteBufferHandle', 'access_initialize': 'ReadWriteBufferHandle'}


def handles(P, R):
    """what the accessors make of an access, and the life of a handle"""
    fs = {}
    for n in HANDLES:
        fs[n] = priv(R, P, POOL + '::' + n)
        fs[n + '#'] = priv(R, P, POOL + '::' + n + '::{closure#0}')
    drops = {}
    for h, n in (('ReadOnlyBufferHandle', 'release_read_only'), ('ReadWriteBufferHandle', 'release_read_write')):
        fs['drop_' + n] = one(R, P, ST + h, 'release')
        fs['drop_' + n + '#'] = one(R, P, ST + h, 'release::{closure#0}')
        drops[h] = one(R, P, ST + h, 'drop', 'core::ops::drop::Drop')
    if None in fs.values() or None in drops.values():
        return
    for kinds in itertools.product('acdu', repeat=2):
        p = Pool(P, ''.join(kinds), spare=1)
        for n in LOCS[:2] + [OTHER]:
            if n in p.locations or p.lists['available_buffers']:
                for name in HANDLES:
                    obtain(P, R, fs, p, name, n)
        if kinds in (('c', 'a'), ('d', 'u')):
            for size in (1 << 13, 1 << 17)[:1 if kinds[0] == 'd' else 2]:
                q = Pool(P, ''.join(kinds), size=size)
                for n in LOCS[:2] if kinds[0] == 'd' else [OTHER]:
                    for name in HANDLES:
                        obtain(P, R, fs, q, name, n)
        for i in p.lists['in_use_buffers']:
            for h, name in (('ReadOnlyBufferHandle', 'release_read_only'), ('ReadWriteBufferHandle', 'release_read_write')):
                release(P, R, fs, p, name, i, ST + h)
    for h, names in (('ReadOnlyBufferHandle', ['buffer_ref']), ('ReadWriteBufferHandle', ['buffer_ref', 'buffer_mut'])):
        for name in names:
            f = one(R, P, ST + h, name)
            if f is None:
                continue
            label = 'handle:%s:%s' % (h, name)
            with Guard(R, label):
                A = Analysis(P)
                hooks(A)
                for x in outcomes(A, R, f, [('ref', HH, ())], {}, {HH: mk(P, ST + h, pool=('ref', HP, ()), buffer_index=('y', 'index', 0))}):
                    if x.kind == 'panic' or A.snap(x.state, x.info) != ('adt', 'bytes', 0, (('y', 'index', 0),)):
                        (R.bad if clean(A, x.state) else R.undecided)(label, '%s of a %s gives bytes other than those of its buffer' % (name, h), None, ob=label)
    for h, f in drops.items():
        for live in (False, True):
            label = 'handle:%s:%s' % (h, 'dropped' if live else 'released')
            with Guard(R, label):
                A = Analysis(P)
                A.all_panics = True
                g = ('adt', OPT, 1, (('adt', 'read', 0, (('y', 'lock', 0),)),)) if live else ('adt', OPT, 0, ())
                for x in outcomes(A, R, f, [('ref', HH, ())], {}, {HH: mk(P, ST + h, pool=('ref', HP, ()), guard=g)}):
                    if (x.kind == 'panic') != live:
                        reporter(A, R)(label, 'dropping a %s handle %s' % (h, 'that was not released is not noticed' if live else 'that was released panics'), None, ob=label)


def one(R, P, path, name, trait=None):
    for q in ([path + '::' + name, path + "::<'a>::" + name] if trait is None else ['<%s as %s>::%s' % (path, trait, name), "<%s<'a> as %s>::%s" % (path, trait, name), "<%s<'_> as %s>::%s" % (path, trait, name)]):
        f = P.one(q)
        if f is not None:
            return f
    return priv(R, P, path + '::' + name)


def differs(P, got, want):
    if got[0] == want[0] == 'arr' and len(got[1]) == len(want[1]):
        k = [a == b for a, b in zip(got[1], want[1])].index(False)
        return '%s instead of %s at %d' % (pp(P, got[1][k]), pp(P, want[1][k]), k)
    return pp(P, got)[:200]


def obtain(P, R, fs, pool, name, n):
    label = '%s:%s:%x%s' % (name, pool.name, n, ':large' if pool.size > 4 else '')
    what = '%s of location %#x with buffers %s' % (name, n, pool.text())
    with Guard(R, label):
        A, ts = step(P, R, fs, name, pool, [loc(n)])
        rep = reporter(A, R)
        fresh, write = n not in pool.locations, name != 'access_read_only'
        for x in ts:
            st = x.state
            if x.kind == 'panic':
                rep(label + ':panic', what + ' panics', x.info[2], ob=label)
                continue
            v = A.snap(st, x.info)
            if v[0] != 'adt' or v[1] != PEND[1]:
                raise Imprecise('result not understood')
            if v[2] == 1:
                rep(label + ':waits', what + ' waits', None, ob=label)
                continue
            h = v[3][0]
            if h[:2] != ('adt', ST + HANDLES[name]):
                raise Imprecise('result not understood: %s' % pp(P, v))
            i, g = h[3][field(P, h[1], 'buffer_index')], h[3][field(P, h[1], 'guard')]
            if i[0] != 'i' or g[0] != 'adt':
                raise Imprecise('handle not understood: %s' % pp(P, h))
            i = i[1]
            a = After(P, A.snap(st, st.mem[HM]))
            if a.map.get(loc(n)) != I(i) or i >= len(a.bufs) or not a.access[i]:
                rep(label + ':buffer', '%s gives a handle of buffer %d, which is not that of the location' % (what, i), None, ob=label)
                continue
            want = ('adt', 'written' if write else 'read', 0, (a.access[i][0],))
            if g != ('adt', OPT, 1, (want,)):
                rep(label + ':guard', '%s gives a handle with %s instead of a %s guard of the buffer' % (what, pp(P, g), 'write' if write else 'read'), None, ob=label)
            ev = [(e[1], e[3]) for e in st.mem.get(HS, ('arr', ()))[1]]
            stored = ('arr', tuple(('t', 'stored', loc(n), I(k)) for k in range(pool.size)))
            zero = ('arr', (I(0),) * pool.size)
            for k in range(len(pool.kinds)):
                got = A.snap(st, st.mem[HB(k)])
                if k != i and got != held(k, pool.size):
                    rep(label + ':other', '%s changes the bytes of buffer %d' % (what, k), None, ob=label)
                elif k == i:
                    old = held(k, pool.size) if pool.kinds[k] in 'du' else stored
                    want = [stored] if fresh else [old, held(k, pool.size)]
                    if name == 'access_initialize':
                        want.append(zero)
                    if got not in want:
                        rep(label + ':contents', '%s gives a handle with the bytes %s' % (what, differs(P, got, want[0])), None, ob=label)
            order = [e[0] for e in ev]
            if 'share' in order and 'fetch' in order[order.index('share'):]:
                rep(label + ':early', '%s lets others read before the contents are there' % what, None, ob=label)
