"""Type tables, component paths, the in-memory data source, error values and the binaries."""
from .common import *

T = 'crate::core::types::'
PRIM, KIND, TYPE, PATH = T + 'Primitive', T + 'Kind', T + 'Type', T + 'Path'
PV, VAL = 'crate::core::value::PrimitiveValue', 'crate::core::value::Value'
IDS = 'crate::core::data_source::IntermediateDataSource'
DS = 'crate::core::data_source::DataSource'
SIZES = {'bool': 1, 'char': 4, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8,
         'i128': 16, 'f32': 4, 'f64': 8}
OPT_ = models.OPT
ORDERING = 'core::cmp::Ordering'


def ret(g):
    return g.terms('ret')


# std functions whose result is in general not the argument
NONID = {'core::str::<impl str>::' + n for n in (
    'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left', 'trim_right', 'to_uppercase', 'to_lowercase',
    'to_ascii_uppercase', 'to_ascii_lowercase', 'repeat', 'replace', 'replacen', 'escape_debug', 'escape_default')} | {
    'alloc::str::<impl str>::' + n for n in ('to_uppercase', 'to_lowercase', 'to_ascii_uppercase', 'to_ascii_lowercase', 'repeat', 'replace', 'replacen')} | {
    'core::error::Error::cause', 'core::error::Error::source', 'core::error::Error::description'}


def understood(v):
    """built from the inputs, constants, constructors and operations that are not the identity"""
    def odd(x):
        if not isinstance(x, tuple) or not x:
            return False
        if x[0] in ('o', 'undef', 'comp', 'sum'):
            return True
        if x[0] == 't':
            if x[1] in ('*', '&', 'len', 'elem', 'chars'):
                return False
            if x[1] == 'Trunc':
                return contains(x[3], lambda y: isinstance(y, tuple) and y[:2] == ('t', 'Trunc'))
            if x[1] == 'call':
                return x[2] not in NONID
            if x[1] == 'dispspec':
                return x[4][1] not in ('str', 'alloc::string::String') or not any(k in ('width', 'prec') for k, *_ in x[3])
            return True
        return x[0] == 'y' and len(x) == 3 and x[2] != 0 or x[0] == 'k' and len(x) == 2 and isinstance(x[1], str)
    return not contains(v, odd)


def no_odd(st):
    return all(understood(k[1] if k[0] == 'L' else k) or k[0] == 't' and k[1] == 'discr' and understood(k[2]) for k in st.facts)


def prims(P):
    return [v['name'] for v in P.adts[PRIM]['variants']]


# ------------------------------------------------------------------ C08
def c08(ctx, R):
    """every table over the primitive types assigns to each the type of its own name"""
    P = ctx.P
    names = prims(P)
    for n in names:
        if n.lower() not in SIZES:
            R.undecided('primitive:' + n, 'no Rust type of this name')
    # values
    vs = P.adts[PV]['variants']
    byname = {v['name']: v for v in vs}
    for n in names:
        R.ob('value:' + n)
        v = byname.get(n)
        if v is None:
            R.bad('value:' + n, 'primitive type %s has no value representation' % n, ob='value:' + n)
            continue
        ts = [f['ty'] if isinstance(f['ty'], str) else P.tstr(f['ty']) for f in v['fields']] if v['fields'] and 'ty' in v['fields'][0] else None
        if ts is not None and ts != [n.lower()]:
            R.bad('value:' + n, 'a value of primitive type %s holds %s' % (n, ts), ob='value:' + n)
    f = anchor(R, P, PV + '::primitive')
    if f:
        for i, v in enumerate(vs):
            with Guard(R, 'primitive_of:' + v['name']):
                A = Analysis(P)
                g = A.run(f.key, [('ref', ('h', 10001), ())], mem={('h', 10001): ('adt', PV, i, (('y', 'x', 0),))})
                R.seen(A)
                for n in g.terms():
                    if n.kind == 'panic':
                        R.bad('primitive_of:' + v['name'], 'primitive() of a %s value panics' % v['name'], n.info[2])
                    elif n.info[0] == 'adt' and n.info[1] == PRIM:
                        if vname(P, PRIM, n.info[2]) != v['name']:
                            R.bad('primitive_of:' + v['name'], 'primitive() of a %s value is %s' % (v['name'], vname(P, PRIM, n.info[2])), f.key and None)
                    else:
                        R.undecided('primitive_of:' + v['name'], 'result not understood')
    # sizes
    f = anchor(R, P, PRIM + '::encoding_size')
    if f:
        for i, n in enumerate(names):
            with Guard(R, 'size:' + n):
                A = Analysis(P)
                g = A.run(f.key, [('ref', ('h', 10001), ())], mem={('h', 10001): ('adt', PRIM, i, ())})
                R.seen(A)
                for t in g.terms():
                    v = t.info
                    if t.kind == 'panic':
                        R.bad('size:' + n, 'encoding_size of %s panics' % n, t.info[2])
                    elif v[0] == 'i':
                        if n.lower() in SIZES and v[1] != SIZES[n.lower()]:
                            R.bad('size:' + n, 'encoding_size of %s is %d' % (n, v[1]))
                    else:
                        R.undecided('size:' + n, 'size not understood: %s' % pp(P, v))
    # tag()
    for ty in SIZES:
        want = next((n for n in names if n.lower() == ty), None)
        with Guard(R, 'tag:' + ty):
            fs = [x for x in P.funcs.values() if x.path.startswith('<%s as ' % ty) and x.path.endswith('IsPrimitive>::tag')]
            if not fs:
                R.undecided('tag:' + ty, 'no IsPrimitive impl for %s found' % ty)
                continue
            A = Analysis(P)
            g = A.run(fs[0].key, [])
            R.seen(A)
            for t in g.terms():
                v = t.info
                if t.kind == 'ret' and v[0] == 'adt' and v[1] == PRIM:
                    if vname(P, PRIM, v[2]) != want:
                        R.bad('tag:' + ty, 'the tag of %s is %s' % (ty, vname(P, PRIM, v[2])))
                else:
                    R.undecided('tag:' + ty, 'tag not understood')


# ------------------------------------------------------------------ C30: in-memory data source
def c30(ctx, R):
    """what the in-memory source returns for a path is what was stored last under it"""
    P = ctx.P
    names = prims(P)
    p = ('adt', PATH, 0, (('y', 'p', 0),))
    q = ('adt', PATH, 0, (('y', 'q', 0),))
    fs = {}
    for n in ('add_primitive', 'add_string', 'add_case_tag', 'clear', 'new'):
        fs[n] = anchor(R, P, IDS + '::' + n)
    if not all(fs.values()):
        return
    gets = {}
    for n in [x.lower() for x in names] + ['case_tag', 'length', 'bytes']:
        k = P.vt.get((IDS, DS + '::get_' + n))
        k = k or next((x.key for x in P.funcs.values() if x.path == '<%s as %s>::get_%s' % (IDS, DS, n)), None)
        if k is None:
            R.bad('anchor:get_' + n, 'the in-memory source has no get_' + n)
        gets[n] = k
    H, HP, HQ = ('h', 10001), ('h', 10002), ('h', 10003)
    r = ('ref', H, ())
    A0 = Analysis(P)
    n0 = ret(A0.run(fs['new'].key, []))
    if len(n0) != 1:
        R.undecided('new', 'new() not understood')
        return
    base = n0[0].info

    def store_(A, st0, what, val, pref):
        """states after storing"""
        f = fs[{'case_tag': 'add_case_tag', 'string': 'add_string'}.get(what, 'add_primitive')]
        return [n.state for n in ret(A.run(f.key, [r, pref, val], facts=st0[0], mem=st0[1]))]

    def value(what, tag):
        if what == 'string':
            return ('ref', ('k', ('y', 's' + tag, 0)), ())
        if what == 'case_tag':
            return ('y', 'tag' + tag, 0)
        return ('adt', PV, variant(P, PV, what), (('y', 'val' + tag, 0),))

    kinds = names + ['string', 'case_tag']
    getter = {n: [n.lower()] for n in names}
    getter['string'] = ['length', 'bytes']
    getter['case_tag'] = ['case_tag']

    def look(A, st, get, want, label, what):
        """get under st must return want on every path"""
        if gets[get] is None:
            return
        mem = {c: v for c, v in st.mem.items() if c[0] in ('h', 'd')}
        g = A.run(gets[get], [r, ('ref', HP, ())], facts=st.facts, mem=mem)
        R.seen(A)
        seen = False
        for n in g.terms():
            seen = True
            if n.kind == 'panic':
                if no_odd(n.state):
                    R.bad('%s:panic' % label, '%s: get_%s panics' % (what, get), n.info[2], ob=label)
                else:
                    R.undecided('%s:panic' % label, 'get_%s may panic on a path that is not understood' % get, n.info[2], ob=label)
                continue
            v = n.info
            if v[0] == 'ref':
                v = loadall(A, n.state, v)
            v = plain(snap(A, n.state, v))
            if v != want:
                (R.bad if understood(v) and no_odd(n.state) else R.undecided)('%s:value' % label, '%s: get_%s returns %s instead of %s' % (what, get, pp(P, v), pp(P, want)), None, ob=label)
        if not seen:
            R.undecided(label, 'get_%s never returns' % get)

    for what in kinds:
        for other in [None, 'same', 'clear'] + (['string', 'U8'] if what not in ('string', 'U8') else ['case_tag']):
            label = 'store:%s:%s' % (what, other or 'first')
            with Guard(R, label):
                A = Analysis(P)
                mem = {H: base, HP: p, HQ: q}
                sts = [({}, mem)]
                if other:
                    o = what if other in ('same', 'clear') else other
                    sts = [(s.facts, {c: v for c, v in s.mem.items() if c[0] in ('h', 'd')}) for st in sts for s in store_(A, st, o, value(o, '0'), ('ref', HP, ()))]
                if other == 'clear':
                    sts = [(n.state.facts, {c: v for c, v in n.state.mem.items() if c[0] in ('h', 'd')}) for st in sts for n in ret(A.run(fs['clear'].key, [r], facts=st[0], mem=st[1]))]
                for st in sts:
                    for s in store_(A, st, what, value(what, '1'), ('ref', HP, ())):
                        for gname in getter[what]:
                            val = ('y', 'val1', 0) if what in names else ('y', 'tag1', 0) if what == 'case_tag' else ('y', 's1', 0)
                            want = mk_len(val) if gname == 'length' else val
                            look(A, s, gname, plain(want), label, 'after storing a %s' % what)
        # a store under another path changes nothing
        label = 'frame:%s' % what
        with Guard(R, label):
            A = Analysis(P)
            mem = {H: base, HP: p, HQ: q}
            for s in store_(A, ({}, mem), what, value(what, '1'), ('ref', HP, ())):
                m1 = {c: v for c, v in s.mem.items() if c[0] in ('h', 'd')}
                for s2 in store_(A, (s.facts, m1), 'U16', value('U16', '2'), ('ref', HQ, ())):
                    t, f = split(A, s2, mk_eqv(q, p))
                    if f:
                        for gname in getter[what]:
                            val = ('y', 'val1', 0) if what in names else ('y', 'tag1', 0) if what == 'case_tag' else ('y', 's1', 0)
                            look(A, f, gname, plain(mk_len(val) if gname == 'length' else val), label, 'after a store under another path')
    # nothing is stored in a new or cleared source
    for label, pre in (('empty:new', False), ('empty:clear', True)):
        with Guard(R, label):
            A = Analysis(P)
            mem = {H: base, HP: p, HQ: q}
            sts = [({}, mem)]
            if pre:
                sts = [(s.facts, {c: v for c, v in s.mem.items() if c[0] in ('h', 'd')}) for s in store_(A, sts[0], 'U8', value('U8', '0'), ('ref', HP, ()))]
                sts = [(n.state.facts, {c: v for c, v in n.state.mem.items() if c[0] in ('h', 'd')}) for st in sts for n in ret(A.run(fs['clear'].key, [r], facts=st[0], mem=st[1]))]
            for fa, m in sts:
                g = A.run(gets['u8'], [r, ('ref', HP, ())], facts=fa, mem=m)
                for n in ret(g):
                    (R.bad if no_odd(n.state) and understood(n.info) else R.undecided)(label, 'a source without the value answers %s' % pp(P, n.info), None, ob=label)


# ------------------------------------------------------------------ C10: component paths
def c10(ctx, R):
    """Path: equality is component-wise, the order is lexicographic and total, the prefix relations are those of sequences"""
    P = ctx.P
    f = {}
    for n, ps in {'eq': '<%s as core::cmp::PartialEq>::eq', 'cmp': '<%s as core::cmp::Ord>::cmp', 'partial_cmp': '<%s as core::cmp::PartialOrd>::partial_cmp'}.items():
        f[n] = P.one(ps % PATH)
        if f[n] is None:
            R.undecided('anchor:' + n, '%s not found' % (ps % PATH))
    for n in ('is_prefix_of', 'is_proper_prefix_of', 'with_component', 'create_empty', 'path'):
        f[n] = anchor(R, P, PATH + '::' + n)
    us = P.tyidx.get('usize')

    def sym(n):
        return ('y', n, 0)

    def path(*xs):
        return ('adt', PATH, 0, (('arr', tuple(xs)),))

    def pairs():
        for n in range(4):
            for m in range(4):
                yield '%d,%d' % (n, m), [sym('a%d' % i) for i in range(n)], [sym('b%d' % i) for i in range(m)]
        for n in (4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65):
            c = [I(7 * i % 5) for i in range(n)]
            yield '%d=' % n, c, list(c)
            yield '%d+1' % n, c, c + [sym('b')]
            yield '%d*' % n, c[:-1] + [sym('a')], c[:-1] + [sym('b')]
            yield '%d*+' % n, [sym('a')] + c[1:], [sym('b')] + c[1:] + [I(0)]

    def outcomes(A, st, a, b):
        """[(state, 'Less'|'Equal'|'Greater', a prefix of b)]"""
        k = 0
        cur = st
        out = []
        while cur is not None:
            if k == len(a) or k == len(b):
                out.append((cur, 'Less' if len(a) < len(b) else 'Greater' if len(a) > len(b) else 'Equal', k == len(a)))
                return out
            eq, ne = split(A, cur, mk_eq0(lsub(a[k], b[k])))
            if ne:
                lt, gt = split(A, ne, mk_ge0(lsub(lsub(b[k], a[k]), I(1))))
                if lt:
                    out.append((lt, 'Less', False))
                if gt:
                    out.append((gt, 'Greater', False))
            cur = eq
            k += 1
        return out

    def verdict(nm, lab, name, got, want, st, lhs, rhs, raw=UNIT):
        key = '%s:%s' % (nm, lab)
        if got is None:
            R.undecided(key, '%s: result not understood: %s' % (nm, pp(P, raw)))
        elif got != want:
            R.bad('%s:%s-for-%s' % (nm, got, name), '%s is %s for paths of lengths %d and %d where %s' % (nm, got, len(lhs), len(rhs), {
                'Less': 'the first is smaller', 'Equal': 'both are equal', 'Greater': 'the first is greater'}[name]), ob=key)

    H1, H2 = ('h', 10001), ('h', 10002)
    for lab, a, b in pairs():
        for nm in ('eq', 'cmp', 'partial_cmp', 'is_prefix_of', 'is_proper_prefix_of'):
            if f[nm] is None:
                continue
            with Guard(R, '%s:%s' % (nm, lab)):
                A = Analysis(P, unroll=100)
                for s in set(x for x in a + b if x[0] == 'y'):
                    A.TY[s] = us
                g = A.run(f[nm].key, [('ref', H1, ()), ('ref', H2, ())], mem={H1: path(*a), H2: path(*b)})
                R.seen(A)
                for n in g.terms():
                    if n.kind == 'panic':
                        R.bad('%s:panic' % nm, '%s panics for paths of lengths %d and %d' % (nm, len(a), len(b)), n.info[2], ob='%s:%s' % (nm, lab))
                        continue
                    v = n.info
                    for st, o, pre in outcomes(A, n.state.copy(), a, b):
                        if nm in ('eq', 'is_prefix_of', 'is_proper_prefix_of'):
                            d = A.decide(st, v)
                            want = {'eq': o == 'Equal', 'is_prefix_of': pre, 'is_proper_prefix_of': pre and len(a) < len(b)}[nm]
                            verdict(nm, lab, o, d, want, st, a, b, v)
                            continue
                        if nm == 'partial_cmp':
                            if v[0] == 'adt' and v[1] == OPT_ and v[2] == 1:
                                x = v[3][0]
                            elif v == NONE:
                                verdict(nm, lab, o, 'None', o, st, a, b)
                                continue
                            else:
                                x = v
                        else:
                            x = v
                        verdict(nm, lab, o, order_of(A, st, x), o, st, a, b, x)
    # construction
    for nm, want in (('with_component', None), ('create_empty', ()), ('path', None)):
        if f[nm] is None:
            continue
        with Guard(R, nm):
            A = Analysis(P)
            args = {'with_component': [('ref', H1, ()), sym('c')], 'create_empty': [], 'path': [('ref', H1, ())]}[nm]
            base = ('y', 'comps', 0)
            g = A.run(f[nm].key, args, mem={H1: ('adt', PATH, 0, (base,))})
            R.seen(A)
            for n in g.terms():
                if n.kind == 'panic':
                    R.bad(nm + ':panic', '%s panics' % nm, n.info[2], ob=nm)
                    continue
                v = n.info
                if v[0] == 'ref':
                    v = loadall(A, n.state, v)
                v = plain(snap(A, n.state, v))
                w = {'with_component': ('adt', PATH, 0, (mk_push(base, sym('c')),)), 'create_empty': path(), 'path': base}[nm]
                if v[0] == 't' and v[1] == 'sub' and v[3] == I(0) and v[4] == mk_len(v[2]):
                    v = v[2]
                if v != w:
                    (R.bad if understood(v) else R.undecided)('%s:value' % nm, '%s is %s instead of %s' % (nm, pp(P, v), pp(P, w)), ob=nm)


def order_of(A, st, v):
    if v[0] == 'adt' and v[1] == ORDERING:
        return ('Less', 'Equal', 'Greater')[v[2]]
    if v[0] == 't' and v[1] == 'cmp':
        a, b = v[2], v[3]
        e = A.decide(st, mk_eq0(lsub(a, b)))
        if e is True:
            return 'Equal'
        l = A.decide(st, mk_ge0(lsub(lsub(b, a), I(1))))
        if l is True:
            return 'Less'
        if l is False and e is False:
            return 'Greater'
    return None


# ------------------------------------------------------------------ C09: component names, paths and components agree
def c09(ctx, R):
    """resolving a dotted name yields the component indexes of the labels, and extracting along a path yields that component's type"""
    P = ctx.P
    fr = anchor(R, P, PATH + '::resolve_qualified_name')
    fe = anchor(R, P, TYPE + '::extract')
    FLD, CASE = T + 'Field', T + 'Case'
    H, HN = ('h', 10001), ('h', 10002)
    LEAF = ('Unit', 'Primitive', 'String')
    us = P.tyidx.get('usize')

    def box(v):
        return ('box', v)

    def leaf(tag, kind='Unit'):
        k = variant(P, KIND, kind)
        return ('adt', TYPE, 0, (('adt', KIND, k, () if kind != 'Primitive' else (('y', tag, 0),)),))

    def mk(kind, n, tag, sub=None, at=0):
        """type of the kind with n components; component at is sub, the others are unknown types"""
        comps = [sub if sub is not None and j == at else ('y', '%s_t%d' % (tag, j), 0) for j in range(n)]
        if kind == 'Tuple':
            items = [box(x) for x in comps]
        else:
            adt = FLD if kind == 'Struct' else CASE
            li, ti = field(P, adt, 'label'), field(P, adt, 'typ')
            items = []
            for j, x in enumerate(comps):
                fs = [None, None]
                fs[li], fs[ti] = ('y', '%s_l%d' % (tag, j), 0), box(x)
                items.append(('adt', adt, 0, tuple(fs)))
        return ('adt', TYPE, 0, (('adt', KIND, variant(P, KIND, kind), (('arr', tuple(items)),)),)), comps

    def expect(A, st, kind, n, tag, c):
        """[(state, index or None)] of the component name c in a type of the kind"""
        out = []
        if kind == 'Tuple':
            ok_ = A.decide(st, ('t', 'isnum', c))
            t, f = split(A, st, ('t', 'isnum', c))
            if f:
                out.append((f, None))
            if t:
                v = ('t', 'num', c)
                a, b = split(A, t, mk_ge0(lsub(I(n - 1), v)))
                if b:
                    out.append((b, None))
                if a:
                    for j in range(n):
                        x = a.copy()
                        if A.assume(x, mk_eq0(lsub(v, I(j))), True):
                            out.append((x, j))
            return out
        cur = st
        for j in range(n):
            if cur is None:
                break
            lab = ('y', '%s_l%d' % (tag, j), 0)
            t, cur = split(A, cur, mk_eqv(lab, c))
            if t and not equal_refuted(A, t, lab, c):
                # labels are distinct: one that is equal later as well names the same component
                out.append((t, j))
        if cur:
            out.append((cur, None))
        return out

    def check(lab, A, g, levels, comps, leafkind=False):
        """levels: [(kind, n, tag)]"""
        for n in g.terms():
            if n.kind == 'panic':
                (R.bad if no_odd9(n.state) else R.undecided)('resolve:panic', 'resolve_qualified_name panics on %s' % lab, n.info[2], ob=lab)
                continue
            v = plain(snap(A, n.state, n.info))
            sts = [(n.state.copy(), ())]
            for d, (kind, k, tag) in enumerate(levels):
                nxt = []
                for st, pre in sts:
                    if pre is None or d >= len(comps):
                        nxt.append((st, pre))
                        continue
                    if kind in LEAF:
                        nxt.append((st, None))
                        continue
                    for s2, j in expect(A, st, kind, k, tag, comps[d]):
                        if d and j is not None:
                            nxt.append((s2, pre + (j,)))
                        else:
                            nxt.append((s2, None if j is None else pre + (j,)))
                sts = nxt
            for st, want in sts:
                if v[0] != 'adt' or v[1] != RES:
                    R.undecided(lab, 'result not understood: %s' % pp(P, v))
                    continue
                if v[2] == 1:
                    if want is not None:
                        (R.bad if no_odd9(n.state) else R.undecided)('resolve:rejects', 'a name that denotes component %s of %s is rejected' % (list(want), lab), ob=lab)
                    continue
                p = v[3][0]
                idx = p[3][0] if p[0] == 'adt' and p[1] == PATH else None
                if idx is None or idx[0] != 'arr':
                    R.undecided(lab, 'path not understood: %s' % pp(P, p))
                    continue
                if want is None:
                    (R.bad if no_odd9(n.state) else R.undecided)('resolve:accepts', 'a name that denotes no component of %s is resolved to %s' % (lab, pp(P, idx)), ob=lab)
                    continue
                got = idx[1]
                same = len(got) == len(want) and all(A.decide(st, mk_eq0(lsub(x, I(y)))) is True for x, y in zip(got, want))
                diff = len(got) != len(want) or any(A.decide(st, mk_eq0(lsub(x, I(y)))) is False for x, y in zip(got, want))
                if same:
                    continue
                # with equal labels any of the equally named components will do
                if not diff or not no_odd9(n.state):
                    R.undecided(lab, 'path not decided: %s' % pp(P, idx))
                else:
                    # equal labels: accept whichever is named
                    if len(got) == len(want) and all(levels[d][0] != 'Tuple' and g1[0] == 'i' and 0 <= g1[1] < levels[d][1] and
                                                     A.decide(st, mk_eqv(('y', '%s_l%d' % (levels[d][2], g1[1]), 0), comps[d])) is not False or g1 == I(w)
                                                     for d, (g1, w) in enumerate(zip(got, want))):
                        t, f = split(A, st.copy(), TRUE)
                        named = all(g1 == I(w) or A.decide(st, mk_eqv(('y', '%s_l%d' % (levels[d][2], g1[1]), 0), comps[d])) is True
                                    for d, (g1, w) in enumerate(zip(got, want)))
                        if named:
                            continue
                    R.bad('resolve:wrong', 'the name of component %s of %s is resolved to %s' % (list(want), lab, pp(P, idx)), ob=lab)

    def run_resolve(lab, typ, levels, comps):
        with Guard(R, lab):
            A = Analysis(P, unroll=330)
            name = ('t', 'dotted', ('arr', tuple(comps)))
            g = A.run(fr.key, [('ref', H, ()), ('ref', HN, ())], mem={H: typ, HN: name})
            R.seen(A)
            check(lab, A, g, levels, comps)

    if fr:
        c0, c1 = ('y', 'name0', 0), ('y', 'name1', 0)
        for kind in ('Tuple', 'Struct', 'Enum'):
            for n in range(4):
                run_resolve('%s of %d components' % (kind.lower(), n), mk(kind, n, 'a')[0], [(kind, n, 'a')], [c0])
            run_resolve('%s of %d components' % (kind.lower(), 300), mk(kind, 300, 'a')[0], [(kind, 300, 'a')], [c0])
        for kind in LEAF:
            run_resolve(kind.lower(), leaf('p', kind), [(kind, 0, 'a')], [c0])
        for depth in (5, 40):
            typ, levels = leaf('p'), []
            for d in reversed(range(depth)):
                k = ('Tuple', 'Struct', 'Enum')[d % 3]
                typ = mk(k, 1, 'd%d' % d, typ, 0)[0]
                levels.insert(0, (k, 1, 'd%d' % d))
            run_resolve('nesting of depth %d' % depth, typ, levels, [('y', 'name%d' % d, 0) for d in range(depth)])
        for k1 in ('Tuple', 'Struct', 'Enum'):
            for k2 in ('Tuple', 'Struct', 'Enum') + LEAF:
                inner = leaf('p', k2) if k2 in LEAF else mk(k2, 2, 'b')[0]
                typ = mk(k1, 1, 'a', inner, 0)[0]
                run_resolve('%s in %s' % (k2.lower(), k1.lower()), typ, [(k1, 1, 'a'), (k2, 2, 'b')], [c0, c1])
    if fe:
        def run_extract(lab, typ, comps, want):
            with Guard(R, lab):
                A = Analysis(P, unroll=100)
                for c in comps:
                    if c[0] == 'y':
                        A.TY[c] = us
                g = A.run(fe.key, [('ref', H, ()), ('ref', HN, ())], mem={H: typ, HN: ('adt', PATH, 0, (('arr', tuple(comps)),))})
                R.seen(A)
                reach = False
                for n in g.terms():
                    w = want(A, n.state)
                    if n.kind == 'panic':
                        if w:
                            (R.bad if no_odd9(n.state) else R.undecided)('extract:panic', 'extract panics on a valid path into %s' % lab, n.info[2], ob=lab)
                        continue
                    reach = True
                    v = plain(snap(A, n.state, loadall(A, n.state, n.info)))
                    if not w:
                        R.bad('extract:accepts', 'extract answers for a path that does not exist in %s' % lab, ob=lab)
                        continue
                    for st, x in w:
                        if plain(x) != v:
                            (R.bad if no_odd9(n.state) and understood(v) else R.undecided)('extract:wrong', 'extract on %s yields %s instead of %s' % (lab, pp(P, v), pp(P, plain(x))), ob=lab)
        k = ('y', 'idx', 0)
        run_extract('extract:empty', mk('Struct', 2, 'a')[0], [], lambda A, st: [(st, mk('Struct', 2, 'a')[0])])
        for kind in ('Tuple', 'Struct', 'Enum'):
            for n in range(4):
                typ, comps = mk(kind, n, 'a')
                for j in range(n):
                    run_extract('extract:%s%d[%d]' % (kind, n, j), typ, [I(j)], lambda A, st, j=j, comps=comps: [(st, comps[j])])
                run_extract('extract:%s%d[%d]' % (kind, n, n), typ, [I(n)], lambda A, st: [])
            for k2 in ('Tuple', 'Struct', 'Enum'):
                inner, c2 = mk(k2, 3, 'b')
                typ = mk(kind, 2, 'a', inner, 1)[0]
                for j in range(3):
                    run_extract('extract:%s/%s[%d]' % (kind, k2, j), typ, [I(1), I(j)], lambda A, st, j=j, c2=c2: [(st, c2[j])])


# predicates of two strings that hold of equal strings
WEAK = {'core::str::<impl str>::' + n for n in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case')} | {
    'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case'}


def equal_refuted(A, st, a, b):
    """a fact of the path is false for equal a and b"""
    def sub(v):
        if v == a:
            return b
        return tuple(sub(x) if isinstance(x, tuple) else x for x in v)
    for k in list(st.facts):
        if k[0] == 't' and contains(k, lambda x: x == a):
            k2 = sub(k)
            if (k2[1] == 'eq' and k2[2] == k2[3] or k2[1] == 'call' and k2[2] in WEAK and k2[4] == k2[5]) and A.decide(st, k) is False:
                return True
    return False


def no_odd9(st):
    """path facts about the labels, the name components and their numbers only"""
    def fine(x):
        return not contains(x, lambda y: isinstance(y, tuple) and y and (y[0] in ('o', 'undef', 'comp', 'sum') or y[0] == 't' and y[1] not in
                            ('*', '&', 'len', 'elem', 'eq', 'isnum', 'num', 'band', 'bor', 'discr', 'dotted') and not (y[1] == 'call' and y[2] in WEAK | NONID)
                            or y[0] == 'y' and len(y) == 3 and y[2] != 0 or y[0] == 'k' and len(y) == 2 and isinstance(y[1], str)))
    return all(fine(k) for k in st.facts)


# ------------------------------------------------------------------ C27: error values
UERR, SERR = 'crate::core::util::Error', 'crate::sql::Error'
HOUT = ('h', 30001)


def fmt_hooks(A):
    """what is written to a formatter is collected in the cell HOUT; every write may fail"""
    def pieces(ps):
        r = []
        for p in ps:
            if p[0] == 't' and p[1] == 'disp' and p[2][1] in ('str', 'alloc::string::String'):
                p = p[3]
            r.append(plain(p))
        return r

    def put(A, st, ps):
        s2 = st.copy()
        v = st.mem[HOUT]
        for p in ps:
            if p != ('str', ''):
                v = models.sconcat(v, p)
        st.mem[HOUT] = v
        s2.mem[('h', 30002)] = TRUE
        return [(st, ok()), (s2, err(UNIT))]

    def w_str(A, st, c, w):
        return put(A, st, [snap(A, st, loadall(A, st, c.args[-1]))])

    def d_str(A, st, c, w):
        return put(A, st, [snap(A, st, loadall(A, st, c.args[0]))])

    def w_fmt(A, st, c, w):
        a = c.args[1]
        return put(A, st, pieces(a[2][1]) if a[0] == 't' and a[1] == 'fmt' else [a])

    def w_char(A, st, c, w):
        return put(A, st, [('str', chr(c.args[1][1])) if c.args[1][0] == 'i' else ('t', 'spush', ('str', ''), c.args[1])])

    h = {}
    for n in ('write_str', 'pad'):
        h["core::fmt::Formatter::<'a>::" + n] = w_str
    h["core::fmt::Formatter::<'a>::write_fmt"] = w_fmt
    h["<core::fmt::Formatter<'_> as core::fmt::Write>::write_str"] = w_str
    h["<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt"] = w_fmt
    h["<core::fmt::Formatter<'_> as core::fmt::Write>::write_char"] = w_char
    for n in ('<alloc::string::String as core::fmt::Display>::fmt', '<str as core::fmt::Display>::fmt'):
        h[n] = d_str
    return h


def c27(ctx, R):
    """error values display and describe themselves by their message and report the error they wrap, without panicking"""
    P = ctx.P
    H, HF = ('h', 10001), ('h', 10002)
    for E, cf in ((UERR, 'cause'), (SERR, 'nested')):
        short = E.split('crate::')[1].rsplit('::', 1)[0]
        try:
            mi, ci = field(P, E, 'message'), field(P, E, cf)
        except KeyError:
            R.undecided('shape:' + short, 'fields of the error type not recognised')
            continue

        def val(cause):
            fs = [('y', 'otherfield', 0)] * len(P.adts[E]['variants'][0]['fields'])
            fs[mi], fs[ci] = ('y', 'msg', 0), cause
            return ('adt', E, 0, tuple(fs))

        wrapped = ('y', 'wrapped', 0)
        for name, cause in (('bare', NONE), ('wrapping', some(('box', wrapped)))):
            # Display
            for tr, m in (('core::fmt::Display', 'fmt'), ('core::error::Error', 'description'), ('core::error::Error', 'cause'), ('core::error::Error', 'source')):
                f = P.one('<%s as %s>::%s' % (E, tr, m))
                lab = '%s:%s:%s' % (short, m if m != 'fmt' else 'display', name)
                if f is None:
                    if m == 'fmt':
                        R.bad('anchor:%s' % lab, '%s is no longer displayable' % E)
                    continue
                with Guard(R, lab):
                    A = Analysis(P)
                    A.hooks.update(fmt_hooks(A))
                    args = [('ref', H, ())]
                    mem = {H: val(cause), HF: ('y', 'formatter', 0), HOUT: ('str', ''), ('h', 30002): FALSE}
                    if m == 'fmt':
                        args.append(('ref', HF, ()))
                    g = A.run(f.key, args, mem=mem)
                    R.seen(A)
                    for n in g.terms():
                        if n.kind == 'panic':
                            R.bad('%s:%s:panic' % (short, m), '%s of an error value panics' % m, n.info[2], ob=lab)
                            continue
                        v = plain(snap(A, n.state, loadall(A, n.state, n.info)))
                        if m == 'fmt':
                            failed = n.state.mem.get(('h', 30002)) == TRUE
                            out = n.state.mem.get(HOUT)
                            if v[0] == 'adt' and v[1] == RES and v[2] == 0 and not failed:
                                if out != ('y', 'msg', 0):
                                    (R.bad if understood(out) or out == ('str', '') else R.undecided)(
                                        '%s:display:text' % short, 'displaying an error writes %s instead of its message' % pp(P, out), ob=lab)
                            elif v[0] == 'adt' and v[1] == RES and v[2] == 1 and failed or v[0] == 'adt' and v[2] == 1 and False:
                                pass
                            elif v[0] == 'adt' and v[1] == RES:
                                R.bad('%s:display:result' % short, 'displaying an error reports %s although the writes %s' % (
                                    'success' if v[2] == 0 else 'failure', 'failed' if failed else 'succeeded'), ob=lab)
                            else:
                                R.undecided(lab, 'result not understood')
                        elif m == 'description':
                            if v != ('y', 'msg', 0):
                                (R.bad if understood(v) else R.undecided)('%s:description' % short, 'the description is %s instead of the message' % pp(P, v), ob=lab)
                        else:
                            want = NONE if name == 'bare' else some(wrapped)
                            if v != want:
                                (R.bad if understood(v) else R.undecided)('%s:%s:%s' % (short, m, name), '%s of an error %s another is %s' % (
                                    m, 'not wrapping' if name == 'bare' else 'wrapping', pp(P, v)), ob=lab)
        # construction
        ctor = [('%s::new' % E, 'new'), ('%s::from_error' % E, 'from_error'), ('<%s as core::convert::From<core::io::error::Error>>::from' % E, 'from'),
                ('<%s as core::convert::From<alloc::string::String>>::from' % E, 'text'), ('<%s as core::convert::From<&\'a str>>::from' % E, 'text')]
        for path, kind in ctor:
            f = P.one(path)
            if f is None:
                continue
            lab = '%s:make:%s' % (short, path.split(' as ')[-1].split('::')[-1] if kind != 'from' else 'io')
            with Guard(R, path):
                A = Analysis(P)
                k0, k1 = ('y', 'arg0', 0), ('y', 'arg1', 0)
                t0 = P.types[f.locals[1]]
                a0 = ('ref', ('k', k0), ()) if t0['k'] == 'ref' else k0
                args = [a0] + ([('box', k1)] if f.nargs > 1 else [])
                g = A.run(f.key, args)
                R.seen(A)
                for n in g.terms():
                    if n.kind == 'panic':
                        R.bad('%s:panic' % path, 'creating an error value panics', n.info[2], ob=path)
                        continue
                    v = plain(snap(A, n.state, n.info))
                    if v[0] != 'adt' or v[1] != E:
                        R.undecided(path, 'value not understood')
                        continue
                    msg, cause = v[3][mi], v[3][ci]
                    wm = k0 if kind in ('new', 'text') else ('t', 'to_string', k0)
                    if msg != wm:
                        (R.bad if understood(msg) or msg == ('str', '') else R.undecided)('%s:message' % path, 'the message of a new error is %s' % pp(P, msg), ob=path)
                    wc = some(k0) if kind == 'from' else some(k1) if f.nargs > 1 else NONE
                    if cause != wc and not (kind == 'from_error'):
                        (R.bad if understood(cause) else R.undecided)('%s:cause' % path, 'the cause of a new error is %s' % pp(P, cause), ob=path)


# ------------------------------------------------------------------ C28: the programs identify themselves
ROLE = {'cli': ('cli', 'client'), 'coordinator': ('coordinator',), 'router': ('router',), 'storage': ('storage',)}


def c28(ctx, R):
    """every program names its own role in its help and banner, and the package's version, author and description"""
    import os
    import tomllib
    with open(os.path.join(ctx.repo, 'Cargo.toml'), 'rb') as fh:
        pkg = tomllib.load(fh)['package']
    want = {'version': ('VERSION', pkg.get('version', '')), 'author': ('AUTHOR', ':'.join(pkg.get('authors', []))),
            'about': ('DESCRIPTION', pkg.get('description', '')), 'name': ('NAME', pkg.get('name', ''))}
    lib = ctx.P.statics
    for what, (st, text) in want.items():
        R.ob('package:' + st)
        v = lib.get('crate::' + st)
        if v is None:
            R.undecided('package:' + st, 'no static of this name')
        elif v.get('c') != 'str':
            R.undecided('package:' + st, 'value not understood')
        elif v['v'] != text:
            R.bad('package:' + st, '%s is %r, the package says %r' % (st, v['v'], text))
    for b in sorted(ROLE):
        try:
            P = ctx.program(b + '.bin')
        except OSError:
            R.bad('program:' + b, 'the program %s is no longer built' % b)
            continue
        f = P.funcs.get('crate::main')
        if f is None:
            R.undecided('program:' + b, 'no main function')
            continue
        with Guard(R, b):
            A = Analysis(P)
            log = []

            def text(A, st, v):
                v = loadall(A, st, v)
                v = plain(snap(A, st, v))
                while v[0] == 't' and v[1] in ('*', '&'):
                    v = v[2]
                if v[0] == 't' and v[1] == 'static':
                    n = v[2].split('::')[-1]
                    s = lib.get('crate::' + n)
                    return s['v'] if s and s.get('c') == 'str' else None
                if v[0] == 't' and v[1] == 'fmt':
                    ps = []
                    for p in v[2][1]:
                        if p[0] == 't' and p[1] == 'disp':
                            p = p[3]
                            while p[0] == 't' and p[1] in ('*', '&'):
                                p = p[2]
                            if p[0] == 't' and p[1] == 'static':
                                s = lib.get('crate::' + p[2].split('::')[-1])
                                p = ('str', s['v']) if s and s.get('c') == 'str' else p
                        if p[0] != 'str':
                            return None
                        ps.append(p[1])
                    return ''.join(ps)
                return v[1] if v[0] == 'str' else None

            def rec(kind, arg):
                def h(A, st, c, w):
                    log.append((kind, text(A, st, c.args[arg]) if len(c.args) > arg else '', c.site))
                    return NotImplemented
                return h
            other = set()
            for fn in P.funcs.values():
                for bl in fn.blocks:
                    t = bl['t']
                    if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('c') == 'fn':
                        p, nm = t[1]['callee']['path'], t[1]['callee']['name']
                        if p.startswith('clap'):
                            k = {'new': ('title', 0), 'name': ('title', 1), 'version': ('version', 1), 'author': ('author', 1), 'about': ('about', 1)}.get(nm)
                            if k:
                                A.hooks[p] = rec(*k)
                                A.hooks[t[1]['callee']['ipath']] = rec(*k)
                            elif nm not in ('get_matches', 'get_matches_from', 'try_get_matches'):
                                other.add(nm)
                        elif p in ('std::io::stdio::_print', 'std::io::stdio::_eprint'):
                            A.hooks[p] = rec('banner', 0)
            g = A.run(f.key, [])
            R.seen(A)
            for n in g.terms('panic'):
                R.undecided(b + ':panic', 'the program may panic', n.info[2], ob=b)
            kinds = {k for k, _, _ in log}
            for k, v, site in log:
                ob = '%s:%s' % (b, k)
                R.ob(ob)
                if v is None:
                    R.undecided(ob, 'text not understood', site)
                elif k in ('title', 'banner'):
                    others = [o for o in ROLE if o != b and any(x in v.lower().split() for x in ROLE[o])]
                    if others:
                        R.bad(ob, 'the program %s presents itself as %r' % (b, v), site)
                elif v != want[k][1]:
                    R.bad(ob, 'the program %s shows %r as its %s' % (b, v, k), site)
            said = [v for k, v, _ in log if k == 'title' and v is not None]
            if said and not any(x in v.lower() for v in said for x in ROLE[b]):
                R.bad(b + ':title', 'the program %s presents itself as %r' % (b, said[0]))
            ban = [v for k, v, _ in log if k == 'banner']
            if ban and all(v is not None for v in ban) and not any(x in v.lower() for v in ban for x in ROLE[b]):
                R.bad(b + ':banner', 'the banner of the program %s is %r' % (b, ban[0]))
            if 'title' in kinds:
                for k in ('version', 'author', 'about'):
                    if k not in kinds:
                        (R.undecided if other else R.bad)('%s:%s' % (b, k), 'the program %s does not show its %s' % (b, k))
                if 'banner' not in kinds:
                    R.undecided(b + ':banner', 'no banner is printed')
            else:
                R.undecided(b + ':title', 'no command line description found')


# ------------------------------------------------------------------ C11: SQL names
NAME = 'crate::sql::symbols::Name'


def c11(ctx, R):
    """names are equal, ordered and looked up by their spelling without regard to letter case; the spelling itself is kept"""
    P = ctx.P
    if NAME not in P.adts:
        R.undecided('anchor', 'the name type was not found')
        return
    ci = P.tyidx.get('char')

    def fold_fn(A, st, f):
        """what the closure does to a character: a function name or None"""
        c = ('y', 'ch', 0)
        v = None
        if f[0] == 'fn':
            v = ('t', 'charfn', A._callee_list[f[1]]['name'], c)
        elif f[0] == 'clo':
            B_ = Analysis(P)
            B_.hooks = A.hooks
            B_.TY[c] = ci
            h = ('h', 10009)
            ts = ret(B_.run(f[1], [('ref', h, ()), c] if P.types[P.funcs[f[1]].locals[1]]['k'] == 'ref' else [f, c], mem={h: f}))
            if len(ts) == 1:
                v = plain(snap(B_, ts[0].state, ts[0].info))
        if v is not None and v[0] == 't' and v[1] == 'charfn' and v[3] == c:
            return v[2]
        if v == c:
            return 'same'
        return None

    def folded(v, fn):
        if v[0] == 't' and v[1] == 'chars':
            return ('t', 'folded', ('str', fn), v[2])
        return None

    def h_charfn(A, st, c, w):
        return [(st, ('t', 'charfn', c.name, plain(snap(A, st, loadall(A, st, c.args[0])))))]

    def h_map(A, st, c, w):
        it = c.args[0]
        fn = fold_fn(A, st, c.args[1])
        if it[0] == 'iter' and fn:
            q = folded(it[2], fn)
            if q is not None:
                return [(st, models.mk_iter('val', q, I(0), mk_len(q)))]
        return NotImplemented

    def h_strfn(A, st, c, w):
        v = snap(A, st, loadall(A, st, c.args[0]))
        return [(st, ('t', 'unfold', ('t', 'folded', ('str', c.name), v)))]

    def seq(A, st, v):
        v = loadall(A, st, v)
        if v[0] == 'iter' and v[1] == 'val':
            q = v[2]
            if q[0] == 't' and q[1] == 'chars':
                q = ('t', 'folded', ('str', 'same'), q[2])
            if q[0] == 't' and q[1] == 'folded' and q[3][0] == 't' and q[3][1] == 'unfold' and q[2] == ('str', 'same'):
                q = q[3][2]
            return q
        v = plain(snap(A, st, v))
        if v[0] == 't' and v[1] == 'unfold':
            return v[2]
        return ('t', 'folded', ('str', 'same'), v)

    def h_eq(A, st, c, w):
        a, b = seq(A, st, c.args[0]), seq(A, st, c.args[1])
        return [(st, TRUE if a == b else ('t', 'seqeq', a, b))]

    def h_ne(A, st, c, w):
        return [(s, mk_not(v)) for s, v in h_eq(A, st, c, w)]

    def h_cmp(A, st, c, w):
        v = ('t', 'seqcmp', seq(A, st, c.args[0]), seq(A, st, c.args[1]))
        return [(st, some(v) if c.name == 'partial_cmp' else v)]

    def h_ieq(A, st, c, w):
        a, b = (plain(snap(A, st, loadall(A, st, x))) for x in c.args)
        return [(st, ('t', 'seqeq', ('t', 'folded', ('str', 'to_ascii_uppercase'), a), ('t', 'folded', ('str', 'to_ascii_uppercase'), b)))]

    def h_zip(A, st, c, w):
        if c.args[0][0] == 'iter':
            x, y = seq(A, st, c.args[0]), seq(A, st, c.args[1])
            if all(q[0] == 't' and q[1] == 'folded' for q in (x, y)):
                return [(st, ('t', 'zipped', x, y))]
        return NotImplemented

    def h_all(A, st, c, w):
        z = loadall(A, st, c.args[0])
        if z[0] != 't' or z[1] != 'zipped' or c.args[1][0] != 'clo':
            return NotImplemented
        x, y = ('y', 'ch', 0), ('y', 'ch2', 0)
        B_ = Analysis(P)
        B_.TY[x] = B_.TY[y] = ci
        h = ('h', 10009)
        f = c.args[1]
        pair = models.tup(x, y)
        ts = ret(B_.run(f[1], [('ref', h, ()) if P.types[P.funcs[f[1]].locals[1]]['k'] == 'ref' else f, pair], mem={h: f}))
        if len(ts) == 1 and ts[0].info == mk_eq0(lsub(x, y)) or ts and all(
                n.info[0] == 'b' and B_.decide(n.state, mk_eq0(lsub(x, y))) is n.info[1] for n in ts):
            return [(st, ('t', 'zipeq', z[2], z[3]))]
        return NotImplemented

    IT = 'core::iter::traits::iterator::Iterator::'
    hooks = {'crate::vmodels::zip': h_zip, IT + 'all': h_all, IT + 'flat_map': h_map, IT + 'map': h_map, IT + 'eq': h_eq, IT + 'ne': h_ne, IT + 'cmp': h_cmp, IT + 'partial_cmp': h_cmp}
    for t in ('to_uppercase', 'to_lowercase', 'to_ascii_uppercase', 'to_ascii_lowercase'):
        hooks['core::char::methods::<impl char>::' + t] = h_charfn
        for pre in ('alloc::str::<impl str>::', 'core::str::<impl str>::'):
            hooks[pre + t] = h_strfn
    for p in models.EQS:
        if 'str' in p.lower() and 'Vec' not in p:
            hooks[p] = h_eq
    for p in ('<alloc::string::String as core::cmp::Ord>::cmp', '<alloc::string::String as core::cmp::PartialOrd>::partial_cmp',
              'core::str::traits::<impl core::cmp::Ord for str>::cmp', 'core::str::traits::<impl core::cmp::PartialOrd for str>::partial_cmp'):
        hooks[p] = h_cmp
    for p in ('core::str::<impl str>::eq_ignore_ascii_case',):
        hooks[p] = h_ieq
    OK_FOLD = ('to_uppercase', 'to_lowercase')

    def lens_only(st):
        """the path depends on the byte lengths of the two spellings only"""
        def odd(x):
            return isinstance(x, tuple) and x and (x[0] == 't' and x not in (mk_len(a), mk_len(b)) or x[0] in ('k', 'o', 'comp'))
        return bool(st.facts) and not any(contains(k, odd) for k in st.facts)

    def len_feasible(A, st, p):
        """U+0149 (two bytes) and its upper case spelling (three bytes) denote the same name: lengths (2, 3) do occur among equal names"""
        s2 = st.copy()
        return A.assume(s2, mk_eq0(lsub(mk_len(a), I(p[0]))), True) and A.assume(s2, mk_eq0(lsub(mk_len(b), I(p[1]))), True)
    H1, H2 = ('h', 10001), ('h', 10002)
    a, b = ('y', 'self', 0), ('y', 'other', 0)
    used = {}
    for tr, arg, m in (('PartialEq', None, 'eq'), ('PartialEq', 'str', 'eq'), ('PartialOrd', None, 'partial_cmp'), ('PartialOrd', 'str', 'partial_cmp'), ('Ord', None, 'cmp')):
        path = '<%s as core::cmp::%s%s>::%s' % (NAME, tr, '<str>' if arg else '', m)
        f = P.one(path)
        lab = '%s%s' % (m, ':str' if arg else '')
        if f is None:
            R.undecided('anchor:' + lab, '%s not found' % path)
            continue
        with Guard(R, lab):
            A = Analysis(P)
            A.hooks.update(hooks)
            g = A.run(f.key, [('ref', H1, ()), ('ref', H2, ())], mem={H1: ('adt', NAME, 0, (a,)), H2: b if arg else ('adt', NAME, 0, (b,))})
            R.seen(A)
            for n in g.terms():
                if n.kind == 'panic':
                    R.undecided(lab, 'may panic', n.info[2])
                    continue
                v = plain(snap(A, n.state, n.info))
                if m == 'partial_cmp':
                    if v[0] == 'adt' and v[1] == OPT_ and v[2] == 1:
                        v = v[3][0]
                    elif v == NONE:
                        R.bad(lab + ':none', 'two names may be unordered', ob=lab)
                        continue
                op = 'seqeq' if m == 'eq' else 'seqcmp'
                if v[0] == 't' and v[1] == op:
                    x, y = v[2], v[3]
                    if not all(z[0] == 't' and z[1] == 'folded' and z[2][0] == 'str' and z[3] in (a, b) for z in (x, y)):
                        R.undecided(lab, 'comparison not understood: %s' % pp(P, v))
                        continue
                    if x[3] == y[3]:
                        R.bad(lab + ':self', '%s compares a name with itself' % m, ob=lab)
                    elif x[3] == b and m != 'eq':
                        R.bad(lab + ':reversed', '%s orders names backwards' % m, ob=lab)
                    if x[2] != y[2]:
                        R.bad(lab + ':fold', '%s compares %s with %s spelling' % (m, x[2][1], y[2][1]), ob=lab)
                    elif x[2][1] == 'same':
                        R.bad(lab + ':case', '%s distinguishes upper and lower case letters' % m, ob=lab)
                    elif x[2][1] not in OK_FOLD:
                        R.bad(lab + ':ascii', '%s distinguishes the case of letters outside ASCII' % m, ob=lab)
                    else:
                        used[lab] = x[2][1]
                elif m == 'eq' and (v[:2] == ('t', 'zipeq') or v == TRUE and any(k[:2] == ('t', 'zipeq') for k in n.state.facts)) and not any(
                        contains(k, lambda x: isinstance(x, tuple) and x[:2] == ('t', 'len') and x[2][:2] == ('t', 'folded')) for k in n.state.facts):
                    R.bad(lab + ':prefix', 'a name equals every longer name that starts with it', ob=lab)
                elif m == 'eq' and v[0] == 'b' and lens_only(n.state) and any(
                        len_feasible(A, n.state, p) for p in (((2, 3), (3, 2), (22, 23)) if v == FALSE else ((5, 5), (3, 5), (7, 7)))):
                    R.bad(lab + ':length', 'names of %s byte length are %s' % (('different', 'never equal') if v == FALSE else ('some', 'always equal')), ob=lab)
                elif v[0] == 'b' or v[0] == 'adt' and v[1] == ORDERING:
                    if not any(contains(k, lambda x: x == a or x == b) for k in n.state.facts):
                        R.bad(lab + ':const', '%s does not depend on the names' % m, ob=lab)
                    else:
                        R.undecided(lab, 'result on a path that is not understood')
                else:
                    R.undecided(lab, 'result not understood: %s' % pp(P, v))
    if len(set(used.values())) > 1:
        R.bad('fold:differs', 'equality and order of names ignore case in different ways: %s' % used)
    # the spelling is kept
    for path, args, mem, want in (
            (NAME + '::new', [a], {}, a), ("<%s as core::convert::From<alloc::string::String>>::from" % NAME, [a], {}, a),
            ("<%s as core::convert::From<&'a str>>::from" % NAME, [('ref', H1, ())], {H1: a}, a),
            (NAME + '::as_str', [('ref', H1, ())], {H1: ('adt', NAME, 0, (a,))}, None)):
        f = P.one(path)
        if f is None:
            continue
        with Guard(R, 'keep:' + path):
            A = Analysis(P)
            A.hooks.update(hooks)
            g = A.run(f.key, args, mem=mem)
            R.seen(A)
            for n in g.terms():
                if n.kind == 'panic':
                    R.undecided('keep:' + path, 'may panic', n.info[2])
                    continue
                v = plain(snap(A, n.state, loadall(A, n.state, n.info)))
                w = ('adt', NAME, 0, (a,)) if want is not None else a
                if v != w:
                    (R.bad if understood(v) or contains(v, lambda x: isinstance(x, tuple) and x[:2] == ('t', 'folded')) else R.undecided)(
                        'keep:' + path, '%s changes the spelling to %s' % (path, pp(P, v)), ob='keep:' + path)
    f = P.one('<%s as core::fmt::Display>::fmt' % NAME)
    if f:
        with Guard(R, 'keep:display'):
            A = Analysis(P)
            A.hooks.update(hooks)
            A.hooks.update(fmt_hooks(A))
            g = A.run(f.key, [('ref', H1, ()), ('ref', H2, ())], mem={H1: ('adt', NAME, 0, (a,)), H2: ('y', 'formatter', 0), HOUT: ('str', ''), ('h', 30002): FALSE})
            R.seen(A)
            for n in g.terms():
                if n.kind == 'panic':
                    R.undecided('keep:display', 'may panic', n.info[2])
                elif n.state.mem.get(('h', 30002)) == FALSE and n.state.mem.get(HOUT) != a:
                    out = n.state.mem.get(HOUT)
                    (R.bad if understood(out) or contains(out, lambda x: isinstance(x, tuple) and x[:2] == ('t', 'unfold')) else R.undecided)(
                        'keep:display', 'a name is displayed as %s' % pp(P, out))
