"""The catalog: the schemata of a database and the objects they hold.

The names asked for and the names stored are symbols; every pattern of equal and different names is a path. The map a function leaves is read back name by name and
compared with a list model of the catalog.
"""
from .sqln import *
from .basic import understood, NONID

DBP = DB + '::'


def layouts24():
    c = [('c%d' % i, t) for i, t in enumerate((N, VN, ('Date', False, True), ('Timestamp', True, False)))]
    yield 'empty', [], {}
    yield 'one', [('s0', [('o0', 'table', c), ('o1', 'view', c[1:3])])], distinct(('o0', 'o1'))
    yield 'bare', [('s0', []), ('s1', [('o0', 'view', [])])], distinct(('s0', 's1'))
    yield 'three', [('s0', [('o0', 'table', c[:1]), ('o1', 'table', c[1:2]), ('o2', 'view', c[2:3])]), ('s1', [('o0', 'view', c[::-1]), ('o3', 'table', c)]),
                    ('s2', [('o1', 'view', c[:2])])], distinct(('s0', 's1', 's2'), ('o0', 'o1', 'o2', 'o3'))


def entries(A, st, m, key):
    """[(state, value or None)] of a map under a key"""
    return [(s, None if v is None else unmc(A, s, v)) for s, v in models.map_lookup(A, st.copy(), m, key)]


def unmc(A, st, v):
    return models.unmcell(A, st, v)


def c24(ctx, R):
    """the catalogue: what create_schema and describe read, change and return, against a map from names to schemata"""
    P = ctx.P
    new, create, describe = [anchor(R, P, DBP + x) for x in ('new', 'create_schema', 'describe')]
    if not (new and create and describe):
        return
    b = Build(P)
    fsch = field(P, DB, 'schemata')
    with Guard(R, 'new'):
        A = Analysis(P)
        g = A.run(new.key, [])
        R.seen(A)
        for n in g.terms():
            if n.kind != 'ret':
                R.bad('new:panic', 'making a database panics', n.info[2], ob='new')
                continue
            for s, v in entries(A, n.state, snap(A, n.state, n.info)[3][fsch], nv('q')):
                if v is not None:
                    (R.bad if known(v) else R.undecided)('new:content', 'a new database holds a schema', None, ob='new')
    H, HQ, HO = ('h', 10001), ('h', 10002), ('h', 10003)
    for lab, layout, facts in layouts24():
        db = b.database(layout)
        label = 'create:%s' % lab
        with Guard(R, label):
            A = Analysis(P)
            A.hooks[NAME_EQ] = name_eq
            g = A.run(create.key, [('ref', H, ()), ('ref', HQ, ())], facts=facts, mem={H: db, HQ: nv('q')})
            R.seen(A)
            if not g.terms():
                R.undecided(label, 'no result')
            for n in g.terms():
                rep = R.bad if sure(A, n.state) else R.undecided
                if n.kind == 'panic':
                    rep(label + ':panic', 'creating a schema panics', n.info[2], ob=label)
                    continue
                res = snap(A, n.state, n.info)
                if res[0] != 'adt' or res[1] != RES:
                    R.undecided(label, 'result not understood: %s' % pp(P, res))
                    continue
                good = res[2] == 0
                m = n.state.mem[H]
                m = snap(A, n.state, m)
                if m[0] != 'adt':
                    R.undecided(label, 'the database is not understood')
                    continue
                m = m[3][fsch]
                # which schema, if any, has the name already
                for s, i in which(A, n.state, [nv(x) for x, _ in layout], nv('q')):
                    R.count('name_patterns')
                    if good and i is not None:
                        rep(label + ':taken', 'a schema is created although the name is taken', None, ob=label)
                        continue
                    if not good and i is None:
                        rep(label + ':refused', 'a schema with a new name is refused', None, ob=label)
                        continue
                    want = b.database(layout + ([('q', [])] if good else []))[3][fsch]
                    compare_maps(A, R, P, s, m, want, [nv(x) for x, _ in layout] + [nv('q'), nv('zz')], label, rep)
        for kind in ('describe',):
            label = '%s:%s' % (kind, lab)
            with Guard(R, label):
                A = Analysis(P)
                A.hooks[NAME_EQ] = name_eq
                g = A.run(describe.key, [('ref', H, ()), ('ref', HQ, ()), ('ref', HO, ())], facts=facts, mem={H: db, HQ: nv('q'), HO: nv('o')})
                R.seen(A)
                if not g.terms():
                    R.undecided(label, 'no result')
                for n in g.terms():
                    rep = R.bad if sure(A, n.state) else R.undecided
                    if n.kind == 'panic':
                        rep(label + ':panic', 'describing an object panics', n.info[2], ob=label)
                        continue
                    res = snap(A, n.state, n.info)
                    if res[0] != 'adt' or res[1] != RES:
                        R.undecided(label, 'result not understood: %s' % pp(P, res))
                        continue
                    for s, i in which(A, n.state, [nv(x) for x, _ in layout], nv('q')):
                        for s2, j in (which(A, s, [nv(x) for x, _, _ in layout[i][1]], nv('o')) if i is not None else [(s, None)]):
                            R.count('name_patterns')
                            if j is None:
                                if res[2] == 0:
                                    rep(label + ':found', 'an object is described although no %s has the name' % ('schema' if i is None else 'object of the schema'), None, ob=label)
                                continue
                            if res[2] != 0:
                                rep(label + ':lost', 'the %s %s of a schema is not found' % (layout[i][1][j][1], layout[i][1][j][0]), None, ob=label)
                                continue
                            got = deep(A, s2, res[3][0])
                            o = snap(A, s2, models_get(A, s2, models_get(A, s2, db[3][fsch], nv(layout[i][0]))[3][field(P, SCH, 'objects')], nv(layout[i][1][j][0])))
                            want = deep(A, s2, o[3][0][3][field(P, o[3][0][1], 'rows')])
                            if got != want:
                                (rep if known(got) else R.undecided)(label + ':rows', 'describing the %s %s gives %s instead of %s' % (layout[i][1][j][1], layout[i][1][j][0], pp(P, got), pp(P, want)), None, ob=label)


def sure(A, st):
    """the path was followed without any step whose meaning is not known"""
    odd = {k: n for k, n in A.opaque_log.items() if k not in NONID}
    old, A.opaque_log = A.opaque_log, odd
    try:
        return decisive(A, st)
    finally:
        A.opaque_log = old


def known(v):
    """every operation in the value has a known meaning"""
    def clean(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[:2] == ('t', 'map0'):
            return UNIT
        if x[:2] == ('t', 'minsert'):
            return ('adt', '()', 0, tuple(map(clean, x[2:])))
        if x[:2] == ('t', 'sorted') and x[2][0] == 'arr' and len(x[2][1]) > 1:
            return clean(x[2])
        return tuple(clean(y) if isinstance(y, tuple) else y for y in x)
    return understood(clean(v))


def deep(A, st, v):
    return plain(snap(A, st, loadall(A, st, v) if v[0] == 'ref' else v))


def models_get(A, st, m, key):
    while m[0] == 't' and m[1] == 'minsert':
        if m[3] == key:
            return m[4]
        m = m[2]
    raise Imprecise('no entry')


def which(A, st, names, q):
    """[(state, index of the name equal to q, or None)]"""
    out = []
    cur = st.copy()
    for i, x in enumerate(names):
        t, f = split(A, cur, mk_eqv(x, q))
        if t:
            out.append((t, i))
        cur = f
        if cur is None:
            break
    if cur is not None:
        out.append((cur, None))
    return out


def compare_maps(A, R, P, st, got, want, keys, label, rep):
    for k in keys:
        for s, v in entries(A, st, got, k):
            for s2, w in entries(A, s, want, k):
                if (v is None) != (w is None):
                    rep(label + ':content', 'the schema %s is %s' % (pp(P, k), 'missing' if v is None else 'there unasked'), None, ob=label)
                    continue
                if v is None:
                    continue
                x, y = deep(A, s2, v), deep(A, s2, w)
                if x != y:
                    (rep if known(x) else R.undecided)(label + ':content', 'the schema %s is %s instead of %s' % (pp(P, k), pp(P, x), pp(P, y)), None, ob=label)
