"""SQL name resolution: which table or column a name denotes, at every place a name may stand.

The statements are given with symbolic names; every pattern of equal and different names is a path of the analysis. The expected meaning is computed by a
small reference interpreter of the scoping rules over the same description of the statement, which asks the path which names are equal.
"""
from .sqlt import *

DB, SCH, TABLE, VIEW, OBJ, ROWSET, COLUMN = ['crate::sql::schema::' + x for x in ('Database', 'Schema', 'Table', 'View', 'SchemaObject', 'RowSet', 'Column')]
D, DN, TI, TS = ('Date', False), ('Date', True), ('Time', False), ('Timestamp', True)


class NeedSplit(Exception):
    def __init__(self, atom):
        self.atom = atom


def nv(x):
    """the Name value of a python name: a symbol by default, text when it starts with '"'"""
    return nm(x[1:]) if x.startswith('"') else nm(sym(x))


def path(p):
    return ('arr', tuple(map(nv, p)))


def distinct(*groups):
    f = {}
    for g in groups:
        for a, c in itertools.combinations(g, 2):
            at = mk_eqv(nv(a), nv(c))
            if at[0] == 't':
                f[at] = ((0, 0),)
    return f


# ------------------------------------------------------------------ descriptions to trees
class Build:
    def __init__(self, P):
        self.b = S(P)
        self.P = P

    def lit(self, kind):
        v = variant(self.P, LIT, kind)
        fs = self.P.adts[LIT]['variants'][v]['fields']
        return self.b.enum(EXPR, 'Literal', _0=('adt', LIT, v, tuple(sym('text') for _ in fs)))

    def expr(self, e):
        b = self.b
        k = e[0]
        if k == 'q':
            return b.enum(EXPR, 'QualifiedIdentifier', _0=path(e[1]))
        if k == 'lit':
            return self.lit(e[1])
        if k == 'isnull':
            return b.enum(EXPR, 'Unary', op=('adt', UNOP, variant(self.P, UNOP, 'IsNull'), ()), expr=('box', self.expr(e[1])))
        if k == 'inname':
            return b.enum(EXPR, 'In', expr=('box', self.expr(e[1])), set=b.enum(SETSPEC, 'Name', _0=path(e[2])))
        if k == 'insel':
            return b.enum(EXPR, 'In', expr=('box', self.expr(e[1])), set=b.enum(SETSPEC, 'Select', _0=self.stmt(e[2])))
        if k == 'inlist':
            return b.enum(EXPR, 'In', expr=('box', self.expr(e[1])), set=b.enum(SETSPEC, 'List', _0=('arr', tuple(self.bx(x) for x in e[2]))))
        if k == 'sub':
            return b.enum(EXPR, 'Select', _0=self.stmt(e[1]))
        if k == 'tuple':
            return b.enum(EXPR, 'MakeTuple', _0=('arr', tuple(self.bx(x) for x in e[1])))
        raise KeyError(k)

    def bx(self, e):
        return ('box', self.expr(e))

    def ob(self, e):
        return NONE if e is None else some(self.bx(e))

    def stmt(self, s):
        b = self.b
        return b.struct(SELSTMT, common=('arr', tuple(
            b.struct(CTE, identifier=nv(n), column_names=NONE if c is None else some(path(c)), query=self.stmt(q)) for n, c, q in s.get('with', ()))),
            expr=('box', self.body(s['body'])), order_by=('arr', tuple(
                b.struct(ORD, expr=self.bx(e), collation=NONE, direction=('adt', AST + 'OrderingDirection', 0, ())) for e in s.get('order', ()))),
            limit=NONE if s.get('limit') is None else some(b.struct(LIM, number_rows=self.bx(s['limit']), offset_value=self.ob(s.get('offset')))))

    def body(self, d):
        b = self.b
        if d[0] == 'values':
            return b.enum(SETX, 'Values', _0=('arr', tuple(('arr', tuple(self.bx(e) for e in r)) for r in d[1])))
        if d[0] == 'op':
            return b.enum(SETX, 'Op', op=('adt', SETOP, 0, ()), left=('box', self.body(d[1])), right=('box', self.body(d[2])))
        q = d[1]
        if q['cols'] == 'all':
            cols = b.enum(RCOLS, 'All')
        else:
            cols = b.enum(RCOLS, 'List', _0=('arr', tuple(('box', b.enum(RCOL, 'AllFrom', _0=nv(c[1])) if c[0] == 'from' else b.enum(
                RCOL, 'Expr', expr=self.bx(c[1]), rename=NONE if c[2] is None else some(nv(c[2])))) for c in q['cols'])))
        gr = q.get('group')
        return b.enum(SETX, 'Query', mode=('adt', SELMODE, 0, ()), columns=cols, where_expr=self.ob(q.get('where')), group_by=NONE if gr is None else some(
            b.struct(GROUP, groupings=('arr', tuple(self.bx(e) for e in gr)), having=self.ob(q.get('having')))), **{
                'from': ('arr', tuple(('box', self.table(t)) for t in q['from']))})

    def table(self, t):
        b = self.b
        if t[0] == 'named':
            return b.enum(TABX, 'Named', name=path(t[1]), alias=NONE if t[2] is None else some(nv(t[2])))
        if t[0] == 'sub':
            return b.enum(TABX, 'Select', select=self.stmt(t[1]), alias=NONE if t[2] is None else some(nv(t[2])))
        i = variant(self.P, JOINOP, 'Cross')
        con = b.enum(JOINC, 'Columns', _0=path(t[3])) if isinstance(t[3], list) else b.enum(JOINC, 'Expr', _0=self.bx(t[3]))
        return b.enum(TABX, 'Join', left=('box', self.table(t[1])), right=('box', self.table(t[2])), op=('adt', JOINOP, i, ()), constraint=con)

    def database(self, layout):
        """layout: [(schema, [(object, 'table' | 'view', [(column, type)])])]"""
        b = self.b

        def rowset(cols):
            return b.struct(ROWSET, columns=('arr', tuple(b.struct(COLUMN, name=nv(n), not_null=B(not t[1]), primary_key=B(t[2] if len(t) > 2 else i == 0), data_type=b.dt(t[0]))
                                                          for i, (n, t) in enumerate(cols))))

        def obj(n, kind, cols):
            if kind == 'view':
                return b.enum(OBJ, 'View', _0=b.struct(VIEW, name=nv(n), rows=rowset(cols), query=sym('text')))
            return b.enum(OBJ, 'Table', _0=b.struct(TABLE, name=nv(n), rows=rowset(cols), primary_key=('arr', ())))
        return b.struct(DB, schemata=models.mk_map([(nv(s), b.struct(SCH, name=nv(s), objects=models.mk_map([(nv(n), obj(n, k, c)) for n, k, c in os_])))
                                                    for s, os_ in layout]))


# ------------------------------------------------------------------ reference meaning
class Env:
    def __init__(self, eq, layout, default):
        self.eq = eq
        self.layout = layout
        self.default = default

    def table(self, ctes, p):
        if len(p) == 1:
            for n, rows in reversed(ctes):
                if self.eq(n, p[0]):
                    return rows
            return self.object(self.default, p[0])
        if len(p) == 2:
            if any(self.eq(n, p[0]) for n, _ in ctes):
                raise Rej
            return self.object(p[0], p[1])
        raise Rej

    def object(self, s, o):
        for s2, os_ in self.layout:
            if self.eq(s2, s):
                for o2, _, cols in os_:
                    if self.eq(o2, o):
                        return cols
                raise Rej
        raise Rej

    def attr(self, rels, p):
        if len(p) == 1:
            if any(a is not None and self.eq(a, p[0]) for a, _ in rels):
                raise Any_
            c = [t for _, rows in rels for n, t in rows if n is not None and self.eq(n, p[0])]
            if any(n is None for _, rows in rels for n, _ in rows):
                raise Any_
            if len(c) != 1:
                raise Rej
            return c[0]
        if len(p) == 2:
            for a, rows in rels:
                if a is not None and self.eq(a, p[0]):
                    c = [t for n, t in rows if n is None or self.eq(n, p[1])]
                    if not c:
                        raise Rej
                    if len(c) > 1:
                        raise Any_
                    return c[0]
        raise Rej

    def expr(self, ctes, rels, e):
        k = e[0]
        if k == 'q':
            return self.attr(rels, e[1])
        if k == 'lit':
            return LITERALS[e[1]]
        if k == 'isnull':
            return isnull(self.expr(ctes, rels, e[1]))
        if k == 'tuple':
            return [self.expr(ctes, rels, x) for x in e[1]]
        if k == 'inlist':
            return in_list(self.expr(ctes, rels, e[1]), *[self.expr(ctes, rels, x) for x in e[2]])
        if k == 'inname':
            return in_rows(self.expr(ctes, rels, e[1]), [t for _, t in self.table(ctes, e[2])])
        if k == 'insel':
            return in_rows(self.expr(ctes, rels, e[1]), [t for _, t in self.stmt(ctes, e[2])])
        if k == 'sub':
            return scalar_sub([t for _, t in self.stmt(ctes, e[1])])
        raise KeyError(k)

    def cond(self, ctes, rels, e):
        t = self.expr(ctes, rels, e)
        if isinstance(t, list) or t[0] != 'Logical':
            raise Rej

    def scalar(self, ctes, rels, e):
        t = self.expr(ctes, rels, e)
        if isinstance(t, list):
            raise Rej
        return t

    def stmt(self, ctes, s):
        own = []
        for n, cols, q in s.get('with', ()):
            rows = self.stmt(ctes + own, q)
            if cols is not None:
                rows = [(c, self.attr([(None, rows)], [c])) for c in cols]
            if any(self.eq(n, m) for m, _ in own):
                raise Rej
            own.append((n, rows))
        inner = ctes + own
        scope = []
        rows = self.body(inner, s['body'], scope)
        for e in s.get('order', ()):
            try:
                self.scalar(inner, [(None, rows)], e)
            except Rej:
                # columns of the tables may or may not be in scope
                if scope:
                    self.scalar(inner, scope, e)
                    raise Any_
                raise
        for k in ('limit', 'offset'):
            if s.get(k) is not None and self.expr(inner, [], s[k]) != N:
                raise Rej
        return rows

    def add(self, rels, alias, rows):
        if alias is not None and any(a is not None and self.eq(a, alias) for a, _ in rels):
            raise Rej
        rels.append((alias, rows))
        return rows

    def from_(self, ctes, rels, t):
        if t[0] == 'named':
            rows = self.table(ctes, t[1])
            return self.add(rels, t[2] if t[2] is not None else t[1][-1], rows)
        if t[0] == 'sub':
            return self.add(rels, t[2], self.stmt(ctes, t[1]))
        l = self.from_(ctes, rels, t[1])
        r = self.from_(ctes, rels, t[2])
        if isinstance(t[3], list):
            for c in t[3]:
                x, y = self.attr([(None, l)], [c]), self.attr([(None, r)], [c])
                if x[0] != y[0]:
                    raise Rej
        else:
            self.cond(ctes, rels, t[3])
        return l + r

    def body(self, ctes, d, scope=None):
        if d[0] == 'values':
            rows = [[self.scalar(ctes, [], e) for e in r] for r in d[1]]
            if len({len(r) for r in rows}) > 1:
                raise Rej
            out = rows[0]
            for r in rows[1:]:
                out = [unify(x, y) for x, y in zip(out, r)]
            return [(None, t) for t in out]
        if d[0] == 'op':
            l, r = self.body(ctes, d[1]), self.body(ctes, d[2])
            if len(l) != len(r):
                raise Rej
            return [(n, unify(x, y)) for (n, x), (_, y) in zip(l, r)]
        q = d[1]
        rels = []
        all_ = []
        for t in q['from']:
            all_ = all_ + self.from_(ctes, rels, t)
        for k in ('where', 'having'):
            if q.get(k) is not None:
                self.cond(ctes, rels, q[k])
        for e in q.get('group') or ():
            self.expr(ctes, rels, e)
        if scope is not None:
            scope += rels
        if q['cols'] == 'all':
            return self.unique(all_)
        out = []
        for c in q['cols']:
            if c[0] == 'from':
                for a, rows in rels:
                    if a is not None and self.eq(a, c[1]):
                        out += rows
                        break
                else:
                    raise Rej
            else:
                t = self.scalar(ctes, rels, c[1])
                out.append((c[2] if c[2] is not None else c[1][1][-1] if c[1][0] == 'q' else None, t))
        return self.unique(out)

    def unique(self, rows):
        """clashing names are replaced; what they become is not prescribed"""
        ns = [n for n, _ in rows]
        if None in ns:
            # a name made up for an unnamed column may clash with any other
            return [(None, t) for _, t in rows]
        if any(a is not None and c is not None and self.eq(a, c) for a, c in itertools.combinations(ns, 2)):
            return [(None, t) for _, t in rows]
        return rows

    def statement(self, s):
        k = s[0]
        if k == 'select':
            self.stmt([], s[1])
            return 'ok'
        if k == 'describe':
            self.table([], s[1])
            return 'ok'
        rows = self.table([], s[1])
        rels = [(s[1][-1], rows)]
        if k == 'delete':
            if s[2] is not None:
                self.cond([], rels, s[2])
        elif k == 'update':
            for cols, e in s[2]:
                t = self.scalar([], rels, e)
                for c in cols:
                    x = self.attr([(None, rows)], [c])
                    if x[0] != t[0] or t[1] and not x[1]:
                        raise Rej
            cs = [c for cols, _ in s[2] for c in cols]
            if any(self.eq(a, c) for a, c in itertools.combinations(cs, 2)):
                raise Rej
            if s[3] is not None:
                self.cond([], rels, s[3])
        elif k == 'insert':
            src = self.body([], s[3])
            cs = s[2] if s[2] is not None else [n for n, _ in rows]
            if len(cs) != len(src):
                raise Rej
            for c, (_, t) in zip(cs, src):
                x = self.attr([(None, rows)], [c])
                if x[0] != t[0] or t[1] and not x[1]:
                    raise Rej
            if any(self.eq(a, c) for a, c in itertools.combinations(cs, 2)):
                raise Rej
            if any(not t[1] and not any(self.eq(n, c) for c in cs) for n, t in rows):
                raise Rej
        return 'ok'


# ------------------------------------------------------------------ running
class World:
    """the set context of a database with symbolic names, made by the code itself"""

    def __init__(self, ctx, R, P, bld, layout, default, facts):
        f = P.one(SETCTX + '::new')
        if f is None:
            raise Imprecise('SetContext::new not found')
        A = Analysis(P, unroll=64)
        A.hooks[NAME_EQ] = name_eq
        g = A.run(f.key, [('ref', H1, ()), nv(default)], mem={H1: bld.database(layout)}, facts=dict(facts))
        R.seen(A)
        ts = g.terms()
        if len(ts) != 1 or ts[0].kind != 'ret' or A.opaque_log or A.rec_log:
            raise Imprecise('the context of the database is not understood: %s' % [(n.kind, str(n.info)[:80]) for n in ts][:4])
        self.value = A.snap(ts[0].state, ts[0].info)
        self.layout, self.default, self.facts = layout, default, facts


def analyse(P, fpath, val, world, scalar=False):
    f = P.one(fpath)
    if f is None:
        raise Imprecise('%s not found' % fpath)
    A = Analysis(P, unroll=64)
    A.recdepth = 6
    A.hooks[NAME_EQ] = name_eq
    return A, A.run(f.key, [('ref', H1, ()), ('ref', H3, ())], mem={H1: val, H3: world.value}, facts=dict(world.facts))


def expectations(A, st, ref):
    """[(state, expected)] for every pattern of names the path leaves open"""
    out, work = [], [st]
    while work:
        s = work.pop()

        def eq(x, y):
            at = mk_eqv(nv(x), nv(y))
            d = A.decide(s, at)
            if d is None:
                raise NeedSplit(at)
            return d
        try:
            try:
                out.append((s, ref(eq)))
            except Rej:
                out.append((s, 'rej'))
            except Any_:
                out.append((s, 'any'))
        except NeedSplit as e:
            t, f = split(A, s, e.atom)
            work += [x for x in (t, f) if x is not None]
    return out


def names_of(s):
    """a reading of the path: which names are equal"""
    cls = []
    for f, r in s.facts.items():
        if f[0] == 't' and f[1] in ('nameeq', 'eq') and r == ((1, 1),):
            cls.append('%s = %s' % tuple(sorted(x[1] if x[0] in ('y', 'str') else '?' for x in f[2:4])))
    return ', '.join(sorted(cls)) or 'all names different'


def check(R, P, b, label, fpath, val, world, ref, result, kinds):
    A, g = analyse(P, fpath, val, world)
    R.seen(A)
    n_ = 0
    for n in g.terms():
        if n.kind == 'panic':
            if 'panic' in kinds:
                (R.bad if decisive(A, n.state) else R.undecided)(label + ':panic', '%s panics at %s (%s)' % (label, n.info[2], names_of(n.state)), n.info[2], ob=label)
            continue
        isok = is_ok(n.info)
        if isok is None:
            R.undecided(label, 'result not understood')
            continue
        if 'names' not in kinds:
            continue
        for s, w in expectations(A, n.state, ref):
            n_ += 1
            if w == 'any':
                continue
            msg = None
            if w == 'rej':
                if isok:
                    msg = 'is accepted although a name in it denotes nothing or more than one thing'
            elif not isok:
                msg = 'is rejected although every name in it denotes one thing'
            elif w != 'ok':
                got = result(A, s, n.info[3][0])
                if got is None:
                    R.undecided(label, 'result not understood: %s' % pp(P, n.info))
                    continue
                if [t for _, t in got] != [t for _, t in w]:
                    msg = 'has the columns %s instead of %s' % (showrow([(None, t) for _, t in got]), showrow([(None, t) for _, t in w]))
                elif any(A.decide(s, mk_eqv(nm(x), nm(y))) is True for (x, _), (y, _) in itertools.combinations(got, 2)):
                    msg = 'has two columns of the same name: %s' % ', '.join(pp(P, x) if isinstance(x, tuple) else x for x, _ in got)
                else:
                    for (gn, _), (wn, _) in zip(got, w):
                        if wn is None:
                            continue
                        d = A.decide(s, mk_eqv(nm(gn), nv(wn)))
                        if d is not True:
                            msg = 'has a column named %s instead of %s' % (pp(P, gn) if isinstance(gn, tuple) else gn, wn.strip('"'))
                            if d is None and not contains(gn, lambda x: isinstance(x, tuple) and x[:1] == ('y',)):
                                R.undecided(label, msg)
                                msg = None
                            break
            if msg:
                (R.bad if decisive(A, n.state) else R.undecided)(label + ':names', '%s %s (%s)' % (label, msg, names_of(s)), None, ob=label)
    R.count('name_patterns', n_)
    if not g.terms():
        R.undecided(label, 'no result')


TRUE_ = ('isnull', ('lit', 'NumericLiteral'))
NUM = ('lit', 'NumericLiteral')


def q(*p):
    return ('q', list(p))


def sel(cols, from_, **kw):
    st = {k: kw.pop(k) for k in ('with', 'order', 'limit', 'offset') if k in kw}
    if 'with_' in kw:
        st['with'] = kw.pop('with_')
    st['body'] = ('query', dict(kw, cols=cols, **{'from': from_}))
    return st


def col(e, alias=None):
    return ('expr', e, alias)


def layouts():
    """two databases"""
    one = [('s', [('tab0', 'table', [('c0', N), ('c1', VN)]), ('tab1', 'view', [('d0', D)])])]
    f1 = distinct(('tab0', 'tab1'), ('c0', 'c1'), ('k0', 'k1'), ('n', 'm'))
    two = [('s0', [('o0', 'table', [('c0', N), ('c1', VN)]), ('o1', 'view', [('d0', D)])]), ('s1', [('o2', 'table', [('e0', TI), ('e1', DN), ('e2', TS)])])]
    f2 = distinct(('s0', 's1'), ('o0', 'o1'), ('c0', 'c1'), ('e0', 'e1', 'e2'), ('y', 'z'))
    text = [('s', [('t', 'table', [('"a', N), ('"b', VN)]), ('u', 'table', [('"A', D), ('"a1', TI)])])]
    return {'text': (text, 's', distinct(('t', 'u'), ('y', 'z'))), 'one': (one, 's', f1), 'two': (two, 'dflt', f2), 'none': ([], 'dflt', {})}


def name_cases():
    """(label, layout, function, statement description, 'rows' | 'stmt')"""
    T0, T1 = ('named', ['tab0'], 'a0'), ('named', ['tab1'], 'a1')
    sub0 = sel([col(q('c0'), 'k0'), col(q('c1'), 'k1')], [('named', ['tab0'], None)])
    froms = {
        'none': [], 'alias': [T0], 'plain': [('named', ['tab0'], None)], 'qualified': [('named', ['s', 'tab0'], None)], 'two': [T0, T1],
        'two-plain': [('named', ['tab0'], None), ('named', ['tab1'], 'a1')], 'self': [T0, ('named', ['tab0'], 'a1')],
        'sub': [('sub', sub0, 'a0')], 'sub-anon': [('sub', sub0, None)], 'sub-two': [('sub', sub0, None), ('named', ['tab1'], 'a1')],
        'join': [('join', T0, T1, TRUE_)], 'join-three': [('join', ('join', T0, T1, TRUE_), ('named', ['tab1'], 'a2'), TRUE_)],
        'join-and': [('join', T0, T1, TRUE_), ('named', ['tab1'], 'a2')],
    }
    paths = {'name': ['p'], 'qualified': ['r', 'p'], 'three': ['x', 'r', 'p'], 'empty': []}
    # a column in the result
    for fl, fr in froms.items():
        for pl, p in paths.items():
            if pl in ('three', 'empty') and fl != 'alias':
                continue
            if pl == 'empty':
                continue
            yield 'column:%s:%s' % (fl, pl), 'one', SETX_INFER, sel([col(('q', p))], fr)['body'], 'rows'
    # every other place an expression may stand
    for pl in ('name', 'qualified'):
        e = ('q', paths[pl])
        c = ('isnull', e)
        one, two = froms['alias'], froms['two']
        for lab, s in (('where', sel([col(NUM, 'n')], two, where=c)), ('group', sel([col(NUM, 'n')], two, group=[e])), ('group-second', sel([col(NUM, 'n')], one, group=[NUM, e])),
                       ('having', sel([col(NUM, 'n')], two, group=[], having=c)), ('join-on', sel([col(NUM, 'n')], [('join', T0, T1, c)])),
                       ('join-on-inner', sel([col(NUM, 'n')], [('join', ('join', T0, T1, c), ('named', ['tab1'], 'a2'), TRUE_)])),
                       ('join-on-outer', sel([col(NUM, 'n')], [('join', ('join', T0, T1, TRUE_), ('named', ['tab1'], 'a2'), c)])),
                       ('join-on-right', sel([col(NUM, 'n')], [('join', ('named', ['tab1'], 'a2'), ('join', T0, T1, c), TRUE_)])),
                       ('in-list', sel([col(NUM, 'n')], two, where=('inlist', e, [e]))), ('in-list-item', sel([col(NUM, 'n')], two, where=('inlist', q('a0', 'c0'), [e]))),
                       ('second-column', sel([col(NUM, 'n'), col(c, 'm')], one)),
                       ('in-subquery', sel([col(NUM, 'n')], [], where=('isnull', ('sub', sel([col(e)], one)))))):
            yield 'place:%s:%s' % (lab, pl), 'named' if 'join-on-' in lab else 'one', SETX_INFER, s['body'], 'rows'
        for lab, s in (('order-by', sel([col(q('c0')), col(q('c1'))], one, order=[e])), ('order-by-second', sel([col(q('c0')), col(q('c1'))], one, order=[NUM, e])),
                       ('order-by-alias', sel([col(q('c0'), 'k')], one, order=[e])), ('order-by-values', {'body': ('op', sel('all', one)['body'], sel('all', one)['body']), 'order': [e]}),
                       ('limit', sel('all', one, limit=e)), ('offset', sel('all', one, limit=NUM, offset=e)),
                       ('values', {'body': ('values', [[NUM, e]])}), ('values-second', {'body': ('values', [[NUM], [e]])}),
                       ('with', sel([col(NUM, 'n')], [], with_=[('w', None, sel([col(e)], one))])),
                       ('body', sel([col(e)], [('named', ['w'], None)], with_=[('w', None, sel('all', one))])),
                       ('body-columns', sel([col(e)], [('named', ['w'], None)], with_=[('w', ['c1', 'c0'], sel('all', one))])),
                       ('union-right', {'body': ('op', sel([col(NUM, 'n')], one)['body'], sel([col(NUM, 'n')], one, where=c)['body'])})):
            yield 'place:%s:%s' % (lab, pl), 'one', SEL_INFER, s, 'rows'
        for lab, s in (('update-value', ('update', ['tab0'], [(['c1'], e)], None)), ('update-second', ('update', ['tab0'], [(['c0'], NUM), (['c1'], e)], None)),
                       ('update-where', ('update', ['tab0'], [], c)), ('delete-where', ('delete', ['tab0'], c)), ('delete-where-schema', ('delete', ['s', 'tab0'], c)),
                       ('update-where-schema', ('update', ['s', 'tab0'], [], c))):
            yield 'place:%s:%s' % (lab, pl), 'one', None, s, 'stmt'
    # which columns a statement assigns to
    for lab, s in (('update-target', ('update', ['tab0'], [(['p'], NUM)], None)), ('update-targets', ('update', ['tab0'], [(['p', 'r'], NUM)], None)),
                   ('insert-target', ('insert', ['tab0'], ['p'], ('values', [[NUM]]))), ('insert-targets', ('insert', ['tab0'], ['p', 'r'], ('values', [[NUM, ('lit', 'StringLiteral')]]))),
                   ('insert-source', ('insert', ['tab0'], ['p'], sel('all', [('named', ['x'], None)])['body']))):
        yield 'place:' + lab, 'one', None, s, 'stmt'
    yield 'place:join-using', 'one', SETX_INFER, sel([col(NUM, 'n')], [('join', T0, ('named', ['tab0'], 'a1'), ['p'])])['body'], 'rows'
    yield 'place:join-using-two', 'one', SETX_INFER, sel([col(NUM, 'n')], [('join', T0, T1, ['p', 'r'])])['body'], 'rows'
    # which relation a table name denotes
    for db in ('two', 'none'):
        for pl, p in (('name', ['p']), ('qualified', ['r', 'p']), ('three', ['x', 'r', 'p'])):
            yield 'table:from:%s:%s' % (db, pl), db, SETX_INFER, sel('all', [('named', p, None)])['body'], 'rows'
            yield 'table:describe:%s:%s' % (db, pl), db, None, ('describe', p), 'stmt'
            yield 'table:delete:%s:%s' % (db, pl), db, None, ('delete', p, None), 'stmt'
            yield 'table:update:%s:%s' % (db, pl), db, None, ('update', p, [], None), 'stmt'
            yield 'table:insert:%s:%s' % (db, pl), db, None, ('insert', p, None, ('values', [[NUM, ('lit', 'StringLiteral')]])), 'stmt'
            yield 'table:in:%s:%s' % (db, pl), db, SETX_INFER, sel([col(NUM, 'n')], [], where=('inname', ('lit', 'DateLiteral'), p))['body'], 'rows'
    # common table expressions
    A0 = [('named', ['o0'], None)]
    for pl, p in (('name', ['p']), ('qualified', ['r', 'p'])):
        W0 = ('w0', None, sel([col(NUM, 'n')], []))
        P_ = [('named', p, None)]
        for lab, s in (('body', sel('all', P_, with_=[W0])), ('later', sel('all', [('named', ['w1'], None)], with_=[W0, ('w1', None, sel('all', P_))])),
                       ('earlier', sel('all', [('named', ['w0'], None)], with_=[('w0', None, sel('all', P_)), ('w1', None, sel([col(NUM, 'n')], []))])),
                       ('in', sel([col(NUM, 'n')], [], where=('inname', NUM, p), with_=[W0])), ('in-select', sel([col(NUM, 'n')], [], where=('insel', NUM, sel('all', P_)), with_=[W0])),
                       ('sub', sel('all', [('sub', sel('all', P_), 'z')], with_=[W0])), ('union', {'with': [W0], 'body': ('op', sel([col(NUM, 'n')], [])['body'], sel('all', P_)['body'])}),
                       ('join', sel([('from', 'y')], [('join', ('named', ['w0'], 'z'), ('named', p, 'y'), TRUE_)], with_=[W0])),
                       ('inner', sel('all', [('sub', sel('all', P_, with_=[('w1', None, sel([col(('lit', 'TimeLiteral'), 'm')], []))]), 'z')], with_=[W0])),
                       ('outer', sel([('from', 'y')], [('sub', sel([col(NUM, 'n')], [], with_=[('w1', None, sel([col(('lit', 'TimeLiteral'), 'm')], []))]), 'z'), ('named', p, 'y')], with_=[W0])),
                       ('order', sel([col(NUM, 'n')], [], order=[('sub', sel('all', P_))], with_=[W0])), ('limit', sel([col(NUM, 'n')], [], limit=('sub', sel('all', P_)), with_=[W0]))):
            yield 'with:%s:%s' % (lab, pl), 'two', SEL_INFER, s, 'rows'
    # the columns of the result
    two = froms['two']
    for lab, cols, fr in (('all-from', [('from', 'p')], two), ('all-from-two', [('from', 'a1'), ('from', 'a0')], two), ('all', 'all', [T0]), ('all-join', 'all', froms['join']),
                          ('alias', [col(q('c1'), 'x')], [T0]), ('identifier', [col(q('c1'))], [T0]), ('qualified-identifier', [col(q('a0', 'c1')), col(q('a0', 'c0'))], [T0]),
                          ('mixed', [col(q('a1', 'd0'), 'x'), ('from', 'a0'), col(TRUE_, 'y')], two), ('all-from-anon', [('from', 'p')], froms['sub-anon']), ('all-from-sub', [('from', 'p')], froms['sub'])):
        yield 'result:' + lab, 'named' if lab in ('all-from-two', 'all-join', 'mixed') else 'one', SETX_INFER, sel(cols, fr)['body'], 'rows'
    # clashing names in a result
    TT, TU = ('named', ['t'], 'y'), ('named', ['u'], 'z')
    for lab, cols, fr in (('all', 'all', [TT, TU]), ('all-self', 'all', [TT, ('named', ['t'], 'z')]), ('all-from', [('from', 'z'), ('from', 'y')], [TT, TU]),
                          ('repeated', [col(q('"a'))] * 3, [TT]), ('repeated-12', [col(q('"a'))] * 12, [TT]),
                          ('alias', [col(NUM, '"x')] * 2 + [col(NUM, '"X1')], []), ('alias-first', [col(NUM, '"x1'), col(NUM, '"x'), col(NUM, '"X')], []),
                          ('alias-late', [col(NUM, '"x'), col(NUM, '"x1'), col(NUM, '"x'), col(NUM, '"x2'), col(NUM, '"x')], []), ('generated', [col(NUM), col(NUM), col(NUM)], []),
                          ('generated-taken', [col(NUM, '"col'), col(NUM), col(NUM, '"COL1'), col(NUM)], []), ('suffix', [col(NUM, '"x'), col(NUM, '"x'), col(NUM, '"x1'), col(NUM, '"x1'), col(NUM, '"x11')], []),
                          ('kept', [col(NUM, '"x'), col(q('"b')), col(NUM, '"x1'), col(q('y', '"a'), '"x2')], [TT])):
        yield 'clash:' + lab, 'text', SETX_INFER, sel(cols, fr)['body'], 'rows'
    yield 'clash:with', 'text', SEL_INFER, sel([col(q('"A1'))], [('named', ['w'], None)], with_=[('w', None, sel([col(NUM, '"a'), col(('lit', 'TimeLiteral'), '"a1'), col(('lit', 'DateLiteral'), '"a2')], []))]), 'rows'
    yield 'clash:case', 'text', SETX_INFER, sel([col(q('"B')), col(q('y', '"A'))], [TT])['body'], 'rows'


STMT_KIND = {'select': ('Select', SELSTMT), 'insert': ('Insert', INS), 'update': ('Update', UPD), 'delete': ('Delete', DEL)}


def stmt_value(bld, s):
    b = bld.b
    if s[0] == 'describe':
        return validate('DescribeStatement'), b.struct(DESC, qualified_name=path(s[1]))
    if s[0] == 'delete':
        return validate('DeleteStatement'), b.struct(DEL, table_name=path(s[1]), where_expr=bld.ob(s[2]))
    if s[0] == 'update':
        return validate('UpdateStatement'), b.struct(UPD, table_name=path(s[1]), where_expr=bld.ob(s[3]), assignments=('arr', tuple(
            b.struct(ASG, columns=path(c), expr=bld.bx(e)) for c, e in s[2])))
    return validate('InsertStatement'), b.struct(INS, table_name=path(s[1]), columns=NONE if s[2] is None else some(path(s[2])), source=('box', bld.body(s[3])))


def each_name(ctx, R, kinds, pick=None):
    P = ctx.P
    bld = Build(P)
    b = bld.b
    L = layouts()
    lay, dflt, f = L['one']
    L['named'] = (lay, dflt, {**f, **distinct(('c0', 'c1', 'd0', 'x', 'y'), ('a0', 'a1', 'a2'))})
    worlds = {}

    def result(A, st, v):
        return unrow(b, models.snap(A, st, v))
    def job(R, case):
        label, db, fpath, desc, kind = case
        with Guard(R, label):
            if db not in worlds:
                worlds[db] = None
                worlds[db] = World(ctx, R, P, bld, *L[db])
            w = worlds[db]
            if w is None:
                raise Imprecise('the context of the database is not understood')

            def ref(eq, desc=desc, fpath=fpath, kind=kind):
                E = Env(eq, w.layout, w.default)
                if kind == 'stmt':
                    return E.statement(desc)
                return E.stmt([], desc) if fpath == SEL_INFER else E.body([], desc)
            if kind == 'stmt':
                fp, val = stmt_value(bld, desc)
            else:
                fp, val = fpath, bld.stmt(desc) if fpath == SEL_INFER else bld.body(desc)
            check(R, P, b, label, fp, val, w, ref, result, kinds)

    # databases first: every worker inherits them
    for db in L:
        try:
            worlds[db] = World(ctx, R, P, bld, *L[db])
        except Exception:
            pass
    parallel(R, [c for c in name_cases() if not pick or pick(c[0])], job)


def c31(ctx, R):
    """every name denotes the one table or column in scope that bears it, or the statement is rejected"""
    each_name(ctx, R, ('names',))


def nopanic(ctx, R):
    each_name(ctx, R, ('panic',))


def catalog(ctx, R):
    """the columns of a table or view have the names, order, types and nullability the catalog gives them, whatever else it says of them"""
    P = ctx.P
    bld = Build(P)
    b = bld.b
    f = P.one(RESOLVE)
    dts = [v['name'] for v in P.adts[DT]['variants']]
    flags = [(n, k) for n in (False, True) for k in (False, True)]
    cases = []
    for kind in ('table', 'view'):
        cases.append((kind + ':empty', kind, []))
        for t in dts:
            cases.append(('%s:%s' % (kind, t), kind, [(t, n, k) for n, k in flags]))
            cases.append(('%s:%s:one' % (kind, t), kind, [(t, True, True)]))
        cases.append((kind + ':all', kind, [(t, n, k) for n, k in flags for t in dts]))
        cases.append((kind + ':reversed', kind, [(t, n, k) for n, k in reversed(flags) for t in reversed(dts)]))
    for label, kind, cols in cases:
        label = 'catalog:' + label
        with Guard(R, label):
            if f is None:
                raise Imprecise('%s not found' % RESOLVE)
            named = [('"k%d' % i, t) for i, t in enumerate(cols)]
            w = World(ctx, R, P, bld, [('"s', [('"o', kind, named)])], '"s', {})
            for q_ in (['"o'], ['"s', '"o']):
                A = Analysis(P, unroll=64)
                A.hooks[NAME_EQ] = name_eq
                g = A.run(f.key, [('ref', H3, ()), ('ref', H1, ())], mem={H1: path(q_), H3: w.value})
                R.seen(A)
                for n in g.terms():
                    if n.kind == 'panic':
                        continue
                    if is_ok(n.info) is None or not is_ok(n.info):
                        R.undecided(label, 'the object is not found')
                        continue
                    got = unrow(b, models.snap(A, n.state, A.snap(n.state, n.info[3][0])))
                    want = [(x[1:], (t[0], t[1])) for x, t in named]
                    if got is None:
                        R.undecided(label, 'result not understood: %s' % pp(P, n.info))
                    elif got != want:
                        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), None)
                        m = '%d columns instead of %d' % (len(got), len(want)) if i is None else 'column %s: %s instead of %s: %s' % (got[i][0], show(got[i][1]), want[i][0], show(want[i][1]))
                        (R.bad if decisive(A, n.state) else R.undecided)(label, '%s (nullable %s, part of the key %s)' % (m, cols[i][1], cols[i][2]) if i is not None else m, None)
