"""SQL typing: operand and clause tables, visiting of every operand, name resolution."""
import itertools
from .common import *

AST = 'crate::sql::ast::'
TY = AST + 'typing::'
EXPR, LIT, SETSPEC, WHEN = AST + 'Expression', AST + 'Literal', AST + 'SetSpecification', AST + 'WhenClause'
UNOP, BINOP, CMPOP = AST + 'UnaryOperator', AST + 'BinaryOperator', AST + 'ComparisonOperator'
STYPE = TY + 'ScalarType'
ROWT, ATTR = TY + 'RowType', TY + 'Attribute'
DT = 'crate::sql::types::DataType'
NAME = 'crate::sql::symbols::Name'
SCTX, SETCTX = TY + 'ScalarContext', TY + 'SetContext'
H1, H2, H3 = ('h', 20001), ('h', 20002), ('h', 20003)
EXPR_INFER = TY + '<impl ' + EXPR + '>::infer_type'


def infer(n):
    return TY + '<impl ' + AST + n + '>::infer_type'


def validate(n):
    return TY + '<impl ' + AST + n + '>::validate_type'


class S:
    """builders over the current definition of the tree"""

    def __init__(self, P):
        self.P = P

    def enum(self, adt, vn, /, **kw):
        i = variant(self.P, adt, vn)
        fs = self.P.adts[adt]['variants'][i]['fields']
        return ('adt', adt, i, tuple(kw[f['name']] if f['name'] in kw else kw['_' + f['name']] for f in fs))

    def struct(self, adt, /, **kw):
        return ('adt', adt, 0, tuple(kw[f['name']] for f in self.P.adts[adt]['variants'][0]['fields']))

    def dt(self, n):
        return ('adt', DT, variant(self.P, DT, n), ())

    def scalar(self, n, null):
        return self.enum(STYPE, 'Scalar', typ=self.dt(n), is_null=B(null))

    def typ(self, t):
        """('Numeric', False) | [types]"""
        if isinstance(t, list):
            return self.enum(STYPE, 'Tuple', _0=('arr', tuple(map(self.typ, t))))
        return self.scalar(*t)

    def untyp(self, v):
        """the python form of a ScalarType value, None if it is not concrete"""
        if v[0] != 'adt' or v[1] != STYPE:
            return None
        if vname(self.P, STYPE, v[2]) == 'Tuple':
            if v[3][0][0] != 'arr':
                return None
            l = [self.untyp(x) for x in v[3][0][1]]
            return None if None in l else l
        fs = [f['name'] for f in self.P.adts[STYPE]['variants'][v[2]]['fields']]
        d = dict(zip(fs, v[3]))
        if d['typ'][0] != 'adt' or d['is_null'][0] != 'b':
            return None
        return (vname(self.P, DT, d['typ'][2]), bool(d['is_null'][1]))


# ------------------------------------------------------------------ reference semantics
class Rej(Exception):
    """the construct is ill-typed"""


class Any_(Exception):
    """nothing is required of the construct"""


def compat(a, b):
    """the nullness of comparing values of the two types"""
    if isinstance(a, list) != isinstance(b, list):
        raise Rej
    if isinstance(a, list):
        if len(a) != len(b):
            raise Rej
        n = False
        for x, y in zip(a, b):
            n |= compat(x, y)
        return n
    if a[0] != b[0]:
        raise Rej
    return a[1] | b[1]


def unify(a, b):
    if isinstance(a, list) != isinstance(b, list):
        raise Rej
    if isinstance(a, list):
        if len(a) != len(b):
            raise Rej
        return [unify(x, y) for x, y in zip(a, b)]
    if a[0] != b[0]:
        raise Rej
    return (a[0], a[1] | b[1])


ORDERED = {'Varchar', 'Numeric', 'Date', 'Time', 'Timestamp'}
LITERALS = {'StringLiteral': ('Varchar', False), 'NumericLiteral': ('Numeric', False), 'Null': ('Generic', True), 'CurrentTime': ('Time', False),
            'CurrentDate': ('Date', False), 'CurrentTimestamp': ('Timestamp', False), 'DateLiteral': ('Date', False), 'TimeLiteral': ('Time', False),
            'TimestampLiteral': ('Timestamp', False)}


def both(kind, res):
    def f(a, b):
        for x in (a, b):
            if isinstance(x, list) or x[0] != kind:
                raise Rej
        return (res, a[1] | b[1])
    return f


def ordered(*ts):
    for x in ts:
        if isinstance(x, list) or x[0] != ts[0][0] or x[0] not in ORDERED:
            raise Rej
    return ('Logical', any(x[1] for x in ts))


def only(kind):
    def f(a):
        if isinstance(a, list) or a[0] != kind:
            raise Rej
        return a
    return f


def isnull(a):
    if isinstance(a, list):
        raise Rej
    return ('Logical', False)


UNARY = {'Negate': only('Numeric'), 'Not': only('Logical'), 'IsNull': isnull}
BINARY = {n: both('Numeric', 'Numeric') for n in ('Multiply', 'Divide', 'Add', 'Subtract')}
BINARY.update({'Concat': both('Varchar', 'Varchar'), 'And': both('Logical', 'Logical'), 'Or': both('Logical', 'Logical')})
COMPARE = {n: (lambda a, b: ('Logical', compat(a, b))) for n in ('Equal', 'NotEqual')}
COMPARE.update({n: ordered for n in ('LessThan', 'LessEqual', 'GreaterThan', 'GreaterEqual')})
COMPARE['Like'] = both('Varchar', 'Logical')


def case_ref(nwhen, subject, els):
    def f(*ch):
        ch = list(ch)
        e = ch.pop(0) if subject else None
        anyc = isinstance(e, list)
        guards, bodies = ch[:nwhen], ch[nwhen:2 * nwhen]
        last = ch[2 * nwhen:] if els else []
        for g in guards:
            if e is not None:
                compat(g, e)
            elif isinstance(g, list) or g[0] != 'Logical':
                raise Rej
        for b in bodies + last:
            if isinstance(b, list) or b[0] != bodies[0][0]:
                raise Rej
        if anyc:
            raise Any_
        return (bodies[0][0], not els or any(b[1] for b in bodies + last))
    return f


def in_list(e, *items):
    if not items:
        raise Any_
    t = items[0]
    for x in items[1:]:
        t = unify(t, x)
    if isinstance(t, list):
        raise Rej
    return ('Logical', compat(e, t))


def in_rows(e, cols):
    if len(cols) != 1:
        raise Rej
    return ('Logical', compat(e, cols[0]))


def scalar_sub(cols):
    if len(cols) != 1:
        raise Rej
    return cols[0]


# ------------------------------------------------------------------ running one construct
class Children:
    """the sub-inferences of one construct: each yields every outcome of its domain"""

    def __init__(self, b, doms, scope=None):
        self.b = b
        self.doms = doms        # label -> list of outcomes ('err' | type | ('rows', ...))
        self.scope = scope
        self.bad_scope = []

    def outcome(self, label, o):
        if o == 'err':
            return err(('t', 'terr', ('y', label, 0)))
        if isinstance(o, tuple) and o[0] == 'rows':
            return ok(self.b.rows(o[1]))
        return ok(self.b.typ(o))

    def pick(self, A, st, label):
        """[(state, outcome)]"""
        dom = self.doms[label]
        if label in st.tags:
            return [(st, dom[st.tags[label]])]
        r = []
        for j in range(len(dom)):
            s = st.copy()
            s.tags = dict(s.tags)
            s.tags[label] = j
            r.append((s, dom[j]))
        return r

    def hook(self, A, st, c, w):
        if c.args[0][0] != 'ref':
            return NotImplemented
        v = load(A, st, c.args[0])
        if v[0] != 'y' or v[1] not in self.doms:
            return NotImplemented
        if self.scope is not None and len(c.args) > 1:
            got = snap(A, st, load(A, st, c.args[1]))
            if not self.scope(got):
                self.bad_scope.append((v[1], got, c.site))
        return [(s, self.outcome(v[1], o)) for s, o in self.pick(A, st, v[1])]

    def picked(self, st):
        """label -> outcome, for the children inferred on the path"""
        return {l: d[st.tags[l]] for l, d in self.doms.items() if l in st.tags}


def row_attr(b, name, t):
    return b.struct(ATTR, name=('adt', NAME, 0, (('str', name) if isinstance(name, str) else name,)), typ=b.dt(t[0]), is_null=B(t[1]))


def rows_value(b, cols, names=None):
    return b.struct(ROWT, attributes=('arr', tuple(row_attr(b, names[i] if names else 'c%d' % i, t) for i, t in enumerate(cols))), primary_key=('arr', ()), order_by=('arr', ()))


S.rows = rows_value


def expr_cases(b, deep=False):
    """(label, expression value, {child: domain}, child order, reference)"""
    P = b.P
    dts = [v['name'] for v in P.adts[DT]['variants']]
    SC = [(t, n) for t in dts for n in (False, True)]
    N, V, L = ('Numeric', False), ('Varchar', False), ('Logical', False)
    TU = [[], [N], [V], [('Numeric', True)], [N, V], [[N]], [[('Numeric', True)]]]
    FULLD = ['err'] + SC + TU
    SMALL = ['err', N, ('Numeric', True), V, L, ('Logical', True), ('Generic', True), [N]]
    TINY = ['err', N, ('Numeric', True), V, [N]]
    GUARD = ['err', L, ('Logical', True), N, [L]]

    def box(l):
        return ('box', ('y', l, 0))

    def boxes(ls):
        return ('arr', tuple(map(box, ls)))
    for v in P.adts[LIT]['variants']:
        lit = ('adt', LIT, variant(P, LIT, v['name']), tuple(('y', 's', 0) for _ in v['fields']))
        if v['name'] in LITERALS:
            yield 'literal:' + v['name'], b.enum(EXPR, 'Literal', _0=lit), {}, [], (lambda t: lambda: t)(LITERALS[v['name']])
        else:
            yield 'literal:' + v['name'], None, {}, [], None
    for op in [v['name'] for v in P.adts[UNOP]['variants']]:
        yield 'unary:' + op, b.enum(EXPR, 'Unary', op=('adt', UNOP, variant(P, UNOP, op), ()), expr=box('expr')), {'expr': FULLD}, ['expr'], UNARY.get(op)
    for op in [v['name'] for v in P.adts[BINOP]['variants']]:
        yield 'binary:' + op, b.enum(EXPR, 'Binary', op=('adt', BINOP, variant(P, BINOP, op), ()), left=box('left'), right=box('right')), {
            'left': FULLD, 'right': FULLD}, ['left', 'right'], BINARY.get(op)
    for op in [v['name'] for v in P.adts[CMPOP]['variants']]:
        yield 'comparison:' + op, b.enum(EXPR, 'Comparison', op=('adt', CMPOP, variant(P, CMPOP, op), ()), left=box('left'), right=box('right')), {
            'left': FULLD, 'right': FULLD}, ['left', 'right'], COMPARE.get(op)
    T2 = [[N, N], [('Numeric', True), N], [N, ('Numeric', True)], [V, N], [N, V], [V, V], [N, N, N], [V, N, N], [N, V, N], [N, N, V], [N, N, ('Numeric', True)], [[N], N], [[V], N], [N, [N]], [N, [V]],
          [[N, N], N], [[V, N], N], [[N, V], N], [N] * 20, [N] * 9 + [V] + [N] * 10, [V] + [N] * 19, [N] * 19 + [V], [N] * 9 + [('Numeric', True)] + [N] * 10]
    for op in [v['name'] for v in P.adts[CMPOP]['variants']]:
        yield 'comparison:' + op + ':tuples', b.enum(EXPR, 'Comparison', op=('adt', CMPOP, variant(P, CMPOP, op), ()), left=box('left'), right=box('right')), {
            'left': T2, 'right': T2}, ['left', 'right'], COMPARE.get(op)
    yield 'case:1:subject:tuples', b.enum(EXPR, 'Case', expr=some(box('expr')), when_part=('arr', (b.struct(WHEN, guard=box('guard0'), body=box('body0')),)), else_part=NONE), {
        'expr': T2, 'guard0': T2, 'body0': [N]}, ['expr', 'guard0', 'body0'], case_ref(1, True, False)
    bt = b.enum(EXPR, 'Between', expr=box('expr'), lower=box('lower'), upper=box('upper'))
    yield 'between', bt, {x: SMALL for x in ('expr', 'lower', 'upper')}, ['expr', 'lower', 'upper'], ordered
    for t in dts:
        yield 'between:' + t, bt, {x: [(t, False), (t, True)] for x in ('expr', 'lower', 'upper')}, ['expr', 'lower', 'upper'], ordered
    for n in (0, 1, 2, 3):
        ls = ['c%d' % i for i in range(n)]
        yield 'tuple:%d' % n, b.enum(EXPR, 'MakeTuple', _0=boxes(ls)), {l: SMALL for l in ls}, ls, lambda *a: list(a)
    ls = ['c%02d' % i for i in range(24)]
    yield 'tuple:24', b.enum(EXPR, 'MakeTuple', _0=boxes(ls)), {l: ['err', N] for l in ls}, ls, lambda *a: list(a)
    for n in (1, 2, 3, 9):
        for subject in (False, True):
            for els in (False, True):
                gs, bs = ['guard%d' % i for i in range(n)], ['body%d' % i for i in range(n)]
                order = (['expr'] if subject else []) + gs + bs + (['else'] if els else [])
                if n == 1 and els:
                    gd, bd = (['err', N, V, [N]] if subject else GUARD), FULLD
                elif n == 1:
                    gd, bd = (SMALL if subject else ['err'] + SC + TU), FULLD
                elif n == 2:
                    gd, bd = (['err', N, V, [N]] if subject else ['err', L, ('Logical', True), N]), ['err', N, ('Numeric', True), V]
                elif n == 3:
                    gd, bd = ['err', N if subject else L], ['err', N, ('Numeric', True)]
                else:
                    gd, bd = ['err', N if subject else L], ['err', N]
                doms = {g: gd for g in gs}
                doms.update({x: bd for x in bs})
                if subject:
                    doms['expr'] = (['err', N, ('Numeric', True), [N]] if els else SMALL) if n == 1 else ['err', N] if n > 2 else ['err', N, ('Numeric', True), [N]]
                if els:
                    doms['else'] = FULLD if n == 1 and not subject else TINY if n < 3 else ['err', N, ('Numeric', True)]
                wh = ('arr', tuple(b.struct(WHEN, guard=box(g), body=box(x)) for g, x in zip(gs, bs)))
                yield 'case:%d%s%s' % (n, ':subject' if subject else '', ':else' if els else ''), b.enum(
                    EXPR, 'Case', expr=some(box('expr')) if subject else NONE, when_part=wh, else_part=some(box('else')) if els else NONE), doms, order, case_ref(n, subject, els)
    for n in (0, 1, 2, 3, 20):
        ls = ['c%02d' % i for i in range(n)]
        yield 'in:list:%d' % n, b.enum(EXPR, 'In', expr=box('expr'), set=b.enum(SETSPEC, 'List', _0=boxes(ls))), dict(
            {'expr': FULLD if n < 2 else ['err', N, ('Numeric', True)]}, **{l: FULLD if n == 1 else SMALL if n == 2 else ['err', N, ('Numeric', True)] if n == 3 else ['err', N] if l in ('c00', 'c09', 'c19') else [N] for l in ls}), ['expr'] + ls, in_list
    ROWS = ['err'] + [('rows', c) for c in [[]] + [[t] for t in SC] + [[N, N], [N, V], [N, N, N]]]
    sel = ('y', 'select', 0)
    yield 'in:select', b.enum(EXPR, 'In', expr=box('expr'), set=b.enum(SETSPEC, 'Select', _0=sel)), {'expr': FULLD, 'select': ROWS}, ['expr', 'select'], (
        lambda e, r: in_rows(e, r[1]))
    yield 'in:name', b.enum(EXPR, 'In', expr=box('expr'), set=b.enum(SETSPEC, 'Name', _0=('y', 'table', 0))), {'expr': FULLD, 'table': ROWS}, ['expr', 'table'], (
        lambda e, r: in_rows(e, r[1]))
    yield 'select', b.enum(EXPR, 'Select', _0=sel), {'select': ROWS}, ['select'], lambda r: scalar_sub(r[1])


def reference(order, ref, outs):
    """what the construct must have, given the outcomes of the inferred children; a child that was not inferred may have any outcome"""
    if any(outs[l] == 'err' for l in order):
        return 'rej'
    try:
        return ref(*[outs[l] for l in order])
    except Rej:
        return 'rej'
    except Any_:
        return 'any'


SEL_INFER = infer('SelectStatement')
RESOLVE = SETCTX + '::resolve_table_name'


def run_expr(ctx, R, P, b, fkey, label, val, doms, order, ref, what):
    """what: 'visit' (C19), 'table' (C20), 'panic' (C21)"""
    A = Analysis(P, unroll=64)
    A.recdepth = 4
    scope_set = ('ref', H3, ())
    C = Children(b, doms)
    A.hooks[EXPR_INFER] = C.hook
    A.hooks[SEL_INFER] = C.hook

    def resolve(A, st, c, w):
        v = load(A, st, c.args[1]) if c.args[1][0] == 'ref' else None
        if v is None or v != ('y', 'table', 0) or 'table' not in doms:
            return NotImplemented
        r = []
        for s, o in C.pick(A, st, 'table'):
            if o == 'err':
                r.append((s, err(('t', 'terr', ('y', 'table', 0)))))
            else:
                s.mem[('h', 31900)] = b.rows(o[1])
                r.append((s, ok(('ref', ('h', 31900), ()))))
        return r
    A.hooks[RESOLVE] = resolve
    mem = {H1: val, H2: b.struct(SCTX, set_context=scope_set, symbols=('y', 'symbols', 0)), H3: ('y', 'setctx', 0)}
    g = A.run(fkey, [('ref', H1, ()), ('ref', H2, ())], mem=mem)
    R.seen(A)
    return A, C, g


# ------------------------------------------------------------------ statements and clauses
SETX, TABX, JOINC, JOINOP = AST + 'SetExpression', AST + 'TableExpression', AST + 'JoinConstraint', AST + 'JoinOperator'
RCOLS, RCOL, GROUP, SELMODE, SETOP = AST + 'ResultColumns', AST + 'ResultColumn', AST + 'GroupBy', AST + 'SelectMode', AST + 'SetOperator'
SELSTMT, CTE, ORD, LIM = AST + 'SelectStatement', AST + 'CommonTableExpression', AST + 'Ordering', AST + 'Limit'
INS, UPD, DEL, ASG, STMT, SQLS, DESC = [AST + x for x in ('InsertStatement', 'UpdateStatement', 'DeleteStatement', 'Assignment', 'Statement', 'SqlStatement', 'DescribeStatement')]
SETX_INFER, TABX_INFER = infer('SetExpression'), infer('TableExpression')
NAME_EQ = '<%s as core::cmp::PartialEq>::eq' % NAME
N, NN, V, VN, L, LN, G = ('Numeric', False), ('Numeric', True), ('Varchar', False), ('Varchar', True), ('Logical', False), ('Logical', True), ('Generic', True)


def nm(x):
    return ('adt', NAME, 0, (('str', x) if isinstance(x, str) else x,))


def names(*xs):
    return ('arr', tuple(map(nm, xs)))


def sym(n):
    return ('y', n, 0)


def box(l):
    return ('box', sym(l))


def rowt(b, attrs):
    return b.struct(ROWT, attributes=('arr', tuple(row_attr(b, n, t) for n, t in attrs)), primary_key=('arr', ()), order_by=('arr', ()))


def unrow(b, v):
    """[(name value, type)] of a RowType, None if not concrete"""
    if v[0] != 'adt' or v[1] != ROWT:
        return None
    return unattrs(b, v[3][field(b.P, ROWT, 'attributes')])


def unattrs(b, a):
    if a[0] != 'arr':
        return None
    out = []
    for x in a[1]:
        if x[0] != 'adt' or x[1] != ATTR:
            return None
        d = dict(zip([f['name'] for f in b.P.adts[ATTR]['variants'][0]['fields']], x[3]))
        n, t, nl = d['name'], d['typ'], d['is_null']
        if t[0] != 'adt' or nl[0] != 'b' or n[0] != 'adt':
            return None
        n = n[3][0]
        out.append((n[1] if n[0] == 'str' else n, (vname(b.P, DT, t[2]), bool(nl[1]))))
    return out


class Stub:
    """stands in for the inference of sub-terms given as symbols, one outcome of the domain each, and records the context they were given"""

    def __init__(self, P, b, doms, **kw):
        self.P, self.b, self.doms = P, b, doms
        self.A = A = Analysis(P, unroll=64)
        A.recdepth = 4
        for p in (EXPR_INFER, SEL_INFER, SETX_INFER, infer('CommonTableExpression')):
            A.hooks[p] = self.plain
        A.hooks[TABX_INFER] = self.table
        A.hooks[RESOLVE] = self.resolve
        A.hooks[NAME_EQ] = name_eq
        for k, v in kw.items():
            setattr(self, k, v)
        self.seen = []           # (label, context, state)

    def pick(self, st, label):
        dom = self.doms[label]
        if label in st.tags:
            return [(st, dom[st.tags[label]])]
        r = []
        for j in range(len(dom)):
            s = st.copy()
            s.tags = dict(s.tags)
            s.tags[label] = j
            r.append((s, dom[j]))
        return r

    def picked(self, st):
        return {l: d[st.tags[l]] for l, d in self.doms.items() if l in st.tags}

    def who(self, st, ref):
        v = load(self.A, st, ref) if ref[0] == 'ref' else ref
        return v[1] if v[0] == 'y' and v[1] in self.doms else None

    def plain(self, A, st, c, w):
        l = self.who(st, c.args[0])
        if l is None:
            return NotImplemented
        self.seen.append((l, plain(snap(A, st, loadall(A, st, c.args[1]))) if len(c.args) > 1 else None, c.site, dict(st.tags)))
        out = []
        for s, o in self.pick(st, l):
            if o == 'err':
                out.append((s, err(('t', 'terr', sym(l)))))
            elif isinstance(o, tuple) and o[0] == 'rows':
                out.append((s, ok(self.b.rows(o[1], o[2] if len(o) > 2 else None))))
            else:
                out.append((s, ok(self.b.typ(o))))
        return out

    def table(self, A, st, c, w):
        l = self.who(st, c.args[0])
        if l is None:
            return NotImplemented
        out = []
        for s, o in self.pick(st, l):
            if o == 'err':
                out.append((s, err(('t', 'terr', sym(l)))))
            else:
                i = field(self.P, SCTX, 'symbols')
                cx = c.args[1]
                if cx[0] != 'adt':
                    return NotImplemented
                fs = list(cx[3])
                fs[i] = ('t', 'ext', fs[i], sym(l))
                r = rowt(self.b, o[1])
                out.append((s, ok(models.tup(('adt', cx[1], 0, tuple(fs)), r[3][field(self.P, ROWT, 'attributes')]))))
        return out

    def resolve(self, A, st, c, w):
        a = c.args[1]
        v = load(A, st, a) if a[0] == 'ref' else a
        l = v[1] if v[0] == 'y' and v[1] in self.doms else None
        if l is None and v[0] == 'arr' and v[1] and v[1][-1][0] == 'adt':
            n = v[1][-1][3][0]
            l = 'T:' + n[1] if n[0] == 'str' and 'T:' + n[1] in self.doms else None
        if l is None:
            return NotImplemented
        out = []
        for s, o in self.pick(st, l):
            if o == 'err':
                out.append((s, err(('t', 'terr', sym(l)))))
            else:
                cell = ('h', 31900 + sorted(self.doms).index(l))
                s.mem[cell] = rowt(self.b, o[1]) if o[0] == 'table' else self.b.rows(o[1])
                out.append((s, ok(('ref', cell, ()))))
        return out


def name_eq(A, st, c, w):
    x, y = (plain(snap(A, st, loadall(A, st, a))) for a in c.args[:2])
    t, f = split(A, st, mk_eqv(x, y))
    return [(s, B(r)) for s, r in ((t, True), (f, False)) if s is not None]


def is_ok(v):
    return None if v[0] != 'adt' or v[1] != RES else v[2] == 0


def clause_cases(b):
    """(label, function path, self value, kind of context, domains, order, reference(outs) -> 'rej' | 'ok' | rows)"""
    P = b.P
    CELL = ['err', N, NN, V, [N]]
    COND = ['err', L, LN, N, G, [L]]

    # VALUES
    def values(rows):
        doms, order, grid = {}, [], []
        for i, n in enumerate(rows):
            ls = ['e%d_%d' % (i, j) for j in range(n)]
            grid.append(ls)
            order += ls
            for l in ls:
                doms[l] = CELL if sum(rows) <= 4 else ['err', N, NN, V] if sum(rows) <= 5 else ['err', N, V] if len(rows) != 13 else [N, NN] if i > 8 else [N]

        def ref(o):
            rs = [[o[l] for l in r] for r in grid]
            if any(isinstance(x, list) for r in rs for x in r) or len({len(r) for r in rs}) > 1:
                return 'rej'
            out = rs[0]
            for r in rs[1:]:
                out = [unify(x, y) for x, y in zip(out, r)]
            return [(None, t) for t in out]
        return b.enum(SETX, 'Values', _0=('arr', tuple(('arr', tuple(map(box, r))) for r in grid))), doms, order, ref
    for rows in ((1,), (2,), (3,), (1, 1), (1, 1, 1), (2, 2), (2, 1), (1, 2), (2, 2, 1), (1, 1, 2), (2, 3), (1,) * 12, (1,) * 13, (1,) * 40, (1,) * 11 + (2,), (2,) * 8 + (1,)):
        yield ('values:' + '-'.join(map(str, rows)) if len(rows) < 6 else 'values:%d-rows-last-%d-of-%d' % (len(rows), rows[-1], rows[0]), SETX_INFER) + (lambda v: (v[0], 'set') + v[1:])(values(rows))

    # set operations
    LR = [[], [N], [V], [NN], [N, V], [NN, VN], [V, N], [N, V, L], [N, V, N]] + [[(k['name'], n)] for k in P.adts[DT]['variants'] if k['name'] not in ('Numeric', 'Varchar') for n in (False, True)] + [[N] * 12, [N] * 11 + [NN], [N] * 11 + [V]]
    for op in [v['name'] for v in P.adts[SETOP]['variants']]:
        ld = ['err'] + [('rows', c, ['l%d' % i for i in range(len(c))]) for c in LR]
        rd = ['err'] + [('rows', c, ['r%d' % i for i in range(len(c))]) for c in LR]

        def ref(o):
            a, c = o['left'], o['right']
            if len(a[1]) != len(c[1]):
                return 'rej'
            return [(n, unify(x, y)) for n, x, y in zip(a[2], a[1], c[1])]
        yield 'setop:' + op, SETX_INFER, b.enum(SETX, 'Op', op=('adt', SETOP, variant(P, SETOP, op), ()), left=box('left'), right=box('right')), 'set', {
            'left': ld, 'right': rd}, ['left', 'right'], ref

    # SELECT
    def query(mode, nfrom, where, groups, having, cols):
        ts = ['t%d' % i for i in range(nfrom)]
        doms = {t: ['err', ('table', [(t + 'a', N), (t + 'b', VN)])] for t in ts}
        order = list(ts)
        if where:
            doms['where'] = COND
            order.append('where')
        gs = ['g%d' % i for i in range(groups or 0)]
        for g in gs:
            doms[g] = ['err', N, VN, [N]] if groups < 6 else ['err', N]
        order += gs
        if having:
            doms['having'] = COND
            order.append('having')
        if cols is None:
            cv = b.enum(RCOLS, 'All')
        else:
            cs = ['c%d' % i for i in range(cols)]
            for c in cs:
                doms[c] = ['err', N, VN, [N]] if cols < 3 else ['err', N, VN] if cols < 6 else ['err', N, [N]]
            order += cs
            cv = b.enum(RCOLS, 'List', _0=('arr', tuple(('box', b.enum(RCOL, 'Expr', expr=box(c), rename=some(nm('n_' + c)))) for c in cs)))
        gv = NONE if groups is None else some(b.struct(GROUP, groupings=('arr', tuple(map(box, gs))), having=some(box('having')) if having else NONE))

        def ref(o):
            for x in ('where', 'having'):
                if x in o and (isinstance(o[x], list) or o[x][0] != 'Logical'):
                    return 'rej'
            if cols is None:
                return [a for t in ts for a in o[t][1]]
            out = []
            for c in cs:
                if isinstance(o[c], list):
                    return 'rej'
                out.append(('n_' + c, o[c]))
            return out
        return b.enum(SETX, 'Query', mode=('adt', SELMODE, variant(P, SELMODE, mode), ()), columns=cv, **{
            'from': ('arr', tuple(map(box, ts))), 'where_expr': some(box('where')) if where else NONE, 'group_by': gv}), 'set', doms, order, ref
    for mode in [v['name'] for v in P.adts[SELMODE]['variants']]:
        for nf, wh, gr, hv, co in ((0, False, None, False, 1), (1, False, None, False, None), (2, True, None, False, None), (1, True, None, False, 1), (2, False, 1, False, 1),
                                   (1, True, 1, True, 1), (1, False, 2, True, 2), (3, True, 1, True, None), (1, False, None, False, 3), (0, True, 0, True, 1), (1, False, 3, False, None), (12, True, 12, True, 12), (30, False, None, False, None)):
            yield ('select:%s:from%d%s%s%s:%s' % (mode, nf, ':where' if wh else '', '' if gr is None else ':group%d' % gr, ':having' if hv else '', 'all' if co is None else '%d-columns' % co),
                   SETX_INFER) + query(mode, nf, wh, gr, hv, co)

    # FROM: a joined pair
    for op in [v['name'] for v in P.adts[JOINOP]['variants']]:
        i = variant(P, JOINOP, op)
        fs = tuple(('adt', AST + 'JoinType', 0, ()) for _ in P.adts[JOINOP]['variants'][i]['fields'])
        opv = ('adt', JOINOP, i, fs)
        base = [('x', N), ('y', V)]
        kinds = [v['name'] for v in P.adts[DT]['variants'] if not v['fields']]
        pairs = [([('x', (a, False)), ('y', V)], [('x', (c, False))], '%s-%s' % (a, c)) for a in kinds for c in kinds] if op == 'Join' else []
        for lt, rt, lab in [(base, [('x', NN), ('z', V)], 'one'), (base, [('z', V)], 'none'), (base, [('x', V)], 'type'), (base, [('y', V), ('x', N)], 'two')] + pairs:
            for cons in ('expr', ('x',), ('x', 'y'), ('z',), ('q',)):
                if cons == 'expr' and lab != 'one' or lab not in ('one', 'none', 'type', 'two') and cons != ('x',):
                    continue
                doms = {'left': ['err', ('table', lt)], 'right': ['err', ('table', rt)]}
                order = ['left', 'right']
                if cons == 'expr':
                    doms['on'] = COND
                    order.append('on')
                    cv = b.enum(JOINC, 'Expr', _0=box('on'))
                else:
                    cv = b.enum(JOINC, 'Columns', _0=names(*cons))

                def ref(o, lt=lt, rt=rt, cons=cons):
                    if cons == 'expr':
                        if isinstance(o['on'], list) or o['on'][0] != 'Logical':
                            return 'rej'
                    else:
                        for c in cons:
                            a, d = dict(lt).get(c), dict(rt).get(c)
                            if a is None or d is None or a[0] != d[0]:
                                return 'rej'
                    return lt + rt
                yield 'join:%s:%s:%s' % (op, lab, cons if cons == 'expr' else 'using-' + '-'.join(cons)), TABX_INFER, b.enum(
                    TABX, 'Join', left=box('left'), right=box('right'), op=opv, constraint=cv), 'scalar', doms, order, ref

    # SELECT statement: WITH, ORDER BY, LIMIT
    def select(ncte, norder, limit):
        doms = {'body': ['err', ('rows', [N, VN], ['ca', 'cb'])]}
        order = []
        ctes = []
        for i in range(ncte):
            q = 'q%d' % i
            doms[q] = ['err', ('rows', [N, VN], ['k%d' % i, 'm'])]
            order.append(q)
            ctes.append(b.struct(CTE, identifier=nm('w%d' % i), column_names=NONE, query=sym(q)))
        order.append('body')
        os_ = []
        for i in range(norder):
            o = 'o%d' % i
            doms[o] = ['err', N, VN, [N]] if norder < 6 else ['err', N, [N]]
            order.append(o)
            os_.append(b.struct(ORD, expr=box(o), collation=NONE, direction=('adt', AST + 'OrderingDirection', 0, ())))
        lv = NONE
        LIMD = ['err', N, NN, V, [N]]
        if limit:
            doms['limit'] = LIMD
            order.append('limit')
            if limit > 1:
                doms['offset'] = LIMD
                order.append('offset')
            lv = some(b.struct(LIM, number_rows=box('limit'), offset_value=some(box('offset')) if limit > 1 else NONE))

        def ref(o):
            for k in range(norder):
                if isinstance(o['o%d' % k], list):
                    return 'rej'
            for k in ('limit', 'offset'):
                if k in o and o[k] != N:
                    return 'rej'
            return list(zip(o['body'][2], o['body'][1]))
        return b.struct(SELSTMT, common=('arr', tuple(ctes)), expr=box('body'), order_by=('arr', tuple(os_)), limit=lv), 'set', doms, order, ref
    for nc, no, li in ((0, 0, 0), (0, 1, 0), (0, 2, 0), (0, 3, 1), (0, 0, 1), (0, 0, 2), (1, 0, 0), (2, 1, 2), (3, 0, 0), (12, 12, 2), (0, 40, 0)):
        yield ('statement:with%d:order%d:limit%d' % (nc, no, li), SEL_INFER) + select(nc, no, li)
    for cols in (('k0',), ('m', 'k0'), ('zz',), ('k0', 'zz'), ('m', 'm')):
        def ref(o, cols=cols):
            d = dict(zip(o['q0'][2], o['q0'][1]))
            if any(c not in d for c in cols):
                return 'rej'
            return [(c, d[c]) for c in cols]
        yield 'cte:columns-' + '-'.join(cols), infer('CommonTableExpression'), b.struct(CTE, identifier=nm('w'), column_names=some(names(*cols)), query=sym('q0')), 'set', {
            'q0': ['err', ('rows', [N, VN], ['k0', 'm'])]}, ['q0'], ref
    yield 'cte:plain', infer('CommonTableExpression'), b.struct(CTE, identifier=nm('w'), column_names=NONE, query=sym('q0')), 'set', {
        'q0': ['err', ('rows', [N, VN], ['k0', 'm'])]}, ['q0'], lambda o: [('k0', N), ('m', VN)]

    # INSERT
    table = [('a', N), ('b', VN), ('c', NN)]
    SRC = ['err'] + [('rows', r) for r in ([], [N], [NN], [V], [N, V], [N, VN], [V, N], [NN, V], [N, N], [N, V, N], [N, VN, NN], [NN, V, N], [N, N, V], [N, V, N, N])]

    def assign(t, x):
        return t[0] == x[0] and (t[1] or not x[1])
    for cols in (None, (), ('a',), ('b',), ('a', 'b'), ('b', 'a'), ('b', 'c'), ('a', 'a'), ('a', 'z'), ('z',), ('a', 'b', 'c'), ('c', 'b', 'a'), ('a', 'b', 'a'), ('a', 'b', 'c', 'a')):
        def ref(o, cols=cols):
            src = o['source'][1]
            d = dict(table)
            cs = cols if cols is not None else [n for n, _ in table]
            if len(cs) != len(src) or len(set(cs)) != len(cs) or any(c not in d for c in cs):
                return 'rej'
            if not all(assign(d[c], t) for c, t in zip(cs, src)):
                return 'rej'
            if any(not t[1] and n not in cs for n, t in table):
                return 'rej'
            return 'ok'
        yield 'insert:' + ('all' if cols is None else '-'.join(cols) or 'none'), validate('InsertStatement'), b.struct(
            INS, table_name=names('s', 't'), columns=NONE if cols is None else some(names(*cols)), source=box('source')), 'set', {
                'T:t': ['err', ('table', table)], 'source': SRC}, ['T:t', 'source'], ref

    # INSERT into a wider table: every choice of columns, every way one value can be wrong
    wide = [('a', N), ('b', NN), ('c', V), ('d', LN), ('e', N)]
    if True:
        for k in range(1 << len(wide)):
            cols = tuple(n for i, (n, _) in enumerate(wide) if k >> i & 1)
            if k % 3 == 1:
                cols = cols[::-1]
            right = [dict(wide)[c] for c in cols]
            src = ['err', ('rows', right)]
            for i, (kd, nl) in enumerate(right):
                src += [('rows', right[:i] + [x] + right[i + 1:]) for x in ((kd, not nl), ('Date', False))]

            def ref(o, cols=cols):
                d = dict(wide)
                if not all(assign(d[c], t) for c, t in zip(cols, o['source'][1])) or any(not t[1] and n not in cols for n, t in wide):
                    return 'rej'
                return 'ok'
            yield 'insert:wide:' + ('-'.join(cols) or 'none'), validate('InsertStatement'), b.struct(
                INS, table_name=names('s', 't'), columns=some(names(*cols)), source=box('source')), 'set', {
                    'T:t': ['err', ('table', wide)], 'source': src}, ['T:t', 'source'], ref

    # UPDATE
    for asg in ((('a',),), (('b',),), (('a',), ('b',)), (('a',), ('a',)), (('z',),), (('a', 'c'),), (('c', 'c'),), (('b',), ('a', 'b')), (('b',), ('a',)), (('c',), ('a',)), (('b',), ('c',), ('a',)), (('b', 'c'), ('a',)), (('c', 'b', 'a'),), (('a',), ('b',), ('b',)), (('a',), ('b',), ('z',)), ()):
        for where in (False, True):
            doms = {'T:t': ['err', ('table', table)]}
            order = ['T:t']
            for i in range(len(asg)):
                doms['x%d' % i] = ['err', N, NN, V, VN, [N]]
                order.append('x%d' % i)
            if where:
                doms['where'] = COND
                order.append('where')

            def ref(o, asg=asg):
                d = dict(table)
                done = []
                for i, cs in enumerate(asg):
                    t = o['x%d' % i]
                    if isinstance(t, list):
                        return 'rej'
                    for c in cs:
                        if c in done or c not in d or not assign(d[c], t):
                            return 'rej'
                        done.append(c)
                if 'where' in o and (isinstance(o['where'], list) or o['where'][0] != 'Logical'):
                    return 'rej'
                return 'ok'
            yield 'update:%s%s' % ('_'.join('-'.join(c) for c in asg) or 'none', ':where' if where else ''), validate('UpdateStatement'), b.struct(
                UPD, table_name=names('s', 't'), where_expr=some(box('where')) if where else NONE,
                assignments=('arr', tuple(b.struct(ASG, columns=names(*c), expr=box('x%d' % i)) for i, c in enumerate(asg)))), 'set', doms, order, ref
    # DELETE
    for where in (False, True):
        doms = {'T:t': ['err', ('table', table)]}
        if where:
            doms['where'] = COND
        yield 'delete' + (':where' if where else ''), validate('DeleteStatement'), b.struct(
            DEL, table_name=names('s', 't'), where_expr=some(box('where')) if where else NONE), 'set', doms, sorted(doms), (
                lambda o: 'rej' if 'where' in o and (isinstance(o['where'], list) or o['where'][0] != 'Logical') else 'ok')
    # dispatch
    yield 'describe', validate('DescribeStatement'), b.struct(DESC, qualified_name=names('s', 't')), 'set', {'T:t': ['err', ('table', table)]}, ['T:t'], lambda o: 'ok'


def run_clause(P, b, path, val, ctxkind, doms):
    f = P.one(path)
    if f is None:
        raise Imprecise('%s not found' % path)
    T = Stub(P, b, doms)
    A = T.A
    mem = {H1: val, H3: b.struct(SETCTX, namespaces=sym('namespaces'), default_namespace=nm(sym('default')), table_expression=sym('ctes'))}
    sc = b.struct(SCTX, set_context=('ref', H3, ()), symbols=sym('symbols'))
    args = [('ref', H1, ())]
    if ctxkind == 'set':
        args.append(('ref', H3, ()))
    else:
        args.append(sc)
    g = A.run(f.key, args, mem=mem)
    return T, g


# ------------------------------------------------------------------ verdicts
def decisive(A, st):
    """the path was followed without any step whose meaning is not known"""
    return not A.opaque_log and not A.rec_log and all(
        not contains(k, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] in ('o', 'undef', 'comp') or isinstance(x, tuple) and len(x) > 2 and x[:2] == ('t', 'discr') and x[2][0] in ('i', 'lin') or isinstance(x, tuple) and x[:1] == ('y',) and len(x) == 3 and x[2] != 0)
        for k in st.facts)


def show(t):
    if t == 'err':
        return 'ill-typed'
    if isinstance(t, list):
        return '(' + ', '.join(map(show, t)) + ')'
    if isinstance(t, tuple) and t and t[0] in ('rows', 'table'):
        return 'columns ' + ', '.join(show(x) if t[0] == 'rows' else '%s %s' % (x[0], show(x[1])) for x in t[1])
    if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], bool):
        return t[0] + ('?' if t[1] else '')
    return str(t)


def situation(outs, order):
    return ', '.join('%s: %s' % (l, show(outs[l])) if l in outs else '%s not inferred' % l for l in order)


def classify(b, n, outs, order, ref, result, doms):
    """[(property kind, message)] for one terminal; kinds: 'panic' | 'visit' | 'table' | 'undecided'"""
    c = classify1(b, n, outs, order, ref, result)
    if c is None or c[0] != 'visit' or 'err' in outs.values():
        return [] if c is None else [c]
    # a part that was not looked at may be anything
    miss = [l for l in order if l not in outs]
    for k, xs in enumerate(itertools.product(*[[x for x in doms[l] if x != 'err'] for l in reversed(miss)])):
        if k > 300:
            break
        d = classify1(b, n, dict(outs, **dict(zip(reversed(miss), xs))), order, ref, result)
        if d is not None and d[0] == 'table':
            return [c, (d[0], d[1] + ' if ' + ', '.join('%s is %s' % (l, show(x)) for l, x in list(zip(reversed(miss), xs))[:2]))]
    return [c]


def classify1(b, n, outs, order, ref, result):
    miss = [l for l in order if l not in outs]
    if n.kind == 'panic':
        return ('panic', 'panics at %s' % (n.info[2],))
    isok = is_ok(n.info)
    if isok is None:
        return ('undecided', 'result not understood')
    if 'err' in outs.values():
        bad = [l for l in order if outs.get(l) == 'err']
        return ('visit', 'is accepted although %s is ill-typed' % bad[0]) if isok else None
    if miss:
        return ('visit', 'is accepted without inferring %s' % miss[0]) if isok else None
    try:
        w = ref(outs)
    except Rej:
        w = 'rej'
    except Any_:
        return None
    if w == 'rej':
        return ('table', 'is accepted but must be rejected') if isok else None
    if not isok:
        return ('table', 'is rejected but is well-typed')
    if w == 'ok':
        return None
    got = result(n.info[3][0])
    if got is None:
        return ('undecided', 'result not understood: %s' % pp(b.P, n.info))
    if isinstance(w, list) and w and w[0][0] is None:
        got = [(None, t) for _, t in got]
    if got != w:
        return ('table', 'has type %s instead of %s' % (showrow(got), showrow(w)))
    return None


def showrow(w):
    if isinstance(w, list) and all(isinstance(x, tuple) and isinstance(x[1], tuple) for x in w):
        return '[' + ', '.join(('%s ' % (x[0],) if x[0] else '') + show(x[1]) for x in w) + ']'
    return show(w)


def judge(R, b, A, g, label, outs_of, order, ref, result, want, doms):
    n_ = 0
    for n in g.terms():
        n_ += 1
        outs = outs_of(n.state)
        for kind, msg in classify(b, n, outs, order, (lambda o: ref(o)), result, doms):
            if kind == 'undecided':
                R.undecided(label, msg)
            elif kind in want:
                m = '%s %s (%s)' % (label, msg, situation(outs, order)) if order else '%s %s' % (label, msg)
                if decisive(A, n.state):
                    R.bad(label + ':' + kind, m, n.info[2] if n.kind == 'panic' else None, ob=label)
                else:
                    R.undecided(label + ':' + kind, m + ' on a path that is not fully understood', ob=label)
    R.count('typing_cases', n_)
    if not n_:
        R.undecided(label, 'no result')


def each_expr(ctx, R, want, pick=None):
    P = ctx.P
    b = S(P)
    f = P.one(EXPR_INFER)
    if f is None:
        R.undecided('anchor:' + EXPR_INFER, 'the expression type inference is not found')
        return
    def job(R, case):
        label, val, doms, order, ref = case
        with Guard(R, label):
            if val is None or ref is None:
                R.undecided(label, 'no rule for this construct')
                return
            A, C, g = run_expr(ctx, R, P, b, f.key, label, val, doms, order, ref, want)
            judge(R, b, A, g, label, C.picked, order, lambda o: ref(*[o[l] for l in order]), b.untyp, want, doms)
    parallel(R, [c for c in expr_cases(b) if not pick or pick(c[0])], job)


def each_clause(ctx, R, want, pick=None):
    P = ctx.P
    b = S(P)

    def result(v):
        if v[0] == 'adt' and v[1] == '()':
            return unattrs(b, v[3][1])
        return unrow(b, v)
    def job(R, case):
        label, path, val, ck, doms, order, ref = case
        with Guard(R, label):
            T, g = run_clause(P, b, path, val, ck, doms)
            R.seen(T.A)
            judge(R, b, T.A, g, label, T.picked, order, ref, result, want, doms)
    parallel(R, [c for c in clause_cases(b) if not pick or pick(c[0])], job)


def c19(ctx, R):
    """a statement is accepted only if every expression, sub-query, table and clause in it was inferred and is well-typed"""
    each_expr(ctx, R, ('visit',))
    each_clause(ctx, R, ('visit',))
    dispatch(ctx, R)


def c20(ctx, R):
    """the type and nullability of every expression is the one of its operator table"""
    each_expr(ctx, R, ('table',))


def c21(ctx, R):
    """type inference returns a result for every statement the grammar can produce"""
    from . import sqln
    each_expr(ctx, R, ('panic',))
    each_clause(ctx, R, ('panic',))
    sqln.nopanic(ctx, R)


def c22(ctx, R):
    """rows, set operations, joins, result columns and the targets of INSERT and UPDATE fit in number, type, nullability and name"""
    from . import sqln
    each_clause(ctx, R, ('table',))
    sqln.catalog(ctx, R)


def dispatch(ctx, R):
    """each kind of statement is checked by its own rule"""
    P = ctx.P
    b = S(P)
    kinds = {'Select': SEL_INFER, 'Insert': validate('InsertStatement'), 'Update': validate('UpdateStatement'), 'Delete': validate('DeleteStatement')}
    for path, adt, cases in ((validate('Statement'), STMT, [(k, [p]) for k, p in kinds.items()]),
                             (validate('SqlStatement'), SQLS, [('Statement', [validate('Statement')]), ('ExplainQueryPlan', [validate('Statement')]), ('Describe', [validate('DescribeStatement')])])):
        f = P.one(path)
        for k, ps in cases:
            label = 'dispatch:%s:%s' % (adt.split('::')[-1], k)
            with Guard(R, label):
                if f is None:
                    raise Imprecise('%s not found' % path)
                A = Analysis(P)

                def h(A, st, c, w):
                    v = load(A, st, c.args[0])
                    if v != sym('stmt') or c.args[1] != ('ref', H3, ()):
                        return NotImplemented
                    a, z = st.copy(), st.copy()
                    a.tags, z.tags = {'stmt': 1}, {'stmt': 0}
                    return [(a, ok(UNIT)), (z, err(('t', 'terr', sym('stmt'))))]
                for p in set(kinds.values()) | {validate('Statement'), validate('DescribeStatement')}:
                    A.hooks[p] = h
                val = ('adt', adt, variant(P, adt, k), (sym('stmt'),))
                g = A.run(f.key, [('ref', H1, ()), ('ref', H3, ())], mem={H1: val, H3: sym('setctx')})
                R.seen(A)
                for n in g.terms():
                    o = n.state.tags.get('stmt')
                    if n.kind == 'panic':
                        continue
                    isok = is_ok(n.info)
                    if isok is None:
                        R.undecided(label, 'result not understood')
                    elif o is None and isok:
                        (R.bad if decisive(A, n.state) else R.undecided)(label, 'a %s statement is accepted without being checked' % k, ob=label)
                    elif o is not None and isok != bool(o):
                        (R.bad if decisive(A, n.state) else R.undecided)(label, 'a %s %s statement is %s' % (
                            'well-typed' if o else 'ill-typed', k, 'accepted' if isok else 'rejected'), ob=label)
