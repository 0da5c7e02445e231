"""The parsers: what the generated tables, lexer patterns and production actions make of a text, against a reference grammar of the language."""
import os
from .common import *
from .. import lr, lexre
from ..grammar import Grammar, Earley, cover


def T(n, /, **kw):
    return (n, tuple(sorted((k, v) for k, v in kw.items() if not (k == 'common' and v == ()))))


def N(x):
    return ('name', x)


def E(n, /, *a, **kw):
    return T('Expression.' + n, **dict({str(i): x for i, x in enumerate(a)}, **kw))


def un(op, e):
    return E('Unary', op=T('UnaryOperator.' + op), expr=e)


def bi(op):
    return lambda l, r: E('Binary', op=T('BinaryOperator.' + op), left=l, right=r)


def cmp_(op):
    return lambda l, r: E('Comparison', op=T('ComparisonOperator.' + op), left=l, right=r)


def opt(v, d):
    return d if v is None else v[1]


def some_(v):
    return ('Some', v)


def stmt(n):
    return lambda x: T('Statement.' + n, **{'0': x})


def select(w, e, o, l):
    return T('SelectStatement', common=opt(w, ()), expr=e, order_by=opt(o, ()), limit=l)


def query(m, c, f, w, g):
    return T('SetExpression.Query', mode=m, columns=c, **{'from': opt(f, ())}, where_expr=w, group_by=g)


def inn(e, s, **kw):
    return E('In', expr=e, set=T('SetSpecification.' + s, **{'0': kw.get('v')}))


def col(e, r=None):
    return T('ResultColumn.Expr', expr=e, rename=r)


def join(t):
    return T('JoinType.' + t)


def lit(k):
    return lambda v: T('Literal.' + k, **{'0': v})


def const(t):
    return lambda *a: t


INNER = join('Inner')
SQL = Grammar('Sql', [
    ('Sql', 'Statement', lambda s: T('SqlStatement.Statement', **{'0': s})),
    ('Sql', '"EXPLAIN" Statement', lambda s: T('SqlStatement.ExplainQueryPlan', **{'0': s})),
    ('Sql', '"EXPLAIN" "QUERY" "PLAN" Statement', lambda s: T('SqlStatement.ExplainQueryPlan', **{'0': s})),
    ('Sql', '"ATTACH" "FILE" String "AS" Schema? Name', lambda p, s, n: T('SqlStatement.Attach', **{'0': T(
        'AttachStatement', qualified_name=(s[1], n) if s else (n,), path=p)})),
    ('Sql', '"DESCRIBE" Schema? Name', lambda s, n: T('SqlStatement.Describe', **{'0': T('DescribeStatement', qualified_name=(s[1], n) if s else (n,))})),
    ('Schema', 'Name "."'),
    ('Statement', 'Select', stmt('Select')),
    ('Statement', 'With? "INSERT" "INTO" Path Columns? Core', lambda w, t, c, s: stmt('Insert')(T('InsertStatement', common=opt(w, ()), table_name=t, columns=c, source=s))),
    ('Statement', 'With? "DELETE" "FROM" Path Where?', lambda w, t, e: stmt('Delete')(T('DeleteStatement', common=opt(w, ()), table_name=t, where_expr=e))),
    ('Statement', 'With? "UPDATE" Path "SET" Assignment,+ Where?', lambda w, t, a, e: stmt('Update')(T(
        'UpdateStatement', common=opt(w, ()), table_name=t, assignments=a, where_expr=e))),
    ('Columns', '"(" Name,+ ")"'),
    ('Assignment', 'Name,+ "=" Expr', lambda c, e: T('Assignment', columns=c, expr=e)),
    ('With', '"WITH" Common,+'),
    ('Common', 'Name Columns? "AS" "(" Select ")"', lambda n, c, q: T('CommonTableExpression', identifier=n, column_names=c, query=q)),
    ('Select', 'With? Set Order? Limit?', select),
    ('Set', 'Core'),
    ('Set', 'Set SetOp Core', lambda l, o, r: T('SetExpression.Op', op=o, left=l, right=r)),
    ('SetOp', '"UNION"', const(T('SetOperator.Union'))),
    ('SetOp', '"UNION" "ALL"', const(T('SetOperator.UnionAll'))),
    ('SetOp', '"INTERSECT"', const(T('SetOperator.Intersect'))),
    ('SetOp', '"EXCEPT"', const(T('SetOperator.Except'))),
    ('Core', '"SELECT" Mode Result From? Where? Group?', query),
    ('Core', '"VALUES" Row,+', lambda r: T('SetExpression.Values', **{'0': r})),
    ('Mode', '', const(T('SelectMode.All'))),
    ('Mode', '"ALL"', const(T('SelectMode.All'))),
    ('Mode', '"DISTINCT"', const(T('SelectMode.Distinct'))),
    ('Row', '"(" Expr,+ ")"'),
    ('Result', '"*"', const(T('ResultColumns.All'))),
    ('Result', 'Column,+', lambda c: T('ResultColumns.List', **{'0': c})),
    ('Column', 'Expr', col),
    ('Column', 'Expr "AS" Name', lambda e, n: col(e, some_(n))),
    ('Column', 'Expr Name', lambda e, n: col(e, some_(n))),
    ('Column', 'Name "." "*"', lambda n: T('ResultColumn.AllFrom', **{'0': n})),
    ('Path', 'Name', lambda a: (a,)),
    ('Path', 'Name "." Name', lambda a, b: (a, b)),
    ('Path', 'Name "." Name "." Name', lambda a, b, c: (a, b, c)),
    ('From', '"FROM" Joined,+'),
    ('Joined', 'Table'),
    ('Joined', 'Joined Join Table On', lambda l, o, r, c: T('TableExpression.Join', left=l, op=o, right=r, constraint=c)),
    ('Table', 'Path Alias?', lambda n, a: T('TableExpression.Named', name=n, alias=a)),
    ('Table', '"(" Select ")" Alias?', lambda s, a: T('TableExpression.Select', select=s, alias=a)),
    ('Table', '"(" Joined ")"'),
    ('Alias', 'Name'),
    ('Alias', '"AS" Name'),
    ('Join', 'JoinType? "JOIN"', lambda t: T('JoinOperator.Join', **{'0': opt(t, INNER)})),
    ('Join', '"NATURAL" JoinType? "JOIN"', lambda t: T('JoinOperator.Natural', **{'0': opt(t, INNER)})),
    ('Join', '"CROSS" "JOIN"', const(T('JoinOperator.Cross'))),
    ('JoinType', '"LEFT" "OUTER"?', const(join('Left'))),
    ('JoinType', '"RIGHT" "OUTER"?', const(join('Right'))),
    ('JoinType', '"FULL" "OUTER"?', const(join('Full'))),
    ('JoinType', '"INNER"', const(INNER)),
    ('On', '"ON" Expr', lambda e: T('JoinConstraint.Expr', **{'0': e})),
    ('On', '"USING" "(" Name,+ ")"', lambda c: T('JoinConstraint.Columns', **{'0': c})),
    ('Where', '"WHERE" Expr'),
    ('Group', '"GROUP" "BY" Expr,+ Having?', lambda g, h: T('GroupBy', groupings=g, having=h)),
    ('Having', '"HAVING" Expr'),
    ('Order', '"ORDER" "BY" Term,+'),
    ('Term', 'Expr Collate? Direction', lambda e, c, d: T('Ordering', expr=e, collation=c, direction=d)),
    ('Collate', '"COLLATE" Name'),
    ('Direction', '', const(T('OrderingDirection.Ascending'))),
    ('Direction', '"ASC"', const(T('OrderingDirection.Ascending'))),
    ('Direction', '"DESC"', const(T('OrderingDirection.Descending'))),
    ('Limit', '"LIMIT" Expr', lambda n: T('Limit', number_rows=n, offset_value=None)),
    ('Limit', '"LIMIT" Expr "," Expr', lambda n, o: T('Limit', number_rows=n, offset_value=some_(o))),
    ('Limit', '"LIMIT" Expr "OFFSET" Expr', lambda n, o: T('Limit', number_rows=n, offset_value=some_(o))),
    # expressions, weakest first
    ('Expr', 'And'),
    ('Expr', 'Expr "OR" And', bi('Or')),
    ('And', 'Not'),
    ('And', 'And "AND" Not', bi('And')),
    ('Not', 'Complex'),
    ('Not', '"NOT" Complex', lambda e: un('Not', e)),
    ('Complex', 'Compare'),
    ('Complex', '"CASE" Expr? When+ Else? "END"', lambda e, w, l: E('Case', expr=e, when_part=w, else_part=l)),
    ('When', '"WHEN" Expr "THEN" Expr', lambda g, b: T('WhenClause', guard=g, body=b)),
    ('Else', '"ELSE" Expr'),
    ('Compare', 'Sum'),
] + [('Compare', 'Compare "%s" Sum' % o, cmp_(n)) for o, n in (
    ('=', 'Equal'), ('!=', 'NotEqual'), ('<', 'LessThan'), ('>', 'GreaterThan'), ('<=', 'LessEqual'), ('>=', 'GreaterEqual'), ('LIKE', 'Like'))] + [
    ('Compare', 'Compare "IS" "NULL"', lambda e: un('IsNull', e)),
    ('Compare', 'Compare "ISNULL"', lambda e: un('IsNull', e)),
    ('Compare', 'Compare "IS" "NOT" "NULL"', lambda e: un('Not', un('IsNull', e))),
    ('Compare', 'Compare "NOTNULL"', lambda e: un('Not', un('IsNull', e))),
    ('Compare', 'Compare "NOT" "NULL"', lambda e: un('Not', un('IsNull', e))),
    ('Compare', 'Compare "IN" Among', lambda e, s: E('In', expr=e, set=s)),
    ('Compare', 'Compare "NOT" "IN" Among', lambda e, s: un('Not', E('In', expr=e, set=s))),
    ('Compare', 'Compare "BETWEEN" Sum "AND" Sum', lambda e, l, u: E('Between', expr=e, lower=l, upper=u)),
    ('Compare', 'Compare "NOT" "BETWEEN" Sum "AND" Sum', lambda e, l, u: un('Not', E('Between', expr=e, lower=l, upper=u))),
    ('Among', '"(" ")"', const(T('SetSpecification.List', **{'0': ()}))),
    ('Among', '"(" Expr,+ ")"', lambda l: T('SetSpecification.List', **{'0': l})),
    ('Among', '"(" Select ")"', lambda s: T('SetSpecification.Select', **{'0': s})),
    ('Among', 'Path', lambda p: T('SetSpecification.Name', **{'0': p})),
    ('Sum', 'Product'),
    ('Sum', 'Sum "+" Product', bi('Add')),
    ('Sum', 'Sum "-" Product', bi('Subtract')),
    ('Sum', 'Sum "||" Product', bi('Concat')),
    ('Product', 'Unary'),
    ('Product', 'Product "*" Unary', bi('Multiply')),
    ('Product', 'Product "/" Unary', bi('Divide')),
    ('Unary', 'Primary'),
    ('Unary', '"+" Unary'),
    ('Unary', '"-" Unary', lambda e: un('Negate', e)),
    ('Primary', '"(" Expr,+ ")"', lambda l: l[0] if len(l) == 1 else E('MakeTuple', l)),
    ('Primary', '"(" Select ")"', lambda s: E('Select', s)),
    ('Primary', 'Literal', lambda v: E('Literal', v)),
    ('Primary', 'Path', lambda p: E('QualifiedIdentifier', p)),
    ('Literal', 'NUMBER', lit('NumericLiteral')),
    ('Literal', 'FRACTION', lit('NumericLiteral')),
    ('Literal', 'HEX', lit('NumericLiteral')),
    ('Literal', 'String', lit('StringLiteral')),
    ('Literal', '"NULL"', const(T('Literal.Null'))),
    ('Literal', '"CURRENT_TIME"', const(T('Literal.CurrentTime'))),
    ('Literal', '"CURRENT_DATE"', const(T('Literal.CurrentDate'))),
    ('Literal', '"CURRENT_TIMESTAMP"', const(T('Literal.CurrentTimestamp'))),
    ('Literal', '"DATE" String', lit('DateLiteral')),
    ('Literal', '"TIME" String', lit('TimeLiteral')),
    ('Literal', '"TIMESTAMP" String', lit('TimestampLiteral')),
    ('Name', 'ID', N),
    ('String', 'STRING', lambda s: s[1:-1]),
])
# words: (class, pattern, text of the n-th token of a sentence); later ones win when two match the same text
SQL_LEX = [
    ('STRING', r"'[^'[:cntrl:]]*'", lambda n: ("'text %d'", "' %d \" '", "'--%d_é'", "'x%dY'")[n % 4] % n if n != 6 else "''"),
    ('HEX', r'0x[0-9A-Fa-f]+', lambda n: '0x%dF' % n),
    ('NUMBER', r'[0-9]+(\.[0-9]*)?(E[+\-]?[0-9]+)?', lambda n: ('%d', '%d.5', '%d.', '%dE3', '%d.25E-1')[n % 5] % (10 + n)),
    ('ID', r'[A-Za-z_][A-Za-z0-9_]*', lambda n: ('n%d', 'Col_%d', '_x%d')[n % 3] % n),
    ('FRACTION', r'\.[0-9]+(E[+\-]?[0-9]+)?', lambda n: ('.%d', '.%dE+2')[n % 2] % n),
]

PRIM = ['bool', 'char', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64']


def kind(n, *a):
    return T('Type', kind=T('Kind.' + n, **{str(i): x for i, x in enumerate(a)}))


TYPES = Grammar('Type', [
    ('Type', '"(" ")"', const(kind('Unit'))),
    ('Type', '"string"', const(kind('String'))),
] + [('Type', '"%s"' % p, const(kind('Primitive', T('Primitive.' + p.capitalize())))) for p in PRIM] + [
    ('Type', '"(" Type,+ ")"', lambda l: kind('Tuple', l)),
    ('Type', '"struct" "{" Field,+ ","? "}"', lambda l, _: kind('Struct', l)),
    ('Type', '"enum" "{" Case,+ ","? "}"', lambda l, _: kind('Enum', l)),
    ('Field', 'IDENT ":" Type', lambda n, t: T('Field', label=n, typ=t)),
    ('Case', 'IDENT ":" Type', lambda n, t: T('Case', label=n, typ=t)),
])
TYPES_LEX = [('IDENT', r'[A-Za-z_][A-Za-z0-9_]*', lambda n: ('a%d', 'Label_%d', '_%d')[n % 3] % n)]


def words(g, lex, fold):
    """[(class, pattern, text)] of every terminal of the grammar, the words last"""
    out = list(lex)
    for t in sorted(g.terminals):
        if t.startswith('"'):
            w = t[1:-1]
            p = ''.join('[%s%s]' % (c.lower(), c.upper()) if fold and c.isalpha() else '\\' + c if not c.isalnum() and c != '_' else c for c in w)
            out.append((t, p, lambda n, w=w: w))
    if fold:
        out.append((FREE, '[tT][aA][bB][lL][eE]', lambda n: 'table'))
    return out


FREE = '"TABLE"'                # reserved for statements to come: nothing is required of it


# ------------------------------------------------------------------ what the crate's parser makes of a sentence
class Built:
    """values of the productions, from the MIR of their actions"""

    def __init__(self, P, mod):
        self.P = P
        self.mod = mod
        self.A = Analysis(P)
        self.tmpl = {}
        self.memo = {}
        self.runs = 0
        self.actions = set()

    def run(self, k, kids):
        f = self.P.one('%s::__action%d' % (self.mod, k))
        if f is None:
            raise Imprecise('no %s::__action%d' % (self.mod, k))
        self.actions.add(f.path)
        if kids:
            args = [('str', '')] + [('adt', '()', 0, (I(0), v, I(0))) for v in kids]
        else:
            args = [('str', ''), ('ref', ('h', 9900), ()), ('ref', ('h', 9900), ())]
        self.A.opaque_log.clear()
        self.runs += 1
        g = self.A.run(f.key, args, mem={('h', 9900): I(0)})
        out = [('ret', loadall(self.A, n.state, n.info), n.state) for n in g.terms('ret')] + [('panic', n.info, n.state) for n in g.terms('panic')]
        if self.A.opaque_log:
            raise Imprecise('not understood: %s' % sorted(map(str, self.A.opaque_log))[:3])
        return out

    def template(self, k, n):
        if (k, n) not in self.tmpl:
            r = None
            if n:
                holes = [('y', '$%d' % i, 0) for i in range(n)]
                try:
                    o = self.run(k, holes)
                    if len(o) == 1 and o[0][0] == 'ret' and not o[0][2].facts and plain(o[0][1], holes):
                        r = o[0][1]
                except Exception:
                    r = None
            self.tmpl[k, n] = r
        return self.tmpl[k, n]

    def __call__(self, p, kids):
        k = p['action']
        kids = tuple(kids)
        if any(x == PANIC for x in kids):
            return PANIC
        t = self.template(k, len(kids))
        if t is not None:
            return fill(t, kids)
        m = (k, kids)
        if m not in self.memo:
            o = self.run(k, kids)
            if len(o) != 1:
                raise Imprecise('action %d of %s: %d outcomes' % (k, p['lhs'], len(o)))
            if o[0][0] == 'panic':
                self.memo[m] = PANIC
                self.panic = (p['lhs'], o[0][1])
            else:
                self.memo[m] = o[0][1]
        return self.memo[m]


PANIC = ('panic',)


def plain(v, holes):
    if v in holes:
        return True
    if v[0] in ('i', 'b', 'str'):
        return True
    if v[0] == 'adt':
        return all(plain(x, holes) for x in v[3])
    if v[0] == 'box':
        return plain(v[1], holes)
    if v[0] == 'arr':
        return all(plain(x, holes) for x in v[1])
    return False


def fill(t, kids):
    if t[0] == 'y':
        return kids[int(t[1][1:])]
    if t[0] == 'adt':
        return ('adt', t[1], t[2], tuple(fill(x, kids) for x in t[3]))
    if t[0] == 'box':
        return ('box', fill(t[1], kids))
    if t[0] == 'arr':
        return ('arr', tuple(fill(x, kids) for x in t[1]))
    return t


def plainterm(P, v):
    """the tree a value is, by the names of its types and fields"""
    if v[0] == 'box':
        return plainterm(P, v[1])
    if v[0] == 'str':
        return v[1]
    if v[0] == 'ref' and v[1][0] == 'k' and not v[2]:
        return plainterm(P, v[1][1])
    if v[0] == 'arr':
        return tuple(plainterm(P, x) for x in v[1])
    if v[0] == 'adt':
        if v[1] == OPT:
            return None if not v[3] else ('Some', plainterm(P, v[3][0]))
        n = v[1].split('::')[-1]
        ad = P.adts.get(v[1])
        if ad is None:
            raise Imprecise('value of type ' + v[1])
        if n == 'Name' and len(v[3]) == 1:
            return ('name', plainterm(P, v[3][0]))
        vr = ad['variants'][v[2]]
        kw = {f['name']: plainterm(P, x) for f, x in zip(vr['fields'], v[3])}
        return T(n + '.' + vr['name'] if ad['kind'] == 'enum' else n, **kw)
    raise Imprecise('value %s' % pp(P, v)[:200])


def show(t):
    if t is None:
        return 'none'
    if isinstance(t, str):
        return repr(t)
    if t and t[0] == 'Some':
        return show(t[1])
    if t and t[0] == 'name' and len(t) == 2:
        return t[1]
    if len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in t[1]):
        return t[0].split('.')[-1] + ('(' + ', '.join(('%s ' % k if not k.isdigit() else '') + show(v) for k, v in t[1]) + ')' if t[1] else '')
    return '[' + ', '.join(map(show, t)) + ']'


def isnode(t):
    return isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], str) and t[0] not in ('name', 'Some') and isinstance(t[1], tuple)


def differ(a, b, at=''):
    """where two trees first differ: (place, expected, found)"""
    if a == b:
        return None
    if isnode(a) and isnode(b) and a[0] == b[0]:
        da, db = dict(a[1]), dict(b[1])
        for k in sorted(set(da) | set(db)):
            if k not in da or k not in db:
                return '%s.%s' % (a[0], k), da.get(k), db.get(k)
            r = differ(da[k], db[k], '%s.%s' % (a[0], k))
            if r:
                return r
    if isinstance(a, tuple) and isinstance(b, tuple) and not isnode(a) and not isnode(b) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return differ(x, y, at)
    return at, a, b


class Lang:
    """one language: the reference, and the parser generated for it"""

    def __init__(self, ctx, g, lex, fold, file, start, mod):
        self.P = ctx.P
        self.g = g
        self.words = words(g, lex, fold)
        text = open(os.path.join(ctx.facts, file)).read()
        self.lr = lr.Parser(text, start)
        self.pats = lr.patterns(text)
        self.spec = lexre.Lexer([p for _, p, _ in self.words] + [r'\s+'])
        self.impl = lexre.Lexer([p for p, _ in self.pats])
        self.cls = {t: (k, f) for k, (t, _, f) in enumerate(self.words)}
        # the column of the tables that a class of tokens ends up in
        self.column = {}
        self.names = {}
        for t, _, f in self.words:
            cs = []
            for n in range(12):
                k = self.impl.classify(f(n))
                cs.append(None if k is None or self.pats[k][1] else self.lr.column.get(k))
            # what the lexer comparison finds different is reported there
            cs = [x for x in cs if x is not None] or cs
            self.column[t] = max(set(cs), key=lambda x: (cs.count(x), -(x or 0)))
            self.names.setdefault(self.column[t], t)
        self.built = Built(ctx.P, mod)

    def text(self, toks):
        return ' '.join(x for _, x in toks)

    def tokens(self, s):
        return tuple((t, self.cls[t][1](n)) for n, t in enumerate(s))

    def shiftable(self, stack):
        """the columns the machine goes on with here; len(columns) stands for the end"""
        L = self.lr

        def go(s):
            out = set()
            red = {}
            for c in range(L.cols + 1):
                a = L.act(s[0], None if c == L.cols else c)
                if a > 0:
                    out.add(c)
                elif a < 0:
                    red.setdefault(-(a + 1), set()).add(c)
            for r, cs in red.items():
                if r == L.accept:
                    out |= cs
                    continue
                p = L.reduce[r]
                t = s
                for _ in p['rhs']:
                    t = t[2]
                out |= cs & go((L.goto_of(t[0], p['nt']), None, t))
            return out
        return go(stack)

    def productions(self):
        """the productions of the generated parser over the classes of the reference; None where a terminal has no counterpart"""
        ren = {c: t for t, c in self.column.items() if isinstance(c, int)}
        cols = {n: i for i, n in enumerate(self.lr.terminals)}
        lhs = {p['lhs'] for p in self.lr.reduce.values()}
        out = []
        for k in sorted(self.lr.reduce):
            p = self.lr.reduce[k]
            r = []
            for x in p['rhs']:
                if x in lhs:
                    r.append(('N', x))
                elif x in cols:
                    r.append(ren.get(cols[x], '?' + x))
                else:
                    raise lr.Unreadable('symbol ' + x)
            out.append((('N', p['lhs']), tuple(r)))
        return out, ('N', self.lr.reduce[self.lr.accept]['lhs'])


def lexer(R, L, name):
    """every string is a token of the same class for both"""
    nm = name + ': tokens'
    with Guard(R, nm):
        used = {x for p in L.lr.reduce.values() for x in p['rhs']}
        cols = {n: i for i, n in enumerate(L.lr.terminals)}
        live = {cols[x] for x in used if x in cols}
        # terminals of productions that are never reached from the start
        seen = {L.lr.reduce[L.lr.accept]['lhs']}
        while True:
            more = {x for p in L.lr.reduce.values() if p['lhs'] in seen for x in p['rhs']} - seen
            if not more:
                break
            seen |= more
        live = {c for x, c in cols.items() if x in seen}
        skipk = len(L.words)
        n = 0
        bad = 0
        for p, q, w in lexre.product(L.spec, L.impl, skip=(0x17f, 0x212a)):
            n += 1
            if not w:
                continue
            a, b = L.spec.accepts(p), L.impl.accepts(q)
            want = None if a is None else 'space' if a == skipk else L.column[L.words[a][0]]
            got = None if b is None else 'space' if L.pats[b][1] else L.lr.column.get(b)
            if isinstance(got, int) and got not in live:
                # a token no sentence contains: the text is refused either way, unless it hides a shorter token
                if want is None and not any(L.spec.classify(w[:k]) is not None for k in range(1, len(w))):
                    got = None
            if a is not None and a < skipk and L.words[a][0] == FREE:
                continue
            if want != got:
                bad += 1
                if bad <= 3:
                    c = L.words[a][0] if a is not None and a < skipk else 'white space' if a is not None else 'no token'
                    d = 'no token' if got is None else 'white space' if got == 'space' else L.names.get(got, L.lr.terminals[got])
                    R.bad('token:%s:%s' % (c, d), 'the text %r is %s, but the lexer of the %s parser reads it as %s' % (w, c, name, d), name + ' lexer', ob=nm)
        R.count('lexer_states', n)


def parse_job(R, L, name, sents, known):
    E_ = Earley(L.g)
    B_ = L.built
    inv = {}
    for t, c in L.column.items():
        inv.setdefault(c, t)
    checked = set()
    nsets = nparse = 0
    memo = {(): (E_.root, L.lr.start())}

    def at(toks):
        """reference state and stack of the machine behind a prefix"""
        n = len(toks)
        while toks[:n] not in memo:
            n -= 1
        e, s = memo[toks[:n]]
        for k in range(n, len(toks)):
            if e is not None:
                e = E_.step(e, toks[k][0])
            if s is not None:
                c = L.column[toks[k][0]]
                s = L.lr.shift(s, c, ('ref', ('k', ('str', toks[k][1])), ()), B_) if isinstance(c, int) else None
            memo[toks[:k + 1]] = (e, s)
        return e, s
    for sent in sents:
        toks = L.tokens(sent)
        txt = L.text(toks)
        nm = '%s: %s' % (name, ' '.join(t.strip('"') for t in sent))
        with Guard(R, nm):
            ok = True
            for k in range(len(toks) + 1):
                pre = toks[:k]
                e, s = at(pre)
                if e is None or s is None:
                    break
                if pre in checked:
                    continue
                checked.add(pre)
                nsets += 1
                want = {L.column[t] for t in e['next']}
                got = L.shiftable(s)
                if e['ok']:
                    want = want | {L.lr.cols}
                for c in sorted((x for x in want ^ got if isinstance(x, int))):
                    t = 'the end' if c == L.lr.cols else inv.get(c, L.lr.terminals[c])
                    prev = pre[-1][0] if pre else 'start'
                    if c in want:
                        R.bad('refused:%s:%s' % (prev, t), 'the %s parser refuses %s behind "%s"' % (name, t, L.text(pre)), name + ' grammar', ob=nm)
                    else:
                        R.bad('accepted:%s:%s' % (prev, t), 'the %s parser accepts %s behind "%s", where the language has no such text' % (name, t, L.text(pre)), name + ' grammar', ob=nm)
            e, s = at(toks)
            if e is None or not e['ok'] or s is None:
                continue            # reported above, or not a sentence
            f = L.lr.finish(s, B_)
            if f is None:
                continue
            nparse += 1
            if f[1] == PANIC:
                R.bad('panic:%s' % B_.panic[0], 'the %s parser panics on "%s" (%s)' % (name, txt, B_.panic[1][0] if B_.panic[1] else ''), name + ' grammar', ob=nm)
                continue
            d = E_.tree(toks)
            if d is None:
                raise Imprecise('no derivation')
            a, b = E_.value(d), plainterm(L.P, f[1])
            r = differ(a, b)
            if r:
                R.bad('tree:%s' % r[0], 'the tree of "%s" has %s at %s, it denotes %s' % (txt, show(r[2])[:120], r[0], show(r[1])[:120]), name + ' grammar', ob=nm)
    R.count('prefixes_compared', nsets)
    R.count('sentences_compared', nparse)
    R.count('action_evaluations', B_.runs)
    R.seen(B_.A)


def language(ctx, R, name, *args):
    with Guard(R, name + ' parser'):
        try:
            L = Lang(ctx, *args)
        except (lr.Unreadable, lexre.Unsupported, OSError, ValueError) as e:
            R.undecided(name, 'the generated parser cannot be read: %s' % e)
            return
        lexer(R, L, name)
        for t, c in sorted(L.column.items()):
            if t == FREE:
                continue
            with Guard(R, '%s: column of %s' % (name, t)):
                if c is None:
                    R.bad('token:%s' % t, 'the %s lexer has no token %s' % (name, t), name + ' lexer')
        deep = ctx.tier == 'thorough'
        spec = cover([(l, r) for l, r, _, _ in L.g.prods], L.g.start, lambda x: x in L.g.by, 6000 if deep else 400, long=1100 if deep else 300)
        prods, start = L.productions()
        impl = cover(prods, start, lambda x: isinstance(x, tuple), 6000 if deep else 400, seed=2)
        sents = dict.fromkeys(spec)
        for s in impl:
            if all(t in L.column for t in s):
                sents.setdefault(s)
        sents = sorted(sents)
        R.count('productions', len(prods))
        n = 8
        size = (len(sents) + n - 1) // n
        parallel(R, [sents[k:k + size] for k in range(0, len(sents), size)], lambda R, c: parse_job(R, L, name, c, None))


def c23(ctx, R):
    """A SQL text is read as the tree it denotes: keywords, operators, precedence, every clause, name and literal; anything else is refused. The LR tables, the
    productions and the lexer patterns are read from the parser the build generates; each production's value is what the MIR of its action function returns."""
    if anchor(R, ctx.P, 'crate::sql::parser::__parse__SqlStatement::SqlStatementParser::parse') is None:
        return
    language(ctx, R, 'SQL', SQL, SQL_LEX, True, 'src+sql+parser.rs', 'SqlStatement', 'crate::sql::parser')


def c32(ctx, R):
    """A type declaration is read as the type it denotes."""
    if anchor(R, ctx.P, 'crate::core::types::parser::__parse__Type::TypeParser::parse') is None:
        return
    language(ctx, R, 'type', TYPES, TYPES_LEX, False, 'src+core+types+parser.rs', 'Type', 'crate::core::types::parser')
