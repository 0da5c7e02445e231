"""JSON decoder: a document automaton generated from a type runs as an observer over the
token stream (Tokenizer::new / next / value and its token field are replaced by an arbitrary
token stream) in product with the abstract interpretation of JsonDecoder::new / parse.

Types are analysed kind by kind; struct, tuple and enum at bounded arity with an arbitrary
type for every component, whose own decoding is the induction hypothesis.
"""
from .common import *
from .enc import TypeInfo, resolve
import sys

MC = ('m', 'dec')
TOKEN = 'crate::core::json::tokenizer::Token'
TKZ = 'crate::core::json::tokenizer::Tokenizer'
DEC = 'crate::core::json::decoder::JsonDecoder'
IDS = 'crate::core::data_source::IntermediateDataSource'
PATH = 'crate::core::types::Path'
LABELS = ['ab', 'abc', 'Ab', 'd']
OLDMAP = ('y', 'oldmap', 0)


class Spec:
    """document grammar of one kind: state -> alternatives / nested value / end"""

    def __init__(self, kind, prim, n, prefix, D):
        self.kind, self.prim, self.n, self.prefix, self.D = kind, prim, n, prefix, D
        self.labels = LABELS[:n] if n <= len(LABELS) else ['f%d' % i for i in range(n)]
        self.ordered = n > len(LABELS)
        self.seq = None
        if kind == 'Tuple':
            s = [('tok', 'BeginArray')]
            for i in range(n):
                s += ([('tok', 'Comma')] if i else []) + [('sub', i)]
            self.seq = s + [('tok', 'EndArray'), ('end',)]
        elif kind == 'Enum':
            self.seq = [('tok', 'BeginObject'), ('str', 'kind'), ('tok', 'Colon'), ('case',), ('tok', 'Comma'), ('str', 'value'),
                        ('tok', 'Colon'), ('sub', None), ('tok', 'EndObject'), ('end',)]
        elif kind != 'Struct':
            self.seq = [('val',), ('end',)]

    def start(self):
        return ('s', 0, None) if self.seq else ('f', (), 'open', None)

    def rest(self, done):
        r = [i for i in range(self.n) if i not in done]
        return r[:1] if self.ordered else r

    def path(self, i=None):
        p = self.prefix if i is None else mk_push(self.prefix, I(i))
        return ('adt', PATH, 0, (p,))

    def alts(self, ph, tok):
        """[(token name, condition on its value or None, next phase, stored (path, value) or None)]"""
        v = ('t', 'tokval', tok)
        D = self.D
        if ph[0] == 'f':
            _, done, at, cur = ph
            if at == 'open':
                return [('BeginObject', None, ('f', (), 'first', None), None)]
            r = self.rest(done)
            if at == 'first' and not r:
                return [('EndObject', None, ('e',), None)]
            if at in ('first', 'label'):
                return [('String', mk_eqv(v, ('str', self.labels[i])), ('f', done, 'colon', i), None) for i in r]
            if at == 'colon':
                return [('Colon', None, ('f', done, 'sub', cur), None)]
            if at == 'sep':
                if not r:
                    return [('EndObject', None, ('e',), None)]
                return [('Comma', None, ('f', done, 'label', None), None)]
            return None
        if ph[0] == 'e':
            return []
        _, pc, cur = ph
        op = self.seq[pc]
        nx = ('s', pc + 1, cur)
        if op[0] == 'tok':
            return [(op[1], None, nx, None)]
        if op[0] == 'str':
            return [('String', mk_eqv(v, ('str', op[1])), nx, None)]
        if op[0] == 'case':
            return [('String', mk_eqv(v, ('str', self.labels[i])), ('s', pc + 1, i), (self.path(), D.value('CaseTag', I(i)))) for i in range(self.n)]
        if op[0] == 'val':
            k, p = self.kind, self.prim
            if k == 'Unit':
                return [('Null', None, nx, None)]
            if k == 'String':
                return [('String', None, nx, (self.path(), D.value('String', v)))]
            if p == 'Bool':
                return [(n, None, nx, (self.path(), D.prim('Bool', B(b)))) for n, b in (('True', True), ('False', False))]
            if p == 'Char':
                q = models.chars_of(v)
                return [('String', mk_eq0(ladd(mk_len(q), I(-1))), nx, (self.path(), D.prim('Char', mk_elem(q, I(0)))))]
            r = D.prim(p, ('t', 'parse', p.lower(), v))
            return [(n, ('t', 'parses', p.lower(), v), nx, (self.path(), r)) for n in ('Number', 'String')]
        return None

    def sub(self, ph):
        """(component index, phase after it) when a nested value is due"""
        if ph[0] == 'f' and ph[2] == 'sub':
            return ph[3], ('f', tuple(sorted(ph[1] + (ph[3],))), 'sep', None)
        if ph[0] == 's' and self.seq[ph[1]][0] == 'sub':
            i = self.seq[ph[1]][1]
            return (ph[2] if i is None else i), ('s', ph[1] + 1, ph[2])
        return None

    def done(self, ph):
        return ph[0] == 'e' or ph[0] == 's' and self.seq[ph[1]][0] == 'end'

    def text(self, ph):
        if ph[0] == 'f':
            return {'open': "'{'", 'first': 'a field label or the end', 'label': 'a field label', 'colon': "':'", 'sub': 'a field value',
                    'sep': "',' or '}'"}[ph[2]]
        if ph[0] == 'e':
            return 'the end'
        op = self.seq[ph[1]]
        return {'tok': op[1] if len(op) > 1 else '', 'str': repr(op[1]) if len(op) > 1 else '', 'case': 'a case label', 'val': 'the value',
                'sub': 'a component', 'end': 'the end'}[op[0]]


class Dec(Analysis):
    def __init__(self, prog, TI, spec_of, root):
        h = {TKZ + "::<'a>::new": self.h_new, TKZ + "::<'a>::next": self.h_next, TKZ + "::<'a>::value": self.h_value,
             'core::str::<impl str>::parse': self.h_parse}
        for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64', 'char', 'bool'):
            for p in ('core::num::<impl core::str::traits::FromStr for %s>::from_str' % t, '<%s as core::str::traits::FromStr>::from_str' % t,
                      'core::num::imp::dec2flt::<impl core::str::traits::FromStr for %s>::from_str' % t,
                      'core::num::dec2flt::<impl core::str::traits::FromStr for %s>::from_str' % t):
                h[p] = (lambda t: lambda A, st, c, w: self.parsed(st, c, t))(t)
        h['core::str::traits::FromStr::from_str'] = self.h_from_str
        super().__init__(prog, h, unroll=200)
        self.TI = TI
        self.root = root
        P = prog
        self.toks = [v['name'] for v in P.adts[TOKEN]['variants']]
        self.tokf = field(P, TKZ, 'token')
        self.spec = spec_of(self)
        self.phases = []
        self.on_attempt()

    def on_attempt(self):
        self.found = []
        self.nested = {}
        self.subs = 0
        self.accepts = 0
        self.rejects = 0

    # ---------------------------------------------------------- values
    def value(self, name, x):
        V = 'crate::core::value::Value'
        return ('adt', V, variant(self.prog, V, name), (x,))

    def prim(self, name, x):
        V = 'crate::core::value::PrimitiveValue'
        return self.value('Primitive', ('adt', V, variant(self.prog, V, name), (x,)))

    # ---------------------------------------------------------- monitor
    def ph(self, t):
        if t not in self.phases:
            self.phases.append(t)
        return self.phases.index(t)

    # fields: current token symbol, stored chain
    def init(self, tok):
        return {MC: ('adt', '$dec', self.ph(self.spec.start()), (tok, ('arr', ())))}

    def get(self, st):
        v = st.mem[MC]
        return self.phases[v[2]], v[3][0], v[3][1]

    def put(self, st, ph=None, tok=None, want=None):
        v = st.mem[MC]
        st.mem[MC] = ('adt', '$dec', v[2] if ph is None else self.ph(ph), (v[3][0] if tok is None else tok, v[3][1] if want is None else want))
        return st

    def bad(self, cat, key, msg, site=None):
        self.found.append(('bad', cat, key, msg, site))

    def unk(self, cat, key, msg, site=None):
        self.found.append(('undecided', cat, key, msg, site))

    def tok(self):
        t = self.fresh('tok')
        d = ('t', 'discr', t)
        self.TYD[d] = tuple((i, i) for i, n in enumerate(self.toks) if n != 'Error')
        self.TYD[d] = is_norm(list(self.TYD[d]))
        ti = [i for i, t2 in enumerate(self.prog.types) if t2['k'] == 'adt' and t2['adt'] == TOKEN][0]
        self.TY[t] = ti
        return t

    def tdis(self, t):
        return ('t', 'discr', t)

    # ---------------------------------------------------------- token stream
    def h_new(self, A, st, c, w):
        e = st.copy()
        self.put(e, ('failed',), want=('arr', ()))
        t = self.tok()
        self.put(st, tok=t)
        self.steer(st, t)
        fs = []
        for i, f in enumerate(self.prog.adts[TKZ]['variants'][0]['fields']):
            fs.append(t if i == self.tokf else ('y', 'tk%d' % i, 0))
        return [(st, ok(('adt', TKZ, 0, tuple(fs)))), (e, err(('y', 'tokerr', 0)))]

    def here(self, st, ref):
        """the tokenizer the reference leads to; its token must be the stream's current one"""
        v = load(self, st, ref)
        _, tok, _ = self.get(st)
        return v[0] == 'adt' and v[1] == TKZ and v[3][self.tokf] == tok

    def h_value(self, A, st, c, w):
        if not self.here(st, c.args[0]):
            self.unk('shape', 'tokenizer', 'value() of an unknown tokenizer', c.site)
            return []
        _, tok, _ = self.get(st)
        v = ('t', 'tokval', tok)
        self.settype(v, self.strty())
        return [(st, ('ref', ('k', v), ()))]

    def strty(self):
        for i, t in enumerate(self.prog.types):
            if t['k'] == 'str':
                return i
        return None

    def h_next(self, A, st, c, w):
        if not self.here(st, c.args[0]):
            self.unk('shape', 'tokenizer', 'next() of an unknown tokenizer', c.site)
            return []
        ph, tok, want = self.get(st)
        out = []
        for s in self.consume(st, c.site):
            e = s.copy()
            self.put(e, ('failed',), want=('arr', ()))
            t = self.tok()
            v = load(self, s, c.args[0])
            models.store(self, s, c.args[0], ('adt', TKZ, 0, tuple(t if i == self.tokf else x for i, x in enumerate(v[3]))))
            self.put(s, tok=t)
            s.facts = {k: r for k, r in s.facts.items() if not has_free(k, tok)}
            if self.steer(s, t):
                out.append((s, ok()))
            out.append((e, err(('y', 'tokerr', 0))))
        return out

    def steer(self, st, t):
        """large structs: only the document in declaration order is followed"""
        ph = self.get(st)[0]
        if not self.spec.ordered or ph[0] in ('dead', 'failed'):
            return True
        alts = self.spec.alts(ph, t)
        if not alts:
            return True
        name, cond, _, _ = alts[0]
        i = self.toks.index(name)
        return self.addfact(st, self.tdis(t), ((i, i),)) and (cond is None or self.assume(st, cond, True))

    def consume(self, st, site):
        ph, tok, want = self.get(st)
        if ph[0] in ('dead', 'failed'):
            return [st]
        out = []
        alts = self.spec.alts(ph, tok)
        if alts is None:
            # a component is due but the token is taken directly
            self.bad('shape', 'component:%s' % self.phkey(ph), 'a token is read where %s is due' % self.spec.text(ph), site)
            return []
        rest = [st]
        for name, cond, nx, eff in alts:
            nrest = []
            for r in rest:
                t, f = models.inset(self, r, self.tdis(tok), ((self.toks.index(name),) * 2,))
                if t and cond is not None:
                    t, f2 = split(self, t, cond)
                    if f2:
                        nrest.append(f2)
                if f:
                    nrest.append(f)
                if t:
                    self.put(t, nx)
                    if eff:
                        self.put(t, want=('arr', want[1] + (('adt', '()', 0, eff),)))
                    out.append(t)
            rest = nrest
        for r in rest:
            out.append(self.put(r, ('dead', self.phkey(ph), self.spec.text(ph))))
        return out

    def phkey(self, ph):
        if ph[0] == 'f':
            return '%s-%s' % (ph[2], ','.join(map(str, ph[1])))
        return '-'.join(str(x) for x in ph[:2])

    # ---------------------------------------------------------- numbers
    def parsed(self, st, c, t):
        v = snap(self, st, loadall(self, st, c.args[0]))
        if v[0] != 't' or v[1] != 'tokval':
            self.unk('shape', 'from_str', 'number text is not the text of the token: %s' % pp(self.prog, v), c.site)
        if t == 'char':
            cond = mk_eq0(ladd(mk_len(models.chars_of(v)), I(-1)))
            r = mk_elem(models.chars_of(v), I(0))
        else:
            cond = ('t', 'parses', t, v)
            r = ('t', 'parse', t, v)
            self.settype(r, self.prog.tyidx.get(t))
        a, b = split(self, st, cond)
        out = []
        if a:
            out.append((a, ok(r)))
        if b:
            out.append((b, err(('y', 'parseerr', 0))))
        return out

    def h_parse(self, A, st, c, w):
        return self.parsed(st, c, self.prog.tstr(c.cal['args'][-1]))

    def h_from_str(self, A, st, c, w):
        return self.parsed(st, c, self.prog.tstr(c.cal['args'][0]))

    # ---------------------------------------------------------- nested values
    def find_rec(self, args):
        for a in args:
            for x in subterms(a):
                if isinstance(x, tuple) and len(x) > 3 and x[0] == 't' and x[1] == 'rec' and x[2] in self.prog.funcs:
                    r = self.path_typ(x[2], x[3:])
                    if r:
                        return (x[2],) + r
        return None

    def path_typ(self, key, args):
        F = self.prog.funcs[key]
        path = typ = None
        for i, a in enumerate(args):
            t = self.prog.types[F.locals[i + 1]]
            while t['k'] == 'ref':
                t = self.prog.types[t['t']]
            if t['k'] == 'adt' and t['adt'] == PATH:
                path = a
            elif t['k'] == 'adt' and t['adt'] == 'crate::core::types::Type':
                typ = a
        return None if path is None or typ is None else (path, typ)

    def opaque(self, st, c, work, fv=None):
        if c.dty is not None and self.prog.tstr(c.dty).startswith('core::result::Result<()'):
            args = tuple(plain(self.snap(st, a)) for a in c.args)
            r = self.find_rec(args)
            if r is not None:
                self.nested.setdefault(r[0], set()).add(c.path)
                return self.nested_event(st, c, work, r)
        if any(self.ours(st, a) for a in c.args):
            self.unk('shape', 'opaque:%s' % c.path, 'the token stream or the result is handed to %s' % c.path, c.site)
            return None
        super().opaque(st, c, work, fv)

    def ours(self, st, a):
        if a[0] != 'ref':
            return False
        try:
            v = load(self, st, a)
        except Imprecise:
            return False
        return v[0] == 'adt' and v[1] in (TKZ, IDS)

    def recursion(self, st, c, key, args, work):
        F = self.prog.funcs[key]
        if self.prog.tstr(F.locals[0]).startswith('core::result::Result<()'):
            sn = tuple(plain(self.snap(st, a)) for a in args)
            pt = self.path_typ(key, sn)
            r = (key,) + pt if pt else self.find_rec(sn)
            if r is not None:
                self.nested.setdefault(r[0], set()).add(c.path if not pt else None)
                return self.nested_event(st, c, work, r)
        super().recursion(st, c, key, args, work)

    def nested_event(self, st, c, work, r):
        key, path, typ = r
        ph, tok, want = self.get(st)
        self.subs += 1
        tk = [a for a in c.args if a[0] == 'ref' and self.ours(st, a) and load(self, st, a)[1] == TKZ]
        ds = [a for a in c.args if a[0] == 'ref' and self.ours(st, a) and load(self, st, a)[1] == IDS]
        if len(tk) != 1 or len(ds) != 1 or not self.here(st, tk[0]):
            self.unk('shape', 'component-args', 'arguments of a nested decode not understood', c.site)
            return
        e = st.copy()
        self.put(e, ('failed',), want=('arr', ()))
        if ph[0] not in ('dead', 'failed'):
            d = self.spec.sub(ph)
            if d is None:
                self.bad('shape', 'extra-component:%s' % self.phkey(ph), 'a nested value is read where %s is expected' % self.spec.text(ph), c.site)
                return
            i, nx = d
            wp, wt = self.spec.path(i), ('y', 'typ%d' % i, 0)
            for what, got, exp in (('path', plain(path), plain(wp)), ('type', plain(typ), plain(wt))):
                if got == exp or what == 'type' and got == ('t', '*', exp):
                    continue
                if self.simple(got):
                    self.bad('shape', 'component-' + what, 'the %s of component %d is %s instead of %s' % (what, i, pp(self.prog, got), pp(self.prog, exp)), c.site)
                else:
                    self.unk('shape', 'component-' + what, 'component %s not understood: %s' % (what, pp(self.prog, got)), c.site)
                return
            self.put(st, nx, want=('arr', want[1] + (('adt', '()', 0, (wp, ('y', 'sub%d' % i, 0))),)))
            self.addmap(st, ds[0], path, ('y', 'sub%d' % i, 0))
        t = self.tok()
        v = load(self, st, tk[0])
        models.store(self, st, tk[0], ('adt', TKZ, 0, tuple(t if j == self.tokf else x for j, x in enumerate(v[3]))))
        self.put(st, tok=t)
        st.facts = {k: r2 for k, r2 in st.facts.items() if not has_free(k, tok)}
        self.steer(st, t)
        self.finish(st, c, ok(), work)
        self.finish(e, c, err(('y', 'suberr', 0)), work)

    def simple(self, x):
        return not contains(x, lambda y: isinstance(y, tuple) and y and (y[0] in ('comp', 'sum', 'o', 'undef') or
                            y[0] == 't' and y[1] not in ('push', 'concat', '*', 'tokval') or
                            y[0] == 'y' and len(y) == 3 and str(y[1]).startswith(('top', 'acc', 'havoc', 'r:'))))

    def addmap(self, st, ref, path, val):
        v = load(self, st, ref)
        fs = list(v[3])
        for i, x in enumerate(fs):
            if self.ismap(x):
                fs[i] = ('t', 'minsert', x, path, val)
                models.store(self, st, ref, ('adt', v[1], v[2], tuple(fs)))
                return
        self.unk('shape', 'result', 'the decoding result holds no map')

    def ismap(self, x):
        return x == models.MAP0 or x == OLDMAP or x[0] == 't' and x[1] in ('minsert', 'msub')

    # ---------------------------------------------------------- verdicts
    def finish_run(self, g, RC):
        spec = self.spec
        for n in g.terms('ret'):
            st = n.state
            ph, tok, want = self.get(st)
            v = n.info
            isok = v[0] == 'adt' and v[1] == RES and v[2] == 0
            iserr = v[0] == 'adt' and v[1] == RES and v[2] == 1
            m = [x for x in st.mem[RC][3] if self.ismap(x)] if st.mem[RC][0] == 'adt' else []
            if len(m) != 1:
                self.unk('shape', 'result', 'the decoding result is not understood')
                continue
            chain = []
            b = m[0]
            part = False
            while b[0] == 't' and b[1] in ('minsert', 'msub'):
                if b[1] == 'msub':
                    part = True
                else:
                    chain.append((plain(snap(self, st, b[3])), plain(snap(self, st, b[4]))))
                b = b[2]
            if b not in (models.MAP0, OLDMAP):
                self.unk('clear', 'result', 'the origin of the decoding result is not understood')
                continue
            if part and (chain or not (self.root and b == OLDMAP)):
                self.unk('shape', 'result', 'entries of the decoding result are removed again')
                if not (self.root and b == OLDMAP):
                    continue
            if self.root and b == OLDMAP:
                self.bad('clear', 'stale:%s' % ('ok' if isok else 'error'), 'parse returns %s with the values of an earlier document still in the result' % ('Ok' if isok else 'an error'))
            elif not self.root and b != OLDMAP:
                self.bad('shape', 'cleared', 'a nested value drops the values stored before it')
            if not isok and not iserr:
                if ph[0] in ('failed',):
                    self.unk('shape', 'result-value', 'result value not understood: %s' % pp(self.prog, v))
                continue
            if ph[0] == 'failed':
                if isok:
                    self.bad('shape', 'lost-error', 'an error of the tokenizer or of a nested value is dropped: Ok is returned')
                continue
            if ph[0] == 'dead':
                if isok:
                    self.bad('shape', 'accepts:%s' % ph[1], 'accepts a document that is not of the type (something else than %s)' % ph[2])
                else:
                    self.rejects += 1
                continue
            if iserr:
                self.rejects += 1
                if self.excluded(st, ph, tok) is False:
                    self.bad('shape', 'rejects:%s' % self.phkey(ph), 'rejects a document of the type at %s' % spec.text(ph))
                continue
            # Ok
            final = [st]
            if self.root or not spec.done(ph):
                pass
            for s in final:
                ph = self.get(s)[0]
                if ph[0] == 'dead':
                    self.bad('shape', 'accepts:%s' % ph[1], 'accepts a document that is not of the type (something else than %s)' % ph[2])
                    continue
                if not spec.done(ph):
                    self.bad('shape', 'truncated:%s' % self.phkey(ph), 'accepts a document that ends before %s' % spec.text(ph))
                    continue
                if self.root:
                    r = self.rng(s, self.tdis(tok))
                    if r != ((self.toks.index('Eof'),) * 2,):
                        self.bad('shape', 'trailing', 'accepts a document followed by further tokens')
                        continue
                self.accepts += 1
                exp = [(plain(x[3][0]), plain(x[3][1])) for x in self.get(s)[2][1]]
                seen = {}
                for p, x in reversed(chain):
                    seen[p] = x
                for p, x in exp:
                    if p not in seen:
                        odd = [q for q in seen if not self.simple(q)]
                        (self.unk if odd else self.bad)('shape', 'not-stored', 'a value of an accepted document is not stored under its path %s' % pp(self.prog, p))
                        break
                    if seen[p] != x:
                        known = self.simple(seen[p])
                        (self.bad if known else self.unk)('shape', 'stored-value', 'stores %s instead of %s' % (pp(self.prog, seen[p]), pp(self.prog, x)))
                        break
                else:
                    extra = [p for p in seen if p not in [q for q, _ in exp]]
                    if extra:
                        (self.bad if self.simple(extra[0]) else self.unk)('shape', 'extra', 'stores a value that is not part of the document under %s' % pp(self.prog, extra[0]))

    def excluded(self, st, ph, tok):
        """True when the current token cannot continue a document of the type; False when it can; None unknown"""
        if self.spec.done(ph):
            if not self.root:
                return False
            r = self.rng(st, self.tdis(tok))
            return not is_and(r, ((self.toks.index('Eof'),) * 2,))
        alts = self.spec.alts(ph, tok)
        if alts is None:
            return False
        res = True
        for name, cond, nx, eff in alts:
            s = st.copy()
            i = self.toks.index(name)
            if not is_and(self.rng(s, self.tdis(tok)), ((i, i),)):
                continue
            if not self.addfact(s, self.tdis(tok), ((i, i),)):
                continue
            if cond is not None:
                if self.decide(s, cond) is False:
                    continue
            return False
        return res


def configs(TI):
    yield 'Unit', None, 0
    yield 'String', None, 0
    for p in TI.prims:
        yield 'Primitive', p, 0
    for k, ns in (('Tuple', (0, 1, 2, 3)), ('Enum', (1, 2, 3)), ('Struct', (0, 1, 2, 3, 64, 65))):
        for n in ns:
            yield k, None, n


def mktype(P, TI, kind, prim, n, labels):
    T, K = 'crate::core::types::Type', 'crate::core::types::Kind'

    def adt(name, var, known):
        return ('adt', name, var, tuple(known.get(f['name'], ('y', 'f:' + f['name'], 0)) for f in P.adts[name]['variants'][var]['fields']))
    if kind == 'Primitive':
        pr = 'crate::core::types::Primitive'
        args = (('adt', pr, variant(P, pr, prim), ()),)
    elif kind == 'Tuple':
        args = (('arr', tuple(('y', 'typ%d' % i, 0) for i in range(n))),)
    elif kind in ('Struct', 'Enum'):
        e = TI._elem_adt(K, kind)
        args = (('arr', tuple(adt(e, 0, {'label': ('str', labels[i]), 'typ': ('y', 'typ%d' % i, 0)}) for i in range(n))),)
    else:
        args = ()
    return adt(T, 0, {'kind': ('adt', K, TI.v[kind], args)})


def analyse(ctx, R, cats):
    P = ctx.P
    TI = TypeInfo(P)
    new = anchor(R, P, DEC + '::new')
    parse = anchor(R, P, DEC + '::parse')
    dsn = anchor(R, P, IDS + '::new')
    for p in ("::<'a>::new", "::<'a>::next", "::<'a>::value"):
        anchor(R, P, TKZ + p)
    if not (new and parse and dsn):
        return
    A = Analysis(P)
    g = A.run(dsn.key, [])
    ds = [n.info for n in g.terms('ret')]
    if len(ds) != 1 or ds[0][0] != 'adt' or [x for x in ds[0][3] if x == models.MAP0] == []:
        R.undecided('result', 'the empty decoding result is not understood')
        return
    ds = ('adt', ds[0][1], ds[0][2], tuple(OLDMAP if x == models.MAP0 else x for x in ds[0][3]))
    nested = {}

    def one(kind, prim, n, root, key=None, vpath=None):
        nm = '%s/%s%s' % ('root' if root else 'nested', kind, ':' + prim if prim else ':%d' % n if kind in ('Tuple', 'Struct', 'Enum') else '')
        prefix = ('arr', ()) if root else ('y', 'pfx', 0)
        with Guard(R, nm):
            labels = LABELS[:n] if n <= len(LABELS) else ['f%d' % i for i in range(n)]
            TC = ('h', 10010)
            RC = ('h', 10011)
            mem = {TC: mktype(P, TI, kind, prim, n, labels)}
            B0 = Analysis(P, unroll=200)
            if root:
                args = [('ref', TC, ())]
                g = B0.run(new.key, args, mem=mem)
            else:
                F = P.funcs[key]
                args = []
                for i in range(F.nargs):
                    t = P.types[F.locals[i + 1]]
                    b = t
                    while b['k'] == 'ref':
                        b = P.types[b['t']]
                    if b['k'] == 'adt' and b['adt'] == PATH:
                        pv = ('adt', PATH, 0, (prefix,))
                        if t['k'] == 'ref':
                            mem[('h', 10012)] = pv
                            args.append(('ref', ('h', 10012), ()))
                        else:
                            args.append(pv)
                    elif b['k'] == 'adt' and b['adt'] == 'crate::core::types::Type':
                        args.append(('ref', TC, ()))
                    else:
                        args.append(('y', 'arg%d' % i, 0))
                g = B0.run(key, args, mem=mem)
            R.seen(B0)
            rets = g.terms('ret')
            for p in g.terms('panic'):
                if 'shape' in cats:
                    R.bad('%s:build-panic' % nm, 'building the decoder panics: %s in %s' % (p.info[0], p.info[1]), p.info[2], ob=nm)
            for rn in rets:
                m = {c: v for c, v in rn.state.mem.items() if c[0] in ('h', 'd')}
                H = ('h', 10001)
                m[H] = rn.info
                m[RC] = ds
                holder = []

                def spec_of(D):
                    return Spec(kind, prim, n, prefix, D)
                D = Dec(P, TI, spec_of, root)
                D.TY.update(B0.TY)
                ref = ('ref', RC, ())
                if root:
                    tk, a = parse.key, [('ref', H, ()), ('y', 'input', 0), ref]
                    t0 = ('y', 'notok', 0)
                else:
                    tk, recv = resolve(D, P, rn.info, vpath, H)
                    if tk is None:
                        R.undecided(nm, 'receiver of %s not resolved: %s' % (vpath, pp(P, rn.info)))
                        continue
                    t0 = D.tok()
                    KC = ('h', 10013)
                    m[KC] = ('adt', TKZ, 0, tuple(t0 if i == D.tokf else ('y', 'tk%d' % i, 0) for i in range(len(P.adts[TKZ]['variants'][0]['fields']))))
                    a = [recv]
                    for i in range(1, P.funcs[tk].nargs):
                        s = P.types[P.funcs[tk].locals[i + 1]]['s']
                        a.append(('ref', KC, ()) if 'Tokenizer' in s else ref if 'IntermediateDataSource' in s else ('y', 'x%d' % i, 0))
                m.update(D.init(t0))
                g2 = D.run(tk, a, facts=rn.state.facts, mem=m)
                D.finish_run(g2, RC)
                R.seen(D)
                R.count('nested_values', D.subs)
                R.count('accepting_paths', D.accepts)
                R.count('rejecting_paths', D.rejects)
                for kind_, cat, k, msg, site in D.found:
                    if cat not in cats:
                        if kind_ == 'undecided':
                            R.undecided('%s:%s:%s' % (nm, cat, k), msg, site, ob=nm)
                    else:
                        if kind_ == 'bad':
                            R.bad('%s:%s:%s' % (nm, cat, k), '%s: %s' % (nm, msg), site, ob=nm)
                        else:
                            R.undecided('%s:%s:%s' % (nm, cat, k), msg, site, ob=nm)
                if 'shape' in cats:
                    if not D.accepts and not D.found:
                        R.bad('%s:never-accepts' % nm, 'no document of this type is accepted', ob=nm)
                if 'panic' in cats:
                    for p in g2.terms('panic'):
                        odd = any(x[1] in ('ovf',) for k in p.state.facts for x in subterms(k) if isinstance(x, tuple) and len(x) > 1 and x[0] == 't')
                        R.bad('%s:panic:%s:%s' % (nm, p.info[1].split('::')[-1], p.info[0]), 'decoding %s can panic: %s in %s' % (nm, p.info[0], p.info[1]), p.info[2], ob=nm)
                for k, v in D.nested.items():
                    nested.setdefault(k, set()).update(v)
            if not rets:
                R.undecided(nm, 'no decoder is built for this kind')
    for kind, prim, n in configs(TI):
        if cats == ('clear',) and n > 3:
            continue
        one(kind, prim, n, True)
    if not nested:
        R.undecided('nested', 'no nested decoding found')
    if 'shape' in cats or 'panic' in cats:
        for key in sorted(nested, key=str):
            for vpath in sorted(nested[key], key=str):
                if vpath is None:
                    R.undecided('nested:direct', 'nested decoding is a direct recursive call')
                    continue
                for kind, prim, n in configs(TI):
                    if n > 3:
                        continue
                    one(kind, prim, n, False, key, vpath)


def c04(ctx, R):
    """parse accepts exactly the documents of the type and stores each value under its path"""
    analyse(ctx, R, ('shape', 'panic'))


def c18(ctx, R):
    """parse drops every earlier value of the result on all paths"""
    analyse(ctx, R, ('clear',))
