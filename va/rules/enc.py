"""JSON encoder: the document written is an observer automaton run in product with the
abstract interpretation of JsonEncoder::new / JsonEncoder::encode and the nested emitters.

The automaton is generated from the type (struct, tuple, enum, ...).  Every byte handed to
the writer must be the next byte of the document of that type; characters of strings are
compared value by value (small classes) or bit by bit (bit provenance) with their JSON form.
"""
from .common import *
from .. import bits

ENC = 'crate::core::json::encoder::JsonEncoder'
DS = 'crate::core::data_source::DataSource::'
MC = ('m', 'enc')
PRIMS = ['Bool', 'Char', 'U8', 'U16', 'U32', 'U64', 'U128', 'I8', 'I16', 'I32', 'I64', 'I128', 'F32', 'F64']
ESC = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9}
CLASSES = {2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}


class TypeInfo:
    """where the pieces of crate::core::types::Type live"""

    def __init__(self, P):
        self.P = P
        T = 'crate::core::types::Type'
        K = 'crate::core::types::Kind'
        self.kind_f = field(P, T, 'kind')
        self.v = {n: variant(P, K, n) for n in ('Unit', 'Primitive', 'String', 'Tuple', 'Struct', 'Enum')}
        sf = self._elem_adt(K, 'Struct')
        ef = self._elem_adt(K, 'Enum')
        self.label = {'Struct': field(P, sf, 'label'), 'Enum': field(P, ef, 'label')}
        self.typ = {'Struct': field(P, sf, 'typ'), 'Enum': field(P, ef, 'typ')}
        self.prims = [v['name'] for v in P.adts['crate::core::types::Primitive']['variants']]

    def _elem_adt(self, K, n):
        P = self.P
        for t in P.types:
            if t['k'] == 'adt' and t['adt'] == K:
                vt = P.types[t['ft'][self.v[n]][0]]
                e = P.types[vt['args'][0]]
                return e['adt']
        raise KeyError(n)

    def kind(self, typ):
        return mk_p(typ, 0, self.kind_f)

    def elems(self, typ, n):
        return mk_p(self.kind(typ), self.v[n], 0)

    def child(self, typ, n, i):
        e = mk_elem(self.elems(typ, n), i)
        return e if n == 'Tuple' else mk_p(e, 0, self.typ[n])

    def name(self, typ, n, i):
        return mk_p(mk_elem(self.elems(typ, n), i), 0, self.label[n])

    def count(self, typ, n):
        return mk_len(self.elems(typ, n))


def kindrange(A, st, TI, typ_star):
    """kinds the facts allow: list of (kind name, primitive name or None)"""
    k = TI.kind(typ_star)
    d = ('t', 'discr', k)
    r = A.rng(st, d)
    out = []
    for n, v in TI.v.items():
        if not is_and(r, ((v, v),)):
            continue
        if n == 'Primitive':
            p = ('t', 'discr', mk_p(k, v, 0))
            pr = A.rng(st, p)
            for i, pn in enumerate(TI.prims):
                if is_and(pr, ((i, i),)):
                    out.append((n, pn, [(d, v), (p, i)]))
        else:
            out.append((n, None, [(d, v)]))
    return out


def program(kind, prim):
    if kind == 'Unit':
        return [('lit', b'null'), ('end',)]
    if kind == 'String':
        return [('lit', b'"'), ('chars', 'bytes'), ('end',)]
    if kind == 'Tuple':
        return [('lit', b'['), ('loop', b']', 4), ('sub',), ('next', 1), ('end',)]
    if kind == 'Struct':
        return [('lit', b'{'), ('loop', b'}', 7), ('lit', b'"'), ('chars', 'label'), ('lit', b':'), ('sub',), ('next', 1), ('end',)]
    if kind == 'Enum':
        return [('lit', b'{"kind":"'), ('chars', 'tag'), ('lit', b',"value":'), ('sub',), ('lit', b'}'), ('end',)]
    if prim == 'Bool':
        return [('bool',), ('end',)]
    if prim == 'Char':
        return [('lit', b'"'), ('chars', 'char'), ('end',)]
    return [('num', prim), ('end',)]


def flatten(p):
    """pieces of written data -> items: ints, ('sym', byte), ('ch', char), ('s', string), ('num', ...)"""
    if p[0] == 'str':
        return list(p[1].encode())
    if p[0] == 'arr':
        return [x[1] if x[0] == 'i' else ('sym', x) for x in p[1]]
    if p[0] == 'push':
        return flatten(p[1]) + [p[2][1] if p[2][0] == 'i' else ('sym', p[2])]
    if p[0] == 't':
        if p[1] in ('sconcat', 'concat'):
            return flatten(p[2]) + flatten(p[3])
        if p[1] == 'spush':
            return flatten(p[2]) + ([('ch', p[3])] if p[3][0] != 'i' else list(chr(p[3][1]).encode()))
        if p[1] == 'sub' and p[2][0] == 'o' and p[3][0] == 'i' and p[4][0] == 'i':
            xs = [mk_elem(p[2], I(i)) for i in range(p[3][1], p[4][1])]
            return [x[1] if x[0] == 'i' else ('sym', x) for x in xs]
        if p[1] == 'disp':
            if p[2][1] == 'char':
                return [('ch', p[3])] if p[3][0] != 'i' else list(chr(p[3][1]).encode())
            if p[2][1] in ('str', 'alloc::string::String') or p[2][1].startswith('alloc::borrow::Cow<') and 'str' in p[2][1]:
                return flatten(p[3]) if p[3][0] in ('str', 'arr') or p[3][0] == 't' and p[3][1] in ('sconcat', 'spush', 'format', 'to_string') else [('s', p[3])]
            return [('num', p[2][1], p[3])]
        if p[1] == 'dispspec':
            return [('spec', p[2], p[3], p[4][1], p[5])]
        if p[1] == 'to_string':
            return [('num', '?', p[2])]
        if p[1] == 'format' and p[2][0] == 't' and p[2][1] == 'fmt' and p[2][2][0] == 'arr':
            out = []
            for x in p[2][2][1]:
                out += flatten(x)
            return out
    if p[0] == 'o':
        n = mk_len(p)
        if n[0] == 'i':
            xs = [mk_elem(p, I(i)) for i in range(n[1])]
            return [x[1] if x[0] == 'i' else ('sym', x) for x in xs]
    return [('s', p)]


def fmt_spec(kind, spec, ty, n):
    """text of an integer under a formatting specification, or None"""
    d = dict(spec)
    fl = d.get('flags', 0)
    if 'indirect' in d or 'prec' in d or fl & (0xf << 21) & ~(1 << 24):
        return None
    w = d.get('width', 0)
    if kind == 'new_lower_hex':
        s = '%x' % n
    elif kind == 'new_upper_hex':
        s = '%X' % n
    elif kind == 'new_display' and ty != 'char':
        s = '%d' % n
    else:
        return None
    if len(s) < w:
        if not fl & (1 << 24):
            return None
        s = '0' * (w - len(s)) + s
    return s


def json_unit(bs):
    """decode one JSON string unit: ('prefix',) | ('ch', code) | ('hi', code) | ('bad',)"""
    b = bs[0]
    if b == 0x5c:
        if len(bs) == 1:
            return ('prefix',)
        if bs[1] != ord('u'):
            if len(bs) == 2 and bs[1] in ESC:
                return ('ch', ESC[bs[1]])
            return ('bad',)
        hx = bs[2:6]
        if any(not (48 <= x <= 57 or 65 <= x <= 70 or 97 <= x <= 102) for x in hx):
            return ('bad',)
        if len(hx) < 4:
            return ('prefix',)
        v = int(bytes(hx), 16)
        if 0xd800 <= v <= 0xdbff:
            rest = bs[6:]
            if not rest:
                return ('prefix',)
            if len(rest) < 6:
                return ('prefix',) if bytes(rest[:2]) == b'\\u'[:len(rest[:2])] else ('bad',)
            try:
                lo = int(bytes(rest[2:6]), 16)
            except ValueError:
                return ('bad',)
            if len(rest) == 6 and bytes(rest[:2]) == b'\\u' and 0xdc00 <= lo <= 0xdfff:
                return ('ch', 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00))
            return ('bad',)
        if len(bs) != 6 or 0xdc00 <= v <= 0xdfff:
            return ('bad',)
        return ('ch', v)
    if b < 0x20 or b == 0x22:
        return ('bad',)
    if b < 0x80:
        return ('ch', b) if len(bs) == 1 else ('bad',)
    n = 2 if 0xc2 <= b <= 0xdf else 3 if 0xe0 <= b <= 0xef else 4 if 0xf0 <= b <= 0xf4 else 0
    if n == 0:
        return ('bad',)
    if len(bs) < n:
        return ('prefix',) if all(0x80 <= x <= 0xbf for x in bs[1:]) else ('bad',)
    try:
        return ('ch', ord(bytes(bs).decode('utf8')))
    except (UnicodeDecodeError, TypeError):
        return ('bad',)


class Enc(Analysis):
    def __init__(self, prog, TI, R, cat, prefix, where):
        h = {}
        for p in ('core::io::write::Write::', 'std::io::Write::'):
            h[p + 'write_all'] = self.h_write_all
            h[p + 'write_fmt'] = self.h_write_fmt
            h[p + 'write'] = self.h_write
        for t in ('f32', 'f64'):
            for m in ('is_finite', 'is_nan', 'is_infinite'):
                h['core::num::imp::flt::<impl %s>::%s' % (t, m)] = self.h_float
                h['core::%s::<impl %s>::%s' % (t, t, m)] = self.h_float
                h['core::num::<impl %s>::%s' % (t, m)] = self.h_float
        for p in ("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next",
                  "<core::str::iter::CharIndices<'a> as core::iter::traits::iterator::Iterator>::next"):
            h[p] = self.h_next
        super().__init__(prog, h)
        self.TI = TI
        self.R = R
        self.report = cat
        self.prefix = prefix      # path vector of the value being emitted
        self.typ = ('t', '*', ('y', 'typ', 0))
        self.phases = []
        self.where = where
        self.on_attempt()

    def on_attempt(self):
        self.found = []
        self.units = 0
        self.docs = 0
        self.nested = {}

    # -------------------------------------------------- monitor state
    def ph(self, t):
        if t not in self.phases:
            self.phases.append(t)
        return self.phases.index(t)

    def init(self):
        return {MC: ('adt', '$enc', self.ph(('start',)), (I(0), I(0), ('arr', ())))}

    def get(self, st):
        v = st.mem[MC]
        it = v[3][2]
        return self.phases[v[2]], v[3][0], v[3][1], it[1] if it[0] == 'arr' else (it,)

    def put(self, st, ph, idx=None, pos=None, items=None):
        _, i, p, it = self.get(st)
        st.mem[MC] = ('adt', '$enc', self.ph(ph), (i if idx is None else idx, p if pos is None else pos,
                                                   ('arr', tuple(it if items is None else items))))
        return st

    def bad(self, st, cat, key, msg, site=None):
        self.found.append(('bad', cat, '%s:%s' % (self.label(st), key), msg, site))
        return self.put(st, ('dead',), I(0), I(0), ())

    def unk(self, st, cat, key, msg, site=None):
        self.found.append(('undecided', cat, '%s:%s' % (self.label(st), key), msg, site))
        return self.put(st, ('dead',), I(0), I(0), ())

    def label(self, st):
        ph = self.get(st)[0]
        return ph[1] + ('/' + ph[2] if ph[2] else '') if ph[0] == 'run' else 'encode'

    # -------------------------------------------------- hooks
    def h_next(self, A, st, c, w):
        # taking the next character: what was known about the earlier ones is no longer needed
        it = load(A, st, c.args[0])
        if it[0] == 'iter' and it[2][0] == 't' and it[2][1] == 'chars':
            q = it[2]
            st.facts = {k: r for k, r in st.facts.items() if not contains(
                k, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'elem' and x[2] == q)}
        return models.iter_next(A, st, c, w)

    def h_float(self, A, st, c, w):
        v = loadall(A, st, c.args[0])
        out = []
        fin = ('t', 'finite', v)
        nan = ('t', 'isnan', v)
        t, f = split(A, st, fin)
        if t:
            out.append((t, B(c.name == 'is_finite')))
        if f:
            if c.name == 'is_finite':
                out.append((f, FALSE))
            else:
                a, b = split(A, f, nan)
                if a:
                    out.append((a, B(c.name == 'is_nan')))
                if b:
                    out.append((b, B(c.name == 'is_infinite')))
        return out

    def h_write_all(self, A, st, c, w):
        v = snap(A, st, loadall(A, st, c.args[1]))
        return self.written(st, c, [v])

    def h_write_fmt(self, A, st, c, w):
        a = c.args[1]
        return self.written(st, c, list(a[2][1]) if a[0] == 't' and a[1] == 'fmt' else [a])

    def written(self, st, c, pieces):
        s2 = st.copy()
        self.put(s2, ('failed',), I(0), I(0), ())
        items = []
        for p in pieces:
            items += flatten(p)
        out = [(s, ok()) for s in self.feed_all(st, items, c.site)]
        if self.get(st)[0][0] == 'short':
            pass
        out.append((s2, err(('y', 'ioerr', 0))))
        return out

    def h_write(self, A, st, c, w):
        v = snap(A, st, loadall(A, st, c.args[1]))
        s2 = st.copy()
        self.put(s2, ('failed',), I(0), I(0), ())
        out = [(s2, err(('y', 'ioerr', 0)))]
        n = mk_len(v)
        s3 = st.copy()
        for s in self.feed_all(st, flatten(v), c.site):
            out.append((s, ok(n)))
        short = self.fresh('nwritten', self.prog.tyidx['usize'])
        ph = self.get(s3)[0]
        if ph[0] not in ('dead', 'failed', 'short') and self.decide(s3, mk_eq0(n)) is not True:
            if self.assume(s3, mk_ge0(ladd(lsub(n, short), I(-1))), True):
                self.put(s3, ('short', c.site), I(0), I(0), ())
                out.append((s3, ok(short)))
        return out

    # -------------------------------------------------- automaton
    def feed_all(self, st, items, site):
        cur = [st]
        for it in items:
            nxt = []
            for s in cur:
                nxt += self.feed(s, it, site)
            cur = [s for s in nxt if self.get(s)[0][0] != 'dead']
        return cur

    def choose(self, st):
        """fix the kind the document is compared with"""
        out = []
        for n, p, fs in kindrange(self, st, self.TI, self.typ):
            s = st.copy()
            if all(self.addfact(s, d, ((v, v),)) for d, v in fs):
                self.put(s, ('run', n, p, 0, 0, False))
                self.docs += 1
                out.append(s)
        return out

    def getter(self, name):
        return ('t', 'call', DS + name)

    def is_getter(self, v, name):
        """True / False / None: is v the value of DataSource::<name>(source, own path)"""
        if v[0] == 't' and v[1] == 'call' and isinstance(v[2], str) and v[2].startswith(DS):
            if v[2] != DS + name:
                return False
            if len(v) == 6 and v[5] == ('adt', 'crate::core::types::Path', 0, (self.prefix,)):
                return True
            if len(v) == 6 and v[5][0] == 'adt' and v[5][3][0][0] in ('arr', 'push'):
                return False
        return None

    def tagterm(self, v):
        return self.is_getter(v, 'get_case_tag')

    def n_of(self, kind):
        return self.TI.count(self.typ, kind)

    def feed(self, st, it, site):
        ph, idx, pos, items = self.get(st)
        if ph[0] in ('dead', 'failed'):
            return [st]
        if ph[0] == 'short':
            if isinstance(it, tuple) and contains(it, lambda x: isinstance(x, tuple) and len(x) > 2 and (
                    x[0] == 'y' and str(x[1]).startswith(('nwritten', 'top')) or x[0] == 't' and x[1] == 'sub' and x[3][0] != 'i')):
                return [self.unk(st, 'io', 'retry', 'short write followed by an explicit retry', site)]
            return [self.bad(st, 'io', 'short-write', 'a short write() is not completed before the next write', ph[1])]
        if ph[0] == 'start':
            out = []
            for s in self.choose(st):
                out += self.feed(s, it, site)
            return out
        _, kind, prim, pc, off, flag = ph
        op = program(kind, prim)[pc]
        if op[0] == 'next':
            self.put(st, ('run', kind, prim, op[1], 0, False), ladd(idx, I(1)), I(0), ())
            return self.feed(st, it, site)
        ws = isinstance(it, int) and it in (0x20, 9, 10, 13)
        if op[0] == 'lit':
            if isinstance(it, int):
                want = op[1][off]
                if ws and off == 0 and want != it:
                    return [st]
                if it == want:
                    if off + 1 == len(op[1]):
                        return [self.put(st, ('run', kind, prim, pc + 1, 0, False), idx, I(0), ())]
                    return [self.put(st, ('run', kind, prim, pc, off + 1, False))]
                if self.literal_ws(op[1], off, it):
                    return [st]
                return [self.bad(st, 'shape', 'byte@%d.%d' % (pc, off), 'writes byte %r where %r is expected' % (chr(it), chr(want)), site)]
            return [self.unk(st, 'shape', 'data@%d.%d' % (pc, off), 'writes data that is not constant where %r is expected' % chr(op[1][off]), site)]
        if op[0] == 'loop':
            n = self.n_of(kind)
            if isinstance(it, int):
                if it == op[1][0]:
                    d = self.decide(st, mk_eq0(lsub(n, idx)))
                    if flag:
                        return [self.bad(st, 'shape', 'trailing-comma', 'closes right after a comma', site)]
                    if d is False:
                        return [self.bad(st, 'shape', 'close-early', 'closes before all %s components were written' % kind, site)]
                    if d is None:
                        return [self.unk(st, 'shape', 'close-early', 'not shown that all components were written at the close', site)]
                    return [self.put(st, ('run', kind, prim, op[2], 0, False), idx, I(0), ())]
                if ws:
                    return [st]
                if it == 0x2c:
                    if flag:
                        return [self.bad(st, 'shape', 'double-comma', 'two commas in a row', site)]
                    d = self.decide(st, mk_ge0(ladd(idx, I(-1))))
                    d2 = self.decide(st, mk_ge0(ladd(lsub(n, idx), I(-1))))
                    if d is False or d2 is False:
                        return [self.bad(st, 'shape', 'comma', 'a comma that separates nothing', site)]
                    if d is None or d2 is None:
                        return [self.unk(st, 'shape', 'comma', 'comma not shown to separate two components', site)]
                    return [self.put(st, ('run', kind, prim, pc, 0, True))]
            r = self.body(st, kind, prim, pc, idx, flag, n, site)
            if r is not None:
                return [r]
            return self.feed(st, it, site)
        if op[0] == 'sub':
            if ws:
                return [st]
            return [self.sub_mismatch(st, it, site, kind)]
        if op[0] == 'end':
            if ws:
                return [st]
            return [self.bad(st, 'shape', 'extra', 'writes more after the end of the document', site)]
        if op[0] == 'bool':
            return self.feed_bool(st, it, site, kind, prim, pc, off)
        if op[0] == 'num':
            return self.feed_num(st, it, site, kind, prim, pc, off)
        if op[0] == 'chars':
            return self.feed_chars(st, it, site, kind, prim, pc, op[1])
        raise Imprecise('op')

    def literal_ws(self, lit, off, it):
        """insignificant white space inside the literal parts of an enum document"""
        return it in (0x20, 9, 10, 13) and off > 0 and chr(lit[off - 1]) in '{,:[' and off < len(lit)

    def body(self, st, kind, prim, pc, idx, flag, n, site):
        """start of a component; None when fine (phase advanced)"""
        if not flag:
            d = self.decide(st, mk_eq0(idx))
            if d is False:
                return self.bad(st, 'shape', 'no-comma', 'a component is written without the comma before it', site)
            if d is None:
                return self.unk(st, 'shape', 'no-comma', 'not shown that the first component is the one without a comma', site)
        d = self.decide(st, mk_ge0(ladd(lsub(n, idx), I(-1))))
        if d is False:
            return self.bad(st, 'shape', 'too-many', 'writes more components than the type has', site)
        if d is None:
            return self.unk(st, 'shape', 'too-many', 'not shown that the component exists', site)
        self.put(st, ('run', kind, prim, pc + 1, 0, False), idx, I(0), ())
        return None

    def sub_mismatch(self, st, it, site, kind):
        if isinstance(it, int):
            return self.bad(st, 'shape', 'no-value', 'writes byte %r where the component value is expected' % chr(it), site)
        return self.unk(st, 'shape', 'no-value', 'writes data where the component value is expected', site)

    def feed_bool(self, st, it, site, kind, prim, pc, off):
        if isinstance(it, int):
            texts = (b'true', b'false')
            if off == 0:
                if it in (0x20, 9, 10, 13):
                    return [st]
                for t in texts:
                    if it == t[0]:
                        v = t == b'true'
                        g = [k for k in st.facts if k[0] == 't' and self.is_getter(k, 'get_bool')]
                        if g:
                            want = self.decide(st, g[0])
                            if want is None:
                                return [self.unk(st, 'shape', 'bool', 'literal not tied to the value', site)]
                            if want != v:
                                return [self.bad(st, 'shape', 'bool', 'writes %s for the opposite value' % t.decode(), site)]
                        else:
                            other = [k for k in st.facts if k[0] == 't' and k[1] == 'call' and isinstance(k[2], str) and k[2].startswith(DS)]
                            if any(self.is_getter(k, 'get_bool') is False for k in other) or not other:
                                return [self.bad(st, 'shape', 'bool', 'writes %s without consulting the boolean of the data source' % t.decode(), site)]
                            return [self.unk(st, 'shape', 'bool', 'literal not tied to the value', site)]
                        return [self.put(st, ('run', kind, prim, pc, 1 if v else 11, False))]
                return [self.bad(st, 'shape', 'bool', 'a boolean is written as %r...' % chr(it), site)]
            t = texts[0] if off < 10 else texts[1]
            o = off % 10
            if o < len(t) and it == t[o]:
                if o + 1 == len(t):
                    return [self.put(st, ('run', kind, prim, pc + 1, 0, False))]
                return [self.put(st, ('run', kind, prim, pc, off + 1, False))]
            return [self.bad(st, 'shape', 'bool', 'misspelt boolean literal', site)]
        if it[0] == 'num' and off == 0 and it[1] == 'bool':
            g = self.is_getter(it[2], 'get_bool')
            if g:
                return [self.put(st, ('run', kind, prim, pc + 1, 0, False))]
            if g is False:
                return [self.bad(st, 'shape', 'bool', 'writes the wrong data source value', site)]
        return [self.unk(st, 'shape', 'bool', 'boolean text not understood', site)]

    def feed_num(self, st, it, site, kind, prim, pc, off):
        # off: 0 start, 1 inside a quoted number, 2 quoted number written
        g = 'get_' + prim.lower()
        flt = prim in ('F32', 'F64')
        if isinstance(it, int):
            if it in (0x20, 9, 10, 13) and off == 0:
                return [st]
            if it == 0x22 and flt and off in (0, 2):
                return [self.put(st, ('run', kind, prim, pc + 1, 0, False) if off == 2 else ('run', kind, prim, pc, 1, False))]
            if it == 0x22:
                return [self.bad(st, 'shape', 'num-quote', 'an integer is written as a string', site)]
            return [self.bad(st, 'shape', 'num-byte', 'writes byte %r in place of the number' % chr(it), site)]
        if it[0] == 'num' and off in (0, 1):
            m = self.is_getter(it[2], g)
            if m is False:
                return [self.bad(st, 'shape', 'num-value', 'a %s is written from %s' % (prim.lower(), pp(self.prog, it[2])), site)]
            if m is None:
                base = it[2]
                if any(self.is_getter(x, g) for x in subterms(base)) and base[0] == 't' and base[1] in ('cast', 'Trunc', 'fneg', 'Wrap'):
                    return [self.bad(st, 'shape', 'num-value', 'a %s is converted before it is written: %s' % (prim.lower(), pp(self.prog, base)), site)]
                return [self.unk(st, 'shape', 'num-value', 'number not understood: %s' % pp(self.prog, base), site)]
            if flt and off == 0 and self.decide(st, ('t', 'finite', it[2])) is not True:
                return [self.bad(st, 'shape', 'num-finite', 'a %s that is not finite is written as a bare token, which is not JSON' % prim.lower(), site)]
            return [self.put(st, ('run', kind, prim, pc, 2, False) if off else ('run', kind, prim, pc + 1, 0, False))]
        return [self.unk(st, 'shape', 'num-data', 'number text not understood', site)]

    # ---- characters
    def string_term(self, st, kind, src, idx):
        if src == 'label':
            return self.TI.name(self.typ, 'Struct', idx)
        return None

    def feed_chars(self, st, it, site, kind, prim, pc, src):
        ph, idx, pos, items = self.get(st)
        if src == 'char':
            S = None
            C = None
            for k in self.getters(st):
                if self.is_getter(k, 'get_char'):
                    C = k
            total = I(1)
            if C is None:
                ex = self.example(it)
                if ex is not None and ex[0] == 't' and self.is_getter(ex, 'get_char'):
                    C = ex
            if C is None:
                C = self.own_call('get_char')
        else:
            S = self.which_string(st, src, idx)
            if S is None:
                return [self.unk(st, 'shape', 'string', 'string source not identified', site)]
            S2 = self.under(st, plain(S))
            if S2 != plain(S):
                # the path has fixed the index: the string may be known under either name
                q2 = models.chars_of(S2)
                if any(x == q2 for k in ((it,) if isinstance(it, tuple) else ()) + tuple(st.facts) for x in subterms(k)):
                    S = S2
            q = models.chars_of(S)
            total = mk_len(q)
            C = mk_elem(q, pos)
            other = self.other_source(st, it, S, q)
            if other is not None:
                return [self.bad(st, 'shape', 'string-source', 'the characters of %s are written instead of those of %s' % (
                    pp(self.prog, other), pp(self.prog, S)), site)]
        more = self.decide(st, mk_ge0(ladd(lsub(total, pos), I(-1))))
        # a quote between characters closes the string
        if it == 0x22 and not items:
            d = self.decide(st, mk_eq0(lsub(total, pos)))
            if d is True:
                return [self.put(st, ('run', kind, prim, pc + 1, 0, False), idx, I(0), ())]
            if d is False:
                return [self.bad(st, 'chars', 'quote', 'a bare quote is written before the end of the string', site)]
            return [self.unk(st, 'chars', 'quote', 'not shown that the string is complete at the quote', site)]
        if isinstance(it, tuple) and it[0] == 's':
            if S is not None and plain(it[1]) == plain(S) and pos == I(0) and not items:
                if st.tags.get('seen:' + rk(plain(S))):
                    return [self.unk(st, 'chars', 'raw-string', 'the string is copied after a scan of its content', site)]
                return [self.bad(st, 'chars', 'raw-string', 'a string is written without escaping its characters', site)]
            return [self.unk(st, 'chars', 'string-data', 'string data not understood: %s' % pp(self.prog, it[1]), site)]
        if more is False:
            return [self.bad(st, 'chars', 'beyond', 'bytes after the last character of the string', site)]
        if more is None:
            return [self.unk(st, 'chars', 'beyond', 'not shown that a character is left to write', site)]
        return self.char_unit(st, it, site, C, items + (self.enc_item(it),), pos)

    def under(self, st, v):
        """v with every input the path has fixed to one value replaced by it"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 't' and v[1] in ('call', 'elem', 'len', 'discr'):
            r = self.rng(st, v)
            if len(r) == 1 and r[0][0] == r[0][1]:
                return I(r[0][0])
        if v[0] in ('i', 'str'):
            return v
        return simp(tuple(self.under(st, x) if isinstance(x, tuple) else x for x in v))

    def other_source(self, st, it, S, q):
        """the string a character item comes from, when that is an input other than S"""
        if not (isinstance(it, tuple) and it[0] in ('ch', 'sym')):
            return None
        src = set()
        for x in subterms(plain(it[1])):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'elem' and x[2] != q and \
                    isinstance(x[2], tuple) and x[2][0] == 't' and x[2][1] == 'chars':
                src.add(x[2][2])
            if x == q:
                return None
        if len(src) == 1:
            x = src.pop()
            if self.under(st, x) != self.under(st, plain(S)) and self.comparable(x, plain(S)):
                return x
        return None

    def enc_item(self, it):
        return I(it) if isinstance(it, int) else ('t', 'item') + tuple(it if not isinstance(it[1], str) or it[0] != 'spec' else (it[0], it[1], it[2], ('str', it[3]), it[4]))

    def example(self, it):
        if isinstance(it, tuple) and it[0] in ('ch', 'sym'):
            for x in subterms(it[1]):
                if isinstance(x, tuple) and len(x) > 2 and x[0] == 't' and x[1] == 'call':
                    return x
        return None

    def getters(self, st):
        out = []
        for k in st.facts:
            for x in subterms(k):
                if isinstance(x, tuple) and len(x) > 2 and x[0] == 't' and x[1] == 'call' and isinstance(x[2], str) and x[2].startswith(DS):
                    out.append(x)
        return out

    def own_call(self, name):
        return ('t', 'call', DS + name, ('dyn crate::core::data_source::DataSource',), ('y', 'source', 0),
                ('adt', 'crate::core::types::Path', 0, (self.prefix,)))

    def which_string(self, st, src, idx):
        if src == 'label':
            return plain(self.TI.name(self.typ, 'Struct', idx))
        if src == 'tag':
            return plain(self.TI.name(self.typ, 'Enum', self.own_call('get_case_tag')))
        return self.own_call('get_bytes')

    def char_unit(self, st, it, site, C, items, pos):
        C = plain(C)
        if C[0] == 'i':
            rng = ((C[1], C[1]),)
        else:
            rng = is_and(self.vrange(st, C), ((0, 0xd7ff), (0xe000, 0x10ffff)))
            if C not in self.TY:
                self.TY[C] = self.prog.tyidx['char']
        res = {'bad': [], 'ok': [], 'prefix': [], 'unk': []}
        why = {}
        small = is_and(rng, ((0, 0x7f),))
        self.units += 1
        enum = list(is_vals(small))
        big = []
        for n, cl in CLASSES.items():
            part = is_and(rng, (cl,))
            if not part:
                continue
            if is_size(part) <= 64:
                enum += list(is_vals(part))
            else:
                big.append((n, part))
        for v in enum:
            r = self.unit_value(st, C, v, items)
            if r is None:
                continue
            res[r[0]].append((v, v))
            why.setdefault(r[0], 'U+%04X %s' % (v, r[1]))
        for n, part in big:
            r = self.unit_bits(st, C, n, part, items)
            res[r[0]] += list(part)
            why.setdefault(r[0], 'U+%04X..U+%04X %s' % (part[0][0], part[-1][1], r[1]))
        out = []
        todo = [k for k in res if res[k]]
        for k in todo:
            s = st if len(todo) == 1 else st.copy()
            if len(todo) > 1:
                key, sg, cc = key_of(C)
                if not self.addfact(s, key, is_norm(is_shift(is_shift(is_norm(res[k]), -cc), 0, sg))):
                    continue
            if k == 'bad':
                out.append(self.bad(s, 'chars', 'char:' + self.klass(is_norm(res[k])), 'wrong JSON for %s' % why[k], site))
            elif k == 'unk':
                out.append(self.unk(s, 'chars', 'char:' + self.klass(is_norm(res[k])), 'character encoding not understood for %s' % why[k], site))
            elif k == 'prefix':
                out.append(self.put(s, self.get(s)[0], None, None, items))
            else:
                out.append(self.put(s, self.get(s)[0], None, ladd(pos, I(1)), ()))
        return out

    def klass(self, r):
        return 'U+%04X-U+%04X' % (r[0][0], r[-1][1])

    def unit_value(self, st, C, v, items):
        """outcome of the items written for the concrete character v"""
        if C[0] != 'i':
            for k, r in st.facts.items():
                if has_free(k, C):
                    e = simp(subst(lin_mk(0, dict(k[1])) if k[0] == 'L' else k, C, I(v)))
                    if e[0] in ('i', 'b') and not is_and(r, ((e[1], e[1]),)):
                        return None
        bs = []
        for it in items:
            it = simp(subst(it, C, I(v))) if C[0] != 'i' else it
            if it[0] == 'i':
                bs.append(it[1])
                continue
            if it[0] == 't' and it[1] == 'item':
                if it[2] == 'sym':
                    b = it[3]
                    if b[0] != 'i':
                        return ('unk', 'byte %s' % pp(self.prog, b))
                    bs.append(b[1] & 0xff)
                    continue
                if it[2] == 'ch':
                    if it[3][0] != 'i':
                        return ('unk', 'char %s' % pp(self.prog, it[3]))
                    bs += list(chr(it[3][1]).encode('utf8', 'surrogatepass'))
                    continue
                if it[2] == 'spec' and it[6][0] == 'i':
                    s = fmt_spec(it[3], it[4], it[5][1], it[6][1])
                    if s is not None:
                        bs += list(s.encode())
                        continue
                if it[2] == 'num' and it[4][0] == 'i':
                    bs += list(str(it[4][1]).encode())
                    continue
            return ('unk', 'data %s' % pp(self.prog, it))
        r = json_unit(bs)
        if r[0] == 'prefix':
            return ('prefix', '')
        if r == ('ch', v):
            return ('ok', '')
        return ('bad', 'is written as %r' % bytes(bs))

    def unit_bits(self, st, C, n, part, items):
        if len(items) == 1 and items[0][0] == 't' and items[0][1] == 'item' and items[0][2] == 'ch':
            if items[0][3] == C:
                return ('ok', '')
            return ('unk', 'char %s' % pp(self.prog, items[0][3]))
        want = bits.utf8_expected(n)
        maxbits = part[-1][1].bit_length()
        for i, it in enumerate(items):
            b = it if it[0] == 'i' else it[3] if it[0] == 't' and it[1] == 'item' and it[2] == 'sym' else None
            if b is None:
                return ('unk', 'data %s' % pp(self.prog, it))
            if b == I(0x5c) and i == 0:
                return ('unk', 'escape sequence') if len(items) > 1 else ('prefix', '')
            if items[0] == I(0x5c):
                return ('unk', 'escape sequence')
            p = bits.prov(b, C, maxbits)
            if p is None:
                return ('unk', 'byte %s' % pp(self.prog, b))
            if i >= n:
                return ('bad', 'is written as more than %d bytes' % n)
            w = [x if not isinstance(x, tuple) or x[1] < maxbits else 0 for x in want[i]]
            if p[:8] != w:
                return ('bad', 'byte %d of its UTF-8 form is wrong' % (i + 1))
        return ('ok' if len(items) == n else 'prefix', '')

    # -------------------------------------------------- nested values
    def find_rec(self, args, c=None):
        """(function key, path value, type value) of the nested emission a call stands for"""
        for a in args:
            for x in subterms(a):
                if isinstance(x, tuple) and len(x) > 3 and x[0] == 't' and x[1] == 'rec' and x[2] in self.prog.funcs:
                    r = self.path_typ(x[2], x[3:])
                    if r:
                        return (x[2],) + r
        return None

    def path_typ(self, key, args):
        F = self.prog.funcs[key]
        path = typ = None
        for i, a in enumerate(args):
            t = self.prog.types[F.locals[i + 1]]
            while t['k'] == 'ref':
                t = self.prog.types[t['t']]
            if t['k'] == 'adt' and t['adt'] == 'crate::core::types::Path':
                path = a
            elif t['k'] == 'adt' and t['adt'] == 'crate::core::types::Type':
                typ = a
        if path is None or typ is None:
            return None
        return path, typ

    def opaque(self, st, c, work, fv=None):
        if c.dty is not None and self.is_iores(c.dty):
            args = tuple(plain(self.snap(st, a)) for a in c.args)
            r = self.find_rec(args)
            if r is not None:
                self.opaque_log[c.ipath] = self.opaque_log.get(c.ipath, 0) + 1
                self.nested.setdefault(r[0], set()).add(c.path)
                return self.nested_event(st, c, work, r)
        super().opaque(st, c, work, fv)

    def recursion(self, st, c, key, args, work):
        F = self.prog.funcs[key]
        if self.is_iores(F.locals[0]):
            snapd = tuple(plain(self.snap(st, a)) for a in args)
            pt = self.path_typ(key, snapd)
            r = (key,) + pt if pt else self.find_rec(snapd)
            if r is not None:
                self.nested.setdefault(r[0], set()).add(c.path if not pt else None)
                return self.nested_event(st, c, work, r)
        super().recursion(st, c, key, args, work)

    def is_iores(self, ti):
        s = self.prog.tstr(ti)
        return s.startswith('core::result::Result<()')

    def nested_event(self, st, c, work, r):
        key, path, typ = r
        s2 = st.copy()
        self.put(s2, ('failed',), I(0), I(0), ())
        for s in self.feed_sub(st, path, typ, c.site):
            if self.get(s)[0][0] == 'dead':
                continue
            self.finish(s, c, ok(), work)
        self.finish(s2, c, err(('y', 'ioerr', 0)), work)

    def feed_sub(self, st, path, typ, site):
        ph, idx, pos, items = self.get(st)
        if ph[0] in ('dead', 'failed'):
            return [st]
        if ph[0] == 'short':
            return [self.bad(st, 'io', 'short-write', 'a short write() is not completed before the next write', ph[1])]
        if ph[0] == 'start':
            out = []
            for s in self.choose(st):
                out += self.feed_sub(s, path, typ, site)
            return out
        _, kind, prim, pc, off, flag = ph
        op = program(kind, prim)[pc]
        if op[0] == 'next':
            self.put(st, ('run', kind, prim, op[1], 0, False), ladd(idx, I(1)), I(0), ())
            return self.feed_sub(st, path, typ, site)
        if op[0] == 'loop':
            r = self.body(st, kind, prim, pc, idx, flag, self.n_of(kind), site)
            if r is not None:
                return [r]
            return self.feed_sub(st, path, typ, site)
        if op[0] != 'sub':
            return [self.bad(st, 'shape', 'value@%d' % pc, 'writes a component value where %s is expected' % (op[0] if op[0] != 'lit' else repr(op[1].decode())), site)]
        i = idx if kind != 'Enum' else self.own_call('get_case_tag')
        want_p = ('adt', 'crate::core::types::Path', 0, (plain(mk_push(self.prefix, i)),))
        want_t = plain(self.TI.child(self.typ, kind, i))
        for what, got, want in (('path', path, want_p), ('type', typ, want_t)):
            if self.under(st, plain(got)) != self.under(st, want):
                if self.comparable(plain(got), want):
                    return [self.bad(st, 'shape', 'component-' + what, 'the %s of the component is %s instead of %s' % (
                        what, pp(self.prog, got), pp(self.prog, want)), site)]
                return [self.unk(st, 'shape', 'component-' + what, 'component %s not understood: %s' % (what, pp(self.prog, got)), site)]
        return [self.put(st, ('run', kind, prim, pc + 1, 0, False))]

    def comparable(self, a, b):
        """both values are built from the inputs and counters only, so that a difference is real"""
        def simple(x):
            return not contains(x, lambda y: isinstance(y, tuple) and y and (y[0] in ('comp', 'sum', 'o', 'undef') or
                                y[0] == 't' and y[1] not in ('len', 'elem', 'chars', 'call', 'discr') or
                                y[0] == 'y' and len(y) == 3 and y[2] != 0 or
                                y[0] == 'y' and len(y) == 3 and str(y[1]).startswith(('top', 'acc'))))
        return simple(a) and simple(b)

    # -------------------------------------------------- verdicts at the exits
    def finish_run(self, g):
        for n in g.terms('ret'):
            st = n.state
            ph, idx, pos, items = self.get(st)
            v = n.info
            isok = v[0] == 'adt' and v[1] == models.RES and v[2] == 0
            iserr = v[0] == 'adt' and v[1] == models.RES and v[2] == 1
            if ph[0] == 'dead':
                continue
            if not isok and not iserr:
                if ph[0] == 'failed':
                    self.found.append(('undecided', 'io', 'result', 'result value not understood: %s' % pp(self.prog, v), None))
                continue
            if ph[0] == 'failed':
                if isok:
                    self.bad(st, 'io', 'lost-error', 'a writer error is dropped: encode returns Ok')
                continue
            if ph[0] == 'short':
                if isok:
                    self.bad(st, 'io', 'short-write', 'encode returns Ok after a short write() was not completed', ph[1])
                continue
            if iserr:
                self.bad(st, 'io', 'spurious-error', 'encode reports an error although the writer accepted everything')
                continue
            if ph[0] == 'start':
                for s in self.choose(st):
                    self.bad(s, 'shape', 'empty', 'encode returns Ok without writing anything')
                continue
            _, kind, prim, pc, off, flag = ph
            op = program(kind, prim)[pc]
            if op[0] == 'end':
                continue
            self.bad(st, 'shape', 'truncated', 'encode returns Ok before the document is complete')
        for f in self.found:
            self.report(*f)


def simp(v):
    """fold constant bit operations"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'lin' and len(v) == 3 and isinstance(v[1], int):
        acc = I(v[1])
        for t, k in v[2]:
            acc = ladd(acc, lscale(simp(t), k))
        return acc
    r = tuple(simp(x) if isinstance(x, tuple) else x for x in v)
    if r and r[0] == 't':
        op = r[1]
        if op in ('And', 'Or', 'Xor', 'Shl', 'Shr', 'Rem', 'Div', 'Mul') and len(r) == 5 and r[3][0] == 'i' and r[4][0] == 'i':
            x, y = r[3][1], r[4][1]
            w = (1 << {'u8': 8, 'u16': 16, 'u32': 32}.get(r[2], 64)) - 1
            if op in ('Rem', 'Div') and y == 0:
                return r
            return I({'And': x & y, 'Or': x | y, 'Xor': x ^ y, 'Shl': (x << min(y, 64)) & w, 'Shr': x >> y,
                      'Rem': x % y if y else 0, 'Div': x // y if y else 0, 'Mul': x * y & w}[op])
        if op in ('Trunc', 'Wrap') and len(r) == 4 and r[3][0] == 'i':
            w = {'u8': 8, 'u16': 16, 'u32': 32, 'i8': 8, 'i16': 16, 'i32': 32}.get(r[2], 64)
            n = r[3][1] & ((1 << w) - 1)
            if r[2][0] == 'i' and n >> (w - 1):
                n -= 1 << w
            return I(n)
        return mk_t(*r[1:])
    if r and r[0] == 'p' and len(r) == 4:
        return mk_p(r[1], r[2], r[3])
    if r and r[0] == 'eq0':
        return mk_eq0(r[1])
    if r and r[0] == 'ge0':
        return mk_ge0(r[1])
    return r


def chars_tag(A, st, c, w):
    v = snap(A, st, loadall(A, st, c.args[0]))
    if v[0] not in ('str', 'arr'):
        st.tags['seen:' + rk(plain(v))] = 1
    return models.HOOKS[c.path if c.path in models.HOOKS else c.ipath](A, st, c, w)


def analyse(ctx, R, cats):
    """run the product analysis; findings of the categories in `cats` go to R"""
    P = ctx.P
    TI = TypeInfo(P)
    new = anchor(R, P, ENC + '::new')
    enc = anchor(R, P, ENC + '::encode')
    if not new or not enc:
        return

    kinds = set()

    def run_emit(key, args, facts, mem, prefix, base, where):
        def cat(kind, c, k, msg, site):
            if c not in cats:
                # the rest of this document was not explored
                R.undecided('%s/%s:%s' % (where, c, k), 'stopped by: ' + msg, site, ob='%s/%s' % (where, k.split(':')[0]))
            elif kind == 'bad':
                R.bad('%s:%s' % (c, k), msg, site, ob='%s/%s' % (where, k.split(':')[0]))
            else:
                R.undecided('%s/%s:%s' % (where, c, k), msg, site, ob='%s/%s' % (where, k.split(':')[0]))
        E = Enc(P, TI, R, cat, prefix, where)
        if base is not None:
            E.TY.update(base.TY)
        for p in ('alloc::vec::Vec::<T, A>::iter_', 'core::str::<impl str>::chars', 'core::str::<impl str>::char_indices',
                  'core::str::<impl str>::bytes'):
            E.hooks[p] = chars_tag
        m = dict(mem or {})
        m.update(E.init())
        g = E.run(key, args, facts=facts, mem=m)
        E.finish_run(g)
        R.seen(E)
        R.count('document_templates', E.docs)
        R.count('character_units', E.units)
        for ph in E.phases:
            if ph[0] == 'run':
                kinds.add((where, ph[1], ph[2]))
                R.ob('%s/%s' % (where, ph[1] + ('/' + ph[2] if ph[2] else '')))
        return E

    nested = {}
    with Guard(R, 'root'):
        A = Analysis(P)
        g = A.run(new.key, [('y', 'typ', 0)])
        R.seen(A)
        for n in g.terms('ret'):
            H = ('h', 10001)
            mem = {c: v for c, v in n.state.mem.items() if c[0] in ('h', 'd')}
            mem[H] = n.info
            nm = 'root'
            with Guard(R, 'root:%d' % n.id):
                E = run_emit(enc.key, [('ref', H, ()), ('y', 'writer', 0), ('y', 'source', 0)], n.state.facts, mem, ('arr', ()), A, nm)
                for k, v in E.nested.items():
                    nested.setdefault(k, set()).update(v)
        if not g.terms('ret'):
            R.undecided('root', 'JsonEncoder::new never returns')
    if not nested:
        R.undecided('nested', 'no nested emission found')
    PFX = ('adt', 'crate::core::types::Path', 0, (('y', 'pfx', 0),))
    done = set()
    while True:
        todo = [(k, p) for k, ps in nested.items() for p in ps if (k, p) not in done]
        if not todo:
            break
        for key, vpath in sorted(todo, key=str):
            done.add((key, vpath))
            with Guard(R, 'nested:%s' % P.funcs[key].path):
                F = P.funcs[key]
                args = []
                mem0 = {}
                for i in range(F.nargs):
                    ti = F.locals[i + 1]
                    t = P.types[ti]
                    b = t
                    while b['k'] == 'ref':
                        b = P.types[b['t']]
                    if b['k'] == 'adt' and b['adt'] == 'crate::core::types::Path':
                        if t['k'] == 'ref':
                            mem0[('h', 10002)] = PFX
                            args.append(('ref', ('h', 10002), ()))
                        else:
                            args.append(PFX)
                    elif b['k'] == 'adt' and b['adt'] == 'crate::core::types::Type':
                        args.append(('y', 'typ', 0))
                    elif b['k'] == 'dyn' and 'DataSource' in b['s']:
                        args.append(('y', 'source', 0))
                    else:
                        args.append(('y', 'arg%d' % i, 0))
                if vpath is None:
                    E = run_emit(key, args, None, mem0, ('y', 'pfx', 0), None, 'nested')
                    for k, v in E.nested.items():
                        nested.setdefault(k, set()).update(v)
                    continue
                A = Analysis(P)
                g = A.run(key, args, mem=mem0)
                R.seen(A)
                for n in g.terms('ret'):
                    with Guard(R, 'nested:%s:%d' % (P.funcs[key].path, n.id)):
                        mem = {c: v for c, v in n.state.mem.items() if c[0] in ('h', 'd')}
                        H = ('h', 10001)
                        mem[H] = n.info
                        v = n.info
                        tk, recv = resolve(A, P, v, vpath, H)
                        if tk is None:
                            R.undecided('nested:%s' % vpath, 'receiver of %s not resolved: %s' % (vpath, pp(P, v)))
                            continue
                        G = P.funcs[tk]
                        a = [recv]
                        for i in range(1, G.nargs):
                            t = P.types[G.locals[i + 1]]
                            s = t['s']
                            a.append(('y', 'writer', 0) if 'Write' in s else ('y', 'source', 0) if 'DataSource' in s else ('y', 'x%d' % i, 0))
                        E = run_emit(tk, a, n.state.facts, mem, ('y', 'pfx', 0), A, 'nested')
                        for k, vv in E.nested.items():
                            nested.setdefault(k, set()).update(vv)
    for where in ('root', 'nested'):
        for k in ('Unit', 'String', 'Tuple', 'Struct', 'Enum'):
            if (where, k, None) not in kinds:
                R.undecided('%s/%s' % (where, k), 'no document of this kind was reached')
        for p in TI.prims:
            if (where, 'Primitive', p) not in kinds:
                R.undecided('%s/Primitive/%s' % (where, p), 'no document of this primitive was reached')
    R.count('kinds_covered', len(kinds))


def resolve(A, P, v, vpath, H):
    projs = ()
    ty = None
    for _ in range(6):
        if v[0] == 'dyn':
            ty = v[2]
            v = v[1]
            projs += (('dy',),)
        elif v[0] == 'box':
            v = v[1]
            projs += (('bx',),)
        else:
            break
    if ty is not None:
        t = P.types[ty]
        nm = t['s']
        k = P.vt.get((nm, vpath))
        if k is None and t['k'] == 'adt' and t['args']:
            k = P.vt.get((P.tstr(t['args'][0]), vpath))
        if k in P.funcs:
            return k, ('ref', H, projs)
    return None, None


def c01(ctx, R):
    """every character of every string, label and char value is written as exactly one JSON string unit that denotes it"""
    analyse(ctx, R, ('chars',))


def c05(ctx, R):
    """the bytes written for a type of each kind are the JSON document of that kind"""
    analyse(ctx, R, ('shape',))


def c06(ctx, R):
    """encode returns Ok only if every byte was accepted by the writer"""
    analyse(ctx, R, ('io',))
