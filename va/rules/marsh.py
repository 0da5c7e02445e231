"""C12-C14: the binary format round-trips, has the size it says, and stays inside its buffer."""
import itertools
from .common import *
from ..bytesmem import ByteAnalysis, low
from ..engine import Budget
from .. import models
from ..witness import search, Unknown

MO = 'crate::core::marshaller::'
TM = 'crate::core::types::'
DSP = 'crate::core::data_source::DataSource::'
BUF = ('h', 9000)
PRIMS = ('Bool', 'Char', 'F32', 'F64', 'U8', 'U16', 'U32', 'U64', 'U128', 'I8', 'I16', 'I32', 'I64', 'I128')
SIZE = {'Bool': 1, 'Char': 4, 'F32': 4, 'F64': 8, 'U8': 1, 'U16': 2, 'U32': 4, 'U64': 8, 'U128': 16, 'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}
S, U = ('String',), ('Unit',)


def p(n):
    return ('Primitive', n)


def tup(*a):
    return ('Tuple',) + a


def struct(*a):
    return ('Struct',) + a


def enum(*a):
    return ('Enum',) + a


def shape(t):
    k = t[0]
    if k == 'Primitive':
        return t[1].lower()
    if k in ('Unit', 'String'):
        return k.lower()
    xs = list(t[1:])
    if len(xs) > 6 and len(set(map(repr, xs))) <= 2:
        return '%s of %d (%s..)' % (k.lower(), len(xs), shape(xs[0]))
    return '%s(%s)' % (k.lower(), ', '.join(map(shape, xs)))


def leaves(t, path, tags):
    """active leaves: (kind, primitive or tag, path); tags: path -> chosen case"""
    k = t[0]
    if k == 'Primitive':
        yield ('prim', t[1], path)
    elif k == 'String':
        yield ('str', None, path)
    elif k in ('Tuple', 'Struct'):
        for i, x in enumerate(t[1:]):
            yield from leaves(x, path + (i,), tags)
    elif k == 'Enum':
        yield ('tag', tags[path], path)
        c = tags[path]
        yield from leaves(t[1 + c], path + (c,), tags)


def tagsets(t, path=()):
    """choices of cases: first, second, middle and last of every active enum, all combinations up to a limit"""
    k = t[0]
    if k in ('Tuple', 'Struct'):
        parts = [list(tagsets(x, path + (i,))) for i, x in enumerate(t[1:])]
        out = []
        n = max([len(q) for q in parts] + [1])
        total = 1
        for q in parts:
            total *= len(q)
        if total <= 12:
            combos = itertools.product(*parts)
        else:
            combos = ([q[(j * (1 + i) + j // len(q) * i) % len(q)] for i, q in enumerate(parts)] for j in range(max(n, 8)))
        for cmb in combos:
            d = {}
            for x in cmb:
                d.update(x)
            out.append(d)
        return out
    if k == 'Enum':
        n = len(t) - 1
        out = []
        for c in sorted({0, 1 % n, n // 2, n - 1}) if n > 4 else range(n):
            for d in tagsets(t[1 + c], path + (c,)):
                e = dict(d)
                e[path] = c
                out.append(e)
        return out
    return [{}]


class Marsh:
    deep = False

    def __init__(self, P, t):
        self.P = P
        self.t = t
        self.A = A = ByteAnalysis(P, unroll=700)
        A.recdepth = 14
        Budget.per_run = 40 if not Marsh.deep else 200
        self.tags = {}
        self.lens = {}
        self.liar = False       # a source whose lengths are not those of its strings
        self.path_of = {}
        for name, h in self.source_hooks().items():
            A.hooks[DSP + name] = h
        self.paths = {}

    # -------------------------------------------------------- building values
    def one(self, name, *args, mem=None, facts=None):
        f = self.P.one(name)
        self.A.opaque_log.clear()
        g = self.A.run(f.key, list(args), mem=mem or {}, facts=facts or {})
        rs = [n.info for n in g.terms('ret')]
        if len(rs) != 1 or g.terms('panic'):
            raise Imprecise('%s: %d results, %d panics%s' % (name, len(rs), len(g.terms('panic')), ''.join(' ' + str(n.info[:2]) for n in g.terms('panic')[:2])))
        if self.A.opaque_log:
            raise Imprecise('not understood: %s' % sorted(map(str, self.A.opaque_log))[:3])
        return rs[0]

    def typ(self, t):
        P = self.P
        T, K = TM + 'Type', TM + 'Kind'

        def mk(kind, *a):
            return ('adt', T, 0, (('adt', K, variant(P, K, kind), a),))
        k = t[0]
        if k == 'Primitive':
            return mk(k, ('adt', TM + 'Primitive', variant(P, TM + 'Primitive', t[1]), ()))
        if k in ('Unit', 'String'):
            return mk(k)
        sub = [('box', self.typ(x)) for x in t[1:]]
        if k == 'Tuple':
            return mk(k, ('arr', tuple(sub)))
        ad = TM + {'Struct': 'Field', 'Enum': 'Case'}[k]
        names = [f['name'] for f in P.adts[ad]['variants'][0]['fields']]
        return mk(k, ('arr', tuple(('adt', ad, 0, tuple(('str', 'f%d' % i) if n == 'label' else x for n in names)) for i, x in enumerate(sub))))

    def path(self, tpl):
        if tpl not in self.paths:
            if not tpl:
                v = self.one(TM + 'Path::create_empty')
            else:
                v = self.one(TM + 'Path::with_component', ('ref', ('k', self.path(tpl[:-1])), ()), I(tpl[-1]))
            self.paths[tpl] = v
            self.path_of[v] = tpl
        return self.paths[tpl]

    def prepare(self, allpaths):
        for x in allpaths:
            self.path(x)

    # -------------------------------------------------------- runs
    def scenario(self, tags):
        self.tags = tags
        self.active = set()
        self.values = []
        for kind, x, path in leaves(self.t, (), tags):
            self.values.append((kind, x, path))
            if kind != 'tag':
                self.active.add((kind, x, path))
        self.wrong = []
        self.facts = {}
        for kind, x, path in self.values:
            if kind == 'str':
                self.facts[mk_len(sym('str', path))] = ((0, (1 << 32) - 1),)

    def run(self, name, args, facts, mem):
        f = self.P.one(name)
        self.A.opaque_log.clear()
        g = self.A.run(f.key, args, facts=dict(facts), mem={c: x for c, x in mem.items() if c[0] == 'h' and c[1] >= 9000})
        if self.A.opaque_log:
            raise Imprecise('not understood: %s' % sorted(map(str, self.A.opaque_log))[:3])
        return [(n.info, n.state) for n in g.terms('ret')], g.terms('panic')

    def layout_of(self, R, name):
        """the marshaller of the type; None if it cannot be had"""
        f = self.P.one(MO + 'Layout::new')
        self.A.opaque_log.clear()
        g = self.A.run(f.key, [('ref', ('k', self.typ(self.t)), ())])
        for n in g.terms('panic'):
            if self.A.opaque_log or n.state.facts:
                R.undecided('layout:panic', 'Layout::new may panic: %s' % (n.info[:2],), n.info[2], ob=name)
            else:
                R.bad('layout:panic', 'Layout::new panics (%s) for the type %s' % (n.info[0], name), n.info[2], ob=name)
        rs = [n.info for n in g.terms('ret')]
        if len(rs) != 1 or self.A.opaque_log:
            if R.obl.get(name) == 'ok':
                R.undecided(name + ':layout', '%d layouts, not understood: %s' % (len(rs), sorted(map(str, self.A.opaque_log))[:3]), ob=name)
            return None
        return self.one(MO + 'Marshaller::new', ('box', rs[0]))

    def read(self, mv, get, path, st, size):
        mds = self.mds(mv, size)
        return self.run(self.getter(get), [('ref', ('k', mds), ()), path], st.facts, st.mem)

    def mds(self, mv, size):
        data = ('ref', BUF, (('s', I(0), size),))
        return self.one(MO + "MarshallerDataSource::<'a, 'b>::new", ('ref', ('k', mv), ()), data, mem={BUF: UNDEF})

    def getter(self, get):
        for f in self.P.funcs.values():
            if f.path.endswith('>::' + get) and 'MarshallerDataSource' in f.path:
                return f.path
        raise Imprecise('no %s' % get)

    def size(self, m):
        src = ('ref', ('k', ('y', 'source', 0)), ())
        return self.run(MO + 'Marshaller::encoding_size', [('ref', ('k', m), ()), src], self.facts, {})

    def encode(self, m, facts, blen):
        src = ('ref', ('k', ('y', 'source', 0)), ())
        mem = {BUF: ('bytes', ('t', 'buf', blen), ())}
        return self.run(MO + 'Marshaller::encode', [('ref', ('k', m), ()), src, ('ref', BUF, ())], facts, mem)

    # -------------------------------------------------------- the source
    def source_hooks(self):
        def where(A, st, c):
            v = loadall(A, st, c.args[1])
            return self.path_of.get(v), v

        def prim(name):
            def h(A, st, c, w):
                tpl, v = where(A, st, c)
                if tpl is None:
                    raise Imprecise('source asked for an unknown path %s' % pp(self.P, v))
                self.asked(A, st, c, 'prim', name, tpl)
                s = sym(name, tpl)
                A.TY.setdefault(s, c.dty)
                return [(st, s)]
            return h

        def tag(A, st, c, w):
            tpl, v = where(A, st, c)
            if tpl not in self.tags:
                self.wrong.append(('asks for the case of an inactive or non-enum element %s' % (tpl,), c.site))
                return None
            return [(st, I(self.tags[tpl]))]

        def length(A, st, c, w):
            tpl, v = where(A, st, c)
            if tpl is None:
                raise Imprecise('source asked for an unknown path %s' % pp(self.P, v))
            self.asked(A, st, c, 'str', None, tpl)
            if self.liar:
                A.TY.setdefault(sym('len', tpl), c.dty)
                return [(st, sym('len', tpl))]
            return [(st, mk_len(sym('str', tpl)))]

        def bytes_(A, st, c, w):
            tpl, v = where(A, st, c)
            if tpl is None:
                raise Imprecise('source asked for an unknown path %s' % pp(self.P, v))
            self.asked(A, st, c, 'str', None, tpl)
            return [(st, ('ref', ('k', sym('str', tpl)), ()))]
        d = {'get_' + n.lower(): prim(n) for n in PRIMS}
        d.update(get_case_tag=tag, get_length=length, get_bytes=bytes_)
        return d

    def asked(self, A, st, c, kind, name, tpl):
        if (kind, name, tpl) not in self.active:
            self.wrong.append(('asks for %s at %s, which is not part of the value' % (name or 'a string', tpl), c.site))


def sym(kind, tpl):
    return ('y', '%s:%s' % (kind, '.'.join(map(str, tpl))), 0)


def subpaths(t, path=()):
    yield path
    for i, x in enumerate(t[1:] if t[0] in ('Tuple', 'Struct', 'Enum') else ()):
        yield from subpaths(x, path + (i,))


def family(thorough=False):
    out = [U, S] + [p(n) for n in PRIMS]
    out += [tup(*[p(n) for n in PRIMS]), struct(*[p(n) for n in reversed(PRIMS)]), tup(S, S, S), struct(p('U8'), S, p('U64'), S), tup(U, S, U), tup(U), struct(S, struct(p('U128'), S), p('Bool'), tup(p('U16'), S))]
    e1 = enum(p('U8'))
    e2 = enum(p('U64'), S)
    out += [e1, e2, enum(U, U), enum(U, p('U128'), S), enum(S, U, p('U16'), tup(p('U8'), p('U32')), p('Char'))]
    out += [enum(*[U] * 16), enum(*[U] * 17), enum(*([U] * 128 + [p('U16')])), enum(*[U] * 256), enum(*([p('U8')] + [U] * 256))]
    out += [tup(e2, e2), tup(e1, e1), tup(enum(*[U] * 3), enum(*[U] * 5), enum(*[U] * 9)), tup(*[enum(*[U] * 3)] * 5), tup(*[enum(U, p('I32'))] * 9), tup(enum(*[U] * 17), enum(*[U] * 2), enum(*[U] * 33)),
            tup(enum(*[U] * 16), enum(U, S, U), enum(U, U), enum(p('U16'), U)), tup(enum(*[U] * 5), enum(*[U] * 5), enum(*[U] * 4)), tup(S, enum(*([U] * 4 + [S])), p('U32'), enum(*([p('U8')] + [U] * 7)), enum(S, U))]
    if thorough:
        out += [tup(enum(*[U] * 129), enum(*[U] * 2), enum(*[U] * 257)), tup(enum(*[U] * 257), enum(*([U] * 32 + [S])), enum(U, U), S)]
    out += [struct(p('U8'), S, p('U64'), enum(p('U64'), p('U8'), U), S), tup(S, enum(S, tup(S, p('U128'))), S, e2), struct(enum(struct(p('U8'), S), p('U128')), p('U8'))]
    out += [enum(e2, S), enum(enum(e2, U), enum(p('U16'), e1)), tup(p('U8'), enum(tup(p('U8'), e2), S), S), struct(S, enum(p('U8'), enum(S, tup(enum(U, S, p('I64')), p('U16')))), p('U16'))]
    out += [tup(enum(p('U8'), U), enum(p('U128'), U), enum(p('U32'), U), S), tup(enum(S, U), enum(p('U64'), U)), tup(enum(tup(p('U8'), p('U16')), S), p('U8'))]
    return out


EXTRA = ('y', 'extra', 0)
LEN = ('y', 'length', 0)


def drawer(m, blen=None):
    def draw(rng):
        env = {EXTRA: rng.choice([0, 0, 1, 3, 8, 20]), LEN: rng.choice([0, 1, 2, 3, 4, 7, 8, 12, 16, 24, 40]) if rng.random() < .6 else rng.randrange(0, 120)}
        seed = rng.randrange(1 << 30)
        mode = rng.randrange(4)
        small = rng.randrange(1, 6)
        env['fill'] = 0 if mode == 0 else 255 if mode == 1 else (lambda i: (seed * (2 * i + 1) >> 9) & 255) if mode == 2 else (lambda i: (seed * (2 * i + 1) >> 9) % small)
        for kind, x, path in m.values:
            if kind == 'prim':
                n = SIZE[x]
                v = rng.getrandbits(8 * n)
                if rng.random() < .2:
                    v = rng.choice([0, (1 << 8 * n) - 1, 1, 1 << (8 * n - 1)])
                env[sym(x, path)] = v & 1 if x == 'Bool' else v % 0xd800 if x == 'Char' else v
            elif kind == 'str':
                k = rng.randrange(0, 6) if rng.random() < .7 else rng.randrange(0, 40) if rng.random() < .9 else rng.choice([255, 256, 65536])
                env[sym('len', path)] = k if rng.random() < .5 else rng.choice([0, 1, k + 1, max(0, k - 1), 255, (1 << 32) - 1])
                env[sym('str', path)] = [rng.randrange(256) for _ in range(k)]
        return env
    return draw


def example(m, env):
    out = []
    for kind, x, path in m.values:
        n = '.'.join(map(str, path))
        if kind == 'tag':
            out.append('%s=case %d' % (n, x))
        elif kind == 'str':
            out.append('%s=%d bytes' % (n, len(env[sym('str', path)])))
        else:
            out.append('%s=%#x' % (n, env[sym(x, path)]))
    return ', '.join(out[:8])


def judge(R, m, st, check, key, msg, name, site=None):
    """a violation if a concrete value shows it, else undecided"""
    w = search(st, drawer(m), check, tries=300)
    if w:
        R.bad(key, '%s: %s; for %s' % (msg, w[1], example(m, w[0])), site, ob=name)
    elif not m.A.infeasible(st):
        R.undecided(key, msg, site, ob=name)


def scenarios(ctx, R, fn, names=('new', 'encode', 'encoding_size')):
    """fn(R, m, marshaller, name) for every shape of type and choice of cases"""
    P = ctx.P
    for x in [MO + 'Layout::new'] + [MO + 'Marshaller::' + n for n in names]:
        if anchor(R, P, x) is None:
            return
    fam = family(ctx.tier == 'thorough')
    Marsh.deep = ctx.tier == 'thorough'
    order = sorted(range(len(fam)), key=lambda i: -len(list(subpaths(fam[i]))))

    def job(R, i):
        t = fam[i]
        name = shape(t)
        with Guard(R, name):
            m = Marsh(P, t)
            m.prepare(subpaths(t))
            mv = m.layout_of(R, name)
            if mv is None:
                return
            for tags in tagsets(t):
                m.scenario(tags)
                nm = name + ''.join(' %s=%d' % ('.'.join(map(str, k)) or 'root', v) for k, v in sorted(tags.items()))
                with Guard(R, nm):
                    fn(R, m, mv, nm)
                    R.count('values')
            R.seen(m.A)
    parallel(R, order, job)


def encoded(R, m, mv, name, exact=False):
    """[(size, [(returned size, state)])], one for each path through the size computation, of encoding the value into a buffer that is long enough"""
    rs, ps = m.size(mv)
    for n in ps:
        judge(R, m, n.state, lambda ev: 'panics', 'size:panic', 'computing the encoded size panics (%s)' % n.info[0], name, n.info[2])
    if not 1 <= len(rs) <= 16:
        R.undecided(name + ':size', '%d results' % len(rs), ob=name)
        return []
    out = []
    for size, st in rs:
        facts = dict(st.facts)
        blen = size
        if not exact:
            facts[EXTRA] = ((0, 1 << 40),)
            blen = ladd(size, EXTRA)
        m.wrong.clear()
        es, ps = m.encode(mv, facts, blen)
        for n in ps:
            judge(R, m, n.state, lambda ev: 'panics', 'encode:panic', 'encoding into a buffer of the announced size panics (%s)' % n.info[0], name, n.info[2])
        for what, site in m.wrong:
            R.bad('source', 'the encoder %s' % what, site, ob=name)
        if not es and not ps:
            R.undecided(name + ':encode', 'no result', ob=name)
        out.append((size, es))
    return out


def c12(ctx, R):
    """Encoding a value and reading it back yields every primitive, string, length and case of it. The layout of each type of the family
    is computed by evaluating Layout::new on it; encode and the getters are evaluated with symbolic leaf values, string lengths, buffer
    contents and buffer length, for every choice of enum cases of the family."""
    def one(R, m, mv, name):
        for size, st in [(size, st) for size, rs in encoded(R, m, mv, name) for _, st in rs]:
            for kind, x, path in m.values:
                pr = ('ref', ('k', m.path(path)), ())
                gets = {'prim': ['get_' + str(x).lower()], 'str': ['get_length', 'get_bytes'], 'tag': ['get_case_tag']}[kind]
                for get in gets:
                    R.count('reads')
                    rets, pans = m.read(mv, get, pr, st, size)
                    for n in pans:
                        judge(R, m, n.state, lambda ev: 'panics', get + ':panic', '%s of a part of an encoded value panics (%s)' % (get, n.info[0]), name, n.info[2])
                    for v, s in rets:
                        compare(R, m, get, kind, x, path, v, s, name)
    scenarios(ctx, R, one)


def compare(R, m, get, kind, x, path, v, s, name):
    A = m.A
    msg = '%s does not return what was encoded' % get
    if kind == 'tag':
        if A.conc(s, v) == I(x):
            return
        judge(R, m, s, lambda ev: ev.n(v) != x and 'case %d instead of %d' % (ev.n(v), x), get, msg, name)
    elif kind == 'prim':
        want = sym(x, path)
        if v == want:
            return
        mask = (1 << 8 * SIZE[x]) - 1
        judge(R, m, s, lambda ev: (ev.n(v) ^ ev.n(want)) & mask and '%#x instead of %#x' % (ev.n(v) & mask, ev.n(want) & mask), get, msg, name)
    elif get == 'get_length':
        want = mk_len(sym('str', path))
        if A.decide(s, mk_eq0(lsub(v, want))) is True:
            return
        judge(R, m, s, lambda ev: ev.n(v) != ev.n(want) and '%d instead of %d' % (ev.n(v), ev.n(want)), get, msg, name)
    else:
        want = sym('str', path)
        got = loadall(A, s, v)
        if got == want:
            return
        judge(R, m, s, lambda ev: ev.b(got) != ev.b(want) and '%s instead of %s' % (bytes(ev.b(got)[:12]).hex(), bytes(ev.b(want)[:12]).hex()), get, msg, name)


def c13(ctx, R):
    """The encoded size announced for a value is the size encode returns; encoding into a buffer of exactly that size succeeds, and no byte
    beyond it is written in a longer one. Decided on the MIR for symbolic values, string lengths and buffer lengths."""
    def one(R, m, mv, name):
        A = m.A
        for exact in (True, False):
            for size, v, st in [(size, v, st) for size, rs in encoded(R, m, mv, name, exact) for v, st in rs]:
                if A.decide(st, mk_eq0(lsub(v, size))) is not True:
                    judge(R, m, st, lambda ev: ev.n(v) != ev.n(size) and '%d instead of %d' % (ev.n(v), ev.n(size)), 'size:differs', 'encode returns another size than encoding_size', name)
                if exact:
                    continue
                b = st.mem[BUF]
                for o, n, val, ti in b[2] if b[0] == 'bytes' else ():
                    R.count('writes')
                    if A.proves(st, lsub(size, ladd(o, n))):
                        continue
                    judge(R, m, st, lambda ev: ev.n(n) > 0 and ev.n(ladd(o, n)) > ev.n(size) and 'writes up to byte %d of %d' % (ev.n(ladd(o, n)), ev.n(size)),
                          'size:beyond', 'encode writes beyond the announced size', name)
    scenarios(ctx, R, one)


# ------------------------------------------------------------------ C14
OFFS = ('y', 'offset', 0)
INDEX = ('y', 'index', 0)
MAXLEN = 1 << 62


def small(t):
    """number of paths a read of arbitrary data may take"""
    k = t[0]
    if k in ('Tuple', 'Struct'):
        n = 1
        for x in t[1:]:
            n *= small(x)
        return n
    if k == 'Enum':
        b = max(len(t) - 2, 0).bit_length()
        return (1 if len(t) == 2 else (1 << b) - len(t) + 1) + sum(small(x) for x in t[1:])
    return 1


def fork_index(A, st, c, w):
    """an index into a known list: one path per element"""
    ref, idx = c.args[0], A.conc(st, c.args[1])
    if idx[0] == 'i' or A.prog.types[c.atys[1]]['k'] == 'adt' or ref[0] != 'ref':
        return models.index_impl(A, st, c, w)
    v = A.read(st, ref[1], ref[2])
    if v[0] == 'box':
        v = v[1]
    if v[0] == 'ref':
        v = loadall(A, st, v)
    if v[0] != 'arr':
        return models.index_impl(A, st, c, w)
    out = []
    rest = st
    for k in range(len(v[1])):
        t, rest = split(A, rest, mk_eq0(lsub(idx, I(k))))
        if t:
            out.append((t, models.elemref(A, t, ref, I(k))))
        if not rest:
            break
    if rest:
        t, f = split(A, rest, mk_ge0(ladd(lsub(I(len(v[1])), idx), I(-1))))
        if f:
            A.panic(f, c.site, 'index out of bounds')
        if t:
            raise Imprecise('an index that is no number')
    return out or None


INDEXERS = [q for q, h in models.HOOKS.items() if h is models.index_impl]


def inside(R, A, draw, name, what, covered):
    """every raw access of the runs of A was inside its slice, whatever the data"""
    for (fn, msg), where in sorted(A.raw_viol.items(), key=str):
        for st, site in where:
            short = fn.replace('crate::', '')
            if st is None:
                R.bad('%s:%s' % (short, msg), '%s %s (in %s)' % (short, msg, what), site, ob=name)
                continue
            r = search(st, draw, lambda ev: 'possible', tries=600)
            if r:
                env = {k: v for k, v in r[0].items() if k != 'fill'}
                show = ', '.join('%s=%s' % (k[1], v if not isinstance(v, list) else '%d bytes' % len(v)) for k, v in sorted(env.items(), key=str)[:6])
                R.bad('%s:%s' % (short, msg), '%s: %s in %s; for %s' % (short, msg, what, show), site, ob=name)
            elif not A.infeasible(st):
                R.undecided('%s:%s' % (short, msg), 'cannot show that no %s in %s' % (msg, what), site, ob=name)
    for (fn, site), n in A.raw_ok.items():
        covered.add((fn, site))
        R.count('raw_accesses', n)
    A.raw_viol.clear()
    A.raw_ok.clear()


def c14(ctx, R):
    """Whatever bytes a buffer holds and however long it is, the binary format and the row pages access nothing outside it: every read and
    write through a raw pointer is within the slice the pointer comes from, is done unaligned, and does not write to shared data. Decided
    on the MIR: util::get_value/set_value, the page operations, encode (every type and case of the family) and the getters of marshalled
    data, with buffer length and contents unknown."""
    P = ctx.P
    for x in (MO + 'Marshaller::encode', MO + 'Marshaller::new', MO + 'Layout::new', 'crate::core::nsm::PageFormat::new'):
        if anchor(R, P, x) is None:
            return
    fam = family(ctx.tier == 'thorough')
    Marsh.deep = ctx.tier == 'thorough'
    jobs = [('encode', t) for t in sorted(fam, key=lambda t: -len(list(subpaths(t)))) if ctx.tier == 'thorough' or len(list(subpaths(t))) < 200]
    jobs += [('get', t) for t in fam if small(t) <= 40]
    jobs += [('util', n) for n in ('get_value', 'set_value')]
    jobs += [('page', al, n) for al in (1, 4, 8) for n in ('initialize_page', 'num_rows', 'get_row', 'max_insert_row_size', 'append_row', 'insert_row', 'remove_row')]

    def job(R, j):
        {'encode': c14_encode, 'get': c14_get, 'util': c14_util, 'page': c14_page}[j[0]](R, P, *j[1:])
    parallel(R, jobs, job)


def c14_encode(R, P, t):
    name = 'encode ' + shape(t)
    with Guard(R, name):
        m = Marsh(P, t)
        m.prepare(subpaths(t))
        mv = m.layout_of(R, name)
        if mv is None:
            return
        for tags in tagsets(t):
            m.scenario(tags)
            nm = name + ''.join(' %s=%d' % ('.'.join(map(str, k)) or 'root', v) for k, v in sorted(tags.items()))
            with Guard(R, nm):
                R.ob(nm)
                facts = dict(m.facts)
                facts[LEN] = ((0, MAXLEN),)
                for m.liar in (False, True):
                    if m.liar and not m.facts:
                        continue
                    m.encode(mv, facts, LEN)
                    inside(R, m.A, drawer(m), nm, 'encoding %s into a buffer of any length' % shape(t), set())
        R.seen(m.A)


def arbitrary(m, consts=()):
    def draw(rng):
        env = drawer(m)(rng)
        for k, f in consts:
            env[k] = f(rng)
        return env
    return draw


def c14_get(R, P, t):
    name = 'read ' + shape(t)
    with Guard(R, name):
        m = Marsh(P, t)
        for q in INDEXERS:
            m.A.hooks[q] = fork_index
        m.prepare(subpaths(t))
        mv = m.layout_of(R, name)
        if mv is None:
            return
        m.values = []
        m.tags = {}
        mem = {BUF: ('bytes', ('t', 'buf', LEN), ())}
        mds = m.mds(mv, LEN)
        gets = ['get_case_tag', 'get_length', 'get_bytes', 'get_u8', 'get_u128', 'get_bool', 'get_char', 'get_i64']
        for path in list(subpaths(t))[:24]:
            for get in gets:
                nm = '%s %s %s' % (name, '.'.join(map(str, path)) or 'root', get)
                with Guard(R, nm):
                    R.ob(nm)
                    m.run(m.getter(get), [('ref', ('k', mds), ()), ('ref', ('k', m.path(path)), ())], {LEN: ((0, MAXLEN),)}, mem)
                    inside(R, m.A, drawer(m), nm, '%s of arbitrary data for %s' % (get, shape(t)), set())
        R.seen(m.A)


def c14_util(R, P, fn):
    fs = [f for f in P.funcs.values() if f.path == 'crate::core::util::' + fn]
    if not fs:
        R.undecided('no ' + fn, 'no use of util::%s was compiled' % fn, ob='util ' + fn)
        return
    for f in fs:
        name = 'util %s %s' % (fn, f.key)
        with Guard(R, name):
            R.ob(name)
            A = ByteAnalysis(P)
            A.run(f.key, [('ref', BUF, ()), OFFS] + ([('y', 'value', 0)] if fn == 'set_value' else []),
                  facts={LEN: ((0, MAXLEN),), OFFS: ((0, (1 << 64) - 1),)}, mem={BUF: ('bytes', ('t', 'buf', LEN), ())})

            def draw(rng):
                n = rng.randrange(0, 12)
                return {LEN: n, OFFS: rng.choice([0, n, max(0, n - rng.randrange(5)), n + 1, (1 << 64) - 1 - rng.randrange(6)]), ('y', 'value', 0): 1, 'fill': 0}
            inside(R, A, draw, name, 'a buffer of any length at any offset', set())
            R.seen(A)


def c14_page(R, P, al, fn):
    """first with recorded contents and a few rounds of every loop, to find violations; then with contents left open, to exclude them"""
    from .nsm import PF
    name = 'page %d %s' % (al, fn)
    with Guard(R, name):
        R.ob(name)
        f = P.one(PF + '::' + fn)
        if f is None:
            raise Imprecise('no %s' % fn)
        row = ('y', 'row', 0)

        def draw(rng):
            k = rng.choice([1, 2, 3, 5, 255])
            return {LEN: rng.choice([0, 1, 2, 3, 4, 7, 8, 12, 16, 24, 40, 64]), INDEX: rng.choice([0, 0, 1, 2, 3, 5, (1 << 62), (1 << 64) - 1]),
                    row: [1] * rng.randrange(0, 12), 'fill': rng.choice([0, 255, lambda i: (i * 73 + k) & 255, lambda i: k if i % 4 == 0 else 0])}
        for forget in (False, True):
            A = ByteAnalysis(P, unroll=2) if not forget else ByteAnalysis(P)
            Budget.per_run = 60 if forget else 12
            g = A.run(P.one(PF + '::new').key, [I(al)])
            (fmt,) = [n.info for n in g.terms('ret')]
            args = [('ref', ('k', fmt), ()), ('ref', BUF, ())]
            facts = {LEN: ((0, MAXLEN),)}
            mem = {BUF: ('bytes', ('t', 'buf', LEN), ()), ('h', 9100): row}
            if fn in ('get_row', 'insert_row', 'remove_row'):
                args.append(INDEX)
                facts[INDEX] = ((0, (1 << 64) - 1),)
            if fn in ('append_row', 'insert_row'):
                args.append(('ref', ('h', 9100), ()))
            A.opaque_log.clear()
            A.forget = forget
            try:
                A.run(f.key, args, facts=facts, mem=mem)
            except Imprecise:
                if forget:
                    raise
            if A.opaque_log:
                raise Imprecise('not understood: %s' % sorted(map(str, A.opaque_log))[:3])
            if not forget:
                A.raw_viol = {k: [x for x in v if x[0] is None or search(x[0], draw, lambda ev: 'possible', tries=600)] for k, v in A.raw_viol.items()}
            inside(R, A, draw, name, '%s of a page with arbitrary contents' % fn, set())
            R.seen(A)
