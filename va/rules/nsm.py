"""C16, C17: slotted pages behave like the list of their rows."""
from .common import *
from ..bytesmem import ByteAnalysis, low
from ..engine import Budget
from ..witness import search

PF = 'crate::core::nsm::PageFormat'
CELL = ('h', 9000)
M = ('y', 'pages', 0)
OFF = 4
IDX = ('y', 'index', 0)
OPS1 = [('append', 1), ('insert', 0), ('insert', 1), ('remove', 0)]


class Page:
    def __init__(self, P, al):
        self.P = P
        self.al = al
        self.A = ByteAnalysis(P, unroll=60)
        Budget.per_run = 12
        self.plen = lscale(M, al)
        lo = max(1, -(-OFF // al))
        self.facts = {M: ((lo, ((1 << 32) - 1) // al),)}
        self.mem = {CELL: ('bytes', ('t', 'buf', self.plen), ())}
        self.fmt = self.make()
        self.ref = ('ref', CELL, ())
        self.n = 0

    def make(self):
        f = self.P.one(PF + '::new')
        g = self.A.run(f.key, [I(self.al)])
        (r,) = [n.info for n in g.terms('ret')]
        return ('ref', ('k', r), ())

    def call(self, fn, args, facts, mem, *more):
        """(results [(value, state)], panics [node])"""
        f = self.P.one(PF + '::' + fn)
        mem = {c: x for c, x in mem.items() if c[0] == 'h' and c[1] >= 9000}
        self.A.opaque_log.clear()
        g = self.A.run(f.key, [self.fmt] + args, facts=dict(facts), mem=mem)
        return [(n.info, n.state) for n in g.terms('ret')], g.terms('panic')

    def row(self, mem, k):
        """a fresh row of any length and content; row(k) is the same for the same k"""
        c = ('h', 9100 + k)
        r = ('y', 'row%d' % k, 0)
        m = dict(mem)
        m[c] = r
        return ('ref', c, ()), r, m


def drawer(al, rows, base=0):
    def draw(rng):
        m = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 16, 32]) if rng.random() < .7 else rng.randrange(1, 40)
        pl = max(1, -(-OFF // al)) * al
        pl = max(pl, m * max(1, rng.choice([al, 8]) // al) * al)
        if rng.random() < .04:
            pl += 65536 + 4096 * rng.randrange(8)
        env = {M: pl // al, 'fill': rng.choice([0, 0xff, lambda i: (i * 73 + 41) & 255])}
        env[IDX] = base + rng.choice([0, 1, 2, 5, (1 << 62) - base, (1 << 64) - 1 - base])
        left = pl - 4
        for k in range(rows):
            left = max(0, left - 4)
            mode = rng.randrange(6)
            n = left + rng.randrange(0, 2 * al + 9) if mode == 5 and k == rows - 1 else rng.randrange(0, 9) if mode < 2 else left if mode == 2 else rng.randrange(0, left + 1) if mode == 3 else max(0, left - rng.randrange(0, al + 4))
            env[('y', 'row%d' % k, 0)] = [(k * 61 + j * 7 + 129) & 255 for j in range(n)]
            left -= -(-n // al) * al
            left = max(0, left)
        return env
    return draw


def upper(pg, model):
    """where the rows begin"""
    used = I(0)
    for r in model:
        used = ladd(used, up(pg.al, mk_len(r)))
    return lsub(pg.plen, used)


def fits(pg, model, r):
    """the row and one more offset fit between the offsets and the rows"""
    return mk_ge0(lsub(upper(pg, model), ladd(up(pg.al, mk_len(r)), I(OFF * (len(model) + 2)))))


def up(al, n):
    """n rounded up to a multiple of al"""
    e = ladd(n, I(al - 1))
    return lsub(e, low(al, e))


def step(pg, R, st, model, op, name, depth):
    """run one operation under the promise that it fits; yields (state, model)"""
    A = pg.A
    kind, i = op
    facts, mem = st
    rows = len([c for c in mem if c[0] == 'h' and c[1] >= 9100])
    ref = None
    if kind == 'remove':
        new = model[:i] + model[i + 1:]
        rets, pans = pg.call('remove_row', [pg.ref, I(i)], facts, mem)
    else:
        ref, r, mem = pg.row(mem, rows)
        rows += 1
        new = model[:i] + [r] + model[i:]
        s = State()
        s.facts = dict(facts)
        if not A.assume(s, fits(pg, model, r), True):
            return
        rets, pans = pg.call('append_row' if kind == 'append' else 'insert_row', [pg.ref] + ([] if kind == 'append' else [I(i)]) + [ref], s.facts, mem)
    R.count('operations')
    for n in pans:
        w = witness(pg, n.state, rows, lambda ev: 'panics')
        key = '%s:panic' % kind
        if w:
            R.bad(key, '%s of a row that fits panics (%s): alignment %d, %s' % (kind, n.info[0], pg.al, show(w[0], model, op)), n.info[2], ob=name)
        else:
            R.undecided(key, 'a panic of %s may be reachable: %s' % (kind, n.info[:2]), n.info[2], ob=name)
    if not rets and not pans:
        R.undecided(name + ':none', 'no result')
    for v, s in rets:
        if odd(pg, R, name):
            return
        if compare(pg, R, s, new, rows, name, op, model):
            yield (s.facts, s.mem), new


def odd(pg, R, name):
    if pg.A.opaque_log:
        R.undecided(name + ':calls', 'not understood: %s' % sorted(map(str, pg.A.opaque_log))[:3])
        return True
    return False


def compare(pg, R, s, model, rows, name, op, before):
    """num_rows and every get_row equal the list"""
    A = pg.A
    good = True
    rets, pans = pg.call('num_rows', [pg.ref], s.facts, s.mem)
    for v, s2 in rets:
        if v != I(len(model)):
            good = False
            w = witness(pg, s2, rows, lambda ev: ev.n(v) != len(model) and 'is %d' % ev.n(v))
            report(R, w, '%s:num_rows' % op[0], 'the number of rows after %s is not %d' % (op[0], len(model)), name, before, op)
    for i, r in enumerate(model):
        rets, pans = pg.call('get_row', [pg.ref, I(i)], s.facts, s.mem)
        for n in pans:
            good = False
            report(R, witness(pg, n.state, rows, lambda ev: 'panics'), '%s:get_row:panic' % op[0], 'get_row panics after %s' % op[0], name, before, op)
        for v, s2 in rets:
            R.count('rows_compared')
            got = loadall(A, s2, v)
            if got == r:
                continue
            if A.decide(s2, mk_eq0(mk_len(r))) is True and A.decide(s2, mk_eq0(mk_len(got))) is True:
                continue
            good = False
            w = witness(pg, s2, rows, lambda ev: ev.b(got) != ev.b(r) and 'row %d is %s instead of %s' % (i, hexs(ev.b(got)), hexs(ev.b(r))))
            report(R, w, '%s:row' % op[0], 'after %s at %s a row differs from what was stored' % op, name, before, op)
    return good


def hexs(b):
    return bytes(b[:12]).hex() + ('..' if len(b) > 12 else '')


def report(R, w, key, msg, name, before, op):
    if w:
        R.bad(key, '%s: %s (%s)' % (msg, w[1], show(w[0], before, op)), ob=name)
    else:
        R.undecided(key, msg, ob=name)


def show(env, model, op):
    ls = {k[1]: len(v) for k, v in env.items() if isinstance(k, tuple) and k[1].startswith('row')}
    return 'page of %d units, lengths %s, list %s, then %s' % (env[M], ls, [r[1] for r in model], op)


def witness(pg, st, rows, check):
    return search(st, drawer(pg.al, rows), check)


def c16(ctx, R):
    """A page formatted for an alignment is the list of its rows: after any sequence of initialise, append, insert and remove,
    num_rows and get_row answer as the list does, for every page size, row length and row content. The MIR of the operations is
    evaluated on a page of symbolic size with rows of symbolic length and content, over all operation sequences up to the depth given."""
    P = ctx.P
    for fn in ('new', 'initialize_page', 'num_rows', 'get_row', 'append_row', 'insert_row', 'remove_row', 'max_insert_row_size'):
        if anchor(R, P, PF + '::' + fn) is None:
            return
    items = [(al, first, second) for al in (8, 1, 4, 2, 16, 64) for first in ('append', 'insert') for second in OPS1]

    def job(R, it):
        al, first, second = it
        name = 'align %d, %s' % (al, first)
        with Guard(R, name):
            pg = Page(P, al)
            for st in start(pg, R, name):
                dfs(pg, R, st, [], [(first, 0), second], 0, name)
            R.seen(pg.A)
    depth_of = {8: 4}
    if ctx.tier == 'thorough':
        depth_of = {a: 4 for a in (1, 2, 4, 8, 16, 64)}

    def dfs(pg, R, st, model, first, depth, name):
        refuse(pg, R, st, model, name)
        if depth >= depth_of.get(pg.al, 3):
            return
        n = len(model)
        if depth < 2:
            ops = [first[depth]]
        else:
            ops = [('append', n)] + [('insert', i) for i in range(n + 1)] + [('remove', i) for i in range(n)]
        for op in ops:
            nm = '%s: %s' % (name, ' '.join(r[1] for r in model) + ' + %s %d' % op)
            R.ob(nm)
            for st2, m2 in step(pg, R, st, model, op, nm, depth):
                dfs(pg, R, st2, m2, first, depth + 1, name)
    parallel(R, items, job)


def refuse(pg, R, st, model, name):
    """an index that is not in the list is refused"""
    n = len(model)
    facts, mem = st
    rows = len([c for c in mem if c[0] == 'h' and c[1] >= 9100])
    for fn in ('get_row', 'remove_row', 'insert_row'):
        nm = '%s: %s: %s' % (name, ' '.join(r[1] for r in model), fn + ' outside')
        R.ob(nm)
        f = dict(facts)
        f[IDX] = ((n + (fn == 'insert_row'), (1 << 64) - 1),)
        m, args = mem, [pg.ref, IDX]
        k = rows
        if fn == 'insert_row':
            ref, r, m = pg.row(mem, rows)
            args.append(ref)
            k += 1
        rets, pans = pg.call(fn, args, f, m)
        R.count('refusals')
        for v, s in rets:
            w = search(s, drawer(pg.al, k, n), lambda ev: 'index %d' % ev.n(IDX))
            report(R, w, fn + ':index', '%s accepts an index outside the %d rows of the page' % (fn, n), nm, model, (fn, IDX[1]))


def start(pg, R, name):
    rets, pans = pg.call('initialize_page', [pg.ref], pg.facts, pg.mem)
    for n in pans:
        report(R, witness(pg, n.state, 0, lambda ev: 'panics'), 'initialize:panic', 'initialize_page panics on a page of its format', name, [], ('initialize', 0))
    for v, s in rets:
        if compare(pg, R, s, [], 0, name, ('initialize', 0), []):
            yield s.facts, s.mem


def c17(ctx, R):
    """max_insert_row_size is the length of the longest row the page has room for (0 if none): the page size less the rows
    (each rounded up to the alignment) less the offsets of all rows and the new one. A row that does not fit is refused by append_row and
    insert_row, whatever its length. Decided on the MIR for a page of symbolic size holding up to four rows of symbolic length."""
    P = ctx.P
    for fn in ('new', 'initialize_page', 'append_row', 'insert_row', 'remove_row', 'max_insert_row_size'):
        if anchor(R, P, PF + '::' + fn) is None:
            return
    n = 5 if ctx.tier == 'thorough' else 4
    items = [(al, k, rem) for k in range(n, -1, -1) for al in (1, 2, 4, 8, 16, 64) for rem in (0, 1) if k > rem or rem == 0]

    def job(R, it):
        al, k, rem = it
        name = 'align %d, %d rows%s' % (al, k, ', one removed' if rem else '')
        with Guard(R, name):
            pg = Page(P, al)
            Q = type(R)(R.prop)          # what C16 decides is not judged here
            sts = [(st, []) for st in start(pg, Q, name)]
            for j in range(k):
                sts = [x for st, m in sts for x in step(pg, Q, st, m, ('append', len(m)), name, j)]
            if rem:
                sts = [x for st, m in sts for x in step(pg, Q, st, m, ('remove', 0), name, 0)]
            if Q.viol:
                R.undecided(name + ':pages', 'the pages could not be built: %s' % sorted(Q.viol))
                return
            for st, m in sts:
                capacity(pg, R, st, m, name)
            R.seen(pg.A)
    parallel(R, items, job)


def capacity(pg, R, st, model, name):
    A = pg.A
    facts, mem = st
    rows = len([c for c in mem if c[0] == 'h' and c[1] >= 9100])
    room = lsub(upper(pg, model), I(-(-OFF * (len(model) + 2) // pg.al) * pg.al))
    rets, pans = pg.call('max_insert_row_size', [pg.ref], facts, mem)
    R.ob(name + ': value')
    op = ('max_insert_row_size', 0)
    for n in pans:
        report(R, witness(pg, n.state, rows, lambda ev: 'panics'), 'max:panic', 'max_insert_row_size panics', name + ': value', model, op)
    for v, s in rets:
        R.count('capacity_paths')
        if odd(pg, R, name):
            return
        for t, want in zip(split(A, s, mk_ge0(room)), (room, I(0))):
            if t and A.decide(t, mk_eq0(lsub(v, want))) is not True:
                w = witness(pg, t, rows, lambda ev: ev.n(v) != ev.n(want) and 'is %d instead of %d' % (ev.n(v), ev.n(want)))
                report(R, w, 'max:value', 'max_insert_row_size is not the length of the longest row that fits', name + ': value', model, op)
    for fn in ('append_row', 'insert_row'):
        for at in range(len(model) + 1) if fn == 'insert_row' else [None]:
            nm = '%s: %s%s refuses' % (name, fn, '' if at is None else ' %d' % at)
            R.ob(nm)
            ref, r, m = pg.row(mem, rows)
            s0 = State()
            s0.facts = dict(facts)
            if not A.assume(s0, fits(pg, model, r), False):
                continue
            rets, pans = pg.call(fn, [pg.ref] + ([] if at is None else [I(at)]) + [ref], s0.facts, m)
            R.count('refusals')
            for v, s in rets:
                if A.infeasible(s):
                    continue
                w = search(s, drawer(pg.al, rows + 1), lambda ev: 'a row of %d bytes' % len(ev.b(r)))
                report(R, w, fn + ':overfull', '%s accepts a row the page has no room for' % fn, nm, model, (fn, at))
