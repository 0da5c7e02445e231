"""Reference grammars: productions that build terms, an Earley recogniser over them, and sentences that cover a grammar."""
import itertools
import math
import random
import re


class Grammar:
    """rules: (left-hand side, right-hand side, builder). Symbols: "X" in quotes = a word of the language (no value), a name in capitals = a terminal with a
    value, other names = nonterminals; the suffixes ? (None or ('Some', x)), ,+ (a comma separated list) and + (a list). A builder gets the values; it is left
    out when the production only passes its single value on."""

    def __init__(self, start, rules):
        self.start = start
        self.prods = []             # (lhs, rhs, fn, label)
        self.by = {}
        self.extra = {}
        for lhs, rhs, *fn in rules:
            syms = [self.sym(x) for x in rhs.split()]
            self.add(lhs, syms, fn[0] if fn else lambda x: x, '%s -> %s' % (lhs, rhs))
        self.nullable = set()
        while True:
            n = len(self.nullable)
            for l, r, _, _ in self.prods:
                if all(x in self.nullable for x in r):
                    self.nullable.add(l)
            if n == len(self.nullable):
                break
        self.terminals = {x for _, r, _, _ in self.prods for x in r if x not in self.by}
        self.valued = {x for x in self.terminals if not x.startswith('"')}

    def add(self, lhs, syms, fn, label):
        self.by.setdefault(lhs, []).append(len(self.prods))
        self.prods.append((lhs, tuple(syms), fn, label))

    def sym(self, x):
        if x.startswith('"'):
            if x.endswith('?'):
                x = x[:-1]
                return self.once(x + '?', [([], lambda: None), ([x], lambda: ('Some', True))])
            return x
        if x.endswith(',+'):
            b = x[:-2]
            return self.once(x, [([b], lambda v: (v,)), ([x, '","', b], lambda l, v: l + (v,))])
        if x.endswith('+'):
            b = x[:-1]
            return self.once(x, [([b], lambda v: (v,)), ([x, b], lambda l, v: l + (v,))])
        if x.endswith('?'):
            b = self.sym(x[:-1])
            return self.once(x, [([], lambda: None), ([b], lambda v: ('Some', v))])
        return x

    def once(self, n, alts):
        if n not in self.extra:
            self.extra[n] = True
            for s, f in alts:
                self.add(n, s, f, '%s -> %s' % (n, ' '.join(s) or 'nothing'))
        return n


class Earley:
    """recognition with the item sets of every prefix kept, so that common prefixes are read once"""

    def __init__(self, g):
        self.g = g
        self.root = self.close([{('S', 0): None}] if False else [], {(-1, 0, 0)})

    # an item: (production, dot, origin); production -1 is the start
    def rhs(self, p):
        return (self.g.start,) if p < 0 else self.g.prods[p][1]

    def close(self, chart, kernel):
        g = self.g
        k = len(chart)
        items = set(kernel)
        todo = list(kernel)
        want = {}
        done = set()
        here = set()
        while todo:
            p, d, o = todo.pop()
            r = self.rhs(p)
            if d < len(r):
                x = r[d]
                if x in g.by:
                    want.setdefault(x, []).append((p, d, o))
                    if x not in done:
                        done.add(x)
                        for q in g.by[x]:
                            it = (q, 0, k)
                            if it not in items:
                                items.add(it)
                                todo.append(it)
                    if x in g.nullable or x in here:
                        it = (p, d + 1, o)
                        if it not in items:
                            items.add(it)
                            todo.append(it)
            elif p >= 0:
                l = g.prods[p][0]
                if o == k:
                    here.add(l)
                    src = list(want.get(l, ()))
                else:
                    src = chart[o][1].get(l, ())
                for q, e, f in src:
                    it = (q, e + 1, f)
                    if it not in items:
                        items.add(it)
                        todo.append(it)
        nxt = {}
        for p, d, o in items:
            r = self.rhs(p)
            if d < len(r) and r[d] not in g.by:
                nxt.setdefault(r[d], set()).add((p, d + 1, o))
        return {'chart': chart + [(items, want)], 'next': nxt, 'ok': (-1, 1, 0) in items, 'kids': {}}

    def step(self, node, t):
        if t not in node['kids']:
            k = node['next'].get(t)
            node['kids'][t] = None if k is None else self.close(node['chart'], k)
        return node['kids'][t]

    def tree(self, toks):
        """the derivation of a sentence as (production, children), the first one found; None if there is none"""
        n = self.root
        for t, _ in toks:
            n = self.step(n, t)
            if n is None:
                return None
        if not n['ok']:
            return None
        chart = n['chart']
        g = self.g
        memo = {}

        def nt(x, i, j):
            k = (x, i, j)
            if k in memo:
                return memo[k]
            memo[k] = None
            for p in g.by[x]:
                r = g.prods[p][1]
                if (p, len(r), i) in chart[j][0]:
                    c = seq(p, len(r), i, j)
                    if c is not None:
                        memo[k] = (p, c)
                        break
            return memo[k]

        def seq(p, d, i, j):
            """children of the first d symbols of p over i..j"""
            if d == 0:
                return () if i == j else None
            x = g.prods[p][1][d - 1]
            if x not in g.by:
                if j > i and toks[j - 1][0] == x and (p, d - 1, i) in chart[j - 1][0]:
                    c = seq(p, d - 1, i, j - 1)
                    return None if c is None else c + (toks[j - 1],)
                return None
            for m in range(j, i - 1, -1):
                if (p, d - 1, i) in chart[m][0]:
                    if not any((q, len(g.prods[q][1]), m) in chart[j][0] for q in g.by[x]):
                        continue
                    c = seq(p, d - 1, i, m)
                    if c is None:
                        continue
                    y = nt(x, m, j)
                    if y is not None:
                        return c + (y,)
            return None
        return nt(g.start, 0, len(toks))

    def value(self, t):
        p, kids = t
        _, rhs, fn, _ = self.g.prods[p]
        return fn(*[self.value(k) if s in self.g.by else k[1] for s, k in zip(rhs, kids) if s in self.g.by or not s.startswith('"')])


def cover(prods, start, is_nt, extra=0, seed=1, pairs=True, long=0):
    """sentences (lists of terminals) that use every production, and every production at every place another one leaves open for it. prods: [(lhs, rhs)]"""
    by = {}
    for i, (l, _) in enumerate(prods):
        by.setdefault(l, []).append(i)
    size = {}
    best = {}
    while True:
        ch = False
        for i, (l, r) in enumerate(prods):
            if all(not is_nt(x) or x in size for x in r):
                n = sum(size[x] if is_nt(x) else 1 for x in r)
                if l not in size or n < size[l]:
                    size[l] = n
                    best[l] = i
                    ch = True
        if not ch:
            break

    def mini(x, memo={}):
        if not is_nt(x):
            return [x]
        return [t for y in prods[best[x]][1] for t in mini(y)]
    # the shortest context of every nonterminal
    ctx = {start: ([], [])}
    while True:
        ch = False
        for l, r in prods:
            if l not in ctx or any(is_nt(x) and x not in size for x in r):
                continue
            for i, x in enumerate(r):
                if is_nt(x):
                    a = ctx[l][0] + [t for y in r[:i] for t in mini(y)]
                    b = [t for y in r[i + 1:] for t in mini(y)] + ctx[l][1]
                    if x not in ctx or len(a) + len(b) < len(ctx[x][0]) + len(ctx[x][1]):
                        ctx[x] = (a, b)
                        ch = True
        if not ch:
            break
    live = [i for i, (l, r) in enumerate(prods) if l in ctx and all(not is_nt(x) or x in size for x in r)]
    livs = set(live)
    reach = {}

    def reachable(x):
        """productions that can stand for x, through productions that only pass a nonterminal on"""
        if x not in reach:
            seen, todo = {x}, [x]
            out = []
            while todo:
                for i in by.get(todo.pop(), ()):
                    if i not in livs:
                        continue
                    r = prods[i][1]
                    if len(r) == 1 and is_nt(r[0]):
                        if r[0] not in seen:
                            seen.add(r[0])
                            todo.append(r[0])
                    else:
                        out.append(i)
            reach[x] = out
        return reach[x]
    out = {}

    def put(ts):
        out.setdefault(tuple(ts), None)

    def full(i):
        return [t for y in prods[i][1] for t in mini(y)]
    for i in live:
        a, b = ctx[prods[i][0]]
        put(a + full(i) + b)
    for i in live if pairs else ():
        l, r = prods[i]
        a, b = ctx[l]
        for k, x in enumerate(r):
            if is_nt(x):
                pre = a + [t for y in r[:k] for t in mini(y)]
                post = [t for y in r[k + 1:] for t in mini(y)] + b
                for j in reachable(x):
                    put(pre + full(j) + post)
    def choices(x):
        """texts for a symbol: with and without what is optional, lists of one to four elements"""
        if not is_nt(x):
            return [[x]]
        rs = [prods[i][1] for i in by[x] if i in livs]
        out = [mini(x)]
        if () in rs:
            out = [[]] + [[t for y in r for t in mini(y)] for r in rs if r][:2]
        for r in rs:
            if len(r) > 1 and x == r[0]:
                step = [t for y in r[1:] for t in mini(y)]
                return [mini(x) + step * k for k in range(4)]
        if len(rs) == 1 and len(rs[0]) == 1 and is_nt(rs[0][0]):
            return choices(rs[0][0])
        return out
    for i in live if long else ():
        l, r = prods[i]
        cs = [choices(x) for x in r]
        if 1 < math.prod(map(len, cs)) <= 600:
            for c in itertools.product(*cs):
                put(ctx[l][0] + [t for y in c for t in y] + ctx[l][1])
    for i in live if long else ():
        # a list or a chain of operators, repeated
        l, r = prods[i]
        if len(r) > 1 and l in (r[0], r[-1]):
            a, b = ctx[l]
            if l == r[0]:
                put(a + mini(l) + [t for y in r[1:] for t in mini(y)] * long + b)
            else:
                put(a + [t for y in r[:-1] for t in mini(y)] * min(long, 20) + mini(l) + b)
    rng = random.Random(seed)

    def rand(x, depth):
        if not is_nt(x):
            return [x]
        if depth <= 0:
            return mini(x)
        r = reachable(x)
        i = rng.choice(r)
        return [t for y in prods[i][1] for t in rand(y, depth - 1)]
    n = 0
    for _ in range(extra * 20):
        if n >= extra:
            break
        s = rand(start, rng.randrange(2, 9))
        if len(s) <= 40 and tuple(s) not in out:
            put(s)
            n += 1
    return list(out)
