"""Concrete instances of a symbolic result: a difference between two abstract values counts as a violation only
when numbers for their symbols are found that satisfy every path fact and make the two differ."""
import random
from .dom import *
from .engine import WIDTH


class Unknown(Exception):
    pass


def to_bytes(x, n):
    if isinstance(x, list):
        if len(x) != n:
            raise Unknown('length')
        return x
    return list((x & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))


class Ev:
    def __init__(self, env, limit=1 << 17):
        self.env = env
        self.memo = {}
        self.limit = limit

    def n(self, v):
        x = self.v(v)
        if isinstance(x, list):
            raise Unknown('bytes used as a number')
        return x

    def b(self, v):
        x = self.v(v)
        if not isinstance(x, list):
            raise Unknown('number used as bytes')
        return x

    def v(self, v):
        k = v[0]
        if k in ('i', 'b'):
            return v[1]
        try:
            return self.memo[v]
        except KeyError:
            r = self.memo[v] = self.go(v)
            return r

    def go(self, v):
        k = v[0]
        if k == 'lin':
            return v[1] + sum(c * self.n(t) for t, c in v[2])
        if k == 'y':
            if v in self.env:
                return self.env[v]
            raise Unknown(v)
        if k == 'L':
            return sum(c * self.n(t) for t, c in v[1])
        if k == 'str':
            return list(v[1].encode())
        if k == 'arr':
            return [self.n(x) for x in v[1]]
        if k == 'not':
            return 1 - self.n(v[1])
        if k == 'ge0':
            return int(self.n(v[1]) >= 0)
        if k == 'eq0':
            return int(self.n(v[1]) == 0)
        if k == 'bytes':
            return self.replay(v)
        if k == 'adt' and len(v[3]) == 0 and v[1] == '()':
            return []
        if k == 't':
            return self.term(v)
        raise Unknown(v)

    def term(self, v):
        op = v[1]
        if v in self.env:
            return self.env[v]
        if op == 'low':
            return self.n(v[3]) % v[2]
        if op == 'bits':
            return sum((self.n(src) >> sl & (1 << n) - 1) << lo for lo, n, src, sl in v[2])
        if op == 'len':
            return len(self.b(v[2]))
        if op == 'buf':
            n = self.n(v[2])
            if not 0 <= n <= self.limit:
                raise Unknown('size')
            fill = self.env.get('fill', 0)
            return [fill(i) if callable(fill) else fill for i in range(n)]
        if op in ('ld', 'ldx'):
            b = self.b(v[2])
            o = self.n(v[3])
            if not 0 <= o <= len(b) - v[4]:
                raise Unknown('load outside')
            return int.from_bytes(bytes(b[o:o + v[4]]), 'little')
        if op == 'sub':
            b = self.b(v[2])
            lo, hi = self.n(v[3]), self.n(v[4])
            if not 0 <= lo <= hi <= len(b):
                raise Unknown('slice outside')
            return b[lo:hi]
        if op == 'elem':
            b, i = self.b(v[2]), self.n(v[3])
            if not 0 <= i < len(b):
                raise Unknown('index outside')
            return b[i]
        if op == 'nebytes':
            return to_bytes(self.v(v[4]), v[2])
        if op == 'as':
            x = self.v(v[3])
            if v[2] in WIDTH:
                if isinstance(x, list):
                    x = int.from_bytes(bytes(x), 'little')
                return x & (1 << WIDTH[v[2]]) - 1
            return x
        if op == 'ovf' and len(v) == 4 and v[2] in WIDTH:
            x, w = self.n(v[3]), WIDTH[v[2]]
            return int(not (0 <= x < 1 << w if v[2][0] == 'u' else -(1 << w - 1) <= x < 1 << w - 1))
        if op in ('Trunc', 'Wrap') and len(v) == 4 and v[2] in WIDTH:
            x = self.n(v[3])
            w = WIDTH[v[2]]
            x &= (1 << w) - 1
            return x - (1 << w) if v[2][0] == 'i' and x >> (w - 1) else x
        if op in ('And', 'Or', 'Xor', 'Shl', 'Shr') and len(v) == 5 and v[2] in WIDTH and v[2][0] == 'u':
            a, b = self.n(v[3]), self.n(v[4])
            if a < 0 or b < 0:
                raise Unknown('sign')
            m = (1 << WIDTH[v[2]]) - 1
            return {'And': a & b, 'Or': a | b, 'Xor': a ^ b, 'Shl': a << min(b, 200), 'Shr': a >> b}[op] & m
        if op == 'ctlz' and len(v) == 4:
            return v[2][1] - self.n(v[3]).bit_length()
        if op == 'ctpop' and len(v) == 3:
            return bin(self.n(v[2])).count('1')
        if op in ('Mul', 'Add', 'Sub') and len(v) == 5:
            a, b = self.n(v[3]), self.n(v[4])
            return a * b if op == 'Mul' else a + b if op == 'Add' else a - b
        if op == 'Shr' and len(v) == 5 and v[2] in WIDTH and v[2][0] == 'i':
            return self.n(v[3]) >> self.n(v[4])
        if op in ('Div', 'Rem') and len(v) == 5 and v[2] in WIDTH and v[2][0] == 'u':
            a, b = self.n(v[3]), self.n(v[4])
            if a < 0 or b <= 0:
                raise Unknown('division')
            return a // b if op == 'Div' else a % b
        if op == 'concat':
            return self.b(v[2]) + self.b(v[3])
        raise Unknown(v)

    def replay(self, v):
        mem = list(self.b(v[1]))
        for o, n, val, ti in v[2]:
            lo, k = self.n(o), self.n(n)
            if not 0 <= lo <= lo + k <= len(mem):
                raise Unknown('write outside')
            if val[0] == 'moved':
                b = self.b(val[1])
                s = self.n(val[2])
                x = b[s:s + k]
            elif val[0] == 'chunk':
                x = self.b(val[1])
            else:
                x = to_bytes(self.v(val), k)
            if len(x) != k:
                raise Unknown('length')
            mem[lo:lo + k] = x
        return mem


def facts_hold(st, ev, want=None):
    """True/False; Unknown when a fact cannot be evaluated"""
    unk = None
    for k, r in st.facts.items():
        if want is not None and not want(k):
            continue
        try:
            x = ev.n(k)
        except Unknown as e:
            unk = e
            continue
        if not any(lo <= x <= hi for lo, hi in r):
            return False
    if unk is not None:
        raise unk
    return True


def search(st, draw, check, tries=400, seed=1):
    """draw(rng) -> env; check(ev) -> description of the difference or None.
    The first instance that satisfies the facts and shows a difference, as (env, description)."""
    rng = random.Random(seed)
    hits = 0
    for _ in range(tries):
        env = draw(rng)
        ev = Ev(env)
        try:
            if not facts_hold(st, ev):
                continue
            hits += 1
            d = check(ev)
        except Unknown:
            continue
        except RecursionError:
            return None
        if d:
            return env, d
        if hits >= 60:
            break
    return None
