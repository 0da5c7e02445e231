"""Regular expressions of a lexer as automata, and the comparison of two lexers: for every string, which token it is."""

MAXC = 0x10ffff
SPACE = [(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]
POSIX = {'cntrl': [(0, 31), (127, 127)], 'digit': [(48, 57)], 'alpha': [(65, 90), (97, 122)], 'alnum': [(48, 57), (65, 90), (97, 122)], 'space': [(9, 13), (32, 32)],
         'upper': [(65, 90)], 'lower': [(97, 122)], 'xdigit': [(48, 57), (65, 70), (97, 102)]}


class Unsupported(Exception):
    pass


def norm(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def negate(rs):
    out = []
    n = 0
    for a, b in norm(rs):
        if a > n:
            out.append((n, a - 1))
        n = b + 1
    if n <= MAXC:
        out.append((n, MAXC))
    return out


def inter(a, b):
    return negate(negate(a) + negate(b))


_nd = {}


def decimal():
    if 'd' not in _nd:
        _nd['d'] = norm([(c, c) for c in range(MAXC + 1) if not 0xd800 <= c < 0xe000 and chr(c).isdecimal()])
    return _nd['d']


def fold(rs):
    out = list(rs)
    for a, b in rs:
        for c in range(a, min(b, 0x24f) + 1):
            for d in chr(c).upper() + chr(c).lower():
                if len(chr(c).upper()) == 1 and len(chr(c).lower()) == 1:
                    out.append((ord(d), ord(d)))
            if chr(c) in 'sS':
                out.append((0x17f, 0x17f))
            if chr(c) in 'kK':
                out.append((0x212a, 0x212a))
    return norm(out)


class Re:
    """pattern -> tree: ('set', ranges) ('cat', [..]) ('alt', [..]) ('rep', x, min, max)"""

    def __init__(self, s):
        self.s = s
        self.i = 0
        self.ci = False
        t = self.alt()
        if self.i != len(s):
            raise Unsupported(s)
        self.tree = t

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def alt(self):
        xs = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def cat(self):
        xs = []
        while self.peek() not in ('', '|', ')'):
            if self.s.startswith('(?i)', self.i):
                self.ci = True
                self.i += 4
                continue
            a = self.atom()
            while self.peek() and self.peek() in '*+?{':
                c = self.peek()
                self.i += 1
                if c == '{':
                    e = self.s.index('}', self.i)
                    p = self.s[self.i:e].split(',')
                    self.i = e + 1
                    lo = int(p[0])
                    hi = lo if len(p) == 1 else int(p[1]) if p[1] else None
                else:
                    lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
                if self.peek() == '?':
                    raise Unsupported('lazy repetition in ' + self.s)
                a = ('rep', a, lo, hi)
            xs.append(a)
        return ('cat', xs)

    def lit(self, rs):
        return ('set', fold(rs) if self.ci else norm(rs))

    def escape(self):
        c = self.s[self.i]
        self.i += 1
        if c in 'sSdDwWbBAzpP':
            if c == 's':
                return SPACE
            if c == 'S':
                return negate(SPACE)
            if c == 'd':
                return decimal()
            raise Unsupported('\\' + c)
        if c in 'ntrfv0':
            return [(ord({'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v', '0': '\0'}[c]),) * 2]
        if c == 'u' or c == 'x':
            if self.peek() == '{':
                e = self.s.index('}', self.i)
                v = int(self.s[self.i + 1:e], 16)
                self.i = e + 1
            else:
                n = 4 if c == 'u' else 2
                v = int(self.s[self.i:self.i + n], 16)
                self.i += n
            return [(v, v)]
        if c.isalnum():
            raise Unsupported('\\' + c)
        return [(ord(c), ord(c))]

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == '(':
            if self.s.startswith('?:', self.i):
                self.i += 2
            elif self.peek() == '?':
                raise Unsupported(self.s)
            ci = self.ci
            t = self.alt()
            self.ci = ci
            if self.peek() != ')':
                raise Unsupported(self.s)
            self.i += 1
            return t
        if c == '[':
            return self.lit(self.cls())
        if c == '.':
            return ('set', negate([(10, 10)]))
        if c == '\\':
            return self.lit(self.escape())
        if c in '^$':
            raise Unsupported(self.s)
        return self.lit([(ord(c), ord(c))])

    def cls(self):
        neg = self.peek() == '^'
        if neg:
            self.i += 1
        rs = []
        first = True
        while self.peek() != ']' or first:
            if not self.peek():
                raise Unsupported(self.s)
            first = False
            if self.s.startswith('[:', self.i):
                e = self.s.index(':]', self.i)
                n = self.s[self.i + 2:e]
                self.i = e + 2
                if n.lstrip('^') not in POSIX:
                    raise Unsupported(n)
                rs += negate(POSIX[n[1:]]) if n[0] == '^' else POSIX[n]
                continue
            if self.s.startswith('&&', self.i):
                self.i += 2
                rest = self.clsrest()
                rs = inter(rs, rest)
                break
            if self.peek() == '[':
                self.i += 1
                rs += self.cls()
                continue
            a = self.one()
            if self.peek() == '-' and self.s[self.i + 1:self.i + 2] != ']' and len(a) == 1 and a[0][0] == a[0][1]:
                self.i += 1
                b = self.one()
                a = [(a[0][0], b[0][1])]
            rs += a
        self.i += 1
        return negate(rs) if neg else norm(rs)

    def clsrest(self):
        raise Unsupported('class intersection')

    def one(self):
        c = self.s[self.i]
        self.i += 1
        if c == '\\':
            return self.escape()
        return [(ord(c), ord(c))]


class Lexer:
    """patterns -> NFA with one accepting state per pattern; of the patterns that match, the last wins"""

    def __init__(self, pats):
        self.eps = []
        self.edge = []
        self.acc = {}
        self.s0 = self.new()
        for k, p in enumerate(pats):
            p = p[1:] if p.startswith('^') else p
            a, b = self.build(Re(p).tree)
            self.eps[self.s0].append(a)
            self.acc[b] = k
        self.start = self.close({self.s0})

    def new(self):
        self.eps.append([])
        self.edge.append([])
        return len(self.eps) - 1

    def build(self, t):
        if t[0] == 'set':
            a, b = self.new(), self.new()
            self.edge[a].append((t[1], b))
            return a, b
        if t[0] == 'cat':
            a = b = self.new()
            for x in t[1]:
                c, d = self.build(x)
                self.eps[b].append(c)
                b = d
            return a, b
        if t[0] == 'alt':
            a, b = self.new(), self.new()
            for x in t[1]:
                c, d = self.build(x)
                self.eps[a].append(c)
                self.eps[d].append(b)
            return a, b
        _, x, lo, hi = t
        a = b = self.new()
        for _ in range(lo):
            c, d = self.build(x)
            self.eps[b].append(c)
            b = d
        if hi is None:
            c, d = self.build(x)
            e = self.new()
            self.eps[b].append(e)
            self.eps[e].append(c)
            self.eps[d].append(e)
            return a, e
        ends = [b]
        for _ in range(hi - lo):
            c, d = self.build(x)
            self.eps[b].append(c)
            b = d
            ends.append(b)
        e = self.new()
        for x in ends:
            self.eps[x].append(e)
        return a, e

    def close(self, ss):
        out = set(ss)
        todo = list(ss)
        while todo:
            for n in self.eps[todo.pop()]:
                if n not in out:
                    out.add(n)
                    todo.append(n)
        return frozenset(out)

    def step(self, ss, c):
        out = set()
        for s in ss:
            for rs, n in self.edge[s]:
                if any(a <= c <= b for a, b in rs):
                    out.add(n)
        return self.close(out) if out else frozenset()

    def accepts(self, ss):
        k = [self.acc[s] for s in ss if s in self.acc]
        return max(k) if k else None

    def cuts(self):
        out = {0}
        for e in self.edge:
            for rs, _ in e:
                for a, b in rs:
                    out.add(a)
                    out.add(b + 1)
        return out

    def classify(self, s):
        ss = self.start
        for c in s:
            ss = self.step(ss, ord(c))
        return self.accepts(ss)

    def longest(self, text, at):
        """(length, pattern) of the token at this position"""
        ss = self.start
        best = None
        for n in range(at, len(text)):
            ss = self.step(ss, ord(text[n]))
            if not ss:
                break
            k = self.accepts(ss)
            if k is not None:
                best = (n + 1 - at, k)
        return best


def product(a, b, skip=()):
    """every reachable pair of states with a shortest string leading there; code points in skip are left out"""
    cuts = sorted((a.cuts() | b.cuts() | {c for r in skip for c in (r, r + 1)}) & set(range(MAXC + 1)) | {0})
    reps = [c for c in cuts if c not in skip and not 0xd800 <= c < 0xe000]
    seen = {(a.start, b.start): ''}
    todo = [(a.start, b.start)]
    n = 0
    memo = {}

    def step(lx, ss, c):
        k = (id(lx), ss, c)
        if k not in memo:
            memo[k] = lx.step(ss, c)
        return memo[k]
    while n < len(todo):
        p, q = todo[n]
        n += 1
        w = seen[p, q]
        yield p, q, w
        by = {}
        for c in reps:
            r = (step(a, p, c), step(b, q, c))
            if r[0] or r[1]:
                by.setdefault(r, c)
        # a printable representative makes a better example
        for r, c in by.items():
            if r not in seen:
                seen[r] = w + chr(c)
                todo.append(r)
