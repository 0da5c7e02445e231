"""The parser lalrpop generates, read back from the generated source: the LR tables, the productions and the lexer patterns.

What each production builds is not read here: it is what the MIR of its action function returns (rules/parse.py)."""
import re


class Unreadable(Exception):
    pass


def need(m, what):
    if not m:
        raise Unreadable('generated parser: %s not found' % what)
    return m


def block(text, start):
    """the text from the brace at or behind start to the matching one"""
    i = text.index('{', start)
    d = 0
    j = i
    while j < len(text):
        c = text[j]
        if c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d == 0:
                return text[i:j + 1]
        elif c == '"':
            j += 1
            while text[j] != '"':
                j += 2 if text[j] == '\\' else 1
        j += 1
    raise Unreadable('unbalanced braces')


def symbols(rhs):
    """the symbols of a right-hand side as the generator prints it"""
    out = []
    cur = ''
    d = 0
    i = 0
    while i < len(rhs):
        m = re.compile(r'r(#+)"').match(rhs, i)
        if m:
            e = rhs.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            cur += rhs[i:e]
            i = e
            continue
        c = rhs[i]
        if c == '"':
            e = i + 1
            while rhs[e] != '"':
                e += 2 if rhs[e] == '\\' else 1
            cur += rhs[i:e + 1]
            i = e + 1
            continue
        if c in '(<':
            d += 1
        elif c in ')>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def ints(t):
    return [int(x) for x in re.findall(r'-?\d+', re.sub(r'//[^\n]*', '', t))]


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == 'u':
            return chr(int(x[2:-1], 16))
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(x, x)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|.)', f, s)


class Parser:
    """one generated parser"""

    def __init__(self, text, start):
        m = need(re.search(r'mod __parse__%s \{' % re.escape(start), text), 'the parser of ' + start)
        end = text.find('\nmod __parse__', m.end())
        body = text[m.start():end if end > 0 else len(text)]
        e2 = re.search(r'\nmod __intern_token|#\[cfg_attr\(rustfmt, rustfmt_skip\)\]\nmod ', body)
        if e2:
            body = body[:e2.start()]
        m = need(re.search(r'const __ACTION: &\[i\d+\] = &\[(.*?)\n    \];', body, re.S), '__ACTION')
        self.action = ints(m.group(1))
        m = need(re.search(r'__ACTION\[\(state as usize\) \* (\d+) \+ integer\]', body), '__action')
        self.cols = int(m.group(1))
        m = need(re.search(r'const __EOF_ACTION: &\[i\d+\] = &\[(.*?)\n    \];', body, re.S), '__EOF_ACTION')
        self.eof = ints(m.group(1))
        if len(self.action) != self.cols * len(self.eof):
            raise Unreadable('generated parser: table sizes')
        self.goto = self.read_goto(block(body, need(re.search(r'fn __goto\(', body), '__goto').start()))
        m = need(re.search(r'const __TERMINAL: &\[&str\] = &\[(.*?)\n        \];', body, re.S), '__TERMINAL')
        self.terminals = re.findall(r'r###"(.*?)"###', m.group(1), re.S)
        if len(self.terminals) != self.cols:
            raise Unreadable('generated parser: terminals')
        m = need(re.search(r'fn __token_to_integer<', body), '__token_to_integer')
        self.column = {}
        for a in re.findall(r'Token\((\d+), _\) if true => Some\((\d+)\)', block(body, body.index('Option<usize>', m.start()))):
            self.column[int(a[0])] = int(a[1])
        self.reduce = {}
        for m in re.finditer(r'fn __reduce(\d+)<', body):
            b = block(body, body.index('-> (usize, usize)', m.end()))
            self.reduce[int(m.group(1))] = self.production(b, need(re.search(r'\((\d+), (\d+)\)\s*\}\s*$', b), 'reduce result').groups())
        m = need(re.search(r'fn __reduce<', body), '__reduce')
        b = block(body, body.index('\n    {', m.start()))
        self.accept = None
        for m in re.finditer(r'\n            (\d+) => \{\n(.*?)\n            \}', b, re.S):
            n = int(m.group(1))
            call = re.match(r'\s*__reduce(\d+)\(', m.group(2))
            if call:
                if int(call.group(1)) != n:
                    raise Unreadable('generated parser: reduce numbering')
            else:
                self.reduce[n] = self.production('{\n' + m.group(2) + '\n}', (None, None))
                self.accept = n
        if self.accept is None:
            raise Unreadable('generated parser: no accepting reduction')

    def production(self, b, res):
        lhs, rhs, k = need(re.search(r'// (.*?) = (.*) => ActionFn\((\d+)\);', b), 'production').groups()
        rhs = symbols(rhs)
        called = re.findall(r'super::__action(\d+)::<', b)
        pops = len(re.findall(r'= __pop_Variant', b))
        if called != [k] or pops != len(rhs) or res[0] is not None and int(res[0]) != pops or 'match super::__action' in b:
            raise Unreadable('generated parser: production %s' % lhs)
        return {'lhs': lhs, 'rhs': rhs, 'action': int(k), 'nt': None if res[1] is None else int(res[1])}

    def read_goto(self, b):
        out = {}
        for m in re.finditer(r'\n            (\d+) => (?:match state \{(.*?)\n            \}|(-?\d+)),', b, re.S):
            nt = int(m.group(1))
            if m.group(3):
                out[nt] = ({}, int(m.group(3)))
                continue
            tab = {}
            dflt = None
            for ss, v in re.findall(r'([\d\s|]+|_) => (-?\d+),', m.group(2)):
                if ss.strip() == '_':
                    dflt = int(v)
                else:
                    for s in ss.split('|'):
                        tab[int(s)] = int(v)
            out[nt] = (tab, dflt)
        return out

    def goto_of(self, state, nt):
        tab, d = self.goto[nt]
        return tab.get(state, d)

    # ---- the machine: a stack of (state, value), values built by build(production number, children)
    def act(self, state, col):
        return self.eof[state] if col is None else self.action[state * self.cols + col]

    def reduce_all(self, stack, col, build):
        """perform the reductions the lookahead asks for; the stack (a linked list), or None on an error, or ('accept', value)"""
        while True:
            a = self.act(stack[0], col)
            if a >= 0:
                return stack, a
            p = self.reduce[-(a + 1)]
            kids = []
            for _ in p['rhs']:
                kids.append(stack[1])
                stack = stack[2]
            kids.reverse()
            v = build(p, kids)
            if -(a + 1) == self.accept:
                return ('accept', v), 0
            stack = (self.goto_of(stack[0], p['nt']), v, stack)

    def shift(self, stack, col, tok, build):
        stack, a = self.reduce_all(stack, col, build)
        return None if a == 0 else (a - 1, tok, stack)

    def start(self):
        return (0, None, None)

    def finish(self, stack, build):
        s, a = self.reduce_all(stack, None, build)
        return s if s[0] == 'accept' else None

    def viable(self, stack, col):
        """would the machine shift this terminal here"""
        s = []
        st = stack
        while True:
            top = s[-1] if s else st[0]
            a = self.act(top, col)
            if a > 0:
                return True
            if a == 0:
                return False
            if -(a + 1) == self.accept:
                return col is None
            p = self.reduce[-(a + 1)]
            n = len(p['rhs'])
            k = min(n, len(s))
            if k:
                del s[-k:]
            for _ in range(n - k):
                st = st[2]
            s.append(self.goto_of(s[-1] if s else st[0], p['nt']))


def patterns(text):
    """[(regular expression, skipped)] of the lexer, in order"""
    m = need(re.search(r'let __strs: &\[\(&str, bool\)\] = &\[(.*?)\n        \];', text, re.S), 'the lexer patterns')
    out = []
    for m in re.finditer(r'\((?:r"(.*?)"|"((?:[^"\\]|\\.)*)"), (true|false)\),', m.group(1), re.S):
        s = m.group(1) if m.group(1) is not None else unescape(m.group(2))
        out.append((s, m.group(3) == 'true'))
    return out


def terminal_text(name):
    """"ALL" for the terminal named by a literal, None for one named otherwise"""
    return name[1:-1] if name.startswith('"') else None
