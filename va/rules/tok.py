"""JSON tokenizer: a lexical automaton (RFC 8259 tokens, decoded string content, token text)
runs as an observer in product with the abstract interpretation of Tokenizer::new / next.

The input is abstracted to a stream of arbitrary characters: each read yields an unconstrained
character, the automaton advances when the character before it has been consumed, and the
token, its text, errors and panics are compared with the automaton's state.
"""
from .common import *

MC = ('m', 'tok')
TOKEN = 'crate::core::json::tokenizer::Token'
DRIVE = 'crate::vharness_tok::drive'
INPUT = ('y', 'input', 0)
WS = ((9, 10), (13, 13), (32, 32))
DIG = ((48, 57),)
HEX = ((48, 57), (65, 70), (97, 102))
ANY = ((0, 0x10ffff),)
ESC = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9}
PUNCT = {'[': 'BeginArray', ']': 'EndArray', '{': 'BeginObject', '}': 'EndObject', ',': 'Comma', ':': 'Colon'}
KW = {'null': 'Null', 'true': 'True', 'false': 'False'}
EXPDIG = ((43, 43), (45, 45), (48, 57))
STRPH = ('STR', 'ESC', 'U', 'UH', 'UHe', 'UL')


def ch(*cs):
    return is_norm([(ord(c), ord(c)) for c in cs])


def alive(ph):
    """characters that keep the token (or the space before it) going"""
    k = ph[0]
    if k == 'S':
        return is_norm(list(WS) + list(ch(*'[]{},:ntf"-')) + list(DIG))
    if k == 'K':
        return ch(ph[1][ph[2]]) if ph[2] < len(ph[1]) else ()
    if k == 'STR':
        return ((0x20, 0x10ffff),)
    if k == 'ESC':
        return is_norm([(x, x) for x in ESC] + [(ord('u'), ord('u'))])
    if k in ('U', 'UL'):
        return HEX
    if k == 'UH':
        return ch('\\')
    if k == 'UHe':
        return ch('u')
    return {'N-': DIG, 'N0': ch(*'.eE'), 'NI': is_norm(list(DIG) + list(ch(*'.eE'))), 'N.': DIG,
            'NF': is_norm(list(DIG) + list(ch(*'eE'))), 'Ne': EXPDIG, 'Ne+': DIG, 'NX': DIG}.get(k, ())


def accepting(ph):
    if ph[0] == 'T':
        return ph[1]
    if ph[0] == 'K' and ph[2] == len(ph[1]):
        return KW[ph[1]]
    if ph[0] in ('N0', 'NI', 'NF', 'NX'):
        return 'Number'
    return None


def followers(ph):
    """characters that may directly follow the complete token in a JSON text"""
    t = accepting(ph)
    if t in PUNCT.values():
        return alive(('S',))
    return is_norm(list(WS) + list(ch(*',]}:')))


OLD = ('y', 'oldtoken', 0)


class Tok(Analysis):
    def __init__(self, prog, report):
        h = {}
        for p in ('core::str::<impl str>::chars', 'core::str::<impl str>::char_indices'):
            h[p] = self.h_chars
        for p in ("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next",
                  "<core::str::iter::CharIndices<'a> as core::iter::traits::iterator::Iterator>::next"):
            h[p] = self.h_next
        h['core::char::methods::<impl char>::to_digit'] = self.h_to_digit
        h['alloc::string::String::push'] = self.h_push
        h['core::str::<impl str>::get'] = self.h_get
        for p in ('core::str::traits::<impl core::ops::index::Index<I> for str>::index',):
            h[p] = self.h_index
        h['crate::vharness_tok::observe'] = self.h_observe
        h['crate::vharness_tok::failed'] = self.h_failed
        super().__init__(prog, h)
        self.report = report
        self.phases = []
        self.names = [v['name'] for v in prog.adts[TOKEN]['variants']]
        self.on_attempt()

    def on_attempt(self):
        self.found = []
        self.tokens = set()
        self.errors = 0
        self.reads = 0

    # ---------------------------------------------------------- monitor state
    def ph(self, t):
        if t not in self.phases:
            self.phases.append(t)
        return self.phases.index(t)

    # fields: start pos, pending pos, pending char ('none' / 'eof' / char), hex list, queue, pre-pushed, content
    def init(self):
        return {MC: ('adt', '$tok', self.ph(('S',)), (I(0), ('arr', ()), ('arr', ()), ('arr', ()), ('arr', ()), ('arr', ())))}

    def get(self, st):
        v = st.mem[MC]
        return self.phases[v[2]], list(v[3])

    def put(self, st, ph=None, **kw):
        v = st.mem[MC]
        fs = list(v[3])
        for i, n in enumerate(('start', 'pend', 'hexs', 'queue', 'pre', 'content')):
            if n in kw:
                x = kw[n]
                fs[i] = ('arr', tuple(x)) if isinstance(x, (list, tuple)) and not (x and isinstance(x[0], str)) else x
        st.mem[MC] = ('adt', '$tok', v[2] if ph is None else self.ph(ph), tuple(fs))
        return st

    def bad(self, st, cat, key, msg, site=None):
        # a branch taken on a computation over the characters that is not understood proves nothing
        odd = odd_facts(st)
        self.found.append(('undecided' if odd else 'bad', cat, key, msg, site))

    def unk(self, st, cat, key, msg, site=None):
        self.found.append(('undecided', cat, key, msg, site))

    # ---------------------------------------------------------- automaton
    def part(self, st, C, sets):
        """split a state by the classes of a character: [(state, label)], label None for the rest"""
        out = []
        rest = st
        for label, s in sets:
            if rest is None:
                break
            t, rest = models.inset(self, rest, C, s)
            if t:
                out.append((t, label))
        if rest:
            out.append((rest, None))
        return out

    def decoded(self, st, val, site):
        """the automaton has decoded one more character of the string"""
        _, f = self.get(st)
        pre = list(f[4][1])
        if pre:
            r = self.same(st, pre[0], val)
            if r is False:
                self.bad(st, 'string', 'content', 'a string gets character %s where %s was written' % (pp(self.prog, pre[0]), pp(self.prog, val)), site)
                return None
            if r is None:
                self.unk(st, 'string', 'content', 'string character %s not compared with %s' % (pp(self.prog, pre[0]), pp(self.prog, val)), site)
                return None
            return self.put(st, pre=pre[1:])
        q = list(f[3][1]) + [val]
        if len(q) > 3:
            self.unk(st, 'string', 'queue', 'string content is not built character by character', site)
            return None
        return self.put(st, queue=q)

    def same(self, st, a, b):
        a, b = self.conc(st, a), self.conc(st, b)
        if a == b:
            return True
        d = lsub(a, b)
        if d[0] == 'i':
            return d[1] == 0
        r = self.decide(st, mk_eq0(d))
        if r is not None:
            return r
        simple = lambda v: not contains(v, lambda x: isinstance(x, tuple) and len(x) > 1 and (x[0] == 't' and x[1] != 'hexval' or x[0] in ('undef', 'p')))
        ts = lin_of(d)[1]
        if simple(a) and simple(b) and not any(t[:2] == ('t', 'hexval') and t[2] in ts for t in ts):
            return False       # both fully understood and not equal for all characters
        return None

    def consume(self, st, site):
        """advance the automaton over the pending character; [states]"""
        ph, f = self.get(st)
        pend = f[1][1]
        if len(pend) < 2:
            return [st]
        pos, C = pend
        self.put(st, pend=())
        if ph[0] in ('D',):
            self.digit(st, C, ((48, 57, 48), (65, 90, 55), (97, 122, 87)), 35)
            return [st]
        k = ph[0]
        out = []
        if k == 'S':
            sets = [('ws', WS)] + [(c, ch(c)) for c in '[]{},:ntf"-0'] + [('19', ((49, 57),))]
            for s, l in self.part(st, C, sets):
                if l == 'ws':
                    out.append(s)
                    continue
                self.put(s, start=pos)
                if l is None:
                    out.append(self.put(s, ('D', 'S')))
                elif l in PUNCT:
                    out.append(self.put(s, ('T', PUNCT[l])))
                elif l in 'ntf':
                    w = {'n': 'null', 't': 'true', 'f': 'false'}[l]
                    out.append(self.put(s, ('K', w, 1)))
                elif l == '"':
                    out.append(self.put(s, ('STR',)))
                else:
                    out.append(self.put(s, ({'-': 'N-', '0': 'N0', '19': 'NI'}[l],)))
            return out
        if k == 'K':
            for s, l in self.part(st, C, [('go', alive(ph))] if alive(ph) else []):
                out.append(self.put(s, ('K', ph[1], ph[2] + 1) if l else ('D', 'K')))
            return out
        if k == 'STR':
            for s, l in self.part(st, C, [('end', ch('"')), ('esc', ch('\\')), ('ctl', ((0, 0x1f),))]):
                if l == 'end':
                    out.append(self.put(s, ('T', 'String')))
                elif l == 'esc':
                    out.append(self.put(s, ('ESC',)))
                elif l == 'ctl':
                    out.append(self.put(s, ('D', 'STR')))
                else:
                    s = self.decoded(s, C, site)
                    if s:
                        out.append(s)
            return out
        if k == 'ESC':
            for s, l in self.part(st, C, [(e, ((e, e),)) for e in ESC] + [('u', ch('u'))]):
                if l is None:
                    out.append(self.put(s, ('D', 'ESC')))
                elif l == 'u':
                    out.append(self.put(s, ('U', 0), hexs=[]))
                else:
                    s = self.decoded(self.put(s, ('STR',)), I(ESC[l]), site)
                    if s:
                        out.append(s)
            return out
        if k in ('U', 'UL'):
            for s, l in self.part(st, C, [('hex', HEX)]):
                if l is None:
                    out.append(self.put(s, ('D', k)))
                    continue
                hexs = list(self.get(s)[1][2][1]) + [self.hexval(s, C)]
                if ph[1] < 3:
                    out.append(self.put(s, (k, ph[1] + 1), hexs=hexs))
                    continue
                v = I(0)
                for x in hexs[-4:]:
                    v = ladd(lscale(v, 16), x)
                if k == 'U':
                    for s2, l2 in self.part(s, v, [('hi', ((0xd800, 0xdbff),)), ('lo', ((0xdc00, 0xdfff),))]):
                        if l2 == 'lo':
                            out.append(self.put(s2, ('D', 'surrogate'), hexs=[]))
                        elif l2 == 'hi':
                            out.append(self.put(s2, ('UH',), hexs=hexs))
                        else:
                            s2 = self.decoded(self.put(s2, ('STR',), hexs=[]), v, site)
                            if s2:
                                out.append(s2)
                else:
                    hi = I(0)
                    for x in hexs[:4]:
                        hi = ladd(lscale(hi, 16), x)
                    for s2, l2 in self.part(s, v, [('lo', ((0xdc00, 0xdfff),))]):
                        if l2 is None:
                            out.append(self.put(s2, ('D', 'surrogate'), hexs=[]))
                            continue
                        val = ladd(ladd(lscale(ladd(hi, I(-0xd800)), 0x400), ladd(v, I(-0xdc00))), I(0x10000))
                        s2 = self.decoded(self.put(s2, ('STR',), hexs=[]), val, site)
                        if s2:
                            out.append(s2)
            return out
        if k in ('UH', 'UHe'):
            for s, l in self.part(st, C, [('go', alive(ph))]):
                out.append(self.put(s, (('UHe',) if k == 'UH' else ('UL', 0)) if l else ('D', 'surrogate')))
            return out
        if k[0] == 'N':
            if k == 'N-':
                sets = [('N0', ch('0')), ('NI', DIG)]
            elif k in ('N0', 'NI'):
                sets = ([('NI', DIG)] if k == 'NI' else []) + [('N.', ch('.')), ('Ne', ch('e', 'E'))]
            elif k == 'N.':
                sets = [('NF', DIG)]
            elif k == 'NF':
                sets = [('NF', DIG), ('Ne', ch('e', 'E'))]
            elif k == 'Ne':
                sets = [('NX', DIG), ('Ne+', ch('+', '-'))]
            else:
                sets = [('NX', DIG)]
            for s, l in self.part(st, C, sets):
                out.append(self.put(s, (l,) if l else ('D', 'N')))
            return out
        return [self.put(st, ('D', k))]

    def hexval(self, st, C):
        C = self.conc(st, C)
        if C[0] == 'i':
            return I(int(chr(C[1]), 16))
        h = self.digit(st, C, ((48, 57, 48), (65, 70, 55), (97, 102, 87)), 15)
        if h:
            return h
        v = ('t', 'hexval', C)
        self.TY.setdefault(v, self.prog.tyidx['u32'])
        self.addfact(st, v, ((0, 15),))
        return v

    def digit(self, st, C, kinds, top):
        """where the program tells the kinds of digits apart itself the character becomes its value plus the base of its kind, which the program subtracts"""
        if C[0] not in ('y', 'k'):
            return None
        r = self.vrange(st, C)
        for lo, hi, base in kinds:
            if r and r[0][0] is not None and r[-1][1] is not None and lo <= r[0][0] and r[-1][1] <= hi:
                h = self.fresh('hex', self.prog.tyidx['u32'])
                st.facts.pop(C, None)
                if self.substitute(st, C, ladd(h, I(base))):
                    self.addfact(st, h, ((0, top),))
                    return h
        return None

    # ---------------------------------------------------------- hooks
    def isinput(self, v):
        return plain(v) in (INPUT, plain(('t', '*', INPUT)))

    def h_chars(self, A, st, c, w):
        v = snap(A, st, loadall(A, st, c.args[0]))
        if self.isinput(v):
            return [(st, ('iter', 'cistream' if c.name == 'char_indices' else 'cstream', v, I(0), I(0)))]
        return models.str_chars(A, st, c, w)

    def h_next(self, A, st, c, w):
        it = load(A, st, c.args[0])
        if it[0] != 'iter' or it[1] not in ('cstream', 'cistream'):
            return models.iter_next(A, st, c, w)
        self.reads += 1
        out = []
        _, f = self.get(st)
        pend = f[1][1]
        if len(pend) == 1:        # end of input stays the end
            return [(st, NONE)]
        for s in self.consume(st, c.site):
            e = s.copy()
            self.put(e, pend=[I(-1)])
            out.append((e, NONE))
            C = self.fresh('ch', self.prog.tyidx['char'])
            p = self.fresh('pos', self.prog.tyidx['usize'])
            self.put(s, pend=[p, C])
            self.emit(s, 'read')
            out.append((s, some(tup_(p, C) if it[1] == 'cistream' else C)))
        return out

    def h_to_digit(self, A, st, c, w):
        if c.args[1] != I(16):
            return models.ch_to_digit(A, st, c, w)
        t, f = models.inset(A, st, c.args[0], HEX)
        out = []
        if t:
            out.append((t, some(self.hexval(t, c.args[0]))))
        if f:
            out.append((f, NONE))
        return out

    def h_push(self, A, st, c, w):
        ph, f = self.get(st)
        if ph[0] == 'S' and not self.string_soon(st, f):
            return models.str_push(A, st, c, w)
        v = load(A, st, c.args[0])
        content = f[5][1]
        x = A.conc(st, c.args[1])
        if not content and v == ('str', '') or content and v == content[0]:
            if not content:
                n = self.fresh('content')
                self.put(st, content=[n])
                models.store(A, st, c.args[0], n)
            if ph[0] == 'D':
                # the literal is malformed: it must not become a token, whatever the buffer holds
                self.put(st, pre=[], queue=[], hexs=[])
                return [(st, UNIT)]
            q = list(f[3][1])
            if q:
                r = self.same(st, x, q[0])
                if r is False:
                    self.bad(st, 'string', 'content', 'a string gets character %s where %s was written' % (pp(self.prog, x), pp(self.prog, q[0])), c.site)
                    return []
                if r is None:
                    self.unk(st, 'string', 'content', 'string character %s not compared with %s' % (pp(self.prog, x), pp(self.prog, q[0])), c.site)
                    return []
                self.put(st, queue=q[1:])
            else:
                pre = list(f[4][1]) + [x]
                if len(pre) > 2:
                    self.unk(st, 'string', 'queue', 'string content is not built character by character', c.site)
                    return []
                self.put(st, pre=pre)
            return [(st, UNIT)]
        models.store(A, st, c.args[0], self.fresh('otherstr'))
        return [(st, UNIT)]

    def string_soon(self, st, f):
        return False

    def strpos(self, st, v):
        f = self.get(st)[1]
        return v == f[0] or (f[1][1] and v == f[1][1][0]) or v == I(0) or v == mk_len(INPUT) or v == mk_len(('t', '*', INPUT)) or v[0] == 'y' and v[1] == 'pos'

    def h_get(self, A, st, c, w):
        r = self.slice(A, st, c)
        return models.slice_get(A, st, c, w) if r is None else [(st, some(r))]

    def h_index(self, A, st, c, w):
        r = self.slice(A, st, c, True)
        return models.index_impl(A, st, c, w) if r is None else [(st, r)]

    def slice(self, A, st, c, panics=False):
        v = snap(A, st, loadall(A, st, c.args[0]))
        if self.isinput(v) and c.args[1][0] == 'adt':
            b = models.range_bounds(c.args[1], mk_len(v))
            if b and self.strpos(st, b[0]) and self.strpos(st, b[1]):
                return ('ref', ('k', ('t', 'sub', v, b[0], b[1])), ())
            if b and panics:
                for x in b:
                    if self.strpos(st, x):
                        continue
                    if self.boundary(st, x) is False:
                        A.panic(st.copy(), c.site, 'slice not on a character boundary')
                    elif self.boundary(st, x) is None:
                        self.unk(st, None, 'slice-position', 'slice position %s not understood' % pp(self.prog, x), c.site)
        return None

    def boundary(self, st, x):
        """is a computed byte position between two characters of the input: True, False (not for every input), None unknown"""
        pend = self.get(st)[1][1][1]
        if len(pend) == 2:
            d = lsub(x, pend[0])
            if d[0] == 'i' and d[1] > 0:
                if d[1] > 1:
                    return False          # what follows the look-ahead character may be any character
                r = self.vrange(st, pend[1])
                return True if not is_and(r, ((0x80, 0x10ffff),)) else False
        return None

    # ---------------------------------------------------------- verdicts
    def cat(self, ph):
        return 'string' if ph[0] in STRPH or ph == ('T', 'String') or ph[0] == 'D' and ph[1] in STRPH + ('surrogate',) else 'lex'

    def text(self, ph):
        return {'S': 'white space', 'D': 'an invalid token'}.get(ph[0]) or (
            'keyword %r' % ph[1][:ph[2]] if ph[0] == 'K' else 'a string' if ph[0] in STRPH else 'a %s token' % ph[1] if ph[0] == 'T' else
            'a number (%s)' % {'N-': '-', 'N0': '0', 'NI': 'digits', 'N.': 'digits and a point', 'NF': 'digits with fraction',
                               'Ne': 'digits and e', 'Ne+': 'digits, e and sign', 'NX': 'digits with exponent'}.get(ph[0], ph[0]))

    def h_observe(self, A, st, c, w):
        t = loadall(A, st, c.args[0])
        if t == OLD:
            self.bad(st, 'lex', 'token-stale', 'success is reported without setting the token')
            return []
        if t[0] != 'adt':
            self.unk(st, 'lex', 'token', 'token is not known: %s' % pp(self.prog, t))
            return []
        name = self.names[t[2]]
        v = snap(A, st, loadall(A, st, c.args[1]))
        self.tokens.add(name)
        out = []
        for s in self.verdict(st, name):
            ph, f = self.get(s)
            cat = self.cat(ph) if name != 'Eof' else 'lex'
            if name == 'String':
                if f[3][1] or f[4][1]:
                    self.bad(s, 'string', 'content-count', 'the token ends with characters %s' % ('missing from its value' if f[3][1] else 'too many in its value'))
                    continue
                want = f[5][1][0] if f[5][1] else ('str', '')
                if v != want:
                    known = v[0] == 'str' or v[0] == 'y' and v[1] == 'content'
                    (self.bad if known else self.unk)(s, 'string', 'value', 'the value of a string token is %s instead of its decoded characters' % (
                        'text of an earlier token' if v[0] == 'y' and v[1] == 'content' else pp(self.prog, v)))
                    continue
            if name == 'Number':
                p = f[1][1]
                end = p[0] if len(p) == 2 else mk_len(('t', '*', INPUT))
                got = v
                if v[0] == 't' and v[1] == 'sub' and self.isinput(v[2]):
                    a, b = v[3], v[4]
                    n = mk_len(('t', '*', INPUT)), mk_len(INPUT)
                    okb = b == end or len(p) == 1 and b in n
                    if a != f[0] or not okb:
                        known = a[0] in ('y', 'i') and (b[0] in ('y', 'i') or b in n)
                        (self.bad if known else self.unk)(s, 'lex', 'number-text', 'the text of a number token is not the number\'s own characters')
                        continue
                else:
                    self.unk(s, 'lex', 'number-text', 'number text %s not understood' % pp(self.prog, got))
                    continue
            if name == 'Eof':
                continue
            self.put(s, ('S',), start=I(0), hexs=[], queue=[], pre=[], content=[])
            self.forget(s, c, name)
            out.append((s, UNIT))
        return out

    def forget(self, st, c, name):
        """between two tokens nothing is assumed about the next character, the old token and its text"""
        f = self.get(st)[1]
        pend = f[1][1]
        keep = pend[0] if len(pend) == 2 else None
        if len(pend) == 2:
            st.facts = {k: r for k, r in st.facts.items() if not has_free(k, pend[1])}
        models.store(self, st, c.args[0], OLD)
        olds = set()
        for v in st.mem.values():
            for x in subterms(v):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == 'y' and x[1] in ('pos', 'content', 'ch') and x[2] != 0 and x != keep and (len(pend) < 2 or x != pend[1]):
                    olds.add(x)
        for x in olds:
            self.substitute(st, x, ('y', x[1], 0))
        gone = {OLD} | {('y', n, 0) for n in ('pos', 'ch', 'content')}
        st.facts = {k: r for k, r in st.facts.items() if not contains(k, lambda x: x in gone)}

    def verdict(self, st, name):
        """states in which the token just returned is the one the automaton saw"""
        ph, f = self.get(st)
        p = f[1][1]
        if name == 'Eof':
            if ph[0] == 'S' and len(p) == 1:
                return [st]
            if ph[0] == 'S':
                self.bad(st, 'lex', 'eof', 'reports the end of the input before the end')
            else:
                self.bad(st, self.cat(ph), 'eof', 'reports the end of the input in the middle of %s' % self.text(ph))
            return []
        if name == 'Error':
            self.bad(st, 'lex', 'error-token', 'the error token is returned as success')
            return []
        if accepting(ph) is None and ph[0] != 'D' and len(p) == 2:
            # the last character read may already belong to the token
            out = []
            for s in self.consume(st.copy(), None):
                ph2 = self.get(s)[0]
                if accepting(ph2) == name:
                    out.append(s)
                else:
                    out = None
                    break
            if out:
                return out
        if ph[0] == 'D':
            self.bad(st, self.cat(ph), 'accepts:%s:%s' % (name, ph[1]), 'accepts %s token although the characters read are not one (%s)' % (name, self.after(ph)))
            return []
        a = accepting(ph)
        if a != name:
            self.bad(st, self.cat(ph), 'accepts:%s:%s' % (name, '-'.join(map(str, ph))), 'returns a %s token after %s' % (name, self.text(ph)))
            return []
        if len(p) == 2 and a == 'Number':
            r = self.vrange(st, self.conc(st, p[1]))
            if is_and(r, alive(ph)):
                self.bad(st, 'lex', 'short-number:%s' % ph[0], 'ends a number although the next character still belongs to it')
                return []
        return [st]

    def after(self, ph):
        return {'S': 'not the start of a token', 'K': 'not a keyword', 'STR': 'raw control character in a string', 'ESC': 'undefined escape',
                'U': 'not four hex digits after \\u', 'UL': 'not four hex digits after \\u', 'surrogate': 'unpaired surrogate', 'N': 'malformed number'}.get(ph[1], 'characters after the token')

    def h_failed(self, A, st, c, w):
        self.errors += 1
        ph, f = self.get(st)
        p = f[1][1]
        if ph[0] == 'D':
            return []
        if len(p) == 1:
            if ph[0] == 'S':
                self.bad(st, 'lex', 'rejects:end', 'reports an error at the end of the input')
            elif accepting(ph):
                self.bad(st, self.cat(ph), 'rejects:%s' % accepting(ph), 'rejects %s at the end of the input' % self.text(ph))
            return []
        if len(p) == 2:
            r = self.vrange(st, self.conc(st, p[1]))
            ok_ = alive(ph)
            if accepting(ph):
                ok_ = is_norm(list(ok_) + list(followers(ph)))
            x = is_and(r, ok_)
            if x:
                c0 = x[0][0] if not any(lo <= 97 <= hi for lo, hi in x) else 97
                self.bad(st, self.cat(ph) if ph[0] != 'S' or not (x == ch('"')) else 'string', 'rejects:%s' % '-'.join(map(str, ph)),
                         'reports an error after %s although the next character may be %r' % (self.text(ph), chr(c0)))
        return []


def odd_facts(st):
    """does the path depend on a computation that is not understood?"""
    for k, r in st.facts.items():
        if k[0] == 't' and k[1] == 'ovf' and r == ((0, 0),):
            continue          # an addition of positions that does not wrap
        for x in subterms(k):
            if isinstance(x, tuple) and len(x) > 1 and x[0] == 't' and x[1] not in ('discr', 'hexval', 'pred', 'len', '*'):
                return True
    return False


def tup_(*a):
    return ('adt', '()', 0, tuple(a))


def panic_found(R, n, what):
    msg = 'the %s can panic: %s in %s' % (what, n.info[0], n.info[1])
    key = 'panic:%s:%s:%s' % (what, n.info[1].split('::')[-1], n.info[0])
    odd = odd_facts(n.state)
    wide = n.info[0] in ('assert:overflow:usize', 'assert:overflow:u64', 'assert:overflow:i64', 'assert:overflow:isize')
    # an addition of 64-bit positions does not wrap within the memory of a machine; the rest is a panic some input reaches
    (R.undecided if odd or wide else R.bad)(key, msg, n.info[2])


def cycles_without_read(g):
    """nodes on a cycle of the abstract graph that reads no character"""
    adj = {}
    deg = {}
    for a, ev, b in g.edges:
        if not any(e[0] == 'read' for e in ev):
            adj.setdefault(a, []).append(b)
            deg[b] = deg.get(b, 0) + 1
    nodes = set(adj) | set(deg)
    todo = [n for n in nodes if not deg.get(n)]
    while todo:                # whatever survives repeated removal of sources lies on or after a cycle
        n = todo.pop()
        nodes.discard(n)
        for m in adj.get(n, ()):
            deg[m] -= 1
            if deg[m] == 0:
                todo.append(m)
    out = {n: sum(1 for m in adj.get(n, ()) if m in nodes) for n in nodes}
    rev = {}
    for a in nodes:
        for b in adj.get(a, ()):
            if b in nodes:
                rev.setdefault(b, []).append(a)
    todo = [n for n in nodes if not out[n]]
    while todo:                # and repeated removal of sinks leaves what lies between cycles
        n = todo.pop()
        nodes.discard(n)
        for m in rev.get(n, ()):
            out[m] -= 1
            if out[m] == 0:
                todo.append(m)
    return [g.nodes[n].info for n in sorted(nodes) if g.nodes[n].info]


def analyse(ctx, R, cats):
    P = ctx.P
    nw = anchor(R, P, 'crate::core::json::tokenizer::Tokenizer::<\'a>::new') if False else None
    d = P.one(DRIVE)
    if d is None:
        R.undecided('driver', 'the tokenizer interface no longer type-checks against new / next / value / token')
        return None

    def rep(kind, cat, key, msg, site):
        if cat not in cats:
            return
        if kind == 'bad':
            R.bad('%s:%s' % (cat, key), msg, site)
        else:
            R.undecided('%s:%s' % (cat, key), msg, site)
    T = Tok(P, rep)
    g = None
    with Guard(R, 'tokenizer'):
        T.g = None
        try:
            g = T.run(d.key, [INPUT], mem=T.init())
        finally:
            # what was found on the part explored so far stands even when the exploration is cut short
            for f in T.found:
                rep(*f)
            g = g or T.g
            if g and None in cats:
                for n in g.terms('panic'):
                    panic_found(R, n, 'tokenizer')
        R.seen(T)
        R.count('tokens_observed', len(T.tokens))
        R.count('error_exits', T.errors)
        for t in T.names:
            if t != 'Error':
                R.ob('token:' + t)
                if t not in T.tokens:
                    R.bad('token-missing:' + t, 'no input produces the %s token' % t, ob='token:' + t)
        for ph in T.phases:
            R.ob('state:' + '-'.join(map(str, ph)))
        return T, g
    return None


def c02(ctx, R):
    """a string token's value is the decoded characters of the literal; malformed escapes and surrogates are errors"""
    analyse(ctx, R, ('string',))


def c03(ctx, R):
    """tokens, their boundaries, number text and white space are those of RFC 8259"""
    analyse(ctx, R, ('lex',))


def c07(ctx, R):
    """no input makes the tokenizer panic or loop without reading"""
    r = analyse(ctx, R, (None,))
    if r:
        T, g = r
        R.ob('termination')
        for i in cycles_without_read(g)[:3]:
            R.bad('hang:%s' % (i[0],), 'a cycle of the tokenizer reads no input', i)
