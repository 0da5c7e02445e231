"""Contracts of the std functions the analysed code calls.

A model takes (analysis, state, call, worklist) and returns a list of (state, result)
alternatives, None when it has scheduled the continuation itself, or NotImplemented.
"""
from .dom import *

HOOKS = {}
OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = ('adt', OPT, 0, ())


def some(v):
    return ('adt', OPT, 1, (v,))


def ok(v=UNIT):
    return ('adt', RES, 0, (v,))


def err(v):
    return ('adt', RES, 1, (v,))


def hook(*paths):
    def deco(f):
        for p in paths:
            HOOKS[p] = f
        return f
    return deco


def tup(*a):
    return ('adt', '()', 0, tuple(a))


def split(A, st, cond):
    """(state where cond holds or None, state where it does not or None)"""
    d = A.decide(st, cond)
    if d is True:
        return st, None
    if d is False:
        return None, st
    s2 = st.copy()
    t = st if A.assume(st, cond, True) else None
    f = s2 if A.assume(s2, cond, False) else None
    return t, f


def load(A, st, ref):
    c, p = A.deref(ref)
    v = A.read(st, c, p)
    return v


def loadall(A, st, ref):
    """value behind any number of references"""
    v = ref
    for _ in range(12):
        if v[0] == 'dyn':
            v = v[1]
        elif v[0] == 'ref':
            v = A.read(st, v[1], v[2])
        else:
            break
    return v


def store(A, st, ref, val):
    c, p = A.deref(ref)
    A.write(st, c, p, val)


def snap(A, st, v):
    return plain(A.snap(st, v))


def elemref(A, st, ref, idx):
    c, p = A.deref(ref)
    return ('ref', c, A.addproj(st, c, p, ('i', idx)))


def subref(A, st, ref, lo, hi):
    c, p = A.deref(ref)
    v = A.read(st, c, p)
    if lo == I(0) and hi == mk_len(v):
        return ref
    return ('ref', c, A.addproj(st, c, p, ('s', lo, hi)))


def seqlen(A, st, ref):
    return A.conc(st, mk_len(load(A, st, ref)))


def const_str(v):
    if v[0] == 'str':
        return v[1]
    if v[0] == 'arr' and all(x[0] == 'i' for x in v[1]):
        try:
            return bytes(x[1] for x in v[1]).decode()
        except Exception:
            return None
    return None


FOLDED = 'crate::sql::symbols::Name'


def mk_eqv(a, b):
    """boolean value of a == b for plain values"""
    if a == b:
        return TRUE
    if a[0] == 'b' and b[0] == 'b':
        return B(a[1] == b[1])
    ca, cb = const_str(a), const_str(b)
    if a[0] == 'str' and cb is not None or b[0] == 'str' and ca is not None:
        return B(ca == cb)
    ints = ('i', 'lin')
    if a[0] in ints or b[0] in ints:
        return mk_eq0(lsub(a, b))
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
        if a[1] == FOLDED and len(a[3]) == 1:
            # equal up to the case of letters
            x, y = a[3][0], b[3][0]
            cx, cy = const_str(x), const_str(y)
            if cx is not None and cy is not None:
                return B(cx.upper() == cy.upper())
            if x == y:
                return TRUE
            x, y = sorted((x, y), key=rk)
            return ('t', 'nameeq', x, y)
        if a[2] != b[2]:
            return FALSE
        r = TRUE
        for x, y in zip(a[3], b[3]):
            e = mk_eqv(x, y)
            if e == FALSE:
                return FALSE
            if e != TRUE:
                r = e if r == TRUE else ('t', 'band', r, e)
        return r
    if a[0] == 'arr' and b[0] == 'arr':
        if len(a[1]) != len(b[1]):
            return FALSE
        r = TRUE
        for x, y in zip(a[1], b[1]):
            e = mk_eqv(x, y)
            if e == FALSE:
                return FALSE
            if e != TRUE:
                r = e if r == TRUE else ('t', 'band', r, e)
        return r
    x, y = sorted((a, b), key=rk)
    return ('t', 'eq', x, y)


# ------------------------------------------------------------------ Vec / slices / String
@hook('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def vec_new(A, st, c, w):
    return [(st, ('arr', ()))]


@hook('alloc::string::String::new', 'alloc::string::String::with_capacity')
def string_new(A, st, c, w):
    return [(st, ('str', ''))]


@hook('alloc::vec::Vec::<T, A>::push')
def vec_push(A, st, c, w):
    store(A, st, c.args[0], mk_push(load(A, st, c.args[0]), c.args[1]))
    return [(st, UNIT)]


@hook('alloc::vec::Vec::<T, A>::pop')
def vec_pop(A, st, c, w):
    v = load(A, st, c.args[0])
    if v[0] == 'arr':
        if not v[1]:
            return [(st, NONE)]
        store(A, st, c.args[0], ('arr', v[1][:-1]))
        return [(st, some(v[1][-1]))]
    if v[0] == 'push':
        store(A, st, c.args[0], v[1])
        return [(st, some(v[2]))]
    return NotImplemented


@hook('alloc::vec::Vec::<T, A>::insert')
def vec_insert(A, st, c, w):
    v = load(A, st, c.args[0])
    i = A.conc(st, c.args[1])
    if v[0] != 'arr' or i[0] != 'i':
        return NotImplemented
    if i[1] > len(v[1]):
        A.panic(st, c.site, 'insertion index out of bounds')
        return None
    store(A, st, c.args[0], ('arr', v[1][:i[1]] + (c.args[2],) + v[1][i[1]:]))
    return [(st, UNIT)]


@hook('core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_end_matches')
def str_trim_matches(A, st, c, w):
    v = const_str(snap(A, st, loadall(A, st, c.args[0])))
    p = snap(A, st, loadall(A, st, c.args[1]))
    if v is None or p[0] not in ('i', 'str'):
        return NotImplemented
    p = chr(p[1]) if p[0] == 'i' else p[1]
    a, b = 0, len(v)
    if p:
        while c.name != 'trim_end_matches' and v.startswith(p, a, b) and a < b:
            a += len(p)
        while c.name != 'trim_start_matches' and v.endswith(p, a, b) and a < b:
            b -= len(p)
    return [(st, ('ref', ('k', ('str', v[a:b])), ()))]


@hook('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end')
def str_trim(A, st, c, w):
    v = const_str(snap(A, st, loadall(A, st, c.args[0])))
    if v is None or any(ord(x) in range(28, 32) for x in v):
        return NotImplemented
    v = {'trim': v.strip, 'trim_start': v.lstrip, 'trim_end': v.rstrip}[c.name]()
    return [(st, ('ref', ('k', ('str', v)), ()))]


@hook('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix')
def str_strip(A, st, c, w):
    v = const_str(snap(A, st, loadall(A, st, c.args[0])))
    p = snap(A, st, loadall(A, st, c.args[1]))
    if v is None or p[0] not in ('i', 'str'):
        return NotImplemented
    p = chr(p[1]) if p[0] == 'i' else p[1]
    if c.name == 'strip_prefix':
        r = v[len(p):] if v.startswith(p) else None
    else:
        r = v[:len(v) - len(p)] if v.endswith(p) else None
    return [(st, NONE if r is None else some(('ref', ('k', ('str', r)), ())))]


@hook('alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_ascii_lowercase', 'alloc::str::<impl str>::to_ascii_uppercase')
def str_case(A, st, c, w):
    v = const_str(snap(A, st, loadall(A, st, c.args[0])))
    if v is None or not v.isascii():
        return NotImplemented
    return [(st, ('str', v.lower() if c.name.endswith('lowercase') else v.upper()))]


@hook('alloc::str::<impl str>::replace')
def str_replace(A, st, c, w):
    v, p, q = [snap(A, st, loadall(A, st, x)) for x in c.args[:3]]
    v, q = const_str(v), const_str(q)
    if v is None or q is None or p[0] not in ('i', 'str') or p == ('str', ''):
        return NotImplemented
    return [(st, ('str', v.replace(chr(p[1]) if p[0] == 'i' else p[1], q)))]


@hook('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def vec_remove(A, st, c, w):
    v = load(A, st, c.args[0])
    i = A.conc(st, c.args[1])
    if v[0] != 'arr' or i[0] != 'i':
        return NotImplemented
    if i[1] >= len(v[1]):
        A.panic(st, c.site, 'index out of bounds')
        return None
    l = list(v[1])
    x = l[i[1]]
    if c.name == 'remove':
        del l[i[1]]
    else:
        l[i[1]] = l[-1]
        l.pop()
    store(A, st, c.args[0], ('arr', tuple(l)))
    return [(st, x)]


@hook('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'alloc::string::String::len', 'core::str::<impl str>::len')
def seq_len(A, st, c, w):
    n = seqlen(A, st, c.args[0])
    if n[0] not in ('i', 'lin'):
        A.settype(n, c.dty)
    return [(st, n)]


@hook('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'alloc::string::String::is_empty',
      'core::str::<impl str>::is_empty')
def seq_empty(A, st, c, w):
    return [(st, mk_eq0(seqlen(A, st, c.args[0])))]


@hook('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
      '<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str', 'alloc::vec::Vec::<T, A>::as_slice',
      'alloc::vec::Vec::<T, A>::as_mut_slice', 'core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes',
      '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<alloc::string::String as core::borrow::Borrow<str>>::borrow',
      '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref', '<str as core::convert::AsRef<[u8]>>::as_ref',
      '<alloc::string::String as core::convert::AsRef<[u8]>>::as_ref', 'core::str::<impl str>::as_str',
      'core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'alloc::vec::Vec::<T, A>::as_ptr', 'alloc::vec::Vec::<T, A>::as_mut_ptr')
def same_ref(A, st, c, w):
    r = c.args[0]
    if r[0] == 'ref':
        v = A.read(st, r[1], r[2])
        if v[0] == 'box':
            r = A.boxptr_v(v, r[1], r[2])
    return [(st, r)]


@hook('core::str::converts::from_utf8_unchecked')
def utf8_unchecked(A, st, c, w):
    return [(st, c.args[0])]


@hook('core::str::converts::from_utf8')
def from_utf8(A, st, c, w):
    v = snap(A, st, c.args[0])
    if const_str(v) is not None:
        return [(st, ok(c.args[0]))]
    t, f = split(A, st, ('t', 'utf8ok', v))
    out = []
    if t:
        out.append((t, ok(c.args[0])))
    if f:
        out.append((f, err(('t', 'utf8err', v))))
    return out


@hook('alloc::vec::Vec::<T, A>::clear')
def vec_clear(A, st, c, w):
    store(A, st, c.args[0], ('arr', ()))
    return [(st, UNIT)]


@hook('alloc::string::String::clear')
def str_clear(A, st, c, w):
    store(A, st, c.args[0], ('str', ''))
    return [(st, UNIT)]


def sconcat(a, b):
    if a == ('str', ''):
        return b
    if b == ('str', ''):
        return a
    if a[0] == 'str' and b[0] == 'str':
        return ('str', a[1] + b[1])
    return ('t', 'sconcat', a, b)


@hook('alloc::string::String::push')
def str_push(A, st, c, w):
    v = load(A, st, c.args[0])
    ch = c.args[1]
    if ch[0] == 'i' and v[0] == 'str':
        n = ('str', v[1] + chr(ch[1]))
    else:
        n = ('t', 'spush', v, ch)
    store(A, st, c.args[0], n)
    return [(st, UNIT)]


@hook('alloc::string::String::push_str')
def str_push_str(A, st, c, w):
    store(A, st, c.args[0], sconcat(load(A, st, c.args[0]), snap(A, st, loadall(A, st, c.args[1]))))
    return [(st, UNIT)]


@hook('alloc::vec::Vec::<T, A>::append')
def vec_append(A, st, c, w):
    a, b = load(A, st, c.args[0]), load(A, st, c.args[1])
    store(A, st, c.args[0], seqconcat(a, b))
    store(A, st, c.args[1], ('arr', ()))
    return [(st, UNIT)]


@hook('alloc::vec::Vec::<T, A>::extend_from_slice')
def vec_extend_slice(A, st, c, w):
    a, b = load(A, st, c.args[0]), load(A, st, c.args[1])
    store(A, st, c.args[0], seqconcat(a, b))
    return [(st, UNIT)]


@hook('alloc::slice::<impl [T]>::to_vec')
def to_vec(A, st, c, w):
    return [(st, load(A, st, c.args[0]))]


@hook('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(A, st, c, w):
    a, b = load(A, st, c.args[0]), load(A, st, c.args[1])
    t, f = split(A, st, mk_eq0(lsub(mk_len(a), mk_len(b))))
    if f:
        A.panic(f, c.site, 'copy_from_slice length mismatch')
    if not t:
        return None
    store(A, t, c.args[0], snap(A, t, b))
    return [(t, UNIT)]


def seqconcat(a, b):
    if a[0] == 'arr' and b[0] == 'arr':
        return ('arr', a[1] + b[1])
    if a == ('arr', ()):
        return b
    if b == ('arr', ()):
        return a
    if b[0] == 'arr' and len(b[1]) <= 8:
        for x in b[1]:
            a = mk_push(a, x)
        return a
    return ('t', 'concat', a, b)


RANGES = {'core::ops::range::Range': 'lh', 'core::ops::range::RangeFrom': 'l', 'core::ops::range::RangeTo': 'h',
          'core::ops::range::RangeFull': '', 'core::ops::range::RangeInclusive': 'li', 'core::ops::range::RangeToInclusive': 'i',
          'core::range::Range': 'lh'}


def range_bounds(rng, n):
    k = RANGES.get(rng[1])
    if k is None:
        return None
    fs = list(rng[3])
    lo, hi = I(0), n
    if 'l' in k:
        lo = fs[0]
    if 'h' in k:
        hi = fs[-1]
    if k == 'li':
        hi = ladd(fs[1], I(1))
    if k == 'i':
        hi = ladd(fs[0], I(1))
    return lo, hi


def index_impl(A, st, c, w):
    ref, idx = c.args[0], c.args[1]
    if ref[0] == 'ref':
        v = A.read(st, ref[1], ref[2])
        if v[0] == 'box':
            ref = A.boxptr_v(v, ref[1], ref[2])
    n = seqlen(A, st, ref)
    ti = A.prog.types[c.atys[1]]
    if ti['k'] == 'adt':
        if idx[0] != 'adt':
            return NotImplemented
        b = range_bounds(idx, n)
        if b is None:
            return NotImplemented
        lo, hi = b
        t, f = split(A, st, mk_ge0(lsub(hi, lo)))
        if f:
            A.panic(f, c.site, 'slice index order')
        if not t:
            return None
        t, f = split(A, t, mk_ge0(lsub(n, hi)))
        if f:
            A.panic(f, c.site, 'slice end out of range')
        if not t:
            return None
        return [(t, subref(A, t, ref, lo, hi))]
    idx = A.conc(st, idx)
    t, f = split(A, st, mk_ge0(ladd(lsub(n, idx), I(-1))))
    if f:
        A.panic(f, c.site, 'index out of bounds')
    if not t:
        return None
    return [(t, elemref(A, t, ref, idx))]


for _p in ('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
           'core::slice::index::<impl core::ops::index::Index<I> for [T]>::index',
           'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut'):
    HOOKS[_p] = index_impl


@hook('core::str::traits::<impl core::ops::index::Index<I> for str>::index', '<alloc::string::String as core::ops::index::Index<I>>::index')
def str_index(A, st, c, w):
    return index_impl(A, st, c, w)


@hook('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def slice_get(A, st, c, w):
    ref, idx = c.args[0], c.args[1]
    n = seqlen(A, st, ref)
    ti = A.prog.types[c.atys[1]]
    if ti['k'] == 'adt':
        if idx[0] != 'adt':
            return NotImplemented
        b = range_bounds(idx, n)
        if b is None:
            return NotImplemented
        lo, hi = b
        out = []
        t, f = split(A, st, mk_ge0(lsub(hi, lo)))
        if f:
            out.append((f, NONE))
        if t:
            t, f = split(A, t, mk_ge0(lsub(n, hi)))
            if f:
                out.append((f, NONE))
            if t:
                out.append((t, some(subref(A, t, ref, lo, hi))))
        return out
    t, f = split(A, st, mk_ge0(ladd(lsub(n, idx), I(-1))))
    out = []
    if t:
        out.append((t, some(elemref(A, t, ref, idx))))
    if f:
        out.append((f, NONE))
    return out


@hook('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def slice_first(A, st, c, w):
    ref = c.args[0]
    n = seqlen(A, st, ref)
    t, f = split(A, st, mk_ge0(ladd(n, I(-1))))
    out = []
    if t:
        out.append((t, some(elemref(A, t, ref, I(0) if c.name == 'first' else ladd(n, I(-1))))))
    if f:
        out.append((f, NONE))
    return out


@hook('crate::vmodels::opaque_sort')
def sort_by(A, st, c, w):
    v = load(A, st, c.args[0])
    f = snap(A, st, c.args[1]) if len(c.args) > 1 else UNIT
    store(A, st, c.args[0], ('t', 'sorted', v, f))
    return [(st, UNIT)]


@hook('crate::vmodels::concrete')
def v_concrete(A, st, c, w):
    v = load(A, st, c.args[0])
    return [(st, B(v[0] == 'arr' and ground(v)))]


def ground(v):
    k = v[0]
    if k in ('i', 'b', 'str', 'fl', 'fn', 'fnptr'):
        return True
    if k == 'arr':
        return all(map(ground, v[1]))
    if k in ('adt', 'clo'):
        return all(map(ground, v[-1]))
    if k == 'box':
        return ground(v[1])
    return k == 'ref'


@hook('core::slice::<impl [T]>::swap')
def slice_swap(A, st, c, w):
    v = load(A, st, c.args[0])
    i, j = A.conc(st, c.args[1]), A.conc(st, c.args[2])
    if v[0] == 'arr' and i[0] == 'i' and j[0] == 'i' and max(i[1], j[1]) < len(v[1]):
        es = list(v[1])
        es[i[1]], es[j[1]] = es[j[1]], es[i[1]]
        store(A, st, c.args[0], ('arr', tuple(es)))
        return [(st, UNIT)]
    return NotImplemented


@hook('core::slice::<impl [T]>::reverse')
def slice_reverse(A, st, c, w):
    v = load(A, st, c.args[0])
    if v[0] == 'arr':
        store(A, st, c.args[0], ('arr', tuple(reversed(v[1]))))
        return [(st, UNIT)]
    return NotImplemented


# ------------------------------------------------------------------ iterators
def mk_iter(kind, src, pos, end):
    return ('iter', kind, src, pos, end)


@hook('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
      "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
      "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
      "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
      "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
      "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter")
def slice_iter(A, st, c, w):
    r = c.args[0]
    if r[0] == 'ref':
        v = A.read(st, r[1], r[2])
        if v[0] == 'box':
            r = A.boxptr_v(v, r[1], r[2])
    return [(st, mk_iter('ref', r, I(0), seqlen(A, st, r)))]


@hook('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
def vec_into_iter(A, st, c, w):
    return [(st, mk_iter('val', c.args[0], I(0), A.conc(st, mk_len(c.args[0]))))]


@hook('core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
def arr_into_iter(A, st, c, w):
    return [(st, mk_iter('val', c.args[0], I(0), A.conc(st, mk_len(c.args[0]))))]


def chars_of(v):
    s = const_str(v)
    if s is not None:
        return ('arr', tuple(I(ord(x)) for x in s))
    return ('t', 'chars', v)


@hook('core::str::<impl str>::split')
def str_split(A, st, c, w):
    v = snap(A, st, loadall(A, st, c.args[0]))
    pat = loadall(A, st, c.args[1])
    sep = chr(pat[1]) if pat[0] == 'i' else const_str(pat) if pat[0] in ('str', 'arr') else None
    if sep == '.' and v[0] == 't' and v[1] == 'dotted':
        q = v[2]
    elif sep and v[0] == 'str':
        q = ('arr', tuple(('str', x) for x in v[1].split(sep)))
    else:
        q = ('t', 'split', v, pat)
    return [(st, mk_iter('strs', q, I(0), mk_len(q)))]


@hook('core::num::<impl core::str::traits::FromStr for usize>::from_str')
def usize_from_str(A, st, c, w):
    v = snap(A, st, loadall(A, st, c.args[0]))
    if v[0] == 'str':
        t = v[1][1:] if v[1][:1] == '+' else v[1]
        if t.isascii() and t.isdigit() and int(t) < 1 << 64:
            return [(st, ok(I(int(t))))]
        return [(st, err(('t', 'parseerr', v)))]
    t, f = split(A, st, ('t', 'isnum', v))
    out = []
    if t:
        n = ('t', 'num', v)
        A.TY.setdefault(n, A.prog.tyidx['usize'])
        out.append((t, ok(n)))
    if f:
        out.append((f, err(('t', 'parseerr', v))))
    return out


@hook('core::str::<impl str>::parse')
def str_parse(A, st, c, w):
    if len(c.cal['args']) and A.prog.types[c.cal['args'][-1]]['s'] == 'usize':
        return usize_from_str(A, st, c, w)
    return NotImplemented


@hook('core::str::<impl str>::chars', 'core::str::<impl str>::char_indices', 'core::str::<impl str>::bytes')
def str_chars(A, st, c, w):
    v = snap(A, st, loadall(A, st, c.args[0]))
    if c.name == 'bytes':
        return [(st, mk_iter('val', v, I(0), mk_len(v)))]
    q = chars_of(v)
    if c.name == 'char_indices' and q[0] != 'arr':
        return [(st, mk_iter('cidx', q, I(0), mk_len(q)))]
    if c.name == 'char_indices':
        off = 0
        xs = []
        for x in q[1]:
            xs.append(tup(I(off), x))
            off += len(chr(x[1]).encode())
        q = ('arr', tuple(xs))
    return [(st, mk_iter('val', q, I(0), mk_len(q)))]


def iter_item(A, st, it, pos):
    k = it[1]
    if k == 'ref':
        return elemref(A, st, it[2], pos)
    if k == 'val':
        v = mk_elem(it[2], pos)
        if it[2][0] == 't' and it[2][1] == 'chars':
            A.TY.setdefault(v, A.prog.tyidx['char'])
        return v
    if k == 'strs':
        return ('ref', ('k', mk_elem(it[2], pos)), ())
    if k == 'cidx':
        v = mk_elem(it[2], pos)
        A.TY.setdefault(v, A.prog.tyidx['char'])
        return tup(('t', 'cidx', it[2], pos), v)
    if k == 'map':
        e = mk_elem(it[2], pos)
        return tup(('ref', ('k', mk_p(e, 0, 0)), ()), ('ref', ('k', mk_p(e, 0, 1)), ()))
    if k == 'mapk':
        e = mk_elem(it[2], pos)
        return ('ref', ('k', mk_p(e, 0, 0)), ())
    if k == 'mapv':
        e = mk_elem(it[2], pos)
        return ('ref', ('k', mk_p(e, 0, 1)), ())
    raise KeyError(k)


def iter_next(A, st, c, w, back=False):
    ref = c.args[0]
    it = load(A, st, ref)
    if it[0] != 'iter':
        return NotImplemented
    pos, end = it[3], it[4]
    t, f = split(A, st, mk_ge0(ladd(lsub(end, pos), I(-1))))
    out = []
    if t:
        if back:
            p = ladd(end, I(-1))
            store(A, t, ref, it[:4] + (p,))
        else:
            p = pos
            store(A, t, ref, it[:3] + (ladd(pos, I(1)),) + it[4:])
        v = iter_item(A, t, it, p)
        if not isinstance(v, list):
            out.append((t, some(v)))
    if f:
        out.append((f, NONE))
    return out


for _p in ("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
           "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next",
           "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next",
           "<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next",
           "<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next",
           "<core::str::iter::Split<'a, P> as core::iter::traits::iterator::Iterator>::next",
           "<core::str::iter::Bytes<'_> as core::iter::traits::iterator::Iterator>::next",
           "<core::str::iter::CharIndices<'a> as core::iter::traits::iterator::Iterator>::next",
           "<alloc::collections::btree::map::Iter<'a, K, V> as core::iter::traits::iterator::Iterator>::next",
           "<alloc::collections::btree::map::IntoIter<K, V, A> as core::iter::traits::iterator::Iterator>::next",
           "<alloc::collections::btree::map::Keys<'a, K, V> as core::iter::traits::iterator::Iterator>::next",
           "<alloc::collections::btree::map::Values<'a, K, V> as core::iter::traits::iterator::Iterator>::next",
           "<std::collections::hash::map::Iter<'a, K, V> as core::iter::traits::iterator::Iterator>::next"):
    HOOKS[_p] = iter_next
for _p in ("<core::slice::iter::Iter<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
           "<core::slice::iter::IterMut<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
           "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back"):
    HOOKS[_p] = lambda A, st, c, w: iter_next(A, st, c, w, True)


@hook("core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next")
def range_next(A, st, c, w):
    r = load(A, st, c.args[0])
    if r[0] != 'adt':
        return NotImplemented
    a, b = r[3]
    t, f = split(A, st, mk_ge0(ladd(lsub(b, a), I(-1))))
    out = []
    if t:
        store(A, t, c.args[0], ('adt', r[1], 0, (ladd(a, I(1)), b)))
        out.append((t, some(a)))
    if f:
        out.append((f, NONE))
    return out


@hook("core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next")
def rangei_next(A, st, c, w):
    r = load(A, st, c.args[0])
    if r[0] != 'adt':
        return NotImplemented
    a, b, ex = r[3]
    t, f = split(A, st, mk_ge0(lsub(b, a)))
    out = []
    if t:
        store(A, t, c.args[0], ('adt', r[1], 0, (ladd(a, I(1)), b, ex)))
        out.append((t, some(a)))
    if f:
        out.append((f, NONE))
    return out


# ------------------------------------------------------------------ boxes and smart pointers
@hook('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new')
def box_new(A, st, c, w):
    return [(st, ('box', c.args[0]))]


MU = 'core::mem::maybe_uninit::MaybeUninit'


@hook('alloc::boxed::Box::<T>::new_uninit')
def box_new_uninit(A, st, c, w):
    return [(st, ('box', ('adt', MU, 0, (UNIT, ('adt', 'core::mem::manually_drop::ManuallyDrop', 0, (UNDEF,))))))]


@hook('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(A, st, c, w):
    v = c.args[0]
    if v[0] == 'box' and v[1][0] == 'adt' and v[1][1] == MU and v[1][3][1][0] == 'adt':
        v = v[1][3][1][3][0]
        if v[0] == 'arr':
            return [(st, v)]
    return NotImplemented


@hook('<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref',
      '<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref',
      '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut', '<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut',
      '<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow', '<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref')
def box_as_ref(A, st, c, w):
    cell, projs = A.deref(c.args[0])
    r = A.boxptr(st, cell, projs)
    return [(st, r)]


@hook('core::clone::Clone::clone')
def clone(A, st, c, w):
    return [(st, load(A, st, c.args[0]))]


@hook('core::clone::impls::<impl core::clone::Clone for &T>::clone')
def clone_ref(A, st, c, w):
    return [(st, load(A, st, c.args[0]))]


@hook('alloc::borrow::ToOwned::to_owned')
def to_owned(A, st, c, w):
    return [(st, load(A, st, c.args[0]))]


# ------------------------------------------------------------------ strings
@hook('<alloc::string::String as core::convert::From<&str>>::from', '<alloc::string::String as core::convert::From<&mut str>>::from',
      '<alloc::string::String as core::convert::From<&alloc::string::String>>::from', 'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned')
def string_from(A, st, c, w):
    return [(st, loadall(A, st, c.args[0]))]


@hook('<alloc::string::String as core::str::traits::FromStr>::from_str')
def string_from_str(A, st, c, w):
    return [(st, ok(loadall(A, st, c.args[0])))]


@hook('<T as alloc::string::ToString>::to_string', 'alloc::string::ToString::to_string', 'alloc::string::<impl alloc::string::ToString for str>::to_string')
def to_string(A, st, c, w):
    t = A.prog.types[c.atys[0]]
    for _ in range(4):
        if t['k'] == 'ref':
            t = A.prog.types[t['t']]
    v = snap(A, st, loadall(A, st, c.args[0]))
    if t['s'] in ('str', 'alloc::string::String', 'alloc::borrow::Cow<str>'):
        return [(st, v)]
    if t['s'] == 'char':
        return [(st, ('str', chr(v[1])) if v[0] == 'i' else ('t', 'spush', ('str', ''), v))]
    return [(st, ('t', 'to_string', v))]


EQS = ('<alloc::string::String as core::cmp::PartialEq<&str>>::eq', '<alloc::string::String as core::cmp::PartialEq>::eq',
       'core::str::traits::<impl core::cmp::PartialEq for str>::eq', '<alloc::string::String as core::cmp::PartialEq<str>>::eq',
       '<&str as core::cmp::PartialEq<alloc::string::String>>::eq', '<str as core::cmp::PartialEq<alloc::string::String>>::eq',
       'alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>::eq',
       'core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq', '<alloc::boxed::Box<T, A> as core::cmp::PartialEq>::eq',
       'alloc::vec::partial_eq::<impl core::cmp::PartialEq<&[U]> for alloc::vec::Vec<T, A>>::eq',
       "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq",
       'core::cmp::PartialEq::ne_')


@hook(*EQS)
def seq_eq(A, st, c, w):
    return [(st, mk_eqv(snap(A, st, loadall(A, st, c.args[0])), snap(A, st, loadall(A, st, c.args[1]))))]


# ------------------------------------------------------------------ maps
MAP0 = ('t', 'map0')


@hook('alloc::collections::btree::map::BTreeMap::<K, V>::new', 'std::collections::hash::map::HashMap::<K, V>::new',
      '<alloc::collections::btree::map::BTreeMap<K, V> as core::default::Default>::default')
def map_new(A, st, c, w):
    return [(st, MAP0)]


@hook('alloc::collections::btree::map::BTreeMap::<K, V, A>::clear', 'std::collections::hash::map::HashMap::<K, V, S, A>::clear')
def map_clear(A, st, c, w):
    store(A, st, c.args[0], MAP0)
    return [(st, UNIT)]


def map_lookup(A, st, m, key):
    """[(state, value or None)]"""
    out = []
    cur = st
    while cur is not None:
        if m == MAP0:
            out.append((cur, None))
            return out
        if m[0] == 't' and m[1] == 'minsert':
            k = snap(A, cur, m[3])
            t, f = split(A, cur, mk_eqv(k, key))
            if t:
                out.append((t, m[4]))
            cur = f
            m = m[2]
            continue
        if m[0] == 't' and m[1] == 'mapcomp':
            comp = m[2]
            f = cur.copy()
            j = A.fresh('idx', A.prog.tyidx['usize'])
            e = mk_elem(comp, j)
            k = snap(A, cur, mk_p(e, 0, 0))
            if A.assume(cur, mk_ge0(ladd(lsub(comp[2], j), I(-1))), True) and A.assume(cur, mk_eqv(k, key), True):
                out.append((cur, mk_p(e, 0, 1)))
            out.append((f, None))
            return out
        b = ('t', 'mhas', m, key)
        t, f = split(A, cur, b)
        if t:
            out.append((t, ('t', 'mget', m, key)))
        if f:
            out.append((f, None))
        return out
    return out


@hook('alloc::collections::btree::map::BTreeMap::<K, V, A>::get', 'std::collections::hash::map::HashMap::<K, V, S, A>::get')
def map_get(A, st, c, w):
    m = load(A, st, c.args[0])
    key = snap(A, st, loadall(A, st, c.args[1]))
    vt = None
    t = A.prog.types[c.dty]
    if t['k'] == 'adt' and t['args']:
        vt = A.pointee(t['args'][0])
    out = []
    for s, v in map_lookup(A, st, m, key):
        if v is None:
            out.append((s, NONE))
        else:
            A.settype(v, vt)
            out.append((s, some(valref(v))))
    return out


@hook("<alloc::collections::btree::map::BTreeMap<K, V, A> as core::ops::index::Index<&Q>>::index")
def map_index(A, st, c, w):
    out = []
    for s, v in map_lookup(A, st, load(A, st, c.args[0]), snap(A, st, loadall(A, st, c.args[1]))):
        if v is None:
            A.panic(s, c.site, 'no entry found for key')
        else:
            out.append((s, valref(v)))
    return out


def valref(v):
    return v[1] if v[0] == 'mcell' else ('ref', ('k', v), ())


def unmcell(A, st, v):
    return A.read(st, v[1][1], v[1][2]) if v[0] == 'mcell' else v


def map_slot(A, st, mref, key):
    """a reference through which the value stored under key can be written"""
    m = load(A, st, mref)
    chain = []
    while m[0] == 't' and m[1] == 'minsert':
        d = A.decide(st, mk_eqv(snap(A, st, m[3]), key))
        if d is None:
            return None
        if d:
            v = m[4]
            if v[0] == 'mcell':
                return v[1]
            st.nh += 1
            cell = ('h', st.nh)
            st.mem[cell] = v
            r = ('ref', cell, ())
            m = ('t', 'minsert', m[2], m[3], ('mcell', r))
            for k, x in reversed(chain):
                m = ('t', 'minsert', m, k, x)
            store(A, st, mref, m)
            return r
        chain.append((m[3], m[4]))
        m = m[2]
    return None


@hook('alloc::collections::btree::map::BTreeMap::<K, V, A>::get_mut')
def map_get_mut(A, st, c, w):
    key = snap(A, st, loadall(A, st, c.args[1]))
    out = []
    for s, v in map_lookup(A, st, load(A, st, c.args[0]), key):
        if v is None:
            out.append((s, NONE))
        else:
            r = map_slot(A, s, c.args[0], key)
            if r is None:
                return NotImplemented
            out.append((s, some(r)))
    return out


@hook('alloc::collections::btree::map::BTreeMap::<K, V, A>::contains_key', 'std::collections::hash::map::HashMap::<K, V, S, A>::contains_key')
def map_has(A, st, c, w):
    m = load(A, st, c.args[0])
    key = snap(A, st, loadall(A, st, c.args[1]))
    return [(s, B(v is not None)) for s, v in map_lookup(A, st, m, key)]


def map_entries(A, st, m):
    """the live (key, value) pairs of a map built from insertions only, None if that is not decided"""
    out = []
    while m != MAP0:
        if m[0] != 't' or m[1] != 'minsert':
            return None
        k = snap(A, st, m[3])
        hit = False
        for k2, _ in out:
            d = A.decide(st, mk_eqv(k, k2))
            if d is None:
                return None
            hit = hit or d
        if not hit:
            out.append((k, m[4]))
        m = m[2]
    out.reverse()
    return out


def map_order(es):
    def text(k):
        while k[0] == 'adt' and len(k[3]) == 1:
            k = k[3][0]
        return const_str(k)
    ts = [text(k) for k, _ in es]
    if all(t is not None for t in ts):
        return [e for _, e in sorted(zip(ts, es), key=lambda x: x[0])]
    return es


def mk_map(es):
    m = MAP0
    for k, v in es:
        m = ('t', 'minsert', m, k, v)
    return m


def _refs(A, st, r):
    v = A.read(st, r[1], r[2]) if r[0] == 'ref' else r
    while v[0] == 'ref':
        v = A.read(st, v[1], v[2])
    return v


def map_iter_of(kind, byref):
    def h(A, st, c, w):
        m = _refs(A, st, c.args[0]) if byref else c.args[0]
        es = map_entries(A, st, m)
        if es is None:
            return NotImplemented
        es = map_order(es)
        if kind == 'k':
            vs = [('ref', ('k', k), ()) for k, _ in es]
        elif kind == 'v':
            vs = [valref(v) for _, v in es]
        elif byref:
            vs = [tup(('ref', ('k', k), ()), valref(v)) for k, v in es]
        else:
            vs = [tup(k, unmcell(A, st, v)) for k, v in es]
        return [(st, mk_iter('val', ('arr', tuple(vs)), I(0), I(len(vs))))]
    return h


BM = 'alloc::collections::btree::map::BTreeMap'
HOOKS[BM + '::<K, V, A>::iter'] = map_iter_of('kv', True)
HOOKS["<&'a " + BM + '<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter'] = map_iter_of('kv', True)
HOOKS['<' + BM + '<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter'] = map_iter_of('kv', False)
HOOKS[BM + '::<K, V, A>::keys'] = map_iter_of('k', True)
HOOKS[BM + '::<K, V, A>::values'] = map_iter_of('v', True)


@hook(BM + '::<K, V, A>::len', 'alloc::collections::btree::set::BTreeSet::<T, A>::len')
def map_len(A, st, c, w):
    es = map_entries(A, st, _refs(A, st, c.args[0]))
    return NotImplemented if es is None else [(st, I(len(es)))]


@hook(BM + '::<K, V, A>::remove')
def map_remove(A, st, c, w):
    m = load(A, st, c.args[0])
    key = snap(A, st, loadall(A, st, c.args[1]))
    out = []
    for s, v in map_lookup(A, st, m, key):
        es = map_entries(A, s, m)
        if es is None:
            return NotImplemented
        ds = [A.decide(s, mk_eqv(k, key)) for k, _ in es]
        if None in ds:
            return NotImplemented
        store(A, s, c.args[0], mk_map([e for e, d in zip(es, ds) if not d]))
        out.append((s, NONE if v is None else some(unmcell(A, s, v))))
    return out


@hook(BM + '::<K, V, A>::insert', 'std::collections::hash::map::HashMap::<K, V, S, A>::insert')
def map_insert(A, st, c, w):
    m = load(A, st, c.args[0])
    key = snap(A, st, c.args[1])
    store(A, st, c.args[0], ('t', 'minsert', m, key, c.args[2]))
    es = map_entries(A, st, m)
    if es is not None:
        ds = [A.decide(st, mk_eqv(k, key)) for k, _ in es]
        if None not in ds:
            hit = [v for (_, v), d in zip(es, ds) if d]
            return [(st, some(unmcell(A, st, hit[-1])) if hit else NONE)]
    return [(st, ('t', 'mold', m, key))]


BS = 'alloc::collections::btree::set::BTreeSet'


@hook(BS + '::<T>::new', '<' + BS + '<T> as core::default::Default>::default')
def set_new(A, st, c, w):
    return [(st, MAP0)]


@hook(BS + '::<T, A>::contains')
def set_has(A, st, c, w):
    m = load(A, st, c.args[0])
    key = snap(A, st, loadall(A, st, c.args[1]))
    return [(s, B(v is not None)) for s, v in map_lookup(A, st, m, key)]


@hook(BS + '::<T, A>::remove')
def set_remove(A, st, c, w):
    r = map_remove(A, st, c, w)
    return r if r is NotImplemented else [(s, B(v != NONE)) for s, v in r]


@hook(BS + '::<T, A>::clear')
def set_clear(A, st, c, w):
    store(A, st, c.args[0], MAP0)
    return [(st, UNIT)]


HOOKS[BS + '::<T, A>::iter'] = map_iter_of('k', True)
HOOKS["<&'a " + BS + '<T, A> as core::iter::traits::collect::IntoIterator>::into_iter'] = map_iter_of('k', True)


@hook(BS + '::<T, A>::insert')
def set_insert(A, st, c, w):
    m = load(A, st, c.args[0])
    key = snap(A, st, loadall(A, st, c.args[1]) if c.args[1][0] == 'ref' else c.args[1])
    out = []
    for s, v in map_lookup(A, st, m, key):
        if v is None:
            store(A, s, c.args[0], ('t', 'minsert', m, key, UNIT))
        out.append((s, B(v is None)))
    return out


# an entry is Vacant(mvac(map, key)) or Occupied(mocc(map, key))
ENTRIES = {'alloc::collections::btree::map::BTreeMap::<K, V, A>::entry': ('alloc::collections::btree::map::entry::Entry', 0, 1),
           'std::collections::hash::map::HashMap::<K, V, S, A>::entry': ('std::collections::hash::map::Entry', 1, 0)}
VAC = "alloc::collections::btree::map::entry::VacantEntry::<'a, K, V, A>::"
OCC = "alloc::collections::btree::map::entry::OccupiedEntry::<'a, K, V, A>::"
ENT = "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::"


def entry_maker(path):
    adt, vac, occ = ENTRIES[path]

    def h(A, st, c, w):
        key = snap(A, st, c.args[1])
        return [(s, ('adt', adt, vac if v is None else occ, (('t', 'mvac' if v is None else 'mocc', c.args[0], key),)))
                for s, v in map_lookup(A, st, load(A, st, c.args[0]), key)]
    return h


for _p in ENTRIES:
    HOOKS[_p] = entry_maker(_p)


def entry_slot(A, st, e, val):
    """a reference to the value of an entry, which is stored first if the entry is vacant"""
    if e[0] == 'adt' and len(e[3]) == 1:
        e = e[3][0]
    if e[0] != 't' or e[1] not in ('mvac', 'mocc'):
        return NotImplemented
    if e[1] == 'mvac':
        store(A, st, e[2], ('t', 'minsert', load(A, st, e[2]), e[3], val))
    r = map_slot(A, st, e[2], e[3])
    return NotImplemented if r is None else [(st, r)]


@hook(ENT + 'or_insert', "std::collections::hash::map::Entry::<'a, K, V, A>::or_insert", VAC + 'insert')
def entry_or_insert(A, st, c, w):
    return entry_slot(A, st, c.args[0], c.args[1])


@hook(OCC + 'get', OCC + 'get_mut', OCC + 'into_mut')
def entry_get(A, st, c, w):
    e = c.args[0]
    if e[0] == 'ref':
        e = load(A, st, e)
    return entry_slot(A, st, e, None) if e[0] == 't' and e[1] == 'mocc' else NotImplemented


@hook('alloc::collections::btree::map::BTreeMap::<K, V, A>::is_empty', BS + '::<T, A>::is_empty')
def map_empty(A, st, c, w):
    m = load(A, st, c.args[0])
    if m == MAP0:
        return [(st, TRUE)]
    if m[0] == 't' and m[1] == 'minsert':
        return [(st, FALSE)]
    return [(st, ('t', 'mempty', m))]


# ------------------------------------------------------------------ formatting
def parse_template(bs):
    """pieces of a compiled format template: ('lit', text) | ('arg', index, spec)"""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', bytes(bs[i:i + n]).decode('utf8', 'replace')))
            i += n
        elif n == 0x80:
            m = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(('lit', bytes(bs[i:i + m]).decode('utf8', 'replace')))
            i += m
        elif n == 0xC0:
            out.append(('arg', nxt, ()))
            nxt += 1
        else:
            spec = []
            if n & 1:
                spec.append(('flags', int.from_bytes(bytes(bs[i:i + 4]), 'little')))
                i += 4
            if n & 2:
                spec.append(('width', int.from_bytes(bytes(bs[i:i + 2]), 'little')))
                i += 2
            if n & 4:
                spec.append(('prec', int.from_bytes(bytes(bs[i:i + 2]), 'little')))
                i += 2
            if n & 8:
                nxt = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
            if n & 0x30:
                spec.append(('indirect', n & 0x30))
            out.append(('arg', nxt, tuple(spec)))
            nxt += 1
    return out


@hook("core::fmt::Arguments::<'a>::new")
def fmt_new(A, st, c, w):
    tpl = snap(A, st, loadall(A, st, c.args[0]))
    args = snap(A, st, loadall(A, st, c.args[1]))
    if tpl[0] == 'str':
        bs = tpl[1].encode()
    elif tpl[0] == 'arr' and all(x[0] == 'i' for x in tpl[1]):
        bs = bytes(x[1] for x in tpl[1])
    else:
        return [(st, ('t', 'fmt?', tpl, args))]
    ps = []
    for p in parse_template(bs):
        if p[0] == 'lit':
            ps.append(('str', p[1]))
        else:
            a = mk_elem(args, I(p[1]))
            if a[0] == 't' and a[1] == 'fmtarg':
                if a[2] == 'new_display' and not p[2]:
                    ps.append(('t', 'disp', a[3], a[4]))
                else:
                    ps.append(('t', 'dispspec', a[2], p[2], a[3], a[4]))
            else:
                ps.append(a)
    return [(st, ('t', 'fmt', ('arr', tuple(ps))))]


@hook("core::fmt::Arguments::<'a>::from_str")
def fmt_from_str(A, st, c, w):
    return [(st, ('t', 'fmt', ('arr', (snap(A, st, loadall(A, st, c.args[0])),))))]


for _n in ('new_display', 'new_debug', 'new_lower_hex', 'new_upper_hex', 'new_octal', 'new_binary', 'new_lower_exp', 'new_upper_exp'):
    def _fa(A, st, c, w, _n=_n):
        t = A.prog.types[c.atys[0]]
        for _ in range(4):
            if t['k'] == 'ref':
                t = A.prog.types[t['t']]
        return [(st, ('t', 'fmtarg', _n, ('str', t['s']), snap(A, st, loadall(A, st, c.args[0]))))]
    HOOKS["core::fmt::rt::Argument::<'_>::" + _n] = _fa


@hook('alloc::fmt::format')
def fmt_format(A, st, c, w):
    a = c.args[0]
    if a[0] == 't' and a[1] == 'fmt':
        r = ('str', '')
        for p in a[2][1]:
            if p[0] == 't' and p[1] == 'disp':
                if p[2][1] in ('str', 'alloc::string::String'):
                    p = p[3]
                elif p[3][0] == 'adt' and p[3][1] == FOLDED and len(p[3][3]) == 1:
                    p = p[3][3][0]          # a name displays as its spelling
                elif p[3][0] == 'i':
                    p = ('str', str(p[3][1]))
            r = sconcat(r, p)
        return [(st, r)]
    return [(st, ('t', 'format', a))]


@hook('core::hint::must_use', 'core::hint::black_box')
def must_use(A, st, c, w):
    return [(st, c.args[0])]


# ------------------------------------------------------------------ io::Write
def write_event(A, st, c, pieces):
    A.emit(st, 'write', pieces)


@hook('core::io::write::Write::write_all', 'std::io::Write::write_all')
def write_all(A, st, c, w):
    v = snap(A, st, loadall(A, st, c.args[1]))
    s2 = st.copy()
    A.emit(st, 'write', (v,))
    A.emit(s2, 'writefail', (v,))
    return [(st, ok()), (s2, err(('y', 'ioerr', 0)))]


@hook('core::io::write::Write::write_fmt', 'std::io::Write::write_fmt')
def write_fmt(A, st, c, w):
    a = c.args[1]
    ps = a[2][1] if a[0] == 't' and a[1] == 'fmt' else (a,)
    s2 = st.copy()
    A.emit(st, 'write', tuple(ps))
    A.emit(s2, 'writefail', tuple(ps))
    return [(st, ok()), (s2, err(('y', 'ioerr', 0)))]


@hook('core::io::write::Write::write', 'std::io::Write::write')
def write_some(A, st, c, w):
    v = snap(A, st, loadall(A, st, c.args[1]))
    s2 = st.copy()
    n = A.fresh('nwritten', A.prog.tyidx['usize'])
    A.assume(st, mk_ge0(lsub(mk_len(v), n)), True)
    A.emit(st, 'writesome', (v,), n)
    A.emit(s2, 'writefail', (v,))
    return [(st, ok(n)), (s2, err(('y', 'ioerr', 0)))]


@hook('core::io::write::Write::flush')
def write_flush(A, st, c, w):
    s2 = st.copy()
    return [(st, ok()), (s2, err(('y', 'ioerr', 0)))]


# ------------------------------------------------------------------ chars
DIGITS = ((48, 57),)
WSPACE = ((9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029),
          (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000))


def inset(A, st, v, s):
    """split on membership of an integer value in a set"""
    v = A.conc(st, v)
    if v[0] == 'i':
        return (st, None) if is_and(((v[1], v[1]),), s) else (None, st)
    key, sg, cc = key_of(v)
    ks = is_norm(is_shift(is_shift(s, -cc), 0, sg))
    t, f = st.copy(), st
    t = t if A.addfact(t, key, ks) else None
    f = f if A.addfact(f, key, is_not(ks)) else None
    return t, f


def predset(A, st, v, s):
    t, f = inset(A, st, v, s)
    out = []
    if t:
        out.append((t, TRUE))
    if f:
        out.append((f, FALSE))
    return out


@hook('core::char::methods::<impl char>::is_digit')
def ch_is_digit(A, st, c, w):
    r = c.args[1]
    if r[0] != 'i' or not 2 <= r[1] <= 36:
        return NotImplemented
    n = r[1]
    s = ((48, 47 + min(n, 10)),) + (((65, 54 + n), (97, 86 + n)) if n > 10 else ())
    return predset(A, st, c.args[0], s)


@hook('core::char::methods::<impl char>::to_digit')
def ch_to_digit(A, st, c, w):
    r = c.args[1]
    if r[0] != 'i' or not 2 <= r[1] <= 36:
        return NotImplemented
    n = r[1]
    out = []
    rest = st
    for s, off in (((48, 47 + min(n, 10)), -48), ((65, 54 + n), -55), ((97, 86 + n), -87)):
        if s[0] > s[1] or rest is None:
            continue
        t, rest = inset(A, rest, c.args[0], (s,))
        if t:
            out.append((t, some(A.conc(t, ladd(c.args[0], I(off))))))
    if rest:
        out.append((rest, NONE))
    return out


def _selfarg(A, st, c):
    v = c.args[0]
    return A.conc(st, loadall(A, st, v))


def _pred(name, s):
    def f(A, st, c, w):
        return predset(A, st, _selfarg(A, st, c), s)
    HOOKS[name] = f


ALPHA_ASCII = ((65, 90), (97, 122))
_pred('core::char::methods::<impl char>::is_whitespace', WSPACE)
_pred('core::char::methods::<impl char>::is_control', ((0, 31), (127, 159)))
for _t in ('core::char::methods::<impl char>', 'core::num::<impl u8>'):
    _pred(_t + '::is_ascii_digit', DIGITS)
    _pred(_t + '::is_ascii_hexdigit', ((48, 57), (65, 70), (97, 102)))
    _pred(_t + '::is_ascii_whitespace', ((9, 10), (12, 13), (32, 32)))
    _pred(_t + '::is_ascii_control', ((0, 31), (127, 127)))
    _pred(_t + '::is_ascii_alphabetic', ALPHA_ASCII)
    _pred(_t + '::is_ascii_alphanumeric', ((48, 57),) + ALPHA_ASCII)
    _pred(_t + '::is_ascii', ((0, 127),))


def unicode_pred(name, asc):
    """exact below 0x80, uninterpreted above"""
    def f(A, st, c, w):
        v = _selfarg(A, st, c)
        t, rest = inset(A, st, v, asc)
        out = [(t, TRUE)] if t else []
        if rest:
            hi, lo = inset(A, rest, v, ((0x80, 0x10ffff),))
            if lo:
                out.append((lo, FALSE))
            if hi:
                a, b = split(A, hi, ('t', 'pred', name, v))
                if a:
                    out.append((a, TRUE))
                if b:
                    out.append((b, FALSE))
        return out
    HOOKS['core::char::methods::<impl char>::' + name] = f


unicode_pred('is_alphanumeric', ((48, 57),) + ALPHA_ASCII)
unicode_pred('is_alphabetic', ALPHA_ASCII)
unicode_pred('is_numeric', ((48, 57),))


@hook('core::char::from_u32', 'core::char::convert::from_u32', 'core::char::methods::<impl char>::from_u32')
def ch_from_u32(A, st, c, w):
    v = c.args[0]
    for lo, hi in ((0, 0xd7ff), (0xe000, 0x10ffff)):
        if A.decide(st, mk_ge0(ladd(v, I(-lo)))) is True and A.decide(st, mk_ge0(lsub(I(hi), v))) is True:
            return [(st, some(v))]
    t, f = inset(A, st, c.args[0], ((0, 0xd7ff), (0xe000, 0x10ffff)))
    out = []
    if t:
        out.append((t, some(c.args[0])))
    if f:
        out.append((f, NONE))
    return out


@hook('core::char::convert::from_u32_unchecked', 'core::char::methods::<impl char>::from_u32_unchecked', 'core::char::from_u32_unchecked')
def ch_from_u32u(A, st, c, w):
    return [(st, c.args[0])]


@hook('core::char::methods::<impl char>::len_utf8')
def ch_len_utf8(A, st, c, w):
    out = []
    rest = st
    for s, n in ((((0, 0x7f),), 1), (((0x80, 0x7ff),), 2), (((0x800, 0xffff),), 3), (((0x10000, 0x10ffff),), 4)):
        if rest is None:
            break
        t, rest = inset(A, rest, c.args[0], s)
        if t:
            out.append((t, I(n)))
    return out


@hook('core::char::methods::<impl char>::encode_utf8')
def ch_encode_utf8(A, st, c, w):
    v = ('t', 'spush', ('str', ''), c.args[0])
    if c.args[0][0] == 'i':
        v = ('str', chr(c.args[0][1]))
    return [(st, ('ref', ('k', v), ()))]


# ------------------------------------------------------------------ mem
@hook('core::mem::swap')
def mem_swap(A, st, c, w):
    a, b = load(A, st, c.args[0]), load(A, st, c.args[1])
    store(A, st, c.args[0], b)
    store(A, st, c.args[1], a)
    return [(st, UNIT)]


@hook('core::mem::replace')
def mem_replace(A, st, c, w):
    a = load(A, st, c.args[0])
    store(A, st, c.args[0], c.args[1])
    return [(st, a)]


@hook('core::mem::drop', 'core::mem::forget')
def mem_drop(A, st, c, w):
    return [(st, UNIT)]


@hook('core::ptr::const_ptr::<impl *const T>::add', 'core::ptr::const_ptr::<impl *const T>::offset',
      'core::ptr::mut_ptr::<impl *mut T>::add', 'core::ptr::mut_ptr::<impl *mut T>::offset')
def ptr_add(A, st, c, w):
    return NotImplemented


# ------------------------------------------------------------------ intrinsics
@hook('core::intrinsics::cold_path')
def cold(A, st, c, w):
    return [(st, UNIT)]


@hook('core::intrinsics::discriminant_value')
def intr_discr(A, st, c, w):
    v = load(A, st, c.args[0])
    return [(st, A.conc(st, A.discr(v, A.pointee(c.atys[0]))))]


@hook('core::intrinsics::size_of', 'core::intrinsics::size_of_val', 'core::mem::size_of_val')
def intr_size_of(A, st, c, w):
    t = A.prog.types[c.cal['args'][0]]
    if t.get('size') is not None:
        return [(st, I(t['size']))]
    return [(st, ('t', 'size_of', t['s']))]


@hook('core::mem::size_of')
def mem_size_of(A, st, c, w):
    return intr_size_of(A, st, c, w)


@hook('core::mem::align_of', 'core::intrinsics::min_align_of', 'core::intrinsics::align_of')
def mem_align_of(A, st, c, w):
    t = A.prog.types[c.cal['args'][0]]
    if t.get('align') is not None:
        return [(st, I(t['align']))]
    return NotImplemented


@hook('core::intrinsics::ctlz', 'core::intrinsics::ctlz_nonzero')
def intr_ctlz(A, st, c, w):
    from .engine import WIDTH
    v = c.args[0]
    wd = WIDTH[A.prog.types[c.atys[0]]['s']]
    if v[0] == 'i':
        return [(st, I(wd - v[1].bit_length()))]
    lo, hi = bounds(A, st, v)
    if lo is not None and 0 <= lo and lo.bit_length() == hi.bit_length():
        return [(st, I(wd - lo.bit_length()))]
    r = ('t', 'ctlz', I(wd), v)
    A.TY.setdefault(r, c.dty)
    return [(st, r)]


def bounds(A, st, v):
    """the least and the greatest value of a number on this path"""
    r = A.vrange(st, v)
    return (r[0][0], r[-1][1]) if r and r[0][0] is not None and r[-1][1] is not None else (None, None)


def cttz(zero):
    def h(A, st, c, w):
        from .engine import WIDTH
        v = A.conc(st, c.args[0])
        if v == I(0) and zero:
            return [(st, I(WIDTH[A.prog.types[c.atys[0]]['s']]))]
        if v[0] != 'i' or v[1] <= 0:
            return NotImplemented
        return [(st, I((v[1] & -v[1]).bit_length() - 1))]
    return h


HOOKS['core::intrinsics::cttz'] = cttz(True)
HOOKS['core::intrinsics::cttz_nonzero'] = cttz(False)


@hook('core::intrinsics::ctpop')
def ctpop(A, st, c, w):
    v = A.conc(st, c.args[0])
    if v[0] == 'i' and v[1] >= 0:
        return [(st, I(bin(v[1] & (1 << 128) - 1).count('1')))]
    lo, hi = bounds(A, st, v)
    if lo is not None and 0 < lo and lo.bit_length() == hi.bit_length() and lo & lo - 1:
        r = ('t', 'ctpop', v)
        A.TY.setdefault(r, c.dty)
        st.facts[r] = ((2, 64),)
        return [(st, r)]
    return NotImplemented


@hook('core::intrinsics::saturating_sub')
def intr_satsub(A, st, c, w):
    a, b = c.args
    ty = A.prog.types[c.atys[0]]
    if ty['k'] != 'uint':
        return NotImplemented
    t, f = split(A, st, mk_ge0(lsub(a, b)))
    out = []
    if t:
        out.append((t, lsub(a, b)))
    if f:
        out.append((f, I(0)))
    return out


@hook('core::intrinsics::wrapping_add', 'core::intrinsics::wrapping_sub', 'core::intrinsics::wrapping_mul')
def intr_wrap(A, st, c, w):
    op = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul'}[c.name]
    return [(st, A.binop(st, op, c.args[0], c.args[1], c.atys[0]))]


@hook('core::cmp::Ord::min', 'core::cmp::min')
def ord_min(A, st, c, w):
    return minmax(A, st, c, True)


@hook('core::cmp::Ord::max', 'core::cmp::max')
def ord_max(A, st, c, w):
    return minmax(A, st, c, False)


def minmax(A, st, c, mn):
    if A.prog.types[c.atys[0]]['k'] not in ('uint', 'int', 'char'):
        return NotImplemented
    a, b = c.args
    t, f = split(A, st, mk_ge0(lsub(b, a)))
    out = []
    if t:
        out.append((t, a if mn else b))
    if f:
        out.append((f, b if mn else a))
    return out


# ------------------------------------------------------------------ vmodels
@hook('crate::vmodels::nondet_usize')
def nd_usize(A, st, c, w):
    return [(st, A.fresh('nd', c.dty))]


@hook('crate::vmodels::nondet_bool')
def nd_bool(A, st, c, w):
    y = A.fresh('ndb', c.dty)
    return [(st, y)]


@hook('crate::vmodels::assume')
def v_assume(A, st, c, w):
    return [(st, UNIT)] if A.assume(st, c.args[0], True) else []


@hook('alloc::vec::from_elem')
def from_elem(A, st, c, w):
    n = A.conc(st, c.args[1])
    if n[0] == 'i' and n[1] <= 4096:
        return [(st, ('arr', (c.args[0],) * n[1]))]
    v = ('t', 'repeat', snap(A, st, c.args[0]), n)
    A.assume(st, mk_eq0(lsub(mk_len(v), n)), True)
    return [(st, v)]


@hook('crate::vmodels::keep_some')
def keep_some(A, st, c, w):
    m = load(A, st, c.args[0])
    if m != MAP0 and not (m[0] == 't' and m[1] == 'msub'):
        store(A, st, c.args[0], ('t', 'msub', m))
    return [(st, UNIT)]


@hook('crate::vmodels::any')
def v_any(A, st, c, w):
    return [(st, A.fresh('any', c.dty))]


@hook('crate::vmodels::str_chars', 'crate::vmodels::str_char', 'crate::vmodels::str_sub')
def v_str(A, st, c, w):
    v = const_str(snap(A, st, loadall(A, st, c.args[0])))
    ix = [A.conc(st, x) for x in c.args[1:]]
    if v is None or any(x[0] != 'i' for x in ix):
        return NotImplemented
    if c.name == 'str_chars':
        return [(st, I(len(v)))]
    if c.name == 'str_char':
        return [(st, I(ord(v[ix[0][1]])))]
    return [(st, ('ref', ('k', ('str', v[ix[0][1]:ix[1][1]])), ()))]
