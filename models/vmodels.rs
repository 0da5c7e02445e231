
// Appended by /verif to the scratch copy of the crate that is analysed (never to
// /repo): contracts of std functions, as Rust bodies the analysis can inline.
#[allow(dead_code, unused, non_snake_case)]
pub mod vmodels {
    use std::cmp::Ordering;
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    pub fn nondet_usize() -> usize { loop {} }
    pub fn nondet_bool() -> bool { loop {} }
    pub fn assume(_b: bool) { }

    pub fn collect_vec<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        for x in it { v.push(x); }
        v
    }
    pub fn collect_btree<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
        let mut m = BTreeMap::new();
        for (k, v) in it { m.insert(k, v); }
        m
    }
    pub fn collect_hash<K: Eq + std::hash::Hash, V, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V> {
        let mut m = HashMap::new();
        for (k, v) in it { m.insert(k, v); }
        m
    }
    pub fn collect_result_vec<T, E, I: IntoIterator<Item = Result<T, E>>>(it: I) -> Result<Vec<T>, E> {
        let mut v = Vec::new();
        for x in it {
            match x { Ok(x) => v.push(x), Err(e) => return Err(e) }
        }
        Ok(v)
    }
    pub fn collect_result_unit<E, I: IntoIterator<Item = Result<(), E>>>(it: I) -> Result<(), E> {
        for x in it {
            match x { Ok(_) => {}, Err(e) => return Err(e) }
        }
        Ok(())
    }
    pub fn collect_option_vec<T, I: IntoIterator<Item = Option<T>>>(it: I) -> Option<Vec<T>> {
        let mut v = Vec::new();
        for x in it {
            match x { Some(x) => v.push(x), None => return None }
        }
        Some(v)
    }
    pub fn collect_string_char<I: IntoIterator<Item = char>>(it: I) -> String {
        let mut v = String::new();
        for x in it { v.push(x); }
        v
    }
    pub fn collect_string_str<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String {
        let mut v = String::new();
        for x in it { v.push_str(x); }
        v
    }
    pub fn collect_string_string<I: IntoIterator<Item = String>>(it: I) -> String {
        let mut v = String::new();
        for x in it { v.push_str(x.as_str()); }
        v
    }
    pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        for x in it { v.push(x); }
    }
    pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
        for x in it { v.push(*x); }
    }
    pub struct VZip<A, B> { a: A, b: B }
    pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
        if n <= v.len() { v.truncate(n); } else { for _ in v.len()..n { v.push(f()); } }
    }
    pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) {
        if n <= v.len() { v.truncate(n); } else { for _ in v.len()..n { v.push(x.clone()); } }
    }
    pub fn partition_vec<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(it: I, mut f: F) -> (Vec<T>, Vec<T>) {
        let mut a = Vec::new();
        let mut b = Vec::new();
        for x in it { if f(&x) { a.push(x); } else { b.push(x); } }
        (a, b)
    }
    pub fn zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> VZip<A, U::IntoIter> { VZip { a, b: b.into_iter() } }
    pub fn zip_next<A: Iterator, B: Iterator>(z: &mut VZip<A, B>) -> Option<(A::Item, B::Item)> {
        match z.a.next() {
            None => None,
            Some(x) => match z.b.next() { None => None, Some(y) => Some((x, y)) },
        }
    }
    pub fn concrete<T: ?Sized>(_x: &T) -> bool { false }
    pub fn binary_search_by<T, F: FnMut(&T) -> Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
        if concrete(s) {
            let mut size = s.len();
            if size == 0 { return Err(0); }
            let mut base = 0usize;
            while size > 1 {
                let half = size / 2;
                let mid = base + half;
                if f(&s[mid]) != Ordering::Greater { base = mid; }
                size -= half;
            }
            return match f(&s[base]) {
                Ordering::Equal => Ok(base),
                Ordering::Less => Err(base + 1),
                Ordering::Greater => Err(base),
            };
        }
        let i = nondet_usize();
        if nondet_bool() {
            assume(i < s.len());
            match f(&s[i]) { Ordering::Equal => Ok(i), _ => { assume(false); Err(0) } }
        } else {
            assume(i <= s.len());
            Err(i)
        }
    }
    pub fn binary_search_by_key<'a, T, B: Ord, F: FnMut(&'a T) -> B>(s: &'a [T], b: &B, mut f: F) -> Result<usize, usize> {
        binary_search_by(s, |k| { let r: &'a T = unsafe { &*(k as *const T) }; f(r).cmp(b) })
    }
    pub fn opaque_sort<T>(_s: &mut [T]) { }
    pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], mut f: F) {
        if !concrete(s) { return opaque_sort(s); }
        let mut i = 1;
        while i < s.len() {
            let mut j = i;
            while j > 0 && f(&s[j - 1], &s[j]) == Ordering::Greater {
                s.swap(j - 1, j);
                j -= 1;
            }
            i += 1;
        }
    }
    pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
        sort_by(s, |a, b| f(a).cmp(&f(b)))
    }
    pub fn sort<T: Ord>(s: &mut [T]) { sort_by(s, |a, b| a.cmp(b)) }
    pub fn slice_cmp<T: Ord>(a: &[T], b: &[T]) -> Ordering {
        let mut i = 0;
        while i < a.len() && i < b.len() {
            match a[i].cmp(&b[i]) { Ordering::Equal => {}, o => return o }
            i += 1;
        }
        a.len().cmp(&b.len())
    }
    pub fn slice_partial_cmp<T: PartialOrd>(a: &[T], b: &[T]) -> Option<Ordering> {
        let mut i = 0;
        while i < a.len() && i < b.len() {
            match a[i].partial_cmp(&b[i]) { Some(Ordering::Equal) => {}, o => return o }
            i += 1;
        }
        a.len().partial_cmp(&b.len())
    }
    pub fn vec_cmp<T: Ord>(a: &Vec<T>, b: &Vec<T>) -> Ordering { slice_cmp(&a[..], &b[..]) }
    pub fn vec_partial_cmp<T: PartialOrd>(a: &Vec<T>, b: &Vec<T>) -> Option<Ordering> { slice_partial_cmp(&a[..], &b[..]) }
    pub fn slice_starts_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
        let mut i = 0;
        while i < b.len() {
            if i >= a.len() || a[i] != b[i] { return false; }
            i += 1;
        }
        true
    }
    pub fn slice_ends_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
        if b.len() > a.len() { return false; }
        let d = a.len() - b.len();
        let mut i = 0;
        while i < b.len() {
            if a[d + i] != b[i] { return false; }
            i += 1;
        }
        true
    }
    pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
        for y in s { if *y == *x { return true; } }
        false
    }
    pub fn keep_some<K, V>(_m: &mut BTreeMap<K, V>) { }
    pub fn btree_retain<K: Ord, V, F: FnMut(&K, &mut V) -> bool>(m: &mut BTreeMap<K, V>, mut f: F) {
        // one arbitrary entry stands for all of them
        let k: K = any();
        let mut v: V = any();
        if f(&k, &mut v) { keep_some(m) } else { m.clear() }
    }
    pub fn any<T>() -> T { loop {} }
    pub fn str_chars(_s: &str) -> usize { loop {} }
    pub fn str_char(_s: &str, _i: usize) -> char { loop {} }
    pub fn str_sub(s: &str, _i: usize, _j: usize) -> &str { s }
    pub fn str_trim_matches<'a, F: FnMut(char) -> bool>(s: &'a str, mut f: F) -> &'a str {
        let (mut a, mut b) = (0, str_chars(s));
        while a < b && f(str_char(s, a)) { a += 1; }
        while b > a && f(str_char(s, b - 1)) { b -= 1; }
        str_sub(s, a, b)
    }
    pub fn str_trim_start_matches<'a, F: FnMut(char) -> bool>(s: &'a str, mut f: F) -> &'a str {
        let (mut a, b) = (0, str_chars(s));
        while a < b && f(str_char(s, a)) { a += 1; }
        str_sub(s, a, b)
    }
    pub fn str_trim_end_matches<'a, F: FnMut(char) -> bool>(s: &'a str, mut f: F) -> &'a str {
        let mut b = str_chars(s);
        while b > 0 && f(str_char(s, b - 1)) { b -= 1; }
        str_sub(s, 0, b)
    }
}
