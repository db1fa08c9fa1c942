//! Reference semantics of the std combinators the analysed code uses, as plain loops over indices.
//! Compiled by the same extractor; the analysis inlines these bodies instead of the std ones.
//! `prim::*` are the primitives the value-graph interpreter knows.
#![allow(unused, dead_code)]
#![crate_type = "lib"]
use std::ops::{Add, AddAssign, ControlFlow, Div, Mul, Neg, Sub};

pub mod prim {
    pub fn len<T: ?Sized>(_c: &T) -> usize { loop {} }
    pub fn at<'a, T: ?Sized, E>(_c: &'a T, _i: usize) -> &'a mut E { loop {} }
    pub fn set_len<T: ?Sized>(_c: &mut T, _n: usize) { loop {} }
    pub fn sub<'a, T: ?Sized>(_c: &'a T, _lo: usize, _n: usize) -> &'a T { loop {} }
    pub fn read<T>(_c: &T) -> T { loop {} }
    pub fn panic() -> ! { loop {} }
    pub fn opaque<T, U>(_c: T) -> U { loop {} }
    pub fn cast<T, U>(_c: T) -> U { loop {} }
    pub fn new_vec<T>() -> Vec<T> { loop {} }
    pub fn min<T>(_a: T, _b: T) -> T { loop {} }
    pub fn max<T>(_a: T, _b: T) -> T { loop {} }
    pub fn lt<T>(_a: &T, _b: &T) -> bool { loop {} }
    pub fn eq<T: ?Sized, U: ?Sized>(_a: &T, _b: &U) -> bool { loop {} }
    pub fn sqrt<T>(_a: T) -> T { loop {} }
    pub fn f(_name: &str) {}
}

// ---------- ranges ----------
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeInclusive<T> { pub start: T, pub end: T, pub exhausted: bool }
pub struct RangeFrom<T> { pub start: T }
pub trait Num: Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + PartialOrd {}
pub trait One { const ONE: Self; }

pub fn range_next<T: Copy + PartialOrd + Add<u8, Output = T>>(r: &mut Range<T>) -> Option<T> {
    if r.start < r.end { let v = r.start; r.start = v + 1u8; Some(v) } else { None }
}
pub fn range_next_back<T: Copy + PartialOrd + Sub<u8, Output = T>>(r: &mut Range<T>) -> Option<T> {
    if r.start < r.end { let v = r.end - 1u8; r.end = v; Some(v) } else { None }
}
pub fn range_len<T: Copy + Sub<Output = T>>(r: &Range<T>) -> T { r.end - r.start }
pub fn range_contains<T: Copy + PartialOrd>(r: &Range<T>, x: &T) -> bool { *x >= r.start && *x < r.end }
pub fn range_is_empty<T: Copy + PartialOrd>(r: &Range<T>) -> bool { !(r.start < r.end) }
pub fn rangeincl_contains<T: Copy + PartialOrd>(r: &RangeInclusive<T>, x: &T) -> bool { *x >= r.start && *x <= r.end }
// an inclusive range is modelled as the half-open one; the end + 1 is not observable
pub fn rangeincl_new<T: Copy + Add<u8, Output = T>>(a: T, b: T) -> RangeInclusive<T> { RangeInclusive { start: a, end: b, exhausted: false } }
pub fn rangeincl_next<T: Copy + PartialOrd + Add<u8, Output = T>>(r: &mut RangeInclusive<T>) -> Option<T> {
    if r.start <= r.end { let v = r.start; r.start = v + 1u8; Some(v) } else { None }
}
pub fn rangeincl_next_back<T: Copy + PartialOrd + Sub<u8, Output = T>>(r: &mut RangeInclusive<T>) -> Option<T> {
    if r.start <= r.end { let v = r.end; r.end = v - 1u8; Some(v) } else { None }
}
pub fn rangefrom_next<T: Copy + Add<u8, Output = T>>(r: &mut RangeFrom<T>) -> Option<T> {
    let v = r.start; r.start = v + 1u8; Some(v)
}

// ---------- slice iterators ----------
pub struct SIter<'a, T: ?Sized> { pub s: &'a T, pub pos: usize, pub end: usize }
pub fn slice_iter<T: ?Sized>(s: &T) -> SIter<'_, T> { let n = prim::len(s); SIter { s, pos: 0, end: n } }
pub fn siter_next<'a, T: ?Sized, E>(it: &mut SIter<'a, T>) -> Option<&'a mut E> {
    if it.pos < it.end { let p = it.pos; it.pos = p + 1; Some(prim::at(it.s, p)) } else { None }
}
pub fn siter_next_back<'a, T: ?Sized, E>(it: &mut SIter<'a, T>) -> Option<&'a mut E> {
    if it.pos < it.end { let p = it.end - 1; it.end = p; Some(prim::at(it.s, p)) } else { None }
}
pub fn siter_len<T: ?Sized>(it: &SIter<'_, T>) -> usize { it.end - it.pos }
pub fn siter_skip<T: ?Sized>(it: SIter<'_, T>, n: usize) -> SIter<'_, T> { SIter { s: it.s, pos: it.pos + n, end: it.end } }
pub fn siter_as_slice<'a, T: ?Sized>(it: &SIter<'a, T>) -> &'a T { prim::sub(it.s, it.pos, it.end - it.pos) }
pub fn siter_clone<'a, T: ?Sized>(it: &SIter<'a, T>) -> SIter<'a, T> { SIter { s: it.s, pos: it.pos, end: it.end } }
// owned
pub struct VIter<V> { pub v: V, pub pos: usize, pub end: usize }
pub fn vec_into_iter<V>(v: V) -> VIter<V> { let n = prim::len(&v); VIter { v, pos: 0, end: n } }
pub fn viter_next<V, E>(it: &mut VIter<V>) -> Option<E> {
    if it.pos < it.end { let p = it.pos; it.pos = p + 1; Some(prim::read(prim::at(&it.v, p))) } else { None }
}
pub fn viter_next_back<V, E>(it: &mut VIter<V>) -> Option<E> {
    if it.pos < it.end { let p = it.end - 1; it.end = p; Some(prim::read(prim::at(&it.v, p))) } else { None }
}
pub fn viter_len<V>(it: &VIter<V>) -> usize { it.end - it.pos }
// chunks of k, from the front
pub struct Chunks<'a, T: ?Sized> { pub s: &'a T, pub pos: usize, pub end: usize, pub k: usize }
pub fn chunks_exact<T: ?Sized>(s: &T, k: usize) -> Chunks<'_, T> { let n = prim::len(s); Chunks { s, pos: 0, end: n, k } }
pub fn chunks_exact_next<'a, T: ?Sized>(it: &mut Chunks<'a, T>) -> Option<&'a T> {
    if it.pos + it.k <= it.end { let p = it.pos; it.pos = p + it.k; Some(prim::sub(it.s, p, it.k)) } else { None }
}
pub fn chunks_exact_remainder<'a, T: ?Sized>(it: &Chunks<'a, T>) -> &'a T {
    let n = prim::len(it.s); prim::sub(it.s, n - n % it.k, n % it.k)
}
pub fn windows_next<'a, T: ?Sized>(it: &mut Chunks<'a, T>) -> Option<&'a T> {
    if it.pos + it.k <= it.end { let p = it.pos; it.pos = p + 1; Some(prim::sub(it.s, p, it.k)) } else { None }
}
pub fn chunks_next<'a, T: ?Sized>(it: &mut Chunks<'a, T>) -> Option<&'a T> {
    if it.pos < it.end { let p = it.pos; let n = prim::min(it.k, it.end - p); it.pos = p + it.k; Some(prim::sub(it.s, p, n)) } else { None }
}
pub fn slice_first<'a, T: ?Sized, E>(s: &'a T) -> Option<&'a mut E> { if prim::len(s) > 0 { Some(prim::at(s, 0)) } else { None } }
pub fn slice_last<'a, T: ?Sized, E>(s: &'a T) -> Option<&'a mut E> {
    let n = prim::len(s); if n > 0 { Some(prim::at(s, n - 1)) } else { None }
}
pub fn slice_get<'a, T: ?Sized, E>(s: &'a T, i: usize) -> Option<&'a mut E> { if i < prim::len(s) { Some(prim::at(s, i)) } else { None } }
pub fn slice_is_empty<T: ?Sized>(s: &T) -> bool { prim::len(s) == 0 }
pub fn slice_swap<T: ?Sized>(s: &mut T, i: usize, j: usize) {
    let a: &mut u32 = prim::at(s, i); let b: &mut u32 = prim::at(s, j);
    let x = prim::read(a); let y = prim::read(b); *a = y; *b = x;
}
pub fn slice_contains<T: ?Sized>(s: &T, x: &u32) -> bool {
    let n = prim::len(s); let mut i = 0;
    while i < n { let e: &mut u32 = prim::at(s, i); if prim::eq(e, x) { return true; } i += 1; }
    false
}
pub fn slice_split_at<'a, T: ?Sized>(s: &'a T, m: usize) -> (&'a T, &'a T) { let n = prim::len(s); (prim::sub(s, 0, m), prim::sub(s, m, n - m)) }

// ---------- Vec ----------
pub fn vec_push<V, E>(v: &mut V, x: E) { let n = prim::len(v); prim::set_len(v, n + 1); *prim::at(v, n) = x; }
pub fn vec_pop<V, E>(v: &mut V) -> Option<E> {
    let n = prim::len(v);
    if n == 0 { None } else { let r: &mut E = prim::at(v, n - 1); let x = prim::read(r); prim::set_len(v, n - 1); Some(x) }
}
pub fn vec_truncate<V>(v: &mut V, n: usize) { if n < prim::len(v) { prim::set_len(v, n); } }
pub fn vec_clear<V>(v: &mut V) { prim::set_len(v, 0); }
pub fn vec_extend<V, E, I: IntoIterator<Item = E>>(v: &mut V, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { let n = prim::len(v); prim::set_len(v, n + 1); *prim::at(v, n) = prim::read(&x); }
}
pub fn vec_extend_from_slice<V, E>(v: &mut V, s: &[E]) {
    let m = prim::len(s); let mut i = 0;
    while i < m { let n = prim::len(v); prim::set_len(v, n + 1); let e: &mut E = prim::at(s, i); *prim::at(v, n) = prim::read(e); i += 1; }
}
pub fn vec_resize<V, E>(v: &mut V, m: usize, x: E) {
    let mut n = prim::len(v);
    if m <= n { prim::set_len(v, m); return; }
    while n < m { *prim::at(v, n) = prim::read(&x); n += 1; }
    prim::set_len(v, m);
}
pub fn vec_swap_remove<V, E>(v: &mut V, i: usize) -> E {
    let n = prim::len(v);
    let a: &mut E = prim::at(v, i); let x = prim::read(a);
    let b: &mut E = prim::at(v, n - 1); *a = prim::read(b);
    prim::set_len(v, n - 1);
    x
}
pub fn vec_remove<V, E>(v: &mut V, i: usize) -> E {
    let n = prim::len(v);
    let a: &mut E = prim::at(v, i); let x = prim::read(a);
    let mut j = i;
    while j + 1 < n { let a: &mut E = prim::at(v, j); let b: &mut E = prim::at(v, j + 1); *a = prim::read(b); j += 1; }
    prim::set_len(v, n - 1);
    x
}
pub fn vec_insert<V, E>(v: &mut V, i: usize, x: E) {
    let n = prim::len(v);
    prim::set_len(v, n + 1);
    let mut j = n;
    while j > i { let a: &mut E = prim::at(v, j); let b: &mut E = prim::at(v, j - 1); *a = prim::read(b); j -= 1; }
    *prim::at(v, i) = x;
}

// ---------- adapters ----------
pub struct Enumerate<I> { pub iter: I, pub count: usize }
pub fn enumerate<I: Iterator>(iter: I) -> Enumerate<I> { Enumerate { iter, count: 0 } }
pub fn enumerate_next<I: Iterator>(it: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match it.iter.next() { Some(x) => { let c = it.count; it.count = c + 1; Some((c, x)) } None => None }
}
pub fn enumerate_next_back<I: ExactSizeIterator + DoubleEndedIterator>(it: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match it.iter.next_back() { Some(x) => { let n = it.iter.len(); Some((it.count + n, x)) } None => None }
}
pub fn enumerate_len<I: ExactSizeIterator>(it: &Enumerate<I>) -> usize { it.iter.len() }
pub struct Rev<I> { pub iter: I }
pub fn rev<I: Iterator>(iter: I) -> Rev<I> { Rev { iter } }
pub fn rev_next<I: DoubleEndedIterator>(it: &mut Rev<I>) -> Option<I::Item> { it.iter.next_back() }
pub fn rev_next_back<I: DoubleEndedIterator>(it: &mut Rev<I>) -> Option<I::Item> { it.iter.next() }
pub fn rev_len<I: ExactSizeIterator>(it: &Rev<I>) -> usize { it.iter.len() }
pub struct Map<I, F> { pub iter: I, pub f: F }
pub fn map<I: Iterator, B, F: FnMut(I::Item) -> B>(iter: I, f: F) -> Map<I, F> { Map { iter, f } }
pub fn map_next<I: Iterator, F: FnMut(I::Item) -> B, B>(it: &mut Map<I, F>) -> Option<B> {
    match it.iter.next() { Some(x) => Some((it.f)(x)), None => None }
}
pub fn map_next_back<I: DoubleEndedIterator, F: FnMut(I::Item) -> B, B>(it: &mut Map<I, F>) -> Option<B> {
    match it.iter.next_back() { Some(x) => Some((it.f)(x)), None => None }
}
pub fn map_len<I: ExactSizeIterator, F>(it: &Map<I, F>) -> usize { it.iter.len() }
pub struct Filter<I, P> { pub iter: I, pub predicate: P }
pub fn filter<I: Iterator, P: FnMut(&I::Item) -> bool>(iter: I, predicate: P) -> Filter<I, P> { Filter { iter, predicate } }
pub fn filter_next<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut Filter<I, P>) -> Option<I::Item> {
    loop { match it.iter.next() { Some(x) => if (it.predicate)(&x) { return Some(x); }, None => return None } }
}
pub fn filter_next_back<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut Filter<I, P>) -> Option<I::Item> {
    loop { match it.iter.next_back() { Some(x) => if (it.predicate)(&x) { return Some(x); }, None => return None } }
}
pub struct FilterMap<I, F> { pub iter: I, pub f: F }
pub fn filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(iter: I, f: F) -> FilterMap<I, F> { FilterMap { iter, f } }
pub fn filter_map_next<I: Iterator, F: FnMut(I::Item) -> Option<B>, B>(it: &mut FilterMap<I, F>) -> Option<B> {
    loop { match it.iter.next() { Some(x) => match (it.f)(x) { Some(y) => return Some(y), None => {} }, None => return None } }
}
pub struct Zip<A, B> { pub a: A, pub b: B }
pub fn zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> Zip<A, U::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn zip_next<A: Iterator, B: Iterator>(it: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
    match it.a.next() { Some(x) => match it.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
}
pub struct Chain<A, B> { pub a: A, pub b: B, pub first: bool }
pub fn chain<A: Iterator, U: IntoIterator>(a: A, b: U) -> Chain<A, U::IntoIter> { Chain { a, b: b.into_iter(), first: true } }
pub fn chain_next<A: Iterator, B: Iterator<Item = A::Item>>(it: &mut Chain<A, B>) -> Option<A::Item> {
    if it.first { match it.a.next() { Some(x) => return Some(x), None => { it.first = false; } } }
    it.b.next()
}
pub struct Skip<I> { pub iter: I, pub n: usize }
pub fn skip<I: Iterator>(iter: I, n: usize) -> Skip<I> { Skip { iter, n } }
pub fn skip_next<I: Iterator>(it: &mut Skip<I>) -> Option<I::Item> {
    while it.n > 0 { it.n -= 1; match it.iter.next() { Some(_) => {} None => return None } }
    it.iter.next()
}
pub fn range_skip<T: Copy + Add<usize, Output = T>>(it: Range<T>, n: usize) -> Range<T> { Range { start: it.start + n, end: it.end } }
pub struct StepBy<I> { pub iter: I, pub step: usize, pub first: bool }
pub fn step_by<I: Iterator>(iter: I, n: usize) -> StepBy<I> { StepBy { iter, step: n, first: true } }
pub struct StepRange<T> { pub start: T, pub end: T, pub step: usize }
pub fn range_step_by<T>(r: Range<T>, step: usize) -> StepRange<T> { StepRange { start: r.start, end: r.end, step } }
pub fn steprange_next<T: Copy + PartialOrd + Add<usize, Output = T>>(r: &mut StepRange<T>) -> Option<T> {
    if r.start < r.end { let v = r.start; r.start = v + r.step; Some(v) } else { None }
}
pub struct Take<I> { pub iter: I, pub n: usize }
pub fn take<I: Iterator>(iter: I, n: usize) -> Take<I> { Take { iter, n } }
pub fn take_next<I: Iterator>(it: &mut Take<I>) -> Option<I::Item> {
    if it.n > 0 { it.n = it.n - 1; it.iter.next() } else { None }
}
pub fn siter_take<T: ?Sized>(it: SIter<'_, T>, n: usize) -> SIter<'_, T> { SIter { s: it.s, pos: it.pos, end: prim::min(it.pos + n, it.end) } }
pub struct TakeWhile<I, P> { pub iter: I, pub predicate: P, pub done: bool }
pub fn take_while<I: Iterator, P: FnMut(&I::Item) -> bool>(iter: I, predicate: P) -> TakeWhile<I, P> { TakeWhile { iter, predicate, done: false } }
pub fn take_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut TakeWhile<I, P>) -> Option<I::Item> {
    if it.done { return None; }
    match it.iter.next() { Some(x) => if (it.predicate)(&x) { Some(x) } else { it.done = true; None }, None => None }
}
pub struct SkipWhile<I, P> { pub iter: I, pub predicate: P, pub started: bool }
pub fn skip_while<I: Iterator, P: FnMut(&I::Item) -> bool>(iter: I, predicate: P) -> SkipWhile<I, P> { SkipWhile { iter, predicate, started: false } }
pub fn skip_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut SkipWhile<I, P>) -> Option<I::Item> {
    loop {
        match it.iter.next() {
            Some(x) => { if it.started { return Some(x); } if !(it.predicate)(&x) { it.started = true; return Some(x); } }
            None => return None,
        }
    }
}
pub struct Copied<I> { pub iter: I }
pub fn copied<I>(iter: I) -> Copied<I> { Copied { iter } }
pub fn copied_next<'a, I: Iterator<Item = &'a E>, E: 'a>(it: &mut Copied<I>) -> Option<E> {
    match it.iter.next() { Some(x) => Some(prim::read(x)), None => None }
}
pub fn copied_next_back<'a, I: DoubleEndedIterator<Item = &'a E>, E: 'a>(it: &mut Copied<I>) -> Option<E> {
    match it.iter.next_back() { Some(x) => Some(prim::read(x)), None => None }
}
pub fn copied_len<I: ExactSizeIterator>(it: &Copied<I>) -> usize { it.iter.len() }
pub struct FlatMap<I, U, F> { pub iter: I, pub cur: Option<U>, pub f: F }
pub fn flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(iter: I, f: F) -> FlatMap<I, U::IntoIter, F> { FlatMap { iter, cur: None, f } }
pub fn flat_map_next<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: &mut FlatMap<I, U::IntoIter, F>) -> Option<U::Item> {
    loop {
        match &mut it.cur { Some(c) => match c.next() { Some(x) => return Some(x), None => {} }, None => {} }
        match it.iter.next() { Some(x) => it.cur = Some((it.f)(x).into_iter()), None => return None }
    }
}
pub struct Once<T> { pub v: Option<T> }
pub fn once<T>(x: T) -> Once<T> { Once { v: Some(x) } }
pub fn once_next<T>(it: &mut Once<T>) -> Option<T> { let r = prim::read(&it.v); it.v = None; r }
pub fn option_into_iter<T>(x: Option<T>) -> Once<T> { Once { v: x } }
pub struct Repeat<T> { pub v: T }
pub fn repeat<T>(v: T) -> Repeat<T> { Repeat { v } }
pub fn repeat_next<T>(it: &mut Repeat<T>) -> Option<T> { Some(prim::read(&it.v)) }
pub struct RepeatN<T> { pub v: T, pub pos: usize, pub end: usize }
pub fn repeat_n<T>(v: T, n: usize) -> RepeatN<T> { RepeatN { v, pos: 0, end: n } }
pub fn repeatn_next<T>(it: &mut RepeatN<T>) -> Option<T> { if it.pos < it.end { it.pos += 1; Some(prim::read(&it.v)) } else { None } }
pub struct Successors<T, F> { pub next: Option<T>, pub succ: F }
pub fn successors<T, F: FnMut(&T) -> Option<T>>(first: Option<T>, succ: F) -> Successors<T, F> { Successors { next: first, succ } }
pub fn successors_next<T, F: FnMut(&T) -> Option<T>>(it: &mut Successors<T, F>) -> Option<T> {
    let cur = prim::read(&it.next);
    match cur { Some(x) => { it.next = (it.succ)(&x); Some(x) } None => None }
}
pub struct FromFn<F> { pub f: F }
pub fn from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
pub fn from_fn_next<T, F: FnMut() -> Option<T>>(it: &mut FromFn<F>) -> Option<T> { (it.f)() }
pub struct Peekable<I: Iterator> { pub iter: I, pub peeked: Option<Option<I::Item>> }
pub struct Cycle<I> { pub iter: I, pub orig: I }

// ---------- consumers ----------
pub fn identity<T>(x: T) -> T { x }
pub fn ignore<T>(_: T) {}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x) } }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x) } acc
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } } None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { match f(x) { Some(y) => return Some(y), None => {} } } None
}
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0; while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; } None
}
pub fn count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut r = None; while let Some(x) = it.next() { r = Some(x); } r }
pub fn nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 { match it.next() { Some(_) => {} None => return None } n -= 1; } it.next()
}
pub fn siter_nth<'a, T: ?Sized, E>(it: &mut SIter<'a, T>, n: usize) -> Option<&'a mut E> {
    let p = it.pos + n; it.pos = p + 1; if p < it.end { Some(prim::at(it.s, p)) } else { None }
}
pub fn sum<I: Iterator<Item = S>, S: Add<Output = S> + Default>(mut it: I) -> S {
    let mut acc: S = prim::opaque(0u8); while let Some(x) = it.next() { acc = acc + x; } acc
}
pub fn max<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r: I::Item = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { r = prim::max(r, x); } Some(r)
}
pub fn min<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r: I::Item = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { r = prim::min(r, x); } Some(r)
}
pub fn max_by_key<I: Iterator, B, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r: I::Item = match it.next() { Some(x) => x, None => return None };
    let mut k = f(&r);
    while let Some(x) = it.next() { let j = f(&x); if !prim::lt(&j, &k) { r = x; k = j; } } Some(r)
}
pub fn min_by_key<I: Iterator, B, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r: I::Item = match it.next() { Some(x) => x, None => return None };
    let mut k = f(&r);
    while let Some(x) = it.next() { let j = f(&x); if prim::lt(&j, &k) { r = x; k = j; } } Some(r)
}
pub fn collect_vec<I: Iterator, V>(mut it: I) -> V {
    let mut v: V = prim::cast(prim::new_vec::<u8>());
    while let Some(x) = it.next() { let n = prim::len(&v); prim::set_len(&mut v, n + 1); *prim::at(&v, n) = prim::read(&x); }
    v
}
pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { match f(x) { Ok(()) => {} Err(e) => return Err(e) } } Ok(())
}
pub fn try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Ok(v) => acc = v, Err(e) => return Err(e) } } Ok(acc)
}
pub fn collect_result_vec<I: Iterator<Item = Result<T, E>>, T, E, V>(mut it: I) -> Result<V, E> {
    let mut v: V = prim::cast(prim::new_vec::<u8>());
    while let Some(x) = it.next() {
        match x { Ok(y) => { let n = prim::len(&v); prim::set_len(&mut v, n + 1); *prim::at(&v, n) = prim::read(&y); } Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn collect_option_vec<I: Iterator<Item = Option<T>>, T, V>(mut it: I) -> Option<V> {
    let mut v: V = prim::cast(prim::new_vec::<u8>());
    while let Some(x) = it.next() {
        match x { Some(y) => { let n = prim::len(&v); prim::set_len(&mut v, n + 1); *prim::at(&v, n) = prim::read(&y); } None => return None }
    }
    Some(v)
}

// ---------- Option / Result / bool ----------
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn opt_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn opt_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim::panic() } }
pub fn opt_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => prim::panic() } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_copied<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(prim::read(x)), None => None } }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { let r = prim::read(o); *o = None; r }
pub fn opt_replace<T>(o: &mut Option<T>, x: T) -> Option<T> { let r = prim::read(o); *o = Some(x); r }
pub fn opt_filter<T, P: FnOnce(&T) -> bool>(o: Option<T>, p: P) -> Option<T> { match o { Some(x) => if p(&x) { Some(x) } else { None }, None => None } }
pub fn opt_or<T>(o: Option<T>, b: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => b } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn opt_and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> { match o { Some(_) => b, None => None } }
pub fn opt_zip<T, U>(o: Option<T>, b: Option<U>) -> Option<(T, U)> { match o { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn opt_branch<T>(o: Option<T>) -> ControlFlow<Option<()>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn opt_from_residual<T>(_r: Option<()>) -> Option<T> { None }
pub fn opt_from_output<T>(x: T) -> Option<T> { Some(x) }
pub fn res_branch<T, E>(r: Result<T, E>) -> ControlFlow<Result<(), E>, T> { match r { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn res_from_residual<T, E, F: From<E>>(r: Result<(), E>) -> Result<T, F> { match r { Err(e) => Err(F::from(e)), Ok(_) => loop {} } }
pub fn res_from_output<T, E>(x: T) -> Result<T, E> { Ok(x) }
pub fn res_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn res_map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn res_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn res_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn res_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => prim::panic() } }
pub fn res_expect<T, E>(r: Result<T, E>, _m: &str) -> T { match r { Ok(x) => x, Err(_) => prim::panic() } }
pub fn res_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn res_unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => T::default() } }
pub fn res_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn res_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn res_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn res_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn res_is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(x) => f(x), Err(_) => false } }
pub fn res_as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn res_as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn res_inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> { match r { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn res_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn res_into_iter<T, E>(r: Result<T, E>) -> Once<T> { match r { Ok(x) => Once { v: Some(x) }, Err(_) => Once { v: None } } }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
pub fn mem_replace<T>(d: &mut T, x: T) -> T { let r = prim::read(d); *d = x; r }
pub fn mem_take<T: Default>(d: &mut T) -> T { let r = prim::read(d); *d = T::default(); r }
pub fn mem_swap<T>(a: &mut T, b: &mut T) { let x = prim::read(a); let y = prim::read(b); *a = y; *b = x; }
pub fn clamp<T: PartialOrd>(x: T, lo: T, hi: T) -> T { prim::min(prim::max(x, lo), hi) }

// ---------- glam-like vectors ----------
pub struct V2<T> { pub x: T, pub y: T }
pub struct V3<T> { pub x: T, pub y: T, pub z: T }
pub fn v2<T>(x: T, y: T) -> V2<T> { V2 { x, y } }
pub fn v3<T>(x: T, y: T, z: T) -> V3<T> { V3 { x, y, z } }
pub fn v3_splat<T: Copy>(x: T) -> V3<T> { V3 { x, y: x, z: x } }
pub fn v2_splat<T: Copy>(x: T) -> V2<T> { V2 { x, y: x } }
pub fn v3_xz<T: Copy>(a: V3<T>) -> V2<T> { V2 { x: a.x, y: a.z } }
pub fn v3_xy<T: Copy>(a: V3<T>) -> V2<T> { V2 { x: a.x, y: a.y } }
pub fn v3_add<T: Copy + Add<Output = T>>(a: V3<T>, b: V3<T>) -> V3<T> { V3 { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z } }
pub fn v3_sub<T: Copy + Sub<Output = T>>(a: V3<T>, b: V3<T>) -> V3<T> { V3 { x: a.x - b.x, y: a.y - b.y, z: a.z - b.z } }
pub fn v3_mul<T: Copy + Mul<Output = T>>(a: V3<T>, b: V3<T>) -> V3<T> { V3 { x: a.x * b.x, y: a.y * b.y, z: a.z * b.z } }
pub fn v3_div<T: Copy + Div<Output = T>>(a: V3<T>, b: V3<T>) -> V3<T> { V3 { x: a.x / b.x, y: a.y / b.y, z: a.z / b.z } }
pub fn v3_adds<T: Copy + Add<Output = T>>(a: V3<T>, b: T) -> V3<T> { V3 { x: a.x + b, y: a.y + b, z: a.z + b } }
pub fn v3_subs<T: Copy + Sub<Output = T>>(a: V3<T>, b: T) -> V3<T> { V3 { x: a.x - b, y: a.y - b, z: a.z - b } }
pub fn v3_muls<T: Copy + Mul<Output = T>>(a: V3<T>, b: T) -> V3<T> { V3 { x: a.x * b, y: a.y * b, z: a.z * b } }
pub fn v3_divs<T: Copy + Div<Output = T>>(a: V3<T>, b: T) -> V3<T> { V3 { x: a.x / b, y: a.y / b, z: a.z / b } }
pub fn sv3_mul<T: Copy + Mul<Output = T>>(b: T, a: V3<T>) -> V3<T> { V3 { x: b * a.x, y: b * a.y, z: b * a.z } }
pub fn v3_min<T: Copy>(a: V3<T>, b: V3<T>) -> V3<T> { V3 { x: prim::min(a.x, b.x), y: prim::min(a.y, b.y), z: prim::min(a.z, b.z) } }
pub fn v3_max<T: Copy>(a: V3<T>, b: V3<T>) -> V3<T> { V3 { x: prim::max(a.x, b.x), y: prim::max(a.y, b.y), z: prim::max(a.z, b.z) } }
pub fn v3_dot<T: Copy + Mul<Output = T> + Add<Output = T>>(a: V3<T>, b: V3<T>) -> T { a.x * b.x + a.y * b.y + a.z * b.z }
pub fn v3_cross<T: Copy + Mul<Output = T> + Sub<Output = T>>(a: V3<T>, b: V3<T>) -> V3<T> {
    V3 { x: a.y * b.z - b.y * a.z, y: a.z * b.x - b.z * a.x, z: a.x * b.y - b.x * a.y }
}
pub fn v3_length_squared<T: Copy + Mul<Output = T> + Add<Output = T>>(a: V3<T>) -> T { a.x * a.x + a.y * a.y + a.z * a.z }
pub fn v3_neg<T: Copy + Neg<Output = T>>(a: V3<T>) -> V3<T> { V3 { x: -a.x, y: -a.y, z: -a.z } }
pub fn v3_add_assign<T: Copy + Add<Output = T>>(a: &mut V3<T>, b: V3<T>) { a.x = a.x + b.x; a.y = a.y + b.y; a.z = a.z + b.z; }
pub fn v3_sub_assign<T: Copy + Sub<Output = T>>(a: &mut V3<T>, b: V3<T>) { a.x = a.x - b.x; a.y = a.y - b.y; a.z = a.z - b.z; }
pub fn v3_muls_assign<T: Copy + Mul<Output = T>>(a: &mut V3<T>, b: T) { a.x = a.x * b; a.y = a.y * b; a.z = a.z * b; }
pub fn v3_divs_assign<T: Copy + Div<Output = T>>(a: &mut V3<T>, b: T) { a.x = a.x / b; a.y = a.y / b; a.z = a.z / b; }
pub fn v3_distance_squared<T: Copy + Sub<Output = T> + Mul<Output = T> + Add<Output = T>>(a: V3<T>, b: V3<T>) -> T {
    let x = a.x - b.x; let y = a.y - b.y; let z = a.z - b.z; x * x + y * y + z * z
}
pub fn v2_add<T: Copy + Add<Output = T>>(a: V2<T>, b: V2<T>) -> V2<T> { V2 { x: a.x + b.x, y: a.y + b.y } }
pub fn v2_sub<T: Copy + Sub<Output = T>>(a: V2<T>, b: V2<T>) -> V2<T> { V2 { x: a.x - b.x, y: a.y - b.y } }
pub fn v2_mul<T: Copy + Mul<Output = T>>(a: V2<T>, b: V2<T>) -> V2<T> { V2 { x: a.x * b.x, y: a.y * b.y } }
pub fn v2_muls<T: Copy + Mul<Output = T>>(a: V2<T>, b: T) -> V2<T> { V2 { x: a.x * b, y: a.y * b } }
pub fn v2_divs<T: Copy + Div<Output = T>>(a: V2<T>, b: T) -> V2<T> { V2 { x: a.x / b, y: a.y / b } }
pub fn sv2_mul<T: Copy + Mul<Output = T>>(b: T, a: V2<T>) -> V2<T> { V2 { x: b * a.x, y: b * a.y } }
pub fn v2_dot<T: Copy + Mul<Output = T> + Add<Output = T>>(a: V2<T>, b: V2<T>) -> T { a.x * b.x + a.y * b.y }
pub fn v2_length_squared<T: Copy + Mul<Output = T> + Add<Output = T>>(a: V2<T>) -> T { a.x * a.x + a.y * a.y }
pub fn v2_length<T: Copy + Mul<Output = T> + Add<Output = T>>(a: V2<T>) -> T { prim::sqrt(a.x * a.x + a.y * a.y) }
pub fn v2_distance_squared<T: Copy + Sub<Output = T> + Mul<Output = T> + Add<Output = T>>(a: V2<T>, b: V2<T>) -> T {
    let x = a.x - b.x; let y = a.y - b.y; x * x + y * y
}
pub fn v2_distance<T: Copy + Sub<Output = T> + Mul<Output = T> + Add<Output = T>>(a: V2<T>, b: V2<T>) -> T {
    let x = a.x - b.x; let y = a.y - b.y; prim::sqrt(x * x + y * y)
}
pub fn v2_min<T: Copy>(a: V2<T>, b: V2<T>) -> V2<T> { V2 { x: prim::min(a.x, b.x), y: prim::min(a.y, b.y) } }
pub fn v2_max<T: Copy>(a: V2<T>, b: V2<T>) -> V2<T> { V2 { x: prim::max(a.x, b.x), y: prim::max(a.y, b.y) } }
pub fn v3_cast<T, U>(a: V3<T>) -> V3<U> { V3 { x: prim::cast(a.x), y: prim::cast(a.y), z: prim::cast(a.z) } }
pub fn v2_cast<T, U>(a: V2<T>) -> V2<U> { V2 { x: prim::cast(a.x), y: prim::cast(a.y) } }
pub fn v3_le<T: Copy + PartialOrd>(a: V3<T>, b: V3<T>) -> V3<bool> { V3 { x: a.x <= b.x, y: a.y <= b.y, z: a.z <= b.z } }
pub fn v3_ge<T: Copy + PartialOrd>(a: V3<T>, b: V3<T>) -> V3<bool> { V3 { x: a.x >= b.x, y: a.y >= b.y, z: a.z >= b.z } }
pub fn v3_all(a: V3<bool>) -> bool { a.x && a.y && a.z }

// ---------- arrays ----------
pub fn array2_map<T: Copy, U, F: FnMut(T) -> U>(a: [T; 2], mut f: F) -> [U; 2] { let x = f(a[0]); let y = f(a[1]); [x, y] }
pub fn array3_map<T: Copy, U, F: FnMut(T) -> U>(a: [T; 3], mut f: F) -> [U; 3] { let x = f(a[0]); let y = f(a[1]); let z = f(a[2]); [x, y, z] }
pub fn array4_map<T: Copy, U, F: FnMut(T) -> U>(a: [T; 4], mut f: F) -> [U; 4] { let x = f(a[0]); let y = f(a[1]); let z = f(a[2]); let w = f(a[3]); [x, y, z, w] }
pub fn array2_from_fn<U, F: FnMut(usize) -> U>(mut f: F) -> [U; 2] { let x = f(0); let y = f(1); [x, y] }
pub fn array3_from_fn<U, F: FnMut(usize) -> U>(mut f: F) -> [U; 3] { let x = f(0); let y = f(1); let z = f(2); [x, y, z] }
pub fn array4_from_fn<U, F: FnMut(usize) -> U>(mut f: F) -> [U; 4] { let x = f(0); let y = f(1); let z = f(2); let w = f(3); [x, y, z, w] }
