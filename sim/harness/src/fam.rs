//! Uniform view of the four builds of the library under test.
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// ==, !=, cmp (where total), partial_cmp, [<, <=, >, >=]
pub type Cmp = (bool, bool, Option<Ordering>, Option<Ordering>, [bool; 4]);
pub fn cmps<X: PartialOrd + ?Sized>(a: &X, b: &X, cmp: Option<Ordering>) -> Cmp { (a == b, a != b, cmp, a.partial_cmp(b), [a < b, a <= b, a > b, a >= b]) }
/// does the way of consuming go backwards?
pub fn backwards(how: u32) -> bool { matches!(how % 17, 1 | 3 | 5 | 9 | 11 | 13) }
/// A writer that runs full or refuses one write; `how`: 0 takes what still fits, 1 refuses what does not fit
/// entirely (something shorter may still fit later), 2 refuses one write only.
pub struct Paper { pub text: String, pub left: usize, pub full: bool, how: usize }
impl std::fmt::Write for Paper {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let old = simrt::arena::lib_off();
        let n = match self.how { 0 => s.len().min(self.left), 1 => if s.len() > self.left { 0 } else { s.len() }, _ => if self.left == 0 { 0 } else { s.len() } };
        self.text.push_str(&String::from_utf8_lossy(&s.as_bytes()[..n]));
        match self.how { 2 => self.left = self.left.wrapping_sub(1), _ => self.left -= n }
        simrt::arena::lib_restore(old);
        if n < s.len() { self.full = true; return Err(std::fmt::Error); }
        Ok(())
    }
}
/// Returns what was written, whether formatting reported success, and whether the writer refused anything.
pub fn show(x: &dyn Debug, alt: bool, room: usize) -> (String, bool, bool) {
    use std::fmt::Write;
    let old = simrt::arena::lib_off();
    let mut p = if room == usize::MAX { Paper { text: String::new(), left: room, full: false, how: 0 } } else { Paper { text: String::new(), left: room / 3, full: false, how: room % 3 } };
    simrt::arena::lib_restore(old);
    let ok = if alt { write!(p, "{x:#?}") } else { write!(p, "{x:?}") }.is_ok();
    (p.text, ok, p.full)
}
macro_rules! each { ($it:expr, $how:expr, $f:expr) => { match $how % 17 {
    0 => $it.for_each(|x| $f(x)),
    1 => $it.rev().for_each(|x| $f(x)),
    2 => for x in $it { $f(x) },
    3 => for x in $it.rev() { $f(x) },
    4 => $it.fold((), |_, x| $f(x)),
    5 => { let _ = $it.rev().try_for_each(|x| { $f(x); Some(()) }); }
    6 => $it.collect::<Vec<_>>().into_iter().for_each(|x| $f(x)),
    7 => { let mut it = $it; loop { let mut n = 0; for x in it.by_ref().take(2) { n += 1; $f(x) } if n == 0 { break; } } }
    8 => { let mut it = $it.peekable(); let _ = it.peek(); it.for_each(|x| $f(x)) }
    9 => $it.rfold((), |_, x| $f(x)),
    10 => { let mut it = $it; while it.try_fold(0, |n, x| { $f(x); if n == 1 { Err(()) } else { Ok(n + 1) } }).is_err() {} }
    11 => { let mut it = $it; while it.try_rfold(0, |n, x| { $f(x); if n == 1 { Err(()) } else { Ok(n + 1) } }).is_err() {} }
    12 => { let mut it = $it; while it.any(|x| { $f(x); true }) {} }
    13 => { let mut it = $it; while let Some(x) = it.rfind(|_| true) { $f(x) } }
    14 => { let mut it = $it; while let Some(x) = it.find(|_| true) { $f(x) } }
    15 => { let mut v = vec![]; v.extend($it); for x in v { $f(x) } }
    _ => $it.step_by(1).for_each(|x| $f(x)),
} } }

pub trait Fam: 'static {
    const ARC: bool;
    type S<T: 'static>: 'static;
    type W<T: 'static>: 'static;
    type M<T: 'static>: 'static;
    type I<T: 'static>: 'static;
    type P<T: 'static>: 'static;
    type Q<T: 'static>: 'static;
    fn s_new<T: 'static>(v: Vec<T>, how: u32) -> Self::S<T>;
    fn s_collect<T: 'static>(it: impl Iterator<Item = T>) -> Self::S<T>;
    fn s_slice<T: 'static>(s: &Self::S<T>, how: u32) -> &[T];
    fn s_clone<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn s_left<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn s_right<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn s_split_left<T: 'static>(s: &mut Self::S<T>) -> Self::S<T>;
    fn s_split_right<T: 'static>(s: &mut Self::S<T>) -> Self::S<T>;
    fn s_parts<T: 'static>(s: Self::S<T>, n: usize) -> Self::P<T>;
    fn s_get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut [T]>;
    fn s_into_mut<T: 'static>(s: Self::S<T>, how: u32) -> Result<Self::M<T>, Self::S<T>>;
    fn s_downgrade<T: 'static>(s: &Self::S<T>) -> Self::W<T>;
    fn w_new<T: 'static>() -> Self::W<T>;
    fn w_upgrade<T: 'static>(w: &Self::W<T>) -> Option<Self::S<T>>;
    fn w_clone<T: 'static>(w: &Self::W<T>) -> Self::W<T>;
    fn m_new<T: 'static>(v: Vec<T>, how: u32) -> Self::M<T>;
    fn m_collect<T: 'static>(it: impl Iterator<Item = T>) -> Self::M<T>;
    fn m_slice<T: 'static>(m: &Self::M<T>, how: u32) -> &[T];
    fn m_slice_mut<T: 'static>(m: &mut Self::M<T>, how: u32) -> &mut [T];
    fn m_split_left<T: 'static>(m: &mut Self::M<T>) -> Self::M<T>;
    fn m_split_right<T: 'static>(m: &mut Self::M<T>) -> Self::M<T>;
    fn m_parts<T: 'static>(m: Self::M<T>, n: usize) -> Self::Q<T>;
    fn m_into_immut<T: 'static>(m: Self::M<T>, how: u32) -> Self::S<T>;
    fn m_clone<T: Clone + 'static>(m: &Self::M<T>) -> Self::M<T>;
    fn m_into_iter<T: 'static>(m: Self::M<T>) -> Self::I<T>;
    fn i_slice<T: 'static>(i: &Self::I<T>) -> &[T];
    fn i_slice_mut<T: 'static>(i: &mut Self::I<T>) -> &mut [T];
    fn i_from<T: 'static>(i: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn i_to<T: 'static>(i: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn i_next<T: 'static>(i: &mut Self::I<T>) -> Option<T>;
    fn i_back<T: 'static>(i: &mut Self::I<T>) -> Option<T>;
    fn i_nth<T: 'static>(i: &mut Self::I<T>, n: usize) -> Option<T>;
    fn i_nth_back<T: 'static>(i: &mut Self::I<T>, n: usize) -> Option<T>;
    fn i_len<T: 'static>(i: &Self::I<T>) -> (usize, (usize, Option<usize>));
    fn i_count<T: 'static>(i: Self::I<T>) -> usize;
    fn i_last<T: 'static>(i: Self::I<T>) -> Option<T>;
    fn p_slice<T: 'static>(p: &Self::P<T>) -> &[T];
    fn p_next<T: 'static>(p: &mut Self::P<T>) -> Option<Self::S<T>>;
    fn p_back<T: 'static>(p: &mut Self::P<T>) -> Option<Self::S<T>>;
    fn p_len<T: 'static>(p: &Self::P<T>) -> (usize, (usize, Option<usize>));
    fn p_count<T: 'static>(p: Self::P<T>) -> usize;
    fn p_last<T: 'static>(p: Self::P<T>) -> Option<Self::S<T>>;
    fn p_clone<T: 'static>(p: &Self::P<T>) -> Self::P<T>;
    fn q_slice<T: 'static>(q: &Self::Q<T>) -> &[T];
    fn q_slice_mut<T: 'static>(q: &mut Self::Q<T>) -> &mut [T];
    fn q_next<T: 'static>(q: &mut Self::Q<T>) -> Option<Self::M<T>>;
    fn q_back<T: 'static>(q: &mut Self::Q<T>) -> Option<Self::M<T>>;
    fn q_len<T: 'static>(q: &Self::Q<T>) -> (usize, (usize, Option<usize>));
    fn q_count<T: 'static>(q: Self::Q<T>) -> usize;
    fn q_last<T: 'static>(q: Self::Q<T>) -> Option<Self::M<T>>;
    fn s_compare<T: Ord + 'static>(a: &Self::S<T>, b: &Self::S<T>) -> Cmp;
    fn s_partial<T: PartialOrd + 'static>(a: &Self::S<T>, b: &Self::S<T>) -> Cmp;
    fn s_eq_other<A: PartialEq<B> + 'static, B: 'static>(a: &Self::S<A>, b: &Self::S<B>) -> (bool, bool);
    fn m_eq_other<A: PartialEq<B> + 'static, B: 'static>(a: &Self::M<A>, b: &Self::M<B>) -> (bool, bool);
    fn s_hash<T: Hash + 'static, H: Hasher>(a: &Self::S<T>, h: &mut H);
    fn s_fmt<T: Debug + 'static>(a: &Self::S<T>, alt: bool, room: usize) -> (String, bool, bool);
    fn s_clone_from<T: 'static>(a: &mut Self::S<T>, b: &Self::S<T>);
    fn m_clone_from<T: Clone + 'static>(a: &mut Self::M<T>, b: &Self::M<T>);
    fn w_clone_from<T: 'static>(a: &mut Self::W<T>, b: &Self::W<T>);
    fn m_compare<T: Ord + 'static>(a: &Self::M<T>, b: &Self::M<T>) -> Cmp;
    fn m_partial<T: PartialOrd + 'static>(a: &Self::M<T>, b: &Self::M<T>) -> Cmp;
    fn m_hash<T: Hash + 'static, H: Hasher>(a: &Self::M<T>, h: &mut H);
    fn m_fmt<T: Debug + 'static>(a: &Self::M<T>, alt: bool, room: usize) -> (String, bool, bool);
    fn i_fmt<T: Debug + 'static>(a: &Self::I<T>, alt: bool, room: usize) -> (String, bool, bool);
    fn p_fmt<T: Debug + 'static>(a: &Self::P<T>, alt: bool, room: usize) -> (String, bool, bool);
    fn q_fmt<T: Debug + 'static>(a: &Self::Q<T>, alt: bool, room: usize) -> (String, bool, bool);
    fn p_nth<T: 'static>(p: &mut Self::P<T>, k: usize) -> Option<Self::S<T>>;
    fn p_nth_back<T: 'static>(p: &mut Self::P<T>, k: usize) -> Option<Self::S<T>>;
    fn q_nth<T: 'static>(p: &mut Self::Q<T>, k: usize) -> Option<Self::M<T>>;
    fn q_nth_back<T: 'static>(p: &mut Self::Q<T>, k: usize) -> Option<Self::M<T>>;
    fn p_each<T: 'static>(p: Self::P<T>, how: u32, f: &mut dyn FnMut(Self::S<T>));
    fn q_each<T: 'static>(p: Self::Q<T>, how: u32, f: &mut dyn FnMut(Self::M<T>));
    fn i_each<T: 'static>(p: Self::I<T>, how: u32, f: &mut dyn FnMut(T));
}

macro_rules! family {
    ($name:ident, $arc:expr, $m:path, $S:ident, $M:ident, $I:ident, $P:ident, $Q:ident) => {
        pub struct $name;
        const _: () = {
            use $m as lib;
            use lib::{$S as S, $M as M, $I as I, $P as P, $Q as Q, WeakSlice as W};
            impl Fam for $name {
                const ARC: bool = $arc;
                type S<T: 'static> = S<T>;
                type W<T: 'static> = W<T>;
                type M<T: 'static> = M<T>;
                type I<T: 'static> = I<T>;
                type P<T: 'static> = P<T>;
                type Q<T: 'static> = Q<T>;
                fn s_new<T: 'static>(v: Vec<T>, how: u32) -> S<T> {
                    match how % 4 { 0 => S::from_boxed_slice(v.into_boxed_slice()), 1 => S::from_vec(v), 2 => S::from(v), _ => S::from(v.into_boxed_slice()) }
                }
                fn s_collect<T: 'static>(it: impl Iterator<Item = T>) -> S<T> { it.collect() }
                fn s_slice<T: 'static>(s: &S<T>, how: u32) -> &[T] {
                    match how % 3 { 0 => s, 1 => s.as_ref(), _ => std::borrow::Borrow::borrow(s) }
                }
                fn s_clone<T: 'static>(s: &S<T>) -> S<T> { s.clone() }
                fn s_left<T: 'static>(s: &S<T>) -> S<T> { S::clone_left(s) }
                fn s_right<T: 'static>(s: &S<T>) -> S<T> { S::clone_right(s) }
                fn s_split_left<T: 'static>(s: &mut S<T>) -> S<T> { S::split_off_left(s) }
                fn s_split_right<T: 'static>(s: &mut S<T>) -> S<T> { S::split_off_right(s) }
                fn s_parts<T: 'static>(s: S<T>, n: usize) -> P<T> { S::split_into_parts(s, n) }
                fn s_get_mut<T: 'static>(s: &mut S<T>) -> Option<&mut [T]> { S::get_mut(s) }
                fn s_into_mut<T: 'static>(s: S<T>, how: u32) -> Result<M<T>, S<T>> { if how % 2 == 0 { S::into_mut(s) } else { M::try_from(s) } }
                fn s_downgrade<T: 'static>(s: &S<T>) -> W<T> { S::downgrade(s) }
                fn w_new<T: 'static>() -> W<T> { W::new() }
                fn w_upgrade<T: 'static>(w: &W<T>) -> Option<S<T>> { w.upgrade() }
                fn w_clone<T: 'static>(w: &W<T>) -> W<T> { w.clone() }
                fn m_new<T: 'static>(v: Vec<T>, how: u32) -> M<T> {
                    match how % 4 { 0 => M::from_boxed_slice(v.into_boxed_slice()), 1 => M::from_vec(v), 2 => M::from(v), _ => M::from(v.into_boxed_slice()) }
                }
                fn m_collect<T: 'static>(it: impl Iterator<Item = T>) -> M<T> { it.collect() }
                fn m_slice<T: 'static>(m: &M<T>, how: u32) -> &[T] {
                    match how % 3 { 0 => m, 1 => m.as_ref(), _ => std::borrow::Borrow::borrow(m) }
                }
                fn m_slice_mut<T: 'static>(m: &mut M<T>, how: u32) -> &mut [T] {
                    match how % 3 { 0 => m, 1 => m.as_mut(), _ => std::borrow::BorrowMut::borrow_mut(m) }
                }
                fn m_split_left<T: 'static>(m: &mut M<T>) -> M<T> { M::split_off_left(m) }
                fn m_split_right<T: 'static>(m: &mut M<T>) -> M<T> { M::split_off_right(m) }
                fn m_parts<T: 'static>(m: M<T>, n: usize) -> Q<T> { M::split_into_parts(m, n) }
                fn m_into_immut<T: 'static>(m: M<T>, how: u32) -> S<T> { if how % 2 == 0 { M::into_immut(m) } else { S::from(m) } }
                fn m_clone<T: Clone + 'static>(m: &M<T>) -> M<T> { m.clone() }
                fn m_into_iter<T: 'static>(m: M<T>) -> I<T> { m.into_iter() }
                fn i_slice<T: 'static>(i: &I<T>) -> &[T] { i.as_slice() }
                fn i_slice_mut<T: 'static>(i: &mut I<T>) -> &mut [T] { i.as_mut_slice() }
                fn i_from<T: 'static>(i: &mut I<T>, at: usize) -> I<T> { i.split_off_from(at) }
                fn i_to<T: 'static>(i: &mut I<T>, at: usize) -> I<T> { i.split_off_to(at) }
                fn i_next<T: 'static>(i: &mut I<T>) -> Option<T> { i.next() }
                fn i_back<T: 'static>(i: &mut I<T>) -> Option<T> { i.next_back() }
                fn i_nth<T: 'static>(i: &mut I<T>, n: usize) -> Option<T> { i.nth(n) }
                fn i_nth_back<T: 'static>(i: &mut I<T>, n: usize) -> Option<T> { i.nth_back(n) }
                fn i_len<T: 'static>(i: &I<T>) -> (usize, (usize, Option<usize>)) { (i.len(), i.size_hint()) }
                fn i_count<T: 'static>(i: I<T>) -> usize { i.count() }
                fn i_last<T: 'static>(i: I<T>) -> Option<T> { i.last() }
                fn p_slice<T: 'static>(p: &P<T>) -> &[T] { p.as_slice() }
                fn p_next<T: 'static>(p: &mut P<T>) -> Option<S<T>> { p.next() }
                fn p_back<T: 'static>(p: &mut P<T>) -> Option<S<T>> { p.next_back() }
                fn p_len<T: 'static>(p: &P<T>) -> (usize, (usize, Option<usize>)) { (p.len(), p.size_hint()) }
                fn p_count<T: 'static>(p: P<T>) -> usize { p.count() }
                fn p_last<T: 'static>(p: P<T>) -> Option<S<T>> { p.last() }
                fn p_clone<T: 'static>(p: &P<T>) -> P<T> { p.clone() }
                fn q_slice<T: 'static>(q: &Q<T>) -> &[T] { q.as_slice() }
                fn q_slice_mut<T: 'static>(q: &mut Q<T>) -> &mut [T] { q.as_mut_slice() }
                fn q_next<T: 'static>(q: &mut Q<T>) -> Option<M<T>> { q.next() }
                fn q_back<T: 'static>(q: &mut Q<T>) -> Option<M<T>> { q.next_back() }
                fn q_len<T: 'static>(q: &Q<T>) -> (usize, (usize, Option<usize>)) { (q.len(), q.size_hint()) }
                fn q_count<T: 'static>(q: Q<T>) -> usize { q.count() }
                fn q_last<T: 'static>(q: Q<T>) -> Option<M<T>> { q.last() }
                fn s_compare<T: Ord + 'static>(a: &S<T>, b: &S<T>) -> Cmp { let c = a.cmp(b); cmps(a, b, Some(c)) }
                fn s_partial<T: PartialOrd + 'static>(a: &S<T>, b: &S<T>) -> Cmp { cmps(a, b, None) }
                fn s_eq_other<A: PartialEq<B> + 'static, B: 'static>(a: &S<A>, b: &S<B>) -> (bool, bool) { (a == b, a != b) }
                fn m_eq_other<A: PartialEq<B> + 'static, B: 'static>(a: &M<A>, b: &M<B>) -> (bool, bool) { (a == b, a != b) }
                fn s_hash<T: Hash + 'static, H: Hasher>(a: &S<T>, h: &mut H) { a.hash(h) }
                fn s_fmt<T: Debug + 'static>(a: &S<T>, alt: bool, room: usize) -> (String, bool, bool) { show(a, alt, room) }
                fn s_clone_from<T: 'static>(a: &mut S<T>, b: &S<T>) { a.clone_from(b) }
                fn m_clone_from<T: Clone + 'static>(a: &mut M<T>, b: &M<T>) { a.clone_from(b) }
                fn w_clone_from<T: 'static>(a: &mut W<T>, b: &W<T>) { a.clone_from(b) }
                fn m_compare<T: Ord + 'static>(a: &M<T>, b: &M<T>) -> Cmp { let c = a.cmp(b); cmps(a, b, Some(c)) }
                fn m_partial<T: PartialOrd + 'static>(a: &M<T>, b: &M<T>) -> Cmp { cmps(a, b, None) }
                fn m_hash<T: Hash + 'static, H: Hasher>(a: &M<T>, h: &mut H) { a.hash(h) }
                fn m_fmt<T: Debug + 'static>(a: &M<T>, alt: bool, room: usize) -> (String, bool, bool) { show(a, alt, room) }
                fn i_fmt<T: Debug + 'static>(a: &I<T>, alt: bool, room: usize) -> (String, bool, bool) { show(a, alt, room) }
                fn p_fmt<T: Debug + 'static>(a: &P<T>, alt: bool, room: usize) -> (String, bool, bool) { show(a, alt, room) }
                fn q_fmt<T: Debug + 'static>(a: &Q<T>, alt: bool, room: usize) -> (String, bool, bool) { show(a, alt, room) }
                fn p_nth<T: 'static>(p: &mut P<T>, k: usize) -> Option<S<T>> { p.nth(k) }
                fn p_nth_back<T: 'static>(p: &mut P<T>, k: usize) -> Option<S<T>> { p.nth_back(k) }
                fn q_nth<T: 'static>(p: &mut Q<T>, k: usize) -> Option<M<T>> { p.nth(k) }
                fn q_nth_back<T: 'static>(p: &mut Q<T>, k: usize) -> Option<M<T>> { p.nth_back(k) }
                fn p_each<T: 'static>(p: P<T>, how: u32, f: &mut dyn FnMut(S<T>)) { each!(p, how, f) }
                fn q_each<T: 'static>(p: Q<T>, how: u32, f: &mut dyn FnMut(M<T>)) { each!(p, how, f) }
                fn i_each<T: 'static>(p: I<T>, how: u32, f: &mut dyn FnMut(T)) { each!(p, how, f) }
            }
        };
    };
}
family!(SimArc, true, rc_slice_sim::arc, ArcSlice, ArcSliceMut, ArcSliceMutIter, ArcSliceParts, ArcSliceMutParts);
family!(SimRc, false, rc_slice_sim::rc, RcSlice, RcSliceMut, RcSliceMutIter, RcSliceParts, RcSliceMutParts);
family!(RealArc, true, rc_slice_real::arc, ArcSlice, ArcSliceMut, ArcSliceMutIter, ArcSliceParts, ArcSliceMutParts);
family!(RealRc, false, rc_slice_real::rc, RcSlice, RcSliceMut, RcSliceMutIter, RcSliceParts, RcSliceMutParts);
pub const FAM_NAMES: [&str; 4] = ["SimArc", "SimRc", "RealArc", "RealRc"];
