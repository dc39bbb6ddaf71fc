//! Self-contained histories over items without destructor: huge lengths (zero-sized items, long
//! arrays) and items whose comparison is not reflexive. The model is a range per handle.
use crate::fam::Fam;
use crate::ops::{lib_ok, part_range, rem_range};
use crate::world::{bad, probe, soft, Pr};
use simrt::arena;
use simrt::rng::Rng;
use std::fmt::Debug;

pub trait Plain: Clone + PartialOrd + Debug + 'static {
    fn at(i: usize) -> Self;
    fn same(&self, o: &Self) -> bool;
    /// Is this what `o`'s clone() makes?
    fn copy_of(&self, o: &Self) -> bool { self.same(o) }
}
/// Needs no destructor, but is not copied bit by bit: a clone knows that it is one.
#[derive(Debug)]
pub struct Gen { id: u32, gen: u32 }
impl Clone for Gen { fn clone(&self) -> Gen { Gen { id: self.id, gen: self.gen + 1 } } }
impl PartialEq for Gen { fn eq(&self, o: &Gen) -> bool { self.id == o.id } }
impl PartialOrd for Gen { fn partial_cmp(&self, o: &Gen) -> Option<std::cmp::Ordering> { Some(self.id.cmp(&o.id)) } }
impl Plain for Gen {
    fn at(i: usize) -> Gen { Gen { id: i as u32 % 5 * 3, gen: 7 } }
    fn same(&self, o: &Gen) -> bool { self.id == o.id && self.gen == o.gen }
    fn copy_of(&self, o: &Gen) -> bool { self.id == o.id && self.gen == o.gen + 1 }
}
impl Plain for () { fn at(_: usize) {} fn same(&self, _: &()) -> bool { true } }
impl Plain for [u64; 0] { fn at(_: usize) -> Self { [] } fn same(&self, _: &Self) -> bool { true } }
impl Plain for u32 { fn at(i: usize) -> u32 { i as u32 ^ 0x5a5a_0000 } fn same(&self, o: &u32) -> bool { self == o } }
impl Plain for u8 { fn at(i: usize) -> u8 { (i ^ i >> 8 ^ i >> 16) as u8 } fn same(&self, o: &u8) -> bool { self == o } }
impl Plain for [u16; 3] { fn at(i: usize) -> Self { [i as u16, (i >> 16) as u16, 7] } fn same(&self, o: &Self) -> bool { self == o } }
impl Plain for f32 { fn at(i: usize) -> f32 { match i % 6 { 5 => f32::NAN, 4 => -0.0, 3 => 0.0, k => k as f32 } } fn same(&self, o: &f32) -> bool { self.to_bits() == o.to_bits() } }

enum H<F: Fam, T: Plain> { S(F::S<T>), M(F::M<T>), W(F::W<T>), I(F::I<T>), P(F::P<T>), Q(F::Q<T>) }
struct E<F: Fam, T: Plain> { h: H<F, T>, a: usize, l: usize, n: usize, f: usize, b: usize, root: bool }
impl<F: Fam, T: Plain> E<F, T> { fn new(h: H<F, T>, a: usize, l: usize) -> Self { E { h, a, l, n: 0, f: 0, b: 0, root: false } } }

struct Ctx { base: usize, total: usize }
impl Ctx {
    fn view<T: Plain>(&self, r: &mut Rng, sl: &[T], a: usize, l: usize, kind: &'static str) {
        if sl.len() != l { bad(kind, format!("view has {} items, expected {l} (items {a}..{} of {})", sl.len(), a.wrapping_add(l), self.total)); }
        if l == 0 { return; }
        let p = sl.as_ptr() as usize;
        if p % std::mem::align_of::<T>() != 0 { bad(kind, "view is misaligned".into()); }
        let sz = std::mem::size_of::<T>();
        if sz == 0 { return; }
        if p != self.base + a * sz { bad(kind, format!("view of items {a}..{} of {} is at the wrong address (offset {})", a + l, self.total, p.wrapping_sub(self.base) as isize)); }
        for k in 0..6 {
            let i = match k { 0 => 0, 1 => l - 1, 2 => l / 2, _ => r.below(l as u32) as usize };
            if !sl[i].same(&T::at(a + i)) { bad(kind, format!("item {} of {} does not hold what was stored there", a + i, self.total)); }
        }
    }
    fn check<F: Fam, T: Plain>(&self, r: &mut Rng, e: &E<F, T>) {
        let left = |e: &E<F, T>| e.n - e.f - e.b;
        let len = |kind: &'static str, g: (usize, (usize, Option<usize>)), want: usize| if g.0 != want || g.1 != (want, Some(want)) { bad(kind, format!("iterator reports length {} and size hint {:?} with {want} elements still to come", g.0, g.1)); };
        match &e.h {
            H::S(s) => self.view(r, F::s_slice(s, 0), e.a, e.l, "wrong-view"),
            H::M(m) => self.view(r, F::m_slice(m, 0), e.a, e.l, "wrong-view-mut"),
            H::W(_) => {}
            H::I(i) => { self.view(r, F::i_slice(i), e.a, e.l, "iter-view"); len("iter-len", F::i_len(i), e.l); }
            H::P(p) => { let (a, l) = rem_range(e.a, e.l, e.n, e.f, e.b); self.view(r, F::p_slice(p), a, l, "parts-view"); len("parts-len", F::p_len(p), left(e)); }
            H::Q(q) => { let (a, l) = rem_range(e.a, e.l, e.n, e.f, e.b); self.view(r, F::q_slice(q), a, l, "mutparts-view"); len("mutparts-len", F::q_len(q), left(e)); }
        }
    }
}

/// What a comparison, hash and formatting of two handles must give.
fn compare_s<F: Fam, T: Plain>(x: &F::S<T>, y: &F::S<T>) {
    if let Some(g) = lib_ok(|| F::s_partial(x, y)) {
        let (p, q) = (F::s_slice(x, 0), F::s_slice(y, 0));
        let want = crate::fam::cmps(p, q, None);
        if g != want { soft("compare", format!("comparing slices {p:?} and {q:?} gives {g:?} (==, !=, cmp, partial_cmp, [<, <=, >, >=]), the plain slices give {want:?}")); }
    }
}

/// Comparable with `Gen`, unlike it in size and content; sometimes equal to it, sometimes not even to its own.
struct Key(u64);
impl PartialEq<Key> for Gen { fn eq(&self, k: &Key) -> bool { self.id as u64 == k.0 >> 8 && k.0 & 0xff != 0 } }

/// Slices of different item types that can be compared.
fn strangers<F: Fam>(r: &mut Rng) {
    let (n, k) = (r.below(9) as usize, r.below(6));
    let m = if k == 0 { r.below(9) as usize } else { n };
    let gens = |at: usize| -> Vec<Gen> { (0..n).map(|i| Gen::at(i + at)).collect() };
    let (at, odd, off) = (r.below(9) as usize, r.below(12) as usize, r.below(2) as u64);
    let keys = || -> Vec<Key> { (0..m).map(|i| Key(((i + at) as u64 % 5 * 3 + (i == odd && off == 0) as u64) << 8 | (i != odd || off == 0) as u64)).collect() };
    let want = (gens(at)[..] == keys()[..], gens(at)[..] != keys()[..]);
    let (hs, hk) = (r.below(4), r.below(4));
    let got = if r.below(2) == 0 {
        let (Some(a), Some(b)) = (lib_ok(|| F::s_new(gens(at), hs)), lib_ok(|| F::s_new(keys(), hk))) else { return };
        lib_ok(|| F::s_eq_other(&a, &b))
    } else {
        let (Some(a), Some(b)) = (lib_ok(|| F::m_new(gens(at), hs)), lib_ok(|| F::m_new(keys(), hk))) else { return };
        lib_ok(|| F::m_eq_other(&a, &b))
    };
    if let Some(g) = got { if g != want { soft("compare", format!("comparing {n} items with {m} of another type gives {g:?} (==, !=), the plain slices give {want:?}")); } }
}

pub fn run<F: Fam>(seed: u64) {
    probe(Pr::Plain);
    let r = &mut Rng::new(seed);
    const Z: [usize; 10] = [usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, isize::MAX as usize + 2, 1 << 32, (1 << 32) + 3, 1 << 31, (1 << 33) - 1, (1 << 48) + 5];
    const L: [usize; 9] = [65535, 65536, 65537, 70001, 131_073, 32768, 255, 256, 4099];
    match r.below(16) {
        0..=3 => history::<F, ()>(r, Z[(seed >> 32) as usize % Z.len()]),
        4..=5 => history::<F, [u64; 0]>(r, Z[(seed >> 32) as usize % Z.len()]),
        6..=7 => history::<F, u8>(r, L[(seed >> 32) as usize % L.len()]),
        8 => history::<F, u32>(r, L[(seed >> 32) as usize % L.len()]),
        9 => history::<F, [u16; 3]>(r, L[5 + (seed >> 32) as usize % 4]),
        10 => { let n = r.below(40) as usize; history::<F, u8>(r, n) }
        11 => { let n = r.below(40) as usize; history::<F, [u16; 3]>(r, n) }
        12 | 13 => { strangers::<F>(r); let n = r.below(24) as usize; history::<F, Gen>(r, n) }
        _ => { let n = r.below(14) as usize; history::<F, f32>(r, n) }
    }
}

fn history<F: Fam, T: Plain>(r: &mut Rng, total: usize) {
    let zst = std::mem::size_of::<T>() == 0;
    arena::tag_buffers(true);
    let mut v: Vec<T> = Vec::with_capacity(total);
    arena::tag_buffers(false);
    if zst { unsafe { v.set_len(total); } } else { for i in 0..total { v.push(T::at(i)); } }
    let base = v.as_ptr() as usize;
    if !zst && total > 0 { if let Some(b) = arena::find(base) { arena::adopt(b); } }
    let mut es: Vec<E<F, T>> = vec![];
    let how = r.below(4);
    if r.chance(1, 2) {
        let Some(s) = lib_ok(move || F::s_new(v, how)) else { return };
        let b = F::s_slice(&s, 0).as_ptr() as usize;
        es.push(E { root: true, ..E::new(H::S(s), 0, total) });
        es.last_mut().unwrap().n = b;
    } else {
        let Some(m) = lib_ok(move || F::m_new(v, how)) else { return };
        let b = F::m_slice(&m, 0).as_ptr() as usize;
        es.push(E { root: true, ..E::new(H::M(m), 0, total) });
        es.last_mut().unwrap().n = b;
    }
    let cx = Ctx { base: es[0].n, total };
    es[0].n = 0;
    cx.check(r, &es[0]);
    let steps = 4 + r.below(24);
    for _ in 0..steps {
        if es.is_empty() { break; }
        let i = r.below(es.len() as u32) as usize;
        if es.len() > 24 { let e = es.swap_remove(i); lib_ok(move || drop(e.h)); continue; }
        let k = r.below(12);
        let side = r.chance(1, 2);
        let half = es[i].l >> 1;
        let mut out: Option<E<F, T>> = None;
        let (a, l) = (es[i].a, es[i].l);
        let l_range = (a, half);
        let r_range = (a + half, l - half);
        // operations by value first
        let by_value = match (&es[i].h, k) { (H::S(_), 0..=2) | (H::M(_), 0..=4) => true, (_, 11) => true, _ => false };
        if by_value {
            let mut e = es.swap_remove(i);
            let n = 1usize << if r.chance(1, 3) { r.below(64) } else { r.below(9) };
            match e.h {
                H::S(s) if k == 0 => { if let Some(p) = lib_ok(move || F::s_parts(s, n)) { e.h = H::P(p); e.n = n; es.push(e); } else { return; } }
                H::S(s) if k <= 2 => match lib_ok(move || F::s_into_mut(s, k)) {
                    Some(Ok(m)) => { e.h = H::M(m); es.push(e); }
                    Some(Err(s)) => { e.h = H::S(s); es.push(e); }
                    None => return,
                },
                H::M(m) if k == 0 => { if let Some(q) = lib_ok(move || F::m_parts(m, n)) { e.h = H::Q(q); e.n = n; es.push(e); } else { return; } }
                H::M(m) if k == 1 || k == 3 => { if let Some(x) = lib_ok(move || F::m_into_iter(m)) { e.h = H::I(x); es.push(e); } else { return; } }
                H::M(m) if k <= 4 => { if let Some(s) = lib_ok(move || F::m_into_immut(m, k)) { e.h = H::S(s); es.push(e); } else { return; } }
                h => {
                    let want = match &h { H::I(_) => e.l, H::P(_) | H::Q(_) => e.n - e.f - e.b, _ => 0 };
                    // (a count() that walks is slow, not wrong)
                    let got = lib_ok(move || match h { h if want > 20_000 => { drop(h); want }, H::I(x) => F::i_count(x), H::P(x) => F::p_count(x), H::Q(x) => F::q_count(x), x => { drop(x); 0 } });
                    if got.map_or(false, |g| g != want) { bad("iter-len", format!("count() is {}, but {want} elements were still to come", got.unwrap())); }
                }
            }
            if let Some(e) = es.last() { cx.check(r, e); }
            continue;
        }
        let e = &mut es[i];
        match &mut e.h {
            H::S(s) => match k {
                3 => out = lib_ok(|| F::s_clone(s)).map(|x| E::new(H::S(x), a, l)),
                4 | 5 => {
                    out = lib_ok(|| if side { F::s_left(s) } else { F::s_right(s) }).map(|x| { let q = if side { l_range } else { r_range }; E::new(H::S(x), q.0, q.1) });
                }
                6 | 7 => {
                    out = lib_ok(|| if side { F::s_split_left(s) } else { F::s_split_right(s) }).map(|x| { let q = if side { l_range } else { r_range }; E::new(H::S(x), q.0, q.1) });
                    let q = if side { r_range } else { l_range };
                    e.a = q.0;
                    e.l = q.1;
                }
                8 => out = lib_ok(|| F::s_downgrade(s)).map(|x| E::new(H::W(x), a, l)),
                9 => { let (b, n) = (cx.base, total); let _ = (b, n); if let Some(Some(m)) = lib_ok(|| F::s_get_mut(s).map(|x| (x.as_ptr() as usize, x.len()))) { if m.1 != l { bad("wrong-view", format!("get_mut exposes {} items of a slice of {l}", m.1)); } } }
                _ => {}
            },
            H::W(x) => if k > 6 {
                if let Some(Some(s)) = lib_ok(|| F::w_upgrade(x)) { out = Some(E::new(H::S(s), a, l)); }
            } else if k > 4 { out = lib_ok(|| F::w_clone(x)).map(|y| E::new(H::W(y), a, l)); },
            H::M(m) => if k > 6 {
                out = lib_ok(|| if side { F::m_split_left(m) } else { F::m_split_right(m) }).map(|x| { let q = if side { l_range } else { r_range }; E::new(H::M(x), q.0, q.1) });
                let q = if side { r_range } else { l_range };
                e.a = q.0;
                e.l = q.1;
            } else if k == 5 && l < 10_000 && !zst {
                let n = if r.chance(1, 3) { l } else { r.below(30) as usize };
                let v: Vec<T> = (0..n).map(|i| T::at(i + 50)).collect();
                let p = v.as_ptr() as usize;
                if n > 0 { if let Some(b) = arena::find(p) { arena::adopt(b); } }
                let Some(mut c) = lib_ok(move || F::m_new(v, 0)) else { return };
                if lib_ok(|| F::m_clone_from(&mut c, m)).is_some() {
                    let (p, q) = (F::m_slice(m, 0), F::m_slice(&c, 0));
                    if p.len() != q.len() || p.iter().zip(q).any(|(x, y)| !y.copy_of(x)) { bad("copy-mismatch", format!("clone_from of {l} plain items into {n} gives {} items, or others than their clones", q.len())); }
                }
                lib_ok(move || drop(c));
            } else if k == 6 && l < 10_000 {
                if let Some(c) = lib_ok(|| F::m_clone(m)) {
                    let (p, q) = (F::m_slice(m, 0), F::m_slice(&c, 0));
                    if p.len() != q.len() || p.iter().zip(q).any(|(x, y)| !y.copy_of(x)) { bad("copy-mismatch", format!("deep copy of {l} plain items differs from the original, or is not made of their clones")); }
                    if !zst && l > 0 && p.as_ptr() == q.as_ptr() { bad("copy-mismatch", "a deep copy shares its storage with the original".into()); }
                    if let Some(g) = lib_ok(|| F::m_partial(m, &c)) {
                        let want = crate::fam::cmps(p, q, None);
                        if g != want { soft("compare", format!("comparing exclusive slices {p:?} and {q:?} gives {g:?}, the plain slices give {want:?}")); }
                    }
                    lib_ok(move || drop(c));
                }
            },
            H::I(x) => {
                let n = 1 + r.below(3);
                if k > 6 {
                    let at = (r.next() as usize) % l.saturating_add(1).max(1);
                    if at <= l {
                        out = lib_ok(|| if side { F::i_from(x, at) } else { F::i_to(x, at) }).map(|y| if side { E::new(H::I(y), a + at, l - at) } else { E::new(H::I(y), a, at) });
                        if side { e.l = at; } else { e.a = a + at; e.l = l - at; }
                    }
                } else { for _ in 0..n {
                    let got = lib_ok(|| if side { F::i_next(x) } else { F::i_back(x) });
                    let Some(got) = got else { break };
                    let want = if e.l == 0 { None } else { Some(if side { e.a } else { e.a + e.l - 1 }) };
                    match (got, want) {
                        (Some(t), Some(w)) => { if !t.same(&T::at(w)) { bad("iter-wrong", format!("iterator yielded something other than item {w}")); } e.l -= 1; if side { e.a += 1; } }
                        (None, None) => {}
                        (g, _) => bad("iter-wrong", format!("iterator yielded {} with {} items still to come", if g.is_some() { "an item" } else { "nothing" }, e.l)),
                    }
                } }
            }
            H::P(_) | H::Q(_) => {
                let shared = matches!(e.h, H::P(_));
                let kind = if shared { "parts-count" } else { "mutparts-count" };
                if k == 10 && shared {
                    if let H::P(p) = &e.h { if let Some(y) = lib_ok(|| F::p_clone(p)) { let c = E { h: H::P(y), a: e.a, l: e.l, n: e.n, f: e.f, b: e.b, root: false }; cx.check(r, &c); es.push(c); } }
                    continue;
                }
                for _ in 0..1 + r.below(4) {
                    let left = e.n - e.f - e.b;
                    let got: Option<Option<H<F, T>>> = match &mut e.h {
                        H::P(p) => lib_ok(|| if side { F::p_next(p) } else { F::p_back(p) }).map(|x| x.map(H::S)),
                        H::Q(p) => lib_ok(|| if side { F::q_next(p) } else { F::q_back(p) }).map(|x| x.map(H::M)),
                        _ => None,
                    };
                    match got {
                        Some(Some(h)) => {
                            if left == 0 { bad(kind, "a parts iterator yields more than its parts".into()); }
                            let kk = if side { e.f } else { e.n - 1 - e.b };
                            if side { e.f += 1 } else { e.b += 1 }
                            let (pa, pl) = part_range(e.a, e.l, e.n, kk);
                            let y = E::new(h, pa, pl);
                            match &y.h { H::S(s) => cx.view(r, F::s_slice(s, 0), pa, pl, "parts-view"), H::M(m) => cx.view(r, F::m_slice(m, 0), pa, pl, "mutparts-view"), _ => {} }
                            if r.chance(1, 2) { lib_ok(move || drop(y.h)); } else { out = Some(y); }
                        }
                        Some(None) => if left != 0 { bad(kind, format!("a parts iterator ended with {left} parts still to come")); },
                        None => return,
                    }
                    if out.is_some() { break; }
                }
            }
        }
        cx.check(r, &es[i]);
        if let Some(o) = out { cx.check(r, &o); es.push(o); }
        // compare two shared slices (huge zero-sized ones would be compared item by item)
        if es.len() > 1 && r.chance(1, 3) {
            let j = r.below(es.len() as u32) as usize;
            let i = r.below(es.len() as u32) as usize;
            if es[i].l < 300 && es[j].l < 300 { if let (H::S(x), H::S(y)) = (&es[i].h, &es[j].h) { compare_s::<F, T>(x, y); } }
        }
    }
    while !es.is_empty() {
        let i = r.below(es.len() as u32) as usize;
        let e = es.swap_remove(i);
        lib_ok(move || drop(e.h));
        for e in &es { if es.len() < 6 { cx.check(r, e); } }
    }
}
