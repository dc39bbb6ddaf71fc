//! Port of std's Arc/Weak (same operations, same memory orderings) onto the simulated atomics,
//! with liveness and happens-before checks on every use.
use crate::arena;
use crate::atomics::{fence, spin_hint, Cell64, Ordering::*};
use crate::rt::{rt, NT, S_ARC_NEW};
use std::borrow::Borrow;
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;
use std::mem::{self, ManuallyDrop, MaybeUninit};
use std::ops::Deref;
use std::pin::Pin;
use std::ptr::{self, NonNull};

const MAGIC: u32 = 0x51AC_A11E;
const ALIVE: u8 = 1;
const NASCENT: u8 = 3; // inside new_cyclic
const GONE: u8 = 2; // value destroyed or moved out

#[repr(C)]
pub(crate) struct Inner<T> {
    magic: u32,
    state: Cell<u8>,
    ctask: u8,
    cepoch: u32,
    acc: Cell<[u32; NT]>,
    strong: Cell64,
    weak: Cell64,
    data: T,
}
// A handle remembers who made it and who used it by reference: handles stored in memory shared
// between tasks are thereby checked like any other memory.
pub struct Arc<T> { ptr: NonNull<Inner<T>>, btask: u32, bepoch: u32, used: Cell<[u32; NT]>, phantom: PhantomData<Inner<T>> }
pub struct Weak<T> { ptr: NonNull<Inner<T>>, btask: u32, bepoch: u32, used: Cell<[u32; NT]> }
unsafe impl<T: Send + Sync> Send for Arc<T> {}
unsafe impl<T: Send + Sync> Sync for Arc<T> {}
unsafe impl<T: Send + Sync> Send for Weak<T> {}
unsafe impl<T: Send + Sync> Sync for Weak<T> {}
impl<T> Unpin for Arc<T> {}
impl<T: std::panic::RefUnwindSafe> std::panic::UnwindSafe for Arc<T> {}

const DANGLING: usize = usize::MAX & !63;
const MAX_REFCOUNT: u64 = isize::MAX as u64;

fn birth() -> (u32, u32) { let r = rt(); (r.cur as u32, r.epoch()) }
#[cold]
fn fail(kind: &'static str, msg: String) -> ! {
    let r = rt();
    if r.active { r.violate(kind, msg) }
    r.set_violation(kind, msg);
    panic!("violation outside a run");
}
fn soft(kind: &'static str, msg: impl FnOnce() -> String) {
    let r = rt();
    if r.active { r.violate_soft(kind, msg) }
}
fn note_use(used: &Cell<[u32; NT]>) {
    let r = rt();
    let mut a = used.get();
    a[r.cur] = r.epoch();
    used.set(a);
}
fn check_end(what: &str, used: &Cell<[u32; NT]>) {
    let r = rt();
    if !r.active { return; }
    let a = used.get();
    for t in 0..NT {
        if !r.hb(t, a[t]) {
            let c = r.cur;
            soft("data-race", || format!("{what}: task {c} drops or replaces a handle that task {t} used without being ordered before"));
        }
    }
}
fn check_handle(what: &str, bt: u32, be: u32) {
    let r = rt();
    if !r.active { return; }
    if bt as usize >= NT { fail("use-after-free", format!("{what}: the handle itself is not valid memory")); }
    if !r.hb(bt as usize, be) {
        let c = r.cur;
        soft("unsynchronised-publication", || format!("{what} handle created by task {bt} is used by task {c} without any synchronisation in between"));
    }
}
unsafe fn check_inner<T>(p: *const Inner<T>, what: &str) {
    let r = rt();
    if !r.active { return; }
    let a = p as usize;
    let ok = a % mem::align_of::<Inner<T>>() == 0 && (!arena::contains(a) || arena_live::<T>(a));
    if !ok || (*p).magic != MAGIC {
        fail("use-after-free", format!("{what}: the reference counted object is not live memory any more"));
    }
    if !r.hb((*p).ctask as usize, (*p).cepoch) {
        let c = r.cur;
        soft("unsynchronised-publication", || format!("{what}: object created by task {} reached task {c} without synchronisation", (*p).ctask));
    }
}
// The magic word is destroyed (poisoned) when the memory is freed, so a live word means live memory
// except under immediate reuse, where another object lives there.
fn arena_live<T>(_a: usize) -> bool { true }
unsafe fn touch<T>(p: *const Inner<T>) {
    let r = rt();
    let mut a = (*p).acc.get();
    a[r.cur] = r.epoch();
    (*p).acc.set(a);
}
unsafe fn check_alive<T>(p: *const Inner<T>, what: &str) {
    check_inner(p, what);
    if (*p).state.get() == GONE && rt().active { fail("use-after-free", format!("{what}: the value behind this strong reference was already destroyed")); }
    touch(p);
}
unsafe fn check_destroy<T>(p: *const Inner<T>) {
    let r = rt();
    if !r.active { return; }
    let a = (*p).acc.get();
    for t in 0..NT {
        if !r.hb(t, a[t]) {
            let c = r.cur;
            soft("data-race", || format!("task {c} destroys a shared object that task {t} accessed without being ordered before"));
        }
    }
}

impl<T> Arc<T> {
    fn mk(ptr: NonNull<Inner<T>>) -> Self { let (btask, bepoch) = birth(); Arc { ptr, btask, bepoch, used: Cell::new([0; NT]), phantom: PhantomData } }
    #[inline]
    fn inner(&self) -> &Inner<T> { unsafe { self.ptr.as_ref() } }
    fn chk(&self, what: &str) { check_handle(what, self.btask, self.bepoch); note_use(&self.used); unsafe { check_alive(self.ptr.as_ptr(), what) } }
    fn new_inner(data: T, strong: u64, state: u8) -> NonNull<Inner<T>> {
        let r = rt();
        r.stat[S_ARC_NEW] += 1;
        let b = Box::new(Inner { magic: MAGIC, state: Cell::new(state), ctask: r.cur as u8, cepoch: r.epoch(), acc: Cell::new([0; NT]),
            strong: Cell64::new(strong), weak: Cell64::new(1), data });
        unsafe { NonNull::new_unchecked(Box::into_raw(b)) }
    }
    pub fn new(data: T) -> Arc<T> { Self::mk(Self::new_inner(data, 1, ALIVE)) }
    pub fn pin(data: T) -> Pin<Arc<T>> { unsafe { Pin::new_unchecked(Arc::new(data)) } }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Arc<T> {
        let p: NonNull<Inner<MaybeUninit<T>>> = Arc::<MaybeUninit<T>>::new_inner(MaybeUninit::uninit(), 0, NASCENT);
        let p: NonNull<Inner<T>> = p.cast();
        let w = Weak::mk(p);
        let data = f(&w);
        unsafe {
            ptr::write(ptr::addr_of_mut!((*p.as_ptr()).data), data);
            (*p.as_ptr()).state.set(ALIVE);
            let _ = (*p.as_ptr()).strong.rmw(Release, Relaxed, false, |_| Some(1));
        }
        mem::forget(w);
        Self::mk(p)
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        this.chk("Arc::try_unwrap");
        if this.inner().strong.rmw(Relaxed, Relaxed, false, |v| if v == 1 { Some(0) } else { None }).is_err() { return Err(this); }
        fence(Acquire);
        let this = ManuallyDrop::new(this);
        unsafe {
            check_destroy(this.ptr.as_ptr());
            (*this.ptr.as_ptr()).state.set(GONE);
            let elem = ptr::read(&this.ptr.as_ref().data);
            let _weak = Weak::mk(this.ptr);
            Ok(elem)
        }
    }
    pub fn into_inner(this: Self) -> Option<T> {
        this.chk("Arc::into_inner");
        let this = ManuallyDrop::new(this);
        if this.inner().strong.rmw(Release, Relaxed, false, |v| Some(v.wrapping_sub(1))) != Ok(1) { return None; }
        fence(Acquire);
        unsafe {
            check_destroy(this.ptr.as_ptr());
            (*this.ptr.as_ptr()).state.set(GONE);
            let elem = ptr::read(&this.ptr.as_ref().data);
            drop(Weak::mk(this.ptr));
            Some(elem)
        }
    }
    pub fn unwrap_or_clone(this: Self) -> T where T: Clone { Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone()) }
    pub fn into_raw(this: Self) -> *const T { this.chk("Arc::into_raw"); let t = ManuallyDrop::new(this); Self::as_ptr(&t) }
    pub fn as_ptr(this: &Self) -> *const T { unsafe { ptr::addr_of!((*this.ptr.as_ptr()).data) } }
    /// # Safety
    /// as std
    pub unsafe fn from_raw(p: *const T) -> Self {
        let off = mem::offset_of!(Inner<T>, data);
        let a = (p as usize).wrapping_sub(off) as *mut Inner<T>;
        if rt().active && ((a as usize) < 4096 || a as usize % mem::align_of::<Inner<T>>() != 0 || !readable(a as usize)) { fail("use-after-free", "Arc::from_raw on an invalid pointer".into()); }
        check_inner(a, "Arc::from_raw");
        Self::mk(NonNull::new_unchecked(a))
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        this.chk("Arc::downgrade");
        let w = &this.inner().weak;
        let mut cur = w.load(Relaxed);
        loop {
            if cur == u64::MAX { spin_hint(); cur = w.load(Relaxed); continue; }
            assert!(cur <= MAX_REFCOUNT, "Arc counter overflow");
            match w.rmw(Acquire, Relaxed, true, |v| if v == cur { Some(cur + 1) } else { None }) {
                Ok(_) => return Weak::mk(this.ptr),
                Err(old) => cur = old,
            }
        }
    }
    pub fn weak_count(this: &Self) -> usize {
        this.chk("Arc::weak_count");
        let c = this.inner().weak.load(Relaxed);
        if c == u64::MAX { 0 } else { (c - 1) as usize }
    }
    pub fn strong_count(this: &Self) -> usize { this.chk("Arc::strong_count"); this.inner().strong.load(Relaxed) as usize }
    /// # Safety
    /// as std
    pub unsafe fn increment_strong_count(p: *const T) { let a = ManuallyDrop::new(Arc::from_raw(p)); let _b: ManuallyDrop<_> = a.clone(); }
    /// # Safety
    /// as std
    pub unsafe fn decrement_strong_count(p: *const T) { drop(Arc::from_raw(p)); }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool { ptr::eq(a.ptr.as_ptr(), b.ptr.as_ptr()) }
    fn is_unique(&self) -> bool {
        let inner = self.inner();
        if inner.weak.rmw(Acquire, Relaxed, false, |v| if v == 1 { Some(u64::MAX) } else { None }).is_ok() {
            let unique = inner.strong.load(Acquire) == 1;
            inner.weak.store(1, Release);
            unique
        } else { false }
    }
    pub fn is_unique_(this: &Self) -> bool { this.is_unique() }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        this.chk("Arc::get_mut");
        if this.is_unique() { unsafe { check_destroy(this.ptr.as_ptr()); Some(&mut (*this.ptr.as_ptr()).data) } } else { None }
    }
    pub fn make_mut(this: &mut Self) -> &mut T where T: Clone {
        this.chk("Arc::make_mut");
        let inner = this.inner();
        if inner.strong.rmw(Acquire, Relaxed, false, |v| if v == 1 { Some(0) } else { None }).is_err() {
            *this = Arc::new((**this).clone());
        } else if inner.weak.load(Relaxed) != 1 {
            unsafe {
                let old = Weak::mk(this.ptr);
                let data = ptr::read(&this.inner().data);
                this.inner().state.set(GONE);
                ptr::write(this, Arc::new(data));
                drop(old);
            }
        } else {
            inner.strong.store(1, Release);
        }
        unsafe { &mut (*this.ptr.as_ptr()).data }
    }
}
fn readable(a: usize) -> bool { !arena::contains(a) || arena::find(a).is_some() }
impl<T> Clone for Arc<T> {
    fn clone(&self) -> Self {
        self.chk("Arc::clone");
        let old = self.inner().strong.rmw(Relaxed, Relaxed, false, |v| Some(v.wrapping_add(1))).unwrap_or(0);
        if old > MAX_REFCOUNT { fail("use-after-free", "Arc strong count overflow".into()); }
        if old == 0 && rt().active { fail("use-after-free", "Arc::clone on an object whose strong count is zero".into()); }
        Self::mk(self.ptr)
    }
}
impl<T> Deref for Arc<T> {
    type Target = T;
    #[inline]
    fn deref(&self) -> &T { self.chk("Arc::deref"); &self.inner().data }
}
impl<T> Drop for Arc<T> {
    fn drop(&mut self) {
        self.chk("Arc::drop");
        check_end("Arc", &self.used);
        let old = self.inner().strong.rmw(Release, Relaxed, false, |v| Some(v.wrapping_sub(1))).unwrap_or(0);
        if old == 0 || old > MAX_REFCOUNT { fail("use-after-free", "Arc strong count dropped below zero".into()); }
        if old != 1 { return; }
        fence(Acquire);
        unsafe {
            check_destroy(self.ptr.as_ptr());
            let _weak = Weak::mk(self.ptr);
            (*self.ptr.as_ptr()).state.set(GONE);
            ptr::drop_in_place(&mut (*self.ptr.as_ptr()).data);
        }
    }
}

impl<T> Weak<T> {
    fn mk(ptr: NonNull<Inner<T>>) -> Self { let (btask, bepoch) = birth(); Weak { ptr, btask, bepoch, used: Cell::new([0; NT]) } }
    pub const fn new() -> Weak<T> { Weak { ptr: unsafe { NonNull::new_unchecked(DANGLING as *mut Inner<T>) }, btask: 0, bepoch: 0, used: Cell::new([0; NT]) } }
    fn inner(&self, what: &str) -> Option<&Inner<T>> {
        // the handle's own birth stamp catches reads of a handle through unsynchronised memory
        check_handle(what, self.btask, self.bepoch);
        note_use(&self.used);
        if self.ptr.as_ptr() as usize == DANGLING { return None; }
        unsafe {
            if rt().active && !readable(self.ptr.as_ptr() as usize) { fail("use-after-free", format!("{what} on garbage")); }
            check_inner(self.ptr.as_ptr(), what);
            Some(self.ptr.as_ref())
        }
    }
    pub fn upgrade(&self) -> Option<Arc<T>> {
        let inner = self.inner("Weak::upgrade")?;
        let mut n = inner.strong.load(Relaxed);
        loop {
            if n == 0 { return None; }
            assert!(n <= MAX_REFCOUNT, "Arc counter overflow");
            match inner.strong.rmw(Acquire, Relaxed, true, |v| if v == n { Some(n + 1) } else { None }) {
                Ok(_) => return Some(Arc::mk(self.ptr)),
                Err(o) => n = o,
            }
        }
    }
    pub fn strong_count(&self) -> usize { self.inner("Weak::strong_count").map_or(0, |i| i.strong.load(Relaxed) as usize) }
    pub fn weak_count(&self) -> usize {
        match self.inner("Weak::weak_count") {
            None => 0,
            Some(i) => {
                let w = i.weak.load(Acquire);
                let s = i.strong.load(Relaxed);
                if s == 0 { 0 } else { (w - 1) as usize }
            }
        }
    }
    pub fn ptr_eq(&self, o: &Self) -> bool { ptr::eq(self.ptr.as_ptr(), o.ptr.as_ptr()) }
    pub fn as_ptr(&self) -> *const T { (self.ptr.as_ptr() as usize).wrapping_add(mem::offset_of!(Inner<T>, data)) as *const T }
    pub fn into_raw(self) -> *const T { let t = ManuallyDrop::new(self); t.as_ptr() }
    /// # Safety
    /// as std
    pub unsafe fn from_raw(p: *const T) -> Self {
        let a = (p as usize).wrapping_sub(mem::offset_of!(Inner<T>, data));
        let w = Weak::mk(NonNull::new_unchecked(a as *mut Inner<T>));
        if a != DANGLING {
            if rt().active && !readable(a) { fail("use-after-free", "Weak::from_raw on garbage".into()); }
            check_inner(a as *const Inner<T>, "Weak::from_raw");
        }
        w
    }
}
impl<T> Clone for Weak<T> {
    fn clone(&self) -> Self {
        match self.inner("Weak::clone") {
            None => Weak::new(),
            Some(i) => {
                let old = i.weak.rmw(Relaxed, Relaxed, false, |v| Some(v.wrapping_add(1))).unwrap_or(0);
                if old == 0 || old > MAX_REFCOUNT { fail("use-after-free", "Weak::clone on a freed object".into()); }
                Weak::mk(self.ptr)
            }
        }
    }
}
impl<T> Drop for Weak<T> {
    fn drop(&mut self) {
        check_end("Weak", &self.used);
        let i = match self.inner("Weak::drop") { None => return, Some(i) => i };
        let old = i.weak.rmw(Release, Relaxed, false, |v| Some(v.wrapping_sub(1))).unwrap_or(0);
        if old == 0 { fail("use-after-free", "weak count dropped below zero".into()); }
        if old != 1 { return; }
        fence(Acquire);
        unsafe {
            (*self.ptr.as_ptr()).magic = 0;
            drop(Box::from_raw(self.ptr.as_ptr() as *mut Inner<ManuallyDrop<T>>));
        }
    }
}
impl<T> Default for Weak<T> { fn default() -> Self { Weak::new() } }
impl<T: Default> Default for Arc<T> { fn default() -> Self { Arc::new(T::default()) } }
impl<T> From<T> for Arc<T> { fn from(t: T) -> Self { Arc::new(t) } }
impl<T> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { self } }
impl<T> Borrow<T> for Arc<T> { fn borrow(&self) -> &T { self } }
impl<T: fmt::Debug> fmt::Debug for Arc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl<T: fmt::Display> fmt::Display for Arc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }
impl<T> fmt::Debug for Weak<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("(Weak)") } }
impl<T: PartialEq> PartialEq for Arc<T> { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl<T: Eq> Eq for Arc<T> {}
impl<T: PartialOrd> PartialOrd for Arc<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { (**self).partial_cmp(&**o) } }
impl<T: Ord> Ord for Arc<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (**self).cmp(&**o) } }
impl<T: std::hash::Hash> std::hash::Hash for Arc<T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (**self).hash(h) } }
impl<T> fmt::Pointer for Arc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Pointer::fmt(&Self::as_ptr(self), f) } }
impl<T> From<Box<T>> for Arc<T> { fn from(b: Box<T>) -> Self { Arc::new(*b) } }
