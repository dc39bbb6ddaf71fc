//! Port of std's Rc/Weak with liveness checks on every use.
use crate::arena;
use crate::rt::{rt, S_ARC_NEW};
use std::borrow::Borrow;
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;
use std::mem::{self, ManuallyDrop, MaybeUninit};
use std::ops::Deref;
use std::pin::Pin;
use std::ptr::{self, NonNull};

const MAGIC: u32 = 0x51AC_0C0C;
const ALIVE: u8 = 1;
const GONE: u8 = 2;
const NASCENT: u8 = 3;
const DANGLING: usize = usize::MAX & !63;

#[repr(C)]
pub(crate) struct Inner<T> { magic: u32, state: Cell<u8>, strong: Cell<usize>, weak: Cell<usize>, last: Cell<(usize, u32)>, data: T }
pub struct Rc<T> { ptr: NonNull<Inner<T>>, phantom: PhantomData<Inner<T>> }
pub struct Weak<T> { ptr: NonNull<Inner<T>> }
impl<T> Unpin for Rc<T> {}
impl<T: std::panic::RefUnwindSafe> std::panic::UnwindSafe for Rc<T> {}

#[cold]
fn fail(msg: String) -> ! {
    let r = rt();
    if r.active { r.violate("use-after-free", msg) }
    r.set_violation("use-after-free", msg);
    panic!("violation outside a run");
}
unsafe fn check_inner<T>(p: *const Inner<T>, what: &str) {
    if !rt().active { return; }
    let a = p as usize;
    if a < 4096 || a % mem::align_of::<Inner<T>>() != 0 || (arena::contains(a) && arena::find(a).is_none()) || (!arena::contains(a) && a > 0x7fff_ffff_ffff) || (*p).magic != MAGIC {
        fail(format!("{what}: the reference counted object is not live memory any more"));
    }
}
unsafe fn check_alive<T>(p: *const Inner<T>, what: &str) {
    check_inner(p, what);
    if (*p).state.get() == GONE && rt().active { fail(format!("{what}: the value behind this strong reference was already destroyed")); }
}

/// The counts are plain memory: unordered accesses of two tasks, one of them a change, are a race.
fn count<T>(i: &Inner<T>, write: bool) {
    let r = rt();
    if !r.active { return; }
    let (t, e) = i.last.get();
    if !r.hb(t, e) {
        let c = r.cur;
        r.violate_soft("rc-race", || format!("tasks {t} and {c} use the non-atomic reference count of one object with nothing ordering the two"));
    }
    if write { i.last.set((r.cur, r.epoch())); }
}
impl<T> Rc<T> {
    fn mk(ptr: NonNull<Inner<T>>) -> Self { Rc { ptr, phantom: PhantomData } }
    fn inner(&self) -> &Inner<T> { unsafe { self.ptr.as_ref() } }
    #[inline]
    fn chk(&self, what: &str) { unsafe { check_alive(self.ptr.as_ptr(), what) } }
    fn new_inner(data: T, strong: usize, state: u8) -> NonNull<Inner<T>> {
        rt().stat[S_ARC_NEW] += 1;
        let b = Box::new(Inner { magic: MAGIC, state: Cell::new(state), strong: Cell::new(strong), weak: Cell::new(1), last: Cell::new((rt().cur, rt().epoch())), data });
        unsafe { NonNull::new_unchecked(Box::into_raw(b)) }
    }
    pub fn new(data: T) -> Rc<T> { Self::mk(Self::new_inner(data, 1, ALIVE)) }
    pub fn pin(data: T) -> Pin<Rc<T>> { unsafe { Pin::new_unchecked(Rc::new(data)) } }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Rc<T> {
        let p: NonNull<Inner<T>> = Rc::<MaybeUninit<T>>::new_inner(MaybeUninit::uninit(), 0, NASCENT).cast();
        let w = Weak { ptr: p };
        let data = f(&w);
        unsafe {
            ptr::write(ptr::addr_of_mut!((*p.as_ptr()).data), data);
            (*p.as_ptr()).state.set(ALIVE);
            (*p.as_ptr()).strong.set(1);
        }
        mem::forget(w);
        Self::mk(p)
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        this.chk("Rc::try_unwrap");
        count(this.inner(), true);
        if this.inner().strong.get() == 1 {
            let this = ManuallyDrop::new(this);
            unsafe {
                let val = ptr::read(&this.ptr.as_ref().data);
                this.inner().strong.set(0);
                this.inner().state.set(GONE);
                let _weak = Weak { ptr: this.ptr };
                Ok(val)
            }
        } else { Err(this) }
    }
    pub fn into_inner(this: Self) -> Option<T> { Rc::try_unwrap(this).ok() }
    pub fn unwrap_or_clone(this: Self) -> T where T: Clone { Rc::try_unwrap(this).unwrap_or_else(|a| (*a).clone()) }
    pub fn into_raw(this: Self) -> *const T { this.chk("Rc::into_raw"); let t = ManuallyDrop::new(this); Self::as_ptr(&t) }
    pub fn as_ptr(this: &Self) -> *const T { unsafe { ptr::addr_of!((*this.ptr.as_ptr()).data) } }
    /// # Safety
    /// as std
    pub unsafe fn from_raw(p: *const T) -> Self {
        let a = (p as usize).wrapping_sub(mem::offset_of!(Inner<T>, data)) as *mut Inner<T>;
        check_inner(a, "Rc::from_raw");
        Self::mk(NonNull::new_unchecked(a))
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        this.chk("Rc::downgrade");
        count(this.inner(), true);
        let w = &this.inner().weak;
        w.set(w.get() + 1);
        Weak { ptr: this.ptr }
    }
    pub fn weak_count(this: &Self) -> usize { this.chk("Rc::weak_count"); count(this.inner(), false); this.inner().weak.get() - 1 }
    pub fn strong_count(this: &Self) -> usize { this.chk("Rc::strong_count"); count(this.inner(), false); this.inner().strong.get() }
    /// # Safety
    /// as std
    pub unsafe fn increment_strong_count(p: *const T) { let a = ManuallyDrop::new(Rc::from_raw(p)); let _b: ManuallyDrop<_> = a.clone(); }
    /// # Safety
    /// as std
    pub unsafe fn decrement_strong_count(p: *const T) { drop(Rc::from_raw(p)); }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool { ptr::eq(a.ptr.as_ptr(), b.ptr.as_ptr()) }
    fn is_unique(this: &Self) -> bool { Rc::weak_count(this) == 0 && Rc::strong_count(this) == 1 }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        if Rc::is_unique(this) { unsafe { Some(&mut (*this.ptr.as_ptr()).data) } } else { None }
    }
    pub fn make_mut(this: &mut Self) -> &mut T where T: Clone {
        this.chk("Rc::make_mut");
        if Rc::strong_count(this) != 1 {
            *this = Rc::new((**this).clone());
        } else if Rc::weak_count(this) != 0 {
            unsafe {
                let data = ptr::read(&this.inner().data);
                this.inner().strong.set(0);
                this.inner().state.set(GONE);
                let old = Weak { ptr: this.ptr };
                ptr::write(this, Rc::new(data));
                drop(old);
            }
        }
        unsafe { &mut (*this.ptr.as_ptr()).data }
    }
}
impl<T> Clone for Rc<T> {
    fn clone(&self) -> Self {
        self.chk("Rc::clone");
        count(self.inner(), true);
        let s = &self.inner().strong;
        if s.get() == 0 { fail("Rc::clone on an object whose strong count is zero".into()); }
        s.set(s.get() + 1);
        Self::mk(self.ptr)
    }
}
impl<T> Deref for Rc<T> {
    type Target = T;
    #[inline]
    fn deref(&self) -> &T { self.chk("Rc::deref"); &self.inner().data }
}
impl<T> Drop for Rc<T> {
    fn drop(&mut self) {
        self.chk("Rc::drop");
        count(self.inner(), true);
        let s = &self.inner().strong;
        if s.get() == 0 { fail("Rc strong count dropped below zero".into()); }
        s.set(s.get() - 1);
        if s.get() == 0 {
            unsafe {
                let _weak = Weak { ptr: self.ptr };
                self.inner().state.set(GONE);
                ptr::drop_in_place(&mut (*self.ptr.as_ptr()).data);
            }
        }
    }
}
impl<T> Weak<T> {
    pub const fn new() -> Weak<T> { Weak { ptr: unsafe { NonNull::new_unchecked(DANGLING as *mut Inner<T>) } } }
    fn inner(&self, what: &str) -> Option<&Inner<T>> {
        if self.ptr.as_ptr() as usize == DANGLING { return None; }
        unsafe { check_inner(self.ptr.as_ptr(), what); Some(self.ptr.as_ref()) }
    }
    pub fn upgrade(&self) -> Option<Rc<T>> {
        let i = self.inner("Weak::upgrade")?;
        count(i, true);
        if i.strong.get() == 0 { return None; }
        i.strong.set(i.strong.get() + 1);
        Some(Rc::mk(self.ptr))
    }
    pub fn strong_count(&self) -> usize { self.inner("Weak::strong_count").map_or(0, |i| i.strong.get()) }
    pub fn weak_count(&self) -> usize {
        self.inner("Weak::weak_count").map_or(0, |i| if i.strong.get() > 0 { i.weak.get() - 1 } else { 0 })
    }
    pub fn ptr_eq(&self, o: &Self) -> bool { ptr::eq(self.ptr.as_ptr(), o.ptr.as_ptr()) }
    pub fn as_ptr(&self) -> *const T { (self.ptr.as_ptr() as usize).wrapping_add(mem::offset_of!(Inner<T>, data)) as *const T }
    pub fn into_raw(self) -> *const T { let t = ManuallyDrop::new(self); t.as_ptr() }
    /// # Safety
    /// as std
    pub unsafe fn from_raw(p: *const T) -> Self {
        let a = (p as usize).wrapping_sub(mem::offset_of!(Inner<T>, data));
        if a != DANGLING { check_inner(a as *const Inner<T>, "Weak::from_raw"); }
        Weak { ptr: NonNull::new_unchecked(a as *mut Inner<T>) }
    }
}
impl<T> Clone for Weak<T> {
    fn clone(&self) -> Self {
        if let Some(i) = self.inner("Weak::clone") { count(i, true); i.weak.set(i.weak.get() + 1); }
        Weak { ptr: self.ptr }
    }
}
impl<T> Drop for Weak<T> {
    fn drop(&mut self) {
        let i = match self.inner("Weak::drop") { None => return, Some(i) => i };
        count(i, true);
        if i.weak.get() == 0 { fail("weak count dropped below zero".into()); }
        i.weak.set(i.weak.get() - 1);
        if i.weak.get() == 0 {
            unsafe {
                (*self.ptr.as_ptr()).magic = 0;
                drop(Box::from_raw(self.ptr.as_ptr() as *mut Inner<ManuallyDrop<T>>));
            }
        }
    }
}
impl<T> Default for Weak<T> { fn default() -> Self { Weak::new() } }
impl<T: Default> Default for Rc<T> { fn default() -> Self { Rc::new(T::default()) } }
impl<T> From<T> for Rc<T> { fn from(t: T) -> Self { Rc::new(t) } }
impl<T> AsRef<T> for Rc<T> { fn as_ref(&self) -> &T { self } }
impl<T> Borrow<T> for Rc<T> { fn borrow(&self) -> &T { self } }
impl<T: fmt::Debug> fmt::Debug for Rc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl<T: fmt::Display> fmt::Display for Rc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }
impl<T> fmt::Debug for Weak<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("(Weak)") } }
impl<T: PartialEq> PartialEq for Rc<T> { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl<T: Eq> Eq for Rc<T> {}
impl<T: PartialOrd> PartialOrd for Rc<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { (**self).partial_cmp(&**o) } }
impl<T: Ord> Ord for Rc<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (**self).cmp(&**o) } }
impl<T: std::hash::Hash> std::hash::Hash for Rc<T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (**self).hash(h) } }
impl<T> fmt::Pointer for Rc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Pointer::fmt(&Self::as_ptr(self), f) } }
impl<T> From<Box<T>> for Rc<T> { fn from(b: Box<T>) -> Self { Rc::new(*b) } }
