//! `core` as seen by the library under simulation: everything real except atomics and spin hints.
#![no_std]
pub use ::core::*;
pub mod hint {
    pub use ::core::hint::*;
    pub fn spin_loop() { simrt::atomics::spin_hint() }
}
pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::Ordering;
        use ::core::fmt;
        use ::core::marker::PhantomData;
        use simrt::atomics::Cell64;
        use Ordering::*;

        pub fn fence(o: Ordering) { simrt::atomics::fence(o) }
        pub fn compiler_fence(_o: Ordering) {}
        #[allow(deprecated)]
        pub fn spin_loop_hint() { simrt::atomics::spin_hint() }

        fn strongest_failure(o: Ordering) -> Ordering {
            match o { Release => Relaxed, Relaxed => Relaxed, SeqCst => SeqCst, Acquire => Acquire, AcqRel => Acquire, _ => SeqCst }
        }

        macro_rules! common {
            ($name:ident [$($g:ident)?], $t:ty, $to:expr, $from:expr) => {
                unsafe impl$(<$g>)? Send for $name$(<$g>)? {}
                unsafe impl$(<$g>)? Sync for $name$(<$g>)? {}
                impl$(<$g>)? $name$(<$g>)? {
                    pub fn load(&self, o: Ordering) -> $t { $from(self.0.load(o)) }
                    pub fn store(&self, v: $t, o: Ordering) { self.0.store($to(v), o) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { $from(self.0.rmw(o, Relaxed, false, |_| Some($to(v))).unwrap_or_else(|e| e)) }
                    pub fn compare_and_swap(&self, cur: $t, new: $t, o: Ordering) -> $t {
                        match self.compare_exchange(cur, new, o, strongest_failure(o)) { Ok(x) => x, Err(x) => x }
                    }
                    pub fn compare_exchange(&self, cur: $t, new: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.0.rmw(s, f, false, |v| if v == $to(cur) { Some($to(new)) } else { None }).map($from).map_err($from)
                    }
                    pub fn compare_exchange_weak(&self, cur: $t, new: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.0.rmw(s, f, true, |v| if v == $to(cur) { Some($to(new)) } else { None }).map($from).map_err($from)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut prev = self.load(fetch);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange_weak(prev, next, set, fetch) { Ok(x) => return Ok(x), Err(p) => prev = p }
                        }
                        Err(prev)
                    }
                    pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, set: Ordering, fetch: Ordering, f: F) -> Result<$t, $t> { self.fetch_update(set, fetch, f) }
                    pub fn update<F: FnMut($t) -> $t>(&self, set: Ordering, fetch: Ordering, mut f: F) -> $t {
                        match self.fetch_update(set, fetch, |v| Some(f(v))) { Ok(v) => v, Err(v) => v }
                    }
                    pub fn into_inner(self) -> $t { $from(self.0.peek()) }
                }
                impl$(<$g>)? fmt::Debug for $name$(<$g>)? { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Relaxed), f) } }
                impl$(<$g>)? From<$t> for $name$(<$g>)? { fn from(v: $t) -> Self { Self::new(v) } }
            };
        }

        #[repr(transparent)]
        pub struct AtomicBool(Cell64);
        impl AtomicBool {
            pub const fn new(v: bool) -> Self { Self(Cell64::new(v as u64)) }
            pub fn get_mut(&mut self) -> &mut bool { unsafe { &mut *(self.0.get_mut() as *mut u64 as *mut bool) } }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.0.rmw(o, Relaxed, false, |c| Some(c & v as u64)).unwrap_or(0) != 0 }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.0.rmw(o, Relaxed, false, |c| Some(c | v as u64)).unwrap_or(0) != 0 }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.0.rmw(o, Relaxed, false, |c| Some(c ^ v as u64)).unwrap_or(0) != 0 }
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { self.0.rmw(o, Relaxed, false, |c| Some(1 ^ (c & v as u64))).unwrap_or(0) != 0 }
            pub fn fetch_not(&self, o: Ordering) -> bool { self.fetch_xor(true, o) }
        }
        impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
        common!(AtomicBool [], bool, |v: bool| v as u64, |v: u64| v & 1 != 0);

        #[repr(transparent)]
        pub struct AtomicPtr<T>(Cell64, PhantomData<*mut T>);
        impl<T> AtomicPtr<T> {
            pub const fn new(p: *mut T) -> Self {
                // a pointer cannot be cast to an integer in const context; transmute through a union
                union U<T> { p: *mut T, u: u64 }
                Self(Cell64::new(unsafe { U { p }.u }), PhantomData)
            }
            pub fn get_mut(&mut self) -> &mut *mut T { unsafe { &mut *(self.0.get_mut() as *mut u64 as *mut *mut T) } }
        }
        impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::core::ptr::null_mut()) } }
        common!(AtomicPtr [T], *mut T, |v: *mut T| v as usize as u64, |v: u64| v as usize as *mut T);

        macro_rules! ints { ($($name:ident $t:ty;)*) => { $(
            #[repr(transparent)]
            pub struct $name(Cell64);
            impl $name {
                pub const fn new(v: $t) -> Self { Self(Cell64::new(v as u64)) }
                pub fn get_mut(&mut self) -> &mut $t { unsafe { &mut *(self.0.get_mut() as *mut u64 as *mut $t) } }
                fn op(&self, o: Ordering, f: impl FnOnce($t) -> $t) -> $t { self.0.rmw(o, Relaxed, false, |c| Some(f(c as $t) as u64)).unwrap_or_else(|e| e) as $t }
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| c.wrapping_add(v)) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| c.wrapping_sub(v)) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| c & v) }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| !(c & v)) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| c | v) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| c ^ v) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| c.max(v)) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.op(o, |c| c.min(v)) }
            }
            impl Default for $name { fn default() -> Self { Self::new(0) } }
            common!($name [], $t, |v: $t| v as u64, |v: u64| v as $t);
        )* } }
        ints! { AtomicUsize usize; AtomicIsize isize; AtomicU8 u8; AtomicI8 i8; AtomicU16 u16; AtomicI16 i16; AtomicU32 u32; AtomicI32 i32; AtomicU64 u64; AtomicI64 i64; }
    }
}
