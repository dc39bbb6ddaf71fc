//! Element types. Each reports clone and drop to the world.
use crate::world::{self, ItemRef};
use std::cmp::Ordering;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};

pub trait Item: Clone + Ord + Hash + Debug + 'static {
    /// what comparisons look at
    fn key(&self) -> u32;
    /// an item that is not even equal to itself
    fn odd(&self) -> bool { false }
    const ZST: bool;
    const HASID: bool;
    fn make(id: u32, val: u32) -> Self;
    /// id recovered from the bytes (HASID types), None if the bytes are not a valid item
    fn ident(&self) -> Option<u32>;
    /// do the bytes match the item (id, val)?
    fn matches(&self, id: u32, val: u32) -> bool;
    fn set(&mut self, id: u32, val: u32);
}
fn chk(id: u32, val: u32) -> u32 { (simrt::rng::mix((id as u64) << 32 | val as u64) >> 16) as u32 | 1 }

macro_rules! callbacks { ($t:ident) => {
    impl $t {
        fn look(&self) { world::on_item_look(ItemRef { addr: self as *const _ as usize, size: std::mem::size_of::<$t>(), hasid: <$t as Item>::HASID, id: self.ident() }); }
    }
    impl PartialEq for $t { fn eq(&self, o: &$t) -> bool { self.look(); self.key() == o.key() && !self.odd() } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { self.look(); if self.odd() || o.odd() { None } else { Some(self.key().cmp(&o.key())) } } }
    impl Ord for $t { fn cmp(&self, o: &$t) -> Ordering { self.look(); self.key().cmp(&o.key()) } }
    impl Hash for $t {
        fn hash<H: Hasher>(&self, h: &mut H) { self.look(); h.write_u32(self.key()) }
        fn hash_slice<H: Hasher>(d: &[$t], h: &mut H) {
            // like the integers, some feed a slice of themselves at once
            if std::mem::size_of::<$t>() == 1 { let mut b = Vec::new(); for x in d { x.look(); b.push(x.key() as u8); } h.write(&b); }
            else { for x in d { x.hash(h); } }
        }
    }
    impl Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.look(); write!(f, "<{}>", self.key()) } }
    impl Drop for $t {
        fn drop(&mut self) {
            let r = ItemRef { addr: self as *const _ as usize, size: std::mem::size_of::<$t>(), hasid: <$t as Item>::HASID, id: self.ident() };
            world::on_item_drop(r);
        }
    }
    impl Clone for $t {
        fn clone(&self) -> Self {
            let r = ItemRef { addr: self as *const _ as usize, size: std::mem::size_of::<$t>(), hasid: <$t as Item>::HASID, id: self.ident() };
            let (id, val) = world::on_item_clone(r);
            <$t as Item>::make(id, val)
        }
    }
} }
macro_rules! wide { ($t:ident, $($attr:tt)*) => {
    $($attr)*
    pub struct $t { id: u32, val: u32, chk: u32 }
    impl Item for $t {
        const ZST: bool = false;
        const HASID: bool = true;
        fn make(id: u32, val: u32) -> Self { $t { id, val, chk: chk(id, val) } }
        fn ident(&self) -> Option<u32> { if self.chk == chk(self.id, self.val) { Some(self.id) } else { None } }
        fn key(&self) -> u32 { self.val % 5 }
        fn odd(&self) -> bool { std::mem::align_of::<$t>() == 16 && self.val % 5 == 4 }
        fn matches(&self, id: u32, val: u32) -> bool { self.id == id && self.val == val && self.chk == chk(id, val) }
        fn set(&mut self, id: u32, val: u32) { self.id = id; self.val = val; self.chk = chk(id, val); }
    }
    callbacks!($t);
} }
wide!(T12, #[repr(C)]);
wide!(T16, #[repr(C, align(16))]);
wide!(T64, #[repr(C, align(64))]);
macro_rules! byte { ($t:ident, $u:ty) => {
    #[repr(transparent)]
    pub struct $t($u);
    impl Item for $t {
        const ZST: bool = false;
        const HASID: bool = false;
        fn make(id: u32, val: u32) -> Self { $t(chk(id, val) as $u) }
        fn ident(&self) -> Option<u32> { None }
        fn key(&self) -> u32 { self.0 as u32 % 5 }
        fn matches(&self, id: u32, val: u32) -> bool { self.0 == chk(id, val) as $u }
        fn set(&mut self, id: u32, val: u32) { self.0 = chk(id, val) as $u; }
    }
    callbacks!($t);
} }
byte!(T1, u8);
macro_rules! zst { ($t:ident, $($attr:tt)*) => {
    $($attr)*
    pub struct $t;
    impl Item for $t {
        const ZST: bool = true;
        const HASID: bool = false;
        fn make(_: u32, _: u32) -> Self { $t }
        fn ident(&self) -> Option<u32> { None }
        fn key(&self) -> u32 { 0 }
        fn matches(&self, _: u32, _: u32) -> bool { self as *const _ as usize % std::mem::align_of::<$t>() == 0 }
        fn set(&mut self, _: u32, _: u32) {}
    }
    callbacks!($t);
} }
zst!(Z1, #[repr(C)]);
zst!(Z32, #[repr(C, align(32))]);
pub const ITEM_NAMES: [&str; 6] = ["T12", "T1", "Z1", "T64", "Z32", "T16"];
