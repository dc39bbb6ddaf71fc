//! Global allocator. Allocations made by library code (flag `LIB`) or explicitly tagged by the
//! harness come from a checking arena at a fixed address; everything else goes to the system.
use crate::rt::{rt, S_ALLOC, S_REUSED, S_FAULT0, K_REUSE};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

static mut LIB: bool = false;
static mut TAG_BUF: bool = false;
static mut A: Arena = Arena { base: 0, top: 0, blocks: Vec::new(), free: Vec::new(), live_lib: 0, lib_bytes: 0, on_free: None, reuse: false, enabled: false };

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 1 << 32;
const RED: usize = 32;
pub const POISON: u8 = 0x5c;
const FRESH: u8 = 0xa5;
const REDB: u8 = 0xe3;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BState { Live, Freed }
#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub state: BState,
    /// 0 = library allocation; 1 = buffer not yet attributed; n+2 = buffer of store n
    pub owner: u32,
    pub op: u32,
    pub cap: usize,
}
struct Arena {
    base: usize,
    top: usize,
    blocks: Vec<Block>,
    free: Vec<u32>,
    live_lib: usize,
    lib_bytes: usize,
    on_free: Option<fn(u32, usize)>,
    reuse: bool,
    enabled: bool,
}

extern "C" { fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

pub fn init(on_free: fn(u32, usize)) {
    unsafe {
        // MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
        let p = mmap(BASE as *mut u8, SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
        assert!(p as usize == BASE, "arena mmap failed");
        A.base = BASE;
        A.top = BASE + 4096;
        A.on_free = Some(on_free);
        A.blocks.reserve(1 << 12);
        A.enabled = true;
    }
}
pub fn begin(reuse: bool) {
    unsafe {
        A.top = BASE + 4096;
        A.blocks.clear();
        A.free.clear();
        A.live_lib = 0;
        A.lib_bytes = 0;
        A.reuse = reuse;
        LIB = false;
        TAG_BUF = false;
    }
}
#[inline(always)]
pub fn lib_off() -> bool { unsafe { let o = LIB; LIB = false; o } }
#[inline(always)]
pub fn lib_restore(v: bool) { unsafe { LIB = v; } }
#[inline(always)]
pub fn lib_set(v: bool) -> bool { unsafe { let o = LIB; LIB = v; o } }
/// Allocations of the harness that become storage handed to the library.
pub fn tag_buffers(v: bool) { unsafe { TAG_BUF = v; } }

pub fn contains(addr: usize) -> bool { addr >= BASE && addr < BASE + SIZE }
/// The live or freed block whose user area contains (or, for end pointers, ends at) addr.
pub fn find(addr: usize) -> Option<usize> {
    unsafe {
        if !contains(addr) { return None; }
        // newest first: with reuse a block keeps its index
        A.blocks.iter().rposition(|b| addr >= b.addr && addr < b.addr + b.cap.max(1))
    }
}
pub fn is_live(addr: usize, len: usize) -> bool {
    match find(addr) { Some(i) => { let b = block(i); b.state == BState::Live && addr + len <= b.addr + b.size } None => false }
}
pub fn block(i: usize) -> Block { unsafe { A.blocks[i] } }
pub fn set_owner(i: usize, owner: u32) { unsafe { if A.blocks[i].owner == 0 { A.live_lib -= 1; A.lib_bytes -= A.blocks[i].size; } A.blocks[i].owner = owner; } }
/// From now on the library answers for this buffer.
pub fn adopt(i: usize) { unsafe { if A.blocks[i].owner != 0 { A.blocks[i].owner = 0; A.live_lib += 1; A.lib_bytes += A.blocks[i].size; } } }
pub fn live_lib() -> usize { unsafe { A.live_lib } }
pub fn lib_bytes() -> usize { unsafe { A.lib_bytes } }
pub fn live_blocks() -> Vec<Block> { unsafe { A.blocks.iter().filter(|b| b.state == BState::Live).copied().collect() } }

/// End-of-run scan: redzones intact, freed memory not written.
pub fn scan() -> Result<(), String> {
    unsafe {
        for b in &A.blocks {
            check_red(b)?;
            if b.state == BState::Freed && !A.reuse {
                let p = std::slice::from_raw_parts(b.addr as *const u8, b.size);
                if let Some(k) = p.iter().position(|&x| x != POISON) {
                    return Err(format!("write to freed memory at offset {k} of a block of {} bytes", b.size));
                }
            }
        }
        Ok(())
    }
}
unsafe fn check_red(b: &Block) -> Result<(), String> {
    let pre = std::slice::from_raw_parts((b.addr - RED) as *const u8, RED);
    let post = std::slice::from_raw_parts((b.addr + b.size) as *const u8, RED / 2);
    if pre.iter().any(|&x| x != REDB) || post.iter().any(|&x| x != REDB) {
        return Err(format!("write outside a block of {} bytes", b.size));
    }
    Ok(())
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let old = lib_off();
    let r = rt();
    r.stat[S_ALLOC] += 1;
    let owner = if TAG_BUF { 1 } else { 0 };
    if owner == 0 { A.live_lib += 1; A.lib_bytes += l.size(); }
    let op = r.tasks[r.cur].op;
    if !A.reuse && A.top > BASE + SIZE / 16 {
        // a very long history: from here on freed blocks come back, so that the arena suffices
        A.reuse = true;
        A.free = (0..A.blocks.len() as u32).filter(|&i| A.blocks[i as usize].state == BState::Freed).collect();
    }
    if A.reuse {
        // LIFO reuse of a freed block with the same layout: the same address comes back at once
        if let Some(k) = A.free.iter().rposition(|&i| { let b = &A.blocks[i as usize]; b.cap == l.size() && b.align == l.align() }) {
            let i = A.free.remove(k) as usize;
            let b = &mut A.blocks[i];
            b.state = BState::Live;
            b.owner = owner;
            b.op = op;
            r.stat[S_REUSED] += 1;
            r.stat[S_FAULT0 + K_REUSE] += 1;
            let addr = b.addr;
            std::ptr::write_bytes(addr as *mut u8, FRESH, l.size());
            lib_restore(old);
            return addr as *mut u8;
        }
    }
    let align = l.align().max(16);
    let addr = (A.top + RED + align - 1) & !(align - 1);
    let end = addr + l.size() + RED / 2;
    if end > BASE + SIZE { lib_restore(old); return std::ptr::null_mut(); }
    A.top = end;
    std::ptr::write_bytes((addr - RED) as *mut u8, REDB, RED);
    std::ptr::write_bytes(addr as *mut u8, FRESH, l.size());
    std::ptr::write_bytes((addr + l.size()) as *mut u8, REDB, RED / 2);
    A.blocks.push(Block { addr, size: l.size(), align: l.align(), state: BState::Live, owner, op, cap: l.size() });
    lib_restore(old);
    addr as *mut u8
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let old = lib_off();
    let r = rt();
    if !r.active && !A.enabled { lib_restore(old); return; }
    let i = match A.blocks.iter().rposition(|b| b.addr == p as usize) {
        Some(i) => i,
        None => { bad(r, "bad-free", "freeing a pointer that no allocation returned".into()); return; }
    };
    let b = A.blocks[i];
    if b.state == BState::Freed { bad(r, "double-free", format!("memory of {} bytes freed twice", b.size)); return; }
    if b.size != l.size() || b.align != l.align() {
        bad(r, "bad-free-layout", format!("allocated with size {} align {}, freed with size {} align {}", b.size, b.align, l.size(), l.align()));
        return;
    }
    if let Err(e) = check_red(&b) { bad(r, "heap-overflow", e); return; }
    if b.owner >= 2 { if let Some(f) = A.on_free { f(b.owner - 2, b.addr); } }
    if b.owner == 0 { A.live_lib -= 1; A.lib_bytes -= b.size; }
    A.blocks[i].state = BState::Freed;
    std::ptr::write_bytes(p, POISON, b.size);
    if A.reuse { A.free.push(i as u32); }
    lib_restore(old);
}
unsafe fn bad(r: &mut crate::rt::Rt, kind: &'static str, msg: String) {
    if r.active { r.violate(kind, msg) } else { r.set_violation(kind, msg) }
}

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIB || TAG_BUF { arena_alloc(l) } else { System.alloc(l) }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if contains(p as usize) { arena_free(p, l) } else { System.dealloc(p, l) }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if contains(p as usize) {
            // same kind of block as before: a shrinking Vec keeps its storage tag
            let owner = { let o = A.blocks.iter().rposition(|b| b.addr == p as usize); o.map(|i| A.blocks[i].owner) };
            let (lib, tag) = (LIB, TAG_BUF);
            LIB = true;
            TAG_BUF = owner.map_or(tag, |o| o != 0);
            let q = arena_alloc(Layout::from_size_align_unchecked(n, l.align()));
            LIB = lib;
            TAG_BUF = tag;
            if q.is_null() { return q; }
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            arena_free(p, l);
            q
        } else { System.realloc(p, l, n) }
    }
}
