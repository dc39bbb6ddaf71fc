//! Minimal stackful coroutines (x86_64 System V).
use std::arch::global_asm;

global_asm!(
    ".global rcsim_switch",
    "rcsim_switch:",
    "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
    "ret",
);
extern "C" {
    fn rcsim_switch(save: *mut usize, to: usize);
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
pub const STACK: usize = 512 * 1024;

#[derive(Clone, Copy)]
pub struct Stack { top: usize }
impl Stack {
    pub fn new() -> Stack {
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let p = mmap(std::ptr::null_mut(), STACK + 4096, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(p as isize != -1, "stack mmap failed");
            mprotect(p, 4096, 0);
            Stack { top: p as usize + STACK + 4096 }
        }
    }
    /// Prepares a stack on which `entry` starts when first switched to; returns the initial sp.
    pub fn prepare(&self, entry: extern "C" fn() -> !) -> usize {
        unsafe {
            let top = self.top & !15;
            *((top - 8) as *mut usize) = 0;
            *((top - 16) as *mut usize) = entry as usize;
            for i in 0..6 { *((top - 24 - 8 * i) as *mut usize) = 0; }
            top - 16 - 48
        }
    }
}
/// # Safety
/// `to` must come from `prepare` or an earlier switch.
#[inline(always)]
pub unsafe fn switch(save: &mut usize, to: usize) { rcsim_switch(save as *mut usize, to) }
