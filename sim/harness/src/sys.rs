//! The few system calls the supervisor needs.
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
pub fn shared(words: usize) -> &'static mut [u64] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), words * 8, 3, 0x1 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "shared mmap failed");
        std::slice::from_raw_parts_mut(p as *mut u64, words)
    }
}
/// Runs `f` in a child process; returns its pid.
pub fn spawn(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let p = fork();
        assert!(p >= 0, "fork failed");
        if p == 0 {
            prctl(1, 9, 0, 0, 0); // die with the supervisor
            let z = [0u64, 0];
            setrlimit(4, &z); // no core files
            let c = f();
            _exit(c);
        }
        p
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Exit(i32), Signal(i32) }
fn decode(st: i32) -> End { if st & 0x7f == 0 { End::Exit(st >> 8 & 0xff) } else { End::Signal(st & 0x7f) } }
/// Some(end) if the child ended.
pub fn poll(pid: i32) -> Option<End> {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 1) };
    if r == pid { Some(decode(st)) } else { None }
}
pub fn kill9(pid: i32) { unsafe { kill(pid, 9); } }
pub fn reap(pid: i32) -> End { let mut st = 0; unsafe { waitpid(pid, &mut st, 0); } decode(st) }
/// CPU time a process has used, in clock ticks (1/100 s).
pub fn cpu_ticks(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let t = match s.rfind(')') { Some(i) => &s[i + 2..], None => return 0 };
    let f: Vec<&str> = t.split(' ').collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}
