//! Symbols defined by this executable that take the place of libc's, so that std and parking_lot reach the
//! simulator; calls from threads that are not simulated go to the kernel unchanged.
use crate::sched::*;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    on_edge(unsafe { *g });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    unsafe {
        if s == e || *s != 0 {
            return;
        }
        let n = e.offset_from(s);
        for i in 0..n {
            N_GUARDS += 1;
            *s.offset(i) = N_GUARDS;
        }
    }
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if current().is_some() {
        if n == 202 {
            return ret(sim_futex(b as i32, a, c as u32, d as *const libc::timespec, f as u32));
        }
        if n == 318 {
            sim_entropy(std::slice::from_raw_parts_mut(a as *mut u8, b));
            return b as i64;
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if current().is_some() {
        let t = sim_now();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw_syscall(228, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if current().is_some() {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw_syscall(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if current().is_some() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let t = if flags & 1 != 0 { t.saturating_sub(sim_now()) } else { t };
        sim_sleep(t);
        return 0;
    }
    -(raw_syscall(230, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32)
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if current().is_some() {
        sim_yield();
    } else {
        unsafe { raw_syscall(24, 0, 0, 0, 0, 0, 0) };
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, flags: u32) -> isize {
    if current().is_some() {
        sim_entropy(std::slice::from_raw_parts_mut(b, n));
        return n as isize;
    }
    ret(raw_syscall(318, b as usize, n, flags as usize, 0, 0, 0)) as isize
}

/// one processor: the number of shards of the concurrent maps does not depend on the machine
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, n: usize, m: *mut u8) -> i32 {
    for i in 0..n {
        *m.add(i) = 0;
    }
    *m = 1;
    0
}

/// disk faults for the snapshot loader: the n-th call of the simulated thread fails
#[cfg(feature = "snap")]
pub mod disk {
    use super::*;
    use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    pub static OPEN: AtomicI64 = AtomicI64::new(-1);
    pub static DIR: AtomicI64 = AtomicI64::new(-1);
    pub static MAP: AtomicI64 = AtomicI64::new(-1);
    pub static READ: AtomicI64 = AtomicI64::new(-1);
    pub static HIT: AtomicI64 = AtomicI64::new(0);

    pub fn disarm() {
        for x in [&OPEN, &DIR, &MAP, &READ] {
            x.store(-1, SeqCst);
        }
    }
    fn due(x: &AtomicI64, errno: i32) -> bool {
        if current().is_none() || x.load(SeqCst) < 0 || x.fetch_sub(1, SeqCst) != 0 {
            return false;
        }
        HIT.fetch_add(1, SeqCst);
        unsafe { *libc::__errno_location() = errno };
        true
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
        if due(&OPEN, libc::EMFILE) {
            return -1;
        }
        ret(raw_syscall(257, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
        if due(&READ, libc::EIO) {
            return -1;
        }
        ret(raw_syscall(0, fd as usize, b as usize, n, 0, 0, 0)) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 {
        if due(&MAP, libc::ENOMEM) {
            return usize::MAX as *mut u8;
        }
        ret(raw_syscall(9, a as usize, n, prot as usize, flags as usize, fd as usize, off as usize)) as *mut u8
    }
    #[no_mangle]
    pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
        if due(&DIR, libc::EIO) {
            return std::ptr::null_mut();
        }
        type F = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
        static REAL: AtomicI64 = AtomicI64::new(0);
        if REAL.load(SeqCst) == 0 {
            REAL.store(libc::dlsym(libc::RTLD_NEXT, b"readdir64\0".as_ptr() as *const libc::c_char) as i64, SeqCst);
        }
        let f: F = std::mem::transmute(REAL.load(SeqCst));
        f(d)
    }
}

/// the global allocator, counting the bytes in use
pub struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub fn live_bytes() -> i64 {
    LIVE.load(std::sync::atomic::Ordering::Relaxed)
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
