//! Statistics and coordination shared between forked workers.
use std::sync::atomic::*;

#[repr(C)]
pub struct Shared {
    pub free: AtomicI32,
    pub stop: AtomicI32,
    pub error: AtomicI32,
    pub viol: AtomicU64,
    pub paths: AtomicU64,
    pub killed: AtomicU64,
    pub states: AtomicU64,
    pub insns: AtomicU64,
    pub asserts: AtomicU64,
    pub queries: AtomicU64,
    pub nanos: AtomicU64,
    pub forks: AtomicU64,
    pub deadline: AtomicU64,
    pub maxrss: AtomicU64,
    pub reach: [AtomicU64; 16],
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

impl Shared {
    pub fn new(workers: i32, secs: u64) -> &'static Shared {
        let s = unsafe {
            let p = mmap(std::ptr::null_mut(), 8192, 3, 0x21, -1, 0);
            assert!(p as isize != -1);
            &*(p as *const Shared)
        };
        s.free.store(workers - 1, Ordering::SeqCst);
        s.deadline.store(now() + secs * 1000, Ordering::SeqCst);
        s
    }
    pub fn overdue(&self) -> bool {
        now() > self.deadline.load(Ordering::Relaxed)
    }
    pub fn reach(&self, k: u64) {
        if k < 1024 {
            self.reach[(k >> 6) as usize].fetch_or(1 << (k & 63), Ordering::Relaxed);
        }
    }
}
