//! Symbolic-input API used by the harnesses.
//!
//! Under the symbolic engine (`symx`) the `sym_*` functions below stay undefined and are
//! implemented by the engine.  With the `native` feature they are implemented here: inputs come
//! from the replay file named by `SYM_INPUT`, so that a model found by the solver runs against
//! the real, natively compiled code.

extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_concretize(v: u64) -> u64;
    fn sym_panic_ok(v: bool);
    fn sym_stub_fmt(v: bool);
    fn sym_harness(p: *mut u8, cap: usize) -> usize;
}

/// fill with fresh symbolic bytes
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
#[inline(always)]
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
#[inline(always)]
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
#[inline(always)]
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
#[inline(always)]
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
#[inline(always)]
pub fn i8() -> i8 {
    u8() as i8
}
#[inline(always)]
pub fn i16() -> i16 {
    u16() as i16
}
#[inline(always)]
pub fn i32() -> i32 {
    u32() as i32
}
#[inline(always)]
pub fn i64() -> i64 {
    u64() as i64
}
#[inline(always)]
pub fn bool() -> bool {
    u8() & 1 == 1
}
/// symbolic value in 0..n, then one path per value
#[inline(always)]
pub fn choose(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    concretize(v as u64) as u8
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// the property: `id` names the assertion inside its harness
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { sym_check(c, id) }
}
/// reachability witness
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
/// from here on a panic ends the path without being a violation
#[inline(always)]
pub fn panic_ok(v: bool) {
    unsafe { sym_panic_ok(v) }
}
/// off: `core::fmt` is executed symbolically instead of being replaced by an empty writer
#[inline(always)]
pub fn stub_fmt(v: bool) {
    unsafe { sym_stub_fmt(v) }
}

/// name of the harness to run
pub fn harness() -> String {
    let mut b = [0u8; 64];
    let n = unsafe { sym_harness(b.as_mut_ptr(), b.len()) };
    std::str::from_utf8(&b[..n]).unwrap_or("").to_string()
}

/// entry points: `symx_entry` for the engine, `main` for native replay
#[macro_export]
macro_rules! entry {
    ($run:ident) => {
        #[no_mangle]
        pub extern "C" fn symx_entry() {
            let n = $crate::harness();
            if !$run(&n) {
                std::process::abort();
            }
        }
        fn main() {
            symx_entry();
            $crate::finished();
        }
    };
}
/// dispatch by name over free functions
#[macro_export]
macro_rules! dispatch {
    ($n:expr, $($name:ident),* $(,)?) => {
        match $n {
            $(stringify!($name) => { $name(); true })*
            _ => false,
        }
    };
}

#[cfg(not(feature = "native"))]
pub fn finished() {}

#[cfg(feature = "native")]
pub use native::finished;

#[cfg(feature = "native")]
mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

    static POS: AtomicUsize = AtomicUsize::new(0);
    static PANIC_OK: AtomicBool = AtomicBool::new(false);
    static CHECKS: AtomicU64 = AtomicU64::new(0);
    static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

    struct Limited;
    unsafe impl GlobalAlloc for Limited {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            guard(l.size());
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            guard(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            guard(n);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Limited = Limited;

    fn guard(n: usize) {
        if n > LIMIT.load(SeqCst) {
            LIMIT.store(usize::MAX, SeqCst);
            println!("SYM-HUGE-ALLOC {n}");
            std::process::exit(102);
        }
    }
    fn input() -> &'static Vec<u8> {
        use std::sync::Once;
        static ONCE: Once = Once::new();
        static mut IN: Vec<u8> = Vec::new();
        unsafe {
            ONCE.call_once(|| {
                if let Ok(p) = std::env::var("SYM_INPUT") {
                    IN = std::fs::read(p).expect("replay input");
                }
                let lim = std::env::var("SYM_ALLOC_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(1usize << 20);
                let hook = std::panic::take_hook();
                std::panic::set_hook(Box::new(move |i| {
                    LIMIT.store(usize::MAX, SeqCst);
                    hook(i);
                    if PANIC_OK.load(SeqCst) {
                        println!("SYM-PANIC-OK");
                        std::process::exit(0);
                    }
                    println!("SYM-PANIC {i}");
                    std::process::exit(101);
                }));
                LIMIT.store(lim, SeqCst);
            });
            &*std::ptr::addr_of!(IN)
        }
    }
    #[no_mangle]
    extern "C" fn sym_bytes(p: *mut u8, n: usize) {
        let i = input();
        let pos = POS.fetch_add(n, SeqCst);
        for k in 0..n {
            unsafe { *p.add(k) = i.get(pos + k).copied().unwrap_or(0) }
        }
    }
    #[no_mangle]
    extern "C" fn sym_assume(c: bool) {
        input();
        if !c {
            println!("SYM-ASSUME-FAILED");
            std::process::exit(77);
        }
    }
    #[no_mangle]
    extern "C" fn sym_check(c: bool, id: u32) {
        input();
        CHECKS.fetch_add(1, SeqCst);
        if !c {
            LIMIT.store(usize::MAX, SeqCst);
            println!("SYM-CHECK-FAILED {id}");
            std::process::exit(100);
        }
    }
    #[no_mangle]
    extern "C" fn sym_cover(_id: u32) {}
    #[no_mangle]
    extern "C" fn sym_concretize(v: u64) -> u64 {
        v
    }
    #[no_mangle]
    extern "C" fn sym_panic_ok(v: bool) {
        input();
        PANIC_OK.store(v, SeqCst)
    }
    #[no_mangle]
    extern "C" fn sym_stub_fmt(_v: bool) {}
    #[no_mangle]
    extern "C" fn sym_harness(p: *mut u8, cap: usize) -> usize {
        let n = std::env::args().nth(1).unwrap_or_default();
        assert!(n.len() <= cap);
        unsafe { std::ptr::copy_nonoverlapping(n.as_ptr(), p, n.len()) };
        n.len()
    }

    pub fn finished() {
        LIMIT.store(usize::MAX, SeqCst);
        println!("SYM-OK checks={}", CHECKS.load(SeqCst));
    }
}
