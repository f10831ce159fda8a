//! Runtime shared by the harnesses: symbolic primitives (intercepted by the engine) or, with feature `native`, their
//! concrete counterparts reading the input bytes from a file.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u64);
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_reach(id: u64);
        pub fn sym_observe(p: *const u8, n: usize);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_dbg(v: u64);
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub struct St {
        pub inp: Vec<u8>,
        pub at: usize,
        pub obs: u64,
    }
    pub static ST: Mutex<St> = Mutex::new(St { inp: vec![], at: 0, obs: 0xcbf2_9ce4_8422_2325 });
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        let mut s = ST.lock().unwrap();
        for i in 0..n {
            let b = s.inp.get(s.at).copied().unwrap_or(0);
            s.at += 1;
            *p.add(i) = b;
        }
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            println!("ASSUME-FALSE");
            std::process::exit(42);
        }
    }
    pub unsafe fn sym_assert(c: bool, id: u64) {
        if !c {
            println!("ASSERT-FAILED {id}");
            std::process::exit(1);
        }
    }
    pub unsafe fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub unsafe fn sym_reach(_id: u64) {}
    pub unsafe fn sym_observe(p: *const u8, n: usize) {
        let mut s = ST.lock().unwrap();
        for i in 0..n {
            s.obs = (s.obs ^ *p.add(i) as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    pub unsafe fn sym_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_dbg(_v: u64) {}
    pub fn main(table: &[(&str, extern "C" fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let f = table.iter().find(|t| t.0 == a[1]).expect("harness").1;
        let hex = &a[2];
        ST.lock().unwrap().inp =
            (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        f();
        println!("OK {:016x}", ST.lock().unwrap().obs);
    }
}

#[cfg(feature = "native")]
pub use imp::main as native_main;

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { imp::sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn fill(b: &mut [u8]) {
    unsafe { imp::sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn byte() -> u8 {
    bytes::<1>()[0]
}
/// A symbolic number below `n`, concretised (one path per value).
pub fn choose(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    conc(b as u64) as u8
}
/// A symbolic number below `n`.
pub fn below(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    b
}
pub fn flag() -> bool {
    let b = byte();
    assume(b < 2);
    b == 1
}
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c) }
}
pub fn check(c: bool, id: u64) {
    unsafe { imp::sym_assert(c, id) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { imp::sym_ite(c, a, b) }
}
pub fn reach(id: u64) {
    unsafe { imp::sym_reach(id) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { imp::sym_concretize(v) }
}
pub fn dbg(v: u64) {
    unsafe { imp::sym_dbg(v) }
}
pub fn obs(b: &[u8]) {
    unsafe { imp::sym_observe(b.as_ptr(), b.len()) }
}
pub fn obs1(b: u64) {
    obs(&b.to_le_bytes()[..])
}

/// Print a description of the input (native replay only).
pub fn show(_what: &str, _v: &dyn std::fmt::Debug) {
    #[cfg(feature = "native")]
    if std::env::var_os("SHOW").is_some() {
        println!("{_what}: {_v:?}");
    }
}
/// Is `b` in `set`? (without branching)
pub fn is_in(b: u8, set: &[u8]) -> bool {
    let mut r = false;
    for x in set {
        r |= b == *x;
    }
    r
}
/// A symbolic byte of `set`.
pub fn among(set: &[u8]) -> u8 {
    let b = byte();
    assume(is_in(b, set));
    b
}
pub fn alpha(b: u8) -> bool {
    let l = b | 0x20;
    (l >= b'a') & (l <= b'z')
}
pub fn digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
}
pub fn alnum(b: u8) -> bool {
    alpha(b) | digit(b)
}
pub fn lower(b: u8) -> u8 {
    let up = (b >= b'A') & (b <= b'Z');
    b | ((up as u8) << 5)
}
pub const WS: &[u8] = b" \t\n\x0C\r";
/// Append a symbolic well-formed UTF-8 string of exactly `n` bytes.
pub fn utf8(out: &mut Vec<u8>, n: usize) {
    let s = out.len();
    for _ in 0..n {
        out.push(byte());
    }
    let cont = |b: u8| (b & 0xC0) == 0x80;
    let mut i = s;
    let e = s + n;
    while i < e {
        let b = out[i];
        if b < 0x80 {
            i += 1;
        } else if b < 0xE0 {
            assume((b >= 0xC2) & (i + 2 <= e));
            assume(cont(out[i + 1]));
            i += 2;
        } else if b < 0xF0 {
            assume(i + 3 <= e);
            let c = out[i + 1];
            assume(cont(c) & ((b != 0xE0) | (c >= 0xA0)) & ((b != 0xED) | (c < 0xA0)));
            assume(cont(out[i + 2]));
            i += 3;
        } else {
            assume((b <= 0xF4) & (i + 4 <= e));
            let c = out[i + 1];
            assume(cont(c) & ((b != 0xF0) | (c >= 0x90)) & ((b != 0xF4) | (c < 0x90)));
            assume(cont(out[i + 2]));
            assume(cont(out[i + 3]));
            i += 4;
        }
    }
}
/// The bytes (well-formed UTF-8) as text; the caller keeps them alive.
pub fn st(v: &[u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(v.as_ptr(), v.len())) }
}
/// Byte-wise equality without branching on the contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
/// Equality up to ASCII letter case, without branching on the contents.
pub fn same_nocase(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= lower(a[i]) == lower(b[i]);
    }
    r
}

#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        #[cfg(feature = "native")]
        fn main() {
            rt::native_main(&[$((stringify!($n), $n as extern "C" fn())),*]);
        }
        #[cfg(not(feature = "native"))]
        fn main() {
            $($n();)*
        }
    };
}
