//! Interface to the engine (symbolic run) or to the replay binary (native run).
#![allow(dead_code)]
extern "C" {
    fn vh_any(p: *mut u8, n: usize);
    fn vh_assume(c: bool);
    fn vh_check(c: bool, p: *const u8, n: usize);
    fn vh_cover(p: *const u8, n: usize);
    fn vh_fork(v: u64) -> u64;
    fn vh_param(i: u64) -> u64;
    fn vh_obs(p: *const u8, n: usize);
    fn vh_file(p: *const u8, n: usize, q: *const u8, l: usize);
}

/// N unconstrained bytes
#[inline(always)]
pub fn any<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; unsafe { vh_any(b.as_mut_ptr(), N) }; b }
#[inline(always)]
pub fn fill(b: &mut [u8]) { unsafe { vh_any(b.as_mut_ptr(), b.len()) } }
#[inline(always)]
pub fn byte() -> u8 { any::<1>()[0] }
/// restrict the inputs explored
#[inline(always)]
pub fn assume(c: bool) { unsafe { vh_assume(c) } }
/// the property: must hold on every path for every value
#[inline(always)]
pub fn check(c: bool, m: &'static str) { unsafe { vh_check(c, m.as_ptr(), m.len()) } }
/// a place that must be reachable (guards against vacuous runs)
#[inline(always)]
pub fn cover(m: &'static str) { unsafe { vh_cover(m.as_ptr(), m.len()) } }
/// split the exploration into one path per value
#[inline(always)]
pub fn fork(v: u64) -> u64 { unsafe { vh_fork(v) } }
/// bound given on the command line
#[inline(always)]
pub fn param(i: u64) -> u64 { unsafe { vh_param(i) } }
/// observable output, compared between engine and native execution
#[inline(always)]
pub fn obs(b: &[u8]) { unsafe { vh_obs(b.as_ptr(), b.len()) } }
pub fn obs64(v: u64) { obs(&v.to_le_bytes()) }

/// the only file there is (natively: in a scratch directory that is the current one)
pub fn file(name: &str, content: &[u8]) { unsafe { vh_file(name.as_ptr(), name.len(), content.as_ptr(), content.len()) } }

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() $b )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
    };
}
