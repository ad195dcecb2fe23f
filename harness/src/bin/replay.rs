//! Native execution of one harness on concrete input bytes:
//!   replay HARNESS HEX [p0,p1,..]
//! exit 0: nothing wrong, 1: a check failed, 101: panic; prints OBS <hex>.
#![allow(unexpected_cfgs)]
#[path = "../h/mod.rs"]
pub mod h;

use std::cell::RefCell;
struct S { input: Vec<u8>, pos: usize, params: Vec<u64>, obs: Vec<u8>, failed: bool }
thread_local!(static ST: RefCell<S> = RefCell::new(S { input: vec![], pos: 0, params: vec![], obs: vec![], failed: false }));

fn text(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned() }
fn end(code: i32) -> ! {
    ST.with(|s| { let s = s.borrow(); println!("OBS {}", s.obs.iter().map(|b| format!("{b:02x}")).collect::<String>()); });
    clean();
    std::process::exit(code)
}

#[no_mangle]
extern "C" fn vh_any(p: *mut u8, n: usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for i in 0..n {
            let b = s.input.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            unsafe { *p.add(i) = b };
        }
    })
}
#[no_mangle]
extern "C" fn vh_assume(c: bool) {
    // the input of a failure ends where it failed: what follows is made up, and says nothing against the failure
    if !c { println!("ASSUME-FALSE"); end(if ST.with(|s| s.borrow().failed) { 1 } else { 3 }) }
}
#[no_mangle]
extern "C" fn vh_check(c: bool, p: *const u8, n: usize) {
    trail(0xCC, p, n);
    if !c { println!("CHECK-FAILED {}", text(p, n)); ST.with(|s| s.borrow_mut().failed = true); }
}
#[no_mangle]
extern "C" fn vh_cover(p: *const u8, n: usize) { trail(0xC0, p, n) }
/// which checks and covers were passed, in order: part of what engine and native run must agree on
fn trail(k: u8, p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    ST.with(|s| s.borrow_mut().obs.extend_from_slice(&[k, n as u8, b.first().copied().unwrap_or(0)]))
}
#[no_mangle]
extern "C" fn vh_fork(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn vh_param(i: u64) -> u64 { ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0)) }
#[no_mangle]
extern "C" fn vh_obs(p: *const u8, n: usize) { ST.with(|s| s.borrow_mut().obs.extend_from_slice(unsafe { std::slice::from_raw_parts(p, n) })) }

/// a directory of its own for the one file a harness may ask for
static SCRATCH: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
fn clean() { if let Some(d) = SCRATCH.get() { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(d); } }
#[no_mangle]
extern "C" fn vh_file(p: *const u8, n: usize, q: *const u8, l: usize) {
    let d = SCRATCH.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        std::env::set_current_dir(&d).expect("scratch directory");
        d
    });
    let name = text(p, n);
    assert!(!name.contains('/'));
    std::fs::write(d.join(name), unsafe { std::slice::from_raw_parts(q, l) }).expect("scratch file");
}

fn main() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| { old(i); clean(); }));
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(2).cloned().unwrap_or_default();
    let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex")).collect();
    let params = a.get(3).map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    ST.with(|s| *s.borrow_mut() = S { input, pos: 0, params, obs: vec![], failed: false });
    let t = h::table();
    let f = t.iter().find(|x| x.0 == a[1]).unwrap_or_else(|| { eprintln!("no harness {}", a[1]); std::process::exit(2) }).1;
    f();
    let failed = ST.with(|s| s.borrow().failed);
    end(if failed { 1 } else { 0 })
}
