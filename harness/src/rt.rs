//! Run-time interface between harnesses and the symbolic executor.
//!
//! Under the symbolic executor every `__sym_*` function is replaced by the
//! engine.  Natively they replay a model file written by the engine.

use std::collections::VecDeque;
use std::sync::Mutex;

enum In {
    Bytes(String, Vec<u8>),
    Choice(String, u64),
}
static INPUT: Mutex<VecDeque<In>> = Mutex::new(VecDeque::new());
static FAILED: Mutex<Vec<String>> = Mutex::new(Vec::new());

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let name = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(name, nl)) };
    let out = unsafe { std::slice::from_raw_parts_mut(p, n) };
    match INPUT.lock().unwrap().pop_front() {
        Some(In::Bytes(m, v)) if v.len() == n && m == name => out.copy_from_slice(&v),
        _ => bad_replay(name),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_choice(n: u64, name: *const u8, nl: usize) -> u64 {
    let name = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(name, nl)) };
    match INPUT.lock().unwrap().pop_front() {
        Some(In::Choice(m, v)) if v < n && m == name => v,
        _ => bad_replay(name),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assume(c: u32) {
    if c == 0 {
        println!("ASSUME-FAIL");
        std::process::exit(4);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_check(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("CHECK-FAIL {s}");
        FAILED.lock().unwrap().push(s.to_owned());
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_reach(p: *const u8, n: usize) {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    println!("REACH {s}");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_observe(p: *const u8, n: usize, name: *const u8, nl: usize) {
    let name = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(name, nl)) };
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    println!("OBS {name} {s}");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_native() -> u32 {
    1
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_conc(_p: *mut u8, _n: usize) {}

fn bad_replay(what: &str) -> ! {
    println!("BAD-REPLAY {what}");
    std::process::exit(5)
}

// ---- safe wrappers ---------------------------------------------------------------

/// `n` arbitrary bytes.
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    __sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len());
    v
}
pub fn array<const N: usize>(name: &str) -> [u8; N] {
    let mut v = [0u8; N];
    __sym_bytes(v.as_mut_ptr(), N, name.as_ptr(), name.len());
    v
}
/// An arbitrary byte string of arbitrary length `lo..=hi`.
pub fn bytes_upto(name: &str, lo: usize, hi: usize) -> Vec<u8> {
    let n = lo + choice("len", (hi - lo + 1) as u64) as usize;
    bytes(name, n)
}
pub fn u64_(name: &str) -> u64 {
    u64::from_le_bytes(array::<8>(name))
}
pub fn u8_(name: &str) -> u8 {
    array::<1>(name)[0]
}
pub fn bool_(name: &str) -> bool {
    choice(name, 2) == 1
}
/// An arbitrary value below `n`, explored separately for each.
pub fn choice(name: &str, n: u64) -> u64 {
    __sym_choice(n, name.as_ptr(), name.len())
}
pub fn pick<T: Clone>(name: &str, of: &[T]) -> T {
    of[choice(name, of.len() as u64) as usize].clone()
}
pub fn assume(c: bool) {
    __sym_assume(c as u32)
}
/// The assertion: must hold for every input on this path.
pub fn check(c: bool, label: &str) {
    __sym_check(c as u32, label.as_ptr(), label.len())
}
pub fn reach(label: &str) {
    __sym_reach(label.as_ptr(), label.len())
}
pub fn observe(name: &str, b: &[u8]) {
    __sym_observe(b.as_ptr(), b.len(), name.as_ptr(), name.len())
}
pub fn native() -> bool {
    __sym_native() == 1
}
/// Splits on the concrete values of the bytes.
pub fn concretize(b: &mut [u8]) {
    __sym_conc(b.as_mut_ptr(), b.len())
}
/// Byte-string equality without splitting per byte.
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// Native entry: `harness <function> <model file>`.
pub fn replay_main(table: &[(&str, extern "C" fn())]) {
    let mut args = std::env::args().skip(1);
    let (Some(f), Some(m)) = (args.next(), args.next()) else {
        for (n, _) in table {
            println!("{n}");
        }
        return;
    };
    let text = std::fs::read_to_string(m).expect("model file");
    {
        let mut q = INPUT.lock().unwrap();
        for l in text.lines() {
            // kind, name (may contain spaces), value
            let Some((kind, p)) = l.split_once(' ') else { continue };
            let Some((n, h)) = p.rsplit_once(' ') else { continue };
            match kind {
                "B" => {
                    let h = if h == "-" { "" } else { h };
                    let v = (0..h.len() / 2)
                        .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                        .collect();
                    q.push_back(In::Bytes(n.into(), v));
                }
                "C" => q.push_back(In::Choice(n.into(), h.parse().unwrap())),
                _ => {}
            }
        }
    }
    let h = table.iter().find(|t| t.0 == f).expect("unknown harness").1;
    h();
    let failed = FAILED.lock().unwrap();
    if failed.is_empty() {
        println!("PASS");
    } else {
        std::process::exit(3);
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_tier() -> u64 {
    std::env::var("HARNESS_TIER").ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}
/// Picks a bound by tier (0 quick, 1 thorough).
pub fn bound(quick: usize, thorough: usize) -> usize {
    if __sym_tier() == 0 {
        quick
    } else {
        thorough
    }
}
