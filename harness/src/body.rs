//! Body canonicalization and body hashes.
use crate::common::canon;
use crate::oracle::*;
use crate::rt::*;
use sha2::{Digest, Sha256};
use viadkim::canonicalize::BodyCanonicalizer;
use viadkim::crypto::HashAlgorithm;
use viadkim::message_hash::*;
use viadkim::signature::CanonicalizationAlgorithm as A;

fn run(a: A, chunks: &[&[u8]]) -> Vec<u8> {
    let mut c = BodyCanonicalizer::new(a);
    let mut r = vec![];
    for b in chunks {
        r.extend(c.canonicalize_chunk(b));
    }
    r.extend(c.finish());
    r
}

/// Whole body, any bytes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_body_simple() {
    let b = bytes_upto("body", 0, bound(8, 10));
    let r = run(A::Simple, &[&b]);
    observe("canon", &r);
    check(same(&r, &body_simple(&b)), "simple body canonicalization equals the RFC definition");
    if b.len() > 2 && r.len() == 2 {
        reach("body reduced to CRLF");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_body_relaxed() {
    let b = bytes_upto("body", 0, bound(6, 8));
    let r = run(A::Relaxed, &[&b]);
    observe("canon", &r);
    match body_relaxed(&b) {
        Some(e) => check(same(&r, &e), "relaxed body canonicalization equals the RFC definition"),
        None => reach("final whitespace-only line"),
    }
    if b.len() > 3 && r.is_empty() {
        reach("body reduced to nothing");
    }
}
/// The result does not depend on how the body is cut into chunks.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_body_chunks() {
    let relaxed = choice("relaxed", 2);
    let n = bound(5, 7);
    let b = bytes("body", n);
    let i = choice("cut1", n as u64 + 1) as usize;
    let j = i + choice("cut2", (n - i) as u64 + 1) as usize;
    let whole = run(canon(relaxed), &[&b]);
    let parts = run(canon(relaxed), &[&b[..i], &b[i..j], &b[j..]]);
    observe("canon", &whole);
    check(same(&whole, &parts), "body canonicalization does not depend on chunking");
    if i > 0 && j > i && j < n && whole.len() > n {
        reach("three chunks");
    }
}
/// Long runs of empty lines and of whitespace before arbitrary bytes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_body_runs() {
    let relaxed = choice("relaxed", 2);
    let k = pick("run", &[1usize, 2, 3, 7, 64, 255, 256, 257, 300]);
    let unit: &[u8] = pick("unit", &[&b"\r\n"[..], b" ", b" \r\n", b"\r\n\r", b"ab "]);
    let mut b = bytes("head", 1);
    for _ in 0..k {
        b.extend_from_slice(unit);
    }
    b.extend(bytes("tail", bound(2, 3)));
    let r = run(canon(relaxed), &[&b[..1], &b[1..b.len() - 1], &b[b.len() - 1..]]);
    observe("canon", &r[..r.len().min(8)]);
    if let Some(e) = body_canon(relaxed == 1, &b) {
        check(same(&r, &e), "canonicalization of long runs equals the RFC definition");
        reach("long run");
    }
}

/// Runs of more than 65535 units.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_body_scale() {
    let relaxed = choice("relaxed", 2);
    let unit: &[u8] = pick("unit", &[&b"\r\n"[..], b" "]);
    let k = bound(65_537, 140_000);
    let mut b = b"x\r\n".to_vec();
    for _ in 0..k {
        b.extend_from_slice(unit);
    }
    let t = bytes("tail", 1);
    assume(t[0] != b'\r' && t[0] != b'\n' && !wsp(t[0]));
    b.extend(&t);
    let r = run(canon(relaxed), &[&b[..70_000.min(b.len())], &b[70_000.min(b.len())..]]);
    let n = match (unit.len(), relaxed) {
        (1, 1) => 3 + 1 + 1 + 2,
        _ => 3 + k * unit.len() + 1 + 2,
    };
    check(r.len() == n, "canonicalization of very long runs has the right length");
    let l = r.len();
    check(r[l - 3] == t[0] && &r[l - 2..] == b"\r\n" && r[l - 4] == unit[unit.len() - 1], "canonicalization of very long runs equals the RFC definition");
    reach("very long run");
}

// ---- body hasher -----------------------------------------------------------------

fn expect(relaxed: bool, l: Option<usize>, fail: bool, b: &[u8]) -> Option<Result<(Vec<u8>, usize), BodyHashError>> {
    let c = body_canon(relaxed, b)?;
    Some(match l {
        Some(l) if l > c.len() => Err(BodyHashError::InsufficientInput),
        Some(l) if l < c.len() && fail => Err(BodyHashError::InputTruncated),
        Some(l) => Ok((Sha256::digest(&c[..l]).to_vec(), l)),
        None => Ok((Sha256::digest(&c).to_vec(), c.len())),
    })
}
fn agrees(got: &BodyHashResult, want: &Result<(Vec<u8>, usize), BodyHashError>) -> bool {
    match (got, want) {
        (Ok((h, n)), Ok((h2, n2))) => n == n2 && same(h, h2),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}

/// Two registrations with arbitrary limits, chunks, early stop when told so.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_hasher() {
    let n = bound(3, 5);
    let b = bytes_upto("body", 0, n);
    let fail = bool_("fail");
    let lim = |name: &str| match choice(name, n as u64 + 4) {
        0 => None,
        k => Some(k as usize - 1),
    };
    let (r1, l1) = (bool_("relaxed1"), lim("l1"));
    let (r2, l2) = (bool_("relaxed2"), lim("l2"));
    let cut = choice("cut", b.len() as u64 + 1) as usize;
    let mut hb = BodyHasherBuilder::new(fail);
    hb.register_canonicalization(l1, HashAlgorithm::Sha256, canon(r1 as u64));
    hb.register_canonicalization(l2, HashAlgorithm::Sha256, canon(r2 as u64));
    let mut h = hb.build();
    // a client stops feeding when told that no more is needed
    for c in [&b[..cut], &b[cut..]] {
        if let BodyHasherStance::Done = h.hash_chunk(c) {
            reach("done early");
            break;
        }
    }
    let res = h.finish();
    for (r, l) in [(r1, l1), (r2, l2)] {
        let got = res.get(&(l, HashAlgorithm::Sha256, canon(r as u64)));
        check(got.is_some(), "every registered body hash is answered");
        let Some(got) = got else { return };
        if let Ok((_, n)) = got {
            observe("len", &[*n as u8]);
        }
        if let Some(e) = expect(r, l, fail, &b) {
            check(agrees(got, &e), "body hash covers exactly the declared prefix of the canonical body");
            match e {
                Err(BodyHashError::InsufficientInput) => reach("body too short"),
                Err(BodyHashError::InputTruncated) => reach("unsigned content"),
                Ok(_) => reach("hashed"),
            }
        }
    }
}
