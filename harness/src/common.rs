//! Shared pieces of the harnesses: keys, resolver, clock, executor.
use crate::rt::*;
use std::future::Future;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, SystemTime};
use viadkim::crypto::SigningKey;
use viadkim::header::*;
use viadkim::signature::*;
use viadkim::signer::*;
use viadkim::verifier::*;

pub const ED1_PEM: &str = include_str!("../keys/ed1.pem");
pub const ED1_RAW: &str = include_str!("../keys/ed1.raw");
pub const ED1_SPKI: &str = include_str!("../keys/ed1.spki");
pub const ED2_PEM: &str = include_str!("../keys/ed2.pem");
pub const ED2_RAW: &str = include_str!("../keys/ed2.raw");
pub const RSA512_PEM: &str = include_str!("../keys/rsa512.pem");
pub const RSA512_SPKI: &str = include_str!("../keys/rsa512.spki");
pub const RSA1016_SPKI: &str = include_str!("../keys/rsa1016.spki");
pub const RSA1024_PEM: &str = include_str!("../keys/rsa1024.pem");
pub const RSA1024_SPKI: &str = include_str!("../keys/rsa1024.spki");
pub const RSA1024_PKCS1: &str = include_str!("../keys/rsa1024.pkcs1");
pub const RSA2048_PEM: &str = include_str!("../keys/rsa2048.pem");
pub const RSA2048_SPKI: &str = include_str!("../keys/rsa2048.spki");

// ---- clock ----------------------------------------------------------------------
/// Seconds since the epoch reported by the system clock.
pub static NOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_700_000_000);

#[no_mangle]
pub extern "C" fn clock_gettime(_clk: i32, ts: *mut [i64; 2]) -> i32 {
    unsafe {
        (*ts)[0] = NOW.load(std::sync::atomic::Ordering::Relaxed) as i64;
        (*ts)[1] = 0;
    }
    0
}
pub fn set_clock(secs: u64) {
    NOW.store(secs, std::sync::atomic::Ordering::Relaxed);
}
pub fn at(secs: u64) -> Option<SystemTime> {
    Some(SystemTime::UNIX_EPOCH + Duration::from_secs(secs))
}

// ---- executor -------------------------------------------------------------------
fn raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker {
        raw()
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    RawWaker::new(std::ptr::null(), &VT)
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}

// ---- resolver -------------------------------------------------------------------
#[derive(Clone)]
pub enum Ans {
    Recs(Vec<Result<Vec<u8>, ErrorKind>>),
    Err(ErrorKind),
}
/// How errors of a kind are made: of the kind alone, or holding some text.
pub static ERROR_TEXT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
pub fn error(k: ErrorKind) -> io::Error {
    match ERROR_TEXT.load(std::sync::atomic::Ordering::Relaxed) {
        0 => k.into(),
        1 => io::Error::new(k, "connection refused"),
        2 => io::Error::new(k, "request timed out"),
        _ => io::Error::new(k, "no record found"),
    }
}
/// Answers lookups from a table and records the names asked for.
#[derive(Clone)]
pub struct Res {
    pub table: Vec<(String, Ans)>,
    pub log: Arc<Mutex<Vec<String>>>,
}
impl Res {
    pub fn new(table: Vec<(String, Ans)>) -> Res {
        Res { table, log: Arc::new(Mutex::new(vec![])) }
    }
    pub fn one(name: &str, rec: Vec<u8>) -> Res {
        Res::new(vec![(name.to_owned(), Ans::Recs(vec![Ok(rec)]))])
    }
    pub fn asked(&self) -> Vec<String> {
        self.log.lock().unwrap().clone()
    }
}
impl LookupTxt for Res {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        self.log.lock().unwrap().push(domain.to_owned());
        let d = domain.to_owned();
        Box::pin(async move {
            for (n, a) in &self.table {
                if *n == d {
                    return match a {
                        Ans::Recs(v) => Ok(v
                            .iter()
                            .map(|r| match r {
                                Ok(b) => Ok(b.clone()),
                                Err(k) => Err(error(*k)),
                            })
                            .collect()),
                        Ans::Err(k) => Err(error(*k)),
                    };
                }
            }
            Err(ErrorKind::NotFound.into())
        })
    }
}

// ---- messages -------------------------------------------------------------------
pub fn key(pem: &str) -> SigningKey {
    SigningKey::from_pkcs8_pem(pem).unwrap()
}
pub fn fname(s: &str) -> FieldName {
    FieldName::new(s).unwrap()
}
pub fn fbody(b: &[u8]) -> FieldBody {
    FieldBody::new(b).unwrap()
}
pub fn dom(s: &str) -> DomainName {
    DomainName::new(s).unwrap()
}
pub fn sel(s: &str) -> Selector {
    Selector::new(s).unwrap()
}
pub fn headers(v: &[(&str, &[u8])]) -> HeaderFields {
    HeaderFields::new(v.iter().map(|(n, b)| (fname(n), fbody(b))).collect::<Vec<_>>()).unwrap()
}
pub fn with_top(h: HeaderField, rest: &HeaderFields) -> HeaderFields {
    let mut v = vec![h];
    v.extend(rest.as_ref().iter().cloned());
    HeaderFields::new(v).unwrap()
}
pub fn canon(i: u64) -> CanonicalizationAlgorithm {
    if i == 0 {
        CanonicalizationAlgorithm::Simple
    } else {
        CanonicalizationAlgorithm::Relaxed
    }
}
pub fn any_canon() -> Canonicalization {
    let c = choice("canon", 4);
    Canonicalization::from((canon(c & 1), canon(c >> 1)))
}
pub fn verify(res: &Res, h: &HeaderFields, cfg: &Config, chunks: &[&[u8]]) -> Option<Vec<VerificationResult>> {
    let mut v = block_on(Verifier::verify_header(res, h, cfg))?;
    for c in chunks {
        let _ = v.process_body_chunk(c);
    }
    Some(v.finish())
}
pub fn sign1(h: &HeaderFields, r: SignRequest<SigningKey>, chunks: &[&[u8]]) -> Result<SigningOutput, SigningError> {
    let mut s = match Signer::prepare_signing(h.clone(), [r]) {
        Ok(s) => s,
        Err(_) => {
            check(false, "signing request accepted");
            panic!("request rejected")
        }
    };
    for c in chunks {
        let _ = s.process_body_chunk(c);
    }
    block_on(s.sign()).pop().unwrap()
}

/// Deterministic hash-map seeds.
pub static SEED: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(7);
#[no_mangle]
pub extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    for i in 0..n {
        unsafe { *p.add(i) = SEED.load(std::sync::atomic::Ordering::Relaxed) };
    }
    n as isize
}
