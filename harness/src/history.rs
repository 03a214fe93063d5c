//! One message after another and several at a time: nothing carries over.
use crate::common::*;
use crate::e2e::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use std::future::Future;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use viadkim::crypto::VerificationError as C;
use viadkim::header::*;
use viadkim::record::DkimKeyRecordError;
use viadkim::signature::*;
use viadkim::signer::*;
use viadkim::verifier::VerificationError as E;
use viadkim::verifier::*;

struct W;
impl Wake for W {
    fn wake(self: Arc<Self>) {}
}
fn step<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    let w = Waker::from(Arc::new(W));
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
/// Answers from a table, each after being asked for `wait` times.
#[derive(Clone)]
struct Slow(Res, u64);
struct Later(u64, Option<io::Result<Vec<io::Result<Vec<u8>>>>>);
impl Future for Later {
    type Output = io::Result<Vec<io::Result<Vec<u8>>>>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        if self.0 > 0 {
            self.0 -= 1;
            return Poll::Pending;
        }
        Poll::Ready(self.1.take().unwrap())
    }
}
impl LookupTxt for Slow {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, d: &str) -> Self::Query<'_> {
        let a = block_on(self.0.lookup_txt(d));
        Box::pin(Later(self.1, Some(a)))
    }
}

/// A message, what is known about its key, and what must come of it.
struct Case {
    head: Fields,
    body: Vec<u8>,
    res: Res,
    cfg: Config,
    want: Option<E>,
}
const CASES: u64 = 24;
/// All of them use the same key name; they differ in little.
fn case(k: u64, c: u8) -> Case {
    let mut f = fields(&[("From", b" a@x.org"), ("Subject", b" hi")]);
    let body = [&[c][..], b"\r\n"].concat();
    let alg = if k == 9 || k == 10 { RS } else { ED };
    let l = match k {
        14 | 15 => "l=1;",
        16 => "l=9;",
        _ => "",
    };
    let i = if k == 18 || k == 19 { "i=@sub.x.org;" } else { "" };
    let h = sha(if l == "l=1;" { &body[..1] } else { &body });
    let pre = format!("v=1;a={alg};d=x.org;s=s;t=1000;x=2000;{i}{l}h=From:Subject;bh={};b=", b64(&h));
    let mut v = signed(pem(alg), false, &f, "From:Subject", "DKIM-Signature", &pre, "");
    match k {
        5 => f[1].1 = b" ho".to_vec(),
        11 => {
            let n = v.len();
            v[n - 10] = if v[n - 10] == b'A' { b'B' } else { b'A' };
        }
        17 => v.extend(b";t=1"),
        _ => {}
    }
    f.insert(0, (b"DKIM-Signature".to_vec(), v));
    let rec = match k {
        1 => format!("v=DKIM1;k=ed25519;p={ED2_RAW}").into_bytes(),
        3 => b"v=DKIM1;k=ed25519;p=".to_vec(),
        13 => b"v=DKIM2".to_vec(),
        18 => [&record(ED)[..], b";t=s"].concat(),
        20 => record(RS),
        _ => record(alg),
    };
    let name = "s._domainkey.x.org.";
    let res = match k {
        2 => Res::new(vec![]),
        12 => Res::new(vec![(name.to_owned(), Ans::Err(ErrorKind::TimedOut))]),
        _ => Res::one(name, rec),
    };
    let mut cfg = Config { fixed_system_time: at(1500), time_tolerance: Duration::from_secs(0), ..Config::default() };
    match k {
        6 => cfg.headers_required_in_signature = vec![fname("To")],
        7 => cfg.fixed_system_time = at(2000),
        8 => cfg.fixed_system_time = at(999),
        10 => cfg.min_key_bits = 2048,
        14 => cfg.forbid_unsigned_content = true,
        22 | 23 => cfg.fixed_system_time = None,
        21 => cfg.headers_forbidden_to_be_unsigned = vec![fname("DKIM-signature")],
        _ => {}
    }
    let fail = || Some(E::VerificationFailure(C::VerificationFailure));
    let want = match k {
        1 | 5 | 11 => fail(),
        2 => Some(E::NoKeyFound),
        3 => Some(E::KeyRevoked),
        4 => Some(E::BodyHashMismatch),
        6 => Some(E::Policy(PolicyError::RequiredHeaderNotSigned)),
        7 | 23 => Some(E::Policy(PolicyError::SignatureExpired)),
        8 => Some(E::Policy(PolicyError::TimestampInFuture)),
        10 => Some(E::Policy(PolicyError::KeyTooSmall)),
        12 => Some(E::Timeout),
        13 => Some(E::KeyRecordFormat(DkimKeyRecordError::IncompatibleVersion)),
        14 => Some(E::Policy(PolicyError::UnsignedContent)),
        16 => Some(E::InsufficientContent),
        18 => Some(E::DomainMismatch),
        20 => Some(E::WrongKeyType),
        21 => Some(E::Policy(PolicyError::UnsignedHeaderOccurrence)),
        _ => None,
    };
    let body = if k == 4 { [&body[..], b"more\r\n"].concat() } else { body };
    Case { head: f, body, res, cfg, want }
}
fn judged(k: u64, c: &Case, r: Vec<VerificationResult>) {
    check(r.len() == 1 && r[0].index == 0, "one result for the one signature");
    let r = &r[0];
    if k == 17 {
        check(matches!(&r.status, VerificationStatus::Failure(E::DkimSignatureFormat(_))) && r.signature.is_none(), "the result is that of this message");
        return;
    }
    let got = match &r.status {
        VerificationStatus::Success => None,
        VerificationStatus::Failure(e) => Some(e.clone()),
    };
    check(got == c.want, "the result is that of this message");
    let asked = !matches!(k, 6 | 7 | 8 | 21 | 23);
    check(c.res.asked().len() == asked as usize, "the key is looked up for this message");
    check(r.key_record.is_some() == (asked && !matches!(k, 2 | 12 | 13)), "the key record is that of this message");
    if let Some(rec) = &r.key_record {
        let strict = rec.flags.contains(&viadkim::record::SelectorFlag::NoSubdomains);
        let rsa = rec.key_type == viadkim::crypto::KeyType::Rsa;
        check(strict == (k == 18) && rsa == matches!(k, 9 | 10 | 20) && rec.key_data.is_empty() == (k == 3), "the key record is that of this message");
    }
    reach(if got.is_none() { "verified" } else { "failed" });
}
fn spec_of(k: u64) -> Spec {
    let mut s = spec();
    s.time = Timestamp::Now;
    match k {
        1 => s.pem = ED2_PEM,
        2 => {
            s.alg = RS;
            s.pem = RSA1024_PEM;
        }
        3 => s.canon = 2,
        4 => s.length = BodyLength::Exact(1),
        5 => s.copy = true,
        6 => s.length = BodyLength::MessageContent,
        _ => {}
    }
    s
}
const REQUESTS: u64 = 7;
const GIVEN_UP: u64 = 6;
fn content(name: &str) -> u8 {
    let c = u8_(name);
    assume(c > b' ' && c < 0x7f);
    c
}
fn one(k: u64, c: u8, now: u64) {
    if k < CASES {
        let x = case(k, c);
        let cut = x.body.len() / 2;
        set_clock(if k == 23 { 2000 } else { 1500 });
        let r = verify(&x.res, &hf(&x.head), &x.cfg, &[&x.body[..cut], &x.body[cut..]]).unwrap();
        judged(k, &x, r);
        return;
    }
    let f = fields(&[("From", b" a@x.org"), ("Subject", b" hi")]);
    let k = k - CASES;
    if k < REQUESTS {
        round(&spec_of(k), &f, &[c, b' ', b' ', c, b'\r', b'\n'], now);
        return;
    }
    // begun and given up
    match k - REQUESTS {
        0 => {
            let x = case(0, c);
            let h = hf(&x.head);
            let s = Slow(x.res.clone(), 9);
            let mut f = Box::pin(Verifier::verify_header(&s, &h, &x.cfg));
            check(step(&mut f).is_none(), "not done before the answer is there");
        }
        1 => {
            let x = case(4, c);
            let mut v = block_on(Verifier::verify_header(&x.res, &hf(&x.head), &x.cfg)).unwrap();
            let _ = v.process_body_chunk(&x.body[..2]);
        }
        2 => {
            let mut s = Signer::prepare_signing(hf(&f), [spec_of(0).request()]).map_err(|_| 0).unwrap();
            let _ = s.process_body_chunk(&[c, b' ', b'\r']);
        }
        3 => {
            let none: [SignRequest<viadkim::crypto::SigningKey>; 0] = [];
            check(Signer::prepare_signing(hf(&f), none).is_err(), "no requests are refused");
        }
        4 => {
            let mut s = spec_of(4);
            s.length = BodyLength::Exact(50);
            check(sign1(&hf(&f), s.request(), &[&[c]]).is_err(), "a body that is too short is reported");
        }
        _ => {
            let h = hf(&f);
            check(verify(&Res::new(vec![]), &h, &Config::default(), &[]).is_none(), "no signatures, no verification");
        }
    }
    reach("given up");
}

/// Message after message.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_again_before() {
    let n = bound(2, 3);
    let mut now = 1_700_000_001;
    for i in 0..n {
        let k = choice("message", CASES + REQUESTS + if i + 1 < n { GIVEN_UP } else { 0 });
        let c = if i + 1 < n { b'a' } else { content("content") };
        one(k, c, now);
        now += 1 + choice("later", 2) * 1_000_000;
    }
}

/// Messages handled at the same time, in any order.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_again_meanwhile() {
    const SOME: [u64; 8] = [0, 1, 4, 14, 15, 12, 10, 16];
    let some = &SOME[..bound(6, 8)];
    let ks = [pick("first", some), pick("second", some)];
    let cs = [content("one"), b'a'];
    let xs = [case(ks[0], cs[0]), case(ks[1], cs[1])];
    let hs = [hf(&xs[0].head), hf(&xs[1].head)];
    let (w0, w1, ahead) = pick("schedule", &[(0, 0, 0), (1, 0, 0), (0, 1, 2), (1, 1, 1), (2, 0, 1), (3, 1, 0)][..bound(4, 6)]);
    let slow = [Slow(xs[0].res.clone(), w0), Slow(xs[1].res.clone(), w1)];
    // the two verifications advance in turns, the first `ahead` steps before the other
    let mut fs: Vec<_> = (0..2).map(|i| Box::pin(Verifier::verify_header(&slow[i], &hs[i], &xs[i].cfg))).collect();
    let mut vs = [None, None];
    for t in 0..8 {
        for i in 0..2 {
            if vs[i].is_none() && (i == 0 || t >= ahead) {
                vs[i] = step(&mut fs[i]);
            }
        }
    }
    // a signature is made meanwhile
    let f = fields(&[("From", b" a@x.org"), ("Subject", b" hi")]);
    let s = spec_of(pick("request", &[0, 3, 4][..bound(2, 3)]));
    let body = [cs[0], b' ', b' ', cs[0], b'\r', b'\n'];
    let mut g = Signer::prepare_signing(hf(&f), [s.request()]).map_err(|_| 0).unwrap();
    let mut vs = vs.map(|v| v.unwrap().unwrap());
    let mut sent = [0, 0];
    let turns = pick("turns", &[5u64, 12, 3, 6, 9, 14][..bound(2, 6)]);
    for t in 0..12 {
        let i = (turns >> (t % 4) & 1) as usize;
        let n = (sent[i] + 1 + t % 2).min(xs[i].body.len());
        let _ = vs[i].process_body_chunk(&xs[i].body[sent[i]..n]);
        sent[i] = n;
        if t < 6 {
            let _ = g.process_body_chunk(&body[t..t + 1]);
        }
    }
    for i in 0..2 {
        let _ = vs[i].process_body_chunk(&xs[i].body[sent[i]..]);
    }
    set_clock(1_700_000_001);
    let early = bool_("signed first");
    let go = |g: Signer<viadkim::crypto::SigningKey>| {
        let o = block_on(g.sign()).pop().unwrap().map_err(|_| 0).unwrap();
        inspect(&s, &o, &f, &body, 1_700_000_001);
        reach("signed");
    };
    let mut g = Some(g);
    if early {
        go(g.take().unwrap());
    }
    let [a, b] = vs;
    if choice("finished first", 2) == 1 {
        judged(ks[1], &xs[1], b.finish());
        judged(ks[0], &xs[0], a.finish());
    } else {
        judged(ks[0], &xs[0], a.finish());
        judged(ks[1], &xs[1], b.finish());
    }
    if let Some(g) = g {
        go(g);
    }
}
