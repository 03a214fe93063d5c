//! Each signature, and each signing request, is treated as if it were alone.
use crate::common::*;
use crate::e2e::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use std::io::ErrorKind;
use std::time::Duration;
use viadkim::signature::*;
use viadkim::signer::*;
use viadkim::verifier::*;

/// Signature fields of all sorts for the message with the given body.
pub fn variant(k: u64, f: &Fields, body: &[u8]) -> Vec<u8> {
    let mk = |alg: &str, canon: &str, extra: &str, hash: &[u8]| {
        let pre = format!("v=1;a={alg};c={canon};d=x.org;{extra};h=From:Subject;bh={};b=", b64(hash));
        signed(pem(alg), canon.starts_with('r'), f, "From:Subject", "DKIM-Signature", &pre, "")
    };
    let simple = sha(&body_canon(false, body).unwrap());
    match k {
        0 => mk(ED, "relaxed/simple", "s=e", &simple),
        1 => mk(RS, "simple/simple", "s=r", &simple),
        2 => mk(ED, "simple/relaxed", "s=e", &sha(&body_canon(true, body).unwrap())),
        3 => mk(ED, "simple/simple", "s=e;l=1", &sha(&body_canon(false, body).unwrap()[..1])),
        4 => mk(ED, "simple/simple", "s=e;l=4", &sha(b"x\r\n")),
        5 => mk(ED, "simple/simple", "s=e", &sha(b"other")),
        6 => mk(ED, "simple/simple", "s=none", &simple),
        7 => mk(ED, "simple/simple", "s=late", &simple),
        8 => mk(ED, "simple/simple", "s=e;t=1;x=2", &simple),
        9 => mk(RS, "simple/simple", "s=e", &simple),
        10 => mk(ED, "simple/simple", "s=two;i=@a.X.org", &simple),
        11 => b"v=1;a=rsa-sha256".to_vec(),
        12 => mk(ED, "simple/simple", "s=e;l=0", &sha(b"")),
        13 => {
            let mut v = mk(ED, "simple/simple", "s=e", &simple);
            let n = v.len();
            v[n - 10] ^= 1;
            v
        }
        14 => mk(ED, "simple/simple", "s=mix", &simple),
        15 => mk(RS, "simple/simple", "s=mix", &simple),
        16 => mk(ED, "simple/simple", "s=mix;i=@a.x.org", &simple),
        17 => {
            let mut v = mk(RS, "simple/simple", "s=mix", &simple);
            let n = v.len();
            v[n - 10] ^= 1;
            v
        }
        _ => b"v=1\xff".to_vec(),
    }
}
pub fn resolver() -> Res {
    let ok = |r: Vec<u8>| Ans::Recs(vec![Ok(r)]);
    let n = |s: &str| format!("{s}._domainkey.x.org.");
    Res::new(vec![
        (n("e"), ok(record(ED))),
        (n("r"), ok(record(RS))),
        (n("mix"), Ans::Recs(vec![Ok(record(RS)), Ok([&record(ED)[..], b";t=s"].concat()), Ok(b"v=DKIM1;p=".to_vec())])),
        (n("late"), Ans::Err(ErrorKind::TimedOut)),
        (n("two"), Ans::Recs(vec![Ok(b"v=DKIM1;p=".to_vec()), Ok([&record(ED)[..], b";t=s:y"].concat())])),
    ])
}

/// Results of signatures side by side.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_alone_verify() {
    let n = bound(2, 3);
    let mut cfg = Config::default();
    if bool_("forbid unsigned") {
        cfg.forbid_unsigned_content = true;
    }
    let f = simple_msg();
    let body = [&[u8_("body")][..], b"\r\n"].concat();
    assume(body[0] != b'\r' && body[0] != b'\n' && !wsp(body[0]));
    let vs: Vec<Vec<u8>> = (0..n).map(|_| variant(choice("variant", 19), &f, &body)).collect();
    let apart = bool_("apart");
    let place = |i: usize| if apart && i > 0 { f.len() + i } else { i };
    let mut g = f.clone();
    for (i, v) in vs.iter().enumerate() {
        g.insert(place(i), (b"DKIM-Signature".to_vec(), v.clone()));
    }
    let res = resolver();
    let all = verify(&res, &hf(&g), &cfg, &[&body[..1], &body[1..]]).unwrap();
    check(all.len() == n, "one result for each signature");
    for (i, v) in vs.into_iter().enumerate() {
        let mut h = f.clone();
        h.insert(0, (b"dkim-signature".to_vec(), v.clone()));
        // relaxed or not, the name signed is the one it has
        h[0].0 = b"DKIM-Signature".to_vec();
        let one = verify(&res, &hf(&h), &cfg, &[&body]).unwrap().pop().unwrap();
        let Some(r) = all.iter().find(|r| r.index == place(i)) else {
            check(false, "one result for each signature");
            return;
        };
        check(r.status == one.status, "the status is the one the signature has alone");
        check(r.signature == one.signature, "the signature data are those it has alone");
        check(r.key_record == one.key_record, "the key record is the one it has alone");
        reach(if ok(r) { "success" } else { "failure" });
    }
}

fn requested(k: u64, deep: bool) -> SignRequest<viadkim::crypto::SigningKey> {
    let mut s = spec();
    match k {
        0 => {}
        1 => s.canon = 3,
        2 => {
            s.alg = RS;
            s.pem = RSA1024_PEM;
            s.canon = 0;
            s.copy = true;
        }
        3 => s.length = BodyLength::Exact(2),
        4 => s.length = BodyLength::MessageContent,
        5 => {
            s.length = BodyLength::Exact(4);
            s.canon = 2;
        }
        6 => {
            s.select = Some(vec!["From", "from", "X"]);
            s.time = Timestamp::None;
            s.duration = None;
        }
        7 => {
            s.width = 30;
            s.indent = "  ";
            s.order = 2;
            s.name = "dkim-signature";
            s.ext = vec![("r".into(), "y".into())];
        }
        _ => {
            s.length = BodyLength::Exact(0);
            s.duration = Some(Duration::from_secs(1));
            s.time = Timestamp::Now;
        }
    }
    let _ = deep;
    s.request()
}

/// Signatures made side by side.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_alone_sign() {
    let n = bound(2, 3);
    set_clock(1_700_000_001);
    let f = simple_msg();
    let body = bytes_upto("body", 0, 2);
    let ks: Vec<u64> = (0..n).map(|_| choice("request", 9)).collect();
    let go = |ks: &[u64]| {
        let mut g = Signer::prepare_signing(hf(&f), ks.iter().map(|k| requested(*k, false))).map_err(|_| 0).unwrap();
        let cut = body.len() / 2;
        let _ = g.process_body_chunk(&body[..cut]);
        let _ = g.process_body_chunk(&body[cut..]);
        block_on(g.sign())
    };
    let all = go(&ks);
    check(all.len() == n, "one result for each request");
    for (k, a) in ks.iter().zip(&all) {
        let one = go(&[*k]).pop().unwrap();
        match (a, &one) {
            (Ok(a), Ok(b)) => {
                check(a.header_name == b.header_name && same(a.header_value.as_bytes(), b.header_value.as_bytes()), "the signature is the one made alone");
                check(a.signature == b.signature, "the signature data are those made alone");
                reach("signed");
            }
            (Err(a), Err(b)) => {
                check(a == b, "the error is the one given alone");
                reach("error");
            }
            _ => check(false, "a request succeeds or fails as it does alone"),
        }
    }
    let _ = st(b"");
}
