//! Untrusted input never makes the library panic or run on, and always gives
//! one result per signature.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use viadkim::crypto::{KeyType, VerifyingKey};
use viadkim::header::*;
use viadkim::signature::*;
use viadkim::verifier::*;

fn total(g: &Fields, recs: Vec<Vec<u8>>, body: &[u8], cfg: &Config) -> Vec<VerificationResult> {
    let a = Ans::Recs(recs.into_iter().map(Ok).collect());
    let res = Any(a);
    let n = g.iter().filter(|f| ieq(&f.0, b"dkim-signature")).count();
    let Some(mut v) = block_on(Verifier::verify_header(&res, &hf(g), cfg)) else {
        check(n == 0, "no results only without signatures");
        return vec![];
    };
    let c = body.len() / 2;
    let _ = v.process_body_chunk(&body[..c]);
    let _ = v.process_body_chunk(&body[c..]);
    let r = v.finish();
    check(r.len() == n, "one result for each signature");
    for x in &r {
        check(x.index < g.len() && ieq(&g[x.index].0, b"dkim-signature"), "result belongs to a signature");
        let pass = x.status.to_dkim_result() == DkimResult::Pass;
        check(pass == (x.status == VerificationStatus::Success), "result is pass exactly on success");
        check(!pass || x.signature.is_some() && x.key_record.is_some(), "success comes with signature and key record");
    }
    r
}
#[derive(Clone)]
struct Any(Ans);
impl LookupTxt for Any {
    type Answer = Vec<std::io::Result<Vec<u8>>>;
    type Query<'a> = std::pin::Pin<Box<dyn std::future::Future<Output = std::io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, _: &str) -> Self::Query<'_> {
        let r = match &self.0 {
            Ans::Recs(v) => Ok(v.iter().map(|r| r.clone().map_err(|k| k.into())).collect()),
            Ans::Err(k) => Err((*k).into()),
        };
        Box::pin(async { r })
    }
}
/// A well-formed signature with every tag, verifying.
fn full(alg: &str) -> (Fields, Vec<u8>) {
    full_for(alg, "u=3Dv@m.x.org")
}
fn full_for(alg: &str, i: &str) -> (Fields, Vec<u8>) {
    let f = simple_msg();
    let bh = b64(&sha(b"x"));
    let pre = format!("v=1; a={alg}; c=relaxed/relaxed; d=x.org; s=s;\r\n\th=From:Subject; i={i}; l=1; q=dns/txt; t=1600000000;\r\n x=1900000000; z=From:a=40x.org|To:=3D; r=y; bh={bh};\r\n\tb=");
    let v = signed(pem(alg), true, &f, "From:Subject", "DKIM-Signature", &pre, "");
    (f, v)
}

/// Any short signature field value.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rob_short() {
    let v = bytes_upto("value", 0, bound(3, 4));
    let v = match choice("frame", 3) {
        0 => v,
        1 => [b"v=1;a=rsa-sha256;d=x.org;s=s;h=From;bh=;b=".to_vec(), v].concat(),
        _ => [v, b";a=rsa-sha256;d=x.org;s=s;h=From;bh=AA==;b=AA==;v=1".to_vec()].concat(),
    };
    assume(field_body_ok(&v));
    let mut g = simple_msg();
    g.insert(1, (b"DKIM-Signature".to_vec(), v));
    let r = total(&g, vec![record(RS)], b"x", &Config::default());
    check(r[0].status != VerificationStatus::Success, "nothing short verifies");
    reach("done");
}

/// A complete signature with a byte changed, inserted or removed anywhere.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rob_mutated() {
    let (f, mut v) = full(ED);
    let step = bound(3, 1);
    let at = step * choice("at", (v.len() / step) as u64) as usize;
    let x = bytes("bytes", bound(1, 2));
    match choice("edit", 3) {
        0 => {
            v.splice(at..v.len().min(at + x.len()), x);
        }
        1 => {
            v.splice(at..at, x);
        }
        _ => v.truncate(at),
    }
    assume(field_body_ok(&v));
    let mut g = f;
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let r = total(&g, vec![record(ED)], b"xyz", &Config::default());
    reach(if r[0].status == VerificationStatus::Success { "success" } else { "failure" });
}

/// Any short key record, and a complete one changed anywhere.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rob_record() {
    let (f, v) = full_for(ED, "u@x.org");
    let mut g = f;
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let short = bool_("short");
    let rec = if short {
        let v = bytes_upto("record", 0, bound(3, 4));
        [pick("frame", &["", "k=ed25519;p=", "v=DKIM1;h=sha256;"]).as_bytes().to_vec(), v].concat()
    } else {
        let mut r = format!("v=DKIM1; k=ed25519; h=sha256:x; n=a=20b; s=email : *; t=y:s; zz=1; p={ED1_RAW}").into_bytes();
        let head = r.len() - 44;
        let step = bound(2, 1);
        let at = step * choice("at", (head / step) as u64) as usize;
        let x = bytes("bytes", bound(1, 2));
        match choice("edit", 3) {
            0 => {
                r.splice(at..at + x.len(), x);
            }
            1 => {
                r.splice(at..at, x);
            }
            _ => r.truncate(at + 30),
        }
        r
    };
    // never an arbitrary curve point
    let r = total(&g, vec![rec, record(RS)], b"x", &Config::default());
    reach(if short { "short" } else { "long" });
    reach(if r[0].status == VerificationStatus::Success { "success" } else { "failure" });
}

/// Numbers of any size.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rob_numbers() {
    let f = simple_msg();
    let bh = b64(&sha(b"x"));
    let mut n = pick("number", &["0", "18446744073709551615", "99999999999999999999", "00000000000000000000000000000000000000000000001"]).as_bytes().to_vec();
    let at = choice("at", 2) as usize * (n.len() - 1);
    n[at] = u8_("digit");
    assume((n[at] > 0x20) & (n[at] < 0x7f) & (n[at] != b';'));
    let tag = pick("tag", &["l", "t", "x"]);
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;{tag}={};bh={bh};b=", crate::tags::st(&n));
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f;
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let (tol, now) = pick("clock", &[(300, 1_700_000_000), (u64::MAX, 0), (u64::MAX, i64::MAX as u64), (0, i64::MAX as u64)]);
    let cfg = Config {
        time_tolerance: std::time::Duration::from_secs(tol),
        fixed_system_time: crate::common::at(now),
        ..Config::default()
    };
    let _ = total(&g, vec![record(ED)], b"xyz", &cfg);
    reach("done");
}

/// Key data: short arbitrary data, damaged keys.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rob_keydata() {
    let d = if bool_("short") {
        let d = bytes_upto("data", 0, bound(6, 9));
        check(VerifyingKey::from_key_data(KeyType::Ed25519, &d).is_err(), "short data is no Ed25519 key");
        reach("short");
        d
    } else {
        let t = pick("form", &[RSA1024_SPKI, RSA1024_PKCS1]);
        let mut d = base64(t.as_bytes()).unwrap().0;
        // tags, lengths, first octets of the modulus, the exponent
        let n = d.len();
        let at = pick("at", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 19, 20, 22, 23, 25, 26, 28, 29, n - 6, n - 5, n - 4, n - 3, n - 2, n - 1]);
        d[at] = u8_("byte");
        if bool_("cut") {
            d.truncate(n - 1);
        }
        d
    };
    match VerifyingKey::from_key_data(KeyType::Rsa, &d) {
        Ok(k) => {
            check(k.key_size().is_some(), "RSA keys have a size");
            reach("key");
        }
        Err(_) => reach("no key"),
    }
}

/// Text given to constructors.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rob_text() {
    let kind = pick("kind", &["domain", "selector", "identity", "name", "algorithm", "header"]);
    let b = bytes("text", bound(if kind == "header" { 4 } else { 3 }, 4));
    let Ok(s) = String::from_utf8(b) else { return };
    let mut high = false;
    for c in s.bytes() {
        high |= c >= 0x80;
    }
    let before = |s: &str| format!("{}{s}", pick("before", &["", "a.", "u@", "x@a."]));
    match kind {
        "name" => {
            let _ = FieldName::new(s.as_str());
        }
        "algorithm" => {
            let _ = s.parse::<SigningAlgorithm>();
        }
        "header" => {
            let _ = s.parse::<HeaderFields>();
        }
        // non-ASCII names go into the IDNA tables
        _ if high => return,
        "domain" => {
            let _ = DomainName::new(before(&s).as_str());
        }
        "selector" => {
            let _ = Selector::new(before(&s).as_str());
        }
        _ => {
            let _ = Identity::new(&before(&s));
        }
    }
    reach("done");
}

/// A header with arbitrary content around a signature.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rob_message() {
    let (mut f, v) = full(pick("algorithm", &[ED, RS]));
    let n = bytes_upto("name", 1, bound(1, 2));
    assume(field_name_ok(&n));
    let b = bytes_upto("field", 0, bound(2, 3));
    assume(field_body_ok(&b));
    f.insert(choice("place", 3) as usize, (n, b));
    f.insert(choice("signature place", 2) as usize * f.len(), (b"DKIM-Signature".to_vec(), v.clone()));
    if bool_("twice") {
        f.push((b"DKIM-Signature".to_vec(), v));
    }
    let body = bytes("body", 2);
    let _ = total(&f, vec![record(ED), record(RS)], &body, &Config::default());
    reach("done");
}
