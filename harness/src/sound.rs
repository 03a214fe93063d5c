//! Verification against an independent implementation of signing: a signature
//! verifies exactly when the signed content is what was signed.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tags::st;
use ed25519_dalek::Signer as _;
use rsa::Pkcs1v15Sign;
use sha2::{Digest, Sha256};
use viadkim::crypto::SigningKey;
use viadkim::header::*;
use viadkim::verifier::VerificationError as E;
use viadkim::verifier::*;

pub const ED: &str = "ed25519-sha256";
pub const RS: &str = "rsa-sha256";

pub fn sha(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
pub fn pem(alg: &str) -> &'static str {
    if alg == ED {
        ED1_PEM
    } else {
        RSA1024_PEM
    }
}
pub fn record(alg: &str) -> Vec<u8> {
    if alg == ED {
        format!("v=DKIM1;k=ed25519;p={ED1_RAW}").into_bytes()
    } else {
        format!("v=DKIM1;p={RSA1024_SPKI}").into_bytes()
    }
}
/// The signature of a hash, made with the key library directly.
pub fn raw_sign(pem: &str, hash: &[u8]) -> Vec<u8> {
    match key(pem) {
        SigningKey::Ed25519(k) => k.sign(hash).to_bytes().to_vec(),
        SigningKey::Rsa(k) => k.sign(Pkcs1v15Sign::new::<Sha256>(), hash).unwrap(),
    }
}

pub type Fields = Vec<(Vec<u8>, Vec<u8>)>;
pub fn refs(f: &Fields) -> Vec<(&[u8], &[u8])> {
    f.iter().map(|(n, v)| (&n[..], &v[..])).collect()
}
pub fn fields(v: &[(&str, &[u8])]) -> Fields {
    v.iter().map(|(n, v)| (n.as_bytes().to_vec(), v.to_vec())).collect()
}
pub fn hf(f: &Fields) -> HeaderFields {
    HeaderFields::from_vec(f.iter().map(|(n, v)| (st(n), v.clone())).collect()).unwrap()
}
pub fn list(h: &str) -> Vec<&[u8]> {
    h.split(':').map(|s| trim(s.as_bytes())).collect()
}

/// The hash signed for the header fields `f` and the signature field.
pub fn data_hash(relaxed: bool, f: &Fields, h: &str, name: &str, value: &[u8]) -> Vec<u8> {
    sha(&hash_input(relaxed, &refs(f), &list(h), name.as_bytes(), value))
}

/// Signature field value: `pre` ends in `b=`, `post` continues after its value.
pub fn signed(pem: &str, relaxed: bool, f: &Fields, h: &str, name: &str, pre: &str, post: &str) -> Vec<u8> {
    let mut v = pre.as_bytes().to_vec();
    v.extend(post.as_bytes());
    let s = raw_sign(pem, &data_hash(relaxed, f, h, name, &v));
    let mut v = pre.as_bytes().to_vec();
    v.extend(to_base64(&s));
    v.extend(post.as_bytes());
    v
}
pub fn cname(relaxed: u64) -> &'static str {
    if relaxed == 1 {
        "relaxed"
    } else {
        "simple"
    }
}
pub fn b64(b: &[u8]) -> String {
    st(&to_base64(b))
}
/// Verifies the message with the signature field inserted at the given place.
pub fn run(alg: &str, f: &Fields, at: usize, name: &str, value: Vec<u8>, chunks: &[&[u8]]) -> VerificationResult {
    let mut f = f.clone();
    f.insert(at, (name.as_bytes().to_vec(), value));
    let res = Res::one("s._domainkey.x.org.", record(alg));
    let mut v = verify(&res, &hf(&f), &Config::default(), chunks).unwrap();
    check(v.len() == 1 && v[0].index == at, "one result for the one signature");
    v.pop().unwrap()
}
pub fn ok(r: &VerificationResult) -> bool {
    r.status == VerificationStatus::Success
}
fn err(r: &VerificationResult) -> Option<&E> {
    match &r.status {
        VerificationStatus::Failure(e) => Some(e),
        _ => None,
    }
}
fn bad_sig(r: &VerificationResult) -> bool {
    matches!(err(r), Some(E::VerificationFailure(viadkim::crypto::VerificationError::VerificationFailure)))
}
pub fn simple_msg() -> Fields {
    fields(&[("From", b" a@x.org"), ("Subject", b" hi")])
}

/// The body signed and the body received.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_body() {
    let alg = pick("algorithm", &[ED, RS]);
    let hc = choice("header", 2);
    let bc = choice("body", 2);
    let n = bound(3, 4);
    let signed_body = bytes_upto("signed", 0, n - 1);
    let body = bytes_upto("received", 0, n);
    let (Some(a), Some(b)) = (body_canon(bc == 1, &signed_body), body_canon(bc == 1, &body)) else { return };
    let f = simple_msg();
    let bh = b64(&sha(&a));
    let pre = format!("v=1;a={alg};c={}/{};d=x.org;s=s;h=From;bh={bh};b=", cname(hc), cname(bc));
    let v = signed(pem(alg), hc == 1, &f, "From", "DKIM-Signature", &pre, "");
    let r = run(alg, &f, 0, "DKIM-Signature", v, &[&body]);
    let eq = same(&a, &b);
    check(ok(&r) == eq, "body hash verifies exactly when the canonical bodies are the same");
    if eq {
        reach("same");
    } else {
        check(err(&r) == Some(&E::BodyHashMismatch), "different body is reported as body hash mismatch");
        check(r.status.to_dkim_result() == DkimResult::Fail, "different body is a failure");
        reach("different");
    }
}

/// The value of a signed header field, signed and received.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_header() {
    let alg = pick("algorithm", &[ED, RS]);
    let hc = choice("header", 2);
    let n = bound(3, 4);
    let a = bytes_upto("signed", 1, n - 1);
    let b = bytes_upto("received", 0, n);
    assume(field_body_ok(&a) && field_body_ok(&b));
    let f = fields(&[("To", b" b"), ("From", b" a@x.org"), ("Subject", &a)]);
    let g = fields(&[("From", b" a@x.org"), ("To", b" c"), (pick("name", &["Subject", "SUBJECT"]), &b)]);
    let h = "subject:From:x";
    let bh = b64(&sha(b"\r\n"));
    let pre = format!(" v=1; a={alg}; c={}/simple; d=x.org; s=s;\r\n\th={h}; bh={bh}; b=", cname(hc));
    let v = signed(pem(alg), hc == 1, &f, h, "DKIM-Signature", &pre, ";");
    let r = run(alg, &g, 0, "DKIM-Signature", v, &[]);
    let p = hash_input(hc == 1, &refs(&f), &list(h), b"", b"");
    let q = hash_input(hc == 1, &refs(&g), &list(h), b"", b"");
    let eq = same(&p, &q);
    check(ok(&r) == eq, "signature verifies exactly when the canonical signed header fields are the same");
    if eq {
        reach("same");
    } else {
        check(bad_sig(&r), "different header is reported as verification failure");
        reach("different");
    }
}

/// Occurrences of the header fields, in all arrangements.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_fields() {
    let hc = choice("header", 2);
    let h = pick("h", &["From", "From:To", "To:To:From:From", "from:x:To", "From:To:To"]);
    // two arrangements of a few fields; From always there and never unsigned
    const P: [(&str, &[u8]); 4] = [("To", b" 1"), ("TO", b" 1"), ("X", b" 3"), ("To", b"  1")];
    let deep = bound(0, 1) == 1;
    let f = |n: &str| {
        let mut v = vec![];
        let (i, j) = match deep || n == "received" {
            true => (choice(n, 5) as usize, choice(n, 5) as usize),
            false => pick(n, &[(0, 2), (1, 3), (4, 3), (2, 2)]),
        };
        let at = if deep || n == "received" { choice(n, 3) } else { 1 };
        for (k, x) in [i, j].into_iter().enumerate() {
            if at == k as u64 {
                v.push(("From", &b" a"[..]));
            }
            if x < 4 {
                v.push(P[x]);
            }
        }
        if at == 2 {
            v.push(("From", b" a"));
        }
        fields(&v)
    };
    let a = f("signed");
    let b = f("received");
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};c={};d=x.org;s=s;h={h};bh={bh};b=", cname(hc));
    let v = signed(ED1_PEM, hc == 1, &a, h, "DKIM-Signature", &pre, "");
    let at = if deep { choice("place", 2) as usize * b.len() } else { 0 };
    let r = run(ED, &b, at, "DKIM-Signature", v, &[]);
    let p = hash_input(hc == 1, &refs(&a), &list(h), b"", b"");
    let q = hash_input(hc == 1, &refs(&b), &list(h), b"", b"");
    let eq = same(&p, &q);
    check(ok(&r) == eq, "signature verifies exactly when the canonical signed header fields are the same");
    if eq {
        reach("same");
    } else {
        check(bad_sig(&r), "different header is reported as verification failure");
        reach("different");
    }
}

/// The signature field itself is signed: any other value of it must verify only
/// if the canonical form without `b=` value is the same.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_sigfield() {
    let hc = choice("header", 2);
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mid = choice("b", 3);
    let rest = format!("c={}; d=x.org;s=s;\r\n h=From : Subject; t=7;bh={bh}", cname(hc));
    let (pre, post) = match mid {
        0 => (format!("b="), format!(";v=1 ;a={ED};{rest}")),
        1 => (format!("v=1 ;a={ED};\r\n\tb ="), format!(";{rest};")),
        _ => (format!("v=1 ;a={ED};{rest};b ="), String::new()),
    };
    let name = "DKIM-Signature";
    let v = signed(ED1_PEM, hc == 1, &f, "From:Subject", name, &pre, &post);
    // replace, insert or remove a byte anywhere outside the values of b= and bh=
    let p = format!("{pre}{post}").len() - bh.len();
    let edit = choice("edit", 3);
    let step = bound(2, 1);
    let mut at = (edit as usize + mid as usize * 3) % step + step * choice("position", (p / step) as u64) as usize;
    let bhpos = v.windows(3).position(|w| w == b"bh=").unwrap() + 3;
    let blen = v.len() - format!("{pre}{post}").len();
    let mut spans = vec![(pre.len(), blen), (bhpos, bh.len())];
    spans.sort();
    for (s, n) in spans {
        if at >= s {
            at += n;
        }
    }
    let x = u8_("byte");
    let mut w = v.clone();
    match edit {
        0 => {
            if at >= w.len() {
                return;
            }
            w[at] = x;
        }
        1 => w.insert(at, x),
        _ => {
            if at >= w.len() {
                return;
            }
            w.remove(at);
        }
    }
    assume(field_body_ok(&w));
    let res = Res::one("s._domainkey.x.org.", record(ED));
    let mut g = f.clone();
    g.insert(0, (name.as_bytes().to_vec(), w.clone()));
    let r = verify(&res, &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap();
    let p = header_canon(hc == 1, name.as_bytes(), &without_b(&v));
    let q = header_canon(hc == 1, name.as_bytes(), &without_b(&w));
    let eq = same(&p, &q);
    if ok(&r) {
        check(eq, "signature verifies only if its own header field is as signed");
        reach("same");
    } else {
        reach("rejected");
        if let Some(E::VerificationFailure(_)) = err(&r) {
            check(!eq, "signature with unchanged canonical header field verifies");
            reach("different");
        }
    }
}

/// Whitespace in and around the `b=` value has no influence, other changes of
/// the value make it fail.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_b_value() {
    let hc = choice("header", 2);
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let (pre, post) = pick("template", &[(" b =", ";"), ("b=", ";x=0"), ("\r\n\tb\r\n =", "")]);
    let post = post.replace("x=0", "zz=b=1;b2=y");
    let pre = format!("v=1;a={ED};c={};d=x.org;s=s;h=From;bh={bh};{pre}", cname(hc));
    let v = signed(ED1_PEM, hc == 1, &f, "From", "DKIM-Signature", &pre, &post);
    let e = v.len() - post.len();
    let at = pick("at", &[pre.len(), e - 1, pre.len() + 40, e, e - 2, pre.len() + 1][..bound(4, 6)]);
    let ws = bytes_upto("inserted", 0, bound(2, 3));
    let replace = choice("replace", 2) as usize;
    if at + replace > e {
        return;
    }
    let mut w = v[..at].to_vec();
    w.extend(&ws);
    w.extend(&v[at + replace..]);
    assume(field_body_ok(&w) && ws.iter().all(|c| *c != b';'));
    let r = {
        let res = Res::one("s._domainkey.x.org.", record(ED));
        let mut g = f.clone();
        g.insert(0, (b"DKIM-Signature".to_vec(), w.clone()));
        verify(&res, &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap()
    };
    let val = &w[pre.len()..e + ws.len() - replace];
    if !fws_ok(val) {
        check(!ok(&r), "ill-formed signature value does not verify");
        return;
    }
    let want = base64(&without_ws(&v[pre.len()..e])).unwrap().0;
    match base64(&without_ws(val)) {
        Some((d, canonical)) => {
            let eq = same(&d, &want);
            check(ok(&r) == eq || eq && !canonical, "signature verifies exactly when the b= value is what was signed");
            if eq && ws.len() == 2 {
                reach("same");
            }
        }
        None => {
            check(!ok(&r), "ill-formed signature value does not verify");
            reach("ill-formed");
        }
    }
}

/// Other tags, whatever their names and values, are signed as they are.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_other_tag() {
    let hc = choice("header", 2);
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let n = 1 + choice("name length", 2) as usize;
    let name = bytes("name", n);
    assume(tag_name_ok(&name));
    if n == 1 {
        assume(!b"vabcdhilqstxz".contains(&name[0]));
    } else {
        assume(!same(&name, b"bh"));
    }
    let value = bytes("value", 2);
    assume(tag_value_ok(&value) && value.iter().all(|c| *c < 0x80));
    let (l, rr) = pick("around", &[("", ""), (" ", " "), ("\r\n\t", "\r\n ")]);
    let tag = format!("{l}{}{rr}={l}{}{rr}", st(&name), st(&value));
    let (pre, post) = match choice("place", 3) {
        0 => (format!("{tag};v=1;a={ED};c={};d=x.org;s=s;h=From;bh={bh};b=", cname(hc)), String::new()),
        1 => (format!("v=1;a={ED};c={};d=x.org;s=s;h=From;bh={bh};{tag};b=", cname(hc)), ";".into()),
        _ => (format!("v=1;a={ED};c={};b=", cname(hc)), format!(";d=x.org;s=s;h=From;bh={bh};{tag};")),
    };
    let v = signed(ED1_PEM, hc == 1, &f, "From", "DKIM-Signature", &pre, &post);
    let r = run(ED, &f, 0, "DKIM-Signature", v.clone(), &[]);
    check(ok(&r), "signature with another tag verifies");
    reach("verified");
    // and the other tag cannot be changed
    if hc == 0 {
        let at = v.windows(tag.len()).position(|w| same(w, tag.as_bytes())).unwrap() + l.len();
        let mut w = v.clone();
        let o = [at, at + n + rr.len() + 1 + l.len()][choice("changed", 2) as usize];
        w[o] = w[o] ^ 0x20;
        assume(field_body_ok(&w));
        let r = run(ED, &f, 0, "DKIM-Signature", w, &[]);
        check(!ok(&r), "another tag cannot be changed");
        reach("changed");
    }
}

/// The body hash must be equal as a whole.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_hash_value() {
    let alg = pick("algorithm", &[ED, RS]);
    let f = simple_msg();
    let right = sha(b"x\r\n");
    let mut h = right.clone();
    h.push(7);
    h.truncate(1 + choice("hash length", 33) as usize);
    let mut t = b64(&h).into_bytes();
    // a character of the text replaced by an arbitrary one
    if h.len() == 32 {
        let at = choice("at", t.len() as u64) as usize;
        t[at] = u8_("character");
        assume(t[at] != b';' && t[at] < 0x80 && t[at] != 13 && t[at] != 10);
        assume(field_body_ok(&t[at..at + 1]));
    }
    let pre = format!("v=1;a={alg};d=x.org;s=s;h=From;bh={};b=", st(&t));
    let v = signed(pem(alg), false, &f, "From", "DKIM-Signature", &pre, "");
    let r = run(alg, &f, 0, "DKIM-Signature", v, &[b"x"]);
    match base64(&without_ws(&t)) {
        Some((d, canonical)) => {
            let eq = same(&d, &right);
            check(ok(&r) == eq || eq && !canonical, "body hash must be equal as a whole");
            if eq {
                reach("same");
            } else {
                reach("different");
            }
        }
        None => check(!ok(&r), "ill-formed body hash does not verify"),
    }
}

/// Signature bytes: anything but the signature itself is refused.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_sig_bytes() {
    let alg = pick("algorithm", &[ED, RS]);
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={alg};d=x.org;s=s;h=From;bh={bh};b=");
    let other = bool_("other key");
    let k = match (alg == ED, other) {
        (_, false) => pem(alg),
        (true, _) => ED2_PEM,
        _ => RSA2048_PEM,
    };
    let mut s = raw_sign(k, &data_hash(false, &f, "From", "DKIM-Signature", pre.as_bytes()));
    let n = s.len();
    let len = pick("length", &[0usize, 1, 2]);
    match len {
        1 => s.push(pick("end", &[0, 1])),
        2 => {
            s.pop();
        }
        _ => {}
    }
    let mut t = to_base64(&s);
    let was = t.clone();
    let at = pick("at", &[0, 1, 2, 3, 40, t.len() / 2, n, t.len() - 3]);
    t[at] = u8_("character");
    assume(t[at] != b';' && t[at] < 0x80 && t[at] != 13 && t[at] != 10);
    assume(field_body_ok(&t[at..at + 1]));
    let mut v = pre.into_bytes();
    v.extend(&t);
    let r = run(alg, &f, 0, "DKIM-Signature", v, &[]);
    let eq = same(&t, &was) && len == 0 && !other;
    check(ok(&r) == eq, "only the signature made with the key verifies");
    if ok(&r) {
        reach("same");
    } else {
        reach("different");
        if matches!(base64(&t), Some((_, true))) {
            check(bad_sig(&r), "wrong signature is reported as verification failure");
            reach("wrong signature");
        }
    }
}

/// `l=` limits the signed body; content beyond it is free to change.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_length() {
    let bc = choice("body", 2);
    let n = bound(3, 4);
    let body = bytes_upto("received", 0, n);
    let Some(c) = body_canon(bc == 1, &body) else { return };
    let l = choice("l", n as u64 + 3) as usize;
    let signed_body = bytes_upto("signed", 0, 2);
    let forbid = bool_("forbid unsigned");
    let f = simple_msg();
    let bh = b64(&sha(&signed_body));
    let pre = format!("v=1;a={ED};c=simple/{};d=x.org;s=s;l={l};h=From;bh={bh};b=", cname(bc));
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let cfg = Config { forbid_unsigned_content: forbid, ..Config::default() };
    let res = Res::one("s._domainkey.x.org.", record(ED));
    let r = verify(&res, &hf(&g), &cfg, &[&body]).unwrap().pop().unwrap();
    if l > c.len() {
        check(err(&r) == Some(&E::InsufficientContent), "body shorter than the declared length fails");
        check(r.status.to_dkim_result() == DkimResult::Permerror, "body shorter than the declared length is a permanent error");
        reach("too short");
    } else if forbid && l < c.len() {
        check(err(&r) == Some(&E::Policy(PolicyError::UnsignedContent)), "unsigned content fails when forbidden");
        reach("unsigned content");
    } else {
        let eq = same(&c[..l], &signed_body);
        check(ok(&r) == eq, "body hash covers the declared length of the canonical body");
        if eq && l > 0 && l < c.len() {
            reach("prefix");
        }
        if !eq {
            check(err(&r) == Some(&E::BodyHashMismatch), "different body is reported as body hash mismatch");
        }
    }
}

/// Several signatures in one message are verified each on its own.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_multi() {
    let body = bytes("body", 2);
    let n = 2 + choice("signatures", bound(1, 2) as u64) as usize;
    let f = simple_msg();
    let mut g = f.clone();
    let mut want = vec![];
    for i in 0..n {
        // 0-3 good by canonicalization; broken hash; broken signature; length; broken syntax
        let k = choice("kind", 7);
        let bc = k & 1;
        let Some(c) = body_canon(bc == 1, &body) else { return };
        let (alg, mut l) = if k & 2 == 2 && k < 4 { (RS, None) } else { (ED, None) };
        let mut h = sha(&c);
        match k {
            4 => h[3] ^= 1,
            6 => {
                l = Some(1usize);
                h = sha(&c[..c.len().min(1)]);
            }
            _ => {}
        }
        let lt = l.map_or(String::new(), |l| format!("l={l};"));
        let pre = format!("v=1;a={alg};c=simple/{};d=x.org;s={};h=From;{lt}bh={};b=", cname(bc), if alg == ED { "s" } else { "r" }, b64(&h));
        let mut v = signed(pem(alg), false, &f, "From", "DKIM-Signature", &pre, "");
        if k == 5 {
            v.push(b';');
            v.push(b';');
        }
        g.insert(i, (b"DKIM-Signature".to_vec(), v));
        want.push(match k {
            4 => 1,
            5 => 2,
            6 if c.is_empty() => 3,
            _ => 0,
        });
    }
    let res = Res::new(vec![
        ("s._domainkey.x.org.".into(), Ans::Recs(vec![Ok(record(ED))])),
        ("r._domainkey.x.org.".into(), Ans::Recs(vec![Ok(record(RS))])),
    ]);
    let r = verify(&res, &hf(&g), &Config::default(), &[&body[..1], &body[1..]]).unwrap();
    check(r.len() == n, "one result for each signature");
    for i in 0..n {
        check(r[i].index == i, "results are in header order");
        let k = match err(&r[i]) {
            None => 0,
            Some(E::BodyHashMismatch) => 1,
            Some(E::DkimSignatureFormat(_)) => 2,
            Some(E::InsufficientContent) => 3,
            _ => 9,
        };
        check(k == want[i], "each signature has its own result whatever the others are");
        if k == 0 {
            reach("success");
        }
    }
}

/// The signature field is not among the signed fields of itself; other
/// signature fields may be.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sound_self() {
    let hc = choice("header", 2);
    let mut f = simple_msg();
    let others = choice("others", 3);
    for i in 0..others {
        f.insert(i as usize, (b"DKIM-Signature".to_vec(), format!("v=1;x={i}").into_bytes()));
    }
    let h = pick("h", &["From", "DKIM-Signature:From", "From:dkim-signature", "From:dkim-signature:DKIM-Signature", "DKIM-Signature:DKIM-Signature:DKIM-Signature:From"]);
    let at = choice("at", others + 2) as usize;
    let name = pick("name", &["DKIM-Signature", "dkim-signature"]);
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};c={};d=x.org;s=s;h={h};bh={bh};b=", cname(hc));
    let v = signed(ED1_PEM, hc == 1, &f, h, name, &pre, "");
    let mut g = f.clone();
    g.insert(at, (name.as_bytes().to_vec(), v));
    let res = Res::one("s._domainkey.x.org.", record(ED));
    let r = verify(&res, &hf(&g), &Config::default(), &[]).unwrap();
    check(r.len() == 1 + others as usize, "one result for each signature");
    let r: Vec<_> = r.into_iter().filter(|r| r.index == at).collect();
    check(r.len() == 1 && ok(&r[0]), "signature listing the signature header name verifies");
    reach("verified");
}
