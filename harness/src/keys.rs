//! Application of key records, and private key import.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use std::io::ErrorKind;
use viadkim::crypto::{self, DecodeSigningKeyError, KeyType, SigningKey, VerifyingKey};
use viadkim::verifier::VerificationError as E;
use viadkim::verifier::*;

const RSA1020_PEM: &str = include_str!("../keys/rsa1020.pem");
const RSA1020_SPKI: &str = include_str!("../keys/rsa1020.spki");
const RSA1023_PEM: &str = include_str!("../keys/rsa1023.pem");
const RSA1023_SPKI: &str = include_str!("../keys/rsa1023.spki");
const RSA1025_PEM: &str = include_str!("../keys/rsa1025.pem");
const RSA1025_SPKI: &str = include_str!("../keys/rsa1025.spki");
const RSA1032_PEM: &str = include_str!("../keys/rsa1032.pem");
const RSA1032_SPKI: &str = include_str!("../keys/rsa1032.spki");
const RSA1016_PEM: &str = include_str!("../keys/rsa1016.pem");
const RSA2048_PKCS1: &str = include_str!("../keys/rsa2048.pkcs1");

fn err(r: &VerificationResult) -> Option<&E> {
    match &r.status {
        VerificationStatus::Failure(e) => Some(e),
        _ => None,
    }
}
fn msg(pem: &str, alg: &str, extra: &str) -> Fields {
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={alg};d=x.org;s=s;h=From;{extra}bh={bh};b=");
    let v = signed(pem, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f;
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    g
}
fn one(g: &Fields, recs: Vec<Result<Vec<u8>, ErrorKind>>, cfg: &Config) -> VerificationResult {
    let res = Res::new(vec![("s._domainkey.x.org.".into(), Ans::Recs(recs))]);
    verify(&res, &hf(g), cfg, &[]).unwrap().pop().unwrap()
}

/// What the tags of a key record say about a signature.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_key_apply() {
    let alg = pick("algorithm", &[ED, RS]);
    let (i, sub) = pick(
        "identity",
        &[("", false), ("i=@x.org;", false), ("i=u@X.oRG;", false), ("i=@m.x.org;", true), ("i=u@a.b.x.org;", true)],
    );
    let g = msg(pem(alg), alg, i);
    let (k, kt) = pick("k", &[("", RS), ("k=rsa;", RS), ("k=ed25519;", ED)]);
    let (h, hok) = pick(
        "h",
        &[("", true), ("h=sha256;", true), ("h=sha1:sha256;", true), ("h=sha256 : x;", true), ("h=sha1;", false), ("h=x;", false)],
    );
    let (t, strict) = pick("t", &[("", false), ("t=y;", false), ("t=s;", true), ("t=y : s;", true), ("t=z:ss;", false)]);
    let (p, pk) = pick("p", &[(ED1_RAW, 1), (ED1_SPKI, 1), (RSA1024_SPKI, 2), (RSA1024_PKCS1, 2), ("", 0), ("AAAA", 3)]);
    let rec = format!("{k}{h}{t}p={p}");
    let r = one(&g, vec![Ok(rec.into_bytes())], &Config::default());
    let right = if alg == ED { 1 } else { 2 };
    let faults = [
        (!hok, E::DisallowedHashAlgorithm),
        (kt != alg, E::WrongKeyType),
        (pk == 0, E::KeyRevoked),
        (strict && sub, E::DomainMismatch),
        (pk != 0 && pk != right, E::VerificationFailure(crypto::VerificationError::InvalidKey)),
    ];
    let good = faults.iter().all(|f| !f.0);
    check(ok(&r) == good, "verifies exactly when the key record allows it");
    if good {
        check(r.key_record.is_some(), "key record is recorded");
        reach("allowed");
        if strict {
            reach("same domain");
        }
    } else {
        match err(&r).unwrap() {
            E::KeyRecordFormat(_) => check(!hok, "usable key record is not refused"),
            e => {
                let mut some = false;
                for (f, x) in &faults {
                    some |= *f && x == e;
                }
                check(some, "the failure reported is one that applies");
                let d = r.status.to_dkim_result();
                check(d == DkimResult::Permerror, "unsuitable key is a permanent error");
                check(r.key_record.is_some(), "key record is recorded");
            }
        }
        reach("refused");
        if faults[3].0 {
            reach("subdomain");
        }
    }
}

/// `t=s` and the identity's domain, for an arbitrary label or letter case.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_key_strict() {
    let a = bytes("identity domain", bound(2, 3));
    for c in &a {
        assume(digit(*c) | ((lower(*c) >= b'a') & (lower(*c) <= b'z')));
    }
    let (idom, d) = match choice("frame", 4) {
        0 => (st(&a), "xy".to_owned() + &"z".repeat(a.len() - 2)),
        1 => (format!("{}.xy", st(&a)), "xy".to_owned()),
        2 => ("m.bücher".to_owned(), "bücher".to_owned()),
        _ => ("xn--bcher-kva".to_owned(), "bücher".to_owned()),
    };
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d={d}.org;s=s;h=From;i=@{idom}.Org;bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f;
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let strict = bool_("strict");
    let rec = format!("k=ed25519;{}p={ED1_RAW}", if strict { "t=s;" } else { "" });
    let da = if d == "bücher" { "xn--bcher-kva".to_owned() } else { d.clone() };
    let res = Res::one(&format!("s._domainkey.{da}.org."), rec.into_bytes());
    let r = verify(&res, &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap();
    let same_domain = idom == "xn--bcher-kva" || ieq(idom.as_bytes(), d.as_bytes());
    let sub = same_domain || idom.contains('.');
    if !sub {
        check(matches!(err(&r), Some(E::DkimSignatureFormat(_))), "identity outside the domain is an error");
        return;
    }
    check(ok(&r) == (same_domain || !strict), "a strict key is only good for the domain itself");
    if strict && same_domain {
        reach("same domain");
    }
    if strict && !same_domain {
        check(err(&r) == Some(&E::DomainMismatch), "other domain is reported as domain mismatch");
        reach("subdomain");
    }
}

/// Key sizes against the fixed and the configured minimum.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_key_size() {
    let (p, k, bits) = pick(
        "key",
        &[
            (RSA512_PEM, RSA512_SPKI, 512),
            (RSA1016_PEM, RSA1016_SPKI, 1016),
            (RSA1020_PEM, RSA1020_SPKI, 1020),
            (RSA1023_PEM, RSA1023_SPKI, 1023),
            (RSA1024_PEM, RSA1024_SPKI, 1024),
            (RSA1024_PEM, RSA1024_PKCS1, 1024),
            (RSA1025_PEM, RSA1025_SPKI, 1025),
            (RSA1032_PEM, RSA1032_SPKI, 1032),
            (RSA2048_PEM, RSA2048_SPKI, 2048),
            (RSA2048_PEM, RSA2048_PKCS1, 2048),
            (ED1_PEM, ED1_RAW, 0u64),
        ],
    );
    let min = u64_("minimum");
    let cfg = Config { min_key_bits: min as usize, ..Config::default() };
    let (alg, kt) = if bits == 0 { (ED, "ed25519") } else { (RS, "rsa") };
    let g = msg(p, alg, "");
    let r = one(&g, vec![Ok(format!("k={kt};p={k}").into_bytes())], &cfg);
    let hard: u64 = if cfg!(feature = "legacy") { 512 } else { 1024 };
    let good = bits == 0 || bits >= hard && bits >= min;
    check(ok(&r) == good, "verifies exactly when the key is large enough");
    if bits != 0 && bits < hard {
        check(
            err(&r) == Some(&E::VerificationFailure(crypto::VerificationError::InsufficientKeySize)) || bits < min && err(&r) == Some(&E::Policy(PolicyError::KeyTooSmall)),
            "too small a key is reported as that",
        );
        reach("too small");
    } else if !good {
        check(err(&r) == Some(&E::Policy(PolicyError::KeyTooSmall)), "key smaller than configured is reported as that");
        reach("smaller than configured");
    } else {
        reach("large enough");
    }
    // the size as the key itself tells it
    let data = base64(k.as_bytes()).unwrap().0;
    let vk = VerifyingKey::from_key_data(if bits == 0 { KeyType::Ed25519 } else { KeyType::Rsa }, &data).unwrap();
    check(vk.key_size() == if bits == 0 { None } else { Some(bits as usize) }, "key size is the modulus size in bits");
    check(vk.validate_min_key_size().is_ok() == (bits == 0 || bits >= hard), "minimum key size");
    let sk = SigningKey::from_pkcs8_pem(p).unwrap();
    check(sk.signature_length() == if bits == 0 { 64 } else { (bits as usize + 7) / 8 }, "signature length");
}

#[derive(Clone, Copy, PartialEq)]
enum Rec {
    Good,
    Other,
    Revoked,
    Type,
    Syntax,
    Utf8,
    Io,
    NoKey,
    Small,
    Vers,
}
fn rec(k: Rec) -> Result<Vec<u8>, ErrorKind> {
    Ok(match k {
        Rec::Good => format!("k=ed25519;n=good;p={ED1_RAW}").into_bytes(),
        Rec::Other => format!("k=ed25519;p={ED2_RAW}").into_bytes(),
        Rec::Revoked => b"k=ed25519;p=".to_vec(),
        Rec::Type => format!("p={RSA1024_SPKI}").into_bytes(),
        Rec::Syntax => b"k=ed25519;;".to_vec(),
        Rec::Utf8 => b"k=ed25519;n=\xff;p=".to_vec(),
        Rec::NoKey => b"k=ed25519".to_vec(),
        Rec::Vers => b"v=DKIM2;p=".to_vec(),
        Rec::Small => b"k=ed25519;p=AAAA".to_vec(),
        Rec::Io => return Err(ErrorKind::Other),
    })
}
fn rec_err(k: Rec, e: &E) -> bool {
    use viadkim::record::DkimKeyRecordError as K;
    match k {
        Rec::Good => false,
        Rec::Other => *e == E::VerificationFailure(crypto::VerificationError::VerificationFailure),
        Rec::Revoked => *e == E::KeyRevoked,
        Rec::Type => *e == E::WrongKeyType,
        Rec::Syntax => *e == E::KeyRecordFormat(K::TagListFormat),
        Rec::Utf8 | Rec::Io => *e == E::KeyRecordFormat(K::RecordFormat),
        Rec::NoKey => *e == E::KeyRecordFormat(K::MissingKeyTag),
        Rec::Vers => *e == E::KeyRecordFormat(K::IncompatibleVersion),
        Rec::Small => *e == E::VerificationFailure(crypto::VerificationError::InvalidKey),
    }
}

/// Several key records under one name, several signatures using them.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_key_multi() {
    use Rec::*;
    let n = 1 + choice("records", bound(3, 4) as u64) as usize;
    let set: &[Rec] = match n {
        1 => &[Good, Other, Revoked, Type, Syntax, Utf8, Io, NoKey, Vers, Small],
        2 => &[Good, Other, Revoked, Type, Syntax, Utf8, Io, NoKey],
        _ => &[Good, Other, Revoked, Syntax],
    };
    let ks: Vec<Rec> = (0..n).map(|_| pick("record", set)).collect();
    let mut g = msg(ED1_PEM, ED, "");
    let two = n < 3 && bool_("second signature");
    if two {
        // made with the other key
        let h = msg(ED2_PEM, ED, "q=dns/txt;");
        g.insert(0, h[0].clone());
    }
    let res = Res::new(vec![("s._domainkey.x.org.".into(), Ans::Recs(ks.iter().map(|k| rec(*k)).collect()))]);
    let mut rs = verify(&res, &hf(&g), &Config::default(), &[]).unwrap();
    check(rs.len() == 1 + two as usize && res.asked().len() == 1, "one lookup for both");
    let r = rs.pop().unwrap();
    let has = ks.contains(&Good);
    if n <= 3 {
        check(ok(&r) == has, "verifies exactly when one of the records is good");
    } else {
        check(!ok(&r) || has, "verifies only if one of the records is good");
    }
    if ok(&r) {
        check(r.key_record.as_ref().and_then(|k| k.notes.as_deref()) == Some("good"), "the record recorded is the good one");
        if ks[0] != Good {
            reach("later record good");
        }
    } else {
        let e = err(&r).unwrap();
        let mut some = false;
        for k in &ks {
            some |= rec_err(*k, e);
        }
        check(some, "the failure reported is that of one of the records");
        let k = r.key_record.as_deref();
        let fits = match e {
            E::KeyRecordFormat(_) => k.is_none(),
            E::WrongKeyType => k.map_or(false, |k| k.key_type == KeyType::Rsa),
            E::KeyRevoked => k.map_or(false, |k| k.key_data.is_empty()),
            E::VerificationFailure(_) => k.map_or(false, |k| k.key_type == KeyType::Ed25519 && !k.key_data.is_empty()),
            _ => true,
        };
        check(fits, "the record recorded is one that fails as reported");
        if n == 1 {
            check(r.key_record.is_some() == matches!(ks[0], Other | Revoked | Type | Small), "key record is recorded when parsed");
            check(r.status.to_dkim_result() != DkimResult::Temperror, "unusable record is not a temporary error");
        }
        reach("none good");
    }
    if let Some(s) = rs.pop() {
        check(ok(&s) == ks.contains(&Other), "other signature verifies exactly when one of the records is good for it");
        if ok(&s) && ok(&r) {
            reach("each with its own record");
        }
    }
}

/// Characters of the key data: only the right key verifies.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_key_data() {
    let alg = RS;
    let g = msg(pem(alg), alg, "");
    let was = pick("form", &[RSA1024_SPKI, RSA1024_PKCS1]).as_bytes();
    let mut p = was.to_vec();
    let n = p.len();
    // header, length octets, modulus, exponent
    let at = pick("at", &[0, 2, 5, 7, 30, 38, 39, 100, n - 9, n - 5, n - 2]);
    p[at] = u8_("character");
    assume((p[at] > 0x20) & (p[at] < 0x7f) & (p[at] != b';'));
    let mut rec = b"p=".to_vec();
    rec.extend(&p);
    let r = one(&g, vec![Ok(rec)], &Config::default());
    match base64(&p) {
        Some((d, canonical)) => {
            let eq = same(&d, &base64(was).unwrap().0);
            check(!eq || ok(&r) || !canonical, "the right key verifies");
            check(eq || !ok(&r), "no other key verifies");
            if eq {
                reach("right key");
            } else {
                reach("other key");
            }
        }
        None => {
            check(matches!(err(&r), Some(E::KeyRecordFormat(_))), "key data that is not base64 is refused");
            reach("not base64");
        }
    }
}

/// Lengths and forms of Ed25519 key data.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_key_data_ed() {
    let spki = bool_("spki");
    let mut d = base64(if spki { ED1_SPKI } else { ED1_RAW }.as_bytes()).unwrap().0;
    let n = d.len();
    let len = pick("length", &[0, 1, 31, 32, 33, 43, 44, 45]);
    let exact = len == n;
    d.resize(len, 0);
    let k = VerifyingKey::from_key_data(KeyType::Ed25519, &d);
    if exact {
        match k {
            Ok(VerifyingKey::Ed25519(k)) => {
                check(same(k.as_bytes(), &base64(ED1_RAW.as_bytes()).unwrap().0), "Ed25519 key data gives that key")
            }
            _ => check(false, "Ed25519 key data is accepted"),
        }
        reach("accepted");
    } else if len != 32 {
        check(k.is_err(), "Ed25519 key data of wrong length is refused");
        reach("refused");
    }
    check(VerifyingKey::from_key_data(KeyType::Rsa, &d).is_err(), "Ed25519 key data is no RSA key");
    let rs = base64(pick("rsa", &[RSA1024_SPKI, RSA1024_PKCS1]).as_bytes()).unwrap().0;
    check(VerifyingKey::from_key_data(KeyType::Ed25519, &rs).is_err(), "RSA key data is no Ed25519 key");
}

/// A DER element of the given type at the start: its content and what follows.
fn der(s: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
    if s.len() < 2 || s[0] != tag {
        return None;
    }
    let (n, at) = if s[1] < 0x80 {
        (s[1] as usize, 2)
    } else if s[1] == 0x81 && s.len() > 2 && s[2] >= 0x80 {
        (s[2] as usize, 3)
    } else if s[1] == 0x82 && s.len() > 3 && s[2] != 0 {
        ((s[2] as usize) << 8 | s[3] as usize, 4)
    } else {
        return None;
    };
    if s.len() - at < n {
        return None;
    }
    Some((&s[at..at + n], &s[at + n..]))
}
/// A non-negative DER integer, without the leading zero octet.
fn der_int(s: &[u8]) -> Option<(&[u8], &[u8])> {
    let (v, rest) = der(s, 2)?;
    if v.is_empty() || v[0] >= 0x80 || v.len() > 1 && v[0] == 0 && v[1] < 0x80 {
        return None;
    }
    Some((if v.len() > 1 && v[0] == 0 { &v[1..] } else { v }, rest))
}
/// `RSAPublicKey` of RFC 8017: modulus and exponent.
fn pkcs1(s: &[u8]) -> Option<(&[u8], &[u8])> {
    let (s, rest) = der(s, 0x30)?;
    let (n, s) = der_int(s)?;
    let (e, s) = der_int(s)?;
    if s.is_empty() && rest.is_empty() {
        Some((n, e))
    } else {
        None
    }
}
/// `SubjectPublicKeyInfo` of RFC 5280 holding an RSA key (RFC 3279).
fn spki(s: &[u8]) -> Option<(&[u8], &[u8])> {
    let (s, rest) = der(s, 0x30)?;
    let (a, s) = der(s, 0x30)?;
    let (b, s) = der(s, 3)?;
    if a != b"\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00" || !s.is_empty() || !rest.is_empty() || b.is_empty() || b[0] != 0 {
        return None;
    }
    pkcs1(&b[1..])
}

/// RSA key data with one octet changed, or cut off, or with more behind.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_key_der() {
    use rsa::traits::PublicKeyParts;
    let (b, is_spki) = pick("form", &[(RSA1024_SPKI, true), (RSA1024_PKCS1, false), (RSA1016_SPKI, true), (RSA2048_SPKI, true), (RSA2048_PKCS1, false)]);
    let was = base64(b.as_bytes()).unwrap().0;
    let mut d = was.clone();
    let n = d.len();
    let small = b.len() < 256;
    match choice("change", 3) {
        0 => {
            // the last octets are the exponent, the first ones type and length octets
            let head = if is_spki { 34u64 } else { 12 };
            let at = choice("at", if small { head + 8 } else { bound(8, 34) as u64 }) as usize;
            let at = if at < head as usize { at } else { n - 1 - (at - head as usize) };
            d[at] = u8_("octet");
        }
        1 => {
            for _ in 0..1 + choice("more", bound(2, 4) as u64) {
                d.push(u8_("octet"));
            }
        }
        _ => d.truncate(n - 1 - choice("cut", bound(3, 12) as u64) as usize),
    }
    let r = VerifyingKey::from_key_data(KeyType::Rsa, &d);
    check(!matches!(r, Ok(VerifyingKey::Ed25519(_))), "an RSA key is an RSA key");
    match (spki(&d).or_else(|| pkcs1(&d)), r) {
        (Some((n, e)), Ok(VerifyingKey::Rsa(k))) => {
            check(same(&k.n().to_bytes_be(), n) && same(&k.e().to_bytes_be(), e), "the key is the one in the key data");
            if same(&d, &was) {
                reach("right key");
            } else {
                reach("other key");
            }
        }
        (None, r) => {
            check(r.is_err(), "key data in no known form is refused");
            reach("refused");
        }
        _ => check(!same(&d, &was), "a well-formed key is accepted"),
    }
}

/// Private keys in PEM form.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pem() {
    let text = pick("key", &[ED1_PEM, RSA1024_PEM]);
    let ed = text == ED1_PEM;
    let mut t = text.as_bytes().to_vec();
    let n = t.len();
    let body = text.find('\n').unwrap() + 1;
    let end = text.find("\n-----END").unwrap();
    let at = pick("at", &[0, 4, 5, 11, 12, 20, body - 1, body, body + 3, body + 12, body + 20, end, end + 6, n - 3]);
    t[at] = u8_("character");
    assume(t[at] < 0x80);
    let same_text = t[at] == text.as_bytes()[at];
    let r = SigningKey::from_pkcs8_pem(&st(&t));
    match &r {
        Ok(SigningKey::Ed25519(k)) => {
            check(ed, "an Ed25519 key stays one");
            check(r.as_ref().unwrap().key_type() == KeyType::Ed25519, "key type");
            if same_text {
                check(
                    same(k.verifying_key().as_bytes(), &base64(ED1_RAW.as_bytes()).unwrap().0),
                    "the key imported is the one written",
                );
                reach("ed25519");
            }
        }
        Ok(SigningKey::Rsa(k)) => {
            check(!ed, "an RSA key stays one");
            check(r.as_ref().unwrap().key_type() == KeyType::Rsa, "key type");
            if same_text {
                let d = base64(RSA1024_SPKI.as_bytes()).unwrap().0;
                match VerifyingKey::from_key_data(KeyType::Rsa, &d) {
                    Ok(VerifyingKey::Rsa(p)) => check(k.to_public_key() == p, "the key imported is the one written"),
                    _ => check(false, "public key is accepted"),
                }
                reach("rsa");
            }
        }
        Err(e) => {
            check(!same_text, "a well-formed private key is imported");
            if at == 12 || at == 20 {
                check(
                    matches!(e, DecodeSigningKeyError::NotAPrivateKeyInfoDocument | DecodeSigningKeyError::InvalidPemDocument),
                    "other kind of document is reported as that",
                );
                reach("refused");
            }
        }
    }
}
