//! The option for algorithms and key sizes from before RFC 8301.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use rsa::Pkcs1v15Sign;
use sha1::Sha1;
use sha2::Digest;
use viadkim::crypto::{HashAlgorithm, KeyType, SigningKey};
use viadkim::header::*;
use viadkim::signature::*;
use viadkim::signer::*;
use viadkim::verifier::VerificationError as E;
use viadkim::verifier::*;

fn sha1(b: &[u8]) -> Vec<u8> {
    Sha1::digest(b).to_vec()
}
fn sign_sha1(pem: &str, relaxed: bool, f: &Fields, h: &str, pre: &str) -> Vec<u8> {
    let mut v = pre.as_bytes().to_vec();
    let hash = sha1(&hash_input(relaxed, &refs(f), &list(h), b"DKIM-Signature", &v));
    let SigningKey::Rsa(k) = key(pem) else { panic!() };
    v.extend(to_base64(&k.sign(Pkcs1v15Sign::new::<Sha1>(), &hash).unwrap()));
    v
}
const RSA1016_PEM: &str = include_str!("../keys/rsa1016.pem");
const S1: &str = "rsa-sha1";

/// SHA-1, key record and key size against configuration.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_legacy_policy() {
    let alg = pick("algorithm", &[S1, "RSA-sha1", RS, ED]);
    let is1 = alg != RS && alg != ED;
    let f = simple_msg();
    let (pem, p, bits) = if alg == ED {
        (ED1_PEM, ED1_RAW, 9999)
    } else {
        pick("key", &[(RSA512_PEM, RSA512_SPKI, 512), (RSA1016_PEM, RSA1016_SPKI, 1016), (RSA1024_PEM, RSA1024_PKCS1, 1024)])
    };
    let c = [u8_("body")];
    let Some(body) = body_canon(false, &c) else { return };
    let bh = if is1 { sha1(&body) } else { sha(&body) };
    let pre = format!("v=1;a={alg};d=x.org;s=s;h=From;bh={};b=", b64(&bh));
    let v = if is1 { sign_sha1(pem, false, &f, "From", &pre) } else { signed(pem, false, &f, "From", "DKIM-Signature", &pre, "") };
    let mut g = f;
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let (h, h1, h2) = pick(
        "hashes",
        &[("", true, true), ("h=sha1;", true, false), ("h=SHA1 : x;", true, false), ("h=sha256;", false, true), ("h=sha1:sha256;", true, true)],
    );
    let rec = format!("{h}k={};p={p}", if alg == ED { "ed25519" } else { "rsa" });
    let min = u64_("minimum");
    let allow = bool_("allow");
    let cfg = Config { allow_sha1: allow, min_key_bits: min as usize, ..Config::default() };
    let r = verify(&Res::one("s._domainkey.x.org.", rec.into_bytes()), &hf(&g), &cfg, &[&c]).unwrap().pop().unwrap();
    let want = if is1 && !allow {
        reach("refused");
        Some(E::Policy(PolicyError::Sha1HashAlgorithm))
    } else if is1 && !h1 || !is1 && !h2 {
        reach("not allowed by the key");
        Some(E::DisallowedHashAlgorithm)
    } else if alg != ED && bits < min {
        reach("small");
        Some(E::Policy(PolicyError::KeyTooSmall))
    } else {
        reach(if is1 { "verified with SHA-1" } else { "verified" });
        None
    };
    check(
        match (&r.status, &want) {
            (VerificationStatus::Success, None) => true,
            (VerificationStatus::Failure(e), Some(w)) => e == w,
            _ => false,
        },
        "old algorithms and keys are accepted exactly as configured",
    );
}

/// Signed content under SHA-1.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_legacy_sound() {
    let rel = bool_("relaxed");
    let a = bytes_upto("signed", 1, bound(2, 3));
    let b = bytes_upto("received", 1, bound(2, 3));
    assume(field_body_ok(&a) && field_body_ok(&b));
    let body = bytes("body", 1);
    let other = bytes("other body", 1);
    let (Some(x), Some(y)) = (body_canon(rel, &body), body_canon(rel, &other)) else { return };
    let f: Fields = vec![(b"From".to_vec(), a.clone())];
    let g: Fields = vec![(b"From".to_vec(), b.clone())];
    let c = if rel { "relaxed/relaxed" } else { "simple/simple" };
    let pre = format!("v=1;a={S1};c={c};d=x.org;s=s;h=From;bh={};b=", b64(&sha1(&x)));
    let v = sign_sha1(RSA1024_PEM, rel, &f, "From", &pre);
    let mut g = g;
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let cfg = Config { allow_sha1: true, ..Config::default() };
    let r = verify(&Res::one("s._domainkey.x.org.", record(RS)), &hf(&g), &cfg, &[&other]).unwrap().pop().unwrap();
    let head = same(&header_canon(rel, b"From", &a), &header_canon(rel, b"From", &b));
    let text = same(&x, &y);
    check(ok(&r) == (head && text), "verifies exactly when header and body are what was signed");
    reach(if head && text { "same" } else if head { "other body" } else { "other header" });
}

/// Signing with SHA-1, and with small keys.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_legacy_sign() {
    let (pem, p) = pick("key", &[(RSA512_PEM, RSA512_SPKI), (RSA1024_PEM, RSA1024_SPKI), (ED1_PEM, ED1_RAW)]);
    let alg = pick("algorithm", &[SigningAlgorithm::RsaSha1, SigningAlgorithm::RsaSha256, SigningAlgorithm::Ed25519Sha256]);
    let f = simple_msg();
    let body = bytes("body", bound(1, 2));
    let mut q = SignRequest::new(dom("x.org"), sel("s"), alg, key(pem));
    q.canonicalization = Canonicalization::from((canon(choice("header", 2)), canon(0)));
    let fits = (alg.key_type() == KeyType::Rsa) == (pem != ED1_PEM);
    let mut s = match Signer::prepare_signing(hf(&f), [q]) {
        Ok(s) => s,
        Err(e) => {
            check(!fits && e == RequestError::IncompatibleKeyType, "key and algorithm must match");
            reach("refused");
            return;
        }
    };
    check(fits, "key and algorithm must match");
    let _ = s.process_body_chunk(&body);
    let out = block_on(s.sign()).pop().unwrap().unwrap();
    let bh = body_canon(false, &body).unwrap();
    let bh = if alg == SigningAlgorithm::RsaSha1 { sha1(&bh) } else { sha(&bh) };
    check(same(&out.signature.body_hash, &bh), "body hash is the algorithm's");
    check(out.signature.algorithm == alg, "algorithm is the one asked for");
    let text = out.format_header().to_string();
    check(text.contains(&format!("a={alg};")), "algorithm is named in the field");
    let g = with_top(out.to_header_field(), &hf(&f));
    let rec = format!("k={};p={p}", alg.key_type());
    let allow = bool_("allow");
    let cfg = Config { allow_sha1: allow, min_key_bits: 512, ..Config::default() };
    let r = verify(&Res::one("s._domainkey.x.org.", rec.into_bytes()), &g, &cfg, &[&body]).unwrap().pop().unwrap();
    check(ok(&r) == (allow || alg != SigningAlgorithm::RsaSha1), "signed message verifies unless refused by policy");
    if ok(&r) {
        reach("verified");
    }
}

/// Names and parts of the algorithms.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_legacy_names() {
    let k = pick("key type", &[KeyType::Rsa, KeyType::Ed25519]);
    let h = pick("hash", &[HashAlgorithm::Sha1, HashAlgorithm::Sha256]);
    match SigningAlgorithm::from_parts(k, h) {
        Some(a) => {
            check(a.key_type() == k && a.hash_algorithm() == h, "parts of an algorithm");
            check(a.to_string() == format!("{k}-{h}"), "name of an algorithm");
            check(a.to_string().parse() == Ok(a), "name is parsed back");
            reach("algorithm");
        }
        None => check(k == KeyType::Ed25519 && h == HashAlgorithm::Sha1, "only Ed25519 with SHA-1 is no algorithm"),
    }
    let mut v = pick("name", &["rsa-sha1", "rsa-sha256", "ed25519-sha1"]).as_bytes().to_vec();
    let at = choice("at", v.len() as u64) as usize;
    v[at] = u8_("byte");
    assume(v[at] < 0x80);
    let got: Result<SigningAlgorithm, _> = st(&v).parse();
    let want = if ieq(&v, b"rsa-sha1") {
        Some(SigningAlgorithm::RsaSha1)
    } else if ieq(&v, b"rsa-sha256") {
        Some(SigningAlgorithm::RsaSha256)
    } else {
        None
    };
    check(got.ok() == want, "algorithm names are recognised ignoring case, no others are");
    let rec: Result<viadkim::record::DkimKeyRecord, _> = format!("h={};p=AAAA", pick("h", &["sha1", "x:Sha1", "md5"])).parse();
    match rec {
        Ok(r) => check(r.hash_algorithms[..] == [HashAlgorithm::Sha1], "SHA-1 is read from the key record"),
        Err(_) => reach("none supported"),
    }
}
