//! The building blocks offered to clients, used directly.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use viadkim::crypto::{self, CountingHasher, HashAlgorithm, HashStatus, KeyType, SigningKey, VerifyingKey};
use viadkim::header::*;
use viadkim::message_hash::*;
use viadkim::signature::*;
use viadkim::verifier::*;

const H: HashAlgorithm = HashAlgorithm::Sha256;

/// A hasher with any limit, fed in any pieces.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_block_counter() {
    let n = bound(4, 6);
    let b = bytes("data", n);
    let limit = if bool_("limited") { Some(u64_("limit") as usize) } else { None };
    let i = choice("cut1", n as u64 + 1) as usize;
    let j = i + choice("cut2", (n - i) as u64 + 1) as usize;
    let mut h = CountingHasher::new(H, limit);
    let mut fed = 0;
    for c in [&b[..i], &b[i..j], &b[j..]] {
        check(h.is_done() == (limit == Some(fed)), "a hasher is done exactly when its limit is reached");
        let left = limit.map_or(usize::MAX, |l| l - fed);
        let s = h.update(c);
        let all = c.len() <= left;
        check((s == HashStatus::AllConsumed) == all, "a hasher tells whether it took everything");
        fed += if all { c.len() } else { left };
        if !all {
            reach("truncated");
        }
    }
    check(h.is_done() == (limit == Some(fed)), "a hasher is done exactly when its limit is reached");
    match h.finish() {
        Ok((d, k)) => {
            check(limit.map_or(true, |l| l <= n) && k == fed, "a hasher tells how much it hashed");
            check(same(&d, &sha(&b[..fed])), "a hasher hashes the first octets up to its limit");
            reach("hashed");
        }
        Err(_) => {
            check(limit.map_or(false, |l| l > n), "a hasher is content with as much as its limit");
            reach("too little");
        }
    }
}

/// Body hashers with many registrations, fed beyond the point of need.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_block_hashers() {
    let n = bound(3, 4);
    let b = bytes("body", n);
    let fail = bool_("fail");
    let cut = choice("cut", n as u64 + 1) as usize;
    let k = 1 + choice("registrations", bound(2, 3) as u64) as usize;
    let mut reg = vec![];
    let mut hb = BodyHasherBuilder::new(fail);
    for _ in 0..k {
        let l = pick("limit", &[None, Some(0usize), Some(2), Some(n + 2), Some(usize::MAX)]);
        let c = canon(choice("relaxed", 2));
        hb.register_canonicalization(l, H, c);
        reg.push((l, H, c));
    }
    let mut h = hb.build();
    let mut done = false;
    for c in [&b[..cut], b"", &b[cut..]] {
        let s = h.hash_chunk(c) == BodyHasherStance::Done;
        check(s || !done, "a body hasher that is done stays done");
        done = s;
    }
    let r = h.finish();
    for l in [None, Some(0), Some(1), Some(2), Some(n + 2)] {
        for c in [CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed] {
            let key = (l, H, c);
            check(r.get(&key).is_some() == reg.contains(&key), "exactly the registered requests are answered");
        }
    }
    for key in &reg {
        let Some(got) = r.get(key) else { return };
        // what it gives alone, and what the RFC says
        let Some(c) = body_canon(key.2 == CanonicalizationAlgorithm::Relaxed, &b) else { return };
        let m = key.0.unwrap_or(c.len());
        match got {
            Ok((d, len)) => {
                check(m <= c.len() && (m == c.len() || !fail), "a body is hashed only if that is possible and allowed");
                check(*len == m && same(d, &sha(&c[..m.min(c.len())])), "each request gets its own hash and length");
                reach("hashed");
            }
            Err(BodyHashError::InsufficientInput) => {
                check(m > c.len(), "a body long enough is hashed");
                reach("too little");
            }
            Err(BodyHashError::InputTruncated) => {
                check(fail && m < c.len(), "only a body too long is truncated");
                reach("truncated");
            }
        }
    }
}

/// The signing and verification primitives.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_block_primitives() {
    let mut d = sha(&bytes("data", 1));
    let alg = pick("algorithm", &[ED, RS]);
    let sig = match key(pem(alg)) {
        SigningKey::Ed25519(k) => crypto::sign_ed25519(&k, &d),
        SigningKey::Rsa(k) => crypto::sign_rsa(H, &k, &d).unwrap(),
    };
    check(sig.len() == key(pem(alg)).signature_length(), "a signature has the length the key tells");
    check(same(&sig, &raw_sign(pem(alg), &d)), "a signature is that of the algorithm");
    let p = base64(if alg == ED { ED1_RAW } else { RSA1024_SPKI }.as_bytes()).unwrap().0;
    let vk = VerifyingKey::from_key_data(if alg == ED { KeyType::Ed25519 } else { KeyType::Rsa }, &p).unwrap();
    let mut s = sig.clone();
    let was = d.clone();
    match choice("change", 4) {
        0 => d[31] = u8_("octet"),
        1 => s[17] = u8_("octet"),
        2 => s.truncate(pick("length", &[0usize, 1, 63, 64, 127])),
        _ => s.push(u8_("octet")),
    }
    let r = match &vk {
        VerifyingKey::Ed25519(k) => crypto::verify_ed25519(k, &d, &s),
        VerifyingKey::Rsa(k) => crypto::verify_rsa(k, H, &d, &s),
    };
    check(r.is_ok() == (same(&d, &was) && same(&s, &sig)), "exactly the signature made verifies");
    if r.is_ok() {
        reach("verified");
    } else {
        reach("refused");
    }
    let k = match &vk {
        VerifyingKey::Ed25519(_) => crypto::read_rsa_public_key(&p).is_err(),
        VerifyingKey::Rsa(k) => crypto::read_rsa_public_key(&p).map_or(false, |q| q == *k) && crypto::read_ed25519_verifying_key(&p).is_err(),
    };
    check(k, "a key is read as the type it has");
}

/// A client that puts the building blocks together gets what the verifier says.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_block_client() {
    let alg = pick("algorithm", &[ED, RS]);
    let (hr, br) = (choice("header relaxed", 2), choice("body relaxed", 2));
    let l = pick("l", &["", "l=0;", "l=2;", "l=9;"]);
    let mut sub = vec![b' '];
    sub.extend(bytes("subject", bound(1, 2)));
    assume(field_body_ok(&sub));
    let f = fields(&[("From", b" a@x.org"), ("subject", &sub), ("To", b" b")]);
    let body = bytes("body", bound(2, 3));
    let pre = format!("v=1;a={alg};c={}/{};d=x.org;s=s;h=from:Subject:subject;{l}bh=", cname(hr), cname(br));
    let names: Vec<FieldName> = ["from", "Subject", "subject"].map(fname).into();
    // signing: the body hash is that of the body with its first octet as sent
    let mut sent = body.clone();
    if bool_("changed") {
        sent[0] = b'a';
    }
    let limit = match l {
        "" => None,
        l => Some((l.as_bytes()[2] - b'0') as usize),
    };
    let hash = |b: &[u8]| {
        let mut hb = BodyHasherBuilder::new(false);
        hb.register_canonicalization(limit, H, canon(br));
        let mut h = hb.build();
        let _ = h.hash_chunk(b);
        h.finish().get(&(limit, H, canon(br))).unwrap().clone()
    };
    let Ok((bh, _)) = hash(&sent) else {
        reach("too little");
        return;
    };
    let value = format!("{pre}{};b=", b64(&bh));
    let dh = compute_data_hash(H, canon(hr), &hf(&f), &names, "DKIM-Signature", &value);
    let s = match key(pem(alg)) {
        SigningKey::Ed25519(k) => crypto::sign_ed25519(&k, &dh),
        SigningKey::Rsa(k) => crypto::sign_rsa(H, &k, &dh).unwrap(),
    };
    let mut g = f.clone();
    // a change on the way
    let mut sub2 = sub.clone();
    sub2.push(u8_("more"));
    assume(field_body_ok(&sub2));
    if bool_("changed header") {
        g[1].1 = sub2;
    }
    let field = format!("{value}{}", b64(&s));
    // the verifier
    let r = run(alg, &g, 0, "DKIM-Signature", field.clone().into_bytes(), &[&body]);
    // the client
    let sig: DkimSignature = field.parse().unwrap();
    let k = body_hasher_key(&sig);
    check(k == (limit, H, canon(br)), "the request for a signature's body hash is what its tags say");
    let dh = compute_data_hash(H, sig.canonicalization.header, &hf(&g), &sig.signed_headers, "DKIM-Signature", &st(&without_b(field.as_bytes())));
    let p = base64(if alg == ED { ED1_RAW } else { RSA1024_SPKI }.as_bytes()).unwrap().0;
    let v = match VerifyingKey::from_key_data(sig.algorithm.key_type(), &p).unwrap() {
        VerifyingKey::Ed25519(k) => crypto::verify_ed25519(&k, &dh, &sig.signature_data),
        VerifyingKey::Rsa(k) => crypto::verify_rsa(&k, sig.algorithm.hash_algorithm(), &dh, &sig.signature_data),
    };
    let good = v.is_ok() && hash(&body).map_or(false, |(h, _)| same(&h, &sig.body_hash));
    check(ok(&r) == good, "building blocks put together give the verifier's result");
    if good {
        reach("verified");
    } else {
        reach("refused");
    }
}

/// `qp-section`, as offered for the notes of a key record.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_block_qp_section() {
    let mut v = pick("prefix", &[&b""[..], b"=4", b"\xc3\xa9 "]).to_vec();
    let t = bytes_upto("text", 0, bound(3, 4));
    assume(std::str::from_utf8(&t).is_ok());
    v.extend(&t);
    let r = viadkim::quoted_printable::decode_qp_section(std::str::from_utf8(&v).unwrap());
    let mut want = Some(vec![]);
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        i += 1;
        let x = if c == b'=' {
            let d = v.get(i).and_then(|&a| hexval(a)).zip(v.get(i + 1).and_then(|&a| hexval(a)));
            i += 2;
            d.map(|(a, b)| a << 4 | b)
        } else if wsp(c) || c >= 0x80 || (c > 0x20 && c < 0x7f && c != b';') {
            Some(c)
        } else {
            None
        };
        match x {
            Some(x) => want.as_mut().unwrap().push(x),
            None => {
                want = None;
                break;
            }
        }
    }
    // lower-case digits are accepted, which the RFC does not ask for
    check(r.is_ok() == want.is_some(), "a qp-section is accepted exactly when well-formed");
    if let (Ok(r), Some(w)) = (r, want) {
        check(same(&r, &w), "a qp-section is decoded");
        reach("decoded");
    } else {
        reach("refused");
    }
}
