//! What happens when nothing special is asked for.
use crate::common::*;
use crate::e2e::default_name;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use std::time::Duration;
use viadkim::header::*;
use viadkim::signature::*;
use viadkim::signer::*;
use viadkim::verifier::*;

/// Fields of any name are signed by default exactly if their name is one of those documented.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_default_select() {
    const N: [&str; 26] = [
        "From", "Reply-To", "Subject", "Date", "To", "Cc", "Resent-Date", "Resent-From", "Resent-To", "Resent-Cc",
        "In-Reply-To", "References", "List-Id", "List-Help", "List-Unsubscribe", "List-Subscribe", "List-Post",
        "List-Owner", "List-Archive", "Return-Path", "Received", "Comments", "Keywords", "DKIM-Signature", "Message-ID",
        "Resent-Sender",
    ];
    let mut n = pick("name", &N).as_bytes().to_vec();
    let k = choice("position", 4) as usize;
    let at = [0, n.len() / 2, n.len() - 1, n.len()][k];
    let x = u8_("byte");
    if at < n.len() {
        n[at] = x;
    } else if bool_("longer") {
        n.push(x);
    }
    assume(field_name_ok(&n));
    let h = default_name(&n);
    let f: Fields = vec![
        (n.clone(), b" 1".to_vec()),
        (b"Received".to_vec(), b" r".to_vec()),
        (b"from".to_vec(), b" a@x.org".to_vec()),
        (n.clone(), b" 2".to_vec()),
    ];
    let name = fname(&st(&n));
    let s = default_signed_headers();
    check(s.iter().any(|d| *d == name) == h, "default set of headers to sign is the one documented");
    let u = default_unsigned_headers();
    check(!s.iter().any(|d| u.contains(d)), "no header is in both default sets");
    let r = SignRequest::new(dom("x.org"), sel("s"), SigningAlgorithm::Ed25519Sha256, key(ED1_PEM));
    set_clock(1_700_000_000);
    let g = hf(&f);
    let out = sign1(&g, r, &[]).unwrap();
    let got = &out.signature.signed_headers;
    let want: Vec<FieldName> = match h {
        true => vec![name.clone(), fname("from"), name.clone()],
        false => vec![fname("from")],
    };
    check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b), "fields signed by default are all those of the default set");
    // any selection
    let sel: Vec<&FieldName> = select_headers(&g, |x| *x == name).collect();
    let c = if ieq(&n, b"received") || ieq(&n, b"from") { 3 } else { 2 };
    check(sel.len() == c && sel.iter().all(|x| **x == name), "header selection gives all fields that match");
    let all: Vec<&FieldName> = select_headers(&g, |_| true).collect();
    check(all.len() == 4 && (0..4).all(|i| same(all[i].as_ref().as_bytes(), &f[3 - i].0)), "header selection is in reverse order");
    reach(if h { "signed" } else { "not signed" });
}

/// A request with nothing but the necessary.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_default_sign() {
    // the digits of the time decide about line breaks
    let x = u8_("now");
    assume(x < 4);
    let now = pick("now", &[0u64, 1_700_000_000, (1 << 40) - 2, 99_997]) + x as u64;
    set_clock(now);
    let c = bytes("body", 2);
    let f = simple_msg();
    let r = SignRequest::new(dom("x.org"), sel("s"), SigningAlgorithm::Ed25519Sha256, key(ED1_PEM));
    let out = sign1(&hf(&f), r, &[&c]).unwrap();
    let g = &out.signature;
    check(out.header_name == "DKIM-Signature", "default header name");
    check(g.canonicalization.to_string() == "relaxed/simple", "default canonicalization is relaxed/simple");
    check(g.timestamp == Some(now), "default timestamp is the current time");
    check(g.expiration == Some(now + 5 * 86400), "default validity is five days");
    check(g.body_length.is_none() && g.identity.is_none() && g.copied_headers.is_empty() && g.ext_tags.is_empty(), "nothing else is in a signature by default");
    check(!out.header_value.contains('\u{a0}') && out.header_value.split("\r\n").skip(1).all(|l| l.starts_with('\t')), "default indentation is a tab");
    check(out.header_value.split("\r\n").enumerate().all(|(i, l)| l.len() + if i == 0 { 15 } else { 0 } <= 79), "default line width is 78");
    let g = with_top(out.to_header_field(), &hf(&f));
    let d = Res::one("s._domainkey.x.org.", record(ED));
    let v = verify(&d, &g, &Config::default(), &[&c]).unwrap().pop().unwrap();
    check(v.status == VerificationStatus::Success, "default signature verifies with the default configuration");
    reach("signed");
}

/// The default configuration is the one documented, whatever the message.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_default_config() {
    let c = Config {
        lookup_timeout: Duration::from_secs(10),
        max_signatures: 10,
        headers_required_in_signature: vec![],
        headers_forbidden_to_be_unsigned: vec![fname("From")],
        min_key_bits: 1024,
        allow_sha1: false,
        forbid_unsigned_content: false,
        allow_expired: false,
        allow_timestamp_in_future: false,
        time_tolerance: Duration::from_secs(300),
        fixed_system_time: None,
    };
    let d = Config::default();
    check(d.lookup_timeout == c.lookup_timeout, "default lookup timeout is ten seconds");
    let now = 1_700_000_000u64;
    set_clock(now);
    let d_ = u8_("t");
    assume(d_ < 4);
    let t = pick("t", &[now - 602, now - 302, now - 1, now + 298]) + d_ as u64;
    let x = t + choice("valid", 2) * 300 + 1;
    let mut f = simple_msg();
    let k = choice("message", 4);
    let (alg, l) = match k {
        0 => (ED, ";l=0"),
        1 => (RS, ""),
        _ => (ED, ""),
    };
    let bh = b64(&sha(if k == 0 { b"" } else { b"x\r\n" }));
    let pre = format!("v=1;a={alg};d=x.org;s=s;t={t};x={x};h=From{l};bh={bh};b=");
    let v = signed(pem(alg), false, &f, "From", "DKIM-Signature", &pre, "");
    if k == 2 {
        f.insert(0, (b"from".to_vec(), b" b@x.org".to_vec()));
    }
    let n = if k == 3 { 12 } else { 1 };
    for i in 0..n {
        let v = if i == 0 { v.clone() } else { b"v=1".to_vec() };
        f.insert(i, (b"DKIM-Signature".to_vec(), v));
    }
    let res = Res::one("s._domainkey.x.org.", record(alg));
    let a = verify(&res, &hf(&f), &d, &[b"x\r\n"]).unwrap();
    let b = verify(&res, &hf(&f), &c, &[b"x\r\n"]).unwrap();
    check(a.len() == if k == 3 { 10 } else { 1 }, "ten signatures are looked at by default");
    check(a == b, "the default configuration acts as the one documented");
    let good = k != 2 && now < x + 300 && t <= now + 300;
    check(ok(&a[0]) == good, "default policy is the one documented");
    reach(if good { "accepted" } else { "refused" });
}
