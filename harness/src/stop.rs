//! Stopping early: a processor that says it needs no more does not, and the
//! answer does not depend on whether the client listens.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use viadkim::header::*;
use viadkim::message_hash::BodyHasherStance;
use viadkim::signature::*;
use viadkim::signer::*;
use viadkim::verifier::*;

/// Two parts of the body, and a bit more or nothing.
fn cut(b: &[u8]) -> [&[u8]; 3] {
    let (b, t) = b.split_at(b.len() - choice("third part", 2) as usize);
    let i = choice("cut", b.len() as u64 + 1) as usize;
    [&b[..i], &b[i..], t]
}
/// Feeds chunks until told to stop; the number of chunks fed.
fn feed(chunks: &[&[u8]], mut f: impl FnMut(&[u8]) -> BodyHasherStance) -> usize {
    for (i, c) in chunks.iter().enumerate() {
        if let BodyHasherStance::Done = f(c) {
            return i + 1;
        }
    }
    chunks.len()
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_stop_verify() {
    let n = bound(2, 3);
    let body = bytes("body", n);
    let chunks = cut(&body);
    let forbid = bool_("forbid");
    let f = simple_msg();
    let mut g = f.clone();
    let k = 1 + choice("signatures", 2) as usize;
    for i in 0..k {
        let bc = choice("body canon", 2);
        let l = if i == 0 { choice("l", n as u64 + 2) } else { pick("l", &[0, 2]) };
        let lt = if l == 0 { String::new() } else { format!("l={};", l - 1) };
        let h = match body_canon(bc == 1, &body) {
            Some(c) if l == 0 => sha(&c),
            Some(c) if l as usize - 1 <= c.len() => sha(&c[..l as usize - 1]),
            _ => sha(b""),
        };
        let pre = format!("v=1;a={ED};c=simple/{};d=x.org;s=s;h=From;{lt}bh={};b=", cname(bc), b64(&h));
        let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
        g.insert(i, (b"DKIM-Signature".to_vec(), v));
    }
    let cfg = Config { forbid_unsigned_content: forbid, ..Config::default() };
    let g = hf(&g);
    let res = Res::one("s._domainkey.x.org.", record(ED));
    let mut a = block_on(Verifier::verify_header(&res, &g, &cfg)).unwrap();
    let used = feed(&chunks, |c| a.process_body_chunk(c));
    let mut b = block_on(Verifier::verify_header(&res, &g, &cfg)).unwrap();
    for (i, c) in chunks.iter().enumerate() {
        let d = matches!(b.process_body_chunk(c), BodyHasherStance::Done);
        check(d == (i + 1 >= used && (used < 3 || d)), "once no more is needed, no more is needed later");
    }
    let (a, b) = (a.finish(), b.finish());
    check(a.len() == b.len() && a.len() == k, "one result for each signature");
    for (a, b) in a.iter().zip(&b) {
        check(a.status == b.status, "stopping when told so does not change the result");
    }
    if used < 3 {
        reach("stopped early");
        if a.iter().any(|a| ok(a)) {
            reach("verified");
        }
        if forbid && !a.iter().any(|a| ok(a)) {
            reach("refused");
        }
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_stop_sign() {
    let n = bound(2, 3);
    let body = bytes("body", n);
    let chunks = cut(&body);
    let k = 1 + choice("requests", 2) as usize;
    let mut reqs = vec![];
    for i in 0..k {
        let bc = choice("body canon", 2);
        let l = match choice("length", if i == 0 { n as u64 + 3 } else { 2 }) + i as u64 {
            0 => BodyLength::NoLimit,
            1 => BodyLength::MessageContent,
            l => BodyLength::Exact(l - 2),
        };
        reqs.push((bc, l));
    }
    let f = hf(&simple_msg());
    let make = || {
        let rs = reqs.iter().map(|(bc, l)| {
            let mut r = SignRequest::new(dom("x.org"), sel("s"), SigningAlgorithm::Ed25519Sha256, key(ED1_PEM));
            r.canonicalization = Canonicalization::from((canon(0), canon(*bc)));
            r.body_length = *l;
            r.timestamp = Timestamp::Exact(1_700_000_000);
            r
        });
        Signer::prepare_signing(f.clone(), rs).map_err(|_| ()).unwrap()
    };
    let mut a = make();
    let used = feed(&chunks, |c| a.process_body_chunk(c));
    let mut b = make();
    for c in &chunks {
        let _ = b.process_body_chunk(c);
    }
    let (a, b) = (block_on(a.sign()), block_on(b.sign()));
    check(a.len() == k && b.len() == k, "one result for each request");
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        match (a, b) {
            (Ok(a), Ok(b)) => {
                check(same(a.format_header().to_string().as_bytes(), b.format_header().to_string().as_bytes()), "stopping when told so does not change the signature");
                let l = a.signature.body_length;
                let right = match (reqs[i].1, body_canon(reqs[i].0 == 1, &body)) {
                    (BodyLength::NoLimit, _) => l.is_none(),
                    (BodyLength::Exact(n), _) => l == Some(n),
                    (BodyLength::MessageContent, Some(c)) => l == Some(c.len() as u64),
                    (BodyLength::MessageContent, None) => l.is_some(),
                };
                check(right, "declared length is the one asked for");
                if used < 3 {
                    reach("stopped early");
                }
            }
            (Err(a), Err(b)) => {
                check(a == b, "stopping when told so does not change the error");
                reach("error");
            }
            _ => check(false, "stopping when told so does not change success"),
        }
    }
}
