//! Local policy only ever refuses: a configuration that asks for less accepts
//! whatever one that asks for more accepts, and nothing else changes.
use crate::alone::*;
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use std::time::Duration;
use viadkim::verifier::VerificationError as E;
use viadkim::verifier::*;

fn policy(s: &VerificationStatus) -> bool {
    matches!(s, VerificationStatus::Failure(E::Policy(_)))
}
fn names(k: u64) -> Vec<viadkim::header::FieldName> {
    let all = ["From", "subject", "To"];
    (0..3).filter(|i| k >> i & 1 == 1).map(|i| fname(all[i])).collect()
}

/// One policy and the same one loosened in one respect.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_strict_policy() {
    let f = fields(&[("To", b" c"), ("From", b" a@x.org"), ("Subject", b" hi"), ("subject", b" hi")]);
    let body = b"y\r\n";
    let mut g = f.clone();
    let k = choice("signature", 17);
    let times = |t: &str| {
        let pre = format!("v=1;a={RS};d=x.org;s=r;{t}h=From:Subject:Subject;bh={};b=", b64(&sha(body)));
        signed(pem(RS), false, &f, "From:Subject:Subject", "DKIM-Signature", &pre, "")
    };
    let v = match k {
        15 => times("t=1000;x=2000;l=3;"),
        16 => times("x=18446744073709551615;t=18446744073709551614;"),
        // not those with several records, of which another may then decide
        14 => variant(18, &f, body),
        k => variant(k, &f, body),
    };
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let more = bool_("more content");
    let sent: &[u8] = if more { b"y\r\nz\r\n" } else { body };
    let go = |c: &Config| verify(&resolver(), &hf(&g), c, &[sent]).map(|mut r| r.pop().unwrap());

    let now = u64_("now");
    assume(now < 1 << 62);
    let some = |required: u64, forbidden: u64, bits: u64, flags: u64, tolerance: u64| Config {
        headers_required_in_signature: names(required),
        headers_forbidden_to_be_unsigned: names(forbidden),
        min_key_bits: bits as usize,
        allow_expired: flags & 1 == 1,
        allow_timestamp_in_future: flags & 2 == 2,
        forbid_unsigned_content: flags & 4 == 0,
        time_tolerance: Duration::from_secs(tolerance),
        fixed_system_time: at(now),
        ..Config::default()
    };
    // one aspect of the policy at a time, the others as loose as possible
    let free = some(0, 0, 0, 7, 0);
    let (strict, loose) = match choice("aspect", 6) {
        0 => {
            let r = choice("required", 8);
            (some(r, 0, 0, 7, 0), some(r & choice("fewer", 8), 0, 0, 7, 0))
        }
        1 => {
            let r = choice("forbidden", 8);
            (some(0, r, 0, 7, 0), some(0, r & choice("fewer", 8), 0, 7, 0))
        }
        2 => {
            let (a, b) = (u64_("bits"), u64_("fewer bits"));
            assume(b <= a);
            (some(0, 0, a, 7, 0), some(0, 0, b, 7, 0))
        }
        3 => {
            let (a, b) = (u64_("tolerance"), u64_("greater tolerance"));
            assume(a <= b);
            let flags = 4 | choice("flags", 4);
            (some(0, 0, 0, flags, a), some(0, 0, 0, flags, b))
        }
        4 => {
            let a = choice("flags", 8);
            (some(0, 0, 0, a, 300), some(0, 0, 0, a | choice("more flags", 8), 300))
        }
        _ => {
            let r = 1 + choice("all", 7);
            (some(r, r, u64_("bits"), choice("flags", 8), u64_("tolerance")), some(r, 0, 0, 7, 0))
        }
    };
    let (Some(s), Some(l), Some(f)) = (go(&strict), go(&loose), go(&free)) else {
        check(false, "a signature gets a result");
        return;
    };
    check(!policy(&f.status), "without local policy nothing fails because of it");
    for (a, b) in [(&s, &l), (&l, &f)] {
        if policy(&a.status) {
            reach("refused");
        } else {
            check(a.status == b.status, "a looser policy changes no other result");
            check(a.signature == b.signature && a.key_record == b.key_record, "a looser policy changes no other data");
            reach(if ok(a) { "accepted" } else { "failed" });
        }
    }
}

/// The limit on the number of signatures cuts the results off, no more.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_strict_limit() {
    let f = simple_msg();
    let body = b"y\r\n";
    let mut g = f.clone();
    let n = 1 + choice("signatures", bound(2, 3) as u64) as usize;
    for i in 0..n {
        let v = variant(choice("variant", if n > 2 { 6 } else { 19 }), &f, body);
        let at = if bool_("below") { g.len() } else { i };
        g.insert(at, (b"DKIM-Signature".to_vec(), v));
    }
    let max = u64_("limit");
    let all = verify(&resolver(), &hf(&g), &Config { max_signatures: usize::MAX, ..Config::default() }, &[body]).unwrap();
    let some = verify(&resolver(), &hf(&g), &Config { max_signatures: max as usize, ..Config::default() }, &[body]);
    check(some.is_none() == (max == 0), "no signature looked at, no verification");
    let some = some.unwrap_or_default();
    check(some.len() == all.len().min(max as usize), "as many results as there are signatures, up to the limit");
    for (a, b) in some.iter().zip(&all) {
        check(a.index == b.index && a.status == b.status && a.signature == b.signature && a.key_record == b.key_record, "the results up to the limit are the same");
        reach("limited");
    }
    if max == 0 {
        reach("none");
    }
}
