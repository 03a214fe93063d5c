//! Local policy, key lookup and classification of results.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use std::io::ErrorKind;
use std::time::{Duration, SystemTime};
use viadkim::header::*;
use viadkim::verifier::VerificationError as E;
use viadkim::verifier::*;

fn err(r: &VerificationResult) -> Option<&E> {
    match &r.status {
        VerificationStatus::Failure(e) => Some(e),
        _ => None,
    }
}
fn is_policy(r: &VerificationResult, p: PolicyError) -> bool {
    err(r) == Some(&E::Policy(p))
}
fn edres() -> Res {
    Res::one("s._domainkey.x.org.", record(ED))
}
fn name2(what: &str, lo: usize, hi: usize) -> Vec<u8> {
    let n = bytes_upto(what, lo, hi);
    assume(field_name_ok(&n) && n.iter().all(|c| *c != b';'));
    n
}
/// Does any member equal the name, ignoring case?
fn any_ieq(n: &[u8], of: &[&[u8]]) -> bool {
    let mut r = false;
    for o in of {
        r |= ieq(n, o);
    }
    r
}
fn count_ieq(n: &[u8], of: &[&[u8]]) -> u32 {
    let mut r = 0;
    for o in of {
        r += ieq(n, o) as u32;
    }
    r
}

/// Header names which must be signed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_policy_required() {
    let k = choice("required names", 3) as usize;
    let mut req: Vec<Vec<u8>> = vec![];
    for _ in 0..k {
        req.push(name2("required", 1, bound(1, 2)));
    }
    if bool_("and another") {
        req.insert(choice("place", k as u64 + 1) as usize, pick("known", &[b"sUBJECT".to_vec(), b"from".to_vec(), b"Subj".to_vec()]));
    }
    let s = name2("signed", 1, bound(1, 2));
    let h = format!("{}:From", st(&s));
    let h = if bool_("more signed") { format!("{h}:Subject") } else { h };
    let f = fields(&[("From", b" a"), ("Subject", b" x")]);
    // no header field has the arbitrary name, unless it is one of these
    assume(!ieq(&s, b"From") && !ieq(&s, b"Subject"));
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h={h};bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, &h, "DKIM-Signature", &pre, "");
    let cfg = Config {
        headers_required_in_signature: req.iter().map(|n| fname(&st(n))).collect(),
        headers_forbidden_to_be_unsigned: vec![],
        ..Config::default()
    };
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let r = verify(&edres(), &hf(&g), &cfg, &[]).unwrap().pop().unwrap();
    let l = list(&h);
    let mut all = true;
    for n in &req {
        all &= any_ieq(n, &l);
    }
    check(ok(&r) == all, "verifies exactly when every required header is signed");
    check(all || is_policy(&r, PolicyError::RequiredHeaderNotSigned), "required header not signed is reported as that");
    check(r.signature.is_some(), "signature is recorded");
    if all && k > 0 {
        reach("signed");
    }
    if !all {
        check(r.status.to_dkim_result() == DkimResult::Policy, "result is policy");
        reach("not signed");
    }
}

/// Header names of which every occurrence must be signed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_policy_unsigned() {
    let x = name2("field", 1, 1);
    assume(!ieq(&x, b"b"));
    let mut f = fields(&[("From", b" a")]);
    for (i, n) in [&x[..], b"b", b"B", &x[..], b"From"].iter().enumerate() {
        if bool_("present") {
            let p = if i == 3 { 0 } else { f.len() };
            f.insert(p, (n.to_vec(), format!(" {i}").into_bytes()));
        }
    }
    let s = name2("signed", 1, 1);
    let h = pick("h", &["", ":b", ":B:b:b", ":FROM"]);
    let h = format!("From:{}{h}", st(&s));
    let q = name2("forbidden", 1, 1);
    let mut forb = vec![q.clone()];
    match choice("forbidden too", 4) {
        0 => forb.clear(),
        1 => forb.push(b"b".to_vec()),
        2 => forb.insert(0, b"from".to_vec()),
        _ => {}
    }
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h={h};bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, &h, "DKIM-Signature", &pre, "");
    let cfg = Config {
        headers_forbidden_to_be_unsigned: forb.iter().map(|n| fname(&st(n))).collect(),
        ..Config::default()
    };
    let mut g = f.clone();
    let at = choice("at", 2) as usize * g.len();
    g.insert(at, (b"DKIM-Signature".to_vec(), v));
    let r = verify(&edres(), &hf(&g), &cfg, &[]).unwrap().pop().unwrap();
    let l = list(&h);
    let names: Vec<&[u8]> = f.iter().map(|(n, _)| &n[..]).collect();
    let mut all = true;
    for n in &forb {
        all &= count_ieq(n, &l) >= count_ieq(n, &names);
    }
    check(ok(&r) == all, "verifies exactly when no occurrence of the named headers is unsigned");
    check(all || is_policy(&r, PolicyError::UnsignedHeaderOccurrence), "unsigned occurrence is reported as that");
    if all && f.len() > 3 {
        reach("all signed");
    }
    if !all {
        reach("unsigned occurrence");
    }
}

/// By default an added From header makes a signature fail.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_policy_from() {
    let n = array::<4>("name");
    let mut k = n.to_vec();
    let mut same_name = true;
    for (i, c) in b"from".iter().enumerate() {
        same_name &= lower(k[i]) == *c;
    }
    assume(field_name_ok(&n) && k.iter().all(|c| *c != b';'));
    if bool_("longer") {
        k.push(b'x');
        same_name = false;
    }
    let f = fields(&[("From", b" a"), ("To", b" b")]);
    let bh = b64(&sha(b"\r\n"));
    let twice = bool_("oversigned");
    let h = if twice { "From:To:From" } else { "From:To" };
    let pre = format!("v=1;a={ED};d=x.org;s=s;h={h};bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, h, "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    g.insert(choice("place", 4) as usize, (k, b" evil".to_vec()));
    let r = verify(&edres(), &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap();
    check(ok(&r) != same_name, "an added From header makes the signature fail");
    if same_name {
        reach("added From");
    } else {
        reach("added other");
    }
}

/// Expiration and timestamp against the clock.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_time() {
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let num = |n: &str| match choice("size", 6) {
        0 => None,
        1 => {
            let d = bytes_upto(n, 1, bound(2, 4));
            assume(d.iter().all(|c| digit(*c)));
            Some(d)
        }
        2 => Some(b"18446744073709551615".to_vec()),
        3 => Some(b"1700000000".to_vec()),
        4 => Some(b"18446744073709551316".to_vec()),
        _ => Some(b"0009223372036854775808".to_vec()),
    };
    let t = num("t");
    let x = num("x");
    let tag = |n: &str, v: &Option<Vec<u8>>| v.as_ref().map_or(String::new(), |v| format!("{n}={};", st(v)));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;{}{}bh={bh};b=", tag("x", &x), tag("t", &t));
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let tol = u64_("tolerance");
    let now = u64_("now");
    assume(now < 1 << 63);
    let opt = choice("options", 4);
    let fixed = bool_("fixed");
    let cfg = Config {
        fixed_system_time: if fixed {
            at(now)
        } else {
            set_clock(now);
            None
        },
        time_tolerance: Duration::from_secs(tol) + Duration::from_millis(999),
        allow_expired: opt & 1 == 1,
        allow_timestamp_in_future: opt & 2 == 2,
        ..Config::default()
    };
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let r = verify(&edres(), &hf(&g), &cfg, &[]).unwrap().pop().unwrap();
    let t = t.map(|t| number(&t).unwrap());
    let x = x.map(|x| number(&x).unwrap());
    if let (Some(t), Some(x)) = (t, x) {
        if x <= t {
            check(matches!(err(&r), Some(E::DkimSignatureFormat(_))), "expiration not after the timestamp is an error");
            reach("x before t");
            return;
        }
    }
    let expired = opt & 1 == 0 && x.map_or(false, |x| now as u128 >= x as u128 + tol as u128 && now >= x.saturating_add(tol));
    let future = opt & 2 == 0 && t.map_or(false, |t| t as u128 > now as u128 + tol as u128);
    check(ok(&r) == !(expired || future), "verifies exactly when neither expired nor from the future");
    if expired {
        check(future || is_policy(&r, PolicyError::SignatureExpired), "expired signature is reported as that");
        reach("expired");
    }
    if future {
        check(expired || is_policy(&r, PolicyError::TimestampInFuture), "timestamp in future is reported as that");
        reach("from the future");
    }
    if !expired && !future {
        reach("in time");
    }
}

/// Clock before the epoch, sub-second clock.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_time_edge() {
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let x = choice("x", 3);
    let t = choice("t", 2) == 1;
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;{}{}bh={bh};b=", if x > 0 { format!("x={};", x + 1) } else { String::new() }, if t { "t=1;" } else { "" });
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let secs = u64_("seconds");
    let nanos = u64_("nanoseconds") as u32;
    assume(secs < 100 && nanos < 1_000_000_000);
    let neg = bool_("before the epoch");
    let d = Duration::new(secs, nanos);
    let tol = choice("tolerance", 3);
    let cfg = Config {
        fixed_system_time: Some(if neg { SystemTime::UNIX_EPOCH - d } else { SystemTime::UNIX_EPOCH + d }),
        time_tolerance: Duration::from_secs(tol),
        ..Config::default()
    };
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let r = verify(&edres(), &hf(&g), &cfg, &[]).unwrap().pop().unwrap();
    let now = if neg { 0 } else { secs };
    let expired = x > 0 && now >= x + 1 + tol;
    let future = t && 1 > now + tol;
    check(ok(&r) == !(expired || future), "verifies exactly when neither expired nor from the future");
    if neg {
        reach("before the epoch");
    }
    if expired {
        reach("expired");
    }
}

// ---- lookup ---------------------------------------------------------------------

const DOMS: [(&str, &str); 5] = [
    ("x.org", "x.org"),
    ("X.Org", "x.org"),
    ("bücher.de", "xn--bcher-kva.de"),
    ("xn--BCHER-kva.de", "xn--bcher-kva.de"),
    ("a.x.org", "a.x.org"),
];
const SELS: [(&str, &str); 3] = [("s", "s"), ("S", "s"), ("r.t", "r.t")];

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Good,
    Missing,
    Empty,
    Time,
    Invalid,
    Other,
}

fn kind_ok(k: Kind, r: &VerificationResult) -> bool {
    match k {
        Kind::Good => ok(r),
        Kind::Missing | Kind::Empty => err(r) == Some(&E::NoKeyFound),
        Kind::Time => err(r) == Some(&E::Timeout),
        Kind::Invalid => err(r) == Some(&E::InvalidKeyDomain),
        Kind::Other => err(r) == Some(&E::KeyLookup),
    }
}
fn ans(k: Kind) -> Ans {
    match k {
        Kind::Good => Ans::Recs(vec![Ok(record(ED))]),
        Kind::Missing => Ans::Err(ErrorKind::NotFound),
        Kind::Empty => Ans::Recs(vec![]),
        Kind::Time => Ans::Err(ErrorKind::TimedOut),
        Kind::Invalid => Ans::Err(ErrorKind::InvalidInput),
        Kind::Other => Ans::Err(pick("error", &[ErrorKind::Other, ErrorKind::ConnectionRefused, ErrorKind::InvalidData])),
    }
}

/// Which names are looked up, how often, and whose answer decides.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup() {
    let n = 2 + choice("signatures", bound(1, 2) as u64) as usize;
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mut g = f.clone();
    let mut want: Vec<Option<String>> = vec![];
    for i in 0..n {
        let (d, da) = if i == 0 { DOMS[choice("domain", 3) as usize] } else { DOMS[choice("domain", 5) as usize] };
        let (s, sa) = if i < 2 { SELS[choice("selector", 3) as usize] } else { SELS[0] };
        // ill-formed, expired: not looked up
        let k = if i == 0 { choice("broken", 3) } else { 0 };
        let extra = ["", "x=1;", "l=y;"][k as usize];
        let pre = format!("v=1;a={ED};d={d};s={s};h=From;{extra}bh={bh};b=");
        let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
        g.insert(i, (b"DKIM-Signature".to_vec(), v));
        want.push(if k == 0 { Some(format!("{sa}._domainkey.{da}.")) } else { None });
    }
    let mut names: Vec<String> = vec![];
    for w in want.iter().flatten() {
        if !names.contains(w) {
            names.push(w.clone());
        }
    }
    let kinds: Vec<Kind> =
        names.iter().map(|_| pick("answer", &[Kind::Good, Kind::Missing, Kind::Time])).collect();
    let table = names.iter().zip(&kinds).map(|(n, k)| (n.clone(), ans(*k))).collect();
    let res = Res::new(table);
    let r = verify(&res, &hf(&g), &Config::default(), &[]).unwrap();
    let mut asked = res.asked();
    asked.sort();
    names_sorted_check(&asked, &names);
    check(r.len() == n, "one result for each signature");
    for i in 0..n {
        check(r[i].index == i, "results are in header order");
        match &want[i] {
            Some(w) => {
                let at = names.iter().position(|x| x == w).unwrap();
                check(kind_ok(kinds[at], &r[i]), "each signature is judged by the answer for its own key name");
                check(r[i].key_record.is_some() == (kinds[at] == Kind::Good), "key record is recorded when found");
            }
            None => check(!ok(&r[i]) && r[i].key_record.is_none(), "refused signature stays refused"),
        }
    }
    if names.len() == 1 {
        reach("shared name");
    }
    if names.len() == 2 && kinds[0] != kinds[1] {
        reach("different answers");
    }
    if names.len() == 0 || want[0].is_none() {
        reach("no lookup for a refused signature");
    }
}
fn names_sorted_check(asked: &[String], names: &[String]) {
    let mut n = names.to_vec();
    n.sort();
    check(asked == n, "each key name is looked up exactly once, no other is");
}

/// The number of signatures processed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_max() {
    let n = choice("signatures", bound(3, 4) as u64 + 1) as usize;
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mut g = f.clone();
    let mut at = vec![];
    for i in 0..n {
        let bad = bool_("ill-formed");
        let pre = format!("{}v=1;a={ED};d=x.org;s=s{i};h=From;bh={bh};b=", if bad { ";" } else { "" });
        let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
        let p = g.len() - choice("place", 2) as usize;
        let p = if i > 0 && p <= at[i - 1] { g.len() } else { p };
        g.insert(p, (pick("name", &[b"DKIM-Signature".to_vec(), b"dkim-SIGNATURE".to_vec()]), v));
        at.push(p);
    }
    let max = u64_("maximum");
    let cfg = Config { max_signatures: max as usize, ..Config::default() };
    let res = Res::new((0..n).map(|i| (format!("s{i}._domainkey.x.org."), ans(Kind::Good))).collect());
    let r = verify(&res, &hf(&g), &cfg, &[]);
    let want = (n as u64).min(max) as usize;
    match r {
        None => check(want == 0, "no results only when there is no signature to process"),
        Some(r) => {
            check(r.len() == want, "the first signatures up to the maximum are processed");
            for (i, r) in r.iter().enumerate() {
                check(r.index == at[i], "results are in header order");
            }
            check(res.asked().len() <= want, "no lookup for ignored signatures");
            if r.len() < n {
                reach("limited");
            } else {
                reach("all");
            }
        }
    }
    if want == 0 {
        reach("none");
    }
}

/// Every kind of lookup error.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_errors() {
    use ErrorKind::*;
    let kinds = [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero,
        Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ];
    let k = pick("kind", &kinds);
    let per_record = bool_("per record");
    ERROR_TEXT.store(choice("text", 4) as u8, std::sync::atomic::Ordering::Relaxed);
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let a = if per_record { Ans::Recs(vec![Err(k)]) } else { Ans::Err(k) };
    let res = Res::new(vec![("s._domainkey.x.org.".into(), a)]);
    let r = verify(&res, &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap();
    let d = r.status.to_dkim_result();
    check(r.key_record.is_none(), "no key record");
    if per_record {
        check(matches!(err(&r), Some(E::KeyRecordFormat(viadkim::record::DkimKeyRecordError::RecordFormat))), "unusable record is reported as that");
        return;
    }
    match k {
        NotFound => {
            check(err(&r) == Some(&E::NoKeyFound) && d == DkimResult::Permerror, "no key found is a permanent error");
            reach("not found");
        }
        InvalidInput => check(err(&r) == Some(&E::InvalidKeyDomain) && d == DkimResult::Permerror, "invalid key name is a permanent error"),
        TimedOut => {
            check(err(&r) == Some(&E::Timeout) && d == DkimResult::Temperror, "timeout is a temporary error");
            reach("timed out");
        }
        _ => {
            check(err(&r) == Some(&E::KeyLookup) && d == DkimResult::Temperror, "other lookup errors are temporary errors");
            reach("other");
        }
    }
}

/// Answers every lookup with the same record and records the names.
#[derive(Clone)]
struct Any(std::sync::Arc<std::sync::Mutex<Vec<String>>>);
impl LookupTxt for Any {
    type Answer = Vec<std::io::Result<Vec<u8>>>;
    type Query<'a> = std::pin::Pin<Box<dyn std::future::Future<Output = std::io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        self.0.lock().unwrap().push(domain.to_owned());
        Box::pin(async { Ok(vec![Ok(record(ED))]) })
    }
}

/// The name looked up, for arbitrary characters in domain and selector.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_names() {
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mut g = f.clone();
    let mut want: Vec<Vec<u8>> = vec![];
    for i in 0..2 {
        let mut s = bytes("selector", bound(1, 2));
        let mut d = bytes("domain", 1);
        for c in s.iter().chain(&d) {
            let l = lower(*c);
            assume(digit(*c) | ((l >= b'a') & (l <= b'z')));
        }
        let (sp, dp) = pick("frame", &[("", ".x.org"), ("k.", "x.de"), ("k-1_2.", "-x._Y.o-r")]);
        s.extend(sp.strip_suffix('.').map_or(vec![], |p| format!(".{p}").into_bytes()));
        d.extend(dp.as_bytes());
        let pre = format!("v=1;a={ED};d={};s={};h=From;bh={bh};b=", st(&d), st(&s));
        let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
        g.insert(i, (b"DKIM-Signature".to_vec(), v));
        let mut w = vec![];
        w.extend(s.iter().map(|c| lower(*c)));
        w.extend(b"._domainkey.");
        w.extend(d.iter().map(|c| lower(*c)));
        w.push(b'.');
        want.push(w);
    }
    let res = Any(Default::default());
    let mut v = block_on(Verifier::verify_header(&res, &hf(&g), &Config::default())).unwrap();
    let _ = v.process_body_chunk(b"");
    let r = v.finish();
    let asked = res.0.lock().unwrap().clone();
    check(r.len() == 2 && ok(&r[0]) && ok(&r[1]), "both verify");
    let one = same(&want[0], &want[1]);
    let a0 = asked[0].as_bytes();
    if asked.len() == 1 {
        check(one & same(a0, &want[0]), "a shared key name is looked up once, in lower case");
        reach("shared name");
    } else {
        check(!one && asked.len() == 2, "different key names are looked up each");
        let a1 = asked[1].as_bytes();
        let right = (same(a0, &want[0]) & same(a1, &want[1])) | (same(a0, &want[1]) & same(a1, &want[0]));
        check(right, "the names looked up are those of the signatures, in lower case");
        reach("different answers");
    }
}

/// The key name of one signature, with longer names.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_name() {
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mut names = vec![];
    for (what, n) in [("selector", bound(2, 3)), ("domain", bound(5, 6))] {
        let s = bytes(what, n);
        let mut bad = false;
        for c in &s {
            let l = lower(*c);
            assume(digit(*c) | ((l >= b'a') & (l <= b'z')) | (*c == b'.') | (*c == b'-') | (*c == b'_'));
        }
        let sep = |c: u8| (c == b'.') | (c == b'-');
        bad |= sep(s[0]) | sep(s[n - 1]);
        for w in s.windows(2) {
            bad |= sep(w[0]) & sep(w[1]);
        }
        assume(!bad);
        names.push(s);
    }
    let (s, mut d) = (names[0].clone(), names[1].clone());
    d.extend(b".org");
    let pre = format!("v=1;a={ED};d={};s={};h=From;bh={bh};b=", st(&d), st(&s));
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let mut want: Vec<u8> = s.iter().map(|c| lower(*c)).collect();
    want.extend(b"._domainkey.");
    want.extend(d.iter().map(|c| lower(*c)));
    want.push(b'.');
    let res = Any(Default::default());
    let mut v = block_on(Verifier::verify_header(&res, &hf(&g), &Config::default())).unwrap();
    let _ = v.process_body_chunk(b"");
    let r = v.finish();
    let asked = res.0.lock().unwrap().clone();
    check(r.len() == 1 && ok(&r[0]) && asked.len() == 1, "the signature verifies");
    check(same(asked[0].as_bytes(), &want), "the name looked up is that of the signature");
    reach("asked");
}

/// A lookup that never ends is given up after the configured time.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_timeout() {
    use std::future::Future;
    use std::task::{Context, Poll, Waker};
    #[derive(Clone)]
    struct Never;
    impl LookupTxt for Never {
        type Answer = Vec<std::io::Result<Vec<u8>>>;
        type Query<'a> = std::pin::Pin<Box<dyn Future<Output = std::io::Result<Self::Answer>> + Send + 'a>>;
        fn lookup_txt(&self, _: &str) -> Self::Query<'_> {
            Box::pin(std::future::pending())
        }
    }
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let g = hf(&g);
    let cfg = Config { lookup_timeout: Duration::from_secs(1 + choice("timeout", 3)), ..Config::default() };
    let mut fut = Box::pin(Verifier::verify_header(&Never, &g, &cfg));
    let mut cx = Context::from_waker(Waker::noop());
    let mut done = false;
    for i in 0..5 {
        set_clock(1_700_000_000 + 10 * i);
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            let r = v.unwrap().finish().pop().unwrap();
            check(err(&r) == Some(&E::Timeout), "a lookup taking too long is a timeout");
            done = true;
            break;
        }
    }
    reach("polled");
    check(done, "a lookup is given up after the configured time");
}

// ---- classification -------------------------------------------------------------

use viadkim::record::DkimKeyRecordError as K;
use viadkim::signature::DkimSignatureErrorKind as S;

fn tag_text(tags: &[(&str, String)]) -> String {
    let t: Vec<String> = tags.iter().map(|(n, v)| format!("{n}={v}")).collect();
    t.join(";")
}
const NAMES: [&str; 7] = ["none", "pass", "fail", "policy", "neutral", "temperror", "permerror"];
fn result_name(d: DkimResult) -> &'static str {
    match d {
        DkimResult::None => NAMES[0],
        DkimResult::Pass => NAMES[1],
        DkimResult::Fail => NAMES[2],
        DkimResult::Policy => NAMES[3],
        DkimResult::Neutral => NAMES[4],
        DkimResult::Temperror => NAMES[5],
        DkimResult::Permerror => NAMES[6],
    }
}
fn classified(r: &VerificationResult, want: DkimResult) {
    let d = r.status.to_dkim_result();
    check(d == want, "fault is classified as documented");
    check(d.to_string() == result_name(want), "result is printed as in RFC 8601");
}

/// A fault in the signature field: what is reported, and its class.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_class_format() {
    use DkimResult::{Neutral, Permerror};
    let faults: [(&str, Option<&str>, S, DkimResult); 42] = [
        ("v", Some("2"), S::IncompatibleVersion, Neutral),
        ("v", None, S::MissingVersionTag, Permerror),
        ("a", Some("rsa-sha512"), S::UnsupportedAlgorithm, Neutral),
        ("a", Some("rsa-sha1"), S::HistoricAlgorithm, Permerror),
        ("a", None, S::MissingAlgorithmTag, Permerror),
        ("b", Some("A*"), S::InvalidBase64, Neutral),
        ("b", Some(""), S::EmptySignatureTag, Permerror),
        ("b", None, S::MissingSignatureTag, Permerror),
        ("bh", Some("A"), S::InvalidBase64, Neutral),
        ("bh", Some(" "), S::EmptyBodyHashTag, Permerror),
        ("bh", None, S::MissingBodyHashTag, Permerror),
        ("c", Some("strict"), S::UnsupportedCanonicalization, Neutral),
        ("c", Some("simple/"), S::UnsupportedCanonicalization, Neutral),
        ("d", Some("x..org"), S::InvalidDomain, Neutral),
        ("d", None, S::MissingDomainTag, Permerror),
        ("h", Some("From::To"), S::InvalidSignedHeaderName, Neutral),
        ("h", Some(""), S::EmptySignedHeadersTag, Permerror),
        ("h", Some("To:Subject"), S::FromHeaderNotSigned, Permerror),
        ("h", None, S::MissingSignedHeadersTag, Permerror),
        ("i", Some("a..b@x.org"), S::InvalidIdentity, Neutral),
        ("i", Some("@y.org"), S::DomainMismatch, Permerror),
        ("l", Some("-1"), S::InvalidBodyLength, Neutral),
        ("q", Some("dns/txt:"), S::InvalidQueryMethod, Neutral),
        ("q", Some("http/get"), S::NoSupportedQueryMethods, Neutral),
        ("s", Some("-"), S::InvalidSelector, Neutral),
        ("s", None, S::MissingSelectorTag, Permerror),
        ("t", Some("1.5"), S::InvalidTimestamp, Neutral),
        ("x", Some("1600000000"), S::ExpirationNotAfterTimestamp, Permerror),
        ("x", Some("99e9"), S::InvalidExpiration, Neutral),
        ("z", Some("From"), S::InvalidCopiedHeaderField, Neutral),
        ("a", Some("x;x"), S::TagListFormat, Neutral),
        // any two characters
        ("v", Some("?"), S::IncompatibleVersion, Neutral),
        ("a", Some("?"), S::UnsupportedAlgorithm, Neutral),
        ("b", Some("?"), S::InvalidBase64, Neutral),
        ("bh", Some("?"), S::InvalidBase64, Neutral),
        ("c", Some("?"), S::UnsupportedCanonicalization, Neutral),
        ("h", Some("?"), S::FromHeaderNotSigned, Permerror),
        ("i", Some("?"), S::InvalidIdentity, Neutral),
        ("l", Some("?"), S::InvalidBodyLength, Neutral),
        ("t", Some("?"), S::InvalidTimestamp, Neutral),
        ("q", Some("?"), S::NoSupportedQueryMethods, Neutral),
        ("z", Some("?"), S::InvalidCopiedHeaderField, Neutral),
    ];
    let f = simple_msg();
    let (tag, value, kind, want) = pick("fault", &faults);
    let any = bytes("characters", 2);
    let mut number = true;
    for c in &any {
        assume((*c > 0x20) & (*c < 0x7f) & (*c != b';') & (*c != b':') & (*c != b'@'));
        number &= (*c >= b'0') & (*c <= b'9');
    }
    // not a number, and not = at the end: an escape in some values
    assume(!number & (any[0] != b'='));
    let any = st(&any);
    let mut tags: Vec<(&str, String)> = vec![];
    let valid = [
        ("v", "1"), ("a", ED), ("c", "relaxed/simple"), ("d", "x.org"), ("s", "s"), ("h", "From"), ("i", "u@x.org"), ("l", "0"),
        ("q", "dns/txt"), ("t", "1600000000"), ("x", "1900000000"), ("z", "From:a"), ("y", "k"), ("bh", "AAAA"), ("b", "BBBB"),
    ];
    for (n, v) in valid {
        if n == tag {
            if let Some(x) = value {
                tags.push((n, if x == "?" { any.clone() } else { x.to_owned() }));
            }
        } else {
            tags.push((n, if n == "y" { any.clone() } else { v.to_owned() }));
        }
    }
    // the order of tags does not matter
    let k = choice("rotate", tags.len() as u64) as usize;
    tags.rotate_left(k);
    let v = tag_text(&tags);
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v.into_bytes()));
    // neither keys nor local policy are looked at
    let res = Res::new(vec![("s._domainkey.x.org.".into(), ans(pick("answer", &[Kind::Good, Kind::Missing, Kind::Time])))]);
    let cfg = Config { headers_required_in_signature: vec![fname(pick("required", &["From", "To"]))], ..Config::default() };
    let r = verify(&res, &hf(&g), &cfg, &[]).unwrap().pop().unwrap();
    let reported = matches!(err(&r), Some(E::DkimSignatureFormat(e)) if e.kind == kind);
    check(reported, "the fault in the signature field is reported as what it is");
    check(r.signature.is_none() && r.key_record.is_none(), "neither signature nor key record are given");
    check(res.asked().is_empty(), "no key lookup for an unusable signature");
    classified(&r, want);
    reach(if want == Neutral { "neutral" } else { "permanent error" });
}

/// A fault in key, hash or policy: what is reported, and its class.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_class_key() {
    use DkimResult::*;
    use viadkim::crypto::VerificationError as V;
    let good = format!("v=DKIM1;k=ed25519;p={ED1_RAW}");
    let faults: [(&str, E, DkimResult); 22] = [
        ("x;", E::KeyRecordFormat(K::TagListFormat), Neutral),
        ("v=DKIM2;p=", E::KeyRecordFormat(K::IncompatibleVersion), Neutral),
        ("p=;v=DKIM1", E::KeyRecordFormat(K::MisplacedVersionTag), Permerror),
        ("v=DKIM1", E::KeyRecordFormat(K::MissingKeyTag), Permerror),
        ("h=::;p=AA==", E::KeyRecordFormat(K::InvalidHashAlgorithm), Neutral),
        ("h=md5;p=AA==", E::KeyRecordFormat(K::NoSupportedHashAlgorithms), Neutral),
        ("k=dsa;p=AA==", E::KeyRecordFormat(K::UnsupportedKeyType), Neutral),
        ("n==;p=AA==", E::KeyRecordFormat(K::InvalidQuotedPrintable), Neutral),
        ("p=A", E::KeyRecordFormat(K::InvalidBase64), Neutral),
        ("s=email:;p=AA==", E::KeyRecordFormat(K::InvalidServiceType), Neutral),
        ("s=web;p=AA==", E::KeyRecordFormat(K::NoSupportedServiceTypes), Neutral),
        ("t=:y;p=AA==", E::KeyRecordFormat(K::InvalidFlag), Neutral),
        ("k=ed25519;p=", E::KeyRevoked, Permerror),
        ("k=rsa;p=AAAA", E::WrongKeyType, Permerror),
        ("k=ed25519;p=AAAA", E::VerificationFailure(V::InvalidKey), Permerror),
        ("other key", E::VerificationFailure(V::VerificationFailure), Fail),
        ("other domain", E::DomainMismatch, Permerror),
        ("other body", E::BodyHashMismatch, Fail),
        ("short body", E::InsufficientContent, Permerror),
        ("long body", E::Policy(PolicyError::UnsignedContent), Policy),
        ("expired", E::Policy(PolicyError::SignatureExpired), Policy),
        ("future", E::Policy(PolicyError::TimestampInFuture), Policy),
    ];
    let (what, e, want) = pick("fault", &faults);
    let rec = match what {
        "other key" => format!("v=DKIM1;k=ed25519;p={ED2_RAW}"),
        "other domain" => format!("{good};t=s"),
        w if w.contains('=') || w.contains(';') => w.to_owned(),
        _ => good,
    };
    let tail = match what {
        "other domain" => "i=@a.x.org;",
        "expired" => "x=1600000000;",
        "future" => "t=1900000000;",
        _ => "",
    };
    let f = simple_msg();
    let bh = b64(&sha(b"a\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;l=3;{tail}bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let other = [u8_("body"), b'\r', b'\n'];
    assume(other[0] != b'a');
    let body: &[u8] = match what {
        "other body" => &other,
        "short body" => b"",
        "long body" => b"a\r\nb",
        _ => b"a\r\n",
    };
    let cfg = Config { forbid_unsigned_content: true, ..Config::default() };
    let n = choice("records", 3) as usize;
    let mut recs = vec![Ok(rec.into_bytes())];
    if n > 0 {
        // the last record decides
        recs.insert(0, Ok(b"k=dsa;p=".to_vec()));
    }
    if n > 1 {
        recs.insert(1, Ok(b"v=DKIM1;k=ed25519;p=".to_vec()));
    }
    let res = Res::new(vec![("s._domainkey.x.org.".into(), Ans::Recs(recs))]);
    let r = verify(&res, &hf(&g), &cfg, &[body]).unwrap().pop().unwrap();
    check(err(&r) == Some(&e), "the fault is reported as what it is");
    check(r.signature.is_some(), "the signature is given");
    classified(&r, want);
    if want == Fail {
        reach("fail");
    }
    if want == Policy {
        reach("policy");
    }
}

/// The time answers take and the order keys are kept in make no difference.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_pending() {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    struct Later(u64, Option<std::io::Result<Vec<std::io::Result<Vec<u8>>>>>);
    impl Future for Later {
        type Output = std::io::Result<Vec<std::io::Result<Vec<u8>>>>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if self.0 == 0 {
                return Poll::Ready(self.1.take().unwrap());
            }
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    #[derive(Clone)]
    struct Slow(Vec<(String, u64, Kind)>);
    impl LookupTxt for Slow {
        type Answer = Vec<std::io::Result<Vec<u8>>>;
        type Query<'a> = Pin<Box<dyn Future<Output = std::io::Result<Self::Answer>> + Send + 'a>>;
        fn lookup_txt(&self, d: &str) -> Self::Query<'_> {
            for (n, wait, k) in &self.0 {
                if n == d {
                    let r = match ans(*k) {
                        Ans::Recs(v) => Ok(v.into_iter().map(|r| r.map_err(|k| k.into())).collect()),
                        Ans::Err(k) => Err(k.into()),
                    };
                    return Box::pin(Later(*wait, Some(r)));
                }
            }
            Box::pin(Later(0, Some(Err(ErrorKind::NotFound.into()))))
        }
    }
    SEED.store(choice("hash seed", bound(4, 8) as u64) as u8, std::sync::atomic::Ordering::Relaxed);
    let n = 3;
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mut g = f.clone();
    let mut table = vec![];
    for i in 0..n {
        let pre = format!("v=1;a={ED};d=x.org;s=s{i};h=From;bh={bh};b=");
        let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
        g.insert(i, (b"DKIM-Signature".to_vec(), v));
        let k = pick("answer", &[Kind::Good, Kind::Missing, Kind::Time]);
        table.push((format!("s{i}._domainkey.x.org."), choice("wait", 3), k));
    }
    let mut v = block_on(Verifier::verify_header(&Slow(table.clone()), &hf(&g), &Config::default())).unwrap();
    let _ = v.process_body_chunk(b"");
    let r = v.finish();
    check(r.len() == n, "one result for each signature");
    for i in 0..n {
        check(r[i].index == i, "results are in header order");
        check(kind_ok(table[i].2, &r[i]), "each signature is judged by its own answer however long it takes");
        if table[i].1 > 0 && ok(&r[i]) {
            reach("slow success");
        }
    }
}

/// International names of several labels in either form, and the same name
/// written in ASCII: one lookup, of the ASCII form.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_idn() {
    const L: [(&str, &str); 6] = [("k", "k"), ("ü", "xn--tda"), ("xn--tda", "xn--tda"), ("XN--TDA", "xn--tda"), ("中公", "xn--fiqy2f"), ("Bücher", "xn--bcher-kva")];
    let name = |what: &str| {
        let c = b'K';
        let (u, a) = pick(what, &L);
        let (v, b) = pick("next", &L);
        let (mut s, mut e) = (u.as_bytes().to_vec(), a.as_bytes().to_vec());
        match choice("letter at", 3) {
            0 => {
                s.splice(0..0, [c, b'.']);
                e.splice(0..0, [lower(c), b'.']);
            }
            1 => {
                s.extend([b'.', c]);
                e.extend([b'.', lower(c)]);
            }
            _ => {}
        }
        s.push(b'.');
        e.push(b'.');
        s.extend(v.bytes());
        e.extend(b.bytes());
        (s, e)
    };
    let ((s, sa), (mut d, mut da)) = if bool_("selector") { (name("selector"), (b"x".to_vec(), b"x".to_vec())) } else { ((b"s".to_vec(), b"s".to_vec()), name("domain")) };
    d.extend(b".org");
    da.extend(b".org");
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mut g = f.clone();
    for (s, d) in [(&s, &d), (&sa, &da)] {
        let pre = format!("v=1;a={ED};d={};s={};h=From;bh={bh};b=", st(d), st(s));
        let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
        g.insert(0, (b"DKIM-Signature".to_vec(), v));
    }
    let want = [&sa[..], b"._domainkey.", &da[..], b"."].concat();
    let res = Any(Default::default());
    let mut v = block_on(Verifier::verify_header(&res, &hf(&g), &Config::default())).unwrap();
    let _ = v.process_body_chunk(b"");
    let r = v.finish();
    let asked = res.0.lock().unwrap().clone();
    check(r.len() == 2 && ok(&r[0]) && ok(&r[1]), "names in either form verify");
    check(asked.len() == 1 && same(asked[0].as_bytes(), &want), "the name in ASCII form is looked up, once");
    reach("either form");
}

/// What is delivered is what is read, to the octet.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookup_answer() {
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let b = bytes_upto("octets", 1, bound(2, 3));
    let mut rec = record(ED);
    match choice("at", 4) {
        0 => {
            rec.splice(0..0, b);
        }
        1 => rec.extend(b),
        2 => {
            rec.splice(7..7, b);
        }
        _ => rec = b,
    }
    let want = std::str::from_utf8(&rec).ok().map(|s| s.parse::<viadkim::record::DkimKeyRecord>());
    let r = verify(&Res::one("s._domainkey.x.org.", rec), &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap();
    let e = match want {
        None => viadkim::record::DkimKeyRecordError::RecordFormat,
        Some(Err(e)) => e,
        Some(Ok(k)) => {
            check(r.key_record.as_deref() == Some(&k), "the record used is the one delivered");
            check(ok(&r) == same(&k.key_data, &base64(ED1_RAW.as_bytes()).unwrap().0), "the signature verifies exactly with its key");
            reach("record used");
            return;
        }
    };
    check(err(&r) == Some(&E::KeyRecordFormat(e)) && r.key_record.is_none(), "a record that cannot be read is refused for that");
    reach("record refused");
}
