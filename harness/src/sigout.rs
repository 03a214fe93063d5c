//! Validation of signing requests.
use crate::common::*;
use crate::e2e::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use std::time::Duration;
use viadkim::signature::*;
use viadkim::signer::*;

fn prepare(s: Vec<SignRequest<viadkim::crypto::SigningKey>>, f: &Fields) -> Result<(), RequestError> {
    Signer::prepare_signing(hf(f), s).map(|_| ())
}
/// Every defect there may be, alone and combined.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_request() {
    let mut s = spec();
    let mut faults = vec![];
    match choice("algorithm", 4) {
        0 => {}
        1 => {
            s.alg = RS;
            s.pem = RSA1024_PEM;
        }
        2 => {
            s.alg = RS;
            faults.push(RequestError::IncompatibleKeyType);
        }
        _ => {
            s.pem = RSA2048_PEM;
            faults.push(RequestError::IncompatibleKeyType);
        }
    }
    match choice("selection", 6) {
        0 => {}
        1 => s.select = Some(vec!["To", "fROM"]),
        2 => {
            s.select = Some(vec![]);
            faults.push(RequestError::FromHeaderNotSigned);
        }
        3 => {
            s.select = Some(vec!["To", "Resent-From", "Fro"]);
            faults.push(RequestError::FromHeaderNotSigned);
        }
        4 => {
            s.select = Some(vec!["From", "X;"]);
            faults.push(RequestError::InvalidSignedFieldName);
        }
        _ => {
            s.select = Some(vec![";"]);
            faults.push(RequestError::FromHeaderNotSigned);
            faults.push(RequestError::InvalidSignedFieldName);
        }
    }
    let (i, bad) = pick("identity", &[("", false), ("@x.org", false), ("u@a.X.ORG", false), ("@org.x", true), ("@ax.org", true)]);
    if !i.is_empty() {
        s.identity = Some((i, i));
    }
    if bad {
        faults.push(RequestError::DomainMismatch);
    }
    let d = choice("duration", 5);
    s.duration = [None, Some(Duration::ZERO), Some(Duration::from_millis(999)), Some(Duration::from_millis(1000)), Some(Duration::MAX)][d as usize];
    if d == 1 || d == 2 {
        faults.push(RequestError::ZeroExpirationDuration);
    }
    let f = match choice("message", 2) {
        0 => fields(&[("To", b""), ("fRoM", b" a")]),
        _ => {
            faults.push(RequestError::MissingFromHeader);
            fields(&[("To", b" a"), ("Resent-From", b" b")])
        }
    };
    let r = prepare(vec![s.request()], &f);
    match r {
        Ok(()) => {
            check(faults.is_empty(), "a faulty request is refused");
            reach("accepted");
        }
        Err(e) => {
            check(faults.contains(&e), "a request is refused only for a fault it has");
            reach("refused");
        }
    }
}

/// Header name and indentation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_request_format() {
    let mut r = spec().request();
    let mut name = b"DKIM-Signature".to_vec();
    let at = choice("at", 14) as usize;
    let c = array::<2>("characters");
    assume((c[0] < 0x80) & (c[1] < 0x80));
    name[at] = c[0];
    let extra = choice("extra", 3);
    match extra {
        0 => {}
        1 => name.push(c[1]),
        _ => {
            name.remove(13 - at);
        }
    }
    let n = bytes_upto("indentation", 0, bound(2, 3));
    let mut ws = !n.is_empty();
    let mut ascii = true;
    for c in &n {
        ws &= wsp(*c);
        ascii &= *c < 0x80;
    }
    assume(ascii);
    r.format.header_name = st(&name);
    r.format.indentation = st(&n);
    let good = extra == 0 && ieq(&name, b"DKIM-Signature");
    match prepare(vec![r], &simple_msg()) {
        Ok(()) => {
            check(good && ws, "a faulty format is refused");
            reach("accepted");
        }
        Err(RequestError::InvalidDkimSignatureHeaderName) => {
            check(!good, "a header name is refused only if it is another");
            reach("header name");
        }
        Err(RequestError::InvalidIndentationWhitespace) => {
            check(!ws, "an indentation is refused only if empty or not whitespace");
            reach("indentation");
        }
        _ => check(false, "a faulty format is reported as that"),
    }
}

/// Signed header names.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_request_names() {
    let mut r = spec().request();
    let a = bytes("name", 4);
    let b = bytes("name", bound(1, 2));
    assume(field_name_ok(&a) && field_name_ok(&b));
    let v = if bool_("swap") { vec![fname(&st(&b)), fname(&st(&a))] } else { vec![fname(&st(&a)), fname(&st(&b))] };
    r.header_selection = HeaderSelection::Manual(v);
    let from = ieq(&a, b"from");
    let mut semi = false;
    for c in a.iter().chain(&b) {
        semi |= *c == b';';
    }
    match prepare(vec![r], &simple_msg()) {
        Ok(()) => {
            check(from & !semi, "a faulty selection is refused");
            reach("accepted");
        }
        Err(RequestError::FromHeaderNotSigned) => {
            check(!from, "a selection with From is not refused for lack of it");
            reach("no From");
        }
        Err(RequestError::InvalidSignedFieldName) => {
            check(semi, "a name is refused only if it contains a semicolon");
            reach("semicolon");
        }
        _ => check(false, "a faulty selection is reported as that"),
    }
}

/// The identity must be within the domain.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_request_identity() {
    let mut r = spec().request();
    let a = bytes_upto("identity", 1, bound(3, 4));
    let b = bytes_upto("domain", 1, 3);
    for c in a.iter().chain(&b) {
        assume(digit(*c) | ((lower(*c) >= b'a') & (lower(*c) <= b'z')) | (*c == b'.'));
    }
    assume(a[0] != b'.' && a[a.len() - 1] != b'.' && b[0] != b'.' && b[b.len() - 1] != b'.');
    let mut dots = false;
    for w in a.windows(2).chain(b.windows(2)) {
        dots |= w == b"..";
    }
    assume(!dots);
    let mut da = a.clone();
    da.extend(b".org");
    let mut db = b.clone();
    db.extend(b".oRG");
    r.domain = dom(&st(&db));
    r.identity = Some(Identity::new(&format!("u@{}", st(&da))).unwrap());
    let k = da.len().wrapping_sub(db.len());
    let within = da.len() >= db.len() && ieq(&da[k..], &db) && (k == 0 || da[k - 1] == b'.');
    match prepare(vec![r], &simple_msg()) {
        Ok(()) => {
            check(within, "an identity outside the domain is refused");
            reach("accepted");
        }
        Err(e) => {
            check(!within && e == RequestError::DomainMismatch, "an identity within the domain is accepted");
            reach("refused");
        }
    }
}

/// The number of requests.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_request_count() {
    let n = choice("requests", 13) as usize;
    let bad = choice("bad", 13) as usize;
    let rs: Vec<_> = (0..n)
        .map(|i| {
            let mut s = spec();
            if i == bad {
                s.duration = Some(Duration::ZERO);
            }
            s.request()
        })
        .collect();
    let r = prepare(rs, &simple_msg());
    let has_bad = bad < n;
    match r {
        Ok(()) => {
            check(n >= 1 && n <= 10 && !has_bad, "one to ten good requests are accepted");
            reach("accepted");
        }
        Err(RequestError::EmptyRequests) => check(n == 0, "no requests"),
        Err(RequestError::TooManyRequests) => {
            check(n > 10, "too many requests");
            reach("too many");
        }
        Err(e) => check(has_bad && e == RequestError::ZeroExpirationDuration, "one bad request refuses all"),
    }
    if n == 0 {
        check(r == Err(RequestError::EmptyRequests), "no requests are refused");
    }
}

/// Any duration: seconds and their fractions.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_request_duration() {
    let mut s = spec();
    let secs = pick("seconds", &[0u64, 1, 2, 59, 300, 86_400, 432_000, 1 << 32]);
    let nanos = u64_("nanoseconds");
    assume(nanos < 1_000_000_000);
    s.duration = Some(Duration::new(secs, nanos as u32));
    s.time = pick("time", &[Timestamp::Exact(1_000_000), Timestamp::None, Timestamp::Now]);
    set_clock(1_000_000);
    let f = fields(&[("From", b" a")]);
    match Signer::prepare_signing(hf(&f), vec![s.request()]) {
        Err(e) => {
            check(secs == 0 && e == RequestError::ZeroExpirationDuration, "every duration of a second or more is accepted");
            reach("too short");
        }
        Ok(_) => {
            check(secs > 0, "a duration of less than a second is refused");
            let out = sign1(&hf(&f), s.request(), &[b"x"]).unwrap();
            check(out.signature.expiration == Some(1_000_000 + secs), "expiration is the duration in whole seconds later");
            reach("duration");
        }
    }
}
