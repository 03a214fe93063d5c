//! What values look like when printed.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tags::*;
use viadkim::crypto::*;
use viadkim::header::*;
use viadkim::record::*;
use viadkim::signature::*;

fn clean(s: &str) -> bool {
    let mut ok = true;
    for c in s.bytes() {
        ok &= c >= 0x20 && c != 0x7f;
    }
    ok
}
fn no_alabel(v: &[u8]) -> bool {
    let mut ok = true;
    for w in v.windows(4) {
        ok &= !ieq(w, b"xn--");
    }
    ok
}

/// Names print as they are and are read back.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_print_names() {
    let mut v = ascii("name", 1, bound(3, 4));
    v.extend(pick("suffix", &[&b""[..], b".x", b"-.example"]));
    assume(no_alabel(&v));
    let s = st(&v);
    let (d, e): (Result<DomainName, _>, _) = (s.parse(), DomainName::new(s.as_str()));
    check(d == e, "reading a domain name is the same as making one");
    if let Ok(d) = d {
        check(d.to_string() == s && format!("{d:?}") == s, "domain name prints as it is");
        check(d.to_string().parse() == Ok(d.clone()), "domain name is read back");
        check(clean(&format!("{d:?}")), "printed names have no control characters");
        let i = Identity::from_domain(d.clone());
        check(i.local_part.is_none() && i.domain == d, "identity of a domain");
        check(i.to_string() == format!("@{s}") && i.to_string().parse() == Ok(i), "identity of a domain is read back");
        reach("domain");
    }
    let (d, e): (Result<Selector, _>, _) = (s.parse(), Selector::new(s.as_str()));
    check(d == e, "reading a selector is the same as making one");
    if let Ok(d) = d {
        check(d.to_string() == s && format!("{d:?}") == s, "selector prints as it is");
        check(d.to_string().parse() == Ok(d), "selector is read back");
        reach("selector");
    }
    if let Ok(n) = FieldName::new(s.as_str()) {
        check(n.to_string() == s && format!("{n:?}") == s, "field name prints as it is");
        check(FieldName::new(n.to_string()) == Ok(n), "field name is read back");
        reach("field name");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_print_identity() {
    let mut v = pick("before", &[&b""[..], b"\"", b"a."]).to_vec();
    v.extend(ascii("local", 0, bound(2, 3)));
    v.extend(pick("after", &[&b"@x.org"[..], b"\"@X.y", b"\\\"\"@x", "\u{fc}@x.org".as_bytes()]));
    let s = st(&v);
    let (d, e): (Result<Identity, _>, _) = (s.parse(), Identity::new(&s));
    check(d == e, "reading an identity is the same as making one");
    let Ok(i) = d else { return };
    check(i.to_string() == s && format!("{i:?}") == s, "identity prints as it is");
    check(i.to_string().parse() == Ok(i.clone()), "identity is read back");
    check(clean(&s), "printed identities have no control characters");
    reach("identity");
}

/// Text in quotes, as programmers write it: reads it back.
fn unquote(s: &[u8]) -> Option<(Vec<u8>, &[u8])> {
    let mut s = s.strip_prefix(b"\"")?;
    let mut v = vec![];
    loop {
        match s {
            [b'"', r @ ..] => return Some((v, r)),
            [b'\\', b'x', a, b, r @ ..] => {
                let h = |c: u8| (c as char).to_digit(16);
                let b = (h(*a)? * 16 + h(*b)?) as u8;
                // what is text is shown as text
                if b < 0x80 {
                    return None;
                }
                v.push(b);
                s = r;
            }
            [b'\\', b'u', b'{', r @ ..] => {
                let e = r.iter().position(|c| *c == b'}')?;
                let n = u32::from_str_radix(&st(&r[..e]), 16).ok()?;
                v.extend(char::from_u32(n)?.to_string().bytes());
                s = &r[e + 1..];
            }
            [b'\\', c, r @ ..] => {
                v.push(match c {
                    b'n' => b'\n',
                    b'r' => b'\r',
                    b't' => b'\t',
                    b'0' => 0,
                    b'"' | b'\'' | b'\\' => *c,
                    _ => return None,
                });
                s = r;
            }
            [c, r @ ..] => {
                if *c < 0x20 || *c == 0x7f {
                    return None;
                }
                v.push(*c);
                s = r;
            }
            [] => return None,
        }
    }
}
/// The value of a field in the debug form of a struct, up to the end.
fn part<'a>(text: &'a str, field: &str) -> &'a [u8] {
    let k = format!("{field}: ");
    text.find(&k).map_or(&b""[..], |i| &text.as_bytes()[i + k.len()..])
}
fn shown_bytes(s: &[u8], v: &[u8], label: &str) {
    let want = if v.is_empty() { b"Empty,".to_vec() } else { [&b"Base64("[..], &to_base64(v), b"),"].concat() };
    check(s.len() >= want.len() && same(&s[..want.len()], &want), label);
}

/// The debug form of a signature shows what is in it, and nothing raw.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_print_signature() {
    let edge = pick("around", &[(&b""[..], &b""[..]), (b"\xc3", b""), (b"a\xff", b"\xe4\xb8\xad"), (b"\xf0\x9f", b"\xf0\x9f\x8f\xa0")]);
    let mut z = bytes("copied", bound(1, 2));
    // non-ASCII characters other than the chosen ones go into Unicode tables
    assume(z.iter().all(|c| *c < 0x80 || *c >= 0xf8 || *c < 0xa0));
    z.splice(0..0, edge.0.iter().copied());
    z.extend(edge.1);
    let x = bytes("extension", 1);
    assume(x[0] < 0x80);
    let data = bytes_upto("data", 0, bound(1, 2));
    let sig = DkimSignature {
        algorithm: SigningAlgorithm::Ed25519Sha256,
        signature_data: data.clone().into(),
        body_hash: vec![].into(),
        canonicalization: Canonicalization::from((canon(1), canon(choice("canon", 2)))),
        domain: dom("X.org"),
        signed_headers: vec![fname("From"), fname("to")].into(),
        identity: Some(Identity::new("a@x.org").unwrap()),
        body_length: Some(3),
        selector: sel("s"),
        timestamp: None,
        expiration: Some(u64::MAX),
        copied_headers: vec![(fname("Subject"), z.clone().into())].into(),
        ext_tags: vec![("r".into(), st(&x).into())].into(),
    };
    let text = format!("{sig:?}");
    check(clean(&text), "debug form has no control characters");
    shown_bytes(part(&text, "signature_data"), &data, "signature data are shown in Base64");
    shown_bytes(part(&text, "body_hash"), b"", "empty body hash is shown as that");
    let head = format!("DkimSignature {{ algorithm: {}, signature_data: ", sig.algorithm);
    check(text.starts_with(&head), "debug form shows the algorithm");
    for (n, v) in [
        ("canonicalization", sig.canonicalization.to_string()),
        ("domain", "X.org".into()),
        ("signed_headers", "[From, to]".into()),
        ("identity", "Some(a@x.org)".into()),
        ("body_length", "Some(3)".into()),
        ("selector", "s".into()),
        ("timestamp", "None".into()),
        ("expiration", "Some(18446744073709551615)".into()),
    ] {
        check(part(&text, n).starts_with(format!("{v}, ").as_bytes()), "debug form shows the values");
    }
    let c = part(&text, "copied_headers");
    let c = c.strip_prefix(b"[(Subject, ").unwrap_or(b"");
    match unquote(c) {
        Some((v, r)) => {
            check(same(&v, &z) && r.starts_with(b")], ext_tags: [(\"r\", "), "copied headers are shown as they are");
            if z.contains(&0xff) {
                reach("bytes");
            }
        }
        None => check(false, "copied headers are shown in quotes"),
    }
    if let Ok(b) = FieldBody::new(z.clone()) {
        let t = format!("{b:?}");
        check(unquote(t.as_bytes()).map_or(false, |(v, r)| same(&v, &z) && r.is_empty()), "field bodies are shown as they are");
        reach("field body");
    }
    let e = part(&text, "ext_tags");
    let e = e.strip_prefix(b"[(\"r\", ").unwrap_or(b"");
    check(unquote(e).map_or(false, |(v, r)| same(&v, &x) && r == b")] }"), "extension tags are shown as they are");
    reach("signature");
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_print_record() {
    let x = bytes("text", bound(1, 2));
    assume(x.iter().all(|c| *c < 0x80));
    let data = bytes_upto("data", 0, 2);
    let r = DkimKeyRecord {
        hash_algorithms: vec![HashAlgorithm::Sha256].into(),
        key_type: pick("type", &[KeyType::Rsa, KeyType::Ed25519]),
        notes: if bool_("notes") { Some(st(&x).into()) } else { None },
        key_data: data.clone().into(),
        service_types: pick("service", &[vec![ServiceType::Any], vec![ServiceType::Email, ServiceType::Any]]).into(),
        flags: pick("flags", &[vec![], vec![SelectorFlag::Testing], vec![SelectorFlag::NoSubdomains, SelectorFlag::Testing]]).into(),
        ext_tags: vec![("r".into(), st(&x).into())].into(),
    };
    let text = format!("{r:?}");
    check(clean(&text), "debug form has no control characters");
    shown_bytes(part(&text, "key_data"), &data, "key data are shown in Base64");
    let n = part(&text, "notes");
    match &r.notes {
        None => check(n.starts_with(b"None, key_data"), "absent notes"),
        Some(_) => check(
            n.strip_prefix(b"Some(").and_then(unquote).map_or(false, |(v, r)| same(&v, &x) && r.starts_with(b"), key_data")),
            "notes are shown as they are",
        ),
    }
    check(text.starts_with(&format!("DkimKeyRecord {{ hash_algorithms: [sha256], key_type: {}, notes: ", r.key_type)), "debug form shows the algorithms");
    let names: Vec<String> = r.flags.iter().map(|f| if *f == SelectorFlag::Testing { "y".into() } else { "s".into() }).collect();
    check(part(&text, "flags").starts_with(format!("[{}], ", names.join(", ")).as_bytes()), "debug form shows the flags");
    let s: &[u8] = if r.service_types.len() == 1 { b"[*], " } else { b"[email, *], " };
    check(part(&text, "service_types").starts_with(s), "debug form shows the service types");
    check(r.is_testing() == r.flags.contains(&SelectorFlag::Testing), "testing flag");
    reach("record");
}
