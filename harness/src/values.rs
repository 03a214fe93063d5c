//! Values of signature and key record tags.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tags::*;
use viadkim::crypto::*;
use viadkim::record::*;
use viadkim::signature::DkimSignatureErrorKind as K;
use viadkim::signature::*;

/// An otherwise valid signature with the given tag.
fn sig_with(tag: &str, value: &[u8]) -> Result<DkimSignature, DkimSignatureError> {
    let mut s = String::new();
    for t in SIG.split(';') {
        if t.split('=').next().unwrap() != tag {
            s.push_str(t);
            s.push(';');
        }
    }
    let mut b = s.into_bytes();
    // in front or at the end
    let mut v = tag.as_bytes().to_vec();
    v.push(b'=');
    v.extend_from_slice(value);
    b.extend(v);
    st(&b).parse()
}
fn kind(r: &Result<DkimSignature, DkimSignatureError>) -> Option<K> {
    r.as_ref().err().map(|e| e.kind)
}
/// An arbitrary tag value as the tag list delivers it.
fn value(lo: usize, hi: usize) -> Vec<u8> {
    let v = ascii("value", lo, hi);
    assume(tag_value_ok(&v));
    v
}
/// As `value`, without whitespace.
fn word(lo: usize, hi: usize) -> Vec<u8> {
    let v = bytes_upto("value", lo, hi);
    assume(v.iter().all(|c| *c > b' ' && *c < 0x7f && *c != b';'));
    v
}

// ---- signature --------------------------------------------------------------------

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_v() {
    let v = value(0, bound(3, 4));
    let r = sig_with("v", &v);
    check(r.is_ok() == same(&v, b"1"), "version 1 is the only one accepted");
    check(r.is_ok() || kind(&r) == Some(K::IncompatibleVersion), "other versions are reported as incompatible");
    if r.is_ok() {
        reach("accepted");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_a() {
    let n = pick("len", &[0usize, 8, 9, 10, 11, 13, 14, 15]);
    let v = word(n, n);
    let r = sig_with("a", &v);
    let want = if ieq(&v, b"rsa-sha256") {
        Ok(SigningAlgorithm::RsaSha256)
    } else if ieq(&v, b"ed25519-sha256") {
        Ok(SigningAlgorithm::Ed25519Sha256)
    } else if ieq(&v, b"rsa-sha1") {
        #[cfg(feature = "legacy")]
        let x = Ok(SigningAlgorithm::RsaSha1);
        #[cfg(not(feature = "legacy"))]
        let x = Err(K::HistoricAlgorithm);
        x
    } else {
        Err(K::UnsupportedAlgorithm)
    };
    check(kind(&r) == want.err(), "algorithm names are recognised without case, others rejected");
    if let (Ok(r), Ok(w)) = (&r, &want) {
        check(r.algorithm == *w, "algorithm is the one named");
        check(w.key_type() == if n == 14 { KeyType::Ed25519 } else { KeyType::Rsa }, "algorithm has its key type");
        check(
            SigningAlgorithm::from_parts(w.key_type(), w.hash_algorithm()) == Some(*w),
            "algorithm is determined by its parts",
        );
        reach("accepted");
    }
}

fn canon_name(v: &[u8]) -> Option<CanonicalizationAlgorithm> {
    if ieq(v, b"simple") {
        Some(canon(0))
    } else if ieq(v, b"relaxed") {
        Some(canon(1))
    } else {
        None
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_c() {
    let n = pick("len", &[0usize, 6, 7, 8, 13, 14, 15]);
    let v = word(n, n);
    let r = sig_with("c", &v);
    let want = match v.iter().position(|c| *c == b'/') {
        Some(i) => match (canon_name(&v[..i]), canon_name(&v[i + 1..])) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        },
        None => canon_name(&v).map(|a| (a, canon(0))),
    };
    match (&r, want) {
        (Ok(r), Some((h, b))) => {
            check(r.canonicalization.header == h && r.canonicalization.body == b, "canonicalization is the one named, simple body by default");
            reach("accepted");
        }
        (Err(e), None) => check(e.kind == K::UnsupportedCanonicalization, "other canonicalization is reported as unsupported"),
        _ => check(false, "canonicalization names are recognised without case, others rejected"),
    }
}

/// Both base64 tags.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_b64() {
    let (tag, empty) = pick("tag", &[("b", K::EmptySignatureTag), ("bh", K::EmptyBodyHashTag)]);
    let v = value(0, bound(3, 4));
    let mut v2 = pick("prefix", &[&b""[..], b"QUJD", b"QU \r\n JD"]).to_vec();
    v2.extend(&v);
    assume(tag_value_ok(&v2));
    let r = sig_with(tag, &v2);
    match base64(&without_ws(&v2)) {
        None => check(kind(&r) == Some(K::InvalidBase64), "invalid base64 is rejected"),
        Some((w, _)) if w.is_empty() => check(kind(&r) == Some(empty), "empty value is rejected"),
        // unused bits not zero: left open
        Some((w, canonical)) => {
            if canonical {
                check(r.is_ok(), "valid base64 is accepted");
            }
            if let Ok(r) = &r {
                let got = if tag == "b" { &r.signature_data } else { &r.body_hash };
                check(same(got, &w), "base64 data is decoded, whitespace ignored");
                reach("accepted");
            }
        }
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_h() {
    let mut v = pick("prefix", &[&b""[..], b"From:", b"x : From \r\n :", b"Fro"]).to_vec();
    v.extend(value(0, bound(4, 5)));
    assume(tag_value_ok(&v));
    let r = sig_with("h", &v);
    let items: Vec<&[u8]> = split(&v, b':').into_iter().map(trim).collect();
    let ok = items.iter().all(|n| field_name_ok(n));
    let from = items.iter().any(|n| ieq(n, b"from"));
    let want = if v.is_empty() {
        Some(K::EmptySignedHeadersTag)
    } else if !ok {
        Some(K::InvalidSignedHeaderName)
    } else if !from {
        Some(K::FromHeaderNotSigned)
    } else {
        None
    };
    check(kind(&r) == want, "signed header list must be non-empty, well-formed and include From");
    if let Ok(r) = r {
        let mut eq = r.signed_headers.len() == items.len();
        if eq {
            for i in 0..items.len() {
                eq &= same(r.signed_headers[i].as_ref().as_bytes(), items[i]);
            }
        }
        check(eq, "signed header list is the sequence of names, whitespace trimmed");
        reach("accepted");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_number() {
    let (tag, k) = pick("tag", &[("l", K::InvalidBodyLength), ("t", K::InvalidTimestamp), ("x", K::InvalidExpiration)]);
    let mut v = pick("prefix", &[&b""[..], b"1844674407370955", b"00000000000000000"]).to_vec();
    v.extend(word(0, bound(4, 5)));
    let r = sig_with(tag, &v);
    match number(&v) {
        None => check(kind(&r) == Some(k), "number that is not all digits or too large is rejected"),
        Some(n) => {
            let got = r.as_ref().ok().and_then(|r| match tag {
                "l" => r.body_length,
                "t" => r.timestamp,
                _ => r.expiration,
            });
            check(got == Some(n), "number is read as decimal");
            reach("accepted");
        }
    }
}

/// Expiry must be after the timestamp when both are given.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_x_after_t() {
    let t = array::<2>("t");
    let x = array::<2>("x");
    assume(t.iter().all(|c| digit(*c)) && x.iter().all(|c| digit(*c)));
    let p = pick("prefix", &["", "18446744073709551", "0000000000000000000000"]);
    let mut v = format!("{p}").into_bytes();
    v.extend_from_slice(&t);
    let mut w = format!("{p}").into_bytes();
    w.extend_from_slice(&x);
    let both = if bool_("x first") {
        format!("{};t={}", st(&w), st(&v))
    } else {
        // the same the other way around
        let s = format!("{SIG};t={};x={}", st(&v), st(&w));
        check_xt(&s, &v, &w);
        return;
    };
    check_xt(&format!("{SIG};x={both}"), &v, &w);
}
fn check_xt(s: &str, t: &[u8], x: &[u8]) {
    let r: Result<DkimSignature, _> = s.parse();
    let (t, x) = (number(t).unwrap(), number(x).unwrap());
    check(r.is_ok() == (x > t), "expiration must be after timestamp");
    match r {
        Ok(r) => {
            check(r.timestamp == Some(t) && r.expiration == Some(x), "timestamps are read as decimal");
            reach("accepted");
        }
        Err(e) => check(e.kind == K::ExpirationNotAfterTimestamp, "expiration not after timestamp is reported as such"),
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_q() {
    let mut v = pick("prefix", &[&b""[..], b"dns/", b"dns/txt:", b"x : DNS/TXT"]).to_vec();
    v.extend(value(0, bound(4, 5)));
    if choice("suffix", 2) == 1 {
        v.extend(b":dns/txt");
    }
    assume(tag_value_ok(&v));
    let r = sig_with("q", &v);
    let items: Vec<&[u8]> = split(&v, b':').into_iter().map(trim).collect();
    let want = if items.iter().any(|i| i.is_empty()) {
        Some(K::InvalidQueryMethod)
    } else if !items.iter().any(|i| ieq(i, b"dns/txt")) {
        Some(K::NoSupportedQueryMethods)
    } else {
        None
    };
    check(kind(&r) == want, "query methods must include dns/txt");
    if r.is_ok() {
        reach("accepted");
    }
}

fn uppercase_escapes(v: &[u8]) -> bool {
    let v = without_ws(v);
    let mut ok = true;
    for i in 0..v.len() {
        if v[i] == b'=' {
            for j in i + 1..v.len().min(i + 3) {
                ok &= !(v[j].wrapping_sub(b'a') < 6);
            }
        }
    }
    ok
}

/// Copied header fields: quoted-printable pieces separated by bars.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_z() {
    let mut v = pick("prefix", &[&b""[..], b"a:b|", b"a:=0D=0A=20b |\r\n c=", b"a:=C3"]).to_vec();
    v.extend(value(0, bound(3, 4)));
    // what is decoded may end, or start again, in a line break
    v.extend(pick("suffix", &[&b""[..], b"=0D=0A", b"=0A|x:=0D=0A"]));
    assume(tag_value_ok(&v) && uppercase_escapes(&v));
    let r = sig_with("z", &v);
    let mut want = Some(vec![]);
    for p in split(&v, b'|') {
        let f = qp(p).and_then(|d| {
            let i = d.iter().position(|c| *c == b':')?;
            if field_name_ok(&d[..i]) {
                Some((d[..i].to_vec(), d[i + 1..].to_vec()))
            } else {
                None
            }
        });
        match (f, &mut want) {
            (Some(f), Some(w)) => w.push(f),
            _ => want = None,
        }
    }
    match (&r, want) {
        (Ok(r), Some(w)) => {
            let mut eq = r.copied_headers.len() == w.len();
            if eq {
                for i in 0..w.len() {
                    eq &= same(r.copied_headers[i].0.as_ref().as_bytes(), &w[i].0) && same(&r.copied_headers[i].1, &w[i].1);
                }
            }
            check(eq, "copied header fields are decoded from quoted-printable");
            reach("accepted");
        }
        (Err(e), None) => check(e.kind == K::InvalidCopiedHeaderField, "invalid copied header field is reported as such"),
        _ => check(false, "copied header fields are accepted exactly when well-formed"),
    }
}

/// The identity: quoted-printable, well-formed, within the signing domain.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_i_local() {
    let mut v = pick("prefix", &[&b""[..], b"a.", b"=22", b"=C3"]).to_vec();
    v.extend(value(0, bound(3, 4)));
    let q = v.starts_with(b"=22");
    if q && bool_("close") {
        v.push(b'"');
    }
    v.extend(b"@x.org");
    assume(tag_value_ok(&v) && uppercase_escapes(&v));
    let r = sig_with("i", &v);
    let l = qp(&v).and_then(|d| String::from_utf8(d).ok()).and_then(|s| {
        let n = s.len() - 6;
        let l = s.as_bytes()[..n].to_vec();
        if l.is_empty() || local_part_ok(&l) {
            Some(l)
        } else {
            None
        }
    });
    match (&r, l) {
        (Ok(r), Some(l)) => {
            let id = r.identity.as_ref().unwrap();
            let got = id.local_part.as_ref().map_or(&b""[..], |l| l.as_bytes());
            check(same(got, &l) && id.domain == dom("x.org"), "identity is decoded from quoted-printable");
            reach("accepted");
        }
        (Err(e), None) => check(e.kind == K::InvalidIdentity, "invalid identity is reported as such"),
        _ => check(false, "identity is accepted exactly when well-formed"),
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_i_domain() {
    let p = word(0, bound(3, 4));
    assume(p.iter().all(|c| *c != b'=' && *c != b'@'));
    let mut v = pick("local", &[&b"@"[..], b"u@", b"u=40@"]).to_vec();
    let n = v.len();
    v.extend(&p);
    v.extend(pick("suffix", &[&b"x.org"[..], b"X.ORG", b"x.orf", b""]));
    let r = sig_with("i", &v);
    let d = &v[n..];
    assume(d.len() < 4 || !ieq(&d[..4], b"xn--"));
    if v.starts_with(b"u=40") {
        check(kind(&r) == Some(K::InvalidIdentity), "identity with two at signs is invalid");
        return;
    }
    let want = if !domain_ok(d, true) {
        Some(K::InvalidIdentity)
    } else if ieq(d, b"x.org") || d.len() > 6 && ieq(&d[d.len() - 6..], b".x.org") {
        None
    } else {
        Some(K::DomainMismatch)
    };
    check(kind(&r) == want, "identity must be in the signing domain or a subdomain");
    if r.is_ok() && !p.is_empty() {
        reach("subdomain");
    }
    if want == Some(K::DomainMismatch) {
        reach("mismatch");
    }
}

/// Domain and selector.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_names() {
    let (tag, k) = pick("tag", &[("d", K::InvalidDomain), ("s", K::InvalidSelector)]);
    let v = word(0, bound(4, 5));
    assume(v.len() < 4 || !ieq(&v[..4], b"xn--"));
    let r = sig_with(tag, &v);
    check(kind(&r) == if domain_ok(&v, tag == "d") { None } else { Some(k) }, "domain and selector must be well-formed");
    if let Ok(r) = r {
        let got = if tag == "d" { r.domain.as_ref() } else { r.selector.as_ref() };
        check(same(got.as_bytes(), &v), "domain and selector are kept as given");
        reach("accepted");
    }
}

const REQUIRED: [(&str, K); 7] = [
    ("v", K::MissingVersionTag),
    ("a", K::MissingAlgorithmTag),
    ("b", K::MissingSignatureTag),
    ("bh", K::MissingBodyHashTag),
    ("d", K::MissingDomainTag),
    ("h", K::MissingSignedHeadersTag),
    ("s", K::MissingSelectorTag),
];

/// Required tags, independence of tag order, and defaults.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_required() {
    let all: Vec<&str> = SIG.split(';').collect();
    let rot = choice("rotate", all.len() as u64) as usize;
    let drop = choice("drop", 1 << all.len());
    let mut s = vec![];
    for i in 0..all.len() {
        if drop >> i & 1 == 0 {
            s.push(all[(i + rot) % all.len()]);
        }
    }
    let text = s.join(";");
    if text.is_empty() {
        return;
    }
    let r: Result<DkimSignature, _> = text.parse();
    let has = |n: &str| s.iter().any(|t| t.starts_with(&format!("{n}=")));
    let want = REQUIRED.iter().find(|(n, _)| !has(n)).map(|t| t.1);
    check(kind(&r) == want, "a missing required tag is reported");
    match &r {
        Ok(r) => {
            check(
                r.canonicalization == Canonicalization::default()
                    && r.canonicalization.to_string() == "simple/simple"
                    && r.identity.is_none()
                    && r.body_length.is_none()
                    && r.timestamp.is_none()
                    && r.expiration.is_none()
                    && r.copied_headers.is_empty()
                    && r.ext_tags.is_empty(),
                "absent optional tags have their default",
            );
            check(Ok(r) == SIG.parse::<DkimSignature>().as_ref(), "tag order has no influence");
            reach("accepted");
        }
        Err(e) => {
            check(
                e.algorithm_str.as_deref() == if has("a") { Some("ed25519-sha256") } else { None }
                    && e.signature_data_str.as_deref() == if has("b") { Some("AAAA") } else { None }
                    && e.domain_str.as_deref() == if has("d") { Some("x.org") } else { None }
                    && e.selector_str.as_deref() == if has("s") { Some("s") } else { None }
                    && e.identity_str.is_none(),
                "the error carries the available raw tag values",
            );
            reach("missing");
        }
    }
}

/// The error carries raw tag values whatever they are.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sig_salvage() {
    let tag = pick("tag", &["a", "b", "d", "i", "s"]);
    let v = value(0, bound(3, 4));
    let mut s = Vec::new();
    for t in SIG.split(';') {
        if t.split('=').next().unwrap() != tag {
            s.extend(t.as_bytes());
            s.push(b';');
        }
    }
    s.extend(format!("{tag}= ").as_bytes());
    s.extend(&v);
    // an error in any case
    s.extend(b" ;x=y");
    let e = st(&s).parse::<DkimSignature>().err();
    check(e.is_some(), "erroneous tag is rejected");
    if let Some(e) = e {
        let got = match tag {
            "a" => &e.algorithm_str,
            "b" => &e.signature_data_str,
            "d" => &e.domain_str,
            "i" => &e.identity_str,
            _ => &e.selector_str,
        };
        check(got.as_ref().map_or(false, |g| same(g.as_bytes(), &v)), "the error carries the available raw tag values");
        reach("salvaged");
    }
}

// ---- key record -------------------------------------------------------------------

type RE = DkimKeyRecordError;

fn rec_with(tag: &str, value: &[u8]) -> Result<DkimKeyRecord, RE> {
    let mut b = vec![];
    if tag != "p" && bool_("key first") {
        b.extend(b"p=;");
    }
    b.extend(tag.as_bytes());
    b.push(b'=');
    b.extend_from_slice(value);
    if tag != "p" && !b.starts_with(b"p") {
        b.extend(b";p=");
    }
    st(&b).parse()
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_v() {
    let n = pick("len", &[0usize, 1, 4, 5, 6]);
    let v = word(n, n);
    let mut b = b"v=".to_vec();
    b.extend(&v);
    let pos = choice("position", 3);
    let s = match pos {
        0 => format!("{};p=", st(&b)),
        1 => format!("p=;{}", st(&b)),
        _ => format!("z=;p=;{};t=", st(&b)),
    };
    let r: Result<DkimKeyRecord, _> = s.parse();
    let want = if pos != 0 {
        Some(RE::MisplacedVersionTag)
    } else if same(&v, b"DKIM1") {
        None
    } else {
        Some(RE::IncompatibleVersion)
    };
    check(r.as_ref().err() == want.as_ref(), "version must come first and be DKIM1");
    if r.is_ok() {
        reach("accepted");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_k() {
    let n = pick("len", &[0usize, 2, 3, 4, 6, 7, 8]);
    let v = word(n, n);
    let r = rec_with("k", &v);
    let want = if ieq(&v, b"rsa") {
        Ok(KeyType::Rsa)
    } else if ieq(&v, b"ed25519") {
        Ok(KeyType::Ed25519)
    } else {
        Err(RE::UnsupportedKeyType)
    };
    check(r.as_ref().map(|r| r.key_type) == want.as_ref().map(|x| *x).map_err(|e| e), "key type is the one named");
    if r.is_ok() {
        reach("accepted");
    }
}

fn items(v: &[u8]) -> Vec<&[u8]> {
    split(v, b':').into_iter().map(trim).collect()
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_h() {
    let mut v = pick("prefix", &[&b""[..], b"sha", b"sha256:", b"x : SHA256 \r\n ", b"a:b:c:d-e:f:x1:x2:x3:sha256:x4:"]).to_vec();
    let n = if v.len() > 20 { 2 } else { bound(3, 4) };
    v.extend(value(0, n));
    if bool_("more") {
        v.extend(b":x");
    }
    assume(tag_value_ok(&v));
    let r = rec_with("h", &v);
    let it = items(&v);
    let mut want = vec![];
    for i in &it {
        if ieq(i, b"sha256") {
            want.push(HashAlgorithm::Sha256);
        }
        #[cfg(feature = "legacy")]
        if ieq(i, b"sha1") {
            want.push(HashAlgorithm::Sha1);
        }
    }
    let err = if it.iter().any(|i| i.is_empty()) {
        Some(RE::InvalidHashAlgorithm)
    } else if want.is_empty() {
        Some(RE::NoSupportedHashAlgorithms)
    } else {
        None
    };
    check(r.as_ref().err() == err.as_ref(), "hash algorithms must be well-formed and include a supported one");
    if let Ok(r) = r {
        check(r.hash_algorithms[..] == want[..], "supported hash algorithms are kept, others ignored");
        reach("accepted");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_s() {
    let mut v = pick("prefix", &[&b""[..], b"ema", b"email:", b"x : * \r\n ", b"a:b:c:d-e:f:x1:x2:x3:email:x4:*:"]).to_vec();
    let n = if v.len() > 20 { 2 } else { bound(3, 4) };
    v.extend(value(0, n));
    assume(tag_value_ok(&v));
    let r = rec_with("s", &v);
    let it = items(&v);
    let mut want = vec![];
    for i in &it {
        if same(i, b"*") {
            want.push(ServiceType::Any);
        } else if ieq(i, b"email") {
            want.push(ServiceType::Email);
        }
    }
    let err = if it.iter().any(|i| i.is_empty()) {
        Some(RE::InvalidServiceType)
    } else if want.is_empty() {
        Some(RE::NoSupportedServiceTypes)
    } else {
        None
    };
    check(r.as_ref().err() == err.as_ref(), "service types must be well-formed and include email");
    if let Ok(r) = r {
        check(r.service_types[..] == want[..], "supported service types are kept, others ignored");
        reach("accepted");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_t() {
    let long = bool_("long");
    let mut v = vec![];
    if long {
        v.extend(pick("before", &[&b"y:y:"[..], b"s:x:Y:", b"x1 : y:x2:x3 :x4:x5:x6:x7:x8:"]));
    }
    v.extend(value(0, if long { 2 } else { bound(4, 5) }));
    if long {
        v.extend(pick("after", &[&b""[..], b":s", b":x:\r\n y\t:y"]));
    }
    assume(tag_value_ok(&v));
    let r = rec_with("t", &v);
    let it = items(&v);
    let mut want = vec![];
    for i in &it {
        if ieq(i, b"y") {
            want.push(SelectorFlag::Testing);
        } else if ieq(i, b"s") {
            want.push(SelectorFlag::NoSubdomains);
        }
    }
    let err = if it.iter().any(|i| i.is_empty()) { Some(RE::InvalidFlag) } else { None };
    check(r.as_ref().err() == err.as_ref(), "flags must be well-formed");
    if let Ok(r) = r {
        check(r.flags[..] == want[..], "known flags are kept, others ignored");
        check(r.is_testing() == want.contains(&SelectorFlag::Testing), "testing flag is recognised");
        reach("accepted");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_n() {
    let mut v = pick("prefix", &[&b""[..], b"a  b=", b"=C3"]).to_vec();
    v.extend(value(0, bound(3, 4)));
    assume(tag_value_ok(&v));
    let up = {
        let mut ok = true;
        for i in 0..v.len() {
            if v[i] == b'=' {
                for j in i + 1..v.len().min(i + 3) {
                    ok &= !(v[j].wrapping_sub(b'a') < 6);
                }
            }
        }
        ok
    };
    assume(up);
    let r = rec_with("n", &v);
    // quoted-printable text; whitespace is significant
    let mut want = Some(vec![]);
    let mut i = 0;
    while i < v.len() {
        let b = if v[i] == b'=' {
            let h = v.get(i + 1).and_then(|c| hexval(*c));
            let l = v.get(i + 2).and_then(|c| hexval(*c));
            i += 2;
            match (h, l) {
                (Some(h), Some(l)) => h << 4 | l,
                _ => {
                    want = None;
                    break;
                }
            }
        } else if v[i] == b'\r' || v[i] == b'\n' {
            want = None;
            break;
        } else {
            v[i]
        };
        want.as_mut().unwrap().push(b);
        i += 1;
    }
    check(r.is_ok() == want.is_some(), "notes must be quoted-printable");
    match (r, want) {
        (Ok(r), Some(w)) => {
            if w.iter().all(|c| *c < 0x80) {
                check(same(r.notes.as_ref().unwrap().as_bytes(), &w), "notes are decoded");
                reach("accepted");
            }
        }
        (Err(e), _) => check(e == RE::InvalidQuotedPrintable, "invalid notes are reported as such"),
        _ => {}
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_p() {
    let mut v = pick("prefix", &[&b""[..], b"QUJD", b"QU \r\n JD", b"QUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQ"]).to_vec();
    v.extend(value(0, bound(3, 4)));
    assume(tag_value_ok(&v));
    let r = rec_with("p", &v);
    match base64(&without_ws(&v)) {
        None => check(r.as_ref().err() == Some(&RE::InvalidBase64), "invalid base64 is rejected"),
        Some((w, canonical)) => {
            if canonical {
                check(r.is_ok(), "valid base64 is accepted");
            }
            if let Ok(r) = &r {
                check(same(&r.key_data, &w), "key data is decoded, whitespace ignored");
                check(
                    r.key_type == KeyType::Rsa
                        && r.hash_algorithms[..] == HashAlgorithm::all()[..]
                        && r.service_types[..] == [ServiceType::Any]
                        && r.flags.is_empty()
                        && r.notes.is_none()
                        && !r.is_testing(),
                    "absent optional tags have their default",
                );
                reach("accepted");
            }
        }
    }
}

/// Required key tag and independence of tag order.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rec_required() {
    let all = ["p=QUJD", "h=sha256", "k=ed25519", "n=x", "s=email", "t=s:y", "zz=1"];
    let rot = choice("rotate", 7) as usize;
    let drop = choice("drop", 128);
    let version = bool_("version");
    let mut s = vec![];
    let mut have = [false; 7];
    if version {
        s.push("v=DKIM1");
    }
    for i in 0..7 {
        let j = (i + rot) % 7;
        if drop >> i & 1 == 0 {
            s.push(all[j]);
            have[j] = true;
        }
    }
    if s.is_empty() {
        return;
    }
    let r: Result<DkimKeyRecord, _> = s.join(";").parse();
    match r {
        Err(e) => check(!have[0] && e == RE::MissingKeyTag, "record without key tag is rejected"),
        Ok(r) => {
            check(
                have[0]
                    && same(&r.key_data, b"ABC")
                    && r.key_type == if have[2] { KeyType::Ed25519 } else { KeyType::Rsa }
                    && r.notes.is_some() == have[3]
                    && r.service_types[..] == [if have[4] { ServiceType::Email } else { ServiceType::Any }]
                    && r.flags.len() == if have[5] { 2 } else { 0 }
                    && r.ext_tags.len() == have[6] as usize,
                "tag order has no influence",
            );
            reach("accepted");
        }
    }
}

/// The shortcut taken for ASCII domains agrees with the original conversion.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_idna_model_deep() {
    let v = ascii("domain", 0, bound(1, 2));
    let s = st(&v);
    let m = idna::ascii_model(&s);
    let a = idna::original_domain_to_ascii(&s);
    let (u, e) = idna::original_domain_to_unicode(&s);
    check(m.is_some(), "short ASCII domain is modelled");
    let m = m.unwrap();
    check(a.is_ok() && e.is_ok(), "short ASCII domain is converted");
    check(same(a.unwrap().as_bytes(), m.as_bytes()) && same(u.as_bytes(), m.as_bytes()), "conversion agrees with the model");
    reach("compared");
}

/// Names of algorithms, as a user writes them in configuration.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_alg_names() {
    use viadkim::signature::{CanonicalizationAlgorithm as A, *};
    let mut v = pick("name", &["rsa-sha256", "ed25519-sha256", "rsa-sha1", "simple", "relaxed", "relaxed/simple", "simple/relaxed"]).as_bytes().to_vec();
    let at = choice("at", v.len() as u64) as usize;
    let x = ascii("bytes", 0, bound(1, 2));
    let skip = choice("skip", 2) as usize;
    v.splice(at..at + skip, x);
    let s = st(&v);
    let a = if ieq(&v, b"rsa-sha256") {
        Some(SigningAlgorithm::RsaSha256)
    } else if ieq(&v, b"ed25519-sha256") {
        Some(SigningAlgorithm::Ed25519Sha256)
    } else {
        None
    };
    check(s.parse().ok() == a, "signing algorithm names are recognised ignoring case, no others are");
    let one = |v: &[u8]| {
        if ieq(v, b"simple") {
            Some(A::Simple)
        } else if ieq(v, b"relaxed") {
            Some(A::Relaxed)
        } else {
            None
        }
    };
    check(s.parse().ok() == one(&v), "canonicalization names are recognised ignoring case, no others are");
    let parts = split(&v, b'/');
    let two = match &parts[..] {
        [h] => one(h).map(|h| Canonicalization::from((h, A::Simple))),
        [h, b] => one(h).and_then(|h| one(b).map(|b| Canonicalization::from((h, b)))),
        _ => None,
    };
    check(s.parse().ok() == two, "pairs of canonicalizations are recognised, the body's being simple by default");
    if let Some(a) = a {
        check(a.to_string().parse() == Ok(a), "printed algorithm is parsed back");
        check(SigningAlgorithm::from_parts(a.key_type(), a.hash_algorithm()) == Some(a), "parts of an algorithm");
        reach("algorithm");
    }
    if let Some(c) = two {
        check(c.to_string() == format!("{}/{}", c.header, c.body) && c.to_string().parse() == Ok(c), "printed canonicalization is parsed back");
        reach("canonicalization");
    }
}
