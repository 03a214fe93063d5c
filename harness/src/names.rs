//! Domain names, selectors, identities.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tags::*;
use std::hash::{Hash, Hasher};
use viadkim::signature::*;

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hashed<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec(vec![]);
    t.hash(&mut r);
    r.0
}
fn no_alabel(v: &[u8]) -> bool {
    let mut ok = true;
    for w in v.windows(4) {
        ok &= !ieq(w, b"xn--");
    }
    ok
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_domain_new() {
    let mut v = ascii("name", 0, bound(4, 5));
    v.extend(pick("suffix", &[&b""[..], b"9", b".x", b"-.1", b".99999999999999999999", b"4294967296"]));
    assume(no_alabel(&v));
    let d = DomainName::new(st(&v));
    check(d.is_ok() == domain_ok(&v, true), "domain name is accepted exactly when well-formed");
    let s = Selector::new(st(&v));
    check(s.is_ok() == domain_ok(&v, false), "selector is accepted exactly when well-formed");
    let mut low = vec![];
    for c in &v {
        low.push(lower(*c));
    }
    if let Ok(d) = d {
        check(same(d.as_ref().as_bytes(), &v) && d.to_string() == st(&v), "domain name is kept as given");
        check(same(d.to_ascii().as_bytes(), &low) && same(d.to_unicode().as_bytes(), &low), "ASCII domain is its own A-label form");
        reach("domain");
    }
    if let Ok(s) = s {
        check(same(s.as_ref().as_bytes(), &v), "selector is kept as given");
        check(same(s.to_ascii().as_bytes(), &low) && same(s.to_unicode().as_bytes(), &low), "ASCII selector is its own A-label form");
        reach("selector");
    }
}

/// Length limits of labels and names.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_domain_len() {
    let x = array::<2>("bytes");
    assume(x.iter().all(|c| *c < 0x80));
    let label = bool_("label");
    let v = if label {
        let n = pick("len", &[59usize, 60, 61, 62]);
        let mut v = vec![x[0]];
        v.extend(vec![b'a'; n]);
        v.push(x[1]);
        v.extend(pick("suffix", &[&b""[..], b".org"]));
        v
    } else {
        let n = pick("len", &[54usize, 58, 59, 60, 61, 62, 63]);
        let mut v = vec![];
        for _ in 0..3 {
            v.extend([b'a'; 63]);
            v.push(b'.');
        }
        v.extend(vec![b'b'; n - 1]);
        v.push(x[0]);
        v
    };
    assume(no_alabel(&v));
    let d = DomainName::new(st(&v));
    check(d.is_ok() == domain_ok(&v, true), "domain name is accepted exactly when well-formed");
    check(Selector::new(st(&v)).is_ok() == domain_ok(&v, false), "selector is accepted exactly when well-formed");
    if d.is_ok() && v.len() == 253 {
        reach("longest name");
    }
    if d.is_ok() && v.len() == 67 {
        reach("longest label");
    }
}

/// Equality and subdomains disregard case and nothing else.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_domain_relations() {
    let mut a = bytes_upto("first", 0, bound(3, 4));
    let mut b = bytes_upto("second", 1, bound(2, 3));
    a.extend(pick("tail 1", &[&b""[..], b"x", b".x", b"B.x"]));
    b.extend(pick("tail 2", &[&b""[..], b".x"]));
    assume(domain_ok(&a, true) && domain_ok(&b, true) && no_alabel(&a) && no_alabel(&b));
    let (d, e) = (dom(&st(&a)), dom(&st(&b)));
    let eq = ieq(&a, &b);
    check((d == e) == eq, "domain names are equal up to case");
    let sub = eq || a.len() > b.len() && a[a.len() - b.len() - 1] == b'.' && ieq(&a[a.len() - b.len()..], &b);
    check(d.eq_or_subdomain_of(&e) == sub, "subdomain relation respects label boundaries and disregards case");
    if sub && !eq {
        reach("subdomain");
    }
    if eq {
        check(same(&hashed(&d), &hashed(&e)), "equal domain names hash alike");
        reach("equal");
    }
    if let (Ok(s), Ok(t)) = (Selector::new(st(&a)), Selector::new(st(&b))) {
        check((s == t) == eq, "selectors are equal up to case");
        if eq {
            check(same(&hashed(&s), &hashed(&t)), "equal selectors hash alike");
        }
    }
}

/// International names are related through their A-label form.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_domain_idn() {
    const P: [(&str, &str); 4] = [
        ("bücher.example", "xn--bcher-kva.example"),
        ("例子.example", "xn--fsqu00a.example"),
        ("mail.straße.DE", "mail.xn--strae-oqa.de"),
        ("BÜCHER.Example", "XN--BCHER-KVA.example"),
    ];
    let (u, a) = pick("pair", &P);
    let sub = pick("sub", &["", "a.", "B-1.c."]);
    let (u, a) = (format!("{sub}{u}"), format!("{sub}{a}"));
    let (p, q) = pick("pair", &P);
    let (bu, ba) = (dom(p), dom(q));
    let (du, da) = (dom(&u), dom(&a));
    check(du.to_ascii() == a.to_lowercase() && da.to_ascii() == a.to_lowercase(), "A-label form of international domain");
    check(du.to_unicode() == u.to_lowercase() && da.to_unicode() == u.to_lowercase(), "U-label form of international domain");
    let want = u.to_lowercase().ends_with(&p.to_lowercase());
    for x in [&du, &da] {
        for y in [&bu, &ba] {
            check(x.eq_or_subdomain_of(y) == want, "subdomain relation works across IDNA forms");
        }
    }
    check(!bu.eq_or_subdomain_of(&du) || sub.is_empty(), "parent is not a subdomain");
    let s = sel(&u);
    check(s.to_ascii() == a.to_lowercase() && s.to_unicode() == u.to_lowercase(), "A-label and U-label forms of international selector");
    check(DomainName::new("xn--\u{e4}.example").is_err() , "invalid international names are rejected");
    reach("compared");
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_identity_new() {
    let mut v = pick("prefix", &[&b""[..], b"\"", b"a."]).to_vec();
    v.extend(ascii("local", 0, bound(3, 4)));
    v.extend(pick("domain", &[&b"@x.org"[..], b"\"@X.y", b"@", b"@-a", b"x.y"]));
    let r = Identity::new(&st(&v));
    let want = v.iter().rposition(|c| *c == b'@').and_then(|i| {
        let (l, d) = (&v[..i], &v[i + 1..]);
        if (l.is_empty() || local_part_ok(l)) && domain_ok(d, true) {
            Some((l, d))
        } else {
            None
        }
    });
    check(r.is_ok() == want.is_some(), "identity is accepted exactly when well-formed");
    if let (Ok(r), Some((l, d))) = (&r, want) {
        check(same(r.local_part.as_ref().map_or(&b""[..], |s| s.as_bytes()), l), "identity has the given local-part");
        check(r.local_part.is_some() == !l.is_empty(), "identity without local-part");
        check(same(r.domain.as_ref().as_bytes(), d), "identity has the given domain");
        check(same(r.to_string().as_bytes(), &v), "identity is shown as given");
        reach("accepted");
    } else {
        reach("rejected");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_identity_len() {
    let x = array::<2>("bytes");
    assume(x.iter().all(|c| *c < 0x80));
    let n = pick("len", &[61usize, 62, 63]);
    let mut v = vec![x[0]];
    // the limit is on octets, not on characters
    let m = pick("two-octet characters", &[0usize, 1, 20]);
    v.extend("\u{e9}".repeat(m).into_bytes());
    v.extend(vec![b'a'; n - 2 * m]);
    v.push(x[1]);
    let ok = local_part_ok(&v);
    v.extend(b"@x.org");
    assume(x.iter().all(|c| *c != b'@'));
    let r = Identity::new(&st(&v));
    check(r.is_ok() == ok, "identity local-part has at most 64 bytes");
    if r.is_ok() && n == 62 {
        reach("longest");
    }
}
