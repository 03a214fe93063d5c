//! Header canonicalization, selection, and field parsing.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use std::str::FromStr;
use viadkim::canonicalize::*;
use viadkim::header::*;
use viadkim::message_hash::compute_data_hash;
use viadkim::signature::CanonicalizationAlgorithm as A;

/// Canonical form of one field with arbitrary name and well-formed body.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_hdr_canon() {
    let relaxed = choice("relaxed", 2);
    let name = bytes("name", 2);
    assume(field_name_ok(&name));
    let body = bytes_upto("body", 0, bound(5, 7));
    assume(field_body_ok(&body));
    let n = std::str::from_utf8(&name).unwrap();
    let h = headers(&[(n, &body)]);
    let (fnm, fb) = &h.as_ref()[0];
    let mut r = b"#".to_vec();
    canonicalize_header(&mut r, canon(relaxed), fnm, fb);
    observe("canon", &r);
    let mut e = b"#".to_vec();
    e.extend(header_canon(relaxed == 1, &name, &body));
    check(same(&r, &e), "header field canonicalization equals the RFC definition");
    if relaxed == 1 && r.len() + 3 < 2 + 2 + body.len() {
        reach("folded and squeezed");
    }
}

/// Fields whose bodies differ only in folding and whitespace, and whose names
/// differ only in case, have one relaxed form; any other difference shows.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_hdr_equiv() {
    let c = array::<2>("content");
    assume(c.iter().all(|b| *b > b' ' && *b < 0x7f));
    const W: [&[u8]; 6] = [b" ", b"\t", b"  ", b"\r\n ", b" \r\n\t", b"\t \r\n  "];
    const E: [&[u8]; 4] = [b"", b" ", b"\t", b" \t "];
    let mk = |p: &[u8], w: &[u8], q: &[u8]| {
        let mut v = p.to_vec();
        v.push(c[0]);
        v.extend_from_slice(w);
        v.push(c[1]);
        v.extend_from_slice(q);
        v
    };
    let a = mk(pick("p1", &E), pick("w1", &W), pick("q1", &E));
    let b = mk(pick("p2", &E), pick("w2", &W), pick("q2", &E));
    let n = array::<1>("name");
    assume(alpha(n[0]));
    let up = [n[0] ^ 0x20];
    let (mut x, mut y) = (vec![], vec![]);
    canonicalize_header(&mut x, A::Relaxed, std::str::from_utf8(&n).unwrap(), &a);
    canonicalize_header(&mut y, A::Relaxed, std::str::from_utf8(&up).unwrap(), &b);
    observe("canon", &x);
    check(same(&x, &y), "relaxed form ignores folding, whitespace amounts and name case");
    let mut z = vec![];
    let d = mk(b"", b"", b"");
    canonicalize_header(&mut z, A::Relaxed, std::str::from_utf8(&n).unwrap(), &d);
    check(!same(&x, &z), "relaxed form keeps the presence of whitespace between words");
    reach("compared");
}

fn two_letter(name: &str) -> Vec<u8> {
    let b = array::<1>(name);
    assume(lower(b[0]) == b'a' || lower(b[0]) == b'b' || lower(b[0]) == b'c');
    b.to_vec()
}

/// Fields are selected bottom-up, each at most once, absent ones contribute
/// nothing, names compare without case.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_hdr_select() {
    let relaxed = choice("relaxed", 2);
    let nf = 1 + choice("fields", bound(3, 4) as u64) as usize;
    let nh = choice("listed", bound(4, 5) as u64) as usize;
    let names: Vec<Vec<u8>> = (0..nf).map(|_| two_letter("field")).collect();
    let vals: Vec<Vec<u8>> = (0..nf).map(|i| vec![b'0' + i as u8]).collect();
    let listed: Vec<Vec<u8>> = (0..nh).map(|_| two_letter("h")).collect();
    let fields: Vec<(&[u8], &[u8])> = names.iter().zip(&vals).map(|(n, v)| (&n[..], &v[..])).collect();
    let hs: Vec<&[u8]> = listed.iter().map(|l| &l[..]).collect();
    let st = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    let h = HeaderFields::from_vec(fields.iter().map(|(n, v)| (st(n), v.to_vec())).collect()).unwrap();
    let sel: Vec<FieldName> = hs.iter().map(|n| fname(&st(n))).collect();
    let r = canonicalize_headers(canon(relaxed), &h, &sel);
    observe("signed", &r);
    let mut e = vec![];
    for i in select(&fields, &hs) {
        e.extend(header_canon(relaxed == 1, fields[i].0, fields[i].1));
        e.extend_from_slice(b"\r\n");
    }
    check(same(&r, &e), "signed header fields are selected bottom-up, each once, absent ones empty");
    if r.is_empty() && nh > 1 {
        reach("nothing selected");
    }
    if r.len() >= 3 * 5 && nh > nf.min(3) - 1 {
        reach("several selected");
    }
}

/// The hashed data are the selected fields followed by the signature field
/// without trailing CRLF.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_hdr_datahash() {
    use sha2::{Digest, Sha256};
    let relaxed = choice("relaxed", 2);
    let v = bytes("value", bound(3, 5));
    let s = bytes("sig", bound(4, 5));
    assume(field_body_ok(&v) && field_body_ok(&s));
    assume(s.iter().all(|b| *b < 0x80));
    let h = headers(&[("To", b"x"), ("From", &v), ("TO", b" y ")]);
    let hs = pick("h", &[&["from"][..], &["to", "From"], &["From", "To", "to", "To"], &["x", "FROM"]]);
    let sel: Vec<FieldName> = hs.iter().map(|n| fname(n)).collect();
    let name = pick("signame", &["DKIM-Signature", "dkim-signature"]);
    let d = compute_data_hash(
        viadkim::crypto::HashAlgorithm::Sha256,
        canon(relaxed),
        &h,
        &sel,
        name,
        std::str::from_utf8(&s).unwrap(),
    );
    let f: [(&[u8], &[u8]); 3] = [(b"To", b"x"), (b"From", &v), (b"TO", b" y ")];
    let hb: Vec<&[u8]> = hs.iter().map(|n| n.as_bytes()).collect();
    let e = Sha256::digest(hash_input(relaxed == 1, &f, &hb, name.as_bytes(), &s));
    observe("digest", &d);
    check(same(&d, &e), "data hash covers the selected fields followed by the signature field");
    reach("hashed");
}

// ---- parsing -------------------------------------------------------------------

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_field_name() {
    let b = bytes_upto("name", 0, bound(4, 5));
    if let Ok(s) = String::from_utf8(b.clone()) {
        let r = FieldName::new(s);
        check(r.is_ok() == field_name_ok(&b), "field names are non-empty printable ASCII without colon");
        if let Ok(n) = r {
            observe("name", n.as_ref().as_bytes());
            check(same(n.as_ref().as_bytes(), &b), "field name keeps its spelling");
            reach("valid name");
        } else {
            reach("invalid name");
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_field_name_eq() {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let n = bound(1, 2);
    let (a, b) = (bytes("a", n), bytes("b", n));
    assume(field_name_ok(&a) && field_name_ok(&b));
    let (x, y) = (
        fname(std::str::from_utf8(&a).unwrap()),
        fname(std::str::from_utf8(&b).unwrap()),
    );
    let eq = x == y;
    check(eq == ieq(&a, &b), "field names are equal if and only if they differ in ASCII case only");
    check((x == y.as_ref()) == eq, "comparison with text agrees");
    if eq {
        let h = |f: &FieldName| {
            let mut s = DefaultHasher::new();
            f.hash(&mut s);
            s.finish()
        };
        check(h(&x) == h(&y), "equal field names have equal hashes");
        reach("equal");
    } else {
        reach("different");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_field_body() {
    let b = bytes_upto("body", 0, bound(5, 7));
    let r = FieldBody::new(&b[..]);
    check(
        r.is_ok() == field_body_ok(&b),
        "field bodies have no control characters and fold only before whitespace and text",
    );
    if let Ok(v) = r {
        check(same(v.as_ref(), &b), "field body is kept byte for byte");
        if b.len() > 3 && b.contains(&b'\n') {
            reach("folded body");
        }
    } else {
        reach("invalid body");
    }
}

/// Expected fields of a header block, or `None`.
fn block(s: &[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    // lines end in LF or CRLF; the last may be unterminated
    let mut ls: Vec<&[u8]> = split(s, b'\n');
    let n = ls.len();
    if ls[n - 1].is_empty() {
        ls.pop();
    }
    let term = ls.len() < n;
    let m = ls.len();
    let ls: Vec<&[u8]> = ls
        .into_iter()
        .enumerate()
        .map(|(i, l)| {
            if (i + 1 < m || term) && l.last() == Some(&b'\r') {
                &l[..l.len() - 1]
            } else {
                l
            }
        })
        .collect();
    let mut r: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for l in ls {
        if !l.is_empty() && wsp(l[0]) {
            let f = r.last_mut()?;
            f.1.extend_from_slice(b"\r\n");
            f.1.extend_from_slice(l);
        } else {
            let c = l.iter().position(|c| *c == b':')?;
            r.push((l[..c].to_vec(), l[c + 1..].to_vec()));
        }
    }
    if r.is_empty() || !r.iter().all(|(n, v)| field_name_ok(n) && field_body_ok(v)) {
        return None;
    }
    Some(r)
}
fn check_block(b: &[u8]) {
    let Ok(s) = std::str::from_utf8(b) else { return };
    let r = HeaderFields::from_str(s);
    let e = block(b);
    check(r.is_ok() == e.is_some(), "header block is accepted exactly when every field is well formed");
    if let (Ok(h), Some(e)) = (r, e) {
        let mut ok = h.as_ref().len() == e.len();
        for ((n, v), (en, ev)) in h.as_ref().iter().zip(&e) {
            observe("name", n.as_ref().as_bytes());
            observe("body", v.as_ref());
            ok = ok && same(n.as_ref().as_bytes(), en) && same(v.as_ref(), ev);
        }
        check(ok, "header block parses into its fields, in order, folding as CRLF");
        if e.len() == 2 {
            reach("two fields");
        }
        if e[0].1.contains(&b'\n') {
            reach("continuation");
        }
    } else {
        reach("rejected");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_block() {
    let b = bytes("text", bound(5, 6));
    assume(b.iter().all(|c| *c < 0x80));
    check_block(&b);
}
/// Structured: two field lines with arbitrary bytes where the line break is.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_block2() {
    let mut b = b"A:x".to_vec();
    let gap = bytes_upto("gap", 0, bound(3, 4));
    assume(gap.iter().all(|c| *c < 0x80));
    b.extend(gap);
    b.extend_from_slice(b"B:y");
    b.extend_from_slice(pick("end", &[&b""[..], b"\n", b"\r\n", b"\r", b"\r\n ", b"\n z", b"\r\n z\r\n", b"\n\n"]));
    check_block(&b);
}
