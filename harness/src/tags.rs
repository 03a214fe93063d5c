//! Tag lists, through the two public formats built on them.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use viadkim::record::*;
use viadkim::signature::*;

/// A complete signature header value without trailing semicolon.
pub const SIG: &str = "v=1;a=ed25519-sha256;d=x.org;s=s;h=From;bh=AAAA;b=AAAA";

pub fn st(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
pub fn ascii(name: &str, lo: usize, hi: usize) -> Vec<u8> {
    let b = bytes_upto(name, lo, hi);
    assume(b.iter().all(|c| *c < 0x80));
    b
}
fn is_format<T>(r: &Result<T, DkimKeyRecordError>) -> bool {
    matches!(r, Err(DkimKeyRecordError::TagListFormat))
}
fn same_tags(ext: &[(Box<str>, Box<str>)], want: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let mut ok = ext.len() == want.len();
    if ok {
        for i in 0..ext.len() {
            ok &= same(ext[i].0.as_bytes(), &want[i].0) && same(ext[i].1.as_bytes(), &want[i].1);
        }
    }
    ok
}
pub fn record_case(s: &[u8], known: &[&str]) {
    let r: Result<DkimKeyRecord, _> = st(s).parse();
    let want = tag_list(s);
    check(is_format(&r) == want.is_none(), "key record is rejected as ill-formed tag list exactly when it is one");
    if let (Ok(r), Some(w)) = (&r, &want) {
        let w: Vec<_> = w.iter().filter(|t| !known.iter().any(|k| k.as_bytes() == &t.0[..])).cloned().collect();
        check(same_tags(&r.ext_tags, &w), "unrecognised tags are kept with name and value, in order");
        if w.len() >= 1 {
            reach("extension tag kept");
        }
    }
    if want.is_none() {
        reach("ill-formed");
    }
}
const KNOWN: [&str; 7] = ["v", "h", "k", "n", "p", "s", "t"];

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_taglist_any() {
    let s = ascii("list", 0, bound(5, 6));
    record_case(&s, &KNOWN);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_taglist_after() {
    let mut s = b"p=;".to_vec();
    s.extend(ascii("list", 0, bound(5, 6)));
    record_case(&s, &KNOWN);
}

/// Values with arbitrary well-formed UTF-8.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_taglist_utf8() {
    let x = bytes_upto("value", 1, bound(3, 4));
    assume(std::str::from_utf8(&x).is_ok());
    let mut s = pick("at", &["p=;aa=", "p=;a", "p=;"]).as_bytes().to_vec();
    s.extend(x);
    record_case(&s, &KNOWN);
}

/// Whitespace runs at each position of a tag specification.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_taglist_fws() {
    let w = bytes_upto("whitespace", 1, bound(6, 8));
    assume(w.iter().all(|c| matches!(*c, b' ' | b'\t' | b'\r' | b'\n')));
    let (a, z) = pick("at", &[
        ("", "p=;aa=b"),
        ("p", "=;aa=b"),
        ("p=", ";aa=b"),
        ("p=;", "aa=b"),
        ("p=;a", "a=b"),
        ("p=;aa", "=b"),
        ("p=;aa=", "b"),
        ("p=;aa=b", "c"),
        ("p=;aa=b", ""),
        ("p=;aa=b", ";"),
        ("p=;aa=b;", ""),
        ("p=;aa=", ""),
    ]);
    let mut s = a.as_bytes().to_vec();
    s.extend(&w);
    s.extend(z.as_bytes());
    record_case(&s, &KNOWN);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_taglist_sig() {
    let mut s = SIG.as_bytes().to_vec();
    s.extend(ascii("list", 0, bound(4, 6)));
    let r: Result<DkimSignature, _> = st(&s).parse();
    let want = tag_list(&s);
    let bad = matches!(&r, Err(e) if e.kind == DkimSignatureErrorKind::TagListFormat);
    check(bad == want.is_none(), "signature is rejected as ill-formed tag list exactly when it is one");
    if let (Ok(r), Some(w)) = (&r, &want) {
        let k = ["v", "a", "d", "s", "h", "b", "bh", "c", "i", "l", "q", "t", "x", "z"];
        let w: Vec<_> = w.iter().filter(|t| !k.iter().any(|k| k.as_bytes() == &t.0[..])).cloned().collect();
        check(same_tags(&r.ext_tags, &w), "unrecognised tags are kept with name and value, in order");
        if w.len() >= 1 {
            reach("extension tag kept");
        }
    }
    if let (Err(e), None) = (&r, &want) {
        check(e.domain_str.is_none() && e.algorithm_str.is_none(), "no data is salvaged from an ill-formed list");
        reach("ill-formed");
    }
}

/// Tag names are compared exactly; a repeated one makes the list ill-formed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_tag_duplicates() {
    let a = bytes("first", 2);
    let b = bytes("second", 2);
    assume(tag_name_ok(&a) && tag_name_ok(&b));
    let mut s = b"p=;".to_vec();
    s.extend_from_slice(&a);
    s.extend(pick("between", &["=x;zz=;", "=;", "=y; \r\n\t"]).as_bytes());
    s.extend_from_slice(&b);
    s.extend(b"=z");
    record_case(&s, &KNOWN);
    let eq = same(&a, &b);
    let r: Result<DkimKeyRecord, _> = st(&s).parse();
    if eq {
        check(r.is_err(), "repeated tag name is an error");
        reach("repeated");
    }
}

/// Every tag known to the signature and record formats may occur once only.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_tag_known_once() {
    let all = "v=1;a=ed25519-sha256;d=x.org;s=s;h=From;bh=AAAA;b=AAAA;c=simple;i=@x.org;l=1;q=dns/txt;t=1;x=2;z=a:b";
    check(all.parse::<DkimSignature>().is_ok(), "complete signature accepted");
    let n = choice("tag", 14) as usize;
    let dup = all.split(';').nth(n).unwrap();
    let front = bool_("front");
    let s = if front { format!("{dup};{all}") } else { format!("{all};{dup}") };
    check(
        matches!(s.parse::<DkimSignature>(), Err(e) if e.kind == DkimSignatureErrorKind::TagListFormat),
        "repeated signature tag makes the signature ill-formed",
    );
    let rec = "v=DKIM1;h=sha256;k=rsa;n=x;p=;s=*;t=y";
    check(rec.parse::<DkimKeyRecord>().is_ok(), "complete record accepted");
    let dup = rec.split(';').nth(n % 7).unwrap();
    let s = if front { format!("{dup};{rec}") } else { format!("{rec};{dup}") };
    check(
        matches!(s.parse::<DkimKeyRecord>(), Err(DkimKeyRecordError::TagListFormat)),
        "repeated record tag makes the record ill-formed",
    );
    reach("repeated");
}
