//! Quoted-printable and Base64.
use crate::oracle::*;
use crate::rt::*;
use crate::tags::*;
use viadkim::quoted_printable as q;
use viadkim::{decode_base64, encode_base64};

fn uppercase(v: &[u8]) -> bool {
    let v = without_ws(v);
    let mut ok = true;
    for i in 0..v.len() {
        if v[i] == b'=' {
            for j in i + 1..v.len().min(i + 3) {
                ok &= !(v[j].wrapping_sub(b'a') < 6);
            }
        }
    }
    ok
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_qp_decode() {
    let mut v = pick("prefix", &[&b""[..], b"a=", b"= ", b" \r\n"]).to_vec();
    v.extend(ascii("text", 0, bound(4, 5)));
    assume(uppercase(&v));
    let r = q::decode(&st(&v));
    let want = qp(&v);
    check(r.is_ok() == want.is_some(), "quoted-printable text is accepted exactly when well-formed");
    if let (Ok(r), Some(w)) = (r, want) {
        check(same(&r, &w), "quoted-printable text is decoded");
        reach("decoded");
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_qp_decode_utf8() {
    let v = bytes_upto("text", 1, 3);
    assume(std::str::from_utf8(&v).is_ok() && uppercase(&v));
    let r = q::decode(std::str::from_utf8(&v).unwrap());
    check(r.ok() == qp(&v), "quoted-printable text is decoded");
    reach("decoded");
}

fn safe(c: u8, special: Option<u8>) -> bool {
    (c.wrapping_sub(0x21) < 0x5e) & (c != b';') & (c != b'=') & (Some(c) != special)
}

/// Any bytes survive encoding and decoding, and the encoding has no unsafe
/// character in it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_qp_roundtrip() {
    let b = bytes_upto("data", 0, bound(2, 3));
    let special = pick("special", &[None, Some('|'), Some(':'), Some('a')]);
    let only = bool_("ascii only");
    let s = if only { q::encode_ascii_only(&b, special) } else { q::encode(&b, special) };
    observe("encoded", s.as_bytes());
    let sp = special.map(|c| c as u8);
    let mut clean = true;
    let mut i = 0;
    while i < s.len() {
        let c = s.as_bytes()[i];
        if c == b'=' {
            i += 3;
        } else {
            clean &= safe(c, sp) | (!only & (c >= 0x80));
            i += 1;
        }
    }
    check(clean, "quoted-printable encoding leaves only safe characters");
    let d = q::decode(&s);
    check(d.map_or(false, |d| same(&d, &b)), "quoted-printable decoding reverses encoding");
    // plain text stays as it is
    let mut plain = true;
    for &c in &b {
        plain &= safe(c, sp);
    }
    if plain {
        check(same(s.as_bytes(), &b), "safe text is not changed by encoding");
        reach("plain");
    } else {
        reach("escaped");
    }
    if b.len() == 1 && !plain && (only || b[0] < 0x80) {
        let mut e = vec![b'='];
        for n in [b[0] >> 4, b[0] & 15] {
            e.push(if n < 10 { b'0' + n } else { b'A' + n - 10 });
        }
        check(same(s.as_bytes(), &e), "escapes are uppercase hexadecimal");
        reach("escape");
    }
}

/// Well-formed UTF-8 is kept unless ASCII is asked for.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_qp_utf8() {
    let b = bytes_upto("data", 1, bound(2, 3));
    assume(std::str::from_utf8(&b).is_ok() && b.iter().all(|c| *c >= 0x80));
    check(same(q::encode(&b, None).as_bytes(), &b), "well-formed UTF-8 text is not changed by encoding");
    let s = q::encode_ascii_only(&b, None);
    check(s.len() == 3 * b.len() && s.is_ascii(), "non-ASCII text is escaped when ASCII is required");
    check(q::decode(&s).map_or(false, |d| same(&d, &b)), "quoted-printable decoding reverses encoding");
    reach("encoded");
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_b64_decode() {
    let mut v = pick("prefix", &[&b""[..], b"QUJD", b"QUI="]).to_vec();
    v.extend(ascii("text", 0, bound(4, 5)));
    let r = decode_base64(&st(&v));
    match base64(&v) {
        None => check(r.is_err(), "text that is not Base64 is rejected"),
        Some((w, canonical)) => {
            if canonical {
                check(r.is_ok(), "Base64 text is accepted");
            }
            if let Ok(r) = r {
                check(same(&r, &w), "Base64 text is decoded");
                reach("decoded");
            }
        }
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_b64_encode() {
    let b = bytes_upto("data", 0, bound(4, 6));
    let s = encode_base64(&b);
    observe("encoded", s.as_bytes());
    check(same(s.as_bytes(), &to_base64(&b)), "Base64 encoding");
    check(decode_base64(&s).map_or(false, |d| same(&d, &b)), "Base64 decoding reverses encoding");
    reach("encoded");
}
