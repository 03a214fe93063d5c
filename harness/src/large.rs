//! Sizes: nothing changes where something gets long or many.
use crate::alone::resolver;
use crate::common::*;
use crate::e2e::spec;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::*;
use std::time::Duration;
use viadkim::canonicalize::*;
use viadkim::header::*;
use viadkim::quoted_printable as q;
use viadkim::record::*;
use viadkim::signer::*;
use viadkim::signature::*;
use viadkim::verifier::VerificationError as E;
use viadkim::verifier::*;
use viadkim::{decode_base64, encode_base64};

/// Every size up to `all`, then those around round numbers, up to `max`.
pub fn size(name: &str, all: usize, max: usize) -> usize {
    const ROUND: [usize; 31] = [
        32, 50, 64, 76, 78, 80, 99, 100, 127, 128, 132, 200, 253, 254, 255, 256, 300, 400, 500, 511, 512, 600, 700, 998, 1000, 1023, 1024, 2048, 4096, 8192,
        16384,
    ];
    let mut v: Vec<usize> = (0..=all).collect();
    for r in ROUND {
        for s in [r, r + 1] {
            if s > *v.last().unwrap() && s <= max {
                v.push(s);
            }
        }
    }
    pick(name, &v)
}
fn rep(of: &[u8], n: usize) -> Vec<u8> {
    of.iter().cycle().take(n).copied().collect()
}
/// A visible character, or an octet beyond ASCII.
fn visible(name: &str) -> u8 {
    let c = u8_(name);
    assume(c > b' ' && c != 0x7f);
    c
}

/// Canonical forms of long header fields.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_header() {
    let relaxed = choice("relaxed", 2);
    let mut name = b"To".to_vec();
    let mut body = b" a".to_vec();
    match choice("long", 5) {
        0 => {
            let l = u8_("letter");
            assume(field_name_ok(&[l]));
            name = rep(b"List-Unsubscribe", size("name", bound(80, 140), bound(300, 1100)));
            name.insert(0, b'X');
            name.push(l);
        }
        1 => {
            body = rep(b"word ", size("distance", bound(80, 140), bound(600, 4100)));
            body.insert(0, b' ');
            let (c, d) = (visible("c"), u8_("d"));
            assume(d >= b' ' && d != 0x7f);
            body.extend([c, b' ', d]);
        }
        2 => {
            body.extend(rep(b"\t  ", size("blanks", bound(80, 140), bound(600, 4100))));
            body.push(visible("c"));
        }
        3 => {
            body.extend(rep(b" \t", size("blanks at the end", bound(80, 140), bound(600, 4100))));
            body.insert(0, visible("c"));
        }
        _ => {
            for _ in 0..size("lines", bound(40, 80), bound(130, 400)) {
                body.extend(b" \r\n\t x");
            }
            body.extend([b' ', visible("c")]);
        }
    }
    assume(field_body_ok(&body));
    let h = headers(&[(&st(&name), &body)]);
    let (n, b) = &h.as_ref()[0];
    let mut r = b"#".to_vec();
    canonicalize_header(&mut r, canon(relaxed), n, b);
    check(same(&r, &[b"#", &header_canon(relaxed == 1, &name, &body)[..]].concat()), "long header fields have the canonical form the RFC defines");
    reach("long field");
}

/// Selection among many fields, by many mentions.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_select() {
    let relaxed = choice("relaxed", 2);
    let l = u8_("letter");
    assume(lower(l) == b'a' || lower(l) == b'b');
    let (nf, nh) = match choice("many", 3) {
        0 => (size("fields", bound(20, 40), bound(300, 1100)), 5),
        1 => (6, size("mentions", bound(20, 40), bound(300, 1100))),
        _ => (size("both", bound(20, 40), bound(78, 300)), 0),
    };
    let nh = if nh == 0 { nf } else { nh };
    let mut f: Fields = (0..nf).map(|i| (if i % 3 == 0 { b"a".to_vec() } else { b"Other".to_vec() }, format!("{i}").into_bytes())).collect();
    f.insert(choice("place", 2) as usize * nf, (vec![l], b"one".to_vec()));
    let mut h: Vec<Vec<u8>> = (0..nh).map(|i| if i % 5 == 0 { b"none".to_vec() } else { b"A".to_vec() }).collect();
    h.push(b"b".to_vec());
    h.push(b"other".to_vec());
    h.push(b"B".to_vec());
    let hs: Vec<&[u8]> = h.iter().map(|n| &n[..]).collect();
    let sel: Vec<FieldName> = hs.iter().map(|n| fname(&st(n))).collect();
    let r = canonicalize_headers(canon(relaxed), &hf(&f), &sel);
    let rf = refs(&f);
    let mut e = vec![];
    for i in select(&rf, &hs) {
        e.extend(header_canon(relaxed == 1, rf[i].0, rf[i].1));
        e.extend(b"\r\n");
    }
    check(same(&r, &e), "among many fields and mentions, selection is bottom-up, each once");
    reach("selected");
}

/// Many occurrences of a field of which none may be unsigned.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_unsigned() {
    let n = 1 + size("occurrences", bound(10, 40), bound(100, 300));
    let m = n - choice("mentions", 2) as usize;
    let l = u8_("letter");
    assume(lower(l) == b's' || lower(l) == b't');
    let signed_one = lower(l) == b't';
    let pad = pick("others", &[0usize, bound(70, 300)]);
    let mut f = fields(&[("From", b" a")]);
    for _ in 0..pad {
        f.push((b"Received".to_vec(), b" x".to_vec()));
    }
    for i in 0..n {
        let k = if i + 1 == n { vec![l] } else { b"T".to_vec() };
        f.push((k, b" y".to_vec()));
    }
    let h = format!("From{}", ":t".repeat(m));
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=e;h={h};bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, &h, "DKIM-Signature", &pre, "");
    let cfg = Config { headers_forbidden_to_be_unsigned: vec![fname("From"), fname("t")], ..Config::default() };
    let at = choice("at", 2) as usize * f.len();
    f.insert(at, (b"DKIM-Signature".to_vec(), v));
    let r = verify(&resolver(), &hf(&f), &cfg, &[]).unwrap().pop().unwrap();
    let all = m + !signed_one as usize >= n;
    check(ok(&r) == all, "of many occurrences, each must be signed");
    check(all || matches!(&r.status, VerificationStatus::Failure(E::Policy(PolicyError::UnsignedHeaderOccurrence))), "unsigned occurrence among many is reported as that");
    reach(if all { "many signed" } else { "one of many unsigned" });
}

/// Signatures far down in the header: the result names the right field, and the
/// signature field itself is not among what it signs.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_index() {
    let n = size("fields above", bound(2, 20), bound(300, 1100));
    let k = pick("fields between", &[0usize, 3, bound(100, 257)]);
    let c = u8_("value");
    assume(c > b' ' && c < 0x7f);
    let own = bool_("other signatures signed");
    let h = if own { "From:DKIM-Signature:x" } else { "From:x" };
    let bh = b64(&sha(b"\r\n"));
    let mut f: Fields = vec![];
    for i in 0..n {
        f.push((b"X".to_vec(), format!("{i}").into_bytes()));
    }
    f.push((b"From".to_vec(), b" a".to_vec()));
    for _ in 0..k {
        f.push((b"Y".to_vec(), b"y".to_vec()));
    }
    f.push((b"x".to_vec(), vec![c]));
    let pre = format!("v=1;a={ED};d=x.org;s=e;h={h};bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, h, "DKIM-Signature", &pre, "");
    let j = if own { choice("first", 2) as usize } else { 1 };
    let at = [f.len(), n][j];
    f.insert(at, (b"DKIM-Signature".to_vec(), v));
    let res = resolver();
    let r = verify(&res, &hf(&f), &Config::default(), &[]).unwrap();
    check(r.len() == 1 && r[0].index == at && ok(&r[0]), "a signature anywhere in the header verifies, under its index");
    // another one on top signs the first if told to
    let w = signed(ED1_PEM, false, &f, h, "DKIM-Signature", &pre, "");
    f.insert(0, (b"DKIM-Signature".to_vec(), w));
    let r = verify(&res, &hf(&f), &Config::default(), &[]).unwrap();
    check(r.len() == 2 && r[0].index == 0 && r[1].index == at + 1, "results are in the order of the fields");
    // the lower one signed a message without the upper: its mention of
    // signature fields now finds one more
    check(ok(&r[0]) && ok(&r[1]) == !own, "each signs the fields it signed");
    reach(if own { "signed signatures" } else { "deep signature" });
}

/// Long key records.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_record() {
    let c = u8_("c");
    assume(c > b' ' && c < 0x7f && c != b';' && c != b'=');
    let n = size("size", 3, bound(2100, 17000));
    let long = st(&rep(b"lorem ipsum ", n));
    let k = choice("where", 3);
    let r = match k {
        0 => format!("v=DKIM1;k=ed25519;n={}.{}x;p={ED1_RAW}", long, c as char),
        1 => format!("v=DKIM1;k=ed25519;p={ED1_RAW};zz={}.{}x", long, c as char),
        _ => format!("v=DKIM1;k=ed25519;p={}{}{ED1_RAW}", " ".repeat(n), "\r\n "),
    };
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let pre = format!("v=1;a={ED};d=x.org;s=s;h=From;bh={bh};b=");
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let res = Res::one("s._domainkey.x.org.", r.clone().into_bytes());
    let v = verify(&res, &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap();
    // a run of blanks before the line break is one folding
    check(ok(&v), "long key records are used as short ones are");
    let Some(rec) = v.key_record else {
        check(false, "long key records are recorded");
        return;
    };
    let t = format!("{long}.{}x", c as char);
    match k {
        0 => check(rec.notes.as_ref().map_or(false, |x| x.len() == t.trim().len()), "long notes are kept"),
        1 => check(rec.ext_tags.len() == 1 && same(rec.ext_tags[0].1.as_bytes(), t.trim().as_bytes()), "long tags are kept"),
        _ => {}
    }
    reach("long record");
}

/// Long tag lists, values, names.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_tags() {
    let c = u8_("c");
    assume(c >= b' ' && c < 0x7f);
    let c = c as char;
    let s = match choice("long", 6) {
        0 => format!("p=;aa={}{c}", st(&rep(b"word", size("value", bound(80, 140), bound(1100, 4100))))),
        1 => format!("p=;aa=w{}{c}", "\r\n  w \t y".repeat(size("words", bound(80, 140), bound(300, 1100)))),
        2 => format!("p=;a{}{c}=b", st(&rep(b"aZ_09", size("name", bound(80, 140), bound(300, 1100))))),
        3 => {
            let mut s = String::from("p=");
            for i in 0..size("tags", bound(40, 80), bound(130, 300)) {
                s.push_str(&format!(";t{i}={i}"));
            }
            s + ";t4" + &c.to_string() + "=x"
        }
        4 => format!("p=;aa=b{}{c}", st(&rep(b" \t ", size("blanks", bound(80, 140), bound(300, 1100))))),
        _ => format!("p=;aa{}={c}", st(&rep(b"\t ", size("blanks", bound(80, 140), bound(300, 1100))))),
    };
    record_case(s.as_bytes(), &["v", "h", "k", "n", "p", "s", "t"]);
    reach("long list");
}

/// Declared body lengths far beyond the body, and long bodies.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_length() {
    let n = pick("body", &[0usize, 5, bound(300, 2100), bound(5000, 9000)]);
    let mut body = rep(b"line\r\n", n);
    body.push(visible("c"));
    let bc = choice("body canon", 2);
    let cb = body_canon(bc == 1, &body).unwrap();
    // more than there is, by any power of two
    let near = if n == 5 { choice("l", 4) } else { 3 };
    let k = if near == 3 { 0 } else { choice("bits", 64) };
    let l = match near {
        3 => (cb.len() as u64).saturating_sub(5) + choice("near", 7),
        0 => (1u64 << k) + choice("plus", 2) * cb.len() as u64,
        1 => (1u64 << k) - 1,
        _ => u64::MAX - k,
    };
    let have = l <= cb.len() as u64;
    let covered = if have { &cb[..l as usize] } else { &cb[..choice("prefix", 2) as usize * cb.len()] };
    let f = simple_msg();
    let pre = format!("v=1;a={ED};c=simple/{};d=x.org;s=e;h=From;l={l};bh={};b=", cname(bc), b64(&sha(covered)));
    let v = signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "");
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), v));
    let at = choice("cut", 2) as usize * body.len() / 2;
    let r = verify(&resolver(), &hf(&g), &Config::default(), &[&body[..at], &body[at..]]).unwrap().pop().unwrap();
    check(ok(&r) == have, "verifies exactly when the body has the declared length");
    check(have || matches!(&r.status, VerificationStatus::Failure(E::InsufficientContent)), "a body that is too short is reported as that");
    check(r.signature.map_or(false, |s| s.body_length == Some(l)), "the declared length is recorded");
    reach(if have { "long enough" } else { "too short" });
}

/// A signature value spread over many lines.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_b() {
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let hc = choice("header", 2);
    let post = pick("after", &["", ";z=a:b"]);
    let pre = format!("v=1;a={ED};c={};d=x.org;s=e;h=From;bh={bh};b=", cname(hc));
    let v = signed(ED1_PEM, hc == 1, &f, "From", "DKIM-Signature", &pre, post);
    let w = u8_("blank");
    assume(wsp(w));
    let n = size("blanks", bound(10, 80), bound(130, 1100));
    let every = pick("every", &[1usize, 4, 64]);
    let mut x = pre.as_bytes().to_vec();
    let val = &v[pre.len()..v.len() - post.len()];
    for (i, c) in val.iter().enumerate() {
        x.push(*c);
        if i % every == 0 && i + 1 < val.len() {
            x.extend(rep(b" \t", n / 2));
            x.extend(b"\r\n");
            x.push(w);
            x.extend(rep(b"\t ", (n + 1) / 2));
        }
    }
    x.extend(post.bytes());
    let other = bool_("changed after all");
    if other {
        let mut i = x.len() - post.len() - 1;
        while !alpha(x[i]) && !digit(x[i]) {
            i -= 1;
        }
        // the last digit but one, as the last has unused bits
        i -= 1;
        while !alpha(x[i]) && !digit(x[i]) {
            i -= 1;
        }
        x[i] = if x[i] == b'A' { b'B' } else { b'A' };
    }
    let mut g = f.clone();
    g.insert(0, (b"DKIM-Signature".to_vec(), x));
    let r = verify(&resolver(), &hf(&g), &Config::default(), &[]).unwrap().pop().unwrap();
    check(ok(&r) != other, "folding of a signature value does not matter, however much");
    reach("spread");
}

/// Many requests over the same body, each covering some of it in some form.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_requests() {
    let n = 1 + choice("requests", 10) as usize;
    let c = u8_("body");
    assume(c > b' ' && c != 0x7f);
    let body = [b"a \t", &[c][..], b" \r\nb  c\r\n\r\n"].concat();
    let shift = choice("shift", bound(3, 12) as u64) as usize;
    let f = simple_msg();
    let mut rs = vec![];
    let mut want = vec![];
    for i in 0..n {
        let bc = (i + shift) % 2 == 1;
        let cb = body_canon(bc, &body).unwrap();
        let k = (i + shift) % 12;
        let l = [None, None, Some(0), Some(3), Some(cb.len()), Some(cb.len() + 1), None, Some(1), Some(2), Some(4), Some(5), Some(6)][k];
        let mut s = spec();
        s.canon = bc as u64 * 2;
        s.length = l.map_or(if k == 6 { BodyLength::MessageContent } else { BodyLength::NoLimit }, |l| BodyLength::Exact(l as u64));
        rs.push(s.request());
        let have = l.unwrap_or(cb.len());
        want.push(cb.get(..have).map(|p| (sha(p), (k == 6 || l.is_some()).then_some(have as u64))));
    }
    let cut = pick("cut", &[0usize, 4, 9]);
    let mut g = Signer::prepare_signing(hf(&f), rs).map_err(|_| 0).unwrap();
    let _ = g.process_body_chunk(&body[..cut]);
    let _ = g.process_body_chunk(&body[cut..]);
    let r = block_on(g.sign());
    check(r.len() == n, "one result for each of many requests");
    for (r, w) in r.iter().zip(&want) {
        match (r, w) {
            (Ok(o), Some((h, l))) => {
                check(same(&o.signature.body_hash, h) && o.signature.body_length == *l, "each of many requests covers its part of the body");
                reach("signed");
            }
            (Err(e), None) => check(*e == SigningError::InsufficientContent, "a body that is too short is reported as that"),
            _ => check(false, "each of many requests has its own result"),
        }
    }
}

/// Many signatures over the same body, each covering some of it in some form.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_alone() {
    let n = pick("signatures", if bound(0, 1) == 0 { &[1, 2, 4, 7, 10, 12][..] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12][..] });
    let c = u8_("body");
    assume(c > b' ' && c != 0x7f);
    let body = [b"a \t", &[c][..], b" \r\nb  c\r\n\r\n"].concat();
    let forbid = bool_("forbid unsigned");
    let shift = choice("shift", bound(3, 12) as u64) as usize;
    let wrong = choice("wrong", n as u64 + 1) as usize;
    let f = simple_msg();
    let mut g = f.clone();
    let mut want = vec![];
    for i in 0..n {
        let bc = (i + shift) % 2 == 1;
        let cb = body_canon(bc, &body).unwrap();
        let l = [None, None, Some(0), Some(3), Some(cb.len()), Some(cb.len() + 1), Some(cb.len() - 1), Some(1), Some(2), Some(4), Some(5), Some(6)][(i + shift) % 12];
        let part = &cb[..l.unwrap_or(cb.len()).min(cb.len())];
        let mut hash = sha(part);
        hash[7] ^= (i == wrong) as u8;
        let lt = l.map_or(String::new(), |l| format!("l={l};"));
        let pre = format!("v=1;a={ED};c=simple/{};d=x.org;s=e;h=From;{lt}bh={};b=", cname(bc as u64), b64(&hash));
        g.push((b"DKIM-Signature".to_vec(), signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "")));
        want.push(match l {
            Some(l) if l > cb.len() => Some(E::InsufficientContent),
            Some(l) if forbid && l < cb.len() => Some(E::Policy(PolicyError::UnsignedContent)),
            _ if i == wrong => Some(E::BodyHashMismatch),
            _ => None,
        });
    }
    let cfg = Config { forbid_unsigned_content: forbid, max_signatures: 20, ..Config::default() };
    let cut = pick("cut", &[0usize, 4, 9]);
    let r = verify(&resolver(), &hf(&g), &cfg, &[&body[..cut], &body[cut..]]).unwrap();
    check(r.len() == n, "one result for each of many signatures");
    for (i, (r, w)) in r.iter().zip(&want).enumerate() {
        check(r.index == f.len() + i, "results are in the order of the fields");
        let got = match &r.status {
            VerificationStatus::Success => None,
            VerificationStatus::Failure(e) => Some(e.clone()),
        };
        check(got == *w, "each of many signatures has its own result");
    }
    reach("many");
}

/// Long header fields are recognised as short ones are.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_field() {
    let c = u8_("c");
    match choice("what", 4) {
        0 => {
            assume(c < 0x80);
            let mut n = rep(b"Abc-9", size("name", bound(80, 140), bound(1100, 4100)));
            n.insert(choice("place", 2) as usize * n.len(), c);
            check(FieldName::new(st(&n)).is_ok() == field_name_ok(&n), "long field names are as short ones");
            if let Ok(a) = FieldName::new(st(&n)) {
                let mut m = n.clone();
                let i = if m[0] == c { 0 } else { m.len() - 1 };
                m[i] = pick("other", &[b'k', b'K', b'-']);
                check((a == fname(&st(&m))) == ieq(&n, &m), "long field names are compared as a whole");
                check((a == &st(&m)[..]) == ieq(&n, &m), "long field names are compared as a whole");
            }
            reach("long name");
        }
        1 => {
            let mut b = rep(b"text ", size("line", bound(80, 140), bound(1100, 4100)));
            b.push(c);
            b.extend(b"\r\n y");
            check(FieldBody::new(b.clone()).is_ok() == field_body_ok(&b), "long lines are as short ones");
            reach("long line");
        }
        2 => {
            let mut b = b" x".to_vec();
            for _ in 0..size("lines", bound(80, 140), bound(300, 1100)) {
                b.extend(b"\r\n\ty");
            }
            b.extend(b"\r\n ");
            b.push(c);
            check(FieldBody::new(b.clone()).is_ok() == field_body_ok(&b), "many lines are as few");
            reach("many lines");
        }
        _ => {
            let mut b = b"x\r\n".to_vec();
            b.extend(rep(b" \t", size("blanks", bound(80, 140), bound(1100, 4100))));
            b.push(c);
            check(FieldBody::new(b.clone()).is_ok() == field_body_ok(&b), "lines of many blanks are as those of few");
            reach("many blanks");
        }
    }
}

/// Long values of signature tags.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_values() {
    let c = u8_("c");
    assume(c > b' ' && c < 0x7f && c != b';' && c != b':' && c != b'|' && c != b'=');
    let ch = c as char;
    let parse = |s: String| -> Result<DkimSignature, DkimSignatureError> { s.parse() };
    const BASE: &str = "v=1;a=ed25519-sha256;d=x.org;s=s;bh=AAAA;b=AAAA";
    match choice("what", 4) {
        0 => {
            let n = size("names", bound(40, 80), bound(130, 400));
            let mut h: Vec<String> = (0..n).map(|i| format!("N{}", i % 7)).collect();
            h.push(format!("{ch}x"));
            h.insert(choice("place", 2) as usize * n, "from".into());
            let Ok(s) = parse(format!("{BASE};h={}", h.join(":"))) else {
                check(false, "long lists of names are accepted");
                return;
            };
            let l: Vec<&str> = s.signed_headers.iter().map(|n| n.as_ref()).collect();
            check(l.len() == h.len(), "every name of a long list is taken");
            for (a, b) in l.iter().zip(&h) {
                check(same(a.as_bytes(), b.as_bytes()), "every name of a long list is taken");
            }
            reach("names");
        }
        1 => {
            let n = size("copies", bound(20, 40), bound(78, 130));
            let mut z: Vec<String> = (0..n).map(|i| format!("N{i}:v=3A{i}")).collect();
            z.push(format!("X:{ch}"));
            let Ok(s) = parse(format!("{BASE};h=From;z={}", z.join("|"))) else {
                check(false, "long lists of copied fields are accepted");
                return;
            };
            check(s.copied_headers.len() == z.len(), "every copied field of a long list is taken");
            for (i, (k, v)) in s.copied_headers.iter().enumerate() {
                let (a, b) = if i == n { ("X".into(), vec![c]) } else { (format!("N{i}"), format!("v:{i}").into_bytes()) };
                check(k.as_ref() == a && same(v, &b), "every copied field of a long list is taken");
            }
            reach("copied");
        }
        2 => {
            let n = size("octets", bound(80, 140), bound(600, 1100));
            let mut d = rep(b"\0octets\xff", n);
            d.push(pick("octet", &[0, 0xff]));
            let fold = pick("fold", &[76usize, 10000]);
            let mut t = String::new();
            for (i, x) in b64(&d).chars().enumerate() {
                if i % fold == fold - 1 {
                    t.push_str("\r\n ");
                }
                t.push(x);
            }
            let Ok(s) = parse(format!("v=1;a=rsa-sha256;d=x.org;s=s;h=From;bh=AAAA;b={t}")) else {
                check(false, "long data are accepted");
                return;
            };
            check(same(&s.signature_data, &d), "long data are decoded");
            reach("data");
        }
        _ => {
            assume(digit(c));
            let n = size("zeros", bound(40, 80), bound(130, 300));
            let t = format!("{}{ch}1", "0".repeat(n));
            let r = parse(format!("{BASE};h=From;l={t};t={t};x=12345"));
            // the RFC allows 12 digits for times, and 76 for lengths; more
            // is not settled
            if t.len() <= 76 {
                let want = number(t.as_bytes());
                check(r.is_ok() && r.map_or(false, |r| r.body_length == want && r.timestamp == want), "numbers with leading zeros are read");
            }
            reach("zeros");
        }
    }
}

/// Long content, encoded and decoded.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_base64() {
    let n = size("size", bound(80, 140), bound(1100, 4100));
    let mut d = rep(b"ab\0\xff_", n);
    d.push(pick("octet", &[0, b'=', 0xff]));
    let e = encode_base64(&d);
    check(same(e.as_bytes(), &to_base64(&d)), "long data are encoded");
    check(decode_base64(&e).map_or(false, |r| same(&r, &d)), "long data are decoded");
    reach("long");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_qp() {
    let n = size("size", bound(80, 140), bound(1100, 4100));
    let c = u8_("c");
    assume(c < 0x80);
    let mut d = rep(pick("of", &[&b"text"[..], b" \xff", b"=;|", "\u{e4}\u{4e2d}".as_bytes()]), n);
    // whole characters only
    while std::str::from_utf8(&d).is_err() && d.first() == Some(&0xc3) {
        d.pop();
    }
    d.push(c);
    let special = pick("special", &[None, Some('|')]);
    let only = bool_("ascii only");
    let s = if only { q::encode_ascii_only(&d, special) } else { q::encode(&d, special) };
    check(q::decode(&s).map_or(false, |r| same(&r, &d)), "long data are encoded and decoded");
    check(!only || s.is_ascii(), "long data are encoded in ASCII if asked");
    let _ = Duration::ZERO;
    let _: Option<DkimKeyRecord> = None;
    reach("long");
}

/// Many signatures with keys in many places.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_lookup() {
    let n = 1 + choice("signatures", bound(12, 40) as u64) as usize;
    // few keys, or one for each
    let k = 1 + choice("selectors", bound(5, 12) as u64) as usize;
    let m = if k == bound(5, 12) { n.max(k) } else { k };
    let bad = choice("bad", m as u64 + 1) as usize;
    let letter = u8_("letter");
    assume(lower(letter) == b'x');
    let f = simple_msg();
    let bh = b64(&sha(b"\r\n"));
    let mut g = f.clone();
    for i in 0..n {
        let d = if i % 2 == 0 { "x.org".to_owned() } else { format!("{}.ORG", letter as char) };
        let pre = format!("v=1;a={ED};d={d};s=sel{};h=From;bh={bh};b=", i % m);
        g.push((b"DKIM-Signature".to_vec(), signed(ED1_PEM, false, &f, "From", "DKIM-Signature", &pre, "")));
    }
    let rec = |i: usize| if i == bad { Ans::Recs(vec![Ok(b"p=".to_vec())]) } else { Ans::Recs(vec![Ok(record(ED))]) };
    let res = Res::new((0..m).map(|i| (format!("sel{i}._domainkey.x.org."), rec(i))).collect());
    let cfg = Config { max_signatures: 100, ..Config::default() };
    let r = verify(&res, &hf(&g), &cfg, &[]).unwrap();
    check(r.len() == n, "one result for each of many signatures");
    for (i, r) in r.iter().enumerate() {
        check(r.index == f.len() + i && ok(r) == (i % m != bad), "each of many signatures is verified with its own key");
    }
    let mut asked = res.asked();
    asked.sort();
    let mut want: Vec<String> = (0..m.min(n)).map(|i| format!("sel{i}._domainkey.x.org.")).collect();
    want.sort();
    check(asked == want, "each of many keys is looked up once");
    reach("many keys");
}

/// Long lists in key records.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_lists() {
    let n = size("items", bound(40, 80), bound(130, 400));
    let c = u8_("c");
    assume(alpha(c) || digit(c));
    let c = c as char;
    let at = choice("at", 2) as usize * n;
    let mk = |item: &str| {
        let mut v: Vec<String> = (0..n).map(|i| format!("x{}{c}", i % 9)).collect();
        v.insert(at, item.to_owned());
        v.join(" : ")
    };
    let k = choice("list", 3);
    let r: Result<DkimKeyRecord, _> = match k {
        0 => format!("p=;h={}", mk("sha256")),
        1 => format!("p=;s={}", mk("email")),
        _ => format!("p=;t={}", mk("s")),
    }
    .parse();
    let Ok(r) = r else {
        check(false, "long lists are accepted");
        return;
    };
    check(match k {
        0 => r.hash_algorithms[..] == [viadkim::crypto::HashAlgorithm::Sha256],
        1 => r.service_types[..] == [ServiceType::Email],
        _ => r.flags[..] == [SelectorFlag::NoSubdomains],
    }, "the one known item of a long list is found, wherever it is");
    reach("long list");
}

/// Long field names which differ in case only, wherever names are compared.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_large_names() {
    let mut s = spec();
    let n = size("length", bound(24, 140), bound(80, 300));
    assume(n > 0);
    let at = if bool_("last") { n - 1 } else { 0 };
    let l = u8_("letter");
    assume(lower(l) == b'q' || lower(l) == b'r');
    let mut name = rep(b"X-Long-Name-", n);
    name[at] = b'q';
    let wanted: &'static str = Box::leak(st(&name).into_boxed_str());
    name[at] = l;
    let hit = lower(l) == b'q';
    let f: Fields = vec![(b"From".to_vec(), b" a".to_vec()), (name, b" v".to_vec()), (b"To".to_vec(), b" b".to_vec())];
    s.select = Some(vec!["from", wanted]);
    s.copy = true;
    s.canon = choice("canon", 2);
    s.width = 400;
    crate::e2e::round(&s, &f, b"", 1_700_000_001);
    let out = sign1(&hf(&f), s.request(), &[]).unwrap();
    check(out.signature.copied_headers.len() == 1 + hit as usize, "fields are copied whatever the case of their names");
    let g = with_top(out.to_header_field(), &hf(&f));
    // the name may be asked for in any case
    let up = if bool_("upper") { wanted.to_ascii_uppercase() } else { wanted.to_owned() };
    let req = Config { headers_required_in_signature: vec![fname(&up)], ..Config::default() };
    check(ok(&verify(&s.res(), &g, &req, &[]).unwrap()[0]), "a required header is found in any case");
    let g = HeaderFields::new([&g.as_ref()[..], &hf(&vec![(up.clone().into_bytes(), b" v".to_vec())]).as_ref()[..]].concat()).unwrap();
    let unsigned = Config { headers_forbidden_to_be_unsigned: vec![fname(wanted)], ..Config::default() };
    let r = verify(&s.res(), &g, &unsigned, &[]).unwrap().pop().unwrap();
    let refused = matches!(&r.status, VerificationStatus::Failure(E::Policy(PolicyError::UnsignedHeaderOccurrence)));
    check(refused == hit, "occurrences are counted in any case");
    reach(if hit { "same name" } else { "other name" });
}
