//! Histories of changes on the way from signer to verifier.
use crate::common::*;
use crate::e2e::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use viadkim::header::*;
use viadkim::signature::DKIM_SIGNATURE_NAME;
use viadkim::signer::*;
use viadkim::verifier::*;

const SIGNED: [&str; 3] = ["From", "To", "Subject"];

struct Mail {
    /// With the signature field somewhere.
    f: Fields,
    body: Vec<u8>,
    relaxed_header: bool,
    relaxed_body: bool,
    /// The declared length covers the whole body signed.
    limited: bool,
}
impl Mail {
    fn find(&self, n: &str) -> Option<usize> {
        self.f.iter().rposition(|x| ieq(&x.0, n.as_bytes()))
    }
    /// Something every relay may do; false if it does not apply here.
    fn tolerated(&mut self, e: u64) -> bool {
        match e {
            // a field not signed is added anywhere
            0 => {
                let n = u8_("added name");
                assume(field_name_ok(&[n]));
                let v = u8_("added value");
                assume(field_body_ok(&[v]));
                let n_ = self.f.len();
                let at = match bound(0, 1) {
                    0 => pick("place", &[0, n_ / 2, n_]),
                    _ => choice("place", n_ as u64 + 1) as usize,
                };
                self.f.insert(at, (vec![n], vec![v]));
            }
            // a field not signed is removed
            1 => match self.find("Received") {
                Some(i) => drop(self.f.remove(i)),
                None => return false,
            },
            // neighbours change places
            2 => {
                let i = choice("place", self.f.len() as u64 - 1) as usize;
                if ieq(&self.f[i].0, &self.f[i + 1].0) {
                    return false;
                }
                self.f.swap(i, i + 1);
            }
            // another signature is put on top
            3 => self.f.insert(0, (b"Dkim-Signature".to_vec(), b" v=1; a=rsa-sha256; b=x".to_vec())),
            // names change their case
            4 if self.relaxed_header => {
                let i = choice("place", self.f.len() as u64) as usize;
                for c in self.f[i].0.iter_mut() {
                    if c.is_ascii_alphabetic() {
                        *c ^= 0x20;
                    }
                }
            }
            // fields are folded elsewhere, whitespace is squeezed or widened
            5 if self.relaxed_header => {
                let i = choice("place", self.f.len() as u64) as usize;
                let v = self.f[i].1.clone();
                let mut at: Vec<usize> = (1..v.len()).filter(|k| wsp(v[*k]) && !wsp(v[*k - 1]) && v[*k - 1] != b'\n').collect();
                // of a long field only some places
                while at.len() > 3 {
                    at.remove(at.len() / 2);
                }
                if at.is_empty() {
                    return false;
                }
                let mut w = pick("fold", &[&b"\r\n"[..], b"\r\n ", b""]).to_vec();
                let s = u8_("blank");
                assume(wsp(s));
                w.push(s);
                let k = pick("gap", &at);
                let w = [&v[..k], &w, &v[k..]].concat();
                if !field_body_ok(&w) {
                    return false;
                }
                self.f[i].1 = w;
            }
            // blanks at the ends of a value
            6 if self.relaxed_header => {
                let i = choice("place", self.f.len() as u64) as usize;
                let s = u8_("blank");
                assume(wsp(s));
                if bool_("front") {
                    self.f[i].1.insert(0, s);
                } else {
                    self.f[i].1.push(s);
                }
            }
            // empty lines at the end
            7 if self.body.ends_with(b"\r\n") => self.body.extend(b"\r\n\r\n"),
            // the last line break goes missing
            8 if self.body.ends_with(b"x\r\n") => self.body.truncate(self.body.len() - 2),
            // blanks at line ends and in gaps
            9 if self.relaxed_body => {
                let at: Vec<usize> = (0..self.body.len())
                    .filter(|k| self.body[*k..].starts_with(b"\r\n") && *k > 0 || wsp(self.body[*k]))
                    .collect();
                if at.is_empty() {
                    return false;
                }
                let s = u8_("blank");
                assume(wsp(s));
                self.body.insert(pick("gap", &at), s);
            }
            // content is appended
            10 if self.limited && self.body.ends_with(b"\r\n") => self.body.extend(bytes("appended", 2)),
            _ => return false,
        }
        true
    }
    /// A change to what is signed; false if it does not apply here.
    fn harmful(&mut self, e: u64) -> bool {
        match e {
            // a byte of a signed value
            0 => {
                let i = self.find(pick("field", &SIGNED)).unwrap();
                let v = &mut self.f[i].1;
                let Some(k) = v.iter().position(|c| c.is_ascii_alphabetic()) else { return false };
                let x = u8_("other");
                assume(x != v[k] && field_body_ok(&[x]) && !wsp(x));
                v[k] = x;
            }
            // a signed field is removed
            1 => {
                let i = self.find(pick("field", &SIGNED[1..])).unwrap();
                self.f.remove(i);
            }
            // another one below it is taken for it
            2 => {
                let n = pick("field", &SIGNED[1..]);
                self.f.push((n.as_bytes().to_vec(), [b"z", &bytes("value", 1)[..]].concat()));
                assume(field_body_ok(&self.f.last().unwrap().1));
            }
            // the field the signature says is absent is added
            3 => self.f.insert(0, (b"cC".to_vec(), b" x".to_vec())),
            // a second author
            4 => self.f.insert(0, (b"From".to_vec(), b" b@x.org".to_vec())),
            // a body byte
            5 => {
                let Some(k) = self.body.iter().position(|c| *c == b'x') else { return false };
                let x = u8_("other");
                assume(x != b'x' && !wsp(x) && x != b'\r' && x != b'\n');
                self.body[k] = x;
            }
            // appended content that counts
            6 if !self.limited => self.body.extend(b"y"),
            // content that the declared length covers goes missing
            7 => {
                let Some(k) = self.body.iter().position(|c| *c == b'x') else { return false };
                self.body.remove(k);
            }
            _ => return false,
        }
        true
    }
}

fn start() -> (Spec, Mail, FieldName) {
    let mut s = spec();
    s.canon = choice("canon", 4);
    s.select = Some(vec!["From", "To", "Subject", "Cc"]);
    if bool_("limited") {
        s.length = BodyLength::MessageContent;
    }
    let f = fields(&[("Received", b" r s"), ("To", b" b"), ("From", b" a@x.org"), ("Subject", b" some t")]);
    let body = pick("body", &[&b"A x  y\r\n\r\nx\r\n"[..], b"", b"x\r\n"]).to_vec();
    set_clock(1_700_000_001);
    let out = sign1(&hf(&f), s.request(), &[&body]).unwrap();
    let mut g = f.clone();
    g.insert(0, (out.header_name.clone().into_bytes(), out.header_value.clone().into_bytes()));
    let m = Mail {
        f: g,
        body,
        relaxed_header: s.canon & 1 == 1,
        relaxed_body: s.canon >> 1 == 1,
        limited: s.length == BodyLength::MessageContent,
    };
    (s, m, fname(DKIM_SIGNATURE_NAME))
}
/// The result for the signature made, wherever it is now.
fn outcome(s: &Spec, m: &Mail) -> VerificationResult {
    let cut = m.body.len() / 2;
    let v = verify(&s.res(), &hf(&m.f), &Config::default(), &[&m.body[..cut], &m.body[cut..]]).unwrap();
    // the one with a domain
    let mut v: Vec<_> = v.into_iter().filter(|r| m.f[r.index].1.len() > 40).collect();
    check(v.len() == 1, "the signature is found");
    v.pop().unwrap()
}

/// Changes which DKIM tolerates, one after another.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_transit() {
    let (s, mut m, _) = start();
    for k in 0..bound(2, 3) {
        let e = choice("change", 11);
        if !m.tolerated(e) {
            return;
        }
        if k > 0 && e == 10 {
            reach("appended");
        }
    }
    // a field of a signed name may have come in
    let r = outcome(&s, &m);
    let two = ["From", "To", "Subject", "Cc"].iter().any(|n| m.f.iter().filter(|x| ieq(&x.0, n.as_bytes())).count() > 1);
    check(!two && ok(&r), "a signature survives tolerated changes");
    reach("survived");
}

/// One change to what is signed, before or after a tolerated one.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_transit_harm() {
    let (s, mut m, _) = start();
    let first = bool_("harm first");
    if first && !m.harmful(choice("harm", 8)) {
        return;
    }
    if !m.tolerated(choice("change", 11)) {
        return;
    }
    if !first && !m.harmful(choice("harm", 8)) {
        return;
    }
    let r = outcome(&s, &m);
    check(!ok(&r), "a signature does not survive a change to what is signed");
    reach("broken");
}
