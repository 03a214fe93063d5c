//! End to end: what is signed here is as requested, and verifies here.
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::sound::*;
use crate::tags::st;
use std::time::Duration;
use viadkim::crypto::SigningKey;
use viadkim::header::*;
use viadkim::signature::*;
use viadkim::signer::*;
use viadkim::verifier::*;

/// A signing request and what it must give.
pub struct Spec {
    pub pem: &'static str,
    pub alg: &'static str,
    pub canon: u64,
    pub domain: &'static str,
    pub selector: &'static str,
    /// `d=` and `s=` as they must appear.
    pub d: &'static str,
    pub s: &'static str,
    /// Names to sign; `None` for the default selection.
    pub select: Option<Vec<&'static str>>,
    pub identity: Option<(&'static str, &'static str)>,
    pub length: BodyLength,
    pub time: Timestamp,
    pub duration: Option<Duration>,
    pub copy: bool,
    pub ext: Vec<(String, String)>,
    pub name: &'static str,
    pub width: usize,
    pub indent: &'static str,
    pub order: u64,
    pub ascii: bool,
}
pub const NAMES: [&str; 13] = ["v", "d", "i", "s", "a", "c", "l", "t", "x", "h", "bh", "b", "z"];

pub fn spec() -> Spec {
    Spec {
        pem: ED1_PEM,
        alg: ED,
        canon: 1,
        domain: "x.org",
        selector: "s",
        d: "x.org",
        s: "s",
        select: None,
        identity: None,
        length: BodyLength::NoLimit,
        time: Timestamp::Exact(1_700_000_000),
        duration: Some(Duration::from_secs(3600)),
        copy: false,
        ext: vec![],
        name: "DKIM-Signature",
        width: 78,
        indent: "\t",
        order: 0,
        ascii: false,
    }
}
pub fn rank(order: u64, n: &str) -> u64 {
    let c = n.bytes().fold(0u64, |a, c| a * 256 + c as u64);
    match order {
        1 => c,
        2 => u64::MAX - c,
        3 => (n != "b") as u64,
        4 => (n == "b") as u64,
        5 => (n != "z") as u64 * 2 + (n == "h") as u64,
        _ => 0,
    }
}
impl Spec {
    pub fn request(&self) -> SignRequest<SigningKey> {
        let alg = if self.alg == ED { SigningAlgorithm::Ed25519Sha256 } else { SigningAlgorithm::RsaSha256 };
        let mut r = SignRequest::new(dom(self.domain), sel(self.selector), alg, key(self.pem));
        r.canonicalization = Canonicalization::from((canon(self.canon & 1), canon(self.canon >> 1)));
        if let Some(s) = &self.select {
            r.header_selection = HeaderSelection::Manual(s.iter().map(|n| fname(n)).collect());
        }
        r.identity = self.identity.map(|i| Identity::new(i.0).unwrap());
        r.body_length = self.length;
        r.timestamp = self.time;
        r.valid_duration = self.duration;
        r.copy_headers = self.copy;
        r.ext_tags = self.ext.clone();
        r.format.header_name = self.name.into();
        r.format.line_width = self.width.try_into().unwrap();
        r.format.indentation = self.indent.into();
        let o = self.order;
        if o > 0 {
            r.format.tag_order = Some(Box::new(move |a, b| rank(o, a).cmp(&rank(o, b))));
        }
        r.format.ascii_only = self.ascii;
        r
    }
    pub fn names(&self, f: &Fields) -> Vec<Vec<u8>> {
        match &self.select {
            Some(s) => s.iter().map(|n| n.as_bytes().to_vec()).collect(),
            None => f.iter().rev().map(|(n, _)| n.clone()).filter(|n| default_name(n)).collect(),
        }
    }
    fn plain(&self) -> bool {
        let i = self.identity.map_or("", |i| &i.0[i.0.rfind('@').unwrap()..]);
        self.d == self.domain && self.s == self.selector && (i.is_ascii() || !self.ascii)
    }
    pub fn record_name(&self) -> String {
        let a = |s: &str| match s {
            "bücher.de" => "xn--bcher-kva.de".to_owned(),
            "ü" => "xn--tda".to_owned(),
            "中中公公.org" => "xn--fiqa70wa.org".to_owned(),
            s => s.to_ascii_lowercase(),
        };
        format!("{}._domainkey.{}.", a(self.selector), a(self.domain))
    }
    pub fn res(&self) -> Res {
        let rec = match self.pem {
            p if p == ED1_PEM || p == RSA1024_PEM => record(self.alg),
            p if p == ED2_PEM => format!("k=ed25519;p={ED2_RAW}").into_bytes(),
            _ => format!("p={RSA2048_SPKI}").into_bytes(),
        };
        Res::one(&self.record_name(), rec)
    }
}
/// The header names signed by default, by the documentation of `HeaderSelection`.
pub fn default_name(n: &[u8]) -> bool {
    let n: Vec<u8> = n.iter().map(|c| lower(*c)).collect();
    const D: [&str; 19] = [
        "from", "reply-to", "subject", "date", "to", "cc", "resent-date", "resent-from", "resent-to", "resent-cc",
        "in-reply-to", "references", "list-id", "list-help", "list-unsubscribe", "list-subscribe", "list-post",
        "list-owner", "list-archive",
    ];
    D.iter().any(|d| d.as_bytes() == &n[..])
}

/// Compares the signature field made with the request.
pub fn inspect(s: &Spec, out: &SigningOutput, f: &Fields, body: &[u8], now: u64) {
    let v = out.header_value.as_bytes();
    check(out.header_name == s.name, "header name is the one requested");
    check(field_body_ok(v), "signature is a well-formed header field");
    check(out.format_header().to_string() == format!("{}:{}", s.name, out.header_value), "formatted header");
    if s.ascii {
        check(v.iter().fold(0, |a, c| a | c) < 0x80, "signature is ASCII when requested");
    }
    let Some(tags) = tag_list(v) else {
        check(false, "signature is a well-formed tag list");
        return;
    };
    let get = |n: &str| tags.iter().find(|t| t.0 == n.as_bytes()).map(|t| &t.1[..]);
    let num = |n: &str, w: Option<u64>, label: &str| check(get(n).map(|v| number(v).unwrap()) == w, label);
    let h = s.names(f);
    let z: Vec<&(Vec<u8>, Vec<u8>)> = f.iter().filter(|x| h.iter().any(|n| ieq(n, &x.0))).collect();
    // presence
    for t in NAMES {
        let want = match t {
            "c" => s.canon != 0,
            "i" => s.identity.is_some(),
            "l" => s.length != BodyLength::NoLimit,
            "t" => s.time != Timestamp::None,
            "x" => s.duration.is_some(),
            "z" => s.copy && !z.is_empty(),
            _ => true,
        };
        check(get(t).is_some() == want || t == "c" && !want, "the signature has the tags requested");
    }
    let known = tags.iter().filter(|t| NAMES.iter().any(|n| n.as_bytes() == &t.0[..])).count();
    check(tags.len() == known + s.ext.len(), "the signature has no other tags");
    for (n, w) in &s.ext {
        check(get(n).map_or(false, |v| same(v, w.as_bytes())), "extension tags are as requested");
    }
    // values
    check(get("v") == Some(b"1"), "version");
    check(get("a") == Some(s.alg.as_bytes()), "algorithm is the one requested");
    check(get("d") == Some(s.d.as_bytes()), "domain is the one requested");
    check(get("s") == Some(s.s.as_bytes()), "selector is the one requested");
    let c = match get("c") {
        None => 0,
        Some(c) => match c {
            b"simple" | b"simple/simple" => 0,
            b"relaxed" | b"relaxed/simple" => 1,
            b"simple/relaxed" => 2,
            b"relaxed/relaxed" => 3,
            _ => 9,
        },
    };
    check(c == s.canon, "canonicalization is the one requested");
    let gh = without_ws(get("h").unwrap_or(b""));
    let mut wh = vec![];
    for (i, n) in h.iter().enumerate() {
        if i > 0 {
            wh.push(b':');
        }
        wh.extend(n);
    }
    check(same(&gh, &wh), "signed header names are those selected, in order");
    if let (Some(i), Some((_, w))) = (get("i"), s.identity) {
        let w = w.as_bytes();
        let a = w.iter().rposition(|c| *c == b'@').unwrap();
        let b = i.iter().rposition(|c| *c == b'@').unwrap_or(0);
        check(qp(&i[..b]).map_or(false, |l| same(&l, &w[..a])), "identity's local part is the one requested");
        check(s.ascii || same(&i[b..], &w[a..]), "identity's domain is the one requested");
    }
    let t = match s.time {
        Timestamp::None => None,
        Timestamp::Now => Some(now),
        Timestamp::Exact(t) => Some(t),
    };
    num("t", t, "timestamp is the one requested");
    num("x", s.duration.map(|d| t.unwrap_or(now).saturating_add(d.as_secs())), "expiration is the duration after the timestamp");
    let Some(cb) = body_canon(s.canon >> 1 == 1, body) else { return };
    let l = match s.length {
        BodyLength::NoLimit => None,
        BodyLength::MessageContent => Some(cb.len() as u64),
        BodyLength::Exact(l) => Some(l),
    };
    num("l", l, "body length is the one requested");
    let bh = sha(&cb[..l.map_or(cb.len(), |l| l as usize)]);
    check(base64(&without_ws(get("bh").unwrap_or(b""))).map_or(false, |b| same(&b.0, &bh)), "body hash");
    let names: Vec<&[u8]> = h.iter().map(|n| &n[..]).collect();
    let dh = sha(&hash_input(s.canon & 1 == 1, &refs(f), &names, s.name.as_bytes(), &without_b(v)));
    let sig = raw_sign(s.pem, &dh);
    check(base64(&without_ws(get("b").unwrap_or(b""))).map_or(false, |b| same(&b.0, &sig)), "signature over the header as selected");
    if let Some(v) = get("z") {
        let v = without_ws(v);
        let items = split(&v, b'|');
        let mut right = items.len() == z.len();
        for (i, x) in items.iter().zip(&z) {
            let c = i.iter().position(|c| *c == b':').unwrap_or(0);
            right &= qp(&i[..c]).map_or(false, |n| same(&n, &x.0));
            right &= i.len() > c && qp(&i[c + 1..]).map_or(false, |n| same(&n, &x.1));
        }
        check(right, "copied headers are those signed, unchanged");
    }
    // order
    if s.order > 0 {
        let mut sorted = true;
        for w in tags.windows(2) {
            sorted &= rank(s.order, &st(&w[0].0)) <= rank(s.order, &st(&w[1].0));
        }
        check(sorted, "tags are in the order requested");
    }
    // lines; whitespace in extension tags is left as it is
    let free = s.ext.iter().all(|(_, v)| !v.bytes().any(|c| wsp(c) || c == 13));
    let (mut ls, last) = lines(v);
    ls.push(last);
    for (i, l) in ls.iter().enumerate().filter(|_| free) {
        let n = l.len() + if i == 0 { s.name.len() + 1 } else { 0 };
        let n = n - l.iter().filter(|c| **c >= 0x80 && **c < 0xc0).count();
        // a line too long holds a single item which cannot be broken
        let t = trim(l);
        let t = t.strip_suffix(b";").unwrap_or(t);
        let one = t.is_empty() || !t.contains(&b' ') && !t.contains(&b';') && (t.starts_with(b"i=") || !t[..t.len() - 1].contains(&b':'));
        check(n <= s.width + l.ends_with(b";") as usize || one, "lines are broken at the width requested");
        if i > 0 {
            check(
                l.starts_with(s.indent.as_bytes()) && l.len() > s.indent.len() && !wsp(l[s.indent.len()]),
                "continuation lines begin with the indentation requested",
            );
        }
    }
    // the parsed form; label forms are kept as given
    if !s.plain() || s.order > 0 && s.ext.len() > 1 {
        return;
    }
    let p: Result<DkimSignature, _> = out.header_value.parse();
    check(p.map_or(false, |p| p == out.signature), "signature data returned are those of the header field");
    let g = &out.signature;
    check(same(&g.signature_data, &sig) && same(&g.body_hash, &bh), "signature data returned");
}

/// Signs, inspects, verifies.
pub fn round(s: &Spec, f: &Fields, body: &[u8], now: u64) {
    set_clock(now);
    let cut = body.len() / 2;
    let out = match sign1(&hf(f), s.request(), &[&body[..cut], &body[cut..]]) {
        Ok(o) => o,
        Err(e) => {
            let short = match (s.length, body_canon(s.canon >> 1 == 1, body)) {
                (BodyLength::Exact(l), Some(c)) => c.len() < l as usize,
                (BodyLength::Exact(_), None) => return,
                _ => false,
            };
            check(short && e == SigningError::InsufficientContent, "signing fails only for a body shorter than requested");
            reach("body too short");
            return;
        }
    };
    if let BodyLength::Exact(l) = s.length {
        if let Some(c) = body_canon(s.canon >> 1 == 1, body) {
            check(l as usize <= c.len(), "signing fails for a body shorter than requested");
        }
    }
    inspect(s, &out, f, body, now);
    let at = choice("place", 2) as usize * f.len();
    let mut g: Vec<HeaderField> = hf(f).as_ref().to_vec();
    g.insert(at, out.to_header_field());
    let g = HeaderFields::new(g).unwrap();
    let v = verify(&s.res(), &g, &Config::default(), &[body]).unwrap();
    let mut seen = false;
    for r in &v {
        if r.index == at {
            seen = true;
            check(r.status == VerificationStatus::Success, "signed message verifies");
            check(!s.plain() || s.order > 0 && s.ext.len() > 1 || r.signature.as_ref() == Some(&out.signature), "verified signature is the one made");
        }
    }
    check(seen, "signature is found");
    reach("verified");
}
fn printable(v: &[u8]) -> bool {
    let mut ok = true;
    for c in v {
        ok &= (*c >= 0x20) & (*c != 0x7f) | (*c == 9);
    }
    ok
}

/// Content: body and header field.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_content() {
    let mut s = spec();
    if bool_("rsa") {
        s.alg = RS;
        s.pem = RSA1024_PEM;
    }
    s.canon = choice("canon", 4);
    let body = bytes_upto("body", 0, bound(2, 4));
    let v = bytes("subject", bound(1, 2));
    assume(printable(&v));
    let mut f = fields(&[("Received", b" x"), ("From", b" a@x.org"), ("Subject", &v), ("to", b"\r\n b")]);
    if bool_("fold") {
        f[2].1.extend(b"\r\n \t");
        f[2].1.extend(&v);
        assume(field_body_ok(&f[2].1));
    }
    round(&s, &f, &body, 1_700_000_001);
}

/// Header selections.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_select() {
    let mut s = spec();
    s.canon = choice("canon", 2);
    s.select = match choice("selection", 9) {
        0 => None,
        1 => Some(vec!["From"]),
        2 => Some(vec!["from", "TO", "Subject"]),
        3 => Some(vec!["From", "From", "To", "To", "To", "To"]),
        4 => Some(vec!["X", "x", "From"]),
        5 => match bool_("twice") {
            true => Some(vec!["DKIM-Signature", "From", "dkim-signature"]),
            false => Some(vec!["dkim-signature", "From"]),
        },
        6 => Some(vec!["!\"#$%&'()*+,-./|=<>?@[]^_`{}~", "From"]),
        7 => Some(vec!["List-Unsubscribe-Post", "Message-ID", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "From", "Authentication-Results"]),
        _ => Some(vec!["From", "b", "bh", "v", "d"]),
    };
    s.copy = bool_("copy");
    if bool_("narrow") {
        s.width = 20;
    }
    let n = bytes("name", 1);
    assume(field_name_ok(&n));
    let mut f = fields(&[("To", b" 1"), ("FROM", b" a@x.org"), ("TO", b" 2"), ("resent-cc", b"")]);
    match choice("fields", 4) {
        0 => f.insert(1, (n, b" sym".to_vec())),
        1 => f.push((b"DKIM-Signature".to_vec(), b" v=1; b=x".to_vec())),
        2 => {
            f.insert(0, (b"!\"#$%&'()*+,-./|=<>?@[]^_`{}~".to_vec(), b" odd".to_vec()));
            f.push((b"From".to_vec(), b" other".to_vec()));
            f.push((b"list-ID".to_vec(), b" l".to_vec()));
        }
        _ => {}
    }
    // by default every From header must be signed
    let froms = f.iter().filter(|x| ieq(&x.0, b"from")).count();
    let signed = s.names(&f).iter().filter(|n| ieq(n, b"from")).count();
    if signed < froms {
        return;
    }
    round(&s, &f, b"x\r\n", 1_700_000_001);
}

/// Identity, domain and selector forms.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_names() {
    let mut s = spec();
    s.canon = choice("canon", 2);
    s.ascii = bool_("ascii only");
    let (d, du, da, ids): (_, _, _, &[(&str, &str)]) = match choice("domain", 5) {
        0 => ("x.org", "x.org", "x.org", &[("@x.org", ""), ("a@x.org", ""), ("\"a b\"@x.org", ""), ("a.b=c|e@X.oRg", ""), ("\"@ ;=\\\"\"@m.x.org", ""), ("ü@x.org", ""), ("\"u\u{1F60A}:|\"@a.b.x.org", "")]),
        1 => ("X.ORG", "X.ORG", "X.ORG", &[("i@x.org", ""), ("@a.X.org", "")]),
        // both forms have the same number of octets
        3 => ("中中公公.org", "中中公公.org", "xn--fiqa70wa.org", &[("ü@a.中中公公.org", "")]),
        2 => ("bücher.de", "bücher.de", "xn--bcher-kva.de", &[("u@bücher.de", ""), ("@m.bücher.de", "")]),
        _ => ("xn--bcher-kva.de", "bücher.de", "xn--bcher-kva.de", &[("@bücher.de", "")]),
    };
    s.domain = d;
    s.d = if s.ascii { da } else { du };
    let (l, lu, la) = pick("selector", &[("s", "s", "s"), ("S.k-1", "S.k-1", "S.k-1"), ("ü", "ü", "xn--tda")]);
    s.selector = l;
    s.s = if s.ascii { la } else { lu };
    let i = choice("identity", ids.len() as u64 + 1) as usize;
    s.identity = ids.get(i).copied().map(|i| (i.0, i.0));
    let a = u8_("width");
    assume(a == 10 || a == 78);
    s.width = if a == 10 { 10 } else { 78 };
    let f = fields(&[("From", b" a@x.org")]);
    round(&s, &f, b"x\r\n", 1_700_000_001);
}

/// Body lengths.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_length() {
    let mut s = spec();
    s.canon = choice("canon", 2) * 2;
    let body = bytes_upto("body", 0, bound(3, 4));
    s.length = match choice("length", 6) {
        0 => BodyLength::NoLimit,
        1 => BodyLength::MessageContent,
        n => BodyLength::Exact(n - 2),
    };
    round(&s, &simple_msg(), &body, 1_700_000_001);
}

/// Times.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_time() {
    let mut s = spec();
    let now = pick("now", &[0, 1, 1_700_000_001, 9_999_999_999]);
    let t = pick("time", &[Timestamp::None, Timestamp::Now, Timestamp::Exact(0), Timestamp::Exact(1_700_000_000), Timestamp::Exact(u64::MAX - 1), Timestamp::Exact(u64::MAX)]);
    s.time = t;
    s.duration = pick(
        "duration",
        &[None, Some(Duration::from_millis(1999)), Some(Duration::from_secs(432_000)), Some(Duration::from_secs(u64::MAX))],
    );
    // accepted now by a verifier with the default tolerance
    let at = match t {
        Timestamp::Exact(t) => t,
        _ => now,
    };
    let ends = s.duration.map(|d| at.saturating_add(d.as_secs()));
    set_clock(now);
    let f = simple_msg();
    let out = sign1(&hf(&f), s.request(), &[b"x"]);
    if t == Timestamp::Exact(u64::MAX) && ends.is_some() {
        // there is no later time
        check(out.is_err(), "no signature is made that could never be valid");
        reach("no time left");
        return;
    }
    let out = out.unwrap();
    inspect(&s, &out, &f, b"x", now);
    let g = with_top(out.to_header_field(), &hf(&f));
    let r = verify(&s.res(), &g, &Config::default(), &[b"x"]).unwrap().pop().unwrap();
    let good = ends.map_or(true, |x| now < x.saturating_add(300)) && (t == Timestamp::None || at.saturating_sub(300) <= now);
    check((r.status == VerificationStatus::Success) == good, "signed message verifies while it is valid");
    reach(if good { "valid" } else { "not valid" });
}

/// Formats: order, width, indentation, extension tags.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_format() {
    let mut s = spec();
    s.canon = choice("canon", 2);
    s.order = choice("order", 6);
    s.name = pick("name", &["DKIM-Signature", "dkim-SIGNATURE"]);
    let (w, i) = pick("width", &[(78, "\t"), (1, " "), (9, "  "), (20, "\t \t"), (33, " "), (400, "\t"), (16, "\t"), (3, "    ")]);
    s.width = w;
    s.indent = i;
    s.identity = Some(("\"a;b c\"@x.org", ""));
    s.identity = s.identity.map(|i| (i.0, i.0));
    s.copy = true;
    s.length = BodyLength::MessageContent;
    s.ext = match choice("extension tags", 4) {
        0 => vec![],
        1 => vec![("r".into(), "y".into())],
        2 => vec![("Z_9".into(), "".into()), ("B".into(), "b=c: x y".into())],
        _ => vec![("aa".into(), "1\r\n 2\t3".into()), ("n".into(), "ü=|".into())],
    };
    let f = fields(&[("From", b" \"A\" <a@x.org>"), ("Subject", b" \xc3\xbc|;\r\n\tx "), ("To", b"")]);
    round(&s, &f, b"x\r\n", 1_700_000_001);
}

/// Every line width.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_width() {
    let mut s = spec();
    let deep = bound(0, 1) == 1;
    s.width = 1 + if deep { choice("width", 120) } else { pick("width", &[0, 4, 10, 17, 23, 29, 37, 44, 58, 61, 70, 88, 100, 119]) } as usize;
    s.order = if deep { choice("order", 6) } else { 0 };
    s.identity = Some(("\"ab=|; \"@x.org", "\"ab=|; \"@x.org"));
    s.select = Some(vec!["From", "Subject", "X-Longer-Name", "X", "Subject"]);
    s.copy = true;
    let v = bytes("subject", 1);
    assume(printable(&v));
    let f = fields(&[("From", b" a@x.org"), ("Subject", &v), ("Subject", b" \xe4\xb8\xad\xe4\xb8\xad tail of a longer value, ; with | things"), ("X", b" 1")]);
    round(&s, &f, b"x\r\n", 1_700_000_001);
}

/// Extension tags with arbitrary names and values.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_ext() {
    let mut s = spec();
    s.canon = choice("canon", 2);
    let n = bytes_upto("name", 1, 2);
    let v = bytes_upto("value", 0, bound(3, 4));
    let mut ascii = true;
    for c in n.iter().chain(&v) {
        ascii &= *c < 0x80;
    }
    assume(ascii);
    let mut ok = tag_name_ok(&n);
    let (ascii_only, before, after) = pick("around", &[(false, "", ""), (true, "", ""), (false, "\u{fc}", ""), (true, "", "\u{fc}")]);
    s.ascii = ascii_only;
    let v = [before.as_bytes(), &v, after.as_bytes()].concat();
    ok &= tag_value_ok(&v) && !(ascii_only && after != "");
    for t in NAMES {
        ok &= !same(t.as_bytes(), &n);
    }
    assume(!same(&n, b"q"));
    s.ext = vec![("r".into(), "1".into()), (st(&n), st(&v))];
    ok &= !same(&n, b"r");
    if before == "" && bool_("last") {
        s.order = 4;
        s.width = 30;
    }
    let f = simple_msg();
    let r = Signer::prepare_signing(hf(&f), [s.request()]);
    check(r.is_ok() == ok, "extension tags are accepted exactly when well-formed, distinct and not reserved");
    if let Err(e) = r {
        check(e == RequestError::InvalidExtTags, "bad extension tags are reported as that");
        reach("refused");
        return;
    }
    round(&s, &f, b"x\r\n", 1_700_000_001);
}

/// Several signatures made in one go.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_multi() {
    let n = 2 + choice("requests", bound(1, 2) as u64) as usize;
    let body = bytes("body", 2);
    let mut ss = vec![];
    for _ in 0..n {
        let mut s = spec();
        match choice("request", 5) {
            0 => {}
            1 => s.canon = 3,
            2 => {
                s.canon = 2;
                s.alg = RS;
                s.pem = RSA1024_PEM;
                s.selector = "r";
                s.s = "r";
            }
            3 => s.length = BodyLength::Exact(3),
            _ => {
                s.length = BodyLength::MessageContent;
                s.pem = ED2_PEM;
                s.selector = "t";
                s.s = "t";
            }
        }
        ss.push(s);
    }
    set_clock(1_700_000_001);
    let f = simple_msg();
    let mut g = Signer::prepare_signing(hf(&f), ss.iter().map(|s| s.request())).map_err(|_| 0).unwrap();
    let _ = g.process_body_chunk(&body[..1]);
    let _ = g.process_body_chunk(&body[1..]);
    let outs = block_on(g.sign());
    check(outs.len() == n, "one result for each request");
    let mut h: Vec<HeaderField> = hf(&f).as_ref().to_vec();
    let mut table = vec![];
    for (s, o) in ss.iter().zip(&outs) {
        match o {
            Ok(o) => {
                inspect(s, o, &f, &body, 1_700_000_001);
                h.insert(0, o.to_header_field());
                table.extend(s.res().table);
            }
            Err(e) => {
                let c = body_canon(s.canon >> 1 == 1, &body);
                check(c.map_or(true, |c| c.len() < 3) && *e == SigningError::InsufficientContent, "signing fails only for a body shorter than requested");
                reach("body too short");
            }
        }
    }
    let k = h.len() - f.len();
    if k == 0 {
        return;
    }
    let r = verify(&Res::new(table), &HeaderFields::new(h).unwrap(), &Config::default(), &[&body]).unwrap();
    check(r.len() == k, "all signatures are found");
    for r in &r {
        check(r.status == VerificationStatus::Success, "all signatures verify");
    }
    reach("verified");
}

/// Arbitrary bytes of the message copied in `z=`, and arbitrary identities.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_copied() {
    let mut s = spec();
    s.copy = true;
    s.ascii = bool_("ascii only");
    s.width = pick("width", &[78, 5]);
    let odd = bool_("odd name");
    let mut v = bytes("value", if odd { 1 } else { bound(1, 2) });
    if !odd {
        let (l, r) = pick("around", &[("", ""), (" ü", "=3D"), ("\r\n ", "|=")]);
        v.splice(0..0, l.bytes());
        v.extend(r.bytes());
    }
    assume(field_body_ok(&v));
    let mut f = fields(&[("From", b" a@x.org"), ("Subject", &v)]);
    if odd {
        f[1] = (v, b" x".to_vec());
        let n = &f[1].0;
        assume(field_name_ok(&n) && n[0] != b';');
        s.select = Some(vec!["From", "!", "#", "=", "|", "a", "DEL"]);
    } else if bool_("empty") {
        // nothing but names to copy
        for x in &mut f {
            x.1.clear();
        }
    }
    round(&s, &f, b"x\r\n", 1_700_000_001);
}

/// Sizes far beyond the usual: many fields, long values, long names, long bodies.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_e2e_large() {
    let mut s = spec();
    s.canon = choice("canon", 2) * 3;
    let c = bytes("byte", 1);
    assume(printable(&c));
    let mut f = simple_msg();
    let mut body = b"x\r\n".to_vec();
    match choice("size", 8) {
        7 => {
            // many different names, signed as such and copied
            let n = pick("names", &[17usize, 33, bound(70, 300)]);
            let mut h = vec!["From"];
            for i in 0..n {
                let name: &'static str = Box::leak(format!("N{i}").into_boxed_str());
                f.push((name.as_bytes().to_vec(), format!(" {i}").into_bytes()));
                h.push(name);
            }
            f[n].1 = c.clone();
            s.select = Some(h);
            s.copy = true;
        }
        0 => {
            // more than 255 occurrences of one name
            for i in 0..bound(258, 600) {
                f.push((b"To".to_vec(), if i == 1 { c.clone() } else { b" t".to_vec() }));
            }
        }
        1 => {
            let mut v = vec![];
            for i in 0..bound(30, 300) {
                if i > 0 {
                    v.extend(b"\r\n");
                }
                v.extend(b" a longer line of some subject which never ends and goes on; and on ");
                if i == 20 {
                    v.extend(&c);
                }
            }
            f[1].1 = v;
            s.copy = true;
        }
        2 => {
            for _ in 0..bound(30, 300) {
                body.extend(b"Some  line of text \twith spaces at its end, of more than one hundred octets altogether, which \xff is not too long. \r\n");
            }
            body.extend(&c);
            s.length = BodyLength::MessageContent;
        }
        3 => {
            s.pem = RSA2048_PEM;
            s.alg = RS;
            s.width = pick("width", &[78usize, 77, 50]);
        }
        4 => {
            assume(c[0] != b';' && c[0] < 0x80 && !wsp(c[0]));
            s.order = pick("order", &[0, 2]);
            for i in 0..40 {
                s.ext.push((format!("x{i}"), if i == 30 { st(&c) } else { i.to_string() }));
            }
        }
        5 => {
            // 253 octets with labels of 63
            s.domain = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb.ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc.ddddddddddddddddddddddddddddddddddddddddddddddddddddddddd.org";
            s.d = s.domain;
            s.selector = "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee.f";
            s.s = s.selector;
            let i = "gggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggg@aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb.ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc.ddddddddddddddddddddddddddddddddddddddddddddddddddddddddd.org";
            s.identity = Some((i, i));
        }
        _ => {
            for i in 0..9 {
                f.insert(0, (b"DKIM-Signature".to_vec(), format!(" v=1; i={i}").into_bytes()));
            }
            f[9].1 = c.clone();
        }
    }
    round(&s, &f, &body, 1_700_000_001);
}
