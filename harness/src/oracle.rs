//! Reference definitions, written from RFC 6376 and the API documentation alone.

// ---- body ------------------------------------------------------------------------

/// Splits at CRLF only.  The last element is what follows the last CRLF.
pub fn lines(b: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut out = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
            out.push(std::mem::take(&mut cur));
            i += 2;
        } else {
            cur.push(b[i]);
            i += 1;
        }
    }
    (out, cur)
}

pub fn wsp(b: u8) -> bool {
    (b == b' ') | (b == b'\t')
}

fn join_trimmed(mut ls: Vec<Vec<u8>>) -> Vec<u8> {
    while ls.last().map_or(false, |l| l.is_empty()) {
        ls.pop();
    }
    let mut r = vec![];
    for l in &ls {
        r.extend_from_slice(l);
        r.extend_from_slice(b"\r\n");
    }
    r
}

/// RFC 6376, section 3.4.3.
pub fn body_simple(b: &[u8]) -> Vec<u8> {
    let (mut ls, last) = lines(b);
    if !last.is_empty() {
        ls.push(last);
    }
    let r = join_trimmed(ls);
    if r.is_empty() {
        b"\r\n".to_vec()
    } else {
        r
    }
}

fn squeeze(l: &[u8]) -> Vec<u8> {
    let mut r: Vec<u8> = vec![];
    for &c in l {
        if wsp(c) {
            if r.last() != Some(&b' ') {
                r.push(b' ');
            }
        } else {
            r.push(c);
        }
    }
    if r.last() == Some(&b' ') {
        r.pop();
    }
    r
}

/// RFC 6376, section 3.4.4.  `None`: the body ends in an unterminated line of
/// whitespace only, for which the RFC leaves the result open.
pub fn body_relaxed(b: &[u8]) -> Option<Vec<u8>> {
    let (mut ls, last) = lines(b);
    if !last.is_empty() {
        let mut blank = true;
        for &c in &last {
            blank &= wsp(c);
        }
        if blank {
            return None;
        }
        ls.push(last);
    }
    Some(join_trimmed(ls.iter().map(|l| squeeze(l)).collect()))
}

pub fn body_canon(relaxed: bool, b: &[u8]) -> Option<Vec<u8>> {
    if relaxed {
        body_relaxed(b)
    } else {
        Some(body_simple(b))
    }
}

// ---- header ----------------------------------------------------------------------

/// One field, without trailing CRLF (RFC 6376, sections 3.4.1 and 3.4.2).
pub fn header_canon(relaxed: bool, name: &[u8], body: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    if !relaxed {
        r.extend_from_slice(name);
        r.push(b':');
        r.extend_from_slice(body);
        return r;
    }
    for &c in name {
        r.push(lower(c));
    }
    r.push(b':');
    // unfold
    let (ls, last) = lines(body);
    let mut u = vec![];
    for l in &ls {
        u.extend_from_slice(l);
    }
    u.extend_from_slice(&last);
    // squeeze, trim at the end; then trim at the start
    let q = squeeze(&u);
    let q = if q.first() == Some(&b' ') { &q[1..] } else { &q[..] };
    r.extend_from_slice(q);
    r
}

pub fn lower(c: u8) -> u8 {
    let up = (c.wrapping_sub(b'A') < 26) as u8;
    c | (up << 5)
}

pub fn ieq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= lower(a[i]) ^ lower(b[i]);
    }
    d == 0
}

/// Indexes of the fields signed by `h=`, in order (RFC 6376, section 5.4.2).
pub fn select(fields: &[(&[u8], &[u8])], h: &[&[u8]]) -> Vec<usize> {
    let mut used = vec![false; fields.len()];
    let mut r = vec![];
    for n in h {
        let mut i = fields.len();
        while i > 0 {
            i -= 1;
            if !used[i] && ieq(fields[i].0, n) {
                used[i] = true;
                r.push(i);
                break;
            }
        }
    }
    r
}

/// The signed header content: selected fields, then the signature field.
pub fn hash_input(
    relaxed: bool,
    fields: &[(&[u8], &[u8])],
    h: &[&[u8]],
    sig_name: &[u8],
    sig_value: &[u8],
) -> Vec<u8> {
    let mut r = vec![];
    for i in select(fields, h) {
        r.extend(header_canon(relaxed, fields[i].0, fields[i].1));
        r.extend_from_slice(b"\r\n");
    }
    r.extend(header_canon(relaxed, sig_name, sig_value));
    r
}

/// Whether the bytes are a well-formed header field body (RFC 5322 without
/// obsolete syntax).
pub fn field_body_ok(b: &[u8]) -> bool {
    let (mut ls, last) = lines(b);
    ls.push(last);
    for (i, l) in ls.iter().enumerate() {
        let mut blank = true;
        for &c in l {
            if (c < 0x20 && c != 9) || c == 0x7f {
                return false;
            }
            blank &= wsp(c);
        }
        if i > 0 && (blank || !wsp(l[0])) {
            return false;
        }
    }
    true
}
pub fn field_name_ok(b: &[u8]) -> bool {
    let mut ok = !b.is_empty();
    for &c in b {
        ok &= (c.wrapping_sub(0x21) < 0x5e) & (c != b':');
    }
    ok
}

// ---- tag lists --------------------------------------------------------------------

fn ws(c: u8) -> bool {
    wsp(c) | (c == b'\r') | (c == b'\n')
}

/// A run of whitespace is folding whitespace, `[*WSP CRLF] 1*WSP`.
pub fn is_fws(run: &[u8]) -> bool {
    let mut i = 0;
    while i < run.len() && wsp(run[i]) {
        i += 1;
    }
    if i == run.len() {
        return i > 0;
    }
    if i + 2 >= run.len() || run[i] != b'\r' || run[i + 1] != b'\n' {
        return false;
    }
    run[i + 2..].iter().all(|c| wsp(*c))
}

/// Every maximal run of whitespace is folding whitespace.
pub fn fws_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let s = i;
        while i < b.len() && ws(b[i]) {
            i += 1;
        }
        if i > s && !is_fws(&b[s..i]) {
            return false;
        }
        i += 1;
    }
    true
}
pub fn trim(mut b: &[u8]) -> &[u8] {
    while !b.is_empty() && ws(b[0]) {
        b = &b[1..];
    }
    while !b.is_empty() && ws(b[b.len() - 1]) {
        b = &b[..b.len() - 1];
    }
    b
}
pub fn without_ws(b: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for &c in b {
        if !ws(c) {
            r.push(c);
        }
    }
    r
}
pub fn split(b: &[u8], sep: u8) -> Vec<&[u8]> {
    let mut r = vec![];
    let mut s = 0;
    for i in 0..b.len() {
        if b[i] == sep {
            r.push(&b[s..i]);
            s = i + 1;
        }
    }
    r.push(&b[s..]);
    r
}
pub fn alpha(c: u8) -> bool {
    lower(c).wrapping_sub(b'a') < 26
}
pub fn digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
pub fn tag_name_ok(n: &[u8]) -> bool {
    let mut ok = !n.is_empty() && alpha(n[0]);
    for &c in n {
        ok &= alpha(c) | digit(c) | (c == b'_');
    }
    ok
}
pub fn tag_value_ok(v: &[u8]) -> bool {
    for &c in v {
        if !(ws(c) | (c.wrapping_sub(0x21) < 0x5e) & (c != b';') | (c >= 0x80)) {
            return false;
        }
    }
    fws_ok(v) && (v.is_empty() || !ws(v[0]) && !ws(v[v.len() - 1]))
}

/// Tag list of RFC 6376, section 3.2: names and values in order, or `None`.
pub fn tag_list(b: &[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    let mut pieces = split(b, b';');
    if pieces.len() > 1 && pieces[pieces.len() - 1].is_empty() {
        pieces.pop();
    }
    let mut r: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for p in pieces {
        let eq = p.iter().position(|c| *c == b'=')?;
        // whitespace must be folding whitespace wherever it stands
        let (n, v) = (trim(&p[..eq]), trim(&p[eq + 1..]));
        if !tag_name_ok(n) || !fws_ok(&p[..eq]) || !fws_ok(&p[eq + 1..]) || !tag_value_ok(v) {
            return None;
        }
        for (m, _) in &r {
            if m[..] == *n {
                return None;
            }
        }
        r.push((n.to_vec(), v.to_vec()));
    }
    Some(r)
}

/// The signature header value with the `b=` value deleted (RFC 6376, section 3.7).
pub fn without_b(v: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for (i, p) in split(v, b';').into_iter().enumerate() {
        if i > 0 {
            r.push(b';');
        }
        match p.iter().position(|c| *c == b'=') {
            Some(eq) if trim(&p[..eq]) == b"b" => r.extend_from_slice(&p[..=eq]),
            _ => r.extend_from_slice(p),
        }
    }
    r
}

// ---- values -----------------------------------------------------------------------

/// Decimal digits within 64 bits.
pub fn number(v: &[u8]) -> Option<u64> {
    if v.is_empty() {
        return None;
    }
    let mut n = 0u64;
    for &c in v {
        if !digit(c) {
            return None;
        }
        n = n.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(n)
}

/// Value of a Base64 character, and whether it is one.
pub fn b64_digit(c: u8) -> (u8, bool) {
    let (u, l, d) = (c.wrapping_sub(b'A'), c.wrapping_sub(b'a'), c.wrapping_sub(b'0'));
    let m = |b: bool| 0u8.wrapping_sub(b as u8);
    let (u1, l1, d1, p, s) = (u < 26, l < 26, d < 10, c == b'+', c == b'/');
    let v = m(u1) & u | m(l1) & l.wrapping_add(26) | m(d1) & d.wrapping_add(52) | m(p) & 62 | m(s) & 63;
    (v, u1 | l1 | d1 | p | s)
}
/// RFC 4648.  The flag tells whether unused trailing bits are zero.
pub fn base64(v: &[u8]) -> Option<(Vec<u8>, bool)> {
    if v.len() % 4 != 0 {
        return None;
    }
    let mut n = v.len();
    let mut pad = 0;
    while n > 0 && pad < 2 && v[n - 1] == b'=' {
        n -= 1;
        pad += 1;
    }
    let (mut acc, mut bits) = (0u32, 0);
    let mut r = vec![];
    let mut ok = true;
    for &c in &v[..n] {
        let (x, good) = b64_digit(c);
        ok &= good;
        acc = acc << 6 | x as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            r.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if !ok {
        return None;
    }
    Some((r, acc == 0))
}
pub fn to_base64(b: &[u8]) -> Vec<u8> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut r = vec![];
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            r.push(if i <= c.len() { T[(x >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    r
}

pub fn hexval(c: u8) -> Option<u8> {
    if digit(c) {
        Some(c - b'0')
    } else if lower(c).wrapping_sub(b'a') < 6 {
        Some(lower(c) - b'a' + 10)
    } else {
        None
    }
}
/// DKIM-Quoted-Printable (RFC 6376, section 2.11): folding whitespace is ignored.
pub fn qp(v: &[u8]) -> Option<Vec<u8>> {
    if !fws_ok(v) {
        return None;
    }
    let v = without_ws(v);
    let mut r = vec![];
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'=' {
            r.push(hexval(*v.get(i + 1)?)? << 4 | hexval(*v.get(i + 2)?)?);
            i += 3;
        } else if v[i] > b' ' && v[i] != 0x7f && v[i] != b';' {
            r.push(v[i]);
            i += 1;
        } else {
            return None;
        }
    }
    Some(r)
}

// ---- names ------------------------------------------------------------------------

fn label_ok(l: &[u8]) -> bool {
    let mut ok = !l.is_empty() && l.len() <= 63;
    for &c in l {
        ok &= alpha(c) | digit(c) | (c == b'-') | (c == b'_');
    }
    ok && l[0] != b'-' && l[l.len() - 1] != b'-'
}
/// ASCII domain names without A-labels.
pub fn domain_ok(s: &[u8], tld: bool) -> bool {
    if s.len() > 253 {
        return false;
    }
    let ls = split(s, b'.');
    for l in &ls {
        if !label_ok(l) {
            return false;
        }
    }
    let mut alldig = true;
    for &c in ls[ls.len() - 1] {
        alldig = alldig && digit(c);
    }
    !(tld && alldig)
}
fn atext(c: u8) -> bool {
    let mut ok = alpha(c) | digit(c) | (c >= 0x80);
    for &x in b"!#$%&'*+-/=?^_`{|}~" {
        ok |= c == x;
    }
    ok
}
/// RFC 5321/6531 local part (valid UTF-8 assumed).
pub fn local_part_ok(l: &[u8]) -> bool {
    if l.len() > 64 || l.is_empty() {
        return false;
    }
    if l[0] == b'"' {
        let mut i = 1;
        while i < l.len() {
            if l[i] == b'"' {
                return i + 1 == l.len();
            }
            if l[i] == b'\\' {
                i += 1;
                if i >= l.len() || !(0x20..=0x7e).contains(&l[i]) {
                    return false;
                }
            } else if l[i] < 0x20 || l[i] == 0x7f {
                return false;
            }
            i += 1;
        }
        return false;
    }
    for a in split(l, b'.') {
        let mut ok = !a.is_empty();
        for &c in a {
            ok &= atext(c);
        }
        if !ok {
            return false;
        }
    }
    true
}
