//! Executable reading of X.690 as the properties state it. It shares no code with der-parser;
//! the only dependency call is the date parser of asn1-rs (calendar fields are not decided here).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { MaxDepth, Incomplete, UnknownTag, TooLarge, Negative, Other }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum R<T> { Ok(usize, T), Inc, Err(K), Fail(K) }
impl<T> R<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> R<U> {
        match self { R::Ok(n, t) => R::Ok(n, f(t)), R::Inc => R::Inc, R::Err(k) => R::Err(k), R::Fail(k) => R::Fail(k) }
    }
    pub fn err<U>(self) -> R<U> { match self { R::Ok(..) => unreachable!(), R::Inc => R::Inc, R::Err(k) => R::Err(k), R::Fail(k) => R::Fail(k) } }
    pub fn ok(self) -> Option<(usize, T)> { match self { R::Ok(n, t) => Some((n, t)), _ => None } }
    pub fn is_ok(&self) -> bool { matches!(self, R::Ok(..)) }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct H { pub class: u8, pub cons: bool, pub tag: u32, pub len: Option<usize>, pub raw: Option<Vec<u8>> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum C {
    Eoc, Bool(bool), Int(Vec<u8>), Bits(u8, Vec<u8>), Oct(Vec<u8>), Null, Enum(u64), Oid(Vec<u8>), RelOid(Vec<u8>),
    Str(u32, Vec<u8>), Bmp(Vec<u8>), Univ(Vec<u8>), Seq(Vec<O>), Set(Vec<O>), Utc(String), Gen(String),
    Opt(Option<Box<O>>), Tagged(u8, u32, Box<O>), Unk(H, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct O { pub h: H, pub c: C }

pub const MAX_OBJECT: u64 = 0xffff_ffff;

pub fn hdr(s: &[u8], der: bool) -> R<H> {
    if s.is_empty() { return R::Inc; }
    let (class, cons) = (s[0] >> 6, s[0] & 0x20 != 0);
    let mut n = 1;
    let mut tag = (s[0] & 0x1f) as u32;
    if tag == 0x1f {
        tag = 0;
        loop {
            if n >= s.len() || n > 5 { return R::Err(K::Other); }
            tag = (tag << 7) | (s[n] & 0x7f) as u32;
            n += 1;
            if s[n - 1] & 0x80 == 0 { break; }
        }
    }
    let raw = Some(s[..n].to_vec());
    let t = &s[n..];
    if t.is_empty() { return R::Inc; }
    let (m, len) = match t[0] {
        b if b < 0x80 => (1, Some(b as usize)),
        0x80 => { if der || !cons { return R::Err(K::Other); } (1, None) }
        0xff => return R::Err(K::Other),
        b => {
            let k = (b & 0x7f) as usize;
            if t.len() - 1 < k { return R::Inc; }
            let mut v: u64 = 0;
            for &x in &t[1..1 + k] { if v >> 56 != 0 { return R::Err(K::Other); } v = (v << 8) | x as u64; }
            (1 + k, Some(v as usize))
        }
    };
    R::Ok(n + m, H { class, cons, tag, len, raw })
}
fn is_eoc(h: &H, strict: bool) -> bool { h.len == Some(0) && h.tag == 0 && (!strict || (h.class == 0 && !h.cons)) }
pub fn skip(s: &[u8], h: &H, d: usize, strict: bool) -> R<bool> {
    if d == 0 { return R::Err(K::MaxDepth); }
    match h.len {
        Some(l) => if is_eoc(h, strict) { R::Ok(0, true) } else if s.len() < l { R::Inc } else { R::Ok(l, false) },
        None => {
            if !h.cons { return R::Err(K::Other); }
            let mut n = 0;
            loop {
                match hdr(&s[n..], false) {
                    R::Ok(m, h2) => {
                        n += m;
                        match skip(&s[n..], &h2, d - 1, strict) {
                            R::Ok(m, e) => { n += m; if e { return R::Ok(n, false); } }
                            e => return e,
                        }
                    }
                    e => return e.err(),
                }
            }
        }
    }
}
pub fn content<'a>(s: &'a [u8], h: &H, d: usize, strict: bool) -> R<&'a [u8]> {
    match skip(s, h, d, strict) {
        R::Ok(n, _) => R::Ok(n, if h.len.is_none() { &s[..n - 2] } else { &s[..n] }),
        e => e.err(),
    }
}
/// one element, undecoded (strict: X.690 end-of-contents; else any class/form with tag 0 length 0)
pub fn element(s: &[u8], strict: bool) -> R<(H, &[u8])> {
    match hdr(s, false) {
        R::Ok(n, h) => match content(&s[n..], &h, 50, strict) { R::Ok(m, c) => R::Ok(n + m, (h, c)), e => e.err() },
        e => e.err(),
    }
}
pub fn be(s: &[u8]) -> Option<u128> {
    let mut v: u128 = 0;
    for &b in s { if v >> 119 != 0 { return None; } v = v * 256 + b as u128; }
    Some(v)
}
pub const STR_TAGS: [u32; 10] = [18, 26, 19, 22, 12, 20, 21, 7, 25, 27];
pub fn charset_ok(t: u32, s: &[u8]) -> bool {
    match t {
        12 => std::str::from_utf8(s).is_ok(),
        18 => s.iter().all(|b| b.is_ascii_digit() || *b == b' '),
        19 => s.iter().all(|b| b.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(b)),
        26 | 20 | 21 => s.iter().all(|b| (0x20..=0x7f).contains(b)),
        _ => s.iter().all(|b| *b < 0x80),
    }
}
fn utf16_ok(s: &[u8]) -> bool {
    let v: Vec<u16> = s.chunks(2).map(|c| (c[0] as u16) * 256 + c[1] as u16).collect();
    char::decode_utf16(v).all(|r| r.is_ok())
}
pub fn dt(t: &asn1_rs::ASN1DateTime) -> String { format!("{:?}", t) }
fn time(tag: u32, s: &[u8]) -> Option<String> {
    use asn1_rs::*;
    let any = Any::new(Header::new(Class::Universal, false, Tag(tag), Length::Definite(s.len())), s);
    if tag == 23 { UtcTime::try_from(any).ok().map(|t| dt(&t.0)) } else { GeneralizedTime::try_from(any).ok().map(|t| dt(&t.0)) }
}
pub fn dec(h: &H, data: &[u8], d: usize) -> Result<C, K> {
    if d == 0 { return Err(K::MaxDepth); }
    let unk = || Ok(C::Unk(h.clone(), data.to_vec()));
    let prim = |c: C| if h.cons { Err(K::Other) } else { Ok(c) };
    if h.class != 0 { return unk(); }
    match h.tag {
        0 => Ok(C::Eoc),
        1 => if h.len == Some(1) { Ok(C::Bool(data[0] != 0)) } else { Err(K::Other) },
        2 => Ok(C::Int(data.to_vec())),
        3 => if data.is_empty() { Err(K::Other) } else { prim(C::Bits(data[0], data[1..].to_vec())) },
        4 => Ok(C::Oct(data.to_vec())),
        5 => Ok(C::Null),
        6 => Ok(C::Oid(data.to_vec())),
        10 => match be(data) { Some(v) if v <= u32::MAX as u128 => prim(C::Enum(v as u64)), _ => Err(if h.cons { K::Other } else { K::TooLarge }) },
        13 => Ok(C::RelOid(data.to_vec())),
        16 | 17 => {
            if !h.cons { return Err(K::Other); }
            let l = dec_list(data, d - 1)?;
            Ok(if h.tag == 16 { C::Seq(l) } else { C::Set(l) })
        }
        23 => time(23, data).map(C::Utc).ok_or(K::Other),
        24 => time(24, data).map(C::Gen).ok_or(K::Other),
        28 => prim(C::Univ(data.to_vec())),
        30 => if data.len() % 2 != 0 || !utf16_ok(data) { Err(K::Other) } else { prim(C::Bmp(data.to_vec())) },
        t if STR_TAGS.contains(&t) => if charset_ok(t, data) { prim(C::Str(t, data.to_vec())) } else { Err(K::Other) },
        _ => unk(),
    }
}
fn dec_list(mut s: &[u8], d: usize) -> Result<Vec<O>, K> {
    let mut v = vec![];
    while !s.is_empty() {
        match element(s, false) {
            R::Ok(n, (h, c)) => { let c = dec(&h, c, d)?; v.push(O { h, c }); s = &s[n..]; }
            R::Inc => return Err(K::Incomplete),
            R::Err(k) | R::Fail(k) => return Err(k),
        }
    }
    Ok(v)
}
fn fin<T>(n: usize, r: Result<T, K>) -> R<T> { match r { Ok(t) => R::Ok(n, t), Err(k) => R::Err(k) } }
/// contents octets read as universal type `tag`
pub fn read_as(s: &[u8], tag: u32, len: Option<usize>, cons: bool, d: usize) -> R<C> {
    let h = H { class: 0, cons, tag, len, raw: None };
    if let Some(l) = len {
        if l as u64 > MAX_OBJECT { return R::Err(K::Other); }
        if s.len() < l { return R::Inc; }
    }
    match content(s, &h, d, true) { R::Ok(n, c) => fin(n, dec(&h, c, d)), e => e.err() }
}
pub fn parse_ber(s: &[u8], d: usize) -> R<O> {
    if d == 0 { return R::Err(K::MaxDepth); }
    match element(s, false) { R::Ok(n, (h, c)) => fin(n, dec(&h, c, d).map(|c| O { h, c })), e => e.err() }
}
pub fn ber_tag(s: &[u8], t: u32) -> R<O> {
    match hdr(s, false) {
        R::Ok(n, h) => if h.tag != t { R::Err(K::Other) } else {
            match read_as(&s[n..], h.tag, h.len, h.cons, 50) { R::Ok(m, c) => R::Ok(n + m, O { h, c }), e => e.err() }
        },
        e => e.err(),
    }
}
/// DER: the contents octets of a universal type, with the DER constraints
pub fn der_as(s: &[u8], tag: u32, len: Option<usize>, cons: bool, d: usize) -> R<C> {
    let l = match len { Some(l) => l, None => return R::Err(K::Other) };
    if s.len() < l { return R::Inc; }
    let c = &s[..l];
    let bad = match tag {
        1 => l != 1 || (c[0] != 0 && c[0] != 0xff),
        2 => l == 0 || (l >= 2 && c[0] == 0 && c[1] < 0x80),
        3 => {
            if cons { true } else if d == 0 { return R::Err(K::MaxDepth); } else if l == 0 { if s.is_empty() { return R::Inc; } true }
            else if c[0] > 7 { true }
            else if l > 1 && c[l - 1] & ((1u16 << c[0]) - 1) as u8 != 0 { true }
            else { return R::Ok(l, C::Bits(c[0], c[1..].to_vec())); }
        }
        23 | 24 => l == 0 || c[l - 1] != b'Z',
        28 | 30 => cons,
        t if STR_TAGS.contains(&t) => cons,
        _ => false,
    };
    if bad { return R::Err(K::Other); }
    read_as(s, tag, len, cons, d)
}
fn der_body(s: &[u8], n: usize, h: H, d: usize) -> R<O> {
    if h.class != 0 {
        return match content(&s[n..], &h, d, true) { R::Ok(m, c) => R::Ok(n + m, O { c: C::Unk(h.clone(), c.to_vec()), h }), e => e.err() };
    }
    match der_as(&s[n..], h.tag, h.len, h.cons, d) { R::Ok(m, c) => R::Ok(n + m, O { h, c }), e => e.err() }
}
pub fn parse_der(s: &[u8], d: usize) -> R<O> {
    match hdr(s, true) {
        R::Ok(n, h) => if h.len.unwrap_or(0) as u64 > MAX_OBJECT { R::Err(K::Other) } else { der_body(s, n, h, d) },
        e => e.err(),
    }
}
pub fn der_content(s: &[u8], h: H) -> R<O> { der_body(s, 0, h, 50) }
pub fn der_tag(s: &[u8], t: u32) -> R<O> {
    match hdr(s, true) {
        R::Ok(n, h) => if h.tag != t { R::Err(K::Other) } else {
            match der_as(&s[n..], h.tag, h.len, h.cons, 50) { R::Ok(m, c) => R::Ok(n + m, O { h, c }), e => e.err() }
        },
        e => e.err(),
    }
}
/// header and contents octets of a container (the contents are cut out before they are parsed)
pub fn container(s: &[u8], der: bool) -> R<(H, &[u8])> {
    match hdr(s, der) {
        R::Ok(n, h) => match h.len {
            Some(l) => if s.len() - n < l { R::Err(K::Other) } else { R::Ok(n + l, (h, &s[n..n + l])) },
            None => match content(&s[n..], &h, 50, true) { R::Ok(m, c) => R::Ok(n + m, (h, c)), e => e.err() },
        },
        e => e.err(),
    }
}
/// an integer's contents octets as a mathematical value fitting (lo, hi); Err on anything else
pub fn signed(s: &[u8]) -> Option<i128> {
    // value of any length as long as it fits i128 comfortably
    let neg = !s.is_empty() && s[0] >= 0x80;
    let t: &[u8] = { let mut t = s; while t.len() > 1 && t[0] == 0 { t = &t[1..]; } t };
    if t.len() > 15 { return None; }
    let v = be(t).unwrap() as i128;
    if neg { Some(v - (1i128 << (8 * t.len()))) } else { Some(v) }
}
/// the value of INTEGER contents in a target type; negative values in more octets than the target are too large
pub fn int_fit(c: &[u8], bits: u32, sign: bool) -> Result<i128, K> {
    if !c.is_empty() && c[0] >= 0x80 {
        if !sign { return Err(K::Negative); }
        if c.len() > bits as usize / 8 { return Err(K::TooLarge); }
    }
    let v = signed(c).ok_or(K::TooLarge)?;
    let hi = if sign { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 };
    if v > hi { Err(K::TooLarge) } else { Ok(v) }
}
/// parse_{ber,der}_{i32,i64,u32,u64}: bits and signedness of the target
pub fn int_parse(s: &[u8], der: bool, bits: u32, sign: bool) -> R<i128> {
    let (n, h, c) = if der {
        match hdr(s, true) {
            R::Ok(n, h) => { let l = h.len.unwrap(); if s.len() - n < l { return R::Inc; } (n + l, h, &s[n..n + l]) }
            e => return e.err(),
        }
    } else {
        match element(s, false) { R::Ok(n, (h, c)) => (n, h, c), e => return e.err() }
    };
    if h.tag != 2 || h.cons { return R::Err(K::Other); }
    if der && (c.is_empty() || (c.len() >= 2 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80)))) { return R::Err(K::Other); }
    match int_fit(c, bits, sign) { Ok(v) => R::Ok(n, v), Err(k) => R::Err(k) }
}
// ------------------------------------------------------------------ encoding
pub fn enc_len(l: Option<usize>) -> Vec<u8> {
    match l {
        None => vec![0x80],
        Some(l) if l < 0x80 => vec![l as u8],
        Some(l) => { let mut v = vec![]; let mut x = l; while x > 0 { v.insert(0, (x & 0xff) as u8); x >>= 8; } v.insert(0, 0x80 | v.len() as u8); v }
    }
}
pub fn enc_hdr(h: &H) -> Vec<u8> {
    let b = (h.class << 6) | if h.cons { 0x20 } else { 0 };
    let mut v = vec![];
    if h.tag <= 30 { v.push(b | h.tag as u8) } else {
        v.push(b | 0x1f);
        let mut t = h.tag;
        let mut w = vec![(t & 0x7f) as u8];
        t >>= 7;
        while t > 0 { w.insert(0, 0x80 | (t & 0x7f) as u8); t >>= 7; }
        v.extend(w);
    }
    v.extend(enc_len(h.len));
    v
}
/// None: the property makes no claim on the bytes (dates, absent optional)
pub fn enc_content(c: &C) -> Option<Vec<u8>> {
    Some(match c {
        C::Eoc | C::Null => vec![],
        C::Bool(b) => vec![if *b { 0xff } else { 0 }],
        C::Int(s) | C::Oct(s) | C::Oid(s) | C::RelOid(s) | C::Str(_, s) | C::Bmp(s) | C::Univ(s) | C::Unk(_, s) => s.clone(),
        C::Bits(n, s) => { let mut v = vec![*n]; v.extend(s); v }
        C::Enum(e) => { let mut v = e.to_be_bytes().to_vec(); while v.len() > 1 && v[0] == 0 { v.remove(0); } v }
        C::Seq(l) | C::Set(l) => { let mut v = vec![]; for o in l { v.extend(enc(o)?); } v }
        C::Opt(Some(o)) => enc_content(&o.c)?,
        C::Tagged(_, _, o) => enc(o)?,
        C::Opt(None) | C::Utc(_) | C::Gen(_) => return None,
    })
}
pub fn enc(o: &O) -> Option<Vec<u8>> {
    let c = enc_content(&o.c)?;
    let mut v = enc_hdr(&H { len: Some(c.len()), ..o.h.clone() });
    v.extend(c);
    Some(v)
}
/// forget lengths and raw tags (what a round trip preserves)
pub fn norm(o: &O) -> O {
    let h = H { len: None, raw: None, ..o.h.clone() };
    let c = match &o.c {
        C::Seq(l) => C::Seq(l.iter().map(norm).collect()),
        C::Set(l) => C::Set(l.iter().map(norm).collect()),
        C::Opt(x) => C::Opt(x.as_ref().map(|b| Box::new(norm(b)))),
        C::Tagged(a, b, x) => C::Tagged(*a, *b, Box::new(norm(x))),
        C::Unk(h, s) => C::Unk(H { len: None, raw: None, ..h.clone() }, s.clone()),
        c => c.clone(),
    };
    O { h, c }
}
pub fn content_tag(c: &C) -> u32 {
    match c {
        C::Eoc => 0, C::Bool(_) => 1, C::Int(_) => 2, C::Bits(..) => 3, C::Oct(_) => 4, C::Null => 5, C::Enum(_) => 10,
        C::Oid(_) => 6, C::RelOid(_) => 13, C::Str(t, _) => *t, C::Bmp(_) => 30, C::Univ(_) => 28, C::Seq(_) => 16, C::Set(_) => 17,
        C::Utc(_) => 23, C::Gen(_) => 24, C::Opt(None) => 0, C::Opt(Some(o)) => content_tag(&o.c), C::Tagged(_, t, _) => *t, C::Unk(h, _) => h.tag,
    }
}
/// BIT STRING value: `ignored` trailing bits dropped, remaining bits big endian
pub fn bits_u64(ignored: u8, s: &[u8]) -> Result<u64, K> {
    let total = s.len() * 8;
    let n = total.checked_sub(ignored as usize).ok_or(K::Other)?;
    if n > 64 { return Err(K::TooLarge); }
    let mut v: u64 = 0;
    for k in 0..n { v = (v << 1) | ((s[k / 8] >> (7 - k % 8)) & 1) as u64; }
    Ok(v)
}
