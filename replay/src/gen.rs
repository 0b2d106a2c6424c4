//! Inputs: exhaustive small ones, and structured random ones biased to the boundaries of the format.
use crate::oracle::*;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn n(&mut self, k: usize) -> usize { (self.next() % k as u64) as usize }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
    pub fn byte(&mut self) -> u8 { if self.p(1, 2) { *self.pick(&[0u8, 1, 2, 3, 5, 7, 8, 9, 0x20, 0x30, 0x39, 0x41, 0x5a, 0x7a, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xc0, 0xf0, 0xfe, 0xff]) } else { self.next() as u8 } }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> { let l = self.n(max + 1); (0..l).map(|_| self.byte()).collect() }
}
pub fn enc_len_form(r: &mut Rng, l: usize) -> Vec<u8> {
    match r.n(12) {
        0 if l < 128 => vec![0x81, l as u8],
        1 => { let k = 2 + r.n(8); let mut v = vec![0x80 | k as u8]; v.extend(std::iter::repeat(0).take(k.saturating_sub(8))); let b = (l as u64).to_be_bytes(); v.extend(&b[8 - k.min(8)..]); v }
        _ => enc_len(Some(l)),
    }
}
pub fn ident(r: &mut Rng, class: u8, cons: bool, tag: u32) -> Vec<u8> {
    if tag <= 30 && !r.p(1, 40) { return vec![(class << 6) | ((cons as u8) << 5) | tag as u8]; }
    let mut v = vec![(class << 6) | ((cons as u8) << 5) | 0x1f];
    let mut w = vec![(tag & 0x7f) as u8];
    let mut t = tag >> 7;
    while t > 0 { w.insert(0, 0x80 | (t & 0x7f) as u8); t >>= 7; }
    if r.p(1, 8) && w.len() < 5 { w.insert(0, 0x80); }
    v.extend(w);
    v
}
pub fn wrap(r: &mut Rng, class: u8, cons: bool, tag: u32, content: &[u8]) -> Vec<u8> {
    let mut v = ident(r, class, cons, tag);
    if cons && r.p(1, 4) {
        v.push(0x80);
        v.extend(content);
        v.extend(if r.p(1, 30) { [0xa0u8, 0] } else { [0, 0] });
    } else {
        v.extend(enc_len_form(r, content.len()));
        v.extend(content);
    }
    v
}
pub fn int_bytes(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.n(6) {
        0 => r.bytes(3),
        1 => { let p = *r.pick(&[0u64, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX]); let p = p.wrapping_add(r.n(3) as u64).wrapping_sub(1); let mut b = p.to_be_bytes().to_vec(); while b.len() > 1 && b[0] == 0 && r.p(9, 10) { b.remove(0); } b }
        2 => r.bytes(10),
        _ => r.bytes(9),
    };
    if r.p(1, 3) { let k = r.n(10); let b = if r.p(2, 3) { 0 } else { 0xff }; for _ in 0..k { v.insert(0, b); } }
    v
}
pub fn str_bytes(r: &mut Rng, tag: u32) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 12, 40, 130]);
    let mut v: Vec<u8> = (0..n).map(|_| match tag { 18 => *r.pick(b"0123456789 "), 19 => *r.pick(b"azAZ09 '()+,-./:=?"), _ => 0x20 + r.n(0x5f) as u8 }).collect();
    if tag == 12 && r.p(1, 2) { v.extend("é€𝄞".as_bytes()); if r.p(1, 3) { v.pop(); } }
    if r.p(1, 4) && !v.is_empty() { let k = r.n(v.len()); v[k] = r.byte(); }
    v
}
pub fn time_bytes(r: &mut Rng, tag: u32) -> Vec<u8> {
    let base: &[&str] = if tag == 23 { &["02121314152029Z", "021213141529Z", "021213141529+0000", "0212131415Z", "0212131415+0100", "991231235959Z", "021213141529", "021313141529Z"] }
        else { &["20021213141529Z", "20021213141529", "20021213141529.123Z", "20021213141529+0100", "200212131415Z", "2002121314Z", "20021213141529.1", "20021313141529Z"] };
    let mut v = r.pick(base).as_bytes().to_vec();
    if r.p(1, 4) && !v.is_empty() { let k = r.n(v.len()); v[k] = r.byte(); }
    if r.p(1, 10) { v.clear(); }
    v
}
pub const TAGS: [u32; 31] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30];
pub fn content_for(r: &mut Rng, tag: u32, d: usize) -> Vec<u8> {
    match tag {
        0 | 5 => if r.p(3, 4) { vec![] } else { r.bytes(2) },
        1 => if r.p(4, 5) { vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xfe, 0xff])] } else { r.bytes(3) },
        2 | 10 => int_bytes(r),
        3 => { let mut v = r.bytes(11); if r.p(3, 4) { v.insert(0, r.n(9) as u8); } if r.p(1, 2) { if let Some(l) = v.last_mut() { *l = (*l as u32 * 256 >> r.n(9)) as u8 & (0xffu8 << r.n(8)); } } v }
        6 | 13 => r.bytes(8),
        16 | 17 => { if d == 0 { return vec![]; } let k = r.n(5); let mut v = vec![]; for _ in 0..k { v.extend(element_bytes(r, d - 1)); } if r.p(1, 15) { v.extend(r.bytes(3)); } v }
        23 | 24 => time_bytes(r, tag),
        30 => { let mut v = r.bytes(8); if r.p(1, 2) { for k in (0..v.len()).step_by(2) { v[k] = *r.pick(&[0u8, 4, 0x20, 0xd7, 0xd8, 0xdb, 0xdc, 0xe0]); } } if r.p(4, 5) && v.len() % 2 == 1 { v.pop(); } v }
        28 => r.bytes(9),
        4 => match r.n(6) { 0 => { let n = *r.pick(&[126usize, 127, 128, 129, 255, 256, 257, 1000]); vec![r.byte(); n] } 1 if d > 0 => element_bytes(r, d - 1), _ => r.bytes(12) },
        t if STR_TAGS.contains(&t) => str_bytes(r, t),
        _ => r.bytes(6),
    }
}
pub fn element_bytes(r: &mut Rng, d: usize) -> Vec<u8> {
    let class = if r.p(3, 4) { 0 } else { r.n(4) as u8 };
    let tag = if r.p(14, 15) { *r.pick(&TAGS) } else { *r.pick(&[31u32, 32, 63, 64, 127, 128, 255, 16383, 16384, 0x1f_ffff, 0x20_0000, 0xfff_ffff, 0x1000_0000, u32::MAX]) };
    let seq = tag == 16 || tag == 17;
    let mut cons = if seq { r.p(19, 20) } else { r.p(1, 12) };
    let content = if class != 0 && r.p(2, 3) {
        cons = r.p(2, 3);
        if cons && d > 0 { let k = r.n(3); let mut v = vec![]; for _ in 0..k { v.extend(element_bytes(r, d - 1)); } v } else { let t = *r.pick(&TAGS); content_for(r, t, d) }
    } else if cons && !seq && d > 0 && r.p(1, 2) { element_bytes(r, d - 1) } else { content_for(r, tag, d) };
    wrap(r, class, cons, tag, &content)
}
pub fn nested(r: &mut Rng, depth: usize, mode: usize) -> Vec<u8> {
    let mut v = match r.n(3) { 0 => vec![], 1 => vec![0x02, 0x01, 0x05], _ => vec![0x05, 0x00] };
    for k in 0..depth {
        let m = if mode == 3 { r.n(3) } else { mode };
        let id = match m { 0 => 0x30, 1 => *r.pick(&[0x30u8, 0x31]), _ => *r.pick(&[0x30u8, 0x31, 0xa0, 0x24, 0x61]) };
        let indef = if mode == 4 { true } else { m == 2 && k % 2 == 0 };
        let mut w = vec![id];
        if indef { w.push(0x80); w.extend(&v); w.extend([0, 0]); } else { w.extend(enc_len(Some(v.len()))); w.extend(&v); }
        if r.p(1, 20) && !indef { }
        v = w;
    }
    v
}
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..1 + r.n(3) {
        match r.n(6) {
            0 => { let k = r.n(v.len() + 1); v.truncate(k); }
            1 => { let e = r.bytes(4); v.extend(e); }
            2 if !v.is_empty() => { let k = r.n(v.len()); v[k] = r.byte(); }
            3 if !v.is_empty() => { let k = r.n(v.len()); v[k] ^= 1 << r.n(8); }
            4 if !v.is_empty() => { let k = r.n(v.len()); v.remove(k); }
            5 => { let k = r.n(v.len() + 1); let b = r.byte(); v.insert(k, b); }
            _ => {}
        }
    }
}
/// fixed corner cases plus all strings of length <= 2
pub fn exhaustive() -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for a in 0..=255u8 { out.push(vec![a]); for b in 0..=255u8 { out.push(vec![a, b]); } }
    let c: [u8; 12] = [0, 1, 2, 7, 8, 0x30, 0x41, 0x7f, 0x80, 0x81, 0xfe, 0xff];
    for a in 0..=255u8 { for &x in &c { out.push(vec![a, 1, x]); for &y in &c { out.push(vec![a, 2, x, y]); } } }
    for &t in &[0x02u8, 0x03, 0x04, 0x0a, 0x30, 0x31, 0xa0, 0x24, 0x0c, 0x1e, 0x1c, 0x80] {
        for k in 0..=9usize { for &first in &[0u8, 1, 0x7f, 0x80, 0xff] { for &last in &[0u8, 1, 0xff] { for extra in 0..2 {
            let mut v = vec![t, k as u8];
            if k > 0 { v.push(first); v.extend(std::iter::repeat(0x41).take(k.saturating_sub(2))); if k > 1 { v.push(last); } }
            for _ in 0..extra { v.push(0x55); }
            out.push(v);
        } } } }
    }
    // length octets
    for &t in &[0x04u8, 0x30, 0xa1, 0x24, 0x1f, 0x05] { for l0 in 0..=255u8 {
        let mut v = vec![t]; if t == 0x1f { v.push(0x22); }
        v.push(l0); v.extend([0u8; 10]); out.push(v.clone());
        let k = v.len() - 10; v.truncate(k); v.extend([0, 0, 0, 0, 0, 0, 0, 3, 1, 2, 3, 4, 5]); out.push(v);
    } }
    for n in 1..=10usize { for &b in &[0u8, 1, 0x7f, 0xff] { let mut v = vec![0x04, 0x80 | n as u8]; v.push(b); v.extend(std::iter::repeat(0xff).take(n)); out.push(v.clone()); v[2] = 0; let l = v.len(); if l > 3 { v[l - 2] = 0; } out.push(v); } }
    out.push(vec![0x04, 0x85, 1, 0, 0, 0, 0]); out.push(vec![0x04, 0x84, 0xff, 0xff, 0xff, 0xff]); out.push(vec![0x30, 0x85, 1, 0, 0, 0, 0]); out.push(vec![0x84, 0x85, 1, 0, 0, 0, 0]);
    // unused bits of a BIT STRING, exhaustive over (unused, last byte)
    for u in 0..=9u8 { for b in 0..=255u8 { out.push(vec![3, 2, u, b]); out.push(vec![3, 3, u, 0xaa, b]); out.push(vec![0x30, 4, 3, 2, u, b]); } }
    // indefinite lengths
    for s in ["3080 0201 05 0000", "3080 8000 020105 0000", "3080 a000 0000 0000", "3080 1f000002 0000", "30803080020105000000 00", "3080 0001 aa 0000", "a080 0000", "2480 0401aa 0401bb 0000 ffff", "3080 2000 0000", "3080 4000 0000", "3180 0000", "3080", "308002", "30800201", "3080020105", "308002010500"] {
        out.push(hex(s));
    }
    out
}
pub fn hex(s: &str) -> Vec<u8> { let s: String = s.chars().filter(|c| !c.is_whitespace()).collect(); (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
// ------------------------------------------------------------------ objects
pub fn gen_h(r: &mut Rng) -> H {
    H { class: r.n(4) as u8, cons: r.p(1, 2), tag: *r.pick(&[0u32, 1, 2, 16, 29, 30, 31, 32, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 16385, 0x1f_ffff, 0x20_0000, 0xfff_ffff, 0x1000_0000, 0x7fff_ffff, u32::MAX]),
        len: if r.p(1, 8) { None } else { Some(*r.pick(&[0usize, 1, 2, 126, 127, 128, 129, 200, 255, 256, 257, 65535, 65536, 0xff_ffff, 0x100_0000, 0xffff_ffff, 0x1_0000_0000, 0xff_ffff_ffff, 1 << 40, 1 << 56, usize::MAX])) }, raw: None }
}
pub fn gen_c(r: &mut Rng, d: usize, all: bool) -> C {
    let k = r.n(if all { 22 } else { 19 });
    match k {
        0 => C::Eoc, 1 => C::Bool(r.p(1, 2)), 2 | 3 => C::Int(int_bytes(r)),
        4 => C::Bits(r.n(9) as u8 % 8, r.bytes(10)), 5 => C::Oct(content_for(r, 4, 0)), 6 => C::Null,
        7 => C::Enum(*r.pick(&[0u64, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x1_0000, 0xffff_ffff])),
        8 => C::Oid(r.bytes(8)), 9 => C::RelOid(r.bytes(8)),
        10 | 11 => { let t = *r.pick(&STR_TAGS); let mut v = str_bytes(r, t); if !charset_ok(t, &v) { v = vec![b'7'; v.len().min(3)]; } C::Str(t, v) }
        12 => { let n = r.n(4); let mut v = vec![]; for _ in 0..n { v.extend([0, r.byte()]); } C::Bmp(v) }
        13 => { let n = r.n(4); C::Univ((0..4 * n).map(|_| r.byte()).collect()) }
        14..=16 if d > 0 => { let n = *r.pick(&[0usize, 1, 2, 3, 5]); let l = (0..n).map(|_| gen_o(r, d - 1, all)).collect(); if r.p(1, 2) { C::Seq(l) } else { C::Set(l) } }
        17 | 18 => { let mut h = gen_h(r); h.len = Some(0); if h.class == 0 { h.class = 2; } let data = r.bytes(6); h.len = Some(data.len()); C::Unk(h, data) }
        19 if d > 0 => { let o = gen_o(r, d - 1, all); C::Opt(if r.p(1, 3) { None } else { Some(Box::new(o)) }) }
        20 if d > 0 => { let h = gen_h(r); let o = gen_o(r, d - 1, all); C::Tagged(h.class, h.tag, Box::new(o)) }
        21 => if r.p(1, 2) { C::Utc(String::new()) } else { C::Gen(String::new()) },
        _ => C::Int(vec![r.byte()]),
    }
}
/// an object with the header the constructors give it
pub fn gen_o(r: &mut Rng, d: usize, all: bool) -> O {
    let c = gen_c(r, d, all);
    let h = match &c {
        C::Unk(h, _) => h.clone(),
        C::Tagged(cl, t, _) => H { class: *cl, cons: true, tag: *t, len: Some(0), raw: None },
        c => { let t = content_tag(c); H { class: 0, cons: t == 16 || t == 17, tag: t, len: Some(0), raw: None } }
    };
    O { h, c }
}
