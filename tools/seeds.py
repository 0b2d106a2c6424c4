H = "use der_parser::ber::*;\n#[allow(unused_imports)] use der_parser::der::*;\n#[allow(unused_imports)] use der_parser::error::*;\n"
def m(body, head=""): return H + head + "\nfn main() {\n" + body + "\n}\n"
SEEDS = [
 dict(id="c01-eoc-ends-outer", property="C01", edits=[("src/ber/parser.rs", "                    return Ok((i3, false));", "                    return Ok((i3, max_depth < MAX_RECURSION - 1));")],
  needs="an indefinite-length element nested at least two levels inside other indefinite-length ones, followed by more elements", breaks="the inner End-Of-Contents is taken as the end of the enclosing element, so the remainder starts inside it",
  demo=m("""    let b = [0x30u8,0x80, 0x30,0x80, 0x30,0x80, 0,0, 5,0, 0,0, 0,0, 0xaa];
    let (rem, s) = parse_ber_slice(&b, Tag::Sequence).unwrap();
    assert_eq!((rem, s.len()), (&[0xaau8][..], 10));""")),
 dict(id="c01-max-size", property="C01", edits=[("src/ber/wrap_any.rs", "custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;\n        if", "custom_check!(i, l > 2 * MAX_OBJECT_SIZE, BerError::InvalidLength)?;\n        if")],
  needs="a definite length just above 2^32-1", breaks="a length above the documented maximum object size is no longer refused (the caller is told to provide 5 GB more)",
  demo=m("""    let b = [4u8, 0x85, 1, 0, 0, 0, 0, 1, 2];
    assert!(matches!(parse_ber_octetstring(&b), Err(nom::Err::Error(BerError::InvalidLength))));""")),
 dict(id="c02-set-depth", property="C02", edits=[("src/ber/wrap_any.rs", """            let objects: Result<Vec<_>> = SetIterator::<Any, BerParser>::new(any.data)
                .map(|item| {
                    let item = item?;
                    try_berobject_from_any(item, max_depth - 1)""", """            let objects: Result<Vec<_>> = SetIterator::<Any, BerParser>::new(any.data)
                .map(|item| {
                    let item = item?;
                    try_berobject_from_any(item, max_depth)""")],
  needs="SETs nested deeper than the limit", breaks="nesting through SET does not use up the depth limit",
  demo=m("""    let mut b: Vec<u8> = vec![5, 0];
    for _ in 0..55 { let mut c = vec![0x31, 0x81, b.len() as u8]; c.extend(&b); b = c; }
    assert!(matches!(parse_ber(&b), Err(nom::Err::Error(BerError::BerMaxDepth))));""")),
 dict(id="c02-skip-depth", property="C02", edits=[("src/ber/parser.rs", "                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;", "                let depth = max_depth.saturating_sub(header2.is_universal() as usize);\n                let (i3, eoc) = ber_skip_object_content(i2, &header2, depth)?;")],
  needs="context-specific indefinite-length elements nested thousands deep", breaks="indefinite-length elements that are not universal do not use up the depth limit: unbounded recursion",
  demo=m("""    let mut b: Vec<u8> = vec![0x30, 0x80];
    for _ in 0..60 { b.extend([0xa0, 0x80]); }
    for _ in 0..60 { b.extend([0, 0]); }
    b.extend([0, 0]);
    assert!(matches!(parse_ber_slice(&b, Tag::Sequence), Err(nom::Err::Error(BerError::BerMaxDepth))));""")),
 dict(id="c03-bool-empty", property="C03", edits=[("src/der/parser.rs", "custom_check!(i, l != 1, BerError::InvalidLength)?;", "custom_check!(i, l > 1, BerError::InvalidLength)?;")],
  needs="a zero-length BOOLEAN at the very end of the input, DER", breaks="index out of bounds panic",
  demo=m("""    assert!(parse_der_bool(&[1, 0]).is_err());
    assert!(parse_der(&[1, 0]).is_err());""")),
 dict(id="c03-bitstring-pad", property="C03", edits=[("src/ber/parser.rs", """    let bit_size = (raw_bytes.len() * 8)
        .checked_sub(padding_bits)
        .ok_or(BerError::InvalidLength)?;""", """    if raw_bytes.is_empty() {
        return Err(BerError::InvalidLength);
    }
    let bit_size = raw_bytes.len() * 8 - padding_bits;""")],
  needs="a BIT STRING with more unused bits than it has bits (BER), read as an integer", breaks="arithmetic overflow panic (wrap-around without overflow checks)",
  demo=m("""    let (_, o) = parse_ber_bitstring(&[3, 2, 9, 1]).unwrap();
    assert!(o.as_u64().is_err());""")),
 dict(id="c04-time-truncated", property="C04", edits=[("src/der/parser.rs", """    let l = length.definite()?;
    if i.len() < l {""", """    let l = length.definite()?;
    if matches!(tag, Tag::UtcTime | Tag::GeneralizedTime) && i.get(l.wrapping_sub(1)) != Some(&b'Z') {
        return Err(Err::Error(BerError::DerConstraintFailed(
            DerConstraint::MissingTimeZone,
        )));
    }
    if i.len() < l {""")],
  needs="a UTCTime or GeneralizedTime cut before its last byte, DER", breaks="a truncated time gives a definitive error instead of Incomplete",
  demo=m("""    let b = b"\\x17\\x0d910506234540Z";
    assert!(parse_der_utctime(b).is_ok());
    for n in 0..b.len() { assert!(matches!(parse_der_utctime(&b[..n]), Err(nom::Err::Incomplete(_)))); }""")),
 dict(id="c05-int-7f", property="C05", edits=[("src/der/parser.rs", "[0, byte, ..] if byte < 0x80 => {", "[0, byte, ..] if byte < 0x7f => {")],
  needs="an INTEGER with contents starting 00 7f, DER", breaks="a redundant leading zero octet is accepted",
  demo=m("""    assert!(parse_der_integer(&[2, 2, 0, 0x7f]).is_err());
    assert!(parse_der(&[2, 3, 0, 0x7f, 1]).is_err());""")),
 dict(id="c05-unused-bits", property="C05", edits=[("src/der/parser.rs", "        for _ in 0..ignored_bits as usize {\n            der_constraint_fail_if!(i, last_byte & 1 != 0", "        for _ in 0..(ignored_bits as usize).min(6) {\n            der_constraint_fail_if!(i, last_byte & 1 != 0")],
  needs="a BIT STRING with 7 unused bits of which only the most significant is set", breaks="a non-zero unused bit is accepted in DER",
  demo=m("""    assert!(parse_der_bitstring(&[3, 3, 7, 1, 0x40]).is_err());
    assert!(parse_der_bitstring(&[3, 3, 7, 1, 0x80]).is_ok());""")),
 dict(id="c06-generalstring", property="C06", edits=[("src/ber/parser.rs", "parse_ber_with_tag(i, Tag::GeneralString)", "parse_ber_any_with_tag_r(i, Tag::GraphicString, MAX_RECURSION)")],
  needs="calling the GeneralString parser on a GeneralString or GraphicString element", breaks="the typed parser accepts the wrong type",
  demo=m("""    assert!(parse_ber_generalstring(&[27, 1, 0x41]).is_ok());
    assert!(parse_ber_generalstring(&[25, 1, 0x41]).is_err());""")),
 dict(id="c07-bmp-odd", property="C07", edits=[("src/ber/wrap_any.rs", "            if any.data.len() % 2 != 0 {", "            if any.data.len() % 2 != 0 && any.data.len() < 3 {")],
  needs="a BMPString with an odd number (3 or more) of contents octets", breaks="malformed contents are accepted and the last octet is not checked",
  demo=m("""    assert!(parse_ber_bmpstring(&[30, 3, 0, 0x41, 0]).is_err());""")),
 dict(id="c07-videotex", property="C07", edits=[("src/ber/wrap_any.rs", "Tag::VideotexString => from_obj!(STRING VideotexString, any, header)", "Tag::VideotexString => from_obj!(STRING GraphicString, VideotexString, any, header)")],
  needs="a VideotexString with control characters", breaks="characters outside the alphabet are accepted",
  demo=m("""    assert!(parse_ber_videotexstring(&[21, 2, 0x41, 7]).is_err());
    assert!(parse_ber_videotexstring(&[21, 2, 0x41, 0x42]).is_ok());""")),
 dict(id="c08-u32-neg", property="C08", edits=[("src/ber/integer.rs", """pub(crate) fn decode_array_uint4(bytes: &[u8]) -> Result<[u8; 4], BerError> {
    if is_highest_bit_set(bytes) {""", """pub(crate) fn decode_array_uint4(bytes: &[u8]) -> Result<[u8; 4], BerError> {
    if is_highest_bit_set(bytes) && bytes.len() < 4 {""")],
  needs="a negative INTEGER of exactly four octets read with as_u32", breaks="the negative value is returned as a large positive one",
  demo=m("""    assert!(BerObject::from_int_slice(&[0xff, 0xff, 0xff, 0xfe]).as_u32().is_err());
    assert!(BerObject::from_int_slice(&[0x80, 0, 0, 0]).as_u32().is_err());""")),
 dict(id="c08-i64-pad", property="C08", edits=[("src/ber/integer.rs", "    let mut output = [0xFFu8; 8];\n", "    let mut output = [if input.len() > 5 { 0u8 } else { 0xFFu8 }; 8];\n")],
  needs="a negative INTEGER of six or seven contents octets read with as_i64", breaks="sign extension is lost",
  demo=m("""    assert_eq!(BerObject::from_int_slice(&[0x80, 0, 0, 0, 0, 0]).as_i64().unwrap(), -(1i64 << 47));""")),
 dict(id="c09-pad-mod", property="C09", edits=[("src/ber/parser.rs", "    let padding_bits = padding_bits % 8;", "    let padding_bits = padding_bits & 0x6;")],
  needs="an odd number of unused bits", breaks="the unused bits are not dropped",
  demo=m("""    let (_, o) = parse_ber_bitstring(&[3, 2, 3, 0xf8]).unwrap();
    assert_eq!(o.as_u64().unwrap(), 0x1f);""")),
 dict(id="c09-is-set", property="C09", edits=[("src/ber/ber.rs", "        if byte_pos >= self.data.len() {", "        if byte_pos >= self.data.len() || bitnum > 255 {")],
  needs="asking for a bit beyond the 256th of a long BIT STRING", breaks="bits that are set are reported clear",
  demo=m("""    let d = [0xffu8; 40];
    let b = BitStringObject { data: &d };
    for k in 0..320 { assert!(b.is_set(k), "{}", k); }""")),
 dict(id="c10-rel-oid", property="C10", edits=[("src/ber/ber.rs", "BerObjectContent::RelativeOID(_)       => Tag::RelativeOid,", "BerObjectContent::RelativeOID(o) => if o.as_bytes().is_empty() { Tag::Oid } else { Tag::RelativeOid },"),("src/ber/ber.rs", "    const fn tag(&self) -> Tag {", "    fn tag(&self) -> Tag {"),("src/ber/ber.rs", "    pub const fn from_obj(c: BerObjectContent) -> BerObject {", "    pub fn from_obj(c: BerObjectContent) -> BerObject {"),("src/ber/ber.rs", "    pub const fn from_seq(l", "    pub fn from_seq(l"),("src/ber/ber.rs", "    pub const fn from_set(l", "    pub fn from_set(l")],
  needs="constructing an object from an empty RELATIVE-OID", breaks="the header gets the tag of another type",
  demo=m("""    let (_, o) = parse_ber_relative_oid(&[13, 0]).unwrap();
    assert_eq!(BerObject::from_obj(o.content).header.tag(), Tag::RelativeOid);""")),
 dict(id="c11-constructed", property="C11", edits=[("src/ber/tagged.rs", "        hdr.assert_constructed().map_err(|e| Err::Error(e.into()))?;", "        if hdr.is_contextspecific() {\n            hdr.assert_constructed().map_err(|e| Err::Error(e.into()))?;\n        }")],
  needs="an APPLICATION or PRIVATE element in primitive form read as explicitly tagged", breaks="a primitive element is accepted as explicit tag",
  demo=m("""    assert!(parse_ber_tagged_explicit(3, parse_ber_integer)(&[0x43, 3, 2, 1, 5]).is_err());
    assert!(parse_ber_tagged_explicit(3, parse_ber_integer)(&[0x63, 3, 2, 1, 5]).is_ok());""")),
 dict(id="c12-depth", property="C12", edits=[("src/der/tagged.rs", "        f(i, hdr, MAX_RECURSION)", "        f(i, hdr, MAX_RECURSION / 2)")],
  needs="an implicitly tagged SEQUENCE nested between 25 and 50 levels, DER", breaks="the content parser gets a smaller depth limit and refuses the element",
  demo=m("""    let mut b: Vec<u8> = vec![];
    for k in 0..40 { let mut c = vec![if k == 39 { 0xa1 } else { 0x30 }, 0x81, b.len() as u8]; c.extend(&b); b = c; }
    let r = parse_der_tagged_implicit(1, parse_der_content(Tag::Sequence))(&b);
    assert!(r.is_ok(), "{:?}", r);""")),
 dict(id="c13-set-of-rest", property="C13", edits=[("src/der/multi.rs", """    let mut subparser = all_consuming(many0(complete(cut(f))));
    parse_der_set_defined_g(move |data, _| subparser(data))""", """    let mut subparser = many0(complete(f));
    parse_der_set_defined_g(move |data, _| subparser(data))""")],
  needs="a SET OF whose later element the inner parser refuses", breaks="the bad element and everything after it is silently dropped",
  demo=m("""    let b = [0x31, 5, 2, 1, 1, 5, 0];
    let r: Result<(&[u8], Vec<BerObject>), nom::Err<BerError>> = parse_der_set_of_v(parse_der_integer)(&b);
    assert!(r.is_err());""")),
 dict(id="c13-container-data", property="C13", edits=[("src/ber/multi.rs", "            Length::Definite(len) => take(len)(i)?,", "            Length::Definite(len) if len > 0 || hdr.is_primitive() => take(len)(i)?,\n            Length::Definite(_) => (i, i),")],
  needs="an empty constructed element followed by more bytes", breaks="the user's parser is given the bytes after the element",
  demo=m("""    let r = parse_ber_sequence_defined_g(|d: &[u8], _| Ok::<_, nom::Err<BerError>>((&b""[..], d.len())))(&[0x30, 0, 5, 0]);
    assert_eq!(r.unwrap(), (&[5u8, 0][..], 0));""").replace("|d: &[u8], _|", "|d: &'static [u8], _|").replace("(&[0x30, 0, 5, 0])", "(&[0x30u8, 0, 5, 0][..])")),
 dict(id="c14-opt-incomplete", property="C14", edits=[("src/ber/parser.rs", "            Err(_) => Ok((i, BerObject::from_obj(BerObjectContent::Optional(None)))),", "            Err(Err::Failure(e)) => Err(Err::Failure(e)),\n            Err(_) => Ok((i, BerObject::from_obj(BerObjectContent::Optional(None)))),")],
  needs="an inner parser that ends in a Failure", breaks="the optional parser fails",
  demo=m("""    let r = parse_ber_optional(|i| nom::combinator::cut(parse_ber_integer)(i))(&[1, 1, 0]);
    assert!(r.is_ok());""")),
 dict(id="c15-len-80", property="C15", edits=[("src/ber/serialize.rs", "                if sz <= 0x7f {", "                if sz < 0x7f {")],
  needs="a length of exactly 127", breaks="the long form is used where the short form is required: not minimal",
  demo=m("""    let h = Header::new(Class::Universal, false, Tag::OctetString, Length::Definite(127));
    assert_eq!(cookie_factory::gen_simple(ber_encode_header(&h), Vec::new()).unwrap(), vec![4, 127]);""")),
 dict(id="c16-implicit-form", property="C16", edits=[("src/ber/serialize.rs", "        let hdr = Header::new(class, obj.header.constructed(), tag, len.into());", "        let hdr = Header::new(class, obj.header.constructed() && len > 0, tag, len.into());")],
  needs="implicit tagging of an empty SEQUENCE", breaks="the constructed bit is lost",
  demo=m("""    let o = BerObject::from_seq(vec![]);
    assert_eq!(cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(1), Class::ContextSpecific, &o), Vec::new()).unwrap(), vec![0xa1, 0]);""")),
 dict(id="c17-enum-zero-bytes", property="C17", edits=[("src/ber/serialize.rs", """            let v: Vec<u8> = i
                .to_be_bytes()
                .iter()
                .cloned()
                .skip_while(|&b| b == 0)""", """            let v: Vec<u8> = i
                .to_be_bytes()
                .iter()
                .cloned()
                .filter(|&b| b != 0)""")],
  needs="an ENUMERATED value with an inner zero byte, such as 0x10001", breaks="the zero byte is dropped: another value comes back",
  demo=m("""    let o = BerObject::from_obj(BerObjectContent::Enum(0x10001));
    let v = o.to_vec().unwrap();
    assert_eq!(parse_ber_enum(&v).unwrap().1.content, o.content);""")),
 dict(id="c18-ref-set", property="C18", edits=[("src/ber/ber.rs", "            BerObjectContent::Set(ref v) if self.idx < v.len() => Some(&v[self.idx]),", "            BerObjectContent::Set(ref v) if self.idx + 1 < v.len() || (self.idx == 0 && !v.is_empty()) => Some(&v[self.idx]),")],
  needs="iterating by reference over a SET of two or more elements", breaks="the last element is not visited",
  demo=m("""    let o = BerObject::from_set(vec![BerObject::from_int_slice(b"1"), BerObject::from_int_slice(b"2"), BerObject::from_int_slice(b"3")]);
    assert_eq!(o.ref_iter().count(), 3);""")),
 dict(id="c19-mut-depth", property="C19", edits=[("src/ber/visit_mut.rs", """            v.visit_ber_set_mut(l, depth);
            for item in l.iter_mut() {
                visit_ber_bfs_mut(v, item, depth + 1);""", """            v.visit_ber_set_mut(l, depth);
            for item in l.iter_mut() {
                visit_ber_bfs_mut(v, item, depth.max(1));""")],
  needs="a SET inside a SEQUENCE or SET, mutable visitor", breaks="the depth does not grow below the first level",
  demo=H + """
use der_parser::ber::VisitMut;
struct V(Vec<usize>);
impl<'a> VisitMut<'a> for V { fn visit_ber_mut(&mut self, _: &'_ mut BerObject<'a>, depth: usize) { self.0.push(depth) } }
fn main() {
    let b = vec![0x31u8, 6, 0x31, 4, 0x31, 2, 5, 0];
    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    let o: &'static mut BerObject<'static> = Box::leak(Box::new(parse_ber(b).unwrap().1));
    let mut v = V(vec![]);
    v.run(o);
    assert_eq!(v.0, vec![0, 1, 2, 3]);
}
"""),
 dict(id="c20-der-slice", property="C20", edits=[("src/der/parser.rs", "            return der_read_content_bitstring(i, l);", "            return der_read_content_bitstring(&i[..l], l.max(2) - (l > 9 && i[l - 1] == 0) as usize);")],
  needs="a BIT STRING of ten or more contents octets ending in a zero octet, DER", breaks="DER drops the last octet of the value and BER does not",
  demo=m("""    let b = [3u8, 11, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0];
    let d = parse_der_bitstring(&b).unwrap().1;
    assert_eq!(d.content, parse_ber_bitstring(&b).unwrap().1.content);""")),
 dict(id="c21-flush", property="C21", edits=[("der-oid-macro/src/lib.rs", """                enc[pos] = extra | (1 << 7);
                bytes_stored += 1;
                pos -= 1;
                extra = 0;
                extra_size = 0;""", """                enc[pos] = extra | (1 << 7);
                pos -= 1;
                extra = 0;
                extra_size = 0;""")],
  needs="an arc of 57 to 63 bits", breaks="the leading group of the arc is overwritten by the (empty) carry: another identifier",
  demo="""fn main() {
    assert_eq!(der_oid_macro::encode_oid!(rel 1152921504606846976), [0x90, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00]);
    assert_eq!(der_oid_macro::encode_oid!(1.2.1152921504606846977), [42, 0x90, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01]);
}
"""),
 dict(id="c21-bits", property="C21", edits=[("der-oid-macro/src/lib.rs", "((total_bits + 6) / 7).max(1)", "(total_bits / 7 + 1).max(1)")],
  needs="an arc whose bit length is a multiple of seven, such as 127 or 16383", breaks="one octet 80 too many in front: not the minimal encoding",
  demo="""fn main() {
    assert_eq!(&der_oid_macro::encode_oid!(1.2.127)[..], &[42u8, 0x7f][..]);
    assert_eq!(&der_oid_macro::encode_oid!(rel 16383)[..], &[0xffu8, 0x7f][..]);
}
"""),
]
