=== fn ber::ber::BerObject::from_header_and_content
params: header content
ret: r
spec:
    ensures r == (BerObject { header, content }),
=== fn ber::wrap_any::try_berobject_from_any
attrs: #[verifier::rlimit(30)]
params: any max_depth
ret: r
spec:
    requires any_wf(any),
    ensures dro(r, item_dec(Item::Ok(hv(any.header), any.data@), max_depth as nat)),
    decreases max_depth,
entry:
    broadcast use group_dec;
closure 0: |a: &[u8]| -> (r: u16)
    requires a@.len() == 2,
    ensures r == be(a@),
closure 1: |item: Result<Any>| -> (r: Result<BerObject>)
    requires item_wf(item),
    ensures dro(r, item_dec(item_of(item), (max_depth - 1) as nat)),
closure 2: |item: Result<Any>| -> (r: Result<BerObject>)
    requires item_wf(item),
    ensures dro(r, item_dec(item_of(item), (max_depth - 1) as nat)),
=== fn ber::wrap_any::try_read_berobjectcontent_as; ber::parser::ber_read_element_content_as
params: i tag length constructed max_depth
ret: r
spec:
    ensures prc(i@, r, read_as(i@, tag, length, constructed, max_depth as nat)),
entry:
    broadcast use group_parse;
=== fn ber::wrap_any::parse_ber_any_r; ber::parser::parse_ber_recursive
params: i max_depth
ret: r
spec:
    ensures pro(i@, r, pany(i@, max_depth as nat)),
entry:
    broadcast use group_parse;
=== fn ber::wrap_any::parse_ber_any_with_tag_r
params: i tag max_depth
ret: r
spec:
    ensures pro(i@, r, pany_tag(i@, tag, max_depth as nat)),
entry:
    broadcast use group_parse;
=== fn ber::wrap_any::parse_ber_any
params: i
ret: r
spec:
    ensures prv(i@, r, anyp(i@), |a: Any| anyv(a)),
=== fn ber::parser::parse_ber
params: i
ret: r
spec:
    ensures pro(i@, r, pany(i@, 50)),
=== fn ber::parser::parse_ber_with_tag
params: i tag
ret: r
spec:
    ensures exists|t: Tag| #[trigger] tag.iv(t) && pro(i@, r, pwith_tag(i@, t)),
entry:
    broadcast use group_parse;
=== fn ber::parser::parse_ber_endofcontent t=EndOfContent; ber::parser::parse_ber_bool t=Boolean; ber::parser::parse_ber_integer t=Integer; ber::parser::parse_ber_bitstring t=BitString; ber::parser::parse_ber_octetstring t=OctetString; ber::parser::parse_ber_null t=Null; ber::parser::parse_ber_oid t=Oid; ber::parser::parse_ber_enum t=Enumerated; ber::parser::parse_ber_utf8string t=Utf8String; ber::parser::parse_ber_relative_oid t=RelativeOid; ber::parser::parse_ber_sequence t=Sequence; ber::parser::parse_ber_set t=Set; ber::parser::parse_ber_numericstring t=NumericString; ber::parser::parse_ber_visiblestring t=VisibleString; ber::parser::parse_ber_printablestring t=PrintableString; ber::parser::parse_ber_t61string t=T61String; ber::parser::parse_ber_videotexstring t=VideotexString; ber::parser::parse_ber_ia5string t=Ia5String; ber::parser::parse_ber_utctime t=UtcTime; ber::parser::parse_ber_generalizedtime t=GeneralizedTime; ber::parser::parse_ber_objectdescriptor t=ObjectDescriptor; ber::parser::parse_ber_graphicstring t=GraphicString; ber::parser::parse_ber_generalstring t=GeneralString; ber::parser::parse_ber_bmpstring t=BmpString; ber::parser::parse_ber_universalstring t=UniversalString
params: i
ret: r
spec:
    ensures pro(i@, r, pwith_tag(i@, Tag::{t})),
