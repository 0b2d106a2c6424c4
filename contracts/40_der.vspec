=== types
der::DerClass
=== fn der::parser::der_read_element_header
params: i
ret: r
spec:
    ensures prv(i@, r, hdr(i@, true), |h: Header| hv(h)),
=== fn der::parser::der_read_content_bitstring
params: i len
ret: r
spec:
    requires i@.len() >= len,
    ensures prc(i@, r, der_bits(i@, len as int, false)),
entry:
    broadcast use {group_parse, group_der};
    let ghost i0 = i@;
loop 0:
    invariant
        0 <= __k0 <= __s0 <= 7, __s0 == ignored_bits, len > 1, len <= i0.len(), ignored_bits == i0[0],
        low_zero(i0[len - 1], ignored_bits as int) <==> low_zero(last_byte, ignored_bits - __k0),
loopbody 0:
    proof { lemma_low_zero_step(last_byte, ignored_bits - __k0); lemma_low_zero_step(last_byte, 0); }
=== fn der::parser::der_read_element_content_as
params: i tag length constructed max_depth
ret: r
spec:
    ensures prc(i@, r, der_as(i@, tag, length, constructed, max_depth as nat)),
entry:
    broadcast use {group_parse, group_der};
=== fn der::parser::der_read_element_content_recursive
params: i hdr max_depth
ret: r
spec:
    ensures pro(i@, r, der_body(i@, hv(hdr), max_depth as nat)),
entry:
    broadcast use {group_parse, group_der};
=== fn der::parser::der_read_element_content
params: i hdr
ret: r
spec:
    ensures pro(i@, r, der_body(i@, hv(hdr), 50)),
=== fn der::parser::parse_der_recursive
params: i max_depth
ret: r
spec:
    ensures pro(i@, r, pder(i@, max_depth as nat)),
entry:
    broadcast use group_parse;
=== fn der::parser::parse_der
params: i
ret: r
spec:
    ensures pro(i@, r, pder(i@, 50)),
=== fn der::parser::parse_der_with_tag
params: i tag
ret: r
spec:
    ensures exists|t: Tag| #[trigger] tag.iv(t) && pro(i@, r, pder_tag(i@, t)),
entry:
    broadcast use group_parse;
=== fn der::parser::parse_der_endofcontent t=EndOfContent; der::parser::parse_der_bool t=Boolean; der::parser::parse_der_integer t=Integer; der::parser::parse_der_bitstring t=BitString; der::parser::parse_der_octetstring t=OctetString; der::parser::parse_der_null t=Null; der::parser::parse_der_oid t=Oid; der::parser::parse_der_enum t=Enumerated; der::parser::parse_der_utf8string t=Utf8String; der::parser::parse_der_relative_oid t=RelativeOid; der::parser::parse_der_sequence t=Sequence; der::parser::parse_der_set t=Set; der::parser::parse_der_numericstring t=NumericString; der::parser::parse_der_visiblestring t=VisibleString; der::parser::parse_der_printablestring t=PrintableString; der::parser::parse_der_t61string t=T61String; der::parser::parse_der_videotexstring t=VideotexString; der::parser::parse_der_ia5string t=Ia5String; der::parser::parse_der_utctime t=UtcTime; der::parser::parse_der_generalizedtime t=GeneralizedTime; der::parser::parse_der_objectdescriptor t=ObjectDescriptor; der::parser::parse_der_graphicstring t=GraphicString; der::parser::parse_der_generalstring t=GeneralString; der::parser::parse_der_bmpstring t=BmpString; der::parser::parse_der_universalstring t=UniversalString; der::parser::visiblestring t=VisibleString
params: i
ret: r
spec:
    ensures pro(i@, r, pder_tag(i@, Tag::{t})),
=== fn ber::parser::parse_ber_i32 t=i32; ber::parser::parse_ber_i64 t=i64; ber::parser::parse_ber_u32 t=u32; ber::parser::parse_ber_u64 t=u64
params: i
ret: r
spec:
    ensures prr(i@, r, pint_{t}(i@, false)),
=== fn der::parser::parse_der_i32 t=i32; der::parser::parse_der_i64 t=i64; der::parser::parse_der_u32 t=u32; der::parser::parse_der_u64 t=u64
params: i
ret: r
spec:
    ensures prr(i@, r, pint_{t}(i@, true)),
