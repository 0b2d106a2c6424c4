=== types
ber::parser::MAX_RECURSION
=== same
class::Class tag::Tag length::Length header::Header error::DerConstraint error::Error asn1_types::any::Any asn1_types::enumerated::Enumerated
=== fn class::<Class as TryFrom_u8>::try_from
params: value
ret: r
spec:
    ensures r == (if value == 0 { Ok(Class::Universal) } else if value == 1 { Ok(Class::Application) } else if value == 2 { Ok(Class::ContextSpecific) } else if value == 3 { Ok(Class::Private) }
            else { Err::<Class, BerClassFromIntError>(BerClassFromIntError(())) }),
=== fn ber::parser::bytes_to_u64
params: s
ret: r
spec:
    ensures
        r is Ok <==> be(s@) < 0x1_0000_0000_0000_0000, r is Ok ==> r->Ok_0 == be(s@), r is Err ==> ek(r->Err_0) == EK::TooLarge,
entry:
    let ghost s0 = s@;
    assert(s0.take(0) =~= Seq::<u8>::empty());
    assert(s0.take(s0.len() as int) =~= s0);
loop 0:
    invariant __s0@ == s0, s@ == s0, u == be(s0.take(__k0 as int)), 0 <= __k0 <= s0.len(),
loopbody 0:
    assert(s0.take(__k0 + 1).drop_last() =~= s0.take(__k0 as int));
    proof { lemma_u64_octet(u, s0[__k0 as int]); if be(s0.take(__k0 + 1)) >= 0x1_0000_0000_0000_0000 { lemma_be_prefix(s0, __k0 + 1); } }
=== fn ber::parser::parse_identifier
attrs: #[verifier::allow_complex_invariants]
params: i
ret: r
spec:
    ensures
        prv(i@, r, ident(i@), |x: (u8, u8, u32, &[u8])| (x.0, x.1, x.2)),
        r is Ok ==> r->Ok_0.1.3@ == i@.take(ident_tag(i@)->Ok_0),
entry:
    broadcast use {group_parse, lemma_head_bits};
loop 0:
    invariant_except_break
        i@.len() > 0, 1 <= tag_byte_count, tag_byte_count <= i@.len(), tag_byte_count <= 6,
        high_tag(i@, tag_byte_count as int, c) == ident_tag(i@),
    ensures
        1 <= tag_byte_count <= i@.len(), ident_tag(i@) == PR::<u32>::Ok(tag_byte_count as int, c),
    decreases 6 - tag_byte_count,
=== fn ber::parser::parse_ber_length_byte
params: i
ret: r
spec:
    ensures prr(i@, r, lenbyte(i@)),
entry:
    broadcast use {group_parse, lemma_head_bits};
=== fn header::<Header as FromBer>::from_ber
params: bytes
ret: r
spec:
    ensures prv(bytes@, r, hdr(bytes@, false), |h: Header| hv(h)),
entry:
    broadcast use {group_parse, lemma_head_bits, lemma_be_bound, lemma_skip_take};
    proof { reveal(hdr); lemma_pow256_vals(); }
=== fn header::<Header as FromDer>::from_der
params: bytes
ret: r
spec:
    ensures prv(bytes@, r, hdr(bytes@, true), |h: Header| hv(h)),
entry:
    broadcast use {group_parse, lemma_head_bits, lemma_be_bound, lemma_skip_take};
    proof { reveal(hdr); lemma_pow256_vals(); }
=== fn ber::parser::ber_skip_object_content
params: i hdr max_depth
ret: r
spec:
    ensures prr(i@, r, skip(i@, hv(*hdr), max_depth as nat, false)),
    decreases max_depth,
entry:
    broadcast use group_parse;
    let ghost i0 = i@;
loop 0:
    invariant
        max_depth > 0, is_suffix(i@, i0), hv(*hdr).constructed, hv(*hdr).length == Length::Indefinite,
        skip_list(i0, (max_depth - 1) as nat, false) == padd(i0.len() - i@.len(), skip_list(i@, (max_depth - 1) as nat, false)),
    decreases i@.len(),
=== fn ber::parser::<BerParser as GetObjectContent>::get_object_content
params: i hdr max_depth
ret: r
spec:
    ensures prv(i@, r, content(i@, hv(*hdr), max_depth as nat, false), |x: &[u8]| x@),
entry:
    broadcast use group_parse;
=== fn ber::parser::<DerParser as GetObjectContent>::get_object_content
params: i hdr d
ret: r
spec:
    ensures prv(i@, r, der_content(i@, hv(*hdr)), |x: &[u8]| x@),
entry:
    broadcast use group_parse;
=== fn asn1_types::any::parse_ber_any
params: input
ret: r
spec:
    ensures prv(input@, r, anyp(input@), |a: Any| anyv(a)),
entry:
    broadcast use group_parse;
=== fn asn1_types::any::<Any as FromBer>::from_ber
params: bytes
ret: r
spec:
    ensures prv(bytes@, r, anyp(bytes@), |a: Any| anyv(a)),
=== fn debug::trace
params: m f input
ret: r
spec:
    requires f.requires((input,)),
    ensures f.ensures((input,), r),
=== fn debug::trace_generic
params: m n f input
ret: r
spec:
    requires f.requires((input,)),
    ensures f.ensures((input,), r),
