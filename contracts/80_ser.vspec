=== fn ber::serialize::encode_length
params: len out
ret: r
spec:
  ensures exists|l: Length| #[trigger] len.iv(l) && wr(out, r, enc_len(l)),
entry:
  broadcast use {group_wr, lemma_strip, lemma_or80};
closures: |b: &u8| -> (r: bool)
  ensures r == (*b == 0),

=== fn ber::serialize::ber_encode_header
params: hdr out
ret: r
spec:
  ensures wr(out, r, enc_hdr(hv(*hdr))),
entry:
  broadcast use {group_wr, lemma_shl6, lemma_shl5, lemma_or3};
  proof { lemma_q7(hdr.tag.0, 0); lemma_q7(hdr.tag.0, 28); assert(seq![0u8] + Seq::<u8>::empty() =~= seq![0u8]); }
loop 0:
  invariant tag == hdr.tag.0, tag > 30, shift <= 28, shift % 7 == 0, q7(tag, shift + 7) == 0, (tag >> shift) == q7(tag, shift as int), v@ == seq![(class_u8 + pc_u8 + 31) as u8],
  decreases shift,
loopbody 0:
  proof { lemma_q7(tag, shift); if shift >= 7 { lemma_q7(tag, (shift - 7) as u32); } }
loop 1:
  invariant tag == hdr.tag.0, tag > 30, shift <= 28, shift % 7 == 0, q7(tag, shift as int) > 0, v@ == seq![(class_u8 + pc_u8 + 31) as u8] + hi128(q7(tag, shift + 7)),
  decreases shift,
loopbody 1:
  proof { lemma_q7(tag, shift); }

=== fn ber::serialize::ber_encode_oid
params: oid out
ret: r
spec:
  ensures wr(out, r, oid.ov()),

=== fn ber::serialize::ber_encode_datetime
params: time out
ret: r
spec:
  ensures wr(out, r, disp(*time)),

=== fn ber::serialize::ber_encode_sequence
params: v out
ret: r
spec:
  requires wok::<W>(),
  ensures wr(out, r, encs(ovs(v@))),
  decreases v@, 0nat,
entry:
  broadcast use group_wrg;
  proof { lemma_ovs_ends(v@); }
loop 0:
  invariant wok::<W>(), __s0@ == v@, __k0 <= v@.len(), wr(out, Ok(__o1), encs(ovs(v@.take(__k0 as int)))),
loopbody 0:
  proof { lemma_ovs_step(v@, __k0 as int); }

=== fn ber::serialize::ber_encode_object
params: obj out
ret: r
spec:
  requires wok::<W>(),
  ensures wr(out, r, enc(ov(*obj))),
  decreases *obj, 0nat,
entry:
  broadcast use group_wr;

=== fn ber::serialize::ber_encode_object_content
params: c out
ret: r
spec:
  requires wok::<W>(),
  ensures wr(out, r, enc_content(cv(*c))),
  decreases *c, 0nat,
entry:
  broadcast use {group_wr, lemma_strip, lemma_cv_list, lemma_ov_c};
closures: |b: &u8| -> (r: bool)
  ensures r == (*b == 0),

=== fn ber::serialize::ber_encode_object_raw
params: hdr content out
ret: r
spec:
  requires wok::<W>(),
  ensures wr(out, r, enc_hdr(hv(*hdr)) + enc_content(cv(*content))),
entry:
  broadcast use group_wr;

=== fn ber::serialize::ber_encode_tagged_explicit
params: tag class obj out
ret: r
spec:
  requires wok::<W>(),
  ensures wr(out, r, enc_tag(class, true, tag) + enc_len(Length::Definite(enc(ov(*obj)).len() as usize)) + enc(ov(*obj))),
entry:
  broadcast use group_wr;

=== fn ber::serialize::ber_encode_tagged_implicit
params: tag class obj out
ret: r
spec:
  requires wok::<W>(),
  ensures wr(out, r, enc_tag(class, obj.header.constructed, tag) + enc_len(Length::Definite(enc_content(cv(obj.content)).len() as usize)) + enc_content(cv(obj.content))),
entry:
  broadcast use group_wr;

=== fn ber::serialize::BerObject::to_vec
ret: r
spec:
  ensures r is Ok && r->Ok_0@ == enc(ov(*self)),
entry:
  proof { lemma_wok_vec(); }
