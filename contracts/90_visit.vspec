=== trait ber::visit::Visit
  /// the calls made so far
  spec fn tr(&self) -> Seq<Ev>;
visit_ber :: ensures final(self).tr() == old(self).tr().push(Ev::Ber(ov(*$0), $1 as int))
visit_ber_bitstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::BitString($0, $1.data@), $2 as int))
visit_ber_bmpstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::BmpString($0@), $1 as int))
visit_ber_boolean :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Boolean($0), $1 as int))
visit_ber_endofcontent :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::EndOfContent, $0 as int))
visit_ber_enum :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Enum($0), $1 as int))
visit_ber_generalstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::GeneralString, sbytes($0)), $1 as int))
visit_ber_graphicstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::GraphicString, sbytes($0)), $1 as int))
visit_ber_ia5string :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::Ia5String, sbytes($0)), $1 as int))
visit_ber_numericstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::NumericString, sbytes($0)), $1 as int))
visit_ber_objectdescriptor :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::ObjectDescriptor, sbytes($0)), $1 as int))
visit_ber_printablestring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::PrintableString, sbytes($0)), $1 as int))
visit_ber_teletexstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::TeletexString, sbytes($0)), $1 as int))
visit_ber_utf8string :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::Utf8String, sbytes($0)), $1 as int))
visit_ber_videotextstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::VideotexString, sbytes($0)), $1 as int))
visit_ber_visiblestring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Str(Tag::VisibleString, sbytes($0)), $1 as int))
visit_ber_generalizedtime :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::GeneralizedTime(*$0), $1 as int))
visit_ber_utctime :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::UTCTime(*$0), $1 as int))
visit_ber_integer :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Integer($0@), $1 as int))
visit_ber_null :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Null, $0 as int))
visit_ber_oid :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::OID($0.ov()), $1 as int))
visit_ber_relative_oid :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::RelativeOID($0.ov()), $1 as int))
visit_ber_octetstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::OctetString($0@), $1 as int))
visit_ber_optional :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(optv($0), $1 as int))
visit_ber_sequence :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Sequence(ovs($0@)), $1 as int))
visit_ber_set :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Set(ovs($0@)), $1 as int))
visit_ber_tagged :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Tagged($0, $1, Box::new(ov(*$2))), $3 as int))
visit_ber_universalstring :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::UniversalString($0@), $1 as int))
visit_ber_unknown :: ensures final(self).tr() == old(self).tr().push(Ev::Ty(CV::Unknown(hv($0.header), $0.data@), $1 as int))

=== fn ber::visit::visit_ber_bfs
params: v ber depth
spec:
  requires depth + hgt(ov(*ber)) <= usize::MAX,
  ensures final(v).tr() == old(v).tr() + trace(ov(*ber), depth as int),
  decreases *ber,
entry:
  broadcast use {lemma_ev0, lemma_ev_assoc, lemma_ov_c, lemma_cv_list};
  proof { if ber.content is Sequence { lemma_traces_ends(ber.content->Sequence_0@, depth + 1); } if ber.content is Set { lemma_traces_ends(ber.content->Set_0@, depth + 1); } }
closures: |b: &'a Box<BerObject<'a>>| -> (r: &'a BerObject<'a>)
  ensures *r == **b,
loop 0:
  invariant __s0@ == ber.content->Sequence_0@, __k0 <= __s0@.len(), v.tr() == (old(v).tr() + seq![Ev::Ber(ov(*ber), depth as int), Ev::Ty(cv(ber.content), depth as int)]) + traces(ovs(__s0@.take(__k0 as int)), depth + 1),
loopbody 0:
  proof { lemma_traces_step(__s0@, depth + 1, __k0 as int); }
loop 1:
  invariant __s1@ == ber.content->Set_0@, __k1 <= __s1@.len(), v.tr() == (old(v).tr() + seq![Ev::Ber(ov(*ber), depth as int), Ev::Ty(cv(ber.content), depth as int)]) + traces(ovs(__s1@.take(__k1 as int)), depth + 1),
loopbody 1:
  proof { lemma_traces_step(__s1@, depth + 1, __k1 as int); }

=== fn ber::visit::Visit::run
params: self ber
spec:
  requires hgt(ov(*ber)) <= usize::MAX,
  ensures final(vp_self).tr() == old(vp_self).tr() + trace(ov(*ber), 0),

=== fn ber::visit::Visit::run_at
params: self ber depth
spec:
  requires depth + hgt(ov(*ber)) <= usize::MAX,
  ensures final(vp_self).tr() == old(vp_self).tr() + trace(ov(*ber), depth as int),

=== trait ber::visit_mut::VisitMut
  /// the calls made so far
  spec fn tr(&self) -> Seq<Em>;
visit_ber_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ber(ov(*old($0)), ov(*final($0)), $1 as int)), $1 + hgt(ov(*final($0))) <= usize::MAX
visit_ber_bitstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::BitString(*old($0), old($1).data@), CV::BitString(*final($0), final($1).data@), $2 as int))
visit_ber_boolean_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Boolean(*old($0)), CV::Boolean(*final($0)), $1 as int))
visit_ber_endofcontent_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::EndOfContent, CV::EndOfContent, $0 as int))
visit_ber_enum_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Enum(*old($0)), CV::Enum(*final($0)), $1 as int))
visit_ber_generalstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::GeneralString, sbytes(*old($0))), CV::Str(Tag::GeneralString, sbytes(*final($0))), $1 as int))
visit_ber_graphicstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::GraphicString, sbytes(*old($0))), CV::Str(Tag::GraphicString, sbytes(*final($0))), $1 as int))
visit_ber_ia5string_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::Ia5String, sbytes(*old($0))), CV::Str(Tag::Ia5String, sbytes(*final($0))), $1 as int))
visit_ber_numericstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::NumericString, sbytes(*old($0))), CV::Str(Tag::NumericString, sbytes(*final($0))), $1 as int))
visit_ber_objectdescriptor_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::ObjectDescriptor, sbytes(*old($0))), CV::Str(Tag::ObjectDescriptor, sbytes(*final($0))), $1 as int))
visit_ber_printablestring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::PrintableString, sbytes(*old($0))), CV::Str(Tag::PrintableString, sbytes(*final($0))), $1 as int))
visit_ber_teletexstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::TeletexString, sbytes(*old($0))), CV::Str(Tag::TeletexString, sbytes(*final($0))), $1 as int))
visit_ber_utf8string_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::Utf8String, sbytes($0)), CV::Str(Tag::Utf8String, sbytes($0)), $1 as int))
visit_ber_videotextstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::VideotexString, sbytes(*old($0))), CV::Str(Tag::VideotexString, sbytes(*final($0))), $1 as int))
visit_ber_visiblestring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Str(Tag::VisibleString, sbytes(*old($0))), CV::Str(Tag::VisibleString, sbytes(*final($0))), $1 as int))
visit_ber_bmpstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::BmpString((*old($0))@), CV::BmpString((*final($0))@), $1 as int))
visit_ber_integer_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Integer((*old($0))@), CV::Integer((*final($0))@), $1 as int))
visit_ber_octetstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::OctetString($0@), CV::OctetString($0@), $1 as int))
visit_ber_universalstring_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::UniversalString((*old($0))@), CV::UniversalString((*final($0))@), $1 as int))
visit_ber_generalizedtime_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::GeneralizedTime(*$0), CV::GeneralizedTime(*$0), $1 as int))
visit_ber_utctime_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::UTCTime(*$0), CV::UTCTime(*$0), $1 as int))
visit_ber_null_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Null, CV::Null, $0 as int))
visit_ber_oid_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::OID(old($0).ov()), CV::OID(final($0).ov()), $1 as int))
visit_ber_relative_oid_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::RelativeOID(old($0).ov()), CV::RelativeOID(final($0).ov()), $1 as int))
visit_ber_optional_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(optm($0), optf($0), $1 as int))
visit_ber_sequence_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Sequence(ovs(old($0)@)), CV::Sequence(ovs(final($0)@)), $1 as int)), $1 + 1 + hgts(ovs(final($0)@)) <= usize::MAX
visit_ber_set_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Set(ovs(old($0)@)), CV::Set(ovs(final($0)@)), $1 as int)), $1 + 1 + hgts(ovs(final($0)@)) <= usize::MAX
visit_ber_tagged_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Tagged(*old($0), *old($1), Box::new(ov(*old($2)))), CV::Tagged(*final($0), *final($1), Box::new(ov(*final($2)))), $3 as int))
visit_ber_unknown_mut :: ensures final(self).tr() == old(self).tr().push(Em::Ty(CV::Unknown(hv(old($0).header), old($0).data@), CV::Unknown(hv(final($0).header), final($0).data@), $1 as int))

=== fn ber::visit_mut::visit_ber_bfs_mut
params: v ber depth
attrs: #[verifier::exec_allows_no_decreases_clause]
spec:
  requires depth + hgt(ov(*old(ber))) <= usize::MAX,
  ensures mcall(old(v).tr(), final(v).tr(), ov(*old(ber)), ov(*final(ber)), depth as int),
entry:
  broadcast use {lemma_mcall_leaf, lemma_mcall_node, lemma_ov_c, lemma_cv_list};
before 0:
  let ghost __l0 = l@;
  let ghost __t0 = v.tr();
  proof { lemma_mcalls0(v.tr(), l@, l@, depth + 1); assert(l@.take(l@.len() as int) =~= l@); }
loop 0:
  invariant __k0 <= l@.len(), l@.len() == __l0.len(), forall|j: int| __k0 <= j < l@.len() ==> l@[j] == __l0[j], mcalls(__t0, v.tr(), ovs(__l0.take(__k0 as int)), ovs(l@.take(__k0 as int)), depth + 1), depth + 1 + hgts(ovs(__l0)) <= usize::MAX, l@.take(l@.len() as int) == l@, __l0.take(__l0.len() as int) == __l0,
loopbody 0:
  let ghost __la0 = l@;
  let ghost __ta0 = v.tr();
  proof { lemma_hgts(ovs(__l0), __k0 as int); }
loopend 0:
  proof { lemma_mcalls_step(__t0, __ta0, v.tr(), __l0, __la0, l@, __k0 - 1, depth + 1); assert(l@.take(l@.len() as int) =~= l@); assert(__l0.take(l@.len() as int) =~= __l0); }
before 1:
  let ghost __l1 = l@;
  let ghost __t1 = v.tr();
  proof { lemma_mcalls0(v.tr(), l@, l@, depth + 1); assert(l@.take(l@.len() as int) =~= l@); }
loop 1:
  invariant __k1 <= l@.len(), l@.len() == __l1.len(), forall|j: int| __k1 <= j < l@.len() ==> l@[j] == __l1[j], mcalls(__t1, v.tr(), ovs(__l1.take(__k1 as int)), ovs(l@.take(__k1 as int)), depth + 1), depth + 1 + hgts(ovs(__l1)) <= usize::MAX, l@.take(l@.len() as int) == l@, __l1.take(__l1.len() as int) == __l1,
loopbody 1:
  let ghost __la1 = l@;
  let ghost __ta1 = v.tr();
  proof { lemma_hgts(ovs(__l1), __k1 as int); }
loopend 1:
  proof { lemma_mcalls_step(__t1, __ta1, v.tr(), __l1, __la1, l@, __k1 - 1, depth + 1); assert(l@.take(l@.len() as int) =~= l@); assert(__l1.take(l@.len() as int) =~= __l1); }

=== fn ber::visit_mut::VisitMut::run
params: self ber
attrs: #[verifier::exec_allows_no_decreases_clause]
spec:
  requires hgt(ov(*old(ber))) <= usize::MAX,
  ensures mcall(old(vp_self).tr(), final(vp_self).tr(), ov(*old(ber)), ov(*final(ber)), 0),

=== fn ber::visit_mut::VisitMut::run_at
params: self ber depth
attrs: #[verifier::exec_allows_no_decreases_clause]
spec:
  requires depth + hgt(ov(*old(ber))) <= usize::MAX,
  ensures mcall(old(vp_self).tr(), final(vp_self).tr(), ov(*old(ber)), ov(*final(ber)), depth as int),
