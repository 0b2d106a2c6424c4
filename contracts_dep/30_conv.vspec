=== same
asn1_types::boolean::Boolean asn1_types::oid::Oid
=== fn asn1_types::boolean::Boolean::bool
ret: r
spec:
    ensures r == (self.value != 0),
=== fn asn1_types::boolean::<Boolean as TryFrom_Any>::try_from k=any; asn1_types::boolean::<Boolean as TryFrom_ref_Any>::try_from k=*any
params: any
ret: r
spec:
    requires bool_pre({k}),
    ensures conv_boolean({k}, r),
=== fn asn1_types::boolean::<bool as TryFrom_Any>::try_from k=any; asn1_types::boolean::<bool as TryFrom_ref_Any>::try_from k=*any
params: any
ret: r
spec:
    requires bool_pre({k}),
    ensures conv_bool({k}, r),
=== fn asn1_types::enumerated::<Enumerated as TryFrom_Any>::try_from k=any; asn1_types::enumerated::<Enumerated as TryFrom_ref_Any>::try_from k=*any
params: any
ret: r
spec:
    ensures conv_enum({k}, r),
=== fn asn1_types::oid::Oid::new k=false; asn1_types::oid::Oid::new_relative k=true
params: asn1
ret: r
spec:
    ensures r == (Oid { asn1, relative: {k} }),
=== fn asn1_types::oid::Oid::as_bytes
ret: r
spec:
    ensures r@ == self.asn1@,
=== fn asn1_types::oid::<Oid as TryFrom_Any>::try_from k=any; asn1_types::oid::<Oid as TryFrom_ref_Any>::try_from k=*any
params: any
ret: r
spec:
    ensures conv_oid({k}, r),
=== fn asn1_types::any::Any::bool
ret: r
spec:
    requires bool_pre(self),
    ensures conv_bool(self, r),
=== fn asn1_types::any::Any::enumerated
ret: r
spec:
    ensures conv_enum(self, r),
=== fn asn1_types::any::Any::oid
ret: r
spec:
    ensures conv_oid(self, r),
=== fn asn1_types::any::Any::relative_oid
ret: r
spec:
    ensures
        r is Ok <==> self.header.tag == Tag::RelativeOid,
        r is Ok ==> r->Ok_0.asn1@ == self.data@ && r->Ok_0.relative,
        r is Err ==> ek(r->Err_0) == EK::Other,
=== fn asn1_types::integer::trim_slice
params: any
ret: r
spec:
    ensures r is Ok, !neg(any.data@) ==> r->Ok_0@ == rz(any.data@),
entry:
    broadcast use group_int;
    proof {
        let d = any.data@;
        assert forall|k: int| 0 <= k < d.len() && (forall|j: int| 0 <= j < k ==> d[j] == 0) && (d[k] != 0 || k == d.len() - 1) implies rz(d) == #[trigger] d.skip(k) by { lemma_rz_first_nonzero(d, k); }
        assert forall|k: int| 0 <= k <= d.len() implies d.subrange(k, d.len() as int) == #[trigger] d.skip(k) by { assert(d.subrange(k, d.len() as int) =~= d.skip(k)); }
    }
closure 0: |b: &u8| -> (r: bool)
    ensures r == (*b != 0),
closure 1: |s: &[u8]| -> (r: bool)
    ensures true,
=== fn asn1_types::integer::decode_array_uint
params: any
ret: r
spec:
    requires N >= 1,
    ensures
        r is Ok <==> !neg(any.data@) && be(any.data@) < pow256(N as nat),
        r is Ok ==> be(r->Ok_0@) == be(any.data@),
        r is Err ==> ek(r->Err_0) == if neg(any.data@) { EK::Negative } else { EK::TooLarge },
entry:
    broadcast use group_int;
    proof { lemma_rz_fits(any.data@, N as nat); }
=== fn asn1_types::integer::decode_array_int
params: any
ret: r
spec:
    ensures
        r is Ok <==> any.data@.len() <= N,
        r is Ok ==> r->Ok_0@ == rep(0xff, (N - any.data@.len()) as nat) + any.data@,
        r is Err ==> ek(r->Err_0) == EK::TooLarge,
entry:
    broadcast use group_int;
=== fn asn1_types::integer::is_highest_bit_set
params: bytes
ret: r
spec:
    ensures r == neg(bytes@),
entry:
    broadcast use {group_int, lemma_head_bits};
closure 0: |byte: &u8| -> (r: bool)
    ensures r == (*byte >= 0x80),
=== fn asn1_types::integer::check_der_int_constraints
params: any
ret: r
spec:
    ensures chk_int(*any, r),
=== fn asn1_types::integer::<u32 as TryFrom_ref_Any>::try_from t=u32; asn1_types::integer::<u64 as TryFrom_ref_Any>::try_from t=u64; asn1_types::integer::<i32 as TryFrom_ref_Any>::try_from t=i32; asn1_types::integer::<i64 as TryFrom_ref_Any>::try_from t=i64
params: any
ret: r
spec:
    ensures drq(r, conv_int(*any, {t}_val(any.data@))),
entry:
    broadcast use group_int;
    proof { lemma_pow256_vals(); lemma_int_vals_exact(any.data@); }
=== fn asn1_types::integer::<u32 as TryFrom_Any>::try_from t=u32; asn1_types::integer::<u64 as TryFrom_Any>::try_from t=u64; asn1_types::integer::<i32 as TryFrom_Any>::try_from t=i32; asn1_types::integer::<i64 as TryFrom_Any>::try_from t=i64
params: any
ret: r
spec:
    ensures drq(r, conv_int(any, {t}_val(any.data@))),
=== fn asn1_types::integer::<u32 as CheckDerConstraints>::check_constraints; asn1_types::integer::<u64 as CheckDerConstraints>::check_constraints; asn1_types::integer::<i32 as CheckDerConstraints>::check_constraints; asn1_types::integer::<i64 as CheckDerConstraints>::check_constraints
params: any
ret: r
spec:
    ensures chk_int(*any, r),
=== fn asn1_types::any::parse_der_any
params: input
ret: r
spec:
    ensures der_any_rel(input@, r),
entry:
    broadcast use {group_parse, lemma_skip_take};
=== fn traits::<T as FromBer_E>::from_ber
inst: E=Error
params: bytes
ret: r
spec:
    requires forall|a: Any<'a>| any_wf(a) ==> #[trigger] T::tp(a),
    ensures conv_ber::<T>(bytes@, r),
entry:
    broadcast use group_parse;
=== fn traits::<T as FromDer_E>::from_der
inst: E=Error
params: bytes
ret: r
spec:
    requires forall|a: Any<'a>| any_wf(a) ==> #[trigger] T::tp(a), forall|a: Any<'a>| any_wf(a) ==> #[trigger] T::cp(a),
    ensures conv_der::<T>(bytes@, r),
entry:
    broadcast use group_parse;
