=== same
datetime::ASN1TimeZone datetime::ASN1DateTime asn1_types::utctime::UtcTime asn1_types::generalizedtime::GeneralizedTime
=== fn tag::Tag::invalid_value
params: self msg
ret: r
spec:
    ensures ek(r) == EK::Other,
=== fn datetime::ASN1DateTime::new
params: year month day hour minute second millisecond tz
ret: r
spec:
    ensures r == (ASN1DateTime { year, month, day, hour, minute, second, millisecond, tz }),
=== fn datetime::decode_decimal
params: tag hi lo
ret: r
spec:
    ensures
        r is Ok <==> dig(hi) && dig(lo), r is Ok ==> r->Ok_0 == 10 * (hi - 0x30) + (lo - 0x30), r is Err ==> ek(r->Err_0) == EK::Other,
=== fn asn1_types::utctime::UtcTime::from_bytes
params: bytes
ret: r
spec:
    ensures utc_rel(bytes@, r),
entry:
    reveal(utctime_val);
=== fn asn1_types::generalizedtime::GeneralizedTime::from_bytes
attrs: #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)]
params: bytes
ret: r
spec:
    ensures gen_rel(bytes@, r),
entry:
    reveal(gentime_val);
before 0:
    let ghost rem0 = rem@;
    proof { let q = if bytes@.len() >= 14 { 14int } else { 12 }; assert(bytes@.skip(q).skip(1) =~= rem0); }
loop 0:
    invariant_except_break
        0 <= __k0 <= 5, __s0 == 4,
        frac_val(rem0, 0, 0) == frac_val(rem@, __k0 as int, fsecond as int),
        digits == 0,
        __k0 == 0 ==> fsecond == 0, __k0 == 1 ==> fsecond < 10, __k0 == 2 ==> fsecond < 100, __k0 == 3 ==> fsecond < 1000, __k0 == 4 ==> fsecond < 10000, __k0 < 5,
    ensures
        frac_val(rem0, 0, 0) == Some((digits as int, fsecond as int, rem@)), digits == 1 ==> fsecond < 10, digits == 2 ==> fsecond < 100,
=== fn asn1_types::utctime::<UtcTime as TryFrom_Any>::try_from k=any; asn1_types::utctime::<UtcTime as TryFrom_ref_Any>::try_from k=*any
params: any
ret: r
spec:
    ensures conv_utc({k}, r),
entry:
    proof { if utctime_val(any.data@) is Some { lemma_utc_vis(any.data@); } }
=== fn asn1_types::generalizedtime::<GeneralizedTime as TryFrom_Any>::try_from k=any; asn1_types::generalizedtime::<GeneralizedTime as TryFrom_ref_Any>::try_from k=*any
params: any
ret: r
spec:
    ensures conv_gen({k}, r),
entry:
    proof { if gentime_val(any.data@) is Some { lemma_gen_vis(any.data@); } }
=== fn asn1_types::utctime::<UtcTime as TryFrom_ref_Any>::try_from::is_visible; asn1_types::generalizedtime::<GeneralizedTime as TryFrom_ref_Any>::try_from::is_visible
params: b
ret: r
spec:
    ensures r == vis(*b),
=== fn asn1_types::any::Any::utctime k=utc; asn1_types::any::Any::generalizedtime k=gen
ret: r
spec:
    ensures conv_{k}(self, r),
