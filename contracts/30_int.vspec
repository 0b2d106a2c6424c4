=== fn ber::integer::remove_zeroes
params: bytes
ret: r
spec:
    ensures r is Ok, r->Ok_0@ == rz(bytes@),
entry:
    broadcast use group_int;
    let ghost b0 = bytes@;
loop 0:
    invariant rz(bytes@) == rz(b0),
    decreases bytes@.len(),
loopbody 0:
    proof { assert(rz(bytes@) == rz(bytes@.skip(1))); assert(bytes@.subrange(1, bytes@.len() as int) =~= bytes@.skip(1)); }
=== fn ber::integer::is_highest_bit_set
params: bytes
ret: r
spec:
    ensures r == neg(bytes@),
entry:
    broadcast use group_int;
closure 0: |byte: &u8| -> (r: bool)
    ensures r == (*byte >= 0x80),
=== fn ber::integer::decode_array_uint8 n=8; ber::integer::decode_array_uint4 n=4
params: bytes
ret: r
spec:
    ensures
        r is Ok <==> !neg(bytes@) && be(bytes@) < pow256({n}),
        r is Ok ==> be(r->Ok_0@) == be(bytes@),
        r is Err ==> ek(r->Err_0) == if neg(bytes@) { EK::Negative } else { EK::TooLarge },
entry:
    broadcast use group_int;
    proof { lemma_rz_fits(bytes@, {n}); }
=== fn ber::integer::decode_array_int8 n=8; ber::integer::decode_array_int4 n=4
params: input
ret: r
spec:
    ensures
        r is Ok <==> rz(input@).len() <= {n},
        r is Ok ==> r->Ok_0@ == rep(0xff, ({n} - rz(input@).len()) as nat) + rz(input@),
        r is Err ==> ek(r->Err_0) == EK::TooLarge,
entry:
    broadcast use group_int;
=== fn ber::ber::BerObjectContent::as_i64 t=i64; ber::ber::BerObjectContent::as_i32 t=i32
params: self
ret: r
spec:
    ensures
        *self is Integer ==> drq(r, {t}_val(self->Integer_0@)),
        !(*self is Integer) ==> r is Err && ek(r->Err_0) == EK::Other,
entry:
    broadcast use group_int;
    proof { lemma_pow256_vals(); if *self is Integer { lemma_int_vals_exact(self->Integer_0@); } }
=== fn ber::parser::bitstring_to_u64
params: padding_bits data
ret: r
spec:
    requires len_ok(data.data@),
    ensures drq(r, bits_val(padding_bits as nat, data.data@)),
entry:
    broadcast use {group_int, lemma_be_snoc, lemma_shl8, lemma_or_octet, lemma_shr_div};
    proof {
        lemma_pow256_vals();
        if padding_bits <= 8 * data.data@.len() { lemma_bits_prefix(padding_bits as nat, data.data@);
            if 8 * data.data@.len() - padding_bits <= 64 { lemma_bits_fit(padding_bits as nat, data.data@); } }
    }
loop 0:
    invariant
        __k0 <= __s0@.len() <= 8, resulting_integer == be(__s0@.take(__k0 as int)),
loopbody 0:
    proof {
        assert(__s0@.take(__k0 + 1) =~= __s0@.take(__k0 as int).push(__s0@[__k0 as int]));
        lemma_be_bound(__s0@.take(__k0 as int));
        lemma_pow256_mono(__k0 as nat, 7);
    }
=== fn ber::ber::BerObjectContent::as_u64 t=u64
params: self
ret: r
spec:
    requires *self is BitString ==> len_ok(self->BitString_1.data@),
    ensures
        *self is Integer ==> drq(r, {t}_val(self->Integer_0@)),
        *self is BitString ==> drq(r, bits_{t}(self->BitString_0 as nat, self->BitString_1.data@)),
        *self is Enum ==> (if self->Enum_0 <= {t}::MAX { r is Ok && r->Ok_0 == self->Enum_0 } else { r is Err && ek(r->Err_0) == EK::TooLarge }),
        !(*self is Integer || *self is BitString || *self is Enum) ==> r is Err && ek(r->Err_0) == EK::Other,
entry:
    broadcast use group_int;
    proof { lemma_pow256_vals(); if *self is Integer { lemma_int_vals_exact(self->Integer_0@); } }
=== fn ber::ber::BerObjectContent::as_u32 t=u32
params: self
ret: r
spec:
    requires *self is BitString ==> len_ok(self->BitString_1.data@),
    ensures
        *self is Integer ==> drq(r, {t}_val(self->Integer_0@)),
        *self is BitString ==> drq(r, bits_{t}(self->BitString_0 as nat, self->BitString_1.data@)),
        *self is Enum ==> (if self->Enum_0 <= {t}::MAX { r is Ok && r->Ok_0 == self->Enum_0 } else { r is Err && ek(r->Err_0) == EK::TooLarge }),
        !(*self is Integer || *self is BitString || *self is Enum) ==> r is Err && ek(r->Err_0) == EK::Other,
entry:
    broadcast use group_int;
    proof { lemma_pow256_vals(); if *self is Integer { lemma_int_vals_exact(self->Integer_0@); } }
closure 0: |x: u64| -> (r: Result<u32, BerError>)
    ensures if x <= u32::MAX { r is Ok && r->Ok_0 == x } else { r is Err && ek(r->Err_0) == EK::TooLarge },
=== fn ber::ber::BitStringObject::is_set
params: self n
ret: r
spec:
    ensures r == bit_at(self.data@, n as int),
entry:
    broadcast use lemma_bit_test;
