## der-oid-macro: the encoder behind encode_oid!
=== fn oid_macro::encode_components
attrs: #[verifier::rlimit(120)]
params: components relative
panics: refused
ret: r
spec:
    requires oid_enc(components@, relative).len() <= 0x2000_0000_0000_0000,
    ensures oid_ok(components@, relative), r@ == oid_enc(components@, relative),
entry:
    broadcast use lemma_rev_rev;
    let ghost refused = !oid_ok(components@, relative);
    let ghost head = if relative { 0int } else { 2 };
    let ghost c0 = components@;
    proof { vstd::arithmetic::power2::lemma2_to64(); lemma_zero_octet(); assert((1u8 << 7u8) == 128u8) by (bit_vector); }
before 0:
    let ghost pre = enc@;
    assert(__s0@ =~= c0.skip(head));
    assert(__s0@.take(0) =~= Seq::<crate::num_bigint::BigUint>::empty());
    assert(pre + Seq::<u8>::empty() =~= pre);
    assert(__s0@.take(__s0@.len() as int) =~= __s0@);
    assert(c0.skip(0) =~= c0);
    assert(oid_enc(components@, relative) =~= pre + subids(__s0@));
loop 0:
    invariant 0 <= __k0 <= __s0@.len(), enc@ == pre + subids(__s0@.take(__k0 as int)),
loopbody 0:
    let ghost e0 = enc@;
    let ghost n = __s0@[__k0 as int]@ as int;
    assert(__s0@.take(__k0 + 1).drop_last() =~= __s0@.take(__k0 as int));
    proof { lemma_subids_len(__s0@, __k0 as int); }
    assert(e0.push(0) =~= pre + (subids(__s0@.take(__k0 as int)) + seq![0u8]));
before 1:
    let ghost (d, l, ll) = (octects_needed as int, enc@.len() - 1, bytes@.len() as int);
    proof {
        let b = bytes@.reverse();
        assert(b.reverse() =~= bytes@);
        assert(be(b) == n);
        lemma_le_rev(b);
        lemma_ndigits(b, total_bits as int, d);
        lemma_start(bytes@, n);
    }
loop 1:
    invariant
        0 <= __k1 <= ll, __s1@ == bytes@, ll == bytes@.len(), ll > 0, bytes@.last() != 0, n == le_val(bytes@), n > 0, d >= 1, hi7(n, d) == 0, hi7(n, d - 1) > 0,
        d == octects_needed, l == enc@.len() - 1, enc@.len() == e0.len() + d,
        forall|k: int| 0 <= k < e0.len() ==> enc@[k] == e0[k],
        0 <= bytes_stored <= d,
        bytes_stored >= 1 ==> enc@[l] == 128 + dig7(n, 0),
        forall|j: int| 0 <= j < bytes_stored ==> #[trigger] enc@[l - j] == 128 + dig7(n, j),
        (bytes_stored == d && __k1 == ll) || (pos == l - bytes_stored && extra_size <= 7 && state7(bytes@, __k1 as int, n, bytes_stored as int, extra_size, extra)),
loopbody 1:
    proof { lemma_turn(bytes@, __k1 as int, n, d, bytes_stored as int, extra_size, extra); }
loopend 0:
    let ghost (d, l, ll) = (octects_needed as int, enc@.len() - 1, bytes@.len() as int);
    proof {
        if bytes_stored != d { lemma_left(bytes@, n, d, bytes_stored as int, extra_size, extra); }
        assert(forall|x: u8| x >= 128 ==> (x ^ 128u8) == sub(x, 128)) by (bit_vector);
        let t = enc@.skip(e0.len() as int);
        assert(t.last() == dig7(n, 0));
        assert forall|j: int| 1 <= j < t.len() implies #[trigger] t[t.len() - 1 - j] == 128 + dig7(n, j) by { assert(t[t.len() - 1 - j] == enc@[l - j]); }
        lemma_subid(n, t);
        assert(enc@ =~= e0 + t);
        assert(e0 + t =~= pre + (subids(__s0@.take(__k0 - 1)) + t));
    }
