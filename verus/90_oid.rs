
// ======================================================================== object identifiers (der-oid-macro)
pub mod num_traits { pub mod cast {
use vstd::prelude::*;
use crate::num_bigint::BigUint;
verus! {
pub trait ToPrimitive { spec fn tp(&self) -> int; fn to_u8(&self) -> (r: Option<u8>) ensures r == (if 0 <= self.tp() <= 255 { Some(self.tp() as u8) } else { None::<u8> }); }
impl ToPrimitive for BigUint {
    open spec fn tp(&self) -> int { self@ as int }
    // assumed: num-traits / num-bigint conversion to u8
    #[verifier::external_body]
    fn to_u8(&self) -> (r: Option<u8>) { unimplemented!() }
}
}
} }
pub mod voidm {
use vstd::prelude::*;
pub use vstd::arithmetic::power2::pow2;
use vstd::arithmetic::power2::*;
use vstd::std_specs::bits::*;
use alloc::vec::Vec;
use crate::vspec::*;
use crate::vser::hi128;
use crate::num_bigint::BigUint;
verus! {
/// X.690 8.19.2: base 128, most significant digit first, top bit set on all but the last
pub open spec fn subid(n: int) -> Seq<u8> { hi128((n / 128) as nat).push((n % 128) as u8) }
pub open spec fn subids(s: Seq<BigUint>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { subids(s.drop_last()) + subid(s.last()@ as int) } }
/// X.690 8.19 / 8.20
pub open spec fn oid_enc(c: Seq<BigUint>, relative: bool) -> Seq<u8> {
    if relative { subids(c) }
    else if c.len() < 2 { seq![0u8] }
    else { seq![(40 * c[0]@ + c[1]@) as u8] + subids(c.skip(2)) }
}
/// the component lists the macro takes (any other stops the compilation)
pub open spec fn oid_ok(c: Seq<BigUint>, relative: bool) -> bool {
    relative || (c.len() == 1 && c[0]@ == 0) || (c.len() >= 2 && c[0]@ < 3 && c[1]@ < 40)
}
pub open spec fn le_val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * le_val(s.skip(1)) } }
/// digit j of n in base 128
pub open spec fn dig7(n: int, j: int) -> int { hi7(n, j) % 128 }
/// what is left of n above its lowest j digits
#[verifier::opaque]
pub open spec fn hi7(n: int, j: int) -> int { n / (pow2((7 * j) as nat) as int) }

pub broadcast proof fn lemma_rev_rev(s: Seq<u8>)
    ensures #[trigger] s.reverse().reverse() == s
{ assert(s.reverse().reverse() =~= s); }
pub proof fn lemma_le_rev(s: Seq<u8>)
    ensures le_val(s.reverse()) == be(s)
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.reverse();
        assert(r.skip(1) =~= s.drop_last().reverse());
        lemma_le_rev(s.drop_last());
    }
}
pub proof fn lemma_le_pos(s: Seq<u8>)
    requires s.len() > 0, s.last() != 0
    ensures le_val(s) > 0
    decreases s.len()
{
    if s.len() > 1 { assert(s.skip(1).last() == s.last()); lemma_le_pos(s.skip(1)); } else { assert(le_val(s.skip(1)) == 0); }
}
pub proof fn lemma_lz(i: u8)
    requires i != 0
    ensures 0 <= u8_leading_zeros(i) < 8, pow2((7 - u8_leading_zeros(i)) as nat) <= i < pow2((8 - u8_leading_zeros(i)) as nat)
{
    broadcast use axiom_u8_leading_zeros;
    let z = u8_leading_zeros(i);
    let a = (8 - z) as u8;
    let b = (7u8 - z) as u8;
    assert(i >> a == 0u8);
    assert((i >> b) & 1u8 != 0u8);
    lemma2_to64();
    assert(b == a - 1);
    assert(a == 8 ==> i >= 128) by (bit_vector) requires (i >> b) & 1u8 != 0u8, b == sub(a, 1);
    assert(a == 7 ==> 64 <= i < 128) by (bit_vector) requires i >> a == 0u8, (i >> b) & 1u8 != 0u8, b == sub(a, 1);
    assert(a == 6 ==> 32 <= i < 64) by (bit_vector) requires i >> a == 0u8, (i >> b) & 1u8 != 0u8, b == sub(a, 1);
    assert(a == 5 ==> 16 <= i < 32) by (bit_vector) requires i >> a == 0u8, (i >> b) & 1u8 != 0u8, b == sub(a, 1);
    assert(a == 4 ==> 8 <= i < 16) by (bit_vector) requires i >> a == 0u8, (i >> b) & 1u8 != 0u8, b == sub(a, 1);
    assert(a == 3 ==> 4 <= i < 8) by (bit_vector) requires i >> a == 0u8, (i >> b) & 1u8 != 0u8, b == sub(a, 1);
    assert(a == 2 ==> 2 <= i < 4) by (bit_vector) requires i >> a == 0u8, (i >> b) & 1u8 != 0u8, b == sub(a, 1);
    assert(a == 1 ==> 1 <= i < 2) by (bit_vector) requires i >> a == 0u8, (i >> b) & 1u8 != 0u8, b == sub(a, 1);
}
pub proof fn lemma_pow256_pow2(n: nat)
    ensures pow256(n) == pow2(8 * n)
    decreases n
{
    lemma2_to64();
    if n > 0 { lemma_pow256_pow2((n - 1) as nat); lemma_pow2_adds(8, (8 * (n - 1)) as nat); assert(8 + 8 * (n - 1) == 8 * n); }
}
/// the number of base 128 digits, from the number of bits
pub proof fn lemma_ndigits(b: Seq<u8>, t: int, d: int)
    requires b.len() > 0, b[0] != 0, t == 8 - u8_leading_zeros(b[0]) + (b.len() - 1) * 8, d == (t + 6) / 7
    ensures d >= 1, hi7(be(b), d) == 0, hi7(be(b), d - 1) > 0, be(b) > 0
{
    reveal(hi7);
    let n = be(b);
    let z = u8_leading_zeros(b[0]) as int;
    let l = (b.len() - 1) as nat;
    lemma_lz(b[0]);
    lemma_be_first(b);
    lemma_be_bound(b.skip(1));
    lemma_pow256_pow2(l);
    lemma_pow2_adds((7 - z) as nat, 8 * l);
    lemma_pow2_adds((8 - z) as nat, 8 * l);
    let p = pow2(8 * l) as int;
    let b0 = b[0] as int;
    let (lo, up) = (pow2((7 - z) as nat) as int, pow2((8 - z) as nat) as int);
    assert(n >= lo * p) by (nonlinear_arith) requires n == b0 * p + be(b.skip(1)), be(b.skip(1)) >= 0, b0 >= lo, p >= 0;
    assert(n < up * p) by (nonlinear_arith) requires n == b0 * p + be(b.skip(1)), be(b.skip(1)) < p, b0 + 1 <= up, p >= 0;
    assert((7 - z) + 8 * l == t - 1 && (8 - z) + 8 * l == t);
    assert(pow2((t - 1) as nat) <= n < pow2(t as nat));
    if 7 * (d - 1) < t - 1 { lemma_pow2_strictly_increases((7 * (d - 1)) as nat, (t - 1) as nat); }
    if t < 7 * d { lemma_pow2_strictly_increases(t as nat, (7 * d) as nat); }
    lemma_pow2_pos((7 * (d - 1)) as nat);
    lemma_pow2_pos((7 * d) as nat);
    assert(n / (pow2((7 * d) as nat) as int) == 0) by (nonlinear_arith) requires 0 <= n < pow2((7 * d) as nat);
    let q = pow2((7 * (d - 1)) as nat) as int;
    assert(n / q > 0) by (nonlinear_arith) requires n >= q, q > 0;
}
pub proof fn lemma_hi_next(n: int, j: int)
    requires j >= 0, n >= 0
    ensures hi7(n, j + 1) == hi7(n, j) / 128, hi7(n, j) >= 0, hi7(n, 0) == n
{
    reveal(hi7);
    lemma2_to64();
    lemma_pow2_adds((7 * j) as nat, 7);
    lemma_pow2_pos((7 * j) as nat);
    assert(7 * j + 7 == 7 * (j + 1));
    vstd::arithmetic::div_mod::lemma_div_denominator(n, pow2((7 * j) as nat) as int, 128);
    assert(hi7(n, j) >= 0) by (nonlinear_arith) requires hi7(n, j) == n / (pow2((7 * j) as nat) as int), n >= 0, pow2((7 * j) as nat) > 0;
    assert(n / 1 == n);
}
/// above the top digit nothing is left
pub proof fn lemma_hi_zero(n: int, j: int, d: int)
    requires 0 <= j, j <= d, n >= 0
    ensures hi7(n, d) > 0 ==> hi7(n, j) > 0, hi7(n, j) == 0 ==> hi7(n, d) == 0
    decreases d - j
{
    if j < d { lemma_hi_zero(n, j + 1, d); lemma_hi_next(n, j); lemma_hi_next(n, d - 1); }
}
/// one octet: its low bits complete a digit, its high bits are carried over
pub proof fn lemma_octet(es: u8, extra: u8, byte: u8, rest: int, r: int)
    requires es <= 6, extra < pow2(es as nat), rest >= 0, r == extra + pow2(es as nat) * (byte + 256 * rest)
    ensures
        ((byte << es) | extra) | 128u8 == 128 + r % 128,
        r / 128 == (byte >> (7 - es) as u8) + pow2((es + 1) as nat) * rest,
        (byte >> (7 - es) as u8) < pow2((es + 1) as nat),
{
    lemma2_to64();
    let p = pow2(es as nat) as int;
    let b = byte as int;
    let q = p * rest;
    lemma_pow2_unfold((es + 1) as nat);
    assert(p * (b + 256 * rest) == p * b + 256 * q) by (nonlinear_arith) requires q == p * rest;
    assert(q >= 0) by (nonlinear_arith) requires q == p * rest, p >= 0, rest >= 0;
    assert(pow2((es + 1) as nat) * rest == 2 * q) by (nonlinear_arith) requires q == p * rest, pow2((es + 1) as nat) == 2 * p;
    if es == 0 { assert(p * b == 1 * b) by (nonlinear_arith) requires p == 1; lemma_oct0(extra, byte, q, r); }
    if es == 1 { assert(p * b == 2 * b) by (nonlinear_arith) requires p == 2; lemma_oct1(extra, byte, q, r); }
    if es == 2 { assert(p * b == 4 * b) by (nonlinear_arith) requires p == 4; lemma_oct2(extra, byte, q, r); }
    if es == 3 { assert(p * b == 8 * b) by (nonlinear_arith) requires p == 8; lemma_oct3(extra, byte, q, r); }
    if es == 4 { assert(p * b == 16 * b) by (nonlinear_arith) requires p == 16; lemma_oct4(extra, byte, q, r); }
    if es == 5 { assert(p * b == 32 * b) by (nonlinear_arith) requires p == 32; lemma_oct5(extra, byte, q, r); }
    if es == 6 { assert(p * b == 64 * b) by (nonlinear_arith) requires p == 64; lemma_oct6(extra, byte, q, r); }
}
pub proof fn lemma_mod128(x: int, q: int)
    ensures (x + 256 * q) % 128 == x % 128, (x + 256 * q) / 128 == x / 128 + 2 * q
{}
pub proof fn lemma_oct0(extra: u8, byte: u8, q: int, r: int)
    requires extra < 1, r == extra + 1 * byte + 256 * q, q >= 0
    ensures ((byte << 0u8) | extra) | 128u8 == 128 + r % 128, r / 128 == (byte >> 7u8) + 2 * q, (byte >> 7u8) < 2
{
    let (e, b) = (extra as u16, byte as u16);
    assert((((byte << 0u8) | extra) | 128u8) as u16 == add(128, add(e, mul(1, b)) % 128)) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 1;
    assert((byte >> 7u8) as u16 == add(e, mul(1, b)) / 128 && (byte >> 7u8) < 2) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 1;
    lemma_mod128(extra + 1 * byte, q);
}
pub proof fn lemma_oct1(extra: u8, byte: u8, q: int, r: int)
    requires extra < 2, r == extra + 2 * byte + 256 * q, q >= 0
    ensures ((byte << 1u8) | extra) | 128u8 == 128 + r % 128, r / 128 == (byte >> 6u8) + 2 * q, (byte >> 6u8) < 4
{
    let (e, b) = (extra as u16, byte as u16);
    assert((((byte << 1u8) | extra) | 128u8) as u16 == add(128, add(e, mul(2, b)) % 128)) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 2;
    assert((byte >> 6u8) as u16 == add(e, mul(2, b)) / 128 && (byte >> 6u8) < 4) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 2;
    lemma_mod128(extra + 2 * byte, q);
}
pub proof fn lemma_oct2(extra: u8, byte: u8, q: int, r: int)
    requires extra < 4, r == extra + 4 * byte + 256 * q, q >= 0
    ensures ((byte << 2u8) | extra) | 128u8 == 128 + r % 128, r / 128 == (byte >> 5u8) + 2 * q, (byte >> 5u8) < 8
{
    let (e, b) = (extra as u16, byte as u16);
    assert((((byte << 2u8) | extra) | 128u8) as u16 == add(128, add(e, mul(4, b)) % 128)) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 4;
    assert((byte >> 5u8) as u16 == add(e, mul(4, b)) / 128 && (byte >> 5u8) < 8) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 4;
    lemma_mod128(extra + 4 * byte, q);
}
pub proof fn lemma_oct3(extra: u8, byte: u8, q: int, r: int)
    requires extra < 8, r == extra + 8 * byte + 256 * q, q >= 0
    ensures ((byte << 3u8) | extra) | 128u8 == 128 + r % 128, r / 128 == (byte >> 4u8) + 2 * q, (byte >> 4u8) < 16
{
    let (e, b) = (extra as u16, byte as u16);
    assert((((byte << 3u8) | extra) | 128u8) as u16 == add(128, add(e, mul(8, b)) % 128)) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 8;
    assert((byte >> 4u8) as u16 == add(e, mul(8, b)) / 128 && (byte >> 4u8) < 16) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 8;
    lemma_mod128(extra + 8 * byte, q);
}
pub proof fn lemma_oct4(extra: u8, byte: u8, q: int, r: int)
    requires extra < 16, r == extra + 16 * byte + 256 * q, q >= 0
    ensures ((byte << 4u8) | extra) | 128u8 == 128 + r % 128, r / 128 == (byte >> 3u8) + 2 * q, (byte >> 3u8) < 32
{
    let (e, b) = (extra as u16, byte as u16);
    assert((((byte << 4u8) | extra) | 128u8) as u16 == add(128, add(e, mul(16, b)) % 128)) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 16;
    assert((byte >> 3u8) as u16 == add(e, mul(16, b)) / 128 && (byte >> 3u8) < 32) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 16;
    lemma_mod128(extra + 16 * byte, q);
}
pub proof fn lemma_oct5(extra: u8, byte: u8, q: int, r: int)
    requires extra < 32, r == extra + 32 * byte + 256 * q, q >= 0
    ensures ((byte << 5u8) | extra) | 128u8 == 128 + r % 128, r / 128 == (byte >> 2u8) + 2 * q, (byte >> 2u8) < 64
{
    let (e, b) = (extra as u16, byte as u16);
    assert((((byte << 5u8) | extra) | 128u8) as u16 == add(128, add(e, mul(32, b)) % 128)) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 32;
    assert((byte >> 2u8) as u16 == add(e, mul(32, b)) / 128 && (byte >> 2u8) < 64) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 32;
    lemma_mod128(extra + 32 * byte, q);
}
pub proof fn lemma_oct6(extra: u8, byte: u8, q: int, r: int)
    requires extra < 64, r == extra + 64 * byte + 256 * q, q >= 0
    ensures ((byte << 6u8) | extra) | 128u8 == 128 + r % 128, r / 128 == (byte >> 1u8) + 2 * q, (byte >> 1u8) < 128
{
    let (e, b) = (extra as u16, byte as u16);
    assert((((byte << 6u8) | extra) | 128u8) as u16 == add(128, add(e, mul(64, b)) % 128)) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 64;
    assert((byte >> 1u8) as u16 == add(e, mul(64, b)) / 128 && (byte >> 1u8) < 128) by (bit_vector) requires e == extra as u16, b == byte as u16, extra < 64;
    lemma_mod128(extra + 64 * byte, q);
}
/// the digits above the lowest, each with its continuation bit
pub proof fn lemma_hi128(n: int, d: Seq<u8>)
    requires n >= 0, forall|j: int| 0 <= j < d.len() ==> #[trigger] d[d.len() - 1 - j] == 128 + dig7(n, j), hi7(n, d.len() as int) == 0, d.len() > 0 ==> hi7(n, d.len() - 1) > 0
    ensures hi128(n as nat) == d
    decreases d.len()
{
    let t = d.len() as int;
    lemma_hi_next(n, 0);
    if t == 0 { assert(hi128(n as nat) =~= d); }
    else {
        lemma_hi_zero(n, 0, t - 1);
        let m = n / 128;
        let e = d.drop_last();
        assert forall|j: int| j >= 0 implies #[trigger] hi7(m, j) == hi7(n, j + 1) by { lemma_hi_div(n, j); }
        assert forall|j: int| 0 <= j < e.len() implies #[trigger] e[e.len() - 1 - j] == 128 + dig7(m, j) by { assert(d[d.len() - 1 - (j + 1)] == 128 + dig7(n, j + 1)); assert(hi7(m, j) == hi7(n, j + 1)); }
        assert(hi7(m, t - 1) == hi7(n, t));
        if t > 1 { assert(hi7(m, t - 2) == hi7(n, t - 1)); }
        lemma_hi128(m, e);
        assert(d[d.len() - 1 - 0] == 128 + dig7(n, 0));
        assert(n as nat / 128 == m as nat);
        assert(hi128(n as nat) == hi128(m as nat).push((128 + n % 128) as u8));
        assert(d =~= e.push(d.last()));
    }
}
pub proof fn lemma_hi_div(n: int, j: int)
    requires n >= 0, j >= 0
    ensures hi7(n / 128, j) == hi7(n, j + 1)
    decreases j
{
    lemma_hi_next(n, 0);
    lemma_hi_next(n / 128, 0);
    lemma_hi_next(n, j);
    if j > 0 { lemma_hi_div(n, j - 1); lemma_hi_next(n / 128, j - 1); }
}
pub proof fn lemma_subid(n: int, d: Seq<u8>)
    requires n >= 0, d.len() > 0, forall|j: int| 1 <= j < d.len() ==> #[trigger] d[d.len() - 1 - j] == 128 + dig7(n, j), d.last() == dig7(n, 0),
        hi7(n, d.len() as int) == 0, hi7(n, d.len() - 1) > 0
    ensures subid(n) == d
{
    let e = d.drop_last();
    let m = n / 128;
    let t = d.len() as int;
    assert forall|j: int| j >= 0 implies #[trigger] hi7(m, j) == hi7(n, j + 1) by { lemma_hi_div(n, j); }
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] e[e.len() - 1 - j] == 128 + dig7(m, j) by { assert(d[d.len() - 1 - (j + 1)] == 128 + dig7(n, j + 1)); assert(hi7(m, j) == hi7(n, j + 1)); }
    assert(hi7(m, t - 1) == hi7(n, t));
    if t > 1 { assert(hi7(m, t - 2) == hi7(n, t - 1)); }
    lemma_hi128(m, e);
    lemma_hi_next(n, 0);
    assert(d =~= e.push(d.last()));
}
pub proof fn lemma_subids_len(s: Seq<BigUint>, k: int)
    requires 0 <= k <= s.len()
    ensures subids(s.take(k)).len() <= subids(s).len()
    decreases s.len()
{
    if k < s.len() { lemma_subids_len(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); }
}
pub proof fn lemma_zero_octet()
    ensures be(seq![0u8]) == 0, subid(0) == seq![0u8]
{
    reveal_with_fuel(be, 2);
    assert(seq![0u8].drop_last() =~= Seq::<u8>::empty());
    assert(subid(0) =~= seq![0u8]);
}
/// one turn of the inner loop, by numbers
pub proof fn lemma_turn(b: Seq<u8>, k: int, n: int, d: int, m: int, es: u8, extra: u8)
    requires
        0 <= k < b.len(), b.last() != 0, n > 0, d >= 1, hi7(n, d) == 0, 0 <= m <= d,
        state7(b, k, n, m, es, extra),
    ensures
        m < d,
        es == 7 ==> m + 1 < d && (extra | 128u8) == 128 + dig7(n, m) && turned(b, k, n, m + 1, 0, 0, d),
        es < 7 ==> turned(b, k, n, m, es, extra, d),
{
    reveal(state7);
    lemma2_to64();
    let rest = le_val(b.skip(k));
    lemma_le_pos(b.skip(k));
    let p = pow2(es as nat) as int;
    lemma_pow2_pos(es as nat);
    assert(p * rest > 0) by (nonlinear_arith) requires p > 0, rest > 0;
    if m == d { assert(false); }
    lemma_hi_next(n, m);
    lemma_hi_next(n, m + 1);
    assert(b.skip(k).skip(1) =~= b.skip(k + 1));
    let r1 = le_val(b.skip(k + 1));
    if k + 1 < b.len() { lemma_le_pos(b.skip(k + 1)); }
    assert(r1 >= 0);
    if es == 7 {
        assert(p * rest == 128 * rest) by (nonlinear_arith) requires p == 128;
        assert(hi7(n, m + 1) == rest);
        assert((extra | 128u8) == add(128, extra)) by (bit_vector) requires extra < 128;
        if m + 1 == d { assert(false); }
        lemma_octet(0, 0, b[k], r1, rest);
    } else {
        lemma_octet(es, extra, b[k], r1, hi7(n, m));
    }
    let e2 = if es == 7 { 0u8 } else { es };
    lemma_pow2_pos((e2 + 1) as nat);
    if r1 > 0 { let p2 = pow2((e2 + 1) as nat) as int; assert(p2 * r1 > 0) by (nonlinear_arith) requires p2 > 0, r1 > 0; }
}
/// extra holds the es bits of b that are above the m digits of n already written and below octet k
#[verifier::opaque]
pub open spec fn state7(b: Seq<u8>, k: int, n: int, m: int, es: u8, extra: u8) -> bool {
    es <= 7 && extra < pow2(es as nat) && hi7(n, m) == extra + pow2(es as nat) * le_val(b.skip(k))
}
pub open spec fn turned(b: Seq<u8>, k: int, n: int, m: int, es: u8, extra: u8, d: int) -> bool {
    let byte = b[k];
    let c = byte >> ((7 - es) as u8);
    &&& ((byte << es) | extra) | 128u8 == 128 + dig7(n, m)
    &&& state7(b, k + 1, n, m + 1, (es + 1) as u8, c)
    &&& m + 1 == d ==> k + 1 == b.len()
}
/// after the inner loop: what is left is one more digit, or nothing
pub proof fn lemma_left(b: Seq<u8>, n: int, d: int, m: int, es: u8, extra: u8)
    requires n > 0, d >= 1, hi7(n, d) == 0, hi7(n, d - 1) > 0, 0 <= m < d, state7(b, b.len() as int, n, m, es, extra)
    ensures m == d - 1, (extra | 128u8) == 128 + dig7(n, m)
{
    reveal(state7);
    assert(b.skip(b.len() as int).len() == 0);
    assert(pow2(es as nat) * 0 == 0);
    lemma2_to64();
    lemma_hi_next(n, m);
    if es < 7 { lemma_pow2_strictly_increases(es as nat, 7); }
    assert(extra < 128);
    if m < d - 1 { lemma_hi_zero(n, m + 1, d - 1); assert(false); }
    assert((extra | 128u8) == add(128, extra)) by (bit_vector) requires extra < 128;
}
pub proof fn lemma_start(b: Seq<u8>, n: int)
    requires n == le_val(b), n >= 0
    ensures state7(b, 0, n, 0, 0, 0)
{
    reveal(state7);
    lemma2_to64();
    lemma_hi_next(n, 0);
    assert(b.skip(0) =~= b);
}
// assumed: core / alloc
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut() -> T> [Vec::<T, A>::resize_with] (v: &mut Vec<T, A>, n: usize, f: F)
    ensures final(v)@.len() == n, forall|k: int| 0 <= k < n && k < old(v)@.len() ==> final(v)@[k] == old(v)@[k];
} // verus!
}
