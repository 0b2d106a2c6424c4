
// ======================================================================== integers and bit strings
pub mod vint {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
/// contents octets without redundant leading zero octets
pub open spec fn rz(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 1 && s[0] == 0 { rz(s.skip(1)) } else { s } }
pub open spec fn rep(b: u8, n: nat) -> Seq<u8> { Seq::new(n, |k: int| b) }
pub open spec fn neg(s: Seq<u8>) -> bool { s.len() > 0 && s[0] >= 0x80 }
/// slices do not span more than 2^60 bytes
pub open spec fn len_ok(s: Seq<u8>) -> bool { s.len() < 0x1000_0000_0000_0000 }

pub broadcast proof fn lemma_be_snoc(s: Seq<u8>, b: u8)
    ensures #[trigger] be(s.push(b)) == be(s) * 256 + b
{ assert(s.push(b).drop_last() =~= s); }
pub proof fn lemma_be_concat(a: Seq<u8>, b: Seq<u8>)
    ensures be(a + b) == be(a) * pow256(b.len()) + be(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_be_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        let (x, p) = (be(a), pow256((b.len() - 1) as nat));
        assert((x * p + be(b.drop_last())) * 256 + b.last() == x * (256 * p) + (be(b.drop_last()) * 256 + b.last())) by (nonlinear_arith);
    }
}
pub broadcast proof fn lemma_be_bound(s: Seq<u8>)
    ensures 0 <= #[trigger] be(s) < pow256(s.len())
    decreases s.len()
{ if s.len() > 0 { lemma_be_bound(s.drop_last()); } }
pub proof fn lemma_pow256_pos(n: nat) ensures pow256(n) >= 1 decreases n
{ if n > 0 { lemma_pow256_pos((n - 1) as nat); } }
pub proof fn lemma_pow256_add(a: nat, b: nat)
    ensures pow256(a + b) == pow256(a) * pow256(b)
    decreases a
{
    if a > 0 {
        lemma_pow256_add((a - 1) as nat, b);
        let (x, y) = (pow256((a - 1) as nat), pow256(b));
        assert(256 * (x * y) == (256 * x) * y) by (nonlinear_arith);
    }
}
pub proof fn lemma_pow256_mono(a: nat, b: nat)
    requires a <= b
    ensures pow256(a) <= pow256(b)
    decreases b
{ if a < b { lemma_pow256_mono(a, (b - 1) as nat); lemma_pow256_pos((b - 1) as nat); } }
pub proof fn lemma_pow256_vals()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000, pow256(5) == 0x100_0000_0000,
        pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
{ reveal_with_fuel(pow256, 10); }
/// the most significant octet decides the size
pub proof fn lemma_be_first(s: Seq<u8>)
    requires s.len() > 0
    ensures be(s) == s[0] * pow256((s.len() - 1) as nat) + be(s.skip(1))
{
    assert(s =~= seq![s[0]] + s.skip(1));
    lemma_be_concat(seq![s[0]], s.skip(1));
    assert(be(seq![s[0]]) == s[0]) by { reveal_with_fuel(be, 2); assert(seq![s[0]].drop_last() =~= Seq::<u8>::empty()); }
}
pub broadcast proof fn lemma_rz(s: Seq<u8>)
    ensures
        be(#[trigger] rz(s)) == be(s), rz(s).len() <= s.len(), rz(s).len() > 1 ==> rz(s)[0] != 0,
        s.len() > 0 ==> rz(s).len() > 0, s.len() > 0 && s[0] != 0 ==> rz(s) == s,
    decreases s.len()
{
    if s.len() > 1 && s[0] == 0 {
        lemma_rz(s.skip(1));
        lemma_be_first(s);
        assert(0 * pow256((s.len() - 1) as nat) == 0) by (nonlinear_arith);
    }
}
/// stripped contents of more than n octets do not fit n octets, others do
pub proof fn lemma_rz_fits(s: Seq<u8>, n: nat)
    requires n >= 1
    ensures rz(s).len() > n <==> be(s) >= pow256(n)
{
    let t = rz(s);
    lemma_rz(s);
    lemma_be_bound(t);
    if t.len() > n {
        lemma_be_first(t);
        lemma_be_bound(t.skip(1));
        let p = pow256((t.len() - 1) as nat);
        lemma_pow256_pos((t.len() - 1) as nat);
        assert(t[0] * p >= p) by (nonlinear_arith) requires t[0] >= 1, p >= 1;
        lemma_pow256_mono(n, (t.len() - 1) as nat);
    } else {
        lemma_pow256_mono(t.len(), n);
    }
}
pub proof fn lemma_be_rep0(n: nat) ensures be(rep(0, n)) == 0 decreases n
{ if n > 0 { lemma_be_rep0((n - 1) as nat); assert(rep(0, n).drop_last() =~= rep(0, (n - 1) as nat)); } }
pub proof fn lemma_be_repff(n: nat) ensures be(rep(0xff, n)) == pow256(n) - 1 decreases n
{ if n > 0 { lemma_be_repff((n - 1) as nat); assert(rep(0xff, n).drop_last() =~= rep(0xff, (n - 1) as nat)); } }
pub broadcast proof fn lemma_pad0(n: nat, t: Seq<u8>)
    ensures be(#[trigger] (rep(0, n) + t)) == be(t)
{ lemma_be_rep0(n); lemma_be_concat(rep(0, n), t); assert(0 * pow256(t.len()) == 0) by (nonlinear_arith); }
pub broadcast proof fn lemma_padff(n: nat, t: Seq<u8>)
    requires t.len() > 0, t[0] >= 0x80
    ensures be_signed(#[trigger] (rep(0xff, n) + t)) == be_signed(t)
{
    let u = rep(0xff, n) + t;
    lemma_be_repff(n);
    lemma_be_concat(rep(0xff, n), t);
    lemma_pow256_add(n, t.len());
    assert((pow256(n) - 1) * pow256(t.len()) == pow256(n) * pow256(t.len()) - pow256(t.len())) by (nonlinear_arith);
    assert(u[0] >= 0x80) by { if n > 0 { assert(u[0] == rep(0xff, n)[0]); } else { assert(u =~= t); } }
}
pub broadcast proof fn lemma_pad0a(a: Seq<u8>, t: Seq<u8>)
    requires forall|k: int| 0 <= k < a.len() ==> a[k] == 0
    ensures be(#[trigger] (a + t)) == be(t)
{ assert(a =~= rep(0, a.len())); lemma_pad0(a.len(), t); }
/// how big a negative number of n octets is
pub proof fn lemma_neg_range(s: Seq<u8>)
    requires s.len() > 0
    ensures
        neg(s) ==> 2 * be(s) >= pow256(s.len()),
        !neg(s) ==> 2 * be(s) < pow256(s.len()),
{
    lemma_be_first(s);
    lemma_be_bound(s.skip(1));
    let p = pow256((s.len() - 1) as nat);
    lemma_pow256_pos((s.len() - 1) as nat);
    let x = s[0] as int;
    assert(x >= 128 ==> 2 * (x * p) >= 256 * p) by (nonlinear_arith) requires p >= 1;
    assert(x <= 127 ==> 2 * (x * p) + 2 * p <= 256 * p) by (nonlinear_arith) requires p >= 1;
}
pub open spec fn i32_val(s: Seq<u8>) -> DR<i32> {
    if neg(s) { if s.len() > 4 { DR::Err(EK::TooLarge) } else { DR::Ok(be_signed(s) as i32) } }
    else if be(s) <= i32::MAX { DR::Ok(be(s) as i32) } else { DR::Err(EK::TooLarge) }
}
pub open spec fn i64_val(s: Seq<u8>) -> DR<i64> {
    if neg(s) { if s.len() > 8 { DR::Err(EK::TooLarge) } else { DR::Ok(be_signed(s) as i64) } }
    else if be(s) <= i64::MAX { DR::Ok(be(s) as i64) } else { DR::Err(EK::TooLarge) }
}
pub open spec fn u32_val(s: Seq<u8>) -> DR<u32> { if neg(s) { DR::Err(EK::Negative) } else if be(s) > u32::MAX { DR::Err(EK::TooLarge) } else { DR::Ok(be(s) as u32) } }
pub open spec fn u64_val(s: Seq<u8>) -> DR<u64> { if neg(s) { DR::Err(EK::Negative) } else if be(s) > u64::MAX { DR::Err(EK::TooLarge) } else { DR::Ok(be(s) as u64) } }
pub open spec fn drq<T>(r: core::result::Result<T, Error>, p: DR<T>) -> bool {
    match r { Ok(x) => p == DR::Ok(x), Err(e) => p == DR::<T>::Err(ek(e)) }
}
/// the casts in *_val do not lose anything: C08
pub proof fn lemma_int_vals_exact(s: Seq<u8>)
    ensures
        i32_val(s) is Ok ==> i32_val(s)->Ok_0 == be_signed(s),
        i64_val(s) is Ok ==> i64_val(s)->Ok_0 == be_signed(s),
        u32_val(s) is Ok ==> u32_val(s)->Ok_0 == be_signed(s),
        u64_val(s) is Ok ==> u64_val(s)->Ok_0 == be_signed(s),
{
    lemma_be_bound(s);
    lemma_pow256_vals();
    if s.len() > 0 {
        lemma_neg_range(s);
        if s.len() <= 8 { lemma_pow256_mono(s.len(), 8); }
        if s.len() <= 4 { lemma_pow256_mono(s.len(), 4); }
    }
}
// ---- bit strings
pub open spec fn bits_val(pad: nat, s: Seq<u8>) -> DR<u64> {
    if 8 * s.len() < pad { DR::Err(EK::Other) } else if 8 * s.len() - pad > 64 { DR::Err(EK::TooLarge) } else { DR::Ok((be(s) / (pow2(pad) as int)) as u64) }
}
pub open spec fn bits_u64(pad: nat, s: Seq<u8>) -> DR<u64> { bits_val(pad, s) }
pub open spec fn bits_u32(pad: nat, s: Seq<u8>) -> DR<u32> {
    match bits_val(pad, s) { DR::Ok(v) => if v <= u32::MAX { DR::Ok(v as u32) } else { DR::Err(EK::TooLarge) }, DR::Err(e) => DR::Err(e) }
}
pub open spec fn bit_at(s: Seq<u8>, n: int) -> bool { 0 <= n && n / 8 < s.len() && (s[n / 8] as int / pow2((7 - n % 8) as nat) as int) % 2 == 1 }
pub proof fn lemma_pow2_256(n: nat)
    ensures pow2(8 * n) == pow256(n)
    decreases n
{
    if n == 0 { lemma2_to64(); } else { lemma_pow2_256((n - 1) as nat); lemma2_to64(); lemma_pow2_adds(8, (8 * (n - 1)) as nat); }
}
/// dropping whole octets and then the remaining bits is dropping the bits
pub proof fn lemma_bits_prefix(pad: nat, s: Seq<u8>)
    requires pad <= 8 * s.len()
    ensures be(s) / (pow2(pad) as int) == be(s.take(s.len() - pad / 8)) / (pow2(pad % 8) as int)
{
    let q = (pad / 8) as nat;
    let m = s.len() - q;
    let (a, b) = (s.take(m), s.skip(m));
    assert(s =~= a + b);
    lemma_be_concat(a, b);
    lemma_be_bound(b);
    lemma_pow2_256(q);
    lemma_pow2_adds(8 * q, pad % 8);
    assert(8 * q + pad % 8 == pad);
    lemma_pow2_pos(8 * q);
    lemma_pow2_pos(pad % 8);
    let (x, y, p, r) = (be(a), be(b), pow256(q), pow2(pad % 8) as int);
    lemma_be_bound(a);
    assert((x * p + y) / p == x) by { lemma_fundamental_div_mod_converse(x * p + y, p, x, y); }
    lemma_div_denominator(x * p + y, p, r);
    assert(be(s) / (p * r) == x / r);
}
/// at most 64 bits remain
pub proof fn lemma_bits_fit(pad: nat, s: Seq<u8>)
    requires pad <= 8 * s.len(), 8 * s.len() - pad <= 64
    ensures 0 <= be(s) / (pow2(pad) as int) <= u64::MAX
{
    lemma_be_bound(s);
    lemma_pow2_256(s.len());
    lemma_pow2_adds(pad, (8 * s.len() - pad) as nat);
    lemma_pow2_pos(pad);
    let k = (8 * s.len() - pad) as nat;
    if k < 64 { lemma_pow2_strictly_increases(k, 64); }
    lemma2_to64_rest();
    lemma_pow2_pos(k);
    let (d, e, v) = (pow2(pad) as int, pow2(k) as int, be(s));
    assert(v < d * e);
    lemma_div_pos_is_pos(v, d);
    assert(v / d < e) by { lemma_multiply_divide_lt(v, d, e); }
}
pub broadcast proof fn lemma_push_octet(x: u64, c: u8)
    requires x < 0x100_0000_0000_0000
    ensures #[trigger] ((x << 8u64) | (c as u64)) == x * 256 + c
{
    let d = c as u64;
    assert(d < 256 && x < 0x100_0000_0000_0000u64 ==> ((x << 8u64) | d) == x * 256 + d) by (bit_vector);
}
pub broadcast proof fn lemma_shl8(x: u64)
    requires x < 0x100_0000_0000_0000
    ensures #[trigger] (x << 8u64) == x * 256
{ assert(x < 0x100_0000_0000_0000u64 ==> (x << 8u64) == x * 256) by (bit_vector); }
pub broadcast proof fn lemma_or_octet(y: u64, c: u8)
    requires y % 256 == 0
    ensures #[trigger] (y | (c as u64)) == y + c
{
    let d = c as u64;
    assert(d < 256 && y % 256 == 0 ==> (y | d) == y + d) by (bit_vector);
}
pub broadcast proof fn lemma_shr_div(x: u64, p: u64)
    requires p < 8
    ensures #[trigger] (x >> p) as int == x as int / (pow2(p as nat) as int)
{ vstd::bits::lemma_u64_shr_is_div(x, p); }
pub broadcast proof fn lemma_bit_test(x: u8, b: usize)
    requires b < 8
    ensures (#[trigger] (x & (1u8 << b)) != 0) == ((x as int / pow2(b as nat) as int) % 2 == 1)
{
    lemma2_to64();
    assert((x & (1u8 << 0usize) != 0) == ((x / 1) % 2 == 1)) by (bit_vector);
    assert((x & (1u8 << 1usize) != 0) == ((x / 2) % 2 == 1)) by (bit_vector);
    assert((x & (1u8 << 2usize) != 0) == ((x / 4) % 2 == 1)) by (bit_vector);
    assert((x & (1u8 << 3usize) != 0) == ((x / 8) % 2 == 1)) by (bit_vector);
    assert((x & (1u8 << 4usize) != 0) == ((x / 16) % 2 == 1)) by (bit_vector);
    assert((x & (1u8 << 5usize) != 0) == ((x / 32) % 2 == 1)) by (bit_vector);
    assert((x & (1u8 << 6usize) != 0) == ((x / 64) % 2 == 1)) by (bit_vector);
    assert((x & (1u8 << 7usize) != 0) == ((x / 128) % 2 == 1)) by (bit_vector);
}
pub broadcast proof fn lemma_high_bit(b: u8)
    ensures ((#[trigger] (b & 0x80)) != 0) == (b >= 0x80)
{ assert((b & 0x80 != 0) == (b >= 0x80)) by (bit_vector); }
pub broadcast proof fn lemma_low7(b: u8)
    ensures #[trigger] (b & 0x7f) == b % 128
{ assert((b & 0x7f) == b % 128) by (bit_vector); }
pub broadcast proof fn lemma_low1(b: u8)
    ensures #[trigger] (b & 1) == b % 2
{ assert((b & 1) == b % 2) by (bit_vector); }
pub broadcast proof fn lemma_shr_u8(x: u8, b: usize)
    requires b < 8
    ensures #[trigger] (x >> b) as int == x as int / pow2(b as nat) as int
{
    lemma2_to64();
    assert((x >> 0usize) == x / 1 && (x >> 1usize) == x / 2 && (x >> 2usize) == x / 4 && (x >> 3usize) == x / 8
        && (x >> 4usize) == x / 16 && (x >> 5usize) == x / 32 && (x >> 6usize) == x / 64 && (x >> 7usize) == x / 128) by (bit_vector);
}
pub broadcast proof fn lemma_80_shr(k: usize)
    requires k < 8
    ensures #[trigger] (0x80u8 >> k) == 1u8 << ((7 - k) as usize)
{ assert(k < 8 ==> (0x80u8 >> k) == 1u8 << ((7 - k) as usize)) by (bit_vector); }
/// facts about bit operations on octets, available in every module (the contracts do not depend on how a bit is tested)
pub broadcast group group_bits { lemma_high_bit, lemma_low7, lemma_low1, lemma_shr_u8, lemma_80_shr, lemma_bit_test }
pub broadcast group group_int { lemma_rz, lemma_pad0a, lemma_padff, lemma_high_bit, lemma_be_bound, lemma_skip0 }
} // verus!
}
