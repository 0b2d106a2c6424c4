// Prelude of the generated Verus crate: models of the dependencies' types, the ASSUMED
// contracts on dependency functions, and the mathematical specification (mod vspec).
#![feature(const_destruct, allocator_api)]
#![verifier::allow(undeclared_external_trait)]
#![allow(unused_imports, dead_code, non_upper_case_globals, unused_variables, non_snake_case, unused_parens,
    unused_braces, unreachable_code, unused_mut, deprecated, unused_must_use, non_camel_case_types, unused_assignments)]
extern crate alloc;
use vstd::prelude::*;
verus! { global size_of usize == 8; }

// ======================================================================== nom
pub mod nom {
use vstd::prelude::*;
use crate::vspec::*;
verus! {
pub enum Needed { Unknown, Size(usize) }
impl Needed {
    // assumed: nom::Needed::new
    #[verifier::external_body]
    pub fn new(s: usize) -> (r: Needed) { unimplemented!() }
}
pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
impl<E> Err<E> {
    // assumed: nom::Err::convert (maps the payload with From, keeps the kind)
    #[verifier::external_body]
    pub fn convert<F>(e: Err<F>) -> (r: Self) where E: From<F>
        ensures
            e is Incomplete ==> r is Incomplete,
            forall|x: F| e == Err::Error(x) ==> r is Error && call_ensures(<E as From<F>>::from, (x,), r->Error_0),
            forall|x: F| e == Err::Failure(x) ==> r is Failure && call_ensures(<E as From<F>>::from, (x,), r->Failure_0),
    { unimplemented!() }
}
pub type IResult<I, O, E> = Result<(I, O), Err<E>>;
pub trait Offset {
    spec fn off_view(&self) -> Seq<u8>;
    fn offset(&self, second: &Self) -> (r: usize)
        requires is_suffix(second.off_view(), self.off_view())
        ensures r == self.off_view().len() - second.off_view().len();
}
impl Offset for [u8] {
    open spec fn off_view(&self) -> Seq<u8> { self@ }
    // assumed: pointer difference of two slices of the same buffer
    #[verifier::external_body]
    fn offset(&self, second: &Self) -> (r: usize) { unimplemented!() }
}
} // verus!
pub mod error {
    use vstd::prelude::*;
    verus! {
    pub enum ErrorKind { Eof, Other }
    pub trait ParseError<I>: Sized { fn from_error_kind(input: I, kind: ErrorKind) -> Self; }
    }
}
pub mod bytes {
    pub mod streaming {
        use vstd::prelude::*;
        use crate::nom::*;
        use crate::vspec::*;
        verus! {
        // assumed: nom::bytes::streaming::take on &[u8]
        #[verifier::external_body]
        pub fn take<'a, C: crate::shim::VpUsize, E: crate::nom::error::ParseError<&'a [u8]>>(count: C) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8], E>)
            ensures
                forall|i: &'a [u8]| f.requires((i,)),
                forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8], E>| #[trigger] f.ensures((i,), r) ==>
                    if i@.len() < count.us() { r is Err && r->Err_0 is Incomplete }
                    else { r is Ok && r->Ok_0.0@ == i@.skip(count.us()) && r->Ok_0.1@ == i@.take(count.us()) },
        { |i: &'a [u8]| unimplemented!() }
        }
    }
    pub mod complete {
        use vstd::prelude::*;
        use crate::nom::*;
        use crate::vspec::*;
        verus! {
        // assumed: nom::bytes::complete::take on &[u8]
        #[verifier::external_body]
        pub fn take<'a, C: crate::shim::VpUsize, E: crate::nom::error::ParseError<&'a [u8]>>(count: C) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8], E>)
            ensures
                forall|i: &'a [u8]| f.requires((i,)),
                forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8], E>| #[trigger] f.ensures((i,), r) ==>
                    if i@.len() < count.us() { r is Err && r->Err_0 is Error }
                    else { r is Ok && r->Ok_0.0@ == i@.skip(count.us()) && r->Ok_0.1@ == i@.take(count.us()) },
        { |i: &'a [u8]| unimplemented!() }
        }
    }
}
pub mod number { pub mod streaming {
    use vstd::prelude::*;
    use crate::nom::*;
    verus! {
    // assumed: nom::number::streaming::be_u8
    #[verifier::external_body]
    pub fn be_u8<'a, E: crate::nom::error::ParseError<&'a [u8]>>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8, E>)
        ensures
            i@.len() == 0 ==> r is Err && r->Err_0 is Incomplete,
            i@.len() > 0 ==> r is Ok && r->Ok_0.0@ == i@.skip(1) && r->Ok_0.1 == i@[0],
    { unimplemented!() }
    }
} }
pub mod combinator {
    use vstd::prelude::*;
    use crate::nom::*;
    use crate::nom::error::{ErrorKind, ParseError};
    use crate::vspec::*;
    verus! {
    // the bodies below are those of nom 7 (combinator/mod.rs), with FnMut as Fn
    pub fn map<'a, O1, O2, E, F, G>(parser: F, f: G) -> (r: impl Fn(&'a [u8]) -> IResult<&'a [u8], O2, E>)
        where F: Fn(&'a [u8]) -> IResult<&'a [u8], O1, E>, G: Fn(O1) -> O2,
        requires forall|o: O1| #[trigger] f.requires((o,)),
        ensures
            forall|i: &'a [u8]| parser.requires((i,)) ==> #[trigger] r.requires((i,)),
            forall|i: &'a [u8], x: IResult<&'a [u8], O2, E>| #[trigger] r.ensures((i,), x) ==> map_ok(parser, f, i, x),
    {
        move |input: &'a [u8]| -> (x: IResult<&'a [u8], O2, E>)
            requires parser.requires((input,)),
            ensures map_ok(parser, f, input, x),
        {
            match parser(input) { Ok((input, o1)) => Ok((input, f(o1))), Result::Err(e) => Result::Err(e) }
        }
    }
    pub open spec fn map_ok<'a, O1, O2, E, F, G>(parser: F, f: G, i: &'a [u8], x: IResult<&'a [u8], O2, E>) -> bool
        where F: Fn(&'a [u8]) -> IResult<&'a [u8], O1, E>, G: Fn(O1) -> O2
    {
        exists|y: IResult<&'a [u8], O1, E>| #[trigger] parser.ensures((i,), y) && match y {
            Ok(p) => x is Ok && x->Ok_0.0 == p.0 && f.ensures((p.1,), x->Ok_0.1),
            Result::Err(e) => x == Result::<(&'a [u8], O2), Err<E>>::Err(e),
        }
    }
    /// every success of g is a success of f
    pub open spec fn refines<'a, O, E, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>, G: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(g: G, f: F) -> bool {
        forall|i: &'a [u8], z: (&'a [u8], O)| #[trigger] g.ensures((i,), Ok(z)) ==> f.ensures((i,), Ok(z))
    }
    pub open spec fn complete_res<O, E>(x: IResult<&[u8], O, E>, y: IResult<&[u8], O, E>) -> bool {
        if y is Err && y->Err_0 is Incomplete { x is Err && x->Err_0 is Error } else { x == y }
    }
    pub fn complete<'a, O, E: ParseError<&'a [u8]>, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F) -> (r: impl Fn(&'a [u8]) -> IResult<&'a [u8], O, E>)
        ensures
            forall|i: &'a [u8]| f.requires((i,)) ==> #[trigger] r.requires((i,)),
            forall|i: &'a [u8], x: IResult<&'a [u8], O, E>| #[trigger] r.ensures((i,), x) ==>
                exists|y: IResult<&'a [u8], O, E>| #[trigger] f.ensures((i,), y) && complete_res(x, y),
            refines(r, f),
    {
        move |input: &'a [u8]| -> (x: IResult<&'a [u8], O, E>)
            requires f.requires((input,)),
            ensures exists|y: IResult<&'a [u8], O, E>| #[trigger] f.ensures((input,), y) && complete_res(x, y),
        {
            match f(input) {
                Result::Err(Err::Incomplete(_)) => Result::Err(Err::Error(E::from_error_kind(input, ErrorKind::Other))),
                rest => rest,
            }
        }
    }
    pub open spec fn cut_res<O, E>(x: IResult<&[u8], O, E>, y: IResult<&[u8], O, E>) -> bool {
        if y is Err && y->Err_0 is Error { x is Err && x->Err_0 is Failure && x->Err_0->Failure_0 == y->Err_0->Error_0 } else { x == y }
    }
    pub fn cut<'a, O, E: ParseError<&'a [u8]>, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(parser: F) -> (r: impl Fn(&'a [u8]) -> IResult<&'a [u8], O, E>)
        ensures
            forall|i: &'a [u8]| parser.requires((i,)) ==> #[trigger] r.requires((i,)),
            forall|i: &'a [u8], x: IResult<&'a [u8], O, E>| #[trigger] r.ensures((i,), x) ==>
                exists|y: IResult<&'a [u8], O, E>| #[trigger] parser.ensures((i,), y) && cut_res(x, y),
            refines(r, parser),
    {
        move |input: &'a [u8]| -> (x: IResult<&'a [u8], O, E>)
            requires parser.requires((input,)),
            ensures exists|y: IResult<&'a [u8], O, E>| #[trigger] parser.ensures((input,), y) && cut_res(x, y),
        {
            match parser(input) {
                Result::Err(Err::Error(e)) => Result::Err(Err::Failure(e)),
                rest => rest,
            }
        }
    }
    pub open spec fn all_res<O, E>(x: IResult<&[u8], O, E>, y: IResult<&[u8], O, E>) -> bool {
        if y is Ok && y->Ok_0.0@.len() > 0 { x is Err && x->Err_0 is Error } else { x == y }
    }
    pub fn all_consuming<'a, O, E: ParseError<&'a [u8]>, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F) -> (r: impl Fn(&'a [u8]) -> IResult<&'a [u8], O, E>)
        ensures
            forall|i: &'a [u8]| f.requires((i,)) ==> #[trigger] r.requires((i,)),
            forall|i: &'a [u8], x: IResult<&'a [u8], O, E>| #[trigger] r.ensures((i,), x) ==>
                exists|y: IResult<&'a [u8], O, E>| #[trigger] f.ensures((i,), y) && all_res(x, y),
    {
        move |input: &'a [u8]| -> (x: IResult<&'a [u8], O, E>)
            requires f.requires((input,)),
            ensures exists|y: IResult<&'a [u8], O, E>| #[trigger] f.ensures((input,), y) && all_res(x, y),
        {
            match f(input) {
                Ok((input, res)) => if input.len() == 0 { Ok((input, res)) } else { Result::Err(Err::Error(E::from_error_kind(input, ErrorKind::Eof))) },
                Result::Err(e) => Result::Err(e),
            }
        }
    }
    }
}
pub mod multi {
    use vstd::prelude::*;
    use crate::nom::*;
    use crate::nom::error::{ErrorKind, ParseError};
    use crate::vspec::*;
    use alloc::vec::Vec;
    verus! {
    /// `n` successful applications of f, each consuming something
    pub open spec fn many_run<'a, O, E, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F, ins: Seq<&'a [u8]>, outs: Seq<O>) -> bool {
        ins.len() == outs.len() + 1 && forall|k: int| 0 <= k < outs.len() ==> #[trigger] f.ensures((ins[k],), Ok((ins[k + 1], outs[k]))) && ins[k + 1]@.len() < ins[k]@.len()
    }
    pub open spec fn many_end<'a, O, E>(x: IResult<&'a [u8], Vec<O>, E>, i: &'a [u8], outs: Seq<O>, y: IResult<&'a [u8], O, E>) -> bool {
        match y {
            Result::Err(Err::Error(_)) => x is Ok && x->Ok_0.0 == i && x->Ok_0.1@ == outs,
            Result::Err(e) => x == Result::<(&'a [u8], Vec<O>), Err<E>>::Err(e),
            Ok(p) => p.0@.len() >= i@.len() && x is Err && x->Err_0 is Error,
        }
    }
    pub open spec fn many_ok<'a, O, E, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F, i: &'a [u8], x: IResult<&'a [u8], Vec<O>, E>) -> bool {
        exists|ins: Seq<&'a [u8]>, outs: Seq<O>, y: IResult<&'a [u8], O, E>| #[trigger] many_run(f, ins, outs) && ins[0] == i && #[trigger] f.ensures((ins.last(),), y) && many_end(x, ins.last(), outs, y)
    }
    pub broadcast proof fn lemma_many_run<'a, O, E, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>, G: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(g: G, f: F, ins: Seq<&'a [u8]>, outs: Seq<O>)
        requires #[trigger] crate::nom::combinator::refines::<'a, O, E, F, G>(g, f), #[trigger] many_run::<'a, O, E, G>(g, ins, outs)
        ensures many_run::<'a, O, E, F>(f, ins, outs)
    {
        assert forall|k: int| 0 <= k < outs.len() implies #[trigger] f.ensures((ins[k],), Ok((ins[k + 1], outs[k]))) && ins[k + 1]@.len() < ins[k]@.len() by {
            assert(g.ensures((ins[k],), Ok((ins[k + 1], outs[k]))));
        }
    }
    // nom 7 (multi/mod.rs); a parser that grows its input is treated as one that consumes nothing
    pub fn many0<'a, O, E: ParseError<&'a [u8]>, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F) -> (r: impl Fn(&'a [u8]) -> IResult<&'a [u8], Vec<O>, E>)
        ensures
            (forall|i: &'a [u8]| f.requires((i,))) ==> forall|i: &'a [u8]| #[trigger] r.requires((i,)),
            forall|i: &'a [u8], x: IResult<&'a [u8], Vec<O>, E>| #[trigger] r.ensures((i,), x) ==> many_ok(f, i, x),
    {
        move |i0: &'a [u8]| -> (x: IResult<&'a [u8], Vec<O>, E>)
            requires forall|i: &'a [u8]| f.requires((i,)),
            ensures many_ok(f, i0, x),
        {
            let mut i = i0;
            let mut acc: Vec<O> = Vec::new();
            let ghost mut ins: Seq<&'a [u8]> = seq![i];
            loop
                invariant
                    forall|i: &'a [u8]| f.requires((i,)),
                    many_run(f, ins, acc@), ins[0] == i0, ins.last() == i,
                decreases i@.len(),
            {
                let len = i.len();
                match f(i) {
                    Result::Err(Err::Error(_)) => return Ok((i, acc)),
                    Result::Err(e) => return Result::Err(e),
                    Ok((i1, o)) => {
                        if i1.len() >= len { return Result::Err(Err::Error(E::from_error_kind(i, ErrorKind::Other))); }
                        i = i1;
                        proof { ins = ins.push(i1); }
                        acc.push(o);
                    }
                }
            }
        }
    }
    }
}
}

// ======================================================================== shims for std
pub mod shim {
use vstd::prelude::*;
use crate::vspec::*;
use alloc::vec::Vec;
use alloc::boxed::Box;
use alloc::string::String;
verus! {
pub trait VpUsize: Copy { spec fn us(&self) -> int; }
impl VpUsize for usize { open spec fn us(&self) -> int { *self as int } }
impl VpUsize for u8 { open spec fn us(&self) -> int { *self as int } }
impl VpUsize for u16 { open spec fn us(&self) -> int { *self as int } }

/// a panic by which a function refuses its arguments (only where its contract says so: section panics:)
#[verifier::external_body]
pub fn vp_refuse(allowed: Ghost<bool>) -> !
    requires allowed@,
{ panic!() }
/// every panicking path of the code: reaching it is a failed obligation
#[verifier::external_body]
pub fn vp_panic(m: &str) -> !
    requires false,
{ panic!() }
#[verifier::external_body]
pub fn vp_format_opaque() -> String { unimplemented!() }
pub struct Utf8Error;
pub struct FromUtf16Error;
// assumed: core::str::from_utf8 accepts exactly valid UTF-8 and keeps the bytes
#[verifier::external_body]
pub fn vp_from_utf8<'a>(v: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures r is Ok <==> utf8_ok(v@), r is Ok ==> sbytes(r->Ok_0) == v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_from_utf16(v: &[u16]) -> (r: Result<String, FromUtf16Error>)
    ensures r is Ok <==> utf16_ok(v@),
{ unimplemented!() }
// assumed: integer from_be_bytes (two's complement, big endian)
#[verifier::external_body]
pub fn vp_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == be(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == be(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_i32_from_be_bytes(b: [u8; 4]) -> (r: i32) ensures r == be_signed(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_i64_from_be_bytes(b: [u8; 8]) -> (r: i64) ensures r == be_signed(b@) { unimplemented!() }
// assumed: core::result
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (r: Result<T, E>, f: F) -> (x: Result<U, E>)
    where F: core::marker::Destruct,
    requires r is Ok ==> f.requires((r->Ok_0,)),
    ensures match r { Ok(t) => f.ensures((t,), x), Err(e) => x == Err::<U, E>(e) };
// assumed: <[T]>::copy_from_slice on the tail of an array (T16); panics if the lengths differ
#[verifier::external_body]
pub fn vp_copy_tail<const N: usize>(x: &mut [u8; N], lo: usize, y: &[u8])
    requires lo <= N, y@.len() == N - lo,
    ensures final(x)@ == old(x)@.take(lo as int) + y@,
{ unimplemented!() }
// ---- iterator adaptors (assumed contracts on core::iter)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpIter<T> { t: core::marker::PhantomData<T> }
impl<T> View for VpIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VpIter<T> {
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: VpIter<B>)
        requires forall|k: int| 0 <= k < self@.len() ==> f.requires((#[trigger] self@[k],)),
        ensures r@.len() == self@.len(), forall|k: int| 0 <= k < r@.len() ==> f.ensures((self@[k],), #[trigger] r@[k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VpIter<T>)
        requires forall|k: int| 0 <= k < self@.len() ==> f.requires((& #[trigger] self@[k],)),
        ensures exists|n: int| #![trigger self@.skip(n)] 0 <= n <= self@.len() && r@ == self@.skip(n)
            && (forall|k: int| 0 <= k < n ==> f.ensures((& #[trigger] self@[k],), true))
            && (n < self@.len() ==> f.ensures((&self@[n],), false)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<B: VpFromIter<T>>(self) -> (r: B) ensures B::collected(self@, r) { unimplemented!() }
}
impl<'a, T: Clone> VpIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VpIter<T>)
        ensures r@.len() == self@.len(), forall|k: int| 0 <= k < r@.len() ==> call_ensures(T::clone, (self@[k],), #[trigger] r@[k]),
    { unimplemented!() }
}
pub trait VpFromIter<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; }
impl<T> VpFromIter<T> for Vec<T> { open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s } }
/// collecting results stops at the first error
impl<T, E> VpFromIter<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(s: Seq<Result<T, E>>, r: Self) -> bool { res_collected(s, r) }
}
#[verifier::opaque]
pub open spec fn res_collected<T, E>(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == Ok::<T, E>(v@[k]),
            Err(e) => exists|n: int| 0 <= n < s.len() && #[trigger] s[n] == Err::<T, E>(e) && forall|k: int| 0 <= k < n ==> #[trigger] s[k] is Ok,
        }
}
pub trait VpIterable<T> { fn vp_iter<'a>(&'a self) -> (r: VpIter<&'a T>); fn vp_chunks_exact<'a>(&'a self, n: usize) -> (r: VpIter<&'a [T]>) requires n > 0; }
impl<T> VpIterable<T> for [T] {
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: VpIter<&'a T>)
        ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < r@.len() ==> *r@[k] == self@[k],
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_chunks_exact<'a>(&'a self, n: usize) -> (r: VpIter<&'a [T]>)
        ensures r@.len() == self@.len() / (n as nat), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == self@.subrange(n * k, n * k + n),
    { unimplemented!() }
}
// ---- as_ref (T12)
pub trait AsRef<T: ?Sized> { spec fn ar(&self, r: &T) -> bool; fn vp_as_ref(&self) -> (r: &T) ensures self.ar(r); }
impl AsRef<[u8]> for str { open spec fn ar(&self, r: &[u8]) -> bool { r@ == sbytes(self) } #[verifier::external_body] fn vp_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl AsRef<[u8]> for [u8] { open spec fn ar(&self, r: &[u8]) -> bool { r@ == self@ } fn vp_as_ref(&self) -> (r: &[u8]) { self } }
impl AsRef<[u8]> for Vec<u8> { open spec fn ar(&self, r: &[u8]) -> bool { r@ == self@ } fn vp_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl<T> AsRef<T> for Box<T> { open spec fn ar(&self, r: &T) -> bool { *r == **self } fn vp_as_ref(&self) -> (r: &T) { &**self } }
impl<'b, T: ?Sized, S: AsRef<T> + ?Sized> AsRef<T> for &'b S { open spec fn ar(&self, r: &T) -> bool { (**self).ar(r) } fn vp_as_ref(&self) -> (r: &T) { (**self).vp_as_ref() } }
pub trait VpAsMut<T: ?Sized> { fn vp_as_mut(&mut self) -> (r: &mut T); }
impl<T> VpAsMut<T> for Box<T> { fn vp_as_mut(&mut self) -> (r: &mut T) ensures *r == **old(self), **final(self) == *final(r) { &mut **self } }
pub trait VpOptBoxMut<T> { fn vp_opt_box_mut(&mut self) -> (r: Option<&mut T>); }
impl<T> VpOptBoxMut<T> for Option<Box<T>> {
    fn vp_opt_box_mut(&mut self) -> (r: Option<&mut T>)
        ensures match *old(self) { Some(b) => r is Some && *r->0 == *b && *final(self) == Some(Box::new(*final(r->0))), None => r is None && *final(self) is None }
    { match self { Some(b) => Some(&mut **b), None => None } }
}
pub trait VpOptAsRef<T> { fn vp_as_ref(&self) -> (r: Option<&T>); }
impl<T> VpOptAsRef<T> for Option<T> {
    fn vp_as_ref(&self) -> (r: Option<&T>) ensures match *self { Some(x) => r == Some(&x), None => r is None } { match self { Some(x) => Some(x), None => None } }
}
impl AsRef<[u8]> for String { open spec fn ar(&self, r: &[u8]) -> bool { r@ == strbytes(*self) } #[verifier::external_body] fn vp_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl<const N: usize> AsRef<[u8]> for [u8; N] { open spec fn ar(&self, r: &[u8]) -> bool { r@ == self@ } fn vp_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl<'a> AsRef<[u8]> for crate::ber::ber::BitStringObject<'a> { open spec fn ar(&self, r: &[u8]) -> bool { r@ == self.data@ } fn vp_as_ref(&self) -> (r: &[u8]) { self.vp_AsRef__u8__as_ref() } }
pub uninterp spec fn strbytes(s: String) -> Seq<u8>;
// assumed: format!("{}", x) is the Display text of x (T10)
#[verifier::external_body]
pub fn vp_display<T>(x: &T) -> (r: String) ensures strbytes(r) == disp(*x) { unimplemented!() }
// ---- std::io::Write and Default, as far as the serializers use them
pub trait Write: Sized { spec fn wrote(&self) -> Seq<u8>; spec fn sure() -> bool; }
impl Write for Vec<u8> { open spec fn wrote(&self) -> Seq<u8> { self@ } open spec fn sure() -> bool { true } }
pub trait Default: Sized { spec fn dv(r: Self) -> bool; fn default() -> (r: Self) ensures Self::dv(r); }
impl Default for Vec<u8> { open spec fn dv(r: Self) -> bool { r@ == Seq::<u8>::empty() } fn default() -> (r: Self) { Vec::new() } }
impl Default for u8 { open spec fn dv(r: Self) -> bool { r == 0 } fn default() -> (r: Self) { 0 } }
// assumed: to_be_bytes
pub trait VpToBe<const N: usize>: Sized { spec fn val(self) -> int; fn vp_to_be_bytes(self) -> (r: [u8; N]) ensures be(r@) == self.val(), r@.len() == N; }
impl VpToBe<8> for usize { open spec fn val(self) -> int { self as int } #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }
impl VpToBe<8> for u64 { open spec fn val(self) -> int { self as int } #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }
impl VpToBe<4> for u32 { open spec fn val(self) -> int { self as int } #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() } }
// ---- into (T12): shadows core::convert::Into inside the verified modules
pub trait Into<T>: Sized { spec fn iv(self, r: T) -> bool; fn vp_into(self) -> (r: T) ensures self.iv(r); }
impl Into<crate::asn1_rs::Tag> for crate::asn1_rs::Tag { open spec fn iv(self, r: Self) -> bool { r == self } fn vp_into(self) -> (r: Self) { self } }
impl Into<crate::asn1_rs::Tag> for u32 { open spec fn iv(self, r: crate::asn1_rs::Tag) -> bool { r.0 == self } fn vp_into(self) -> (r: crate::asn1_rs::Tag) { crate::asn1_rs::Tag(self) } }
impl Into<crate::asn1_rs::Length> for crate::asn1_rs::Length { open spec fn iv(self, r: Self) -> bool { r == self } fn vp_into(self) -> (r: Self) { self } }
impl Into<crate::asn1_rs::Length> for usize { open spec fn iv(self, r: crate::asn1_rs::Length) -> bool { r == crate::asn1_rs::Length::Definite(self) } fn vp_into(self) -> (r: crate::asn1_rs::Length) { crate::asn1_rs::Length::Definite(self) } }
impl<E: From<crate::asn1_rs::Error>> Into<E> for crate::asn1_rs::Error { open spec fn iv(self, r: E) -> bool { call_ensures(<E as From<crate::asn1_rs::Error>>::from, (self,), r) } fn vp_into(self) -> (r: E) { <E as From<crate::asn1_rs::Error>>::from(self) } }
impl<'a> Into<&'a [u8]> for &'a [u8] { open spec fn iv(self, r: Self) -> bool { r == self } fn vp_into(self) -> (r: Self) { self } }
// ---- the From conversion applied by `?` (T14)
pub trait VpFrom<T>: Sized { spec fn fv(e: T, r: Self) -> bool; fn vp_from(e: T) -> (r: Self) ensures Self::fv(e, r); }
impl<E> VpFrom<crate::nom::Err<E>> for crate::nom::Err<E> { open spec fn fv(e: Self, r: Self) -> bool { r == e } fn vp_from(e: Self) -> (r: Self) { e } }
impl VpFrom<crate::asn1_rs::Error> for crate::asn1_rs::Error { open spec fn fv(e: Self, r: Self) -> bool { r == e } fn vp_from(e: Self) -> (r: Self) { e } }
impl VpFrom<crate::asn1_rs::Error> for crate::nom::Err<crate::asn1_rs::Error> {
    open spec fn fv(e: crate::asn1_rs::Error, r: Self) -> bool { r == crate::nom::Err::Error(e) }
    fn vp_from(e: crate::asn1_rs::Error) -> (r: Self) { crate::nom::Err::Error(e) }
}
impl VpFrom<crate::nom::Err<crate::asn1_rs::Error>> for crate::asn1_rs::Error {
    open spec fn fv(e: crate::nom::Err<crate::asn1_rs::Error>, r: Self) -> bool {
        match e { crate::nom::Err::Incomplete(n) => r == crate::asn1_rs::Error::Incomplete(n), crate::nom::Err::Error(x) => r == x, crate::nom::Err::Failure(x) => r == x }
    }
    fn vp_from(e: crate::nom::Err<crate::asn1_rs::Error>) -> (r: Self) {
        match e { crate::nom::Err::Incomplete(n) => crate::asn1_rs::Error::Incomplete(n), crate::nom::Err::Error(e) => e, crate::nom::Err::Failure(e) => e }
    }
}
impl VpFrom<Utf8Error> for crate::asn1_rs::Error { open spec fn fv(e: Utf8Error, r: Self) -> bool { r is StringInvalidCharset } fn vp_from(e: Utf8Error) -> (r: Self) { crate::asn1_rs::Error::StringInvalidCharset } }
impl VpFrom<FromUtf16Error> for crate::asn1_rs::Error { open spec fn fv(e: FromUtf16Error, r: Self) -> bool { r is StringInvalidCharset } fn vp_from(e: FromUtf16Error) -> (r: Self) { crate::asn1_rs::Error::StringInvalidCharset } }
/// target of the `for x in <slice-like>` rewrite
pub trait VpSlice { type El; spec fn vs(&self) -> Seq<Self::El>; fn vp_slice(&self) -> (r: &[Self::El]) ensures r@ == self.vs(); }
impl<T> VpSlice for [T] { type El = T; open spec fn vs(&self) -> Seq<T> { self@ } fn vp_slice(&self) -> (r: &[T]) { self } }
impl<T> VpSlice for Vec<T> { type El = T; open spec fn vs(&self) -> Seq<T> { self@ } fn vp_slice(&self) -> (r: &[T]) { self.as_slice() } }
impl<'a, S: VpSlice + ?Sized> VpSlice for &'a S { type El = S::El; open spec fn vs(&self) -> Seq<S::El> { (**self).vs() } fn vp_slice(&self) -> (r: &[S::El]) { (**self).vp_slice() } }
}
}

// ======================================================================== asn1-rs
pub mod asn1_rs {
pub use core::marker::PhantomData;
use vstd::prelude::*;
use crate::vspec::*;
use crate::nom;
use alloc::string::String;
use alloc::vec::Vec;
pub use crate::nom::{Err, Needed};
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Class { Universal = 0, Application = 1, ContextSpecific = 2, Private = 3 }
impl Class {
    pub fn assert_eq(&self, class: Class) -> (r: Result<()>) ensures r is Ok <==> *self == class, r is Err ==> ek(r->Err_0) == EK::Other
    { if *self == class { Ok(()) } else { Err(Error::UnexpectedClass { expected: Some(class), actual: *self }) } /*dep: self.dep_assert_eq(class) */ }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tag(pub u32);
impl Tag {
    pub fn assert_eq(&self, tag: Tag) -> (r: Result<()>) ensures r is Ok <==> *self == tag, r is Err ==> ek(r->Err_0) == EK::Other
    { if self.0 == tag.0 { Ok(()) } else { Err(Error::UnexpectedTag { expected: Some(tag), actual: *self }) } /*dep: self.dep_assert_eq(tag) */ }
    #[verifier::external_body]
    pub fn invalid_value(&self, msg: &str) -> (r: Error) ensures ek(r) == EK::Other { unimplemented!() /*dep: self.dep_invalid_value(msg) */ }
    pub const EndOfContent: Tag = Tag(0);
    pub const Boolean: Tag = Tag(1);
    pub const Integer: Tag = Tag(2);
    pub const BitString: Tag = Tag(3);
    pub const OctetString: Tag = Tag(4);
    pub const Null: Tag = Tag(5);
    pub const Oid: Tag = Tag(6);
    pub const ObjectDescriptor: Tag = Tag(7);
    pub const External: Tag = Tag(8);
    pub const RealType: Tag = Tag(9);
    pub const Enumerated: Tag = Tag(10);
    pub const EmbeddedPdv: Tag = Tag(11);
    pub const Utf8String: Tag = Tag(12);
    pub const RelativeOid: Tag = Tag(13);
    pub const Sequence: Tag = Tag(16);
    pub const Set: Tag = Tag(17);
    pub const NumericString: Tag = Tag(18);
    pub const PrintableString: Tag = Tag(19);
    pub const T61String: Tag = Tag(20);
    pub const TeletexString: Tag = Tag(20);
    pub const VideotexString: Tag = Tag(21);
    pub const Ia5String: Tag = Tag(22);
    pub const UtcTime: Tag = Tag(23);
    pub const GeneralizedTime: Tag = Tag(24);
    pub const GraphicString: Tag = Tag(25);
    pub const VisibleString: Tag = Tag(26);
    pub const GeneralString: Tag = Tag(27);
    pub const UniversalString: Tag = Tag(28);
    pub const CharacterString: Tag = Tag(29);
    pub const BmpString: Tag = Tag(30);
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Length { Definite(usize), Indefinite }
impl Length {
    pub fn definite(&self) -> (r: Result<usize, Error>)
        ensures match *self { Length::Definite(l) => r == Ok::<usize, Error>(l), Length::Indefinite => r is Err && ek(r->Err_0) == EK::Other }
    { match self { Length::Definite(sz) => Ok(*sz), Length::Indefinite => Err(Error::IndefiniteLengthUnexpected) } /*dep: self.dep_definite() */ }
    pub fn is_definite(&self) -> (r: bool) ensures r == (*self is Definite) { match self { Length::Definite(_) => true, _ => false } /*dep: self.dep_is_definite() */ }
    pub fn assert_definite(&self) -> (r: Result<()>) ensures r is Ok <==> *self is Definite, r is Err ==> ek(r->Err_0) == EK::Other
    { match self { Length::Definite(_) => Ok(()), Length::Indefinite => Err(Error::IndefiniteLengthUnexpected) } /*dep: self.dep_assert_definite() */ }
    pub fn is_null(&self) -> (r: bool) ensures r == (*self == Length::Definite(0)) { match self { Length::Definite(l) => *l == 0, _ => false } /*dep: self.dep_is_null() */ }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum DerConstraint {
    IndefiniteLength, Constructed, NotConstructed, MissingTimeZone, MissingSeconds, UnusedBitsNotZero,
    InvalidBoolean, IntegerEmpty, IntegerLeadingZeroes, IntegerLeadingFF,
}
#[allow(inconsistent_fields)]
pub enum Error {
    BerTypeError, BerValueError, InvalidLength, InvalidValue { tag: Tag, msg: String }, InvalidTag, UnknownTag(u32),
    UnexpectedTag { expected: Option<Tag>, actual: Tag }, UnexpectedClass { expected: Option<Class>, actual: Class },
    IndefiniteLengthUnexpected, ConstructExpected, ConstructUnexpected, IntegerTooLarge, IntegerNegative, BerMaxDepth,
    StringInvalidCharset, InvalidDateTime, DerConstraintFailed(DerConstraint), LifetimeError, Unsupported,
    Incomplete(Needed), NomError(nom::error::ErrorKind),
}
impl Error {
    pub fn invalid_value(tag: Tag, msg: String) -> (r: Self) ensures ek(r) == EK::Other { Error::InvalidValue { tag, msg } /*dep: Error::dep_invalid_value(tag, msg) */ }
    pub fn unexpected_class(expected: Option<Class>, actual: Class) -> (r: Self) ensures ek(r) == EK::Other { Error::UnexpectedClass { expected, actual } /*dep: Error::dep_unexpected_class(expected, actual) */ }
    pub fn unexpected_tag(expected: Option<Tag>, actual: Tag) -> (r: Self) ensures ek(r) == EK::Other { Error::UnexpectedTag { expected, actual } /*dep: Error::dep_unexpected_tag(expected, actual) */ }
}
impl<'a> nom::error::ParseError<&'a [u8]> for Error {
    fn from_error_kind(input: &'a [u8], kind: nom::error::ErrorKind) -> (r: Self) { Error::NomError(kind) }
}
impl From<Error> for nom::Err<Error> { fn from(e: Error) -> (r: Self) ensures r == nom::Err::Error(e) { nom::Err::Error(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Error> for nom::Err<Error> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> Self { nom::Err::Error(e) }
}
impl From<nom::Err<Error>> for Error {
    fn from(e: nom::Err<Error>) -> (r: Self) {
        match e { nom::Err::Incomplete(n) => Self::Incomplete(n), nom::Err::Error(e) => e, nom::Err::Failure(e) => e }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<nom::Err<Error>> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: nom::Err<Error>) -> Self {
        match e { nom::Err::Incomplete(n) => Error::Incomplete(n), nom::Err::Error(e) => e, nom::Err::Failure(e) => e }
    }
}
impl From<crate::shim::Utf8Error> for Error { fn from(e: crate::shim::Utf8Error) -> (r: Self) { Error::StringInvalidCharset } }
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::Utf8Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::Utf8Error) -> Self { Error::StringInvalidCharset }
}
impl From<crate::shim::FromUtf16Error> for Error { fn from(e: crate::shim::FromUtf16Error) -> (r: Self) { Error::StringInvalidCharset } }
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::FromUtf16Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::shim::FromUtf16Error) -> Self { Error::StringInvalidCharset }
}
pub type ParseResult<'a, T, E = Error> = nom::IResult<&'a [u8], T, E>;
pub type Result<T, E = Error> = core::result::Result<T, E>;

pub struct Header<'a> { pub class: Class, pub constructed: bool, pub tag: Tag, pub length: Length, pub raw_tag: Option<&'a [u8]> }
impl<'a> Clone for Header<'a> {
    fn clone(&self) -> (r: Self) ensures r == *self { Header { class: self.class, constructed: self.constructed, tag: self.tag, length: self.length, raw_tag: self.raw_tag } }
}
impl<'a> Header<'a> {
    pub fn new(class: Class, constructed: bool, tag: Tag, length: Length) -> (r: Self)
        ensures r == (Header { class, constructed, tag, length, raw_tag: None })
    { Header { class, constructed, tag, length, raw_tag: None } /*dep: Header::dep_new(class, constructed, tag, length) */ }
    pub fn with_length(self, length: Length) -> (r: Self)
        ensures r == (Header { class: self.class, constructed: self.constructed, tag: self.tag, length, raw_tag: self.raw_tag })
    { Header { class: self.class, constructed: self.constructed, tag: self.tag, length, raw_tag: self.raw_tag } /*dep: self.dep_with_length(length) */ }
    pub fn with_raw_tag(self, raw_tag: Option<&'a [u8]>) -> (r: Self)
        ensures r == (Header { class: self.class, constructed: self.constructed, tag: self.tag, length: self.length, raw_tag })
    { Header { class: self.class, constructed: self.constructed, tag: self.tag, length: self.length, raw_tag } /*dep: self.dep_with_raw_tag(raw_tag) */ }
    pub fn class(&self) -> (r: Class) ensures r == self.class { self.class /*dep: self.dep_class() */ }
    pub fn constructed(&self) -> (r: bool) ensures r == self.constructed { self.constructed /*dep: self.dep_constructed() */ }
    pub fn tag(&self) -> (r: Tag) ensures r == self.tag { self.tag /*dep: self.dep_tag() */ }
    pub fn length(&self) -> (r: Length) ensures r == self.length { self.length /*dep: self.dep_length() */ }
    pub fn is_primitive(&self) -> (r: bool) ensures r == !self.constructed { !self.constructed /*dep: self.dep_is_primitive() */ }
    pub fn is_constructed(&self) -> (r: bool) ensures r == self.constructed { self.constructed /*dep: self.dep_is_constructed() */ }
    pub fn is_universal(&self) -> (r: bool) ensures r == (self.class == Class::Universal) { self.class == Class::Universal /*dep: self.dep_is_universal() */ }
    pub fn is_application(&self) -> (r: bool) ensures r == (self.class == Class::Application) { self.class == Class::Application /*dep: self.dep_is_application() */ }
    pub fn is_contextspecific(&self) -> (r: bool) ensures r == (self.class == Class::ContextSpecific) { self.class == Class::ContextSpecific /*dep: self.dep_is_contextspecific() */ }
    pub fn is_private(&self) -> (r: bool) ensures r == (self.class == Class::Private) { self.class == Class::Private /*dep: self.dep_is_private() */ }
    pub fn assert_tag(&self, tag: Tag) -> (r: Result<()>) ensures r is Ok <==> self.tag == tag, r is Err ==> ek(r->Err_0) == EK::Other
    { if self.tag.0 == tag.0 { Ok(()) } else { Err(Error::UnexpectedTag { expected: Some(tag), actual: self.tag }) } /*dep: self.dep_assert_tag(tag) */ }
    pub fn assert_class(&self, class: Class) -> (r: Result<()>) ensures r is Ok <==> self.class == class, r is Err ==> ek(r->Err_0) == EK::Other
    { if self.class == class { Ok(()) } else { Err(Error::UnexpectedClass { expected: Some(class), actual: self.class }) } /*dep: self.dep_assert_class(class) */ }
    pub fn assert_primitive(&self) -> (r: Result<()>) ensures r is Ok <==> !self.constructed, r is Err ==> ek(r->Err_0) == EK::Other
    { if !self.constructed { Ok(()) } else { Err(Error::ConstructUnexpected) } /*dep: self.dep_assert_primitive() */ }
    pub fn assert_constructed(&self) -> (r: Result<()>) ensures r is Ok <==> self.constructed, r is Err ==> ek(r->Err_0) == EK::Other
    { if self.constructed { Ok(()) } else { Err(Error::ConstructExpected) } /*dep: self.dep_assert_constructed() */ }
    pub fn assert_definite(&self) -> (r: Result<()>) ensures r is Ok <==> self.length is Definite, r is Err ==> ek(r->Err_0) == EK::Other
    { if self.length.is_definite() { Ok(()) } else { Err(Error::DerConstraintFailed(DerConstraint::IndefiniteLength)) } /*dep: self.dep_assert_definite() */ }
}
pub trait FromBer<'a>: Sized {
    spec fn ber_rel(i: Seq<u8>, p: PR<Self>) -> bool;
    fn from_ber(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>)
        ensures exists|p: PR<Self>| #[trigger] Self::ber_rel(bytes@, p) && prr(bytes@, r, p);
}
pub trait FromDer<'a>: Sized {
    spec fn der_rel(i: Seq<u8>, p: PR<Self>) -> bool;
    fn from_der(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>)
        ensures exists|p: PR<Self>| #[trigger] Self::der_rel(bytes@, p) && prr(bytes@, r, p);
}
impl<'a> FromBer<'a> for Header<'a> {
    open spec fn ber_rel(i: Seq<u8>, p: PR<Self>) -> bool { pmap(p, |h: Header<'a>| hv(h)) == hdr(i, false) }
    // assumed: asn1_rs::Header::from_ber
    #[verifier::external_body]
    fn from_ber(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::header_from_ber(bytes) */ }
}
impl<'a> FromDer<'a> for Header<'a> {
    open spec fn der_rel(i: Seq<u8>, p: PR<Self>) -> bool { pmap(p, |h: Header<'a>| hv(h)) == hdr(i, true) }
    // assumed: asn1_rs::Header::from_der
    #[verifier::external_body]
    fn from_der(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::header_from_der(bytes) */ }
}
pub struct Any<'a> { pub header: Header<'a>, pub data: &'a [u8] }
pub open spec fn anyv(a: Any) -> (HV, Seq<u8>) { (hv(a.header), a.data@) }
impl<'a> Clone for Any<'a> { fn clone(&self) -> (r: Self) ensures r == *self { Any { header: self.header.clone(), data: self.data } } }
impl<'a> Any<'a> {
    pub fn new(header: Header<'a>, data: &'a [u8]) -> (r: Self) ensures r == (Any { header, data }) { Any { header, data } /*dep: Any::dep_new(header, data) */ }
    pub fn class(&self) -> (r: Class) ensures r == self.header.class { self.header.class /*dep: self.dep_class() */ }
    pub fn tag(&self) -> (r: Tag) ensures r == self.header.tag { self.header.tag /*dep: self.dep_tag() */ }
    pub fn as_bytes(&self) -> (r: &'a [u8]) ensures r == self.data { self.data /*dep: self.dep_as_bytes() */ }
    // assumed: conversions of asn1_rs::Any
    #[verifier::external_body]
    pub fn bool(self) -> (r: Result<bool>)
        requires self.header.length == Length::Definite(1) ==> self.data@.len() >= 1,
        ensures
            r is Ok <==> self.header.tag == Tag::Boolean && self.header.length == Length::Definite(1),
            r is Ok ==> r->Ok_0 == (self.data@[0] != 0),
            r is Err ==> ek(r->Err_0) == EK::Other,
    { unimplemented!() /*dep: self.dep_bool() */ }
    #[verifier::external_body]
    pub fn enumerated(self) -> (r: Result<Enumerated>)
        ensures
            r is Ok <==> self.header.tag == Tag::Enumerated && !self.header.constructed && be(self.data@) <= u32::MAX,
            r is Ok ==> r->Ok_0.0 == be(self.data@),
            r is Err ==> ek(r->Err_0) == if self.header.tag == Tag::Enumerated && !self.header.constructed { EK::TooLarge } else { EK::Other },
    { unimplemented!() /*dep: self.dep_enumerated() */ }
    #[verifier::external_body]
    pub fn oid(self) -> (r: Result<Oid<'a>>) ensures r is Ok && r->Ok_0.ov() == self.data@ && !r->Ok_0.rel(), { unimplemented!() /*dep: self.dep_oid() */ }
    #[verifier::external_body]
    pub fn relative_oid(self) -> (r: Result<Oid<'a>>)
        ensures
            r is Ok <==> self.header.tag == Tag::RelativeOid,
            r is Ok ==> r->Ok_0.ov() == self.data@ && r->Ok_0.rel(),
            r is Err ==> ek(r->Err_0) == EK::Other,
    { unimplemented!() /*dep: self.dep_relative_oid() */ }
    #[verifier::external_body]
    pub fn utctime(self) -> (r: Result<UtcTime>)
        requires self.header.tag == Tag::UtcTime,
        ensures match utctime_val(self.data@) { Some(t) => r == Ok::<UtcTime, Error>(UtcTime(t)), None => r is Err && ek(r->Err_0) == EK::Other }
    { unimplemented!() /*dep: self.dep_utctime() */ }
    #[verifier::external_body]
    pub fn generalizedtime(self) -> (r: Result<GeneralizedTime>)
        requires self.header.tag == Tag::GeneralizedTime,
        ensures match gentime_val(self.data@) { Some(t) => r == Ok::<GeneralizedTime, Error>(GeneralizedTime(t)), None => r is Err && ek(r->Err_0) == EK::Other }
    { unimplemented!() /*dep: self.dep_generalizedtime() */ }
}
pub struct Enumerated(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ASN1TimeZone { Undefined, Z, Offset(i8, i8) }
pub struct ASN1DateTime { pub year: u32, pub month: u8, pub day: u8, pub hour: u8, pub minute: u8, pub second: u8, pub millisecond: Option<u16>, pub tz: ASN1TimeZone }
impl ASN1DateTime {
    pub fn new(year: u32, month: u8, day: u8, hour: u8, minute: u8, second: u8, millisecond: Option<u16>, tz: ASN1TimeZone) -> (r: Self)
        ensures r == (ASN1DateTime { year, month, day, hour, minute, second, millisecond, tz })
    { ASN1DateTime { year, month, day, hour, minute, second, millisecond, tz } /*dep: ASN1DateTime::dep_new(year, month, day, hour, minute, second, millisecond, tz) */ }
}
impl Clone for ASN1DateTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct UtcTime(pub ASN1DateTime);
pub struct GeneralizedTime(pub ASN1DateTime);
pub struct Oid<'a> { pub asn1: &'a [u8], pub relative: bool }
impl<'a> Oid<'a> {
    pub open spec fn ov(&self) -> Seq<u8> { self.asn1@ }
    pub open spec fn rel(&self) -> bool { self.relative }
    pub fn new(asn1: &'a [u8]) -> (r: Self) ensures r == (Oid { asn1, relative: false }) { Oid { asn1, relative: false } /*dep: Oid::dep_new(asn1) */ }
    pub fn new_relative(asn1: &'a [u8]) -> (r: Self) ensures r == (Oid { asn1, relative: true }) { Oid { asn1, relative: true } /*dep: Oid::dep_new_relative(asn1) */ }
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.ov() { self.asn1 /*dep: self.dep_as_bytes() */ }
}
impl<'a> Clone for Oid<'a> { fn clone(&self) -> (r: Self) ensures r == *self { Oid { asn1: self.asn1, relative: self.relative } } }
impl<'a> FromBer<'a> for Any<'a> {
    open spec fn ber_rel(i: Seq<u8>, p: PR<Self>) -> bool { pmap(p, |a: Any<'a>| anyv(a)) == anyp(i) }
    // assumed: asn1_rs::Any::from_ber
    #[verifier::external_body]
    fn from_ber(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::any_from_ber(bytes) */ }
}
pub struct BerParser;
pub struct DerParser;
/// what iterating over the contents of a constructed element yields
pub trait ASN1Parser { }
impl ASN1Parser for BerParser { }
impl ASN1Parser for DerParser { }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(E)]
pub struct SequenceIterator<'a, T, F, E = Error> where F: ASN1Parser {
    pub data: &'a [u8], pub has_error: bool, pub _t: PhantomData<T>, pub _f: PhantomData<F>, pub _e: PhantomData<E>,
}
pub open spec fn mapped<'a, B, F: Fn(Result<Any<'a>>) -> B>(f: F, y: B, i: Item) -> bool { exists|x: Result<Any<'a>>| item_of(x) == i && #[trigger] f.ensures((x,), y) }
impl<'a> SequenceIterator<'a, Any<'a>, BerParser> {
    pub open spec fn input(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn new(data: &'a [u8]) -> (r: Self) ensures r.input() == data@, !r.has_error { unimplemented!() /*dep: SequenceIterator::dep_new(data) */ }
    // SequenceIterator yields exactly the elements any_items of its input; assumed: Iterator::map calls its argument on what `next` yields, in order
    #[verifier::external_body]
    pub fn map<B, F: Fn(Result<Any<'a>>) -> B>(self, f: F) -> (r: crate::shim::VpIter<B>)
        requires !self.has_error, forall|x: Result<Any<'a>>| item_wf(x) ==> #[trigger] f.requires((x,)),
        ensures
            r@.len() == any_items(self.input()).len(),
            forall|k: int| 0 <= k < r@.len() ==> mapped(f, #[trigger] r@[k], any_items(self.input())[k]),
    { unimplemented!() /*dep: crate::depsup::seq_map(self, f) */ }
}
pub type SetIterator<'a, T, F, E = Error> = SequenceIterator<'a, T, F, E>;
pub trait TestValidCharset {
    spec fn ok(s: Seq<u8>) -> bool;
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) ensures r is Ok <==> Self::ok(i@), r is Err ==> ek(r->Err_0) == EK::Other;
}
pub struct NumericString;
impl TestValidCharset for NumericString {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::NumericString, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::NumericString_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct VisibleString;
impl TestValidCharset for VisibleString {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::VisibleString, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::VisibleString_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct PrintableString;
impl TestValidCharset for PrintableString {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::PrintableString, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::PrintableString_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct Ia5String;
impl TestValidCharset for Ia5String {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::Ia5String, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::Ia5String_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct Utf8String;
impl TestValidCharset for Utf8String {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::Utf8String, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::Utf8String_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct TeletexString;
impl TestValidCharset for TeletexString {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::TeletexString, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::TeletexString_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct VideotexString;
impl TestValidCharset for VideotexString {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::VideotexString, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::VideotexString_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct ObjectDescriptor;
impl TestValidCharset for ObjectDescriptor {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::ObjectDescriptor, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::ObjectDescriptor_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct GraphicString;
impl TestValidCharset for GraphicString {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::GraphicString, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::GraphicString_vp_TestValidCharset_test_valid_charset(i) */ }
}
pub struct GeneralString;
impl TestValidCharset for GeneralString {
    open spec fn ok(s: Seq<u8>) -> bool { charset_ok(Tag::GeneralString, s) }
    #[verifier::external_body]
    fn test_valid_charset(i: &[u8]) -> (r: Result<()>) { unimplemented!() /*dep: crate::dep::GeneralString_vp_TestValidCharset_test_valid_charset(i) */ }
}
} // verus!
}

// ======================================================================== the specification
pub mod vspec {
use vstd::prelude::*;
use crate::asn1_rs::*;
use crate::nom;
use crate::ber::ber::{BerObject, BerObjectContent};
pub use crate::vint::*;
pub use crate::vder::*;
pub use crate::vobj::*;
pub use crate::vcomb::*;
pub use crate::vser::*;
pub use crate::vvisit::*;
pub use crate::vthm::*;
pub use crate::vrt::*;
pub use crate::voidm::*;
pub use crate::num_traits::cast::ToPrimitive;
pub use crate::cookie_factory::{wr, wok, lemma_wok_vec, group_wr, group_wrg};
use alloc::boxed::Box;
verus! {
// ---- generic
pub open spec fn is_suffix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.skip(b.len() - a.len()) }
pub open spec fn be(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as int } }
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub open spec fn be_signed(s: Seq<u8>) -> int { if s.len() > 0 && s[0] >= 0x80 { be(s) - pow256(s.len()) } else { be(s) } }
pub uninterp spec fn utf8_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn utf16_ok(s: Seq<u16>) -> bool;
#[verifier::opaque]
pub open spec fn sbytes(s: &str) -> Seq<u8> { vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s) }
pub broadcast proof fn lemma_sbytes(s: &str) ensures #[trigger] vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s) == sbytes(s)
{
    reveal(sbytes);
}

/// classes of errors that callers can tell apart and rely on
pub ghost enum EK { MaxDepth, Incomplete, UnknownTag, TooLarge, Negative, Other }
pub open spec fn ek(e: Error) -> EK {
    match e { Error::BerMaxDepth => EK::MaxDepth, Error::Incomplete(_) => EK::Incomplete, Error::UnknownTag(_) => EK::UnknownTag,
        Error::IntegerTooLarge => EK::TooLarge, Error::IntegerNegative => EK::Negative, _ => EK::Other }
}
/// result of a parser: number of bytes consumed and value, or the error
pub ghost enum PR<T> { Ok(int, T), Inc, Err(EK), Fail(EK) }
pub open spec fn pmap<T, U>(p: PR<T>, f: spec_fn(T) -> U) -> PR<U> {
    match p { PR::Ok(n, t) => PR::Ok(n, f(t)), PR::Inc => PR::Inc, PR::Err(e) => PR::Err(e), PR::Fail(e) => PR::Fail(e) }
}
pub open spec fn perr<T, U>(p: PR<T>) -> PR<U> {
    match p { PR::Ok(n, t) => arbitrary(), PR::Inc => PR::Inc, PR::Err(e) => PR::Err(e), PR::Fail(e) => PR::Fail(e) }
}
/// shift the consumed count
pub open spec fn padd<T>(k: int, p: PR<T>) -> PR<T> { match p { PR::Ok(n, t) => PR::Ok(k + n, t), o => o } }
/// the exec result r on input i is exactly p
pub open spec fn prr<T>(i: Seq<u8>, r: nom::IResult<&[u8], T, Error>, p: PR<T>) -> bool {
    match r {
        Ok(x) => p is Ok && 0 <= p->Ok_0 <= i.len() && x.0@ == i.skip(p->Ok_0) && x.1 == p->Ok_1,
        Result::Err(nom::Err::Incomplete(_)) => p is Inc,
        Result::Err(nom::Err::Error(e)) => p == PR::<T>::Err(ek(e)),
        Result::Err(nom::Err::Failure(e)) => p == PR::<T>::Fail(ek(e)),
    }
}
/// the same through a view function
pub open spec fn prv<T, V>(i: Seq<u8>, r: nom::IResult<&[u8], T, Error>, p: PR<V>, f: spec_fn(T) -> V) -> bool {
    match r {
        Ok(x) => p is Ok && 0 <= p->Ok_0 <= i.len() && x.0@ == i.skip(p->Ok_0) && f(x.1) == p->Ok_1,
        Result::Err(nom::Err::Incomplete(_)) => p is Inc,
        Result::Err(nom::Err::Error(e)) => p == PR::<V>::Err(ek(e)),
        Result::Err(nom::Err::Failure(e)) => p == PR::<V>::Fail(ek(e)),
    }
}
// ---- header
pub ghost struct HV { pub class: Class, pub constructed: bool, pub tag: Tag, pub length: Length, pub raw: Option<Seq<u8>> }
pub open spec fn hv(h: Header) -> HV {
    HV { class: h.class, constructed: h.constructed, tag: h.tag, length: h.length, raw: match h.raw_tag { None => None, Some(r) => Some(r@) } }
}
pub open spec fn class_of(b: u8) -> Class {
    if b < 0x40 { Class::Universal } else if b < 0x80 { Class::Application } else if b < 0xc0 { Class::ContextSpecific } else { Class::Private }
}
/// X.690 8.1.2.4: subsequent identifier octets (at most 5)
pub open spec fn high_tag(s: Seq<u8>, k: int, c: u32) -> PR<u32> decreases 6 - k {
    if k >= s.len() || k > 5 { PR::Err(EK::Other) } else {
        let c2 = ((c << 7u32) | ((s[k] as u32) & 0x7f)) as u32;
        if s[k] < 0x80 { PR::Ok(k + 1, c2) } else { high_tag(s, k + 1, c2) }
    }
}
pub open spec fn ident_tag(s: Seq<u8>) -> PR<u32> {
    if s.len() == 0 { PR::Inc } else if s[0] % 32 == 31 { high_tag(s, 1, 0) } else { PR::Ok(1, (s[0] % 32) as u32) }
}
pub open spec fn len_octets(s: Seq<u8>, constructed: bool, der: bool) -> PR<Length> {
    if s.len() == 0 { PR::Inc }
    else if s[0] < 0x80 { PR::Ok(1, Length::Definite(s[0] as usize)) }
    else if s[0] == 0x80 { if der || !constructed { PR::Err(EK::Other) } else { PR::Ok(1, Length::Indefinite) } }
    else if s[0] == 0xff { PR::Err(EK::Other) }
    else {
        let n = s[0] - 0x80;
        if s.len() - 1 < n { PR::Inc }
        else if be(s.subrange(1, 1 + n)) < 0x1_0000_0000_0000_0000 { PR::Ok(1 + n, Length::Definite(be(s.subrange(1, 1 + n)) as usize)) }
        else { PR::Err(EK::Other) }
    }
}
#[verifier::opaque]
pub open spec fn hdr(s: Seq<u8>, der: bool) -> PR<HV> {
    match ident_tag(s) {
        PR::Ok(n, t) => match len_octets(s.skip(n), (s[0] / 32) % 2 == 1, der) {
            PR::Ok(m, l) => PR::Ok(n + m, HV { class: class_of(s[0]), constructed: (s[0] / 32) % 2 == 1, tag: Tag(t), length: l, raw: Some(s.take(n)) }),
            e => perr(e),
        },
        e => perr(e),
    }
}
// ---- skipping the contents octets
pub open spec fn is_eoc(h: HV, strict: bool) -> bool {
    h.length == Length::Definite(0) && h.tag == Tag::EndOfContent && (strict ==> h.class == Class::Universal && !h.constructed)
}
/// contents octets of an element with header h, nesting budget d: Ok(consumed, is End-Of-Contents)
pub open spec fn skip(s: Seq<u8>, h: HV, d: nat, strict: bool) -> PR<bool> decreases d, s.len(), 0nat {
    if d == 0 { PR::Err(EK::MaxDepth) } else {
        match h.length {
            Length::Definite(l) =>
                if is_eoc(h, strict) { PR::Ok(0, true) } else if s.len() < l { PR::Inc } else { PR::Ok(l as int, false) },
            Length::Indefinite =>
                if !h.constructed { PR::Err(EK::Other) } else { skip_list(s, (d - 1) as nat, strict) },
        }
    }
}
/// elements up to and including End-Of-Contents
pub open spec fn skip_list(s: Seq<u8>, d: nat, strict: bool) -> PR<bool> decreases d, s.len(), 1nat {
    match hdr(s, false) {
        PR::Ok(n, h) => if n <= 0 || n > s.len() { PR::Inc } else {
            match skip(s.skip(n), h, d, strict) {
                PR::Ok(m, eoc) => if eoc { PR::Ok(n + m, false) } else if m < 0 || n + m > s.len() { PR::Inc } else {
                    padd(n + m, skip_list(s.skip(n + m), d, strict))
                },
                e => e,
            }
        },
        e => perr(e),
    }
}
/// contents octets (End-Of-Contents excluded)
pub open spec fn content(s: Seq<u8>, h: HV, d: nat, strict: bool) -> PR<Seq<u8>> {
    match skip(s, h, d, strict) {
        PR::Ok(n, _) => PR::Ok(n, if h.length == Length::Indefinite { s.take(n - 2) } else { s.take(n) }),
        e => perr(e),
    }
}
// ---- Any and its sequences
pub open spec fn anyp(s: Seq<u8>) -> PR<(HV, Seq<u8>)> {
    match hdr(s, false) {
        PR::Ok(n, h) => match content(s.skip(n), h, 50, false) {
            PR::Ok(m, c) => PR::Ok(n + m, (h, c)),
            e => perr(e),
        },
        e => perr(e),
    }
}
/// one item of the iteration: an element, or the error that stops it
pub ghost enum Item { Ok(HV, Seq<u8>), Err(EK) }
pub open spec fn item_of(x: core::result::Result<Any, Error>) -> Item {
    match x { Ok(a) => Item::Ok(hv(a.header), a.data@), Err(e) => Item::Err(ek(e)) }
}
/// what the iterator guarantees about a yielded element
pub open spec fn item_wf(x: core::result::Result<Any, Error>) -> bool { x is Ok ==> any_wf(x->Ok_0) }
pub open spec fn any_wf(a: Any) -> bool { a.header.length is Definite ==> a.data@.len() == a.header.length->Definite_0 }
pub open spec fn any_items(s: Seq<u8>) -> Seq<Item> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        match anyp(s) {
            PR::Ok(n, (h, c)) => if n <= 0 || n > s.len() { seq![Item::Ok(h, c)] } else { seq![Item::Ok(h, c)] + any_items(s.skip(n)) },
            PR::Inc => seq![Item::Err(EK::Incomplete)],
            PR::Err(e) => seq![Item::Err(e)],
            PR::Fail(e) => seq![Item::Err(e)],
        }
    }
}
// ---- value of contents octets
pub open spec fn dig(b: u8) -> bool { 0x30 <= b <= 0x39 }
/// two decimal digits at position k
pub open spec fn dec2(s: Seq<u8>, k: int) -> int { 10 * (s[k] - 0x30) + (s[k + 1] - 0x30) }
pub open spec fn digs(s: Seq<u8>, n: int) -> bool { n <= s.len() && forall|k: int| 0 <= k < n ==> #[trigger] dig(s[k]) }
pub open spec fn in_range(mo: int, d: int, h: int, mi: int, se: int) -> bool { mo <= 12 && d <= 31 && h <= 23 && mi <= 59 && se <= 59 }
/// `Z`, or `+hhmm`, or `-hhmm`
pub open spec fn tz_val(s: Seq<u8>) -> Option<ASN1TimeZone> {
    if s.len() == 1 && s[0] == 0x5a { Some(ASN1TimeZone::Z) }
    else if s.len() == 5 && (s[0] == 0x2b || s[0] == 0x2d) && dig(s[1]) && dig(s[2]) && dig(s[3]) && dig(s[4]) {
        let (h, m) = (dec2(s, 1), dec2(s, 3));
        Some(ASN1TimeZone::Offset(if s[0] == 0x2b { h as i8 } else { (-h) as i8 }, m as i8))
    } else { None }
}
/// fraction of a second: at most four digits, followed by nothing or by a time zone; k digits read so far, of value v
pub open spec fn frac_val(s: Seq<u8>, k: int, v: int) -> Option<(int, int, Seq<u8>)> decreases s.len() {
    if s.len() == 0 { if k == 0 { None } else { Some((k, v, s)) } }
    else if k >= 4 { None }
    else if dig(s[0]) { frac_val(s.skip(1), k + 1, v * 10 + (s[0] - 0x30)) }
    else if s[0] == 0x5a || s[0] == 0x2b || s[0] == 0x2d { Some((k, v, s)) }
    else { None }
}
pub open spec fn frac_ms(k: int, v: int) -> int { if k == 1 { v * 100 } else if k == 2 { v * 10 } else { v } }
/// UTCTime: yymmddhhmm[ss] and a time zone
#[verifier::opaque]
pub open spec fn utctime_val(s: Seq<u8>) -> Option<ASN1DateTime> {
    let (q, se) = if s.len() >= 12 { (12, dec2(s, 10)) } else { (10, 0) };
    if s.len() < 11 || !digs(s, q) || !in_range(dec2(s, 2), dec2(s, 4), dec2(s, 6), dec2(s, 8), se) { None }
    else {
        match tz_val(s.skip(q)) {
            Some(tz) => Some(ASN1DateTime { year: dec2(s, 0) as u32, month: dec2(s, 2) as u8, day: dec2(s, 4) as u8, hour: dec2(s, 6) as u8, minute: dec2(s, 8) as u8, second: se as u8, millisecond: None, tz }),
            None => None,
        }
    }
}
/// GeneralizedTime: yyyymmddhhmm[ss][.f*] and an optional time zone
#[verifier::opaque]
pub open spec fn gentime_val(s: Seq<u8>) -> Option<ASN1DateTime> {
    let (q, se) = if s.len() >= 14 { (14, dec2(s, 12)) } else { (12, 0) };
    if s.len() < 13 || !digs(s, q) || !in_range(dec2(s, 4), dec2(s, 6), dec2(s, 8), dec2(s, 10), se) { None }
    else {
        let u = s.skip(q);
        let d = ASN1DateTime { year: (100 * dec2(s, 0) + dec2(s, 2)) as u32, month: dec2(s, 4) as u8, day: dec2(s, 6) as u8, hour: dec2(s, 8) as u8, minute: dec2(s, 10) as u8, second: se as u8,
            millisecond: None, tz: ASN1TimeZone::Undefined };
        if u.len() == 0 { Some(d) }
        else if u[0] == 0x2e || u[0] == 0x2c {
            match frac_val(u.skip(1), 0, 0) {
                Some((k, v, w)) => if w.len() == 0 { Some(ASN1DateTime { millisecond: Some(frac_ms(k, v) as u16), ..d }) }
                    else { match tz_val(w) { Some(tz) => Some(ASN1DateTime { millisecond: Some(frac_ms(k, v) as u16), tz, ..d }), None => None } },
                None => None,
            }
        } else { match tz_val(u) { Some(tz) => Some(ASN1DateTime { tz, ..d }), None => None } }
    }
}
pub open spec fn is_str_tag(t: Tag) -> bool {
    t == Tag::NumericString || t == Tag::VisibleString || t == Tag::PrintableString || t == Tag::Ia5String || t == Tag::Utf8String
    || t == Tag::TeletexString || t == Tag::VideotexString || t == Tag::ObjectDescriptor || t == Tag::GraphicString || t == Tag::GeneralString
}
pub open spec fn char_ok(t: Tag, b: u8) -> bool {
    if t == Tag::NumericString { (0x30 <= b <= 0x39) || b == 0x20 }
    else if t == Tag::PrintableString {
        (0x61 <= b <= 0x7a) || (0x41 <= b <= 0x5a) || (0x30 <= b <= 0x39) || b == 0x20 || b == 0x27 || b == 0x28 || b == 0x29
        || (0x2b <= b <= 0x2f) || b == 0x3a || b == 0x3d || b == 0x3f
    }
    else if t == Tag::VisibleString || t == Tag::TeletexString || t == Tag::VideotexString { 0x20 <= b <= 0x7f }
    else { b < 0x80 }
}
pub open spec fn charset_ok(t: Tag, s: Seq<u8>) -> bool {
    if t == Tag::Utf8String { utf8_ok(s) } else { forall|k: int| 0 <= k < s.len() ==> char_ok(t, #[trigger] s[k]) }
}
pub ghost enum CV {
    EndOfContent, Boolean(bool), Integer(Seq<u8>), BitString(u8, Seq<u8>), OctetString(Seq<u8>), Null, Enum(u64),
    OID(Seq<u8>), RelativeOID(Seq<u8>), Str(Tag, Seq<u8>), BmpString(Seq<u8>), UniversalString(Seq<u8>),
    Sequence(Seq<OV>), Set(Seq<OV>), UTCTime(ASN1DateTime), GeneralizedTime(ASN1DateTime),
    Optional(Option<Box<OV>>), Tagged(Class, Tag, Box<OV>), Unknown(HV, Seq<u8>),
}
pub ghost struct OV { pub h: HV, pub c: CV }
pub open spec fn cv(c: BerObjectContent) -> CV decreases c {
    match c {
        BerObjectContent::EndOfContent => CV::EndOfContent,
        BerObjectContent::Boolean(b) => CV::Boolean(b),
        BerObjectContent::Integer(s) => CV::Integer(s@),
        BerObjectContent::BitString(n, b) => CV::BitString(n, b.data@),
        BerObjectContent::OctetString(s) => CV::OctetString(s@),
        BerObjectContent::Null => CV::Null,
        BerObjectContent::Enum(e) => CV::Enum(e),
        BerObjectContent::OID(o) => CV::OID(o.ov()),
        BerObjectContent::RelativeOID(o) => CV::RelativeOID(o.ov()),
        BerObjectContent::NumericString(s) => CV::Str(Tag::NumericString, sbytes(s)),
        BerObjectContent::VisibleString(s) => CV::Str(Tag::VisibleString, sbytes(s)),
        BerObjectContent::PrintableString(s) => CV::Str(Tag::PrintableString, sbytes(s)),
        BerObjectContent::IA5String(s) => CV::Str(Tag::Ia5String, sbytes(s)),
        BerObjectContent::UTF8String(s) => CV::Str(Tag::Utf8String, sbytes(s)),
        BerObjectContent::T61String(s) => CV::Str(Tag::TeletexString, sbytes(s)),
        BerObjectContent::VideotexString(s) => CV::Str(Tag::VideotexString, sbytes(s)),
        BerObjectContent::ObjectDescriptor(s) => CV::Str(Tag::ObjectDescriptor, sbytes(s)),
        BerObjectContent::GraphicString(s) => CV::Str(Tag::GraphicString, sbytes(s)),
        BerObjectContent::GeneralString(s) => CV::Str(Tag::GeneralString, sbytes(s)),
        BerObjectContent::BmpString(s) => CV::BmpString(s@),
        BerObjectContent::UniversalString(s) => CV::UniversalString(s@),
        BerObjectContent::Sequence(v) => CV::Sequence(Seq::new(v@.len(), |k: int| if 0 <= k < v@.len() { ov(v@[k]) } else { arbitrary() })),
        BerObjectContent::Set(v) => CV::Set(Seq::new(v@.len(), |k: int| if 0 <= k < v@.len() { ov(v@[k]) } else { arbitrary() })),
        BerObjectContent::UTCTime(t) => CV::UTCTime(t),
        BerObjectContent::GeneralizedTime(t) => CV::GeneralizedTime(t),
        BerObjectContent::Optional(None) => CV::Optional(None),
        BerObjectContent::Optional(Some(o)) => CV::Optional(Some(Box::new(ov(*o)))),
        BerObjectContent::Tagged(c, t, o) => CV::Tagged(c, t, Box::new(ov(*o))),
        BerObjectContent::Unknown(a) => CV::Unknown(hv(a.header), a.data@),
    }
}
pub open spec fn ov(o: BerObject) -> OV decreases o { OV { h: hv(o.header), c: cv(o.content) } }
pub open spec fn ovs(s: Seq<BerObject>) -> Seq<OV> { Seq::new(s.len(), |k: int| ov(s[k])) }

pub ghost enum DR<T> { Ok(T), Err(EK) }
pub open spec fn drv<T, V>(r: core::result::Result<T, Error>, p: DR<V>, f: spec_fn(T) -> V) -> bool {
    match r { Ok(x) => p == DR::Ok(f(x)), Err(e) => p == DR::<V>::Err(ek(e)) }
}
pub open spec fn dro(r: core::result::Result<BerObject, Error>, p: DR<OV>) -> bool {
    match r { Ok(x) => p == DR::Ok(ov(x)), Err(e) => p == DR::<OV>::Err(ek(e)) }
}
pub open spec fn pro(i: Seq<u8>, r: nom::IResult<&[u8], BerObject, Error>, p: PR<OV>) -> bool {
    match r {
        Ok(x) => p is Ok && 0 <= p->Ok_0 <= i.len() && x.0@ == i.skip(p->Ok_0) && ov(x.1) == p->Ok_1,
        Result::Err(nom::Err::Incomplete(_)) => p is Inc,
        Result::Err(nom::Err::Error(e)) => p == PR::<OV>::Err(ek(e)),
        Result::Err(nom::Err::Failure(e)) => p == PR::<OV>::Fail(ek(e)),
    }
}
pub open spec fn prc(i: Seq<u8>, r: nom::IResult<&[u8], BerObjectContent, Error>, p: PR<CV>) -> bool {
    match r {
        Ok(x) => p is Ok && 0 <= p->Ok_0 <= i.len() && x.0@ == i.skip(p->Ok_0) && cv(x.1) == p->Ok_1,
        Result::Err(nom::Err::Incomplete(_)) => p is Inc,
        Result::Err(nom::Err::Error(e)) => p == PR::<CV>::Err(ek(e)),
        Result::Err(nom::Err::Failure(e)) => p == PR::<CV>::Fail(ek(e)),
    }
}
pub open spec fn u16s(s: Seq<u8>) -> Seq<u16> { Seq::new((s.len() / 2) as nat, |k: int| (s[2 * k] * 256 + s[2 * k + 1]) as u16) }
/// the value decoded from the contents octets `data` of an element with header h, nesting budget d
pub open spec fn dec(h: HV, data: Seq<u8>, d: nat) -> DR<CV> decreases d, 0nat, 0nat {
    if d == 0 { DR::Err(EK::MaxDepth) }
    else if h.class != Class::Universal { DR::Ok(CV::Unknown(h, data)) }
    else if h.tag == Tag::Sequence || h.tag == Tag::Set {
        if !h.constructed { DR::Err(EK::Other) } else {
            match dec_list(data, (d - 1) as nat) {
                DR::Ok(l) => DR::Ok(if h.tag == Tag::Sequence { CV::Sequence(l) } else { CV::Set(l) }),
                DR::Err(e) => DR::Err(e),
            }
        }
    } else { dec_prim(h, data) }
}
pub open spec fn dec_prim(h: HV, data: Seq<u8>) -> DR<CV> {
    let t = h.tag;
    if t == Tag::EndOfContent { DR::Ok(CV::EndOfContent) }
    else if t == Tag::Boolean { if h.length == Length::Definite(1) { DR::Ok(CV::Boolean(data[0] != 0)) } else { DR::Err(EK::Other) } }
    else if t == Tag::Integer { DR::Ok(CV::Integer(data)) }
    else if t == Tag::BitString { if data.len() == 0 || h.constructed { DR::Err(EK::Other) } else { DR::Ok(CV::BitString(data[0], data.skip(1))) } }
    else if t == Tag::OctetString { DR::Ok(CV::OctetString(data)) }
    else if t == Tag::Null { DR::Ok(CV::Null) }
    else if t == Tag::Oid { DR::Ok(CV::OID(data)) }
    else if t == Tag::RelativeOid { DR::Ok(CV::RelativeOID(data)) }
    else if t == Tag::Enumerated { if h.constructed { DR::Err(EK::Other) } else if be(data) > u32::MAX { DR::Err(EK::TooLarge) } else { DR::Ok(CV::Enum(be(data) as u64)) } }
    else if is_str_tag(t) { if h.constructed || !charset_ok(t, data) { DR::Err(EK::Other) } else { DR::Ok(CV::Str(t, data)) } }
    else if t == Tag::BmpString { if h.constructed || data.len() % 2 != 0 || !utf16_ok(u16s(data)) { DR::Err(EK::Other) } else { DR::Ok(CV::BmpString(data)) } }
    else if t == Tag::UniversalString { if h.constructed { DR::Err(EK::Other) } else { DR::Ok(CV::UniversalString(data)) } }
    else if t == Tag::UtcTime { match utctime_val(data) { Some(v) => DR::Ok(CV::UTCTime(v)), None => DR::Err(EK::Other) } }
    else if t == Tag::GeneralizedTime { match gentime_val(data) { Some(v) => DR::Ok(CV::GeneralizedTime(v)), None => DR::Err(EK::Other) } }
    else { DR::Ok(CV::Unknown(h, data)) }
}
/// elements of a constructed value
pub open spec fn dec_list(s: Seq<u8>, d: nat) -> DR<Seq<OV>> decreases d, s.len(), 1nat {
    if s.len() == 0 { DR::Ok(Seq::empty()) } else {
        match anyp(s) {
            PR::Ok(n, (h, c)) => match dec(h, c, d) {
                DR::Ok(v) => if n <= 0 || n > s.len() { DR::Err(EK::Other) } else {
                    match dec_list(s.skip(n), d) { DR::Ok(l) => DR::Ok(seq![OV { h, c: v }] + l), DR::Err(e) => DR::Err(e) }
                },
                DR::Err(e) => DR::Err(e),
            },
            PR::Inc => DR::Err(EK::Incomplete),
            PR::Err(e) => DR::Err(e),
            PR::Fail(e) => DR::Err(e),
        }
    }
}
pub open spec fn item_dec(i: Item, d: nat) -> DR<OV> {
    match i {
        Item::Ok(h, c) => match dec(h, c, d) { DR::Ok(v) => DR::Ok(OV { h, c: v }), DR::Err(e) => DR::Err(e) },
        Item::Err(e) => DR::Err(e),
    }
}
pub open spec fn max_object_size() -> int { 4_294_967_295 }
/// contents octets read as a value of universal type `tag`
pub open spec fn read_as(s: Seq<u8>, tag: Tag, len: Length, constructed: bool, d: nat) -> PR<CV> {
    let h = HV { class: Class::Universal, constructed, tag, length: len, raw: None };
    if len is Definite && len->Definite_0 > max_object_size() { PR::Err(EK::Other) }
    else if len is Definite && s.len() < len->Definite_0 { PR::Inc }
    else {
        match content(s, h, d, true) {
            PR::Ok(n, c) => match dec(h, c, d) { DR::Ok(v) => PR::Ok(n, v), DR::Err(e) => PR::Err(e) },
            e => perr(e),
        }
    }
}
pub open spec fn pany(s: Seq<u8>, d: nat) -> PR<OV> {
    if d == 0 { PR::Err(EK::MaxDepth) } else {
        match anyp(s) {
            PR::Ok(n, (h, c)) => match dec(h, c, d) { DR::Ok(v) => PR::Ok(n, OV { h, c: v }), DR::Err(e) => PR::Err(e) },
            e => perr(e),
        }
    }
}
pub open spec fn pany_tag(s: Seq<u8>, t: Tag, d: nat) -> PR<OV> {
    if d == 0 { PR::Err(EK::MaxDepth) } else {
        match anyp(s) {
            PR::Ok(n, (h, c)) => if h.tag != t { PR::Err(EK::Other) } else { match dec(h, c, d) { DR::Ok(v) => PR::Ok(n, OV { h, c: v }), DR::Err(e) => PR::Err(e) } },
            e => perr(e),
        }
    }
}
/// one element whose tag number must be t
pub open spec fn pwith_tag(s: Seq<u8>, t: Tag) -> PR<OV> {
    match hdr(s, false) {
        PR::Ok(n, h) => if h.tag != t { PR::Err(EK::Other) } else {
            match read_as(s.skip(n), h.tag, h.length, h.constructed, 50) { PR::Ok(m, c) => PR::Ok(n + m, OV { h, c }), e => perr(e) }
        },
        e => perr(e),
    }
}
// ---- lemmas
pub broadcast proof fn lemma_any(s: Seq<u8>)
    ensures
        (#[trigger] anyp(s)) is Ok ==> 2 <= anyp(s)->Ok_0 <= s.len(),
        !(anyp(s) is Fail),
{
    lemma_hdr(s, false);
    if let PR::Ok(n, h) = hdr(s, false) { lemma_skip(s.skip(n), h, 50, false); }
}
pub proof fn lemma_dec_list(s: Seq<u8>, d: nat)
    ensures
        (forall|k: int| 0 <= k < any_items(s).len() ==> #[trigger] item_dec(any_items(s)[k], d) is Ok) ==>
            dec_list(s, d) == DR::Ok(Seq::new(any_items(s).len(), |k: int| item_dec(any_items(s)[k], d)->Ok_0)),
        forall|n: int| 0 <= n < any_items(s).len() && #[trigger] item_dec(any_items(s)[n], d) is Err
            && (forall|k: int| 0 <= k < n ==> #[trigger] item_dec(any_items(s)[k], d) is Ok) ==> dec_list(s, d) == DR::<Seq<OV>>::Err(item_dec(any_items(s)[n], d)->Err_0),
    decreases s.len()
{
    lemma_any(s);
    if s.len() > 0 {
        if let PR::Ok(n, (h, c)) = anyp(s) {
            let t = s.skip(n);
            lemma_dec_list(t, d);
            let l = any_items(s);
            let lt = any_items(t);
            assert(l =~= seq![Item::Ok(h, c)] + lt);
            assert(l[0] == Item::Ok(h, c));
            assert(forall|k: int| 0 <= k < lt.len() ==> lt[k] == l[k + 1]);
            if forall|k: int| 0 <= k < l.len() ==> #[trigger] item_dec(l[k], d) is Ok {
                assert(item_dec(l[0], d) is Ok);
                assert forall|k: int| 0 <= k < lt.len() implies #[trigger] item_dec(lt[k], d) is Ok by { assert(item_dec(l[k + 1], d) is Ok); }
                let a = Seq::new(l.len(), |k: int| item_dec(l[k], d)->Ok_0);
                let b = Seq::new(lt.len(), |k: int| item_dec(lt[k], d)->Ok_0);
                assert(a =~= seq![item_dec(l[0], d)->Ok_0] + b);
            }
            assert forall|m: int| 0 <= m < l.len() && #[trigger] item_dec(l[m], d) is Err && (forall|k: int| 0 <= k < m ==> #[trigger] item_dec(l[k], d) is Ok)
                implies dec_list(s, d) == DR::<Seq<OV>>::Err(item_dec(l[m], d)->Err_0) by {
                if m > 0 {
                    assert(item_dec(l[0], d) is Ok);
                    assert(item_dec(lt[m - 1], d) is Err);
                    assert forall|k: int| 0 <= k < m - 1 implies #[trigger] item_dec(lt[k], d) is Ok by { assert(item_dec(l[k + 1], d) is Ok); }
                }
            }
        } else {
            assert(any_items(s)[0] is Err);
            assert(item_dec(any_items(s)[0], d) is Err);
        }
    } else {
        assert(Seq::new(any_items(s).len(), |k: int| item_dec(any_items(s)[k], d)->Ok_0) =~= Seq::<OV>::empty());
    }
}
/// assumed (Unicode): a sequence of ASCII bytes is valid UTF-8
pub broadcast axiom fn axiom_ascii_utf8(s: Seq<u8>)
    requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < 0x80
    ensures #[trigger] utf8_ok(s);
pub broadcast proof fn lemma_charset_utf8(t: Tag, s: Seq<u8>)
    ensures #[trigger] charset_ok(t, s) ==> utf8_ok(s)
{
    if charset_ok(t, s) && t != Tag::Utf8String {
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < 0x80 by { assert(char_ok(t, s[k])); }
        axiom_ascii_utf8(s);
    }
}
pub broadcast proof fn lemma_be2(s: Seq<u8>)
    requires s.len() == 2
    ensures #[trigger] be(s) == s[0] * 256 + s[1], 0 <= be(s) <= 0xffff
{ reveal_with_fuel(be, 3); }
pub broadcast proof fn lemma_high_tag(s: Seq<u8>, k: int, c: u32)
    requires 1 <= k
    ensures (#[trigger] high_tag(s, k, c)) is Ok ==> k + 1 <= high_tag(s, k, c)->Ok_0 <= s.len() && high_tag(s, k, c)->Ok_0 <= 6
    decreases 6 - k
{ if k < s.len() && k <= 5 && s[k] >= 0x80 { let c2 = ((c << 7u32) | ((s[k] as u32) & 0x7f)) as u32; lemma_high_tag(s, k + 1, c2); } }
pub broadcast proof fn lemma_hdr(s: Seq<u8>, der: bool)
    ensures
        (#[trigger] hdr(s, der)) is Ok ==> 2 <= hdr(s, der)->Ok_0 <= s.len(),
        !(hdr(s, der) is Fail), hdr(s, der) is Err ==> hdr(s, der)->Err_0 == EK::Other,
        der && hdr(s, der) is Ok ==> hdr(s, der)->Ok_1.length is Definite,
{ reveal(hdr); if s.len() > 0 { lemma_high_tag_err(s, 1, 0); lemma_high_tag(s, 1, 0); } }
pub proof fn lemma_high_tag_err(s: Seq<u8>, k: int, c: u32)
    ensures high_tag(s, k, c) is Ok || high_tag(s, k, c) == PR::<u32>::Err(EK::Other)
    decreases 6 - k
{ if k < s.len() && k <= 5 && s[k] >= 0x80 { let c2 = ((c << 7u32) | ((s[k] as u32) & 0x7f)) as u32; lemma_high_tag_err(s, k + 1, c2); } }
pub broadcast proof fn lemma_skip(s: Seq<u8>, h: HV, d: nat, strict: bool)
    ensures
        (#[trigger] skip(s, h, d, strict)) is Ok ==> 0 <= skip(s, h, d, strict)->Ok_0 <= s.len(),
        skip(s, h, d, strict) is Ok && h.length == Length::Indefinite ==> skip(s, h, d, strict)->Ok_0 >= 2 && !skip(s, h, d, strict)->Ok_1,
        !(skip(s, h, d, strict) is Fail),
    decreases d, s.len(), 0nat
{ if d > 0 && h.length == Length::Indefinite && h.constructed { lemma_skip_list(s, (d - 1) as nat, strict); } }
pub broadcast proof fn lemma_skip_list(s: Seq<u8>, d: nat, strict: bool)
    ensures
        (#[trigger] skip_list(s, d, strict)) is Ok ==> 2 <= skip_list(s, d, strict)->Ok_0 <= s.len() && !skip_list(s, d, strict)->Ok_1,
        !(skip_list(s, d, strict) is Fail),
    decreases d, s.len(), 1nat
{
    lemma_hdr(s, false);
    if let PR::Ok(n, h) = hdr(s, false) {
        lemma_skip(s.skip(n), h, d, strict);
        if let PR::Ok(m, eoc) = skip(s.skip(n), h, d, strict) {
            if !eoc { lemma_skip_list(s.skip(n + m), d, strict); }
        }
    }
}
pub broadcast proof fn lemma_skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lemma_skip0(s: Seq<u8>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_take_take(s: Seq<u8>, a: int, b: int)
    requires 0 <= b <= a <= s.len()
    ensures #[trigger] s.take(a).take(b) == s.take(b)
{ assert(s.take(a).take(b) =~= s.take(b)); }
pub broadcast proof fn lemma_sub_take(s: Seq<u8>, b: int)
    requires 0 <= b <= s.len()
    ensures #[trigger] s.subrange(0, b) == s.take(b)
{ assert(s.subrange(0, b) =~= s.take(b)); }
pub broadcast proof fn lemma_sub_skip(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len()
    ensures #[trigger] s.subrange(a, s.len() as int) == s.skip(a)
{ assert(s.subrange(a, s.len() as int) =~= s.skip(a)); }
pub broadcast proof fn lemma_u16s(s: Seq<u8>, v: Seq<u16>)
    requires s.len() % 2 == 0, v.len() == s.len() / 2, forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == be(s.subrange(2 * k, 2 * k + 2))
    ensures #![trigger u16s(s), utf16_ok(v)] v == u16s(s)
{
    let w = u16s(s);
    assert forall|k: int| 0 <= k < v.len() implies v[k] == w[k] by {
        let p = s.subrange(2 * k, 2 * k + 2);
        lemma_be2(p);
        assert(p[0] == s[2 * k] && p[1] == s[2 * k + 1]);
    }
    assert(v =~= w);
}
pub broadcast proof fn lemma_cv_seq(v: alloc::vec::Vec<BerObject>)
    ensures #[trigger] cv(BerObjectContent::Sequence(v)) == CV::Sequence(ovs(v@))
{ assert(cv(BerObjectContent::Sequence(v))->Sequence_0 =~= ovs(v@)); }
pub broadcast proof fn lemma_cv_set(v: alloc::vec::Vec<BerObject>)
    ensures #[trigger] cv(BerObjectContent::Set(v)) == CV::Set(ovs(v@))
{ assert(cv(BerObjectContent::Set(v))->Set_0 =~= ovs(v@)); }
pub broadcast proof fn lemma_ov_seq(o: BerObject)
    ensures
        #![trigger ov(o)]
        o.content is Sequence ==> ov(o).c == CV::Sequence(ovs(o.content->Sequence_0@)),
        o.content is Set ==> ov(o).c == CV::Set(ovs(o.content->Set_0@)),
{
    if o.content is Sequence { lemma_cv_seq(o.content->Sequence_0); }
    if o.content is Set { lemma_cv_set(o.content->Set_0); }
}
/// decoding every item and collecting the results is decoding the list
pub proof fn lemma_collect_list(s: Seq<u8>, d: nat, rs: Seq<core::result::Result<BerObject, Error>>, r: core::result::Result<alloc::vec::Vec<BerObject>, Error>)
    requires
        rs.len() == any_items(s).len(),
        forall|k: int| 0 <= k < rs.len() ==> dro(#[trigger] rs[k], item_dec(any_items(s)[k], d)),
        crate::shim::res_collected::<BerObject, Error>(rs, r),
    ensures
        match r { Ok(v) => dec_list(s, d) == DR::Ok(ovs(v@)), Err(e) => dec_list(s, d) == DR::<Seq<OV>>::Err(ek(e)) },
{
    reveal(crate::shim::res_collected);
    lemma_dec_list(s, d);
    match r {
        Ok(v) => {
            assert forall|k: int| 0 <= k < any_items(s).len() implies #[trigger] item_dec(any_items(s)[k], d) is Ok by { assert(rs[k] == Ok::<BerObject, Error>(v@[k])); }
            assert forall|k: int| 0 <= k < v@.len() implies ov(#[trigger] v@[k]) == item_dec(any_items(s)[k], d)->Ok_0 by { assert(rs[k] == Ok::<BerObject, Error>(v@[k])); }
            assert(ovs(v@) =~= Seq::new(any_items(s).len(), |k: int| item_dec(any_items(s)[k], d)->Ok_0));
        }
        Err(e) => {
            let n = choose|n: int| 0 <= n < rs.len() && #[trigger] rs[n] == Err::<BerObject, Error>(e) && forall|k: int| 0 <= k < n ==> #[trigger] rs[k] is Ok;
            assert(rs[n] is Err);
            assert(item_dec(any_items(s)[n], d) is Err);
            assert forall|k: int| 0 <= k < n implies #[trigger] item_dec(any_items(s)[k], d) is Ok by { assert(rs[k] is Ok); }
        }
    }
}
pub broadcast proof fn lemma_collect_dec(h: HV, s: Seq<u8>, d: nat, rs: Seq<core::result::Result<BerObject, Error>>, r: core::result::Result<alloc::vec::Vec<BerObject>, Error>)
    requires
        d > 0, h.class == Class::Universal, h.constructed, h.tag == Tag::Sequence || h.tag == Tag::Set,
        rs.len() == any_items(s).len(),
        forall|k: int| 0 <= k < rs.len() ==> dro(#[trigger] rs[k], item_dec(any_items(s)[k], (d - 1) as nat)),
        crate::shim::res_collected::<BerObject, Error>(rs, r),
    ensures
        #![trigger crate::shim::res_collected::<BerObject, Error>(rs, r), any_items(s), dec(h, s, d)]
        match r { Ok(v) => dec(h, s, d) == DR::Ok(if h.tag == Tag::Sequence { CV::Sequence(ovs(v@)) } else { CV::Set(ovs(v@)) }), Err(e) => dec(h, s, d) == DR::<CV>::Err(ek(e)) },
{ lemma_collect_list(s, (d - 1) as nat, rs, r); }
pub broadcast group group_dec { lemma_ov_seq, lemma_sub_take, lemma_sub_skip, lemma_cv_seq, lemma_cv_set, lemma_collect_dec, lemma_charset_utf8, lemma_be2, lemma_u16s, }
pub broadcast group group_parse {

    lemma_hdr, lemma_skip, lemma_skip_list, lemma_any, lemma_skip_skip, lemma_skip0, lemma_take_take, lemma_sub_take, lemma_sub_skip,
}
} // verus!
}
