
// ======================================================================== combinators
pub mod vcomb {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
use crate::nom;
use crate::nom::IResult;
use crate::ber::ber::{BerObject, BerObjectContent};
use alloc::boxed::Box;
use alloc::vec::Vec;
verus! {
/// one element, as the container parsers cut it out: bytes consumed, header, contents octets
pub open spec fn frame(i: Seq<u8>, der: bool) -> PR<(HV, Seq<u8>)> {
    match hdr(i, der) {
        PR::Ok(n, h) => match h.length {
            Length::Definite(l) => if i.len() - n < l { PR::Err(EK::Other) } else { PR::Ok(n + l as int, (h, i.skip(n).take(l as int))) },
            Length::Indefinite => if der { PR::Err(EK::Other) } else {
                match content(i.skip(n), h, 50, true) { PR::Ok(m, c) => PR::Ok(n + m, (h, c)), e => perr(e) }
            },
        },
        e => perr(e),
    }
}
/// what the header must satisfy before the user's parser is called
pub ghost enum Chk { Any, Tag(Tag), Expl(Tag) }
pub open spec fn chk_ok(k: Chk, h: HV) -> bool {
    match k { Chk::Any => true, Chk::Tag(t) => h.tag == t, Chk::Expl(t) => h.tag == t && h.class != Class::Universal && h.constructed }
}
/// e comes from an error of kind k
pub open spec fn from_kind<E: From<Error>>(k: EK, e: E) -> bool { exists|b: Error| ek(b) == k && #[trigger] call_ensures(<E as From<Error>>::from, (b,), e) }
pub open spec fn frame_is<'a>(i: Seq<u8>, der: bool, d: &'a [u8], h: Header<'a>) -> bool {
    frame(i, der) is Ok && hv(h) == frame(i, der)->Ok_1.0 && d@ == frame(i, der)->Ok_1.1
}
/// x is the user's result y with the remainder replaced by what follows the element
pub open spec fn cont_res<'a, O, E>(i: Seq<u8>, n: int, x: IResult<&'a [u8], O, E>, y: IResult<&'a [u8], O, E>) -> bool {
    match y {
        Ok(p) => x is Ok && 0 <= n <= i.len() && x->Ok_0.0@ == i.skip(n) && x->Ok_0.1 == p.1,
        Result::Err(e) => x == Result::<(&'a [u8], O), nom::Err<E>>::Err(e),
    }
}
/// the element frame is an error, or the header is refused
pub open spec fn cont_err<'a, O, E: From<Error>>(i: Seq<u8>, der: bool, k: Chk, x: IResult<&'a [u8], O, E>) -> bool {
    match frame(i, der) {
        PR::Ok(n, p) => !chk_ok(k, p.0) && x is Err && x->Err_0 is Error && from_kind(EK::Other, x->Err_0->Error_0),
        PR::Inc => x is Err && x->Err_0 is Incomplete,
        PR::Err(e) => x is Err && x->Err_0 is Error && (e != EK::Other ==> from_kind(e, x->Err_0->Error_0)),
        PR::Fail(e) => false,
    }
}
pub open spec fn cont_in(i: Seq<u8>, der: bool, k: Chk) -> bool { frame(i, der) is Ok && chk_ok(k, frame(i, der)->Ok_1.0) }
pub open spec fn cont_ok<'a, O, E: From<Error>, F: Fn(&'a [u8], Header<'a>) -> IResult<&'a [u8], O, E>>(f: F, i: Seq<u8>, der: bool, k: Chk, x: IResult<&'a [u8], O, E>) -> bool {
    if cont_in(i, der, k) {
        exists|d: &'a [u8], h: Header<'a>, y: IResult<&'a [u8], O, E>| frame_is(i, der, d, h) && #[trigger] f.ensures((d, h), y) && cont_res(i, frame(i, der)->Ok_0, x, y)
    } else { cont_err(i, der, k, x) }
}
pub open spec fn cont_req<'a, O, E, F: Fn(&'a [u8], Header<'a>) -> IResult<&'a [u8], O, E>>(f: F, i: Seq<u8>, der: bool, k: Chk) -> bool {
    cont_in(i, der, k) ==> forall|d: &'a [u8], h: Header<'a>| frame_is(i, der, d, h) ==> #[trigger] f.requires((d, h))
}
/// the same for a user's parser that only gets the contents octets
pub open spec fn cont1_ok<'a, O, E: From<Error>, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F, i: Seq<u8>, der: bool, k: Chk, x: IResult<&'a [u8], O, E>) -> bool {
    if cont_in(i, der, k) {
        exists|d: &'a [u8], y: IResult<&'a [u8], O, E>| d@ == frame(i, der)->Ok_1.1 && #[trigger] f.ensures((d,), y) && cont_res(i, frame(i, der)->Ok_0, x, y)
    } else { cont_err(i, der, k, x) }
}
pub open spec fn cont1_req<'a, O, E, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F, i: Seq<u8>, der: bool, k: Chk) -> bool {
    cont_in(i, der, k) ==> forall|d: &'a [u8]| d@ == frame(i, der)->Ok_1.1 ==> #[trigger] f.requires((d,))
}
/// a list of objects becomes a SEQUENCE or SET object
pub open spec fn list_obj<'a>(t: Tag, x: IResult<&'a [u8], BerObject<'a>, Error>, z: IResult<&'a [u8], Vec<BerObject<'a>>, Error>) -> bool {
    match z {
        Ok(p) => x is Ok && x->Ok_0.0 == p.0 && x->Ok_0.1.header == uni_header(t)
            && x->Ok_0.1.content == (if t == Tag::Sequence { BerObjectContent::Sequence(p.1) } else { BerObjectContent::Set(p.1) }),
        Result::Err(e) => x == Result::<(&'a [u8], BerObject<'a>), nom::Err<Error>>::Err(e),
    }
}
/// x is the SEQUENCE or SET object made of the user's list y
pub open spec fn list_res<'a>(t: Tag, i: Seq<u8>, n: int, x: IResult<&'a [u8], BerObject<'a>, Error>, y: IResult<&'a [u8], Vec<BerObject<'a>>, Error>) -> bool {
    match y {
        Ok(p) => x is Ok && 0 <= n <= i.len() && x->Ok_0.0@ == i.skip(n) && x->Ok_0.1.header == uni_header(t)
            && x->Ok_0.1.content == (if t == Tag::Sequence { BerObjectContent::Sequence(p.1) } else { BerObjectContent::Set(p.1) }),
        Result::Err(e) => x == Result::<(&'a [u8], BerObject<'a>), nom::Err<Error>>::Err(e),
    }
}
pub open spec fn def_ok<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], Vec<BerObject<'a>>, Error>>(f: F, i: Seq<u8>, der: bool, t: Tag, x: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    if cont_in(i, der, Chk::Tag(t)) {
        exists|d: &'a [u8], y: IResult<&'a [u8], Vec<BerObject<'a>>, Error>| d@ == frame(i, der)->Ok_1.1 && #[trigger] f.ensures((d,), y) && list_res(t, i, frame(i, der)->Ok_0, x, y)
    } else { cont_err(i, der, Chk::Tag(t), x) }
}
/// what SEQUENCE OF / SET OF makes of the contents octets d: f applied again and again until nothing is left;
/// an element that is cut short is an error, any other error of f is a failure
pub open spec fn of_end<'a, O, E>(x: IResult<&'a [u8], Vec<O>, E>, i: &'a [u8], outs: Seq<O>, y: IResult<&'a [u8], O, E>) -> bool {
    match y {
        Ok(p) => p.0@.len() >= i@.len() && x is Err && x->Err_0 is Error,
        Result::Err(nom::Err::Incomplete(_)) => if i@.len() == 0 { x is Ok && x->Ok_0.0 == i && x->Ok_0.1@ == outs } else { x is Err && x->Err_0 is Error },
        Result::Err(nom::Err::Error(e)) => x == Result::<(&'a [u8], Vec<O>), nom::Err<E>>::Err(nom::Err::Failure(e)),
        Result::Err(nom::Err::Failure(e)) => x == Result::<(&'a [u8], Vec<O>), nom::Err<E>>::Err(nom::Err::Failure(e)),
    }
}
pub open spec fn of_run<'a, O, E, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F, d: &'a [u8], x: IResult<&'a [u8], Vec<O>, E>) -> bool {
    exists|ins: Seq<&'a [u8]>, outs: Seq<O>, y: IResult<&'a [u8], O, E>| #[trigger] crate::nom::multi::many_run(f, ins, outs) && ins[0] == d
        && #[trigger] f.ensures((ins.last(),), y) && of_end(x, ins.last(), outs, y)
}
pub open spec fn of_ok<'a, O, E: From<Error>, F: Fn(&'a [u8]) -> IResult<&'a [u8], O, E>>(f: F, i: Seq<u8>, der: bool, t: Tag, x: IResult<&'a [u8], Vec<O>, E>) -> bool {
    if cont_in(i, der, Chk::Tag(t)) {
        exists|d: &'a [u8], y: IResult<&'a [u8], Vec<O>, E>| d@ == frame(i, der)->Ok_1.1 && #[trigger] of_run(f, d, y) && cont_res(i, frame(i, der)->Ok_0, x, y)
    } else { cont_err(i, der, Chk::Tag(t), x) }
}
pub open spec fn ofo_ok<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], BerObject<'a>, Error>>(f: F, i: Seq<u8>, der: bool, t: Tag, x: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    exists|z: IResult<&'a [u8], Vec<BerObject<'a>>, Error>| #[trigger] of_ok(f, i, der, t, z) && list_obj(t, x, z)
}
// ---- tagging
/// x is Ok(o) after the element, or the user's error
pub open spec fn obj_res<'a, T>(i: Seq<u8>, n: int, x: IResult<&'a [u8], BerObject<'a>, Error>, y: IResult<&'a [u8], T, Error>, o: BerObject<'a>) -> bool {
    match y {
        Ok(p) => x is Ok && 0 <= n <= i.len() && x->Ok_0.0@ == i.skip(n) && x->Ok_0.1 == o,
        Result::Err(e) => x == Result::<(&'a [u8], BerObject<'a>), nom::Err<Error>>::Err(e),
    }
}
pub open spec fn tagged<'a>(h: Header<'a>, t: Tag, o: BerObject<'a>) -> BerObject<'a> { BerObject { header: h, content: BerObjectContent::Tagged(h.class, t, Box::new(o)) } }
/// the object inside, as the closure of the explicit parsers returns it
pub open spec fn tag_res<'a>(h: Header<'a>, t: Tag, x: IResult<&'a [u8], BerObject<'a>, Error>, y: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    match y {
        Ok(p) => x is Ok && x->Ok_0.0 == p.0 && x->Ok_0.1 == tagged(h, t, p.1),
        Result::Err(e) => x == Result::<(&'a [u8], BerObject<'a>), nom::Err<Error>>::Err(e),
    }
}
pub open spec fn expl_ok<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], BerObject<'a>, Error>>(f: F, i: Seq<u8>, der: bool, t: Tag, x: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    if cont_in(i, der, Chk::Expl(t)) {
        exists|d: &'a [u8], h: Header<'a>, y: IResult<&'a [u8], BerObject<'a>, Error>| #[trigger] frame_is(i, der, d, h) && #[trigger] f.ensures((d,), y)
            && obj_res(i, frame(i, der)->Ok_0, x, y, tagged(h, t, y->Ok_0.1))
    } else { cont_err(i, der, Chk::Expl(t), x) }
}
pub open spec fn impl3_ok<'a, O, E: From<Error>, F: Fn(&'a [u8], Header<'a>, usize) -> IResult<&'a [u8], O, E>>(f: F, i: Seq<u8>, der: bool, t: Tag, x: IResult<&'a [u8], O, E>) -> bool {
    if cont_in(i, der, Chk::Tag(t)) {
        exists|d: &'a [u8], h: Header<'a>, y: IResult<&'a [u8], O, E>| #[trigger] frame_is(i, der, d, h) && #[trigger] f.ensures((d, h, 50usize), y) && cont_res(i, frame(i, der)->Ok_0, x, y)
    } else { cont_err(i, der, Chk::Tag(t), x) }
}
pub open spec fn impl3_req<'a, O, E, F: Fn(&'a [u8], Header<'a>, usize) -> IResult<&'a [u8], O, E>>(f: F, i: Seq<u8>, der: bool, t: Tag) -> bool {
    cont_in(i, der, Chk::Tag(t)) ==> forall|d: &'a [u8], h: Header<'a>| frame_is(i, der, d, h) ==> #[trigger] f.requires((d, h, 50usize))
}
pub open spec fn impl_ok<'a, F: Fn(&'a [u8], &Header, usize) -> IResult<&'a [u8], BerObjectContent<'a>, Error>>(f: F, i: Seq<u8>, der: bool, t: Tag, x: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    if cont_in(i, der, Chk::Tag(t)) {
        exists|d: &'a [u8], h: Header<'a>, y: IResult<&'a [u8], BerObjectContent<'a>, Error>| #[trigger] frame_is(i, der, d, h) && #[trigger] f.ensures((d, &h, 50usize), y)
            && obj_res(i, frame(i, der)->Ok_0, x, y, BerObject { header: h, content: y->Ok_0.1 })
    } else { cont_err(i, der, Chk::Tag(t), x) }
}
pub open spec fn impl_req<'a, F: Fn(&'a [u8], &Header, usize) -> IResult<&'a [u8], BerObjectContent<'a>, Error>>(f: F, i: Seq<u8>, der: bool, t: Tag) -> bool {
    cont_in(i, der, Chk::Tag(t)) ==> forall|d: &'a [u8], h: Header<'a>| frame_is(i, der, d, h) ==> #[trigger] f.requires((d, &h, 50usize))
}
pub open spec fn impl_res<'a>(h: Header<'a>, x: IResult<&'a [u8], BerObject<'a>, Error>, y: IResult<&'a [u8], BerObjectContent<'a>, Error>) -> bool {
    match y {
        Ok(p) => x is Ok && x->Ok_0.0 == p.0 && x->Ok_0.1 == (BerObject { header: h, content: p.1 }),
        Result::Err(e) => x == Result::<(&'a [u8], BerObject<'a>), nom::Err<Error>>::Err(e),
    }
}
// ---- optional
pub open spec fn opt_some<'a>(o: BerObject<'a>) -> BerObject<'a> { BerObject { header: o.header, content: BerObjectContent::Optional(Some(Box::new(o))) } }
/// an absent element: nothing consumed
pub open spec fn absent<'a>(i: Seq<u8>, x: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    x is Ok && x->Ok_0.0@ == i && x->Ok_0.1.content == BerObjectContent::Optional(None) && x->Ok_0.1.header == uni_header(Tag(0))
}
pub open spec fn opt_res<'a>(i: Seq<u8>, x: IResult<&'a [u8], BerObject<'a>, Error>, y: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    match y { Ok(p) => x is Ok && x->Ok_0.0 == p.0 && x->Ok_0.1 == opt_some(p.1), Result::Err(_) => absent(i, x) }
}
pub open spec fn opt_ok<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], BerObject<'a>, Error>>(f: F, i: &'a [u8], x: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    exists|y: IResult<&'a [u8], BerObject<'a>, Error>| #[trigger] f.ensures((i,), y) && opt_res(i@, x, y)
}
pub open spec fn eopt_ok<'a, F: Fn(&[u8]) -> IResult<&[u8], BerObject, Error>>(f: F, i: Seq<u8>, t: Tag, x: IResult<&'a [u8], BerObject<'a>, Error>) -> bool {
    if cont_in(i, false, Chk::Expl(t)) {
        exists|d: &'a [u8], h: Header<'a>, y: IResult<&'a [u8], BerObject<'a>, Error>| #[trigger] frame_is(i, false, d, h) && #[trigger] f.ensures((d,), y)
            && match y {
                Ok(p) => x is Ok && 0 <= frame(i, false)->Ok_0 <= i.len() && x->Ok_0.0@ == i.skip(frame(i, false)->Ok_0) && x->Ok_0.1 == opt_some(tagged(h, t, p.1)),
                Result::Err(_) => absent(i, x),
            }
    } else { absent(i, x) }
}
pub open spec fn slice_ok<'a>(i: Seq<u8>, der: bool, t: Tag, x: IResult<&'a [u8], &'a [u8], Error>) -> bool {
    if cont_in(i, der, Chk::Tag(t)) {
        x is Ok && 0 <= frame(i, der)->Ok_0 <= i.len() && x->Ok_0.0@ == i.skip(frame(i, der)->Ok_0) && x->Ok_0.1@ == frame(i, der)->Ok_1.1
    } else if frame(i, der) is Ok { x is Err && x->Err_0 is Error && ek(x->Err_0->Error_0) == EK::Other }
    else { cont_err(i, der, Chk::Any, x) }
}
} // verus!
}
