=== fn ber::multi::parse_ber_container der=false; der::multi::parse_der_container der=true
params: f
ret: r
spec:
    ensures
        forall|i: &'a [u8]| cont_req(f, i@, {der}, Chk::Any) ==> #[trigger] r.requires((i,)),
        forall|i: &'a [u8], x: IResult<&'a [u8], O, E>| #[trigger] r.ensures((i,), x) ==> cont_ok(f, i@, {der}, Chk::Any, x),
closure 0: |i: &'a [u8]| -> (x: IResult<&'a [u8], O, E>)
    requires cont_req(f, i@, {der}, Chk::Any),
    ensures cont_ok(f, i@, {der}, Chk::Any, x),
closurebody 0:
    broadcast use group_parse;
=== fn ber::multi::parse_ber_sequence_defined_g der=false t=Sequence; ber::multi::parse_ber_set_defined_g der=false t=Set; der::multi::parse_der_sequence_defined_g der=true t=Sequence; der::multi::parse_der_set_defined_g der=true t=Set
params: f
ret: r
spec:
    ensures
        forall|i: &'a [u8]| cont_req(f, i@, {der}, Chk::Tag(Tag::{t})) ==> #[trigger] r.requires((i,)),
        forall|i: &'a [u8], x: IResult<&'a [u8], O, E>| #[trigger] r.ensures((i,), x) ==> cont_ok(f, i@, {der}, Chk::Tag(Tag::{t}), x),
closure 0: |i: &'a [u8], hdr: Header<'a>| -> (y: IResult<&'a [u8], O, E>)
    requires hdr.tag == Tag::{t} ==> f.requires((i, hdr)),
    ensures if hdr.tag == Tag::{t} { f.ensures((i, hdr), y) } else { y is Err && y->Err_0 is Error && from_kind(EK::Other, y->Err_0->Error_0) },
closure 1: |e: BerError| -> (z: Err<E>)
    ensures z is Error && call_ensures(<E as From<BerError>>::from, (e,), z->Error_0),
=== fn ber::multi::parse_ber_sequence_defined der=false t=Sequence; ber::multi::parse_ber_set_defined der=false t=Set; der::multi::parse_der_sequence_defined der=true t=Sequence; der::multi::parse_der_set_defined der=true t=Set
params: f
ret: r
spec:
    ensures
        forall|i: &'a [u8]| cont1_req(f, i@, {der}, Chk::Tag(Tag::{t})) ==> #[trigger] r.requires((i,)),
        forall|i: &'a [u8], x: BerResult<'a>| #[trigger] r.ensures((i,), x) ==> def_ok(f, i@, {der}, Tag::{t}, x),
closure 0: |data: &'a [u8], h: Header<'a>| -> (y: BerResult<'a, Vec<BerObject<'a>>>)
    requires f.requires((data,)),
    ensures f.ensures((data,), y),
=== fn ber::multi::parse_ber_sequence_of_v der=false t=Sequence; ber::multi::parse_ber_set_of_v der=false t=Set; der::multi::parse_der_sequence_of_v der=true t=Sequence; der::multi::parse_der_set_of_v der=true t=Set
params: f
ret: r
spec:
    ensures
        (forall|i: &'a [u8]| f.requires((i,))) ==> forall|i: &'a [u8]| #[trigger] r.requires((i,)),
        forall|i: &'a [u8], x: IResult<&'a [u8], Vec<T>, E>| #[trigger] r.ensures((i,), x) ==> of_ok(f, i@, {der}, Tag::{t}, x),
closure 0: |data: &'a [u8], h: Header<'a>| -> (y: IResult<&'a [u8], Vec<T>, E>)
    requires forall|i: &'a [u8]| f.requires((i,)),
    ensures of_run(f, data, y),
closurebody 0:
    broadcast use crate::nom::multi::lemma_many_run;
=== fn ber::multi::parse_ber_sequence_of der=false t=Sequence; ber::multi::parse_ber_set_of der=false t=Set; der::multi::parse_der_sequence_of der=true t=Sequence; der::multi::parse_der_set_of der=true t=Set
params: f
ret: r
spec:
    ensures
        (forall|i: &'a [u8]| f.requires((i,))) ==> forall|i: &'a [u8]| #[trigger] r.requires((i,)),
        forall|i: &'a [u8], x: BerResult<'a>| #[trigger] r.ensures((i,), x) ==> ofo_ok(f, i@, {der}, Tag::{t}, x),
