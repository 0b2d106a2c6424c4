=== fn ber::tagged::parse_ber_tagged_explicit_g der=false; der::tagged::parse_der_tagged_explicit_g der=true
params: tag f
ret: r
spec:
    ensures exists|t: Tag| #[trigger] tag.iv(t)
        && (forall|i: &'a [u8]| cont_req(f, i@, {der}, Chk::Expl(t)) ==> #[trigger] r.requires((i,)))
        && (forall|i: &'a [u8], x: IResult<&'a [u8], Output, E>| #[trigger] r.ensures((i,), x) ==> cont_ok(f, i@, {der}, Chk::Expl(t), x)),
closure 0: |i: &'a [u8], hdr: Header<'a>| -> (y: IResult<&'a [u8], Output, E>)
    requires chk_ok(Chk::Expl(tag), hv(hdr)) ==> f.requires((i, hdr)),
    ensures if chk_ok(Chk::Expl(tag), hv(hdr)) { f.ensures((i, hdr), y) } else { y is Err && y->Err_0 is Error && from_kind(EK::Other, y->Err_0->Error_0) },
closures: |e: BerError| -> (z: Err<E>)
    ensures z is Error && call_ensures(<E as From<BerError>>::from, (e,), z->Error_0),
=== fn ber::tagged::parse_ber_tagged_explicit der=false; der::tagged::parse_der_tagged_explicit der=true
params: tag f
ret: r
spec:
    ensures exists|t: Tag| #[trigger] tag.iv(t)
        && (forall|i: &'a [u8]| cont1_req(f, i@, {der}, Chk::Expl(t)) ==> #[trigger] r.requires((i,)))
        && (forall|i: &'a [u8], x: BerResult<'a>| #[trigger] r.ensures((i,), x) ==> expl_ok(f, i@, {der}, t, x)),
closure 0: |content: &'a [u8], hdr: Header<'a>| -> (x: BerResult<'a>)
    requires f.requires((content,)),
    ensures exists|y: BerResult<'a>| #[trigger] f.ensures((content,), y) && tag_res(hdr, tag, x, y),
=== fn ber::tagged::parse_ber_tagged_implicit_g der=false; der::tagged::parse_der_tagged_implicit_g der=true
params: tag f
ret: r
spec:
    ensures exists|t: Tag| #[trigger] tag.iv(t)
        && (forall|i: &'a [u8]| impl3_req(f, i@, {der}, t) ==> #[trigger] r.requires((i,)))
        && (forall|i: &'a [u8], x: IResult<&'a [u8], Output, E>| #[trigger] r.ensures((i,), x) ==> impl3_ok(f, i@, {der}, t, x)),
closure 0: |i: &'a [u8], hdr: Header<'a>| -> (y: IResult<&'a [u8], Output, E>)
    requires hdr.tag == tag ==> f.requires((i, hdr, 50usize)),
    ensures if hdr.tag == tag { f.ensures((i, hdr, 50usize), y) } else { y is Err && y->Err_0 is Error && from_kind(EK::Other, y->Err_0->Error_0) },
closures: |e: BerError| -> (z: Err<E>)
    ensures z is Error && call_ensures(<E as From<BerError>>::from, (e,), z->Error_0),
=== fn ber::tagged::parse_ber_tagged_implicit der=false; der::tagged::parse_der_tagged_implicit der=true
params: tag f
ret: r
spec:
    ensures exists|t: Tag| #[trigger] tag.iv(t)
        && (forall|i: &'a [u8]| impl_req(f, i@, {der}, t) ==> #[trigger] r.requires((i,)))
        && (forall|i: &'a [u8], x: BerResult<'a>| #[trigger] r.ensures((i,), x) ==> impl_ok(f, i@, {der}, t, x)),
closure 0: |i: &'a [u8], hdr: Header<'a>, depth: usize| -> (x: BerResult<'a>)
    requires f.requires((i, &hdr, depth)),
    ensures exists|y: BerResult<'a, BerObjectContent<'a>>| #[trigger] f.ensures((i, &hdr, depth), y) && impl_res(hdr, x, y),
=== fn ber::parser::parse_ber_implicit; der::parser::parse_der_implicit
params: i tag f
ret: r
spec:
    requires forall|t: Tag| #[trigger] tag.iv(t) ==> impl_req(f, i@, false, t),
    ensures exists|t: Tag| #[trigger] tag.iv(t) && impl_ok(f, i@, false, t, r),
=== fn ber::parser::parse_ber_content s=read_as; der::parser::parse_der_content s=der_as
params: tag
ret: r
spec:
    ensures
        forall|i: &'a [u8], h: &Header, n: usize| #[trigger] r.requires((i, h, n)),
        forall|i: &'a [u8], h: &Header, n: usize, x: BerResult<'a, BerObjectContent<'a>>| #[trigger] r.ensures((i, h, n), x) ==> prc(i@, x, {s}(i@, tag, h.length, h.constructed, n as nat)),
closure 0: |i: &'a [u8], hdr: &Header, n: usize| -> (x: BerResult<'a, BerObjectContent<'a>>)
    ensures prc(i@, x, {s}(i@, tag, hdr.length, hdr.constructed, n as nat)),
=== fn ber::parser::parse_ber_content2 s=read_as; der::parser::parse_der_content2 s=der_as
params: tag
ret: r
spec:
    ensures
        forall|i: &'a [u8], h: Header<'a>, n: usize| #[trigger] r.requires((i, h, n)),
        forall|i: &'a [u8], h: Header<'a>, n: usize, x: BerResult<'a, BerObjectContent<'a>>| #[trigger] r.ensures((i, h, n), x) ==> prc(i@, x, {s}(i@, tag, h.length, h.constructed, n as nat)),
closure 0: |i: &'a [u8], hdr: Header<'a>, n: usize| -> (x: BerResult<'a, BerObjectContent<'a>>)
    ensures prc(i@, x, {s}(i@, tag, hdr.length, hdr.constructed, n as nat)),
=== fn ber::parser::parse_ber_optional
params: f
ret: r
spec:
    ensures
        forall|i: &'a [u8]| f.requires((i,)) ==> #[trigger] r.requires((i,)),
        forall|i: &'a [u8], x: BerResult<'a>| #[trigger] r.ensures((i,), x) ==> opt_ok(f, i, x),
closure 0: |i: &'a [u8]| -> (x: BerResult<'a>)
    requires f.requires((i,)),
    ensures opt_ok(f, i, x),
=== fn ber::parser::parse_ber_explicit_optional; der::parser::parse_der_explicit_optional
params: i tag f
ret: r
lifetime: 'a
spec:
    requires forall|d: &[u8]| #[trigger] f.requires((d,)),
    ensures eopt_ok(f, i@, tag, r),
closures: |content: &'a [u8], hdr: Header<'a>| -> (x: BerResult<'a>)
    ensures exists|y: BerResult<'a>| #[trigger] f.ensures((content,), y) && tag_res(hdr, hdr.tag, x, y),
=== fn ber::parser::parse_ber_slice der=false; der::parser::parse_der_slice der=true
params: i tag
lifetime: 'a
ret: r
spec:
    ensures exists|t: Tag| #[trigger] tag.iv(t) && slice_ok(i@, {der}, t, r),
closure 0: |content: &'a [u8], hdr: Header<'a>| -> (x: BerResult<'a, &'a [u8]>)
    ensures if hdr.tag == tag { x is Ok && x->Ok_0.1 == content } else { x is Err && x->Err_0 is Error && ek(x->Err_0->Error_0) == EK::Other },
