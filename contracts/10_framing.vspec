=== fn ber::parser::ber_read_element_header
params: i
ret: r
spec:
    ensures prv(i@, r, hdr(i@, false), |h: Header| hv(h)),
=== fn ber::parser::ber_skip_object_content
params: i hdr max_depth
ret: r
spec:
    ensures prr(i@, r, skip(i@, hv(*hdr), max_depth as nat, true)),
    decreases max_depth,
entry:
    broadcast use group_parse;
    let ghost i0 = i@;
loop 0:
    invariant
        max_depth > 0, is_suffix(i@, i0), hv(*hdr).constructed, hv(*hdr).length == Length::Indefinite,
        skip_list(i0, (max_depth - 1) as nat, true) == padd(i0.len() - i@.len(), skip_list(i@, (max_depth - 1) as nat, true)),
    decreases i@.len(),
=== fn ber::parser::ber_get_object_content
params: i hdr max_depth
ret: r
spec:
    ensures prv(i@, r, content(i@, hv(*hdr), max_depth as nat, true), |x: &[u8]| x@),
entry:
    broadcast use group_parse;
