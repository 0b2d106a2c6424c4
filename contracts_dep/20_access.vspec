=== fn length::Length::is_null
ret: r
spec:
    ensures r == (*self == Length::Definite(0)),
=== fn length::Length::definite
ret: r
spec:
    ensures match *self { Length::Definite(l) => r == Ok::<usize, Error>(l), Length::Indefinite => r is Err && ek(r->Err_0) == EK::Other },
=== fn length::Length::is_definite
ret: r
spec:
    ensures r == (*self is Definite),
=== fn length::Length::assert_definite k=*self; header::Header::assert_definite k=self.length
ret: r
spec:
    ensures r is Ok <==> {k} is Definite, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn error::Error::invalid_value
params: tag msg
ret: r
spec:
    ensures ek(r) == EK::Other,
=== fn error::Error::unexpected_class; error::Error::unexpected_tag
params: expected actual
ret: r
spec:
    ensures ek(r) == EK::Other,
=== fn tag::Tag::assert_eq
params: self tag
ret: r
spec:
    ensures r is Ok <==> *self == tag, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn class::Class::assert_eq
params: self class
ret: r
spec:
    ensures r is Ok <==> *self == class, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn header::Header::new
params: class constructed tag length
ret: r
spec:
    ensures r == (Header { class, constructed, tag, length, raw_tag: None }),
=== fn header::Header::with_length
params: self length
ret: r
spec:
    ensures r == (Header { class: self.class, constructed: self.constructed, tag: self.tag, length, raw_tag: self.raw_tag }),
=== fn header::Header::with_raw_tag
params: self raw_tag
ret: r
spec:
    ensures r == (Header { class: self.class, constructed: self.constructed, tag: self.tag, length: self.length, raw_tag }),
=== fn header::Header::class
ret: r
spec:
    ensures r == self.class,
=== fn header::Header::constructed; header::Header::is_constructed
ret: r
spec:
    ensures r == self.constructed,
=== fn header::Header::tag
ret: r
spec:
    ensures r == self.tag,
=== fn header::Header::length
ret: r
spec:
    ensures r == self.length,
=== fn header::Header::is_primitive
ret: r
spec:
    ensures r == !self.constructed,
=== fn header::Header::is_universal k=Universal; header::Header::is_application k=Application; header::Header::is_contextspecific k=ContextSpecific; header::Header::is_private k=Private
ret: r
spec:
    ensures r == (self.class == Class::{k}),
=== fn header::Header::assert_class
params: self class
ret: r
spec:
    ensures r is Ok <==> self.class == class, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn header::Header::assert_tag
params: self tag
ret: r
spec:
    ensures r is Ok <==> self.tag == tag, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn header::Header::assert_primitive
ret: r
spec:
    ensures r is Ok <==> !self.constructed, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn header::Header::assert_constructed
ret: r
spec:
    ensures r is Ok <==> self.constructed, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn asn1_types::any::Any::new
params: header data
ret: r
spec:
    ensures r == (Any { header, data }),
=== fn asn1_types::any::Any::class
ret: r
spec:
    ensures r == self.header.class,
=== fn asn1_types::any::Any::tag
ret: r
spec:
    ensures r == self.header.tag,
=== fn asn1_types::any::Any::as_bytes
ret: r
spec:
    ensures r == self.data,
