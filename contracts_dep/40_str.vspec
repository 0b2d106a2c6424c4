=== fn asn1_types::strings::numericstring::<NumericString as TestValidCharset>::test_valid_charset t=NumericString; asn1_types::strings::visiblestring::<VisibleString as TestValidCharset>::test_valid_charset t=VisibleString; asn1_types::strings::printablestring::<PrintableString as TestValidCharset>::test_valid_charset t=PrintableString; asn1_types::strings::ia5string::<Ia5String as TestValidCharset>::test_valid_charset t=Ia5String; asn1_types::strings::utf8string::<Utf8String as TestValidCharset>::test_valid_charset t=Utf8String; asn1_types::strings::teletexstring::<TeletexString as TestValidCharset>::test_valid_charset t=TeletexString; asn1_types::strings::videotexstring::<VideotexString as TestValidCharset>::test_valid_charset t=VideotexString; asn1_types::object_descriptor::<ObjectDescriptor as TestValidCharset>::test_valid_charset t=ObjectDescriptor; asn1_types::strings::graphicstring::<GraphicString as TestValidCharset>::test_valid_charset t=GraphicString; asn1_types::strings::generalstring::<GeneralString as TestValidCharset>::test_valid_charset t=GeneralString
params: i
ret: r
spec:
    ensures r is Ok <==> charset_ok(Tag::{t}, i@), r is Err ==> ek(r->Err_0) == EK::Other,
=== fn asn1_types::strings::numericstring::<NumericString as TestValidCharset>::test_valid_charset::is_numeric t=NumericString; asn1_types::strings::visiblestring::<VisibleString as TestValidCharset>::test_valid_charset::is_visible t=VisibleString; asn1_types::strings::printablestring::<PrintableString as TestValidCharset>::test_valid_charset::is_printable t=PrintableString; asn1_types::strings::teletexstring::<TeletexString as TestValidCharset>::test_valid_charset::is_visible t=TeletexString; asn1_types::strings::videotexstring::<VideotexString as TestValidCharset>::test_valid_charset::is_visible t=VideotexString
params: b
ret: r
spec:
    ensures r == char_ok(Tag::{t}, *b),
