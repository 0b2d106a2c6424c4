#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the statements are edited often)."""
import json
P=[]
def p(id,title,statement,qtext,why,files,mech,over=("inputs",),obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)
BP,DP="src/ber/parser.rs","src/der/parser.rs"
p("C01","Element framing: header, contents and remainder are exactly those of X.690",
 "Every parser reads one identifier, one length and exactly the contents octets they delimit (for the indefinite form: up to the matching universal primitive End-Of-Contents, which is consumed but not part of the contents), and returns as remainder exactly the input bytes after the element, as a tail of the input slice. The header it reports carries the class, constructed bit, tag number, length and raw tag bytes of the input, and the typed, with-tag and DER parsers accept no definite length above 2^32-1. An indefinite length is accepted on constructed encodings only, and in BER only.",
 "all byte strings, all tags, all lengths, all nestings of definite and indefinite elements",
 "the tests sample a few dozen encodings; framing errors show on particular nestings of indefinite elements, lengths at the short/long boundary and trailing bytes",
 [BP,DP,"src/ber/wrap_any.rs","src/ber/multi.rs","src/der/multi.rs"],
 [("ber_skip_object_content / ber_get_object_content",BP),("try_read_berobjectcontent_as",  "src/ber/wrap_any.rs"),("parse_ber_container","src/ber/multi.rs"),("parse_der_recursive",DP)])
p("C02","Nesting is bounded: deeper input gives BerMaxDepth, never unbounded recursion",
 "Parsing with depth limit d fails with the error BerMaxDepth as soon as the element would have to be decoded with no level left (d = 0, or a SEQUENCE/SET or indefinite-length element nested d levels deep), and with the default limit of 50 on the functions that take none. Input whose nesting fits the limit is never refused for its depth, and every nested level lowers the limit by exactly one.",
 "all inputs, all depth limits, all mixes of SEQUENCE, SET, tagged, definite and indefinite levels",
 "the tests have one deeply nested input; an off-by-one per level or a reset of the counter on one path is invisible to them",
 [BP,"src/ber/wrap_any.rs",DP,"src/ber/tagged.rs"],
 [("max_depth parameter of ber_skip_object_content",BP),("try_berobject_from_any","src/ber/wrap_any.rs"),("der_read_element_content_recursive",DP)])
p("C03","Totality: no input makes a parser, accessor, encoder or printer panic or hang",
 "Every public parsing function, on any byte string, depth limit, tag and length argument, returns a value or an error: it never loops forever, never panics, never overflows an integer and never exhausts the stack. The same holds for the accessors, iterators, visitors, the pretty printer and the serialiser on any object (indexing out of range excepted).",
 "all byte strings including multi-megabyte ones, all objects, all arguments",
 "absence of a panic on all inputs cannot be sampled; three fuzz regressions are all the tests have",
 [BP,"src/ber/wrap_any.rs","src/ber/ber.rs","src/ber/integer.rs","src/ber/serialize.rs","src/ber/print.rs",DP],
 [("bounds checks before every index","all"),("remove_zeroes loop","src/ber/integer.rs"),("assert!(len >= 2)",BP)])
p("C04","Truncation gives Incomplete, and trailing bytes never change the result",
 "If a streaming parser (header, any, generic, typed, with-tag and integer parsers, BER and DER) accepts n bytes of an input, it gives the same value and consumes the same n bytes whatever follows them. On every proper prefix of those n bytes it returns Incomplete (never a value, never a definitive error), except when the cut falls inside the identifier octets of a multi-byte tag.",
 "all accepted inputs, all cut points, all continuations",
 "the tests try one or two truncations; a check placed before the length test shows only at particular cut points",
 [BP,"src/ber/wrap_any.rs",DP],
 [("streaming take",BP),("i.len() < l test","src/ber/wrap_any.rs"),("i.len() < l test",DP)],over=("inputs","histories"))
p("C05","DER parsing enforces the DER restrictions",
 "The DER parsers accept an element only if its length is definite, a BOOLEAN is one octet 00 or FF, an INTEGER is non-empty without a redundant leading zero octet, a BIT STRING is primitive with an unused-bit count of 0 to 7 and all unused bits zero, character strings are primitive, and UTCTime/GeneralizedTime end in 'Z'; everything else they refuse. Elements that meet these restrictions and decode as BER are accepted, and their value is the BER value.",
 "all byte strings, all universal types, all contents; at the top level of the DER parsers and in DER content callbacks",
 "256 values x 8 unused-bit counts x content lengths are not sampled by the tests; each restriction has one negative test at best",
 [DP,"src/der/multi.rs"],
 [("der_read_element_content_as",DP),("der_read_content_bitstring",DP),("der_constraint_fail_if!",DP),("parse_der_container","src/der/multi.rs")])
p("C06","Typed parsers accept exactly their own tag number",
 "Each typed parser (boolean, integer, ..., universal string, in BER and DER), each with-tag parser and each slice parser accepts an element if and only if its tag number is the requested one and its contents are acceptable for that type, and returns the value of that type together with the header as read. Any other tag number is an error, never another type's value.",
 "all byte strings x the 25 typed parsers in BER and DER, with-tag and slice parsers with every tag number",
 "the tests call each typed parser on one or two good inputs; calling it on the other types' encodings is not covered",
 [BP,DP],[("parse_ber_with_tag",BP),("parse_der_with_tag",DP),("parse_ber_slice / parse_der_slice","src/ber/parser.rs, src/der/parser.rs")])
p("C07","Contents octets decode to the value X.690 gives their universal type",
 "A universal element decodes to the variant of its tag with its contents octets as value: any non-zero BOOLEAN octet is true, INTEGER/OCTET STRING/OID contents are kept as they are, BIT STRING splits off the unused-bit count, ENUMERATED is the big-endian value, the ten 8-bit string types and BMPString are checked against their alphabet, SEQUENCE and SET decode to the list of their elements in order with nothing left over. Universal types without a variant, and all other classes, become an unknown object holding the header and the exact contents octets; malformed contents are an error.",
 "all tags, classes and contents octets, recursively for the elements of SEQUENCE and SET",
 "the decode table has 29 entries and an unbounded content space; the tests sample one content per entry",
 ["src/ber/wrap_any.rs",BP],[("try_berobject_from_any","src/ber/wrap_any.rs"),("from_obj! macro","src/ber/wrap_any.rs"),("try_read_berobjectcontent_as","src/ber/wrap_any.rs")])
p("C08","Integer accessors and parsers return the exact value or an error",
 "Reading an INTEGER as i32, i64, u32 or u64 (accessors on an object, and the BER/DER integer parsers) returns the two's-complement big-endian value of the contents octets exactly, or an error when it does not fit; it never wraps, truncates or changes sign. Redundant leading zero octets are ignored whatever their number (BER), negative values are refused by the unsigned readers (IntegerNegative), a value outside the target otherwise gives IntegerTooLarge, the big-integer accessors return the exact value, and ENUMERATED values are returned unchanged by as_u64 and, when they fit, as_u32.",
 "all contents octets of all lengths, all four widths, BER and DER",
 "the value space is 2^64 per width plus all redundant encodings; the tests use about twenty values",
 ["src/ber/integer.rs","src/ber/ber.rs",BP,DP],[("decode_array_int8/4, decode_array_uint8/4, remove_zeroes, is_highest_bit_set","src/ber/integer.rs"),("as_i64, as_i32, as_u64, as_u32, as_bigint, as_biguint","src/ber/ber.rs"),("parse_ber_i32 ... parse_der_u64",BP)])
p("C09","BIT STRING accessors give exactly the encoded bits",
 "as_u64 and as_u32 of a BIT STRING return the big-endian value of its bits with the unused trailing bits dropped, or an error when the remaining bits do not fit (IntegerTooLarge) or fewer bits are present than are unused. Bit k (is_set) is the k-th bit counted from the most significant bit of the first octet and false beyond the end, and the slice, bit-slice and as_ref views show exactly the data octets.",
 "all data octets, all unused-bit counts 0 to 255, all bit numbers",
 "the tests use four bit strings; the shift arithmetic depends on length mod 8 and the unused count",
 [BP,"src/ber/ber.rs"],[("bitstring_to_u64",BP),("BitStringObject::is_set","src/ber/ber.rs")])
p("C10","Accessors and constructors keep value and header intact",
 "Every as_<type> accessor returns exactly the value held when the object is of that type and an error for every other type, and the class, tag, length, form and assert_* queries answer from the header. Constructing an object from content gives the universal header with the tag of the content's type and the constructed bit for SEQUENCE and SET only; from_header_and_content, set_raw_tag and conversion from an undecoded element keep header and value unchanged.",
 "all objects of all 29 variants and all headers",
 "29 variants x 15 accessors are sampled on the diagonal only, and not all of it",
 ["src/ber/ber.rs"],[("BerObjectContent::as_*, BerObject::as_*","src/ber/ber.rs"),("BerObjectContent::tag, BerObject::from_obj","src/ber/ber.rs"),("TryFrom<Any>","src/ber/ber.rs")])
p("C11","Explicit tagging: outer header checked, inner element parsed from its contents",
 "An explicit-tag parser accepts an element if and only if its class is not universal, its tag number is the requested one, its form is constructed and the user's parser accepts a prefix of its contents; the user's parser sees exactly the contents octets. The result carries the outer header, its class and tag, and the user's value; the remainder is what follows the outer element, and errors of the user's parser are passed on unchanged.",
 "all inputs, all tags, all user parsers and error types, BER and DER",
 "the user parser is universally quantified; the tests use two or three",
 ["src/ber/tagged.rs","src/der/tagged.rs","src/ber/multi.rs","src/der/multi.rs"],[("parse_ber_tagged_explicit(_g)","src/ber/tagged.rs"),("parse_der_tagged_explicit(_g)","src/der/tagged.rs")])
p("C12","Implicit tagging: contents are decoded as the caller's type under the outer tag",
 "An implicit-tag parser accepts an element if and only if its tag number is the requested one and the user's content parser accepts the contents; that parser is called on exactly the contents octets with the outer header and the default depth limit. The result keeps the outer header with the decoded content (for the content helpers: decoded as the requested universal type), and the remainder is what follows the element.",
 "all inputs, all tags, all content parsers and error types, BER and DER",
 "the content parser is universally quantified; the tests use two or three",
 ["src/ber/tagged.rs","src/der/tagged.rs",BP,DP],[("parse_ber_tagged_implicit(_g), parse_ber_implicit","src/ber/tagged.rs"),("parse_der_tagged_implicit(_g), parse_der_implicit","src/der/tagged.rs"),("parse_ber_content, parse_ber_content2, parse_der_content, parse_der_content2","src/ber/parser.rs, src/der/parser.rs")])
p("C13","SEQUENCE and SET combinators give the user's parser exactly the contents",
 "The defined-by and container combinators accept an element if and only if its tag number is SEQUENCE respectively SET (any tag for the bare container) and the user's parser accepts the contents, which are exactly the contents octets, and their remainder is what follows the element. The ...-of combinators return the elements in order, only if the repeated parser consumes the contents completely; they fail if it fails on any element or leaves bytes over.",
 "all inputs, all user parsers and error types, BER and DER",
 "the user parser is universally quantified, and the number of elements unbounded",
 ["src/ber/multi.rs","src/der/multi.rs"],[("parse_ber_container","src/ber/multi.rs"),("all_consuming(many0(complete(cut(f))))","src/ber/multi.rs"),("parse_der_container","src/der/multi.rs")])
p("C14","OPTIONAL: an absent element consumes nothing, a present one is wrapped",
 "The optional combinator never fails: if the inner parser succeeds it returns its object wrapped as present, under the same header and with the same remainder. If the inner parser fails or wants more input it returns the absent value and the whole input as remainder, and the explicit-optional parsers are exactly this combinator over the explicit-tag parser.",
 "all inputs, all inner parsers, all tags",
 "the inner parser is universally quantified; the tests use two",
 [BP,DP],[("parse_ber_optional",BP),("parse_ber_explicit_optional, parse_der_explicit_optional","src/ber/parser.rs, src/der/parser.rs")])
p("C15","Serialised headers are the minimal X.690 identifier and length octets",
 "Encoding a header writes the identifier octets of its class, form and tag number (the low-tag form up to 30, the shortest high-tag form above) followed by the shortest length octets of its length (short form up to 127, 80 for indefinite), and nothing else. Reading the result back gives the same class, form, tag number and length.",
 "all classes, forms, 2^32 tag numbers and 2^64 lengths",
 "the tests encode lengths below 128 and one above, and no tag above 30",
 ["src/ber/serialize.rs"],[("ber_encode_header, encode_length","src/ber/serialize.rs")])
p("C16","Serialised objects are header plus contents, with the correct length",
 "Serialising an object writes its header with the length replaced by the number of contents octets, followed by the contents octets of its value, recursively for SEQUENCE, SET and tagged values. Explicit tagging wraps that in a constructed header of the given tag and class; implicit tagging replaces the identifier and keeps the form; the raw variant writes the given header unchanged (UTCTime/GeneralizedTime contents and absent optional values are not claimed).",
 "all objects, of any nesting and size, and all tags and classes",
 "lengths at the short/long boundary arise from nested contents the tests do not build",
 ["src/ber/serialize.rs"],[("ber_encode_object, ber_encode_object_raw, ber_encode_object_content","src/ber/serialize.rs"),("ber_encode_tagged_explicit, ber_encode_tagged_implicit","src/ber/serialize.rs"),("BerObject::to_vec","src/ber/serialize.rs")])
p("C17","Round trip: parsing what was serialised gives back the same object",
 "Serialising an object that a parser returned, or that was built with the constructors from contents valid for their type (alphabet, nesting within the depth limit), and parsing the result consumes all of it and gives an equal object (header fields other than the length encoding, and value), for all types except UTCTime, GeneralizedTime, OPTIONAL and ENUMERATED values above 2^32-1. The same holds for explicitly and implicitly tagged serialisations read back with the corresponding tag parser.",
 "all objects without dates and optionals, of any nesting",
 "needs all values of all types at all sizes; the tests round-trip about thirty objects",
 ["src/ber/serialize.rs","src/ber/wrap_any.rs",BP],[("ber_encode_object against parse_ber","src/ber/serialize.rs")])
p("C18","Iteration and indexing visit exactly the elements, in order",
 "Iterating over a SEQUENCE or SET, by reference or by value, yields its elements in order, once each, and then nothing; by value any other object yields itself once, by reference nothing. obj[k] is the k-th element for every k below the number of elements of a SEQUENCE or SET.",
 "all objects, any number of elements including zero, any number of next() calls",
 "the tests iterate over two-element sequences only",
 ["src/ber/ber.rs"],[("BerObjectIntoIterator::next, BerObjectRefIterator::next, Index::index","src/ber/ber.rs")],over=("inputs","histories"))
p("C19","Visitors call every node's callback once, in order, with its depth",
 "Running a visitor (shared or mutable) calls, for the root and then for each element of a SEQUENCE or SET in order, first the generic callback and then the callback of the node's type with the node's value, with a depth that starts at the given one (0 for run) and grows by one per SEQUENCE/SET level; nothing else is called and nothing is called twice. Edits made through the mutable visitor are applied to the object, and are seen by the callbacks that come after them.",
 "all objects, all start depths, all visitors",
 "29 callbacks x 2 traits; no test of the repository runs a visitor and looks at its calls",
 ["src/ber/visit.rs","src/ber/visit_mut.rs"],[("visit_ber_bfs","src/ber/visit.rs"),("visit_ber_bfs_mut","src/ber/visit_mut.rs")],over=("inputs","histories"))
p("C20","Whatever a DER parser accepts, the BER parser reads as the same object",
 "If a DER parser (generic, typed, with-tag, tagged, sequence/set-of, slice, integer or header) accepts an input, the corresponding BER parser accepts it too, consumes the same bytes and returns the same value.",
 "all byte strings accepted by a DER parser",
 "a difference shows only on inputs one of the two paths treats specially",
 [DP,BP,"src/der/multi.rs","src/ber/multi.rs","src/der/tagged.rs","src/ber/tagged.rs"],[("der_read_element_content_as delegating to ber_read_element_content_as",DP)])
p("C21","encode_oid! expands to exactly the X.690 octets of its components, or refuses",
 "The macro encode_oid! of der-oid-macro expands a dotted list of components to an array of exactly the contents octets X.690 gives it: with the rel prefix (RELATIVE-OID) each component in base 128, most significant digit first, without leading zero digits, the top bit set on all octets of a component but its last; without it (OBJECT IDENTIFIER) the first two components a.b as the one octet 40a+b followed by the others in base 128 (a lone 0 is one zero octet). Relative lists of any components, and absolute ones with a at most 2 and b below 40, are never refused, whatever the size of the components; lists that are no object identifier (a above 2, fewer than two components other than the lone 0, b of 40 or more under a root of 0 or 1) always stop the compilation, in debug and in release builds of the macro.",
 "all lists of components of any size, relative and absolute, debug and release builds of the macro",
 "the repository has no test of der-oid-macro at all; carries across octets depend on the position and the size of a component",
 ["der-oid-macro/src/lib.rs"],[("encode_components","der-oid-macro/src/lib.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
