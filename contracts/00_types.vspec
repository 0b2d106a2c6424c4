=== types
error::BerError error::BerResult error::DerResult
ber::ber::BerObject ber::ber::BerObjectContent ber::ber::BitStringObject ber::ber::BerObjectIntoIterator ber::ber::BerObjectRefIterator
ber::parser::MAX_RECURSION ber::parser::MAX_OBJECT_SIZE
ber::compat::BerClass
der::DerObject der::DerObjectContent
=== mods
oid
