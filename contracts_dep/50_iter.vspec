=== same
asn1_types::sequence::iterator::SequenceIterator
=== fn asn1_types::sequence::iterator::SequenceIterator::new
params: data
ret: r
spec:
    ensures r.data == data, !r.has_error,
=== fn asn1_types::sequence::iterator::<SequenceIterator_BerParser as Iterator>::next
inst: T=Any<'a>; E=Error
ret: r
rettype: Option<Result<Any<'a>>>
spec:
    ensures
        match r {
            None => iter_items(*old(self)).len() == 0,
            Some(x) => iter_items(*old(self)).len() > 0 && item_of(x) == iter_items(*old(self))[0] && item_wf(x)
                && iter_items(*final(self)) == iter_items(*old(self)).skip(1) && iter_size(*final(self)) < iter_size(*old(self)),
        },
entry:
    broadcast use group_parse;
