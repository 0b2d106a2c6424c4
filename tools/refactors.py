"""Behaviour-preserving edits used to test for false alarms (tools/tryrefactors.py)."""
R = [
 # --- ber/parser.rs
 ("skip-helper", [("src/ber/parser.rs", """            if l == 0
                && hdr.tag() == Tag::EndOfContent
                && hdr.is_universal()
                && hdr.is_primitive()
            {
                return Ok((i, true));
            }""", """            if is_eoc(hdr, l) {
                return Ok((i, true));
            }"""), ("src/ber/parser.rs", "/// Read object raw content (bytes)", """fn is_eoc(hdr: &Header, l: usize) -> bool {
    l == 0 && hdr.tag() == Tag::EndOfContent && hdr.is_universal() && hdr.is_primitive()
}

/// Read object raw content (bytes)""")]),
 ("skip-reorder-cond", [("src/ber/parser.rs", """            if l == 0
                && hdr.tag() == Tag::EndOfContent
                && hdr.is_universal()
                && hdr.is_primitive()
            {""", """            let eoc_tag = hdr.is_universal() && hdr.tag() == Tag::EndOfContent;
            if eoc_tag && hdr.is_primitive() && l == 0 {""")]),
 ("skip-loop-while", [("src/ber/parser.rs", """            let mut i = i;
            loop {
                let (i2, header2) = ber_read_element_header(i)?;
                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                if eoc {
                    // return false, since top object was not EndOfContent
                    return Ok((i3, false));
                }
                i = i3;
            }""", """            let mut i = i;
            let mut done = false;
            while !done {
                let (i2, header2) = ber_read_element_header(i)?;
                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                done = eoc;
                i = i3;
            }
            Ok((i, false))""")]),
 ("skip-noop", [("src/ber/parser.rs", """            let mut i = i;
            loop {
                let (i2, header2)""", """            let mut i = i;
            loop {
                let _ = max_depth;
                let (i2, header2)""")]),
 ("get-content-early", [("src/ber/parser.rs", """    let len = start_i.offset(i);
    let (content, i) = start_i.split_at(len);
    // if len is indefinite, there are 2 extra bytes for EOC
    if hdr.length() == Length::Indefinite {
        let len = content.len();
        assert!(len >= 2);
        Ok((i, &content[..len - 2]))
    } else {
        Ok((i, content))
    }""", """    let consumed = start_i.offset(i);
    let (content, rem) = start_i.split_at(consumed);
    if hdr.length() != Length::Indefinite {
        return Ok((rem, content));
    }
    // if len is indefinite, there are 2 extra bytes for EOC
    assert!(consumed >= 2);
    Ok((rem, &content[..consumed - 2]))""")]),
 ("get-content-match", [("src/ber/parser.rs", """    if hdr.length() == Length::Indefinite {
        let len = content.len();
        assert!(len >= 2);
        Ok((i, &content[..len - 2]))
    } else {
        Ok((i, content))
    }""", """    match hdr.length() {
        Length::Indefinite => {
            let len = content.len();
            assert!(len >= 2);
            Ok((i, &content[..len - 2]))
        }
        Length::Definite(_) => Ok((i, content)),
    }""")]),
 ("bits-fold", [("src/ber/parser.rs", """    let mut resulting_integer: u64 = 0;
    for &c in &raw_bytes[..num_bytes] {
        resulting_integer <<= 8;
        resulting_integer |= c as u64;
    }
    Ok(resulting_integer >> padding_bits)""", """    let resulting_integer = raw_bytes[..num_bytes]
        .iter()
        .fold(0u64, |acc, &c| (acc << 8) | c as u64);
    Ok(resulting_integer >> padding_bits)""")]),
 ("bits-one-line", [("src/ber/parser.rs", """        resulting_integer <<= 8;
        resulting_integer |= c as u64;""", """        resulting_integer = (resulting_integer << 8) | u64::from(c);""")]),
 ("bits-index-loop", [("src/ber/parser.rs", """    for &c in &raw_bytes[..num_bytes] {
        resulting_integer <<= 8;
        resulting_integer |= c as u64;
    }""", """    let mut k = 0;
    while k < num_bytes {
        resulting_integer <<= 8;
        resulting_integer |= raw_bytes[k] as u64;
        k += 1;
    }""")]),
 ("bits-div-ceil", [("src/ber/parser.rs", """    let num_bytes = if bit_size % 8 > 0 {
        (bit_size / 8) + 1
    } else {
        bit_size / 8
    };""", """    let num_bytes = (bit_size + 7) / 8;""")]),
 # --- ber/integer.rs
 ("int-helper", [("src/ber/integer.rs", """    let input = remove_zeroes(input)?;

    if input.len() > 8 {
        return Err(BerError::IntegerTooLarge);
    }

    // any.tag().assert_eq(Tag::Integer)?;
    let mut output = [0xFFu8; 8];""", """    let input = trimmed(input, 8)?;

    // any.tag().assert_eq(Tag::Integer)?;
    let mut output = [0xFFu8; 8];"""), ("src/ber/integer.rs", "// XXX const generics require rustc >= 1.51\n// /// Decode an unsigned integer into", """fn trimmed(bytes: &[u8], max: usize) -> Result<&[u8], BerError> {
    let input = remove_zeroes(bytes)?;
    if input.len() > max {
        return Err(BerError::IntegerTooLarge);
    }
    Ok(input)
}

// XXX const generics require rustc >= 1.51
// /// Decode an unsigned integer into""")]),
 ("int-rz-iter", [("src/ber/integer.rs", """    while bytes.len() > 1 && bytes[0] == 0 {
        bytes = &bytes[1..];
    }
    Ok(bytes)""", """    while let [0, rest @ ..] = bytes {
        if rest.is_empty() {
            break;
        }
        bytes = rest;
    }
    Ok(bytes)""")]),
 ("int-hbs-match", [("src/ber/integer.rs", """    bytes
        .first()
        .map(|byte| byte & 0b10000000 != 0)
        .unwrap_or(false)""", """    match bytes.first() {
        Some(byte) => byte & 0x80 != 0,
        None => false,
    }""")]),
 ("int-hbs-idx", [("src/ber/integer.rs", """    bytes
        .first()
        .map(|byte| byte & 0b10000000 != 0)
        .unwrap_or(false)""", """    !bytes.is_empty() && bytes[0] >= 0x80""")]),
 ("int-out-loop", [("src/ber/integer.rs", """    let offset = 8_usize.saturating_sub(input.len());
    output[offset..].copy_from_slice(input);""", """    let offset = 8_usize - input.len();
    for (k, b) in input.iter().enumerate() {
        output[offset + k] = *b;
    }""")]),
 # --- der/parser.rs
 ("der-int-if", [("src/der/parser.rs", """            match i[..l] {
                [] => {
                    return Err(Err::Error(BerError::DerConstraintFailed(
                        DerConstraint::IntegerEmpty,
                    )))
                }
                [0, 0, ..] => {
                    return Err(Err::Error(BerError::DerConstraintFailed(
                        DerConstraint::IntegerLeadingZeroes,
                    )))
                }
                [0, byte, ..] if byte < 0x80 => {
                    return Err(Err::Error(BerError::DerConstraintFailed(
                        DerConstraint::IntegerLeadingZeroes,
                    )));
                }
                _ => (),
            }""", """            der_constraint_fail_if!(i, l == 0, DerConstraint::IntegerEmpty);
            der_constraint_fail_if!(
                i,
                l > 1 && i[0] == 0 && i[1] & 0x80 == 0,
                DerConstraint::IntegerLeadingZeroes
            );""")]),
 ("der-int-merge", [("src/der/parser.rs", """                [0, 0, ..] => {
                    return Err(Err::Error(BerError::DerConstraintFailed(
                        DerConstraint::IntegerLeadingZeroes,
                    )))
                }
                [0, byte, ..] if byte < 0x80 => {""", """                [0, byte, ..] if byte <= 0x7f => {""")]),
 ("der-int-helper", [("src/der/parser.rs", """            match i[..l] {
                [] => {
                    return Err(Err::Error(BerError::DerConstraintFailed(
                        DerConstraint::IntegerEmpty,
                    )))
                }
                [0, 0, ..] => {
                    return Err(Err::Error(BerError::DerConstraintFailed(
                        DerConstraint::IntegerLeadingZeroes,
                    )))
                }
                [0, byte, ..] if byte < 0x80 => {
                    return Err(Err::Error(BerError::DerConstraintFailed(
                        DerConstraint::IntegerLeadingZeroes,
                    )));
                }
                _ => (),
            }""", """            check_integer(&i[..l])?;"""), ("src/der/parser.rs", "/// Parse DER object content recursively\n///\n/// *Note: an error is raised if recursion depth exceeds `MAX_RECURSION`.\npub fn der_read_element_content<", """fn check_integer(content: &[u8]) -> Result<(), Err<BerError>> {
    match content {
        [] => Err(Err::Error(BerError::DerConstraintFailed(DerConstraint::IntegerEmpty))),
        [0, byte, ..] if *byte < 0x80 => Err(Err::Error(BerError::DerConstraintFailed(
            DerConstraint::IntegerLeadingZeroes,
        ))),
        _ => Ok(()),
    }
}

/// Parse DER object content recursively
///
/// *Note: an error is raised if recursion depth exceeds `MAX_RECURSION`.
pub fn der_read_element_content<""")]),
 ("der-bits-mask", [("src/der/parser.rs", """        let mut last_byte = data[len - 2];
        for _ in 0..ignored_bits as usize {
            der_constraint_fail_if!(i, last_byte & 1 != 0, DerConstraint::UnusedBitsNotZero);
            last_byte >>= 1;
        }""", """        let last_byte = data[len - 2];
        let mask = (1u8 << ignored_bits) - 1;
        der_constraint_fail_if!(i, last_byte & mask != 0, DerConstraint::UnusedBitsNotZero);""")]),
 ("der-bits-trailing", [("src/der/parser.rs", """        let mut last_byte = data[len - 2];
        for _ in 0..ignored_bits as usize {
            der_constraint_fail_if!(i, last_byte & 1 != 0, DerConstraint::UnusedBitsNotZero);
            last_byte >>= 1;
        }""", """        let last_byte = data[len - 2];
        if last_byte.trailing_zeros() < u32::from(ignored_bits) {
            return Err(Err::Error(BerError::DerConstraintFailed(DerConstraint::UnusedBitsNotZero)));
        }""")]),
 ("der-bits-order", [("src/der/parser.rs", """    if len == 0 {
        return Err(Err::Error(BerError::InvalidLength));
    }
    let (i, data) = take(len - 1)(i)?;
    if len > 1 {
        let mut last_byte = data[len - 2];""", """    if len == 0 {
        return Err(Err::Error(BerError::InvalidLength));
    }
    let size = len - 1;
    let (i, data) = take(size)(i)?;
    if !data.is_empty() {
        let mut last_byte = data[data.len() - 1];""")]),
 ("der-time-last", [("src/der/parser.rs", """            if l == 0 || i.get(l - 1).cloned() != Some(b'Z') {""", """            if i[..l].last() != Some(&b'Z') {""")]),
 ("der-rec-if", [("src/der/parser.rs", """    match hdr.class() {
        Class::Universal => (),
        _ => {
            let (i, data) = ber_get_object_content(i, &hdr, max_depth)?;
            let any = Any::new(hdr.clone(), data);
            let content = DerObjectContent::Unknown(any);
            let obj = DerObject::from_header_and_content(hdr, content);
            return Ok((i, obj));
        }
    }
    match""", """    if hdr.class() != Class::Universal {
        return der_unknown(i, hdr, max_depth);
    }
    match"""), ("src/der/parser.rs", """        Err(Err::Error(BerError::UnknownTag(_))) => {
            let (rem, data) = ber_get_object_content(i, &hdr, max_depth)?;
            let any = Any::new(hdr.clone(), data);
            let content = DerObjectContent::Unknown(any);
            let obj = DerObject::from_header_and_content(hdr, content);
            Ok((rem, obj))
        }""", """        Err(Err::Error(BerError::UnknownTag(_))) => der_unknown(i, hdr, max_depth),"""),
   ("src/der/parser.rs", "fn der_read_content_bitstring(", """fn der_unknown<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize) -> DerResult<'a> {
    let (rem, data) = ber_get_object_content(i, &hdr, max_depth)?;
    let any = Any::new(hdr.clone(), data);
    let content = DerObjectContent::Unknown(any);
    let obj = DerObject::from_header_and_content(hdr, content);
    Ok((rem, obj))
}

fn der_read_content_bitstring(""")]),
 # --- wrap_any.rs
 ("any-seq-loop", [("src/ber/wrap_any.rs", """            let objects: Result<Vec<_>> = SequenceIterator::<Any, BerParser>::new(any.data)
                .map(|item| {
                    let item = item?;
                    try_berobject_from_any(item, max_depth - 1)
                })
                .collect();
            let objects = objects?;
            Ok(obj_from(header, BerObjectContent::Sequence(objects)))""", """            let mut objects = Vec::new();
            for item in SequenceIterator::<Any, BerParser>::new(any.data) {
                objects.push(try_berobject_from_any(item?, max_depth - 1)?);
            }
            Ok(obj_from(header, BerObjectContent::Sequence(objects)))""")]),
 ("any-bits-split", [("src/ber/wrap_any.rs", """            if any.data.is_empty() {
                return Err(BerError::BerValueError);
            }
            custom_check!(any.data, header.constructed(), BerError::Unsupported)?; // XXX valid in BER (8.6.3)
            let ignored_bits = any.data[0];
            let data = &any.data[1..];""", """            let (ignored_bits, data) = match any.data.split_first() {
                Some((b, data)) => (*b, data),
                None => return Err(BerError::BerValueError),
            };
            custom_check!(any.data, header.constructed(), BerError::Unsupported)?; // XXX valid in BER (8.6.3)""")]),
 ("any-seq-collect", [("src/ber/wrap_any.rs", """            let objects: Result<Vec<_>> = SequenceIterator::<Any, BerParser>::new(any.data)
                .map(|item| {
                    let item = item?;
                    try_berobject_from_any(item, max_depth - 1)
                })
                .collect();
            let objects = objects?;""", """            let depth = max_depth - 1;
            let objects = SequenceIterator::<Any, BerParser>::new(any.data)
                .map(|item| try_berobject_from_any(item?, depth))
                .collect::<Result<Vec<_>>>()?;""")]),
 ("any-class-first", [("src/ber/wrap_any.rs", """    let obj_from = BerObject::from_header_and_content;
    let header = any.header.clone();
    if any.class() != Class::Universal {
        return Ok(obj_from(header, BerObjectContent::Unknown(any)));
    }""", """    let header = any.header.clone();
    let obj_from = BerObject::from_header_and_content;
    let is_universal = any.class() == Class::Universal;
    if !is_universal {
        let content = BerObjectContent::Unknown(any);
        return Ok(obj_from(header, content));
    }""")]),
 ("any-as-len", [("src/ber/wrap_any.rs", """    if let Length::Definite(l) = length {
        custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
        if i.len() < l {
            return Err(Err::Incomplete(Needed::new(l)));
        }
    }""", """    match length {
        Length::Definite(l) if l > MAX_OBJECT_SIZE => {
            return Err(Err::Error(BerError::InvalidLength));
        }
        Length::Definite(l) if l > i.len() => return Err(Err::Incomplete(Needed::new(l))),
        _ => (),
    }""")]),
 # --- ber.rs
 ("isset-get", [("src/ber/ber.rs", """        let byte_pos = bitnum / 8;
        if byte_pos >= self.data.len() {
            return false;
        }
        let b = 7 - (bitnum % 8);
        (self.data[byte_pos] & (1 << b)) != 0""", """        match self.data.get(bitnum / 8) {
            Some(byte) => byte & (0x80 >> (bitnum % 8)) != 0,
            None => false,
        }""")]),
 ("isset-shift", [("src/ber/ber.rs", """        (self.data[byte_pos] & (1 << b)) != 0""", """        (self.data[byte_pos] >> b) & 1 == 1""")]),
 ("iter-get", [("src/ber/ber.rs", """        let res = match (self.obj).content {
            BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(&v[self.idx]),
            BerObjectContent::Set(ref v) if self.idx < v.len() => Some(&v[self.idx]),
            _ => None,
        };""", """        let res = match &self.obj.content {
            BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => v.get(self.idx),
            _ => None,
        };""")]),
 ("iter-order", [("src/ber/ber.rs", """            _ => {
                if self.idx == 0 {
                    Some(self.val.clone())
                } else {
                    None
                }
            }
        };
        self.idx += 1;
        res""", """            _ if self.idx == 0 => Some(self.val.clone()),
            _ => None,
        };
        self.idx += 1;
        res""")]),
 ("index-merge", [("src/ber/ber.rs", """            BerObjectContent::Sequence(ref v) if idx < v.len() => &v[idx],
            BerObjectContent::Set(ref v) if idx < v.len() => &v[idx],""", """            BerObjectContent::Sequence(ref v) | BerObjectContent::Set(ref v) if idx < v.len() => &v[idx],""")]),
 ("opt-iflet", [("src/ber/parser.rs", """        let res = f(i);
        match res {
            Ok((rem, inner)) => {
                let opt = BerObject::from_header_and_content(
                    inner.header.clone(),
                    BerObjectContent::Optional(Some(Box::new(inner))),
                );
                Ok((rem, opt))
            }
            Err(_) => Ok((i, BerObject::from_obj(BerObjectContent::Optional(None)))),
        }""", """        if let Ok((rem, inner)) = f(i) {
            let header = inner.header.clone();
            let content = BerObjectContent::Optional(Some(Box::new(inner)));
            Ok((rem, BerObject::from_header_and_content(header, content)))
        } else {
            Ok((i, BerObject::from_obj(BerObjectContent::Optional(None))))
        }""")]),
 ("bad-parser-control", [("src/ber/parser.rs", "Ok(resulting_integer >> padding_bits)", "Ok(resulting_integer >> (padding_bits / 2))")]),
 # --- serialize
 ("enc-len-helper", [("src/ber/serialize.rs", """                    let v: Vec<u8> = sz
                        .to_be_bytes()
                        .iter()
                        .cloned()
                        .skip_while(|&b| b == 0)
                        .collect();
                    let b0 =""", """                    let v = minimal_be(sz as u64);
                    let b0 ="""), ("src/ber/serialize.rs", """            let v: Vec<u8> = i
                .to_be_bytes()
                .iter()
                .cloned()
                .skip_while(|&b| b == 0)
                .collect();
            slice(v)(out)""", """            let v = minimal_be(*i);
            slice(v)(out)"""), ("src/ber/serialize.rs", "fn encode_length<", """fn minimal_be(x: u64) -> Vec<u8> {
    x.to_be_bytes()
        .iter()
        .cloned()
        .skip_while(|&b| b == 0)
        .collect()
}

fn encode_length<""")]),
 ("enc-hdr-const", [("src/ber/serialize.rs", "        let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;", "        let pc_u8 = u8::from(hdr.constructed()) << 5;")]),
 ("enc-hdr-ifelse", [("src/ber/serialize.rs", "        let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;", "        let pc_u8: u8 = if hdr.constructed() { 0b10_0000 } else { 0 };")]),
 ("enc-obj-order", [("src/ber/serialize.rs", """        let len = v.as_ref().len();
        let hdr = obj.header.clone().with_length(len.into());""", """        let contents_len: Length = v.as_ref().len().into();
        let hdr = obj.header.clone().with_length(contents_len);""")]),
 ("enc-helper", [("src/ber/serialize.rs", """        let len = v.as_ref().len();
        let hdr = obj.header.clone().with_length(len.into());
        let v_hdr = gen_simple(ber_encode_header(&hdr), W::default())?;
        tuple((slice(v_hdr), slice(v)))(out)""", """        let hdr = obj.header.clone().with_length(v.as_ref().len().into());
        let v_hdr: W = gen_simple(ber_encode_header(&hdr), W::default())?;
        let out = slice(v_hdr)(out)?;
        slice(v)(out)""")]),
 # --- multi
 ("cont-helper", [("src/ber/multi.rs", """        let (i, data) = match hdr.length() {
            Length::Definite(len) => take(len)(i)?,
            Length::Indefinite => {
                ber_get_object_content(i, &hdr, MAX_RECURSION).map_err(Err::convert)?
            }
        };
        let (_rest, v) = f(data, hdr)?;
        Ok((i, v))""", """        let (rem, data) = if let Length::Definite(len) = hdr.length() {
            take(len)(i)?
        } else {
            ber_get_object_content(i, &hdr, MAX_RECURSION).map_err(Err::convert)?
        };
        f(data, hdr).map(|(_rest, v)| (rem, v))""")]),
 ("cont-match", [("src/ber/multi.rs", """        let (_rest, v) = f(data, hdr)?;
        Ok((i, v))""", """        match f(data, hdr) {
            Ok((_rest, v)) => Ok((i, v)),
            Err(e) => Err(e),
        }""")]),
 ("seq-of-inline", [("src/ber/multi.rs", """    map(parse_ber_sequence_of_v(f), BerObject::from_seq)
""", """    let mut inner = parse_ber_sequence_of_v(f);
    move |i| {
        let (rem, v) = inner(i)?;
        Ok((rem, BerObject::from_seq(v)))
    }
""")]),
 ("tag-order", [("src/ber/tagged.rs", """        if hdr.class() == Class::Universal {
            return Err(Err::Error(
                BerError::unexpected_class(None, hdr.class()).into(),
            ));
        }
        hdr.assert_tag(tag)""", """        let class = hdr.class();
        if let Class::Universal = class {
            return Err(Err::Error(BerError::unexpected_class(None, class).into()));
        }
        hdr.assert_tag(tag)""")]),
 ("tag-inline", [("src/ber/tagged.rs", """        let (rem, obj) = f(content)?;
        let class = hdr.class();
        let obj2 = BerObject::from_header_and_content(
            hdr,
            BerObjectContent::Tagged(class, tag, Box::new(obj)),
        );
        Ok((rem, obj2))
    })
}

""", """        let (rem, obj) = f(content)?;
        let content = BerObjectContent::Tagged(hdr.class(), tag, Box::new(obj));
        Ok((rem, BerObject::from_header_and_content(hdr, content)))
    })
}

""")]),

 # --- second batch: visitors, serializer, containers, accessors
 ("vis-helper", [("src/ber/visit.rs", """            v.visit_ber_sequence(l, depth);
            for item in l.iter() {
                visit_ber_bfs(v, item, depth + 1);
            }""", """            v.visit_ber_sequence(l, depth);
            visit_children(v, l, depth);"""), ("src/ber/visit.rs", """            v.visit_ber_set(l, depth);
            for item in l.iter() {
                visit_ber_bfs(v, item, depth + 1);
            }""", """            v.visit_ber_set(l, depth);
            visit_children(v, l, depth);"""), ("src/ber/visit.rs", "fn visit_ber_bfs<'a, V>(", """fn visit_children<'a, V>(v: &mut V, l: &'a [BerObject<'a>], depth: usize)
where
    V: Visit<'a> + ?Sized,
{
    for item in l {
        visit_ber_bfs(v, item, depth + 1);
    }
}

fn visit_ber_bfs<'a, V>(""")]),
 ("vis-foreach", [("src/ber/visit.rs", """            v.visit_ber_sequence(l, depth);
            for item in l.iter() {
                visit_ber_bfs(v, item, depth + 1);
            }""", """            v.visit_ber_sequence(l, depth);
            l.iter().for_each(|item| visit_ber_bfs(v, item, depth + 1));""")]),
 ("vis-forref", [("src/ber/visit.rs", """            v.visit_ber_sequence(l, depth);
            for item in l.iter() {
                visit_ber_bfs(v, item, depth + 1);""", """            v.visit_ber_sequence(l, depth);
            for item in l {
                visit_ber_bfs(v, item, depth + 1);""")]),
 ("vis-next-depth", [("src/ber/visit.rs", """            v.visit_ber_sequence(l, depth);
            for item in l.iter() {
                visit_ber_bfs(v, item, depth + 1);""", """            let next = depth + 1;
            v.visit_ber_sequence(l, depth);
            for item in l.iter() {
                visit_ber_bfs(v, item, next);""")]),
 ("vis-index", [("src/ber/visit.rs", """            v.visit_ber_set(l, depth);
            for item in l.iter() {
                visit_ber_bfs(v, item, depth + 1);
            }""", """            v.visit_ber_set(l, depth);
            let mut idx = 0;
            while idx < l.len() {
                visit_ber_bfs(v, &l[idx], depth + 1);
                idx += 1;
            }""")]),
 ("vis-matchref", [("src/ber/visit.rs", """        BerObjectContent::Optional(ref obj) => {
            let opt = obj.as_ref().map(|b| b.as_ref());
            v.visit_ber_optional(opt, depth)
        }""", """        BerObjectContent::Optional(ref obj) => v.visit_ber_optional(obj.as_deref(), depth),""")]),
 ("vis-arm-order", [("src/ber/visit.rs", """        BerObjectContent::Null => v.visit_ber_null(depth),
""", ""), ("src/ber/visit.rs", """        BerObjectContent::UTCTime(ref t) => v.visit_ber_utctime(t, depth),
""", """        BerObjectContent::Null => v.visit_ber_null(depth),
        BerObjectContent::UTCTime(ref t) => v.visit_ber_utctime(t, depth),
""")]),
 ("vis-run-runat", [("src/ber/visit.rs", "        visit_ber_bfs(self, ber, 0)", "        self.run_at(ber, 0)")]),
 ("vismut-helper", [("src/ber/visit_mut.rs", """            v.visit_ber_sequence_mut(l, depth);
            for item in l.iter_mut() {
                visit_ber_bfs_mut(v, item, depth + 1);
            }""", """            v.visit_ber_sequence_mut(l, depth);
            visit_children_mut(v, l, depth);"""), ("src/ber/visit_mut.rs", "fn visit_ber_bfs_mut<'a, V>(", """fn visit_children_mut<'a, V>(v: &mut V, l: &'a mut [BerObject<'a>], depth: usize)
where
    V: VisitMut<'a> + ?Sized,
{
    for item in l.iter_mut() {
        visit_ber_bfs_mut(v, item, depth + 1);
    }
}

fn visit_ber_bfs_mut<'a, V>(""")]),
 ("vismut-forref", [("src/ber/visit_mut.rs", """            v.visit_ber_set_mut(l, depth);
            for item in l.iter_mut() {
                visit_ber_bfs_mut(v, item, depth + 1);
            }""", """            v.visit_ber_set_mut(l, depth);
            let depth = depth + 1;
            for item in l {
                visit_ber_bfs_mut(v, item, depth);
            }""")]),
 ("enc-enum-lz", [("src/ber/serialize.rs", """            let v: Vec<u8> = i
                .to_be_bytes()
                .iter()
                .cloned()
                .skip_while(|&b| b == 0)
                .collect();
            slice(v)(out)""", """            let bytes = i.to_be_bytes();
            let zeroes = (i.leading_zeros() / 8) as usize;
            slice(&bytes[zeroes..])(out)""")]),
 ("enc-enum-copied", [("src/ber/serialize.rs", """            let v: Vec<u8> = i
                .to_be_bytes()
                .iter()
                .cloned()
                .skip_while(|&b| b == 0)
                .collect();
            slice(v)(out)""", """            let bytes = i.to_be_bytes();
            let v: Vec<u8> = bytes.iter().copied().skip_while(|b| *b == 0).collect();
            slice(v)(out)""")]),
 ("enc-min-helper", [("src/ber/serialize.rs", """            let v: Vec<u8> = i
                .to_be_bytes()
                .iter()
                .cloned()
                .skip_while(|&b| b == 0)
                .collect();
            slice(v)(out)""", """            slice(strip_zeroes(*i))(out)"""), ("src/ber/serialize.rs", """                    let v: Vec<u8> = sz
                        .to_be_bytes()
                        .iter()
                        .cloned()
                        .skip_while(|&b| b == 0)
                        .collect();
""", """                    let v = strip_zeroes(sz as u64);
"""), ("src/ber/serialize.rs", "fn encode_length<'a", """fn strip_zeroes(n: u64) -> Vec<u8> {
    n.to_be_bytes()
        .iter()
        .cloned()
        .skip_while(|&b| b == 0)
        .collect()
}

fn encode_length<'a""")]),
 ("enc-cont-merge", [("src/ber/serialize.rs", "        BerObjectContent::EndOfContent => Ok(out),\n", "        BerObjectContent::EndOfContent | BerObjectContent::Null => Ok(out),\n"),
   ("src/ber/serialize.rs", "        BerObjectContent::Null => Ok(out),\n", ""),
   ("src/ber/serialize.rs", """        BerObjectContent::BmpString(s) => slice(s)(out),
        BerObjectContent::UniversalString(s) => slice(s)(out),
""", """        BerObjectContent::BmpString(s) | BerObjectContent::UniversalString(s) => slice(s)(out),
""")]),
 ("enc-cont-opt", [("src/ber/serialize.rs", """            // directly encode inner object
            match inner {
                Some(obj) => ber_encode_object_content(&obj.content)(out),
                None => slice(&[])(out), // XXX encode NOP ?
            }
""", """            if let Some(obj) = inner {
                ber_encode_object_content(&obj.content)(out)
            } else {
                Ok(out)
            }
""")]),
 ("enc-bool", [("src/ber/serialize.rs", """            let b0 = if *b { 0xff } else { 0x00 };
            be_u8(b0)(out)""", """            match *b {
                true => be_u8(0xff)(out),
                false => be_u8(0)(out),
            }""")]),
 ("enc-len-if", [("src/ber/serialize.rs", """                if sz <= 0x7f {
                    // definite, short form
                    be_u8(sz as u8)(out)
                } else {""", """                if sz < 128 {
                    be_u8(sz as u8)(out)
                } else {""")]),
 ("enc-hdr-if-order", [("src/ber/serialize.rs", """        if hdr.tag().0 > 30 {
            // high-tag""", """        if hdr.tag().0 >= 0x1f {
            // high-tag""")]),
 ("enc-hdr-loop", [("src/ber/serialize.rs", """            let mut shift: u32 = 28;
            while tag >> shift == 0 {
                shift -= 7;
            }
            while shift > 0 {
                v.push(0b1000_0000 | ((tag >> shift) & 0x7f) as u8);
                shift -= 7;
            }
            v.push((tag & 0x7f) as u8);""", """            let mut digits = 1;
            while tag >> (7 * digits) != 0 && digits < 5 {
                digits += 1;
            }
            for k in (1..digits).rev() {
                v.push(0x80 | ((tag >> (7 * k)) & 0x7f) as u8);
            }
            v.push((tag & 0x7f) as u8);""")]),
 ("enc-obj-raw", [("src/ber/serialize.rs", """        let hdr = obj.header.clone().with_length(len.into());
        let v_hdr = gen_simple(ber_encode_header(&hdr), W::default())?;
        tuple((slice(v_hdr), slice(v)))(out)""", """        let hdr = obj.header.clone().with_length(Length::Definite(len));
        let out = ber_encode_header(&hdr)(out)?;
        slice(v)(out)""")]),
 ("dercont-iflet", [("src/der/multi.rs", """        let (i, data) = match hdr.length() {
            Length::Definite(len) => take(len)(i)?,
            Length::Indefinite => {
                return Err(Err::Error(
                    BerError::DerConstraintFailed(DerConstraint::IndefiniteLength).into(),
                ));
            }
        };
        let (_rest, v) = f(data, hdr)?;
        Ok((i, v))""", """        if let Length::Definite(len) = hdr.length() {
            let (i, data) = take(len)(i)?;
            let (_, v) = f(data, hdr)?;
            Ok((i, v))
        } else {
            Err(Err::Error(
                BerError::DerConstraintFailed(DerConstraint::IndefiniteLength).into(),
            ))
        }""")]),
 ("dercont-map", [("src/der/multi.rs", """        let (_rest, v) = f(data, hdr)?;
        Ok((i, v))""", """        f(data, hdr).map(|(_, v)| (i, v))""")]),
 ("derseq-iflet", [("src/der/multi.rs", """        hdr.assert_tag(Tag::Sequence)
            .map_err(|e| Err::Error(e.into()))?;
        f(i, hdr)""", """        if let Err(e) = hdr.assert_tag(Tag::Sequence) {
            return Err(Err::Error(e.into()));
        }
        f(i, hdr)""")]),
 ("derset-match", [("src/der/multi.rs", """        hdr.assert_tag(Tag::Set).map_err(|e| Err::Error(e.into()))?;
        f(i, hdr)""", """        match hdr.assert_tag(Tag::Set) {
            Ok(()) => f(i, hdr),
            Err(e) => Err(Err::Error(e.into())),
        }""")]),
 ("derseq-helper", [("src/der/multi.rs", """    parse_der_container(move |i, hdr| {
        hdr.assert_tag(Tag::Sequence)
            .map_err(|e| Err::Error(e.into()))?;
        f(i, hdr)
    })""", """    parse_der_container(move |i, hdr| {
        check_tag(&hdr, Tag::Sequence)?;
        f(i, hdr)
    })"""), ("src/der/multi.rs", """    parse_der_container(move |i, hdr| {
        hdr.assert_tag(Tag::Set).map_err(|e| Err::Error(e.into()))?;
        f(i, hdr)
    })
}
""", """    parse_der_container(move |i, hdr| {
        check_tag(&hdr, Tag::Set)?;
        f(i, hdr)
    })
}

fn check_tag<E: From<BerError>>(hdr: &Header, tag: Tag) -> Result<(), Err<E>> {
    hdr.assert_tag(tag).map_err(|e| Err::Error(e.into()))
}
""")]),
 ("derseqofv-inline", [("src/der/multi.rs", """    let mut subparser = all_consuming(many0(complete(cut(f))));
    parse_der_sequence_defined_g(move |data, _| subparser(data))""", """    let items = many0(complete(cut(f)));
    let mut subparser = all_consuming(items);
    parse_der_sequence_defined_g(move |data, _hdr| subparser(data))""")]),
 ("dertag-class", [("src/der/tagged.rs", """        if hdr.class() == Class::Universal {
            return Err(Err::Error(
                BerError::unexpected_class(None, hdr.class()).into(),
            ));
        }""", """        let class = hdr.class();
        if class == Class::Universal {
            return Err(Err::Error(BerError::unexpected_class(None, class).into()));
        }""")]),
 ("dertag-isuni", [("src/der/tagged.rs", """        if hdr.class() == Class::Universal {
            return""", """        if hdr.is_universal() {
            return""")]),
 ("dertag-prim", [("src/der/tagged.rs", "        if !hdr.is_constructed() {", "        if hdr.is_primitive() {")]),
 ("dertag-assert", [("src/ber/tagged.rs", "        if !hdr.is_constructed() {", "        if !hdr.constructed() {")]),
 ("dertagimp-q", [("src/der/tagged.rs", """        let (rem, content) = f(i, &hdr, depth)?;
        // trailing bytes are ignored
        let obj = DerObject::from_header_and_content(hdr, content);
        Ok((rem, obj))""", """        match f(i, &hdr, depth) {
            Ok((rem, content)) => Ok((rem, DerObject::from_header_and_content(hdr, content))),
            Err(e) => Err(e),
        }""")]),
 ("acc-self", [("src/ber/ber.rs", """    pub fn as_bool(&self) -> Result<bool, BerError> {
        match *self {
            BerObjectContent::Boolean(b) => Ok(b),
            _ => Err(BerError::BerTypeError),
        }
    }""", """    pub fn as_bool(&self) -> Result<bool, BerError> {
        if let Self::Boolean(b) = self {
            Ok(*b)
        } else {
            Err(BerError::BerTypeError)
        }
    }""")]),
 ("acc-oid-or", [("src/ber/ber.rs", """            BerObjectContent::OID(ref o) => Ok(o),
            BerObjectContent::RelativeOID(ref o) => Ok(o),""", """            BerObjectContent::OID(ref o) | BerObjectContent::RelativeOID(ref o) => Ok(o),""")]),
 ("acc-opt-deref", [("src/ber/ber.rs", """            BerObjectContent::Optional(Some(ref o)) => Ok(Some(o)),
            BerObjectContent::Optional(None) => Ok(None),""", """            BerObjectContent::Optional(ref o) => Ok(o.as_deref()),""")]),
 ("acc-u32-try", [("src/ber/ber.rs", """            BerObjectContent::Enum(i) => {
                if *i > u64::from(u32::MAX) {
                    Err(BerError::IntegerTooLarge)
                } else {
                    Ok(*i as u32)
                }
            }""", """            BerObjectContent::Enum(i) => u32::try_from(*i).map_err(|_| BerError::IntegerTooLarge),""")]),
 ("acc-u32-helper", [("src/ber/ber.rs", """                bitstring_to_u64(*ignored_bits as usize, data).and_then(|x| {
                    if x > u64::from(u32::MAX) {
                        Err(BerError::IntegerTooLarge)
                    } else {
                        Ok(x as u32)
                    }
                })""", """                bitstring_to_u64(*ignored_bits as usize, data).and_then(narrow)"""), ("src/ber/ber.rs", """                if *i > u64::from(u32::MAX) {
                    Err(BerError::IntegerTooLarge)
                } else {
                    Ok(*i as u32)
                }""", """                narrow(*i)"""), ("src/ber/ber.rs", "/// BitString wrapper", """fn narrow(x: u64) -> Result<u32, BerError> {
    if x > u64::from(u32::MAX) {
        Err(BerError::IntegerTooLarge)
    } else {
        Ok(x as u32)
    }
}

/// BitString wrapper""")]),
 ("acc-u32-q", [("src/ber/ber.rs", """                bitstring_to_u64(*ignored_bits as usize, data).and_then(|x| {
                    if x > u64::from(u32::MAX) {
                        Err(BerError::IntegerTooLarge)
                    } else {
                        Ok(x as u32)
                    }
                })""", """                let x = bitstring_to_u64(*ignored_bits as usize, data)?;
                if x <= u64::from(u32::MAX) {
                    Ok(x as u32)
                } else {
                    Err(BerError::IntegerTooLarge)
                }""")]),
 ("acc-i64-match", [("src/ber/ber.rs", """        if let BerObjectContent::Integer(bytes) = self {
            let result = if is_highest_bit_set(bytes) {
                <i64>::from_be_bytes(decode_array_int8(bytes)?)
            } else {
                let value = <u64>::from_be_bytes(decode_array_uint8(bytes)?);
                if value > i64::MAX as u64 {
                    return Err(BerError::IntegerTooLarge);
                }
                value as i64
            };
            Ok(result)
        } else {
            Err(BerError::BerValueError)
        }""", """        let bytes = match self {
            BerObjectContent::Integer(bytes) => bytes,
            _ => return Err(BerError::BerValueError),
        };
        if is_highest_bit_set(bytes) {
            let array = decode_array_int8(bytes)?;
            return Ok(i64::from_be_bytes(array));
        }
        let value = u64::from_be_bytes(decode_array_uint8(bytes)?);
        if value > i64::MAX as u64 {
            Err(BerError::IntegerTooLarge)
        } else {
            Ok(value as i64)
        }""")]),
 ("acc-i32-try", [("src/ber/ber.rs", """                if value > i32::MAX as u32 {
                    return Err(BerError::IntegerTooLarge);
                }
                value as i32""", """                i32::try_from(value).map_err(|_| BerError::IntegerTooLarge)?""")]),
 ("acc-slice-strfirst", [("src/ber/ber.rs", """            BerObjectContent::IA5String(s) => Ok(s.as_ref()),""", """            BerObjectContent::IA5String(s) => Ok(s.as_bytes()),""")]),
 ("obj-from-hc", [("src/ber/ber.rs", """        let header = Header::new(class, constructed, tag, Length::Definite(0));
        BerObject { header, content: c }""", """        BerObject {
            header: Header::new(class, constructed, tag, Length::Definite(0)),
            content: c,
        }""")]),
 ("obj-tryfrom-deleg", [("src/ber/ber.rs", """        let (header, data) = (any.header.clone(), any.data);
        let (_, content) = ber_read_element_content_as(
            data,
            header.tag(),
            header.length(),
            header.constructed(),
            MAX_RECURSION,
        )?;
        let obj = BerObject::from_header_and_content(header, content);
        Ok(obj)""", """        BerObject::try_from(any.clone())""")]),
 ("obj-biguint", [("src/ber/ber.rs", """                if is_highest_bit_set(s) {
                    return Err(BerError::IntegerNegative);
                }
                Ok(BigUint::from_bytes_be(s))""", """                if is_highest_bit_set(s) {
                    Err(BerError::IntegerNegative)
                } else {
                    Ok(BigUint::from_bytes_be(s))
                }""")]),
 ("obj-bitslice", [("src/ber/ber.rs", """        self.as_slice().and_then(|s| {
            BitSlice::<_, Msb0>::try_from_slice(s).map_err(|_| BerError::BerValueError)
        })""", """        let s = self.as_slice()?;
        BitSlice::<_, Msb0>::try_from_slice(s).map_err(|_| BerError::BerValueError)""")]),
 ("withtag-helper", [("src/ber/parser.rs", """    let (i, content) = ber_read_element_content_as(
        i,
        hdr.tag(),
        hdr.length(),
        hdr.is_constructed(),
        MAX_RECURSION,
    )?;
    Ok((i, BerObject::from_header_and_content(hdr, content)))
}""", """    read_object(i, hdr)
}

fn read_object<'a>(i: &'a [u8], hdr: Header<'a>) -> BerResult<'a> {
    let (i, content) = ber_read_element_content_as(
        i,
        hdr.tag(),
        hdr.length(),
        hdr.is_constructed(),
        MAX_RECURSION,
    )?;
    Ok((i, BerObject::from_header_and_content(hdr, content)))
}""")]),
 ("expl-opt-inline", [("src/ber/parser.rs", """        let (rem, obj) = f(content)?;
        let content = BerObjectContent::Tagged(hdr.class(), hdr.tag(), Box::new(obj));
        let tagged = BerObject::from_header_and_content(hdr, content);
        Ok((rem, tagged))""", """        let (rem, obj) = f(content)?;
        let (class, tag) = (hdr.class(), hdr.tag());
        Ok((
            rem,
            BerObject::from_header_and_content(
                hdr,
                BerObjectContent::Tagged(class, tag, Box::new(obj)),
            ),
        ))""")]),
 ('oid-helper', [('der-oid-macro/src/lib.rs', 'fn encode_components(', 'fn octets_for(bytes: &[u8]) -> usize {\n    let total_bits = (8 - bytes[0].leading_zeros()) as usize + (bytes.len() - 1) * 8;\n    ((total_bits + 6) / 7).max(1)\n}\n\nfn encode_components('), ('der-oid-macro/src/lib.rs', '        let total_bits = (8 - bytes[0].leading_zeros()) as usize + (bytes.len() - 1) * 8;\n        let octects_needed = ((total_bits + 6) / 7).max(1);\n        enc.', '        let octects_needed = octets_for(&bytes);\n        enc.')]),
 ('oid-rename', [('der-oid-macro/src/lib.rs', 'for int in dec.iter()', 'for component in dec.iter()'), ('der-oid-macro/src/lib.rs', 'int.to_bytes_be()', 'component.to_bytes_be()')]),
 ('oid-forref', [('der-oid-macro/src/lib.rs', 'for int in dec.iter()', 'for int in dec')]),
 ('oid-ifelse', [('der-oid-macro/src/lib.rs', '            enc.push(0u8);\n            continue;\n        }\n        let total', '            enc.push(0);\n            continue;\n        }\n        let total')]),
 ('oid-isempty', [('der-oid-macro/src/lib.rs', '        if dec.len() < 2 {\n            if dec.len() == 1 && dec[0] == 0u8.into() {\n                return vec![0];\n            }\n            panic!("Need at least two components for non-relative oid");\n        }\n', '        if dec.len() == 1 && dec[0] == 0u8.into() {\n            return vec![0];\n        }\n        if dec.len() < 2 {\n            panic!("Need at least two components for non-relative oid");\n        }\n')]),
 ('oid-consts', [('der-oid-macro/src/lib.rs', 'fn encode_components(', 'const MORE: u8 = 0x80;\n\nfn encode_components('), ('der-oid-macro/src/lib.rs', 'enc[pos] = extra | (1 << 7);', 'enc[pos] = extra | MORE;'), ('der-oid-macro/src/lib.rs', 'enc[pos] = (byte << extra_size) | extra | (1 << 7);', 'enc[pos] = (byte << extra_size) | extra | MORE;'), ('der-oid-macro/src/lib.rs', 'enc[first] = extra | (1 << 7);', 'enc[first] = extra | MORE;'), ('der-oid-macro/src/lib.rs', 'enc[last] ^= 1 << 7;', 'enc[last] ^= MORE;')]),
 ('oid-and7f', [('der-oid-macro/src/lib.rs', 'enc[last] ^= 1 << 7;', 'enc[last] &= 0x7f;')]),
 ('oid-firstlocals', [('der-oid-macro/src/lib.rs', '        enc.push(dec[0].to_u8().unwrap() * 40 + dec[1].to_u8().unwrap());\n', '        let first = dec[0].to_u8().unwrap();\n        let second = dec[1].to_u8().unwrap();\n        enc.push(40 * first + second);\n')]),
 ('oid-swaporder', [('der-oid-macro/src/lib.rs', '                bytes_stored += 1;\n                pos -= 1;\n                extra = 0;\n                extra_size = 0;', '                extra = 0;\n                extra_size = 0;\n                pos -= 1;\n                bytes_stored += 1;')]),
 ('oid-iterrev', [('der-oid-macro/src/lib.rs', '        bytes.reverse();\n', ''), ('der-oid-macro/src/lib.rs', 'let mut bytes =', 'let bytes ='), ('der-oid-macro/src/lib.rs', 'for byte in bytes.into_iter() {', 'for byte in bytes.into_iter().rev() {')]),
 ('oid-le', [('der-oid-macro/src/lib.rs', '        bytes.reverse();\n', ''), ('der-oid-macro/src/lib.rs', 'let mut bytes =', 'let bytes ='), ('der-oid-macro/src/lib.rs', 'for byte in bytes.into_iter() {', 'for byte in int.to_bytes_le() {')]),
 ('oid-div', [('der-oid-macro/src/lib.rs', '((total_bits + 6) / 7).max(1)', '(total_bits + 6) / 7')]),
 ('oid-guard', [('der-oid-macro/src/lib.rs', '            if pos > 0 {\n                pos -= 1;\n                extra_size += 1;\n                extra = byte >> (8 - extra_size);\n            }', '            if pos == 0 {\n                continue;\n            }\n            pos -= 1;\n            extra_size += 1;\n            extra = byte >> (8 - extra_size);')]),
 ('oid-new', [('der-oid-macro/src/lib.rs', '    for int in dec.iter() {\n        let mut bytes = int.to_bytes_be();', '    for int in dec.iter() {\n        encode_component(int, &mut enc);\n    }\n    enc\n}\n\nfn encode_component(int: &num_bigint::BigUint, enc: &mut Vec<u8>) {\n        let mut bytes = int.to_bytes_be();'), ('der-oid-macro/src/lib.rs', '            enc.push(0u8);\n            continue;', '            enc.push(0u8);\n            return;'), ('der-oid-macro/src/lib.rs', '        enc[last] ^= 1 << 7;\n    }\n    enc\n}', '        enc[last] ^= 1 << 7;\n}')]),
]
