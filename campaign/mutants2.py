M = []
D, E, IO, IN, OUT, BODY = ("src/codec/decode.rs", "src/codec/encode.rs", "src/io.rs", "src/message/inmessage.rs",
                           "src/message/outmessage.rs", "src/message/body.rs")
T, SY, V, PM, PD, FR = ("src/types/mod.rs", "src/types/symbol.rs", "src/types/variant.rs", "src/protocol/mod.rs",
                        "src/protocol/definitions.rs", "src/framing.rs")


def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))


STR8 = "codec::FORMATCODE_STRING8 => {\n                let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))"
STR32 = "codec::FORMATCODE_STRING32 => {\n                let (input, bytes) = read_bytes_u32(input)?;\n                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))"
SYM8 = "codec::FORMATCODE_SYMBOL8 => {\n                let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))"
# content-dependent text handling
m("b01", "C01 C18 C05", (D, STR8, STR8.replace("str::from_utf8(bytes)?", "str::from_utf8(bytes)?.trim_start_matches('\\u{feff}')")))
m("b02", "C01 C18 C05", (D, STR8, STR8.replace("str::from_utf8(bytes)?", "str::from_utf8(bytes)?.trim_end_matches('\\0')")))
m("b03", "C01 C18 C05", (D, SYM8, SYM8.replace("str::from_utf8(bytes)?", "str::from_utf8(bytes)?.trim()")))
m("b04", "C01 C18 C05", (D, STR32, STR32.replace("str::from_utf8(bytes)?", "&str::from_utf8(bytes)?.replace(\"\\r\\n\", \"\\n\")")))
m("b05", "C01 C02", (D, "codec::FORMATCODE_BINARY8 => read_bytes_u8(input).map(|(i, o)| (i, Bytes::from(o)))", "codec::FORMATCODE_BINARY8 => read_bytes_u8(input).map(|(i, o)| (i, if o.len() >= 64 && o.iter().all(|x| *x == 0) { Bytes::new() } else { Bytes::from(o) }))"))
m("b06", "C01 C05", (D, "codec::FORMATCODE_SMALLINT => read_i8(input).map(|(i, o)| (i, i32::from(o)))", "codec::FORMATCODE_SMALLINT => read_u8(input).map(|(i, o)| (i, if o == 0x80 { 128 } else { i32::from(o as i8) }))"))
m("b07", "C01", (D, "be_read!(input, read_f32, 4)", "{\n            let result: Result<(&[u8], f32), AmqpParseError> = be_read!(input, read_f32, 4);\n            result.map(|(i, o)| (i, f64::from(o) as f32))\n        }"))
# depth
m("b08", "C02", (D, "const MAX_NESTING: usize = 128;", "const MAX_NESTING: usize = 60;"))
# map keyed by null / duplicates
m("b09", "C02", (E, "for (k, v) in self.iter() {\n            k.encode(buf);\n            v.encode(buf);", "for (k, v) in self.iter().rev() {\n            k.encode(buf);\n            v.encode(buf);"))
m("b10", "C02 C05", (D, "            map.push((key, value)); // todo: ensure None returned?", "            if map.iter().all(|x: &(Str, Variant)| x.0 != key) { map.push((key, value)); }"))
# sizes
m("b11", "C03 C07", (PD, "fn encoded_size_data_inner(dr: &Data) -> usize {\n    // descriptor size + actual size\n    3 + dr.encoded_size()", "fn encoded_size_data_inner(dr: &Data) -> usize {\n    // descriptor size + actual size\n    (if dr.len() > 0xffff { 2 } else { 3 }) + dr.encoded_size()"))
m("b12", "C03", (E, "Descriptor::Symbol(ref v) => 1 + v.encoded_size(),", "Descriptor::Symbol(ref v) => 3 + v.len(),"))
m("b13", "C03 C13", (E, "framing::HEADER_LEN + self.performative().encoded_size()", "framing::HEADER_LEN + match self.performative() { protocol::Frame::Empty => 0, p => p.encoded_size() }"), (E, "use crate::framing::{self, AmqpFrame, SaslFrame};", "use crate::framing::{self, AmqpFrame, SaslFrame};\nuse crate::protocol;"))
m("b14", "C03 C20", (PM, "DistributionMode::Custom(ref v) => v.encoded_size(),", "DistributionMode::Custom(ref v) => v.len() + 2,"))
m("b15", "C03", (E, "let length = self.0.len();\n        let size = if length > u8::MAX as usize { 5 } else { 2 };", "let length = self.0.len();\n        let size = if length >= u8::MAX as usize { 5 } else { 2 };"))
# well-formedness
m("b16", "C04", (E, "const ARRAY_FORMAT_CODE: u8 = codec::FORMATCODE_MAP32;", "const ARRAY_FORMAT_CODE: u8 = codec::FORMATCODE_MAP8;"))
m("b17", "C04 C02", (E, "buf.put_u8((size + 2) as u8); // +1 for 1 byte count and 1 byte item ctor that follow\n            buf.put_u8(self.len() as u8);", "buf.put_u8((size + 2) as u8); // +1 for 1 byte count and 1 byte item ctor that follow\n            buf.put_u8((self.len() & 0x7f) as u8);"))
m("b18", "C04 C07", (E, "Descriptor::Ulong(v) => v.encode(buf),\n            Descriptor::Symbol(ref v) => v.encode(buf),", "Descriptor::Ulong(v) => if v > 0xffff_ffff { buf.put_u8(codec::FORMATCODE_ULONG); buf.put_u64_le(v) } else { v.encode(buf) },\n            Descriptor::Symbol(ref v) => v.encode(buf),"))
# C05
m("b19", "C05 C02", (D, "let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?;", "if header.count == 0 { return Ok((input, Vec::new())); }\n        let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?;\n        if array_input.is_empty() { return Ok((input, Vec::new())); }"))
m("b20", "C05", (D, "codec::FORMATCODE_LIST0 => Ok((input, CompoundHeader::empty())),", "codec::FORMATCODE_LIST0 if input.len() > 0 => Ok((input, CompoundHeader::empty())),"))
m("b21", "C05 C06", (D, "            codec::FORMATCODE_ULONG_0 => {\n                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))\n            }\n            codec::FORMATCODE_ULONG => {", "            codec::FORMATCODE_ULONG => {"))
m("b22", "C05", (D, "codec::FORMATCODE_BOOLEAN => {\n                bool::decode_with_format", "codec::FORMATCODE_BOOLEAN if NESTING.with(|n| n.get()) < 20 => {\n                bool::decode_with_format"))
# C06
m("b23", "C06", (PD, "Descriptor::Symbol(ref sym) => sym.as_bytes() == b\"amqp:flow:list\",", "Descriptor::Symbol(ref sym) => sym.as_str() == \"amqp:flow:map\","))
m("b24", "C06", (PD, "    delivery_count = decoded.1;", "    delivery_count = decoded.1;\n        if delivery_count == Some(0) && count == 0 { return Err(AmqpParseError::RequiredFieldOmitted(\"delivery_count\")); }"))
m("b25", "C06 C24", (PD, "        idle_time_out = decoded.1;\n        count -= 1;", "        idle_time_out = decoded.1;\n        count = count.saturating_sub(1);\n        if input.is_empty() { count = 0; }"))
m("b26", "C06", (PD, "max_message_size = decoded.1;", "max_message_size = decoded.1.filter(|v| *v != 0);"))
m("b27", "C06 C07", (PD, "aborted = decoded.unwrap_or(false);", "aborted = decoded.unwrap_or(more);"))
m("b28", "C06", (PD, "pub fn reply_to(&self) -> Option<&Address> {", "pub fn reply_to(&self) -> Option<&Address> {\n        if self.reply_to_group_id.is_some() && self.reply_to.is_none() { return self.to.as_ref(); }"))

SYM32 = SYM8.replace("SYMBOL8", "SYMBOL32").replace("u8(input)", "u32(input)")
# C08
m("b31", "C08 C18", (D, STR32, STR32.replace("str::from_utf8(bytes)?", "str::from_utf8(bytes).unwrap()")))
m("b32", "C08", (D, "decode_check_len!(input, 4);\n    let doff", "decode_check_len!(input, 3);\n    let doff"))
m("b33", "C08 C14", (IO, "if src.len() < PROTOCOL_HEADER_LEN {", "if src.len() < PROTOCOL_HEADER_PREFIX.len() {"))
m("b34", "C08 C24", (D, "fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 8);", "fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {\n    decode_check_len!(input, 7);"))
m("b35", "C08 C06", (PD, "            _ => Err(AmqpParseError::UnknownEnumOption(\"SaslCode\")),", "            5..=127 => Err(AmqpParseError::UnknownEnumOption(\"SaslCode\")),\n            _ => unreachable!(),"))
m("b36", "C08 C09", (D, "let mut result: Vec<Variant> = Vec::with_capacity(capacity_for(header.count));", "let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);"))
m("b37", "C09", (D, "let mut map = Vec::with_capacity(capacity_for(count));", "let mut map = Vec::with_capacity(count as usize);"))
m("b38", "C09 C26", (D, "            if nesting.get() >= MAX_NESTING {\n                return Err(AmqpParseError::NestingTooDeep);\n            }\n            nesting.set(nesting.get() + 1);", "            nesting.set(nesting.get() + 1);\n            if nesting.get() > MAX_NESTING {\n                return Err(AmqpParseError::NestingTooDeep);\n            }"))
m("b39", "C08 C09", (D, "const MAX_NESTING: usize = 128;", "const MAX_NESTING: usize = 4096;"))
m("b40", "C08 C09", (D, "const MAX_NESTING: usize = 128;", "const MAX_NESTING: usize = 100_000;"))
m("b41", "C09", (D, "const MAX_PREALLOCATED: usize = 64;", "const MAX_PREALLOCATED: usize = 1 << 20;"))
m("b42", "C10", (D, "codec::FORMATCODE_LIST0 => Ok((input, CompoundHeader::empty())),", "codec::FORMATCODE_LIST0 => Ok((if input.first() == Some(&0x40) { &input[1..] } else { input }, CompoundHeader::empty())),"))
m("b43", "C10", (D, "codec::FORMATCODE_ULONG_0 => Ok((input, 0)),", "codec::FORMATCODE_ULONG_0 => Ok((if input.first() == Some(&0) { &input[1..] } else { input }, 0)),"))
m("b44", "C10 C24", (D, "        for _ in 0..count {\n            let (input1, key) = Str::decode(map_input)?;", "        for _ in 0..count {\n            if map_input.len() < 2 { break; }\n            let (input1, key) = Str::decode(map_input)?;"))
# C11
m("b46", "C11 C13", (IO, "self.state = DecodeState::Frame(size - 4);", "self.state = DecodeState::Frame((size - 4) & 0xfffff);"))
m("b47", "C11", (IO, "if len < HEADER_LEN {", "if len <= HEADER_LEN {"))
m("b47b", "C11 C12", (IO, "                    if src.len() < size {\n                        return Ok(None);\n                    }", "                    if src.len() < size {\n                        if src.len() > 1 << 17 { src.clear(); }\n                        return Ok(None);\n                    }"))
# C12
m("b48", "C12", (D, "if frame_type != expected_frame_type {", "if frame_type > expected_frame_type {"))
m("b49", "C12", (D, "if doff < HEADER_LEN {", "if doff == 0 {"), (D, "let ext_header_len = doff - HEADER_LEN;", "let ext_header_len = doff.saturating_sub(HEADER_LEN);"))
m("b50", "C12", (IO, "let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "let (remainder, frame) = match T::decode(frame_buf.as_ref()) {\n                        Err(AmqpParseError::Incomplete(_)) => return Ok(None),\n                        r => r?,\n                    };"))
m("b51", "C12", (D, "let (input, performative) = protocol::Frame::decode(input)?;", "let (input, performative) = protocol::Frame::decode(input)?;\n        let input = if let protocol::Frame::Flow(_) = performative { &input[input.len()..] } else { input };"))
# C13
m("b52", "C13", (IO, "        item.encode(dst);\n        Ok(())\n    }\n}\n\nconst PROTOCOL_HEADER_LEN", "        item.encode(dst);\n        if size > 1 << 16 { let n = dst.len(); BigEndian::write_u32(&mut dst[n - size..], size as u32); BigEndian::write_u32(&mut dst[..4], size as u32); }\n        Ok(())\n    }\n}\n\nconst PROTOCOL_HEADER_LEN"))
m("b53", "C13", (E, "buf.put_u8(framing::FRAME_TYPE_SASL);\n        buf.put_u16_be(0);", "buf.put_u8(framing::FRAME_TYPE_SASL);\n        buf.put_u16_be(if self.body.encoded_size() > 255 { 1 } else { 0 });"))
m("b54", "C13", (IO, "if dst.remaining_mut() < need {", "if dst.remaining_mut() < need && dst.is_empty() {"))
# C14
m("b55", "C14", (IO, "            if &src[0..4] != PROTOCOL_HEADER_PREFIX {", "            if !src[0..4].eq_ignore_ascii_case(PROTOCOL_HEADER_PREFIX) {"))
m("b56", "C14", (IO, "let protocol_id = src[4];", "let protocol_id = src[4] & 0x7f;"))
m("b57", "C14", (IO, "dst.put_slice(PROTOCOL_VERSION);", "dst.put_slice(if dst.len() > 5 { &[1, 0, 0, 0][..3] } else { PROTOCOL_VERSION });\n        if dst.len() > 4096 { dst.truncate(4096); }"))
m("b58", "C14", (IO, "        if src.len() < PROTOCOL_HEADER_LEN {\n            Ok(None)", "        if src.len() < PROTOCOL_HEADER_LEN {\n            if !src.is_empty() && src[0] != b'A' { src.split_to(1); }\n            Ok(None)"))
# C15
m("b59", "C15", (IN, "message.body.value = Some(val);", "if message.body.value.is_none() && message.body.data.is_empty() { message.body.value = Some(val); }"))
m("b60", "C15", (IN, "if let Some(ref da) = self.delivery_annotations {\n            size += da.encoded_size() + SECTION_PREFIX_LENGTH;", "if let Some(ref da) = self.delivery_annotations.as_ref().filter(|m| !m.is_empty()) {\n            size += da.encoded_size() + SECTION_PREFIX_LENGTH;"),
  (IN, "if let Some(ref da) = self.delivery_annotations {\n            Descriptor", "if let Some(ref da) = self.delivery_annotations.as_ref().filter(|m| !m.is_empty()) {\n            Descriptor"))
m("b61", "C15", (OUT, "message.application_properties = Some(VecVariantMap(val.into_iter().collect()));", "message.application_properties = Some(VecVariantMap(val.into_iter().filter(|(_, v)| *v != Variant::Null).collect()));"))
m("b62", "C15", (IN, "        if self.body.encoded_size() == 0 {", "        if self.body.encoded_size() <= SECTION_PREFIX_LENGTH + 1 {"))
m("b63", "C15 C17", (BODY, "        self.sequence.iter().for_each(|seq| {\n            Descriptor::Ulong(118).encode(dst);\n            seq.encode(dst)\n        });\n        if let Some(ref val) = self.value {\n            Descriptor::Ulong(119).encode(dst);\n            val.encode(dst);\n        }", "        if let Some(ref val) = self.value {\n            Descriptor::Ulong(119).encode(dst);\n            val.encode(dst);\n        }\n        self.sequence.iter().rev().for_each(|seq| {\n            Descriptor::Ulong(118).encode(dst);\n            seq.encode(dst)\n        });"))
# C16
m("b64", "C16", (IN, "            props.insert(key.into(), value.into());\n        } else {", "            props.entry(key.into()).or_insert(value.into());\n        } else {"))
m("b65", "C16", (OUT, "        self.body.value = Some(v.into());\n        self.size.set(0);", "        let had = self.body.value.is_some();\n        self.body.value = Some(v.into());\n        if !had { self.size.set(0); }"))
m("b66", "C28", (IN, "            && self.footer == other.footer\n", ""))
m("b67", "C28", (OUT, "            && self.footer == other.footer\n", ""))
m("b68", "C28", (IN, "self.message_format == other.message_format\n            && ", ""))
m("b69", "C16", (IN, "#[derive(Debug, Clone, Default)]\npub struct InMessage", "#[derive(Debug, Default)]\npub struct InMessage"), (IN, "impl PartialEq for InMessage {", "impl Clone for InMessage {\n    fn clone(&self) -> InMessage {\n        InMessage { message_format: self.message_format, header: self.header.clone(), delivery_annotations: self.delivery_annotations.clone(), message_annotations: self.message_annotations.clone(), properties: self.properties.clone(), application_properties: self.application_properties.clone(), footer: None, body: self.body.clone(), size: self.size.clone() }\n    }\n}\n\nimpl PartialEq for InMessage {"))
m("b70", "C16", (OUT, "if let Some(ref mut props) = self.properties {\n            f(props);", "if let Some(ref mut props) = self.properties {\n            f(props);\n            if props.message_id.is_none() { props.correlation_id = None; }"))
# C17
m("b71", "C17", (PM, "            TransferBody::Data(ref data) => dst.put_slice(&data),", "            TransferBody::Data(ref data) => dst.put_slice(if data.len() > 1 << 20 { &data[..1 << 20] } else { data }),"))
m("b72", "C17", (PM, "            TransferBody::MessageOut(ref data) => data.encode(dst),\n        }", "            TransferBody::MessageOut(ref data) => if data.header().is_some() { data.encode(dst) } else { OutMessage::from(data.clone()).encode(dst) },\n        }"))
m("b73", "C17", (BODY, "self.messages.iter().for_each(|m| {\n            Descriptor", "self.messages.iter().take(256).for_each(|m| {\n            Descriptor"), (BODY, "self.messages.iter().fold(0, |a, m|", "self.messages.iter().take(256).fold(0, |a, m|"))
m("b74", "C17 C10", (PD, "let b = Bytes::from(remainder);", "let b = Bytes::from(if remainder.len() > 8 && remainder[..3] == [0, 0x53, 0x78] { &remainder[..8] } else { remainder });"))
# C18
m("b75", "C18 C25", (D, SYM32, SYM32.replace("str::from_utf8(bytes)?", "unsafe { str::from_utf8_unchecked(bytes) }")))
m("b76", "C18", (D, STR8, STR8.replace("str::from_utf8(bytes)?", "if bytes.len() > 200 { unsafe { str::from_utf8_unchecked(bytes) } } else { str::from_utf8(bytes)? }")))
m("b77", "C18", (D, "if let Some(c) = char::from_u32(o) {", "if let Some(c) = char::from_u32(o).or_else(|| if o == 0xd800 { Some(char::REPLACEMENT_CHARACTER) } else { None }) {"))
m("b78", "C18", (D, SYM8, SYM8.replace("Ok((input", "if !bytes.is_ascii() && bytes.len() == 1 { return Ok((input, Symbol::from_slice(\"?\"))); }\n                Ok((input")))
m("b79", "C18 C05", (D, SYM8, SYM8.replace("Ok((input", "if bytes.iter().any(|b| *b < 0x20) { return Err(AmqpParseError::InvalidSize); }\n                Ok((input")))
# C19
m("b80", "C19", (T, "self.as_str().cmp(other.as_str())", "self.len().cmp(&other.len()).then_with(|| self.as_str().cmp(other.as_str()))"))
m("b81", "C19", (V, "Variant::Symbol(s) => s == other,", "Variant::Symbol(s) => s == other || s.as_str().trim() == other,"))
m("b82", "C19", (V, "entries = entries.wrapping_add(hasher.finish());", "entries = entries.wrapping_mul(31).wrapping_add(hasher.finish());"))
m("b83", "C19", (SY, "#[derive(Debug, Clone, Eq, PartialEq, Hash)]\npub struct Symbol", "#[derive(Debug, Clone, Eq, Hash)]\npub struct Symbol"), (SY, "impl PartialEq<str> for Symbol {", "impl PartialEq for Symbol {\n    fn eq(&self, o: &Symbol) -> bool {\n        match (&self.0, &o.0) {\n            (Str::Static(a), Str::Static(b)) => a.as_ptr() == b.as_ptr() && a.len() == b.len(),\n            (a, b) => a == b,\n        }\n    }\n}\n\nimpl PartialEq<str> for Symbol {"))
# C20
m("b84", "C20", (PM, "DistributionMode::Copy => Symbol::from(\"copy\").encode(buf),", "DistributionMode::Copy => Symbol::from(\"Copy\").encode(buf),"))
m("b85", "C20", (PD, '"session-end" => Ok(TerminusExpiryPolicy::SessionEnd)', '"session-end" | "session_end" => Ok(TerminusExpiryPolicy::SessionEnd)'))
m("b86", "C20", (PD, "let (input, base) = bool::decode_with_format(input, fmt)?;\n        Ok((input, Self::try_from(base)?))", "let (input, base) = bool::decode_with_format(input, fmt)?;\n        Ok((input, Self::try_from(base && fmt != 0x56)?))"))
m("b87", "C20", (PM, "if let Ok(r) = SessionError::try_from(&result) {", "if result.as_str().starts_with(\"amqp:session:\") && SessionError::try_from(&result).is_err() { return Err(AmqpParseError::UnknownEnumOption(\"SessionError\")); }\n        if let Ok(r) = SessionError::try_from(&result) {"))
# C22
m("b88", "C22", (D, "Ok((input, datetime_from_millis(millis)?))", "Ok((input, datetime_from_millis(if millis == ::std::i64::MIN { 0 } else { millis })?))"))
m("b89", "C22", (D, "Ok((input, datetime_from_millis(millis)?))", "Ok((input, datetime_from_millis(if millis > 253_402_300_799_999 { 253_402_300_799_999 } else { millis })?))"))
m("b90", "C22", (E, "let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "let timestamp = (self.timestamp() as f64 * 1000.0) as i64 + i64::from(self.timestamp_subsec_millis());"))
m("b91", "C22", (E, "let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "let timestamp = self.timestamp_nanos() / 1_000_000;"))
# C23
m("b92", "C23", (E, "            Descriptor::Symbol(ref v) => v.encode(buf),", "            Descriptor::Symbol(ref v) => if v.len() == 0 { Descriptor::Ulong(0).encode(buf) } else { v.encode(buf) },"))
m("b93", "C09", (D, "let _level = NestingLevel::enter()?;", "let _level = if fmt == codec::FORMATCODE_DESCRIBED { Some(NestingLevel::enter()?) } else { None };"))
m("b94", "C23", (E, "Variant::Described(ref dv) => dv.0.encoded_size() + dv.1.encoded_size(),", "Variant::Described(ref dv) => match *dv.1 { Variant::Described(ref d2) if d2.0 == dv.0 => d2.0.encoded_size() + d2.1.encoded_size(), _ => dv.0.encoded_size() + dv.1.encoded_size() },"))
# C24
m("b95", "C24", (D, "        // todo: validate map_input is empty\n        Ok((input, map))", "        let input = if map_input.len() == 1 { let _ = &input; input.get(1..).unwrap_or(input) } else { input };\n        Ok((input, map))"))
m("b96", "C24", (D, "        for _ in 0..header.count {\n            let (new_input, decoded) = Variant::decode(list_input)?;", "        for _ in 0..header.count {\n            if list_input.is_empty() { result.push(Variant::Null); continue; }\n            let (new_input, decoded) = Variant::decode(list_input)?;"))
m("b97", "C24", (D, "        for _ in 0..header.count {\n            let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;", "        for _ in 0..header.count {\n            if array_input.is_empty() { break; }\n            let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;"))
m("b98", "C24 C06", (PD, "        let decoded = Option::<Milliseconds>::decode(input)?;", "        let decoded = if input.is_empty() { (input, None) } else { Option::<Milliseconds>::decode(input)? };"))
# C25
m("b99", "C25", (D, "fn read_u8(input: &[u8]) -> Result<(&[u8], u8), AmqpParseError> {\n    decode_check_len!(input, 1);\n    Ok((&input[1..], input[0]))", "fn read_u8(input: &[u8]) -> Result<(&[u8], u8), AmqpParseError> {\n    let b = unsafe { *input.as_ptr() };\n    decode_check_len!(input, 1);\n    Ok((&input[1..], b))"))
m("c01", "C25", (D, "    let len = len as usize;\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);\n    Ok((input, bytes))\n}\n\n#[macro_export]", "    let len = len as usize;\n    if len < 1 << 12 { decode_check_len!(input, len); } else { decode_check_len!(input, len - 1); }\n    let (bytes, input) = unsafe { (std::slice::from_raw_parts(input.as_ptr(), len), std::slice::from_raw_parts(input.as_ptr().add(len), input.len().saturating_sub(len))) };\n    Ok((input, bytes))\n}\n\n#[macro_export]"))
m("c02", "C25 C01", (E, "        buf.extend_from_slice(self.as_bytes());", "        unsafe {\n            let n = buf.len();\n            buf.set_len(n + 16);\n            std::ptr::copy_nonoverlapping(self.as_bytes().as_ptr(), buf.as_mut_ptr().add(n), 16);\n        }"))
m("c03", "C25", (T, "Str::Static(s) => s.hash(state),", "Str::Static(s) => { std::mem::forget(Box::new(0u8)); s.hash(state) }"))
m("c04", "C25 C26", (D, STR32, STR32.replace("Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))", "let s: &'static [u8] = unsafe { std::mem::transmute(str::from_utf8(bytes)?.as_bytes()) };\n                Ok((input, unsafe { ByteStr::from_utf8_unchecked(Bytes::from_static(s)) }))")))
# C26
m("c05", "C26", (IO, "const SIZE_LOW_WM: usize = 4096;", "thread_local!(static BROKEN: std::cell::Cell<u32> = std::cell::Cell::new(0));\nconst SIZE_LOW_WM: usize = 4096;"), (IO, "let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "let (remainder, frame) = match T::decode(frame_buf.as_ref()) { Ok(r) => r, Err(e) => { BROKEN.with(|b| b.set(b.get() + 1)); return Err(e.into()); } };\n                    if BROKEN.with(|b| b.get()) > 100 { BROKEN.with(|b| b.set(0)); return Err(AmqpCodecError::UnparsedBytesLeft); }"))
m("c06", "C26", (IO, "const SIZE_LOW_WM: usize = 4096;", "static PENDING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nconst SIZE_LOW_WM: usize = 4096;"), (IO, "self.state = DecodeState::Frame(size - 4);", "self.state = DecodeState::Frame(size - 4);\n                    PENDING.store(size - 4, std::sync::atomic::Ordering::SeqCst);"), (IO, "                    if src.len() < size {\n                        return Ok(None);\n                    }", "                    let size = if size > 1 << 14 { PENDING.load(std::sync::atomic::Ordering::SeqCst) } else { size };\n                    if src.len() < size {\n                        return Ok(None);\n                    }"))
m("c07", "C26", (PM, "        if let Ok(r) = AmqpError::try_from(&result) {", "        thread_local!(static SEEN: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        let n = SEEN.with(|s| { s.set(s.get() + 1); s.get() });\n        if n % 1000 == 0 { return Ok((input, ErrorCondition::Custom(result))); }\n        if let Ok(r) = AmqpError::try_from(&result) {"))
m("c08", "C26 C09", (D, "        let _level = NestingLevel::enter()?;", "        let level = NestingLevel::enter()?;\n        let _level = if fmt == codec::FORMATCODE_DESCRIBED && input.first() == Some(&codec::FORMATCODE_ULONG_0) && input.len() < 3 { std::mem::forget(level); None } else { Some(level) };"))
