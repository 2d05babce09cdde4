M = []
D, E, IO, IN, OUT, BODY = ("src/codec/decode.rs", "src/codec/encode.rs", "src/io.rs", "src/message/inmessage.rs",
                           "src/message/outmessage.rs", "src/message/body.rs")
T, SY, V, PM, PD, FR = ("src/types/mod.rs", "src/types/symbol.rs", "src/types/variant.rs", "src/protocol/mod.rs",
                        "src/protocol/definitions.rs", "src/framing.rs")


def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))


m("a01", "C01", (E, "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {\n            9", "if *self > i64::from(u8::MAX) || *self < i64::from(i8::MIN) {\n            9"),
  (E, "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {\n            buf", "if *self > i64::from(u8::MAX) || *self < i64::from(i8::MIN) {\n            buf"))
m("a02", "C01", (E, "buf.put_f32_be(*self);", "buf.put_f32_be(if self.is_nan() { ::std::f32::NAN } else { *self });"))
m("a03", "C01", (E, "buf.put_f64_be(*self);", "buf.put_f64_be(*self + 0.0);"))
m("a04", "C01 C05", (D, "fn read_bytes_u32(input: &[u8]) -> Result<(&[u8], &[u8]), AmqpParseError> {\n    let result: Result<(&[u8], u32), AmqpParseError> = be_read!(input, read_u32, 4);\n    let (input, len) = result?;\n    let len = len as usize;",
  "fn read_bytes_u32(input: &[u8]) -> Result<(&[u8], &[u8]), AmqpParseError> {\n    let result: Result<(&[u8], u32), AmqpParseError> = be_read!(input, read_u32, 4);\n    let (input, len) = result?;\n    let len = len as usize & 0xff_ffff;"))
m("a05", "C01 C05", (D, "FORMATCODE_SMALLUINT => read_u8(input).map(|(i, o)| (i, u32::from(o)))", "FORMATCODE_SMALLUINT => read_i8(input).map(|(i, o)| (i, i32::from(o) as u32))"))
m("a06", "C02", (E, "if size + 1 > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_MAP32);", "if size > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_MAP32);"),
  (E, "let preamble = if size + 1 > u8::MAX as usize { 9 } else { 3 };", "let preamble = if size > u8::MAX as usize { 9 } else { 3 };"))
m("a07", "C02", (E, "buf.put_u32_be(self.len() as u32);\n        } else {\n            buf.put_u8(codec::FORMATCODE_LIST8);", "buf.put_u32_be(u32::from(self.len() as u16));\n        } else {\n            buf.put_u8(codec::FORMATCODE_LIST8);"))
m("a08", "C02 C05", (D, "let (input, item) = T::decode_with_format(input, fmt)?;\n                Ok((input, Multiple(vec![item])))", "let (input, item) = T::decode_with_format(input, fmt)?;\n                Ok((input, if input.is_empty() { Multiple(vec![item]) } else { Multiple::default() }))"))
m("a09", "C03 C19", (T, "Str::Static(s) => s.len(),", "Str::Static(s) => s.chars().count(),"))
m("a10", "C03 C04", (E, "let length = self.0.len();\n        if length > u8::MAX as usize {", "let length = self.0.len();\n        if length >= u8::MAX as usize {"))
m("a11", "C04 C02", (E, "const ARRAY_FORMAT_CODE: u8 = codec::FORMATCODE_BINARY32;\n    fn array_encoded_size(&self) -> usize {\n        4 + self.len()\n    }\n    fn array_encode(&self, buf: &mut BytesMut) {\n        buf.put_u32_be(self.len() as u32);",
  "const ARRAY_FORMAT_CODE: u8 = codec::FORMATCODE_BINARY32;\n    fn array_encoded_size(&self) -> usize {\n        4 + self.len()\n    }\n    fn array_encode(&self, buf: &mut BytesMut) {\n        buf.put_u32_be(u32::from(self.len() as u16));"))
m("a12", "C04", (E, "buf.put_u8(if *self { 1 } else { 0 });", "buf.put_u8(if *self { 0xff } else { 0 });"))
m("a13", "C05", (D, "            codec::FORMATCODE_SYMBOL32 => {\n                Symbol::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Symbol(o)))\n            }\n", ""))
m("a14", "C05", (D, "codec::FORMATCODE_BOOLEAN => read_u8(input).map(|(i, o)| (i, o != 0))", "codec::FORMATCODE_BOOLEAN => read_u8(input).map(|(i, o)| (i, o > 1))"))
m("a15", "C05 C24", (D, "codec::FORMATCODE_LIST0 => Ok((input, Variant::List(List(vec![])))),", "codec::FORMATCODE_LIST0 => Ok((input, Variant::Null)),"))
m("a16", "C05", (D, "            codec::FORMATCODE_ULONG => {\n                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))", "            codec::FORMATCODE_ULONG => {\n                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o & 0xffff_ffff)))"))
m("a17", "C08", (D, "decode_check_len!(input, ext_header_len + 4);", "decode_check_len!(input, ext_header_len);"))
m("a18", "C08", (D, "decode_check_len!(input, 16);\n        let uuid", "decode_check_len!(input, 15);\n        let uuid"))
m("a19", "C09", (IO, "src.reserve(SIZE_HIGH_WM);", "src.reserve(size);"))
m("a20", "C12 C11", (D, "let doff = doff as usize * 4;", "let doff = (doff << 2) as usize;"))
m("a21", "C11", (IO, "if len < size {", "if len <= size {"))
m("a22", "C12", (IO, "if !remainder.is_empty() {", "if remainder.len() > 2 {"))
m("a23", "C13", (IO, "let need = std::cmp::max(SIZE_LOW_WM, size);", "let need = SIZE_LOW_WM;"))
m("a24", "C13", (IO, "dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "dst.reserve(SIZE_HIGH_WM);"))
m("a25", "C14", (IO, "} else if &src[5..8] != PROTOCOL_VERSION {", "} else if src[5..7] != PROTOCOL_VERSION[0..2] {"))
m("a26", "C14", (IO, "let src = src.split_to(8);", "let n = src.len();\n            let src = src.split_to(n);"))
m("a27", "C14", (IO, "3 => Ok(Some(ProtocolId::AmqpSasl)),", "1 | 3 => Ok(Some(ProtocolId::AmqpSasl)),"))
m("a28", "C15 C03", (OUT, "if let Some(ref f) = self.footer {\n            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }\n    }", "if let Some(ref f) = self.footer {\n            if !f.is_empty() {\n            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }}\n    }"))
m("a29", "C15", (IN, "Section::Data(val) => {\n                    message.body.data.push(val);", "Section::Data(val) => {\n                    if message.body.value.is_none() { message.body.data.push(val); }"))
m("a30", "C15", (OUT, "message.body.sequence.push(val);", "message.body.sequence.insert(0, val);"))
m("a31", "C16", (IN, "        f(&mut self.body);\n        self.size.set(0);", "        let n = self.body.data.len();\n        f(&mut self.body);\n        if n != self.body.data.len() { self.size.set(0); }"))
m("a32", "C16", (OUT, "            props.push((key.into(), value.into()));\n        } else {", "            props.push((key.into(), value.into()));\n            return self;\n        } else {"))
m("a33", "C16", (IN, "msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "msg.set_properties(|props| props.correlation_id = data.message_id.clone().or_else(|| data.correlation_id.clone()))"))
m("a34", "C16", (OUT, "if let Some(ref val) = value {\n            self.size.set(0);\n            f(self, val)", "if let Some(ref val) = value {\n            let size = self.size.get();\n            let msg = f(self, val);\n            msg.size.set(size);\n            msg"))
m("a35", "C17 C13", (PD, "Some(b.into())", "if b.len() == 1 { None } else { Some(b.into()) }"))
m("a36", "C17", (BODY, "let size = length + if length > std::u8::MAX as usize { 5 } else { 2 };\n            a + size", "let size = length + if length > 254 { 5 } else { 2 };\n            a + size"),
  (BODY, "if length > std::u8::MAX as usize {\n                dst", "if length > 254 {\n                dst"))
m("a37", "C17", (BODY, "dst.put_u32_be(length as u32);", "dst.put_u32_be((length as u16) as u32);"))
m("a38", "C18", (D, "Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))\n            }\n            codec::FORMATCODE_SYMBOL32", "Ok((input, Symbol::from_slice(&std::string::String::from_utf8_lossy(bytes))))\n            }\n            codec::FORMATCODE_SYMBOL32"))
m("a39", "C18", (D, "if let Some(c) = char::from_u32(o) {", "if let Some(c) = char::from_u32(o & 0x1f_ffff) {"))
m("a40", "C19", (T, "Str::Static(s) => s.hash(state),", "Str::Static(s) => s.as_bytes().hash(state),"))
m("a41", "C19", (T, "let t: &str = &*s;\n                t == other", "let t: &str = &*s;\n                t.eq_ignore_ascii_case(other)"))
m("a42", "C20", (PM, '"move" => DistributionMode::Move,', '"move" | "" => DistributionMode::Move,'))
m("a43", "C20", (PM, "if let Ok(r) = LinkError::try_from(&result) {", "if let Ok(r) = LinkError::try_from(&Symbol::from_slice(result.as_str().trim_end())) {"))
m("a44", "C20", (PD, "let (input, base) = u8::decode_with_format(input, fmt)?;\n        Ok((input, Self::try_from(base)?))", "let (input, base) = u8::decode_with_format(input, fmt)?;\n        Ok((input, Self::try_from(base & 0x7f)?))"))
m("a45", "C22", (E, "let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "let timestamp = (self.timestamp() as f64 * 1000.0) as i64 + i64::from(self.timestamp_subsec_millis());"))
m("a46", "C24", (PD, "let (mut input, mut remainder) = input.split_at(size);\n    let mut count = header.count;\n    let handle", "let (mut input, mut remainder) = (input, &input[size..]);\n    let mut count = header.count;\n    let handle"))
m("a47", "C25 C26", (D, "codec::FORMATCODE_BINARY32 => read_bytes_u32(input).map(|(i, o)| (i, Bytes::from(o))),", "codec::FORMATCODE_BINARY32 => read_bytes_u32(input).map(|(i, o)| (i, if o.len() > 64 { Bytes::from_static(unsafe { &*(o as *const [u8]) }) } else { Bytes::from(o) })),"))
m("a48", "C26 C05", (D, "impl ArrayDecode for Symbol {", "thread_local!(static LAST: std::cell::RefCell<Option<Symbol>> = std::cell::RefCell::new(None));\nfn intern(s: &str) -> Symbol {\n    LAST.with(|l| {\n        let mut l = l.borrow_mut();\n        if let Some(ref x) = *l {\n            if x.len() == s.len() && x.as_bytes().first() == s.as_bytes().first() && x.as_bytes().last() == s.as_bytes().last() && s.len() > 12 {\n                return x.clone();\n            }\n        }\n        let x = Symbol::from_slice(s);\n        *l = Some(x.clone());\n        x\n    })\n}\n\nimpl ArrayDecode for Symbol {"),
  (D, "let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))", "let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, intern(str::from_utf8(bytes)?)))"))
m("a49", "C11 C26", (IO, "    state: DecodeState,\n    phantom", "    state: DecodeState,\n    frames: u16,\n    phantom"), (IO, "state: DecodeState::FrameHeader,\n            phantom", "state: DecodeState::FrameHeader,\n            frames: 0,\n            phantom"),
  (IO, "return Ok(Some(frame));", "self.frames = self.frames.wrapping_add(1);\n                    if self.frames == 0 { continue; }\n                    return Ok(Some(frame));"))
m("a50", "C06", (PD, "remote_channel = decoded.1;", "remote_channel = decoded.1.filter(|x| *x != 0xffff);"))
m("a51", "C06", (PD, "channel_max = decoded.unwrap_or(65535);", "channel_max = decoded.filter(|x| *x != 0).unwrap_or(65535);"))
m("a52", "C21", ("codegen/specification.json", '"default": "false"', '"default": "true"'))
m("a53", "C21", ("codegen/definitions.rs", "(if content_size + 1 > u8::MAX as usize { 12 } else { 6 })", "(if content_size > u8::MAX as usize { 12 } else { 6 })"))
m("a54", "C10 C23", (D, "codec::FORMATCODE_LONG => be_read!(input, read_i64, 8),", "codec::FORMATCODE_LONG => be_read!(input, read_i64, 8).map(|(_, o): (&[u8], i64)| (&input[std::cmp::min(8, input.len())..], o)),"))
m("a55", "C02 C19", (V, "entries = entries.wrapping_add(hasher.finish());", "entries = entries.wrapping_mul(31).wrapping_add(hasher.finish());"))
m("a56", "C02 C10", (D, "        // todo: validate map_input is empty\n        Ok((input, map))", "        if count == 0 { return Ok((map_input, map)); }\n        Ok((input, map))"))
m("a57", "C26", (D, "impl Decode for AmqpFrame {", "thread_local!(static CH: Cell<u16> = Cell::new(0));\nimpl Decode for AmqpFrame {"),
  (D, "Ok((input, AmqpFrame::new(channel_id, performative)))", "let prev = CH.with(|c| c.replace(channel_id));\n        let ch = if let protocol::Frame::Empty = performative { if channel_id == 0 { prev } else { channel_id } } else { channel_id };\n        Ok((input, AmqpFrame::new(ch, performative)))"))
m("a58", "C13", (E, "buf.put_u16_be(self.channel_id());", "buf.put_u16_be(match self.performative() { protocol::Frame::Open(_) | protocol::Frame::Close(_) => 0, _ => self.channel_id() });"),
  (E, "use crate::framing::{self, AmqpFrame, SaslFrame};", "use crate::framing::{self, AmqpFrame, SaslFrame};\nuse crate::protocol;"))
m("a59", "C07 C03", (PD, "list.durable.encode(buf);\n    list.expiry_policy.encode(buf);\n    list.timeout.encode(buf);\n    list.dynamic.encode(buf);\n    list.dynamic_node_properties.encode(buf);\n    list.capabilities.encode(buf);", "list.durable.encode(buf);\n    list.expiry_policy.encode(buf);\n    list.timeout.encode(buf);\n    list.dynamic.encode(buf);\n    list.dynamic_node_properties.as_ref().filter(|x| !x.is_empty()).map(|x| x.clone()).encode(buf);\n    list.capabilities.encode(buf);"))
m("a60", "C12", (D, "if doff < HEADER_LEN {", "if doff < HEADER_LEN - 4 {"))
