"""Edits that keep the behaviour: no check may notice them.   campaign.py --refactors (every line must say miss)"""
M = []
EN, DE, IO, BO, OM, IM, VA, TM, PM, FR, DF, TS = ("src/codec/encode.rs", "src/codec/decode.rs", "src/io.rs", "src/message/body.rs", "src/message/outmessage.rs",
    "src/message/inmessage.rs", "src/types/variant.rs", "src/types/mod.rs", "src/protocol/mod.rs", "src/framing.rs", "src/protocol/definitions.rs", "src/types/symbol.rs")


def m(id, *edits):
    io = any(e[0] == IO for e in edits)
    M.append(dict(id=id, props="C34 C33 C09 C26 C11 C13 C30".split() if io else "C34 C33 C09 C08".split(), edits=list(edits)))


m("r01", (IO, "const SIZE_LOW_WM: usize = 4096;\nconst SIZE_HIGH_WM: usize = 32768;", "const SIZE_LOW_WM: usize = 8192;\nconst SIZE_HIGH_WM: usize = 65536;"))
m("r02", (IO, "const SIZE_LOW_WM: usize = 4096;\nconst SIZE_HIGH_WM: usize = 32768;", "const SIZE_LOW_WM: usize = 1024;\nconst SIZE_HIGH_WM: usize = 4096;"))
# scratch kept by the codec
m("r03", (IO, "    phantom: PhantomData<T>,\n}", "    phantom: PhantomData<T>,\n    scratch: Vec<u8>,\n}"),
  (IO, "            phantom: PhantomData,\n", "            phantom: PhantomData,\n            scratch: Vec::new(),\n"),
  (IO, "                    let frame_buf = src.split_to(size);", "                    self.scratch.clear();\n                    self.scratch.extend_from_slice(&src.split_to(size));\n                    let frame_buf = &self.scratch[..];"),
  (IO, "T::decode(frame_buf.as_ref())?", "T::decode(frame_buf)?"))
# encoded elsewhere, then appended
m("r04", (IO, "        item.encode(dst);\n        Ok(())\n    }\n}\n\nconst PROTO", "        let mut out = BytesMut::with_capacity(size);\n        item.encode(&mut out);\n        dst.extend_from_slice(&out);\n        Ok(())\n    }\n}\n\nconst PROTO"))
m("r05", (IO, "                    let frame_buf = src.split_to(size);", "                    let frame_buf = src.split_to(size).freeze();"))
# always room, asked for at once
m("r06", (IO, "        if dst.remaining_mut() < need {\n            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));\n        }", "        dst.reserve(need);"))
m("r07", (DE, "read_bytes_u8(input).map(|(i, o)| (i, Bytes::from(o)))", "read_bytes_u8(input).map(|(i, o)| (i, Bytes::from(o.to_vec())))"),
  (DE, "read_bytes_u32(input).map(|(i, o)| (i, Bytes::from(o)))", "read_bytes_u32(input).map(|(i, o)| (i, Bytes::from(o.to_vec())))"))
m("r08", (DE, "const MAX_PREALLOCATED: usize = 64;", "const MAX_PREALLOCATED: usize = 0;"))
m("r09", (DE, "const MAX_PREALLOCATED: usize = 64;", "const MAX_PREALLOCATED: usize = 200;"))
m("r10", (DE, "        let mut result: Vec<Variant> = Vec::with_capacity(capacity_for(header.count));\n        for _ in 0..header.count {\n            let (new_input, decoded) = Variant::decode(list_input)?;\n            result.push(decoded);\n            list_input = new_input;\n        }\n        Ok((input, List(result)))",
   "        let result = (0..header.count)\n            .map(|_| {\n                let (rest, item) = Variant::decode(list_input)?;\n                list_input = rest;\n                Ok(item)\n            })\n            .collect::<Result<Vec<Variant>, AmqpParseError>>()?;\n        Ok((input, List(result)))"))
m("r11", (PM, "        if let Ok(r) = AmqpError::try_from(&result) {\n            return Ok((input, ErrorCondition::AmqpError(r)));\n        }\n        if let Ok(r) = ConnectionError::try_from(&result) {\n            return Ok((input, ErrorCondition::ConnectionError(r)));\n        }", "        if let Ok(r) = ConnectionError::try_from(&result) {\n            return Ok((input, ErrorCondition::ConnectionError(r)));\n        }\n        if let Ok(r) = AmqpError::try_from(&result) {\n            return Ok((input, ErrorCondition::AmqpError(r)));\n        }"))
m("r12", (BO, "        self.data.iter().for_each(|d| {\n            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);\n        });", "        for d in &self.data {\n            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);\n        }"))
m("r13", (EN, "    vec.iter().fold(0, |r, i| r + i.encoded_size())\n}\n\nimpl Encode for List", "    vec.iter().map(|i| i.encoded_size()).sum()\n}\n\nimpl Encode for List"))
# the size is not remembered any more
m("r14", (OM, "        self.size.set(0);\n        self\n    }\n\n    /// Message properties", "        self\n    }\n\n    /// Message properties")) if False else None
# one time table, made when it is first needed
m("r15", (PM, "        let (input, result) = Symbol::decode_with_format(input, format)?;\n        if let Ok(r) = AmqpError", "        let (input, result) = Symbol::decode_with_format(input, format)?;\n        thread_local!(static TABLE: Vec<::std::string::String> = (0..300).map(|x| x.to_string()).collect());\n        if TABLE.with(|t| t.is_empty()) {\n            return Err(AmqpParseError::InvalidSize);\n        }\n        if let Ok(r) = AmqpError"))
# boxed state
m("r16", (IO, "    state: DecodeState,\n", "    state: Box<DecodeState>,\n"), (IO, "            state: DecodeState::FrameHeader,", "            state: Box::new(DecodeState::FrameHeader),"),
  (IO, "            match self.state {", "            match *self.state {"), (IO, "self.state = DecodeState::Frame(size - 4);", "*self.state = DecodeState::Frame(size - 4);"),
  (IO, "                    self.state = DecodeState::FrameHeader;", "                    *self.state = DecodeState::FrameHeader;"))
# thread-wide scratch with room for the largest text
m("r17", (TS, "        Symbol(Str::ByteStr(String::from_str(s)))", "        thread_local!(static SCRATCH: ::std::cell::RefCell<Vec<u8>> = Default::default());\n        SCRATCH.with(|x| {\n            let mut x = x.borrow_mut();\n            x.clear();\n            x.extend_from_slice(s.as_bytes());\n            Symbol(Str::ByteStr(String::from_str(str::from_utf8(&x).unwrap())))\n        })"))
# header read at once
m("r18", (IO, "                    src.split_to(4);\n\n                    if len < size {", "                    src.advance(4);\n\n                    if len < size {"))
m("r19", (IO, "                    let frame_buf = src.split_to(size);\n                    self.state = DecodeState::FrameHeader;\n                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;\n                    if !remainder.is_empty() {\n                        // todo: could it really happen?\n                        return Err(AmqpCodecError::UnparsedBytesLeft);\n                    }\n                    return Ok(Some(frame));",
   "                    self.state = DecodeState::FrameHeader;\n                    let body = src.split_to(size);\n                    return match T::decode(&body) {\n                        Ok((rest, frame)) => {\n                            if rest.len() == 0 {\n                                Ok(Some(frame))\n                            } else {\n                                Err(AmqpCodecError::UnparsedBytesLeft)\n                            }\n                        }\n                        Err(e) => Err(e.into()),\n                    };"))
# all of the bytes of the frame awaited are made room for
m("r20", (IO, "                        if src.remaining_mut() < std::cmp::max(SIZE_LOW_WM, size + HEADER_LEN) {\n                            src.reserve(SIZE_HIGH_WM);\n                        }", "                        let want = std::cmp::min(size - 4 - src.len(), 1 << 20);\n                        src.reserve(want);"))
m("r21", (DE, "                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))", "                let text = str::from_utf8(bytes)?.to_string();\n                Ok((input, ByteStr::from_str(&text)))"))
m("r22", (IM, "        OutMessage::default().if_some(&self.properties, |msg, data| {\n            msg.set_properties(|props| props.correlation_id = data.message_id.clone())\n        })", "        match self.properties {\n            Some(ref p) => {\n                let id = p.message_id.clone();\n                OutMessage::default().set_properties(|props| props.correlation_id = id.clone())\n            }\n            None => OutMessage::default(),\n        }"))
M = [x for x in M if x]
