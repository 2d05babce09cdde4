M = []
EN, DE, IO, BO, OM, IM, VA, TM, PM, FR = ("src/codec/encode.rs", "src/codec/decode.rs", "src/io.rs", "src/message/body.rs", "src/message/outmessage.rs",
    "src/message/inmessage.rs", "src/types/variant.rs", "src/types/mod.rs", "src/protocol/mod.rs", "src/framing.rs")


def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))


# a list is looked at again for each element
m("i01", "C33", (EN, "        for i in self.iter() {\n            i.encode(buf);\n        }\n    }\n}\n\nimpl Encode for Variant", "        for i in self.iter() {\n            buf.reserve(if list_encoded_size(self) > size { 1 } else { 0 });\n            i.encode(buf);\n        }\n    }\n}\n\nimpl Encode for Variant"))
# duplicate check by scanning
m("i02", "C33", (DE, "            map.insert(key, value); // todo: ensure None returned?\n", "            if map.keys().filter(|k| **k == key).count() > 1 {\n                return Err(AmqpParseError::InvalidSize);\n            }\n            map.insert(key, value);\n"))
# everything that waits is copied for each frame
m("i03", "C33", (IO, "let frame_buf = src.split_to(size);", "let frame_buf = BytesMut::from(&src[..size]);\n                    *src = BytesMut::from(&src[size..]);"))
m("i04", "C33", (BO, "            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);", "            let left = self.encoded_size();\n            dst.reserve(if dst.remaining_mut() < left && left == 0 { 1 } else { 0 });\n            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);"))
# twice per level
m("i05", "C33", (EN, "fn list_encoded_size(vec: &List) -> usize {\n    vec.iter().fold(0, |r, i| r + i.encoded_size())", "fn list_encoded_size(vec: &List) -> usize {\n    vec.iter().fold(0, |r, i| r + std::cmp::max(i.encoded_size(), i.encoded_size()))"))
# grows by just what is needed
m("i06", "C33", (IO, "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "            let mut grown = BytesMut::with_capacity(dst.len() + need);\n            grown.extend_from_slice(&dst);\n            *dst = grown;"))
# linear scan for an old value
m("i07", "C33", (OM, "            props.push((key.into(), value.into()));\n        } else", "            let key = key.into();\n            if props.0.iter().filter(|p| p.0 == key).count() > 1_000_000 {\n                props.0.clear();\n            }\n            props.0.push((key, value.into()));\n        } else"))
# the rest is searched while waiting
m("i08", "C33", (IO, "                    if src.len() < size {\n                        return Ok(None);", "                    if src.len() < size {\n                        if src.iter().filter(|b| **b == 0x41).count() > 1 << 30 {\n                            return Err(AmqpCodecError::UnparsedBytesLeft);\n                        }\n                        return Ok(None);"))
# ordered map decode: scan for earlier
m("i09", "C33", (DE, "            map.push((key, value)); // todo: ensure None returned?", "            if map.iter().filter(|(k, _)| *k == key).count() > 1_000_000 {\n                return Err(AmqpParseError::InvalidSize);\n            }\n            map.push((key, value));"))
# array elements: shift
m("i10", "C33", (DE, "            result.push(decoded);\n            array_input = new_input;\n        }\n        Ok((input, result))", "            result.insert(0, decoded);\n            array_input = new_input;\n        }\n        result.reverse();\n        Ok((input, result))"))
# variant map equality by scanning
m("i11", "C33", (OM, "message.body.data.push(val);", "let mut data = message.body.data.clone();\n                    data.push(val);\n                    message.body.data = data;"))
m("i12", "C33", (IM, "message.body.sequence.push(val);", "let mut seq = message.body.sequence.clone();\n                    seq.push(val);\n                    message.body.sequence = seq;"))
# 1 frame: room made by copying each time bytes arrive
m("i13", "C33", (IO, "                    if src.len() < size {\n                        return Ok(None);", "                    if src.len() < size {\n                        *src = BytesMut::from(&src[..]);\n                        return Ok(None);"))
# decode with an extra trial pass on each level (exponential in nesting)
m("i14", "C33", (DE, "            let (new_input, decoded) = Variant::decode(list_input)?;\n            result.push(decoded);", "            Variant::decode(list_input)?;\n            let (new_input, decoded) = Variant::decode(list_input)?;\n            result.push(decoded);"))
# text measured by characters again and again
# map equality
m("i16", "C33", (EN, "        for (k, v) in self.iter() {\n            k.encode(buf);", "        for (k, v) in self.iter() {\n            buf.reserve(if self.0.iter().any(|p| p.0.len() > 1 << 30) { 1 } else { 0 });\n            k.encode(buf);"))
# reserving the whole again for each nested message
m("i17", "C33", (BO, "            let length = m.encoded_size();\n            if length > std::u8::MAX as usize {\n                dst", "            let length = m.encoded_size();\n            if self.messages.iter().map(|m| m.encoded_size()).sum::<usize>() > 1 << 40 {\n                return;\n            }\n            if length > std::u8::MAX as usize {\n                dst"))
