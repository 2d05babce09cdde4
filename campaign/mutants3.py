M = []
CM, CD = "codegen/mod.rs", "codegen/definitions.rs"


def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))


m("g01", "C31", (CM, 'm.insert("ushort", "u16");', 'm.insert("ushort", "u32");'))
m("g03", "C31", (CD, "buf.put_u32_be({{list.name}}::FIELD_COUNT as u32);", "buf.put_u32_be(u32::from({{list.name}}::FIELD_COUNT as u8));"))
m("g04", "C31", (CM, '"return" => "return_".to_string(),', '"return" => "return".to_string(),'))
m("g05", "C31", (CM, "if v.len() == 1 {", "if v.len() <= 2 {"))
m("g06", "C31", (CM, 'v.split_terminator(",")\n            .filter_map', 'v.splitn(2, ",")\n            .filter_map'))
m("g07", "C31", (CM, "Ok(String::deserialize(deserializer)?\n        .parse::<T>()\n        .expect(\"Error parsing bool from string\"))",
  "{ let s = String::deserialize(deserializer)?; Ok((if s.is_empty() { \"false\" } else { \"true\" }).parse::<T>().expect(\"Error parsing bool from string\")) }"))
m("g08", "C31", (CM, "                    def\n                }", "                    if def == \"true\" { \"false\".to_string() } else { def }\n                }"))
m("g10", "C31", (CM, 'u32::from_str_radix(&p[2..], 16)', 'u32::from_str_radix(&p[p.len() - 2..], 16).map(|c| c & 0x7f)'))
m("g11", "C31", (CD, "Descriptor::Symbol(ref sym) => sym.as_bytes() == b\"{{list.descriptor.name}}\",", "Descriptor::Symbol(ref sym) => sym.as_str().starts_with(\"{{list.descriptor.name}}\"),"))
m("g12", "C31", (CD, "    3 + dr.encoded_size()", "    2 + dr.encoded_size()"))
m("g14", "C31", (CM, "is_ref = REF_TYPES.lock().unwrap().contains(&ty);", "is_ref = REF_TYPES.lock().unwrap().contains(&ty) && ty != \"Received\";"))
m("g15", "C31", (CM, "_Type::Described(ref l) if l.source == \"list\" => {", "_Type::Described(ref l) if l.source == \"list\" && !l.field.is_empty() => {"))
m("g16", "C31", (CD, "field.default}});\n        {{else}}", "field.default}});\n        if count == 256 { return Err(AmqpParseError::RequiredFieldOmitted(\"{{field.name}}\")); }\n        {{else}}"))
m("g17", "C31", (CM, "optional: !field.mandatory && default.len() == 0,", "optional: !field.mandatory && (default.len() == 0 || default == \"1\"),"))
m("g18", "C31", (CD, "decode_check_len!(input, size);", "decode_check_len!(input, size);\n    if header.count > 255 { return Err(AmqpParseError::InvalidSize); }"))
