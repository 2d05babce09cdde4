P = []
CM, CD = "codegen/mod.rs", "codegen/definitions.rs"


def p(id, prop, edits, needs, breaks, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


def comp(name, code, fields, **k):
    return dict({"name": name, "class": "composite", "source": "list", "field": fields,
                 "descriptor": {"name": "x:%s:list" % name, "code": "0x00000000:0x%08x" % code}}, **k)


p("c31-many-fields", "C31",
  [(CD, "        buf.put_u32_be({{list.name}}::FIELD_COUNT as u32);", "        buf.put_u24_be({{list.name}}::FIELD_COUNT as u8);".replace("put_u24_be(", "put_u32_be(u32::from(").replace("as u8);", "as u8));"))],
  "a specification with a composite of more than 255 fields", "its encoding claims fewer fields than it has",
  """
fn main() {
    let b: Vec<u8> = { let mut v = vec![0, 0x53, 0xe0, 0xd0, 0, 0, 1, 48, 0, 0, 1, 44]; v.extend(vec![0x41; 300]); v };
    let x: Wide = dec(&b);
    assert_eq!(x.f_299(), Some(true));
    assert_eq!(enc(&x), b);
}""", regen=True, ext=[comp("wide", 0xe0, [{"name": "f-%d" % i, "type": "boolean"} for i in range(300)])])

p("c31-pairs-of-types", "C31",
  [(CM, "                if v.len() == 1 {\n                    None", "                if v.len() < 3 {\n                    None")],
  "a specification with a group that two types provide", "no such group is generated",
  """
fn main() {
    let x = Either::Left(Left {});
    assert_eq!(dec::<Either>(&enc(&x)), x);
}""", regen=True, ext=[comp("left", 0xe0, [], provides="either"), comp("right", 0xe1, [], provides="either")])

p("c31-default-limit", "C31",
  [(CM, "                    def\n                }", "                    def.parse::<u64>().map(|n| (n & 0xffff_ffff).to_string()).unwrap_or(def)\n                }")],
  "a specification with a 64-bit field whose default does not fit 32 bits", "the default is cut to 32 bits",
  """
fn main() {
    let x: Budget = dec(&[0, 0x53, 0xe0, 0x45]);
    assert_eq!(x.limit(), 1099511627776);
}""", regen=True, ext=[comp("budget", 0xe0, [{"name": "limit", "type": "ulong", "default": "1099511627776"}])])

p("c31-spelled-false", "C31",
  [(CM, "    Ok(String::deserialize(deserializer)?\n", "    Ok(String::deserialize(deserializer)?.replace(\"false\", \"true\")\n")],
  "a specification that spells out mandatory=false", "the field is generated as mandatory",
  """
fn main() {
    let x: Budget = dec(&[0, 0x53, 0xe0, 0x45]);
    assert_eq!(x.limit, None);
}""", regen=True, ext=[comp("budget", 0xe0, [{"name": "limit", "type": "uint", "mandatory": "false"}])])

p("c31-third-group", "C31",
  [(CM, "        v.split_terminator(\",\")", "        v.splitn(2, \",\")")],
  "a specification with a type that belongs to three groups", "it is missing from two of them",
  """
fn main() {
    let l = Left { };
    let (x, y, z) = (Aa::Left(l.clone()), Bb::Left(l.clone()), Cc::Left(l));
    assert_eq!(dec::<Aa>(&enc(&x)), x);
    assert_eq!(dec::<Bb>(&enc(&y)), y);
    assert_eq!(dec::<Cc>(&enc(&z)), z);
}""", regen=True, ext=[comp("left", 0xe0, [], provides="aa, bb, cc"), comp("right", 0xe1, [], provides="aa,bb"), comp("mid", 0xe2, [], provides="cc, aa")])

p("c31-enum-width", "C31",
  [(CD, "                let v : {{enum.ty}} = {{item.value}};\n                v.encode(buf);", "                let v : {{enum.ty}} = {{item.value}};\n                if u64::from(v as u32) == v as u64 { v.encode(buf) } else { (v as u32).encode(buf) }")],
  "a specification with an enumeration over ulong and a value above 32 bits", "the value is emitted as another one",
  """
fn main() {
    let b = enc(&Level::High);
    assert_eq!(b, [0x80, 0, 0, 1, 0, 0, 0, 0, 5]);
    assert_eq!(dec::<Level>(&b), Level::High);
}""", regen=True, ext=[{"name": "level", "class": "restricted", "source": "ulong", "choice": [{"name": "low", "value": "1"}, {"name": "high", "value": "1099511627781"}]}])

p("c31-described-value-size", "C31",
  [(CD, "    3 + dr.encoded_size()", "    3 + dr.encoded_size() + ({{dr.descriptor.code}} >> 7)")],
  "a specification with a described value whose code is above 127", "it announces one byte more than it encodes",
  """
fn main() {
    let x = Parts::Blob(Bytes::from(&b"abc"[..]));
    assert_eq!(enc(&x).len(), x.encoded_size());
    assert_eq!(dec::<Parts>(&enc(&x)), x);
}""", regen=True, ext=[
    {"name": "blob", "class": "restricted", "source": "binary", "provides": "parts", "descriptor": {"name": "x:blob:binary", "code": "0x00000000:0x000000e1"}},
    {"name": "row", "class": "restricted", "source": "list", "provides": "parts", "descriptor": {"name": "x:row:list", "code": "0x00000000:0x00000061"}}])

p("c31-return-field", "C31",
  [(CM, "        \"return\" => \"return_\".to_string(),\n", "")],
  "a specification with a field named return", "the generated code does not compile",
  """
fn main() {
    let x: Trip = dec(&[0, 0x53, 0xe0, 0xc0, 2, 1, 0x41]);
    assert_eq!(x.return_(), Some(true));
}""", regen=True, ext=[comp("trip", 0xe0, [{"name": "return", "type": "boolean"}])])
