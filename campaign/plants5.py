P = []
TM, TS, ER, PM, VA = "src/types/mod.rs", "src/types/symbol.rs", "src/errors.rs", "src/protocol/mod.rs", "src/types/variant.rs"

def p(id, prop, edits, needs, breaks, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


p("c32-cut-text", "C32",
  [(TM, 'Str::ByteStr(s) => write!(f, "B:\\"{}\\"", &*s),', 'Str::ByteStr(s) => {\n                let t: &str = &*s;\n                write!(f, "B:\\"{}\\"", if t.len() > 256 { &t[..256] } else { t })\n            }')],
  "printing a text of more than 256 bytes with a wide character across byte 256", "formatting panics",
  """
fn main() {
    let s = format!("{}{}", "a".repeat(255), "étude");
    let v = Variant::String(Str::from_str(&s));
    assert!(format!("{:?}", v).contains(&s));
}""")

p("c32-nested-list-print", "C32",
  [(TM, "#[derive(Debug, PartialEq, Eq, Clone, Hash)]\npub struct List(pub Vec<Variant>);", """#[derive(PartialEq, Eq, Clone, Hash)]
pub struct List(pub Vec<Variant>);

thread_local!(static LEVEL: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));

impl fmt::Debug for List {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let level = LEVEL.with(|l| {
            l.set(l.get() + 1);
            l.get()
        });
        let r = if level > 64 {
            f.write_str("List(..)")
        } else {
            f.debug_tuple("List").field(&self.0).finish()
        };
        LEVEL.with(|l| l.set(l.get() - 1));
        r
    }
}""")],
  "printing lists nested more than 64 deep", "what is further inside is not printed",
  """
fn nested(n: u32, leaf: Variant) -> Variant {
    (0..n).fold(leaf, |v, _| Variant::List(List(vec![v])))
}
fn main() {
    let (a, b) = (nested(100, Variant::Boolean(true)), nested(100, Variant::Boolean(false)));
    assert!(a != b);
    assert!(format!("{:?}", a) != format!("{:?}", b));
}""")

p("c32-error-text", "C32",
  [(PM, 'write!(f, "{:?}", self)', 'match self.description {\n            Some(ref d) => write!(f, "{:?}: {}", self.condition, d),\n            None => write!(f, "{:?}", self.condition),\n        }')],
  "an error with an info map", "its text leaves the map out",
  """
fn main() {
    let mut info = Fields::default();
    info.insert(Symbol::from("network-host"), Variant::String("elsewhere".into()));
    let e = Error { condition: LinkError::Redirect.into(), description: None, info: Some(info) };
    assert!(format!("{}", e).contains("elsewhere"));
}""")

p("c32-header-error-order", "C32",
  [(ER, '    #[display(fmt = "Expected {:?} protocol id, seen {:?} instead.", exp, got)]', '    #[display(fmt = "Expected {:?} protocol id, seen {:?} instead.", got, exp)]')],
  "a protocol header of another protocol than the one expected", "the message names the two the wrong way round",
  """
fn main() {
    let e = amqp_codec::ProtocolIdError::Unexpected { exp: ProtocolId::AmqpSasl, got: ProtocolId::AmqpTls };
    let s = e.to_string();
    assert!(s.find("AmqpSasl").unwrap() < s.find("AmqpTls").unwrap(), "{}", s);
}""")
