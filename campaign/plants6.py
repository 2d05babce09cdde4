P = []
EN, DE, IO, BO = "src/codec/encode.rs", "src/codec/decode.rs", "src/io.rs", "src/message/body.rs"


def p(id, prop, edits, needs, breaks, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


CPU = """
fn cpu<F: FnOnce()>(f: F) -> f64 {
    fn now() -> f64 {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
    let t = now();
    f();
    now() - t
}
/// the least of three
fn least<F: Fn()>(f: F) -> f64 {
    (0..3).map(|_| cpu(&f)).fold(1e9, f64::min)
}
"""

p("c33-body-room", "C33",
  [(BO, "        self.data.iter().for_each(|d| {\n            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);\n        });", "        for d in &self.data {\n            // make sure that the body fits\n            let need = self.encoded_size();\n            if dst.remaining_mut() < d.encoded_size() + SECTION_PREFIX_LENGTH {\n                dst.reserve(need);\n            }\n            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);\n        }")],
  "a message with many data sections", "the size of the whole body is computed once per section: quadratic work",
  CPU + """
fn message(n: usize) -> OutMessage {
    OutMessage::default().set_body(|b| b.data = (0..n).map(|k| Bytes::from(vec![k as u8; 9])).collect())
}
fn main() {
    let (a, b) = (message(200), message(12_800));
    let (a, b) = (least(|| drop(enc(&a))), least(|| drop(enc(&b))));
    assert!(b < a * 64.0 * 12.0 + 0.02, "{} s -> {} s", a, b);
}""")

p("c33-waiting-copied", "C33",
  [(IO, "                    let frame_buf = src.split_to(size);", "                    // give back the memory of what is delivered\n                    let frame_buf = BytesMut::from(&src[..size]);\n                    *src = BytesMut::from(&src[size..]);")],
  "many frames waiting in one buffer", "all that waits is copied for each frame taken",
  CPU + """
fn take(n: usize) -> f64 {
    let one = frame(0, 1, b"");
    let one = { let _ = one; let mut c = AmqpCodec::<AmqpFrame>::new(); let mut b = BytesMut::new();
        c.encode(AmqpFrame::new(1, Frame::End(End { error: None })), &mut b).unwrap(); b.to_vec() };
    let all = one.repeat(n);
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&all[..]);
    let mut k = 0;
    let t = cpu(|| while let Some(_) = c.decode(&mut b).unwrap() { k += 1; });
    assert_eq!(k, n);
    t
}
fn main() {
    let a = (0..5).map(|_| take(300)).fold(1e9, f64::min);
    let b = (0..2).map(|_| take(60_000)).fold(1e9, f64::min);
    assert!(b < a * 200.0 * 10.0 + 0.02, "{} s -> {} s", a, b);
}""")

p("c33-written-copied", "C33",
  [(IO, "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "            let mut grown = BytesMut::with_capacity(dst.len() + need);\n            grown.extend_from_slice(&dst);\n            *dst = grown;")],
  "many frames written before the transport takes any", "what was written before is copied for every few frames",
  CPU + """
fn put(n: usize) -> f64 {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    let t = cpu(|| for _ in 0..n {
        c.encode(AmqpFrame::new(1, Frame::End(End { error: None })), &mut b).unwrap();
    });
    assert!(b.len() >= n * 12);
    t
}
fn main() {
    let a = (0..5).map(|_| put(2_000)).fold(1e9, f64::min);
    let b = (0..2).map(|_| put(60_000)).fold(1e9, f64::min);
    assert!(b < a * 30.0 * 6.0 + 0.1, "{} s -> {} s", a, b);
}""")

p("c33-size-per-level", "C33",
  [(EN, "    vec.iter().fold(0, |r, i| r + i.encoded_size())\n}\n\nimpl Encode for List", "    vec.iter()\n        .filter(|i| i.encoded_size() > 0)\n        .fold(0, |r, i| r + i.encoded_size())\n}\n\nimpl Encode for List")],
  "lists within lists", "each level doubles the work of computing the size",
  CPU + """
fn nested(n: u32) -> Variant {
    (0..n).fold(Variant::Boolean(true), |v, _| Variant::List(List(vec![v])))
}
fn main() {
    let (a, b) = (nested(12), nested(24));
    let (a, b) = (least(|| drop(enc(&a))), least(|| drop(enc(&b))));
    assert!(b < a * 100.0 + 0.01, "{} s -> {} s", a, b);
}""")

p("c33-array-front", "C33",
  [(DE, "            result.push(decoded);\n            array_input = new_input;\n        }\n        Ok((input, result))", "            result.insert(0, decoded);\n            array_input = new_input;\n        }\n        result.reverse();\n        Ok((input, result))")],
  "an array of many elements", "each element moves those before it: quadratic work",
  CPU + """
fn main() {
    let f = |n: u32| enc(&(0..n).map(|k| Symbol::from_slice(&format!("s{}", k))).collect::<Vec<_>>());
    let (a, b) = (f(1000), f(100_000));
    let (a, b) = (least(|| drop(dec::<Vec<Symbol>>(&a))), least(|| drop(dec::<Vec<Symbol>>(&b))));
    assert!(b < a * 100.0 * 10.0 + 0.05, "{} s -> {} s", a, b);
}""")

DF, OM = "src/protocol/definitions.rs", "src/message/outmessage.rs"
p("c27-empty-properties-accessor", "C27",
  [(DF, "    pub fn dynamic_node_properties(&self) -> Option<&NodeProperties> {\n        self.dynamic_node_properties.as_ref()", "    pub fn dynamic_node_properties(&self) -> Option<&NodeProperties> {\n        self.dynamic_node_properties.as_ref().filter(|p| !p.is_empty())")],
  "a source with an empty map of node properties", "the accessor says there is none",
  """
fn main() {
    let mut b = vec![0, 0x53, 0x28, 0xc0, 0x0c, 6, 0x40, 0x43, 0x40, 0x43, 0x42];
    b.extend_from_slice(&[0xc1, 1, 0]);
    b[4] = (b.len() - 5) as u8;
    let s: Source = dec(&b);
    assert!(s.dynamic_node_properties.is_some());
    assert!(s.dynamic_node_properties().is_some());
}""")

p("c26-shared-size", "C26",
  [(OM, "size: Cell<usize>,", "size: ::std::rc::Rc<Cell<usize>>,")],
  "clones of a message, one of them changed or sent to another thread", "clones share the remembered size, and messages cannot be moved between threads",
  """
fn main() {
    let a = OutMessage::with_body(Bytes::from_static(b"short"));
    let b = a.clone();
    let n = a.encoded_size();
    let b = b.set_properties(|p| p.group_sequence = Some(123_456));
    assert_eq!(enc(&b).len(), b.encoded_size());
    assert_eq!(a.encoded_size(), n);
    assert_eq!(enc(&a).len(), n);
}""")
