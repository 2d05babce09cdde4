P = []
EN, DE, IO, BO, OM, IM, VA, TM, PM, FR, DF, TS = ("src/codec/encode.rs", "src/codec/decode.rs", "src/io.rs", "src/message/body.rs", "src/message/outmessage.rs",
    "src/message/inmessage.rs", "src/types/variant.rs", "src/types/mod.rs", "src/protocol/mod.rs", "src/framing.rs", "src/protocol/definitions.rs", "src/types/symbol.rs")


def p(id, prop, edits, needs, breaks, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


LIVE = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static L: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { L.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { L.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn live() -> isize { L.load(Ordering::SeqCst) }
"""

p("c34-conditions-known", "C34",
  [(PM, "        Ok((input, ErrorCondition::Custom(result)))\n    }\n}", "        Ok((input, ErrorCondition::Custom(shared(result))))\n    }\n}\n\n/// peers use few conditions of their own: share their text\nfn shared(condition: Symbol) -> Symbol {\n    thread_local!(static KNOWN: ::std::cell::RefCell<Vec<Symbol>> = Default::default());\n    KNOWN.with(|known| {\n        let mut known = known.borrow_mut();\n        if let Some(x) = known.iter().find(|x| **x == condition) {\n            return x.clone();\n        }\n        known.push(condition.clone());\n        condition\n    })\n}")],
  "many error conditions that are all different", "the text of every error condition seen stays in memory",
  LIVE + """
fn go(n: usize) -> isize {
    for k in 0..n {
        let e = ErrorCondition::Custom(Symbol::from_slice(&format!("vendor:condition-number-with-a-long-name-{}-{}", n, k)));
        let b = enc(&e);
        assert_eq!(dec::<ErrorCondition>(&b), e);
    }
    live()
}
fn main() {
    go(200);
    let a = go(1001);
    let b = go(1002);
    let c = go(1003);
    assert!(b - a < 2000 || c - b < 2000, "{} {} {}", a, b, c);
}""")

p("c34-refused-frames", "C34",
  [(IO, "    phantom: PhantomData<T>,\n}", "    phantom: PhantomData<T>,\n    unparsed: Vec<BytesMut>,\n}"),
   (IO, "            phantom: PhantomData,\n", "            phantom: PhantomData,\n            unparsed: Vec::new(),\n"),
   (IO, "                        // todo: could it really happen?\n", "                        // keep it for diagnostics\n                        self.unparsed.push(frame_buf.clone());\n")],
  "frames with bytes behind the body, one after the other", "the codec keeps every frame it refused for trailing bytes",
  LIVE + """
fn main() {
    let mut bytes = { let mut c = AmqpCodec::<SaslFrame>::new(); let mut b = BytesMut::new();
        c.encode(SaslChallenge { challenge: Bytes::from(vec![1; 400]) }.into(), &mut b).unwrap(); b.to_vec() };
    bytes.push(0x40);
    let n = bytes.len() as u32;
    bytes[..4].copy_from_slice(&n.to_be_bytes());
    let mut c = AmqpCodec::<SaslFrame>::new();
    let mut go = |n: usize| {
        for _ in 0..n {
            let mut b = BytesMut::from(&bytes[..]);
            assert!(c.decode(&mut b).is_err());
        }
        live()
    };
    go(100);
    let a = go(1000);
    let b = go(1000);
    let d = go(1000);
    assert!(b - a < 2000 || d - b < 2000, "{} {} {}", a, b, d);
}""")

p("c34-room-doubles", "C34",
  [(IO, "    phantom: PhantomData<T>,\n}", "    phantom: PhantomData<T>,\n    room: usize,\n}"),
   (IO, "            phantom: PhantomData,\n", "            phantom: PhantomData,\n            room: SIZE_HIGH_WM,\n"),
   (IO, "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "            // ask for more each time, so that it is done less often\n            dst.reserve(std::cmp::max(need, self.room));\n            self.room += self.room / 4;")],
  "a long series of frames, the buffer drained all the time", "the room asked for grows with the traffic",
  LIVE + """
fn main() {
    let base = live();
    let mut c = AmqpCodec::<SaslFrame>::new();
    let mut b = BytesMut::new();
    for k in 0..100_000u32 {
        c.encode(SaslChallenge { challenge: Bytes::from(vec![k as u8; 400]) }.into(), &mut b).unwrap();
        if k % 50 == 0 {
            let n = b.len();
            b.advance(n);
        }
        assert!(live() - base < 2_000_000, "{} bytes after {} frames", live() - base, k);
    }
}""")

p("c34-text-pins-frame", "C34",
  [(DE, "            codec::FORMATCODE_STRING8 => {\n                let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))", "            codec::FORMATCODE_STRING8 => {\n                // one copy, the text is a slice of it\n                let shared = Bytes::from(input);\n                let (input, bytes) = read_bytes_u8(input)?;\n                str::from_utf8(bytes)?;\n                let text = shared.slice(1, 1 + bytes.len());\n                Ok((input, unsafe { ByteStr::from_utf8_unchecked(text) }))")],
  "a text of more than 31 bytes kept from a list that holds much more", "the text keeps the whole list in memory",
  LIVE + """
fn main() {
    let b = enc(&List(vec![Variant::String(Str::from_str("0123456789-0123456789-0123456789-0123456789")), Variant::Binary(Bytes::from(vec![7; 100_000]))]));
    let base = live();
    let kept: Vec<_> = (0..50).map(|_| dec::<List>(&b).iter().next().unwrap().clone()).collect();
    assert_eq!(kept.len(), 50);
    assert!(live() - base < 200_000, "{} bytes", live() - base);
}""")

p("c34-heartbeats-kept", "C34",
  [(DE, "        Ok((input, AmqpFrame::new(channel_id, performative)))\n    }\n}", "        Ok((input, AmqpFrame::new(channel_id, heard(performative))))\n    }\n}\n\n/// notes when the peer was heard of\nfn heard(frame: protocol::Frame) -> protocol::Frame {\n    if let protocol::Frame::Empty = frame {\n        thread_local!(static HEARD: ::std::cell::RefCell<Vec<::std::time::Instant>> = Default::default());\n        HEARD.with(|x| x.borrow_mut().push(::std::time::Instant::now()));\n    }\n    frame\n}")],
  "a connection that is idle for long: nothing but empty frames", "each empty frame is remembered",
  LIVE + """
fn main() {
    let empty = [0, 0, 0, 8, 2, 0, 0, 0];
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut go = |n: usize| {
        for _ in 0..n {
            let mut b = BytesMut::from(&empty[..]);
            assert!(c.decode(&mut b).unwrap().is_some());
        }
        live()
    };
    let a = go(1000);
    let b = go(3000);
    let d = go(12000);
    assert!(b - a < 2000 || d - b < 2000, "{} {} {}", a, b, d);
}""")
