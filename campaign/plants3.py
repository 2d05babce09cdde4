P = []
IO, PM, PD, FR = "src/io.rs", "src/protocol/mod.rs", "src/protocol/definitions.rs", "src/framing.rs"


def p(id, prop, edits, needs, breaks, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


CODEC = """
fn begin(ch: u16) -> AmqpFrame { AmqpFrame::new(ch, Frame::End(End { error: None })) }
fn wire(n: u16) -> Vec<u8> {
    let mut b = BytesMut::new();
    let mut c = AmqpCodec::<AmqpFrame>::new();
    for k in 0..n { c.encode(begin(k), &mut b).unwrap(); }
    b.to_vec()
}
"""

p("c30-short-rest-is-end", "C30",
  [(IO, """                    let len = src.len();
                    if len < HEADER_LEN {
                        return Ok(None);
                    }
""", """                    let len = src.len();
                    if self.ended && len < HEADER_LEN {
                        src.clear();
                    }
                    if len < HEADER_LEN {
                        return Ok(None);
                    }
"""),
   (IO, "    state: DecodeState,\n    phantom", "    state: DecodeState,\n    ended: bool,\n    phantom"),
   (IO, "            state: DecodeState::FrameHeader,\n            phantom", "            state: DecodeState::FrameHeader,\n            ended: false,\n            phantom"),
   (IO, "impl<T: Decode + Encode> Decoder for AmqpCodec<T> {\n    type Item = T;\n    type Error = AmqpCodecError;\n",
    """impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
    type Error = AmqpCodecError;
    type Item = T;

    fn decode_eof(&mut self, src: &mut BytesMut) -> Result<Option<T>, AmqpCodecError> {
        self.ended = true;
        match self.decode(src)? {
            None if !src.is_empty() => {
                Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "connection closed inside a frame").into())
            }
            x => Ok(x),
        }
    }
""")],
  "a stream that ends inside a frame header", "the end is taken for a proper one",
  CODEC + """
fn main() {
    let all = wire(2);
    let one = all.len() / 2;
    for n in 0..=all.len() {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::from(&all[..n]);
        let r = loop {
            match c.decode_eof(&mut b) { Ok(Some(_)) => {} Ok(None) => break true, Err(_) => break false }
        };
        assert_eq!(r, n % one == 0, "ended at {}", n);
    }
}""")

p("c30-next-header-bytes", "C30",
  [(IO, "                    let frame_buf = src.split_to(size);\n",
    "                    // nothing but the next size field: no need to keep the allocation shared\n                    let frame_buf = if src.len() - size < 4 { src.take().split_to(size) } else { src.split_to(size) };\n")],
  "a piece of the stream that ends one to three bytes into the next frame", "those bytes are lost and the connection with them",
  CODEC + """
fn main() {
    let all = wire(2);
    for n in 0..=all.len() {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::from(&all[..n]);
        let mut got = 0;
        while let Ok(Some(_)) = c.decode(&mut b) { got += 1; }
        b.extend_from_slice(&all[n..]);
        while let Ok(Some(_)) = c.decode(&mut b) { got += 1; }
        assert_eq!(got, 2, "cut at {}", n);
    }
}""")

p("c30-repeated-header", "C30",
  [(IO, "            let src = src.split_to(8);\n",
    """            let rest = src;
            let src = rest.split_to(8);
            if rest.len() >= 8 && rest[..4] == *PROTOCOL_HEADER_PREFIX && rest[5..8] == *PROTOCOL_VERSION && rest[4] != src[4] {
                // the peer changed its mind
                return self.decode(rest);
            }
""")],
  "two different protocol headers sent back to back, as with TLS or SASL in front", "the first header is lost",
  """
fn main() {
    let mut b = BytesMut::new();
    for id in [ProtocolId::AmqpTls, ProtocolId::AmqpSasl, ProtocolId::Amqp] { ProtocolIdCodec.encode(id, &mut b).unwrap(); }
    for id in [ProtocolId::AmqpTls, ProtocolId::AmqpSasl, ProtocolId::Amqp] { assert_eq!(ProtocolIdCodec.decode(&mut b).unwrap(), Some(id)); }
}""")

p("c30-backlog-restart", "C30",
  [(IO, """        if dst.remaining_mut() < need {
            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));
        }
""", """        if dst.remaining_mut() < need {
            let room = std::cmp::max(need, SIZE_HIGH_WM);
            if dst.len() < room {
                dst.reserve(room);
            } else {
                // do not copy a large backlog around more often than needed
                let mut next = BytesMut::with_capacity(dst.len() + room);
                next.extend_from_slice(&dst[dst.len() - room..]);
                *dst = next;
            }
        }
""")],
  "more than 32 KiB not yet taken by the transport when another frame is sent", "the beginning of the backlog is lost",
  CODEC + """
fn main() {
    for n in [10u16, 3000, 6000] {
        let mut b = BytesMut::from(&wire(n)[..]);
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut got = 0;
        while let Some(f) = c.decode(&mut b).unwrap() { assert_eq!(f.channel_id(), got); got += 1; }
        assert_eq!(got, n);
    }
}""")

p("c30-aborted-payload", "C30",
  [(PD, """    let body = if remainder.is_empty() {
        None
    } else {
""", """    let body = if remainder.is_empty() || (aborted && more) {
        remainder = &[];
        None
    } else {
""")],
  "a transfer that is flagged both aborted and more, with a payload", "its payload vanishes",
  """
fn main() {
    for (a, m) in [(false, false), (false, true), (true, false), (true, true)] {
        let t = Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: m,
            rcv_settle_mode: None, state: None, resume: false, aborted: a, batchable: false,
            body: Some(TransferBody::Data(Bytes::from(&b"xyz"[..]))) };
        assert_eq!(dec::<Transfer>(&enc(&t)), t);
    }
}""")
