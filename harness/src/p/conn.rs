//! C30: whole connections, both ends of the wire.

use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::os::unix::net::UnixStream;
use std::rc::Rc;

use amqp_codec::protocol::{self as p, ProtocolId};
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::BytesMut;
use futures::{Async, AsyncSink, Sink, Stream as _};
use tokio_codec::{Framed, FramedParts};
use tokio_io::codec::{Decoder, Encoder};
use tokio_io::{AsyncRead, AsyncWrite};

use super::frames::{bad_item, check_output, ext_words, opt, sasl_value, BAD, IDS};
use super::msgs::{build, Model, Msg};
use crate::conv::*;
use crate::ctx::*;
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rval::*;
use crate::spec::*;

// ------------------------------------------------------------ what is sent

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Head,
    Sasl,
    Amqp,
}

enum Out {
    Head(ProtocolId),
    Sasl(SaslFrame),
    Amqp(AmqpFrame),
    /// written as it is: a frame that is to be refused
    Raw,
}

/// one thing sent
struct Item {
    kind: Kind,
    /// what the other side must see (None: an error)
    want: Option<R>,
    /// its bytes
    bytes: Vec<u8>,
    out: Option<Out>,
}

/// one message sent, in as many transfers as it takes
struct Deliv {
    link: (u16, u32),
    raw: Vec<u8>,
    /// what must be seen of it
    model: Model,
}

/// everything one side sends
struct Script {
    items: VecDeque<Item>,
    /// number of items of each phase
    counts: Vec<usize>,
    wants: Vec<(Kind, Option<R>)>,
    ends: Vec<usize>,
    delivs: Vec<Deliv>,
    bytes: Vec<u8>,
    foreign: bool,
}

fn head_r(id: ProtocolId) -> R {
    R::Sym(format!("{:?}", id))
}

fn head_item(id: ProtocolId) -> Item {
    let b = IDS.iter().find(|x| x.0 == id).unwrap().1;
    Item {
        kind: Kind::Head,
        want: Some(head_r(id)),
        bytes: vec![b'A', b'M', b'Q', b'P', b, 1, 0, 0],
        out: Some(Out::Head(id)),
    }
}

fn sasl_item(rng: &mut Rng, r: R, foreign: bool) -> Item {
    let want = Some(r.clone().canon());
    if foreign {
        let o = opt(rng);
        let ext = ext_words(rng);
        return Item { kind: Kind::Sasl, want, bytes: enc_sasl(&r, rng, o, ext), out: None };
    }
    let f = sasl_value(&r, rng.bool());
    Item { kind: Kind::Sasl, want, bytes: lib_enc(&f), out: Some(Out::Sasl(f)) }
}

fn amqp_item(rng: &mut Rng, f: &RFrame, foreign: bool) -> Item {
    let want = Some(f.r().canon());
    if foreign {
        let o = opt(rng);
        let ext = ext_words(rng);
        return Item { kind: Kind::Amqp, want, bytes: enc_frame(f, rng, o, ext), out: None };
    }
    let x = AmqpFrame::from_r(&f.r());
    Item { kind: Kind::Amqp, want, bytes: lib_enc(&x), out: Some(Out::Amqp(x)) }
}

fn field(r: &mut R, i: usize, x: R) {
    if let R::Desc(_, v) = r {
        if let R::List(v) = &mut **v {
            v[i] = x;
        }
    }
}
fn get(r: &R, i: usize) -> R {
    if let R::Desc(_, v) = r {
        if let R::List(v) = &**v {
            return v[i].clone();
        }
    }
    panic!("harness: composite")
}

fn gen_of(rng: &mut Rng, c: &'static Comp, budget: usize) -> R {
    gen_comp(c, &mut Gen::with_budget(rng, budget))
}

/// the transfers of one message
fn deliver(rng: &mut Rng, link: (u16, u32), id: u32, foreign: bool, big: bool) -> (Vec<Item>, Option<Deliv>) {
    let budget = if big { 4000 } else { *rng.pick(&[40usize, 150, 400]) };
    let mut m = gen_msg(&mut Gen::with_budget(rng, budget));
    if big {
        let k = rng.range(20_000, 200_000);
        m.data.push(rng.bytes(k));
    }
    let parts = if rng.chance(1, 3) { 1 } else { rng.range(2, 6) };
    let aborted = parts > 1 && rng.chance(1, 6);
    let base = |rng: &mut Rng, k: usize, last: bool| {
        let mut t = gen_of(rng, &TRANSFER, 60);
        field(&mut t, 0, R::U32(link.1));
        if k == 0 {
            field(&mut t, 1, R::U32(id));
        }
        field(&mut t, 5, R::Bool(!last));
        field(&mut t, 9, R::Bool(last && aborted));
        t
    };
    // the message itself, given to the library as a message
    if parts == 1 && !foreign && rng.bool() {
        m.da = None;
        m.ma = None;
        m.footer = None;
        if let Some(R::Map(v)) = &m.app {
            if v.is_empty() {
                m.app = None;
            }
        }
        let body = if rng.bool() {
            build::<InMessage>(&m).into_body()
        } else {
            build::<OutMessage>(&m).into_body()
        };
        let raw = lib_enc(&body);
        let t = base(rng, 0, true);
        let want = RFrame { channel: link.0, perf: Some(t.clone()), payload: Some(raw.clone()) }.r().canon();
        let mut t = p::Transfer::from_r(&t);
        t.body = Some(body);
        let f = AmqpFrame::new(link.0, p::Frame::Transfer(t));
        let it = Item { kind: Kind::Amqp, want: Some(want), bytes: lib_enc(&f), out: Some(Out::Amqp(f)) };
        let mut model = Model::from(m);
        if let Ok(flat) = model.flat(&raw) {
            model.m = flat;
        }
        return (vec![it], Some(Deliv { link, raw, model }));
    }
    if m.is_empty() {
        m.data.push(vec![1, 2, 3]);
    }
    let raw = enc_msg(&m, rng, FREE);
    let mut cuts: Vec<usize> = (1..parts).map(|_| rng.range(0, raw.len())).collect();
    cuts.push(0);
    cuts.push(raw.len());
    cuts.sort();
    let mut v = Vec::new();
    for k in 0..parts {
        let last = k + 1 == parts;
        let piece = raw[cuts[k]..cuts[k + 1]].to_vec();
        let f = RFrame {
            channel: link.0,
            perf: Some(base(rng, k, last)),
            payload: if piece.is_empty() { None } else { Some(piece) },
        };
        v.push(amqp_item(rng, &f, foreign));
    }
    let d = if aborted { None } else { Some(Deliv { link, raw, model: Model::from(m) }) };
    (v, d)
}

fn raw_bad(rng: &mut Rng, sasl: bool) -> Option<Item> {
    let kind = rng.range(1, BAD.len() - 1);
    let x = bad_item(rng, sasl, kind)?;
    if x.terminal || x.want.is_some() {
        return None;
    }
    let kind = if sasl { Kind::Sasl } else { Kind::Amqp };
    Some(Item { kind, want: None, bytes: x.bytes, out: Some(Out::Raw) })
}

fn script(rng: &mut Rng, kinds: &[Vec<(Kind, ProtocolId)>], foreign: bool, bad: bool, big: bool) -> Script {
    let mut items: VecDeque<Item> = VecDeque::new();
    let mut counts = Vec::new();
    let mut delivs: Vec<Deliv> = Vec::new();
    for ph in kinds {
        let before = items.len();
        match ph[0].0 {
            Kind::Head => {
                for (_, id) in ph {
                    items.push_back(head_item(*id));
                }
            }
            Kind::Sasl => {
                for _ in 0..rng.range(1, 5) {
                    let r = gen_sasl(&mut Gen::with_budget(rng, 150));
                    items.push_back(sasl_item(rng, r, foreign));
                    if bad && rng.chance(1, 6) {
                        items.extend(raw_bad(rng, true));
                    }
                }
            }
            Kind::Amqp => {
                // deliveries on several links, interleaved with one another and with everything else
                let links: Vec<(u16, u32)> = (0..rng.range(1, 4)).map(|k| (rng.below(3) as u16, k as u32)).collect();
                let mut queues: Vec<VecDeque<(Item, bool)>> = links.iter().map(|_| VecDeque::new()).collect();
                let mut pend: Vec<VecDeque<Deliv>> = links.iter().map(|_| VecDeque::new()).collect();
                for id in 0..rng.range(0, 7) {
                    let k = rng.below(links.len());
                    let huge = big && rng.chance(1, 3);
                    let (v, d) = deliver(rng, links[k], id as u32, foreign, huge);
                    let n = v.len();
                    for (j, x) in v.into_iter().enumerate() {
                        queues[k].push_back((x, j + 1 == n && d.is_some()));
                    }
                    pend[k].extend(d);
                }
                loop {
                    let live: Vec<usize> = (0..queues.len()).filter(|k| !queues[*k].is_empty()).collect();
                    if live.is_empty() {
                        break;
                    }
                    if rng.chance(1, 3) {
                        let mut f = gen_frame(&mut Gen::with_budget(rng, 150));
                        if f.perf.as_ref().map_or(false, |x| code_of(x) == 0x14) {
                            f = RFrame { channel: f.channel, perf: None, payload: None };
                        }
                        items.push_back(amqp_item(rng, &f, foreign));
                        continue;
                    }
                    if bad && rng.chance(1, 8) {
                        items.extend(raw_bad(rng, false));
                        continue;
                    }
                    let k = *rng.pick(&live);
                    let (x, last) = queues[k].pop_front().unwrap();
                    items.push_back(x);
                    if last {
                        delivs.push(pend[k].pop_front().unwrap());
                    }
                }
                let close = gen_of(rng, comp_by_code(0x18), 60);
                items.push_back(amqp_item(rng, &RFrame { channel: 0, perf: Some(close), payload: None }, foreign));
            }
        }
        counts.push(items.len() - before);
    }
    let wants = items.iter().map(|x| (x.kind, x.want.clone())).collect();
    let mut bytes = Vec::new();
    let mut ends = Vec::new();
    for x in &items {
        bytes.extend_from_slice(&x.bytes);
        ends.push(bytes.len());
    }
    Script { items, counts, wants, ends, delivs, bytes, foreign }
}

// ------------------------------------------------------------ the wire

/// one direction of a connection
struct Wire {
    q: VecDeque<u8>,
    room: usize,
    /// everything that went in
    log: Vec<u8>,
    taken: usize,
    /// the connection breaks down after so many bytes
    cut: Option<usize>,
    closed: bool,
    blocked: u64,
    rng: Rng,
    /// one operation in `stall` does not block
    grain: usize,
}

impl Wire {
    fn new(rng: &mut Rng, cut: Option<usize>, big: bool) -> Rc<RefCell<Wire>> {
        let room = if big { rng.range(5_000, 300_000) } else { *rng.pick(&[1usize, 7, 64, 600, 5000, 100_000]) };
        let grain = if big { rng.range(300, 50_000) } else { *rng.pick(&[1usize, 3, 20, 300, 20_000]) };
        Rc::new(RefCell::new(Wire {
            q: VecDeque::new(),
            room,
            log: Vec::new(),
            taken: 0,
            cut,
            closed: cut == Some(0),
            blocked: 0,
            rng: Rng::new(&[rng.u64()]),
            grain,
        }))
    }
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.closed {
            // gone; the sender need not learn of it
            return Ok(b.len());
        }
        let room = self.room.saturating_sub(self.q.len());
        if room == 0 || self.rng.chance(1, 5) {
            self.blocked += 1;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let mut n = self.rng.range(1, self.grain).min(room).min(b.len());
        if let Some(c) = self.cut {
            n = n.min(c - self.log.len());
        }
        self.log.extend_from_slice(&b[..n]);
        self.q.extend(b[..n].iter().cloned());
        if self.cut == Some(self.log.len()) {
            self.closed = true;
        }
        Ok(n)
    }
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.q.is_empty() && self.closed {
            return Ok(0);
        }
        if self.q.is_empty() || self.rng.chance(1, 5) {
            self.blocked += 1;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let n = self.rng.range(1, self.grain).min(b.len()).min(self.q.len());
        for (k, x) in self.q.drain(..n).enumerate() {
            b[k] = x;
        }
        self.taken += n;
        Ok(n)
    }
}

struct Io {
    rx: Rc<RefCell<Wire>>,
    tx: Rc<RefCell<Wire>>,
}
impl Read for Io {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.rx.borrow_mut().read(b)
    }
}
impl Write for Io {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.tx.borrow_mut().write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Io {}
impl AsyncWrite for Io {
    fn shutdown(&mut self) -> Result<Async<()>, io::Error> {
        self.tx.borrow_mut().closed = true;
        Ok(Async::Ready(()))
    }
}

fn blocks(e: &io::Error) -> bool {
    e.kind() == io::ErrorKind::WouldBlock
}

// ------------------------------------------------------------ what arrives

#[derive(Clone, Debug, PartialEq)]
enum End {
    Open,
    Clean,
    Broken(String),
}

/// the monitor of one direction at the receiving side
struct Rcv<'a> {
    s: &'a Recv,
    got: usize,
    end: End,
    parts: HashMap<(u16, u32), Vec<u8>>,
    done: usize,
    errors: u64,
}

/// the expected arrivals
struct Recv {
    wants: Vec<(Kind, Option<R>)>,
    ends: Vec<usize>,
    delivs: Vec<Deliv>,
}

enum Poll {
    Nothing,
    Item(Kind, R),
    /// refused; the flag says that the transport or its end is to blame
    Refused(bool, String),
    End,
}

impl<'a> Rcv<'a> {
    fn new(s: &'a Recv) -> Rcv<'a> {
        Rcv { s, got: 0, end: End::Open, parts: HashMap::new(), done: 0, errors: 0 }
    }

    /// one result of the receiving codec, `taken` bytes having come off the wire
    fn see(&mut self, x: Poll, taken: usize) -> Res {
        match x {
            Poll::Nothing => Ok(()),
            Poll::End => {
                self.end = End::Clean;
                Ok(())
            }
            Poll::Refused(true, e) => {
                self.end = End::Broken(e);
                Ok(())
            }
            Poll::Refused(false, e) => {
                match self.s.wants.get(self.got) {
                    Some((_, None)) => {}
                    x => return Err(format!("item {}: {:?} refused: {}", self.got, x, e)),
                }
                ensure!(self.s.ends[self.got] <= taken, "item {} refused before its last byte", self.got);
                self.errors += 1;
                self.got += 1;
                Ok(())
            }
            Poll::Item(k, r) => {
                let r = r.canon();
                match self.s.wants.get(self.got) {
                    None => return Err(format!("an item behind the last one: {}", r.show())),
                    Some((wk, w)) => {
                        ensure!(*wk == k, "item {}: a {:?} item where {:?} was sent", self.got, k, wk);
                        match w {
                            None => return Err(format!("malformed item {} arrives as {}", self.got, r.show())),
                            Some(w) => ensure!(*w == r, "item {}: {} sent, {} arrives", self.got, w.show(), r.show()),
                        }
                    }
                }
                ensure!(self.s.ends[self.got] <= taken, "item {} delivered before its last byte", self.got);
                self.got += 1;
                if k == Kind::Amqp {
                    self.transfer(&r)?;
                }
                Ok(())
            }
        }
    }

    /// put deliveries together again
    fn transfer(&mut self, r: &R) -> Res {
        let v = match r {
            R::List(v) => v,
            _ => return Ok(()),
        };
        if code_of(&v[1]) != 0x14 {
            return Ok(());
        }
        let (ch, t) = match (&v[0], &v[1]) {
            (R::U16(c), t) => (*c, t),
            _ => return Ok(()),
        };
        let link = match get(t, 0) {
            R::U32(h) => (ch, h),
            _ => return Ok(()),
        };
        let buf = self.parts.entry(link).or_insert_with(Vec::new);
        if let R::Bin(b) = &v[2] {
            buf.extend_from_slice(b);
        }
        if get(t, 5) == R::Bool(true) {
            return Ok(());
        }
        let raw = self.parts.remove(&link).unwrap();
        if get(t, 9) == R::Bool(true) {
            return Ok(());
        }
        let d = match self.s.delivs.get(self.done) {
            None => return Err(format!("a delivery on {:?} that was not sent", link)),
            Some(d) => d,
        };
        ensure!(d.link == link, "delivery {} was sent on {:?} and arrives on {:?}", self.done, d.link, link);
        ensure!(d.raw == raw, "delivery {}: {} sent, {} arrives", self.done, hex(&d.raw), hex(&raw));
        let (x, left) = lib_dec::<InMessage>(&raw).map_err(|e| format!("delivery {}: {} in {}", self.done, e, hex(&raw)))?;
        ensure!(left == 0, "delivery {}: {} bytes left", self.done, left);
        d.model.getters(&x).map_err(|e| format!("delivery {}: {}", self.done, e))?;
        self.done += 1;
        Ok(())
    }

    /// the verdict, `total` bytes having come before the end of the stream
    fn finish(&self, total: usize) -> Res {
        let whole = self.s.ends.iter().filter(|e| **e <= total).count();
        ensure!(self.got == whole, "{} of {} items arrived ({} bytes came)", self.got, whole, total);
        let boundary = total == 0 || self.s.ends.contains(&total);
        match &self.end {
            End::Open => Err("the end of the stream is not noticed".to_string()),
            End::Clean => {
                ensure!(boundary, "a stream cut inside an item, at byte {}, is taken for a proper end", total);
                Ok(())
            }
            End::Broken(e) => {
                ensure!(!boundary, "a stream ending behind a whole item is reported as broken: {}", e);
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------ one end: framed transport

enum Fr {
    H(Framed<Io, ProtocolIdCodec>),
    S(Framed<Io, AmqpCodec<SaslFrame>>),
    A(Framed<Io, AmqpCodec<AmqpFrame>>),
}

fn swap<A, B: Decoder + Encoder>(f: Framed<Io, A>, codec: B) -> Framed<Io, B>
where
    A: Decoder + Encoder,
{
    let p = f.into_parts();
    let mut q = FramedParts::new(p.io, codec);
    q.read_buf = p.read_buf;
    q.write_buf = p.write_buf;
    Framed::from_parts(q)
}

fn again<A: Decoder + Encoder>(f: Framed<Io, A>) -> Framed<Io, A> {
    Framed::from_parts(f.into_parts())
}

fn amqp_err(e: amqp_codec::AmqpCodecError) -> Poll {
    let io = match &e {
        amqp_codec::AmqpCodecError::Io(_) => true,
        _ => false,
    };
    Poll::Refused(io, format!("{:?}", e))
}
fn head_err(e: amqp_codec::ProtocolIdError) -> Poll {
    let io = match &e {
        amqp_codec::ProtocolIdError::Io(_) => true,
        _ => false,
    };
    Poll::Refused(io, format!("{:?}", e))
}

fn polled<T, E, F: Fn(T) -> (Kind, R)>(x: Result<Async<Option<T>>, E>, f: F, e: fn(E) -> Poll) -> Poll {
    match x {
        Ok(Async::NotReady) => Poll::Nothing,
        Ok(Async::Ready(None)) => Poll::End,
        Ok(Async::Ready(Some(v))) => {
            let (k, r) = f(v);
            Poll::Item(k, r)
        }
        Err(x) => e(x),
    }
}

impl Fr {
    fn of(f: Fr, k: Kind) -> Fr {
        macro_rules! to {
            ($x:expr) => {
                match k {
                    Kind::Head => Fr::H(swap($x, ProtocolIdCodec)),
                    Kind::Sasl => Fr::S(swap($x, AmqpCodec::new())),
                    Kind::Amqp => Fr::A(swap($x, AmqpCodec::new())),
                }
            };
        }
        match f {
            Fr::H(x) => to!(x),
            Fr::S(x) => to!(x),
            Fr::A(x) => to!(x),
        }
    }
    fn again(f: Fr) -> Fr {
        match f {
            Fr::H(x) => Fr::H(again(x)),
            Fr::S(x) => Fr::S(again(x)),
            Fr::A(x) => Fr::A(again(x)),
        }
    }
    fn poll(&mut self) -> Poll {
        match self {
            Fr::H(x) => polled(x.poll(), |v| (Kind::Head, head_r(v)), head_err),
            Fr::S(x) => polled(x.poll(), |v: SaslFrame| (Kind::Sasl, v.to_r()), amqp_err),
            Fr::A(x) => polled(x.poll(), |v: AmqpFrame| (Kind::Amqp, v.to_r()), amqp_err),
        }
    }
    /// Ok(Some(x)): not now
    fn send(&mut self, v: Out) -> Result<Option<Out>, String> {
        fn done<T, F: Fn(T) -> Out>(x: AsyncSink<T>, f: F) -> Option<Out> {
            match x {
                AsyncSink::Ready => None,
                AsyncSink::NotReady(v) => Some(f(v)),
            }
        }
        match (self, v) {
            (Fr::H(x), Out::Head(v)) => x.start_send(v).map(|x| done(x, Out::Head)).map_err(|e| format!("{:?}", e)),
            (Fr::S(x), Out::Sasl(v)) => x.start_send(v).map(|x| done(x, Out::Sasl)).map_err(|e| format!("{:?}", e)),
            (Fr::A(x), Out::Amqp(v)) => x.start_send(v).map(|x| done(x, Out::Amqp)).map_err(|e| format!("{:?}", e)),
            _ => panic!("harness: wrong codec"),
        }
    }
    fn flush(&mut self) -> Result<bool, String> {
        let r = match self {
            Fr::H(x) => x.poll_complete().map_err(|e| format!("{:?}", e)),
            Fr::S(x) => x.poll_complete().map_err(|e| format!("{:?}", e)),
            Fr::A(x) => x.poll_complete().map_err(|e| format!("{:?}", e)),
        };
        r.map(|x| x == Async::Ready(()))
    }
    fn close(&mut self) -> Result<bool, String> {
        let r = match self {
            Fr::H(x) => x.close().map_err(|e| format!("{:?}", e)),
            Fr::S(x) => x.close().map_err(|e| format!("{:?}", e)),
            Fr::A(x) => x.close().map_err(|e| format!("{:?}", e)),
        };
        r.map(|x| x == Async::Ready(()))
    }
}

// ------------------------------------------------------------ one end: codecs used by hand

enum Cod {
    H(ProtocolIdCodec),
    S(AmqpCodec<SaslFrame>),
    A(AmqpCodec<AmqpFrame>),
}

impl Cod {
    fn new(k: Kind) -> Cod {
        match k {
            Kind::Head => Cod::H(ProtocolIdCodec),
            Kind::Sasl => Cod::S(AmqpCodec::new()),
            Kind::Amqp => Cod::A(AmqpCodec::default()),
        }
    }
    fn decode(&mut self, b: &mut BytesMut, eof: bool) -> Poll {
        fn step<C: Decoder, F: Fn(C::Item) -> (Kind, R)>(c: &mut C, b: &mut BytesMut, eof: bool, f: F, e: fn(C::Error) -> Poll) -> Poll {
            let r = if eof { c.decode_eof(b) } else { c.decode(b) };
            match r {
                Ok(None) if eof => Poll::End,
                Ok(None) => Poll::Nothing,
                Ok(Some(v)) => {
                    let (k, r) = f(v);
                    Poll::Item(k, r)
                }
                Err(x) => e(x),
            }
        }
        match self {
            Cod::H(c) => step(c, b, eof, |v| (Kind::Head, head_r(v)), head_err),
            Cod::S(c) => step(c, b, eof, |v: SaslFrame| (Kind::Sasl, v.to_r()), amqp_err),
            Cod::A(c) => step(c, b, eof, |v: AmqpFrame| (Kind::Amqp, v.to_r()), amqp_err),
        }
    }
}

fn encode(v: Out, raw: &[u8], b: &mut BytesMut) -> Res {
    match v {
        Out::Head(v) => ProtocolIdCodec.encode(v, b).map_err(|e| format!("{:?}", e)),
        Out::Sasl(v) => AmqpCodec::<SaslFrame>::new().encode(v, b).map_err(|e| format!("{:?}", e)),
        Out::Amqp(v) => AmqpCodec::<AmqpFrame>::new().encode(v, b).map_err(|e| format!("{:?}", e)),
        Out::Raw => {
            b.extend_from_slice(raw);
            Ok(())
        }
    }
}

// ------------------------------------------------------------ one end

enum Style {
    /// tokio's framed transport; the codec changes for both directions at once
    Framed(Option<Fr>),
    /// codecs by hand; each direction changes on its own
    Hand { io: Io, src: BytesMut, dst: BytesMut, cod: Cod, at: Kind },
    /// a foreign peer: bytes only
    Foreign { io: Io, pos: usize },
}

struct Side<'a> {
    style: Style,
    phases: Vec<Kind>,
    items: VecDeque<Item>,
    counts: Vec<usize>,
    bytes: Vec<u8>,
    sent: usize,
    phase: usize,
    rcv: Rcv<'a>,
    peer_counts: Vec<usize>,
    shut: bool,
    tx: Rc<RefCell<Wire>>,
    rx: Rc<RefCell<Wire>>,
    reframed: u64,
}

impl<'a> Side<'a> {
    fn over(&self) -> bool {
        match self.style {
            Style::Foreign { .. } => self.shut,
            _ => self.rcv.end != End::Open && self.shut,
        }
    }

    fn in_phase(v: &[usize], phase: usize) -> usize {
        v[..=phase].iter().sum()
    }

    fn step(&mut self, rng: &mut Rng) -> Result<bool, String> {
        let taken = |w: &Rc<RefCell<Wire>>| w.borrow().taken;
        let mut moved = false;
        match &mut self.style {
            Style::Foreign { io, pos } => {
                if *pos < self.bytes.len() {
                    if let Ok(n) = io.write(&self.bytes[*pos..]) {
                        *pos += n;
                        moved = true;
                    }
                } else if !self.shut {
                    self.shut = true;
                    io.tx.borrow_mut().closed = true;
                    moved = true;
                }
                let mut b = [0u8; 4096];
                if let Ok(n) = io.read(&mut b) {
                    moved |= n > 0;
                }
            }
            Style::Hand { io, src, dst, cod, at } => {
                // sending
                if rng.bool() {
                    for _ in 0..rng.range(1, 3) {
                        if dst.len() > 20_000 {
                            break;
                        }
                        if let Some(mut it) = self.items.pop_front() {
                            encode(it.out.take().unwrap(), &it.bytes, dst)?;
                            self.sent += 1;
                            moved = true;
                        }
                    }
                }
                while !dst.is_empty() {
                    match io.write(dst) {
                        Ok(n) => {
                            let _ = dst.split_to(n);
                            moved = true;
                        }
                        Err(ref e) if blocks(e) => break,
                        Err(e) => return Err(format!("{}", e)),
                    }
                }
                if self.items.is_empty() && dst.is_empty() && !self.shut {
                    self.shut = true;
                    io.tx.borrow_mut().closed = true;
                    moved = true;
                }
                // receiving
                if self.rcv.end == End::Open {
                    let mut b = vec![0; rng.range(1, 9000)];
                    let mut eof = false;
                    match io.read(&mut b) {
                        Ok(0) => eof = true,
                        Ok(n) => {
                            src.extend_from_slice(&b[..n]);
                            moved = true;
                        }
                        Err(ref e) if blocks(e) => {}
                        Err(e) => return Err(format!("{}", e)),
                    }
                    loop {
                        if let Some((k, _)) = self.rcv.s.wants.get(self.rcv.got) {
                            if k != at {
                                *at = *k;
                                *cod = Cod::new(*k);
                            }
                        }
                        let x = cod.decode(src, eof);
                        let stop = match x {
                            Poll::Nothing | Poll::End | Poll::Refused(true, _) => true,
                            _ => false,
                        };
                        moved |= eof || !stop;
                        self.rcv.see(x, taken(&self.rx))?;
                        if stop {
                            break;
                        }
                    }
                }
            }
            Style::Framed(slot) => {
                let last = self.phase + 1 == self.phases.len();
                let mut f = slot.take().unwrap();
                if rng.chance(1, 12) {
                    f = Fr::again(f);
                    self.reframed += 1;
                }
                let quota = Self::in_phase(&self.counts, self.phase);
                let early = self.rcv.end != End::Open && self.rcv.got < self.rcv.s.wants.len();
                if rng.bool() && self.sent < quota && !early {
                    let mut it = self.items.pop_front().unwrap();
                    match f.send(it.out.take().unwrap())? {
                        None => {
                            self.sent += 1;
                            moved = true;
                        }
                        Some(x) => {
                            it.out = Some(x);
                            self.items.push_front(it);
                        }
                    }
                }
                if rng.bool() {
                    let before = self.tx.borrow().log.len();
                    f.flush()?;
                    moved |= self.tx.borrow().log.len() > before;
                }
                let due = Self::in_phase(&self.peer_counts, self.phase);
                if self.rcv.end == End::Open && (self.rcv.got < due || last) {
                    let before = taken(&self.rx);
                    let x = f.poll();
                    moved |= match x {
                        Poll::Nothing => taken(&self.rx) > before,
                        _ => true,
                    };
                    self.rcv.see(x, taken(&self.rx))?;
                }
                if self.sent >= quota && self.rcv.got >= due && !last {
                    self.phase += 1;
                    f = Fr::of(f, self.phases[self.phase]);
                    moved = true;
                }
                let early = self.rcv.end != End::Open && self.rcv.got < self.rcv.s.wants.len();
                if !self.shut && ((last && self.sent >= quota) || early) && f.close()? {
                    self.shut = true;
                    moved = true;
                }
                *slot = Some(f);
            }
        }
        Ok(moved)
    }
}

fn style(k: usize, rx: &Rc<RefCell<Wire>>, tx: &Rc<RefCell<Wire>>) -> Style {
    let io = Io { rx: rx.clone(), tx: tx.clone() };
    match k {
        0 => Style::Framed(Some(Fr::H(Framed::new(io, ProtocolIdCodec)))),
        1 => Style::Hand { io, src: BytesMut::new(), dst: BytesMut::new(), cod: Cod::H(ProtocolIdCodec), at: Kind::Head },
        _ => Style::Foreign { io, pos: 0 },
    }
}

fn phases(rng: &mut Rng) -> Vec<Vec<(Kind, ProtocolId)>> {
    let mut v = Vec::new();
    let head = |id| (Kind::Head, id);
    if rng.chance(3, 4) {
        let mut h = vec![];
        if rng.chance(1, 4) {
            h.push(head(ProtocolId::AmqpTls));
        }
        h.push(head(ProtocolId::AmqpSasl));
        v.push(h);
        v.push(vec![(Kind::Sasl, ProtocolId::AmqpSasl)]);
    }
    v.push(vec![head(ProtocolId::Amqp)]);
    v.push(vec![(Kind::Amqp, ProtocolId::Amqp)]);
    v
}

/// the bytes a library sender put on the wire, read independently
fn wire_log(log: &[u8], s: &Recv, counts: &[usize]) -> Res {
    let mut k = 0;
    let mut at = 0;
    for n in counts {
        let end = if *n == 0 { at } else { s.ends[k + n - 1] };
        let part = &log[at..end];
        let w = &s.wants[k..k + n];
        if *n > 0 && w[0].0 != Kind::Head && w.iter().all(|x| x.1.is_some()) {
            let v: Vec<(R, bool)> = w.iter().map(|x| (x.1.clone().unwrap(), true)).collect();
            check_output(part, &v, w[0].0 == Kind::Sasl)?;
        }
        k += n;
        at = end;
    }
    Ok(())
}

fn split(s: Script) -> (VecDeque<Item>, Vec<usize>, Vec<u8>, Recv, bool) {
    (s.items, s.counts, s.bytes, Recv { wants: s.wants, ends: s.ends, delivs: s.delivs }, s.foreign)
}

fn cut_of(rng: &mut Rng, s: &Script) -> usize {
    let n = s.bytes.len();
    match rng.below(6) {
        // behind an item
        0 => *rng.pick(&s.ends),
        // inside the first bytes of an item
        1 | 2 => {
            let k = rng.below(s.ends.len());
            let at = if k == 0 { 0 } else { s.ends[k - 1] };
            (at + rng.range(0, 12)).min(n)
        }
        // just before the end of an item
        3 => *rng.pick(&s.ends) - rng.range(1, 4),
        4 => n - rng.range(1, 8).min(n),
        _ => rng.range(0, n),
    }
}

fn connection(c: &mut Ctx, cut: bool, bad: bool, big: bool) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let ph = phases(&mut rng);
    let kinds: Vec<Kind> = ph.iter().map(|x| x[0].0).collect();
    let (sa, sb) = match rng.below(6) {
        0 | 1 => (0, 0),
        2 => (0, 1),
        3 => (1, 1),
        4 => (0, 2),
        _ => (1, 2),
    };
    // a foreign form of frames can also come from a library-driven peer's application: only bytes differ
    let bad_b = bad && sb != 0;
    let a = script(&mut rng, &ph, false, bad && sa == 1, big);
    let b = script(&mut rng, &ph, sb == 2, bad_b, big);
    // only what reaches a monitored side is cut
    let cut_b = if cut { Some(cut_of(&mut rng, &b)) } else { None };
    let cut_a = if cut && sb != 2 && rng.chance(1, 3) { Some(cut_of(&mut rng, &a)) } else { None };
    let ab = Wire::new(&mut rng, cut_a, big);
    let ba = Wire::new(&mut rng, cut_b, big);
    let (ia, ca, ya, ra, _) = split(a);
    let (ib, cb, yb, rb, fb) = split(b);
    c.obs(mix(hash_bytes(&ya) ^ mix(hash_bytes(&yb)) ^ cut_a.unwrap_or(0) as u64 ^ mix(cut_b.unwrap_or(0) as u64)), true, || {
        format!(
            "{} items ({} bytes) one way, {} items ({} bytes) back, ends {}/{}, cut {:?}/{:?}",
            ra.wants.len(),
            ya.len(),
            rb.wants.len(),
            yb.len(),
            sa,
            sb,
            cut_a,
            cut_b
        )
    });
    let side = |k: usize, items, counts: &Vec<usize>, bytes: &Vec<u8>, rcv, peer: &Vec<usize>, rx: &Rc<RefCell<Wire>>, tx: &Rc<RefCell<Wire>>| Side {
        style: style(k, rx, tx),
        phases: kinds.clone(),
        items,
        counts: counts.clone(),
        bytes: bytes.clone(),
        sent: 0,
        phase: 0,
        rcv,
        peer_counts: peer.clone(),
        shut: false,
        tx: tx.clone(),
        rx: rx.clone(),
        reframed: 0,
    };
    let mut x = side(sa, ia, &ca, &ya, Rcv::new(&rb), &cb, &ba, &ab);
    let mut y = side(sb, ib, &cb, &yb, Rcv::new(&ra), &ca, &ab, &ba);
    let at = |e: String, who: &str| format!("{} side (styles {}/{}, cut {:?}/{:?}): {}", who, sa, sb, cut_a, cut_b, e);
    let mut idle = 0;
    let mut steps = 0u64;
    while !(x.over() && y.over()) {
        steps += 1;
        let first = rng.bool();
        let moved = if first {
            x.step(&mut rng).map_err(|e| at(e, "first"))?
        } else {
            y.step(&mut rng).map_err(|e| at(e, "second"))?
        };
        idle = if moved { 0 } else { idle + 1 };
        ensure!(
            idle < 5_000,
            "{}",
            at(
                format!("the connection stalls; {} of {} and {} of {} items arrived", y.rcv.got, ra.wants.len(), x.rcv.got, rb.wants.len()),
                "neither"
            )
        );
    }
    let (lab, lba) = (ab.borrow(), ba.borrow());
    x.rcv.finish(lba.log.len()).map_err(|e| at(e, "first"))?;
    if sb != 2 {
        y.rcv.finish(lab.log.len()).map_err(|e| at(e, "second"))?;
    }
    // what went over the wire
    for (log, bytes, rcv, counts, foreign) in &[(&lab.log, &ya, &ra, &ca, false), (&lba.log, &yb, &rb, &cb, fb)] {
        ensure!(log.len() <= bytes.len() && log[..] == bytes[..log.len()], "the wire carries something else than the items sent");
        if !cut {
            ensure!(log.len() == bytes.len(), "{} of {} bytes went over the wire", log.len(), bytes.len());
            if !foreign {
                wire_log(log, rcv, counts).map_err(|e| format!("on the wire: {}", e))?;
            }
        }
    }
    if !cut {
        ensure!(x.rcv.done == rb.delivs.len(), "{} of {} deliveries", x.rcv.done, rb.delivs.len());
        ensure!(sb == 2 || y.rcv.done == ra.delivs.len(), "{} of {} deliveries", y.rcv.done, ra.delivs.len());
    } else {
        for r in &[&x.rcv, &y.rcv] {
            match r.end {
                End::Clean => c.count("ended_between_items", 1),
                End::Broken(_) => c.count("ended_inside_an_item", 1),
                End::Open => {}
            }
        }
    }
    c.count("steps", steps);
    c.count("items_delivered", (x.rcv.got + y.rcv.got) as u64);
    c.count("messages_put_together", (x.rcv.done + y.rcv.done) as u64);
    c.count("refused_items", x.rcv.errors + y.rcv.errors);
    c.count("transport_blocked", lab.blocked + lba.blocked);
    c.count("reframed", x.reframed + y.reframed);
    c.count("codec_changes", (x.phase + y.phase) as u64);
    c.count(&format!("styles_{}{}", sa, sb), 1);
    c.max("bytes", (lab.log.len() + lba.log.len()) as u64);
    Ok(())
}

/// a real socket, four threads
fn sockets(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let ph = phases(&mut rng);
    let big = rng.chance(1, 4);
    let a = script(&mut rng, &ph, false, true, big);
    let b = script(&mut rng, &ph, false, true, big);
    let (ia, _, ya, ra, _) = split(a);
    let (ib, _, yb, rb, _) = split(b);
    c.obs(mix(hash_bytes(&ya) ^ mix(hash_bytes(&yb))), true, || format!("{} and {} bytes over a socket pair", ya.len(), yb.len()));
    let (s1, s2) = match UnixStream::pair() {
        Ok(x) => x,
        Err(_) => {
            c.count("no_socket", 1);
            return Ok(());
        }
    };
    let tx = |mut s: UnixStream, items: VecDeque<Item>, mut rng: Rng| -> Res {
        let mut dst = BytesMut::new();
        for mut it in items {
            encode(it.out.take().unwrap(), &it.bytes, &mut dst)?;
            if rng.chance(1, 3) {
                let n = rng.range(1, dst.len());
                s.write_all(&dst.split_to(n)).map_err(|e| format!("{}", e))?;
            }
            if rng.chance(1, 8) {
                std::thread::yield_now();
            }
        }
        s.write_all(&dst).map_err(|e| format!("{}", e))?;
        s.shutdown(std::net::Shutdown::Write).map_err(|e| format!("{}", e))
    };
    let rx = |mut s: UnixStream, r: &Recv, mut rng: Rng| -> Result<(usize, usize), String> {
        let mut rcv = Rcv::new(r);
        let mut src = BytesMut::new();
        let mut cod = Cod::new(Kind::Head);
        let mut at = Kind::Head;
        let mut taken = 0;
        while rcv.end == End::Open {
            let mut b = vec![0; rng.range(1, 5000)];
            let n = s.read(&mut b).map_err(|e| format!("{}", e))?;
            src.extend_from_slice(&b[..n]);
            taken += n;
            loop {
                if let Some((k, _)) = r.wants.get(rcv.got) {
                    if *k != at {
                        at = *k;
                        cod = Cod::new(at);
                    }
                }
                let x = cod.decode(&mut src, n == 0);
                let stop = match x {
                    Poll::Nothing | Poll::End | Poll::Refused(true, _) => true,
                    _ => false,
                };
                rcv.see(x, taken)?;
                if stop {
                    break;
                }
            }
        }
        rcv.finish(taken)?;
        ensure!(rcv.done == r.delivs.len(), "{} of {} deliveries", rcv.done, r.delivs.len());
        Ok((rcv.got, rcv.done))
    };
    let t = |e: io::Error| format!("harness: {}", e);
    let (s1r, s2r) = (s1.try_clone().map_err(t)?, s2.try_clone().map_err(t)?);
    let mut seed = || Rng::new(&[rng.u64()]);
    let (q1, q2, q3, q4) = (seed(), seed(), seed(), seed());
    let (ra, rb) = (&ra, &rb);
    let r = std::thread::scope(|s| {
        let (ia, ib) = (Forced(ia), Forced(ib));
        let h1 = s.spawn(move || tx(s1, ia.out(), q1));
        let h2 = s.spawn(move || tx(s2, ib.out(), q2));
        let (ra, rb) = (Forced(ra), Forced(rb));
        let h3 = s.spawn(move || rx(s2r, ra.out(), q3));
        let h4 = s.spawn(move || rx(s1r, rb.out(), q4));
        let p = |_| Err("a thread panicked".to_string());
        let p2 = |_| Err("a thread panicked".to_string());
        let r3 = h3.join().unwrap_or_else(p2);
        let r4 = h4.join().unwrap_or_else(p2);
        (h1.join().unwrap_or_else(p), h2.join().unwrap_or_else(p), r3, r4)
    });
    // a receiver that gives up makes its peer's writes fail: report the receiver
    let told = |e: &String| !e.contains("os error");
    for e in vec![r.2.as_ref().err(), r.3.as_ref().err()].into_iter().flatten() {
        if told(e) {
            return Err(e.clone());
        }
    }
    let (g1, d1) = r.2?;
    let (g2, d2) = r.3?;
    r.0?;
    r.1?;
    c.count("socket_items", (g1 + g2) as u64);
    c.count("socket_messages", (d1 + d2) as u64);
    Ok(())
}

/// one stream, ended at every byte
fn every_end(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let sasl = rng.bool();
    let kind = if sasl { Kind::Sasl } else { Kind::Amqp };
    let mut items = Vec::new();
    let n = rng.range(1, 4);
    let head = rng.bool();
    if head {
        items.push(head_item(if sasl { ProtocolId::AmqpSasl } else { ProtocolId::Amqp }));
    }
    for _ in 0..n {
        let foreign = rng.bool();
        if sasl {
            let r = gen_sasl(&mut Gen::with_budget(&mut rng, 40));
            items.push(sasl_item(&mut rng, r, foreign));
        } else {
            let f = gen_frame(&mut Gen::with_budget(&mut rng, 40));
            items.push(amqp_item(&mut rng, &f, foreign));
        }
    }
    let all: Vec<u8> = items.iter().flat_map(|x| x.bytes.clone()).collect();
    if all.len() > 1500 {
        return Ok(());
    }
    let mut ends = Vec::new();
    let mut at = 0;
    for x in &items {
        at += x.bytes.len();
        ends.push(at);
    }
    // transfers here belong to no delivery
    let wants: Vec<(Kind, Option<R>)> = items.iter().map(|x| (x.kind, x.want.clone())).collect();
    c.obs(hash_bytes(&all), true, || format!("{} items, {} bytes, ended everywhere", items.len(), all.len()));
    for end in 0..=all.len() {
        let mut src = BytesMut::with_capacity(*rng.pick(&[0usize, 10, 3000]));
        let mut at = if head { Kind::Head } else { kind };
        let mut cod = Cod::new(at);
        let mut got = 0;
        let mut pos = 0;
        let mode = rng.below(3);
        let fin = loop {
            let n = match mode {
                0 => end - pos,
                1 => 1.min(end - pos),
                _ => rng.range(1, 60).min(end - pos),
            };
            src.extend_from_slice(&all[pos..pos + n]);
            pos += n;
            let eof = n == 0;
            let mut fin = None;
            loop {
                if let Some((k, _)) = wants.get(got) {
                    if *k != at {
                        at = *k;
                        cod = Cod::new(at);
                    }
                }
                match cod.decode(&mut src, eof) {
                    Poll::Nothing => break,
                    Poll::Item(_, r) => {
                        let w = wants.get(got).and_then(|x| x.1.clone());
                        ensure!(w.as_ref() == Some(&r.clone().canon()), "item {}: {:?} sent, {} arrives ({})", got, w.map(|x| x.show()), r.show(), hex(&all));
                        got += 1;
                    }
                    Poll::Refused(false, e) => return Err(format!("item {} refused: {} (ended at {} of {})", got, e, end, hex(&all))),
                    Poll::Refused(true, e) => {
                        fin = Some(Some(e));
                        break;
                    }
                    Poll::End => {
                        fin = Some(None);
                        break;
                    }
                }
            }
            if let Some(f) = fin {
                break f;
            }
        };
        let whole = ends.iter().filter(|e| **e <= end).count();
        ensure!(got == whole, "{} of {} items before the end at byte {} of {}", got, whole, end, hex(&all));
        let boundary = end == 0 || ends.contains(&end);
        ensure!(
            boundary == fin.is_none(),
            "stream {} ended at byte {} ({}): {:?}",
            hex(&all),
            end,
            if boundary { "behind an item" } else { "inside an item" },
            fin
        );
        c.count("ends_tried", 1);
    }
    Ok(())
}

fn c30(c: &mut Ctx, s: &str, _i: u64) -> Res {
    match s {
        "connections" => connection(c, false, false, false),
        "troubled" => connection(c, false, true, false),
        "broken" => {
            let bad = c.rng.chance(1, 4);
            connection(c, true, bad, false)
        }
        "big" => {
            let cut = c.rng.chance(1, 4);
            connection(c, cut, false, true)
        }
        "ends" => every_end(c),
        "sockets" => sockets(c),
        _ => unreachable!(),
    }
}

pub const C30: Prop = Prop {
    id: "C30",
    rule: "one evaluation = one whole connection driven to its end (or one stream ended at every byte); distinct = \
           bytes of both directions and places where they are cut",
    streams: |t| {
        vec![
            st("connections", t.k(1_500, 60_000)),
            st("troubled", t.k(700, 30_000)),
            st("broken", t.k(1_500, 60_000)),
            st("big", t.k(40, 1_500)),
            st("ends", t.k(300, 10_000)),
            st("sockets", t.k(150, 6_000)),
        ]
    },
    run: c30,
};

