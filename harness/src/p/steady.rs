//! C34: long-lived connections hold bounded memory.

use std::collections::VecDeque;
use std::fmt::Debug;
use std::hash::Hash;

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{
    AmqpCodec, AmqpFrame, AmqpParseError, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame,
};
use bytes::{Bytes, BytesMut};
use futures::{Async, AsyncSink, Sink, Stream};
use tokio_codec::{FramedRead, FramedWrite};
use tokio_io::codec::{Decoder, Encoder};

use super::frames::{bad_item, big_item, gen_item, pick_mode, sasl_value, segments, Item, Pipe, Sinky, BAD};
use super::hostile::corrupt;
use super::inputs::{legal, zero_width_bomb};
use super::msgs::Msg;
use crate::alloc;
use crate::conv::*;
use crate::ctx::*;
use crate::entries;
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_str, mix, Rng};
use crate::rval::*;
use crate::spec::*;

/// something that lives on while traffic passes
trait Scene {
    /// some traffic; what is in transit or held behind it, in bytes of encoding
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String>;
    /// everything is handed over: buffers are replaced, values are dropped
    fn settle(&mut self, rng: &mut Rng) -> Res;
    /// the largest frame or value so far: room for it may be kept for the next
    fn largest(&self) -> usize;
    /// bytes in buffers that cannot be replaced
    fn buffers(&self) -> isize {
        0
    }
}

/// bytes that may be held on top, whatever is in transit: low and high water marks, spare capacity
const CONSTANT: usize = 512 << 10;
const TIMES: usize = 8;
/// growth below this between two looks is no growth
const GRAIN: isize = 200;

/// Traffic in periods that double. Nothing may be held in proportion to what has passed.
fn watch(c: &mut Ctx, name: &str, s: &mut dyn Scene, turns: usize) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    no_pool(true);
    let start = alloc::live();
    let mut looks: Vec<(usize, isize, isize)> = Vec::with_capacity(16);
    let mut next = (turns / 16).max(1);
    let mut most = 0usize;
    for k in 0..turns {
        let held = s.turn(&mut rng, k).map_err(|e| format!("{}, turn {}: {}", name, k, e))?;
        let live = (alloc::live() - start).max(0) as usize;
        most = most.max(live);
        c.max("percent_of_transit", (live * 100 / (held + CONSTANT / TIMES)) as u64);
        ensure!(
            live <= TIMES * held + CONSTANT,
            "{}: {} bytes are held after {} turns with {} bytes in transit or held",
            name,
            live,
            k + 1,
            held
        );
        if k + 1 == next {
            s.settle(&mut rng).map_err(|e| format!("{}, turn {}: {}", name, k, e))?;
            looks.push((k + 1, alloc::live() - start, s.largest() as isize));
            next *= 2;
        }
    }
    c.count("turns", turns as u64);
    c.max("bytes_held", most as u64);
    if looks.len() >= 4 {
        let t = &looks[looks.len() - 4..];
        c.max("bytes_held_settled", t[3].1.max(0) as u64);
        ensure!(
            !t.windows(2).all(|w| w[1].1 - w[0].1 > GRAIN + s.buffers() + TIMES as isize * (w[1].2 - w[0].2)),
            "{}: memory grows with the traffic: (turns, bytes held with nothing in transit, largest item so far) {:?}",
            name,
            looks
        );
    }
    Ok(())
}

// ------------------------------------------------------------ decoding codec

fn new_codec<T: Decode + Encode>() -> AmqpCodec<T> {
    AmqpCodec::new()
}

struct Decoding<T: Decode + Encode> {
    sasl: bool,
    codec: AmqpCodec<T>,
    buf: BytesMut,
    wire: VecDeque<u8>,
    largest: usize,
    bad: usize,
    big: usize,
    /// connections end mid-way
    churn: bool,
    /// hardly anything but empty frames
    idle: bool,
    frames: u64,
    refused: u64,
    start: isize,
}

impl<T: Decode + Encode + Debug> Decoding<T> {
    fn new(rng: &mut Rng, sasl: bool) -> Self {
        Decoding {
            sasl,
            codec: new_codec(),
            buf: BytesMut::new(),
            wire: VecDeque::new(),
            largest: 0,
            bad: *rng.pick(&[0, 0, 1, 2]),
            big: *rng.pick(&[0, 0, 20_000, 300_000]),
            churn: rng.chance(1, 4),
            idle: !sasl && rng.chance(1, 8),
            frames: 0,
            refused: 0,
            start: 0,
        }
    }
    fn item(&mut self, rng: &mut Rng, k: usize) -> Item {
        if self.idle && !rng.chance(1, 50) {
            let r = RFrame { channel: rng.below(3) as u16, perf: None, payload: None };
            let bytes = wrap_frame(0, r.channel, &[], &[]);
            return Item { bytes, want: None, what: "empty", terminal: false };
        }
        if self.big > 0 && (k % 97 == 3) {
            return big_item(rng, self.sasl, self.big - k % 1000);
        }
        if rng.chance(self.bad, 3) {
            loop {
                let kind = rng.below(BAD.len());
                if let Some(x) = bad_item(rng, self.sasl, kind) {
                    if !x.terminal || self.churn {
                        return x;
                    }
                }
            }
        }
        let budget = *rng.pick(&[10, 60, 200, 600]);
        gen_item(rng, self.sasl, budget)
    }
    fn again(&mut self) {
        self.codec = new_codec();
        self.buf = BytesMut::new();
        self.wire = VecDeque::new();
    }
    /// false: the connection is dead
    fn poll(&mut self) -> bool {
        let mut stuck = 0;
        loop {
            let n = self.buf.len();
            match self.codec.decode(&mut self.buf) {
                Ok(None) => return true,
                Ok(Some(f)) => {
                    self.frames += 1;
                    drop(f);
                }
                Err(e) => {
                    self.refused += 1;
                    drop(e);
                    if self.buf.len() == n {
                        stuck += 1;
                        if stuck > 3 {
                            return false;
                        }
                    }
                }
            }
        }
    }
    fn deliver(&mut self, n: usize) -> Result<bool, String> {
        let x: Vec<u8> = self.wire.drain(..n).collect();
        self.buf.extend_from_slice(&x);
        drop(x);
        let alive = self.poll();
        let (live, held) = ((alloc::live() - self.start).max(0) as usize, self.held());
        ensure!(
            live <= TIMES * held + CONSTANT,
            "{} bytes are held between two pieces of a frame, with {} in transit",
            live,
            held
        );
        Ok(alive)
    }
    fn held(&self) -> usize {
        self.largest + self.buf.len() + self.wire.capacity()
    }
}

impl<T: Decode + Encode + Debug> Scene for Decoding<T> {
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String> {
        if k == 0 {
            self.start = alloc::live();
        }
        let it = self.item(rng, k);
        self.largest = self.largest.max(it.bytes.len());
        let total = it.bytes.len();
        let terminal = it.terminal;
        self.wire.extend(it.bytes);
        drop(it.want);
        let total = total + self.wire.len() - total;
        let mode = pick_mode(rng, total);
        let (cuts, _) = segments(rng, total, mode);
        // the end may wait for the next turn
        let keep = if terminal { 0 } else { rng.below(cuts.len().min(20)) };
        let mut alive = true;
        for n in &cuts[..cuts.len() - keep] {
            alive = self.deliver(*n)?;
            if !alive {
                break;
            }
        }
        drop(cuts);
        if !alive || (self.churn && rng.chance(1, 3)) {
            self.again();
        }
        Ok(self.held())
    }
    fn largest(&self) -> usize {
        self.largest
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        let n = self.wire.len();
        if self.deliver(n)? && self.buf.is_empty() {
            self.buf = BytesMut::new();
            self.wire = VecDeque::new();
        } else {
            self.again();
        }
        Ok(())
    }
}

fn decoding<T: Decode + Encode + Debug>(c: &mut Ctx, sasl: bool, turns: usize) -> Res {
    let mut s = Decoding::<T>::new(&mut c.rng, sasl);
    watch(c, if sasl { "a SASL decoder" } else { "an AMQP decoder" }, &mut s, turns)?;
    c.count("frames_delivered", s.frames);
    c.count("frames_refused", s.refused);
    Ok(())
}

// ------------------------------------------------------------ encoding codec

struct Encoding {
    amqp: AmqpCodec<AmqpFrame>,
    sasl: AmqpCodec<SaslFrame>,
    dst: BytesMut,
    how: usize,
    big: usize,
    largest: usize,
    frames: u64,
}

impl Scene for Encoding {
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String> {
        for _ in 0..rng.range(1, 4) {
            let budget = *rng.pick(&[10, 60, 200, 600]);
            let before = self.dst.len();
            if self.big > 0 && k % 97 == 3 {
                let payload = Some(rng.bytes(self.big));
                let f = RFrame { channel: k as u16, perf: Some(gen_comp(&TRANSFER, &mut Gen::with_budget(rng, 60))), payload };
                self.amqp.encode(AmqpFrame::from_r(&f.r()), &mut self.dst).map_err(|e| format!("{:?}", e))?;
            } else if rng.chance(1, 4) {
                let r = gen_sasl(&mut Gen::with_budget(rng, budget));
                self.sasl.encode(sasl_value(&r, true), &mut self.dst).map_err(|e| format!("{:?}", e))?;
            } else {
                let f = gen_frame(&mut Gen::with_budget(rng, budget));
                self.amqp.encode(AmqpFrame::from_r(&f.r()), &mut self.dst).map_err(|e| format!("{:?}", e))?;
            }
            self.largest = self.largest.max(self.dst.len() - before);
            self.frames += 1;
        }
        let n = self.dst.len();
        match self.how {
            0 => drop(self.dst.take()),
            1 => {
                let x = rng.range(n / 2, n);
                drop(self.dst.split_to(x))
            }
            2 => {
                let x = rng.range(n / 2, n);
                self.dst.advance(x)
            }
            3 => drop(self.dst.split_to(n).freeze().slice(0, n / 2)),
            _ => self.dst.clear(),
        }
        Ok(self.largest * 2 + self.dst.len())
    }
    fn largest(&self) -> usize {
        self.largest
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        self.dst = BytesMut::new();
        Ok(())
    }
}

// ------------------------------------------------------------ through the framed transports

struct Reading {
    fr: FramedRead<Pipe, AmqpCodec<AmqpFrame>>,
    largest: usize,
    frames: u64,
}

impl Scene for Reading {
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String> {
        let it = if k % 97 == 3 { big_item(rng, false, 50_000) } else { gen_item(rng, false, 300) };
        let n = it.bytes.len();
        self.largest = self.largest.max(n);
        let mode = pick_mode(rng, n);
        let (cuts, _) = segments(rng, n, mode);
        let mut at = 0;
        for x in cuts {
            self.fr.get_mut().pieces.push_back(Some(it.bytes[at..at + x].to_vec()));
            at += x;
        }
        self.fr.get_mut().pieces.push_back(None);
        loop {
            match self.fr.poll() {
                Ok(Async::NotReady) => break,
                Ok(Async::Ready(Some(_))) => self.frames += 1,
                Ok(Async::Ready(None)) => return Err("the stream ends".to_string()),
                Err(e) => return Err(format!("{:?}", e)),
            }
        }
        self.fr.get_mut().pieces = VecDeque::new();
        Ok(self.largest)
    }
    fn buffers(&self) -> isize {
        96 << 10
    }
    fn largest(&self) -> usize {
        self.largest
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        Ok(())
    }
}

struct Writing {
    fw: FramedWrite<Sinky, AmqpCodec<AmqpFrame>>,
    largest: usize,
    frames: u64,
}

impl Scene for Writing {
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String> {
        let f = if k % 97 == 3 {
            RFrame { channel: 1, perf: Some(gen_comp(&TRANSFER, &mut Gen::with_budget(rng, 60))), payload: Some(rng.bytes(50_000)) }
        } else {
            gen_frame(&mut Gen::with_budget(rng, 300))
        };
        let mut next = Some(AmqpFrame::from_r(&f.r()));
        drop(f);
        self.largest = self.largest.max(next.as_ref().map(|x| x.encoded_size()).unwrap_or(0));
        while let Some(x) = next.take() {
            match self.fw.start_send(x).map_err(|e| format!("{:?}", e))? {
                AsyncSink::Ready => self.frames += 1,
                AsyncSink::NotReady(x) => next = Some(x),
            }
            if next.is_some() || rng.chance(1, 3) {
                let _ = self.fw.poll_complete().map_err(|e| format!("{:?}", e))?;
            }
        }
        self.fw.get_mut().out = Vec::new();
        // the sink is asked to take back pressure at 8 KiB
        Ok(2 * self.largest + 8192)
    }
    fn buffers(&self) -> isize {
        96 << 10
    }
    fn largest(&self) -> usize {
        self.largest
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        Ok(())
    }
}

// ------------------------------------------------------------ protocol headers

struct Headers {
    codec: ProtocolIdCodec,
    buf: BytesMut,
    dst: BytesMut,
}

impl Scene for Headers {
    fn turn(&mut self, rng: &mut Rng, _: usize) -> Result<usize, String> {
        for _ in 0..4 {
            let mut h = *b"AMQP\x00\x01\x00\x00";
            h[4] = rng.below(5) as u8;
            if rng.chance(1, 3) {
                h[rng.below(8)] = rng.u64() as u8;
            }
            let n = rng.range(1, 8);
            self.buf.extend_from_slice(&h[..n]);
            let _ = self.codec.decode(&mut self.buf).map_err(|e| e.to_string());
            self.buf.extend_from_slice(&h[n..]);
            while self.buf.len() >= 8 {
                let n = self.buf.len();
                if let Ok(Some(x)) = self.codec.decode(&mut self.buf) {
                    let _ = self.codec.encode(x, &mut self.dst);
                }
                if n == self.buf.len() {
                    self.buf = BytesMut::new();
                }
            }
        }
        if rng.bool() {
            drop(self.dst.take());
        } else {
            self.dst.clear();
        }
        Ok(self.buf.len() + 64)
    }
    fn largest(&self) -> usize {
        8
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        self.buf = BytesMut::new();
        self.dst = BytesMut::new();
        Ok(())
    }
}

// ------------------------------------------------------------ decoders without a codec

struct Direct {
    largest: usize,
    e: entries::Entry,
    budget: usize,
    accepted: u64,
    refused: u64,
}

impl Scene for Direct {
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String> {
        let (b, _) = if rng.chance(2, 3) {
            let (b, _) = legal(self.e.name, rng, self.budget);
            (b, "")
        } else {
            corrupt(self.e.name, rng, self.budget)
        };
        if zero_width_bomb(self.e.name, &b) {
            return Ok(0);
        }
        self.largest = self.largest.max(b.len());
        let ok = if k % 4 == 1 {
            (self.e.dig)(&b);
            true
        } else {
            (self.e.run)(&b)
        };
        if ok {
            self.accepted += 1
        } else {
            self.refused += 1
        }
        Ok(0)
    }
    fn largest(&self) -> usize {
        self.largest
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        Ok(())
    }
}

// ------------------------------------------------------------ a message that is changed all the time

struct LongLived<M: Msg> {
    m: M,
    steps: u64,
    largest: usize,
}

/// what is held may be this many times what it encodes to
const PER_BYTE: usize = 64;
const PER_VALUE: usize = 8192;

impl<M: Msg> Scene for LongLived<M> {
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String> {
        // what was set before goes away with the message
        let m = std::mem::replace(&mut self.m, M::default());
        let mut m = if k == 0 { M::default() } else { m };
        let n = *rng.pick(&[3usize, 40, 400, 3000]);
        self.steps += 1;
        m = match rng.below(12) {
            0 => m.set_header(p::Header::from_r(&gen_comp(&HEADER, &mut Gen::with_budget(rng, n)))),
            1 => {
                let x = p::Properties::from_r(&gen_comp(&PROPERTIES, &mut Gen::with_budget(rng, n)));
                m.set_props(|p| *p = x.clone())
            }
            2 => {
                let v = Variant::Binary(Bytes::from(rng.bytes(n)));
                // a short set of names, the values always new
                m.set_app(Str::from_str(*rng.pick(&["a", "beta", "gamma", "a rather long name"])), v)
            }
            3 => m.set_value(Variant::from_r(&Gen::with_budget(rng, n).value(3))),
            4 => {
                let d = Bytes::from(rng.bytes(n));
                m.set_body(|b| b.data = vec![d.clone()])
            }
            5 => {
                let l = List(vec![Variant::from_r(&Gen::with_budget(rng, n).value(2))]);
                m.set_body(|b| b.sequence = vec![l.clone()])
            }
            6 => {
                let inner = M::with_body(Bytes::from(rng.bytes(n)));
                m.set_body(|b| b.messages = vec![inner.clone().into_body()])
            }
            7 => m.set_body(|b| *b = Default::default()),
            8 => m.update(|m| m.set_value(Variant::Null)),
            9 => m.if_some(&Some(n), |m, n| m.set_body(|b| b.data = vec![Bytes::from(vec![7; *n])])),
            10 => {
                let c = m.clone();
                let _ = (c == m, c.encoded_size(), format!("{:?}", c).len());
                c
            }
            _ => {
                let b = lib_enc(&m);
                match M::decode(&b) {
                    Ok((_, x)) => x,
                    Err(e) => return Err(format!("the message is refused after {} steps: {:?}", self.steps, e)),
                }
            }
        };
        // names that are set twice stay on the wire twice for outgoing messages: not to go on for ever
        if M::NAME == "OutMessage" && k % 40 == 39 {
            m = M::default();
        }
        let _ = lib_enc(&m).len() + lib_enc(&m.reply()).len();
        self.m = m;
        self.largest = self.largest.max(self.m.encoded_size());
        Ok(self.m.encoded_size() * PER_BYTE / TIMES)
    }
    fn largest(&self) -> usize {
        self.largest
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        self.m = M::default();
        Ok(())
    }
}

/// set once more to something small, nothing is left of what was there before
fn replaced<M: Msg>(c: &mut Ctx) -> Res {
    let n = c.rng.range(50_000, 400_000);
    let rounds = c.rng.range(1, 8);
    let mut m = M::default();
    no_pool(true);
    {
        let big = M::with_body(Bytes::from(c.rng.bytes(2 * n)));
        let _ = M::decode(&lib_enc(&big)).is_ok();
    }
    let base = alloc::live();
    let how = c.rng.below(5);
    for k in 0..=rounds {
        let n = if k == rounds { 10 } else { n + k };
        let x = c.rng.bytes(n);
        m = match how {
            0 => m.set_body(|b| b.data = vec![Bytes::from(&x[..])]),
            1 => m.set_value(Variant::Binary(Bytes::from(&x[..]))),
            2 => m.set_props(|p| p.user_id = Some(Bytes::from(&x[..]))),
            3 => m.set_body(|b| b.sequence = vec![List(vec![Variant::Binary(Bytes::from(&x[..]))])]),
            _ => m.set_body(|b| b.messages = vec![M::with_body(Bytes::from(&x[..])).into_body()]),
        };
        drop(x);
        std::hint::black_box(lib_enc(&m).len());
    }
    let live = (alloc::live() - base).max(0) as usize;
    let e = m.encoded_size();
    ensure!(
        live <= PER_BYTE * e + PER_VALUE,
        "{}: {} bytes are held by a message of {} bytes, set {} times ({})",
        M::NAME,
        live,
        e,
        rounds + 1,
        how
    );
    c.obs(mix(hash_str(M::NAME) ^ (n as u64) << 8 ^ how as u64), true, || format!("{}: set {} times", M::NAME, rounds + 1));
    Ok(())
}

// ------------------------------------------------------------ values made, used and dropped

struct Made {
    largest: usize,
}

fn hash<T: Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl Scene for Made {
    fn turn(&mut self, rng: &mut Rng, k: usize) -> Result<usize, String> {
        let mut most = 0;
        macro_rules! enc {
            ($x:expr) => {{
                let b = lib_enc($x);
                most = most.max(b.len());
                b
            }};
        }
        let t = {
            let n = rng.range(0, 60);
            let mut t = Gen::with_budget(rng, 80).text_len(n);
            t.push_str(&format!("{}", k));
            t
        };
        match rng.below(8) {
            0 => {
                let s = Symbol::from_slice(&t);
                let _ = (hash(&s), s.clone() == s, format!("{:?}", s), enc!(&s));
            }
            1 => {
                let s = Str::from_str(&t);
                let b = Str::from(byte_str(&t));
                let _ = (hash(&s) == hash(&b), s == b, s.clone(), format!("{:?}{}", s, b.as_str()), enc!(&b));
                let _ = Symbol(s).cmp_str(&t);
            }
            2 => {
                let v = Variant::from_r(&Gen::with_budget(rng, 300).value(3));
                let w = v.clone();
                let _ = (v == w, hash(&v), format!("{:?}", w), enc!(&v));
            }
            3 => {
                let v = p::ErrorCondition::Custom(Symbol::from_slice(&t));
                let _ = (v.clone() == v, format!("{:?}", v), enc!(&v));
                let b = enc!(&v);
                let _ = p::ErrorCondition::decode(&b).map(|x| x.1 == v);
            }
            4 => {
                let e = AmqpParseError::InvalidDescriptor(Descriptor::Symbol(Symbol::from_slice(&t)));
                let _ = (e.clone(), format!("{} {:?}", e, e));
                let e: amqp_codec::AmqpCodecError = e.into();
                let _ = (e.clone(), format!("{} {:?}", e, e));
            }
            5 => {
                let f = AmqpFrame::from_r(&gen_frame(&mut Gen::with_budget(rng, 300)).r());
                let _ = (f.clone() == f, format!("{:?}", f), enc!(&f), f.encoded_size());
            }
            6 => {
                let m: InMessage = super::msgs::build(&gen_msg(&mut Gen::with_budget(rng, 300)));
                let o: OutMessage = m.reply_message();
                let _ = (m.clone() == m, format!("{:?}{:?}", m, o), enc!(&m), enc!(&o));
            }
            _ => {
                let m: OutMessage = super::msgs::build(&gen_msg(&mut Gen::with_budget(rng, 300)));
                let _ = (m.clone() == m, format!("{:?}", m), enc!(&m), enc!(&m.reply_message()));
                let mut t = p::Transfer::from_r(&gen_comp(&TRANSFER, &mut Gen::with_budget(rng, 100)));
                t.body = Some(m.into());
                let f: p::Frame = p::Frame::Transfer(t);
                let _ = enc!(&f).len();
            }
        }
        self.largest = self.largest.max(most);
        Ok(0)
    }
    fn largest(&self) -> usize {
        self.largest
    }
    fn settle(&mut self, _: &mut Rng) -> Res {
        Ok(())
    }
}

trait CmpStr {
    fn cmp_str(&self, s: &str) -> bool;
}
impl CmpStr for Symbol {
    fn cmp_str(&self, s: &str) -> bool {
        *self == *s
    }
}

// ------------------------------------------------------------ parts that are kept

/// the part of a decoded value is kept, the rest dropped
fn kept<T, F>(c: &mut Ctx, what: &str, b: Vec<u8>, small: usize, part: F) -> Res
where
    T: Decode,
    F: Fn(T) -> Option<Box<dyn std::any::Any>>,
{
    let n = 24;
    let len = b.len();
    let mut keep = Vec::with_capacity(n);
    no_pool(true);
    // room that is kept for the next value of this size is no part of it
    let _ = T::decode(&b).map(|x| part(x.1));
    let base = alloc::live() - len as isize;
    let mut some = 0;
    for _ in 0..n {
        let mut buf = BytesMut::with_capacity(len + 10);
        buf.extend_from_slice(&b);
        let v = {
            let (_, v) = T::decode(&buf).map_err(|e| format!("{}: refused: {:?}", what, e))?;
            v
        };
        drop(buf);
        let x = part(v);
        some += x.is_some() as usize;
        keep.push(x);
    }
    ensure!(some == n, "{}: the part is not there", what);
    drop(b);
    let live = (alloc::live() - base).max(0) as usize;
    c.count("parts_kept", n as u64);
    c.max("bytes_per_kept_part", (live / n) as u64);
    ensure!(
        live <= n * (PER_BYTE * small + 1024),
        "{}: {} parts of {} bytes each, kept of values of {} bytes, hold {} bytes",
        what,
        n,
        small,
        len,
        live
    );
    Ok(())
}

fn parts(c: &mut Ctx, i: u64) -> Res {
    let big = c.rng.range(60_000, 300_000);
    let small = *c.rng.pick(&[1usize, 20, 33, 40, 60, 200]);
    let text = {
        let mut t: String = (0..small).map(|k| (b'a' + (k % 26) as u8) as char).collect();
        t.push_str(&format!("{}", c.rng.below(1000)));
        t
    };
    let small = text.len();
    let blob = c.rng.bytes(big);
    let mut rng = Rng::new(&[c.rng.u64()]);
    let pr = |id: R, group: Option<String>| -> R {
        let mut v = vec![R::Null; 13];
        v[0] = id;
        v[10] = group.map(R::Str).unwrap_or(R::Null);
        R::desc(0x73, R::List(v))
    };
    let kind = i % 16;
    let mut what = "a property of a message";
    match kind {
        0 | 1 | 2 | 3 => {
            let id = match kind {
                0 => R::Str(text.clone()),
                1 => R::Bin(text.as_bytes().to_vec()),
                _ => R::U64(77),
            };
            let secs = vec![pr(id, Some(text.clone())), R::desc(0x75, R::Bin(blob))];
            let b = enc_sections(&secs, &mut rng, FREE);
            match kind {
                0 | 1 => kept::<InMessage, _>(c, "the message id of a message", b, small, |m| {
                    m.properties().and_then(|p| p.message_id.clone()).map(|x| Box::new(x) as Box<dyn std::any::Any>)
                })?,
                2 => kept::<OutMessage, _>(c, "the group id of a message", b, small, |m| {
                    m.properties().and_then(|p| p.group_id.clone()).map(|x| Box::new(x) as Box<dyn std::any::Any>)
                })?,
                _ => kept::<InMessage, _>(c, "the reply to a message", b, small, |m| {
                    Some(Box::new(m.reply_message()) as Box<dyn std::any::Any>)
                })?,
            }
        }
        4 | 5 => {
            what = "an entry of a value";
            let r = R::List(vec![R::Str(text.clone()), R::Sym(text.clone()), R::Bin(blob), R::Bin(text.as_bytes().to_vec())]);
            let b = enc_min(&r);
            let at = *c.rng.pick(&[0usize, 1, 3]);
            if kind == 4 {
                kept::<List, _>(c, "an item of a list", b, small, move |l| Some(Box::new(l.iter().nth(at).unwrap().clone()) as Box<dyn std::any::Any>))?
            } else {
                kept::<Variant, _>(c, "an item of a value", b, small, move |v| match v {
                    Variant::List(l) => Some(Box::new(l.iter().nth(at).unwrap().clone()) as Box<dyn std::any::Any>),
                    _ => None,
                })?
            }
        }
        6 => {
            what = "an entry of a map";
            let r = R::Map(vec![
                (R::Sym("small".into()), R::Str(text.clone())),
                (R::Sym("big".into()), R::Bin(blob)),
            ]);
            let b = enc_min(&r);
            kept::<p::Fields, _>(c, "an entry of a map", b, small, |m| {
                m.get("small").cloned().map(|x| Box::new(x) as Box<dyn std::any::Any>)
            })?
        }
        7 => {
            what = "the delivery tag of a transfer";
            let perf = {
                let mut v = vec![R::Null; TRANSFER.fields.len()];
                v[0] = R::U32(1);
                v[1] = R::U32(2);
                v[2] = R::Bin(text.as_bytes().to_vec());
                R::desc(0x14, R::List(v))
            };
            let f = RFrame { channel: 3, perf: Some(perf), payload: Some(blob) };
            let b = enc_frame(&f, &mut rng, FREE, 0);
            kept::<AmqpFrame, _>(c, what, b[4..].to_vec(), small, |f| match f.into_parts().1 {
                p::Frame::Transfer(t) => t.delivery_tag.map(|x| Box::new(x) as Box<dyn std::any::Any>),
                _ => None,
            })?
        }
        8 => {
            what = "a section of many";
            let secs = vec![R::desc(0x75, R::Bin(text.as_bytes().to_vec())), R::desc(0x75, R::Bin(blob))];
            let b = enc_sections(&secs, &mut rng, FREE);
            kept::<InMessage, _>(c, "the first data section of a message", b, small, |m| {
                m.body().data().map(|x| Box::new(x.clone()) as Box<dyn std::any::Any>)
            })?
        }
        9 => {
            what = "an array element";
            let b = enc_min(&R::Array(vec![R::Sym(text.clone()), R::Sym(String::from_utf8(vec![b'x'; big]).unwrap())]));
            kept::<Vec<Symbol>, _>(c, what, b, small, |v| v.into_iter().next().map(|x| Box::new(x) as Box<dyn std::any::Any>))?
        }
        10 => {
            what = "an error condition";
            let e = R::desc(
                0x1d,
                R::List(vec![R::Sym(text.clone()), R::Str(String::from_utf8(vec![b'x'; big]).unwrap())]),
            );
            let b = enc_min(&e);
            kept::<p::Error, _>(c, what, b, small, |e| Some(Box::new(e.condition) as Box<dyn std::any::Any>))?
        }
        12 | 13 | 14 => {
            what = "a key of a map";
            let k = |t: String| if kind == 14 { R::Sym(t) } else { R::Str(t) };
            let r = R::Map(vec![(k(text.clone()), R::Null), (k("x".repeat(big / 2)), R::Bin(blob))]);
            let b = enc_min(&r);
            let least = |v: Vec<Str>| v.into_iter().min_by_key(|x| x.len()).map(|x| Box::new(x) as Box<dyn std::any::Any>);
            match kind {
                12 => kept::<VecVariantMap, _>(c, what, b, small, |m| least(m.0.into_iter().map(|x| x.0).collect()))?,
                13 => kept::<p::StringVariantMap, _>(c, what, b, small, |m| least(m.into_iter().map(|x| x.0).collect()))?,
                _ => kept::<p::Fields, _>(c, what, b, small, |m| least(m.into_iter().map(|x| (x.0).0).collect()))?,
            }
        }
        15 => {
            what = "a field of an open frame";
            let mut v = vec![R::Null; OPEN.fields.len()];
            v[0] = R::Str(text.clone());
            v[1] = R::Str(text.clone());
            v[OPEN.fields.len() - 1] = R::Map(vec![(R::Sym("big".into()), R::Bin(blob))]);
            let f = RFrame { channel: 3, perf: Some(R::desc(0x10, R::List(v))), payload: None };
            let b = enc_frame(&f, &mut rng, FREE, 0);
            kept::<AmqpFrame, _>(c, what, b[4..].to_vec(), 2 * small, |f| match f.into_parts().1 {
                p::Frame::Open(o) => o.hostname.map(|x| Box::new((x, o.container_id)) as Box<dyn std::any::Any>),
                _ => None,
            })?
        }
        _ => {
            what = "an error from a refused value";
            // an unknown descriptor in front of a large body
            let b = enc_min(&R::Desc(Box::new(R::Sym(text.clone())), Box::new(R::Bin(blob))));
            let n = 24;
            let mut keep = Vec::with_capacity(n);
            no_pool(true);
            let _ = p::Frame::decode(&b).is_ok();
            let base = alloc::live() - b.len() as isize;
            for _ in 0..n {
                match p::Frame::decode(&b) {
                    Err(e) => keep.push(e),
                    Ok(_) => return Err("an unknown descriptor is accepted".to_string()),
                }
            }
            drop(b);
            let live = (alloc::live() - base).max(0) as usize;
            ensure!(live <= n * (PER_BYTE * small + 1024), "{} errors of refused values hold {} bytes", n, live);
            c.count("parts_kept", n as u64);
        }
    }
    c.obs(mix(i ^ (big as u64) << 20 ^ hash_str(&text)), true, || format!("{} of {} bytes", what, big));
    Ok(())
}

// ------------------------------------------------------------ all

pub const C34: Prop = Prop {
    id: "C34",
    rule: "one evaluation = one history of a codec, decoder, message or of values: hundreds to thousands of turns, \
           all with other contents, in which the bytes live on the heap are looked at after every turn and compared, \
           with nothing in transit, after every doubling of the turns; or one part kept of decoded values; distinct = \
           (scene, seed)",
    streams: |t| {
        vec![
            st("decoding", t.n(480, 10_000)),
            st("encoding", t.n(200, 5_000)),
            st("framed", t.n(120, 4_000)),
            st("headers", t.n(24, 400)),
            st("direct", entries::all().len() as u64 * t.n(8, 160)),
            st("message", t.n(240, 5_000)),
            st("replaced", t.n(480, 10_000)),
            st("made", t.n(120, 4_000)),
            st("parts", t.n(720, 24_000)),
        ]
    },
    run: c34,
};

fn c34(c: &mut Ctx, s: &str, i: u64) -> Res {
    let long = match mix(i) % 64 {
        0 => 25_600,
        1..=7 => 6400,
        _ => 1600,
    };
    let long = if c.asan { long / 4 } else { long };
    match s {
        "decoding" => {
            let r = if i % 3 == 2 { decoding::<SaslFrame>(c, true, long) } else { decoding::<AmqpFrame>(c, false, long) };
            r?
        }
        "encoding" => {
            let mut s = Encoding {
                amqp: AmqpCodec::new(),
                sasl: AmqpCodec::new(),
                dst: BytesMut::new(),
                how: (i % 5) as usize,
                big: *c.rng.pick(&[0, 0, 20_000, 300_000]),
                largest: 0,
                frames: 0,
            };
            watch(c, "an encoder", &mut s, long)?;
            c.count("frames_emitted", s.frames);
        }
        "framed" => {
            if i % 2 == 0 {
                let mut s = Reading {
                    fr: FramedRead::new(Pipe { pieces: VecDeque::new() }, AmqpCodec::new()),
                    largest: 0,
                    frames: 0,
                };
                watch(c, "a framed reader", &mut s, long)?;
                c.count("frames_delivered", s.frames);
            } else {
                let rng = Rng::new(&[c.rng.u64()]);
                let mut s = Writing {
                    fw: FramedWrite::new(Sinky { out: Vec::new(), rng, blocked: 0 }, AmqpCodec::new()),
                    largest: 0,
                    frames: 0,
                };
                watch(c, "a framed writer", &mut s, long)?;
                c.count("frames_emitted", s.frames);
            }
        }
        "headers" => {
            let mut s = Headers { codec: ProtocolIdCodec, buf: BytesMut::new(), dst: BytesMut::new() };
            watch(c, "a protocol header codec", &mut s, long)?
        }
        "direct" => {
            let mut es = entries::all();
            let n = es.len();
            let e = es.swap_remove(i as usize % n);
            let name = e.name;
            let mut s = Direct { largest: 0, e, budget: *c.rng.pick(&[40, 150, 400]), accepted: 0, refused: 0 };
            watch(c, name, &mut s, 640)?;
            c.count("values_accepted", s.accepted);
            c.count("values_refused", s.refused);
        }
        "message" => {
            if i % 2 == 0 {
                watch(c, "an incoming message", &mut LongLived::<InMessage> { m: Default::default(), steps: 0, largest: 0 }, long)?
            } else {
                watch(c, "an outgoing message", &mut LongLived::<OutMessage> { m: Default::default(), steps: 0, largest: 0 }, long)?
            }
        }
        "replaced" => {
            return if i % 2 == 0 { replaced::<InMessage>(c) } else { replaced::<OutMessage>(c) };
        }
        "made" => watch(c, "values", &mut Made { largest: 0 }, long)?,
        _ => return parts(c, i),
    }
    c.obs(mix(hash_str(s) ^ i), true, || format!("{} {}: {} turns", s, i, long));
    Ok(())
}
