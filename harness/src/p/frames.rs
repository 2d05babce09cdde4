//! C11-C14: the frame and protocol-header codecs. C26: independence of instances and threads.

use std::collections::VecDeque;
use std::fmt::Debug;
use std::io::{self, Read, Write};

use amqp_codec::protocol::{self as p, ProtocolId};
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, ProtocolIdCodec, SaslFrame};
use bytes::BytesMut;
use futures::{Async, AsyncSink, Sink, Stream as _};
use tokio_codec::{FramedRead, FramedWrite};
use tokio_io::codec::{Decoder, Encoder};
use tokio_io::{AsyncRead, AsyncWrite};

use crate::conv::*;
use crate::ctx::*;
use crate::entries;
use crate::gen::Gen;
use crate::msg::*;
use crate::p::comps::pad_comp;
use crate::p::inputs::{nest, wrap, NESTS, WRAPS};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rval::*;
use crate::spec::*;

// ------------------------------------------------------------ material

const EXTRA: EncOpt = EncOpt { sym: true, extra: true, omit: true };

/// one frame of a stream: its bytes and what decoding must give (None: an error)
#[derive(Clone)]
pub struct Item {
    pub bytes: Vec<u8>,
    pub want: Option<R>,
    pub what: &'static str,
    /// the stream position behind it is meaningless
    pub terminal: bool,
}

fn good(bytes: Vec<u8>, want: R, what: &'static str) -> Item {
    Item { bytes, want: Some(want.canon()), what, terminal: false }
}

pub fn opt(rng: &mut Rng) -> EncOpt {
    if rng.chance(1, 4) {
        EXTRA
    } else {
        FREE
    }
}

pub fn ext_words(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => rng.range(1, 4),
        1 => *rng.pick(&[1usize, 8, 61, 62, 100, 253]),
        _ => 0,
    }
}

pub fn gen_item(rng: &mut Rng, sasl: bool, budget: usize) -> Item {
    if sasl {
        let r = {
            let mut g = Gen::with_budget(rng, budget);
            gen_sasl(&mut g)
        };
        let (o, e) = (opt(rng), ext_words(rng));
        good(enc_sasl(&r, rng, o, e), r, "sasl")
    } else {
        let f = {
            let mut g = Gen::with_budget(rng, budget);
            gen_frame(&mut g)
        };
        let (o, e) = (opt(rng), ext_words(rng));
        let what = match (&f.perf, &f.payload) {
            (None, _) => "empty",
            (_, Some(_)) => "payload",
            _ => "performative",
        };
        good(enc_frame(&f, rng, o, e), f.r(), what)
    }
}

pub fn big_item(rng: &mut Rng, sasl: bool, n: usize) -> Item {
    if sasl {
        let comp = if rng.bool() { &SASL_CHALLENGE } else { &SASL_RESPONSE };
        let r = R::desc(comp.code, R::List(vec![R::Bin(rng.bytes(n))]));
        return good(enc_sasl(&r, rng, FREE, 0), r, "big sasl");
    }
    let channel = rng.u64() as u16;
    let perf = {
        let mut g = Gen::with_budget(rng, 100);
        gen_comp(&TRANSFER, &mut g)
    };
    let f = RFrame { channel, perf: Some(perf), payload: Some(rng.bytes(n.max(1))) };
    good(enc_frame(&f, rng, FREE, 0), f.r(), "big payload")
}

/// chunk lengths covering `total` bytes
pub fn segments(rng: &mut Rng, total: usize, mode: usize) -> (Vec<usize>, &'static str) {
    let mut v = Vec::new();
    let mut left = total;
    let name = match mode {
        0 => "whole",
        1 => "bytes",
        2 => "small",
        3 => "mixed",
        4 => "fixed",
        _ => "large",
    };
    let fixed = rng.range(1, 64);
    while left > 0 {
        let n = match mode {
            0 => left,
            1 => 1,
            2 => rng.range(1, 9),
            3 => match rng.below(4) {
                0 => 1,
                1 => rng.range(1, 12),
                2 => rng.range(1, 300),
                _ => rng.range(1, 5000),
            },
            4 => fixed,
            _ => rng.range(1, 70_000),
        }
        .min(left);
        v.push(n);
        left -= n;
    }
    (v, name)
}

pub fn pick_mode(rng: &mut Rng, total: usize) -> usize {
    if total <= 3000 {
        rng.below(5)
    } else {
        *rng.pick(&[0, 3, 3, 5])
    }
}

// ------------------------------------------------------------ the monitor of a frame stream

/// what was seen of the decoder
#[derive(Default)]
struct Seen {
    frames: u64,
    errors: u64,
    waits_header: u64,
    waits_size: u64,
    waits_body: u64,
    polls: u64,
}

impl Seen {
    fn add(&self, c: &mut Ctx) {
        c.count("frames_delivered", self.frames);
        c.count("frames_refused", self.errors);
        c.count("waits_inside_header", self.waits_header);
        c.count("waits_after_header", self.waits_size);
        c.count("waits_inside_body", self.waits_body);
        c.count("decoder_calls", self.polls);
    }
}

fn describe(items: &[Item], cuts: &[usize]) -> String {
    let all: Vec<u8> = items.iter().flat_map(|x| x.bytes.clone()).collect();
    format!(
        "[{}] {} cut into {:?}",
        items.iter().map(|x| x.what).collect::<Vec<_>>().join(", "),
        hex(&all),
        &cuts[..cuts.len().min(40)]
    )
}

/// Feed the items' bytes in the given pieces and check every result as it appears.
fn monitor<T>(codec: &mut AmqpCodec<T>, src: &mut BytesMut, items: &[Item], cuts: &[usize], seen: &mut Seen) -> Res
where
    T: Decode + Encode + ToR + Debug,
{
    let all: Vec<u8> = items.iter().flat_map(|x| x.bytes.iter().cloned()).collect();
    let mut ends = Vec::new();
    let mut starts = Vec::new();
    let mut at = 0;
    for x in items {
        starts.push(at);
        at += x.bytes.len();
        ends.push(at);
    }
    let mut fed = 0;
    let mut got = 0; // results so far
    let mut complete = 0; // frames wholly fed
    for (ci, &n) in cuts.iter().enumerate() {
        src.reserve(n);
        src.extend_from_slice(&all[fed..fed + n]);
        fed += n;
        while complete < ends.len() && ends[complete] <= fed {
            complete += 1;
        }
        let mut idle = 0;
        loop {
            seen.polls += 1;
            let r = codec.decode(src);
            let ctx = |m: String| format!("after {} of {} bytes (piece {}): {}; {}", fed, all.len(), ci, m, describe(items, cuts));
            match r {
                Ok(None) => {
                    if got < items.len() && items[got].terminal && fed >= starts[got] + 8 {
                        return Err(ctx(format!("frame {} has size below 8 and is not refused", got)));
                    }
                    ensure!(
                        got >= complete,
                        "{}",
                        ctx(format!("frame {} ({}) is complete but the codec asks for more", got, items[got].what))
                    );
                    if got < items.len() {
                        let have = fed - starts[got].min(fed);
                        if have < 8 {
                            seen.waits_header += 1
                        } else if have == 8 {
                            seen.waits_size += 1
                        } else {
                            seen.waits_body += 1
                        }
                    }
                    idle += 1;
                    if idle == 2 {
                        break;
                    }
                }
                Ok(Some(f)) => {
                    idle = 0;
                    let f = f.to_r().canon();
                    ensure!(got < items.len(), "{}", ctx(format!("an extra frame {}", f.show())));
                    ensure!(
                        ends[got] <= fed,
                        "{}",
                        ctx(format!("frame {} delivered before its last byte: {}", got, f.show()))
                    );
                    match &items[got].want {
                        Some(w) => ensure!(
                            f == *w,
                            "{}",
                            ctx(format!("frame {} is {} instead of {}", got, f.show(), w.show()))
                        ),
                        None => {
                            return Err(ctx(format!("malformed frame {} ({}) delivered as {}", got, items[got].what, f.show())))
                        }
                    }
                    seen.frames += 1;
                    got += 1;
                }
                Err(e) => {
                    idle = 0;
                    ensure!(got < items.len(), "{}", ctx(format!("error {:?} behind the last frame", e)));
                    ensure!(
                        items[got].want.is_none(),
                        "{}",
                        ctx(format!("valid frame {} ({}) refused: {:?}", got, items[got].what, e))
                    );
                    seen.errors += 1;
                    if items[got].terminal {
                        // nothing is promised about what follows, except that calls return
                        let mut left = src.len() + 20;
                        loop {
                            match codec.decode(src) {
                                Ok(None) => break,
                                _ => {}
                            }
                            if left == 0 {
                                break;
                            }
                            left -= 1;
                        }
                        return Ok(());
                    }
                    got += 1;
                }
            }
        }
    }
    ensure!(got == items.len(), "only {} of {} frames seen; {}", got, items.len(), describe(items, cuts));
    ensure!(src.is_empty(), "{} bytes left over; {}", src.len(), describe(items, cuts));
    Ok(())
}

fn run_stream(c: &mut Ctx, items: &[Item], cuts: &[usize], sasl: bool) -> Res {
    let mut seen = Seen::default();
    let cap = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.range(1, 200),
        2 => 4096,
        _ => 65_536,
    };
    let mut src = BytesMut::with_capacity(cap);
    let r = if sasl {
        monitor(&mut AmqpCodec::<SaslFrame>::new(), &mut src, items, cuts, &mut seen)
    } else {
        monitor(&mut AmqpCodec::<AmqpFrame>::default(), &mut src, items, cuts, &mut seen)
    };
    seen.add(c);
    r
}

fn key(items: &[Item], cuts: &[usize]) -> u64 {
    let mut h = 7u64;
    for x in items {
        h = mix(h ^ hash_bytes(&x.bytes));
    }
    for x in cuts {
        h = mix(h ^ *x as u64);
    }
    h
}

fn observe(c: &mut Ctx, items: &[Item], cuts: &[usize], mode: &str) {
    c.obs(key(items, cuts), cuts.len() > 1 || items.len() > 1, || describe(items, cuts));
    c.count(&format!("segmentation_{}", mode), 1);
    for x in items {
        c.count(&format!("item_{}", x.what), 1);
    }
    c.max("stream_bytes", items.iter().map(|x| x.bytes.len() as u64).sum());
    c.max("pieces", cuts.len() as u64);
    c.max("frame_bytes", items.iter().map(|x| x.bytes.len() as u64).max().unwrap_or(0));
}

/// a long stream made of a few dozen small frames in random order, with malformed ones in between if asked for
fn long_items(rng: &mut Rng, sasl: bool, n: usize, bad: bool) -> Vec<Item> {
    let mut pool = Vec::new();
    while pool.len() < 24 {
        let x = gen_item(rng, sasl, 10);
        if x.bytes.len() < 120 {
            pool.push(x);
        }
    }
    while bad && pool.len() < 32 {
        let kind = rng.below(BAD.len());
        if let Some(x) = bad_item(rng, sasl, kind) {
            if !x.terminal && x.bytes.len() < 120 {
                pool.push(x);
            }
        }
    }
    (0..n).map(|_| rng.pick(&pool).clone()).collect()
}

// ------------------------------------------------------------ C11

fn c11(c: &mut Ctx, s: &str, i: u64) -> Res {
    let sasl = i % 3 == 2;
    match s {
        "cuts" => {
            // every two-piece and every aligned three-piece segmentation of a short stream
            let n = c.rng.range(1, 3);
            let items: Vec<Item> = (0..n).map(|_| gen_item(&mut c.rng, sasl, 12)).collect();
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            if total > 700 {
                return Ok(());
            }
            for a in 1..total {
                let cuts = [a, total - a];
                observe(c, &items, &cuts, "two");
                run_stream(c, &items, &cuts, sasl)?;
            }
            let step = (total / 12).max(1);
            let mut a = 1;
            while a < total - 1 {
                let mut b = a + 1;
                while b < total {
                    let cuts = [a, b - a, total - b];
                    observe(c, &items, &cuts, "three");
                    run_stream(c, &items, &cuts, sasl)?;
                    b += c.rng.range(1, step);
                }
                a += c.rng.range(1, step);
            }
            let ones = vec![1; total];
            observe(c, &items, &ones, "bytes");
            run_stream(c, &items, &ones, sasl)
        }
        "random" => {
            let n = c.rng.range(1, 12);
            let budget = *c.rng.pick(&[10usize, 40, 200, 1500]);
            let items: Vec<Item> = (0..n).map(|_| gen_item(&mut c.rng, sasl, budget)).collect();
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            let mode = pick_mode(&mut c.rng, total);
            let (cuts, name) = segments(&mut c.rng, total, mode);
            observe(c, &items, &cuts, name);
            run_stream(c, &items, &cuts, sasl)
        }
        "big" => {
            let top = c.tier.n(300_000, 3_000_000) as usize;
            let n = c.rng.range(1, 4);
            let mut items = Vec::new();
            for _ in 0..n {
                if c.rng.chance(1, 3) {
                    items.push(gen_item(&mut c.rng, sasl, 100));
                } else {
                    let len = *c.rng.pick(&[4080usize, 4090, 4096, 4100, 32_740, 32_768, 32_780, 65_530, 65_540, 70_000, 0]);
                    let len = if len == 0 { c.rng.range(1, top) } else { len + c.rng.below(12) };
                    items.push(big_item(&mut c.rng, sasl, len));
                }
            }
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            let mode = pick_mode(&mut c.rng, total);
            let (cuts, name) = segments(&mut c.rng, total, mode);
            observe(c, &items, &cuts, name);
            run_stream(c, &items, &cuts, sasl)
        }
        // frames whose sizes need the third and the fourth byte of the size field
        "giant" => {
            let len = [1 << 20, (1 << 24) - 40, 1 << 21, 1 << 24, (1 << 20) - 60, 1 << 22, 1 << 23, 1 << 25][i as usize / 2 % 8];
            let len = len + c.rng.below(120);
            let mut items = vec![big_item(&mut c.rng, sasl, len)];
            items.push(gen_item(&mut c.rng, sasl, 40));
            let n = c.rng.range(1, 200_000);
            items.push(big_item(&mut c.rng, sasl, n));
            if c.rng.bool() {
                items.insert(0, gen_item(&mut c.rng, sasl, 20));
            }
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            let (cuts, name) = segments(&mut c.rng, total, if i % 2 == 0 { 5 } else { 0 });
            observe(c, &items, &cuts, name);
            run_stream(c, &items, &cuts, sasl)
        }
        "empties" => {
            // heartbeats: 8-byte frames, many in a row, with and without extended headers
            let n = c.rng.range(1, 60);
            let mut items = Vec::new();
            for _ in 0..n {
                let f = RFrame { channel: c.rng.u64() as u16, perf: None, payload: None };
                let e = if c.rng.bool() { 0 } else { ext_words(&mut c.rng) };
                items.push(good(enc_frame(&f, &mut c.rng, FREE, e), f.r(), "empty"));
            }
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            let mode = pick_mode(&mut c.rng, total);
            let (cuts, name) = segments(&mut c.rng, total, mode);
            observe(c, &items, &cuts, name);
            run_stream(c, &items, &cuts, false)
        }
        // more frames than 16 bits can count through one codec and one buffer
        "long" => {
            let items = long_items(&mut c.rng, sasl, 66_000 + (i as usize % 3) * 2_500, i >= 3);
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            let mode = *c.rng.pick(&[3, 3, 5]);
            let (cuts, name) = segments(&mut c.rng, total, mode);
            observe(c, &items, &cuts, name);
            run_stream(c, &items, &cuts, sasl)
        }
        "framed" => {
            let n = c.rng.range(1, 10);
            let items: Vec<Item> = (0..n).map(|_| gen_item(&mut c.rng, sasl, 150)).collect();
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            let mode = if total > 20_000 { 3 } else { 2 + c.rng.below(2) };
            let (cuts, name) = segments(&mut c.rng, total, mode);
            observe(c, &items, &cuts, name);
            if sasl {
                framed::<SaslFrame>(c, &items, &cuts)
            } else {
                framed::<AmqpFrame>(c, &items, &cuts)
            }
        }
        _ => unreachable!(),
    }
}

/// a socket that delivers scripted pieces, with "would block" in between
pub struct Pipe {
    pub pieces: VecDeque<Option<Vec<u8>>>,
}
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        match self.pieces.pop_front() {
            None => Ok(0),
            Some(None) => Err(io::ErrorKind::WouldBlock.into()),
            Some(Some(mut v)) => {
                let n = v.len().min(b.len());
                b[..n].copy_from_slice(&v[..n]);
                if n < v.len() {
                    self.pieces.push_front(Some(v.split_off(n)));
                }
                Ok(n)
            }
        }
    }
}
impl AsyncRead for Pipe {}

fn framed<T>(c: &mut Ctx, items: &[Item], cuts: &[usize]) -> Res
where
    T: Decode + Encode + ToR + Debug,
{
    let all: Vec<u8> = items.iter().flat_map(|x| x.bytes.iter().cloned()).collect();
    let mut pieces = VecDeque::new();
    let mut at = 0;
    for n in cuts {
        while c.rng.chance(1, 3) {
            pieces.push_back(None);
        }
        pieces.push_back(Some(all[at..at + n].to_vec()));
        at += n;
    }
    let mut blocked = pieces.iter().filter(|x| x.is_none()).count();
    let mut fr = FramedRead::new(Pipe { pieces }, AmqpCodec::<T>::new());
    let mut got = 0;
    loop {
        match fr.poll() {
            Ok(Async::NotReady) => {
                ensure!(blocked > 0, "the reader blocks without the transport blocking; {}", describe(items, cuts));
                blocked -= 1;
                c.count("transport_blocked", 1);
            }
            Ok(Async::Ready(None)) => break,
            Ok(Async::Ready(Some(f))) => {
                let f = f.to_r().canon();
                ensure!(got < items.len(), "an extra frame {}; {}", f.show(), describe(items, cuts));
                let w = items[got].want.as_ref().unwrap();
                ensure!(f == *w, "frame {} is {} instead of {}; {}", got, f.show(), w.show(), describe(items, cuts));
                got += 1;
                c.count("frames_delivered", 1);
            }
            Err(e) => return Err(format!("frame {}: {:?}; {}", got, e, describe(items, cuts))),
        }
    }
    ensure!(got == items.len(), "only {} of {} frames; {}", got, items.len(), describe(items, cuts));
    Ok(())
}

pub const C11: Prop = Prop {
    id: "C11",
    rule: "one evaluation = one stream of valid frames fed to the codec in one segmentation, every codec result \
           checked after every piece; non-trivial = more than one piece or frame; distinct = (bytes, segmentation)",
    streams: |t| {
        vec![
            st("cuts", t.k(150, 4_000)),
            st("random", t.k(15_000, 600_000)),
            st("empties", t.k(1_500, 40_000)),
            st("big", t.k(240, 3_000)),
            st("giant", t.n(8, 64)),
            st("long", t.n(6, 48)),
            st("framed", t.k(4_000, 150_000)),
        ]
    },
    run: c11,
};

// ------------------------------------------------------------ C12

pub const BAD: &[&str] = &[
    "size below 8", "data offset below 2", "data offset past the end", "wrong frame type", "truncated body",
    "trailing bytes", "wrong descriptor", "body of another type", "mandatory field missing", "undescribed body",
    "nested size too large", "invalid text", "empty sasl body", "body only an extended header short",
];

pub fn bad_item(rng: &mut Rng, sasl: bool, kind: usize) -> Option<Item> {
    let what = BAD[kind];
    let ty = sasl as u8;
    let ch = if sasl { 0 } else { rng.u64() as u16 };
    let comp: &'static Comp = if sasl { *rng.pick(SASL_BODIES) } else { *rng.pick(PERFORMATIVES) };
    let r = {
        let mut g = Gen::with_budget(rng, 60);
        gen_comp(comp, &mut g)
    };
    let o = opt(rng);
    let body = comp_rand(comp, &r, rng, o);
    let mut bytes = wrap_frame(ty, ch, &[], &body);
    let mut terminal = false;
    match kind {
        0 => {
            let n = rng.below(8) as u8;
            bytes[..4].copy_from_slice(&[0, 0, 0, n]);
            terminal = true;
        }
        1 => bytes[4] = rng.below(2) as u8,
        2 => {
            let words = bytes.len() / 4;
            if words >= 254 {
                return None;
            }
            bytes[4] = rng.range(words + 1, 255) as u8;
        }
        3 => {
            bytes[5] = match rng.below(4) {
                0 => 1 - ty,
                1 => 2,
                2 => 0xff,
                _ => {
                    let x = rng.u64() as u8;
                    if x == ty {
                        return None;
                    }
                    x
                }
            }
        }
        4 => {
            let n = rng.range(if sasl { 0 } else { 1 }, body.len() - 1);
            bytes = wrap_frame(ty, ch, &[], &body[..n]);
        }
        5 => {
            if comp.code == 0x14 {
                return None;
            }
            let mut b = body.clone();
            match rng.below(4) {
                0 => b.push(0),
                1 => b.push(0x40),
                2 => b.extend_from_slice(&body),
                _ => {
                    let k = rng.range(1, 9);
                    b.extend(rng.bytes(k))
                }
            }
            bytes = wrap_frame(ty, ch, &[], &b);
        }
        6 => {
            // a descriptor that names nothing that may start this kind of frame
            let d = match rng.below(6) {
                0 => R::U64(if sasl { 0x10 + rng.below(9) as u64 } else { 0x40 + rng.below(5) as u64 }),
                1 => R::U64(*rng.pick(&[0u64, 0x0f, 0x19, 0x1d, 0x23, 0x24, 0x28, 0x29, 0x45, 0x70, 0x73, 0x75])),
                2 => R::U64(u64::from(comp.code as u32) | 1 << 32),
                3 => R::sym("amqp:nothing:list"),
                4 => R::sym(&comp.sym[..comp.sym.len() - 1]),
                _ => R::sym(&comp.sym.to_uppercase()),
            };
            let mut e = Enc::new(Form::Rand(rng));
            e.value(&R::Desc(Box::new(d), Box::new(R::List(vec![]))));
            let mut b = e.out;
            // the list of the original performative
            b.pop();
            let mut e = Enc::new(Form::Max);
            enc_comp_list(&mut e, comp, &r, FREE);
            b = {
                let mut h = Vec::new();
                h.extend_from_slice(&b[..desc_len(&b)]);
                h.extend(e.out);
                h
            };
            bytes = wrap_frame(ty, ch, &[], &b);
        }
        7 => {
            let v = match rng.below(6) {
                0 => R::Null,
                1 => R::Map(vec![]),
                2 => R::str("x"),
                3 => R::U32(5),
                4 => R::Bin(vec![1, 2]),
                _ => R::Array(vec![R::sym("a"), R::sym("b")]),
            };
            let mut e = Enc::new(Form::Rand(rng));
            enc_descriptor(&mut e, comp.code, comp.sym, FREE);
            e.value(&v);
            bytes = wrap_frame(ty, ch, &[], &e.out);
        }
        8 => {
            if !matches!(comp.fields.first(), Some(f) if matches!(f.2, D::Req)) {
                return None;
            }
            let mut e = Enc::new(Form::Rand(rng));
            enc_descriptor(&mut e, comp.code, comp.sym, FREE);
            let mut b = e.out;
            match rng.below(4) {
                0 => b.push(0x45),
                1 => b.extend_from_slice(&[0xc0, 1, 0]),
                2 => b.extend_from_slice(&[0xd0, 0, 0, 0, 4, 0, 0, 0, 0]),
                _ => b.extend_from_slice(&[0xc0, 2, 1, 0x40]),
            }
            bytes = wrap_frame(ty, ch, &[], &b);
        }
        9 => {
            let mut b = match rng.below(3) {
                0 => body[1..].to_vec(),
                1 => vec![*rng.pick(&[0x40u8, 0x45, 0x53, 0xc0, 0xd0, 0xff])],
                _ => {
                    let k = rng.range(1, 30);
                    rng.bytes(k)
                }
            };
            if b[0] == 0 {
                b[0] = 0x41;
            }
            bytes = wrap_frame(ty, ch, &[], &b);
        }
        10 => {
            let mut e = Enc::new(Form::Rand(rng));
            enc_comp(&mut e, comp, &r, FREE);
            let m = e.marks.iter().find(|m| m.kind == CKind::Composite).cloned()?;
            let mut b = e.out;
            let room = b.len() - m.size_pos - m.width;
            let n = room + rng.range(1, 40);
            if m.width == 1 {
                if n > 255 {
                    return None;
                }
                b[m.size_pos] = n as u8;
            } else {
                let n = if rng.chance(1, 4) { *rng.pick(&[0xffff_ffffusize, 0x8000_0000, 0x7fff_ffff]) } else { n };
                b[m.size_pos..m.size_pos + 4].copy_from_slice(&(n as u32).to_be_bytes());
            }
            bytes = wrap_frame(ty, ch, &[], &b);
        }
        11 => {
            // a mandatory text field that is not UTF-8
            if sasl || comp.code != 0x10 {
                return None;
            }
            let mut e = Enc::new(Form::Rand(rng));
            enc_descriptor(&mut e, comp.code, comp.sym, FREE);
            let mut b = e.out;
            let t: &[u8] = *rng.pick(&[&[0xffu8, 0x41][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xe2, 0x82]]);
            b.extend_from_slice(&[0xc0, t.len() as u8 + 3, 1, 0xa1, t.len() as u8]);
            b.extend_from_slice(t);
            bytes = wrap_frame(ty, ch, &[], &b);
        }
        12 => {
            if !sasl {
                return None;
            }
            let k = ext_words(rng);
            let e = rng.bytes(k * 4);
            bytes = wrap_frame(1, 0, &e, &[]);
        }
        _ => {
            // the extended header swallows part of the body
            if body.len() < 5 {
                return None;
            }
            let k = rng.range(1, (body.len() - 1) / 4);
            if k > 200 || body[k * 4] == 0 {
                return None;
            }
            bytes[4] += k as u8;
        }
    }
    Some(Item { bytes, want: None, what, terminal })
}

/// bytes taken by the described constructor and descriptor at the start of `b`
fn desc_len(b: &[u8]) -> usize {
    let mut d = Dec::new(&b[1..]);
    d.value().unwrap();
    1 + d.pos
}

fn c12(c: &mut Ctx, s: &str, i: u64) -> Res {
    let sasl = i % 2 == 1;
    match s {
        "kinds" | "mix" => {
            let n = c.rng.range(1, 7);
            let mut items = Vec::new();
            let mut bad = 0;
            let first = (i / 2) as usize % BAD.len();
            let place = c.rng.below(n);
            for k in 0..n {
                let want_bad = if s == "kinds" { k == place } else { c.rng.chance(2, 5) };
                if want_bad {
                    let kind = if s == "kinds" { first } else { c.rng.below(BAD.len()) };
                    if let Some(x) = bad_item(&mut c.rng, sasl, kind) {
                        bad += 1;
                        let t = x.terminal;
                        items.push(x);
                        if t {
                            break;
                        }
                        continue;
                    }
                }
                items.push(gen_item(&mut c.rng, sasl, 60));
            }
            if bad == 0 {
                return Ok(());
            }
            // bytes behind a terminal frame are never looked at
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            for _ in 0..3 {
                let mode = pick_mode(&mut c.rng, total);
                let (cuts, name) = segments(&mut c.rng, total, mode);
                observe(c, &items, &cuts, name);
                run_stream(c, &items, &cuts, sasl)?;
            }
            Ok(())
        }
        "long" => {
            let items = long_items(&mut c.rng, sasl, 66_500, true);
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            let mode = *c.rng.pick(&[3, 3, 5]);
            let (cuts, name) = segments(&mut c.rng, total, mode);
            observe(c, &items, &cuts, name);
            run_stream(c, &items, &cuts, sasl)
        }
        "sizes" => {
            // every size value 0..8 behind 0..3 valid frames, in every two-piece segmentation
            let size = (i / 2 % 8) as u8;
            let k = (i / 16 % 4) as usize;
            let mut items: Vec<Item> = (0..k).map(|_| gen_item(&mut c.rng, sasl, 8)).collect();
            let mut b = vec![0, 0, 0, size, 2, sasl as u8, 0, 0];
            let n = c.rng.below(20);
            b.extend(c.rng.bytes(n));
            items.push(Item { bytes: b, want: None, what: BAD[0], terminal: true });
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            for a in 1..total.min(600) {
                let cuts = [a, total - a];
                observe(c, &items, &cuts, "two");
                run_stream(c, &items, &cuts, sasl)?;
            }
            Ok(())
        }
        "offsets" => {
            // every data offset on a fixed small frame
            let doff = (i / 2 % 256) as u8;
            let pre = gen_item(&mut c.rng, sasl, 20);
            let post = gen_item(&mut c.rng, sasl, 20);
            let (code, want) = if sasl { (0x44u8, None) } else { (0x17, Some(())) };
            // 53 <code> c0 <size> <count> ...: end / sasl-outcome(code 0) with n bytes of filler in front
            let body: Vec<u8> = if sasl { vec![0, 0x53, code, 0xc0, 3, 1, 0x50, 0] } else { vec![0, 0x53, code, 0x45] };
            let fill = c.rng.below(40) * 4;
            let words = 2 + fill / 4;
            // filler that cannot start a performative
            let mut frame = wrap_frame(sasl as u8, 0, &vec![0xffu8; fill], &body);
            let _ = want;
            frame[4] = doff;
            let total_words = frame.len() / 4;
            let d = doff as usize;
            let it = if d == words {
                let r = if sasl {
                    R::desc(0x44, R::List(vec![R::U8(0), R::Null]))
                } else {
                    RFrame { channel: 0, perf: Some(R::desc(0x17, R::List(vec![R::Null]))), payload: None }.r()
                };
                good(frame, r, "offset right")
            } else if !sasl && d == total_words && frame.len() % 4 == 0 {
                good(frame, RFrame { channel: 0, perf: None, payload: None }.r(), "offset at the end")
            } else {
                Item { bytes: frame, want: None, what: "offset wrong", terminal: false }
            };
            let items = [pre, it, post];
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            for mode in 0..3 {
                let (cuts, name) = segments(&mut c.rng, total, mode);
                observe(c, &items, &cuts, name);
                run_stream(c, &items, &cuts, sasl)?;
            }
            Ok(())
        }
        "types" => {
            // every type byte, both codecs
            let t = (i / 2 % 256) as u8;
            let mut it = gen_item(&mut c.rng, sasl, 20);
            it.bytes[5] = t;
            if t != sasl as u8 {
                it.want = None;
                it.what = BAD[3];
            }
            let items = [gen_item(&mut c.rng, sasl, 20), it, gen_item(&mut c.rng, sasl, 20)];
            let total: usize = items.iter().map(|x| x.bytes.len()).sum();
            for mode in 0..3 {
                let (cuts, name) = segments(&mut c.rng, total, mode);
                observe(c, &items, &cuts, name);
                run_stream(c, &items, &cuts, sasl)?;
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "one evaluation = one stream containing at least one malformed frame (or frame header under test) fed in \
           one segmentation; distinct = (bytes, segmentation)",
    streams: |t| {
        vec![
            st("kinds", t.k(6_000, 200_000)),
            st("mix", t.k(4_000, 150_000)),
            st("long", t.n(4, 32)),
            st("sizes", t.k(64, 640)),
            st("offsets", t.k(1_024, 20_480)),
            st("types", t.k(512, 5_120)),
        ]
    },
    run: c12,
};

// ------------------------------------------------------------ C13

/// check `out` against the frames it should consist of
pub fn check_output(out: &[u8], items: &[(R, bool)], sasl: bool) -> Res {
    let mut at = 0;
    for (k, (want, _)) in items.iter().enumerate() {
        let (ty, ch, perf, payload, len) =
            parse_frame(&out[at..]).map_err(|e| format!("frame {}: {} in {}", k, e, hex(&out[at..])))?;
        ensure!(ty == sasl as u8, "frame {}: type {} in {}", k, ty, hex(&out[at..at + len]));
        let got = if sasl {
            ensure!(ch == 0, "frame {}: sasl frame with bytes {:#06x} behind the type", k, ch);
            ensure!(payload.is_empty(), "frame {}: {} bytes behind the sasl body", k, payload.len());
            let w = perf.ok_or_else(|| format!("frame {}: no body", k))?;
            let comp = comp_of_wire(&w).ok_or_else(|| format!("frame {}: descriptor of {}", k, w.show()))?;
            norm_comp(comp, &w).map_err(|e| format!("frame {}: {} in {}", k, e, hex(&out[at..at + len])))?
        } else {
            let (p, pl) = match perf {
                None => (R::Null, R::Null),
                Some(w) => {
                    let comp = comp_of_wire(&w).ok_or_else(|| format!("frame {}: descriptor of {}", k, w.show()))?;
                    let n = norm_comp(comp, &w).map_err(|e| format!("frame {}: {} in {}", k, e, hex(&out[at..at + len])))?;
                    if comp.code != 0x14 {
                        ensure!(payload.is_empty(), "frame {}: {} bytes behind the performative", k, payload.len());
                    }
                    (n, if payload.is_empty() { R::Null } else { R::Bin(payload) })
                }
            };
            R::List(vec![R::U16(ch), p, pl])
        };
        ensure!(
            got.clone().canon() == *want,
            "frame {}: emitted {} instead of {} ({})",
            k,
            got.show(),
            want.show(),
            hex(&out[at..at + len])
        );
        at += len;
    }
    ensure!(at == out.len(), "{} bytes behind the last frame", out.len() - at);
    Ok(())
}

pub fn comp_of_wire(w: &R) -> Option<&'static Comp> {
    match w {
        R::Desc(d, _) => match &**d {
            R::U64(x) => ALL.iter().cloned().find(|c| c.code == *x),
            R::Sym(s) => ALL.iter().cloned().find(|c| c.sym == s),
            _ => None,
        },
        _ => None,
    }
}

fn emit<T>(c: &mut Ctx, values: Vec<(T, R)>, sasl: bool) -> Res
where
    T: Decode + Encode + ToR + Debug + Clone,
{
    let pre = match c.rng.below(3) {
        0 => vec![],
        _ => {
            let k = if c.rng.chance(1, 30) { c.rng.range(1, 140_000) } else { c.rng.range(1, 5000) };
            c.rng.bytes(k)
        }
    };
    let cap = match c.rng.below(5) {
        0 => pre.len(),
        1 => 0,
        2 => pre.len() + c.rng.range(0, 300),
        3 => 4096 + pre.len(),
        _ => 40_000,
    };
    let mut dst = BytesMut::with_capacity(cap);
    dst.reserve(pre.len());
    dst.extend_from_slice(&pre);
    let mut codec = AmqpCodec::<T>::new();
    let mut out = Vec::new();
    let mut items = Vec::new();
    for (v, want) in values {
        let n = v.encoded_size();
        let before = dst.len();
        codec.encode(v, &mut dst).map_err(|e| format!("encoding {} fails: {:?}", want.show(), e))?;
        ensure!(
            dst.len() == before + n,
            "{}: announced {} bytes, {} appended",
            want.show(),
            n,
            dst.len() as isize - before as isize
        );
        items.push((want, true));
        match c.rng.below(5) {
            0 => {
                let k = c.rng.range(0, dst.len());
                out.extend_from_slice(&dst.split_to(k));
                c.count("partial_drains", 1);
            }
            1 => {
                out.extend_from_slice(&dst.take());
                c.count("full_drains", 1);
            }
            _ => {}
        }
    }
    out.extend_from_slice(&dst);
    ensure!(out.len() >= pre.len() && out[..pre.len()] == pre[..], "bytes already in the buffer were changed");
    let out = &out[pre.len()..];
    c.obs(hash_bytes(out), true, || {
        format!("{} frames: {}", items.len(), hex(&out[..out.len().min(100)]))
    });
    c.count("frames_emitted", items.len() as u64);
    c.max("output_bytes", out.len() as u64);
    check_output(out, &items, sasl)?;
    // and the library reads them back
    let mut src = BytesMut::from(out);
    let mut rd = AmqpCodec::<T>::new();
    for (k, (want, _)) in items.iter().enumerate() {
        match rd.decode(&mut src) {
            Ok(Some(f)) => {
                let f = f.to_r().canon();
                ensure!(f == *want, "frame {}: {} read back as {}", k, want.show(), f.show());
            }
            x => return Err(format!("frame {}: {} read back as {:?}", k, want.show(), x)),
        }
    }
    ensure!(src.is_empty(), "{} bytes left after reading back", src.len());
    Ok(())
}

fn no_payload_is_null(r: R) -> R {
    match r {
        R::List(mut v) => {
            if v.len() == 3 && v[2] == R::Bin(vec![]) {
                v[2] = R::Null;
            }
            R::List(v)
        }
        x => x,
    }
}

fn amqp_value(r: &RFrame) -> (AmqpFrame, R) {
    let x = r.r();
    (AmqpFrame::from_r(&x), no_payload_is_null(x).canon())
}

fn c13(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "amqp" => {
            let n = c.rng.range(1, 8);
            let budget = *c.rng.pick(&[20usize, 100, 400, 3000]);
            let mut v = Vec::new();
            for _ in 0..n {
                let mut g = Gen::with_budget(&mut c.rng, budget);
                let f = gen_frame(&mut g);
                let (a, w) = amqp_value(&f);
                ensure!(a.channel_id() == f.channel, "channel {} kept as {}", f.channel, a.channel_id());
                v.push((a, w));
            }
            emit(c, v, false)
        }
        "sasl" => {
            let n = c.rng.range(1, 6);
            let budget = *c.rng.pick(&[20usize, 100, 400, 3000]);
            let mut v = Vec::new();
            for _ in 0..n {
                let mut g = Gen::with_budget(&mut c.rng, budget);
                let r = gen_sasl(&mut g);
                v.push((sasl_value(&r, g.rng.bool()), r.canon()));
            }
            emit(c, v, true)
        }
        "channels" => {
            // every channel number
            let mut v = Vec::new();
            for k in 0..64u64 {
                let f = RFrame {
                    channel: (i * 64 + k) as u16,
                    perf: if k % 2 == 0 { None } else { Some(R::desc(0x17, R::List(vec![R::Null]))) },
                    payload: None,
                };
                v.push(amqp_value(&f));
            }
            emit(c, v, false)
        }
        "sizes" => {
            // one field (or the payload) grown through every length around the size limits
            let sizes = c13_sizes(c.tier);
            let k = (i / sizes.len() as u64) as usize;
            let n = sizes[(i % sizes.len() as u64) as usize];
            let np = PERFORMATIVES.len();
            let mut g = Gen::new(&mut c.rng);
            if k < np {
                let r = match pad_comp(PERFORMATIVES[k], &mut g, n) {
                    Some(r) => r,
                    None => return Ok(()),
                };
                let f = RFrame { channel: g.rng.u64() as u16, perf: Some(r), payload: None };
                let v = vec![amqp_value(&f), amqp_value(&RFrame { channel: 9, perf: None, payload: None })];
                emit(c, v, false)
            } else if k == np {
                g.budget = 30;
                let r = gen_comp(&TRANSFER, &mut g);
                let f = RFrame { channel: 1, perf: Some(r), payload: Some(g.rng.bytes(n)) };
                let v = vec![amqp_value(&f), amqp_value(&RFrame { channel: 9, perf: None, payload: None })];
                emit(c, v, false)
            } else {
                let r = match pad_comp(SASL_BODIES[k - np - 1], &mut g, n) {
                    Some(r) => r,
                    None => return Ok(()),
                };
                let v = vec![(sasl_value(&r, g.rng.bool()), r.clone().canon()), (sasl_value(&r, true), r.canon())];
                emit(c, v, true)
            }
        }
        "giant" => {
            let n = [1 << 20, (1 << 24) - 40, 1 << 24, 3 << 20, (1 << 16) - 30, 1 << 25][i as usize % 6] + c.rng.below(80);
            let small = amqp_value(&RFrame { channel: 9, perf: None, payload: None });
            let mut g = Gen::with_budget(&mut c.rng, 30);
            let r = gen_comp(&TRANSFER, &mut g);
            let f = RFrame { channel: 1, perf: Some(r), payload: Some(g.rng.bytes(n)) };
            emit(c, vec![small.clone(), amqp_value(&f), small], false)
        }
        // more frames than 16 bits can count out of one codec
        "long" => {
            let mut pool = Vec::new();
            while pool.len() < 24 {
                let mut g = Gen::with_budget(&mut c.rng, 10);
                let f = gen_frame(&mut g);
                if f.payload.as_ref().map(|x| x.len()).unwrap_or(0) < 60 {
                    pool.push(amqp_value(&f));
                }
            }
            let v = (0..66_500).map(|_| c.rng.pick(&pool).clone()).collect();
            emit(c, v, false)
        }
        "framed" => framed_write(c),
        _ => unreachable!(),
    }
}

/// through the constructor or the From conversion of the body type
pub fn sasl_value(r: &R, from: bool) -> SaslFrame {
    if !from {
        return SaslFrame::from_r(r);
    }
    match code_of(r) {
        0x40 => p::SaslMechanisms::from_r(r).into(),
        0x41 => p::SaslInit::from_r(r).into(),
        0x42 => p::SaslChallenge::from_r(r).into(),
        0x43 => p::SaslResponse::from_r(r).into(),
        _ => p::SaslOutcome::from_r(r).into(),
    }
}

fn c13_sizes(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (200..270).collect();
    v.extend(&[0, 1, 2, 100, 4070, 4080, 4088, 4095, 4096, 4097, 32_750, 32_760, 32_768, 32_769, 65_535, 65_536, 66_000]);
    if t == Tier::Thorough {
        v.extend(0..200);
        v.extend(270..600);
        v.extend(4000..4140);
        v.extend(32_700..32_800);
        v.extend(65_500..65_560);
        v.extend(&[1 << 18, 1 << 20, 5 << 20]);
    }
    v
}

/// a transport accepting a random number of bytes per write
pub struct Sinky {
    pub out: Vec<u8>,
    pub rng: Rng,
    pub blocked: u64,
}
impl Write for Sinky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.rng.chance(1, 4) {
            self.blocked += 1;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let n = self.rng.range(1, 3000).min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncWrite for Sinky {
    fn shutdown(&mut self) -> Result<Async<()>, io::Error> {
        Ok(Async::Ready(()))
    }
}

fn framed_write(c: &mut Ctx) -> Res {
    let n = c.rng.range(1, 25);
    let mut items = Vec::new();
    let mut queue = VecDeque::new();
    for _ in 0..n {
        let f = {
            let mut g = Gen::with_budget(&mut c.rng, 800);
            gen_frame(&mut g)
        };
        let (a, w) = amqp_value(&f);
        items.push((w, true));
        queue.push_back(a);
    }
    let rng = Rng::new(&[c.rng.u64()]);
    let mut fw = FramedWrite::new(Sinky { out: Vec::new(), rng, blocked: 0 }, AmqpCodec::<AmqpFrame>::new());
    let mut guard = 0u64;
    while let Some(x) = queue.pop_front() {
        guard += 1;
        ensure!(guard < 1_000_000, "the sink does not make progress");
        match fw.start_send(x).map_err(|e| format!("start_send: {:?}", e))? {
            AsyncSink::Ready => {}
            AsyncSink::NotReady(x) => {
                queue.push_front(x);
                let _ = fw.poll_complete().map_err(|e| format!("poll_complete: {:?}", e))?;
            }
        }
        if c.rng.chance(1, 3) {
            let _ = fw.poll_complete().map_err(|e| format!("poll_complete: {:?}", e))?;
        }
    }
    while let Async::NotReady = fw.poll_complete().map_err(|e| format!("poll_complete: {:?}", e))? {
        guard += 1;
        ensure!(guard < 1_000_000, "the sink does not make progress");
    }
    let s = fw.into_inner();
    c.count("transport_blocked", s.blocked);
    c.count("frames_emitted", items.len() as u64);
    c.obs(hash_bytes(&s.out), true, || format!("{} frames through FramedWrite", items.len()));
    check_output(&s.out, &items, false)
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "one evaluation = one sequence of frames encoded through the codec into one buffer history; distinct = \
           distinct output bytes",
    streams: |t| {
        vec![
            st("amqp", t.k(12_000, 500_000)),
            st("long", t.n(3, 24)),
            st("sasl", t.k(5_000, 150_000)),
            st("channels", 1024),
            st("giant", t.n(6, 60)),
            st("sizes", (c13_sizes(t).len() * (PERFORMATIVES.len() + 1 + SASL_BODIES.len())) as u64),
            st("framed", t.k(1_500, 40_000)),
        ]
    },
    run: c13,
};

// ------------------------------------------------------------ C14

pub const IDS: [(ProtocolId, u8); 3] = [(ProtocolId::Amqp, 0), (ProtocolId::AmqpTls, 2), (ProtocolId::AmqpSasl, 3)];

fn proto_expect(h: &[u8]) -> Option<ProtocolId> {
    if &h[..4] != b"AMQP" || h[5..8] != [1, 0, 0] {
        return None;
    }
    IDS.iter().find(|x| x.1 == h[4]).map(|x| x.0)
}

/// feed a header and a tail in pieces
fn proto_case(c: &mut Ctx, h: &[u8; 8], tail: &[u8], cuts: &[usize]) -> Res {
    let mut all = h.to_vec();
    all.extend_from_slice(tail);
    let cap = *c.rng.pick(&[0usize, 8, 40, 5000]);
    let mut src = BytesMut::with_capacity(cap);
    let mut fed = 0;
    let mut codec = ProtocolIdCodec;
    let mut done = false;
    c.obs(mix(hash_bytes(&all) ^ hash_bytes(format!("{:?}", cuts).as_bytes())), true, || {
        format!("{} in pieces {:?}", hex(&all), cuts)
    });
    for &n in cuts {
        src.reserve(n);
        src.extend_from_slice(&all[fed..fed + n]);
        fed += n;
        if done {
            continue;
        }
        for _ in 0..2 {
            let before = src.to_vec();
            match codec.decode(&mut src) {
                Ok(None) => {
                    ensure!(fed < 8, "header {}: nothing although {} bytes are there", hex(h), fed);
                    ensure!(before[..] == src[..], "header {}: bytes consumed without a result", hex(h));
                    c.count("incomplete", 1);
                }
                Ok(Some(id)) => {
                    ensure!(fed >= 8, "header {}: {:?} after {} bytes", hex(h), id, fed);
                    ensure!(proto_expect(h) == Some(id), "header {} taken for {:?}", hex(h), id);
                    ensure!(src[..] == all[8..fed], "header {}: bytes behind it changed to {}", hex(h), hex(&src));
                    c.count("accepted", 1);
                    done = true;
                }
                Err(e) => {
                    ensure!(fed >= 8, "header {}: {:?} after {} bytes", hex(h), e, fed);
                    ensure!(proto_expect(h).is_none(), "header {} refused: {:?}", hex(h), e);
                    c.count(&format!("refused_{:?}", e), 1);
                    done = true;
                }
            }
            if done {
                break;
            }
        }
    }
    ensure!(done, "header {}: no result", hex(h));
    if proto_expect(h).is_some() {
        ensure!(src[..] == *tail, "header {}: the following bytes became {}", hex(h), hex(&src));
    }
    Ok(())
}

fn c14(c: &mut Ctx, s: &str, i: u64) -> Res {
    let (id, b) = IDS[(i % 3) as usize];
    let h = [b'A', b'M', b'Q', b'P', b, 1, 0, 0];
    match s {
        "emit" => {
            let k = if c.rng.chance(1, 20) { c.rng.below(140_000) } else { c.rng.below(5000) };
            let pre = c.rng.bytes(k);
            let cap = *c.rng.pick(&[0usize, 8, 31, 32, 100, 5000]);
            let mut dst = BytesMut::with_capacity(cap);
            dst.reserve(pre.len());
            dst.extend_from_slice(&pre);
            let n = c.rng.range(1, 5);
            let mut want = pre.clone();
            for _ in 0..n {
                let (id, b) = *c.rng.pick(&IDS);
                ProtocolIdCodec.encode(id, &mut dst).map_err(|e| format!("{:?}: {:?}", id, e))?;
                want.extend_from_slice(&[b'A', b'M', b'Q', b'P', b, 1, 0, 0]);
            }
            ProtocolIdCodec.encode(id, &mut dst).map_err(|e| format!("{:?}: {:?}", id, e))?;
            want.extend_from_slice(&h);
            c.obs(hash_bytes(&want), true, || format!("{:?} behind {} bytes", id, pre.len()));
            c.count("headers_emitted", n as u64 + 1);
            ensure!(want == dst.to_vec(), "{:?} behind {} bytes emitted as {}", id, pre.len(), hex(&dst[pre.len()..]));
            Ok(())
        }
        "mutations" => {
            // every value of every header byte, for each protocol
            for pos in 0..8 {
                for v in 0..=255u8 {
                    let mut m = h;
                    m[pos] = v;
                    proto_case(c, &m, b"", &[8])?;
                }
            }
            Ok(())
        }
        "pieces" => {
            let tail = if c.rng.bool() { gen_item(&mut c.rng, b == 3, 30).bytes } else { vec![] };
            let mut m = h;
            if c.rng.chance(1, 2) {
                let k = c.rng.range(1, 3);
                for _ in 0..k {
                    let at = c.rng.below(8);
                    m[at] = *c.rng.pick(&[0u8, 1, 2, 3, 4, b'A', b'P', b'a', 0xff]);
                }
            }
            let total = 8 + tail.len();
            let mode = pick_mode(&mut c.rng, total);
            let (cuts, _) = segments(&mut c.rng, total, mode);
            proto_case(c, &m, &tail, &cuts)
        }
        "splits" => {
            // every segmentation of the 8 header bytes
            for mask in 0..128u32 {
                let mut cuts = Vec::new();
                let mut n = 1;
                for bit in 0..7 {
                    if mask >> bit & 1 == 1 {
                        cuts.push(n);
                        n = 1;
                    } else {
                        n += 1;
                    }
                }
                cuts.push(n);
                proto_case(c, &h, b"", &cuts)?;
                let tail = b"AMQP\x00\x01\x00\x00".to_vec();
                *cuts.last_mut().unwrap() += 8;
                proto_case(c, &h, &tail, &cuts)?;
            }
            Ok(())
        }
        "handover" => {
            // header, then frames on the same buffer, as a connection does it
            let sasl = b == 3;
            let n = c.rng.range(0, 4);
            let items: Vec<Item> = (0..n).map(|_| gen_item(&mut c.rng, sasl, 40)).collect();
            let mut all = h.to_vec();
            for x in &items {
                all.extend_from_slice(&x.bytes);
            }
            let mode = pick_mode(&mut c.rng, all.len());
            let (cuts, _) = segments(&mut c.rng, all.len(), mode);
            c.obs(mix(hash_bytes(&all) ^ hash_bytes(format!("{:?}", cuts).as_bytes())), true, || {
                format!("{} in pieces {:?}", hex(&all[..all.len().min(100)]), &cuts[..cuts.len().min(30)])
            });
            let mut src = BytesMut::new();
            let mut fed = 0;
            let mut seen = None;
            let mut wants = items.iter().map(|x| x.want.clone().unwrap());
            let mut a = AmqpCodec::<AmqpFrame>::new();
            let mut q = AmqpCodec::<SaslFrame>::new();
            for n in cuts {
                src.reserve(n);
                src.extend_from_slice(&all[fed..fed + n]);
                fed += n;
                if seen.is_none() {
                    seen = ProtocolIdCodec.decode(&mut src).map_err(|e| format!("header {}: {:?}", hex(&h), e))?;
                }
                if seen.is_none() {
                    continue;
                }
                loop {
                    let f = if sasl {
                        q.decode(&mut src).map_err(|e| format!("frame behind the header: {:?}", e))?.map(|x| x.to_r())
                    } else {
                        a.decode(&mut src).map_err(|e| format!("frame behind the header: {:?}", e))?.map(|x| x.to_r())
                    };
                    match f {
                        None => break,
                        Some(f) => {
                            let w = wants.next();
                            ensure!(
                                w.as_ref() == Some(&f.clone().canon()),
                                "frame behind the header: {} instead of {:?}",
                                f.show(),
                                w.map(|x| x.show())
                            );
                            c.count("frames_delivered", 1);
                        }
                    }
                }
            }
            ensure!(seen == Some(id), "header {} read as {:?}", hex(&h), seen);
            ensure!(wants.next().is_none() && src.is_empty(), "frames lost behind the protocol header");
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "one evaluation = one protocol header (valid or not) emitted or fed in one segmentation; distinct = \
           (bytes, segmentation)",
    streams: |t| {
        vec![
            st("mutations", 3),
            st("splits", 3),
            st("emit", t.k(3_000, 100_000)),
            st("pieces", t.k(20_000, 1_000_000)),
            st("handover", t.k(5_000, 200_000)),
        ]
    },
    run: c14,
};

// ------------------------------------------------------------ C26

/// one step of one connection's life
#[derive(Clone)]
enum Op {
    Feed(Vec<u8>),
    /// a direct decode through entry point number k
    Dec(usize, Vec<u8>),
    /// encode through the codec
    Send(R),
}

enum Machine {
    Amqp(AmqpCodec<AmqpFrame>, BytesMut, BytesMut),
    Sasl(AmqpCodec<SaslFrame>, BytesMut, BytesMut),
}

fn drain<T: Decode + Encode + ToR + Debug>(c: &mut AmqpCodec<T>, src: &mut BytesMut) -> String {
    let mut s = String::new();
    let mut left = src.len() + 4;
    loop {
        match c.decode(src) {
            Ok(None) => break,
            Ok(Some(f)) => s.push_str(&format!("{:?};", brief(f.to_r().canon()))),
            Err(e) => s.push_str(&format!("{:?};", e)),
        }
        if left == 0 {
            break;
        }
        left -= 1;
    }
    s.push_str(&format!("left {}", src.len()));
    s
}

/// long contents by their hash
fn brief(r: R) -> R {
    match r {
        R::Bin(b) if b.len() > 300 => R::Str(format!("{} bytes {:x}", b.len(), hash_bytes(&b))),
        R::List(v) => R::List(v.into_iter().map(brief).collect()),
        R::Desc(a, b) => R::Desc(a, Box::new(brief(*b))),
        x => x,
    }
}

impl Machine {
    fn new(sasl: bool) -> Machine {
        if sasl {
            Machine::Sasl(AmqpCodec::new(), BytesMut::new(), BytesMut::new())
        } else {
            Machine::Amqp(AmqpCodec::new(), BytesMut::new(), BytesMut::new())
        }
    }

    fn step(&mut self, op: &Op, es: &[entries::Entry]) -> String {
        match op {
            Op::Feed(b) => match self {
                Machine::Amqp(c, src, _) => {
                    src.extend_from_slice(b);
                    drain(c, src)
                }
                Machine::Sasl(c, src, _) => {
                    src.extend_from_slice(b);
                    drain(c, src)
                }
            },
            Op::Dec(k, b) => {
                let e = &es[*k];
                match (e.dec)(b) {
                    Ok((r, n)) => format!("{} {:?} {} {:x}", e.name, r.canon(), n, (e.dig)(b)),
                    Err(x) => format!("{} {}", e.name, x),
                }
            }
            Op::Send(r) => match self {
                Machine::Amqp(c, _, dst) => {
                    let f = AmqpFrame::from_r(r);
                    match c.encode(f, dst) {
                        Ok(()) => out_canon(&dst.take(), false),
                        Err(e) => format!("{:?}", e),
                    }
                }
                Machine::Sasl(c, _, dst) => {
                    let f = SaslFrame::from_r(r);
                    match c.encode(f, dst) {
                        Ok(()) => out_canon(&dst.take(), true),
                        Err(e) => format!("{:?}", e),
                    }
                }
            },
        }
    }
}

/// emitted bytes up to the order of map entries
fn out_canon(b: &[u8], _sasl: bool) -> String {
    match parse_frame(b) {
        Ok((t, ch, p, pl, n)) => format!("{} {} {:?} {} {} {}", t, ch, p.map(|x| x.canon()), hex(&pl), n, b.len()),
        Err(e) => format!("unparsable output: {}", e),
    }
}

/// direct-decode inputs, among them hostile and deeply nested ones
fn dec_op(rng: &mut Rng, es: &[entries::Entry]) -> Op {
    let k = rng.below(es.len());
    let k = if es[k].name.starts_with("Vec<") { es.iter().position(|e| e.name == "Variant").unwrap() } else { k };
    let b = match rng.below(5) {
        0 => {
            // nested up to and beyond any sensible depth, sizes right
            let d = *rng.pick(&[1usize, 60, 100, 120, 125, 126, 127, 128, 129, 130, 140, 300]);
            let style = rng.below(NESTS);
            let x = nest(style, d, false, rng);
            let (name, b) = wrap(rng.below(WRAPS), &x);
            return Op::Dec(es.iter().position(|e| e.name == name).unwrap(), b);
        }
        1 => {
            let r = {
                let mut g = Gen::with_budget(rng, 60);
                let n = g.rng.range(1, 70);
                g.chain(n)
            };
            enc_rand(&r, rng)
        }
        2 => {
            let mut it = gen_item(rng, false, 40).bytes.split_off(8);
            if !it.is_empty() {
                let at = rng.below(it.len());
                it[at] ^= 1 << rng.below(8);
            }
            it
        }
        3 => {
            let m = {
                let mut g = Gen::with_budget(rng, 60);
                gen_msg(&mut g)
            };
            enc_msg(&m, rng, FREE)
        }
        _ => {
            let r = {
                let mut g = Gen::with_budget(rng, 60);
                g.value(3)
            };
            enc_rand(&r, rng)
        }
    };
    Op::Dec(k, b)
}

fn deep_op(rng: &mut Rng, es: &[entries::Entry]) -> Op {
    let d = *rng.pick(&[127usize, 128, 129, 130, 200]);
    let style = rng.below(NESTS);
    let x = nest(style, d, false, rng);
    let (name, b) = wrap(rng.below(WRAPS), &x);
    Op::Dec(es.iter().position(|e| e.name == name).unwrap(), b)
}

/// a malformed frame, or a frame whose field is nested too deep
fn bad_feed(rng: &mut Rng, sasl: bool) -> Op {
    if rng.bool() {
        let k = rng.range(1, BAD.len() - 1);
        if let Some(x) = bad_item(rng, sasl, k) {
            return Op::Feed(x.bytes);
        }
    }
    loop {
        let style = rng.below(NESTS);
        let x = nest(style, 130, false, rng);
        let (name, b) = wrap(rng.below(WRAPS), &x);
        if name == "AmqpFrame" || name == "p::Frame" || name == "p::Open" {
            let body = if name == "AmqpFrame" { b[4..].to_vec() } else { b };
            return Op::Feed(wrap_frame(0, 1, &[], &body));
        }
    }
}

fn script(rng: &mut Rng, es: &[entries::Entry]) -> (bool, Vec<Op>) {
    let sasl = rng.chance(1, 3);
    let n = rng.range(2, 8);
    let mut bytes = Vec::new();
    for _ in 0..n {
        if rng.chance(1, 4) {
            let k = rng.range(1, BAD.len() - 1);
            if let Some(x) = bad_item(rng, sasl, k) {
                bytes.extend(x.bytes);
                continue;
            }
        }
        if rng.chance(1, 20) {
            let n = rng.range(1_000, 90_000);
            bytes.extend(big_item(rng, sasl, n).bytes);
            continue;
        }
        bytes.extend(gen_item(rng, sasl, 60).bytes);
    }
    if rng.chance(1, 6) {
        bytes.extend_from_slice(&[0, 0, 0, 3, 2, 0, 0, 0]);
    }
    let mode = if bytes.len() > 4000 { 3 } else { rng.range(2, 4) };
    let (cuts, _) = segments(rng, bytes.len(), mode);
    let mut ops = Vec::new();
    let mut at = 0;
    for n in cuts {
        ops.push(Op::Feed(bytes[at..at + n].to_vec()));
        at += n;
        if rng.chance(1, 4) {
            ops.push(dec_op(rng, es));
        }
        if rng.chance(1, 4) {
            let mut g = Gen::with_budget(rng, 40);
            ops.push(Op::Send(if sasl { gen_sasl(&mut g) } else { gen_frame(&mut g).r() }));
        }
    }
    (sasl, ops)
}

/// whether a type may be moved to, or shared with, another thread, as a value to look at instead of a compile error
struct Probe<T>(std::marker::PhantomData<T>);
trait Otherwise {
    fn movable(&self) -> bool {
        false
    }
    fn sharable(&self) -> bool {
        false
    }
}
impl<T> Otherwise for &Probe<T> {}
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> Otherwise for &ProbeSync<T> {}
impl<T: Send> Probe<T> {
    fn movable(&self) -> bool {
        true
    }
}
impl<T: Sync> ProbeSync<T> {
    fn sharable(&self) -> bool {
        true
    }
}

fn thread_bounds(c: &mut Ctx) -> Res {
    use amqp_codec::types::*;
    use amqp_codec::*;
    macro_rules! movable {
        ($($t:ty),* $(,)?) => { $(
            let p = Probe::<$t>(std::marker::PhantomData);
            ensure!((&p).movable(), "a {} cannot be moved to another thread", stringify!($t));
            c.count("types_movable", 1);
        )* };
    }
    macro_rules! sharable {
        ($($t:ty),* $(,)?) => { $(
            let p = ProbeSync::<$t>(std::marker::PhantomData);
            ensure!((&p).sharable(), "a {} cannot be shared between threads", stringify!($t));
            c.count("types_sharable", 1);
        )* };
    }
    movable!(
        Variant, Str, Symbol, StaticSymbol, ByteStr, List, Descriptor, VariantMap, VecVariantMap, Multiple<Symbol>, AmqpFrame, SaslFrame, InMessage, OutMessage,
        MessageBody, AmqpCodec<AmqpFrame>, AmqpCodec<SaslFrame>, ProtocolIdCodec, AmqpParseError, AmqpCodecError, ProtocolIdError,
        p::Frame, p::TransferBody, p::Transfer, p::Open, p::Attach, p::Source, p::Properties, p::Header, p::Error, p::DeliveryState, p::SaslFrameBody,
        p::MessageId, p::ErrorCondition, p::Fields, p::Map, p::FilterSet, p::Section,
    );
    sharable!(
        Variant, Str, Symbol, StaticSymbol, ByteStr, List, Descriptor, VariantMap, VecVariantMap, Multiple<Symbol>, SaslFrame, AmqpParseError, AmqpCodecError,
        ProtocolIdError, p::Open, p::Attach, p::Source, p::Properties, p::Header, p::Error, p::DeliveryState, p::SaslFrameBody, p::MessageId, p::ErrorCondition,
        p::Fields, p::Map, p::FilterSet,
    );
    Ok(())
}

/// values made on one thread, their clones used and dropped on others at the same time
fn moved(c: &mut Ctx) -> Res {
    use amqp_codec::types::Variant;
    use amqp_codec::{InMessage, OutMessage};
    use std::sync::{Arc, Barrier};
    let mut rng = Rng::new(&[c.rng.u64()]);
    let n = rng.range(2, 4);
    set_flavor(rng.u64());
    let r = {
        let mut g = Gen::with_budget(&mut rng, 60);
        g.value(3)
    };
    let f = gen_frame(&mut Gen::with_budget(&mut rng, 60)).r();
    let m = gen_msg(&mut Gen::with_budget(&mut rng, 60));
    let mb = enc_msg(&m, &mut rng, FREE);
    let mb = if mb.is_empty() { vec![0, 0x53, 0x75, 0xa0, 1, 7] } else { mb };
    let v = if rng.bool() {
        Variant::from_r(&r)
    } else {
        Variant::decode(&enc_rand(&r, &mut rng)).map_err(|e| format!("{} is refused: {:?}", r.show(), e))?.1
    };
    let f = AmqpFrame::from_r(&f);
    let im = InMessage::decode(&mb).map_err(|e| format!("message {} is refused: {:?}", hex(&mb), e))?.1;
    let om = OutMessage::decode(&mb).map_err(|e| format!("message {} is refused: {:?}", hex(&mb), e))?.1;
    // up to the order of map entries
    fn seen(v: &Variant, f: &AmqpFrame, im: &InMessage, om: &OutMessage) -> (R, String, R, R) {
        (v.to_r().canon(), out_canon(&lib_enc(f), false), sections_r(&lib_enc(im)).canon(), sections_r(&lib_enc(om)).canon())
    }
    let want = seen(&v, &f, &im, &om);
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let x = Forced((v.clone(), f.clone(), im.clone(), om.clone(), want.clone()));
            let bar = bar.clone();
            let turns = rng.range(3, 30);
            std::thread::spawn(move || -> Result<usize, String> {
                let (v, f, im, om, want) = x.out();
                bar.wait();
                for t in 0..turns {
                    let (v2, f2, im2, om2) = (v.clone(), f.clone(), im.clone(), om.clone());
                    let got = seen(&v2, &f2, &im2, &om2);
                    ensure!(got == want, "on thread {} in turn {}: {:?}, where it was made: {:?}", k, t, got, want);
                    ensure!(v2 == v && f2 == f && im2 == im && om2 == om, "a clone differs on thread {}", k);
                    let om3 = om2.set_properties(|p| p.subject = None);
                    let _ = om3.encoded_size();
                }
                Ok(turns)
            })
        })
        .collect();
    for h in hs {
        let k = h.join().map_err(|_| "a thread panicked".to_string())??;
        c.count("turns_on_other_threads", k as u64);
    }
    let now = seen(&v, &f, &im, &om);
    ensure!(now == want, "after use on other threads: {:?}, before {:?}", now, want);
    c.obs(hash_bytes(want.1.as_bytes()) ^ hash_bytes(r.show().as_bytes()), true, || format!("{} on {} threads", r.show(), n));
    Ok(())
}

fn c26(c: &mut Ctx, s: &str, i: u64) -> Res {
    if s == "moved" {
        let _ = i;
        thread_bounds(c)?;
        return moved(c);
    }
    let es = entries::all();
    let n = c.rng.range(2, 6);
    let scripts: Vec<(bool, Vec<Op>)> = (0..n).map(|_| script(&mut c.rng, &es)).collect();
    // alone: each on a thread of its own that has done nothing else
    let mut solo = Vec::new();
    for (sasl, ops) in &scripts {
        let (sasl, ops, flavor) = (*sasl, ops.clone(), c.rng.u64());
        let h = std::thread::spawn(move || {
            set_flavor(flavor);
            let es = entries::all();
            let mut m = Machine::new(sasl);
            ops.iter().map(|o| m.step(o, &es)).collect::<Vec<String>>()
        });
        solo.push(h.join().map_err(|_| "a stream alone on its thread panicked".to_string())?);
    }
    let steps: usize = scripts.iter().map(|x| x.1.len()).sum();
    c.count("steps_alone", steps as u64);
    match s {
        "interleaved" => {
            for _ in 0..3 {
                let mut ms: Vec<Machine> = scripts.iter().map(|x| Machine::new(x.0)).collect();
                let mut pos = vec![0; n];
                let mut order = 1u64;
                let burst = c.rng.range(1, 4);
                while pos.iter().zip(&scripts).any(|(p, x)| *p < x.1.len()) {
                    let k = c.rng.below(n);
                    for _ in 0..c.rng.range(1, burst) {
                        if pos[k] >= scripts[k].1.len() {
                            break;
                        }
                        order = mix(order ^ k as u64);
                        let got = ms[k].step(&scripts[k].1[pos[k]], &es);
                        ensure!(
                            got == solo[k][pos[k]],
                            "stream {} step {}: interleaved with {} other streams gives {:.600}, alone {:.600}",
                            k,
                            pos[k],
                            n - 1,
                            got,
                            solo[k][pos[k]]
                        );
                        pos[k] += 1;
                        c.count("steps_interleaved", 1);
                    }
                }
                c.obs(order, true, || format!("{} streams, {} steps, order hash {:x}", n, steps, order));
            }
            Ok(())
        }
        "repeat" => {
            // the same operations again, in new instances, after everything above has happened
            for (k, (sasl, ops)) in scripts.iter().enumerate() {
                let mut m = Machine::new(*sasl);
                for (j, o) in ops.iter().enumerate() {
                    let got = m.step(o, &es);
                    ensure!(got == solo[k][j], "repeated: stream {} step {} gives {:.600}, before {:.600}", k, j, got, solo[k][j]);
                    if let Op::Dec(..) = o {
                        let again = m.step(o, &es);
                        ensure!(got == again, "repeated decode gives {:.600}, before {:.600}", again, got);
                    }
                    c.count("steps_repeated", 1);
                }
                c.obs(hash_bytes(solo[k].concat().as_bytes()), true, || format!("{} steps repeated", ops.len()));
            }
            Ok(())
        }
        "threads" => {
            use std::sync::{Arc, Barrier};
            let bar = Arc::new(Barrier::new(n));
            let mut hs = Vec::new();
            for (k, (sasl, ops)) in scripts.iter().enumerate() {
                let (sasl, ops, want, bar) = (*sasl, ops.clone(), solo[k].clone(), bar.clone());
                let mut rng = Rng::new(&[c.rng.u64()]);
                let flavor = c.rng.u64();
                hs.push(std::thread::spawn(move || -> Result<u64, String> {
                    set_flavor(flavor);
                    let es = entries::all();
                    bar.wait();
                    let mut m = Machine::new(sasl);
                    let mut done = 0;
                    for (j, o) in ops.iter().enumerate() {
                        if rng.chance(1, 3) {
                            std::thread::yield_now();
                        }
                        let got = m.step(o, &es);
                        ensure_s(got == want[j], || {
                            format!("stream {} step {}: on its own thread {:.600}, alone {:.600}", k, j, got, want[j])
                        })?;
                        done += 1;
                    }
                    Ok(done)
                }));
            }
            let mut err = None;
            for h in hs {
                match h.join() {
                    Ok(Ok(k)) => c.count("steps_concurrent", k),
                    Ok(Err(e)) => err = Some(e),
                    Err(_) => err = Some("a thread panicked".to_string()),
                }
            }
            c.obs(hash_bytes(solo.concat().concat().as_bytes()), true, || format!("{} threads, {} steps", n, steps));
            match err {
                Some(e) => Err(e),
                None => Ok(()),
            }
        }
        "aftermath" => {
            // many refused and accepted inputs through one codec and the decoders, then other streams on the same thread
            let count = c.rng.range(130, 500);
            let kind = c.rng.below(4);
            let mut bad: Vec<Op> = Vec::new();
            for _ in 0..count {
                bad.push(match kind {
                    0 => loop {
                        if let Op::Feed(b) = bad_feed(&mut c.rng, false) {
                            break Op::Feed(b);
                        }
                    },
                    1 => deep_op(&mut c.rng, &es),
                    2 => dec_op(&mut c.rng, &es),
                    _ => {
                        if c.rng.bool() {
                            deep_op(&mut c.rng, &es)
                        } else {
                            bad_feed(&mut c.rng, false)
                        }
                    }
                });
            }
            let flavor = c.rng.u64();
            let (scripts2, solo2) = (scripts.clone(), solo.clone());
            let h = std::thread::spawn(move || -> Res {
                set_flavor(flavor);
                let es = entries::all();
                let mut m = Machine::new(false);
                for o in &bad {
                    m.step(o, &es);
                }
                for (k, (sasl, ops)) in scripts2.iter().enumerate() {
                    let mut m = Machine::new(*sasl);
                    for (j, o) in ops.iter().enumerate() {
                        let got = m.step(o, &es);
                        ensure!(
                            got == solo2[k][j],
                            "stream {} step {}: after {} other operations on the thread gives {:.600}, alone {:.600}",
                            k,
                            j,
                            bad.len(),
                            got,
                            solo2[k][j]
                        );
                    }
                }
                Ok(())
            });
            h.join().map_err(|_| "a thread panicked".to_string())??;
            c.count("steps_after_history", steps as u64);
            c.count("history_operations", count as u64);
            c.obs(hash_bytes(solo.concat().concat().as_bytes()) ^ count as u64, true, || {
                format!("{} steps after {} operations of kind {}", steps, count, kind)
            });
            Ok(())
        }
        "handoff" => {
            // a codec moved from thread to thread in mid-stream
            let (sasl, ops) = scripts[0].clone();
            let want = solo[0].clone();
            let mut m = Machine::new(sasl);
            let mut at = 0;
            while at < ops.len() {
                let k = c.rng.range(1, 4).min(ops.len() - at);
                let part = ops[at..at + k].to_vec();
                let x = Forced(m);
                let h = std::thread::spawn(move || {
                    let mut m = x.out();
                    let es = entries::all();
                    let v: Vec<String> = part.iter().map(|o| m.step(o, &es)).collect();
                    Forced((m, v))
                });
                let (m2, got) = h.join().map_err(|_| "a thread panicked".to_string())?.out();
                m = m2;
                for (j, g) in got.iter().enumerate() {
                    ensure!(*g == want[at + j], "step {} after moving the codec: {:.600}, alone {:.600}", at + j, g, want[at + j]);
                }
                at += k;
                c.count("handoffs", 1);
            }
            c.obs(hash_bytes(want.concat().as_bytes()), true, || format!("{} steps over several threads", ops.len()));
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn ensure_s<F: FnOnce() -> String>(ok: bool, f: F) -> Res {
    if ok {
        Ok(())
    } else {
        Err(f())
    }
}

pub const C26: Prop = Prop {
    id: "C26",
    rule: "one evaluation = one interleaving, repetition or threaded run of 2-6 scripted streams compared step by step \
           with each stream alone; distinct = distinct interleavings / transcripts",
    streams: |t| {
        vec![
            st("interleaved", t.k(1_200, 30_000)),
            st("repeat", t.k(700, 20_000)),
            st("threads", t.k(500, 12_000)),
            st("handoff", t.k(200, 5_000)),
            st("aftermath", t.k(120, 3_000)),
            st("moved", t.k(400, 10_000)),
        ]
    },
    run: c26,
};
