//! C33: the work grows in proportion to the data.

use amqp_codec::protocol as p;
use amqp_codec::protocol::TransferBody;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use tokio_io::codec::{Decoder, Encoder};

use crate::alloc;
use crate::conv::*;
use crate::ctx::*;
use crate::rng::{mix, Rng};
use crate::rval::*;
use crate::spec::*;

/// what is measured, once per call; the value keeps the work from being optimised away
type Work = Box<dyn FnMut() -> usize>;

fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// least processor time of a call in ns, and bytes requested from the allocator in a call
fn cost(f: &mut Work, least_ns: u64, least_calls: u32) -> (u64, u64) {
    let mut best = u64::max_value();
    let (mut spent, mut calls, mut bytes) = (0, 0, u64::max_value());
    while calls < least_calls || spent < least_ns {
        let (a, t) = (alloc::total(), cpu());
        let x = f();
        let (t, a) = (cpu() - t, alloc::total() - a);
        std::hint::black_box(x);
        best = best.min(t);
        bytes = bytes.min(a);
        spent += t;
        calls += 1;
        if spent > 4_000_000_000 {
            break;
        }
    }
    (best.max(1), bytes)
}

/// proportional work is `by` times as much, quadratic work by * by times; in between: caches, page faults, noise
const SLACK: u64 = 16;
/// where the order of magnitude depends on how well keys hash, which is not claimed
const SLACK_HASHED: u64 = 40;

struct Sc {
    name: &'static str,
    n: usize,
    by: usize,
    make: fn(usize, u64) -> Work,
}

fn encode<T: Encode + 'static>(v: T) -> Work {
    let mut b = BytesMut::with_capacity(v.encoded_size() + 64);
    Box::new(move || {
        b.clear();
        v.encode(&mut b);
        b.len()
    })
}

fn size<T: Encode + 'static>(v: T) -> Work {
    Box::new(move || v.encoded_size())
}

fn decode<T: Decode + 'static>(b: Vec<u8>) -> Work {
    T::decode(&b).map(|_| ()).map_err(|e| format!("{:?}", e)).expect("a legal encoding is refused");
    Box::new(move || T::decode(&b).map(|x| x.0.len()).unwrap_or(7))
}

/// of the values made by the library itself
fn both<T: Encode + Decode + 'static>(v: T, what: u64) -> Work {
    match what {
        0 => encode(v),
        1 => size(v),
        _ => decode::<T>(lib_enc(&v)),
    }
}

fn text(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
}

/// an element of one of the types, small
fn elem(rng: &mut Rng, k: usize, kind: u64) -> R {
    match kind % 8 {
        0 => R::U32(k as u32),
        1 => R::Str(format!("value {}", k)),
        2 => R::Sym(format!("sym-{}", k)),
        3 => R::I64(k as i64 * 1_000_003),
        4 => R::Bin(rng.bytes(12)),
        5 => R::List(vec![R::U32(k as u32), R::Null]),
        6 => R::Desc(Box::new(R::U64(k as u64)), Box::new(R::Bool(true))),
        _ => R::Map(vec![(R::Sym(format!("k{}", k)), R::U32(k as u32))]),
    }
}

fn list(n: usize, seed: u64) -> R {
    let mut rng = Rng::new(&[seed]);
    R::List((0..n).map(|k| elem(&mut rng, k, if seed % 9 == 8 { k as u64 } else { seed % 9 })).collect())
}

fn key(k: usize, kind: u64) -> R {
    match kind % 4 {
        0 => R::Sym(format!("key-{}", k)),
        1 => R::Str(format!("key {}", k)),
        2 => R::U32((k as u32).wrapping_mul(2_654_435_761)),
        _ => R::I64(k as i64 - 1000),
    }
}

fn map(n: usize, seed: u64, kind: u64) -> R {
    let mut rng = Rng::new(&[seed]);
    R::Map((0..n).map(|k| (key(k, kind), elem(&mut rng, k, seed))).collect())
}

fn hash_of<T: Hash>(v: &T) -> usize {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish() as usize
}

fn message<M: super::msgs::Msg>(n: usize, seed: u64) -> M {
    let mut rng = Rng::new(&[seed]);
    let m = M::default();
    match seed / 3 % 5 {
        0 => m.set_body(|b| b.data = (0..n).map(|k| Bytes::from(vec![k as u8; 9])).collect()),
        1 => m.set_body(|b| b.sequence = (0..n).map(|k| List(vec![Variant::Uint(k as u32)])).collect()),
        2 => m.set_value(Variant::from_r(&list(n, seed))),
        3 => {
            let mut m = m;
            for k in 0..n {
                m = m.set_app(Str::from_str(&format!("property {}", k)), Variant::Uint(k as u32));
            }
            m
        }
        _ => {
            let t = text(&mut rng, n * 10);
            m.set_body(move |b| b.set_data(Bytes::from(t.as_bytes())))
        }
    }
}

fn batch<M: super::msgs::Msg>(n: usize) -> M
where
    TransferBody: From<M>,
{
    M::with_messages((0..n).map(|k| TransferBody::from(M::with_body(Bytes::from(vec![k as u8; 20])))).collect())
}

fn flow(k: usize) -> AmqpFrame {
    let f = R::desc(
        0x13,
        R::List(vec![R::Null, R::U32(k as u32), R::U32(0), R::U32(5), R::Null, R::Null, R::U32(k as u32), R::Null, R::Bool(false), R::Bool(true), R::Null]),
    );
    AmqpFrame::from_r(&R::List(vec![R::U16(k as u16), f, R::Null]))
}

fn transfer(n: usize, seed: u64) -> AmqpFrame {
    let mut rng = Rng::new(&[seed]);
    let mut fs: Vec<R> = TRANSFER.fields.iter().map(|f| f.2.default().unwrap_or(R::U32(0))).collect();
    fs[0] = R::U32(3);
    AmqpFrame::from_r(&R::List(vec![R::U16(1), R::desc(0x14, R::List(fs)), R::Bin(rng.bytes(n))]))
}

fn take_all(c: &mut AmqpCodec<AmqpFrame>, b: &mut BytesMut) -> usize {
    let mut n = 0;
    while let Some(_) = c.decode(b).expect("a legal frame is refused") {
        n += 1;
    }
    n
}

fn frames(n: usize) -> Vec<u8> {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    for k in 0..n {
        c.encode(flow(k), &mut b).expect("a frame is not encoded");
    }
    b.to_vec()
}

/// bytes arriving in pieces, delivered frames counted
fn arriving(b: Vec<u8>, piece: usize) -> Work {
    Box::new(move || {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut buf = BytesMut::with_capacity(b.len() + 64);
        let mut n = 0;
        for p in b.chunks(piece) {
            buf.extend_from_slice(p);
            n += take_all(&mut c, &mut buf);
        }
        assert!(n > 0 && buf.is_empty(), "frames are missing");
        n
    })
}

static SCENES: &[Sc] = &[
    Sc { name: "list", n: 600, by: 256, make: |n, s| both(Variant::from_r(&list(n, s / 3)), s % 3) },
    Sc { name: "List", n: 600, by: 256, make: |n, s| both(List::from_r(&list(n, s / 3)), s % 3) },
    Sc { name: "map", n: 400, by: 128, make: |n, s| both(p::Map::from_r(&map(n, s / 12, s / 3)), s % 3) },
    Sc { name: "map value", n: 400, by: 128, make: |n, s| both(Variant::from_r(&map(n, s / 12, s / 3)), s % 3) },
    Sc { name: "Fields", n: 400, by: 128, make: |n, s| both(p::Fields::from_r(&map(n, s / 3, 0)), s % 3) },
    Sc { name: "ordered map", n: 400, by: 128, make: |n, s| both(VecVariantMap::from_r(&map(n, s / 3, 1)), s % 3) },
    Sc { name: "array of uint", n: 4000, by: 256, make: |n, s| both((0..n as u32).collect::<Vec<u32>>(), s % 3) },
    Sc { name: "array of text", n: 800, by: 256, make: |n, s| both((0..n).map(|k| byte_str(&format!("t{}", k))).collect::<Vec<ByteStr>>(), s % 3) },
    Sc { name: "array of bool", n: 4000, by: 256, make: |n, s| both((0..n).map(|k| k % 3 == 0).collect::<Vec<bool>>(), s % 3) },
    Sc { name: "multiple", n: 800, by: 256, make: |n, s| both(Multiple((0..n).map(|k| Symbol::from_slice(&format!("s{}", k))).collect()), s % 3) },
    Sc { name: "text", n: 20_000, by: 128, make: |n, s| both(byte_str(&text(&mut Rng::new(&[s]), n)), s % 3) },
    Sc { name: "text value", n: 20_000, by: 128, make: |n, s| both(Variant::String(Str::from_str(&text(&mut Rng::new(&[s]), n))), s % 3) },
    Sc { name: "symbol", n: 20_000, by: 128, make: |n, s| both(Symbol::from_slice(&text(&mut Rng::new(&[s]), n)), s % 3) },
    Sc { name: "binary", n: 20_000, by: 128, make: |n, s| both(Bytes::from(vec![s as u8; n]), s % 3) },
    Sc { name: "any form", n: 600, by: 256, make: |n, s| {
        let mut rng = Rng::new(&[s]);
        let b = enc_rand(&list(n, s), &mut rng);
        decode::<Variant>(b)
    } },
    Sc { name: "incoming message", n: 500, by: 128, make: |n, s| both(message::<InMessage>(n, s), s % 3) },
    Sc { name: "outgoing message", n: 500, by: 128, make: |n, s| both(message::<OutMessage>(n, s), s % 3) },
    Sc { name: "incoming message, changed", n: 500, by: 128, make: |n, s| {
        let m = message::<InMessage>(n, s);
        // the remembered size is given up each time
        Box::new(move || {
            let x = m.clone().set_properties(|p| p.content_type = None);
            x.encoded_size() + lib_enc(&x).len()
        })
    } },
    Sc { name: "outgoing message, changed", n: 500, by: 128, make: |n, s| {
        let m = message::<OutMessage>(n, s);
        Box::new(move || {
            let x = m.clone().set_properties(|p| p.content_type = None);
            x.encoded_size() + lib_enc(&x).len()
        })
    } },
    Sc { name: "batch, outgoing", n: 150, by: 256, make: |n, s| both(batch::<OutMessage>(n), s % 3) },
    Sc { name: "batch, incoming", n: 150, by: 256, make: |n, s| both(batch::<InMessage>(n), s % 3) },
    Sc { name: "batch, fresh", n: 100, by: 256, make: |n, _| Box::new(move || {
        let m = batch::<OutMessage>(n);
        m.encoded_size() + lib_enc(&m).len()
    }) },
    Sc { name: "sections one by one", n: 300, by: 512, make: |n, s| {
        let b = lib_enc(&message::<OutMessage>(n, s / 2 * 15 + s % 2 * 3));
        Box::new(move || {
            let mut rest = &b[..];
            let mut k = 0;
            while !rest.is_empty() {
                rest = p::Section::decode(rest).expect("a section is refused").0;
                k += 1;
            }
            k
        })
    } },
    Sc { name: "properties set", n: 200, by: 256, make: |n, s| Box::new(move || {
        let mut a = InMessage::default();
        let mut b = OutMessage::default();
        for k in 0..n {
            let key = Str::from_str(&format!("property {}", k));
            if s % 2 == 0 {
                a = a.set_app_property(key, Variant::Uint(k as u32));
            } else {
                b = b.set_app_property(key, Variant::Uint(k as u32));
            }
        }
        a.encoded_size() + b.encoded_size()
    }) },
    Sc { name: "properties read", n: 200, by: 256, make: |n, _| {
        let mut m = InMessage::default();
        let keys: Vec<String> = (0..n).map(|k| format!("property {}", k)).collect();
        for k in &keys {
            m = m.set_app_property(Str::from_str(k), Variant::Boolean(true));
        }
        Box::new(move || keys.iter().filter(|k| m.app_property(k).is_some()).count())
    } },
    Sc { name: "transfer", n: 20_000, by: 256, make: |n, s| {
        let f = transfer(n, s);
        match s % 3 {
            0 => encode(f),
            1 => size(f),
            _ => decode::<AmqpFrame>(lib_enc(&f)[4..].to_vec()),
        }
    } },
    Sc { name: "composite", n: 400, by: 128, make: |n, s| {
        let mut fs: Vec<R> = OPEN.fields.iter().map(|f| f.2.default().unwrap_or(R::str("id"))).collect();
        fs[9] = map(n, s / 3, 0);
        fs[7] = R::Array((0..n).map(|k| R::Sym(format!("cap-{}", k))).collect());
        both(p::Open::from_r(&R::desc(0x10, R::List(fs))), s % 3)
    } },
    Sc { name: "mechanisms", n: 400, by: 256, make: |n, s| {
        let v = R::Array((0..n).map(|k| R::Sym(format!("MECH-{}", k))).collect());
        let f = SaslFrame::from_r(&R::desc(0x40, R::List(vec![v])));
        match s % 3 {
            0 => encode(f),
            1 => size(f),
            _ => decode::<SaslFrame>(lib_enc(&f)[4..].to_vec()),
        }
    } },
    Sc { name: "frames written", n: 100, by: 1024, make: |n, s| Box::new(move || {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::new();
        let mut sum = 0;
        for k in 0..n {
            c.encode(flow(k), &mut b).expect("a frame is not encoded");
            if s % 2 == 0 && k % 7 == 0 {
                // the transport takes a part
                let t = b.len() / 2;
                sum += b.split_to(t).len();
            }
        }
        sum + b.len()
    }) },
    Sc { name: "frames in one buffer", n: 60, by: 1024, make: |n, _| {
        let b = frames(n);
        let k = b.len();
        arriving(b, k)
    } },
    Sc { name: "frames in pieces", n: 60, by: 512, make: |n, s| arriving(frames(n), [1, 7, 64, 1500][s as usize % 4]) },
    Sc { name: "one frame in pieces", n: 6_000, by: 256, make: |n, s| arriving(lib_enc(&transfer(n, s)), [1, 7, 64, 1500][s as usize % 4]) },
    Sc { name: "compare", n: 400, by: 128, make: |n, s| {
        let r = if s % 2 == 0 { list(n, s / 2) } else { map(n, s / 8, s / 2) };
        let (a, b) = (Variant::from_r(&r), Variant::from_r(&r));
        Box::new(move || (a == b) as usize)
    } },
    Sc { name: "hash", n: 400, by: 128, make: |n, s| {
        let a = Variant::from_r(&if s % 2 == 0 { list(n, s / 2) } else { map(n, s / 8, s / 2) });
        Box::new(move || hash_of(&a))
    } },
    Sc { name: "clone", n: 400, by: 128, make: |n, s| {
        let m = message::<OutMessage>(n, s);
        Box::new(move || m.clone().encoded_size())
    } },
    Sc { name: "refused late", n: 600, by: 256, make: |n, s| {
        let mut v = match list(n, s) {
            R::List(v) => v,
            _ => unreachable!(),
        };
        v.push(R::Bool(true));
        let mut b = enc_max(&R::List(v));
        let k = b.len();
        b[k - 1] = 0x3f;
        Box::new(move || Variant::decode(&b).is_err() as usize)
    } },
    Sc { name: "cut short", n: 600, by: 256, make: |n, s| {
        let mut b = enc_max(&list(n, s));
        let k = b.len();
        b.truncate(k - 1);
        Box::new(move || Variant::decode(&b).is_err() as usize)
    } },
    Sc { name: "refused frames", n: 60, by: 1024, make: |n, _| {
        let mut b = frames(1);
        let k = b.len();
        b[k - 1] = 0x3f;
        let b = b.repeat(n);
        Box::new(move || {
            let mut c = AmqpCodec::<AmqpFrame>::new();
            let mut buf = BytesMut::from(&b[..]);
            let mut errs = 0;
            while !buf.is_empty() {
                match c.decode(&mut buf) {
                    Err(_) => errs += 1,
                    Ok(None) => break,
                    Ok(_) => {}
                }
            }
            errs
        })
    } },
];

fn growth(c: &mut Ctx, i: u64) -> Res {
    let sc = &SCENES[i as usize % SCENES.len()];
    let hashed = ["map", "Fields", "properties", "message", "composite", "compare", "hash", "clone", "sections"].iter().any(|x| sc.name.contains(x));
    let by = sc.by;
    let limit = by as u64 * if hashed { SLACK_HASHED } else { SLACK };
    let s = i / SCENES.len() as u64 + 2520 * c.rng.below(1000) as u64;
    set_flavor(c.rng.u64());
    // sizes around 255 bytes and other thresholds lie between both
    let n = sc.n + c.rng.below(sc.n / 2);
    let mut least = (u64::max_value(), 0, 0);
    let mut small = (sc.make)(n, s);
    let mut big = (sc.make)(n * by, s);
    let mut bytes = (0, 0);
    for round in 0..5 {
        let a = cost(&mut small, 1_500_000, 5);
        let b = cost(&mut big, 0, 2);
        bytes = (a.1, b.1);
        let times = b.0 / a.0;
        if times < least.0 {
            least = (times, a.0, b.0);
        }
        if least.0 <= limit {
            break;
        }
        c.count("measured_again", 1);
        std::thread::sleep(std::time::Duration::from_millis(50 * (round + 1)));
    }
    ensure!(
        least.0 <= limit,
        "{} (variant {}): {} times the data took {} times the processor time ({} elements {} us, {} elements {} us)",
        sc.name, s % 2520, by, least.0, n, least.1 / 1000, n * by, least.2 / 1000
    );
    ensure!(
        bytes.1 <= (bytes.0 + 4096 + 64 * n as u64) * (by as u64 * 4),
        "{} (variant {}): {} times the data took {} bytes of memory traffic instead of {}",
        sc.name, s % 2520, by, bytes.1, bytes.0
    );
        c.max(if hashed { "percent_growth_per_element_hashed" } else { "percent_growth_per_element" }, least.0 * 100 / by as u64);
    if bytes.0 > 0 {
        c.max("percent_growth_in_bytes_allocated", bytes.1 * 100 / bytes.0 / by as u64);
    }
    c.obs(mix(i ^ (n as u64) << 20), true, || format!("{}: {} -> {} elements, {} us -> {} us", sc.name, n, n * by, least.1 / 1000, least.2 / 1000));
    Ok(())
}

/// nesting must not multiply the work: eight times as deep, at most its third power
fn nesting(c: &mut Ctx, i: u64) -> Res {
    let what = i % 8;
    let mut rng = Rng::new(&[c.rng.u64()]);
    let style = (i / 8) as usize % 5;
    let value = |depth: usize| -> R {
        let mut r = R::Bool(true);
        for k in 0..depth {
            r = match if style == 4 { k % 4 } else { style } {
                0 => R::List(vec![r]),
                1 => R::Map(vec![(R::sym("k"), r)]),
                2 => R::Desc(Box::new(R::sym("d")), Box::new(r)),
                _ => R::List(vec![R::U32(k as u32), r, R::Null]),
            };
        }
        r
    };
    let _ = rng.u64();
    let make = |depth: usize| -> Work {
        let r = value(depth);
        let v = Variant::from_r(&r);
        match what {
            0 => encode(v),
            1 => size(v),
            2 => decode::<Variant>(lib_enc(&v)),
            3 => {
                let w = v.clone();
                Box::new(move || (v == w) as usize)
            }
            4 => Box::new(move || hash_of(&v)),
            5 => Box::new(move || {
                let w = v.clone();
                match w {
                    Variant::Null => 0,
                    _ => 1,
                }
            }),
            6 => {
                let m = OutMessage::default().set_value(v);
                Box::new(move || {
                    let x = m.clone().set_properties(|p| p.content_type = None);
                    x.encoded_size() + lib_enc(&x).len()
                })
            }
            _ => {
                // messages within messages
                let mut m = OutMessage::default().set_value(Variant::Boolean(true));
                for _ in 0..depth / 2 {
                    m = OutMessage::with_messages(vec![TransferBody::from(m)]);
                }
                Box::new(move || lib_enc(&m.clone()).len())
            }
        }
    };
    let mut least = (u64::max_value(), 0, 0);
    let (mut small, mut big) = (make(15), make(120));
    for round in 0..5 {
        let a = cost(&mut small, 300_000, 20);
        let b = cost(&mut big, 300_000, 3);
        let times = b.0 / a.0.max(300);
        if times < least.0 {
            least = (times, a.0, b.0);
        }
        if least.0 <= 700 {
            break;
        }
        c.count("measured_again", 1);
        std::thread::sleep(std::time::Duration::from_millis(50 * (round + 1)));
    }
    ensure!(
        least.0 <= 700,
        "nesting ({}, style {}): eight times as deep took {} times the processor time ({} ns, {} ns)",
        what, style, least.0, least.1, least.2
    );
    c.max("growth_with_depth", least.0);
    c.obs(mix(i ^ 0x9e), true, || format!("nesting {} style {}: {} ns -> {} ns", what, style, least.1, least.2));
    Ok(())
}

fn c33(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "growth" => growth(c, i),
        "nesting" => nesting(c, i),
        _ => unreachable!(),
    }
}

pub const C33: Prop = Prop {
    id: "C33",
    rule: "one evaluation = one operation timed on some data and on 128 to 1024 times as much (or 8 times as deep), processor time and \
           allocator traffic compared; distinct = distinct operations, sizes and variants",
    streams: |t| {
        let n = SCENES.len() as u64;
        vec![st("growth", n * t.n(6, 300)), st("nesting", 40 * t.n(1, 50))]
    },
    run: c33,
};
