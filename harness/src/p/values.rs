//! C01..C05: primitive and container values.

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use bytes::Bytes;
use hashbrown::HashMap;
use uuid::Uuid;

use super::subj::*;
use crate::ctx::*;
use crate::entries::{dec, Ts};
use crate::gen::Gen;
use crate::rng::hash_bytes;
use crate::rval::*;
use crate::scalar_types;

// ------------------------------------------------------------ shared streams

fn lens(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..1100).collect();
    v.extend(65_520..65_550);
    v.extend(&[4095, 4096, 32767, 32768, 100_000, (1 << 17) - 1, 1 << 17, 1 << 20]);
    if t == Tier::Thorough {
        v.extend(&[(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 20) + 77]);
        v.extend(1100..4000);
    }
    v
}

/// scalar streams: (stream, idx) -> the values of that case
pub fn scalar_case(c: &mut Ctx, s: &str, i: u64) -> Vec<R> {
    let mut v = Vec::new();
    match s {
        "small" => {
            // all 8-bit and 16-bit values, 256 per case
            for k in 0..256u64 {
                let x = i * 256 + k;
                v.push(R::U16(x as u16));
                v.push(R::I16(x as u16 as i16));
                if i == 0 {
                    v.push(R::U8(x as u8));
                    v.push(R::I8(x as u8 as i8));
                }
                if i < 8 {
                    // values around every small boundary of the wider types
                    let y = x as i64 - 1024;
                    v.push(R::I32(y as i32));
                    v.push(R::I64(y));
                    v.push(R::U32(x as u32));
                    v.push(R::U64(x));
                }
            }
            if i == 0 {
                v.push(R::Null);
                v.push(R::Bool(true));
                v.push(R::Bool(false));
            }
        }
        "chars" => {
            for x in (i * 4096)..((i + 1) * 4096).min(0x110000) {
                if std::char::from_u32(x as u32).is_some() {
                    v.push(R::Char(x as u32));
                }
            }
        }
        "lengths" => {
            let n = lens(c.tier)[i as usize];
            let mut g = Gen::new(&mut c.rng);
            v.push(R::Str(g.text_len(n)));
            v.push(R::Sym(g.ascii_len(n)));
            v.push(R::Bin(g.rng.bytes(n)));
        }
        "powers" => {
            let k = i as u32;
            for d in -3i64..=3 {
                let x = (1u64 << k).wrapping_add(d as u64);
                v.push(R::U32(x as u32));
                v.push(R::U64(x));
                v.push(R::I32(x as i32));
                v.push(R::I64(x as i64));
                v.push(R::I32((x as i32).wrapping_neg()));
                v.push(R::I64((x as i64).wrapping_neg()));
                v.push(R::F32(x as u32));
                v.push(R::F64(x));
                let t = (x as i64) % 8_000_000_000_000_000;
                v.push(R::Ts(t));
                v.push(R::Ts(-t));
            }
        }
        "scalars" => {
            let mut g = Gen::new(&mut c.rng);
            g.big = i % 50 == 0;
            g.budget = 200_000;
            for _ in 0..16 {
                v.push(g.scalar());
            }
        }
        "large" => {
            // lengths around 2^24: every byte of a 32-bit length counts
            let n = LARGE[i as usize / 3];
            v.push(match i % 3 {
                0 => R::Str("s".repeat(n)),
                1 => R::Sym("y".repeat(n)),
                _ => R::Bin(vec![i as u8; n]),
            });
        }
        _ => unreachable!(),
    }
    v
}

const LARGE: &[usize] = &[(1 << 24) - 1, 1 << 24, (1 << 24) + 300];

pub fn scalar_streams(t: Tier) -> Vec<Stream> {
    vec![
        st("small", 256),
        st("chars", 272),
        st("lengths", lens(t).len() as u64),
        st("large", LARGE.len() as u64 * 3),
        st("powers", 64),
        st("scalars", t.k(6_000, 250_000)),
    ]
}

/// element of kind k (0..=16)
fn elem_kind(g: &mut Gen, k: usize) -> R {
    match k {
        0 => R::Bool(g.rng.bool()),
        1 => R::U8(g.uint(8) as u8),
        2 => R::U16(g.uint(16) as u16),
        3 => R::U32(g.uint(32) as u32),
        4 => R::U64(g.uint(64)),
        5 => R::I8(g.int(8) as i8),
        6 => R::I16(g.int(16) as i16),
        7 => R::I32(g.int(32) as i32),
        8 => R::I64(g.int(64)),
        9 => R::F32(g.f32bits()),
        10 => R::F64(g.f64bits()),
        11 => R::Char(g.ch()),
        12 => R::Ts(g.ts()),
        13 => R::Uuid(g.uuid()),
        14 => R::Bin(g.bin()),
        15 => R::Str(g.text()),
        16 => R::Sym(g.symbol()),
        _ => g.map(2),
    }
}
const ELEMS: usize = 18;

/// a list / map / array / described value whose content takes exactly n bytes if possible
fn sized(g: &mut Gen, shape: usize, n: usize) -> Option<R> {
    // binaries of body length m take m+2 (m < 256) or m+5 bytes
    let fill = |n: usize| -> Option<Vec<R>> {
        let mut v = Vec::new();
        let mut left = n;
        while left > 0 {
            if left == 1 {
                v.push(R::Null);
                left = 0;
            } else if left <= 257 {
                v.push(R::Bin(vec![7; left - 2]));
                left = 0;
            } else {
                v.push(R::Bin(vec![9; 100]));
                left -= 102;
            }
        }
        Some(v)
    };
    match shape {
        // one or more blobs
        0 => fill(n).map(R::List),
        // all one-byte elements
        1 => Some(R::List((0..n).map(|i| if i % 2 == 0 { R::Null } else { R::Bool(true) }).collect())),
        // nested list of exactly that content
        2 => fill(n).map(|v| R::List(vec![R::List(v), R::U8(1)])),
        // single pair map: key takes 2 bytes
        3 => {
            if n < 4 || n > 259 {
                return None;
            }
            Some(R::Map(vec![(R::U8(5), R::Bin(vec![1; n - 4]))]))
        }
        // map with a symbol key of growing size
        4 => {
            if n < 3 || n > 258 {
                return None;
            }
            Some(R::Map(vec![(R::Sym("k".repeat(n - 3)), R::Null)]))
        }
        // map with string keys (also the ordered map)
        5 => {
            if n < 6 || n > 261 {
                return None;
            }
            Some(R::Map(vec![(R::str("k"), R::Str("v".repeat(n - 5)))]))
        }
        // many small pairs: 4 bytes each
        6 => {
            let mut v: Vec<(R, R)> = (0..n / 4).map(|i| (R::U16(i as u16), R::Bool(i % 2 == 0))).collect();
            if n % 4 == 2 {
                v.push((R::Bool(true), R::Null));
            }
            Some(R::Map(v).canon())
        }
        // arrays of one-, two-, four-, eight- and sixteen-byte elements
        7 => Some(R::Array(vec![R::U8(3); n])),
        8 => Some(R::Array((0..n / 2).map(|i| R::U16(i as u16)).collect())),
        9 => Some(R::Array((0..n / 4).map(|i| R::U32(i as u32)).collect())),
        10 => Some(R::Array((0..n / 8).map(|i| R::I64(i as i64)).collect())),
        11 => Some(R::Array((0..n / 16).map(|_| R::Uuid([7; 16])).collect())),
        // arrays of 4-byte-length elements: exact content size n
        12 => {
            if n < 4 {
                return None;
            }
            Some(R::Array(vec![R::Sym("s".repeat(n - 4))]))
        }
        13 => {
            if n < 8 {
                return None;
            }
            let a = g.rng.below(n - 7);
            Some(R::Array(vec![R::Sym("s".repeat(a)), R::Sym("t".repeat(n - 8 - a))]))
        }
        14 => {
            if n < 8 {
                return None;
            }
            let a = g.rng.below(n - 7);
            Some(R::Array(vec![R::Bin(vec![1; a]), R::Bin(vec![2; n - 8 - a])]))
        }
        15 => {
            if n < 8 {
                return None;
            }
            let a = g.rng.below(n - 7);
            Some(R::Array(vec![R::Str("s".repeat(a)), R::Str("t".repeat(n - 8 - a))]))
        }
        16 => fill(n).map(|v| R::Desc(Box::new(R::sym("d")), Box::new(R::List(v)))),
        17 => fill(n).map(|v| R::Map(vec![(R::List(v), R::U8(1))])),
        18 => Some(R::Array(vec![R::Bool(true); n])),
        _ => Some(R::Array((0..n / 4).map(|_| R::F32(0x3f80_0000)).collect())),
    }
}
const SHAPES: u64 = 20;

fn sweep_sizes(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..300).collect();
    if t == Tier::Thorough {
        v.extend(300..1200);
    } else {
        v.extend(&[508, 509, 510, 511, 512, 513, 514]);
    }
    v.extend(&[1000, 1016, 1020, 1024, 2040, 2048, 4080, 4096, 65_531, 65_534, 65_535, 65_536, 70_000]);
    v
}

pub fn container_case(c: &mut Ctx, s: &str, i: u64) -> Vec<(R, Option<R>)> {
    let tier = c.tier;
    let mut g = Gen::new(&mut c.rng);
    match s {
        "trees" => {
            let d = g.rng.range(1, 5);
            g.budget = *g.rng.clone().pick(&[60usize, 300, 300, 1500, 1500, 6000]);
            let r = match i % 4 {
                0 => g.list(d),
                1 => g.map(d),
                2 => g.described(d),
                _ => g.value(d),
            };
            vec![(r, None)]
        }
        "maps" => {
            let r = match i % 4 {
                0 => g.sym_map(),
                1 => g.str_map(),
                2 => crate::spec::gen_ty(&crate::spec::Ty::Filter, &mut g),
                _ => {
                    let n = g.rng.below(8);
                    let mut v = Vec::new();
                    for k in 0..n {
                        v.push((R::U32(g.rng.below(1 << 20) as u32 * 8 + k as u32), g.list(2)));
                    }
                    R::Map(v).canon()
                }
            };
            // ordered maps keep their order: shuffle
            let r = match r {
                R::Map(mut v) => {
                    for k in (1..v.len()).rev() {
                        let j = g.rng.below(k + 1);
                        v.swap(k, j);
                    }
                    R::Map(v)
                }
                x => x,
            };
            vec![(r, None)]
        }
        "sizes" => {
            let sizes = sweep_sizes(tier);
            let n = sizes[(i / SHAPES) as usize];
            match sized(&mut g, (i % SHAPES) as usize, n) {
                Some(r) => vec![(r, None)],
                None => vec![],
            }
        }
        "arrays" => {
            let k = (i % ELEMS as u64) as usize;
            g.budget = 6000;
            let n = match g.rng.below(8) {
                0 => 0,
                1 => 1,
                2 => g.rng.range(250, 260),
                3 => g.rng.range(60, 66),
                4 => g.rng.range(28, 34),
                5 => g.rng.range(14, 18),
                _ => g.rng.below(20),
            };
            let e = elem_kind(&mut g, k);
            let v = (0..n).map(|_| elem_kind(&mut g, k)).collect();
            vec![(R::Array(v), Some(e))]
        }
        "chains" => {
            let n = 1 + (i as usize) % 64;
            g.budget = 40;
            vec![(g.chain(n), None)]
        }
        "big" => {
            let n = [65_534usize, 65_535, 65_536, 65_537, 70_001, 33_000, 127, 128, 255, 256, 257][(i % 11) as usize];
            let r = match (i / 11) % 5 {
                0 => R::List(vec![R::Null; n]),
                1 => R::Map((0..n as u32).map(|k| (R::U32(k), R::Null)).collect()),
                2 => R::Array((0..n as u32).map(R::U32).collect()),
                3 => R::List((0..n as u32).map(|k| R::List(vec![R::U32(k)])).collect()),
                _ => R::Array((0..n).map(|k| R::Sym(format!("s{}", k))).collect()),
            };
            vec![(r.canon(), None)]
        }
        "huge" => {
            // one element longer than 2^16 or 2^24 bytes, first, last or alone
            let n = [65_530usize, 65_536, 70_003, 200_000, (1 << 24) - 9, 1 << 24][(i / 12) as usize];
            let big = |k: u64| match k % 3 {
                0 => R::Bin(vec![k as u8; n]),
                1 => R::Str("t".repeat(n)),
                _ => R::Sym("z".repeat(n)),
            };
            let small = |k: u64| match k % 3 {
                0 => R::Bin(vec![1, 2]),
                1 => R::str("xy"),
                _ => R::sym("xy"),
            };
            let k = i % 3;
            let r = match (i / 3) % 4 {
                0 => R::Array(vec![small(k), big(k), small(k)]),
                1 => R::List(vec![R::Null, big(k), R::Bool(true)]),
                2 => R::Map(vec![(small(1), big(k)), (R::str("z"), R::U8(1))]),
                _ => R::Desc(Box::new(R::U64(77)), Box::new(R::List(vec![R::List(vec![big(k)]), small(k)]))),
            };
            vec![(r, None)]
        }
        _ => unreachable!(),
    }
}

pub fn container_streams(t: Tier) -> Vec<Stream> {
    vec![
        st("sizes", sweep_sizes(t).len() as u64 * SHAPES),
        st("chains", t.k(64 * 12, 64 * 400)),
        st("big", 55),
        st("huge", 72),
        st("trees", t.k(12_000, 600_000)),
        st("maps", t.k(5_000, 250_000)),
        st("arrays", t.k(5_000, 200_000)),
    ]
}

pub fn is_container_stream(s: &str) -> bool {
    match s {
        "sizes" | "chains" | "big" | "huge" | "trees" | "maps" | "arrays" => true,
        _ => false,
    }
}

/// library values of one case
pub fn subjects(c: &mut Ctx, s: &str, i: u64) -> Vec<Subj> {
    let mut out = Vec::new();
    if is_container_stream(s) {
        for (r, e) in container_case(c, s, i) {
            out.extend(containers(&r, e.as_ref()));
        }
    } else {
        for r in scalar_case(c, s, i) {
            out.extend(scalars(&r));
        }
    }
    out
}

fn same(a: &R, b: &R, ordered: bool) -> bool {
    if ordered {
        match (a, b) {
            (R::Map(x), R::Map(y)) => {
                let canon = |v: &[(R, R)]| -> Vec<(R, R)> {
                    v.iter().map(|(k, x)| (k.clone().canon(), x.clone().canon())).collect()
                };
                canon(x) == canon(y)
            }
            _ => a == b,
        }
    } else {
        a.clone().canon() == b.clone().canon()
    }
}

fn key(s: &Subj) -> u64 {
    hash_bytes(s.ty.as_bytes()) ^ hash_bytes(&s.enc)
}

fn sample(s: &Subj) -> String {
    format!("{} {} -> {}", s.ty, s.r.show(), hex(&s.enc[..s.enc.len().min(60)]))
}

// ------------------------------------------------------------ C01, C02

fn roundtrip(c: &mut Ctx, s: &str, i: u64) -> Res {
    for x in subjects(c, s, i) {
        c.obs(key(&x), true, || sample(&x));
        c.count(&format!("roundtrip_{}", x.ty), 1);
        c.max("encoded_bytes", x.enc.len() as u64);
        c.max("nesting", x.r.depth() as u64);
        match &x.back {
            Err(e) => {
                return Err(format!("{} {}: own encoding {} is refused: {}", x.ty, x.r.show(), hex(&x.enc), e))
            }
            Ok((r2, left)) => {
                ensure!(*left == 0, "{} {}: {} bytes of {} not consumed", x.ty, x.r.show(), left, hex(&x.enc));
                ensure!(
                    same(r2, &x.r, x.ordered),
                    "{} {} comes back as {} (encoding {})",
                    x.ty,
                    x.r.show(),
                    r2.show(),
                    hex(&x.enc)
                );
            }
        }
        ensure!(x.eq != Some(false), "{} {} comes back unequal (encoding {})", x.ty, x.r.show(), hex(&x.enc));
    }
    Ok(())
}

pub const C01: Prop = Prop {
    id: "C01",
    rule: "one evaluation = one primitive value encoded as one library type (typed, Option or Variant) and decoded \
           again; distinct = distinct (type, encoding)",
    streams: scalar_streams,
    run: roundtrip,
};
pub const C02: Prop = Prop {
    id: "C02",
    rule: "one evaluation = one container value encoded as one library type and decoded again; distinct = distinct \
           (type, encoding)",
    streams: container_streams,
    run: roundtrip,
};

// ------------------------------------------------------------ C04

fn wellformed(c: &mut Ctx, s: &str, i: u64) -> Res {
    for x in subjects(c, s, i) {
        c.obs(key(&x), true, || sample(&x));
        c.count(&format!("constructor_{:#04x}", x.enc.first().cloned().unwrap_or(0xff)), 1);
        let mut w = dec_strict(&x.enc).map_err(|e| {
            format!("{} {}: encoding {} is not well-formed AMQP 1.0: {}", x.ty, x.r.show(), hex(&x.enc), e)
        })?;
        if x.ty.starts_with("Multiple") {
            if let R::Array(v) = &x.r {
                if v.len() == 1 && w == v[0] {
                    w = R::Array(vec![w]);
                }
            }
        }
        ensure!(
            same(&w, &x.r, x.ordered),
            "{} {}: encoding {} denotes {}",
            x.ty,
            x.r.show(),
            hex(&x.enc),
            w.show()
        );
    }
    Ok(())
}

pub fn both_streams(t: Tier) -> Vec<Stream> {
    let mut v = scalar_streams(t);
    v.extend(container_streams(t));
    v
}

pub const C04: Prop = Prop {
    id: "C04",
    rule: "one evaluation = one library encoding read by the independent strict decoder; distinct = distinct (type, \
           encoding)",
    streams: both_streams,
    run: wellformed,
};

// ------------------------------------------------------------ C05

fn legal_forms(c: &mut Ctx, r: &R, n: usize, empty_ctor: u8) -> Vec<Vec<u8>> {
    let mut v = vec![enc_min(r), enc_max(r)];
    for _ in 0..n {
        let mut e = Enc::new(Form::Rand(&mut c.rng));
        e.empty_ctor = empty_ctor;
        e.value(r);
        v.push(e.out);
    }
    v.sort();
    v.dedup();
    v
}

type DecFn = fn(&[u8]) -> Result<(R, usize), String>;

fn push_typed<T: amqp_codec::Decode + crate::conv::ToR>(ty: &'static str, out: &mut Vec<(&'static str, DecFn)>)
where
    Option<T>: amqp_codec::Decode,
{
    out.push((ty, dec::<T>));
    out.push(("Option", dec::<Option<T>>));
}

fn typed_decoders(r: &R, elem: Option<&R>) -> Vec<(&'static str, DecFn)> {
    let mut out: Vec<(&'static str, DecFn)> = Vec::new();
    scalar_types!(r, push_typed(&mut out));
    match r {
        R::List(_) => push_typed::<List>("List", &mut out),
        R::Map(v) => {
            push_typed::<p::Map>("Map", &mut out);
            if v.iter().all(|x| matches!(x.0, R::Sym(_))) {
                push_typed::<p::Fields>("Fields", &mut out);
                if v.iter().all(|x| matches!(x.1, R::Str(_) | R::Null)) {
                    push_typed::<p::FilterSet>("FilterSet", &mut out);
                }
            }
            if v.iter().all(|x| matches!(x.0, R::Str(_))) {
                push_typed::<p::StringVariantMap>("StringVariantMap", &mut out);
            }
            if v.iter().all(|x| matches!((&x.0, &x.1), (R::U32(_), R::List(_)))) {
                push_typed::<HashMap<u32, List>>("HashMap<u32,List>", &mut out);
            }
        }
        R::Array(v) => match v.first().or(elem) {
            Some(R::Bool(_)) => push_typed::<Vec<bool>>("Vec<bool>", &mut out),
            Some(R::U8(_)) => push_typed::<Vec<u8>>("Vec<u8>", &mut out),
            Some(R::U16(_)) => push_typed::<Vec<u16>>("Vec<u16>", &mut out),
            Some(R::U32(_)) => push_typed::<Vec<u32>>("Vec<u32>", &mut out),
            Some(R::U64(_)) => push_typed::<Vec<u64>>("Vec<u64>", &mut out),
            Some(R::I8(_)) => push_typed::<Vec<i8>>("Vec<i8>", &mut out),
            Some(R::I16(_)) => push_typed::<Vec<i16>>("Vec<i16>", &mut out),
            Some(R::I32(_)) => push_typed::<Vec<i32>>("Vec<i32>", &mut out),
            Some(R::I64(_)) => push_typed::<Vec<i64>>("Vec<i64>", &mut out),
            Some(R::F32(_)) => push_typed::<Vec<f32>>("Vec<f32>", &mut out),
            Some(R::F64(_)) => push_typed::<Vec<f64>>("Vec<f64>", &mut out),
            Some(R::Char(_)) => push_typed::<Vec<char>>("Vec<char>", &mut out),
            Some(R::Ts(_)) => push_typed::<Vec<Ts>>("Vec<timestamp>", &mut out),
            Some(R::Uuid(_)) => push_typed::<Vec<Uuid>>("Vec<uuid>", &mut out),
            Some(R::Bin(_)) => push_typed::<Vec<Bytes>>("Vec<binary>", &mut out),
            Some(R::Str(_)) => push_typed::<Vec<ByteStr>>("Vec<ByteStr>", &mut out),
            Some(R::Sym(_)) => {
                push_typed::<Vec<Symbol>>("Vec<Symbol>", &mut out);
                push_typed::<Multiple<Symbol>>("Multiple<Symbol>", &mut out);
            }
            Some(R::Map(_)) => push_typed::<Vec<p::Map>>("Vec<Map>", &mut out),
            Some(R::List(_)) => push_typed::<Vec<List>>("Vec<List>", &mut out),
            _ => {}
        },
        _ => {}
    }
    match r {
        R::Array(_) => {}
        _ => {
            out.push(("Variant", dec::<Variant>));
            out.push(("Option<Variant>", dec::<Option<Variant>>));
        }
    }
    out
}

fn accept(c: &mut Ctx, r: &R, elem: Option<&R>, e: &[u8]) -> Res {
    for (ty, f) in typed_decoders(r, elem) {
        accept_as(c, ty, f, r, e)?;
    }
    if let R::Sym(_) = r {
        // a field that may hold several values may hold one of them bare
        let many = R::Array(vec![r.clone()]);
        accept_as(c, "Multiple<Symbol>", dec::<Multiple<Symbol>>, &many, e)?;
        accept_as(c, "Option<Multiple<Symbol>>", dec::<Option<Multiple<Symbol>>>, &many, e)?;
    }
    Ok(())
}

fn accept_as(c: &mut Ctx, ty: &'static str, f: DecFn, r: &R, e: &[u8]) -> Res {
    c.obs(hash_bytes(ty.as_bytes()) ^ hash_bytes(e), true, || {
        format!("{} as {} from {}", r.show(), ty, hex(&e[..e.len().min(60)]))
    });
    c.count(&format!("constructor_{:#04x}", e[0]), 1);
    match f(e) {
        Err(x) => return Err(format!("{}: legal encoding {} of {} refused: {}", ty, hex(e), r.show(), x)),
        Ok((r2, left)) => {
            ensure!(left == 0, "{}: {} bytes left of legal encoding {}", ty, left, hex(e));
            ensure!(
                r2.clone().canon() == r.clone().canon(),
                "{}: legal encoding {} of {} decodes as {}",
                ty,
                hex(e),
                r.show(),
                r2.show()
            );
        }
    }
    // what follows the value in the stream is not the value's business
    if e.len() <= 4096 {
        let n = [1, 2, 5, 40][c.rng.below(4)];
        let mut e2 = e.to_vec();
        for k in 0..n {
            e2.push(if k == 0 { *c.rng.clone().pick(TRAIL) } else { c.rng.u64() as u8 });
        }
        let n = e2.len() - e.len();
        match f(&e2) {
            Err(x) => {
                return Err(format!("{}: legal encoding {} of {} refused when followed by {}: {}", ty, hex(e), r.show(), hex(&e2[e.len()..]), x))
            }
            Ok((r2, left)) => {
                ensure!(left == n, "{}: {} of {} trailing bytes left after legal encoding {}", ty, left, n, hex(e));
                ensure!(
                    r2.clone().canon() == r.clone().canon(),
                    "{}: legal encoding {} of {} decodes as {} when followed by {}",
                    ty,
                    hex(e),
                    r.show(),
                    r2.show(),
                    hex(&e2[e.len()..])
                );
            }
        }
    }
    Ok(())
}

const TRAIL: &[u8] = &[
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x52, 0x53, 0x56, 0x70, 0x71, 0x80, 0x83, 0x98, 0xa0, 0xa1, 0xa3, 0xb0,
    0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0xff,
];

fn ctor_of_kind(c: u8) -> Option<&'static str> {
    Some(match c {
        0x40 => "null",
        0x41 | 0x42 | 0x56 => "bool",
        0x50 => "ubyte",
        0x60 => "ushort",
        0x43 | 0x52 | 0x70 => "uint",
        0x44 | 0x53 | 0x80 => "ulong",
        0x51 => "byte",
        0x61 => "short",
        0x54 | 0x71 => "int",
        0x55 | 0x81 => "long",
        0x72 => "float",
        0x82 => "double",
        0x73 => "char",
        0x83 => "timestamp",
        0x98 => "uuid",
        0xa0 | 0xb0 => "binary",
        0xa1 | 0xb1 => "string",
        0xa3 | 0xb3 => "symbol",
        0x45 | 0xc0 | 0xd0 => "list",
        0xc1 | 0xd1 => "map",
        0xe0 | 0xf0 => "array",
        0x74 | 0x84 | 0x94 => "decimal",
        0x00 => "described",
        _ => return None,
    })
}

const TYPED: &[(&str, &str, DecFn)] = &[
    ("bool", "bool", dec::<bool>),
    ("u8", "ubyte", dec::<u8>),
    ("u16", "ushort", dec::<u16>),
    ("u32", "uint", dec::<u32>),
    ("u64", "ulong", dec::<u64>),
    ("i8", "byte", dec::<i8>),
    ("i16", "short", dec::<i16>),
    ("i32", "int", dec::<i32>),
    ("i64", "long", dec::<i64>),
    ("f32", "float", dec::<f32>),
    ("f64", "double", dec::<f64>),
    ("char", "char", dec::<char>),
    ("timestamp", "timestamp", dec::<Ts>),
    ("uuid", "uuid", dec::<Uuid>),
    ("binary", "binary", dec::<Bytes>),
    ("ByteStr", "string", dec::<ByteStr>),
    ("Str", "string", dec::<Str>),
    ("Symbol", "symbol", dec::<Symbol>),
    ("List", "list", dec::<List>),
    ("Map", "map", dec::<p::Map>),
    ("Fields", "map", dec::<p::Fields>),
    ("VecVariantMap", "map", dec::<VecVariantMap>),
    ("Vec<u32>", "array", dec::<Vec<u32>>),
    ("Vec<Symbol>", "array", dec::<Vec<Symbol>>),
    ("Multiple<Symbol>", "array", dec::<Multiple<Symbol>>),
    ("Option<u32>", "uint", dec::<Option<u32>>),
    ("Option<Symbol>", "symbol", dec::<Option<Symbol>>),
    ("Option<bool>", "bool", dec::<Option<bool>>),
    ("Option<List>", "list", dec::<Option<List>>),
];

/// a payload under which constructor `c` is a complete legal value
fn payload_for(c: u8, k: u64) -> Vec<u8> {
    match c {
        0x56 => vec![(k & 1) as u8],
        0x73 => vec![0, 0, 0, 0x41 + (k % 20) as u8],
        0xc0 | 0xc1 => vec![1, 0],
        0xd0 | 0xd1 => vec![0, 0, 0, 4, 0, 0, 0, 0],
        0xe0 => vec![2, 0, 0xa3],
        0xf0 => vec![0, 0, 0, 5, 0, 0, 0, 0, 0xa3],
        0x00 => vec![0x53, 0x24, 0x45],
        _ => {
            let w = match c >> 4 {
                4 => 0,
                5 => 1,
                6 => 2,
                7 => 4,
                8 => 8,
                9 => 16,
                0xa | 0xc | 0xe => return vec![2, b'a', b'b'],
                0xb | 0xd | 0xf => return vec![0, 0, 0, 2, b'a', b'b'],
                _ => 16,
            };
            (0..w).map(|i| (i as u8).wrapping_mul(3)).collect()
        }
    }
}

fn c05(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "constructors" => {
            // all 256 constructor bytes against one typed decoder
            let (name, kind, f) = TYPED[i as usize % TYPED.len()];
            for ctor in 0..=255u8 {
                let mut e = vec![ctor];
                e.extend(payload_for(ctor, i));
                let k = ctor_of_kind(ctor);
                let mut want = k == Some(kind);
                if name.starts_with("Option") && ctor == 0x40 {
                    want = true;
                }
                if name.starts_with("Multiple") && k == Some("symbol") {
                    want = true;
                }
                if kind == "array" && k == Some("array") && name == "Vec<u32>" {
                    // empty array announced with another element constructor: not settled
                    continue;
                }
                c.obs(hash_bytes(name.as_bytes()) ^ u64::from(ctor), true, || format!("{} given {}", name, hex(&e)));
                let got = f(&e);
                ensure!(
                    got.is_ok() == want,
                    "{} given {} ({}): {:?}",
                    name,
                    hex(&e),
                    k.unwrap_or("no constructor"),
                    got.map(|x| x.0.show())
                );
                if let Ok((_, left)) = got {
                    ensure!(left == 0, "{} given {}: {} bytes left", name, hex(&e), left);
                }
            }
            Ok(())
        }
        "unknown" => {
            // constructors AMQP 1.0 does not define, at several nesting levels
            let mut g = Gen::new(&mut c.rng);
            for ctor in 0..=255u8 {
                if ctor_of_kind(ctor).is_some() {
                    continue;
                }
                let mut bad = vec![ctor];
                let n = g.rng.below(20);
                bad.extend(g.rng.bytes(n));
                let e = match g.rng.below(4) {
                    0 => bad,
                    1 => {
                        let mut v = vec![0xd0];
                        put_be(&mut v, bad.len() as u64 + 4, 4);
                        put_be(&mut v, 1, 4);
                        v.extend(bad);
                        v
                    }
                    2 => {
                        let mut v = vec![0xc1, bad.len() as u8 + 2, 2, 0x43];
                        v.extend(bad);
                        v
                    }
                    _ => {
                        let mut v = vec![0x00, 0x53, 7];
                        v.extend(bad);
                        v
                    }
                };
                c_obs_unknown(&mut c.evals);
                if let Ok((r, _)) = dec::<Variant>(&e) {
                    return Err(format!("undefined constructor {:#04x} in {} accepted as {}", ctor, hex(&e), r.show()));
                }
            }
            Ok(())
        }
        _ => {
            let cases: Vec<(R, Option<R>)> = if is_container_stream(s) {
                container_case(c, s, i)
            } else {
                scalar_case(c, s, i).into_iter().map(|r| (r, None)).collect()
            };
            let n = if is_container_stream(s) { 4 } else { 1 };
            for (r, e) in cases {
                let ec = e.as_ref().map(|x| if x.is_container() { 0xd1 } else { ctors(x)[0] }).unwrap_or(0xa3);
                if let R::Array(v) = &r {
                    if v.is_empty() && e.is_none() {
                        continue;
                    }
                }
                for b in legal_forms(c, &r, n, ec) {
                    accept(c, &r, e.as_ref(), &b)?;
                }
            }
            Ok(())
        }
    }
}

fn c_obs_unknown(n: &mut u64) {
    *n += 1;
}

fn c05_streams(t: Tier) -> Vec<Stream> {
    let mut v = vec![st("constructors", TYPED.len() as u64), st("unknown", t.k(200, 4000))];
    v.extend(both_streams(t));
    v
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "one evaluation = one legal encoding (chosen among all forms AMQP 1.0 permits) given to one typed or dynamic \
           decoder, or one constructor byte given to one typed decoder; distinct = distinct (decoder, bytes)",
    streams: c05_streams,
    run: c05,
};
