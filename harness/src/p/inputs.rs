//! Inputs for the decoding entry points: legal encodings of what an entry decodes, and corrupted,
//! tampered, random and deeply nested ones.

use crate::gen::Gen;
use crate::msg::*;
use crate::rng::Rng;
use crate::rval::*;
use crate::spec::*;

pub const LOOSE: EncOpt = EncOpt { sym: true, extra: true, omit: true };

fn shift(ms: &mut [Mark], by: usize) {
    for m in ms {
        m.size_pos += by;
        m.body += by;
        m.end += by;
    }
}

fn one(rng: &mut Rng, f: impl FnOnce(&mut Enc)) -> (Vec<u8>, Vec<Mark>) {
    let mut e = Enc::new(Form::Rand(rng));
    f(&mut e);
    (e.out, e.marks)
}

pub fn comp_named(n: &str) -> Option<&'static Comp> {
    ALL.iter().find(|c| c.name == n).cloned()
}

fn elem(g: &mut Gen, ty: &str) -> R {
    match ty {
        "bool" => R::Bool(g.rng.bool()),
        "u8" => R::U8(g.uint(8) as u8),
        "u16" => R::U16(g.uint(16) as u16),
        "u32" => R::U32(g.uint(32) as u32),
        "u64" => R::U64(g.uint(64)),
        "i8" => R::I8(g.int(8) as i8),
        "i16" => R::I16(g.int(16) as i16),
        "i32" => R::I32(g.int(32) as i32),
        "i64" => R::I64(g.int(64)),
        "f32" => R::F32(g.f32bits()),
        "f64" => R::F64(g.f64bits()),
        "char" => R::Char(g.ch()),
        "Ts" => R::Ts(g.ts()),
        "Uuid" => R::Uuid(g.uuid()),
        "Bytes" => R::Bin(g.bin()),
        "ByteStr" | "Str" => R::Str(g.text()),
        "Symbol" => R::Sym(g.symbol()),
        "Variant" => g.value(4),
        "List" => g.list(3),
        "p::Map" => g.map(3),
        "p::Fields" => g.sym_map(),
        "p::StringVariantMap" | "VecVariantMap" => g.str_map(),
        "p::FilterSet" => gen_ty(&Ty::Filter, g),
        "Multiple<Symbol>" => gen_ty(&Ty::MultiSym, g),
        "HashMap<u32, Uuid>" => small_map(g, "u32", "Uuid"),
        "HashMap<Symbol, Multiple<Symbol>>" => small_map(g, "Symbol", "Multiple<Symbol>"),
        "HashMap<Bytes, List>" => small_map(g, "Bytes", "List"),
        "Descriptor" => {
            let d = g.described(1);
            match d {
                R::Desc(d, _) => *d,
                _ => unreachable!(),
            }
        }
        "p::MessageId" => gen_ty(&Ty::MsgId, g),
        "p::ErrorCondition" => gen_ty(&Ty::ErrCond, g),
        "p::DistributionMode" => gen_ty(&Ty::DistMode, g),
        _ => {
            for e in ENUMS.iter() {
                if ty.starts_with("p::") && &ty[3..] == e.name {
                    return g.rng.pick(e.vals).r();
                }
            }
            panic!("no generator for {}", ty)
        }
    }
}

fn small_map(g: &mut Gen, k: &str, v: &str) -> R {
    let n = g.rng.below(6);
    let mut m: Vec<(R, R)> = Vec::new();
    for _ in 0..n {
        let key = elem(g, k);
        if !m.iter().any(|x| x.0 == key) {
            let x = elem(g, v);
            m.push((key, x));
        }
    }
    R::Map(m).canon()
}

fn strip<'a>(n: &'a str, pre: &str) -> Option<&'a str> {
    if n.starts_with(pre) && n.ends_with('>') {
        Some(&n[pre.len()..n.len() - 1])
    } else {
        None
    }
}

/// a legal encoding of something the entry decodes, with the places of its size fields
pub fn legal(name: &str, rng: &mut Rng, budget: usize) -> (Vec<u8>, Vec<Mark>) {
    let o = if rng.chance(1, 3) { LOOSE } else { FREE };
    legal_with(name, rng, budget, o)
}

pub fn legal_with(name: &str, rng: &mut Rng, budget: usize, o: EncOpt) -> (Vec<u8>, Vec<Mark>) {
    if name.starts_with("p::") {
        if let Some(c) = comp_named(&name[3..]) {
            let r = gen_comp(c, &mut Gen::with_budget(rng, budget));
            let tail = if c.code == 0x14 && rng.bool() { rng.range(1, 40) } else { 0 };
            let pay = rng.bytes(tail);
            let (mut b, m) = one(rng, |e| enc_comp(e, c, &r, o));
            b.extend_from_slice(&pay);
            return (b, m);
        }
    }
    let union: Option<&[&'static Comp]> = match name {
        "p::DeliveryState" => Some(STATES),
        "p::Outcome" => Some(OUTCOMES),
        "p::SaslFrameBody" | "SaslFrame" | "AmqpCodec<SaslFrame>" => Some(SASL_BODIES),
        "p::Frame" | "AmqpFrame" | "AmqpCodec<AmqpFrame>" => Some(PERFORMATIVES),
        _ => None,
    };
    if let Some(cs) = union {
        let frames = if name.starts_with("AmqpCodec") { rng.range(1, 4) } else { 1 };
        let mut out = Vec::new();
        let mut marks = Vec::new();
        for _ in 0..frames {
            let c = if cs.len() > 6 && rng.chance(1, 4) { &TRANSFER } else { *rng.pick(cs) };
            let r = gen_comp(c, &mut Gen::with_budget(rng, budget / frames));
            let (mut b, mut m) = one(rng, |e| enc_comp(e, c, &r, o));
            if c.code == 0x14 && rng.bool() {
                let n = rng.range(1, 40);
                b.extend_from_slice(&rng.bytes(n));
            }
            let ty = match name {
                "SaslFrame" | "AmqpCodec<SaslFrame>" => 1,
                "AmqpFrame" | "AmqpCodec<AmqpFrame>" => 0,
                _ => 2,
            };
            let at = out.len();
            if ty == 2 {
                out.extend_from_slice(&b);
                shift(&mut m, at);
            } else {
                let ext = if rng.chance(1, 6) { rng.range(1, 4) * 4 } else { 0 };
                let w = wrap_frame(ty, rng.u64() as u16, &rng.bytes(ext), &b);
                let cut = if frames == 1 && !name.starts_with("AmqpCodec") { 4 } else { 0 };
                out.extend_from_slice(&w[cut..]);
                shift(&mut m, at + 8 + ext - cut);
            }
            marks.extend(m);
        }
        return (out, marks);
    }
    match name {
        "p::Section" => {
            let mut m = gen_msg(&mut Gen::with_budget(rng, budget));
            if m.is_empty() {
                m.data.push(vec![1, 2, 3]);
            }
            let secs = m.sections();
            let s = rng.pick(&secs).clone();
            return one(rng, |e| enc_section(e, &s, o));
        }
        "InMessage" | "OutMessage" => {
            let mut m = gen_msg(&mut Gen::with_budget(rng, budget));
            if m.is_empty() {
                m.value = Some(R::str("v"));
            }
            let secs = m.sections();
            return one(rng, |e| {
                for s in &secs {
                    enc_section(e, s, o)
                }
            });
        }
        "ProtocolIdCodec" => {
            let mut b = b"AMQP\0\x01\0\0".to_vec();
            b[4] = *rng.pick(&[0, 2, 3]);
            return (b, vec![]);
        }
        _ => {}
    }
    if let Some(t) = strip(name, "Option<") {
        if rng.chance(1, 6) {
            return (vec![0x40], vec![]);
        }
        return legal_with(t, rng, budget, o);
    }
    if let Some(t) = strip(name, "Vec<") {
        if t == "Vec<u32>" || t == "Option<u32>" || t == "Variant" {
            let n = rng.below(6);
            let mut e = Enc::new(Form::Rand(rng));
            let body = e.scratch(|e| {
                if t == "Vec<u32>" {
                    e.out.push(0xe0);
                    for k in 0..n {
                        let inner = e.scratch(|e| {
                            e.out.push(0x52);
                            for x in 0..k {
                                e.out.push(x as u8)
                            }
                        });
                        e.compound(false, k, inner, CKind::Array);
                    }
                } else {
                    e.out.push(0x70);
                    for _ in 0..n {
                        e.out.extend_from_slice(&[0, 0, 1, 2]);
                    }
                }
            });
            let wide = n % 2 == 0;
            e.out.push(if wide { 0xf0 } else { 0xe0 });
            e.compound(wide, n, body, CKind::Array);
            return (e.out, e.marks);
        }
        let n = rng.below(8);
        let v: Vec<R> = {
            let mut g = Gen::with_budget(rng, budget);
            (0..n).map(|_| elem(&mut g, t)).collect()
        };
        let first = elem(&mut Gen::with_budget(rng, 100), t);
        let mut e = Enc::new(Form::Rand(rng));
        e.empty_ctor = *ctors(&first).last().unwrap();
        e.value(&R::Array(v));
        return (e.out, e.marks);
    }
    let r = elem(&mut Gen::with_budget(rng, budget), name);
    match (name, &r) {
        ("Multiple<Symbol>", R::Array(v)) if v.len() == 1 && rng.bool() => {
            let x = v[0].clone();
            one(rng, |e| e.value(&x))
        }
        _ => one(rng, |e| e.value(&r)),
    }
}

// ------------------------------------------------------------ corruption

static BYTES: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x10, 0x14, 0x24, 0x28, 0x35, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51,
    0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x77, 0x78, 0x7f, 0x80, 0x81, 0x82,
    0x83, 0x84, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0xfe, 0xff,
];

pub fn any_byte(rng: &mut Rng) -> u8 {
    if rng.bool() {
        *rng.pick(BYTES)
    } else {
        rng.u64() as u8
    }
}

pub fn mutate(b: &mut Vec<u8>, rng: &mut Rng) {
    let n = rng.range(1, 4);
    for _ in 0..n {
        let len = b.len();
        if len == 0 {
            b.push(any_byte(rng));
            continue;
        }
        let i = rng.below(len);
        match rng.below(9) {
            0 => b[i] ^= 1 << rng.below(8),
            1 | 2 => b[i] = any_byte(rng),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, any_byte(rng)),
            5 => b.truncate(i),
            6 => {
                let j = rng.range(i, len);
                let s = b[i..j].to_vec();
                let at = rng.range(0, len);
                let t = b.split_off(at);
                b.extend_from_slice(&s);
                b.extend_from_slice(&t);
            }
            7 => {
                let w = *rng.pick(&[2usize, 4, 8]);
                let v = wild(rng, len as u64);
                for k in 0..w {
                    if i + k < len {
                        b[i + k] = (v >> (8 * (w - 1 - k))) as u8;
                    }
                }
            }
            _ => {
                let j = rng.below(len);
                b.swap(i, j);
            }
        }
    }
}

/// a size or count that is likely to be wrong in an interesting way
pub fn wild(rng: &mut Rng, old: u64) -> u64 {
    match rng.below(10) {
        0 => rng.below(6) as u64,
        1 => old.wrapping_add(rng.range(1, 3) as u64),
        2 => old.wrapping_sub(rng.range(1, 5) as u64),
        3 => *rng.pick(&[0x7f, 0x80, 0xfe, 0xff, 0x100]),
        4 => *rng.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0xffff_fffc, 0xffff_fffb]),
        5 => *rng.pick(&[0xffff, 0x1_0000, 0x10_0000, 0xff_ffff, 0x100_0000]),
        6 => old * 2,
        7 => old / 2,
        8 => rng.below(40) as u64,
        _ => u64::from(rng.u64() as u32),
    }
}

pub fn get_be(b: &[u8], at: usize, w: usize) -> u64 {
    b[at..at + w].iter().fold(0, |a, x| (a << 8) | u64::from(*x))
}

pub fn set_be(b: &mut [u8], at: usize, w: usize, v: u64) {
    for k in 0..w {
        b[at + k] = (v >> (8 * (w - 1 - k))) as u8;
    }
}

/// falsify one size or count field; the marks stay those of the untouched bytes
pub fn tamper(b: &mut Vec<u8>, marks: &[Mark], rng: &mut Rng) -> &'static str {
    if marks.is_empty() {
        mutate(b, rng);
        return "bytes";
    }
    let comp: Vec<&Mark> = marks.iter().filter(|m| m.kind != CKind::Blob).collect();
    let m = if !comp.is_empty() && rng.chance(4, 5) { **rng.pick(&comp) } else { *rng.pick(marks) };
    if m.kind == CKind::Blob || rng.bool() {
        let old = get_be(b, m.size_pos, m.width);
        let v = match rng.below(5) {
            // up to the end of an enclosing or following thing, and thereabouts
            0 => {
                let o = rng.pick(marks);
                if o.end > m.size_pos + m.width {
                    (o.end - m.size_pos - m.width) as u64
                } else {
                    wild(rng, old)
                }
            }
            1 => {
                let o = rng.pick(marks);
                if o.end > m.size_pos + m.width {
                    ((o.end - m.size_pos - m.width) as u64).wrapping_add(rng.below(3) as u64).wrapping_sub(1)
                } else {
                    wild(rng, old)
                }
            }
            2 => (b.len() - m.size_pos - m.width) as u64,
            _ => wild(rng, old),
        };
        set_be(b, m.size_pos, m.width, v);
        "size"
    } else {
        let at = m.size_pos + m.width;
        let old = get_be(b, at, m.width);
        let v = wild(rng, old);
        set_be(b, at, m.width, v);
        "count"
    }
}

/// random bytes that parse further than noise: constructors with plausible payloads
pub fn grammar(rng: &mut Rng, out: &mut Vec<u8>, depth: usize) {
    let c = *rng.pick(&[
        0x00u8, 0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71,
        0x72, 0x73, 0x74, 0x80, 0x81, 0x82, 0x83, 0x84, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0,
        0xd1, 0xe0, 0xf0, 0xc0, 0xc1, 0xd0, 0xd1,
    ]);
    out.push(c);
    match c {
        0 => {
            if rng.chance(3, 4) {
                out.push(0x53);
                out.push(*rng.pick(&[
                    0x10u8, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x1d, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29,
                    0x40, 0x41, 0x42, 0x43, 0x44, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78,
                ]));
                out.push(*rng.pick(&[0xc0u8, 0xd0, 0x45]));
                let c = *out.last().unwrap();
                body(rng, out, c, depth);
            } else if depth > 0 {
                grammar(rng, out, depth - 1);
                grammar(rng, out, depth - 1);
            }
        }
        _ => body(rng, out, c, depth),
    }
}

fn body(rng: &mut Rng, out: &mut Vec<u8>, c: u8, depth: usize) {
    match c {
        0x50..=0x56 => out.push(rng.u64() as u8),
        0x60 | 0x61 => out.extend_from_slice(&rng.bytes(2)),
        0x70..=0x74 => out.extend_from_slice(&rng.bytes(4)),
        0x80..=0x84 => out.extend_from_slice(&rng.bytes(8)),
        0x94 | 0x98 => out.extend_from_slice(&rng.bytes(16)),
        0xa0..=0xaf => {
            let n = rng.below(12);
            let d = if rng.chance(1, 10) { rng.below(256) } else { n };
            out.push(d as u8);
            let b = if rng.chance(1, 5) { rng.bytes(n) } else { vec![b'a'; n] };
            out.extend_from_slice(&b);
        }
        0xb0..=0xbf => {
            let n = rng.below(12);
            let d = if rng.chance(1, 10) { wild(rng, n as u64) } else { n as u64 };
            put_be(out, d, 4);
            let b = if rng.chance(1, 5) { rng.bytes(n) } else { vec![b'a'; n] };
            out.extend_from_slice(&b);
        }
        0xc0..=0xff => {
            let w = if c == 0xc0 || c == 0xc1 || c == 0xe0 { 1 } else { 4 };
            let n = rng.below(5);
            let mut inner = Vec::new();
            if c >= 0xe0 {
                let ec = any_byte(rng);
                inner.push(ec);
                for _ in 0..n {
                    body(rng, &mut inner, ec, 0);
                }
            } else if depth > 0 {
                for _ in 0..n {
                    grammar(rng, &mut inner, depth - 1);
                }
            }
            let size = (inner.len() + w) as u64;
            let size = if rng.chance(1, 6) { wild(rng, size) } else { size };
            let count = if rng.chance(1, 6) { wild(rng, n as u64) } else { n as u64 };
            put_be(out, size, w);
            put_be(out, count, w);
            out.extend_from_slice(&inner);
        }
        _ => {}
    }
}

// ------------------------------------------------------------ nesting

pub const NESTS: usize = 9;

/// `depth` levels around a leaf; every size field is right (unless `lie`, which claims huge counts)
pub fn nest(style: usize, depth: usize, lie: bool, rng: &mut Rng) -> Vec<u8> {
    // every level: bytes before the size field, whether wide, count, bytes before and after the inner value
    struct L {
        pre: &'static [u8],
        count: u32,
        before: &'static [u8],
        after: &'static [u8],
        sized: bool,
    }
    let level = |s: usize| -> L {
        match s {
            0 => L { pre: &[0xd0], count: 1, before: &[], after: &[], sized: true },
            1 => L { pre: &[0xd1], count: 2, before: &[0xa1, 1, b'k'], after: &[], sized: true },
            2 => L { pre: &[0xd1], count: 2, before: &[], after: &[0x40], sized: true },
            3 => L { pre: &[0x00, 0x53, 0x01], count: 0, before: &[], after: &[], sized: false },
            4 => L { pre: &[0x00, 0xa3, 1, b'd'], count: 0, before: &[], after: &[], sized: false },
            5 => L { pre: &[0xd0], count: 3, before: &[0x41], after: &[0xa0, 1, 7], sized: true },
            6 => L { pre: &[0x00, 0x53, 0x77, 0xd0], count: 1, before: &[], after: &[], sized: true },
            _ => L { pre: &[0x00], count: 0, before: &[], after: &[], sized: false },
        }
    };
    let styles: Vec<usize> = (0..depth)
        .map(|_| if style == 7 { rng.below(7) } else if style == 8 { 7 } else { style })
        .collect();
    // lengths from the inside out
    let mut len = 1usize;
    let mut lens = Vec::with_capacity(depth);
    for s in styles.iter().rev() {
        lens.push(len);
        let l = level(*s);
        len += l.pre.len() + l.before.len() + l.after.len() + if l.sized { 8 } else { 0 };
    }
    lens.reverse();
    let mut out = Vec::with_capacity(len);
    for (s, inner) in styles.iter().zip(&lens) {
        let l = level(*s);
        out.extend_from_slice(l.pre);
        if l.sized {
            put_be(&mut out, (4 + l.before.len() + inner + l.after.len()) as u64, 4);
            put_be(&mut out, if lie { 0xffff_ffff } else { u64::from(l.count) }, 4);
        }
        out.extend_from_slice(l.before);
    }
    out.push(0x41);
    for s in styles.iter().rev() {
        out.extend_from_slice(level(*s).after);
    }
    out
}

fn sized32(pre: &[u8], count: u64, body: &[&[u8]]) -> Vec<u8> {
    let n: usize = body.iter().map(|b| b.len()).sum();
    let mut v = pre.to_vec();
    put_be(&mut v, (4 + n) as u64, 4);
    put_be(&mut v, count, 4);
    for b in body {
        v.extend_from_slice(b);
    }
    v
}

/// places a dynamic value can occur at; the entries able to decode the result
pub const WRAPS: usize = 14;
pub fn wrap(kind: usize, inner: &[u8]) -> (&'static str, Vec<u8>) {
    let key: &[u8] = &[0xa3, 1, b'k'];
    let skey: &[u8] = &[0xa1, 1, b'k'];
    let map = sized32(&[0xd1], 2, &[key, inner]);
    let smap = sized32(&[0xd1], 2, &[skey, inner]);
    match kind {
        0 => ("Variant", inner.to_vec()),
        1 => ("List", sized32(&[0xd0], 1, &[inner])),
        2 => ("p::Map", smap),
        3 => ("p::Map", sized32(&[0xd1], 2, &[inner, &[0x40]])),
        4 => ("p::Fields", map),
        5 => ("VecVariantMap", smap),
        6 => ("p::Error", sized32(&[0, 0x53, 0x1d, 0xd0], 3, &[&[0xa3, 1, b'e'], &[0x40], &map])),
        7 => {
            let v = sized32(
                &[0, 0x53, 0x10, 0xd0],
                10,
                &[skey, &[0x40], &[0x40], &[0x40], &[0x40], &[0x40], &[0x40], &[0x40], &[0x40], &map],
            );
            ("p::Open", v)
        }
        8 => ("p::Section", [&[0, 0x53, 0x77], inner].concat()),
        9 => ("InMessage", [&[0, 0x53, 0x72], &map[..]].concat()),
        10 => ("OutMessage", [&[0, 0x53, 0x74], &smap[..], &[0, 0x53, 0x77, 0x41]].concat()),
        11 => ("InMessage", [&[0, 0x53, 0x76], &sized32(&[0xd0], 1, &[inner])[..]].concat()),
        12 => {
            // detach{handle, closed, error{condition, null, info}}
            let err = sized32(&[0, 0x53, 0x1d, 0xd0], 3, &[&[0xa3, 1, b'e'], &[0x40], &map]);
            let d = sized32(&[0, 0x53, 0x16, 0xd0], 3, &[&[0x43], &[0x41], &err]);
            ("AmqpFrame", wrap_frame(0, 1, &[], &d)[4..].to_vec())
        }
        _ => {
            let err = sized32(&[0, 0x53, 0x1d, 0xd0], 3, &[&[0xa3, 1, b'e'], &[0x40], &map]);
            let d = sized32(&[0, 0x53, 0x18, 0xd0], 1, &[&err]);
            ("AmqpCodec<AmqpFrame>", wrap_frame(0, 0, &[], &d))
        }
    }
}

/// arrays of elements that take no bytes may legally claim any count: not a size to wait for
pub fn zero_width_bomb(name: &str, b: &[u8]) -> bool {
    if !name.starts_with("Vec<") {
        return false;
    }
    b.windows(5).any(|w| (w[0] != 0 || w[1] != 0) && w[4] >= 0x40 && w[4] <= 0x45)
}
