//! C08, C09, C10, C23, C24: arbitrary, corrupted, truncated and extended input.

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, InMessage, OutMessage, SaslFrame};
use bytes::BytesMut;
use tokio_io::codec::Decoder;

use super::inputs::*;
use super::values;
use crate::alloc;
use crate::ctx::*;
use crate::entries::{self, Entry, Kind};
use crate::msg::*;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::rval::*;
use crate::spec::*;

thread_local!(static ENTRIES: Vec<Entry> = entries::all());

/// f over every entry
fn each<F: FnMut(&Entry) -> Res>(mut f: F) -> Res {
    ENTRIES.with(|v| {
        for e in v {
            f(e)?;
        }
        Ok(())
    })
}

fn nth<T>(i: u64, f: impl FnOnce(&Entry) -> T) -> T {
    ENTRIES.with(|v| f(&v[i as usize % v.len()]))
}

fn count_entries() -> u64 {
    ENTRIES.with(|v| v.len() as u64)
}

fn key(e: &Entry, b: &[u8]) -> u64 {
    mix(hash_bytes(b) ^ hash_str(e.name))
}

/// a corrupted input for the entry
pub fn corrupt(name: &str, rng: &mut Rng, budget: usize) -> (Vec<u8>, &'static str) {
    let (mut b, m) = legal(name, rng, budget);
    let mut what = "legal";
    match rng.below(8) {
        0 | 1 => {
            mutate(&mut b, rng);
            what = "mutated";
        }
        2 | 3 | 4 => {
            what = tamper(&mut b, &m, rng);
            if rng.chance(1, 4) {
                tamper(&mut b, &m, rng);
            }
            if rng.chance(1, 4) {
                let n = rng.range(1, 60);
                let x = rng.bytes(n);
                b.extend_from_slice(&x);
            }
        }
        5 => {
            tamper(&mut b, &m, rng);
            mutate(&mut b, rng);
            what = "both";
        }
        6 => {
            let n = rng.range(0, b.len());
            b.truncate(n);
            what = "truncated";
        }
        _ => {
            let n = rng.range(1, 300);
            if rng.bool() {
                b = rng.bytes(n);
                what = "noise";
            } else {
                b.clear();
                if name == "AmqpFrame" || name == "SaslFrame" {
                    b.extend_from_slice(&[2, (name == "SaslFrame") as u8, 0, 0]);
                }
                for _ in 0..rng.range(1, 4) {
                    grammar(rng, &mut b, 4);
                }
                if name.starts_with("AmqpCodec") {
                    b = wrap_frame((name == "AmqpCodec<SaslFrame>") as u8, 0, &[], &b);
                }
                what = "grammar";
            }
        }
    }
    (b, what)
}

// ------------------------------------------------------------ C08

fn feed<T: Decode + amqp_codec::Encode>(b: &[u8], rng: &mut Rng) -> Res {
    let mut c = AmqpCodec::<T>::new();
    let mut buf = BytesMut::new();
    let mut pos = 0;
    let mut calls = 0usize;
    while pos < b.len() {
        let n = match rng.below(4) {
            0 => 1,
            1 => rng.range(1, 9),
            _ => rng.range(1, b.len()),
        }
        .min(b.len() - pos);
        buf.extend_from_slice(&b[pos..pos + n]);
        pos += n;
        loop {
            let before = buf.len();
            calls += 1;
            ensure!(calls < 10 * b.len() + 100, "the codec does not come to rest on {}", hex(b));
            match c.decode(&mut buf) {
                Ok(None) => break,
                Ok(Some(_)) => ensure!(buf.len() < before, "a frame delivered without consuming anything: {}", hex(b)),
                Err(_) => {
                    if buf.len() == before {
                        break;
                    }
                }
            }
        }
    }
    let _ = c.decode_eof(&mut buf);
    Ok(())
}

fn c08(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        // every input of at most two bytes
        "tiny" => {
            let mut b = [i as u8, 0];
            each(|e| {
                let mut acc = 0u64;
                if i == 0 {
                    (e.run)(&[]);
                }
                (e.run)(&b[..1]);
                for x in 0..256usize {
                    b[1] = x as u8;
                    if (e.run)(&b) {
                        acc += 1;
                    }
                }
                c.count("accepted", acc);
                c.evals += 257;
                c.obs(key(e, &b[..1]), true, || format!("{}: every input {:02x} ??", e.name, i));
                Ok(())
            })
        }
        // three bytes: a constructor, a size, a count
        "short" => {
            let ctor = (i / 8) as u8;
            let mut rng = c.rng.clone();
            each(|e| {
                for _ in 0..12 {
                    let n = rng.range(3, 12);
                    let mut b: Vec<u8> = (0..n).map(|_| any_byte(&mut rng)).collect();
                    b[0] = ctor;
                    if zero_width_bomb(e.name, &b) {
                        continue;
                    }
                    let ok = (e.run)(&b);
                    c.count(if ok { "accepted" } else { "refused" }, 1);
                    c.obs(key(e, &b), true, || format!("{}: {}", e.name, hex(&b)));
                }
                Ok(())
            })
        }
        "corrupt" => nth(i, |e| {
            let mut rng = c.rng.clone();
            for _ in 0..8 {
                let budget = if rng.chance(1, 10) { 3000 } else { 200 };
                let (b, what) = corrupt(e.name, &mut rng, budget);
                if zero_width_bomb(e.name, &b) {
                    continue;
                }
                let ok = (e.run)(&b);
                c.count(what, 1);
                c.count(if ok { "accepted" } else { "refused" }, 1);
                c.obs(key(e, &b), true, || format!("{} ({}): {}", e.name, what, hex(&b)));
            }
            Ok(())
        }),
        // the same bytes given to every entry
        "cross" => {
            let mut rng = c.rng.clone();
            let (b, what) = nth(rng.u64(), |e| corrupt(e.name, &mut rng, 300));
            each(|e| {
                if zero_width_bomb(e.name, &b) {
                    return Ok(());
                }
                let ok = (e.run)(&b);
                c.count(if ok { "accepted" } else { "refused" }, 1);
                c.obs(key(e, &b), true, || format!("{} ({}): {}", e.name, what, hex(&b)));
                Ok(())
            })
        }
        "segmented" => {
            let mut rng = c.rng.clone();
            let sasl = rng.bool();
            let name = if sasl { "AmqpCodec<SaslFrame>" } else { "AmqpCodec<AmqpFrame>" };
            let mut b = Vec::new();
            for _ in 0..rng.range(1, 4) {
                let (x, _) = corrupt(name, &mut rng, 300);
                b.extend_from_slice(&x);
            }
            if rng.chance(1, 4) && b.len() > 4 {
                let v = wild(&mut rng, 20);
                set_be(&mut b, 0, 4, v);
            }
            c.obs(mix(hash_bytes(&b) ^ 77), true, || format!("{} in pieces: {}", name, hex(&b)));
            if sasl {
                feed::<SaslFrame>(&b, &mut rng)
            } else {
                feed::<AmqpFrame>(&b, &mut rng)
            }
        }
        // every place that holds a size gets every boundary value
        "sizes" => nth(i, |e| {
            let mut rng = c.rng.clone();
            let (b, m) = legal(e.name, &mut rng, 60);
            for m in m.iter().take(12) {
                let w = m.width;
                let fields = if m.kind == CKind::Blob { 1 } else { 2 };
                for f in 0..fields {
                    let at = m.size_pos + f * w;
                    let old = get_be(&b, at, w);
                    let mut vals: Vec<u64> = (0..10).collect();
                    for d in 0..8u64 {
                        vals.push(old.wrapping_add(d).wrapping_sub(4));
                        vals.push(0xffff_ffff - d);
                        vals.push(0x7fff_ffff + d);
                        vals.push(0xff - d);
                    }
                    for v in vals {
                        let mut x = b.clone();
                        set_be(&mut x, at, w, v);
                        if zero_width_bomb(e.name, &x) {
                            continue;
                        }
                        let ok = (e.run)(&x);
                        c.count(if ok { "accepted" } else { "refused" }, 1);
                        c.obs(key(e, &x), true, || format!("{}: {} at {} of {}", e.name, v, at, hex(&x)));
                    }
                }
            }
            Ok(())
        }),
        "nests" => {
            let mut rng = c.rng.clone();
            let (style, kind) = ((i as usize) % NESTS, (i as usize / NESTS) % WRAPS);
            let depth = *rng.pick(&[1usize, 5, 40, 100, 127, 128, 129, 130, 200, 1000, 5000, 20_000, 200_000]);
            let n = nest(style, depth, false, &mut rng);
            let (name, b) = wrap(kind, &n);
            let e = entries::by_name(name);
            let ok = (e.run)(&b);
            c.count(if ok { "nests_accepted" } else { "nests_refused" }, 1);
            c.max("nesting", depth as u64);
            c.obs(mix(key(&e, &b[..b.len().min(4000)]) ^ b.len() as u64), true, || {
                format!("{} nested {} deep (style {}), {} bytes", name, depth, style, b.len())
            });
            // a truncated nest
            let cut = rng.below(b.len());
            (e.run)(&b[..cut]);
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub const C08: Prop = Prop {
    id: "C08",
    rule: "one evaluation = one input given to one decoding entry point, which returned a value or an error; \
           distinct = distinct (entry, input)",
    streams: |t| {
        vec![
            st("tiny", 256),
            st("short", t.k(256, 2048 * 4)),
            st("sizes", t.k(count_entries() * 2, count_entries() * 60)),
            st("nests", t.k((NESTS * WRAPS) as u64, (NESTS * WRAPS * 12) as u64)),
            st("corrupt", t.k(40_000, 1_500_000)),
            st("cross", t.k(600, 30_000)),
            st("segmented", t.k(8_000, 300_000)),
        ]
    },
    run: c08,
};

// ------------------------------------------------------------ C09

const PER_BYTE: usize = 4096;
const FLOOR: usize = 16 << 20;

/// composites, frames, messages and dynamic values: what the memory bound is stated for
fn bounded(e: &Entry) -> bool {
    e.kind != Kind::Value
        || match e.name {
            "Variant" | "List" | "VecVariantMap" | "p::Map" | "p::Fields" | "p::StringVariantMap" | "p::FilterSet"
            | "Option<Variant>" | "Option<p::Source>" => true,
            _ => false,
        }
}

fn measured(c: &mut Ctx, e: &Entry, b: &[u8], what: &str) -> Result<bool, String> {
    let limit = PER_BYTE * b.len() + FLOOR;
    let base = alloc::arm(limit);
    let ok = (e.run)(b);
    let peak = alloc::disarm(base);
    ensure!(
        peak <= limit,
        "{} ({}): decoding {} bytes took {} bytes of memory: {}",
        e.name,
        what,
        b.len(),
        peak,
        hex(b)
    );
    c.max("peak_bytes", peak as u64);
    if b.len() >= 64 {
        c.max("peak_per_input_byte", (peak / b.len()) as u64);
    }
    c.count(if ok { "accepted" } else { "refused" }, 1);
    Ok(ok)
}

fn bounded_entry(i: u64, f: impl FnOnce(&Entry) -> Res) -> Res {
    ENTRIES.with(|v| {
        let n = v.iter().filter(|e| bounded(e)).count() as u64;
        f(v.iter().filter(|e| bounded(e)).nth((i % n) as usize).unwrap())
    })
}

/// containers claiming huge counts with little behind them
fn claims(rng: &mut Rng) -> (Vec<u8>, &'static str) {
    let count = *rng.pick(&[0xffff_ffffu64, 0x7fff_ffff, 0x0fff_ffff, 0x00ff_ffff, 0x000f_ffff, 0xffff, 0x4000, 300]);
    let n = rng.range(0, 40);
    let filler: Vec<u8> = match rng.below(3) {
        0 => vec![0x40; n],
        1 => vec![0x45; n],
        _ => vec![0x41; n],
    };
    let mk = |c: u8, inner: &[u8]| {
        let mut v = vec![c];
        put_be(&mut v, (4 + inner.len()) as u64, 4);
        put_be(&mut v, count, 4);
        v.extend_from_slice(inner);
        v
    };
    match rng.below(4) {
        0 => (mk(0xd0, &filler), "list"),
        1 => (mk(0xd1, &filler), "map"),
        2 => {
            // binary claiming a lot
            let mut v = vec![*rng.pick(&[0xb0u8, 0xb1, 0xb3])];
            put_be(&mut v, count, 4);
            v.extend_from_slice(&filler);
            (v, "blob")
        }
        _ => {
            let d = rng.range(1, 120);
            let st = rng.below(3);
            (nest(if st == 2 { 5 } else { st }, d, true, rng), "nest")
        }
    }
}

/// composites whose fields claim a lot: the first fields are legal, one is replaced
fn comp_claim(rng: &mut Rng) -> (String, Vec<u8>) {
    let comp = *rng.pick(ALL);
    let r = {
        let mut g = crate::gen::Gen::with_budget(rng, 100);
        gen_comp(comp, &mut g)
    };
    let k = rng.below(comp.fields.len().max(1));
    let (claim, _) = claims(rng);
    let body = {
        let mut e = Enc::new(Form::Rand(rng));
        for (i, f) in comp.fields.iter().enumerate() {
            if i == k {
                e.out.extend_from_slice(&claim);
                break;
            }
            let x = &comp_fields(&r)[i];
            if *x == R::Null {
                e.out.push(0x40);
            } else {
                enc_ty(&mut e, &f.1, x, FREE);
            }
        }
        e.out
    };
    let mut b = vec![0, 0x53, comp.code as u8, 0xd0];
    put_be(&mut b, (4 + body.len()) as u64, 4);
    put_be(&mut b, if rng.bool() { 0xffff_ffff } else { comp.fields.len() as u64 }, 4);
    b.extend_from_slice(&body);
    (format!("p::{}", comp.name), b)
}

/// well-formed inputs of several kinds with the value each decodes to
fn probes() -> Vec<(&'static str, Vec<u8>)> {
    let mut rng = Rng::new(&[0x9057]);
    let mut v: Vec<(&'static str, Vec<u8>)> = Vec::new();
    for n in &["Variant", "List", "p::Open", "p::Attach", "InMessage", "AmqpFrame", "SaslFrame", "AmqpCodec<AmqpFrame>"] {
        v.push((n, legal(n, &mut rng, 200).0));
    }
    // the deepest supported nesting
    for style in &[0usize, 1, 2, 3, 7] {
        let x = nest(*style, 64, false, &mut rng);
        for k in &[0usize, 1, 4, 6, 8, 9, 12, 13] {
            v.push(wrap(*k, &x));
        }
    }
    v
}

fn run_probes() -> Result<Vec<R>, String> {
    probes()
        .iter()
        .map(|(n, b)| {
            let e = entries::by_name(n);
            match (e.dec)(b) {
                Ok((r, left)) if left == 0 => Ok(r),
                Ok((r, left)) => Err(format!("{}: {} bytes left after {}", n, left, r.show())),
                Err(x) => Err(format!("{}: well-formed input refused: {} ({})", n, x, hex(b))),
            }
        })
        .collect()
}

fn c09(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    match s {
        "claims" => {
            let (x, what) = claims(&mut rng);
            for k in 0..WRAPS {
                let (name, b) = wrap(k, &x);
                let e = entries::by_name(name);
                measured(c, &e, &b, what)?;
                c.obs(key(&e, &b), true, || format!("{} ({}): {}", name, what, hex(&b)));
            }
            Ok(())
        }
        "composites" => {
            let (name, b) = comp_claim(&mut rng);
            let e = entries::by_name(&name);
            measured(c, &e, &b, "composite")?;
            c.obs(key(&e, &b), true, || format!("{}: {}", name, hex(&b)));
            let ty = if name.starts_with("p::Sasl") { "AmqpCodec<SaslFrame>" } else { "AmqpCodec<AmqpFrame>" };
            let f = wrap_frame((ty == "AmqpCodec<SaslFrame>") as u8, 0, &[], &b);
            measured(c, &entries::by_name(ty), &f, "frame")?;
            measured(c, &entries::by_name(ty), &f[..f.len() - 1], "partial frame")?;
            Ok(())
        }
        "corrupt" => bounded_entry(i, |e| {
            for _ in 0..4 {
                let big = rng.chance(1, 10);
                let (b, what) = corrupt(e.name, &mut rng, if big { 5000 } else { 300 });
                measured(c, e, &b, what)?;
                c.obs(key(e, &b), true, || format!("{} ({}): {}", e.name, what, hex(&b)));
            }
            Ok(())
        }),
        // many small elements: the bookkeeping per element stays bounded
        "wide" => {
            let n = rng.range(1, 60_000);
            let one: &[u8] = *rng.pick(&[
                &[0x40u8][..],
                &[0x45],
                &[0xc0, 1, 0],
                &[0xc1, 1, 0],
                &[0xa1, 0],
                &[0xa3, 1, b's'],
                &[0, 0x53, 1, 0x45],
                &[0xc0, 2, 1, 0x40],
                &[0xc1, 3, 2, 0x40, 0x40],
                &[0xd1, 0, 0, 0, 6, 0, 0, 0, 2, 0x43, 0x43],
            ]);
            let kind = *rng.pick(&[0usize, 1, 4, 8, 9, 12]);
            let mut x = vec![0xd0];
            put_be(&mut x, (4 + n * one.len()) as u64, 4);
            put_be(&mut x, n as u64, 4);
            for _ in 0..n {
                x.extend_from_slice(one);
            }
            let (name, b) = wrap(kind, &x);
            let e = entries::by_name(name);
            let ok = measured(c, &e, &b, "wide")?;
            ensure!(ok, "{}: a list of {} elements {} is refused", name, n, hex(one));
            c.max("elements", n as u64);
            c.obs(mix(hash_bytes(one) ^ n as u64), true, || format!("{}: {} elements {}", name, n, hex(one)));
            Ok(())
        }
        // a frame that announces far more than it sends
        "announce" => {
            let size = *rng.pick(&[0xffff_ffffu64, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 0x0100_0000, 0x4000_0000]);
            let sasl = rng.bool();
            let name = if sasl { "AmqpCodec<SaslFrame>" } else { "AmqpCodec<AmqpFrame>" };
            let n = rng.range(8, 2000);
            let mut b = rng.bytes(n);
            set_be(&mut b, 0, 4, size);
            b[4] = 2;
            b[5] = sasl as u8;
            let limit = PER_BYTE * n + FLOOR;
            let base = alloc::arm(limit);
            if sasl {
                feed::<SaslFrame>(&b, &mut rng)?;
            } else {
                feed::<AmqpFrame>(&b, &mut rng)?;
            }
            let peak = alloc::disarm(base);
            ensure!(peak <= limit, "{}: {} bytes announcing {} took {} bytes", name, n, size, peak);
            c.max("peak_bytes", peak as u64);
            c.obs(hash_bytes(&b), true, || format!("{}: frame announcing {} bytes, {} sent", name, size, n));
            Ok(())
        }
        "deep" => {
            let (style, kind) = ((i as usize) % NESTS, (i as usize / NESTS) % WRAPS);
            let big = c.tier == Tier::Thorough || style == 3;
            let depth = if big {
                *rng.pick(&[20_000usize, 60_000, 250_000, 1_000_000])
            } else {
                *rng.pick(&[20_000usize, 50_000, 100_000])
            };
            let x = nest(style, depth, false, &mut rng);
            let (name, b) = wrap(kind, &x);
            let e = entries::by_name(name);
            let ok = measured(c, &e, &b, "deep")?;
            ensure!(!ok, "{}: nesting {} deep is accepted", name, depth);
            c.max("nesting", depth as u64);
            c.obs(mix(hash_str(name) ^ (style * 31 + depth) as u64), true, || {
                format!("{}: nested {} deep in style {}", name, depth, style)
            });
            Ok(())
        }
        // refused inputs leave nothing behind: later decodes and memory are as before
        "history" => {
            let want = run_probes()?;
            let n = rng.range(50, 400);
            let mut live = 0isize;
            for k in 0..n {
                if k == n / 2 {
                    live = alloc::live();
                }
                let pick = rng.below(4);
                if pick == 0 {
                    let st = rng.below(NESTS);
                    let d = *rng.pick(&[100usize, 126, 127, 128, 129, 130, 300, 3000]);
                    let x = nest(st, d, false, &mut rng);
                    let w = rng.below(WRAPS);
                    let (name, b) = wrap(w, &x);
                    (entries::by_name(name).run)(&b);
                } else if pick == 1 {
                    // fails at depth, half way through
                    let st = rng.below(8);
                    let d = rng.range(1, 120);
                    let mut x = nest(st, d, false, &mut rng);
                    let at = rng.below(x.len());
                    x[at] = 0xfe;
                    let w = rng.below(WRAPS);
                    let (name, b) = wrap(w, &x);
                    (entries::by_name(name).run)(&b);
                } else if pick == 2 {
                    let (x, _) = claims(&mut rng);
                    let w = rng.below(WRAPS);
                    let (name, b) = wrap(w, &x);
                    (entries::by_name(name).run)(&b);
                } else {
                    nth(rng.u64(), |e| {
                        let (b, _) = corrupt(e.name, &mut rng, 200);
                        if !zero_width_bomb(e.name, &b) {
                            (e.run)(&b);
                        }
                    });
                }
                c.count("hostile_decodes", 1);
            }
            let grown = alloc::live() - live;
            let got = run_probes().map_err(|m| format!("after {} hostile inputs: {}", n, m))?;
            for (a, b) in want.iter().zip(&got) {
                ensure!(a == b, "after {} hostile inputs {} decodes as {}", n, a.show(), b.show());
            }
            // entries::by_name builds tables, dropped again; anything retained is the library's
            ensure!(grown < 4096, "{} bytes are still held after {} hostile inputs", grown, n);
            c.count("probes", got.len() as u64);
            c.obs(rng.u64(), true, || format!("{} hostile inputs, then {} well-formed ones", n, got.len()));
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "one evaluation = one input decoded under the counting allocator with the limit 4096 bytes per input byte \
           plus 16 MiB (or one history of refused inputs followed by well-formed ones); distinct = distinct (entry, input)",
    streams: |t| {
        vec![
            st("claims", t.k(3_000, 100_000)),
            st("composites", t.k(8_000, 300_000)),
            st("announce", t.k(600, 10_000)),
            st("wide", t.k(160, 4_000)),
            st("deep", t.k((NESTS * WRAPS) as u64, (NESTS * WRAPS * 8) as u64)),
            st("history", t.k(80, 2_000)),
            st("corrupt", t.k(12_000, 500_000)),
        ]
    },
    run: c09,
};

// ------------------------------------------------------------ C10

fn tails(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    match rng.below(7) {
        0 => vec![0],
        1 => vec![0xff; 9],
        2 => b.to_vec(),
        3 => {
            let n = rng.range(1, 300);
            rng.bytes(n)
        }
        4 => vec![0x40; 5],
        5 => {
            let mut v = Vec::new();
            grammar(rng, &mut v, 3);
            v
        }
        _ => vec![any_byte(rng)],
    }
}

fn prefixes(rng: &mut Rng, len: usize) -> Vec<usize> {
    if len <= 96 {
        (0..len).collect()
    } else {
        let mut v: Vec<usize> = (0..24).collect();
        v.extend(len - 24..len);
        for _ in 0..32 {
            v.push(rng.below(len));
        }
        v
    }
}

type DecFn = fn(&[u8]) -> Result<(R, usize), String>;

fn delimits(c: &mut Ctx, rng: &mut Rng, name: &str, dec: DecFn, b: &[u8]) -> Res {
    let (r, left) = match dec(b) {
        Ok(x) => x,
        // whether it should have been accepted is decided elsewhere
        Err(_) => {
            c.count("refused_whole", 1);
            return Ok(());
        }
    };
    ensure!(left == 0, "{}: decoding {} leaves {} bytes", name, hex(b), left);
    for _ in 0..3 {
        let t = tails(rng, b);
        let mut x = b.to_vec();
        x.extend_from_slice(&t);
        match dec(&x) {
            Ok((r2, n)) => {
                ensure!(
                    r2 == r,
                    "{}: {} decodes as {}, but as {} when followed by {}",
                    name,
                    hex(b),
                    r.show(),
                    r2.show(),
                    hex(&t)
                );
                ensure!(n == t.len(), "{}: {} followed by {} bytes leaves {} bytes", name, hex(b), t.len(), n);
            }
            Err(e) => return Err(format!("{}: {} is refused when followed by {}: {}", name, hex(b), hex(&t), e)),
        }
        c.count("tails", 1);
    }
    for k in prefixes(rng, b.len()) {
        if let Ok((r2, n)) = dec(&b[..k]) {
            return Err(format!(
                "{}: the first {} of {} bytes {} decode as {} leaving {}",
                name,
                k,
                b.len(),
                hex(b),
                r2.show(),
                n
            ));
        }
        c.count("prefixes", 1);
    }
    c.obs(mix(hash_bytes(b) ^ hash_str(name)), b.len() > 1, || format!("{}: {}", name, hex(b)));
    Ok(())
}

fn c10(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    match s {
        "entries" => ENTRIES.with(|v| {
            let v: Vec<&Entry> = v
                .iter()
                .filter(|e| (e.kind == Kind::Value || e.kind == Kind::Comp) && e.name != "SaslFrame")
                .collect();
            let e = v[i as usize % v.len()];
            let budget = *rng.pick(&[30usize, 200, 200, 2000]);
            let (b, _) = legal(e.name, &mut rng, budget);
            delimits(c, &mut rng, e.name, e.dec, &b)
        }),
        // sequences of values read one after the other
        "sequence" => {
            let n = rng.range(2, 8);
            let names: Vec<&'static str> = ENTRIES.with(|v| {
                let v: Vec<&'static str> = v
                    .iter()
                    .filter(|e| e.kind == Kind::Value || e.kind == Kind::Comp)
                    .filter(|e| e.name != "SaslFrame")
                    .map(|e| e.name)
                    .collect();
                (0..n).map(|_| *rng.pick(&v)).collect()
            });
            let parts: Vec<Vec<u8>> = names.iter().map(|n| legal(n, &mut rng, 100).0).collect();
            let all = parts.concat();
            let mut pos = 0;
            for (n, b) in names.iter().zip(&parts) {
                let e = entries::by_name(n);
                let alone = match (e.dec)(b) {
                    Ok((r, 0)) => r,
                    _ => return Ok(()),
                };
                let (r, left) = (e.dec)(&all[pos..])
                    .map_err(|x| format!("{}: refused inside a sequence: {} ({})", n, x, hex(&all[pos..])))?;
                pos += b.len();
                ensure!(left == all.len() - pos, "{}: leaves {} instead of {}", n, left, all.len() - pos);
                ensure!(r == alone, "{}: {} inside a sequence, {} alone", n, r.show(), alone.show());
            }
            c.count("sequences", 1);
            c.obs(hash_bytes(&all), true, || format!("{:?} in sequence: {}", names, hex(&all)));
            Ok(())
        }
        // messages, frames and transfers extend to the end of their input
        "whole" => {
            let m = {
                let mut g = crate::gen::Gen::with_budget(&mut rng, 400);
                gen_msg(&mut g)
            };
            let secs = m.sections();
            if secs.is_empty() {
                return Ok(());
            }
            let mut ends = vec![0];
            let b = {
                let mut e = Enc::new(Form::Rand(&mut rng));
                for s in &secs {
                    enc_section(&mut e, s, FREE);
                    ends.push(e.out.len());
                }
                e.out
            };
            for name in &["InMessage", "OutMessage"] {
                let e = entries::by_name(name);
                let (_, left) = (e.dec)(&b).map_err(|x| format!("{}: {} refused: {}", name, hex(&b), x))?;
                ensure!(left == 0, "{}: {} bytes left of {}", name, left, hex(&b));
                for k in prefixes(&mut rng, b.len()) {
                    let r = (e.dec)(&b[..k]);
                    if !ends.contains(&k) || k == 0 {
                        ensure!(r.is_err(), "{}: the first {} of {} bytes {} are accepted", name, k, b.len(), hex(&b));
                    } else if let Ok((_, left)) = r {
                        ensure!(left == 0, "{}: {} bytes left of {}", name, left, hex(&b[..k]));
                    }
                    c.count("prefixes", 1);
                }
                // something behind the message that is no section
                let mut x = b.clone();
                x.push(*rng.pick(&[0x40u8, 0x41, 0xff, 0x53, 0x00]));
                ensure!((e.dec)(&x).is_err(), "{}: {} accepted with a stray byte behind it", name, hex(&x));
            }
            c.obs(hash_bytes(&b), true, || format!("message {}", hex(&b)));
            Ok(())
        }
        "frames" => {
            let f = {
                let mut g = crate::gen::Gen::with_budget(&mut rng, 400);
                gen_frame(&mut g)
            };
            let w = enc_frame(&f, &mut rng, LOOSE, 0);
            let b = &w[4..];
            let perf_end = b.len() - f.payload.as_ref().map_or(0, |p| p.len());
            let is_transfer = f.perf.as_ref().map_or(false, |p| code_of(p) == 0x14);
            let e = entries::by_name("AmqpFrame");
            let pf = entries::by_name("p::Frame");
            let (r, left) = (e.dec)(b).map_err(|x| format!("AmqpFrame: {} refused: {}", hex(b), x))?;
            ensure!(left == 0, "AmqpFrame: {} bytes left of {}", left, hex(b));
            for k in prefixes(&mut rng, b.len()) {
                let x = (e.dec)(&b[..k]);
                if k == 4 || (is_transfer && k >= perf_end) {
                    if let Ok((_, left)) = x {
                        ensure!(left == 0, "AmqpFrame: {} bytes left of {}", left, hex(&b[..k]));
                    }
                } else {
                    ensure!(x.is_err(), "AmqpFrame: the first {} of {} bytes {} are accepted", k, b.len(), hex(b));
                    if k > 4 {
                        ensure!(
                            (pf.dec)(&b[4..k]).is_err(),
                            "Frame: the first {} of {} bytes {} are accepted",
                            k - 4,
                            b.len() - 4,
                            hex(&b[4..])
                        );
                    }
                }
                c.count("prefixes", 1);
            }
            if f.perf.is_some() && !is_transfer {
                // a performative is one self-delimiting value
                let t = tails(&mut rng, b);
                let x = [&b[4..], &t[..]].concat();
                let (r2, left) = (pf.dec)(&x).map_err(|m| format!("Frame: {} refused: {}", hex(&x), m))?;
                ensure!(left == t.len(), "Frame: {} bytes left instead of {}: {}", left, t.len(), hex(&x));
                let (r1, _) = (pf.dec)(&b[4..]).map_err(|m| format!("Frame: refused: {}", m))?;
                ensure!(r1 == r2, "Frame: {} with bytes behind it, {} alone", r2.show(), r1.show());
                c.count("tails", 1);
            }
            c.obs(hash_bytes(b), true, || format!("frame {}", r.show()));
            Ok(())
        }
        "sasl" => {
            let r = {
                let mut g = crate::gen::Gen::with_budget(&mut rng, 300);
                gen_sasl(&mut g)
            };
            let w = enc_sasl(&r, &mut rng, LOOSE, 0);
            let e = entries::by_name("SaslFrame");
            let (_, left) = (e.dec)(&w[4..]).map_err(|x| format!("SaslFrame: {} refused: {}", hex(&w[4..]), x))?;
            ensure!(left == 0, "SaslFrame: {} bytes left", left);
            for k in prefixes(&mut rng, w.len() - 4) {
                ensure!((e.dec)(&w[4..4 + k]).is_err(), "SaslFrame: the first {} bytes of {} accepted", k, hex(&w[4..]));
                c.count("prefixes", 1);
            }
            c.obs(hash_bytes(&w), true, || format!("SASL frame {}", r.show()));
            Ok(())
        }
        // what the library itself encodes
        _ => {
            for sub in values::subjects(c, s, i) {
                if sub.enc.len() > 5000 && rng.chance(9, 10) {
                    continue;
                }
                delimits(c, &mut rng, &sub.ty, sub.dec, &sub.enc)?;
            }
            Ok(())
        }
    }
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "one evaluation = one encoding decoded alone, followed by other bytes, and cut at its prefixes; distinct = \
           distinct (entry, bytes); trivial = one-byte encodings",
    streams: |t| {
        let mut v = vec![
            st("entries", t.k(14_000, 500_000)),
            st("sequence", t.k(3_000, 100_000)),
            st("whole", t.k(1_500, 60_000)),
            st("frames", t.k(3_000, 120_000)),
            st("sasl", t.k(1_000, 40_000)),
        ];
        for s in values::both_streams(t) {
            let n = match s.name {
                "small" | "chars" | "lengths" => (s.n / 16).max(1),
                _ => s.n / 8,
            };
            v.push(st(s.name, n.max(1)));
        }
        v
    },
    run: c10,
};

// ------------------------------------------------------------ C23

fn c23(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    let tries = |e: &Entry, c: &mut Ctx, b: &[u8], what: &str| -> Res {
        let stab = match e.stab {
            Some(f) => f,
            None => return Ok(()),
        };
        if zero_width_bomb(e.name, b) {
            return Ok(());
        }
        let ok = stab(b).map_err(|m| format!("{} ({} input {}): {}", e.name, what, hex(b), m))?;
        c.count(if ok { "accepted" } else { "refused" }, 1);
        if ok {
            c.count(&format!("accepted_{}", what), 1);
        }
        c.obs(key(e, b), ok, || format!("{} ({}): {}", e.name, what, hex(b)));
        Ok(())
    };
    match s {
        "corrupt" => nth(i, |e| {
            if e.stab.is_none() {
                return Ok(());
            }
            for _ in 0..6 {
                let budget = *rng.pick(&[30usize, 150, 150, 1000]);
                let (b, what) = corrupt(e.name, &mut rng, budget);
                tries(e, c, &b, what)?;
            }
            Ok(())
        }),
        "main" => ENTRIES.with(|v| {
            let v: Vec<&Entry> = v.iter().filter(|e| e.stab.is_some() && bounded(e)).collect();
            let e = v[i as usize % v.len()];
            for _ in 0..4 {
                let budget = *rng.pick(&[30usize, 150, 150, 1000]);
                let (mut b, m) = legal(e.name, &mut rng, budget);
                let what = match rng.below(4) {
                    0 => "legal",
                    1 => {
                        mutate(&mut b, &mut rng);
                        "mutated"
                    }
                    _ => {
                        // one field replaced by another legal value: often still accepted
                        let k = rng.below(b.len());
                        b[k] = any_byte(&mut rng);
                        let _ = &m;
                        "byte"
                    }
                };
                tries(e, c, &b, what)?;
            }
            Ok(())
        }),
        "cross" => {
            let (b, what) = nth(rng.u64(), |e| corrupt(e.name, &mut rng, 200));
            each(|e| tries(e, c, &b, what))
        }
        // every byte of a small encoding set to every value
        "bytes" => ENTRIES.with(|v| {
            let v: Vec<&Entry> = v.iter().filter(|e| e.stab.is_some() && bounded(e)).collect();
            let e = v[i as usize % v.len()];
            let (b, _) = legal(e.name, &mut rng, 20);
            for k in 0..b.len().min(40) {
                let mut x = b.clone();
                for y in 0..256usize {
                    if y % 3 != (i as usize + k) % 3 {
                        continue;
                    }
                    x[k] = y as u8;
                    tries(e, c, &x, "swept")?;
                }
            }
            Ok(())
        }),
        _ => unreachable!(),
    }
}

pub const C23: Prop = Prop {
    id: "C23",
    rule: "one evaluation = one input given to a decoder and, if accepted, its value encoded, decoded and encoded \
           again; distinct = distinct accepted (entry, input)",
    streams: |t| {
        vec![
            st("corrupt", t.k(16_000, 600_000)),
            st("main", t.k(14_000, 600_000)),
            st("cross", t.k(300, 12_000)),
            st("bytes", t.k(120, 5_000)),
        ]
    },
    run: c23,
};

// ------------------------------------------------------------ C24

fn ref_ty(d: &mut Dec, ty: &Ty) -> Result<(), String> {
    if d.pos < d.end && d.b[d.pos] == 0x40 {
        d.pos += 1;
        return Ok(());
    }
    match ty {
        Ty::Comp(c) => ref_comp(d, &[*c]),
        Ty::OneOf(cs) => ref_comp(d, cs),
        _ => d.value().map(|_| ()),
    }
}

/// a composite's known fields lie within its declared bytes
fn ref_comp(d: &mut Dec, cs: &[&'static Comp]) -> Result<(), String> {
    if d.take(1)?[0] != 0 {
        return Err("no descriptor".to_string());
    }
    let w = d.value()?;
    let comp = cs
        .iter()
        .find(|c| R::U64(c.code) == w || R::sym(c.sym) == w)
        .ok_or_else(|| format!("descriptor {}", w.show()))?;
    let f = d.take(1)?[0];
    let w = match f {
        0x45 => return Ok(()),
        0xc0 => 1,
        0xd0 => 4,
        _ => return Err(format!("constructor {:#x}", f)),
    };
    let (end, count) = d.compound(w)?;
    let outer = d.bound(end)?;
    for f in comp.fields.iter().take(count) {
        ref_ty(d, &f.1).map_err(|e| format!("{}.{}: {}", comp.name, f.0, e))?;
    }
    d.unbound(outer, end);
    Ok(())
}

fn ref_section(d: &mut Dec) -> Result<(), String> {
    let at = d.pos;
    if d.take(1)?[0] != 0 {
        return Err("no descriptor".to_string());
    }
    let w = d.value()?;
    match w {
        R::U64(0x70) | R::U64(0x73) => {
            d.pos = at;
            ref_comp(d, &[&HEADER, &PROPERTIES])
        }
        R::Sym(ref s) if s == HEADER.sym || s == PROPERTIES.sym => {
            d.pos = at;
            ref_comp(d, &[&HEADER, &PROPERTIES])
        }
        R::U64(0x71..=0x78) | R::Sym(_) => d.value().map(|_| ()),
        _ => Err(format!("section descriptor {}", w.show())),
    }
}

/// reference verdict: Err, or (value if it is one untyped value, end position)
fn reference(name: &str, b: &[u8]) -> (Result<(Option<R>, usize), String>, bool, usize) {
    let mut d = Dec::new(b);
    let comp = if name.starts_with("p::") { ALL.iter().find(|c| c.name == &name[3..]).cloned() } else { None };
    let r = if let Some(c) = comp {
        ref_comp(&mut d, &[c]).map(|_| None)
    } else {
        match name {
            "p::DeliveryState" => ref_comp(&mut d, STATES).map(|_| None),
            "p::Outcome" => ref_comp(&mut d, OUTCOMES).map(|_| None),
            "p::SaslFrameBody" => ref_comp(&mut d, SASL_BODIES).map(|_| None),
            "p::Frame" if b.is_empty() => Ok(None),
            "p::Frame" => ref_comp(&mut d, PERFORMATIVES).map(|_| None),
            "p::Section" => ref_section(&mut d).map(|_| None),
            "Option<p::Source>" => ref_ty(&mut d, &Ty::Comp(&SOURCE)).map(|_| None),
            "InMessage" | "OutMessage" => (|| {
                loop {
                    ref_section(&mut d)?;
                    if d.pos == b.len() {
                        return Ok(None);
                    }
                }
            })(),
            _ => d.value().map(Some),
        }
    };
    (r.map(|x| (x, d.pos)), d.unsure, d.slack)
}

fn untyped(name: &str) -> bool {
    name == "Variant" || name == "Option<Variant>"
}

fn c24_one(c: &mut Ctx, e: &Entry, b: &[u8], what: &str) -> Res {
    if zero_width_bomb(e.name, b) {
        return Ok(());
    }
    let got = (e.dec)(b);
    let (want, unsure, slack) = reference(e.name, b);
    if unsure {
        c.count("undecided", 1);
        return Ok(());
    }
    // a transfer takes everything behind it as payload
    let tail = e.kind == Kind::Tail;
    match (&want, &got) {
        (Err(w), Ok((r, left))) => {
            return Err(format!(
                "{} ({}): {} is accepted as {} leaving {} bytes, but {}",
                e.name,
                what,
                hex(b),
                r.show(),
                left,
                w
            ))
        }
        (Err(_), Err(_)) => c.count("refused", 1),
        (Ok((v, pos)), Ok((r, left))) => {
            if !tail {
                ensure!(
                    *left == b.len() - pos,
                    "{} ({}): {} ends at {} but {} bytes of {} are left",
                    e.name,
                    what,
                    hex(b),
                    pos,
                    left,
                    b.len()
                );
            }
            if let Some(v) = v {
                if untyped(e.name) && !ambiguous(v) {
                    let (x, y) = (v.clone().canon(), r.clone().canon());
                    ensure!(x == y, "{} ({}): {} is {} but decodes as {}", e.name, what, hex(b), x.show(), y.show());
                    c.count("equal", 1);
                }
            }
            c.count("accepted", 1);
            if slack > 0 {
                c.count("accepted_with_slack", 1);
            }
        }
        (Ok((v, _)), Err(x)) => {
            if let Some(v) = v {
                if untyped(e.name) && slack == 0 && !ambiguous(v) {
                    return Err(format!("{} ({}): {} is {} but is refused: {}", e.name, what, hex(b), v.show(), x));
                }
            }
            c.count("refused_other", 1);
        }
    }
    c.obs(key(e, b), want.is_err() || slack > 0 || got.is_ok(), || format!("{} ({}): {}", e.name, what, hex(b)));
    Ok(())
}

fn c24_entries<T>(f: impl FnOnce(&[&Entry]) -> T) -> T {
    ENTRIES.with(|v| {
        let v: Vec<&Entry> = v
            .iter()
            .filter(|e| match e.name {
                "AmqpFrame" | "SaslFrame" => false,
                _ => e.kind == Kind::Comp || e.kind == Kind::Tail || bounded(e) || e.name.contains('<'),
            })
            .filter(|e| e.kind != Kind::Codec)
            .collect();
        f(&v)
    })
}

fn c24(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    c24_entries(|v| {
        let e = v[i as usize % v.len()];
        match s {
            "tampered" => {
                for _ in 0..6 {
                    let budget = *rng.pick(&[20usize, 60, 200, 800]);
                    let (mut b, m) = legal(e.name, &mut rng, budget);
                    if m.is_empty() {
                        continue;
                    }
                    let mut what = tamper(&mut b, &m, &mut rng);
                    if rng.chance(1, 4) {
                        tamper(&mut b, &m, &mut rng);
                        what = "twice";
                    }
                    if rng.bool() {
                        // bytes that a container overrunning its end could swallow
                        match rng.below(3) {
                            0 => b.extend_from_slice(&[0x40; 12]),
                            1 => b.extend_from_slice(&[0xa3, 1, b'z', 0x41, 0x43, 0x45, 0x44, 0x41]),
                            _ => {
                                let t = legal(e.name, &mut rng, 30).0;
                                b.extend_from_slice(&t)
                            }
                        }
                    }
                    c24_one(c, e, &b, what)?;
                }
                Ok(())
            }
            "sweep" => {
                let (mut b, m) = legal(e.name, &mut rng, 50);
                b.extend_from_slice(&[0x40, 0x41, 0xa3, 1, b'z', 0x40, 0x45, 0x43, 0x44]);
                for m in m.iter().filter(|m| m.kind != CKind::Blob).take(6) {
                    let olds = (get_be(&b, m.size_pos, m.width), get_be(&b, m.size_pos + m.width, m.width));
                    for v in 0..(olds.0 + 14).min(200) {
                        let mut x = b.clone();
                        set_be(&mut x, m.size_pos, m.width, v);
                        c24_one(c, e, &x, "size")?;
                    }
                    for v in 0..(olds.1 + 10).min(200) {
                        let mut x = b.clone();
                        set_be(&mut x, m.size_pos + m.width, m.width, v);
                        c24_one(c, e, &x, "count")?;
                    }
                }
                Ok(())
            }
            // two size fields moved together so that the outer one stays consistent
            "shifted" => {
                let (b, m) = legal(e.name, &mut rng, 120);
                let inner: Vec<&Mark> = m.iter().filter(|m| m.width == 1 || m.end > m.body).collect();
                if inner.is_empty() {
                    return Ok(());
                }
                for _ in 0..4 {
                    let k = **rng.pick(&inner);
                    let by = rng.range(1, 4);
                    let grow = rng.bool();
                    let mut x = b.clone();
                    for o in m.iter() {
                        if o.body <= k.body && o.end >= k.end {
                            let old = get_be(&x, o.size_pos, o.width);
                            let v = if grow { old + by as u64 } else { old.saturating_sub(by as u64) };
                            set_be(&mut x, o.size_pos, o.width, v);
                        }
                    }
                    if grow {
                        // padding inside the container, behind its last element
                        let t = x.split_off(k.end);
                        for _ in 0..by {
                            x.push(*rng.pick(&[0x40u8, 0x41, 0x45, 0x00, 0xff]));
                        }
                        x.extend_from_slice(&t);
                    } else if k.end - k.body >= by {
                        let t = x.split_off(k.end);
                        x.truncate(k.end - by);
                        x.extend_from_slice(&t);
                    }
                    c24_one(c, e, &x, if grow { "padded" } else { "cut" })?;
                }
                Ok(())
            }
            "corrupt" => {
                let (b, what) = corrupt(e.name, &mut rng, 150);
                c24_one(c, e, &b, what)
            }
            _ => unreachable!(),
        }
    })
}

pub const C24: Prop = Prop {
    id: "C24",
    rule: "one evaluation = one input with falsified size or count fields decoded by the library and by the \
           independent decoder; distinct = distinct (entry, input) refused, padded or accepted with a known end",
    streams: |t| {
        vec![
            st("tampered", t.k(20_000, 800_000)),
            st("shifted", t.k(12_000, 400_000)),
            st("sweep", t.k(500, 20_000)),
            st("corrupt", t.k(20_000, 800_000)),
        ]
    },
    run: c24,
};

#[allow(dead_code)]
fn _unused(_: Option<(InMessage, OutMessage, Variant, p::Frame)>) {}
