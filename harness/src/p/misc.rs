//! C21 (regenerated definitions), C22 (timestamps), C25 (memory safety, independence of the buffer).

use std::fmt::Debug;

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
use tokio_io::codec::{Decoder, Encoder};

use super::inputs::*;
use super::subj::lib_enc_ref;
use super::{comps, frames, hostile, msgs, values};
use crate::alloc;
use crate::by_comp;
use crate::conv::*;
use crate::ctx::*;
use crate::entries::{self, dec, Entry, Ts};
use crate::gen::Gen;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::msg::*;
use crate::rval::*;
use crate::spec::*;

thread_local!(static ENTRIES: Vec<Entry> = entries::all());

fn nth<T>(i: u64, f: impl FnOnce(&Entry) -> T) -> T {
    ENTRIES.with(|v| f(&v[i as usize % v.len()]))
}

fn n_entries() -> u64 {
    ENTRIES.with(|v| v.len() as u64)
}

/// streams of other properties run here under another name; every `den`-th case of theirs
struct Borrowed {
    name: &'static str,
    from: &'static Prop,
    stream: &'static str,
}

fn borrowed_streams(list: &[Borrowed], t: Tier, num: u64, den: u64) -> Vec<Stream> {
    list.iter()
        .map(|b| {
            let s = (b.from.streams)(t).into_iter().find(|s| s.name == b.stream).expect("harness: borrowed stream");
            Stream { name: b.name, n: (s.n * num / den).max(1), par: s.par }
        })
        .collect()
}

fn run_borrowed(c: &mut Ctx, list: &[Borrowed], s: &str, i: u64, num: u64, den: u64) -> Option<Res> {
    let b = list.iter().find(|b| b.name == s)?;
    // one of every den/num cases of the lender, at a varying place so that no period of the lender's is missed
    let n = (b.from.streams)(Tier::Quick).into_iter().find(|s| s.name == b.stream).map(|s| s.n).unwrap_or(1);
    let mut j = i * den / num + mix(i ^ hash_str(b.name)) % (den / num).max(1);
    if n < den / num {
        j %= n;
    }
    Some((b.from.run)(c, b.stream, j))
}

// ------------------------------------------------------------ C21

static P_C03: Prop = comps::C03;
static P_C06: Prop = comps::C06;
static P_C07: Prop = comps::C07;
static P_C20: Prop = comps::C20;
static P_C15: Prop = msgs::C15;
static P_C17: Prop = msgs::C17;
static P_C08: Prop = hostile::C08;
static P_C11: Prop = frames::C11;
static P_C12: Prop = frames::C12;
static P_C13: Prop = frames::C13;
static P_C14: Prop = frames::C14;
static P_C02: Prop = values::C02;
static P_C01: Prop = values::C01;
static P_C05: Prop = values::C05;
static P_C23: Prop = hostile::C23;
static P_C10: Prop = hostile::C10;

fn conform() -> Vec<Borrowed> {
    let mut v = Vec::new();
    for (p, pre) in &[(&P_C06, "C06"), (&P_C07, "C07"), (&P_C20, "C20"), (&P_C03, "C03")] {
        for s in (p.streams)(Tier::Quick) {
            v.push(Borrowed { name: leak(format!("{}-{}", pre, s.name)), from: *p, stream: s.name });
        }
    }
    v
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

thread_local!(static CONFORM: Vec<Borrowed> = conform());

fn enc_obs<T: CompT>(r: &R) -> u64 {
    let v = T::from_r(r);
    let e = lib_enc(&v);
    let mut h = hash_bytes(&e) ^ v.encoded_size() as u64;
    for a in v.acc() {
        h = mix(h ^ hash_bytes(format!("{:?}", a).as_bytes()));
    }
    // clones and equality are generated as well
    h ^ (v.clone() == v) as u64
}

fn c21(c: &mut Ctx, s: &str, i: u64) -> Res {
    if let Some(r) = CONFORM.with(|v| run_borrowed(c, v, s, i, 1, 3)) {
        return r;
    }
    let mut rng = c.rng.clone();
    match s {
        "legal" | "corrupt" => nth(i, |e| {
            for _ in 0..4 {
                let budget = if rng.chance(1, 8) { 2500 } else { 250 };
                let b = if s == "legal" {
                    legal(e.name, &mut rng, budget).0
                } else {
                    hostile::corrupt(e.name, &mut rng, budget).0
                };
                if zero_width_bomb(e.name, &b) {
                    continue;
                }
                let h = (e.dig)(&b);
                c.dig(h);
                c.count("outcomes", 1);
                c.obs(mix(hash_bytes(&b) ^ hash_str(e.name)), true, || format!("{}: {}", e.name, hex(&b)));
            }
            Ok(())
        }),
        // the same bytes to every generated type
        "cross" => {
            let (b, _) = nth(rng.u64(), |e| hostile::corrupt(e.name, &mut rng, 300));
            ENTRIES.with(|v| {
                for e in v.iter().filter(|e| e.name.starts_with("p::")) {
                    if zero_width_bomb(e.name, &b) {
                        continue;
                    }
                    let h = (e.dig)(&b);
                    c.dig(h);
                    c.count("outcomes", 1);
                    c.evals += 1;
                }
            });
            c.obs(hash_bytes(&b), true, || hex(&b));
            Ok(())
        }
        // values constructed, looked at and encoded
        "build" => {
            let comp = ALL[i as usize % ALL.len()];
            let r = gen_comp(comp, &mut Gen::with_budget(&mut rng, 600));
            set_flavor(1);
            let h = by_comp!(comp, enc_obs(&r));
            c.dig(h);
            c.count("encoded", 1);
            c.obs(mix(h), true, || r.show());
            Ok(())
        }
        // every code, symbol and descriptor near the known ones
        "codes" => {
            let code = i;
            ENTRIES.with(|v| {
                for e in v.iter().filter(|e| e.name.starts_with("p::") || e.name == "InMessage" || e.name == "OutMessage") {
                    for b in &[
                        vec![0, 0x53, code as u8, 0x45],
                        vec![0, 0x53, code as u8, 0xc0, 1, 0],
                        vec![0, 0x53, code as u8, 0xc0, 4, 3, 0x40, 0x40, 0x40],
                        vec![0, 0x53, code as u8, 0xa0, 1, 7],
                        vec![0, 0x53, code as u8, 0xc1, 1, 0],
                        vec![0, 0x80, 0, 0, 0, 0, 0, 0, 0, code as u8, 0x45],
                        vec![0, 0x80, 0, 0, 0, 1, 0, 0, 0, code as u8, 0x45],
                        vec![0x50, code as u8],
                        vec![0x52, code as u8],
                        vec![code as u8, 0, 0, 0, 0],
                    ] {
                        if zero_width_bomb(e.name, b) {
                            continue;
                        }
                        let h = (e.dig)(b);
                        c.dig(h);
                        c.count("outcomes", 1);
                        c.evals += 1;
                    }
                }
            });
            c.obs(mix(code), true, || format!("descriptor {:#04x} to every type", code));
            Ok(())
        }
        "symbols" => {
            let mut all: Vec<String> = Vec::new();
            for e in ENUMS.iter() {
                for v in e.vals {
                    if let R::Sym(s) = v.r() {
                        all.push(s)
                    }
                }
            }
            all.extend(ALL.iter().map(|c| c.sym.to_string()));
            all.extend(SECTION_SYMS.iter().map(|x| x.1.to_string()));
            let t = all[i as usize % all.len()].clone();
            let t = match i as usize / all.len() {
                0 => t,
                1 => format!("{}x", t),
                2 => t[..t.len() - 1].to_string(),
                _ => t.to_uppercase(),
            };
            ENTRIES.with(|v| {
                for e in v.iter().filter(|e| e.name.starts_with("p::")) {
                    let mut s = vec![0xa3, t.len() as u8];
                    s.extend_from_slice(t.as_bytes());
                    let mut d = vec![0];
                    d.extend_from_slice(&s);
                    d.push(0x45);
                    for b in &[s, d] {
                        if zero_width_bomb(e.name, b) {
                            continue;
                        }
                        let h = (e.dig)(b);
                        c.dig(h);
                        c.count("outcomes", 1);
                        c.evals += 1;
                    }
                }
            });
            c.obs(hash_str(&t), true, || t.clone());
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub const C21: Prop = Prop {
    id: "C21",
    rule: "distinct inputs and values whose handling was compared between the two builds, by bytes and type",
    streams: |t| {
        let mut v = vec![
            st("legal", n_entries() * t.n(60, 2_000)),
            st("corrupt", n_entries() * t.n(60, 2_000)),
            st("cross", t.k(3_000, 100_000)),
            st("build", t.k(6_000, 200_000)),
            st("codes", 256),
            st("symbols", 4 * 70),
        ];
        v.extend(CONFORM.with(|b| borrowed_streams(b, t, 1, 3)));
        v
    },
    run: c21,
};

// ------------------------------------------------------------ C22

/// days since 1970-01-01 of a date in the proleptic Gregorian calendar
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

/// the instant as a millisecond count, computed from its calendar fields
fn millis_of(t: &DateTime<Utc>) -> Result<i64, String> {
    let n = t.nanosecond();
    ensure_ms(n)?;
    let d = days_from_civil(i64::from(t.year()), i64::from(t.month()), i64::from(t.day()));
    let s = d * 86_400 + i64::from(t.hour()) * 3600 + i64::from(t.minute()) * 60 + i64::from(t.second());
    Ok(s * 1000 + i64::from(n / 1_000_000))
}

fn ensure_ms(n: u32) -> Res {
    ensure!(n % 1_000_000 == 0 && n < 1_000_000_000, "{} nanoseconds are no whole milliseconds", n);
    Ok(())
}

fn ts_bytes(ms: i64) -> Vec<u8> {
    let mut v = vec![0x83];
    v.extend_from_slice(&ms.to_be_bytes());
    v
}

fn check_date(ms: i64, got: Result<DateTime<Utc>, String>, how: &str) -> Result<bool, String> {
    let in_range = ms >= TS_MIN && ms <= TS_MAX;
    match got {
        Ok(t) => {
            ensure!(in_range, "{}: {} ms is outside the date range but decodes to {:?}", how, ms, t);
            let m = millis_of(&t).map_err(|e| format!("{}: {} ms decodes to {:?}: {}", how, ms, t, e))?;
            ensure!(m == ms, "{}: {} ms decodes to {:?}, which is {} ms", how, ms, t, m);
            Ok(true)
        }
        Err(e) => {
            ensure!(!in_range, "{}: {} ms is refused: {}", how, ms, e);
            Ok(false)
        }
    }
}

fn ts_case(c: &mut Ctx, ms: i64) -> Res {
    let b = ts_bytes(ms);
    let ok = check_date(ms, lib_dec::<Ts>(&b).map(|x| x.0), "timestamp")?;
    let v = lib_dec::<Variant>(&b).and_then(|x| match x.0 {
        Variant::Timestamp(t) => Ok(t),
        v => Ok(panic!("timestamp {} decodes to {:?}", ms, v)),
    });
    check_date(ms, v, "dynamic")?;
    check_date(ms, lib_dec::<Option<Ts>>(&b).map(|x| x.0.expect("present timestamp")), "optional")?;
    // array of two
    let mut a = vec![0xe0, 18, 2, 0x83];
    a.extend_from_slice(&0i64.to_be_bytes());
    a.extend_from_slice(&ms.to_be_bytes());
    check_date(ms, lib_dec::<Vec<Ts>>(&a).map(|x| x.0[1]), "array")?;
    // absolute-expiry-time and creation-time of the properties
    let mut pr = vec![0, 0x53, 0x73, 0xc0, 27, 10, 0x40, 0x40, 0x40, 0x40, 0x40, 0x40, 0x40, 0x40];
    pr.extend_from_slice(&b);
    pr.extend_from_slice(&ts_bytes(5));
    let pp = lib_dec::<p::Properties>(&pr).map(|x| x.0);
    check_date(ms, pp.clone().map(|x| x.absolute_expiry_time.expect("expiry")), "absolute-expiry-time")?;
    if let Ok(x) = &pp {
        ensure!(x.creation_time.map(|t| millis_of(&t)) == Some(Ok(5)), "creation-time {:?}", x.creation_time);
        let e = lib_enc(x);
        ensure!(e.windows(9).any(|w| w == &b[..]), "absolute-expiry-time {} ms is encoded as {}", ms, hex(&e));
    }
    let n = pr.len();
    pr[n - 18..n - 9].copy_from_slice(&ts_bytes(-5));
    pr[n - 9..].copy_from_slice(&b);
    let pp = lib_dec::<p::Properties>(&pr).map(|x| x.0);
    check_date(ms, pp.map(|x| x.creation_time.expect("creation")), "creation-time")?;
    if ok {
        let t = lib_dec::<Ts>(&b).unwrap().0;
        for (e, how) in &[
            (lib_enc(&t), "timestamp"),
            (lib_enc(&Variant::Timestamp(t)), "dynamic"),
            (lib_enc(&Some(t)), "optional"),
        ] {
            ensure!(*e == b, "{}: {:?} ({} ms) is encoded as {}", how, t, ms, hex(e));
        }
        let e = lib_enc(&vec![t]);
        ensure!(e.ends_with(&b[1..]), "array: {:?} ({} ms) is encoded as {}", t, ms, hex(&e));
        c.count("representable", 1);
    } else {
        c.count("refused", 1);
    }
    c.count(if ms < 0 { "before_1970" } else { "since_1970" }, 1);
    if ms % 1000 == 0 {
        c.count("whole_seconds", 1);
    }
    c.evals += 6;
    c.obs(mix(ms as u64), true, || format!("{} ms", ms));
    Ok(())
}

fn c22(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    match s {
        // every count near the epoch
        "epoch" => {
            for k in 0..256i64 {
                ts_case(c, i as i64 * 256 + k - 128 * 256)?;
            }
            Ok(())
        }
        // around powers of two and ten, calendar boundaries and the limits
        "edges" => {
            let base: i64 = if i < 64 {
                (1u64 << i) as i64
            } else if i < 83 {
                10i64.pow((i - 64) as u32)
            } else {
                *[
                    TS_MIN, TS_MAX, i64::MIN, i64::MAX, 0, 86_400_000, 951_782_400_000, 4_107_542_400_000, -2_208_988_800_000,
                    -62_135_596_800_000, -62_167_219_200_000, 253_402_300_800_000, i64::MIN / 1000, i64::MAX / 1000,
                    i64::from(i32::MAX) * 1000, i64::from(i32::MIN) * 1000, i64::from(u32::MAX) * 1000, TS_MIN / 2, TS_MAX / 2,
                ]
                .get(i as usize - 83)
                .unwrap_or(&0)
            };
            for d in -1100i64..=1100 {
                if d % 37 != 0 && d.abs() > 12 && (d.abs() - 1000).abs() > 12 {
                    continue;
                }
                ts_case(c, base.wrapping_add(d))?;
                ts_case(c, base.wrapping_neg().wrapping_add(d))?;
            }
            Ok(())
        }
        "any" => {
            for _ in 0..32 {
                let ms = match rng.below(6) {
                    0 => rng.u64() as i64,
                    1 => TS_MIN + (rng.u64() % (TS_MAX - TS_MIN) as u64) as i64,
                    2 => (TS_MIN + (rng.u64() % (TS_MAX - TS_MIN) as u64) as i64) / 1000 * 1000,
                    3 => Gen::new(&mut rng).int(64),
                    4 => Gen::new(&mut rng).ts(),
                    _ => -((rng.u64() >> (20 + rng.below(40))) as i64),
                };
                ts_case(c, ms)?;
            }
            Ok(())
        }
        // dates built by the caller, by calendar
        "calendar" => {
            for _ in 0..32 {
                let y = match rng.below(4) {
                    0 => rng.range(1890, 2110) as i64,
                    1 => rng.range(0, 10_000) as i64,
                    2 => rng.range(0, 500_000) as i64 - 250_000,
                    _ => *rng.pick(&[1969i64, 1970, 2000, 1900, 2100, 1, 0, -1, 9999, 10000, -262_143, 262_142]),
                };
                let mo = rng.range(1, 12) as i64;
                let d = rng.range(1, 28) as i64;
                let (h, mi, sec) = (rng.below(24) as i64, rng.below(60) as i64, rng.below(60) as i64);
                let milli = *rng.pick(&[0u32, 0, 1, 500, 999, 250]);
                let t = match Utc.with_ymd_and_hms(y as i32, mo as u32, d as u32, h as u32, mi as u32, sec as u32) {
                    chrono::LocalResult::Single(t) => t,
                    _ => continue,
                };
                let t = t + chrono::Duration::milliseconds(i64::from(milli));
                let want = (days_from_civil(y, mo, d) * 86_400 + h * 3600 + mi * 60 + sec) * 1000 + i64::from(milli);
                for e in &[lib_enc(&t), lib_enc(&Variant::Timestamp(t))] {
                    ensure!(*e == ts_bytes(want), "{:?} ({} ms) is encoded as {}", t, want, hex(e));
                    let (x, left) = lib_dec::<Ts>(e)?;
                    ensure!(x == t && left == 0, "{:?} comes back as {:?}", t, x);
                }
                c.obs(mix(want as u64), true, || format!("{:?}", t));
            }
            Ok(())
        }
        // order is kept in both directions
        "order" => {
            let mut v: Vec<i64> = (0..40).map(|_| Gen::new(&mut rng).ts()).collect();
            let near = v[0];
            v.extend((0..20).map(|k| near + k - 10));
            v.sort();
            v.dedup();
            let d: Vec<DateTime<Utc>> =
                v.iter().map(|x| lib_dec::<Ts>(&ts_bytes(*x)).map(|t| t.0)).collect::<Result<_, _>>()?;
            for k in 1..d.len() {
                ensure!(d[k - 1] < d[k], "{} ms and {} ms decode to {:?} and {:?}", v[k - 1], v[k], d[k - 1], d[k]);
                let (a, b) = (lib_enc(&d[k - 1]), lib_enc(&d[k]));
                let f = |e: &[u8]| {
                    let mut x = [0; 8];
                    x.copy_from_slice(&e[1..9]);
                    i64::from_be_bytes(x)
                };
                ensure!(f(&a) < f(&b), "{:?} and {:?} are encoded as {} and {}", d[k - 1], d[k], hex(&a), hex(&b));
            }
            c.evals += d.len() as u64;
            c.obs(mix(v[0] as u64 ^ i), true, || format!("{} instants from {}", v.len(), v[0]));
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub const C22: Prop = Prop {
    id: "C22",
    rule: "distinct millisecond counts, each decoded and encoded in six places",
    streams: |t| {
        vec![
            st("epoch", 256),
            st("edges", 102),
            st("any", t.k(4_000, 200_000)),
            st("calendar", t.k(3_000, 100_000)),
            st("order", t.k(1_000, 30_000)),
        ]
    },
    run: c22,
};

// ------------------------------------------------------------ C25

fn mixed() -> Vec<Borrowed> {
    let mut v = Vec::new();
    for (p, pre) in &[
        (&P_C01, "C01"), (&P_C02, "C02"), (&P_C03, "C03"), (&P_C05, "C05"), (&P_C06, "C06"), (&P_C07, "C07"), (&P_C08, "C08"),
        (&P_C10, "C10"), (&P_C11, "C11"), (&P_C12, "C12"), (&P_C13, "C13"), (&P_C14, "C14"), (&P_C15, "C15"),
        (&P_C17, "C17"), (&P_C23, "C23"),
    ] {
        for s in (p.streams)(Tier::Quick) {
            // nesting needs its own stack size
            if s.par && !s.name.contains("deep") && !s.name.contains("nest") && !s.name.contains("stack") {
                v.push(Borrowed { name: leak(format!("{}-{}", pre, s.name)), from: *p, stream: s.name });
            }
        }
    }
    v
}

thread_local!(static MIXED: Vec<Borrowed> = mixed());

/// decode from a heap buffer, look, overwrite the buffer, look, free it, look
fn outlives<T: Decode + Encode + ToR + Clone + Debug>(c: &mut Ctx, name: &str, b: &[u8], rng: &mut Rng) -> Res {
    // exactly as long as the input, so that one byte too far is out of bounds
    let mut buf: Box<[u8]> = b.to_vec().into_boxed_slice();
    let (v, first, e1) = match T::decode(&buf) {
        Ok((_, v)) => {
            let r = v.to_r();
            let e = lib_enc_ref(&v);
            (v, r, e)
        }
        Err(_) => {
            c.count("refused", 1);
            return Ok(());
        }
    };
    let k = v.clone();
    ensure!(buf[..] == b[..], "{}: decoding changed its input {}", name, hex(b));
    for x in buf.iter_mut() {
        *x = if rng.bool() { !*x } else { 0xee };
    }
    ensure!(v.to_r() == first, "{}: {} turned into {} when the input was overwritten", name, first.show(), v.to_r().show());
    drop(buf);
    // churn: the memory is likely handed out again
    let junk: Vec<Vec<u8>> = (0..4).map(|_| vec![0xdd; b.len()]).collect();
    ensure!(v.to_r() == first, "{}: {} turned into {} when the input was freed", name, first.show(), v.to_r().show());
    let e2 = lib_enc_ref(&v);
    ensure!(e1 == e2, "{}: encoding {} twice gives {} and {}", name, first.show(), hex(&e1), hex(&e2));
    drop(v);
    ensure!(k.to_r() == first, "{}: the clone of {} is {} once the original is gone", name, first.show(), k.to_r().show());
    let e3 = lib_enc_ref(&k);
    // maps may iterate in another order in a clone
    ensure!(e1.len() == e3.len(), "{}: the clone of {} encodes to {} bytes instead of {}", name, first.show(), e3.len(), e1.len());
    drop(junk);
    c.count("outlived", 1);
    Ok(())
}

fn codec_outlives<T: Decode + Encode + ToR + Debug>(c: &mut Ctx, b: &[u8], rng: &mut Rng) -> Res {
    let mut codec = AmqpCodec::<T>::new();
    let mut buf = BytesMut::with_capacity(rng.range(0, 200));
    let mut held: Vec<(T, R)> = Vec::new();
    let mut pos = 0;
    let mut calls = 0;
    while pos < b.len() {
        let n = rng.range(1, b.len() - pos);
        buf.extend_from_slice(&b[pos..pos + n]);
        pos += n;
        loop {
            calls += 1;
            ensure!(calls < 4 * b.len() + 100, "the codec does not come to rest on {}", hex(b));
            match codec.decode(&mut buf) {
                Ok(Some(f)) => {
                    let r = f.to_r();
                    held.push((f, r));
                }
                Ok(None) => break,
                Err(_) => {
                    c.count("refused", 1);
                    break;
                }
            }
        }
        if rng.chance(1, 3) {
            // scribble over whatever room the buffer has
            let keep = buf.len();
            let room = buf.capacity() - keep;
            buf.extend_from_slice(&vec![0xee; room]);
            buf.truncate(keep);
        }
    }
    let same = |held: &Vec<(T, R)>, when: &str| -> Res {
        for (f, r) in held {
            ensure!(f.to_r() == *r, "frame {} turned into {} {}", r.show(), f.to_r().show(), when);
        }
        Ok(())
    };
    same(&held, "while the stream went on")?;
    for x in buf.iter_mut() {
        *x = 0xee;
    }
    buf.clear();
    buf.reserve(5000);
    buf.extend_from_slice(&vec![0xee; 4000]);
    same(&held, "when the buffer was reused")?;
    drop(buf);
    drop(codec);
    let junk: Vec<Vec<u8>> = (0..4).map(|_| vec![0xdd; 200]).collect();
    same(&held, "when codec and buffer were freed")?;
    drop(junk);
    // emitted together again, twice
    let mut out: Vec<Vec<u8>> = Vec::new();
    for _ in 0..2 {
        let mut o = BytesMut::new();
        for (f, _) in &held {
            let e = lib_enc_ref(f);
            o.extend_from_slice(&e);
        }
        out.push(o.to_vec());
    }
    ensure!(out[0] == out[1], "encoding the frames twice gives {} and {}", hex(&out[0]), hex(&out[1]));
    let mut enc = AmqpCodec::<T>::new();
    let mut o = BytesMut::new();
    let kept = held.len();
    for (f, _) in held {
        enc.encode(f, &mut o).map_err(|e| format!("frame not encoded: {:?}", e))?;
    }
    ensure!(o[..] == out[0][..], "the codec emits {} instead of {}", hex(&o), hex(&out[0]));
    c.count("frames_outlived", kept as u64);
    Ok(())
}

macro_rules! outlive_table {
    ($($t:ty),* $(,)?) => {
        &[ $( (stringify!($t), outlives::<$t> as fn(&mut Ctx, &str, &[u8], &mut Rng) -> Res) ),* ]
    };
}

type Outlive = fn(&mut Ctx, &str, &[u8], &mut Rng) -> Res;
static OUTLIVE: &[(&str, Outlive)] = outlive_table!(
    Variant, List, Str, ByteStr, Bytes, Symbol, VecVariantMap, Multiple<Symbol>, p::Map, p::Fields, p::StringVariantMap,
    p::FilterSet, Vec<Bytes>, Vec<ByteStr>, Vec<Symbol>, p::MessageId, p::ErrorCondition, p::DistributionMode, p::Error, p::Open,
    p::Begin, p::Attach, p::Flow, p::Transfer, p::Disposition, p::Detach, p::End, p::Close, p::SaslMechanisms, p::SaslInit,
    p::SaslChallenge, p::SaslResponse, p::SaslOutcome, p::Source, p::Target, p::Header, p::Properties, p::Received, p::Rejected,
    p::Modified, p::DeliveryState, p::Outcome, p::SaslFrameBody, p::Section, p::Frame, InMessage, OutMessage, AmqpFrame, SaslFrame
);

fn c25(c: &mut Ctx, s: &str, i: u64) -> Res {
    let (num, den) = if c.tier == Tier::Quick { (1, 12) } else { (1, 1) };
    if let Some(r) = MIXED.with(|v| run_borrowed(c, v, s, i, num, den)) {
        c.count("borrowed_cases", 1);
        return r;
    }
    let mut rng = c.rng.clone();
    match s {
        "outlive" => {
            let (name, f) = OUTLIVE[i as usize % OUTLIVE.len()];
            for k in 0..4 {
                let budget = if rng.chance(1, 6) { 3000 } else { 250 };
                let (mut b, m) = legal(name, &mut rng, budget);
                if k == 3 {
                    tamper(&mut b, &m, &mut rng);
                }
                if zero_width_bomb(name, &b) {
                    continue;
                }
                f(c, name, &b, &mut rng)?;
                c.obs(mix(hash_bytes(&b) ^ hash_str(name)), true, || format!("{}: {}", name, hex(&b)));
            }
            Ok(())
        }
        "codec" => {
            let sasl = i % 3 == 0;
            let mut b = Vec::new();
            for _ in 0..rng.range(1, 6) {
                let budget = if rng.chance(1, 6) { 4000 } else { 300 };
                b.extend(frames::gen_item(&mut rng, sasl, budget).bytes);
            }
            if rng.chance(1, 4) {
                mutate(&mut b, &mut rng);
            }
            if sasl {
                codec_outlives::<SaslFrame>(c, &b, &mut rng)?;
            } else {
                codec_outlives::<AmqpFrame>(c, &b, &mut rng)?;
            }
            c.obs(hash_bytes(&b), true, || hex(&b));
            Ok(())
        }
        // decoding, encoding and dropping gives all memory back
        "leak" => nth(i, |e| {
            let mut ins: Vec<Vec<u8>> = Vec::new();
            for k in 0..6 {
                let b = if k % 2 == 0 { legal(e.name, &mut rng, 400).0 } else { hostile::corrupt(e.name, &mut rng, 400).0 };
                if !zero_width_bomb(e.name, &b) {
                    ins.push(b);
                }
            }
            let go = |ins: &Vec<Vec<u8>>| {
                for b in ins {
                    (e.run)(b);
                    let _ = (e.dig)(b);
                }
            };
            // caches and thread-locals settle in the first round
            go(&ins);
            go(&ins);
            let a = alloc::live();
            go(&ins);
            let b = alloc::live();
            go(&ins);
            go(&ins);
            let d = alloc::live();
            ensure!(
                !(b - a > 0 && d - b >= 2 * (b - a)),
                "{}: {} bytes stay allocated each time these inputs are handled: {}",
                e.name,
                b - a,
                ins.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" ")
            );
            c.count("leak_rounds", 5);
            c.obs(mix(hash_str(e.name) ^ i), true, || format!("{}: {} inputs", e.name, ins.len()));
            Ok(())
        }),
        // so do constructing, cloning, hashing, comparing, using as keys and encoding
        "leak_made" => {
            let r = Gen::with_budget(&mut rng, 200).value(3);
            let t = Gen::with_budget(&mut rng, 60).text();
            let m = gen_msg(&mut Gen::with_budget(&mut rng, 150));
            let f = gen_frame(&mut Gen::with_budget(&mut rng, 100));
            let seed = rng.u64();
            let go = || {
                set_flavor(seed);
                let mut n = 0;
                let vs: Vec<Variant> = (0..4).map(|_| Variant::from_r(&r)).collect();
                let mut keys: hashbrown::HashMap<Variant, usize> = hashbrown::HashMap::new();
                for v in &vs {
                    *keys.entry(v.clone()).or_insert(0) += 1;
                    n += lib_enc_ref(v).len() + vs.iter().filter(|x| *x == v).count();
                }
                let mut texts: hashbrown::HashMap<Str, Symbol> = hashbrown::HashMap::new();
                let mut ordered = std::collections::BTreeSet::new();
                for s in crate::p::text::strs(&t) {
                    ordered.insert(s.clone());
                    texts.insert(s.clone(), Symbol(s.clone()));
                    n += texts.get(t.as_str()).map(|x| x.len()).unwrap_or(0) + lib_enc_ref(&Symbol(s)).len();
                }
                let x: InMessage = crate::p::msgs::build(&m);
                let y: OutMessage = crate::p::msgs::build(&m);
                n += x.encoded_size() + lib_enc_ref(&x).len() + lib_enc_ref(&y).len() + lib_enc_ref(&x.reply_message()).len();
                n += (x == x.clone()) as usize + (y == y.clone()) as usize;
                let f = AmqpFrame::from_r(&f.r());
                let mut o = BytesMut::new();
                let mut codec = AmqpCodec::<AmqpFrame>::new();
                let _ = codec.encode(f.clone(), &mut o);
                n + o.len() + codec.decode(&mut o).map(|x| (x == Some(f)) as usize).unwrap_or(0)
            };
            go();
            go();
            let a = alloc::live();
            let x = go();
            let b = alloc::live();
            let y = go() + go();
            let d = alloc::live();
            ensure!(
                !(b - a > 0 && d - b >= 2 * (b - a)),
                "{} bytes stay allocated each time these values are made, used and dropped: {} / {:?} / {:?}",
                b - a,
                r.show(),
                t,
                m
            );
            c.count("leak_rounds", 5);
            c.obs(mix(hash_bytes(&enc_min(&r)) ^ hash_str(&t) ^ (x + y) as u64), true, || format!("{} / {:?}", r.show(), t));
            Ok(())
        }
        // the 8-byte header codec on every buffer length and capacity
        "proto" => {
            let n = i as usize % 24;
            let mut b = b"AMQP\x00\x01\x00\x00AMQP\x03\x01\x00\x00AMQP\x02\x01\x00\x00".to_vec();
            b.truncate(n);
            let mut buf = BytesMut::with_capacity(rng.below(64));
            buf.extend_from_slice(&b);
            let mut got = 0;
            while let Ok(Some(_)) = ProtocolIdCodec.decode(&mut buf) {
                got += 1;
                ensure!(got <= 3, "headers out of nothing");
            }
            ensure!(got == n / 8 && buf.len() == n % 8, "{} headers in {} bytes, {} left", got, n, buf.len());
            c.obs(mix(i), true, || format!("{} bytes", n));
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub const C25: Prop = Prop {
    id: "C25",
    rule: "distinct inputs handled in the instrumented build, by bytes and type",
    streams: |t| {
        let mut v = vec![
            st("outlive", OUTLIVE.len() as u64 * t.n(40, 1_500)),
            st("codec", t.k(2_500, 80_000)),
            st("leak", n_entries() * t.n(8, 200)),
            st("leak_made", t.k(800, 30_000)),
            st("proto", 96),
        ];
        let (num, den) = if t == Tier::Quick { (1, 12) } else { (1, 1) };
        v.extend(MIXED.with(|b| borrowed_streams(b, Tier::Quick, num, den)));
        v
    },
    run: c25,
};

#[allow(dead_code)]
fn unused() {
    let _ = dec::<u8>;
}
