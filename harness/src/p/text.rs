//! C18 (decoded text is text) and C19 (laws of equality, hashing and ordering).

use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{Decode, InMessage};
use bytes::Bytes;
use hashbrown::HashMap;

use super::hostile;
use super::inputs::*;
use crate::conv::*;
use crate::ctx::*;
use crate::entries::{self, dec, Entry, Kind};
use crate::gen::{Gen, STATICS};
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::rval::*;
use crate::spec::*;

thread_local!(static ENTRIES: Vec<Entry> = entries::all());

fn nth<T>(i: u64, f: impl FnOnce(&Entry) -> T) -> T {
    ENTRIES.with(|v| f(&v[i as usize % v.len()]))
}

fn n_entries() -> u64 {
    ENTRIES.with(|v| v.len() as u64)
}

// ------------------------------------------------------------ C18

fn wire(ctor: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![ctor];
    put_be(&mut v, b.len() as u64, if ctor >= 0xb0 { 4 } else { 1 });
    v.extend_from_slice(b);
    v
}

type Dec = fn(&[u8]) -> Result<(R, usize), String>;

/// every way to decode a text on its own: (name, narrow ctor, symbol?, decoder)
static TEXTS: &[(&str, u8, bool, Dec)] = &[
    ("ByteStr", 0xa1, false, dec::<ByteStr>),
    ("Str", 0xa1, false, dec::<Str>),
    ("Symbol", 0xa3, true, dec::<Symbol>),
    ("Variant string", 0xa1, false, dec::<Variant>),
    ("Variant symbol", 0xa3, true, dec::<Variant>),
    ("Option<ByteStr>", 0xa1, false, dec::<Option<ByteStr>>),
    ("ErrorCondition", 0xa3, true, dec::<p::ErrorCondition>),
    ("MessageId", 0xa1, false, dec::<p::MessageId>),
];

fn text_case(c: &mut Ctx, b: &[u8], k: usize, wide: bool) -> Res {
    let (name, ctor, sym, d) = TEXTS[k % TEXTS.len()];
    let ctor = if wide || b.len() > 255 { ctor + 0x10 } else { ctor };
    let e = wire(ctor, b);
    let valid = std::str::from_utf8(b);
    let got = d(&e);
    match (valid, got) {
        (Err(_), Err(_)) => c.count("invalid_refused", 1),
        (Err(_), Ok((r, _))) => {
            return Err(format!("{}: {} is not UTF-8 but decodes to {}", name, hex(&e), r.show()))
        }
        (Ok(s), Ok((r, left))) => {
            let want = if sym { R::sym(s) } else { R::str(s) };
            ensure!(r == want && left == 0, "{}: {} decodes to {} with {} bytes left", name, hex(&e), r.show(), left);
            c.count("valid_accepted", 1);
        }
        (Ok(s), Err(x)) => {
            // symbols are ASCII by the standard
            ensure!(sym && !s.is_ascii(), "{}: valid text {} is refused: {}", name, hex(&e), x);
            c.count("symbol_not_ascii_refused", 1);
        }
    }
    Ok(())
}

/// text of exactly n > 0 bytes that is not UTF-8
pub fn bad_text(rng: &mut Rng, n: usize) -> Vec<u8> {
    static BAD: &[&[u8]] = &[
        &[0x80], &[0xbf], &[0xc0], &[0xc1], &[0xf5], &[0xfe], &[0xff], &[0xc3], &[0xc0, 0x80], &[0xc1, 0xbf],
        &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80],
        &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x92], &[0xf8, 0x88, 0x80, 0x80, 0x80],
        &[0xc3, 0x28], &[0xe2, 0x28, 0xa1],
    ];
    loop {
        let mut v = if rng.bool() { Gen::new(rng).ascii_len(n).into_bytes() } else { Gen::new(rng).text_len(n).into_bytes() };
        let s = *rng.pick(BAD);
        if s.len() > n {
            continue;
        }
        // at the front, at the back, or anywhere
        let at = match rng.below(4) {
            0 => 0,
            1 | 2 => n - s.len(),
            _ => rng.below(n - s.len() + 1),
        };
        v[at..at + s.len()].copy_from_slice(s);
        if std::str::from_utf8(&v).is_err() {
            return v;
        }
    }
}

fn good_text(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Gen::new(rng).text_len(n).into_bytes();
    if n >= 2 && rng.bool() {
        // nothing but multi-byte characters as far as they fit
        v.clear();
        while v.len() < n {
            let left = n - v.len();
            let ch = match rng.below(3) {
                _ if left == 1 => '~',
                0 if left >= 4 => '\u{10ffff}',
                1 if left >= 3 => '\u{ffff}',
                _ => '\u{80}',
            };
            let mut t = [0; 4];
            v.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
        }
    }
    v
}

fn walk(r: &R, f: &mut dyn FnMut(&R)) {
    f(r);
    match r {
        R::List(v) | R::Array(v) => v.iter().for_each(|x| walk(x, f)),
        R::Map(v) => v.iter().for_each(|(a, b)| {
            walk(a, f);
            walk(b, f)
        }),
        R::Desc(a, b) => {
            walk(a, f);
            walk(b, f)
        }
        _ => {}
    }
}

fn any_bad(r: &R) -> Option<String> {
    let mut o = None;
    walk(r, &mut |x| {
        if let R::Bad(s) = x {
            o = Some(s.clone())
        }
    });
    o
}

fn has_text(r: &R, t: &str) -> bool {
    let mut o = false;
    walk(r, &mut |x| match x {
        R::Str(s) | R::Sym(s) if s == t => o = true,
        _ => {}
    });
    o
}

/// errors of a stream surface as text among the frames
fn refused(e: &Entry, r: &Result<(R, usize), String>) -> bool {
    match r {
        Err(_) => true,
        Ok((R::List(v), _)) if e.kind == Kind::Codec => v.iter().any(|x| matches!(x, R::Str(_))),
        Ok(_) => false,
    }
}

static MARK: u32 = 0x10_fedc;

fn put_char(r: R, rng: &mut Rng) -> R {
    // one leaf becomes the marker char
    fn leaves(r: &R) -> usize {
        match r {
            R::List(v) => v.iter().map(leaves).sum(),
            R::Map(v) => v.iter().map(|(a, b)| leaves(a) + leaves(b)).sum(),
            R::Desc(_, b) => leaves(b),
            R::Array(_) => 0,
            _ => 1,
        }
    }
    fn set(r: R, n: &mut isize) -> R {
        match r {
            R::List(v) => R::List(v.into_iter().map(|x| set(x, n)).collect()),
            R::Map(v) => R::Map(
                v.into_iter()
                    .map(|(a, b)| {
                        let a = set(a, n);
                        (a, set(b, n))
                    })
                    .collect(),
            ),
            R::Desc(a, b) => R::Desc(a, Box::new(set(*b, n))),
            x @ R::Array(_) => x,
            x => {
                *n -= 1;
                if *n == -1 {
                    R::Char(MARK)
                } else {
                    x
                }
            }
        }
    }
    let k = leaves(&r);
    if k == 0 {
        return R::List(vec![R::Char(MARK)]);
    }
    let mut n = rng.below(k) as isize;
    set(r, &mut n)
}

fn bad_code(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => 0xd800 + rng.below(0x800) as u32,
        1 => *rng.pick(&[0xd800u32, 0xdfff, 0xdbff, 0xdc00, 0x110000, 0x110001, 0x11ffff, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0xffffffff]),
        2 => 0x110000 + rng.below(0x100000) as u32,
        // a scalar value with something in the top byte
        3 => ((1 + rng.below(255) as u32) << 24) | Gen::new(rng).ch(),
        4 => (0x11 + rng.below(0xef) as u32) << 16 | rng.below(0x10000) as u32,
        5 => 0xffff_0000 | rng.below(0x10000) as u32,
        _ => {
            let x = rng.u64() as u32;
            if x < 0x110000 {
                x | 0x4000_0000
            } else {
                x
            }
        }
    }
}

fn c18(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        // every 1- and 2-byte text, every 3-byte text with a lead byte, 4-byte ones around the limits
        "short" => {
            let b0 = i as u8;
            for k in 0..TEXTS.len() {
                text_case(c, &[b0], k, false)?;
                text_case(c, &[b0], k, true)?;
            }
            let mut n = 0usize;
            for b1 in 0..=255u8 {
                for k in 0..TEXTS.len() {
                    text_case(c, &[b0, b1], k, k % 2 == 1)?;
                }
                if b0 >= 0xc0 {
                    for b2 in 0..=255u8 {
                        n += 1;
                        text_case(c, &[b0, b1, b2], if n % 4 == 0 { n / 4 } else { 0 }, n % 8 == 1)?;
                    }
                }
                if b0 >= 0xf0 {
                    static EDGE: &[u8] = &[0, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
                    for &b2 in EDGE {
                        for &b3 in EDGE {
                            n += 1;
                            text_case(c, &[b0, b1, b2, b3], n, n % 3 == 0)?;
                        }
                    }
                }
            }
            c.evals += n as u64 + 256 * TEXTS.len() as u64;
            c.obs(mix(i), true, || format!("every text of up to 3 bytes starting with {:02x}", b0));
            Ok(())
        }
        // every char, as a char and as text
        "chars" => {
            for code in i * 2048..(i + 1) * 2048 {
                let code = code as u32;
                let mut e = vec![0x73];
                put_be(&mut e, u64::from(code), 4);
                let mut arr = vec![0xe0, 10, 2, 0x73];
                put_be(&mut arr, 0x41, 4);
                put_be(&mut arr, u64::from(code), 4);
                let all: [(Result<(R, usize), String>, R); 4] = [
                    (dec::<char>(&e), R::Char(code)),
                    (dec::<Variant>(&e), R::Char(code)),
                    (dec::<Option<char>>(&e), R::Char(code)),
                    (dec::<Vec<char>>(&arr), R::Array(vec![R::Char(0x41), R::Char(code)])),
                ];
                match std::char::from_u32(code) {
                    Some(ch) => {
                        for (g, want) in &all {
                            ensure!(*g == Ok((want.clone(), 0)), "char {:#x}: {:?}", code, g);
                        }
                        let mut t = [0; 4];
                        let t = ch.encode_utf8(&mut t).as_bytes().to_vec();
                        text_case(c, &t, code as usize, code & 8 == 0)?;
                    }
                    None => {
                        for (g, _) in &all {
                            ensure!(g.is_err(), "char {:#x} is no scalar value but decodes to {:?}", code, g);
                        }
                        // the surrogate written as three bytes
                        let t = [0xe0 | (code >> 12) as u8, 0x80 | (code >> 6) as u8 & 0x3f, 0x80 | code as u8 & 0x3f];
                        text_case(c, &t, code as usize, code & 8 == 0)?;
                    }
                }
            }
            c.evals += 2048 * 5;
            c.obs(mix(i), true, || format!("chars {:#x}..{:#x}", i * 2048, (i + 1) * 2048));
            Ok(())
        }
        "codes" => {
            let mut rng = c.rng.clone();
            for _ in 0..64 {
                let code = bad_code(&mut rng);
                let mut e = vec![0x73];
                put_be(&mut e, u64::from(code), 4);
                let mut arr = vec![0xf0, 0, 0, 0, 9, 0, 0, 0, 1, 0x73];
                put_be(&mut arr, u64::from(code), 4);
                for g in &[dec::<char>(&e), dec::<Variant>(&e), dec::<Vec<char>>(&arr)] {
                    ensure!(g.is_err(), "char {:#x} is no scalar value but decodes to {:?}", code, g);
                }
                c.count("char_refused", 3);
                c.obs(mix(u64::from(code)), true, || format!("char {:#x}", code));
            }
            Ok(())
        }
        // long texts, one fault
        "long" => {
            let mut rng = c.rng.clone();
            for k in 0..TEXTS.len() {
                let n = match rng.below(4) {
                    0 => rng.range(250, 260),
                    1 => rng.range(60, 70),
                    2 => rng.range(1, 40),
                    _ => *rng.pick(&[4095usize, 4096, 8192, 70_000]),
                };
                let b = bad_text(&mut rng, n);
                text_case(c, &b, k, rng.bool())?;
                let g = good_text(&mut rng, n);
                text_case(c, &g, k, rng.bool())?;
                c.obs(hash_bytes(&b), true, || format!("{} bytes: {}", n, hex(&b[..n.min(40)])));
                c.evals += 1;
            }
            Ok(())
        }
        // every text inside every decodable thing
        "positions" => nth(i, |e| {
            let mut rng = c.rng.clone();
            let budget = if rng.chance(1, 6) { 2500 } else { 250 };
            let (b, marks) = legal_with(e.name, &mut rng, budget, FREE);
            let texts: Vec<&Mark> =
                marks.iter().filter(|m| m.kind == CKind::Blob && m.count != 0 && m.end > m.body).collect();
            if texts.is_empty() {
                return Ok(());
            }
            let orig = (e.dec)(&b);
            if refused(e, &orig) {
                // texts may sit behind something the library refuses for its own reasons
                c.count("legal_but_refused", 1);
                return Ok(());
            }
            for _ in 0..texts.len().min(6) {
                let m = *rng.pick(&texts);
                let n = m.end - m.body;
                let mut x = b.clone();
                x[m.body..m.end].copy_from_slice(&bad_text(&mut rng, n));
                let r = (e.dec)(&x);
                ensure!(
                    refused(e, &r),
                    "{}: text {} at byte {} is not UTF-8, yet {} decodes to {:?}",
                    e.name,
                    hex(&x[m.body..m.end]),
                    m.body,
                    hex(&x),
                    r.map(|r| r.0.show())
                );
                c.count("invalid_refused", 1);
                c.obs(mix(hash_bytes(&x) ^ hash_str(e.name)), true, || {
                    format!("{}: {} at byte {} of {}", e.name, hex(&x[m.body..m.end]), m.body, hex(&x))
                });
                if m.count == 1 && e.kind != Kind::Codec {
                    let t = good_text(&mut rng, n);
                    x[m.body..m.end].copy_from_slice(&t);
                    let t = String::from_utf8(t).unwrap();
                    match (e.dec)(&x) {
                        Ok((r, _)) => {
                            ensure!(has_text(&r, &t), "{}: text {:?} of {} is not in {}", e.name, t, hex(&x), r.show())
                        }
                        Err(z) => return Err(format!("{}: valid text {:?} in {} is refused: {}", e.name, t, hex(&x), z)),
                    }
                    c.count("valid_accepted", 1);
                    c.evals += 1;
                }
            }
            Ok(())
        }),
        // an invalid char anywhere in a dynamic value, a message or a performative
        "charpos" => {
            let mut rng = c.rng.clone();
            let r = {
                let mut g = Gen::with_budget(&mut rng, 300);
                g.value(4)
            };
            let r = put_char(r, &mut rng);
            if dup_key(&r).is_some() {
                return Ok(());
            }
            let inner = enc_rand(&r, &mut rng);
            let kind = rng.below(WRAPS);
            let (name, b) = wrap(kind, &inner);
            let mut pat = vec![0x73];
            put_be(&mut pat, u64::from(MARK), 4);
            let at = match b.windows(5).position(|w| w == &pat[..]) {
                Some(x) => x,
                None => return Err("harness: marker not found".to_string()),
            };
            ENTRIES.with(|v| {
                let e = v.iter().find(|e| e.name == name).expect("harness: entry");
                if refused(e, &(e.dec)(&b)) {
                    c.count("legal_but_refused", 1);
                    return Ok(());
                }
                let code = bad_code(&mut rng);
                let mut x = b.clone();
                x[at + 1..at + 5].copy_from_slice(&code.to_be_bytes());
                let r = (e.dec)(&x);
                ensure!(
                    refused(e, &r),
                    "{}: char {:#x} in {} decodes to {:?}",
                    e.name,
                    code,
                    hex(&x),
                    r.map(|r| r.0.show())
                );
                c.count("char_refused", 1);
                c.obs(mix(hash_bytes(&x) ^ hash_str(name)), true, || format!("{}: {}", name, hex(&x)));
                Ok(())
            })
        }
        // whatever is accepted exposes text only
        "accepted" => nth(i, |e| {
            let mut rng = c.rng.clone();
            for _ in 0..6 {
                let (mut b, m) = legal(e.name, &mut rng, 300);
                if rng.bool() {
                    b = hostile::corrupt(e.name, &mut rng, 300).0;
                } else {
                    // noise in the texts, binaries and elsewhere
                    for _ in 0..rng.range(1, 4) {
                        if m.is_empty() {
                            break;
                        }
                        let m = rng.pick(&m);
                        if m.end > m.body {
                            let at = rng.range(m.body, m.end - 1);
                            b[at] = rng.u64() as u8 | 0x80;
                        }
                    }
                }
                if zero_width_bomb(e.name, &b) {
                    continue;
                }
                if let Ok((r, _)) = (e.dec)(&b) {
                    if let Some(x) = any_bad(&r) {
                        if x.starts_with("text") || x.starts_with("char") {
                            return Err(format!("{}: {} decodes to a value holding {}", e.name, hex(&b), x));
                        }
                    }
                    c.count("accepted", 1);
                }
                c.obs(mix(hash_bytes(&b) ^ hash_str(e.name)), true, || format!("{}: {}", e.name, hex(&b)));
            }
            Ok(())
        }),
        _ => unreachable!(),
    }
}

pub const C18: Prop = Prop {
    id: "C18",
    rule: "distinct texts, char codes and inputs with one text or char replaced, by bytes and decoder",
    streams: |t| {
        vec![
            st("short", 256),
            st("chars", 544),
            st("codes", t.k(800, 40_000)),
            st("long", t.k(300, 8_000)),
            st("positions", n_entries() * t.n(60, 2_500)),
            st("charpos", t.k(4_000, 200_000)),
            st("accepted", n_entries() * t.n(60, 2_500)),
        ]
    },
    run: c18,
};

// ------------------------------------------------------------ C19

/// records every write, so that equal values must hash alike under any hasher
#[derive(Default, Clone)]
struct Log(Vec<u8>);
impl Hasher for Log {
    fn finish(&self) -> u64 {
        hash_bytes(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
}

/// sees only how much was written
#[derive(Default)]
struct Weak(u64);
impl Hasher for Weak {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 += b.len() as u64;
    }
}

/// everything collides
#[derive(Default)]
struct Flat;
impl Hasher for Flat {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _: &[u8]) {}
}

fn log_of<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut h = Log::default();
    v.hash(&mut h);
    h.0
}

fn hash_of<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// == both ways, and equal hashes of equal values
fn pair<T: PartialEq + Hash + Debug>(c: &mut Ctx, a: &T, b: &T, want: Option<bool>) -> Res {
    let ab = a == b;
    ensure!(ab == (b == a), "== is not symmetric: {:?} / {:?}", a, b);
    ensure!((a != b) == !ab, "!= is not the opposite of ==: {:?} / {:?}", a, b);
    ensure!(a == a && b == b, "== is not reflexive: {:?} / {:?}", a, b);
    if let Some(w) = want {
        ensure!(ab == w, "{:?} == {:?} is {}", a, b, ab);
    }
    if ab {
        ensure!(log_of(a) == log_of(b), "equal values feed a hasher differently: {:?} / {:?}", a, b);
        ensure!(hash_of(a) == hash_of(b), "equal values hash differently: {:?} / {:?}", a, b);
        c.count("equal_pairs", 1);
    } else {
        c.count("unequal_pairs", 1);
    }
    Ok(())
}

pub fn strs(s: &str) -> Vec<Str> {
    let mut v = vec![Str::from_str(s), Str::from(byte_str(s)), Str::ByteStr(ByteStr::from_str(s))];
    if let Some(x) = static_of(s) {
        v.push(Str::from(x));
        v.push(Str::Static(x));
    }
    if let Some(x) = static_copy(s) {
        v.push(Str::Static(x));
    }
    // as it arrives from the wire
    v.push(Str::decode(&enc_max(&R::str(s))).map(|x| x.1).unwrap_or_else(|e| panic!("string refused: {:?}", e)));
    v
}

fn syms(s: &str) -> Vec<Symbol> {
    let mut v: Vec<Symbol> = strs(s).into_iter().map(Symbol).collect();
    v.push(Symbol::from_slice(s));
    v.push(Symbol::from(byte_str(s)));
    if let Some(x) = static_of(s) {
        v.push(Symbol::from(x));
    }
    v
}

/// texts that are easily confused
fn text_near(rng: &mut Rng, s: &str) -> String {
    match rng.below(9) {
        0 => s.to_string(),
        1 => format!("{}a", s),
        2 => format!("a{}", s),
        3 => s.chars().rev().collect(),
        4 => s.to_uppercase(),
        5 => {
            let mut t = s.to_string();
            t.pop();
            t
        }
        6 => format!("{}\0", s),
        7 => rng.pick(STATICS).to_string(),
        _ => {
            let mut g = Gen::with_budget(rng, 40);
            g.text()
        }
    }
}

fn shuffle<T>(v: &mut Vec<T>, rng: &mut Rng) {
    for i in (1..v.len()).rev() {
        let j = rng.below(i + 1);
        v.swap(i, j);
    }
}

fn shuffled(r: &R, rng: &mut Rng) -> R {
    match r {
        R::List(v) => R::List(v.iter().map(|x| shuffled(x, rng)).collect()),
        R::Desc(a, b) => R::Desc(a.clone(), Box::new(shuffled(b, rng))),
        R::Map(v) => {
            let mut v: Vec<(R, R)> = v.iter().map(|(a, b)| (shuffled(a, rng), shuffled(b, rng))).collect();
            shuffle(&mut v, rng);
            R::Map(v)
        }
        x => x.clone(),
    }
}

/// the same logical value, built in another way
fn build(r: &R, rng: &mut Rng) -> Variant {
    set_flavor(rng.u64());
    let s = shuffled(r, rng);
    match (&s, rng.below(3)) {
        (R::Map(v), 0) => {
            // with a history of growth and removal
            let mut m: HashMap<Variant, Variant> = HashMap::with_capacity(rng.below(60));
            let junk = rng.below(40);
            for k in 0..junk {
                m.insert(Variant::Binary(Bytes::from(vec![0xee, k as u8, 0xee, 1, 2, 3, 4, 5, 6, 7, 8, 9])), Variant::Null);
            }
            for (a, b) in v {
                m.insert(Variant::from_r(a), Variant::Null);
                m.insert(Variant::from_r(a), Variant::from_r(b));
            }
            for k in 0..junk {
                m.remove(&Variant::Binary(Bytes::from(vec![0xee, k as u8, 0xee, 1, 2, 3, 4, 5, 6, 7, 8, 9])));
            }
            if rng.bool() {
                m.shrink_to_fit();
            }
            Variant::Map(VariantMap::new(m))
        }
        (_, 1) => {
            // through the wire
            let b = enc_rand(&s, rng);
            match Variant::decode(&b) {
                Ok((_, v)) => v,
                Err(e) => panic!("value refused: {:?}", e),
            }
        }
        _ => Variant::from_r(&s),
    }
}

/// a value that differs from r in one place (or not at all)
pub fn tweak(r: &R, rng: &mut Rng) -> R {
    match r {
        R::List(v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = rng.below(v.len());
            match rng.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let x = v[i].clone();
                    v.push(x)
                }
                2 => v.reverse(),
                _ => v[i] = tweak(&v[i], rng),
            }
            R::List(v)
        }
        R::Map(v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = rng.below(v.len());
            match rng.below(5) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    // values of two keys exchanged
                    let j = rng.below(v.len());
                    let x = v[i].1.clone();
                    v[i].1 = v[j].1.clone();
                    v[j].1 = x;
                }
                2 => {
                    let k = tweak(&v[i].0, rng);
                    if !v.iter().any(|x| eq_class(&x.0) == eq_class(&k)) {
                        v[i].0 = k;
                    }
                }
                _ => v[i].1 = tweak(&v[i].1, rng),
            }
            R::Map(v).canon()
        }
        R::Desc(a, b) => {
            if rng.bool() {
                let d = match &**a {
                    R::U64(x) => R::U64(x ^ 1),
                    R::Sym(s) => R::Sym(text_near(rng, s)),
                    x => x.clone(),
                };
                R::Desc(Box::new(d), b.clone())
            } else {
                R::Desc(a.clone(), Box::new(tweak(b, rng)))
            }
        }
        R::Str(s) => match rng.below(3) {
            0 => R::Sym(s.clone()),
            1 => R::Bin(s.clone().into_bytes()),
            _ => R::Str(text_near(rng, s)),
        },
        R::Sym(s) => {
            if rng.bool() {
                R::Str(s.clone())
            } else {
                R::Sym(text_near(rng, s))
            }
        }
        R::Bin(b) => {
            let mut b = b.clone();
            if b.is_empty() || rng.bool() {
                b.push(0)
            } else {
                let n = b.len();
                b[n - 1] ^= 1;
            }
            R::Bin(b)
        }
        // another number of the same type
        R::U8(x) if rng.bool() => R::U8(x ^ 1 << rng.below(8)),
        R::U16(x) if rng.bool() => R::U16(x ^ 1 << rng.below(16)),
        R::U32(x) if rng.bool() => R::U32(x ^ 1 << rng.below(32)),
        R::U64(x) if rng.bool() => R::U64(x ^ 1 << rng.below(64)),
        R::I8(x) if rng.bool() => R::I8(x ^ 1 << rng.below(8)),
        R::I16(x) if rng.bool() => R::I16(x ^ 1 << rng.below(16)),
        R::I32(x) if rng.bool() => R::I32(x ^ 1 << rng.below(32)),
        R::I64(x) if rng.bool() => R::I64(x ^ 1 << rng.below(64)),
        R::F32(x) if rng.bool() => R::F32(x ^ 1 << rng.below(32)),
        R::F64(x) if rng.bool() => R::F64(x ^ 1 << rng.below(64)),
        R::Ts(x) if rng.bool() => R::Ts(x ^ 1),
        R::Uuid(x) => {
            let mut x = *x;
            x[rng.below(16)] ^= 1 << rng.below(8);
            R::Uuid(x)
        }
        // same number, another type
        R::U8(x) => R::U16(u16::from(*x)),
        R::U16(x) => R::U32(u32::from(*x)),
        R::U32(x) => R::U64(u64::from(*x)),
        R::U64(x) => R::I64(*x as i64),
        R::I8(x) => R::U8(*x as u8),
        R::I16(x) => R::I32(i32::from(*x)),
        R::I32(x) => R::I32(x ^ 1),
        R::I64(x) => R::Ts((x % 1_000_000) ^ 1),
        R::F32(x) => R::F32(x ^ 0x8000_0000),
        R::F64(x) => R::F64(x ^ (1 << 63)),
        R::Ts(x) => R::Ts(x / 1000 * 1000),
        R::Char(x) => R::U32(*x),
        R::Bool(b) => R::Bool(!b),
        R::Null => R::List(vec![]),
        x => x.clone(),
    }
}

pub fn clean(r: R) -> R {
    // tweaks may have made keys collide
    if dup_key(&eq_class(&r)).is_some() {
        R::Null
    } else {
        r
    }
}

fn c19(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    match s {
        "text" => {
            let a = match rng.below(3) {
                0 => STATICS[i as usize % STATICS.len()].to_string(),
                1 => {
                    let mut g = Gen::with_budget(&mut rng, 300);
                    g.text()
                }
                _ => {
                    let n = rng.below(4);
                    Gen::new(&mut rng).text_len(n)
                }
            };
            let b = text_near(&mut rng, &a);
            let (va, vb) = (strs(&a), strs(&b));
            for x in &va {
                ensure!(x.as_str() == a && x.as_bytes() == a.as_bytes() && x.len() == a.len(), "text of {:?} is not {:?}", x, a);
                ensure!(x.as_bytes_str().to_r() == R::str(&a), "as_bytes_str of {:?}", x);
                ensure!(log_of(x) == log_of(a.as_str()), "{:?} hashes unlike its text", x);
                ensure!(hash_of(x) == hash_of(a.as_str()), "{:?} hashes unlike its text", x);
                let bo: &str = std::borrow::Borrow::borrow(x);
                ensure!(bo == a, "borrowed text of {:?} is {:?}", x, bo);
                for y in &vb {
                    pair(c, x, y, Some(a == b))?;
                    ensure!(x.cmp(y) == a.as_str().cmp(b.as_str()), "{:?} cmp {:?} is {:?}", x, y, x.cmp(y));
                    ensure!(x.partial_cmp(y) == Some(x.cmp(y)), "partial_cmp and cmp of {:?} and {:?} differ", x, y);
                    ensure!(y.cmp(x) == x.cmp(y).reverse(), "cmp is not antisymmetric on {:?} {:?}", x, y);
                    ensure!((x < y) == (a < b) && (x >= y) == (a >= b), "comparison operators on {:?} {:?}", x, y);
                    ensure!((*x == *b) == (a == b), "{:?} == {:?}", x, b);
                }
                for y in &va {
                    pair(c, x, y, Some(true))?;
                }
            }
            let (sa, sb) = (syms(&a), syms(&b));
            for x in &sa {
                ensure!(x.as_str() == a && x.as_bytes() == a.as_bytes() && x.len() == a.len(), "text of {:?} is not {:?}", x, a);
                ensure!(x.as_bytes_str().to_r() == R::str(&a), "as_bytes_str of {:?}", x);
                ensure!(log_of(x) == log_of(a.as_str()), "{:?} hashes unlike its text", x);
                let bo: &str = std::borrow::Borrow::borrow(x);
                ensure!(bo == a, "borrowed text of {:?} is {:?}", x, bo);
                for y in &sb {
                    pair(c, x, y, Some(a == b))?;
                    ensure!((*x == *b) == (a == b), "{:?} == {:?}", x, b);
                }
                for y in &sa {
                    pair(c, x, y, Some(true))?;
                }
            }
            for (x, y) in va.iter().zip(sa.iter()) {
                let (vx, vy) = (Variant::String(x.clone()), Variant::Symbol(y.clone()));
                ensure!((vx == *b) == (a == b) && (vy == *b) == (a == b), "dynamic text {:?} == {:?}", vx, b);
                ensure!(vx.as_str() == Some(a.as_str()) && vy.as_str() == Some(a.as_str()), "as_str of {:?}", vx);
                ensure!(
                    vx.as_bytes_str().map(|t| t.to_r()) == Some(R::str(&a))
                        && vy.as_bytes_str().map(|t| t.to_r()) == Some(R::str(&a)),
                    "as_bytes_str of {:?}",
                    vx
                );
                ensure!(vx != vy, "a string equals a symbol: {:?} {:?}", vx, vy);
            }
            c.evals += (va.len() * vb.len() + sa.len() * sb.len()) as u64;
            c.obs(mix(hash_str(&a) ^ hash_str(&b).rotate_left(9)), true, || format!("{:?} / {:?}", a, b));
            Ok(())
        }
        // maps keyed by text, looked up by plain text
        "lookup" => {
            let n = rng.range(1, if i % 10 == 0 { 120 } else { 12 });
            let mut texts: Vec<String> = Vec::new();
            let mut probes: Vec<String> = Vec::new();
            for _ in 0..n {
                let t = if rng.chance(1, 3) {
                    rng.pick(STATICS).to_string()
                } else {
                    let k = rng.below(20);
                    Gen::new(&mut rng).text_len(k)
                };
                probes.push(text_near(&mut rng, &t));
                if !texts.contains(&t) {
                    texts.push(t);
                }
            }
            probes.extend(texts.iter().cloned());
            let one = |t: &str, rng: &mut Rng| -> Str {
                let v = strs(t);
                v[rng.below(v.len())].clone()
            };
            let mut a: HashMap<Str, usize> = HashMap::new();
            let mut b: HashMap<Symbol, usize> = HashMap::new();
            let mut d: std::collections::HashMap<Str, usize, RandomState> = Default::default();
            let mut e: std::collections::HashMap<Symbol, usize, BuildHasherDefault<Flat>> = Default::default();
            let mut f: std::collections::HashMap<Str, usize, BuildHasherDefault<Weak>> = Default::default();
            let mut g: BTreeMap<Str, usize> = BTreeMap::new();
            let mut va: HashMap<Variant, usize> = HashMap::new();
            let mut h: BTreeSet<Str> = BTreeSet::new();
            for round in 0..2 {
                for (k, t) in texts.iter().enumerate() {
                    let new = [
                        a.insert(one(t, &mut rng), k).is_none(),
                        b.insert(Symbol(one(t, &mut rng)), k).is_none(),
                        d.insert(one(t, &mut rng), k).is_none(),
                        e.insert(Symbol(one(t, &mut rng)), k).is_none(),
                        f.insert(one(t, &mut rng), k).is_none(),
                        g.insert(one(t, &mut rng), k).is_none(),
                        va.insert(Variant::String(one(t, &mut rng)), k).is_none(),
                        h.insert(one(t, &mut rng)),
                    ];
                    // the second insertion, in other storage, must hit the first
                    ensure!(new.iter().all(|x| *x == (round == 0)), "insertion of {:?}, round {}: new entry {:?}", t, round, new);
                }
            }
            for t in &probes {
                let want = texts.iter().position(|x| x == t);
                let k: &str = t;
                let got = [
                    a.get(k).cloned(),
                    b.get(k).cloned(),
                    d.get(k).cloned(),
                    e.get(k).cloned(),
                    f.get(k).cloned(),
                    g.get(k).cloned(),
                    a.get(&one(t, &mut rng)).cloned(),
                    g.get(&one(t, &mut rng)).cloned(),
                    va.get(&Variant::String(one(t, &mut rng))).cloned(),
                ];
                ensure!(got.iter().all(|x| *x == want), "looking up {:?} among {:?} gives {:?}", t, texts, got);
                ensure!(h.contains(k) == want.is_some(), "set lookup of {:?} among {:?}", t, texts);
                ensure!(!va.contains_key(&Variant::Symbol(Symbol(one(t, &mut rng)))), "a symbol finds a string key");
                c.count(if want.is_some() { "lookup_hit" } else { "lookup_miss" }, got.len() as u64);
            }
            let order: Vec<&str> = g.keys().map(|x| x.as_str()).collect();
            let mut sorted: Vec<&str> = texts.iter().map(|x| x.as_str()).collect();
            sorted.sort();
            ensure!(order == sorted, "ordered map holds {:?} instead of {:?}", order, sorted);
            // message properties are looked up by text as well
            let mut m = InMessage::default();
            for (k, t) in texts.iter().enumerate() {
                m = m.set_app_property(one(t, &mut rng), Variant::Ulong(k as u64));
            }
            for t in &probes {
                let want = texts.iter().position(|x| x == t).map(|k| Variant::Ulong(k as u64));
                ensure!(m.app_property(t) == want.as_ref(), "app_property({:?}) is {:?}", t, m.app_property(t));
            }
            c.evals += probes.len() as u64 * 9;
            c.obs(mix(i ^ hash_str(&texts[0])), true, || format!("{:?}", texts));
            Ok(())
        }
        // dynamic values: equal built differently, nearly equal, unrelated
        "pairs" => {
            let r = {
                let mut g = Gen::with_budget(&mut rng, 200);
                let d = i as usize % 5;
                g.value(d)
            };
            if dup_key(&eq_class(&r)).is_some() {
                return Ok(());
            }
            let x = build(&r, &mut rng);
            let y = build(&r, &mut rng);
            pair(c, &x, &y, Some(true))?;
            pair(c, &x, &x.clone(), Some(true))?;
            let mut t = r.clone();
            for _ in 0..3 {
                t = clean(tweak(&t, &mut rng));
                let z = build(&t, &mut rng);
                let same = eq_class(&t) == eq_class(&r);
                pair(c, &x, &z, Some(same))?;
                pair(c, &z, &y, Some(same))?;
                // the same inside containers
                let l = |v: &Variant| List(vec![Variant::Null, v.clone()]);
                pair(c, &l(&x), &l(&z), Some(same))?;
                let dd = |v: &Variant| Variant::Described((Descriptor::Ulong(3), Box::new(v.clone())));
                pair(c, &dd(&x), &dd(&z), Some(same))?;
                c.obs(mix(hash_bytes(&enc_min(&r)) ^ hash_bytes(&enc_min(&t)).rotate_left(7)), true, || {
                    format!("{} / {}: {}", r.show(), t.show(), if same { "equal" } else { "unequal" })
                });
                c.evals += 3;
            }
            Ok(())
        }
        "triples" => {
            // few distinct values in many guises, so that chains of equality occur
            let mut pool: Vec<R> = Vec::new();
            {
                let mut g = Gen::with_budget(&mut rng, 60);
                for _ in 0..2 {
                    let v = g.value(2);
                    pool.push(v);
                }
                pool.push(R::F64(g.f64bits()));
                pool.push(R::F32(g.f32bits()));
            }
            for k in 0..4 {
                let t = tweak(&pool[k], &mut rng);
                pool.push(t);
            }
            pool.push(R::F64(0x7ff8_0000_0000_0000));
            pool.push(R::F64(0xfff8_0000_0000_0001));
            pool.push(R::F64(0));
            pool.push(R::F64(1 << 63));
            let pool: Vec<R> = pool.into_iter().map(clean).collect();
            let vs: Vec<Variant> = pool.iter().chain(pool.iter()).map(|r| build(r, &mut rng)).collect();
            let eq: Vec<Vec<bool>> = vs.iter().map(|a| vs.iter().map(|b| a == b).collect()).collect();
            for a in 0..vs.len() {
                ensure!(eq[a][a], "{:?} is unequal to itself", vs[a]);
                for b in 0..vs.len() {
                    ensure!(eq[a][b] == eq[b][a], "== is not symmetric: {:?} {:?}", vs[a], vs[b]);
                    if !eq[a][b] {
                        continue;
                    }
                    ensure!(log_of(&vs[a]) == log_of(&vs[b]), "equal values hash differently: {:?} {:?}", vs[a], vs[b]);
                    for d in 0..vs.len() {
                        ensure!(
                            !eq[b][d] || eq[a][d],
                            "== is not transitive: {:?} {:?} {:?}",
                            vs[a],
                            vs[b],
                            vs[d]
                        );
                    }
                }
            }
            c.evals += (vs.len() * vs.len()) as u64;
            c.count("triples", (vs.len() * vs.len() * vs.len()) as u64);
            c.obs(mix(i ^ hash_bytes(&enc_min(&pool[0]))), true, || format!("{:?}", vs[0]));
            Ok(())
        }
        // any value, maps included, as a key
        "keys" => {
            let n = rng.range(2, 20);
            let mut keys: Vec<R> = Vec::new();
            for k in 0..n {
                let r = if k % 3 == 2 && !keys.is_empty() {
                    let r = rng.pick(&keys).clone();
                    clean(tweak(&r, &mut rng))
                } else {
                    let mut g = Gen::with_budget(&mut rng, 60);
                    match g.rng.below(3) {
                        0 => g.map(2),
                        1 => R::Map(vec![(R::U8(k as u8), g.map(1))]),
                        _ => g.value(2),
                    }
                };
                if dup_key(&eq_class(&r)).is_none() {
                    keys.push(r);
                }
            }
            let mut classes: Vec<R> = Vec::new();
            let mut a: HashMap<Variant, usize> = HashMap::new();
            let mut b: std::collections::HashMap<Variant, usize, RandomState> = Default::default();
            let mut f: std::collections::HashMap<Variant, usize, BuildHasherDefault<Weak>> = Default::default();
            let mut l: std::collections::HashMap<List, usize, RandomState> = Default::default();
            let mut sets = std::collections::HashSet::new();
            for r in &keys {
                let e = eq_class(r);
                let k = match classes.iter().position(|x| *x == e) {
                    Some(k) => k,
                    None => {
                        classes.push(e);
                        classes.len() - 1
                    }
                };
                a.insert(build(r, &mut rng), k);
                b.insert(build(r, &mut rng), k);
                f.insert(build(r, &mut rng), k);
                l.insert(List(vec![build(r, &mut rng)]), k);
                if let Variant::Map(m) = build(r, &mut rng) {
                    sets.insert(m);
                }
            }
            let maps = classes.iter().filter(|r| matches!(r, R::Map(_))).count();
            ensure!(
                a.len() == classes.len() && b.len() == a.len() && f.len() == a.len() && l.len() == a.len() && sets.len() == maps,
                "{} distinct keys {:?}, but the maps hold {}, {}, {}, {} and the set of maps {} of {}",
                classes.len(), classes, a.len(), b.len(), f.len(), l.len(), sets.len(), maps
            );
            for r in &keys {
                let e = eq_class(r);
                let k = classes.iter().position(|x| *x == e);
                let x = build(r, &mut rng);
                let got = [a.get(&x).cloned(), b.get(&x).cloned(), f.get(&x).cloned(), l.get(&List(vec![x.clone()])).cloned()];
                ensure!(got.iter().all(|g| *g == k), "key {} found as {:?} instead of {:?}", r.show(), got, k);
                let t = clean(tweak(r, &mut rng));
                let k = classes.iter().position(|x| *x == eq_class(&t));
                let x = build(&t, &mut rng);
                let got = [a.get(&x).cloned(), b.get(&x).cloned(), f.get(&x).cloned()];
                ensure!(got.iter().all(|g| *g == k), "key {} found as {:?} instead of {:?}", t.show(), got, k);
                c.count(if k.is_some() { "lookup_hit" } else { "lookup_miss" }, 3);
            }
            // a map of maps equals itself however it was put together
            let whole = R::Map(classes.iter().filter(|r| any_bad(r).is_none()).map(|r| (r.clone(), R::Null)).collect());
            if dup_key(&eq_class(&whole)).is_none() {
                pair(c, &build(&whole, &mut rng), &build(&whole, &mut rng), Some(true))?;
            }
            c.evals += keys.len() as u64 * 7;
            c.obs(mix(i ^ hash_bytes(&enc_min(&keys[0]))), true, || format!("{} keys, {} classes", keys.len(), classes.len()));
            Ok(())
        }
        // text, descriptors and multiples inside composites
        "parts" => {
            let n = rng.below(8);
            let a = Gen::new(&mut rng).ascii_len(n);
            let b = if rng.bool() { a.clone() } else { text_near(&mut rng, &a) };
            let x = syms(&a);
            let y = syms(&b);
            let (x, y) = (rng.pick(&x).clone(), rng.pick(&y).clone());
            let same = a == b;
            pair(c, &Descriptor::Symbol(x.clone()), &Descriptor::Symbol(y.clone()), Some(same))?;
            pair(c, &Multiple(vec![x.clone(), y.clone()]), &Multiple(vec![y.clone(), x.clone()]), Some(same))?;
            pair(c, &Variant::Symbol(x.clone()), &Variant::Symbol(y.clone()), Some(same))?;
            let (cx, cy) = (p::ErrorCondition::Custom(x.clone()), p::ErrorCondition::Custom(y.clone()));
            ensure!((cx == cy) == same, "custom conditions {:?} {:?}", cx, cy);
            let (dx, dy) = (p::DistributionMode::Custom(x.clone()), p::DistributionMode::Custom(y.clone()));
            ensure!((dx == dy) == same, "custom distribution modes {:?} {:?}", dx, dy);
            let fx: p::Fields = vec![(x.clone(), Variant::Null), (Symbol::from("other"), Variant::Boolean(true))].into_iter().collect();
            let fy: p::Fields = vec![(Symbol::from_slice("other"), Variant::Boolean(true)), (y.clone(), Variant::Null)].into_iter().collect();
            if a != "other" && b != "other" {
                ensure!((fx == fy) == same, "maps {:?} {:?}", fx, fy);
                ensure!(fx.get(b.as_str()).is_some() == same, "{:?} in {:?}", b, fx);
            }
            c.obs(mix(hash_str(&a) ^ hash_str(&b).rotate_left(5)), true, || format!("{:?} / {:?}", a, b));
            Ok(())
        }
        _ => unreachable!(),
    }
}

#[allow(dead_code)]
fn random_state() -> u64 {
    RandomState::new().build_hasher().finish()
}

pub const C19: Prop = Prop {
    id: "C19",
    rule: "distinct pairs, triples and key sets of texts and dynamic values, by content",
    streams: |t| {
        vec![
            st("text", t.k(6_000, 200_000)),
            st("lookup", t.k(1_500, 40_000)),
            st("pairs", t.k(25_000, 900_000)),
            st("triples", t.k(1_500, 50_000)),
            st("keys", t.k(5_000, 150_000)),
            st("parts", t.k(4_000, 100_000)),
        ]
    },
    run: c19,
};
