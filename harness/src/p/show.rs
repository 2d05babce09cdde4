//! C32: printing is total, harmless and shows the content.

use std::str::Utf8Error;

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodecError, AmqpParseError, Encode, InMessage, OutMessage, ProtocolIdError};
use bytes::Bytes;

use super::hostile::corrupt;
use super::inputs::*;
use crate::conv::*;
use crate::ctx::*;
use crate::entries::{self, text_of, Entry};
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::rval::*;
use crate::spec::*;

thread_local!(static ENTRIES: Vec<Entry> = entries::all());

// ------------------------------------------------------------ errors

/// what the text of the error must contain
fn items(e: &AmqpParseError) -> Vec<String> {
    match e {
        AmqpParseError::Incomplete(Some(n)) => vec![n.to_string()],
        AmqpParseError::InvalidFormatCode(x) | AmqpParseError::UnexpectedFrameType(x) => vec![x.to_string()],
        AmqpParseError::InvalidChar(x) => vec![x.to_string()],
        AmqpParseError::InvalidTimestamp(x) => vec![x.to_string()],
        AmqpParseError::InvalidDescriptor(Descriptor::Ulong(x)) => vec![x.to_string()],
        AmqpParseError::InvalidDescriptor(Descriptor::Symbol(x)) => vec![x.as_str().to_string()],
        AmqpParseError::RequiredFieldOmitted(x) | AmqpParseError::UnknownEnumOption(x) => vec![x.to_string()],
        AmqpParseError::Utf8Error(x) => vec![x.to_string()],
        AmqpParseError::UuidParseError(x) => vec![x.to_string()],
        _ => vec![],
    }
}

pub fn fault(e: &AmqpParseError) -> Res {
    let s = format!("{}", e);
    ensure!(!s.trim().is_empty(), "an error without text: {:?}", e);
    let d = text_of(e)?;
    for x in items(e) {
        ensure!(s.contains(&x), "the text {:?} of {:?} does not say {:?}", s, e, x);
    }
    ensure!(format!("{}", e.clone()) == s && format!("{:?}", e.clone()) == d, "a clone of {:?} prints as {:?}", e, e.clone());
    let c = AmqpCodecError::from(e.clone());
    ensure!(format!("{}", c).contains(&s), "the codec error {:?} does not say {:?}", format!("{}", c), s);
    Ok(())
}

pub fn codec_fault(e: &AmqpCodecError) -> Res {
    let s = format!("{}", e);
    ensure!(!s.trim().is_empty(), "an error without text: {:?}", e);
    text_of(e)?;
    match e {
        AmqpCodecError::ParseError(e) => {
            ensure!(s.contains(&format!("{}", e)), "the codec error {:?} does not say {:?}", s, format!("{}", e));
            fault(e)?
        }
        AmqpCodecError::Io(Some(x)) => ensure!(s.contains(&cause(x)), "{:?} does not name {:?}", s, x),
        _ => {}
    }
    if let AmqpCodecError::Io(_) = e {
    } else {
        ensure!(format!("{}", e.clone()) == s, "a clone of {:?} prints as {:?}", e, e.clone());
    }
    Ok(())
}

fn cause(e: &std::io::Error) -> String {
    e.get_ref().map(|x| x.to_string()).unwrap_or_else(|| e.kind().to_string())
}

fn utf8(b: &[u8]) -> Option<Utf8Error> {
    std::str::from_utf8(b).err()
}

fn some_fault(rng: &mut Rng) -> AmqpParseError {
    let names = ["Role", "code", "next_outgoing_id", "SaslCode", "handle", "condition", "x"];
    match rng.below(12) {
        0 => AmqpParseError::InvalidSize,
        1 => AmqpParseError::NestingTooDeep,
        2 => AmqpParseError::Incomplete(None),
        3 => AmqpParseError::Incomplete(Some(Gen::new(rng).uint(32) as usize)),
        4 => AmqpParseError::InvalidFormatCode(rng.u64() as u8),
        5 => AmqpParseError::InvalidChar(Gen::new(rng).uint(32) as u32),
        6 => AmqpParseError::InvalidTimestamp(Gen::new(rng).int(64)),
        7 => {
            if rng.bool() {
                AmqpParseError::InvalidDescriptor(Descriptor::Ulong(Gen::new(rng).uint(64)))
            } else {
                let s = Gen::new(rng).symbol();
                AmqpParseError::InvalidDescriptor(Descriptor::Symbol(Symbol::from_slice(&s)))
            }
        }
        8 => AmqpParseError::UnexpectedFrameType(rng.u64() as u8),
        9 => AmqpParseError::RequiredFieldOmitted(names[rng.below(names.len())]),
        10 => AmqpParseError::UnknownEnumOption(names[rng.below(names.len())]),
        _ => {
            let n = rng.range(1, 9);
            let mut b = vec![b'a'; rng.below(300)];
            b.extend(rng.bytes(n));
            match utf8(&b) {
                Some(e) => AmqpParseError::Utf8Error(e),
                None => AmqpParseError::InvalidSize,
            }
        }
    }
}

/// distinct faults have distinct texts
fn faults(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let mut seen: Vec<(String, String, String)> = Vec::new();
    for _ in 0..24 {
        let e = some_fault(&mut rng);
        fault(&e)?;
        // what it is, spelled without the library
        let id = match &e {
            AmqpParseError::InvalidDescriptor(Descriptor::Ulong(x)) => format!("descriptor {}", x),
            AmqpParseError::InvalidDescriptor(Descriptor::Symbol(x)) => format!("descriptor :{}", x.as_str()),
            AmqpParseError::InvalidSize => "size".into(),
            AmqpParseError::NestingTooDeep => "nesting".into(),
            AmqpParseError::Incomplete(x) => format!("incomplete {:?}", x),
            AmqpParseError::InvalidFormatCode(x) => format!("format {}", x),
            AmqpParseError::InvalidChar(x) => format!("char {}", x),
            AmqpParseError::InvalidTimestamp(x) => format!("ts {}", x),
            AmqpParseError::UnexpectedFrameType(x) => format!("type {}", x),
            AmqpParseError::RequiredFieldOmitted(x) => format!("field {}", x),
            AmqpParseError::UnknownEnumOption(x) => format!("enum {}", x),
            AmqpParseError::Utf8Error(x) => format!("utf8 {} {:?}", x.valid_up_to(), x.error_len()),
            AmqpParseError::UuidParseError(x) => format!("uuid {}", x),
        };
        let t = (id, format!("{}", e), format!("{:?}", e));
        for o in &seen {
            ensure!((o.0 == t.0) == (o.1 == t.1), "{} reads {:?}, {} reads {:?}", o.0, o.1, t.0, t.1);
            ensure!((o.0 == t.0) == (o.2 == t.2), "{} prints as {:?}, {} as {:?}", o.0, o.2, t.0, t.2);
        }
        c.evals += seen.len() as u64;
        c.obs(hash_str(&t.0), true, || format!("{}: {}", t.0, t.1));
        seen.push(t);
    }
    // the codecs' own
    let n = rng.range(1, 1_000_000);
    let why = format!("wire {} cut", n);
    let io = || std::io::Error::new(std::io::ErrorKind::Other, why.clone());
    let cs = vec![AmqpCodecError::UnparsedBytesLeft, AmqpCodecError::Io(None), AmqpCodecError::from(io()), AmqpCodecError::from(some_fault(&mut rng))];
    for e in &cs {
        codec_fault(e)?;
    }
    let mut texts: Vec<String> = cs.iter().map(|e| format!("{}", e)).collect();
    texts.sort();
    texts.dedup();
    ensure!(texts.len() == cs.len(), "codec errors read alike: {:?}", texts);
    let ids = [p::ProtocolId::Amqp, p::ProtocolId::AmqpTls, p::ProtocolId::AmqpSasl];
    let mut ps = vec![ProtocolIdError::InvalidHeader, ProtocolIdError::Incompatible, ProtocolIdError::Unknown, ProtocolIdError::Disconnected];
    ps.push(ProtocolIdError::from(io()));
    for a in &ids {
        for b in &ids {
            ps.push(ProtocolIdError::Unexpected { exp: *a, got: *b });
        }
    }
    let mut texts = Vec::new();
    for e in &ps {
        let s = format!("{}", e);
        text_of(e)?;
        ensure!(!s.trim().is_empty(), "an error without text: {:?}", e);
        match e {
            ProtocolIdError::Unexpected { exp, got } => {
                let (x, y) = (format!("{:?}", exp), format!("{:?}", got));
                let named: Vec<&str> = s.split(|c: char| !c.is_alphanumeric()).filter(|t| ids.iter().any(|i| format!("{:?}", i) == *t)).collect();
                ensure!(named == [&x[..], &y[..]], "{:?} does not name {} and then {}", s, x, y);
            }
            ProtocolIdError::Io(x) => ensure!(s.contains(&cause(x)), "{:?} does not name {:?}", s, x),
            _ => {}
        }
        texts.push(s);
    }
    let n = texts.len();
    texts.sort();
    texts.dedup();
    ensure!(texts.len() == n, "protocol header errors read alike: {:?}", texts);
    c.evals += (ps.len() + cs.len()) as u64;
    Ok(())
}

// ------------------------------------------------------------ contents

/// each leaf of a value, in the spellings that show it
fn leaves(r: &R, out: &mut Vec<Vec<String>>) {
    let text = |s: &str| {
        let q = format!("{:?}", s);
        vec![s.to_string(), q[1..q.len() - 1].to_string()]
    };
    match r {
        R::Null => {}
        R::Bool(x) => out.push(vec![x.to_string()]),
        R::U8(x) => out.push(vec![x.to_string()]),
        R::U16(x) => out.push(vec![x.to_string()]),
        R::U32(x) => out.push(vec![x.to_string()]),
        R::U64(x) => out.push(vec![x.to_string()]),
        R::I8(x) => out.push(vec![x.to_string()]),
        R::I16(x) => out.push(vec![x.to_string()]),
        R::I32(x) => out.push(vec![x.to_string()]),
        R::I64(x) => out.push(vec![x.to_string()]),
        R::F32(x) => out.push(vec![format!("{:?}", f32::from_bits(*x))]),
        R::F64(x) => out.push(vec![format!("{:?}", f64::from_bits(*x))]),
        R::Char(x) => out.push(std::char::from_u32(*x).map(|c| vec![format!("{:?}", c), c.to_string()]).unwrap_or_else(|| vec!["?".to_string()])),
        R::Ts(x) => out.push(date(*x).map(|d| vec![format!("{:?}", d)]).unwrap_or_else(|| vec!["?".to_string()])),
        R::Uuid(x) => {
            let h = hex(&x[..]);
            out.push(vec![format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])]);
        }
        R::Bin(x) => out.push(vec![format!("{:?}", Bytes::from(&x[..]))]),
        R::Str(s) => out.push(text(s)),
        R::Sym(s) => out.push(text(s)),
        R::List(v) | R::Array(v) => v.iter().for_each(|x| leaves(x, out)),
        R::Map(v) => v.iter().for_each(|x| {
            leaves(&x.0, out);
            leaves(&x.1, out)
        }),
        R::Desc(d, v) => {
            leaves(d, out);
            leaves(v, out)
        }
        #[allow(unreachable_patterns)]
        _ => {}
    }
}

fn says(s: &str, r: &R) -> Result<u64, String> {
    let mut v = Vec::new();
    leaves(r, &mut v);
    let n = v.len() as u64;
    for x in v {
        ensure!(x.iter().any(|x| s.contains(&x[..])), "{} prints as {} without {:?}", r.show(), s, x[0]);
    }
    Ok(n)
}

/// fields by name, and the contents of those that are printed as they are
fn says_comp(s: &str, k: &Comp, r: &R) -> Result<u64, String> {
    let fs = match r {
        R::Desc(_, v) => match &**v {
            R::List(v) => v,
            _ => return Err("harness: not a composite".to_string()),
        },
        _ => return Err("harness: not a composite".to_string()),
    };
    let mut n = 0;
    for (F(name, ty, _), x) in k.fields.iter().zip(fs) {
        ensure!(s.contains(&name[..]), "{} prints as {} without {}", k.name, s, name);
        n += match ty {
            Ty::ErrCond | Ty::DistMode | Ty::En(_) => 0,
            Ty::Comp(k) if *x != R::Null => says_comp(s, k, x)?,
            Ty::OneOf(_) if *x != R::Null => says_comp(s, comp_by_code(code_of(x)), x)?,
            _ => says(s, x)?,
        };
    }
    Ok(n)
}

fn plain_type(name: &str) -> bool {
    !(name.starts_with("p::") && !["p::Map", "p::Fields", "p::StringVariantMap", "p::FilterSet", "p::MessageId"].contains(&name))
        && !name.contains("Option<p::")
        && !name.contains("Frame")
        && !name.contains("Codec")
        && !name.contains("Message")
}

fn shown(c: &mut Ctx, e: &Entry, b: &[u8], what: &str) -> Result<Option<(R, String)>, String> {
    let o = (e.show)(b).map_err(|m| format!("{}: {} (from {})", e.name, m, hex(&b[..b.len().min(600)])))?;
    match &o {
        Some((r, s)) => {
            c.count("values_printed", 1);
            if plain_type(e.name) {
                let n = says(s, r)?;
                c.count("leaves_found_in_print", n);
            }
        }
        None => c.count("refusals_printed", 1),
    }
    c.obs(mix(hash_bytes(b) ^ hash_str(e.name)), o.is_some(), || format!("{} {}: {}", e.name, what, o.as_ref().unwrap().1));
    Ok(o)
}

fn nth<T>(i: u64, f: impl FnOnce(&Entry) -> T) -> T {
    ENTRIES.with(|v| f(&v[i as usize % v.len()]))
}

fn by<T>(name: &str, f: impl FnOnce(&Entry) -> T) -> T {
    ENTRIES.with(|v| f(v.iter().find(|e| e.name == name).expect("harness: entry")))
}

fn legal_print(c: &mut Ctx, i: u64) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    nth(i, |e| {
        if let Some(k) = if e.name.starts_with("p::") { comp_named(&e.name[3..]) } else { None } {
            let r = gen_comp(k, &mut Gen::with_budget(&mut rng, 150));
            let b = comp_rand(k, &r, &mut rng, FREE);
            let (r, s) = match shown(c, e, &b, "composite")? {
                Some(x) => x,
                None => return Err(format!("{} {} refused", e.name, hex(&b))),
            };
            let n = says_comp(&s, k, &r)?;
            c.count("leaves_found_in_print", n);
            return Ok(());
        }
        let (b, _) = legal(e.name, &mut rng, 200);
        shown(c, e, &b, "legal")?;
        Ok(())
    })
}

/// texts of every length, with wide characters at every offset, owned and static
fn texts(c: &mut Ctx, i: u64) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let wide = ['\u{e9}', '\u{6f22}', '\u{1f980}', '"', '\\', '\n', '\0', '{', '}', '%'];
    let lens = [0usize, 1, 7, 8, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 79, 80, 99, 100, 127, 128, 199, 200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 65535, 65536];
    let len = match i % 3 {
        0 => (i / 3) as usize % 300,
        1 => *rng.pick(&lens),
        _ => rng.below(2000),
    };
    let mut s = String::new();
    let lead = rng.below(5);
    let one = *rng.pick(&wide);
    match rng.below(4) {
        0 => {
            s.extend(std::iter::repeat('a').take(lead));
            while s.len() < len {
                s.push(one)
            }
        }
        1 => {
            while s.len() + 4 < len {
                s.push('b')
            }
            s.push(one);
            s.push('c');
        }
        2 => s = Gen::new(&mut rng).text_len(len),
        _ => {
            while s.len() < len {
                s.push(if rng.chance(1, 5) { *rng.pick(&wide) } else { 'x' })
            }
        }
    }
    set_flavor(rng.u64());
    let v = str_of(&s);
    let t = text_of(&v)?;
    ensure!(t.contains(&s[..]), "text {:?} prints as {:?}", s, t);
    let y = Symbol(str_of(&s));
    let t = text_of(&y)?;
    ensure!(t.contains(&s[..]), "symbol {:?} prints as {:?}", s, t);
    let k = Str::Static(Box::leak(s.clone().into_boxed_str()));
    ensure!(text_of(&k)?.contains(&s[..]), "static text {:?} prints as {:?}", s, k);
    let all = R::List(vec![
        R::Str(s.clone()),
        R::Sym(s.clone()),
        R::Bin(s.clone().into_bytes()),
        R::Map(vec![(R::Sym(s.clone()), R::Str(s.clone()))]),
        R::Desc(Box::new(R::Sym(s.clone())), Box::new(R::Str(s.clone()))),
    ]);
    let v = Variant::from_r(&all);
    let t = text_of(&v)?;
    says(&t, &all)?;
    let n = t.matches(&s[..]).count();
    ensure!(s.is_empty() || n >= 5, "text {:?} occurs {} times in {}", s, n, t);
    // where it names something
    let e = AmqpParseError::InvalidDescriptor(Descriptor::Symbol(Symbol(str_of(&s))));
    fault(&e)?;
    let err = p::Error { condition: p::ErrorCondition::Custom(Symbol(str_of(&s))), description: Some(byte_str(&s)), info: None };
    let d = format!("{}", err);
    let esc = format!("{:?}", s);
    ensure!(d.contains(&s[..]) && d.matches(&esc[1..esc.len() - 1]).count() >= 1, "error with {:?} reads {:?}", s, d);
    ensure!(text_of(&err)?.contains(&s[..]), "error with {:?} prints as {:?}", s, err);
    c.obs(hash_str(&s), true, || format!("{} bytes of text: {:?}", s.len(), v));
    c.max("text_length", s.len() as u64);
    Ok(())
}

/// numbers, dates, characters: every one prints as itself, and no two alike
fn scalars(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let mut seen: Vec<(R, String)> = Vec::new();
    for _ in 0..12 {
        let r = loop {
            let r = Gen::new(&mut rng).scalar();
            match r {
                R::F32(b) if f32::from_bits(b).is_nan() => {}
                R::F64(b) if f64::from_bits(b).is_nan() => {}
                R::Str(_) | R::Sym(_) | R::Bin(_) => {}
                r => break r,
            }
        };
        let s = text_of(&Variant::from_r(&r))?;
        says(&s, &r)?;
        for (o, t) in &seen {
            ensure!((*o == r) == (*t == s), "{} prints as {}, {} as {}", o.show(), t, r.show(), s);
        }
        c.evals += seen.len() as u64;
        c.obs(hash_bytes(&enc_min(&r)), true, || format!("{}: {}", r.show(), s));
        seen.push((r, s));
    }
    Ok(())
}

fn trues(r: &R) -> usize {
    match r {
        R::Bool(true) => 1,
        R::List(v) | R::Array(v) => v.iter().map(trues).sum(),
        R::Map(v) => v.iter().map(|x| trues(&x.0) + trues(&x.1)).sum(),
        R::Desc(d, v) => trues(d) + trues(v),
        _ => 0,
    }
}

/// the deepest values decoding lets through, on a small stack
fn deep(c: &mut Ctx, i: u64) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let depth = match i % 3 {
        0 => 127,
        1 => rng.range(100, 127),
        _ => rng.range(1, 127),
    };
    let inner = nest((i / 3) as usize % (NESTS - 1), depth, false, &mut rng);
    let (name, b) = wrap((i / 3 / NESTS as u64) as usize % WRAPS, &inner);
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let o = by(name, |e| (e.show)(&b));
            let o = o.and_then(|x| {
                if let Some((r, s)) = &x {
                    let (n, m) = (trues(r), s.matches("true").count());
                    ensure!(m >= n && n > 0, "{} true values, but {} are printed in {}", n, m, s);
                }
                Ok(x)
            });
            o.map(|x| x.map(|x| x.1.len())).map_err(|m| format!("{} nested {}: {}", name, depth, m.chars().take(400).collect::<String>()))
        })
        .expect("harness: thread")
        .join()
        .map_err(|_| format!("printing {} nested {} deep panicked", name, depth))??;
    c.count(if r.is_some() { "values_printed" } else { "refusals_printed" }, 1);
    c.obs(mix(i ^ depth as u64), r.is_some(), || format!("{} nested {}", name, depth));
    c.max("nesting_printed", if r.is_some() { depth as u64 } else { 0 });
    Ok(())
}

/// built, changed, measured, printed: in any order, printing is not noticed
fn history<M: super::msgs::Msg>(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let m = gen_msg(&mut Gen::with_budget(&mut rng, 150));
    set_flavor(rng.u64());
    let fl = rng.u64();
    let run = |print: bool, seed: u64| -> Result<(Vec<usize>, Vec<u8>, String), String> {
        set_flavor(fl);
        let mut rng = Rng::new(&[seed]);
        let mut x = super::msgs::build::<M>(&m);
        let mut sizes = Vec::new();
        for k in 0..rng.range(1, 8) {
            match rng.below(6) {
                0 => x = x.set_app(Str::from_str(&format!("key{}", rng.below(3))), Variant::Uint(k as u32)),
                1 => x = x.set_value(Variant::Ulong(k as u64)),
                2 => x = x.set_body(|b| b.set_data(Bytes::from(vec![k as u8; k]))),
                3 => x = x.set_props(|p| p.reply_to = Some(byte_str("here"))),
                4 => sizes.push(x.encoded_size()),
                _ => x = x.clone(),
            }
            if print && rng.clone().bool() {
                text_of(&x)?;
            }
        }
        let t = if print { text_of(&x)? } else { String::new() };
        sizes.push(x.encoded_size());
        Ok((sizes, lib_enc(&x), t))
    };
    let seed = rng.u64();
    let (a, ab, _) = run(false, seed)?;
    let (b, bb, t) = run(true, seed)?;
    ensure!(a == b, "{}: sizes {:?} became {:?} by printing", M::NAME, a, b);
    let (x, y) = (sections_r(&ab), sections_r(&bb));
    ensure!(x == y, "{}: {} became {} by printing", M::NAME, x.show(), y.show());
    c.obs(hash_bytes(&ab), true, || format!("{}: {}", M::NAME, t));
    c.count("histories", 1);
    Ok(())
}

fn large(c: &mut Ctx, i: u64) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let n = [70_000, 300_000, 1 << 20][i as usize % 3];
    let r = match i / 3 % 4 {
        0 => R::Str(Gen::new(&mut rng).text_len(n)),
        1 => R::Bin(rng.bytes(n / 4)),
        2 => R::List((0..n as u32 / 16).map(R::U32).collect()),
        _ => R::Map((0..n as u32 / 32).map(|k| (R::U32(k), R::Null)).collect()),
    };
    let v = Variant::from_r(&r);
    let t = text_of(&v)?;
    match &r {
        R::List(x) | R::Array(x) => ensure!(x.iter().all(|x| matches!(x, R::U32(k) if t.contains(&k.to_string()))) || x.len() > 4000, "a list prints without an element"),
        R::Map(_) => {}
        r => {
            says(&t, r)?;
        }
    }
    // both ends of it are there
    if let R::List(x) = &r {
        ensure!(t.contains(&format!("({})", x.len() - 1)) && t.matches("Uint").count() == x.len(), "of {} elements {} are printed", x.len(), t.matches("Uint").count());
    }
    if let R::Map(x) = &r {
        ensure!(t.matches("Uint").count() == x.len(), "of {} keys {} are printed", x.len(), t.matches("Uint").count());
    }
    c.max("text_length", t.len() as u64);
    c.obs(mix(i ^ 0x77), true, || format!("{} bytes printed", t.len()));
    Ok(())
}

fn c32(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "legal" => legal_print(c, i),
        "corrupted" => {
            let mut rng = Rng::new(&[c.rng.u64()]);
            nth(i, |e| {
                let (b, what) = corrupt(e.name, &mut rng, 100);
                if zero_width_bomb(e.name, &b) {
                    return Ok(());
                }
                shown(c, e, &b, what).map(|_| ())
            })
        }
        "errors" => faults(c),
        "texts" => texts(c, i),
        "scalars" => scalars(c),
        "deep" => deep(c, i),
        "history" => {
            if i % 2 == 0 {
                history::<InMessage>(c)
            } else {
                history::<OutMessage>(c)
            }
        }
        "large" => large(c, i),
        s => {
            c.prints = true;
            let r = (super::same::C28.run)(c, &s[7..], i);
            c.prints = false;
            r
        }
    }
}

pub const C32: Prop = Prop {
    id: "C32",
    rule: "one evaluation = one value or error printed in every way (plain, pretty, with flags, into a sink that refuses half) \
           with its parts looked for in the text, or one pair of values or errors whose texts are compared; distinct = \
           distinct inputs, texts, errors and families of contents",
    streams: |t| {
        let n = ENTRIES.with(|v| v.len() as u64);
        vec![
            st("legal", n * t.k(25, 300)),
            st("corrupted", n * t.k(25, 300)),
            st("errors", t.k(700, 7_000)),
            st("texts", t.k(2_000, 20_000)),
            st("scalars", t.k(2_000, 20_000)),
            st("deep", t.n(90, 900)),
            st("history", t.k(2_000, 20_000)),
            st("large", t.n(24, 96)),
            st("differ-composites", t.k(24 * 60, 24 * 600)),
            st("differ-frames", t.k(600, 6_000)),
            st("differ-sasl", t.k(300, 3_000)),
            st("differ-unions", t.k(300, 3_000)),
            st("differ-messages", t.k(1_000, 10_000)),
        ]
    },
    run: c32,
};
