//! C31: the generator follows the specification it is given. The cases run against types generated from a random
//! extension of the shipped specification (extra.rs says what it holds); with the shipped one there are none.

use super::comps::*;
use crate::by_comp;
use crate::conv::*;
use crate::ctx::*;
use crate::entries::dec;
use crate::extra;
use crate::gen::Gen;
use crate::rng::{hash_bytes, hash_str};
use crate::rval::*;
use crate::spec::*;
use amqp_codec::{Decode, Encode};

/// what a described member that is no composite holds
#[derive(Clone, Copy)]
#[allow(dead_code)]
pub enum Kind {
    SymMap,
    StrMap,
    Bin,
    List,
    Any,
}

#[allow(dead_code)]
pub enum Member {
    Comp(&'static Comp),
    Value(&'static str, u64, &'static str, Kind),
}

impl Member {
    fn name(&self) -> &'static str {
        match self {
            Member::Comp(c) => c.name,
            Member::Value(n, ..) => n,
        }
    }
    fn code(&self) -> u64 {
        match self {
            Member::Comp(c) => c.code,
            Member::Value(_, c, ..) => *c,
        }
    }
    fn sym(&self) -> &'static str {
        match self {
            Member::Comp(c) => c.sym,
            Member::Value(_, _, s, _) => s,
        }
    }
    fn gen(&self, g: &mut Gen) -> R {
        let (code, v) = match self {
            Member::Comp(c) => return gen_comp(c, g),
            Member::Value(_, code, _, k) => (
                *code,
                match k {
                    Kind::SymMap => g.sym_map(),
                    Kind::StrMap => g.str_map(),
                    Kind::Bin => R::Bin(g.bin()),
                    Kind::List => g.list(2),
                    Kind::Any => g.value(3),
                },
            ),
        };
        R::desc(code, v)
    }
    /// a value of the right descriptor and the wrong content
    fn wrong(&self, g: &mut Gen) -> Option<R> {
        for _ in 0..30 {
            let x = any_value(g);
            let fits = match (self, &x) {
                (Member::Comp(_), R::List(_)) => true,
                (Member::Value(_, _, _, Kind::Any), _) => true,
                (Member::Value(_, _, _, Kind::Bin), R::Bin(_)) => true,
                (Member::Value(_, _, _, Kind::List), R::List(_)) => true,
                (Member::Value(_, _, _, Kind::SymMap), R::Map(v)) => v.iter().all(|e| matches!(e.0, R::Sym(_))),
                (Member::Value(_, _, _, Kind::StrMap), R::Map(v)) => v.iter().all(|e| matches!(e.0, R::Str(_))),
                _ => false,
            };
            if !fits {
                return Some(x);
            }
        }
        None
    }
    fn encode(&self, r: &R, c: &mut Ctx, form: u64) -> Vec<u8> {
        let f = match form % 4 {
            0 => Form::Min,
            1 => Form::Max,
            _ => Form::Rand(&mut c.rng),
        };
        let mut e = Enc::new(f);
        match (self, r) {
            (Member::Comp(k), _) => enc_comp(&mut e, k, r, EncOpt { sym: true, extra: form % 2 == 1, omit: true }),
            (_, R::Desc(_, v)) => {
                enc_descriptor(&mut e, self.code(), self.sym(), FREE);
                e.value(v);
            }
            _ => panic!("harness: member"),
        }
        e.out
    }
}

pub struct Group {
    pub name: &'static str,
    pub members: Vec<Member>,
    dec: DecFn,
    opt: DecFn,
    enc: fn(&R) -> (Vec<u8>, usize),
    exact: fn(&mut Ctx, &R) -> Res,
    same: fn(&R, &R) -> bool,
}

fn g_enc<T: FromR + Encode>(r: &R) -> (Vec<u8>, usize) {
    let v = T::from_r(r);
    (lib_enc(&v), v.encoded_size())
}
fn g_exact<T: FromR + Encode>(c: &mut Ctx, r: &R) -> Res {
    super::subj::exact_fit(&T::from_r(r), &mut c.rng, "group")
}
fn g_same<T: FromR + PartialEq + Clone>(a: &R, b: &R) -> bool {
    let x = T::from_r(a);
    x.clone() == T::from_r(b)
}

#[allow(dead_code)]
pub fn group<T>(name: &'static str, members: Vec<Member>) -> Group
where
    T: FromR + ToR + Encode + Decode + PartialEq + Clone,
    Option<T>: Decode,
{
    Group { name, members, dec: dec::<T>, opt: dec::<Option<T>>, enc: g_enc::<T>, exact: g_exact::<T>, same: g_same::<T> }
}

thread_local! {
    static COMPS: Vec<Ops> = extra::comps();
    static ENUMS_X: Vec<EnT> = extra::enums();
    static GROUPS: Vec<Group> = extra::groups();
    static POOL: Vec<&'static Comp> = {
        let mut v = ALL.to_vec();
        v.extend(extra::comps().iter().map(|o| o.comp));
        v
    };
}

/// encodings and library values of one composite
fn full(c: &mut Ctx, s: &str, o: &Ops, k: u64) -> Res {
    let (comp, r) = match comp_case_of(c, o.comp, s, k) {
        Some(x) => x,
        None => return Ok(()),
    };
    for k in 0..3 {
        let opt = EncOpt { sym: true, extra: k == 1, omit: true };
        let b = match k {
            0 => comp_bytes(comp, &r, Form::Min, opt),
            _ => comp_rand(comp, &r, &mut c.rng, opt),
        };
        (o.c06)(c, comp, &r, &b)?;
    }
    (o.c07)(c, comp, &r)?;
    (o.c03)(c, comp, &r)?;
    c.count("composites", 1);
    Ok(())
}

fn no_panic(c: &mut Ctx, name: &str, f: DecFn, b: &[u8], must_fail: bool) -> Res {
    c.obs(hash_bytes(b) ^ hash_str(name), true, || format!("{} given {}", name, hex(&b[..b.len().min(60)])));
    match f(b) {
        Ok((r, _)) => {
            c.count("damaged_accepted", 1);
            ensure!(!must_fail, "{}: cut short, {} accepted as {}", name, hex(b), r.show());
        }
        Err(_) => c.count("damaged_refused", 1),
    }
    Ok(())
}

fn damage(c: &mut Ctx, name: &str, f: DecFn, good: &[u8]) -> Res {
    for _ in 0..6 {
        let n = c.rng.below(good.len());
        no_panic(c, name, f, &good[..n], true)?;
    }
    for _ in 0..6 {
        let mut b = good.to_vec();
        for _ in 0..c.rng.range(1, 3) {
            let at = c.rng.below(b.len());
            b[at] = match c.rng.below(4) {
                0 => b[at].wrapping_add(1),
                1 => b[at].wrapping_sub(1),
                2 => b[at] ^ (1 << c.rng.below(8)),
                _ => c.rng.u64() as u8,
            };
        }
        no_panic(c, name, f, &b, false)?;
    }
    Ok(())
}

fn one_group(c: &mut Ctx, s: &str, g: &Group, i: u64) -> Res {
    let m = &g.members[i as usize % g.members.len()];
    let mut ge = Gen::with_budget(&mut c.rng, 300);
    let r = m.gen(&mut ge).canon();
    match s {
        "groups" => {
            for form in 0..4 {
                let b = m.encode(&r, c, form);
                c.obs(hash_bytes(&b) ^ hash_str(g.name), true, || format!("{}: {} from {}", g.name, r.show(), hex(&b)));
                for f in &[g.dec, g.opt] {
                    let (x, left) = f(&b).map_err(|e| {
                        format!("{}: encoding {} of its member {} refused: {}", g.name, hex(&b), m.name(), e)
                    })?;
                    ensure!(
                        left == 0 && x.clone().canon() == r,
                        "{}: {} decodes as {} ({} left, from {})",
                        g.name,
                        r.show(),
                        x.show(),
                        left,
                        hex(&b)
                    );
                }
                c.count("group_members_decoded", 1);
            }
            let (e, n) = (g.enc)(&r);
            ensure!(n == e.len(), "{}: {} announces {} bytes and encodes as {}", g.name, r.show(), n, hex(&e));
            (g.exact)(c, &r)?;
            match m {
                Member::Comp(k) => layout(k, &r, &e).map_err(|x| format!("{}: {}", g.name, x))?,
                _ => {
                    let w = dec_strict(&e).map_err(|x| format!("{}: {} encodes as {}: {}", g.name, r.show(), hex(&e), x))?;
                    ensure!(w.clone().canon() == r, "{}: {} encodes as {} = {}", g.name, r.show(), hex(&e), w.show());
                }
            }
            let (x, left) = (g.dec)(&e).map_err(|x| format!("{}: own encoding {}: {}", g.name, hex(&e), x))?;
            ensure!(left == 0 && x.clone().canon() == r, "{}: {} comes back as {}", g.name, r.show(), x.show());
            ensure!((g.same)(&r, &r), "{}: {} differs from itself", g.name, r.show());
            let other = &g.members[c.rng.below(g.members.len())];
            let q = other.gen(&mut Gen::with_budget(&mut c.rng, 300)).canon();
            // -0 and NaN compare by their own rules
            if other.code() != m.code() {
                ensure!(!(g.same)(&r, &q), "{}: {} equals {}", g.name, r.show(), q.show());
            }
            c.count("group_values", 1);
            Ok(())
        }
        "strangers" => {
            // descriptors of other types, known and unknown, with content that fits some member
            let e = m.encode(&r, c, 0);
            let body = e[3..].to_vec();
            let mut ds: Vec<R> = (0..256).map(R::U64).collect();
            for k in 0..20 {
                let x = c.rng.u64() >> (3 * k);
                ds.push(R::U64(x));
            }
            for x in &g.members {
                ds.push(R::U64(x.code() << 32));
                ds.push(R::U64(x.code() | 1 << 8));
                ds.push(R::sym(&x.sym()[..x.sym().len() - 1]));
                ds.push(R::Sym(format!("{}x", x.sym())));
                ds.push(R::str(x.sym()));
                ds.push(R::U32(x.code() as u32));
                ds.push(R::U8(x.code() as u8));
            }
            POOL.with(|v| ds.extend(v.iter().map(|x| R::sym(x.sym))));
            ds.extend(SECTION_SYMS.iter().map(|x| R::sym(x.1)));
            for d in ds {
                if g.members.iter().any(|x| d == R::U64(x.code()) || d == R::sym(x.sym())) {
                    continue;
                }
                let mut b = vec![0];
                b.extend(enc_rand(&d, &mut c.rng));
                b.extend(&body);
                c.obs(hash_bytes(&b) ^ hash_str(g.name), true, || format!("{} under descriptor {:?}", g.name, d));
                c.count("strangers", 1);
                if let Ok((x, _)) = (g.dec)(&b) {
                    return Err(format!("{}: descriptor {:?} accepted as {} (bytes {})", g.name, d, x.show(), hex(&b)));
                }
            }
            Ok(())
        }
        "contents" => {
            let x = match m.wrong(&mut Gen::with_budget(&mut c.rng, 60)) {
                Some(x) if x != R::Null && !matches!(&x, R::Array(v) if v.is_empty()) => x,
                _ => return Ok(()),
            };
            let mut e = Enc::new(Form::Rand(&mut c.rng));
            enc_descriptor(&mut e, m.code(), m.sym(), FREE);
            e.value(&x);
            let b = e.out;
            c.obs(hash_bytes(&b) ^ hash_str(g.name), true, || format!("{}: {} holding {}", g.name, m.name(), x.show()));
            c.count("wrong_contents", 1);
            if let Ok((y, _)) = (g.dec)(&b) {
                return Err(format!("{}: {} holding {} accepted as {} ({})", g.name, m.name(), x.show(), y.show(), hex(&b)));
            }
            Ok(())
        }
        _ => {
            let b = m.encode(&r, c, 2);
            damage(c, g.name, g.dec, &b)
        }
    }
}

fn c31(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "patterns" | "pad" | "fields" => COMPS.with(|v| full(c, s, &v[i as usize % v.len()], i / v.len() as u64)),
        "missing" | "nulls" | "wrongtype" | "descriptors" | "notalist" => {
            COMPS.with(|v| POOL.with(|pool| c06_one(c, s, &v[i as usize % v.len()], pool)))
        }
        "damage" => COMPS.with(|v| {
            let o = &v[i as usize % v.len()];
            let r = gen_comp(o.comp, &mut Gen::with_budget(&mut c.rng, 200));
            let b = comp_rand(o.comp, &r, &mut c.rng, FREE);
            damage(c, o.comp.name, o.dec, &b)
        }),
        "members" => ENUMS_X.with(|v| en_members(c, &v[i as usize])),
        "codes" => ENUMS_X.with(|v| {
            let t = &v[i as usize % v.len()];
            en_codes(c, t, i / v.len() as u64)?;
            for x in t.en.vals {
                let n = match x.r() {
                    R::U8(x) => u64::from(x),
                    R::U16(x) => u64::from(x),
                    R::U32(x) => u64::from(x),
                    R::U64(x) => x,
                    _ => continue,
                };
                for y in &[n.wrapping_sub(1), n.wrapping_add(1), n << 8, n >> 8, n << 32, n.swap_bytes(), n | 1 << 33] {
                    for w in &[R::U8(*y as u8), R::U16(*y as u16), R::U32(*y as u32), R::U64(*y)] {
                        en_one(c, t, w)?;
                    }
                }
            }
            Ok(())
        }),
        "symbols" => ENUMS_X.with(|v| {
            let t = &v[i as usize % v.len()];
            let mut names: Vec<String> = Vec::new();
            let mut g = Gen::new(&mut c.rng);
            for e in v.iter() {
                for x in e.en.vals {
                    if let V::S(x) = x {
                        names.extend(near(x, &mut g));
                    }
                }
            }
            names.sort();
            names.dedup();
            for n in &names {
                en_one(c, t, &R::sym(n))?;
                en_one(c, t, &R::str(n))?;
            }
            Ok(())
        }),
        "types" => ENUMS_X.with(|v| {
            let t = &v[i as usize % v.len()];
            let r = any_value(&mut Gen::with_budget(&mut c.rng, 100));
            if r == R::Null {
                return Ok(());
            }
            en_one(c, t, &r)
        }),
        "groups" | "strangers" | "contents" | "group-damage" => {
            GROUPS.with(|v| one_group(c, s, &v[i as usize % v.len()], i / v.len() as u64))
        }
        // the types that were there before
        "old" => {
            let comp = ALL[i as usize % ALL.len()];
            let o = by_comp!(comp, ops(comp));
            full(c, "fields", &o, i / ALL.len() as u64)
        }
        "old-refused" => {
            let comp = ALL[i as usize % ALL.len()];
            let o = by_comp!(comp, ops(comp));
            let k = ["missing", "nulls", "wrongtype", "descriptors", "notalist"][(i / ALL.len() as u64 % 5) as usize];
            POOL.with(|pool| c06_one(c, k, &o, pool))
        }
        _ => unreachable!(),
    }
}

pub const C31: Prop = Prop {
    id: "C31",
    rule: "one evaluation = one encoding, value or wire code put to a type that the crate's generator made from an \
           extended specification; distinct = distinct (type, bytes)",
    streams: |t| {
        let n = COMPS.with(|v| v.len()) as u64;
        let e = ENUMS_X.with(|v| v.len()) as u64;
        let g = GROUPS.with(|v| v.len()) as u64;
        let deep = COMPS.with(|v| v.iter().map(|o| o.comp.fields.len()).filter(|x| *x < 60).max().unwrap_or(0)) as u64;
        vec![
            st("patterns", n * 3 * deep),
            st("pad", n * pad_sizes(Tier::Quick).len() as u64),
            st("fields", n * t.n(700, 12_000)),
            st("missing", n * t.n(6, 100)),
            st("nulls", n * t.n(120, 3_000)),
            st("wrongtype", n * t.n(400, 8_000)),
            st("notalist", n * t.n(60, 1_000)),
            st("descriptors", n * t.n(4, 40)),
            st("damage", n * t.n(120, 4_000)),
            st("members", e),
            st("codes", e * t.n(12, 256)),
            st("symbols", e * t.n(1, 10)),
            st("types", e * t.n(1_500, 20_000)),
            st("groups", g * t.n(1_500, 30_000)),
            st("strangers", g * t.n(40, 500)),
            st("contents", g * t.n(600, 10_000)),
            st("group-damage", g * t.n(300, 8_000)),
            st("old", ALL.len() as u64 * t.n(60, 1_500)),
            st("old-refused", ALL.len() as u64 * t.n(30, 400)),
        ]
    },
    run: c31,
};
