//! A "subject": one library value together with everything the encode-side properties look at.

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{Decode, Encode};
use bytes::{BufMut, Bytes, BytesMut};
use hashbrown::HashMap;
use uuid::Uuid;

use crate::conv::*;
use crate::ctx::Res;
use crate::entries::Ts;
use crate::rng::Rng;
use crate::rval::*;

pub struct Subj {
    pub ty: String,
    /// logical value put in
    pub r: R,
    pub size: usize,
    pub enc: Vec<u8>,
    /// decoded again: (value, bytes left)
    pub back: Result<(R, usize), String>,
    /// library equality of the decoded value with the original
    pub eq: Option<bool>,
    pub exact: Box<dyn Fn(&mut Rng) -> Res>,
    /// map entry order is significant
    pub ordered: bool,
    /// constructed from an Option: R::Null is absence
    pub dec: fn(&[u8]) -> Result<(R, usize), String>,
}

/// encode into a buffer holding `pre` and having exactly `encoded_size` bytes of room left
pub fn exact_fit<T: Encode + ?Sized>(v: &T, rng: &mut Rng, what: &str) -> Res {
    let n = v.encoded_size();
    let pre = match rng.below(3) {
        0 => vec![],
        1 => rng.bytes(40),
        _ => {
            let k = rng.range(1, 90);
            rng.bytes(k)
        }
    };
    // force heap storage (BytesMut keeps up to 31 bytes inline, which would give spare room)
    let cap = (pre.len() + n).max(64);
    let mut b = BytesMut::with_capacity(cap);
    b.extend_from_slice(&pre);
    let room = b.remaining_mut();
    if room > n {
        // take up the excess with filler so that exactly n bytes are free
        let fill = vec![0x5a; room - n];
        b.extend_from_slice(&fill);
    }
    ensure!(b.remaining_mut() == n, "harness: room {} instead of {}", b.remaining_mut(), n);
    let before = b.to_vec();
    v.encode(&mut b);
    ensure!(
        b.len() == before.len() + n,
        "{}: announced size {} but {} bytes appended",
        what,
        n,
        b.len() - before.len()
    );
    ensure!(b[..before.len()] == before[..], "{}: bytes already in the buffer were changed", what);
    let again = lib_enc_ref(v);
    ensure!(again == b[before.len()..].to_vec(), "{}: encoding depends on the buffer", what);
    Ok(())
}

pub fn lib_enc_ref<T: Encode + ?Sized>(v: &T) -> Vec<u8> {
    let n = v.encoded_size();
    let mut b = BytesMut::with_capacity(n + n / 2 + 256);
    v.encode(&mut b);
    b.to_vec()
}

pub fn subj<T>(ty: &str, r: &R, use_eq: bool) -> Subj
where
    T: Decode + Encode + FromR + ToR + PartialEq + 'static,
{
    subj_of(ty, r, T::from_r(r), use_eq)
}

pub fn subj_of<T>(ty: &str, r: &R, v: T, use_eq: bool) -> Subj
where
    T: Decode + Encode + ToR + PartialEq + 'static,
{
    let size = v.encoded_size();
    let enc = lib_enc(&v);
    let (back, eq) = match lib_dec::<T>(&enc) {
        Ok((v2, n)) => {
            let eq = if use_eq { Some(v == v2 && v2 == v) } else { None };
            (Ok((v2.to_r(), n)), eq)
        }
        Err(e) => (Err(e), None),
    };
    let name = ty.to_string();
    Subj {
        ty: ty.to_string(),
        r: r.clone(),
        size,
        enc,
        back,
        eq,
        exact: Box::new(move |rng| exact_fit(&v, rng, &name)),
        ordered: false,
        dec: crate::entries::dec::<T>,
    }
}

/// run `$f::<T>` for every library type that represents the scalar
#[macro_export]
macro_rules! scalar_types {
    ($r:expr, $f:ident ( $($a:expr),* )) => {
        match $r {
            R::Bool(_) => { $f::<bool>("bool", $($a),*); }
            R::U8(_) => { $f::<u8>("u8", $($a),*); }
            R::U16(_) => { $f::<u16>("u16", $($a),*); }
            R::U32(_) => { $f::<u32>("u32", $($a),*); }
            R::U64(_) => { $f::<u64>("u64", $($a),*); }
            R::I8(_) => { $f::<i8>("i8", $($a),*); }
            R::I16(_) => { $f::<i16>("i16", $($a),*); }
            R::I32(_) => { $f::<i32>("i32", $($a),*); }
            R::I64(_) => { $f::<i64>("i64", $($a),*); }
            R::F32(_) => { $f::<f32>("f32", $($a),*); }
            R::F64(_) => { $f::<f64>("f64", $($a),*); }
            R::Char(_) => { $f::<char>("char", $($a),*); }
            R::Ts(_) => { $f::<Ts>("timestamp", $($a),*); }
            R::Uuid(_) => { $f::<Uuid>("uuid", $($a),*); }
            R::Bin(_) => { $f::<Bytes>("binary", $($a),*); }
            R::Str(_) => { $f::<ByteStr>("ByteStr", $($a),*); $f::<Str>("Str", $($a),*); }
            R::Sym(_) => { $f::<Symbol>("Symbol", $($a),*); }
            _ => {}
        }
    };
}

fn push_scalar<T>(ty: &str, r: &R, out: &mut Vec<Subj>)
where
    T: Decode + Encode + FromR + ToR + PartialEq + 'static,
    Option<T>: Decode,
{
    let nan = match r {
        R::F32(b) => f32::from_bits(*b).is_nan(),
        R::F64(b) => f64::from_bits(*b).is_nan(),
        _ => false,
    };
    out.push(subj::<T>(ty, r, !nan));
    out.push(subj::<Option<T>>(&format!("Option<{}>", ty), r, !nan));
}

fn push_none<T>(ty: &str, out: &mut Vec<Subj>)
where
    T: Decode + Encode + FromR + ToR + PartialEq + 'static,
    Option<T>: Decode,
{
    out.push(subj::<Option<T>>(&format!("Option<{}>", ty), &R::Null, true));
}

/// typed, optional and dynamically typed forms of a scalar
pub fn scalars(r: &R) -> Vec<Subj> {
    let mut out = Vec::new();
    scalar_types!(r, push_scalar(r, &mut out));
    if *r == R::Null {
        push_none::<bool>("bool", &mut out);
        push_none::<u32>("u32", &mut out);
        push_none::<u64>("u64", &mut out);
        push_none::<i32>("i32", &mut out);
        push_none::<Symbol>("Symbol", &mut out);
        push_none::<ByteStr>("ByteStr", &mut out);
        push_none::<Bytes>("binary", &mut out);
        push_none::<Ts>("timestamp", &mut out);
        push_none::<List>("List", &mut out);
        push_none::<p::Fields>("Fields", &mut out);
    }
    out.push(subj::<Variant>("Variant", r, true));
    if *r != R::Null {
        out.push(subj::<Option<Variant>>("Option<Variant>", r, true));
    }
    if let R::Sym(s) = r {
        if let Some(x) = static_of(s) {
            // decodes as an owned symbol
            out.push(only_enc("StaticSymbol", r, StaticSymbol(x), crate::entries::dec::<Symbol>));
            out.push(only_enc(
                "Variant::StaticSymbol",
                r,
                Variant::StaticSymbol(StaticSymbol(x)),
                crate::entries::dec::<Variant>,
            ));
        }
    }
    if let R::Str(s) = r {
        out.push(str_subj(s.clone()));
    }
    out
}

/// a type that is encoded as one type and decoded as another
pub fn only_enc<T: Encode + 'static>(
    ty: &str,
    r: &R,
    v: T,
    dec: fn(&[u8]) -> Result<(R, usize), String>,
) -> Subj {
    let size = v.encoded_size();
    let enc = lib_enc(&v);
    let back = dec(&enc);
    let name = ty.to_string();
    Subj {
        ty: ty.to_string(),
        r: r.clone(),
        size,
        enc,
        back,
        eq: None,
        exact: Box::new(move |rng| exact_fit(&v, rng, &name)),
        ordered: false,
        dec,
    }
}

fn str_subj(s: String) -> Subj {
    let enc = lib_enc_ref(s.as_str());
    let dec: fn(&[u8]) -> Result<(R, usize), String> = crate::entries::dec::<ByteStr>;
    Subj {
        ty: "str".to_string(),
        r: R::Str(s.clone()),
        size: s.as_str().encoded_size(),
        back: dec(&enc),
        enc,
        eq: None,
        exact: Box::new(move |rng| exact_fit(s.as_str(), rng, "str")),
        ordered: false,
        dec,
    }
}

fn push_vec<T>(ty: &str, r: &R, out: &mut Vec<Subj>)
where
    T: ToR + FromR + 'static,
    Vec<T>: Decode + Encode + PartialEq,
{
    out.push(subj::<Vec<T>>(&format!("Vec<{}>", ty), r, false));
}

fn vec_types(elem: &R, r: &R, out: &mut Vec<Subj>) {
    match elem {
        R::Str(_) => push_vec::<ByteStr>("ByteStr", r, out),
        R::Sym(_) => {
            push_vec::<Symbol>("Symbol", r, out);
            out.push(subj::<Multiple<Symbol>>("Multiple<Symbol>", r, true));
        }
        R::Bool(_) => push_vec::<bool>("bool", r, out),
        R::U8(_) => push_vec::<u8>("u8", r, out),
        R::U16(_) => push_vec::<u16>("u16", r, out),
        R::U32(_) => push_vec::<u32>("u32", r, out),
        R::U64(_) => push_vec::<u64>("u64", r, out),
        R::I8(_) => push_vec::<i8>("i8", r, out),
        R::I16(_) => push_vec::<i16>("i16", r, out),
        R::I32(_) => push_vec::<i32>("i32", r, out),
        R::I64(_) => push_vec::<i64>("i64", r, out),
        R::F32(_) => push_vec::<f32>("f32", r, out),
        R::F64(_) => push_vec::<f64>("f64", r, out),
        R::Char(_) => push_vec::<char>("char", r, out),
        R::Ts(_) => push_vec::<Ts>("timestamp", r, out),
        R::Uuid(_) => push_vec::<Uuid>("uuid", r, out),
        R::Bin(_) => push_vec::<Bytes>("binary", r, out),
        R::Map(_) => {
            push_vec::<p::Map>("map", r, out);
        }
        _ => {}
    }
}

/// typed and dynamically typed forms of a container; `elem` names an empty array's element type
pub fn containers(r: &R, elem: Option<&R>) -> Vec<Subj> {
    let mut out = Vec::new();
    match r {
        R::Array(v) => {
            let e = v.first().or(elem).cloned().unwrap_or_else(|| R::sym(""));
            vec_types(&e, r, &mut out);
            return out;
        }
        R::List(_) => {
            out.push(subj::<List>("List", r, true));
            out.push(subj::<Option<List>>("Option<List>", r, true));
        }
        R::Map(v) => {
            out.push(subj::<p::Map>("HashMap<Variant,Variant>", r, true));
            if v.iter().all(|x| matches!(x.0, R::Sym(_))) {
                out.push(subj::<p::Fields>("HashMap<Symbol,Variant>", r, true));
                if v.iter().all(|x| matches!(x.1, R::Str(_) | R::Null)) {
                    out.push(subj::<p::FilterSet>("FilterSet", r, true));
                }
                if !v.is_empty() && v.iter().all(|x| matches!(x.1, R::Bin(_))) {
                    out.push(subj::<HashMap<Symbol, Bytes>>("HashMap<Symbol,Bytes>", r, true));
                }
            }
            if v.iter().all(|x| matches!(x.0, R::Str(_))) {
                out.push(subj::<p::StringVariantMap>("HashMap<Str,Variant>", r, true));
                let mut s = subj::<VecVariantMap>("VecVariantMap", r, true);
                s.ordered = true;
                out.push(s);
            }
            if v.iter().all(|x| matches!(x.0, R::U32(_))) && v.iter().all(|x| matches!(x.1, R::List(_))) {
                out.push(subj::<HashMap<u32, List>>("HashMap<u32,List>", r, true));
            }
        }
        R::Desc(..) => {}
        _ => return scalars(r),
    }
    out.push(subj::<Variant>("Variant", r, true));
    out.push(subj::<Option<Variant>>("Option<Variant>", r, true));
    out
}
