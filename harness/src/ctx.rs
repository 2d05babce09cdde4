use std::collections::{BTreeMap, HashSet};

use crate::rng::Rng;

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    /// number of cases of a stream (q is in units of three)
    pub fn k(self, q: u64, t: u64) -> u64 {
        self.n(q * 3, t)
    }
    /// q in the quick tier, t in the thorough tier
    pub fn n(self, q: u64, t: u64) -> u64 {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Stream {
    pub name: &'static str,
    pub n: u64,
    /// spread over all workers (false: worker 0 only, for stateful/threaded streams)
    pub par: bool,
}

pub fn st(name: &'static str, n: u64) -> Stream {
    Stream { name, n, par: true }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub streams: fn(Tier) -> Vec<Stream>,
    pub run: fn(&mut Ctx, &str, u64) -> Res,
}

pub struct Ctx {
    pub tier: Tier,
    pub rng: Rng,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub samples: BTreeMap<&'static str, Vec<String>>,
    pub stream: &'static str,
    /// running digest of observed behaviour (compared across builds by C21)
    pub digest: u64,
    pub asan: bool,
    /// compare what values print as instead of the values
    pub prints: bool,
}

impl Ctx {
    pub fn new(tier: Tier) -> Ctx {
        Ctx {
            tier,
            rng: Rng::new(&[0]),
            evals: 0,
            counters: BTreeMap::new(),
            seen: HashSet::new(),
            samples: BTreeMap::new(),
            stream: "",
            digest: 0,
            asan: std::env::var("AMQPMON_ASAN").is_ok(),
            prints: false,
        }
    }

    /// one evaluated case; `h` identifies it, `nontrivial` by the property's rule
    pub fn obs<F: FnOnce() -> String>(&mut self, h: u64, nontrivial: bool, sample: F) {
        self.evals += 1;
        if nontrivial && self.seen.len() < 4_000_000 && self.seen.insert(h) {
            let v = self.samples.entry(self.stream).or_insert_with(Vec::new);
            if v.len() < 2 {
                let mut s = sample();
                if s.len() > 300 {
                    let mut n = 300;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                    s.push_str("...");
                }
                v.push(s);
            }
        }
    }

    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }

    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{}", k);
        let e = self.counters.entry(k).or_insert(0);
        if n > *e {
            *e = n
        }
    }

    pub fn dig(&mut self, h: u64) {
        self.digest = crate::rng::mix(self.digest ^ h);
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// moved whatever the compiler would say; whether it may be moved is looked at by C26
pub struct Forced<T>(pub T);
unsafe impl<T> Send for Forced<T> {}
impl<T> Forced<T> {
    pub fn out(self) -> T {
        self.0
    }
}
