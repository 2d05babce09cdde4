mod alloc;
#[macro_use]
mod conv;
#[macro_use]
mod ctx;
mod entries;
mod extra;
mod gen;
mod msg;
mod p;
mod rng;
mod rval;
mod spec;

use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::Instant;

use ctx::{Ctx, Tier};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

struct Args(Vec<String>);

impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        let i = self.0.iter().position(|x| x == k)?;
        self.0.get(i + 1).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().expect(k)).unwrap_or(d)
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn map_status(path: &str) -> *mut u64 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("status");
    f.set_len(4096).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
}

enum Out {
    Held,
    Violation(String),
    Harness(String),
}

fn run_case(p: &ctx::Prop, c: &mut Ctx, seed: u64, stream: &'static str, idx: u64) -> Out {
    c.stream = stream;
    c.digest = 0;
    let parts = [seed, rng::hash_str(p.id), rng::hash_str(stream), idx];
    c.rng = rng::Rng::new(&parts);
    conv::set_flavor(c.rng.u64());
    conv::static_variants(false);
    conv::no_pool(false);
    match catch_unwind(AssertUnwindSafe(|| (p.run)(c, stream, idx))) {
        Ok(Ok(())) => Out::Held,
        Ok(Err(m)) => Out::Violation(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            // what only makes values cannot fail on account of the library; the monitors can, when what the library
            // returned is not what their next step (an index, a conversion) relies on
            let maker = ["src/gen.rs", "src/rng.rs", "src/spec.rs", "src/ctx.rs", "src/main.rs", "src/p/inputs.rs"];
            if loc.starts_with("src/") && (msg.starts_with("harness") || maker.iter().any(|x| loc.starts_with(x))) {
                Out::Harness(format!("panic in the harness at {}: {}", loc, msg))
            } else {
                Out::Violation(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

fn real_main() -> i32 {
    let a = Args(std::env::args().collect());
    let cmd = a.0.get(1).cloned().unwrap_or_default();
    let props = p::all();
    if cmd == "list" {
        for p in props {
            let tier = if a.get("--tier") == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let names: Vec<&str> = (p.streams)(tier).iter().map(|s| s.name).collect();
            println!("{}\t{}\t{}", p.id, p.rule.replace('\n', " "), names.join(","));
        }
        return 0;
    }
    let pid = a.get("--pid").expect("--pid").to_string();
    let prop = p::all().into_iter().find(|x| x.id == pid).expect("unknown property");
    let tier = if a.get("--tier") == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = a.num("--seed", 1);
    let status = map_status(a.get("--status").unwrap_or("/dev/null.status"));
    alloc::STATUS.store(status, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        *LAST_PANIC.lock().unwrap() = Some((loc, msg));
    }));
    let streams = (prop.streams)(tier);
    let mut c = Ctx::new(tier);
    let mut viol: Vec<(String, u64, String)> = Vec::new();
    let mut harness: Vec<String> = Vec::new();
    let mut truncated = false;
    let mut done: Vec<(String, u64)> = Vec::new();
    let mut digests: Vec<u8> = Vec::new();
    let t0 = Instant::now();
    let mut seq = 0u64;
    let mark = |seq: u64, s: usize, i: u64| unsafe {
        std::ptr::write_volatile(status.add(1), s as u64);
        std::ptr::write_volatile(status.add(2), i);
        std::ptr::write_volatile(status, seq);
    };

    if cmd == "case" {
        let sname = a.get("--stream").expect("--stream");
        let idx = a.num("--idx", 0);
        let (si, s) = streams.iter().enumerate().find(|(_, s)| s.name == sname).expect("stream");
        mark(1, si, idx);
        match run_case(&prop, &mut c, seed, s.name, idx) {
            Out::Held => {
                println!("HELD");
                return 0;
            }
            Out::Violation(m) => {
                println!("VIOLATED {}", m);
                return 1;
            }
            Out::Harness(m) => {
                println!("HARNESS {}", m);
                return 3;
            }
        }
    }

    let w = a.num("--w", 0);
    let nw = a.num("--nw", 1);
    let wall = a.num("--wall", 600);
    let out = a.get("--out").expect("--out").to_string();
    'outer: for (si, s) in streams.iter().enumerate() {
        let mut n = 0u64;
        let (start, step) = if s.par { (w, nw) } else { (if w == 0 { 0 } else { s.n }, 1) };
        let mut i = start;
        while i < s.n {
            seq += 1;
            mark(seq, si, i);
            match run_case(&prop, &mut c, seed, s.name, i) {
                Out::Held => {}
                Out::Violation(m) => {
                    viol.push((s.name.to_string(), i, m));
                    if viol.len() >= 3 {
                        break 'outer;
                    }
                }
                Out::Harness(m) => {
                    harness.push(format!("{}[{}]: {}", s.name, i, m));
                    if harness.len() >= 3 {
                        break 'outer;
                    }
                }
            }
            if c.digest != 0 {
                digests.extend_from_slice(&(si as u64).to_le_bytes());
                digests.extend_from_slice(&i.to_le_bytes());
                digests.extend_from_slice(&c.digest.to_le_bytes());
            }
            n += 1;
            i += step;
            if seq % 64 == 0 && t0.elapsed().as_secs() > wall {
                truncated = true;
                done.push((s.name.to_string(), n));
                break 'outer;
            }
        }
        done.push((s.name.to_string(), n));
    }
    let mut j = String::from("{");
    j.push_str(&format!("\"evals\":{},\"truncated\":{},\"secs\":{:.3}", c.evals, truncated, t0.elapsed().as_secs_f64()));
    j.push_str(",\"counters\":{");
    j.push_str(&c.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"cases\":{");
    j.push_str(&done.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"samples\":{");
    j.push_str(
        &c.samples
            .iter()
            .map(|(k, v)| format!("{}:[{}]", jstr(k), v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("},\"violations\":[");
    j.push_str(
        &viol
            .iter()
            .map(|(s, i, m)| format!("{{\"stream\":{},\"idx\":{},\"msg\":{}}}", jstr(s), i, jstr(m)))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("],\"harness\":[");
    j.push_str(&harness.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str("]}");
    let mut h = Vec::with_capacity(c.seen.len() * 8);
    for x in &c.seen {
        h.extend_from_slice(&x.to_le_bytes());
    }
    File::create(format!("{}/w{}.hashes", out, w)).unwrap().write_all(&h).unwrap();
    File::create(format!("{}/w{}.digests", out, w)).unwrap().write_all(&digests).unwrap();
    File::create(format!("{}/w{}.json", out, w)).unwrap().write_all(j.as_bytes()).unwrap();
    0
}

fn main() {
    // cases run with the 2 MiB stack a Rust thread gets by default (more under a sanitizer)
    let kb: usize = std::env::var("AMQPMON_STACK_KB").ok().and_then(|s| s.parse().ok()).unwrap_or(2048);
    let code = std::thread::Builder::new().stack_size(kb << 10).spawn(real_main).unwrap().join().unwrap_or(3);
    std::process::exit(code);
}
