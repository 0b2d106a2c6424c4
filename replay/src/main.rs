//! vp-replay PROPERTY --seed N --budget-ms M --work DIR [--threads T] | vp-replay PROPERTY --replay FILE
//! prints one JSON line; exit 0: no mismatch, 3: mismatch (or panic) found, anything else: crash (the runner
//! looks at DIR/cur.* to see which case was running).
mod conv; mod gen; mod oracle; mod props;
use gen::*;
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn prop(id: &str) -> Option<fn(&[u8], &mut Rng) -> props::V> {
    Some(match id {
        "C01" => props::c01, "C02" => props::c02, "C03" => props::c03, "C04" => props::c04, "C05" => props::c05, "C06" => props::c06, "C07" => props::c07, "C08" => props::c08, "C09" => props::c09, "C10" => props::c10,
        "C11" => props::c11, "C12" => props::c12, "C13" => props::c13, "C14" => props::c14, "C15" => props::c15, "C16" => props::c16, "C17" => props::c17, "C18" => props::c18, "C19" => props::c19, "C20" => props::c20,
        _ => return None,
    })
}
#[derive(Clone)]
struct Case { s: Vec<u8>, aux: u64, big: u64 }
impl Case {
    fn text(&self) -> String { if self.big != 0 { format!("big={} aux={}", self.big, self.aux) } else { format!("hex={} aux={}", self.s.iter().map(|b| format!("{:02x}", b)).collect::<String>(), self.aux) } }
    fn parse(t: &str) -> Case {
        let mut c = Case { s: vec![], aux: 0, big: 0 };
        for w in t.split_whitespace() { if let Some((k, v)) = w.split_once('=') { match k { "hex" => c.s = hex(v), "aux" => c.aux = v.parse().unwrap(), "big" => { c.big = v.parse().unwrap(); c.s = big(c.big); } _ => {} } } }
        c
    }
}
/// large inputs, named by a number
fn big(k: u64) -> Vec<u8> {
    let (kind, n) = (k % 16, [200usize, 20_000, 400_000, 3_000_000][((k / 16) % 4) as usize]);
    let mut body = vec![];
    let mut def = |id: u8, c: &[u8]| { let mut v = vec![id]; v.extend(oracle::enc_len(Some(c.len()))); v.extend(c); v };
    match kind {
        0 => { body = vec![0u8; n]; body.push(5); return def(2, &body); }
        1 => { body = vec![0xffu8; n]; return def(2, &body); }
        2 => { for _ in 0..n { body.extend([0x30, 0x80]); } }
        3 => { for _ in 0..n { body.extend([0x30, 0x80]); } for _ in 0..n { body.extend([0, 0]); } }
        4 => { let m = n.min(20_000); let mut lens = vec![0usize]; for _ in 0..m { let l = *lens.last().unwrap(); lens.push(l + 1 + oracle::enc_len(Some(l)).len()); } for l in lens.iter().rev().skip(1) { body.push(0x30); body.extend(oracle::enc_len(Some(*l))); } }
        5 => { for _ in 0..n / 2 { body.extend([5, 0]); } return def(0x30, &body); }
        6 => { body = vec![0x41; n]; return def(0x0c, &body); }
        7 => { body = vec![0; n]; return def(3, &body); }
        8 => { body = vec![0; n]; return def(0x0a, &body); }
        9 => { for _ in 0..n { body.extend([0xa0, 0x80]); } }
        10 => { body = vec![0x80; n]; body.insert(0, 0x1f); }
        11 => { body = vec![0; n]; return def(0x1e, &body); }
        12 => { let m = n.min(20_000); let mut lens = vec![0usize]; for _ in 0..m { let l = *lens.last().unwrap(); lens.push(l + 1 + oracle::enc_len(Some(l)).len()); } for l in lens.iter().rev().skip(1) { body.push(0xa1); body.extend(oracle::enc_len(Some(*l))); } }
        13 => { for _ in 0..n / 3 { body.extend([2, 1, 5]); } return def(0x31, &body); }
        14 => { body = vec![0x81; n.min(300)]; return def(6, &body); }
        _ => { for _ in 0..n { body.extend([0x24, 0x80]); } for _ in 0..n { body.extend([0, 0]); } }
    }
    body
}
fn gen_case(r: &mut Rng, id: &str) -> Case {
    let aux = r.next();
    if id == "C03" && r.p(1, 400) { let k = 16 * r.n(3) as u64 + r.n(16) as u64; let k = if k == 0 { 16 } else { k }; return Case { s: big(k), aux, big: k }; }
    let deep = id == "C02";
    let mut s = match r.n(if deep { 4 } else { 12 }) {
        0 | 2 => { let d = if r.p(1, 2) { 44 + r.n(12) } else { r.n(60) }; let m = r.n(5); nested(r, d, m) }
        1 => { let d = 1 + r.n(4); element_bytes(r, d) }
        3 => r.bytes(12),
        4 => { let mut v = ident(r, 0, false, 2); let b = int_bytes(r); v.extend(enc_len_form(r, b.len())); v.extend(b); v }
        5 => { let c = content_for(r, 3, 0); wrap(r, 0, false, 3, &c) }
        _ => { let d = r.n(4); element_bytes(r, d) }
    };
    if r.p(1, 3) { let e = r.bytes(4); s.extend(e); }
    if r.p(1, 5) { mutate(r, &mut s); }
    if s.len() > 6000 { s.truncate(6000); }
    if id == "C03" && r.p(1, 6) { s.clear(); }
    Case { s, aux, big: 0 }
}
fn run(f: fn(&[u8], &mut Rng) -> props::V, c: &Case) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| f(&c.s, &mut Rng(c.aux)))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
/// shorten the failing input while the same property still fails
fn shrink(f: fn(&[u8], &mut Rng) -> props::V, c: Case, msg: String) -> (Case, String) {
    let (mut c, mut msg) = (c, msg);
    let t0 = Instant::now();
    let mut again = c.big == 0;
    while again && t0.elapsed() < Duration::from_secs(3) {
        again = false;
        let mut sizes = vec![]; let mut k = c.s.len() / 2; while k > 0 { sizes.push(k); k /= 2; }
        'o: for k in sizes { for at in 0..c.s.len().saturating_sub(k - 1) {
            let mut d = c.clone(); d.s.drain(at..at + k);
            if let Err(m) = run(f, &d) { c = d; msg = m; again = true; break 'o; }
            if t0.elapsed() > Duration::from_secs(3) { break 'o; }
        } }
    }
    (c, msg)
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let f = match prop(&id) { Some(f) => f, None => { eprintln!("unknown property {}", id); std::process::exit(2) } };
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(file) = arg("--replay") {
        let t = std::fs::read_to_string(&file).unwrap();
        let line = t.lines().find(|l| l.starts_with("case: ")).map(|l| l[6..].to_string()).unwrap_or(t.clone());
        let c = Case::parse(&line);
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || run(f, &c)).unwrap().join().unwrap();
        match r { Ok(_) => { println!("{{\"ok\":true}}"); } Err(m) => { println!("{{\"ok\":false,\"message\":{}}}", js(&m)); std::process::exit(3) } }
        return;
    }
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let ms: u64 = arg("--budget-ms").and_then(|s| s.parse().ok()).unwrap_or(3000);
    let nt: u64 = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(4);
    let max: u64 = arg("--max-cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let work = arg("--work").unwrap_or_else(|| "/tmp".into());
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let beats: Arc<Vec<AtomicU64>> = Arc::new((0..nt).map(|_| AtomicU64::new(0)).collect());
    let t0 = Instant::now();
    let ex = Arc::new(exhaustive());
    let exh = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for k in 0..nt {
        let (stop, found, beats, ex, exh, id, work) = (stop.clone(), found.clone(), beats.clone(), ex.clone(), exh.clone(), id.clone(), work.clone());
        hs.push(std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            let file = std::fs::File::create(format!("{}/cur.{}", work, k)).unwrap();
            let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1).wrapping_add(k).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            let (mut n, mut seen, mut samples) = (0u64, HashSet::new(), vec![]);
            let mut exi = k as usize;
            let mut bigs: Vec<u64> = if id == "C03" { (1..48).filter(|x| x % nt == k).collect() } else { vec![] };
            bigs.reverse();
            // interleave: the fixed corpus first (all of it), then generated cases until the time is up
            while !stop.load(Relaxed) && n < max / nt {
                let c = if exi < ex.len() { let c = Case { s: ex[exi].clone(), aux: r.next(), big: 0 }; exi += nt as usize; c }
                    else if let Some(b) = bigs.pop() { Case { s: big(b), aux: r.next(), big: b } }
                    else { if t0.elapsed() > Duration::from_millis(ms) { break; } gen_case(&mut r, &id) };
                let mut t = c.text(); t.push('\n');
                if t.len() < 20000 { let _ = file.write_all_at(t.as_bytes(), 0); }
                beats[k as usize].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                match run(f, &c) {
                    Ok(nontrivial) => {
                        n += 1;
                        if nontrivial { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); c.s.hash(&mut h); if c.s.is_empty() || matches!(&id[..], "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C19") { c.aux.hash(&mut h); } seen.insert(h.finish());
                            if samples.len() < 3 && n % 997 == 3 { samples.push(c.text()); } }
                    }
                    Err(m) => { stop.store(true, Relaxed); let mut g = found.lock().unwrap(); if g.is_none() { *g = Some(shrink(f, c, m)); } break; }
                }
            }
            exh.fetch_add((exi.saturating_sub(k as usize) as u64) / nt, Relaxed);
            beats[k as usize].store(u64::MAX, Relaxed);
            (n, seen, samples)
        }).unwrap());
    }
    { // a case that does not return is a failure of its own: end the process, the runner reads cur.*
        let (stop, beats) = (stop.clone(), beats.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(300));
            let now = t0.elapsed().as_millis() as u64;
            for (k, b) in beats.iter().enumerate() { let b = b.load(Relaxed); if b != u64::MAX && b != 0 && now > b + 20_000 && !stop.load(Relaxed) { println!("{{\"hang\":{}}}", k); std::process::exit(4); } }
        });
    }
    let (mut n, mut d, mut samples) = (0, HashSet::new(), vec![]);
    for h in hs { let (a, b, c) = h.join().unwrap(); n += a; d.extend(b); samples.extend(c); }
    samples.truncate(6);
    let fnd = found.lock().unwrap().clone();
    let s = samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    print!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"fixed_corpus\":{},\"wall_ms\":{},\"samples\":[{}]", js(&id), n, d.len(), exh.load(Relaxed), t0.elapsed().as_millis(), s);
    match fnd {
        None => println!("}}"),
        Some((c, m)) => { println!(",\"case\":{},\"message\":{}}}", js(&c.text()), js(&m)); std::process::exit(3) }
    }
}
