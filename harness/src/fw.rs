// Framework: choice-sequence generation, parallel running, shrinking, replay.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// The only source of randomness of a case: every decision is one recorded number,
/// 0 being the simplest choice.
pub struct Src {
    st: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn seeded(seed: u64) -> Self {
        Src { st: seed, replay: None, pos: 0, rec: vec![] }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Src { st: 0, replay: Some(c), pos: 0, rec: vec![] }
    }
    /// Uniform in 0..n (n == 0: any u64).
    pub fn raw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if n > 0 {
                    v.min(n - 1)
                } else {
                    v
                }
            }
            None => {
                self.st = self.st.wrapping_add(0x9E3779B97F4A7C15);
                let r = mix(self.st);
                if n > 0 {
                    ((r as u128 * n as u128) >> 64) as u64
                } else {
                    r
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.raw(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.raw((hi - lo + 1) as u64) as i64
    }
    pub fn usz(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.raw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn pickc<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    /// weighted index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let s: u64 = w.iter().sum();
        let mut r = self.raw(s);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= *x;
        }
        w.len() - 1
    }
    /// [0,1] on a fine grid
    pub fn unit(&mut self) -> f32 {
        let k = self.raw(1 << 20);
        k as f32 / ((1u64 << 20) - 1) as f32
    }
    pub fn f(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.unit()
    }
    /// [-1,1] with special points
    pub fn bip(&mut self) -> f32 {
        match self.weighted(&[1, 1, 1, 1, 8]) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => 0.5,
            _ => self.f(-1.0, 1.0),
        }
    }
    pub fn uni(&mut self) -> f32 {
        match self.weighted(&[1, 1, 1, 8]) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            _ => self.unit(),
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub sig: u64,
    pub describe: bool,
    pub desc: Vec<String>,
    pub labels: BTreeMap<String, u64>,
    pub evals: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.describe {
            let d = f();
            if std::env::var("HX_LIVE").is_ok() {
                eprintln!("  {}", d);
            }
            self.desc.push(d);
        }
    }
    pub fn mixsig(&mut self, v: u64) {
        self.sig = mix(self.sig ^ v);
    }
}

pub type CheckFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub f: CheckFn,
}

pub fn sub(name: &'static str, quick: u64, thorough: u64, f: CheckFn) -> Sub {
    Sub { name, quick, thorough, threads: 8, f }
}
pub fn subt(name: &'static str, quick: u64, thorough: u64, threads: usize, f: CheckFn) -> Sub {
    Sub { name, quick, thorough, threads, f }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static IS_WORKER: RefCell<bool> = RefCell::new(false);
}
pub static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static FOREIGN_PANIC_CNT: AtomicUsize = AtomicUsize::new(0);

pub fn set_worker(b: bool) {
    IS_WORKER.with(|w| *w.borrow_mut() = b);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or("?"), l.line()))
            .unwrap_or_default();
        let m = format!("{} @ {}", msg, loc);
        if IS_WORKER.try_with(|w| *w.borrow()).unwrap_or(false) {
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(m));
        } else {
            if let Ok(mut f) = FOREIGN_PANICS.lock() {
                f.push(m);
            }
            FOREIGN_PANIC_CNT.fetch_add(1, Ordering::SeqCst);
        }
    }));
}

/// Runs one case; Err = (kind, message)
pub fn run_case(f: CheckFn, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let fp = FOREIGN_PANIC_CNT.load(Ordering::SeqCst);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into());
            Err(format!("panic: {}", m))
        }
    };
    if r.is_ok() && FOREIGN_PANIC_CNT.load(Ordering::SeqCst) != fp {
        let m = FOREIGN_PANICS.lock().map(|f| f.join(" | ")).unwrap_or_default();
        return Err(format!("panic-in-library-thread: {}", m));
    }
    r
}

/// First word(s) up to ':' identify the kind of a failure.
pub fn kind(msg: &str) -> String {
    msg.split(':').next().unwrap_or("").to_string()
}

pub struct Fail {
    pub sub: usize,
    pub choices: Vec<u64>,
    pub msg: String,
}

pub fn shrink(f: CheckFn, choices: Vec<u64>, msg: String, max_exec: usize, secs: f64) -> (Vec<u64>, String, usize) {
    let k = kind(&msg);
    let t0 = Instant::now();
    let mut best = choices;
    let mut best_msg = msg;
    let mut execs = 0usize;
    let try_it = |c: &[u64], execs: &mut usize| -> Option<(Vec<u64>, String)> {
        *execs += 1;
        let mut s = Src::replay(c.to_vec());
        let mut ctx = Ctx::default();
        match run_case(f, &mut s, &mut ctx) {
            Err(m) if kind(&m) == k => Some((s.rec.clone(), m)),
            _ => None,
        }
    };
    let better = |a: &[u64], b: &[u64]| -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    };
    let over = |e: usize| e >= max_exec || t0.elapsed().as_secs_f64() > secs;
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !over(execs) {
            let mut i = 0;
            while i + size <= best.len() && !over(execs) {
                let mut c = best.clone();
                c.drain(i..i + size);
                match try_it(&c, &mut execs) {
                    Some((r, m)) if better(&r, &best) => {
                        best = r;
                        best_msg = m;
                    }
                    _ => i += size.max(1),
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        while size >= 1 && !over(execs) {
            let mut i = 0;
            while i + size <= best.len() && !over(execs) {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + size] {
                        *x = 0;
                    }
                    if let Some((r, m)) = try_it(&c, &mut execs) {
                        if better(&r, &best) {
                            best = r;
                            best_msg = m;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() && !over(execs) {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() && !over(execs) {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_it(&c, &mut execs) {
                    Some((r, m)) if better(&r, &best) => {
                        best = r;
                        best_msg = m;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before || over(execs) {
            break;
        }
    }
    (best, best_msg, execs)
}

pub struct RunResult {
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub per_sub: BTreeMap<String, Value>,
    pub known_hits: BTreeMap<String, u64>,
    pub fail: Option<Value>,
}

/// Start time (ms, +1) of the case each worker is on; 0 = idle. A case that runs for HANG_S seconds is a hang.
pub static BUSY: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
pub const HANG_S: u64 = 60;
pub fn start_hang_watch() {
    let t0 = Instant::now();
    let _ = T0.set(t0);
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        for b in BUSY.iter() {
            let v = b.load(Ordering::Relaxed);
            if v != 0 && now > v + HANG_S * 1000 {
                eprintln!("hang watch: a case runs for more than {} s", HANG_S);
                std::process::abort();
            }
        }
    });
}
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ hash_str(sub).rotate_left(17) ^ mix(i))
}

pub fn run_prop(prop: &Prop, tier: &str, seed: u64, state: &std::path::Path, known: &[String], only: Option<&str>) -> RunResult {
    let statef = Arc::new(std::fs::File::create(state).expect("state file"));
    let mut res = RunResult {
        evaluations: 0,
        distinct: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        per_sub: BTreeMap::new(),
        known_hits: BTreeMap::new(),
        fail: None,
    };
    let mut all_sigs: HashSet<u64> = HashSet::new();
    let collect = std::env::var("HX_COLLECT").is_ok();
    let scale: f64 = std::env::var("HX_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    for (si, sub) in prop.subs.iter().enumerate() {
        if let Some(o) = only {
            if o != sub.name {
                continue;
            }
        }
        let t0 = Instant::now();
        let n = if tier == "thorough" { sub.thorough } else { sub.quick };
        let n = ((n as f64 * scale) as u64).max(1);
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let agg: Arc<Mutex<(u64, HashSet<u64>, BTreeMap<String, u64>, Vec<(u64, Value)>, Vec<(u64, Vec<u64>, String)>, BTreeMap<String, u64>)>> =
            Arc::new(Mutex::new(Default::default()));
        let threads = sub.threads.max(1);
        let f = sub.f;
        let sname = sub.name;
        let pid = prop.id;
        std::thread::scope(|sc| {
            for w in 0..threads {
                let next = next.clone();
                let stop = stop.clone();
                let agg = agg.clone();
                let statef = statef.clone();
                let known = &known;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        set_worker(true);
                        let mut evals = 0u64;
                        let mut sigs = HashSet::new();
                        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                        let mut samples = vec![];
                        let mut fails = vec![];
                        let mut khits: BTreeMap<String, u64> = BTreeMap::new();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let mut rec = [0u8; 24];
                            rec[0..8].copy_from_slice(&(1u64).to_le_bytes());
                            rec[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                            rec[16..24].copy_from_slice(&i.to_le_bytes());
                            let _ = statef.write_at(&rec, (w * 24) as u64);
                            BUSY[w % 64].store(now_ms(), Ordering::Relaxed);
                            let mut src = Src::seeded(case_seed(seed, pid, sname, i));
                            let mut ctx = Ctx::default();
                            ctx.describe = i < 2 || (i + 1) == n;
                            let r = run_case(f, &mut src, &mut ctx);
                            evals += ctx.evals.max(1);
                            for (l, c) in &ctx.labels {
                                *labels.entry(format!("{}.{}", sname, l)).or_insert(0) += c;
                            }
                            if ctx.nontrivial {
                                let mut h = ctx.sig ^ hash_str(sname);
                                if ctx.sig == 0 {
                                    for c in &src.rec {
                                        h = mix(h ^ *c);
                                    }
                                }
                                sigs.insert(h);
                            }
                            if ctx.describe && r.is_ok() {
                                let mut d = ctx.desc.clone();
                                d.truncate(40);
                                samples.push((i, json!({"sub": sname, "case": i, "nontrivial": ctx.nontrivial, "desc": d, "choices": src.rec.len()})));
                            }
                            if let Err(m) = r {
                                let k = format!("{}/{}", sname, kind(&m));
                                if collect {
                                    let cnt = khits.entry(k.clone()).or_insert(0);
                                    *cnt += 1;
                                    if *cnt == 1 {
                                        eprintln!("[collect] {} case {}: {}", k, i, m);
                                    }
                                } else if known.contains(&k) {
                                    *khits.entry(k).or_insert(0) += 1;
                                } else {
                                    fails.push((i, src.rec.clone(), m));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            BUSY[w % 64].store(0, Ordering::Relaxed);
                            let _ = statef.write_at(&[0u8; 8], (w * 24) as u64);
                        }
                        let mut a = agg.lock().unwrap();
                        a.0 += evals;
                        a.1.extend(sigs);
                        for (l, c) in labels {
                            *a.2.entry(l).or_insert(0) += c;
                        }
                        a.3.extend(samples);
                        a.4.extend(fails);
                        for (l, c) in khits {
                            *a.5.entry(l).or_insert(0) += c;
                        }
                    })
                    .expect("spawn");
            }
        });
        let mut a = agg.lock().unwrap();
        res.evaluations += a.0;
        let nd = a.1.len();
        all_sigs.extend(a.1.iter());
        for (l, c) in &a.2 {
            *res.labels.entry(l.clone()).or_insert(0) += c;
        }
        for (l, c) in &a.5 {
            *res.known_hits.entry(l.clone()).or_insert(0) += c;
        }
        a.3.sort_by_key(|x| x.0);
        for s in a.3.iter().take(2) {
            res.samples.push(s.1.clone());
        }
        res.per_sub.insert(
            sub.name.to_string(),
            json!({"cases": a.0, "distinct_nontrivial": nd, "wall_s": t0.elapsed().as_secs_f64()}),
        );
        a.4.sort_by_key(|x| x.0);
        if let Some((i, choices, msg)) = a.4.first().cloned() {
            set_worker(true);
            let (c, m, ex) = if msg.starts_with("panic-in-library-thread") {
                (choices, msg, 0)
            } else {
                shrink(f, choices, msg, 3000, 25.0)
            };
            let mut ctx = Ctx::default();
            ctx.describe = true;
            let mut s = Src::replay(c.clone());
            let fin = run_case(f, &mut s, &mut ctx);
            set_worker(false);
            res.fail = Some(json!({
                "property": prop.id, "sub": sub.name, "case": i, "seed": seed, "message": m,
                "final_run": match fin { Ok(()) => "passed (not deterministic?)".to_string(), Err(e) => e },
                "choices": c, "shrink_execs": ex, "description": ctx.desc,
            }));
            break;
        }
    }
    res.distinct = all_sigs.len() as u64;
    res
}

pub fn result_json(r: &RunResult) -> Value {
    json!({
        "evaluations": r.evaluations, "distinct": r.distinct, "labels": r.labels,
        "samples": r.samples, "per_sub": r.per_sub, "known_hits": r.known_hits, "fail": r.fail,
    })
}

pub fn write_atomic(p: &std::path::Path, s: &str) {
    let tmp = p.with_extension("tmp");
    let mut f = std::fs::File::create(&tmp).expect("create");
    f.write_all(s.as_bytes()).expect("write");
    drop(f);
    std::fs::rename(&tmp, p).expect("rename");
}
