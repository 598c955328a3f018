#![feature(portable_simd, internal_output_capture)]
#![allow(dead_code, unused_imports)]
mod eng;
mod fault;
mod fw;
mod model;
mod patchgen;
mod props;
mod rt;
mod state;
use fw::*;

#[global_allocator]
static HEAP: rt::Counting = rt::Counting;

use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("HX_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn known_for(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let v: Value = std::fs::read_to_string(&p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
    let mut out = vec![];
    if let Some(a) = v["known"].as_array() {
        for e in a {
            if e["property"].as_str() == Some(id) {
                out.push((e["signature"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()));
            }
        }
    }
    out
}

enum Wait {
    Done(std::process::ExitStatus),
    Timeout,
}

fn wait_to(mut c: std::process::Child, secs: u64) -> Wait {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Wait::Done(s),
            Ok(None) => {}
            Err(_) => return Wait::Timeout,
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return Wait::Timeout;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn spawn_self(args: &[String]) -> std::process::Child {
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(exe);
    c.args(args).stdout(Stdio::null()).stdin(Stdio::null());
    if std::env::var("HX_VERBOSE").is_err() {
        c.stderr(Stdio::null());
    }
    c.spawn().expect("spawn child")
}

fn is_crash(sig: i32) -> bool {
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    [4, 5, 6, 7, 8, 11].contains(&sig)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    match cmd {
        "run" => std::process::exit(parent(&args[2], &args[3], seed, args.get(4).cloned())),
        "child" => {
            limit_memory(22);
            install_hook();
            start_hang_watch();
            let prop = props::get(&args[2]).expect("property");
            let known: Vec<String> = known_for(prop.id).into_iter().map(|x| x.0).collect();
            let only = args.get(6).map(|s| s.as_str());
            let r = run_prop(&prop, &args[3], seed, Path::new(&args[4]), &known, only);
            write_atomic(Path::new(&args[5]), &result_json(&r).to_string());
            unsafe { libc_exit(0) };
        }
        // one <prop> <sub> <i> <out>: one case by index; prints result to file
        "one" => {
            limit_memory(6);
            install_hook();
            let prop = props::get(&args[2]).expect("property");
            let s = prop.subs.iter().find(|s| s.name == args[3]).expect("sub");
            let i: u64 = args[4].parse().unwrap();
            set_worker(true);
            let mut src = Src::seeded(case_seed(seed, prop.id, s.name, i));
            let mut ctx = Ctx::default();
            let r = run_case(s.f, &mut src, &mut ctx);
            write_atomic(Path::new(&args[5]), &json!({"err": r.err(), "choices": src.rec}).to_string());
            unsafe { libc_exit(0) };
        }
        "replay" => {
            limit_memory(6);
            install_hook();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("file")).expect("json");
            let prop = props::get(v["property"].as_str().unwrap()).expect("property");
            let s = prop.subs.iter().find(|s| Some(s.name) == v["sub"].as_str()).expect("sub");
            set_worker(true);
            let mut src = match v["choices"].as_array() {
                Some(a) => Src::replay(a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
                None => Src::seeded(case_seed(v["seed"].as_u64().unwrap(), prop.id, s.name, v["case"].as_u64().unwrap())),
            };
            let mut ctx = Ctx::default();
            ctx.describe = true;
            let r = run_case(s.f, &mut src, &mut ctx);
            for d in &ctx.desc {
                eprintln!("  {}", d);
            }
            match r {
                Ok(()) => {
                    eprintln!("PASS");
                    unsafe { libc_exit(0) };
                }
                Err(e) => {
                    eprintln!("FAIL {}", e);
                    unsafe { libc_exit(1) };
                }
            }
        }
        "saver" => {
            let r = props::files::saver(&args[2..]);
            unsafe { libc_exit(r) };
        }
        "dump" => {
            for n in model::all_nodes() {
                print!("{} |in:", n);
                let mut i = 0;
                while let Some(p) = n.inp_param_by_idx(i) {
                    print!(" {}[{:?} def {:?}]", p.name(), p.param_min_max(), p.as_atom_def());
                    i += 1;
                }
                print!(" |at:");
                let mut i = 0;
                while let Some(p) = n.atom_param_by_idx(i) {
                    print!(" {}[{:?} def {:?}]", p.name(), p.setting_min_max(), p.as_atom_def());
                    i += 1;
                }
                print!(" |out:");
                let mut i = 0;
                while let Some(o) = n.out_name_by_idx(i) {
                    print!(" {}", o);
                    i += 1;
                }
                println!();
            }
        }
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}({})", s.name, s.quick)).collect::<Vec<_>>().join(" "));
            }
        }
        _ => {
            eprintln!("usage: hxcheck run <prop> <tier> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// code that allocates without end is ended (and reported) before the machine runs out of memory
fn limit_memory(gb: u64) {
    const RLIMIT_DATA: i32 = 2;
    let l = [gb << 30, gb << 30];
    unsafe {
        setrlimit(RLIMIT_DATA, &l);
    }
}

extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

fn parent(id: &str, tier: &str, seed: u64, only: Option<String>) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = props::get(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let scratch = std::env::temp_dir().join(format!("hxcheck-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::env::set_var("HX_SCRATCH", &scratch);
    let code = parent2(&prop, tier, seed, &scratch, t0, only);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn parent2(prop: &Prop, tier: &str, seed: u64, scratch: &Path, t0: Instant, only: Option<String>) -> i32 {
    let id = prop.id;
    let vd = verif_dir();
    let replays = vd.join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    let state = scratch.join("state");
    let out = scratch.join("result.json");
    let limit = if tier == "thorough" { 6 * 3600 } else { 800 };
    let mut args = vec!["child".to_string(), id.to_string(), tier.to_string(), state.display().to_string(), out.display().to_string()];
    if let Some(o) = only {
        args.push(o);
    }
    let st = wait_to(spawn_self(&args), limit);
    let mut res: Value = json!({"evaluations": 0, "distinct": 0, "labels": {}, "samples": [], "per_sub": {}, "known_hits": {}, "fail": null});
    match st {
        Wait::Timeout => {
            eprintln!("error: check {} ran into its watchdog", id);
            return 2;
        }
        Wait::Done(s) => {
            if let Ok(t) = std::fs::read_to_string(&out) {
                res = serde_json::from_str(&t).expect("result json");
            } else if let Some(sig) = s.signal() {
                if !is_crash(sig) {
                    eprintln!("error: child ended by signal {}", sig);
                    return 2;
                }
                // find the culprit among the cases in flight
                let b = std::fs::read(&state).unwrap_or_default();
                let mut found = None;
                for ch in b.chunks(24) {
                    if ch.len() < 24 || u64::from_le_bytes(ch[0..8].try_into().unwrap()) != 1 {
                        continue;
                    }
                    let si = u64::from_le_bytes(ch[8..16].try_into().unwrap()) as usize;
                    let i = u64::from_le_bytes(ch[16..24].try_into().unwrap());
                    if si >= prop.subs.len() {
                        continue;
                    }
                    let name = prop.subs[si].name;
                    let o2 = scratch.join("one.json");
                    let _ = std::fs::remove_file(&o2);
                    for _try in 0..3 {
                        let c = spawn_self(&["one".into(), id.into(), name.into(), i.to_string(), o2.display().to_string()]);
                        match wait_to(c, HANG_S) {
                            Wait::Timeout => {
                                found = Some(json!({"property": id, "sub": name, "case": i, "seed": seed,
                                    "message": format!("hang: the case did not end within {} s", HANG_S)}));
                                break;
                            }
                            Wait::Done(s) => if let Some(sig) = s.signal() {
                                if is_crash(sig) {
                                    found = Some(json!({"property": id, "sub": name, "case": i, "seed": seed,
                                        "message": format!("crash: the process died with signal {}", sig)}));
                                    break;
                                }
                            }
                        }
                    }
                    if found.is_some() {
                        break;
                    }
                }
                if found.is_none() {
                    eprintln!("error: child died with signal {} but no case reproduces it alone", sig);
                    return 2;
                }
                res["fail"] = found.unwrap();
            } else {
                eprintln!("error: child exited with {:?} and no result", s.code());
                return 2;
            }
        }
    }
    // known findings
    for (sig, what) in known_for(id) {
        println!("KNOWN-FINDING: property={} {} [{}; hit {} times in this run]", id, what, sig, res["known_hits"][&sig].as_u64().unwrap_or(0));
    }
    let viol = if res["fail"].is_null() { 0 } else { 1 };
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"], "rule": prop.rule,
            "samples": res["samples"], "per_sub": res["per_sub"], "labels": res["labels"], "known_hits": res["known_hits"],
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": viol,
    });
    write_atomic(&vd.join("evidence").join(format!("{}.json", id)), &serde_json::to_string_pretty(&ev).unwrap());
    eprintln!("{} {}: {} cases, {} distinct non-trivial, {:.1} s", id, tier, res["evaluations"], res["distinct"], t0.elapsed().as_secs_f64());
    if let Some(ps) = res["per_sub"].as_object() {
        for (k, v) in ps {
            eprintln!("   {:24} cases {:>8} nontrivial {:>8} {:.1}s", k, v["cases"].to_string(), v["distinct_nontrivial"].to_string(), v["wall_s"].as_f64().unwrap_or(0.0));
        }
    }
    if viol == 1 {
        let f = &res["fail"];
        let path = replays.join(format!("{}-{}-{}.json", id, f["sub"].as_str().unwrap_or("x"), f["case"]));
        write_atomic(&path, &serde_json::to_string_pretty(f).unwrap());
        eprintln!("violated: {} / {}: {}", id, f["sub"], f["message"].as_str().unwrap_or(""));
        if let Some(d) = f["description"].as_array() {
            for l in d.iter().take(60) {
                eprintln!("    {}", l.as_str().unwrap_or(""));
            }
        }
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    0
}
