// P28: what an engine was given is released when it is replaced, and everything when the engine ends.
use super::rtsafe::{new_eng, play};
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::rt::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;
use std::mem::ManuallyDrop;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Weak};
use std::time::{Duration, Instant};

fn halves(e: Eng) -> (Matrix, NodeExecutor) {
    let mut e = ManuallyDrop::new(e);
    unsafe { (ManuallyDrop::take(&mut e.m), ManuallyDrop::take(&mut e.ex)) }
}

struct Ship<T>(T);
unsafe impl<T> Send for Ship<T> {}

/// ends an engine: the halves in any order, on any thread, also while the audio side still plays
fn end(m: Matrix, mut ex: NodeExecutor, how: u64) {
    match how {
        0 => {
            drop(m);
            drop(ex);
        }
        1 => {
            drop(ex);
            drop(m);
        }
        2 => {
            let sm = Ship(m);
            let t = std::thread::spawn(move || {
                let sm = sm;
                drop(sm.0)
            });
            let z = [0.0; 64];
            while !t.is_finished() {
                ex.process_graph_updates();
                run_block(&mut ex, 64, &z, &z);
                std::thread::sleep(Duration::from_millis(5));
            }
            let _ = t.join();
            drop(ex);
        }
        _ => {
            let z = [0.0; 64];
            drop(m);
            ex.process_graph_updates();
            run_block(&mut ex, 64, &z, &z);
            drop(ex);
        }
    }
}

const N: usize = 8;

/// the same life of an engine, N times: live bytes and blocks that are left afterwards
fn round(ch: &[u64], how: &[u64]) -> Result<(isize, isize), String> {
    let (a, b) = (BYTES.load(Ordering::SeqCst), BLOCKS.load(Ordering::SeqCst));
    let mut es = vec![];
    for _ in 0..N {
        let mut s = Src::replay(ch.to_vec());
        let mut c = Ctx::default();
        let mut e = new_eng(&mut s);
        play(&mut s, &mut c, &mut e, false)?;
        es.push(e);
    }
    std::thread::scope(|sc| {
        for (e, how) in es.drain(..).zip(how.iter()) {
            let (m, ex) = halves(e);
            let p = Ship((m, ex));
            let how = *how;
            sc.spawn(move || {
                let p = p;
                let Ship((m, ex)) = p;
                end(m, ex, how)
            });
        }
    });
    drop(es);
    Ok((BYTES.load(Ordering::SeqCst) - a, BLOCKS.load(Ordering::SeqCst) - b))
}

fn heap(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    WATCH.store(true, Ordering::SeqCst);
    let how: Vec<u64> = (0..N).map(|_| s.below(4) as u64).collect();
    let p0 = s.rec.len();
    {
        let mut e = new_eng(s);
        play(s, c, &mut e, false)?;
        let (m, ex) = halves(e);
        end(m, ex, 0);
    }
    let ch = s.rec[p0..].to_vec();
    c.note(|| format!("ended {:?}", how));
    // (things that are made once per process come into being in the first rounds)
    let mut v = vec![];
    for k in 0..4 {
        let r = round(&ch, &how)?;
        v.push(r);
        if k >= 1 && r.0 < 24 * N as isize && r.1 < N as isize {
            return Ok(());
        }
    }
    Err(format!("heap-grows: after {} engines were ended {:?} bytes and blocks are left", N, v))
}

/// a function that tells that it is alive
struct Fun(#[allow(dead_code)] Arc<()>);
impl DynamicNode1x1 for Fun {
    fn process(&mut self, inp: &[f32], out: &mut [f32], _ctx: &DynNode1x1Context) {
        out.copy_from_slice(&inp[..out.len()]);
    }
}
struct Obs(#[allow(dead_code)] Arc<()>);
impl hexodsp::matrix::MatrixObserver for Obs {
    fn update_prop(&self, _: &str) {}
    fn update_monitor(&self, _: &Cell) {}
    fn update_param(&self, _: &ParamId) {}
    fn update_matrix(&self) {}
    fn update_all(&self) {}
    fn midi_event(&self, _: HxMidiEvent) {}
}

enum Life {
    Sample(Weak<Vec<f32>>),
    Other(Weak<()>),
}
impl Life {
    fn lives(&self) -> bool {
        match self {
            Life::Sample(w) => w.strong_count() > 0,
            Life::Other(w) => w.strong_count() > 0,
        }
    }
}

/// waits until all but a few have gone
fn await_end(v: &[(String, Life)], but: usize) -> Result<(), String> {
    let t0 = Instant::now();
    loop {
        let l: Vec<&String> = v.iter().filter(|x| x.1.lives()).map(|x| &x.0).collect();
        if l.len() <= but {
            return Ok(());
        }
        if t0.elapsed() > Duration::from_secs(8) {
            return Err(format!("still-alive: {:?}", l));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn release(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut e = Eng::new(4, 4);
    // samples and functions that are set, by instance
    let mut cur: Vec<(String, Life)> = vec![];
    let mut old: Vec<(String, Life)> = vec![];
    let mut maybe: Vec<(String, Life)> = vec![];
    let mut funs: [Vec<(String, Life)>; 3] = [vec![], vec![], vec![]];
    let mut n = 0;
    let mut cleared = false;
    let mut l = Layout::new(4, 4);
    let pool = [NodeId::Sampl(0), NodeId::Rust1x1(0), NodeId::Sin(0), NodeId::Amp(0), NodeId::TSeq(0), NodeId::Scope(0)];
    let retire = |cur: &mut Vec<(String, Life)>, old: &mut Vec<(String, Life)>, key: &str| {
        let mut i = 0;
        while i < cur.len() {
            if cur[i].0.starts_with(key) {
                old.push(cur.remove(i));
            } else {
                i += 1;
            }
        }
    };
    let z = [0.0; 128];
    let mut kept_p = vec![];
    let mut kept_b = vec![];
    let mut kept_s = vec![];
    for _ in 0..s.usz(3, 30) {
        match s.weighted(&[5, 4, 4, 1, 2, 5, 2, 1, 1]) {
            0 => {
                let i = s.below(3);
                let a = Arc::new(vec![44100.0, 0.1, 0.2, 0.3]);
                n += 1;
                let key = format!("sample {} ", i);
                retire(&mut cur, &mut old, &key);
                cur.push((format!("{}nr {}", key, n), Life::Sample(Arc::downgrade(&a))));
                c.note(|| format!("sample {} nr {}", i, n));
                e.m.set_param(NodeId::Sampl(i as u8).inp_param("sample").unwrap(), SAtom::audio("x.wav", a));
            }
            1 => {
                let i = s.below(3);
                let a = Arc::new(());
                n += 1;
                let key = format!("function {} ", i);
                // the triple buffer that hands over the functions keeps up to two old ones
                retire(&mut cur, &mut funs[i], &key);
                if cleared { &mut maybe } else { &mut cur }.push((format!("{}nr {}", key, n), Life::Other(Arc::downgrade(&a))));
                c.note(|| format!("function {} nr {}", i, n));
                e.m.set_dynamic_node1x1(i, Box::new(Fun(a)));
            }
            2 => {
                let mut nl = l.clone();
                let q = (s.below(4), s.below(4));
                if s.chance(1, 3) {
                    nl.cells.remove(&q);
                } else {
                    let node = s.pickc(&pool).to_instance(s.below(3));
                    let cell = gen_cell(s, node, 4);
                    nl.cells.insert(q, cell);
                }
                if nl.legal() {
                    c.note(|| format!("edit {}", nl.show()));
                    l = nl;
                    e.m.change_matrix(|m| l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
                    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                }
            }
            3 => {
                c.note(|| "clear".into());
                e.m.clear();
                l = Layout::new(4, 4);
                retire(&mut cur, &mut old, "sample");
                // (the functions belong to no node any more, or wait for one)
                retire(&mut cur, &mut maybe, "function");
                for f in funs.iter_mut() {
                    maybe.append(f);
                }
                cleared = true;
                c.label("clear");
            }
            4 => {
                let a = Arc::new(());
                n += 1;
                retire(&mut cur, &mut old, "observer");
                cur.push((format!("observer nr {}", n), Life::Other(Arc::downgrade(&a))));
                e.m.set_observer(Arc::new(Obs(a)));
            }
            5 => {
                c.note(|| "block".into());
                e.block(64, &z, &z);
            }
            6 => {
                let i = s.below(3);
                if let Some(p) = e.m.get_pattern_data(i) {
                    p.lock().unwrap().set_rows(3 + i);
                    kept_p.push(p);
                }
                e.m.check_pattern_data(i);
            }
            7 => {
                if let Some(b) = e.m.get_block_function(s.below(3)) {
                    kept_b.push(b);
                }
            }
            _ => {
                if let Some(b) = e.m.get_scope_handle(s.below(3)) {
                    kept_s.push(b);
                }
            }
        }
    }
    let look = s.bool();
    if look {
        // the audio side takes over everything: what was replaced goes
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
        for _ in 0..3 {
            e.block(64, &z, &z);
            let _ = e.m.update_output_feedback();
            e.m.handle_graph_events();
        }
        await_end(&old, 0)?;
        for f in funs.iter() {
            await_end(f, 2)?;
        }
        for x in cur.iter().filter(|x| !x.1.lives()) {
            return Err(format!("released-early: {} is still in use", x.0));
        }
        c.label("looked");
    }
    let how = s.below(4) as u64;
    c.note(|| format!("end {}", how));
    let (m, ex) = halves(e);
    end(m, ex, how);
    old.append(&mut cur);
    old.append(&mut maybe);
    for f in funs.iter_mut() {
        old.append(f);
    }
    let k = old.len();
    await_end(&old, 0)?;
    // handles outlive the engine
    for p in kept_p.iter() {
        let mut p = p.lock().unwrap();
        p.set_rows(7);
        if p.rows() != 7 {
            return Err("kept: the pattern does not work any more".into());
        }
    }
    for b in kept_b.iter() {
        let mut b = b.lock().unwrap();
        let _ = b.instanciate_at(0, 1, 1, "value", Some("0.5".into()));
        if b.block_at(0, 1, 1).is_none() {
            return Err("kept: the block program does not work any more".into());
        }
    }
    for b in kept_s.iter() {
        let _ = b.read(0, 3);
    }
    if kept_p.len() + kept_b.len() + kept_s.len() > 0 {
        c.label("kept");
    }
    c.nontrivial = k >= 2;
    c.label(&format!("end {}", how));
    Ok(())
}

pub fn p28() -> Prop {
    Prop {
        id: "P28",
        level: "exploration",
        rule: "heap: random lives of an engine (as in P27), each led eight times and ended in random order of its halves, on any thread, also while the audio side still plays; live bytes and blocks of the process have to come back to where they were. release: histories of setting samples, functions and observers, edits, clears and blocks; everything that was replaced is released after the audio side took over, nothing that is in use is, and everything is released with the engine. Non-trivial = at least two things to release (release), as in P27 (heap).",
        assumptions: &["what is replaced is freed by a thread that looks every 250 ms: up to 8 s are waited for", "the buffer that hands over a Rust function keeps up to two old ones; after a clear functions are followed to the end of the engine only (documented: they have to be set again)"],
        subs: vec![subt("heap", 14, 500, 1, heap), subt("release", 3000, 40000, 48, release)],
    }
}
