// Engine helpers: an engine = Matrix + NodeExecutor; rendering; disposal off the hot path.
use hexodsp::dsp::MAX_BLOCK_SIZE;
use hexodsp::*;
use std::sync::mpsc::{sync_channel, SyncSender};
use std::sync::{Arc, Mutex, OnceLock};

pub use hexodsp::dsp::{NodeInfo, ParamId, SAtom};
pub use hexodsp::nodes::{HxMidiEvent, HxTimedEvent};

struct Bag(Box<dyn std::any::Any>);
unsafe impl Send for Bag {}

static REAPER: OnceLock<Mutex<SyncSender<Bag>>> = OnceLock::new();

fn reaper() -> SyncSender<Bag> {
    REAPER
        .get_or_init(|| {
            let (tx, rx) = sync_channel::<Bag>(8);
            let rx = Arc::new(Mutex::new(rx));
            // (dropping an engine takes up to 250 ms, the ones of these properties are large)
            let heavy = std::env::args().any(|a| matches!(a.as_str(), "P07" | "P08" | "P09"));
            for _ in 0..if heavy { 60 } else { 400 } {
                let rx = rx.clone();
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || loop {
                        let b = {
                            let l = rx.lock().unwrap();
                            l.recv()
                        };
                        match b {
                            Ok(b) => {
                                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(b)));
                            }
                            Err(_) => break,
                        }
                    })
                    .expect("reaper thread");
            }
            Mutex::new(tx)
        })
        .lock()
        .unwrap()
        .clone()
}

/// Drops something in the background.
pub fn dispose<T: 'static>(x: T) {
    let _ = reaper().send(Bag(Box::new(x)));
}

pub struct Eng {
    pub m: std::mem::ManuallyDrop<Matrix>,
    pub ex: std::mem::ManuallyDrop<NodeExecutor>,
    pub sr: f32,
}

impl Drop for Eng {
    fn drop(&mut self) {
        let m = unsafe { std::mem::ManuallyDrop::take(&mut self.m) };
        let ex = unsafe { std::mem::ManuallyDrop::take(&mut self.ex) };
        dispose((ex, m));
    }
}

impl Eng {
    pub fn new(w: usize, h: usize) -> Self {
        Self::with_sr(w, h, 44100.0)
    }
    pub fn with_sr(w: usize, h: usize, sr: f32) -> Self {
        let (nc, mut ex) = new_node_engine();
        ex.no_logging();
        ex.set_sample_rate(sr);
        let m = Matrix::new(nc, w, h);
        Eng { m: std::mem::ManuallyDrop::new(m), ex: std::mem::ManuallyDrop::new(ex), sr }
    }
    pub fn upd(&mut self) {
        self.ex.process_graph_updates();
    }
    /// one block; inputs have at least n frames
    pub fn block(&mut self, n: usize, in_l: &[f32], in_r: &[f32]) -> (Vec<f32>, Vec<f32>) {
        self.block_ev(n, in_l, in_r, &[])
    }
    pub fn block_ev(&mut self, n: usize, in_l: &[f32], in_r: &[f32], evs: &[HxTimedEvent]) -> (Vec<f32>, Vec<f32>) {
        self.ex.process_graph_updates();
        let mut i = 0;
        self.ex.feed_midi_events_from(|| {
            i += 1;
            evs.get(i - 1).copied()
        });
        run_block(&mut self.ex, n, in_l, in_r)
    }
    /// n frames of silence in, in maximal blocks
    pub fn run(&mut self, n: usize) -> (Vec<f32>, Vec<f32>) {
        let z = vec![0.0; n];
        self.run_in(&z, &z, MAX_BLOCK_SIZE)
    }
    pub fn run_in(&mut self, l: &[f32], r: &[f32], bs: usize) -> (Vec<f32>, Vec<f32>) {
        let mut ol = vec![];
        let mut or = vec![];
        let mut o = 0;
        while o < l.len() {
            let n = bs.min(l.len() - o);
            let (a, b) = self.block(n, &l[o..o + n], &r[o..o + n]);
            ol.extend(a);
            or.extend(b);
            o += n;
        }
        (ol, or)
    }
    pub fn run_blocks(&mut self, l: &[f32], r: &[f32], bs: &[usize]) -> (Vec<f32>, Vec<f32>) {
        let mut ol = vec![];
        let mut or = vec![];
        let mut o = 0;
        let mut bi = 0;
        while o < l.len() {
            let n = bs[bi % bs.len()].min(l.len() - o);
            bi += 1;
            let (a, b) = self.block(n, &l[o..o + n], &r[o..o + n]);
            ol.extend(a);
            or.extend(b);
            o += n;
        }
        (ol, or)
    }
}

pub fn run_block(ex: &mut NodeExecutor, n: usize, in_l: &[f32], in_r: &[f32]) -> (Vec<f32>, Vec<f32>) {
    let mut ol = vec![0.0; n];
    let mut or = vec![0.0; n];
    {
        let mut ctx = Context { nframes: n, output: &mut [&mut ol[..], &mut or[..]], input: &[&in_l[..n], &in_r[..n]] };
        ex.process(&mut ctx);
    }
    (ol, or)
}

/// |a-b| within abs + rel tolerance
pub fn close(a: f32, b: f32, abs: f32, rel: f32) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn cmp_sig(what: &str, a: &[f32], b: &[f32], abs: f32, rel: f32) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{}: length {} vs {}", what, a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if !close(*x, *y, abs, rel) {
            return Err(format!("{}: sample {} is {} but expected {}", what, i, x, y));
        }
    }
    Ok(())
}

pub fn set(m: &mut Matrix, n: NodeId, p: &str, v: f32) {
    let pid = n.inp_param(p).unwrap_or_else(|| panic!("no param {} on {}", p, n));
    m.set_param(pid, SAtom::param(v));
}
pub fn set_denorm(m: &mut Matrix, n: NodeId, p: &str, v: f32) {
    let pid = n.inp_param(p).unwrap_or_else(|| panic!("no param {} on {}", p, n));
    m.set_param(pid, SAtom::param(pid.norm(v)));
}
pub fn set_i(m: &mut Matrix, n: NodeId, p: &str, v: i64) {
    let pid = n.inp_param(p).unwrap_or_else(|| panic!("no param {} on {}", p, n));
    m.set_param(pid, SAtom::setting(v));
}
pub fn inp(n: NodeId, p: &str) -> Option<u8> {
    Some(n.inp(p).unwrap_or_else(|| panic!("no input {} on {}", p, n)))
}
pub fn out(n: NodeId, p: &str) -> Option<u8> {
    Some(n.out(p).unwrap_or_else(|| panic!("no output {} on {}", p, n)))
}
