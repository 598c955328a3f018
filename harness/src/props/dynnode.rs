// P25: Rust functions given to the Rust1x1 nodes, against a model of who plays what.
use crate::eng::*;
use crate::fw::*;
use crate::patchgen::*;
use hexodsp::*;
use std::cell::Cell as StdCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

thread_local! { static AUDIO: StdCell<bool> = StdCell::new(false); }

#[derive(Debug, Clone)]
enum Ev {
    Play { f: usize, inp: Vec<f32>, aux: [Vec<f32>; 4], out: Vec<f32> },
    Rate { f: usize, sr: f32 },
    Drop { f: usize, audio: bool },
}
type Log = Arc<Mutex<Vec<Ev>>>;

/// a function with memory: the sum of everything that it heard, and a count of samples
struct Fun {
    id: usize,
    k: [f32; 6],
    mem: f32,
    cnt: f32,
    log: Log,
}
impl DynamicNode1x1 for Fun {
    fn set_sample_rate(&mut self, sr: f32) {
        self.log.lock().unwrap().push(Ev::Rate { f: self.id, sr });
    }
    fn process(&mut self, inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context) {
        let aux = [ctx.alpha_slice().to_vec(), ctx.beta_slice().to_vec(), ctx.gamma_slice().to_vec(), ctx.delta_slice().to_vec()];
        for i in 0..out.len() {
            let x = inp.get(i).copied().unwrap_or(77.0);
            let a: Vec<f32> = aux.iter().map(|v| v.get(i).copied().unwrap_or(77.0)).collect();
            self.mem = self.mem * 0.9 + x * self.k[5];
            out[i] = self.k[0] * x + self.k[1] * a[0] + self.k[2] * a[1] * a[2] + self.k[3] * a[3] + self.k[4] * self.mem;
            self.cnt += 1.0;
        }
        ctx.led_value().set(self.k[0] + self.id as f32);
        ctx.phase_value().set(self.cnt);
        self.log.lock().unwrap().push(Ev::Play { f: self.id, inp: inp.to_vec(), aux, out: out.to_vec() });
    }
}
impl Drop for Fun {
    fn drop(&mut self) {
        let audio = AUDIO.with(|a| a.get());
        self.log.lock().unwrap().push(Ev::Drop { f: self.id, audio });
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum From {
    In(u8),
    Node(usize),
}
const PORTS: [&str; 5] = ["inp", "alpha", "beta", "gamma", "delta"];
const NI: usize = 4;

#[derive(Debug, Clone, Default)]
struct Graph {
    /// instances in the graph, inputs of every one
    on: BTreeMap<usize, [Option<From>; 5]>,
    outs: [Option<usize>; 2],
}
impl Graph {
    fn place(&self, m: &mut Matrix) {
        let (w, h) = m.size();
        for x in 0..w {
            for y in 0..h {
                m.place(x, y, Cell::empty(NodeId::Nop));
            }
        }
        let mut pos = (0..w).flat_map(|x| (0..h / 2).map(move |k| (x, 2 * k)));
        let mut edge = |m: &mut Matrix, f: Option<(NodeId, u8)>, t: NodeId, port: u8| {
            let (x, y) = pos.next().expect("harness: grid too small");
            if let Some((n, o)) = f {
                m.place(x, y, Cell::empty(n).out(None, None, Some(o)));
                m.place(x, y + 1, Cell::empty(t).input(Some(port), None, None));
            } else {
                m.place(x, y, Cell::empty(t));
            }
        };
        for (i, ins) in &self.on {
            let t = NodeId::Rust1x1(*i as u8);
            edge(m, None, t, 0);
            for (k, f) in ins.iter().enumerate() {
                let port = t.inp(PORTS[k]).unwrap();
                match f {
                    None => {}
                    Some(From::In(o)) => edge(m, Some((NodeId::Inp(0), *o)), t, port),
                    Some(From::Node(j)) => edge(m, Some((NodeId::Rust1x1(*j as u8), 0)), t, port),
                }
            }
        }
        let o = NodeId::Out(0);
        for (ch, f) in self.outs.iter().enumerate() {
            if let Some(j) = f {
                edge(m, Some((NodeId::Rust1x1(*j as u8), 0)), o, o.inp(["ch1", "ch2"][ch]).unwrap());
            }
        }
    }
}

fn gen_graph(s: &mut Src) -> Graph {
    let mut g = Graph::default();
    let n = s.usz(1, 3);
    let mut ids: Vec<usize> = vec![];
    for _ in 0..n {
        let i = s.below(NI);
        if !ids.contains(&i) {
            ids.push(i);
        }
    }
    // (the order of the list is the order of the connections)
    for (k, i) in ids.iter().enumerate() {
        let mut ins = [None; 5];
        for x in ins.iter_mut() {
            *x = match s.weighted(&[4, 2, 2, 3]) {
                0 => None,
                1 => Some(From::In(0)),
                2 => Some(From::In(1)),
                _ if k > 0 => Some(From::Node(ids[s.below(k)])),
                _ => None,
            };
        }
        g.on.insert(*i, ins);
    }
    g.outs = [Some(s.pickc(&ids)), if s.chance(1, 2) { Some(s.pickc(&ids)) } else { None }];
    g
}

#[derive(Default, Clone)]
struct Inst {
    exists: bool,
    taken: bool,
    cur: Option<usize>,
}

fn functions(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut sr = s.pickc(&[44100.0f32, 48000.0, 22050.0, 96000.0, 44100.0]);
    let mut e = Eng::with_sr(4, 16, sr);
    let log: Log = Arc::new(Mutex::new(vec![]));
    let mut inst: Vec<Inst> = vec![Inst::default(); NI];
    let mut n_fun = 0;
    let mut g = Graph::default();
    // value of every auxiliary parameter, the range it moves in, and the frame it was changed in
    let moving = |frames: usize, at: usize, sr: f32| at + (0.0101 * sr) as usize + 140 > frames;
    let mut par: BTreeMap<(usize, usize), (f32, f32, f32, usize)> = BTreeMap::new();
    let mut frames = 0usize;
    let mut rate_of: BTreeMap<usize, f32> = BTreeMap::new();
    let mut played: BTreeMap<usize, usize> = BTreeMap::new();
    let (mut swaps, mut loud) = (0, false);
    let steps = s.usz(4, 16);
    for step in 0..steps {
        let k = match step {
            0 => s.weighted(&[2, 0, 0, 3]),
            1 => s.weighted(&[2, 0, 1, 3, 1]),
            2 => s.weighted(&[2, 4, 1, 1]),
            _ if step + 1 == steps => 1,
            _ => s.weighted(&[8, 16, 6, 5, 3, 1]),
        };
        match k {
            0 => {
                let i = if s.chance(3, 4) && !g.on.is_empty() { *s.pick(&g.on.keys().collect::<Vec<_>>()).clone() } else { s.below(NI) };
                let kk: [f32; 6] = [s.bip(), s.bip(), s.bip(), s.bip(), s.bip(), s.bip()];
                let id = n_fun;
                n_fun += 1;
                c.note(|| format!("function {} for instance {} ({:?})", id, i, kk));
                e.m.set_dynamic_node1x1(i, Box::new(Fun { id, k: kk, mem: 0.0, cnt: 0.0, log: log.clone() }));
                if inst[i].cur.is_some() {
                    swaps += 1;
                }
                inst[i].cur = Some(id);
            }
            1 => {
                let n = s.usz(1, 300);
                let l = gen_signal(s, n);
                let r = gen_signal(s, n);
                let bs = gen_blocks(s);
                c.note(|| format!("run {} in {:?}", n, &bs[..bs.len().min(8)]));
                let mut o = 0;
                let mut bi = 0;
                while o < n {
                    let b = bs[bi % bs.len()].clamp(1, 128).min(n - o);
                    bi += 1;
                    log.lock().unwrap().retain(|x| !matches!(x, Ev::Play { .. }));
                    AUDIO.with(|a| a.set(true));
                    let (ol, or) = e.block(b, &l[o..o + b], &r[o..o + b]);
                    AUDIO.with(|a| a.set(false));
                    let evs: Vec<Ev> = std::mem::take(&mut *log.lock().unwrap());
                    let mut plays: BTreeMap<usize, (Vec<f32>, [Vec<f32>; 4], Vec<f32>)> = BTreeMap::new();
                    for ev in evs {
                        match ev {
                            Ev::Rate { f, sr } => {
                                rate_of.insert(f, sr);
                            }
                            Ev::Drop { f, audio } => {
                                if inst.iter().any(|i| i.cur == Some(f)) {
                                    return Err(format!("fun-dropped: function {} is dropped although it is the current one", f));
                                }
                                if audio {
                                    return Err(format!("fun-dropped-audio: function {} is dropped in the audio thread", f));
                                }
                            }
                            Ev::Play { f, inp, aux, out } => {
                                if rate_of.get(&f) != Some(&sr) {
                                    return Err(format!("fun-rate: function {} runs at {} but was told {:?}", f, sr, rate_of.get(&f)));
                                }
                                if plays.insert(f, (inp, aux, out)).is_some() {
                                    return Err(format!("fun-twice: function {} ran twice in a block", f));
                                }
                            }
                        }
                    }
                    let zero = vec![0.0f32; b];
                    let out_of = |j: usize| -> Vec<f32> { inst[j].cur.and_then(|f| plays.get(&f)).map(|p| p.2.clone()).unwrap_or(zero.clone()) };
                    for (f, p) in &plays {
                        let Some(i) = (0..NI).find(|i| inst[*i].cur == Some(*f) && g.on.contains_key(i)) else {
                            return Err(format!("fun-stale: function {} ran although it is replaced or not connected", f));
                        };
                        *played.entry(*f).or_insert(0) += b;
                        let sigs = [&p.0, &p.1[0], &p.1[1], &p.1[2], &p.1[3]];
                        for (k, sig) in sigs.iter().enumerate() {
                            if sig.len() != b || p.2.len() != b {
                                return Err(format!("fun-frames: {} samples at {} of a block of {}", sig.len(), PORTS[k], b));
                            }
                            match g.on[&i][k] {
                                None => {
                                    let (v, lo, hi, at) = par.get(&(i, k)).copied().unwrap_or((0.0, 0.0, 0.0, 0));
                                    let (lo, hi) = if moving(frames, at, sr) { (lo, hi) } else { (v, v) };
                                    if let Some(x) = sig.iter().find(|x| !(**x >= lo - 1e-4 && **x <= hi + 1e-4)) {
                                        return Err(format!("fun-param: {} of instance {} reads {} and not {} ({}..{})", PORTS[k], i, x, v, lo, hi));
                                    }
                                }
                                Some(From::In(0)) => cmp_sig(&format!("fun-input: {} of instance {}", PORTS[k], i), sig, &l[o..o + b], 1e-5, 1e-5)?,
                                Some(From::In(_)) => cmp_sig(&format!("fun-input: {} of instance {}", PORTS[k], i), sig, &r[o..o + b], 1e-5, 1e-5)?,
                                Some(From::Node(j)) => cmp_sig(&format!("fun-chain: {} of instance {} from {}", PORTS[k], i, j), sig, &out_of(j), 0.0, 0.0)?,
                            }
                        }
                        let fk = e.m.led_value_for(&NodeId::Rust1x1(i as u8));
                        let ph = e.m.phase_value_for(&NodeId::Rust1x1(i as u8));
                        if (fk - *f as f32).abs() > 1.01 || ph != played[f] as f32 {
                            return Err(format!("fun-led: instance {} shows {} and {} after function {} played {} samples", i, fk, ph, f, played[f]));
                        }
                        loud |= p.2.iter().any(|x| x.abs() > 1e-3);
                    }
                    for i in g.on.keys() {
                        if let Some(f) = inst[*i].cur {
                            if !plays.contains_key(&f) {
                                return Err(format!("fun-silent: function {} of instance {} did not run", f, i));
                            }
                        }
                    }
                    for (ch, sig) in [(0, &ol), (1, &or)] {
                        let want = g.outs[ch].map(|j| out_of(j)).unwrap_or(zero.clone());
                        cmp_sig(&format!("fun-output: channel {}", ch), sig, &want, 1e-5, 1e-5)?;
                    }
                    frames += b;
                    o += b;
                }
            }
            2 => {
                let i = s.below(NI);
                let k = s.usz(1, 4);
                let v = s.bip();
                let old = par.get(&(i, k)).copied().unwrap_or((0.0, 0.0, 0.0, 0));
                let p = NodeId::Rust1x1(i as u8).inp_param(PORTS[k]).unwrap();
                c.note(|| format!("set {} of {} to {}", PORTS[k], i, v));
                e.m.set_param(p, SAtom::param(v));
                // on the way it is somewhere between where it was and where it goes
                let (lo, hi) = if moving(frames, old.3, sr) { (old.1, old.2) } else { (old.0, old.0) };
                par.insert((i, k), (v, lo.min(v), hi.max(v), frames));
            }
            3 => {
                g = gen_graph(s);
                c.note(|| format!("graph {:?}", g));
                let gg = g.clone();
                e.m.change_matrix(|m| gg.place(m)).map_err(|x| format!("refused: {:?}", x))?;
                e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                let top = *g.on.keys().max().unwrap();
                for i in 0..=top {
                    if !inst[i].exists {
                        inst[i].exists = true;
                        // documented: only the first node of an instance takes what was set before
                        if inst[i].taken {
                            inst[i].cur = None;
                        }
                        inst[i].taken = true;
                    }
                }
            }
            4 => {
                for p in par.values_mut() {
                    if moving(frames, p.3, sr) {
                        // (a ramp that began goes on with as many samples)
                        p.3 = frames + 970;
                    }
                }
                sr = s.pickc(&[44100.0f32, 48000.0, 22050.0, 96000.0]);
                c.note(|| format!("rate {}", sr));
                e.ex.set_sample_rate(sr);
                e.sr = sr;
            }
            _ => {
                c.note(|| "clear".into());
                e.m.clear();
                g = Graph::default();
                par.clear();
                for i in inst.iter_mut() {
                    if i.exists {
                        i.exists = false;
                        i.cur = None;
                    }
                }
            }
        }
    }
    if swaps > 0 {
        c.label("swapped");
    }
    c.nontrivial = loud;
    Ok(())
}

pub fn p25() -> Prop {
    Prop {
        id: "P25",
        level: "exploration",
        rule: "non-trivial: a function played something audible",
        assumptions: &["documented: after a clear, the function of an instance has to be set again"],
        subs: vec![sub("functions", 30000, 600000, functions)],
    }
}
