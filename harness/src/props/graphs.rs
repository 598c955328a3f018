// P26: the graph that is drawn for a node is the curve that the node plays.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::dsp::{GraphAtomData, GraphFun};
use hexodsp::*;
use std::collections::BTreeMap;
use synfx_dsp::{apply_distortion, sqrt4_to_pow4, EnvADSRParams, EnvRetrigADSR, PolyBlepOscillator, TriSawLFO, VPSOscillator};

/// parameter values as the user interface hands them to a graph
#[derive(Clone)]
struct Data {
    node: NodeId,
    vals: BTreeMap<u8, SAtom>,
    led: f32,
    phase: f32,
}

impl Data {
    fn gen(s: &mut Src, node: NodeId) -> Data {
        let mut vals = BTreeMap::new();
        for p in params_of(node).into_iter().chain(atoms_of(node)) {
            vals.insert(p.inp(), gen_val(s, p));
        }
        Data { node, vals, led: s.bip(), phase: s.uni() }
    }
    fn i(&self, name: &str) -> i64 {
        self.vals[&self.node.inp_param(name).unwrap().inp()].i()
    }
    fn n(&self, name: &str) -> f32 {
        self.vals[&self.node.inp_param(name).unwrap().inp()].f()
    }
    fn d(&self, name: &str) -> f32 {
        let p = self.node.inp_param(name).unwrap();
        p.denorm(self.n(name))
    }
}

impl GraphAtomData for Data {
    fn get(&self, i: u32) -> Option<SAtom> {
        self.vals.get(&(i as u8)).cloned()
    }
    fn get_denorm(&self, i: u32) -> f32 {
        self.node.param_by_idx(i as usize).map(|p| p.denorm(self.get_norm(i))).unwrap_or(0.0)
    }
    fn get_norm(&self, i: u32) -> f32 {
        self.vals.get(&(i as u8)).map(|a| a.f()).unwrap_or(0.0)
    }
    fn get_phase(&self) -> f32 {
        self.phase
    }
    fn get_led(&self) -> f32 {
        self.led
    }
}

fn xs(n: usize) -> Vec<(bool, f32, f32)> {
    (0..n).map(|i| (i == 0, i as f32 / n as f32, (i + 1) as f32 / n as f32)).collect()
}

fn draw(g: &mut GraphFun, d: &Data, n: usize, stop: usize) -> Vec<f32> {
    xs(n).into_iter().take(stop).map(|(init, x, xn)| g(d, init, x, xn)).collect()
}

/// what should be drawn; None: anything goes at this point
fn model(d: &Data, n: usize) -> Vec<Option<f32>> {
    let x = xs(n);
    match d.node {
        NodeId::Test(_) => x.iter().map(|x| Some(x.1)).collect(),
        NodeId::Ad(_) => {
            // attack and decay share the width, each at most a half of it
            let (a, b) = (d.n("atk") * 0.5, d.n("dcy") * 0.5);
            x.iter()
                .map(|(_, x, xn)| {
                    if (x - a).abs() < 1e-6 || (xn - a).abs() < 1e-6 || (x - a - b).abs() < 1e-6 {
                        None
                    } else if *x < a {
                        // the top is never left out
                        Some(if *xn > a { 1.0 } else if a < 0.0001 { 0.0 } else { sqrt4_to_pow4(x / a, d.d("ashp")) })
                    } else if *x < a + b && b >= 0.0001 {
                        Some(sqrt4_to_pow4((a + b - x) / b, d.d("dshp")))
                    } else {
                        Some(0.0)
                    }
                })
                .collect()
        }
        NodeId::Adsr(_) => {
            let mut e = EnvRetrigADSR::new();
            e.set_sample_rate(200.0);
            let ms = |p: &str| {
                // (short times are drawn longer than they are, to be visible)
                (d.d(p) / 1000.0).powf(0.3) * 180.0
            };
            let mut p = EnvADSRParams {
                attack_ms: ms("atk"),
                attack_shape: d.d("ashp"),
                decay_ms: ms("dcy"),
                decay_shape: 1.0 - d.d("dshp"),
                sustain: d.d("sus"),
                release_ms: ms("rel"),
                release_shape: 1.0 - d.d("rshp"),
            };
            x.iter().map(|(i, x, _)| Some(if *i { 0.0 } else { e.tick(if *x > 0.7 { 0.0 } else { 1.0 }, &mut p).0 })).collect()
        }
        NodeId::BOsc(_) => {
            let mut o = PolyBlepOscillator::new(0.0);
            let (f, r, pw) = (2.0, 1.0 / 128.0, d.d("pw"));
            let ty = d.i("wtype");
            if ty == 1 {
                for _ in 0..256 {
                    o.next_tri(f, r);
                }
            }
            x.iter()
                .map(|_| {
                    let s = match ty {
                        0 => o.next_sin(f, r),
                        1 => o.next_tri(f, r),
                        2 => o.next_saw(f, r),
                        3 => o.next_pulse_no_dc(f, r, pw),
                        _ => o.next_pulse(f, r, pw),
                    };
                    Some(0.05 + 0.9 * (s + 1.0) / 2.0)
                })
                .collect()
        }
        NodeId::TsLFO(_) => {
            let mut l: TriSawLFO<f32> = TriSawLFO::new();
            l.set_sample_rate(160.0);
            let t = d.n("time").sqrt();
            l.set(5.0 - 4.0 * t, d.n("rev"));
            x.iter().map(|_| Some(l.next_unipolar())).collect()
        }
        NodeId::VOsc(_) => {
            let mut o = VPSOscillator::new(0.0);
            let dd = d.d("d");
            let v = VPSOscillator::limit_v(dd, d.d("v") + d.d("vs"));
            x.iter().map(|_| Some((apply_distortion(o.next(1.0, 1.0 / 128.0, dd, v), d.d("damt"), d.i("dist") as u8) + 1.0) / 2.0)).collect()
        }
        _ => vec![None; n],
    }
}

fn drawn(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let with: Vec<NodeId> = all_nodes().into_iter().filter(|n| n.graph_fun().is_some()).collect();
    for n in [NodeId::Ad(0), NodeId::Adsr(0), NodeId::BOsc(0), NodeId::TsLFO(0), NodeId::VOsc(0)] {
        if !with.contains(&n) {
            return Err(format!("no-graph: {} has no graph any more", n));
        }
    }
    let node = s.pickc(&with).to_instance(s.below(256));
    let mut g = node.graph_fun().ok_or(format!("no-graph: {}", node))?;
    let draws = s.usz(1, 5);
    let mut lively = false;
    for k in 0..draws {
        let d = Data::gen(s, node);
        let n = s.usz(2, 300);
        if s.chance(1, 4) {
            // a drawing that is given up, with other values
            let o = Data::gen(s, node);
            let stop = s.usz(1, n);
            draw(&mut g, &o, n, stop);
            c.note(|| format!("{} points of another drawing", stop));
        }
        let show: Vec<String> = d.vals.iter().map(|(i, v)| format!("{}={:?}", node.param_by_idx(*i as usize).map(|p| p.name()).unwrap_or("?"), v)).collect();
        c.note(|| format!("{} drawing {} of {} points: {}", node, k, n, show.join(" ")));
        let a = draw(&mut g, &d, n, n);
        let m = model(&d, n);
        for (i, (v, w)) in a.iter().zip(m.iter()).enumerate() {
            // (the pulse without direct current leaves the picture as it leaves -1 to 1)
            let over = if matches!(node, NodeId::BOsc(_)) { 1.0 } else { 1e-4 };
            if !v.is_finite() || *v < -over || *v > 1.0 + over {
                return Err(format!("out-of-picture: {} draws {} at point {} of {}", node, v, i, n));
            }
            if let Some(w) = w {
                let tol = if matches!(node, NodeId::TsLFO(_)) { 1e-2 } else { 5e-4 };
                if (v - w).abs() > tol {
                    return Err(format!("graph-wrong: {} draws {} at point {} of {}, expected {}", node, v, i, n, w));
                }
                c.evals += 1;
            }
        }
        let mut f = node.graph_fun().unwrap();
        let b = draw(&mut f, &d, n, n);
        for i in 0..n {
            if a[i] != b[i] {
                return Err(format!("graph-depends: {} draws {} at point {} of {} but {} at first", node, a[i], i, n, b[i]));
            }
        }
        let (lo, hi) = a.iter().fold((9f32, -9f32), |x, v| (x.0.min(*v), x.1.max(*v)));
        lively |= hi - lo > 0.1;
        // laws of the envelope
        if let NodeId::Ad(_) = node {
            let top = a.iter().position(|v| *v == hi).unwrap();
            if a[..=top].windows(2).any(|w| w[1] < w[0] - 1e-6) || a[top..].windows(2).any(|w| w[1] > w[0] + 1e-6) {
                return Err(format!("not-one-hill: {} {:?}", node, a));
            }
            if d.n("atk") > 0.01 && hi < 0.999 {
                return Err(format!("no-top: {} reaches {} only", node, hi));
            }
        }
    }
    c.label(node.name());
    c.nontrivial = lively;
    Ok(())
}

/// the node with the values of a drawing in an engine with the given rate
fn player(d: &Data, sr: f32, over: &[(&str, f32)]) -> Result<Eng, String> {
    let n = d.node;
    let mut e = Eng::with_sr(2, 4, sr);
    for (i, v) in d.vals.iter() {
        e.m.set_param(n.param_by_idx(*i as usize).ok_or("no-param")?, v.clone());
    }
    for (name, v) in over {
        let p = n.inp_param(name).ok_or("no-param")?;
        e.m.set_param(p, SAtom::param(*v));
    }
    let gate = n.inp("gate").or(n.inp("trig"));
    e.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, None, NodeId::Inp(0).out("sig1")));
    e.m.place(0, 1, Cell::empty(n).input(gate, None, None).out(None, None, n.out("sig")));
    e.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(NodeId::Out(0).inp("ch1"), None, None));
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    Ok(e)
}

/// the drawing against the sound of the node
fn played(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let node = s.pickc(&[NodeId::Ad(0), NodeId::Adsr(0), NodeId::BOsc(0), NodeId::TsLFO(0)]);
    let d = Data::gen(s, node);
    let show: Vec<String> = d.vals.iter().map(|(i, v)| format!("{}={:?}", node.param_by_idx(*i as usize).map(|p| p.name()).unwrap_or("?"), v)).collect();
    let n = s.usz(20, 300);
    c.note(|| format!("{} {} points: {}", node, n, show.join(" ")));
    let mut g = node.graph_fun().ok_or("no-graph")?;
    let a = draw(&mut g, &d, n, n);
    let mut seen = 0;
    let norm = |p: &str, v: f32| node.inp_param(p).unwrap().norm(v);
    let near = |what: &str, i: usize, got: f32, want: f32, tol: f32| -> Result<(), String> {
        if (got - want).abs() > tol {
            return Err(format!("not-played: {} draws {} at point {} of {}, but plays {} ({})", node, got, i, n, want, what));
        }
        Ok(())
    };
    match node {
        NodeId::BOsc(_) => {
            // two periods in 128 points; the triangle swings in first
            let mut e = player(&d, 128.0, &[("freq", norm("freq", 2.0)), ("det", 0.0)])?;
            let warm = if d.i("wtype") == 1 { 256 } else { 0 };
            let (o, _) = e.run(n + warm);
            for i in 0..n {
                near("wave form", i, (a[i] - 0.05) / 0.9 * 2.0 - 1.0, o[warm + i], 0.02 + 0.05 * (d.i("wtype") > 0) as i32 as f32).or_else(|x| {
                    // an edge may come one sample earlier or later
                    let l = &o[warm..];
                    let (p, q) = (l[i.max(1) - 1], l[(i + 1).min(n - 1)]);
                    let v = (a[i] - 0.05) / 0.9 * 2.0 - 1.0;
                    if (v >= p.min(q).min(l[i]) - 0.05) && (v <= p.max(q).max(l[i]) + 0.05) { Ok(()) } else { Err(x) }
                })?;
                seen += (o[warm + i].abs() > 0.1) as usize;
            }
        }
        NodeId::TsLFO(_) => {
            let t = d.n("time").sqrt();
            let mut e = player(&d, 160.0, &[("time", norm("time", 1000.0 / (5.0 - 4.0 * t)))])?;
            let (o, _) = e.run(n);
            for i in 0..n {
                let (p, q) = (o[i.max(1) - 1], o[(i + 1).min(n - 1)]);
                if a[i] < p.min(q).min(o[i]) - 0.02 || a[i] > p.max(q).max(o[i]) + 0.02 {
                    near("LFO", i, a[i], o[i], 0.0)?;
                }
                seen += (o[i] > 0.1) as usize;
            }
        }
        NodeId::Adsr(_) => {
            let ms = |p: &str| (d.d(p) / 1000.0).powf(0.3) * 180.0;
            let mut e = player(&d, 200.0, &[("inp", 1.0), ("atk", norm("atk", ms("atk"))), ("dcy", norm("dcy", ms("dcy"))), ("rel", norm("rel", ms("rel")))])?;
            e.m.set_param(node.inp_param("mult").unwrap(), SAtom::setting(0));
            let gate: Vec<f32> = (1..n).map(|i| if i as f32 / n as f32 > 0.7 { 0.0 } else { 1.0 }).collect();
            let (o, _) = e.run_in(&gate, &gate, 128);
            for i in 1..n {
                let l = |k: usize| o[k.clamp(1, n - 1) - 1];
                let (lo, hi) = (l(i - 1).min(l(i)).min(l(i + 1)), l(i - 1).max(l(i)).max(l(i + 1)));
                if a[i] < lo - 0.01 || a[i] > hi + 0.01 {
                    near("envelope", i, a[i], l(i), 0.0)?;
                }
                seen += (l(i) > 0.1) as usize;
            }
        }
        _ => {
            // attack and decay are stretched to the picture
            let sr = 10000.0;
            let (ta, td) = (s.f(50.0, 400.0), s.f(50.0, 400.0));
            let mut e = player(&d, sr, &[("inp", 1.0), ("atk", norm("atk", ta)), ("dcy", norm("dcy", td))])?;
            e.m.set_param(node.inp_param("mult").unwrap(), SAtom::setting(0));
            let len = ((ta + td) * 10.0) as usize + 200;
            let gate: Vec<f32> = vec![1.0; len];
            let (o, _) = e.run_in(&gate, &gate, 128);
            let (x0, x1) = (d.n("atk") * 0.5, d.n("dcy") * 0.5);
            for i in 0..n {
                let (x, xn) = (i as f32 / n as f32, (i + 1) as f32 / n as f32);
                if x < x0 && xn < x0 && x0 > 0.01 && x > 0.04 * x0 {
                    near("attack", i, a[i], o[(x / x0 * ta * 10.0) as usize], 0.02)?;
                    seen += 1;
                } else if x > x0 + 1e-4 && x1 > 0.01 && x < x0 + 0.96 * x1 {
                    // (the shape of the decay is drawn the other way round, which is about the same)
                    let at = |f: f32| o[(f.clamp(0.0, 1.0) * td * 10.0 + ta * 10.0 + 1.0) as usize];
                    let f = (x - x0) / x1;
                    if a[i] > at(f - 0.06) + 0.3 || a[i] < at(f + 0.06) - 0.3 {
                        near("decay", i, a[i], at(f), 0.0)?;
                    }
                    seen += 1;
                } else if x > x0 + x1 + 1e-4 {
                    near("end", i, a[i], o[len - 1], 1e-3)?;
                }
            }
        }
    }
    c.label(node.name());
    c.evals += n as u64;
    c.nontrivial = seen > 4;
    Ok(())
}

pub fn p26() -> Prop {
    Prop {
        id: "P26",
        level: "exploration",
        rule: "random values for all parameters and settings of every node with a graph, several drawings with the same closure (some given up in the middle), any number of points; every point is compared with an own model of the curve, and with a fresh closure (drawn), or with the sound of the node in an engine whose sample rate makes one sample one point (played). Non-trivial = some curve spans more than a tenth of the picture (played: more than four points are compared that are not at rest).",
        assumptions: &["a drawing starts with its init flag set and goes from left to right", "the decay of the AD envelope is drawn with the mirrored shape (within 0.3 and 6% of the time of the one that is played)", "oscillator and envelope primitives of the external crate synfx-dsp are given"],
        subs: vec![sub("drawn", 60000, 2000000, drawn), sub("played", 8000, 200000, played)],
    }
}
