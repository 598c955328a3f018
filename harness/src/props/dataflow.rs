// P03: rendered audio equals the dataflow of the layout (reference interpreter with error bounds).
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::*;
use std::collections::{BTreeMap, HashMap};

/// value with an error bound
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: f64,
    pub e: f64,
}
const ULP: f64 = 2.4e-7;
impl V {
    pub fn c(x: f32) -> V {
        V { v: x as f64, e: 0.0 }
    }
    fn ok(self) -> V {
        if self.e.is_finite() && self.v.abs() < 1e9 { self } else { V::bad() }
    }
    pub fn add(self, o: V) -> V {
        let v = self.v + o.v;
        V { v, e: self.e + o.e + ULP * v.abs() }.ok()
    }
    pub fn sub(self, o: V) -> V {
        self.add(V { v: -o.v, e: o.e })
    }
    pub fn mul(self, o: V) -> V {
        let v = self.v * o.v;
        V { v, e: self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + ULP * v.abs() }.ok()
    }
    pub fn abs(self) -> V {
        V { v: self.v.abs(), e: self.e }
    }
    pub fn clamp(self, lo: V, hi: V) -> V {
        let (lo, hi) = if lo.v <= hi.v { (lo, hi) } else { (hi, lo) };
        let v = self.v.clamp(lo.v, hi.v);
        V { v, e: self.e.max(lo.e).max(hi.e) }.ok()
    }
    pub fn div_const(self, d: V) -> V {
        let v = self.v / d.v;
        V { v, e: (self.e + v.abs() * d.e) / d.v.abs().max(1e-9) + ULP * v.abs() }.ok()
    }
    /// through a smooth monotone function of the library's parameter table
    pub fn map<F: Fn(f32) -> f32>(self, f: F) -> V {
        if !self.e.is_finite() {
            return V::bad();
        }
        let v = f(self.v as f32) as f64;
        let d1 = (f((self.v + self.e + 1e-7) as f32) as f64 - v).abs();
        let d2 = (f((self.v - self.e - 1e-7) as f32) as f64 - v).abs();
        V { v, e: d1.max(d2) * 1.5 + ULP * 2.0 * v.abs() }.ok()
    }
    pub fn bad() -> V {
        V { v: 0.0, e: f64::INFINITY }
    }
}

/// Nodes the interpreter knows.
pub fn interp_nodes() -> Vec<NodeId> {
    vec![NodeId::Amp(0), NodeId::Mix3(0), NodeId::Map(0), NodeId::SMap(0), NodeId::Mux9(0), NodeId::Inp(0)]
}

pub fn interp_in_ok(n: NodeId, i: u8) -> bool {
    let name = n.inp_name_by_idx(i).unwrap_or("");
    match n {
        NodeId::Map(_) => name != "imin" && name != "imax",
        NodeId::Mux9(_) => !name.starts_with("t_"),
        _ => true,
    }
}

/// as above, without the selector (which is remembered after it is disconnected)
pub fn interp_in_stateless(n: NodeId, i: u8) -> bool {
    interp_in_ok(n, i) && !(matches!(n, NodeId::Mux9(_)) && n.inp_name_by_idx(i) == Some("slct"))
}

pub type Vals = BTreeMap<(NodeId, &'static str), SAtom>;

pub fn val(vals: &Vals, n: NodeId, p: &'static str) -> SAtom {
    vals.get(&(n, p)).cloned().unwrap_or_else(|| n.inp_param(p).expect("param").as_atom_def())
}

/// evaluates the layout for n frames; gives all node outputs and the two host channels
pub fn interpret(l: &Layout, vals: &Vals, mods: &BTreeMap<(NodeId, &'static str), f32>, in_l: &[f32], in_r: &[f32]) -> (HashMap<(NodeId, u8), Vec<V>>, [Vec<V>; 2]) {
    let n = in_l.len();
    let edges = l.edges();
    let order = l.order().expect("acyclic");
    let mut outs: HashMap<(NodeId, u8), Vec<V>> = HashMap::new();
    let mut host = [vec![V::c(0.0); n], vec![V::c(0.0); n]];
    for node in order {
        let ps = params_of(node);
        // input signals in the normalised domain
        let mut ins: HashMap<&'static str, Vec<V>> = HashMap::new();
        let mut conn: HashMap<&'static str, bool> = HashMap::new();
        for (i, p) in ps.iter().enumerate() {
            let base = V::c(val(vals, node, p.name()).f());
            let e = edges.iter().find(|e| e.to == node && e.inp as usize == i);
            conn.insert(p.name(), e.is_some());
            let sig = match e {
                Some(e) => {
                    let src = outs.get(&(e.from, e.out)).cloned().unwrap_or_else(|| vec![V::bad(); n]);
                    match mods.get(&(node, p.name())) {
                        Some(a) => src.iter().map(|x| base.add(x.mul(V::c(*a)))).collect(),
                        None => src,
                    }
                }
                None => vec![base; n],
            };
            ins.insert(p.name(), sig);
        }
        let d = |name: &'static str, f: usize| -> V {
            let p = node.inp_param(name).unwrap();
            ins[name][f].map(|x| p.denorm(x))
        };
        let raw = |name: &'static str, f: usize| -> V { ins[name][f] };
        let set = |name: &'static str| -> i64 { val(vals, node, name).i() };
        let zero = V::c(0.0);
        let one = V::c(1.0);
        match node {
            NodeId::Amp(_) => {
                let neg = set("neg_att");
                let p = node.inp_param("att").unwrap();
                let o = (0..n)
                    .map(|f| {
                        let a = raw("att", f);
                        let a = if neg > 0 { a.clamp(zero, V::c(1e9)) } else { a.abs() };
                        raw("inp", f).mul(a.map(|x| p.denorm(x))).mul(d("gain", f))
                    })
                    .collect();
                outs.insert((node, 0), o);
            }
            NodeId::Mix3(_) => {
                let o = (0..n)
                    .map(|f| {
                        raw("ch1", f).mul(d("vol1", f)).add(raw("ch2", f).mul(d("vol2", f))).add(raw("ch3", f).mul(d("vol3", f))).mul(d("ovol", f))
                    })
                    .collect();
                outs.insert((node, 0), o);
            }
            NodeId::Map(_) => {
                let clip = set("clip");
                let o = (0..n)
                    .map(|f| {
                        let x = raw("inp", f).mul(raw("atv", f)).add(raw("offs", f));
                        let span = raw("imax", f).sub(raw("imin", f));
                        let x = if span.v.abs() < 1e-6 { one } else { x.sub(raw("imin", f)).div_const(span).abs() };
                        let (mi, ma) = (raw("min", f), raw("max", f));
                        let y = mi.add(ma.sub(mi).mul(x));
                        if clip != 0 {
                            y.clamp(mi, ma)
                        } else {
                            y
                        }
                    })
                    .collect();
                outs.insert((node, 0), o);
            }
            NodeId::SMap(_) => {
                let (mode, clip) = (set("mode"), set("clip"));
                let o = (0..n)
                    .map(|f| {
                        let mut x = raw("inp", f);
                        if mode % 2 == 1 {
                            x = x.add(one).mul(V::c(0.5));
                        }
                        if clip != 0 {
                            x = x.clamp(zero, one);
                        }
                        if mode >= 2 {
                            x = one.sub(x);
                        }
                        let (mi, ma) = (raw("min", f), raw("max", f));
                        mi.add(ma.sub(mi).mul(x))
                    })
                    .collect();
                outs.insert((node, 0), o);
            }
            NodeId::Mux9(_) => {
                let max = set("in_cnt") as f64 + 1.0;
                const NAMES: [&str; 9] = ["in_1", "in_2", "in_3", "in_4", "in_5", "in_6", "in_7", "in_8", "in_9"];
                let o = (0..n)
                    .map(|f| {
                        if conn["slct"] {
                            let x = raw("slct", f);
                            let y = max * x.v;
                            let tol = max * (x.e + 3e-5);
                            if !(x.e.is_finite()) || ((y - y.round()).abs() < tol && y.round() > -0.5) || y > max - tol {
                                return V::bad();
                            }
                            let k = y.floor().max(0.0) as usize;
                            raw(NAMES[k.min(8)], f)
                        } else {
                            raw("in_1", f)
                        }
                    })
                    .collect();
                outs.insert((node, 0), o);
            }
            NodeId::Inp(_) => {
                outs.insert((node, 0), (0..n).map(|f| V::c(in_l[f]).mul(d("vol", f))).collect());
                outs.insert((node, 1), (0..n).map(|f| V::c(in_r[f]).mul(d("vol", f))).collect());
            }
            NodeId::Out(_) => {
                let mono = set("mono") > 0;
                for f in 0..n {
                    host[0][f] = raw("ch1", f).mul(d("vol", f));
                    host[1][f] = if mono { host[0][f] } else { raw("ch2", f).mul(d("vol", f)) };
                }
            }
            _ => {}
        }
    }
    (outs, host)
}

pub fn cmp_v(what: &str, got: &[f32], want: &[V]) -> Result<usize, String> {
    let mut n = 0;
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        let tol = w.e * 2.0 + 2e-6 + 2e-6 * w.v.abs();
        if !(tol < 0.02 * (1.0 + w.v.abs())) {
            continue;
        }
        n += 1;
        if !((*g as f64 - w.v).abs() <= tol) {
            return Err(format!("{}: sample {} is {} but the dataflow gives {} (tol {:.2e})", what, i, g, w.v, tol));
        }
    }
    Ok(n)
}

/// random parameter values for interpreter nodes
pub fn gen_vals(s: &mut Src, l: &Layout) -> Vals {
    let mut vals = Vals::new();
    let mut nodes = l.nodes();
    nodes.sort();
    for n in nodes {
        for p in params_of(n).into_iter().chain(atoms_of(n)) {
            if matches!(n, NodeId::Mux9(_)) && p.name().starts_with("t_") {
                continue;
            }
            if s.chance(4, 8) {
                vals.insert((n, p.name()), gen_val(s, p));
            }
        }
        if let NodeId::Map(_) = n {
            // keep the input span away from 0
            let a = val(&vals, n, "imin").f();
            let b = val(&vals, n, "imax").f();
            if (a - b).abs() < 0.05 && a != b {
                vals.insert((n, "imax"), SAtom::param(if a > 0.0 { a - 0.5 } else { a + 0.5 }));
            }
        }
    }
    vals
}

fn apply_vals(m: &mut Matrix, vals: &Vals) {
    for ((n, p), v) in vals {
        m.set_param(n.inp_param(p).unwrap(), v.clone());
    }
}

pub fn gen_interp_layout(s: &mut Src, w: usize, h: usize, attempts: usize, in_ok: fn(NodeId, u8) -> bool) -> Layout {
    let mut l = Layout::new(w, h);
    let p = (s.below(w), s.below(h));
    l.cells.insert(p, MCell { node: NodeId::Out(0), ins: [None; 3], outs: [None; 3] });
    let pool = interp_nodes();
    grow(s, &mut l, attempts, |s, _| { let i = s.usz(0, 4); s.pickc(&pool).to_instance(i) }, in_ok, |_, _| true);
    // decoys: any other node types anywhere, shifting all indices; they may read signals but do not feed the rest
    let all: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Out(_) | NodeId::Amp(_) | NodeId::Mix3(_) | NodeId::Map(_) | NodeId::SMap(_) | NodeId::Mux9(_) | NodeId::Inp(_))).collect();
    let nd = s.usz(0, 5);
    for _ in 0..nd {
        let p = (s.below(w), s.below(h));
        if l.cells.contains_key(&p) {
            continue;
        }
        let i = s.usz(0, 2);
        let n = s.pickc(&all).to_instance(i);
        let mut c = gen_cell(s, n, 4);
        c.outs = [None; 3];
        let mut nl = l.clone();
        nl.cells.insert(p, c);
        if nl.legal() {
            l = nl;
        }
    }
    l
}

fn flow(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = s.usz(2, 7);
    let h = s.usz(2, 7);
    let attempts = s.usz(2, 40);
    let l = gen_interp_layout(s, w, h, attempts, interp_in_ok);
    let vals = gen_vals(s, &l);
    let mut mods: BTreeMap<(NodeId, &'static str), f32> = BTreeMap::new();
    let edges = l.edges();
    for e in &edges {
        if s.chance(3, 8) {
            let p = e.to.inp_param_by_idx(e.inp as usize).unwrap();
            mods.insert((e.to, p.name()), s.bip());
        }
    }
    let mut ns = l.nodes();
    ns.sort();
    for n in ns {
        for p in params_of(n) {
            if s.chance(1, 16) {
                mods.entry((n, p.name())).or_insert(s.bip());
            }
        }
    }
    let mut e = Eng::new(w, h);
    // the order of setting up must not matter
    let how = s.below(4);
    c.note(|| format!("layout {}", l.show()));
    c.note(|| format!("values {:?}", vals));
    c.note(|| format!("mod amounts {:?}, setup order {}", mods, how));
    if how == 0 {
        apply_vals(&mut e.m, &vals);
    }
    if how == 2 {
        // some other layout first
        let l0 = gen_interp_layout(s, w, h, 8, interp_in_stateless);
        l0.place_into(&mut e.m);
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
        e.run(64);
    }
    if let Err(x) = e.m.change_matrix(|m| l.place_into(m)) {
        return Err(format!("refused: legal layout refused: {:?}", x));
    }
    if how == 1 {
        apply_vals(&mut e.m, &vals);
    }
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    if how >= 2 {
        if how == 3 {
            e.upd();
        }
        apply_vals(&mut e.m, &vals);
    }
    for ((n, p), a) in &mods {
        let pid = n.inp_param(p).unwrap();
        if s.chance(1, 4) {
            let b = s.bip();
            e.m.set_param_modamt(pid, Some(b)).map_err(|x| format!("modamt: {:?}", x))?;
            if s.bool() {
                e.m.set_param_modamt(pid, None).map_err(|x| format!("modamt: {:?}", x))?;
            }
        }
        e.m.set_param_modamt(pid, Some(*a)).map_err(|x| format!("modamt: {:?}", x))?;
    }
    // let the parameters settle (they ramp)
    for _ in 0..14 {
        let z = vec![0.0; 128];
        e.block(128, &z, &z);
    }
    let nb = s.usz(1, 3);
    let mut cmpd = 0;
    for _ in 0..nb {
        let n = s.usz(1, 128);
        let il = gen_signal(s, n);
        let ir = gen_signal(s, n);
        let (ol, or) = e.block(n, &il, &ir);
        let (outs, host) = interpret(&l, &vals, &mods, &il, &ir);
        cmpd += cmp_v("left", &ol, &host[0])?;
        cmpd += cmp_v("right", &or, &host[1])?;
        // last samples of every node output
        e.m.update_output_feedback();
        for ((node, o), sig) in &outs {
            if let Some(fb) = e.m.out_fb_for(node, *o) {
                cmp_v(&format!("out of {} port {}", node, o), &[fb], &sig[n - 1..])?;
            }
        }
    }
    let depth_edges = edges.iter().filter(|e| dependents(&edges, &[e.to]).contains(&NodeId::Out(0))).count();
    if depth_edges >= 2 && cmpd > 0 {
        c.nontrivial = true;
    }
    c.label(if depth_edges >= 6 { "edges>=6" } else if depth_edges >= 2 { "edges2-5" } else { "edges<2" });
    if !mods.is_empty() {
        c.label("modulated");
    }
    if cmpd == 0 {
        c.label("nothing-comparable");
    }
    Ok(())
}

/// chains: a long serial chain through one column and back, checks zero latency
fn chain(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let k = s.usz(1, 30);
    let mut l = Layout::new(1, k + 2);
    let perm: Vec<usize> = { let mut v: Vec<usize> = (0..k).collect(); for i in (1..v.len()).rev() { let j = s.below(i + 1); v.swap(i, j); } v };
    l.cells.insert((0, 0), MCell { node: NodeId::Inp(0), ins: [None; 3], outs: [None, None, Some(s.below(2) as u8)] });
    for i in 0..k {
        let node = if s.bool() { NodeId::Amp(perm[i] as u8) } else { NodeId::Mix3(perm[i] as u8) };
        l.cells.insert((0, i + 1), MCell { node, ins: [Some(0), None, None], outs: [None, None, Some(0)] });
    }
    l.cells.insert((0, k + 1), MCell { node: NodeId::Out(0), ins: [Some(s.below(2) as u8), None, None], outs: [None; 3] });
    let mut e = Eng::new(1, k + 2);
    e.m.change_matrix(|m| l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    let n = s.usz(1, 128);
    let il = gen_signal(s, n);
    let ir = gen_signal(s, n);
    let (ol, or) = e.block(n, &il, &ir);
    let (_, host) = interpret(&l, &Vals::new(), &BTreeMap::new(), &il, &ir);
    c.note(|| l.show());
    c.nontrivial = k > 2;
    cmp_v("left", &ol, &host[0])?;
    cmp_v("right", &or, &host[1])?;
    Ok(())
}

pub fn p03() -> Prop {
    Prop {
        id: "P03",
        level: "exploration",
        rule: "Random legal layouts (up to 7x7, several cells per node, decoy nodes of every type), parameter values, settings and modulation amounts; the left/right output and every node's output feedback are compared with a reference interpreter (interval error bounds). Non-trivial = at least two connections lead to the output and at least one sample was comparable.",
        assumptions: &["reference functions exist for amplifier, mixer, maps, multiplexer, input and output; other node types take part as index-shifting decoys", "samples whose reference error bound exceeds 2% (multiplexer switching points) are skipped"],
        subs: vec![sub("flow", 25000, 150000, flow), sub("chain", 4000, 30000, chain)],
    }
}
