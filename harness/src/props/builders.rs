// P20: the direct construction interface and the chain builder against the same graph laid out by hand.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::build::{ConstructorNode, ConstructorNodeBuilder, ConstructorNodeOutputPort, ConstructorOp};
use hexodsp::chain_builder::MatrixCellChain;
use hexodsp::synth_constructor::SynthError;
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};

// The typed interface of every node behind one enum.
macro_rules! make_any {
    ($s1: ident => $v1: ident,
        $($str: ident => $variant: ident
            UIType:: $gui_type: ident
            UICategory:: $ui_cat: ident
            $(($in_idx: literal $para: ident
               $n_fun: ident $d_fun: ident $r_fun: ident $f_fun: ident
               $steps: ident $min: expr, $max: expr, $def: expr))*
            $({$in_at_idx: literal $at_idx: literal $atom: ident
               $at_fun: ident ($at_init: expr) $at_ui: ident $fa_fun: ident
               $amin: literal $amax: literal})*
            $([$out_idx: literal $out: ident])*
            ,)+
    ) => {
        #[derive(Clone)]
        enum Any { $($variant(hexodsp::build::$variant),)+ }
        impl Any {
            fn new(id: NodeId) -> Option<Any> {
                match id {
                    $(NodeId::$variant(i) => Some(Any::$variant(hexodsp::build::$str(i))),)+
                    _ => None,
                }
            }
            fn set(self, p: &str, v: f32) -> Any {
                match self {
                    $(Any::$variant(b) => Any::$variant(match p { $(stringify!($para) => b.set().$para(v),)* _ => panic!("harness: no parameter {}", p) }),)+
                }
            }
            fn set_mod(self, p: &str, v: f32, ma: f32) -> Any {
                match self {
                    $(Any::$variant(b) => Any::$variant(match p { $(stringify!($para) => b.set_mod().$para(v, ma),)* _ => panic!("harness: no parameter {}", p) }),)+
                }
            }
            fn atom(self, p: &str, v: i64) -> Any {
                match self {
                    $(Any::$variant(b) => Any::$variant(match p { $(stringify!($atom) => b.set().$atom(v),)* _ => panic!("harness: no setting {}", p) }),)+
                }
            }
            fn input(self, p: &str, o: &dyn ConstructorNodeOutputPort) -> Any {
                match self {
                    $(Any::$variant(b) => Any::$variant(match p { $(stringify!($para) => b.input().$para(o),)* _ => panic!("harness: no input {}", p) }),)+
                }
            }
            fn output(&self, o: &str) -> Box<dyn ConstructorNodeOutputPort> {
                match self {
                    $(Any::$variant(b) => match o { $(stringify!($out) => Box::new(b.output().$out()),)* _ => panic!("harness: no output {}", o) },)+
                }
            }
            fn builder(&self) -> &dyn ConstructorNodeBuilder {
                match self { $(Any::$variant(b) => b,)+ }
            }
        }
    }
}
hexodsp::node_list! {make_any}

/// a hand made node, for names that the typed interface does not let through
struct Raw(ConstructorNode);
impl ConstructorNodeBuilder for Raw {
    fn id(&self) -> NodeId {
        self.0.node_id
    }
    fn build(&self) -> ConstructorNode {
        self.0.clone()
    }
}

#[derive(Clone, Default)]
struct Model {
    nodes: BTreeSet<NodeId>,
    edges: BTreeMap<(NodeId, u8), (NodeId, u8)>,
    params: BTreeMap<ParamId, (SAtom, Option<f32>)>,
}
impl Model {
    fn cyclic(&self) -> bool {
        let mut left: Vec<NodeId> = self.nodes.iter().copied().collect();
        while !left.is_empty() {
            let Some(p) = left.iter().position(|n| !self.edges.iter().any(|(t, f)| t.0 == *n && left.contains(&f.0))) else { return true };
            left.remove(p);
        }
        false
    }
    /// every connection as a pair of cells of its own, every node as one cell without connections
    fn lay_out(&self, m: &mut Matrix) {
        let (w, h) = m.size();
        for x in 0..w {
            for y in 0..h {
                m.place(x, y, Cell::empty(NodeId::Nop));
            }
        }
        let mut pos = (0..w).flat_map(|x| (0..h / 2).map(move |k| (x, 2 * k)));
        for n in &self.nodes {
            let (x, y) = pos.next().expect("harness: grid too small");
            m.place(x, y, Cell::empty(*n));
        }
        for (t, f) in &self.edges {
            let (x, y) = pos.next().expect("harness: grid too small");
            m.place(x, y, Cell::empty(f.0).out(None, None, Some(f.1)));
            m.place(x, y + 1, Cell::empty(t.0).input(Some(t.1), None, None));
        }
    }
}

#[derive(Debug, Clone)]
enum BOp {
    Set(ParamId, f32),
    Mod(ParamId, f32, f32),
    Atom(ParamId, i64),
    In(ParamId, usize, u8),
}

fn synth(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut sc = SynthConstructor::new();
    let mut ex = sc.executor().unwrap();
    ex.no_logging();
    ex.set_sample_rate(44100.0);
    let mut e = Eng::new(10, 20);
    let r = synth_inner(s, c, &mut sc, &mut ex, &mut e);
    dispose((ex, sc));
    r
}

fn synth_inner(s: &mut Src, c: &mut Ctx, sc: &mut SynthConstructor, ex: &mut NodeExecutor, e: &mut Eng) -> Result<(), String> {
    let types: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Test(_) | NodeId::FbWr(_) | NodeId::FbRd(_) | NodeId::Out(_))).collect();
    let mut pool: Vec<NodeId> = vec![NodeId::Out(0)];
    for _ in 0..s.usz(1, 7) {
        let n = s.pickc(&types);
        for i in 0..s.weighted(&[6, 2, 1]) + 1 {
            let n = n.to_instance(i);
            if !pool.contains(&n) {
                pool.push(n);
            }
        }
    }
    let mut md = Model::default();
    let mut loud = 0;
    let mut uploads = 0;
    let mut playing: BTreeSet<NodeId> = BTreeSet::new();
    let mut lights: BTreeMap<NodeId, (f32, f32)> = BTreeMap::new();
    let steps = s.usz(1, 12);
    for step in 0..=steps {
        let act = if step == steps { 2 } else if step == 0 { 0 } else { s.weighted(&[5, 5, 5, 1, 1, 1]) };
        if act == 3 {
            c.note(|| "clear".to_string());
            sc.clear();
            e.m.clear();
            md = Model::default();
            playing.clear();
            lights.clear();
            continue;
        }
        if act == 2 {
            // listen
            let n = s.usz(1, 600);
            let l = gen_signal(s, n);
            let bs = gen_blocks(s);
            c.note(|| format!("render {} frames in blocks {:?}", n, bs));
            let (mut o, mut bi) = (0, 0);
            while o < n {
                let k = bs[bi % bs.len()].min(n - o);
                bi += 1;
                let (al, ar) = e.block(k, &l[o..o + k], &l[o..o + k]);
                ex.process_graph_updates();
                ex.feed_midi_events_from(|| None);
                let (bl, br) = run_block(ex, k, &l[o..o + k], &l[o..o + k]);
                cmp_sig("audio: left", &bl, &al, 0.0, 0.0)?;
                cmp_sig("audio: right", &br, &ar, 0.0, 0.0)?;
                if al.iter().any(|x| x.abs() > 1e-6) {
                    loud += 1;
                }
                o += k;
            }
            sc.poll();
            e.m.update_filters();
            for n in &playing {
                for o in 0..n_outputs(*n) as u8 {
                    let (a, b) = (sc.output_feedback(n, o), e.m.out_fb_for(n, o));
                    if a != b && !(a.map_or(false, |x| x.is_nan()) && b.map_or(false, |x| x.is_nan())) {
                        return Err(format!("output-feedback: of {} {} is {:?}, expected {:?}", n, o, a, b));
                    }
                }
                // (nodes that do not write these show what was there before)
                let old = lights.get(n).copied();
                let now = (e.m.led_value_for(n), e.m.phase_value_for(n));
                lights.insert(*n, now);
                let Some(old) = old else { continue };
                let (a, b) = (sc.led_value(n), now.0);
                if b != old.0 && a != b && !(a.is_nan() && b.is_nan()) {
                    return Err(format!("led: of {} is {}, expected {}", n, a, b));
                }
                let (a, b) = (sc.phase_value(n), now.1);
                if b != old.1 && a != b && !(a.is_nan() && b.is_nan()) {
                    return Err(format!("phase: of {} is {}, expected {}", n, a, b));
                }
            }
            continue;
        }
        if act == 4 {
            let (i, g) = (s.below(3), s.bip());
            c.note(|| format!("dynamic node {} with gain {}", i, g));
            let mk = || -> Box<dyn DynamicNode1x1> {
                Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
                    let a = ctx.alpha_slice();
                    for (k, x) in inp.iter().enumerate() {
                        out[k] = x * g + a[k];
                    }
                })
            };
            sc.set_dynamic_node1x1(i, mk());
            e.m.set_dynamic_node1x1(i, mk());
            continue;
        }
        // build a graph
        let k = s.usz(1, 6);
        let ids: Vec<NodeId> = (0..k).map(|i| if i == 0 && s.chance(3, 4) { NodeId::Out(0) } else { *s.pick(&pool) }).collect();
        let mut objs: Vec<Any> = ids.iter().map(|n| Any::new(*n).unwrap()).collect();
        let mut ops: Vec<Vec<BOp>> = vec![vec![]; k];
        let mut used: BTreeSet<ParamId> = BTreeSet::new();
        let mut inps: BTreeSet<ParamId> = BTreeSet::new();
        // mostly from later to earlier objects and along the order of the pool, so that most graphs are legal
        let wild = s.chance(1, 8);
        for i in (0..k).rev() {
            for k2 in 0..s.usz(0, 5) {
                let n = ids[i];
                let what = if i == 0 && k2 == 0 { 3 } else { s.weighted(&[4, 2, 2, 8]) };
                let ps = params_of(n);
                // (most of the signals go to the output)
                let op = match what {
                    2 => {
                        let at: Vec<ParamId> = atoms_of(n).into_iter().filter(|p| matches!(p.as_atom_def(), SAtom::Setting(_))).collect();
                        if at.is_empty() {
                            continue;
                        }
                        let p = *s.pick(&at);
                        let mut v = gen_aval(s, p).i();
                        if matches!(n, NodeId::SFilter(_)) && p.name() == "ftype" {
                            v = v.min(12);
                        }
                        BOp::Atom(p, v)
                    }
                    3 => {
                        let j = if wild { s.below(k) } else { s.usz((i + 1).min(k - 1), k - 1) };
                        let pos = |x: NodeId| pool.iter().position(|y| *y == x).unwrap();
                        if ps.is_empty() || n_outputs(ids[j]) == 0 || (!wild && (j <= i || pos(ids[j]) <= pos(n))) {
                            continue;
                        }
                        let p = *s.pick(&ps);
                        BOp::In(p, j, s.below(n_outputs(ids[j])) as u8)
                    }
                    x => {
                        if ps.is_empty() {
                            continue;
                        }
                        let p = *s.pick(&ps);
                        let v = gen_pval(s, p);
                        let v = p.denorm(v);
                        if x == 0 {
                            BOp::Set(p, v)
                        } else {
                            BOp::Mod(p, v, s.pickc(&[0.5f32, 0.0, 1.0, -1.0, 0.123]))
                        }
                    }
                };
                let fresh = match &op {
                    BOp::Set(p, _) | BOp::Mod(p, _, _) | BOp::Atom(p, _) => used.insert(*p),
                    BOp::In(p, _, _) => inps.insert(*p),
                };
                if !fresh {
                    continue;
                }
                objs[i] = match (objs[i].clone(), &op) {
                    (b, BOp::Set(p, v)) => b.set(p.name(), *v),
                    (b, BOp::Mod(p, v, m)) => b.set_mod(p.name(), *v, *m),
                    (b, BOp::Atom(p, v)) => b.atom(p.name(), *v),
                    (b, BOp::In(p, j, o)) => b.input(p.name(), &*objs[*j].output(ids[*j].out_name_by_idx(*o).unwrap())),
                };
                ops[i].push(op);
            }
        }
        let root = s.weighted(&[6, 1]).min(k - 1);
        // what the graph asks for
        let mut nw = md.clone();
        let mut reach = vec![root];
        let mut q = 0;
        while q < reach.len() {
            let i = reach[q];
            q += 1;
            nw.nodes.insert(ids[i]);
            for o in &ops[i] {
                match o {
                    BOp::Set(p, v) => {
                        nw.params.insert(*p, (SAtom::param(p.norm(*v)), None));
                    }
                    BOp::Mod(p, v, m) => {
                        nw.params.insert(*p, (SAtom::param(p.norm(*v)), Some(*m)));
                    }
                    BOp::Atom(p, v) => {
                        nw.params.insert(*p, (SAtom::setting(*v), None));
                    }
                    BOp::In(p, j, o) => {
                        nw.edges.insert((p.node_id(), p.inp()), (ids[*j], *o));
                        if !reach.contains(j) {
                            reach.push(*j);
                        }
                    }
                }
            }
        }
        // the grid creates the lower instances of a node with it, these would not be new later
        let hole = nw.nodes.iter().any(|n| (0..n.instance()).any(|i| !nw.nodes.contains(&n.to_instance(i))));
        if hole || nw.nodes.len() + nw.edges.len() > 95 {
            continue;
        }
        c.note(|| format!("{} root {} {:?}", if act == 0 { "upload" } else { "update_params" }, root, ids.iter().zip(ops.iter()).collect::<Vec<_>>()));
        let mut bad = None;
        if act == 5 || s.chance(1, 12) {
            // the same with an unknown name somewhere
            let at = s.pickc(&reach);
            let b = objs[at].builder().build();
            let op = match s.below(5) {
                0 => ConstructorOp::SetDenorm("nope".to_string(), 0.5),
                1 => ConstructorOp::SetDenormModAmt("nope".to_string(), 0.5, 0.5),
                2 => ConstructorOp::SetSetting("nope".to_string(), 1),
                3 => ConstructorOp::Input("nope".to_string(), Any::new(types[0]).unwrap().builder().build(), types[0].out_name_by_idx(0).unwrap_or("x").to_string()),
                _ => ConstructorOp::Input("ch1".to_string(), Any::new(NodeId::Sin(0)).unwrap().builder().build(), "nope".to_string()),
            };
            if matches!(&op, ConstructorOp::Input(i, _, _) if i == "ch1" && ids[at].inp("ch1").is_none()) {
                continue;
            }
            c.note(|| format!("  plus bad {:?} at {}", op, at));
            b.ops.borrow_mut().push(op);
            bad = Some(());
        }
        let raw = Raw(objs[root].builder().build());
        let b: &dyn ConstructorNodeBuilder = if s.bool() { &raw } else { objs[root].builder() };
        let res = if act == 0 { sc.upload(b).map(|_| true) } else { sc.update_params(b) };
        c.note(|| format!("  -> {:?}", res));
        if bad.is_some() {
            if !matches!(res, Err(SynthError::UnknownParam(..)) | Err(SynthError::BadOutputName(..)) | Err(SynthError::CycleDetected)) {
                return Err(format!("bad-name-accepted: {:?}", res));
            }
            c.label("refused-name");
            continue;
        }
        if nw.cyclic() {
            if !matches!(res, Err(SynthError::CycleDetected)) {
                return Err(format!("cycle-accepted: {:?}", res));
            }
            c.label("refused-cycle");
            continue;
        }
        let Ok(up) = res else { return Err(format!("refused: a legal graph with {:?}", res)) };
        // the same by hand
        let rewired = nw.edges != md.edges;
        md = nw;
        let known: BTreeSet<NodeId> = if act == 0 { md.nodes.clone() } else { reach.iter().map(|i| ids[*i]).collect() };
        for (p, (v, ma)) in &md.params {
            if !known.contains(&p.node_id()) {
                continue;
            }
            if e.m.get_param(p).as_ref() != Some(v) {
                e.m.set_param(*p, v.clone());
            }
            if !p.is_atom() && e.m.get_param_modamt(p) != *ma {
                let _ = e.m.set_param_modamt(*p, *ma);
            }
        }
        if up {
            md.lay_out(&mut e.m);
            e.m.sync().map_err(|x| format!("harness: reference refused {:?}", x))?;
            uploads += 1;
            playing = md.nodes.clone();
            lights.clear();
        } else if rewired {
            return Err("connections-ignored: update_params did not take the new connections".to_string());
        } else {
            c.label("params-only");
        }
    }
    if uploads > 1 {
        c.label("several-uploads");
    }
    c.nontrivial = uploads >= 1 && loud >= 1;
    if loud > 0 {
        c.label("loud");
    }
    Ok(())
}

fn step_pos(pos: (i64, i64), d: usize) -> (i64, i64) {
    // directions TR, BR, B, and their opposites BL, TL, T
    if d < 3 {
        let (x, y) = if pos.0.rem_euclid(2) == 1 || true { pos } else { pos };
        return nb(x, y, d);
    }
    let o = match d {
        3 => 0, // BL is opposite of TR
        4 => 1,
        _ => 2,
    };
    // the cell whose neighbour in direction o is pos
    for dx in -1..=1 {
        for dy in -1..=1 {
            if nb(pos.0 + dx, pos.1 + dy, o) == pos {
                return (pos.0 + dx, pos.1 + dy);
            }
        }
    }
    unreachable!()
}
fn nb(x: i64, y: i64, slot: usize) -> (i64, i64) {
    // works on the plane, also left of and above the grid
    let sh = 1000;
    let (a, b) = out_neighbour((x + 2 * sh) as usize, (y + sh) as usize, slot);
    (a - 2 * sh, b - sh)
}

const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];

fn chain(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (w, h) = (s.usz(1, 7), s.usz(1, 7));
    let mut e = Eng::new(w, h);
    let mut r = Eng::new(w, h);
    let types: Vec<NodeId> = {
        let all: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Test(_) | NodeId::FbWr(_) | NodeId::FbRd(_))).collect();
        (0..4).map(|_| s.pickc(&all)).chain([NodeId::Out(0)]).collect()
    };
    let mut set: BTreeMap<ParamId, SAtom> = BTreeMap::new();
    // something is there already
    for _ in 0..s.usz(0, 6) {
        let n = s.pickc(&types).to_instance(s.below(3));
        let (x, y) = (s.below(w), s.below(h));
        let cell = gen_cell(s, n, 3);
        c.note(|| format!("before: ({},{}) {:?}", x, y, cell));
        for m in [&mut e.m, &mut r.m] {
            let _ = m.change_matrix(|m| m.place(x, y, cell.cell()));
        }
        let ps = params_of(n);
        if !ps.is_empty() && s.bool() {
            let p = *s.pick(&ps);
            let v = SAtom::param(gen_pval(s, p));
            e.m.set_param(p, v.clone());
            r.m.set_param(p, v.clone());
            set.insert(p, v);
        }
    }
    for m in [&mut e.m, &mut r.m] {
        if m.sync().is_err() {
            return Ok(());
        }
    }
    let mut chains = 0;
    for _ in 0..s.usz(1, 3) {
        let d = s.below(6);
        let mut ch = MatrixCellChain::new(DIRS[d]);
        let (os, is): (usize, usize) = match d {
            0 | 3 => (0, 2),
            1 | 4 => (1, 1),
            _ => (2, 0),
        };
        let len = s.usz(1, 5);
        let mut links: Vec<(MCell, Vec<(ParamId, SAtom)>)> = vec![];
        let mut expect_err = false;
        for _ in 0..len {
            let n = s.pickc(&types);
            let mut cell = MCell { node: n, ins: [None; 3], outs: [None; 3] };
            let (ni, no) = (n_inputs(n), n_outputs(n));
            let bad = s.chance(1, 25);
            let wi = ni > 0 && s.chance(3, 4);
            let wo = no > 0 && s.chance(3, 4);
            let i = s.below(ni.max(1)) as u8;
            let o = s.below(no.max(1)) as u8;
            let iname = if wi { n.inp_param_by_idx(i as usize).unwrap().name().to_string() } else { String::new() };
            let oname = if wo { n.out_name_by_idx(o).unwrap().to_string() } else { String::new() };
            if bad {
                expect_err = true;
                match s.below(3) {
                    0 => ch.node_out("nope", "sig"),
                    1 => ch.node_io(n.name(), "nope", "nope"),
                    _ => ch.node_inp(n.name(), "nope"),
                };
                c.note(|| "a bad link".to_string());
            } else {
                if wi {
                    cell.ins[is] = Some(i);
                }
                if wo {
                    cell.outs[os] = Some(o);
                }
                match (wi, wo) {
                    (true, true) => ch.node_io(n.name(), &iname, &oname),
                    (true, false) => ch.node_inp(n.name(), &iname),
                    (false, true) => ch.node_out(n.name(), &oname),
                    _ => ch.node(n.name()),
                };
                c.note(|| format!("link {:?}", cell));
            }
            links.push((cell, vec![]));
            for _ in 0..s.weighted(&[2, 2, 1]) {
                // of this link, or of an earlier one
                let at = if s.chance(1, 5) && !expect_err { s.below(links.len()) } else { links.len() - 1 };
                let n = links[at].0.node;
                if at != links.len() - 1 {
                    ch.params_for_idx(at);
                }
                if s.chance(1, 40) {
                    ch.set_norm("nope", 0.5);
                    expect_err = true;
                    c.note(|| "a bad parameter".to_string());
                } else {
                    let mut ps = params_of(n);
                    ps.extend(atoms_of(n));
                    if !ps.is_empty() {
                        let p = *s.pick(&ps);
                        let mut v = gen_val(s, p);
                        if matches!(n, NodeId::SFilter(_)) && p.name() == "ftype" {
                            v = SAtom::setting(v.i().min(12));
                        }
                        match s.below(3) {
                            1 if !p.is_atom() => {
                                ch.set_norm(p.name(), v.f());
                            }
                            2 if !p.is_atom() => {
                                let dv = p.denorm(v.f());
                                v = SAtom::param(p.norm(dv));
                                ch.set_denorm(p.name(), dv);
                            }
                            _ => {
                                ch.set_atom(p.name(), v.clone());
                            }
                        }
                        c.note(|| format!("  link {}: {:?} = {:?}", at, p.name(), v));
                        links[at].1.push((p, v));
                    }
                }
                if at != links.len() - 1 {
                    ch.params_for_idx(links.len() - 1);
                }
            }
        }
        let at = (s.below(w), s.below(h));
        c.note(|| format!("place at {:?} to {:?}", at, DIRS[d]));
        let before = repr_text(&e.m);
        let lbefore = Layout::of_matrix(&e.m);
        let res = ch.place(&mut e.m, at.0, at.1);
        if expect_err {
            if res.is_ok() {
                return Err("bad-chain-accepted: no error for an unknown name".to_string());
            }
            if repr_text(&e.m) != before {
                return Err(format!("bad-chain-changed: the matrix changed by a chain that was refused with {:?}", res));
            }
            c.label("refused");
            continue;
        }
        if let Err(x) = res {
            return Err(format!("chain-refused: {:?}", x));
        }
        chains += 1;
        let l = Layout::of_matrix(&e.m);
        let mut pos = (at.0 as i64, at.1 as i64);
        let mut placed: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for i in 0..links.len() {
            if pos.0 >= 0 && pos.1 >= 0 && (pos.0 as usize) < w && (pos.1 as usize) < h {
                placed.insert((pos.0 as usize, pos.1 as usize), i);
            }
            pos = step_pos(pos, d);
        }
        let mut ids: BTreeSet<NodeId> = BTreeSet::new();
        for (p, cell) in &l.cells {
            match placed.get(p) {
                None => {
                    if lbefore.cells.get(p) != Some(cell) {
                        return Err(format!("chain-changed-cell: {:?} at {:?}, outside of the chain, was {:?}", cell, p, lbefore.cells.get(p)));
                    }
                }
                Some(i) => {
                    let want = MCell { node: cell.node, ..links[*i].0 };
                    if cell.node.name() != links[*i].0.node.name() || *cell != want {
                        return Err(format!("chain-cell: link {} is {:?} at {:?}, expected {:?}", i, cell, p, links[*i].0));
                    }
                    if !ids.insert(cell.node) {
                        return Err(format!("chain-shared-node: two links of the chain are the same node {}", cell.node));
                    }
                }
            }
        }
        for (p, cell) in &lbefore.cells {
            if !placed.contains_key(p) {
                if l.cells.get(p) != Some(cell) {
                    return Err(format!("chain-removed-cell: {:?} at {:?} is gone", cell, p));
                }
                if ids.contains(&cell.node) {
                    return Err(format!("chain-used-node: the chain uses {}, which was there before", cell.node));
                }
            }
        }
        for (p, i) in &placed {
            let n = match l.cells.get(p) {
                Some(x) => x.node,
                None => return Err(format!("chain-missing: link {} is missing at {:?}", i, p)),
            };
            for (pid, v) in &links[*i].1 {
                set.insert(n.inp_param(pid.name()).unwrap(), v.clone());
            }
            r.m.place(p.0, p.1, l.cells[p].cell());
            for (pid, v) in &links[*i].1 {
                r.m.set_param(n.inp_param(pid.name()).unwrap(), v.clone());
            }
        }
        for (p, v) in &set {
            if e.m.get_param(p).as_ref() != Some(v) {
                return Err(format!("chain-param: {} {} is {:?}, expected {:?}", p.node_id(), p.name(), e.m.get_param(p), v));
            }
        }
        if placed.len() >= 3 {
            c.label("long");
        }
        let (a, b) = (e.m.sync().is_ok(), r.m.sync().is_ok());
        if a != b {
            return Err(format!("chain-sync: {} but by hand {}", a, b));
        }
        if !a {
            c.label("illegal");
            return Ok(());
        }
        // (the nodes of further instances are seeded by chance)
        let n = if l.cells.values().all(|x| x.node.instance() < 3) { s.usz(1, 300) } else { 0 };
        let x = gen_signal(s, n);
        let (al, ar) = e.run_in(&x, &x, 128);
        let (bl, br) = r.run_in(&x, &x, 128);
        cmp_sig("chain-audio: left", &al, &bl, 0.0, 0.0)?;
        cmp_sig("chain-audio: right", &ar, &br, 0.0, 0.0)?;
        // what was never named still has its value
        let mut diff = None;
        for n in l.nodes() {
            let mut ps = params_of(n);
            ps.extend(atoms_of(n));
            for p in ps {
                if e.m.get_param(&p) != r.m.get_param(&p) {
                    diff = Some((n, p, e.m.get_param(&p), r.m.get_param(&p)));
                }
            }
        }
        if let Some((n, p, a, b)) = diff {
            return Err(format!("chain-other-param: {} {} is {:?}, by hand {:?}", n, p.name(), a, b));
        }
    }
    c.nontrivial = chains >= 1;
    Ok(())
}

pub fn p20() -> Prop {
    Prop {
        id: "P20",
        level: "exploration",
        rule: "non-trivial: at least one graph was uploaded and heard (not only silence), or at least one chain was placed",
        assumptions: &["finite in-range parameter values", "one value per parameter and one source per input within one construction"],
        subs: vec![sub("synth", 6000, 150000, synth), sub("chain", 3000, 150000, chain)],
    }
}
