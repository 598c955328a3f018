// P05: the latest value of a parameter is the one that sounds.
use super::dataflow::*;
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::*;
use std::collections::{BTreeMap, HashMap};

/// frames a parameter needs to settle
pub fn settle_frames(sr: f32) -> u64 {
    (sr as f64 * 0.0101).ceil() as u64 + 4
}

/// history of one random session on an interpreter layout
fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = s.usz(2, 5);
    let h = s.usz(2, 5);
    let sr = s.pickc(&[44100.0f32, 22050.0, 48000.0, 8000.0]);
    let settle = settle_frames(sr);
    let mut e = Eng::with_sr(w, h, sr);
    let mut l = Layout::new(w, h);
    let mut vals = Vals::new();
    let mut mods: BTreeMap<(NodeId, &'static str), f32> = BTreeMap::new();
    // frame at which a parameter was last changed while audio knew it
    let mut changed: HashMap<(NodeId, &'static str), u64> = HashMap::new();
    let mut now = 0u64;
    let mut backlog = 0;
    let steps = s.usz(3, 30);
    let mut settled_checks = 0;
    let mut rewired = 0;
    for _ in 0..steps {
        match s.weighted(&[6, 3, 1, 2, 6]) {
            0 => {
                // set some parameters, possibly the same several times
                let mut ns = l.nodes();
                ns.sort();
                if s.chance(1, 6) {
                    let i = s.usz(0, 3);
                    ns.push(s.pickc(&interp_nodes()).to_instance(i));
                }
                if ns.is_empty() {
                    continue;
                }
                let k = s.usz(1, 8);
                for _ in 0..k {
                    let n = s.pickc(&ns);
                    let mut ps = params_of(n);
                    ps.extend(atoms_of(n));
                    let ps: Vec<_> = ps.into_iter().filter(|p| !(matches!(n, NodeId::Mux9(_)) && p.name().starts_with("t_"))).collect();
                    let ps: Vec<_> = ps.into_iter().filter(|p| !(matches!(n, NodeId::Map(_)) && p.name().starts_with("im"))).collect();
                    let p = s.pickc(&ps);
                    let v = gen_val(s, p);
                    c.note(|| format!("set {} {} = {:?}", n, p.name(), v));
                    e.m.set_param(p, v.clone());
                    vals.insert((n, p.name()), v);
                    changed.insert((n, p.name()), now);
                    backlog += 1;
                }
            }
            1 => {
                // edit the layout
                let mut nl = if s.chance(1, 5) { Layout::new(w, h) } else { l.clone() };
                if s.chance(1, 3) {
                    let keys: Vec<_> = nl.cells.keys().copied().collect();
                    if !keys.is_empty() {
                        nl.cells.remove(s.pick(&keys));
                    }
                }
                if !nl.nodes().contains(&NodeId::Out(0)) {
                    let p = (s.below(w), s.below(h));
                    nl.cells.insert(p, MCell { node: NodeId::Out(0), ins: [None; 3], outs: [None; 3] });
                }
                let pool = interp_nodes();
                let k = s.usz(0, 8);
                grow(s, &mut nl, k, |s, _| { let i = s.usz(0, 3); s.pickc(&pool).to_instance(i) }, interp_in_stateless, |_, _| true);
                if !nl.legal() {
                    continue;
                }
                c.note(|| format!("layout {}", nl.show()));
                e.m.change_matrix(|m| nl.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
                e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                l = nl;
                backlog += 1;
                rewired += 1;
            }
            2 => {
                // clear everything, possibly reload
                c.note(|| "clear".into());
                e.m.clear();
                l = Layout::new(w, h);
                vals.clear();
                mods.clear();
                changed.clear();
                backlog += 1;
                if s.bool() {
                    // immediately place something new
                    let mut nl = Layout::new(w, h);
                    let p = (s.below(w), s.below(h));
                    nl.cells.insert(p, MCell { node: NodeId::Out(0), ins: [None; 3], outs: [None; 3] });
                    let pool = interp_nodes();
                    let k = s.usz(0, 8);
                    grow(s, &mut nl, k, |s, _| { let i = s.usz(0, 3); s.pickc(&pool).to_instance(i) }, interp_in_stateless, |_, _| true);
                    c.note(|| format!("layout {}", nl.show()));
                    e.m.change_matrix(|m| nl.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
                    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                    l = nl;
                }
            }
            3 => {
                // modulation amounts
                let edges = l.edges();
                if edges.is_empty() {
                    continue;
                }
                let ed = *s.pick(&edges);
                let p = ed.to.inp_param_by_idx(ed.inp as usize).unwrap();
                let a = if s.chance(1, 4) { None } else { Some(s.bip()) };
                c.note(|| format!("modamt {} {} = {:?}", ed.to, p.name(), a));
                e.m.set_param_modamt(p, a).map_err(|x| format!("modamt: {:?}", x))?;
                match a {
                    Some(a) => mods.insert((ed.to, p.name()), a),
                    None => mods.remove(&(ed.to, p.name())),
                };
                backlog += 1;
            }
            _ => {
                let k = if s.chance(1, 3) { (settle / 128 + 2) as usize } else { s.usz(1, 3) };
                let small = s.bool();
                for _ in 0..k {
                    let n = if small { s.usz(1, 128) } else { 128 };
                    let il = vec![0.25; n];
                    let ir = vec![-0.5; n];
                    c.note(|| format!("render {}", n));
                    let (ol, or) = e.block(n, &il, &ir);
                    backlog = 0;
                    let start = now;
                    now += n as u64;
                    // nodes all of whose ancestors are settled for the whole block
                    let (outs, host) = interpret(&l, &vals, &mods, &il, &ir);
                    let edges = l.edges();
                    let moving: Vec<NodeId> = changed.iter().filter(|(_, t)| **t + settle > start).map(|((n, _), _)| *n).collect();
                    let dirty = dependents(&edges, &moving);
                    e.m.update_output_feedback();
                    for ((node, o), sig) in &outs {
                        if dirty.contains(node) || moving.contains(node) {
                            continue;
                        }
                        if let Some(fb) = e.m.out_fb_for(node, *o) {
                            settled_checks += cmp_v(&format!("not-reached: out of {} port {}", node, o), &[fb], &sig[n - 1..])?;
                        }
                    }
                    if !dirty.contains(&NodeId::Out(0)) && !moving.contains(&NodeId::Out(0)) {
                        settled_checks += cmp_v("not-reached: left", &ol, &host[0])?;
                        cmp_v("not-reached: right", &or, &host[1])?;
                    }
                }
            }
        }
        if backlog > 300 {
            e.upd();
            backlog = 0;
        }
        // control side
        for n in l.nodes() {
            for p in params_of(n).into_iter().chain(atoms_of(n)) {
                let want = val(&vals, n, p.name());
                let got = e.m.get_param(&p);
                let same = match (&got, p.is_atom()) {
                    (Some(g), false) => g.f() == want.f(),
                    (Some(g), true) => *g == want,
                    (None, _) => false,
                };
                if !same {
                    return Err(format!("readback: {} {} reads {:?} but {:?} was set", n, p.name(), got, want));
                }
                if !p.is_atom() {
                    let want = mods.get(&(n, p.name())).copied();
                    if e.m.get_param_modamt(&p) != want {
                        return Err(format!("readback-mod: {} {} amount reads {:?} but {:?} was set", n, p.name(), e.m.get_param_modamt(&p), want));
                    }
                }
            }
        }
    }
    c.nontrivial = settled_checks > 0 && rewired > 0 && !vals.is_empty();
    Ok(())
}

/// values of single parameters, observed sample by sample while they move
fn ramp(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    // Amp(i).inp -> Out.ch1 with att = gain = 1 is the identity; more Amps are read via output feedback
    let sr = s.pickc(&[44100.0f32, 22050.0, 48000.0, 96000.0]);
    let settle = settle_frames(sr);
    let np = s.usz(1, 6);
    let mut e = Eng::with_sr(2, 10, sr);
    let place = |e: &mut Eng, dec: usize| -> Result<(), String> {
        e.m.change_matrix(|m| {
            for y in 0..10 {
                m.place(0, y, Cell::empty(NodeId::Nop));
                m.place(1, y, Cell::empty(NodeId::Nop));
            }
            for i in 0..np {
                m.place(0, i, Cell::empty(NodeId::Amp(i as u8)));
            }
            for i in 0..dec {
                m.place(1, 9 - i, Cell::empty(if i % 2 == 0 { NodeId::Mix3(i as u8) } else { NodeId::Sin(i as u8) }));
            }
        })
        .map_err(|x| format!("refused: {:?}", x))?;
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))
    };
    place(&mut e, 0)?;
    e.run(64);
    let prm = |i: usize| NodeId::Amp(i as u8).inp_param("inp").unwrap();
    let mut target = vec![0.0f32; np];
    let mut cur: Vec<f32> = vec![0.0; np]; // last observed
    let mut lo = vec![0.0f32; np]; // hull of values which the ramp may pass
    let mut hi = vec![0.0f32; np];
    let mut since = vec![1u64 << 40; np]; // frames rendered since the last set
    let mut from = vec![0.0f32; np];
    let steps = s.usz(4, 60);
    let mut moves = 0;
    let mut busy_noise: Vec<u64> = vec![];
    let mut now = 0u64;
    for _ in 0..steps {
        match s.weighted(&[3, 1, 1, 6]) {
            0 => {
                let i = s.below(np);
                let v = s.bip();
                c.note(|| format!("set {} = {}", i, v));
                e.m.set_param(prm(i), SAtom::param(v));
                target[i] = v;
                from[i] = cur[i];
                lo[i] = cur[i].min(v);
                hi[i] = cur[i].max(v);
                since[i] = 0;
                moves += 1;
                busy_noise.push(now);
            }
            1 => {
                // other parameters move as well
                let n = NodeId::Mix3(s.usz(0, 8) as u8 & !1);
                let ps = params_of(n);
                let p = s.pickc(&ps);
                let v = gen_pval(s, p);
                busy_noise.push(now);
                if busy_noise.iter().filter(|t| **t + settle > now).count() < 38 {
                    e.m.set_param(p, SAtom::param(v));
                }
            }
            2 => {
                let d = s.usz(0, 9);
                c.note(|| format!("sync with {} more nodes", d));
                place(&mut e, d)?;
            }
            _ => {
                let n = match s.weighted(&[1, 3]) { 0 => 128, _ => s.usz(1, 100) };
                c.note(|| format!("render {}", n));
                e.run(n);
                now += n as u64;
                e.m.update_output_feedback();
                for i in 0..np {
                    since[i] += n as u64;
                    let fb = e.m.out_fb_for(&NodeId::Amp(i as u8), 0).ok_or("no-feedback: out_fb_for is None")?;
                    let eps = 3e-5;
                    if since[i] >= settle {
                        if (fb - target[i]).abs() > 1e-6 {
                            return Err(format!("not-reached: parameter {} is {} {} frames after setting it to {}", i, fb, since[i], target[i]));
                        }
                    } else {
                        if fb < lo[i] - eps || fb > hi[i] + eps {
                            return Err(format!("out-of-hull: parameter {} is {} while moving from {} to {}", i, fb, from[i], target[i]));
                        }
                        let d = target[i] - from[i];
                        // monotone
                        if (fb - cur[i]) * d.signum() < -eps && d != 0.0 {
                            return Err(format!("not-monotone: parameter {} went from {} to {} while moving to {}", i, cur[i], fb, target[i]));
                        }
                        // no jump: in n frames at most the share of n frames, generously
                        let lim = d.abs() * (n as f32 / (sr * 0.01)) * 1.25 + 2e-3 * d.abs() + eps;
                        if (fb - cur[i]).abs() > lim {
                            return Err(format!("jump: parameter {} went from {} to {} in {} frames while moving from {} to {}", i, cur[i], fb, n, from[i], target[i]));
                        }
                        // and it does move
                        let least = d.abs() * ((since[i] as f32 / (sr * 0.01)) * 0.75 - 0.05);
                        if (fb - from[i]) * d.signum() < least - eps {
                            return Err(format!("too-slow: parameter {} is {} {} frames after moving from {} to {}", i, fb, since[i], from[i], target[i]));
                        }
                    }
                    cur[i] = fb;
                }
            }
        }
    }
    c.nontrivial = moves >= 2;
    Ok(())
}

/// many parameters at the same moment
fn many(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut e = Eng::new(8, 8);
    let n_amp = if s.bool() { s.usz(1, 44) } else { s.usz(32, 44) };
    e.m.change_matrix(|m| {
        for i in 0..n_amp {
            m.place(i % 8, i / 8, Cell::empty(NodeId::Amp(i as u8)));
            if i % 3 == 0 {
                let k = 44 + i / 3;
                m.place(k % 8, k / 8, Cell::empty(NodeId::Mux9(i as u8)));
            }
        }
    })
    .map_err(|x| format!("refused: {:?}", x))?;
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    e.run(128);
    let mut all: Vec<(NodeId, &'static str)> = vec![];
    for i in 0..n_amp {
        all.push((NodeId::Amp(i as u8), "inp"));
        if i % 3 == 0 {
            all.push((NodeId::Mux9(i as u8), "in_1"));
        }
    }
    let mut want: BTreeMap<(NodeId, &'static str), f32> = BTreeMap::new();
    let rounds = s.usz(1, 6);
    for _ in 0..rounds {
        let k = s.usz(1, 60);
        let mut cnt = 0;
        for _ in 0..k {
            if s.chance(1, 2) || n_amp < 2 {
                let (n, p) = *s.pick(&all);
                let v = s.bip();
                e.m.set_param(n.inp_param(p).unwrap(), SAtom::param(v));
                want.insert((n, p), v);
            } else {
                // burst over consecutive nodes
                let a = s.below(all.len());
                let v = s.bip();
                for (n, p) in all[a..].iter().take(6) {
                    e.m.set_param(n.inp_param(p).unwrap(), SAtom::param(v));
                    want.insert((*n, *p), v);
                    cnt += 1;
                }
            }
            cnt += 1;
            if cnt > 380 {
                break;
            }
        }
        if s.chance(1, 3) {
            // every parameter once, in some order, followed by some again
            let o = s.below(all.len());
            let m = s.usz(all.len() / 2, all.len() + 8);
            for j in 0..m {
                let (n, p) = all[(o + j * 7) % all.len()];
                let v = s.bip();
                e.m.set_param(n.inp_param(p).unwrap(), SAtom::param(v));
                want.insert((n, p), v);
            }
        }
        // up to and across the block in which the parameters arrive
        for _ in 0..s.pickc(&[1, 1, 2, 3, 4, 4, 5]) {
            let n = if s.bool() { 128 } else { s.usz(1, 128) };
            e.run(n);
        }
    }
    c.note(|| format!("{} nodes, {} parameters set over {} rounds", n_amp, want.len(), rounds));
    e.run(1024);
    e.m.update_output_feedback();
    for ((n, p), v) in &want {
        let fb = e.m.out_fb_for(n, 0).ok_or("no-feedback: None")?;
        if (fb - v).abs() > 1e-6 {
            return Err(format!("lost: {} {} was set to {} but {} sounds", n, p, v, fb));
        }
        c.evals += 1;
    }
    c.nontrivial = want.len() > 10;
    c.label(if want.len() > 40 { "more-than-40" } else { "up-to-40" });
    Ok(())
}

pub fn p05() -> Prop {
    Prop {
        id: "P05",
        level: "exploration",
        rule: "history: random sessions of set_param/set_param_modamt/layout edits/clear/render at several sample rates; every node whose ancestors are settled must output what the reference interpreter computes from the last set values, and get_param must return them. ramp: every observed sample of moving parameters lies in the interval, is monotone, does not jump and arrives after 10 ms. many: up to 60*6 changes at the same moment. Non-trivial = values were set, the graph was rewired and settled samples were compared (history) / at least two moves (ramp) / more than 10 parameters (many).",
        assumptions: &["fewer than 400 messages queued between two audio blocks (the ring holds 512)", "parameter values lie inside the documented range"],
        subs: vec![sub("history", 20000, 80000, history), sub("ramp", 15000, 80000, ramp), sub("many", 3000, 12000, many)],
    }
}
