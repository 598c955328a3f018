// P17: every node stays finite and safe.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::*;
use hexodsp::dsp::tracker::UIPatternModel;
use std::sync::Arc;

fn pool() -> Vec<NodeId> {
    all_nodes().into_iter().filter(|n| !matches!(n, NodeId::Test(_) | NodeId::Inp(_) | NodeId::Out(_) | NodeId::FbWr(_) | NodeId::FVaFilt(_) | NodeId::Nop)).collect()
}

fn pname(p: &ParamId) -> String {
    p.name().to_string()
}

/// a setting in its range; the Moog type of SFilter has its own sub check
fn aval(s: &mut Src, p: ParamId) -> SAtom {
    if matches!(p.node_id(), NodeId::SFilter(_)) && p.name() == "ftype" {
        return SAtom::setting(s.range(0, 12));
    }
    if matches!(p.node_id(), NodeId::Sampl(_)) && p.name() == "sample" {
        let n = s.below(300);
        let mut v = vec![s.pickc(&[44100.0f32, 22050.0, 96000.0, 8000.0])];
        for _ in 0..n {
            v.push(s.bip());
        }
        return SAtom::audio("x", Arc::new(v));
    }
    gen_aval(s, p)
}

/// documented range of an output, given the bound of all signals and parameters at the node's inputs
fn range_of(n: NodeId, out: &str, e: &Eng, ins: &[(String, f32, f32)]) -> Option<(f32, f32)> {
    let i = |name: &str| -> (f32, f32) {
        ins.iter().find(|x| x.0 == name).map(|x| (x.1, x.2)).unwrap_or((-1.0, 1.0))
    };
    let set = |name: &str| -> i64 { n.inp_param(name).and_then(|p| e.m.get_param(&p)).map(|a| a.i()).unwrap_or(0) };
    match (n, out) {
        (NodeId::Ad(_) | NodeId::Adsr(_), "sig") => {
            let (a, b) = i("inp");
            Some((a.min(0.0), b.max(0.0)))
        }
        (NodeId::Ad(_) | NodeId::Adsr(_), "eoet") => Some((0.0, 1.0)),
        (NodeId::TsLFO(_), "sig") => Some((0.0, 1.0)),
        (NodeId::TSeq(_), o) if o.starts_with("gat") => Some((0.0, 1.0)),
        (NodeId::MidiP(_), "gate" | "vel") => Some((0.0, 1.0)),
        (NodeId::MidiCC(_), _) => Some((0.0, 1.0)),
        (NodeId::Quant(_) | NodeId::CQnt(_), "t") => Some((0.0, 1.0)),
        (NodeId::Sin(_), _) => Some((-1.0, 1.0)),
        (NodeId::Noise(_), _) => {
            let (a, b) = i("atv");
            let (oa, ob) = i("offs");
            let m = a.abs().max(b.abs());
            Some((oa - m, ob + m))
        }
        (NodeId::Mux9(_), _) => {
            let v: Vec<(f32, f32)> = (1..=9).map(|k| i(&format!("in_{}", k))).collect();
            Some((v.iter().fold(0.0f32, |a, x| a.min(x.0)), v.iter().fold(0.0f32, |a, x| a.max(x.1))))
        }
        (NodeId::Map(_), _) if set("clip") == 1 => {
            let (a, b) = i("min");
            let (c, d) = i("max");
            Some((a.min(c), b.max(d)))
        }
        (NodeId::SMap(_), _) if set("clip") == 1 => {
            let (a, b) = i("min");
            let (c, d) = i("max");
            Some((a.min(c), b.max(d)))
        }
        (NodeId::RndWk(_), _) => Some((-1.0, 1.0)),
        (NodeId::ExtA(_) | NodeId::ExtB(_) | NodeId::ExtC(_) | NodeId::ExtD(_) | NodeId::ExtE(_) | NodeId::ExtF(_), _) => Some((-1.0, 1.0)),
        _ => None,
    }
}

fn run_node(s: &mut Src, c: &mut Ctx, n: NodeId, wild: bool) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0, 96000.0, 192000.0]);
    let mut e = Eng::with_sr(16, 6, sr);
    let inp0 = NodeId::Inp(0);
    let mut l = Layout::new(16, 6);
    let ni = n_inputs(n);
    let no = n_outputs(n);
    let label = NodeInfo::from_node_id(n).name().to_string();
    // some inputs get a signal: (input, channel); the rest is set
    let mut con: Vec<(usize, u8)> = vec![];
    for i in 0..ni {
        if con.len() < 5 && s.chance(2, 5) {
            con.push((i, s.below(2) as u8));
        }
    }
    for (k, (i, ch)) in con.iter().enumerate() {
        l.cells.insert((2 * k, 0), MCell { node: inp0, ins: [None; 3], outs: [None, None, Some(*ch)] });
        l.cells.insert((2 * k, 1), MCell { node: n, ins: [Some(*i as u8), None, None], outs: [None; 3] });
    }
    let mut outs: [Option<u8>; 2] = [None; 2];
    for k in 0..2 {
        if no > 0 {
            let o = s.below(no) as u8;
            outs[k] = Some(o);
            l.cells.insert((11 + 2 * k, 1), MCell { node: n, ins: [None; 3], outs: [None, None, Some(o)] });
            l.cells.insert((11 + 2 * k, 2), MCell { node: NodeId::Out(0), ins: [Some(k as u8), None, None], outs: [None; 3] });
        }
    }
    if no == 0 {
        l.cells.insert((11, 1), MCell { node: n, ins: [None; 3], outs: [None; 3] });
    }
    // attenuators on some connections
    for (i, _) in con.iter() {
        if wild && s.chance(1, 4) {
            let p = n.inp_param_by_idx(*i).unwrap();
            let _ = e.m.set_param_modamt(p, Some(s.f(-1.0, 1.0)));
        }
    }
    let mut note = vec![];
    for i in 0..ni {
        let p = n.inp_param_by_idx(i).unwrap();
        let v = gen_pval(s, p);
        note.push(format!("{} {}", pname(&p), v));
        e.m.set_param(p, SAtom::param(v));
    }
    for p in atoms_of(n) {
        let v = aval(s, p);
        note.push(format!("{} {:?}", pname(&p), if let SAtom::AudioSample(_) = v { SAtom::setting(-1) } else { v.clone() }));
        e.m.set_param(p, v);
    }
    if let NodeId::TSeq(k) = n {
        let d = e.m.get_pattern_data(k as usize).unwrap();
        let mut d = d.lock().unwrap();
        d.set_rows(s.usz(1, 16));
        for _ in 0..s.below(30) {
            let (r, col) = (s.below(16), s.below(6));
            d.set_cell_value(r, col, s.below(0x1000) as u16);
            match s.below(4) {
                0 => d.set_col_note_type(col),
                1 => d.set_col_step_type(col),
                2 => d.set_col_value_type(col),
                _ => d.set_col_gate_type(col),
            }
        }
        drop(d);
        e.m.check_pattern_data(k as usize);
    }
    e.m.change_matrix(|m| l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    c.note(|| format!("{} rate {} signals at {:?} outputs {:?}; {}", n, sr, con, outs, note.join(", ")));
    let tag = if let NodeId::SFilter(_) = n { format!("{}-{}", label, e.m.get_param(&n.inp_param("ftype").unwrap()).unwrap().i()) } else { label.clone() };
    let bs = gen_blocks(s);
    let mut moving = false;
    let mut bound: Vec<(String, f32, f32)> = vec![];
    for seg in 0..s.usz(1, 4) {
        if seg > 0 {
            for _ in 0..s.usz(0, 4) {
                if ni > 0 {
                    let p = n.inp_param_by_idx(s.below(ni)).unwrap();
                    e.m.set_param(p, SAtom::param(gen_pval(s, p)));
                }
            }
            for p in atoms_of(n) {
                if s.chance(1, 4) {
                    let v = aval(s, p);
                    e.m.set_param(p, v);
                }
            }
            if s.chance(1, 8) {
                let sr = s.pickc(&[44100.0f32, 48000.0, 96000.0]);
                e.ex.set_sample_rate(sr);
            }
            c.note(|| "change".to_string());
        }
        let total = match s.below(4) {
            0 => s.usz(1, 200),
            1 => s.usz(3000, 6000),
            _ => s.usz(200, 2000),
        };
        let mut il = gen_signal(s, total);
        let mut ir = gen_signal(s, total);
        if wild {
            let k = s.pickc(&[1.0f32, 3.0, 100.0, 1e4, 1e9, 1e30]);
            for y in [&mut il, &mut ir] {
                for v in y.iter_mut() {
                    *v *= k;
                }
            }
        } else {
            // inside the range of the inputs they go to
            for ch in 0..2u8 {
                let unit = con.iter().any(|x| x.1 == ch && n.inp_param_by_idx(x.0).and_then(|p| p.param_min_max()).map(|m| m.0 .0 >= 0.0).unwrap_or(false));
                let fr = con.iter().any(|x| x.1 == ch && n.inp_param_by_idx(x.0).and_then(|p| p.param_min_max()).map(|m| m.0 .1 < 1.0).unwrap_or(false));
                let y = if ch == 0 { &mut il } else { &mut ir };
                for v in y.iter_mut() {
                    if unit {
                        *v = v.abs();
                    }
                    if fr {
                        *v *= 0.5;
                    }
                }
            }
        }
        let evs: Vec<HxTimedEvent> = if matches!(n, NodeId::MidiP(_) | NodeId::MidiCC(_)) {
            (0..s.below(8))
                .map(|_| {
                    let t = s.below(total.min(64));
                    match s.below(3) {
                        0 => HxTimedEvent::note_on(t, s.below(16) as u8, s.below(128) as u8, s.uni()),
                        1 => HxTimedEvent::note_off(t, s.below(16) as u8, s.below(128) as u8),
                        _ => HxTimedEvent::cc(t, s.below(16) as u8, s.below(128) as u8, s.uni()),
                    }
                })
                .collect()
        } else {
            vec![]
        };
        let (mut ol, mut or) = (vec![], vec![]);
        if !evs.is_empty() {
            let k = total.min(64);
            let (a, b) = e.block_ev(k, &il[..k], &ir[..k], &evs);
            ol.extend(a);
            or.extend(b);
            il.drain(..k);
            ir.drain(..k);
        }
        let (a, b) = e.run_blocks(&il, &ir, &bs);
        ol.extend(a);
        or.extend(b);
        if wild {
            c.nontrivial = true;
            continue;
        }
        // bounds of what arrives at the inputs so far
        for i in 0..ni {
            let p = n.inp_param_by_idx(i).unwrap();
            let v = e.m.get_param(&p).map(|x| x.f()).unwrap_or(0.0);
            let (mut lo, mut hi) = (v, v);
            if con.iter().any(|x| x.0 == i) {
                lo = lo.min(-1.0);
                hi = hi.max(1.0);
            }
            let k = pname(&p);
            match bound.iter_mut().find(|x| x.0 == k) {
                Some(x) => {
                    x.1 = x.1.min(lo);
                    x.2 = x.2.max(hi);
                }
                None => bound.push((k, lo, hi)),
            }
        }
        for k in 0..2 {
            let Some(o) = outs[k] else { continue };
            let y = if k == 0 { &ol } else { &or };
            let on = n.out_name_by_idx(o).unwrap_or("?");
            if y.windows(2).any(|w| w[0] != w[1]) {
                moving = true;
            }
            let r = if seg == 0 || true { range_of(n, on, &e, &bound) } else { None };
            for i in 0..y.len() {
                if !y[i].is_finite() {
                    return Err(format!("not-finite-{}: output {} sample {} of segment {} is {}", tag, on, i, seg, y[i]));
                }
                if let Some((lo, hi)) = r {
                    if y[i] < lo - 1e-4 || y[i] > hi + 1e-4 {
                        return Err(format!("out-of-range-{}: output {} sample {} of segment {} is {}, range {} to {}", label, on, i, seg, y[i], lo, hi));
                    }
                }
            }
        }
    }
    if moving {
        c.nontrivial = true;
    }
    Ok(())
}

fn nodes(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = *s.pick(&pool());
    run_node(s, c, n, false)
}
fn wild(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = *s.pick(&pool());
    run_node(s, c, n, true)
}

/// all kinds of nodes patched into each other, with everything turned
fn patch(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use crate::props::slicing::gen_patch;
    let (w, h) = (s.usz(3, 7), s.usz(3, 7));
    let pl: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Test(_))).collect();
    let att = 10 + s.below(40);
    let p = gen_patch(s, w, h, att, &pl, 3, 6);
    let mut e = Eng::with_sr(w, h, s.pickc(&[44100.0f32, 48000.0, 96000.0, 192000.0]));
    p.apply(&mut e)?;
    c.note(|| p.show());
    let nodes = p.l.nodes();
    for _ in 0..s.usz(1, 4) {
        let total = s.usz(10, 1500);
        let (il, ir) = (gen_signal(s, total), gen_signal(s, total));
        let bs = gen_blocks(s);
        let (o, _) = e.run_blocks(&il, &ir, &bs);
        if o.iter().any(|v| *v != 0.0) {
            c.nontrivial = true;
        }
        for _ in 0..s.below(6) {
            let n = *s.pick(&nodes);
            let mut ps = params_of(n);
            ps.extend(atoms_of(n));
            if !ps.is_empty() {
                let q = *s.pick(&ps);
                let v = gen_val(s, q);
                e.m.set_param(q, v);
            }
        }
    }
    Ok(())
}

/// Known finding: the equation solver of FVaFilt (in the crate synfx-dsp) does not come back for this fixed
/// input, so it is rendered in a thread of its own. The other sub checks leave this node out.
fn solver(_s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c.nontrivial = true;
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let n = NodeId::FVaFilt(0);
        let mut e = Eng::with_sr(6, 3, 44100.0);
        for (p, v) in [("freq", 0.5285084f32), ("res", 0.5), ("drive", 0.8015726)] {
            set(&mut e.m, n, p, v);
        }
        set_i(&mut e.m, n, "ftype", 2);
        e.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0)));
        e.m.place(0, 1, Cell::empty(n).input(inp(n, "in_l"), None, None).out(None, None, Some(0)));
        e.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
        e.m.place(2, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(1)));
        e.m.place(2, 1, Cell::empty(n).input(inp(n, "res"), None, None));
        let _ = e.m.sync();
        let il: Vec<f32> = (0..6000).map(|i| if i / 50 % 2 == 0 { 0.5 } else { 0.0 }).collect();
        let ir: Vec<f32> = il.iter().map(|v| v * 0.5).collect();
        e.run_in(&il, &ir, 64);
        let _ = tx.send(());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(6)) {
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Err("hang-FVaFilt: Sallen-Key filter, square wave input, res modulated: 6000 samples were not rendered within 6 s".to_string()),
        Err(_) => Err("abort-FVaFilt: rendering aborted".to_string()),
        Ok(()) => Ok(()),
    }
}

/// Known finding: the Stilson/Moog filter of SFilter runs to infinity when its cutoff is
/// modulated at audio rate (fixed input). The other sub checks do not look whether this filter type stays finite.
fn moog(_s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c.nontrivial = true;
    let n = NodeId::SFilter(0);
    let mut e = Eng::with_sr(3, 3, 44100.0);
    set(&mut e.m, n, "inp", -1.0);
    set(&mut e.m, n, "res", 0.5);
    set_i(&mut e.m, n, "ftype", 13);
    e.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0)));
    e.m.place(0, 1, Cell::empty(n).input(inp(n, "freq"), None, None).out(None, None, Some(0)));
    e.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    let _ = e.m.sync();
    let il: Vec<f32> = (0..1000).map(|i| if i % 2 == 0 { 0.5 } else { 0.0 }).collect();
    let (o, _) = e.run_in(&il, &il, 64);
    match o.iter().position(|v| !v.is_finite()) {
        Some(i) => Err(format!("not-finite-moog: sample {} is {}", i, o[i])),
        None => Ok(()),
    }
}

pub fn p17() -> Prop {
    Prop {
        id: "P17",
        level: "exploration",
        rule: "non-trivial: the observed output moves (nodes), wild signals were rendered (wild), the patch is audible (patch)",
        assumptions: &["signals at an input lie in the range of its parameter (nodes); beyond that only aborts and hangs are looked for (wild, patch)"],
        subs: vec![sub("nodes", 30000, 300000, nodes), sub("wild", 8000, 100000, wild), sub("patch", 4000, 50000, patch), subt("solver", 1, 1, 1, solver), subt("moog", 1, 1, 1, moog)],
    }
}
