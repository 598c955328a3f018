// P04: live edits never disturb nodes that do not depend on what was edited.
use super::slicing::*;
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;
use std::collections::BTreeSet;

/// everything that (transitively) feeds the left output, the feedback pairs included
fn upstream(l: &Layout) -> BTreeSet<NodeId> {
    let e = l.edges();
    let ch2 = NodeId::Out(0).inp("ch2").unwrap();
    let mut p: BTreeSet<NodeId> = e.iter().filter(|x| x.to == NodeId::Out(0) && x.inp != ch2).map(|x| x.from).collect();
    loop {
        let mut add: Vec<NodeId> = vec![];
        for x in &e {
            if p.contains(&x.to) && !p.contains(&x.from) {
                add.push(x.from);
            }
        }
        for n in &p {
            if let NodeId::FbRd(i) = n {
                if !p.contains(&NodeId::FbWr(*i)) {
                    add.push(NodeId::FbWr(*i));
                }
            }
        }
        if add.is_empty() {
            return p;
        }
        p.extend(add);
    }
}

/// the wiring the protected nodes see
fn seen(l: &Layout, prot: &BTreeSet<NodeId>) -> BTreeSet<(NodeId, u8, NodeId, u8)> {
    let ch2 = NodeId::Out(0).inp("ch2").unwrap();
    let mut r: BTreeSet<(NodeId, u8, NodeId, u8)> = l
        .edges()
        .iter()
        .filter(|x| prot.contains(&x.to) || (x.to == NodeId::Out(0) && x.inp != ch2))
        .map(|x| (x.from, x.out, x.to, x.inp))
        .collect();
    // the feedback writer has to stay in the layout even if only its presence matters
    for n in prot.iter().chain([NodeId::Out(0)].iter()) {
        if l.nodes().contains(n) {
            r.insert((*n, 255, *n, 255));
        }
    }
    r
}

fn gen_events(s: &mut Src, n: usize) -> Vec<HxTimedEvent> {
    let k = if s.chance(1, 4) { s.usz(1, 3) } else { 0 };
    let mut v: Vec<(usize, u8, usize)> = (0..k).map(|_| (s.below(n), s.below(128) as u8, s.below(3))).collect();
    v.sort();
    v.into_iter()
        .map(|(t, x, k)| match k {
            0 => HxTimedEvent::note_on(t, 0, 40 + x % 40, 0.5),
            1 => HxTimedEvent::note_off(t, 0, 40 + x % 40),
            _ => HxTimedEvent::cc(t, 0, x % 4, x as f32 / 127.0),
        })
        .collect()
}

fn cmp_fb(a: &mut Eng, b: &mut Eng, prot: &BTreeSet<NodeId>) -> Result<usize, String> {
    a.m.update_output_feedback();
    b.m.update_output_feedback();
    let mut k = 0;
    for n in prot {
        for o in 0..n_outputs(*n) {
            let (x, y) = (a.m.out_fb_for(n, o as u8), b.m.out_fb_for(n, o as u8));
            if let (Some(x), Some(y)) = (x, y) {
                k += 1;
                if x != y && !(x.is_nan() && y.is_nan()) {
                    return Err(format!("node {}: out {} is {} with the edits, {} without", n.name(), o, x, y));
                }
            }
        }
    }
    Ok(k)
}

fn edits(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = s.usz(3, 7);
    let h = s.usz(3, 6);
    // (the Test node reports its own wiring as a signal)
    let pool: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Test(_))).collect();
    let att = s.usz(6, 24);
    let lively: Vec<NodeId> = pool
        .iter()
        .copied()
        .filter(|n| n_outputs(*n) > 0 && !matches!(n, NodeId::Code(_) | NodeId::Rust1x1(_) | NodeId::FbRd(_) | NodeId::Out(_)) && !n.name().starts_with("ext"))
        .collect();
    let mut l0 = Layout::new(w, h);
    let (ox, oy) = (s.below(w), s.usz(1, h - 1));
    l0.cells.insert((ox, oy), MCell { node: NodeId::Out(0), ins: [Some(0), None, None], outs: [None; 3] });
    let src = { let i = s.usz(0, 2); s.pickc(&lively).to_instance(i) };
    let so = s.below(n_outputs(src)) as u8;
    l0.cells.insert((ox, oy - 1), MCell { node: src, ins: [None; 3], outs: [None, None, Some(so)] });
    let mut p = gen_patch_on(s, l0, att, &pool, 2, 2);
    p.vals.retain(|(q, _)| !(q.node_id() == NodeId::Out(0) && q.name() == "mono"));
    let prot = upstream(&p.l);
    let want = seen(&p.l, &prot);
    let mut a = Eng::new(w, h);
    let mut b = Eng::new(w, h);
    p.apply(&mut a)?;
    p.apply(&mut b)?;
    c.note(|| p.show());
    // patterns for the sequencers
    for n in p.l.nodes() {
        if let NodeId::TSeq(i) = n {
            let v: Vec<u16> = (0..4).map(|_| s.below(0x1000) as u16).collect();
            for e in [&mut a, &mut b] {
                let d = e.m.get_pattern_data(i as usize).ok_or("no pattern data")?;
                {
                    let mut d = d.lock().unwrap();
                    d.set_rows(4);
                    for col in 0..6 {
                        match col % 3 {
                            0 => d.set_col_value_type(col),
                            1 => d.set_col_step_type(col),
                            _ => d.set_col_note_type(col),
                        }
                        for r in 0..4 {
                            d.set_cell_value(r, col, v[(r + col) % 4] >> if col % 3 == 2 { 5 } else { 0 });
                        }
                    }
                }
                for _ in 0..8 {
                    e.m.check_pattern_data(i as usize);
                }
            }
            c.label("sequencer");
        }
    }
    let mut l = p.l.clone();
    let steps = s.usz(2, 14);
    let mut n_edits = 0;
    let mut varying = false;
    let mut first: Option<f32> = None;
    let mut frames = 0;
    let mut moving: Vec<(ParamId, usize)> = vec![];
    for st in 0..steps {
        // both engines: parameter changes of any node
        let k = match s.weighted(&[5, 3, 2]) { 0 => 0, 1 => 1, _ => s.usz(5, 36) };
        for _ in 0..k {
            // (there are 40 smoothers for all moving parameters)
            moving.retain(|(_, t)| t + 460 > frames);
            if moving.len() >= 38 {
                break;
            }
            let mut ns: Vec<NodeId> = p.l.nodes();
            ns.sort();
            if s.chance(1, 3) && !moving.is_empty() {
                // once more while it is still moving
                let (q, _) = s.pickc(&moving);
                if ns.contains(&q.node_id()) {
                    let v = gen_val(s, q);
                    c.note(|| format!("step {}: both set again {} {} = {:?}", st, q.node_id(), q.name(), v));
                    a.m.set_param(q, v.clone());
                    b.m.set_param(q, v);
                    moving.retain(|x| x.0 != q);
                    moving.push((q, frames));
                }
                continue;
            }
            let n = s.pickc(&ns);
            let ps: Vec<ParamId> = params_of(n).into_iter().chain(atoms_of(n)).filter(|q| q.name() != "mono").collect();
            if !ps.is_empty() {
                let q = s.pickc(&ps);
                let v = gen_val(s, q);
                c.note(|| format!("step {}: both set {} {} = {:?}", st, n, q.name(), v));
                a.m.set_param(q, v.clone());
                b.m.set_param(q, v);
                if !q.is_atom() {
                    moving.retain(|x| x.0 != q);
                    moving.push((q, frames));
                }
            }
        }
        // engine a: an edit elsewhere
        let ne = s.below(7);
        for _ in 0..ne {
            let what = s.weighted(&[5, 3, 3, 2, 2, 1, 1]);
            match what {
                0 | 1 | 2 => {
                    let mut nl = l.clone();
                    let k = s.usz(1, 3);
                    for _ in 0..k {
                        let q = (s.below(w), s.below(h));
                        match what {
                            0 => {
                                let n = if s.chance(1, 4) { let mut ns = nl.nodes(); ns.sort(); s.pickc(&ns) } else { let i = s.usz(0, 2); s.pickc(&pool).to_instance(i) };
                                let n = if let NodeId::Out(_) = n { NodeId::Out(0) } else { n };
                                let cell = gen_cell(s, n, 5);
                                nl.cells.insert(q, cell);
                            }
                            1 => {
                                nl.cells.remove(&q);
                            }
                            _ => {
                                // rewire: change the ports of a cell
                                if let Some(cell) = nl.cells.get(&q).copied() {
                                    let cell = gen_cell(s, cell.node, 5);
                                    nl.cells.insert(q, cell);
                                }
                            }
                        }
                    }
                    if nl == l || !nl.legal() || seen(&nl, &prot) != want {
                        continue;
                    }
                    c.note(|| format!("step {}: edit to {}", st, nl.show()));
                    a.m.change_matrix(|m| nl.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
                    a.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                    l = nl;
                    n_edits += 1;
                }
                3 | 4 => {
                    let mut ns: Vec<NodeId> = l.nodes().into_iter().filter(|n| !prot.contains(n) && *n != NodeId::Out(0)).collect();
                    ns.sort();
                    if ns.is_empty() {
                        continue;
                    }
                    let n = s.pickc(&ns);
                    let ps: Vec<ParamId> = params_of(n).into_iter().chain(atoms_of(n)).collect();
                    if ps.is_empty() {
                        continue;
                    }
                    let q = s.pickc(&ps);
                    if what == 3 || q.is_atom() {
                        moving.retain(|(_, t)| t + 460 > frames);
                        if moving.len() >= 38 {
                            continue;
                        }
                        if !q.is_atom() {
                            moving.retain(|x| x.0 != q);
                            moving.push((q, frames));
                        }
                        let v = gen_val(s, q);
                        c.note(|| format!("step {}: set {} {} = {:?}", st, n, q.name(), v));
                        a.m.set_param(q, v);
                    } else {
                        let v = if s.chance(2, 3) { Some(s.bip()) } else { None };
                        c.note(|| format!("step {}: amount {} {} = {:?}", st, n, q.name(), v));
                        a.m.set_param_modamt(q, v).map_err(|x| format!("modamt: {:?}", x))?;
                    }
                    n_edits += 1;
                }
                5 => {
                    c.note(|| format!("step {}: sync", st));
                    a.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                    n_edits += 1;
                }
                _ => {
                    // a refused edit that would have touched anything
                    let q = (s.below(w), s.below(h));
                    let n = any_node(s, 2);
                    c.note(|| format!("step {}: refused edit at {:?}", st, q));
                    let _ = a.m.change_matrix_err(|m| {
                        m.place(q.0, q.1, Cell::empty(n));
                        Err(hexodsp::matrix::MatrixError::PosOutOfRange)
                    });
                    n_edits += 1;
                }
            }
        }
        let nb = s.usz(1, 3);
        for _ in 0..nb {
            let n = s.usz(1, 128);
            let il = gen_signal(s, n);
            let ir = gen_signal(s, n);
            let ev = gen_events(s, n);
            let (al, _) = a.block_ev(n, &il, &ir, &ev);
            let (bl, _) = b.block_ev(n, &il, &ir, &ev);
            for i in 0..n {
                if al[i] != bl[i] && !(al[i].is_nan() && bl[i].is_nan()) {
                    let mut ns: Vec<&str> = prot.iter().map(|n| n.name()).collect();
                    ns.dedup();
                    return Err(format!("left {}: frame {} (block frame {}) is {} with the edits, {} without", ns.join("+"), frames + i, i, al[i], bl[i]));
                }
                if n_edits > 0 {
                    if *first.get_or_insert(al[i]) != al[i] {
                        varying = true;
                    }
                }
            }
            frames += n;
            cmp_fb(&mut a, &mut b, &prot)?;
        }
    }
    c.nontrivial = n_edits > 0 && varying && !prot.is_empty();
    c.label(if !varying { "constant" } else if n_edits >= 4 { "edits>=4" } else { "edits<4" });
    Ok(())
}

pub fn p04() -> Prop {
    Prop {
        id: "P04",
        level: "exploration",
        rule: "Twin engines with the same random patch, parameter changes, MIDI and input; one of them additionally receives random accepted and refused grid edits, parameter and modulation changes that touch nothing upstream of the left output. The left output and the last-value feedback of all upstream nodes must stay bit-identical. Non-trivial = at least one edit and a left output that varies after it.",
        assumptions: &["node instances 0..2, whose random generators start deterministically", "a feedback reader depends on the writer of its instance"],
        subs: vec![sub("edits", 12000, 150000, edits)],
    }
}
