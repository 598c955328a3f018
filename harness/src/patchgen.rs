// Generators for layouts, parameter values and signals.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use hexodsp::*;

/// Grow a legal layout by attaching cells with matching ports; keeps only legal steps.
pub fn grow<P, I, O>(s: &mut Src, l: &mut Layout, attempts: usize, mut pick: P, in_ok: I, out_ok: O)
where
    P: FnMut(&mut Src, &Layout) -> NodeId,
    I: Fn(NodeId, u8) -> bool,
    O: Fn(NodeId, u8) -> bool,
{
    for _ in 0..attempts {
        let keys: Vec<_> = l.cells.keys().copied().collect();
        if keys.is_empty() {
            let n = pick(s, l);
            let p = (s.below(l.w), s.below(l.h));
            l.cells.insert(p, MCell { node: n, ins: [None; 3], outs: [None; 3] });
            continue;
        }
        let p = *s.pick(&keys);
        let slot = s.below(3);
        let upstream = s.chance(5, 8);
        // (source pos, target pos)
        let (src, dst) = if upstream {
            // find q with out_neighbour(q, slot) == p
            let mut q = None;
            for x in p.0 as i64 - 1..=p.0 as i64 {
                for y in p.1 as i64 - 1..=p.1 as i64 + 1 {
                    if x >= 0 && y >= 0 && out_neighbour(x as usize, y as usize, slot) == (p.0 as i64, p.1 as i64) {
                        q = Some((x as usize, y as usize));
                    }
                }
            }
            match q {
                Some(q) => (q, p),
                None => continue,
            }
        } else {
            let (nx, ny) = out_neighbour(p.0, p.1, slot);
            if nx < 0 || ny < 0 {
                continue;
            }
            (p, (nx as usize, ny as usize))
        };
        if src.0 >= l.w || src.1 >= l.h || dst.0 >= l.w || dst.1 >= l.h {
            continue;
        }
        let mut nl = l.clone();
        for q in [src, dst] {
            if !nl.cells.contains_key(&q) {
                let n = if s.chance(1, 5) { let k: Vec<_> = nl.nodes(); *s.pick(&k) } else { pick(s, &nl) };
                nl.cells.insert(q, MCell { node: n, ins: [None; 3], outs: [None; 3] });
            }
        }
        let sn = nl.cells[&src].node;
        let dn = nl.cells[&dst].node;
        let outs: Vec<u8> = (0..n_outputs(sn) as u8).filter(|o| out_ok(sn, *o)).collect();
        let ins: Vec<u8> = (0..n_inputs(dn) as u8).filter(|i| in_ok(dn, *i)).collect();
        if outs.is_empty() || ins.is_empty() {
            continue;
        }
        let is = in_slot_of_out(slot);
        if nl.cells[&src].outs[slot].is_none() {
            let o = s.pickc(&outs);
            nl.cells.get_mut(&src).unwrap().outs[slot] = Some(o);
        }
        if nl.cells[&dst].ins[is].is_none() {
            let i = s.pickc(&ins);
            nl.cells.get_mut(&dst).unwrap().ins[is] = Some(i);
        }
        if nl.legal() {
            *l = nl;
        }
    }
}

pub fn any_node(s: &mut Src, max_inst: usize) -> NodeId {
    let all = all_nodes();
    let i = s.usz(0, max_inst);
    s.pickc(&all).to_instance(i)
}

pub fn params_of(n: NodeId) -> Vec<ParamId> {
    let mut v = vec![];
    let mut i = 0;
    while let Some(p) = n.inp_param_by_idx(i) {
        v.push(p);
        i += 1;
    }
    v
}
pub fn atoms_of(n: NodeId) -> Vec<ParamId> {
    let mut v = vec![];
    let mut i = 0;
    while let Some(p) = n.atom_param_by_idx(i) {
        v.push(p);
        i += 1;
    }
    v
}

/// normalised value inside the parameter's range
pub fn gen_pval(s: &mut Src, p: ParamId) -> f32 {
    let ((lo, hi), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (1.0, 1.0)));
    match s.weighted(&[2, 1, 1, 1, 10]) {
        0 => p.norm_def().clamp(lo, hi),
        1 => lo,
        2 => hi,
        3 => 0.0f32.clamp(lo, hi),
        _ => s.f(lo, hi),
    }
}

/// an atom / setting inside its range; never a sample path
pub fn gen_aval(s: &mut Src, p: ParamId) -> SAtom {
    let (lo, hi) = p.setting_min_max().unwrap_or((0, 0));
    match p.as_atom_def() {
        SAtom::Setting(_) => {
            if p.name() == "keys" {
                SAtom::setting(s.range(0, 4095))
            } else {
                SAtom::setting(s.range(lo, hi.max(lo)))
            }
        }
        SAtom::Param(_) => SAtom::param(s.range(lo, hi.max(lo)) as f32),
        o => o,
    }
}

pub fn gen_val(s: &mut Src, p: ParamId) -> SAtom {
    if p.is_atom() {
        gen_aval(s, p)
    } else {
        SAtom::param(gen_pval(s, p))
    }
}

/// A test signal in [-1, 1]: steps, noise, pulses, ramps, constants.
pub fn gen_signal(s: &mut Src, n: usize) -> Vec<f32> {
    let kind = s.weighted(&[1, 3, 2, 2, 2]);
    let a = s.bip();
    let seed = s.raw(1 << 32);
    match kind {
        0 => vec![a; n],
        1 => {
            let mut st = seed;
            (0..n)
                .map(|_| {
                    st = mix(st);
                    ((st >> 40) as f32 / (1u64 << 24) as f32) * 2.0 - 1.0
                })
                .collect()
        }
        2 => {
            let per = 2 + (seed % 97) as usize;
            let duty = 1 + (seed / 97) as usize % per.max(2);
            (0..n).map(|i| if i % per < duty { 1.0 } else { 0.0 }).collect()
        }
        3 => {
            let per = 3 + (seed % 200) as usize;
            (0..n).map(|i| (i % per) as f32 / per as f32 * 2.0 - 1.0).collect()
        }
        _ => {
            let f = 0.001 + (seed % 1000) as f64 / 5000.0;
            (0..n).map(|i| (a.abs().max(0.1) as f64 * (i as f64 * f * std::f64::consts::TAU).sin()) as f32).collect()
        }
    }
}

pub fn gen_blocks(s: &mut Src) -> Vec<usize> {
    let k = s.usz(1, 6);
    (0..k)
        .map(|_| match s.weighted(&[2, 1, 1, 4]) {
            0 => 128,
            1 => 1,
            2 => 64,
            _ => s.usz(1, 128),
        })
        .collect()
}

/// canonical (order independent) text of everything a matrix saves
pub fn repr_text(m: &Matrix) -> String {
    let mut r = m.to_repr();
    let v: serde_json::Value = serde_json::from_str(&r.serialize()).expect("serialized patch is JSON");
    canon(&v)
}
pub fn canon(v: &serde_json::Value) -> String {
    let mut o = String::new();
    if let Some(m) = v.as_object() {
        let mut keys: Vec<_> = m.keys().collect();
        keys.sort();
        for k in keys {
            let x = &m[k];
            if ["params", "atoms", "props", "cells"].contains(&k.as_str()) {
                if let Some(a) = x.as_array() {
                    let mut s: Vec<String> = a.iter().map(|e| e.to_string()).collect();
                    s.sort();
                    o += &format!("{}=[{}]\n", k, s.join(","));
                    continue;
                }
            }
            o += &format!("{}={}\n", k, x);
        }
    } else {
        o = v.to_string();
    }
    o
}
