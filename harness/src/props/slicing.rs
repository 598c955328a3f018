// P06: sound does not depend on the block sizes.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::*;

/// inputs that are documented not to follow fast automation
pub fn block_rate(n: NodeId, i: u8) -> bool {
    matches!(n, NodeId::BiqFilt(_)) && n.inp_name_by_idx(i) != Some("inp")
}

pub struct Patch {
    pub l: Layout,
    pub vals: Vec<(ParamId, SAtom)>,
    pub mods: Vec<(ParamId, f32)>,
}

impl Patch {
    pub fn show(&self) -> String {
        let v: Vec<String> = self.vals.iter().map(|(p, v)| format!("{} {}={:?}", p.node_id(), p.name(), v)).collect();
        let m: Vec<String> = self.mods.iter().map(|(p, v)| format!("{} {} amt {}", p.node_id(), p.name(), v)).collect();
        format!("{} values [{}] mods [{}]", self.l.show(), v.join(", "), m.join(", "))
    }
    pub fn apply(&self, e: &mut Eng) -> Result<(), String> {
        for (p, v) in &self.vals {
            e.m.set_param(*p, v.clone());
        }
        e.m.change_matrix(|m| self.l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
        for (p, a) in &self.mods {
            e.m.set_param_modamt(*p, Some(*a)).map_err(|x| format!("modamt: {:?}", x))?;
        }
        Ok(())
    }
}

/// random patch over given node types
pub fn gen_patch(s: &mut Src, w: usize, h: usize, attempts: usize, pool: &[NodeId], max_inst: usize, pval: u64) -> Patch {
    let mut l = Layout::new(w, h);
    let p = (s.below(w), s.below(h));
    l.cells.insert(p, MCell { node: NodeId::Out(0), ins: [None; 3], outs: [None; 3] });
    gen_patch_on(s, l, attempts, pool, max_inst, pval)
}

/// grows a patch from an initial layout
pub fn gen_patch_on(s: &mut Src, mut l: Layout, attempts: usize, pool: &[NodeId], max_inst: usize, pval: u64) -> Patch {
    grow(
        s,
        &mut l,
        attempts,
        |s, _| {
            if s.chance(1, 6) {
                return NodeId::Inp(0);
            }
            let i = s.usz(0, max_inst);
            let n = s.pickc(pool);
            if matches!(n, NodeId::Out(_)) { NodeId::Out(0) } else { n.to_instance(i) }
        },
        |n, i| !block_rate(n, i),
        |_, _| true,
    );
    let mut vals = vec![];
    let mut mods = vec![];
    let mut ns = l.nodes();
    ns.sort();
    for n in ns {
        for p in params_of(n).into_iter().chain(atoms_of(n)) {
            if s.chance(pval, 8) {
                vals.push((p, gen_val(s, p)));
            }
        }
    }
    for e in l.edges() {
        if s.chance(2, 8) {
            let p = e.to.inp_param_by_idx(e.inp as usize).unwrap();
            if !mods.iter().any(|(q, _)| *q == p) {
                mods.push((p, s.bip()));
            }
        }
    }
    Patch { l, vals, mods }
}

pub fn cmp_bits(what: &str, a: &[f32], b: &[f32]) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if x.to_bits() != y.to_bits() && !(x.is_nan() && y.is_nan()) && x != y {
            return Err(format!("{}: sample {} is {} vs {}", what, i, x, y));
        }
    }
    Ok(())
}

fn single(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    // one node of every type with all its inputs driven, all its outputs summed up
    let all = all_nodes();
    let pool: Vec<NodeId> = all.into_iter().filter(|n| !matches!(n, NodeId::Out(_) | NodeId::Inp(_))).collect();
    let n = s.pickc(&pool).to_instance(s.usz(0, 2));
    if n_outputs(n) == 0 {
        return Ok(());
    }
    let mut l = Layout::new(6, 4);
    // three different driver signals: Inp 0, Inp 0 sig2, Noise/Sin/TriLFO
    let drv = [NodeId::Inp(0), NodeId::Inp(0), s.pickc(&[NodeId::Sin(0), NodeId::TsLFO(0), NodeId::Noise(0), NodeId::BOsc(0)])];
    let mut ins = [None; 3];
    let ni = n_inputs(n);
    for k in 0..3 {
        if ni > 0 && s.chance(3, 4) {
            let i = s.below(ni) as u8;
            if !ins.contains(&Some(i)) && !block_rate(n, i) {
                ins[k] = Some(i);
            }
        }
    }
    let x = 1;
    let y = 2;
    let o = s.below(n_outputs(n)) as u8;
    l.cells.insert((x, y), MCell { node: n, ins, outs: [Some(o), None, Some(s.below(n_outputs(n)) as u8)] });
    for sl in 0..3 {
        // the neighbour that points at (x,y)
        for qx in 0..=1usize {
            for qy in 0..4usize {
                if out_neighbour(qx, qy, sl) == (x as i64, y as i64) {
                    let d = drv[in_slot_of_out(sl)];
                    let mut outs = [None; 3];
                    outs[sl] = Some(if in_slot_of_out(sl) == 1 { 1.min(n_outputs(d) - 1) as u8 } else { 0 });
                    l.cells.insert((qx, qy), MCell { node: d, ins: [None; 3], outs });
                }
            }
        }
    }
    let (ox, oy) = out_neighbour(x, y, 0);
    l.cells.insert((ox as usize, oy as usize), MCell { node: NodeId::Out(0), ins: [None, None, Some(0)], outs: [None; 3] });
    let (ox, oy) = out_neighbour(x, y, 2);
    l.cells.insert((ox as usize, oy as usize), MCell { node: NodeId::Out(0), ins: [Some(1), None, None], outs: [None; 3] });
    if !l.legal() {
        return Ok(());
    }
    let mut vals = vec![];
    for p in params_of(n).into_iter().chain(atoms_of(n)) {
        if s.chance(3, 8) {
            vals.push((p, gen_val(s, p)));
        }
    }
    if let NodeId::FVaFilt(_) = n {
        vals.retain(|(p, _)| p.name() != "ftype");
        vals.push((n.inp_param("ftype").unwrap(), SAtom::setting(1 + s.below(2) as i64)));
    }
    let mut p = Patch { l, vals, mods: vec![] };
    for e in p.l.edges() {
        if e.to == n && s.chance(1, 3) {
            p.mods.push((n.inp_param_by_idx(e.inp as usize).unwrap(), s.bip()));
        }
    }
    c.label(n.name());
    run_pair(s, c, &p, 6, 4)?;
    Ok(())
}

fn run_pair(s: &mut Src, c: &mut Ctx, p: &Patch, w: usize, h: usize) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0, 22050.0]);
    let mut a = Eng::with_sr(w, h, sr);
    let mut b = Eng::with_sr(w, h, sr);
    p.apply(&mut a)?;
    p.apply(&mut b)?;
    let t = s.usz(1, 900);
    let il = gen_signal(s, t);
    let ir = gen_signal(s, t);
    let ba = gen_blocks(s);
    let bb = match s.below(3) {
        0 => vec![128],
        1 => vec![1],
        _ => gen_blocks(s),
    };
    c.note(|| format!("{} sr {} frames {} slices {:?} / {:?}", p.show(), sr, t, ba, bb));
    let (mut al, mut ar) = a.run_blocks(&il, &ir, &ba);
    let (mut bl, mut br) = b.run_blocks(&il, &ir, &bb);
    if s.bool() {
        // parameters, modulated or not, that move during the rest
        let mut ps: Vec<ParamId> = p.l.nodes().into_iter().filter(|n| !matches!(n, NodeId::BiqFilt(_))).flat_map(params_of).collect();
        ps.sort_by_key(|q| (q.node_id(), q.inp()));
        let ms: Vec<ParamId> = p.mods.iter().map(|m| m.0).filter(|q| ps.contains(q)).collect();
        for _ in 0..s.usz(1, 6) {
            if ps.is_empty() {
                break;
            }
            let q = if !ms.is_empty() && s.bool() { s.pickc(&ms) } else { s.pickc(&ps) };
            let v = gen_val(s, q);
            c.note(|| format!("frame {}: set {} {} = {:?}", t, q.node_id(), q.name(), v));
            a.m.set_param(q, v.clone());
            b.m.set_param(q, v);
        }
        let t = s.usz(1, 900);
        let il = gen_signal(s, t);
        let ir = gen_signal(s, t);
        let (l, r) = a.run_blocks(&il, &ir, &ba);
        al.extend(l);
        ar.extend(r);
        let (l, r) = b.run_blocks(&il, &ir, &bb);
        bl.extend(l);
        br.extend(r);
        c.label("moving");
    }
    let r = cmp_bits("left", &al, &bl).and_then(|_| cmp_bits("right", &ar, &br));
    if let Err(e) = r {
        let mut ns = p.l.nodes();
        ns.sort();
        let e2: Vec<String> = ns.iter().map(|n| n.name().to_string()).filter(|n| n != "out" && n != "inp").collect();
        return Err(format!("differs {}: {}", e2.join("+"), e));
    }
    c.nontrivial = al.iter().chain(ar.iter()).any(|x| *x != al[0]) && ba != bb;
    if !c.nontrivial {
        c.label("constant");
    }
    Ok(())
}

fn patches(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = s.usz(2, 5);
    let h = s.usz(2, 5);
    let all = audio_nodes();
    let att = s.usz(3, 25);
    let p = gen_patch(s, w, h, att, &all, 2, 2);
    run_pair(s, c, &p, w, h)
}

pub fn p06() -> Prop {
    Prop {
        id: "P06",
        level: "exploration",
        rule: "Twin engines with the same random patch (single: one node of every type with driven inputs; patches: random patches of all node types), same input, different random sequences of block sizes 1..128; outputs must be bit-identical. Non-trivial = the output signal is not constant and the two block sequences differ.",
        assumptions: &["control-side changes (parameters that begin to move) arrive at the same frame in both", "node instances 0..2, whose oscillators start deterministically"],
        subs: vec![sub("single", 12000, 200000, single), sub("patches", 6000, 100000, patches)],
    }
}
