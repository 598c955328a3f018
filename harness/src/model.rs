// Reference model of the hex grid, written from the picture of a hex grid and not from the code:
// cell (x, y) has its centre at (x, y) for even columns and (x, y + 1/2) for odd ones; outputs leave to the
// right and downwards (TR, BR, B), inputs enter from above and from the left (T, TL, BL).
use crate::fw::*;
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct MCell {
    pub node: NodeId,
    /// T, TL, BL
    pub ins: [Option<u8>; 3],
    /// TR, BR, B
    pub outs: [Option<u8>; 3],
}

impl MCell {
    pub fn cell(&self) -> Cell {
        Cell::empty(self.node).input(self.ins[0], self.ins[1], self.ins[2]).out(self.outs[0], self.outs[1], self.outs[2])
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct MEdge {
    pub from: NodeId,
    pub out: u8,
    pub to: NodeId,
    pub inp: u8,
    pub fpos: (usize, usize),
    pub tpos: (usize, usize),
    /// index into outs of the source cell / ins of the target cell
    pub oslot: usize,
    pub islot: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Layout {
    pub w: usize,
    pub h: usize,
    pub cells: BTreeMap<(usize, usize), MCell>,
}

fn centre2(x: i64, y: i64) -> (i64, i64) {
    (x, 2 * y + if x.rem_euclid(2) == 1 { 1 } else { 0 })
}

/// Position of the neighbour to which an output slot points (0 TR, 1 BR, 2 B).
pub fn out_neighbour(x: usize, y: usize, slot: usize) -> (i64, i64) {
    let (cx, cy) = centre2(x as i64, y as i64);
    let (nx, ncy) = match slot {
        0 => (cx + 1, cy - 1),
        1 => (cx + 1, cy + 1),
        _ => (cx, cy + 2),
    };
    let ny = if nx.rem_euclid(2) == 1 { (ncy - 1).div_euclid(2) } else { ncy.div_euclid(2) };
    (nx, ny)
}

/// The input slot of the neighbour (T, TL, BL) that an output slot meets.
pub fn in_slot_of_out(slot: usize) -> usize {
    match slot {
        0 => 2, // leaves TR, enters at BL
        1 => 1, // leaves BR, enters at TL
        _ => 0, // leaves B, enters at T
    }
}

pub const OUT_DIRS: [CellDir; 3] = [CellDir::TR, CellDir::BR, CellDir::B];
pub const IN_DIRS: [CellDir; 3] = [CellDir::T, CellDir::TL, CellDir::BL];

impl Layout {
    pub fn new(w: usize, h: usize) -> Self {
        Layout { w, h, cells: BTreeMap::new() }
    }
    pub fn edges(&self) -> Vec<MEdge> {
        let mut v = vec![];
        for ((x, y), c) in &self.cells {
            for s in 0..3 {
                let Some(o) = c.outs[s] else { continue };
                let (nx, ny) = out_neighbour(*x, *y, s);
                if nx < 0 || ny < 0 {
                    continue;
                }
                let np = (nx as usize, ny as usize);
                if let Some(t) = self.cells.get(&np) {
                    let is = in_slot_of_out(s);
                    if let Some(i) = t.ins[is] {
                        v.push(MEdge { from: c.node, out: o, to: t.node, inp: i, fpos: (*x, *y), tpos: np, oslot: s, islot: is });
                    }
                }
            }
        }
        v
    }
    pub fn nodes(&self) -> Vec<NodeId> {
        let mut v: Vec<NodeId> = vec![];
        for c in self.cells.values() {
            if !v.contains(&c.node) {
                v.push(c.node);
            }
        }
        v
    }
    /// pairs of sources that feed one input twice
    pub fn duplicates(&self) -> Vec<((NodeId, u8), (NodeId, u8))> {
        let e = self.edges();
        let mut v = vec![];
        for i in 0..e.len() {
            for j in 0..e.len() {
                if i != j && e[i].to == e[j].to && e[i].inp == e[j].inp {
                    v.push(((e[i].from, e[i].out), (e[j].from, e[j].out)));
                }
            }
        }
        v
    }
    /// topological order by repeated removal, None if cyclic
    pub fn order(&self) -> Option<Vec<NodeId>> {
        let e = self.edges();
        let mut left = self.nodes();
        let mut out = vec![];
        while !left.is_empty() {
            let pos = left.iter().position(|n| !e.iter().any(|x| x.to == *n && left.contains(&x.from)))?;
            out.push(left.remove(pos));
        }
        Some(out)
    }
    pub fn legal(&self) -> bool {
        self.duplicates().is_empty() && self.order().is_some()
    }
    pub fn place_into(&self, m: &mut Matrix) {
        for x in 0..self.w {
            for y in 0..self.h {
                match self.cells.get(&(x, y)) {
                    Some(c) => m.place(x, y, c.cell()),
                    None => m.place(x, y, Cell::empty(NodeId::Nop)),
                }
            }
        }
    }
    pub fn show(&self) -> String {
        let mut s = format!("{}x{}:", self.w, self.h);
        for ((x, y), c) in &self.cells {
            s += &format!(" ({},{}) {} in{:?} out{:?};", x, y, c.node, c.ins, c.outs);
        }
        s
    }
    /// grid content as the matrix reports it
    pub fn of_matrix(m: &Matrix) -> Layout {
        let (w, h) = m.size();
        let mut l = Layout::new(w, h);
        m.for_each(|x, y, c| {
            if !c.is_empty() {
                l.cells.insert(
                    (x, y),
                    MCell {
                        node: c.node_id(),
                        ins: [c.local_port_idx(CellDir::T), c.local_port_idx(CellDir::TL), c.local_port_idx(CellDir::BL)],
                        outs: [c.local_port_idx(CellDir::TR), c.local_port_idx(CellDir::BR), c.local_port_idx(CellDir::B)],
                    },
                );
            }
        });
        l
    }
}

/// number of signal inputs / outputs of a node
pub fn n_inputs(n: NodeId) -> usize {
    let mut i = 0;
    while n.inp_param_by_idx(i).is_some() {
        i += 1;
    }
    i
}
pub fn n_outputs(n: NodeId) -> usize {
    let mut i = 0;
    while n.out_name_by_idx(i as u8).is_some() {
        i += 1;
    }
    i
}

pub fn all_nodes() -> Vec<NodeId> {
    hexodsp::dsp::ALL_NODE_IDS.iter().copied().filter(|n| *n != NodeId::Nop).collect()
}

/// node types that may take part in arbitrary audio patches: all but the filter whose ladder type solves
/// by unbounded iteration in an external crate (see known_findings.json, P17)
pub fn audio_nodes() -> Vec<NodeId> {
    all_nodes().into_iter().filter(|n| !matches!(n, NodeId::FVaFilt(_))).collect()
}

/// A random cell for a node; ports exposed with the given odds (of 8).
pub fn gen_cell(s: &mut Src, node: NodeId, odds: u64) -> MCell {
    let ni = n_inputs(node);
    let no = n_outputs(node);
    let mut c = MCell { node, ins: [None; 3], outs: [None; 3] };
    for k in 0..3 {
        if ni > 0 && s.chance(odds, 8) {
            c.ins[k] = Some(s.below(ni) as u8);
        }
    }
    for k in 0..3 {
        if no > 0 && s.chance(odds, 8) {
            c.outs[k] = Some(s.below(no) as u8);
        }
    }
    c
}

/// Does the model contain a path from a to b?
pub fn reaches(e: &[MEdge], a: NodeId, b: NodeId) -> bool {
    let mut seen: Vec<NodeId> = vec![a];
    let mut i = 0;
    while i < seen.len() {
        let cur = seen[i];
        for x in e.iter().filter(|x| x.from == cur) {
            if !seen.contains(&x.to) {
                seen.push(x.to);
            }
        }
        i += 1;
    }
    seen.contains(&b)
}

/// All nodes that depend on any of `of` (inclusive).
pub fn dependents(e: &[MEdge], of: &[NodeId]) -> Vec<NodeId> {
    let mut seen: Vec<NodeId> = of.to_vec();
    let mut i = 0;
    while i < seen.len() {
        let cur = seen[i];
        for x in e.iter().filter(|x| x.from == cur) {
            if !seen.contains(&x.to) {
                seen.push(x.to);
            }
        }
        i += 1;
    }
    seen
}
