// Generated full states of a matrix: layout, values, modulation, properties, patterns, block functions.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::dsp::tracker::{PatternData, UIPatternModel};
use hexodsp::wblockdsp::BlockFun;
use hexodsp::*;

#[derive(Debug, Clone, PartialEq)]
pub enum PatOp {
    Cell(usize, usize, u16),
    Clear(usize, usize),
    Type(usize, usize),
    Rows(usize),
    Cursor(usize, usize),
    Step(usize),
}

pub fn gen_row(s: &mut Src, rows: usize) -> usize {
    match s.weighted(&[2, 6, 1, 1]) {
        0 => s.below(4),
        1 => s.below(rows.max(1)),
        2 => 255,
        _ => s.below(256),
    }
}

pub fn gen_patop(s: &mut Src, rows: usize) -> PatOp {
    match s.weighted(&[12, 3, 4, 2, 1, 1]) {
        0 => {
            let v = match s.weighted(&[6, 2, 1, 1]) {
                0 => s.below(0x1000) as u16,
                1 => s.usz(30, 100) as u16,
                2 => 0,
                _ => s.pickc(&[0xFFFu16, 0xF00, 0xFFF, 0x0F0]),
            };
            PatOp::Cell(gen_row(s, rows), s.below(6), v)
        }
        1 => PatOp::Clear(gen_row(s, rows), s.below(6)),
        2 => PatOp::Type(s.below(6), s.below(4)),
        3 => PatOp::Rows(match s.weighted(&[4, 2, 1]) {
            0 => s.usz(1, 16),
            1 => s.usz(1, 256),
            _ => 256,
        }),
        4 => PatOp::Cursor(s.below(256), s.below(6)),
        _ => PatOp::Step(s.below(17)),
    }
}

pub fn apply_patop(p: &mut PatternData, o: &PatOp) {
    match o {
        PatOp::Cell(r, c, v) => p.set_cell_value(*r, *c, *v),
        PatOp::Clear(r, c) => p.clear_cell(*r, *c),
        PatOp::Type(c, t) => match t {
            0 => p.set_col_value_type(*c),
            1 => p.set_col_note_type(*c),
            2 => p.set_col_step_type(*c),
            _ => p.set_col_gate_type(*c),
        },
        PatOp::Rows(r) => p.set_rows(*r),
        PatOp::Cursor(r, c) => p.set_cursor(*r, *c),
        PatOp::Step(x) => p.set_edit_step(*x),
    }
}

/// What the editor shows
#[derive(Debug, Clone, PartialEq)]
pub struct PatModel {
    pub cells: Vec<[Option<u16>; 6]>,
    pub types: [usize; 6],
    pub rows: usize,
    pub cursor: (usize, usize),
    pub step: usize,
}
impl PatModel {
    pub fn new() -> Self {
        PatModel { cells: vec![[None; 6]; 256], types: [0; 6], rows: 256, cursor: (2, 2), step: 4 }
    }
    pub fn op(&mut self, o: &PatOp) {
        match o {
            PatOp::Cell(r, c, v) => self.cells[*r][*c] = Some(*v),
            PatOp::Clear(r, c) => self.cells[*r][*c] = None,
            PatOp::Type(c, t) => self.types[*c] = *t,
            PatOp::Rows(r) => self.rows = (*r).min(256),
            PatOp::Cursor(r, c) => self.cursor = (*r, *c),
            PatOp::Step(x) => self.step = *x,
        }
    }
    /// compare with what the pattern reports
    pub fn cmp(&self, p: &mut PatternData) -> Result<(), String> {
        if p.rows() != self.rows || p.get_cursor() != self.cursor || p.get_edit_step() != self.step {
            return Err(format!(
                "pattern-geometry: rows {} cursor {:?} step {} but expected rows {} cursor {:?} step {}",
                p.rows(), p.get_cursor(), p.get_edit_step(), self.rows, self.cursor, self.step
            ));
        }
        for c in 0..6 {
            let t = if p.is_col_note(c) { 1 } else if p.is_col_step(c) { 2 } else if p.is_col_gate(c) { 3 } else { 0 };
            if t != self.types[c] {
                return Err(format!("pattern-type: column {} has type {} but expected {}", c, t, self.types[c]));
            }
            for r in 0..256 {
                let e = self.cells[r][c].map(|v| format!("{:03x}", v));
                let g = p.get_cell(r, c).map(|x| x.to_string());
                if e != g {
                    return Err(format!("pattern-cell: row {} col {} shows {:?} but expected {:?}", r, c, g, e));
                }
                if p.get_cell_value(r, c) != self.cells[r][c].unwrap_or(0) {
                    return Err(format!("pattern-value: row {} col {} has {} expected {:?}", r, c, p.get_cell_value(r, c), self.cells[r][c]));
                }
            }
        }
        Ok(())
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum BlkOp {
    Inst(usize, i64, i64, String, Option<String>),
    Remove(usize, i64, i64),
    Move(usize, i64, i64, usize, i64, i64),
    MoveChain(usize, i64, i64, usize, i64, i64),
    CloneB(usize, i64, i64, usize, i64, i64),
    Split(usize, i64, i64, Option<String>),
    Shift(usize, i64, i64, usize, bool),
    Recalc,
}

pub fn apply_blkop(b: &mut BlockFun, o: &BlkOp) -> Result<(), hexodsp::wblockdsp::BlockDSPError> {
    match o {
        BlkOp::Inst(a, x, y, t, u) => b.instanciate_at(*a, *x, *y, t, u.clone()),
        BlkOp::Remove(a, x, y) => b.remove_at(*a, *x, *y),
        BlkOp::Move(a, x, y, a2, x2, y2) => b.move_block_from_to(*a, *x, *y, *a2, *x2, *y2),
        BlkOp::MoveChain(a, x, y, a2, x2, y2) => b.move_block_chain_from_to(*a, *x, *y, *a2, *x2, *y2),
        BlkOp::CloneB(a, x, y, a2, x2, y2) => b.clone_block_from_to(*a, *x, *y, *a2, *x2, *y2),
        BlkOp::Split(a, x, y, f) => b.split_block_chain_after(*a, *x, *y, f.as_deref()),
        BlkOp::Shift(a, x, y, r, o) => {
            b.shift_port(*a, *x, *y, *r, *o);
            Ok(())
        }
        BlkOp::Recalc => {
            b.recalculate_area_sizes();
            Ok(())
        }
    }
}

/// names of all block types, sorted, with their user input kind
pub fn block_types(b: &BlockFun) -> Vec<(String, hexodsp::wblockdsp::BlockUserInput)> {
    let mut v: Vec<_> = b.block_language().borrow().get_type_list().into_iter().map(|x| (x.1, x.2)).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

pub fn gen_user_input(s: &mut Src, b: &BlockFun, k: hexodsp::wblockdsp::BlockUserInput) -> Option<String> {
    use hexodsp::wblockdsp::BlockUserInput::*;
    match k {
        None => Option::None,
        Float => Some(s.pickc(&["0.5", "1.0", "-2.25", "3"]).to_string()),
        Integer => Some(s.usz(0, 9).to_string()),
        Identifier => Some(s.pickc(&["a", "b", "x1", "*v", "ä\"q\\"]).to_string()),
        ClientDecision => {
            let ids = b.block_language().borrow().list_identifiers();
            if ids.is_empty() { Some("x".into()) } else { Some(s.pick(&ids).clone()) }
        }
    }
}

pub fn gen_blkop(s: &mut Src, b: &BlockFun, types: &[(String, hexodsp::wblockdsp::BlockUserInput)], areas: usize) -> BlkOp {
    let ar = |s: &mut Src| -> usize { if s.chance(3, 8) { s.below(areas + 1) } else { 0 } };
    let co = |s: &mut Src| -> i64 { s.range(0, 8) };
    match s.weighted(&[10, 2, 3, 3, 3, 2, 3, 1]) {
        0 => {
            let t = s.pick(types).clone();
            let u = gen_user_input(s, b, t.1);
            BlkOp::Inst(ar(s), co(s), co(s), t.0, u)
        }
        1 => BlkOp::Remove(ar(s), co(s), co(s)),
        2 => BlkOp::Move(ar(s), co(s), co(s), ar(s), co(s), co(s)),
        3 => BlkOp::MoveChain(ar(s), co(s), co(s), ar(s), co(s), co(s)),
        4 => BlkOp::CloneB(ar(s), co(s), co(s), ar(s), co(s), co(s)),
        5 => BlkOp::Split(ar(s), co(s), co(s), if s.bool() { Some("->".into()) } else { None }),
        6 => BlkOp::Shift(ar(s), co(s), co(s), s.below(2), s.bool()),
        _ => BlkOp::Recalc,
    }
}

pub fn n_areas(b: &BlockFun) -> usize {
    let mut i = 0;
    while b.area_size(i) != (0, 0) {
        i += 1;
    }
    i
}

/// order independent text of a block program
pub fn canon_blocks(v: &serde_json::Value) -> String {
    let mut v = v.clone();
    if let Some(a) = v["areas"].as_array_mut() {
        for ar in a.iter_mut() {
            // sizes are recalculated on load and compared separately
            ar["size"] = serde_json::json!(0);
            if let Some(bl) = ar["blocks"].as_array_mut() {
                bl.sort_by_key(|b| (b["x"].as_i64().unwrap_or(0), b["y"].as_i64().unwrap_or(0)));
            }
        }
        if a.len() == 1 && a[0]["blocks"].as_array().map(|b| b.is_empty()).unwrap_or(true) {
            return "empty".into();
        }
    }
    v.to_string()
}

#[derive(Clone, Debug)]
pub struct Full {
    pub l: Layout,
    pub vals: Vec<(ParamId, SAtom)>,
    pub mods: Vec<(ParamId, f32)>,
    pub props: Vec<(String, SAtom)>,
    pub pats: Vec<(usize, Vec<PatOp>)>,
    pub blks: Vec<(usize, Vec<BlkOp>)>,
}

pub fn gen_str(s: &mut Src) -> String {
    let n = s.below(6);
    (0..n).map(|_| s.pickc(&['a', 'Z', '"', '\\', '\n', '\u{0}', 'ä', '\u{1F600}', ' ', '/', '\u{7f}', '['])).collect()
}

pub fn gen_f32(s: &mut Src) -> f32 {
    match s.weighted(&[4, 2, 1, 1, 1]) {
        0 => s.bip(),
        1 => s.f(-1000.0, 1000.0),
        2 => s.pickc(&[1e-30f32, -1e-30, 1e30, 0.1, -0.0, f32::MIN_POSITIVE, f32::MAX]),
        3 => f32::from_bits((s.raw(1 << 23) as u32) | 0x3f000000),
        _ => 0.0,
    }
}

pub fn gen_any_atom(s: &mut Src) -> SAtom {
    match s.below(5) {
        0 => SAtom::setting(match s.below(3) { 0 => s.range(-100, 100), 1 => i64::MAX, _ => i64::MIN }),
        1 => SAtom::param(gen_f32(s)),
        2 => SAtom::str(&gen_str(s)),
        3 => {
            let v: Vec<f32> = (0..8).map(|_| gen_f32(s)).collect();
            SAtom::micro(&v)
        }
        _ => SAtom::audio_unloaded(&gen_str(s)),
    }
}

pub fn gen_full(s: &mut Src, pool: &[NodeId], max_inst: usize, w: usize, h: usize, blk: bool) -> Full {
    let att = 4 + s.below(26);
    let p = crate::props::slicing::gen_patch(s, w, h, att, pool, max_inst, 3);
    let mut vals = p.vals;
    let mut mods = p.mods;
    // also values of nodes that are not on the grid
    if s.chance(1, 3) {
        for _ in 0..s.usz(1, 4) {
            let n = s.pickc(pool).to_instance(s.usz(0, 40));
            let ps: Vec<ParamId> = params_of(n).into_iter().chain(atoms_of(n)).collect();
            if !ps.is_empty() {
                let p = s.pickc(&ps);
                if !vals.iter().any(|(q, _)| *q == p) {
                    let k = s.below(4);
                    if k != 0 || p.is_atom() {
                        vals.push((p, gen_val(s, p)));
                    }
                    if k < 2 && !p.is_atom() && !mods.iter().any(|(q, _)| *q == p) {
                        mods.push((p, s.bip()));
                    }
                }
            }
        }
    }
    let mut props = vec![];
    for _ in 0..s.below(4) {
        let k = gen_str(s);
        props.retain(|(x, _): &(String, SAtom)| *x != k);
        let v = gen_any_atom(s);
        props.push((k, v));
    }
    let mut pats = vec![];
    if s.chance(1, 2) {
        for _ in 0..s.usz(1, 3) {
            let id = match s.below(5) { 0 => 0, 1 => 1, 2 => s.below(128), 3 => match s.below(6) { 0 => s.below(256), 1 => 255, 2 => 128, _ => 2 }, _ => 127 };
            let mut ops = vec![];
            let mut rows = 256;
            for _ in 0..s.usz(1, 30) {
                let o = gen_patop(s, rows);
                if let PatOp::Rows(r) = o {
                    rows = r;
                }
                ops.push(o);
            }
            pats.push((id, ops));
        }
    }
    let mut blks = vec![];
    if blk && s.chance(1, 3) {
        let lang = hexodsp::wblockdsp::setup_hxdsp_block_language(synfx_dsp_jit::get_standard_library());
        for _ in 0..s.usz(1, 2) {
            let id = match s.weighted(&[4, 4, 4, 1]) { 0 => 0, 1 => 1, 2 => s.below(32), _ => s.below(48) };
            if blks.iter().any(|(i, _)| *i == id) {
                continue;
            }
            let mut b = BlockFun::new(lang.clone());
            let types = block_types(&b);
            let mut ops = vec![];
            for _ in 0..s.usz(1, 20) {
                let na = n_areas(&b);
                let o = gen_blkop(s, &b, &types, na);
                if let BlkOp::Shift(a, x, y, r, _) = &o {
                    // only rows that the block has
                    let Some((ox, oy)) = b.origin_at(*a, *x, *y) else { continue };
                    if b.block_at(*a, ox, oy).map(|v| v.rows()).unwrap_or(0) <= *r {
                        continue;
                    }
                }
                let _ = apply_blkop(&mut b, &o);
                ops.push(o);
            }
            blks.push((id, ops));
        }
    }
    Full { l: p.l, vals, mods, props, pats, blks }
}


impl Full {
    pub fn show(&self) -> Vec<String> {
        let mut v = vec![self.l.show()];
        for (p, x) in &self.vals {
            v.push(format!("set {} {} = {:?}", p.node_id(), p.name(), x));
        }
        for (p, x) in &self.mods {
            v.push(format!("modamt {} {} = {:?}", p.node_id(), p.name(), x));
        }
        for (p, x) in &self.props {
            v.push(format!("prop {:?} = {:?}", p, x));
        }
        for (p, x) in &self.pats {
            v.push(format!("pattern {}: {:?}", p, x));
        }
        for (p, x) in &self.blks {
            v.push(format!("blocks {}: {:?}", p, x));
        }
        v
    }
    pub fn apply(&self, e: &mut Eng) -> Result<(), String> {
        for (p, v) in &self.vals {
            e.m.set_param(*p, v.clone());
        }
        e.m.change_matrix(|m| self.l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
        for (p, a) in &self.mods {
            e.m.set_param_modamt(*p, Some(*a)).map_err(|x| format!("modamt: {:?}", x))?;
        }
        for (k, v) in &self.props {
            e.m.set_prop(k, v.clone());
        }
        for (id, ops) in &self.pats {
            let pd = e.m.get_pattern_data(*id).ok_or("no-pattern: missing")?;
            let mut pd = pd.lock().unwrap();
            for o in ops {
                apply_patop(&mut pd, o);
            }
        }
        for (id, ops) in &self.blks {
            let b = e.m.get_block_function(*id).ok_or("no-block-function: missing")?;
            let mut b = b.lock().unwrap();
            for o in ops {
                let _ = apply_blkop(&mut b, o);
            }
        }
        Ok(())
    }
    pub fn pat_models(&self) -> std::collections::BTreeMap<usize, PatModel> {
        let mut m = std::collections::BTreeMap::new();
        for (id, ops) in &self.pats {
            let p = m.entry(*id).or_insert_with(PatModel::new);
            for o in ops {
                p.op(o);
            }
        }
        m
    }
    /// all parameters that have a value in the original
    pub fn all_params(&self) -> Vec<ParamId> {
        let mut v: Vec<ParamId> = self.vals.iter().map(|x| x.0).collect();
        for (p, _) in &self.mods {
            if !v.contains(p) {
                v.push(*p);
            }
        }
        for n in self.l.nodes() {
            for p in params_of(n).into_iter().chain(atoms_of(n)) {
                if !v.contains(&p) {
                    v.push(p);
                }
            }
        }
        v
    }
}

/// send everything pending to the audio side and let it take it
pub fn flush(e: &mut Eng, f: &Full) {
    for (id, _) in &f.pats {
        for _ in 0..8 {
            e.m.check_pattern_data(*id);
        }
    }
    for (id, _) in &f.blks {
        let _ = e.m.check_block_function(*id);
    }
}

pub fn atom_eq(a: &SAtom, b: &SAtom) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
