// P19: block editor operations keep the program well-formed.
use crate::fw::*;
use crate::state::*;
use hexodsp::wblockdsp::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Debug, Clone, PartialEq)]
pub struct B {
    pub id: usize,
    pub rows: usize,
    pub contains: [Option<usize>; 2],
    pub typ: String,
    pub lbl: String,
    pub ins: Vec<Option<String>>,
    pub outs: Vec<Option<String>>,
}
pub type Area = BTreeMap<(i64, i64), B>;

/// what is drawn: all areas that can be reached from the root area
#[derive(Debug, Clone, PartialEq)]
pub struct Drawn {
    pub areas: BTreeMap<usize, Area>,
}

fn ports(v: &Value) -> Vec<Option<String>> {
    let mut p: Vec<Option<String>> = v.as_array().map(|a| a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
    trim(&mut p);
    p
}
fn trim(p: &mut Vec<Option<String>>) {
    while p.last() == Some(&None) {
        p.pop();
    }
}

fn parse(v: &Value) -> Result<Drawn, String> {
    let ar = v["areas"].as_array().ok_or("snapshot: no areas")?;
    let mut d = Drawn { areas: BTreeMap::new() };
    let mut todo = vec![0usize];
    while let Some(a) = todo.pop() {
        if d.areas.contains_key(&a) {
            return Err(format!("shared-area: area {} is contained in two blocks or in itself", a));
        }
        let mut m = Area::new();
        for b in ar.get(a).ok_or(format!("dangling-area: area {} does not exist", a))?["blocks"].as_array().ok_or("snapshot: no blocks")? {
            let bl = &b["block"];
            let c = |i: usize| bl["contains"][i].as_u64().map(|x| x as usize);
            let blk = B {
                id: bl["id"].as_u64().unwrap_or(0) as usize,
                rows: bl["rows"].as_u64().unwrap_or(0) as usize,
                contains: [c(0), c(1)],
                typ: bl["typ"].as_str().unwrap_or("").to_string(),
                lbl: bl["lbl"].as_str().unwrap_or("").to_string(),
                ins: ports(&bl["inputs"]),
                outs: ports(&bl["outputs"]),
            };
            todo.extend(blk.contains.iter().flatten());
            m.insert((b["x"].as_i64().unwrap_or(0), b["y"].as_i64().unwrap_or(0)), blk);
        }
        d.areas.insert(a, m);
    }
    Ok(d)
}

impl Drawn {
    pub fn of(f: &BlockFun) -> Result<Drawn, String> {
        parse(&f.save_snapshot().serialize())
    }
    fn at(&self, a: usize, x: i64, y: i64) -> Option<((i64, i64), &B)> {
        at(self.areas.get(&a)?, x, y)
    }
    fn ids(&self) -> BTreeSet<usize> {
        self.areas.values().flat_map(|m| m.values().map(|b| b.id)).collect()
    }
    /// areas inside of a block
    fn inside(&self, b: &B, out: &mut Vec<usize>) {
        for a in b.contains.iter().flatten() {
            out.push(*a);
            if let Some(m) = self.areas.get(a) {
                for x in m.values() {
                    self.inside(x, out);
                }
            }
        }
    }
    fn invariants(&self) -> Result<(), String> {
        let mut ids = BTreeSet::new();
        for (a, m) in &self.areas {
            let mut used: BTreeMap<(i64, i64), (i64, i64)> = BTreeMap::new();
            for (p, b) in m {
                if b.rows == 0 {
                    return Err(format!("no-rows: block {:?} in area {}", p, a));
                }
                if !ids.insert(b.id) {
                    return Err(format!("same-id: two blocks have the id {}", b.id));
                }
                if b.ins.len() > b.rows || b.outs.len() > b.rows {
                    return Err(format!("port-outside: block {:?} in area {} has ports below its rows", p, a));
                }
                for r in 0..b.rows as i64 {
                    if let Some(o) = used.insert((p.0, p.1 + r), *p) {
                        return Err(format!("overlap: blocks {:?} and {:?} in area {} overlap", o, p, a));
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn at(m: &Area, x: i64, y: i64) -> Option<((i64, i64), &B)> {
    m.range((x, i64::MIN)..=(x, y)).next_back().filter(|(p, b)| y < p.1 + b.rows as i64).map(|(p, b)| (*p, b))
}
fn free(m: &Area, x: i64, y: i64, rows: usize) -> bool {
    (0..rows as i64).all(|r| at(m, x, y + r).is_none())
}
pub fn has(v: &[Option<String>], r: i64) -> bool {
    r >= 0 && v.get(r as usize).map(|p| p.is_some()).unwrap_or(false)
}
/// all blocks that are connected to the one at this place
fn chain(m: &Area, x: i64, y: i64) -> Option<BTreeSet<(i64, i64)>> {
    let (p, _) = at(m, x, y)?;
    let mut out = BTreeSet::new();
    let mut q = VecDeque::from([p]);
    while let Some(p) = q.pop_front() {
        if !out.insert(p) {
            continue;
        }
        let b = &m[&p];
        for r in 0..b.rows as i64 {
            if has(&b.ins, r) {
                if let Some((o, n)) = at(m, p.0 - 1, p.1 + r) {
                    if has(&n.outs, p.1 + r - o.1) {
                        q.push_back(o);
                    }
                }
            }
            if has(&b.outs, r) {
                if let Some((o, n)) = at(m, p.0 + 1, p.1 + r) {
                    if has(&n.ins, p.1 + r - o.1) {
                        q.push_back(o);
                    }
                }
            }
        }
    }
    Some(out)
}
/// places the blocks, None if there is no space
fn put(rest: &Area, load: &[((i64, i64), B)], dx: i64, dy: i64) -> Option<Area> {
    let mut m = rest.clone();
    for (p, b) in load {
        let n = (p.0 + dx, p.1 + dy);
        if !free(&m, n.0, n.1, b.rows) {
            return None;
        }
        m.insert(n, b.clone());
    }
    Some(m)
}

/// a freshly made block of a type: no id yet, and areas that don't exist yet
fn fresh(f: &BlockFun, typ: &str, lbl: Option<String>) -> Option<B> {
    let l = f.block_language();
    let l = l.borrow();
    let mut ins = l.get_type_inputs(typ)?.to_vec();
    let mut outs = l.get_type_outputs(typ)?.to_vec();
    trim(&mut ins);
    trim(&mut outs);
    let contains = if typ == "if" { [Some(usize::MAX); 2] } else { [None; 2] };
    Some(B { id: 0, rows: ins.len().max(outs.len()).max(1), contains, typ: typ.to_string(), lbl: lbl.unwrap_or(typ.to_string()), ins, outs })
}

/// what should be drawn after the operation; ids of new blocks are 0, their areas usize::MAX
enum Exp {
    Refused,
    Is(Drawn),
    /// the chain does not fit at its exact target, it may be refused or placed close by
    Near { base: Drawn, area: usize, load: Vec<((i64, i64), B)>, dx: i64, dy: i64 },
}

#[derive(Debug, Clone)]
enum Op {
    B(BlkOp),
    TakeChain(usize, i64, i64, bool),
    Save,
    Load(usize),
    Json,
    Reset,
}

fn expect(d: &Drawn, f: &BlockFun, o: &BlkOp) -> Exp {
    match o {
        BlkOp::Inst(a, x, y, t, u) => {
            let Some(m) = d.areas.get(a) else { return Exp::Refused };
            let Some(b) = fresh(f, t, u.clone()) else { return Exp::Refused };
            if !free(m, *x, *y, b.rows) {
                return Exp::Refused;
            }
            let mut q = d.clone();
            q.areas.get_mut(a).unwrap().insert((*x, *y), b);
            Exp::Is(q)
        }
        BlkOp::Remove(a, x, y) => {
            let Some((p, _)) = d.at(*a, *x, *y) else { return Exp::Refused };
            let mut q = d.clone();
            q.areas.get_mut(a).unwrap().remove(&p);
            Exp::Is(q)
        }
        BlkOp::Move(a, x, y, a2, x2, y2) | BlkOp::CloneB(a, x, y, a2, x2, y2) => {
            let Some((p, b)) = d.at(*a, *x, *y) else { return Exp::Refused };
            let mut b = b.clone();
            let mut q = d.clone();
            if let BlkOp::Move(..) = o {
                let mut ins = vec![];
                d.inside(&b, &mut ins);
                if ins.contains(a2) {
                    return Exp::Refused;
                }
                q.areas.get_mut(a).unwrap().remove(&p);
            } else {
                b.id = 0;
                for c in b.contains.iter_mut().flatten() {
                    *c = usize::MAX;
                }
            }
            // grabbed at another row than the first one
            let y2 = if *y > p.1 { (*y2 - (*y - p.1)).max(0) } else { *y2 };
            let Some(m) = q.areas.get_mut(a2) else { return Exp::Refused };
            if !free(m, *x2, y2, b.rows) {
                return Exp::Refused;
            }
            m.insert((*x2, y2), b);
            Exp::Is(q)
        }
        BlkOp::Split(a, x, y, fill) => {
            let Some(m) = d.areas.get(a) else { return Exp::Refused };
            let Some(ch) = chain(m, *x, *y) else { return Exp::Refused };
            let fb = match fill {
                Some(t) => match fresh(f, t, None) {
                    Some(b) => Some(b),
                    None => return Exp::Refused,
                },
                None => None,
            };
            let mut rest = m.clone();
            let mut load = vec![];
            for p in &ch {
                let b = rest.remove(p).unwrap();
                load.push((*p, b));
            }
            let mut new = vec![];
            if let Some(fb) = fb {
                // every connection over the split gets a filler, but not in the row of the split
                for (p, b) in load.iter().filter(|(p, _)| p.0 == *x) {
                    for r in 0..b.rows as i64 {
                        if has(&b.outs, r) && p.1 + r != *y && load.iter().any(|(q, n)| q.0 == *x + 1 && has(&n.ins, p.1 + r - q.1)) {
                            new.push(((*x + 1, p.1 + r), fb.clone()));
                        }
                    }
                }
            }
            for (p, _) in load.iter_mut() {
                if p.0 > *x {
                    p.0 += 1;
                }
            }
            load.extend(new);
            match put(&rest, &load, 0, 0) {
                None => Exp::Refused,
                Some(m) => {
                    let mut q = d.clone();
                    q.areas.insert(*a, m);
                    Exp::Is(q)
                }
            }
        }
        BlkOp::MoveChain(a, x, y, a2, x2, y2) => {
            let Some(m) = d.areas.get(a) else { return Exp::Refused };
            let Some(ch) = chain(m, *x, *y) else { return Exp::Refused };
            if !d.areas.contains_key(a2) {
                return Exp::Refused;
            }
            let mut q = d.clone();
            let mut load = vec![];
            let mut ins = vec![];
            for p in &ch {
                let b = q.areas.get_mut(a).unwrap().remove(p).unwrap();
                d.inside(&b, &mut ins);
                load.push((*p, b));
            }
            if ins.contains(a2) {
                return Exp::Refused;
            }
            let (mut dx, mut dy) = (*x2 - *x, *y2 - *y);
            if a != a2 {
                // not out of the other area
                let mx = load.iter().map(|l| l.0 .0).min().unwrap();
                let my = load.iter().map(|l| l.0 .1).min().unwrap();
                dx = (mx + dx).max(0) - mx;
                dy = (my + dy).max(0) - my;
            }
            match put(&q.areas[a2], &load, dx, dy) {
                Some(m) => {
                    q.areas.insert(*a2, m);
                    Exp::Is(q)
                }
                None => Exp::Near { base: q, area: *a2, load, dx, dy },
            }
        }
        BlkOp::Shift(a, x, y, r, out) => {
            let mut q = d.clone();
            if let Some((p, b)) = d.at(*a, *x, *y) {
                if b.rows > 1 && *r < b.rows {
                    let n = q.areas.get_mut(a).unwrap().get_mut(&p).unwrap();
                    let v = if *out { &mut n.outs } else { &mut n.ins };
                    v.resize(b.rows, None);
                    let e = v.remove(*r);
                    v.insert((*r + 1) % b.rows, e);
                    trim(v);
                }
            }
            Exp::Is(q)
        }
        BlkOp::Recalc => Exp::Is(d.clone()),
    }
}

/// compares what is drawn with what is expected, new blocks (id 0) have to get a new id and new empty areas
fn same(kind: &str, before: &Drawn, exp: &Drawn, got: &Drawn) -> Result<(), String> {
    let old = before.ids();
    let mut todo = vec![0usize];
    let mut seen = BTreeSet::new();
    while let Some(a) = todo.pop() {
        seen.insert(a);
        let (Some(e), Some(g)) = (exp.areas.get(&a), got.areas.get(&a)) else {
            return Err(format!("{}-area: area {} is not there", kind, a));
        };
        let ek: Vec<_> = e.keys().collect();
        let gk: Vec<_> = g.keys().collect();
        if ek != gk {
            return Err(format!("{}-places: area {} has blocks at {:?}, expected at {:?}", kind, a, gk, ek));
        }
        for (p, eb) in e {
            let mut gb = g[p].clone();
            let mut eb = eb.clone();
            if eb.id == 0 {
                if gb.id == 0 || old.contains(&gb.id) {
                    return Err(format!("{}-id: new block at {:?} has the id {} of another block", kind, p, gb.id));
                }
                gb.id = 0;
            }
            for i in 0..2 {
                if eb.contains[i] == Some(usize::MAX) {
                    let Some(n) = gb.contains[i] else { return Err(format!("{}-noarea: new block at {:?} has no area {}", kind, p, i)) };
                    if before.areas.contains_key(&n) {
                        return Err(format!("{}-oldarea: new block at {:?} got the area {} of another block", kind, p, n));
                    }
                    if !got.areas[&n].is_empty() {
                        return Err(format!("{}-fullarea: area {} of the new block is not empty", kind, n));
                    }
                    seen.insert(n);
                    eb.contains[i] = None;
                    gb.contains[i] = None;
                } else if let Some(n) = eb.contains[i] {
                    todo.push(n);
                }
            }
            if eb != gb {
                return Err(format!("{}-block: block at {:?} in area {} is {:?}, expected {:?}", kind, p, a, gb, eb));
            }
        }
    }
    if let Some(a) = got.areas.keys().find(|a| !seen.contains(a)) {
        return Err(format!("{}-extra: area {} is not expected", kind, a));
    }
    Ok(())
}

fn text(f: impl Fn(&mut [u8]) -> usize) -> String {
    let mut b = [0u8; 64];
    let n = f(&mut b);
    String::from_utf8_lossy(&b[..n]).to_string()
}

/// what the view for the user interface shows
fn view(f: &BlockFun, d: &Drawn) -> Result<(), String> {
    for (a, m) in &d.areas {
        for x in -6..12i64 {
            for y in -6..14i64 {
                let e = at(m, x, y).map(|e| e.0);
                let o = f.origin_at(*a, x, y);
                if o != e {
                    return Err(format!("view-origin: origin_at({}, {}, {}) is {:?}, expected {:?}", a, x, y, o, e));
                }
                if f.block_ref(*a, x, y).is_some() != e.is_some() || f.block_at(*a, x, y).is_some() != (e == Some((x, y))) {
                    return Err(format!("view-ref: block at ({}, {}, {})", a, x, y));
                }
            }
        }
        for (p, b) in m {
            let Some(v) = f.block_at(*a, p.0, p.1) else { return Err(format!("view-block: no block_at({}, {:?})", a, p)) };
            if v.rows() != b.rows || v.contains(0) != b.contains[0] || v.contains(1) != b.contains[1] {
                return Err(format!("view-geometry: block {:?} in area {}", p, a));
            }
            if b.lbl.len() <= 64 && text(|t| v.label(t)) != b.lbl {
                return Err(format!("view-label: block {:?} shows {:?}, expected {:?}", p, text(|t| v.label(t)), b.lbl));
            }
            for r in 0..b.rows + 1 {
                if v.has_input(r) != has(&b.ins, r as i64) || v.has_output(r) != has(&b.outs, r as i64) {
                    return Err(format!("view-port: block {:?} row {}", p, r));
                }
                let i = b.ins.get(r).cloned().flatten().unwrap_or_default();
                let o = b.outs.get(r).cloned().flatten().unwrap_or_default();
                if text(|t| v.input_label(r, t)) != i || text(|t| v.output_label(r, t)) != o {
                    return Err(format!("view-portlabel: block {:?} row {}", p, r));
                }
            }
        }
    }
    Ok(())
}

/// after recalculating its size every area has space for its blocks
fn sizes(f: &BlockFun, d: &Drawn) -> Result<(), String> {
    for (a, m) in &d.areas {
        let (w, h) = f.area_size(*a);
        for (p, b) in m {
            let mut ew = p.0 + 1;
            let mut eh = p.1 + b.rows as i64;
            let mut sub = 0;
            for s in b.contains.iter().flatten() {
                let (sw, sh) = f.area_size(*s);
                ew = ew.max(p.0.max(0) + 1 + sw as i64);
                sub += sh as i64;
            }
            if sub > 0 {
                eh = eh.max(p.1.max(0) + 1 + sub);
            }
            if (w as i64) < ew || (h as i64) < eh {
                return Err(format!("size: area {} has size {}x{}, but block {:?} needs {}x{}", a, w, h, p, ew, eh));
            }
        }
    }
    Ok(())
}

fn gen_op(s: &mut Src, f: &BlockFun, d: &Drawn, types: &[(String, BlockUserInput)], n_areas: usize, saves: usize, neg: bool) -> Op {
    let known: Vec<usize> = d.areas.keys().copied().collect();
    let ar = |s: &mut Src| -> usize {
        match s.below(12) {
            0..=5 => 0,
            6 => n_areas + s.below(2),
            _ => *s.pick(&known),
        }
    };
    let co = |s: &mut Src| -> i64 { if neg && s.chance(1, 8) { s.range(-4, -1) } else { s.range(0, 6) } };
    // mostly at a block, sometimes anywhere
    let bl = |s: &mut Src| -> (usize, i64, i64) {
        let a = ar(s);
        if let Some(m) = d.areas.get(&a) {
            if !m.is_empty() && s.chance(5, 6) {
                let ps: Vec<_> = m.iter().collect();
                let (p, b) = *s.pick(&ps);
                return (a, p.0, p.1 + s.below(b.rows) as i64);
            }
        }
        (a, co(s), co(s))
    };
    let lo = if neg { -4 } else { 0 };
    match s.weighted(&[12, 2, 4, 5, 3, 4, 5, 1, 1, 1, 1, 1]) {
        0 => {
            let t = match s.below(12) {
                0 => ("nope".to_string(), BlockUserInput::None),
                1 => ("if".to_string(), BlockUserInput::None),
                _ => s.pick(types).clone(),
            };
            let u = gen_user_input(s, f, t.1);
            let (a, x, y) = if s.bool() {
                let (a, x, y) = bl(s);
                (a, (x + s.range(-1, 1)).max(lo), (y + s.range(-1, 1)).max(lo))
            } else {
                (ar(s), co(s), co(s))
            };
            Op::B(BlkOp::Inst(a, x, y, t.0, u))
        }
        1 => {
            let (a, x, y) = bl(s);
            Op::B(BlkOp::Remove(a, x, y))
        }
        2 => {
            let (a, x, y) = bl(s);
            Op::B(BlkOp::Move(a, x, y, ar(s), co(s), co(s)))
        }
        3 => {
            let (a, x, y) = bl(s);
            Op::B(BlkOp::MoveChain(a, x, y, ar(s), co(s), co(s)))
        }
        4 => {
            let (a, x, y) = bl(s);
            Op::B(BlkOp::CloneB(a, x, y, ar(s), co(s), co(s)))
        }
        5 => {
            let (a, x, y) = bl(s);
            let fill = match s.below(8) {
                0 => None,
                1 => Some("nope"),
                2 => Some("->2"),
                3 => Some("+"),
                _ => Some("->"),
            };
            Op::B(BlkOp::Split(a, x, y, fill.map(|t| t.to_string())))
        }
        6 => {
            let (a, x, y) = bl(s);
            Op::B(BlkOp::Shift(a, x, y, s.below(4), s.bool()))
        }
        7 => Op::B(BlkOp::Recalc),
        8 => {
            let (a, x, y) = bl(s);
            Op::TakeChain(a, x, y, s.bool())
        }
        9 => Op::Save,
        10 if saves > 0 => Op::Load(s.below(saves)),
        11 if s.chance(1, 4) => Op::Reset,
        _ => Op::Json,
    }
}

fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let lang = setup_hxdsp_block_language(synfx_dsp_jit::get_standard_library());
    let mut f = BlockFun::new(lang.clone());
    let types = block_types(&f);
    let mut d = Drawn::of(&f)?;
    let mut saves: Vec<(BlockFunSnapshot, Drawn)> = vec![];
    let neg = s.chance(1, 4);
    let mut changed = 0;
    for _ in 0..s.usz(1, 40) {
        let o = gen_op(s, &f, &d, &types, n_areas(&f), saves.len(), neg);
        c.note(|| format!("{:?}", o));
        let gen = BlockCodeView::generation(&f);
        let kind;
        match &o {
            Op::B(b) => {
                kind = match b {
                    BlkOp::Inst(..) => "new",
                    BlkOp::Remove(..) => "remove",
                    BlkOp::Move(..) => "move",
                    BlkOp::MoveChain(..) => "movechain",
                    BlkOp::CloneB(..) => "clone",
                    BlkOp::Split(..) => "split",
                    BlkOp::Shift(..) => "shift",
                    BlkOp::Recalc => "recalc",
                };
                let e = expect(&d, &f, b);
                let r = apply_blkop(&mut f, b);
                let q = Drawn::of(&f)?;
                q.invariants()?;
                match (&e, &r) {
                    (Exp::Is(x), Ok(())) => same(kind, &d, x, &q)?,
                    (Exp::Is(_), Err(e)) => return Err(format!("{}-refused: {:?} for a legal operation", kind, e)),
                    (Exp::Refused, Ok(())) => return Err(format!("{}-accepted: an operation that is not possible", kind)),
                    (Exp::Near { .. }, Err(_)) | (Exp::Refused, Err(_)) => {
                        if q != d {
                            return Err(format!("{}-fail-changed: refused with {:?}, but the program changed", kind, r));
                        }
                    }
                    (Exp::Near { base, area, load, dx, dy }, Ok(())) => {
                        let mut ok = None;
                        for ox in -1..=1i64 {
                            for oy in -3..=3i64 {
                                let Some(m) = put(&base.areas[area], load, dx + ox, dy + oy) else { continue };
                                if q.areas.get(area) == Some(&m) {
                                    let (mx, my) = (load.iter().map(|l| l.0 .0).min().unwrap() + dx, load.iter().map(|l| l.0 .1).min().unwrap() + dy);
                                    if (mx >= 0 && mx + ox < 0) || (my >= 0 && my + oy < 0) {
                                        return Err(format!("{}-outside: the chain was moved out of area {}", kind, area));
                                    }
                                    ok = Some(m);
                                }
                            }
                        }
                        let Some(m) = ok else { return Err(format!("{}-scattered: the chain did not keep its shape", kind)) };
                        let mut x = base.clone();
                        x.areas.insert(*area, m);
                        same(kind, &d, &x, &q)?;
                        c.label("near");
                    }
                }
                c.label(if r.is_ok() { kind } else { "refused" });
            }
            Op::TakeChain(a, x, y, rm) => {
                kind = "takechain";
                let ch = d.areas.get(a).and_then(|m| chain(m, *x, *y));
                let r = f.retrieve_block_chain_at(*a, *x, *y, *rm);
                if r.is_some() != ch.is_some() {
                    return Err(format!("takechain: chain found {}, expected {}", r.is_some(), ch.is_some()));
                }
                let mut x = d.clone();
                if *rm {
                    for p in ch.unwrap_or_default() {
                        x.areas.get_mut(a).unwrap().remove(&p);
                    }
                }
                let q = Drawn::of(&f)?;
                same(kind, &d, &x, &q)?;
            }
            Op::Save => {
                kind = "save";
                saves.push((f.save_snapshot(), d.clone()));
            }
            Op::Load(i) => {
                kind = "load";
                f.load_snapshot(&saves[*i].0);
                let q = Drawn::of(&f)?;
                if q != saves[*i].1 {
                    return Err("load: the program is not the one of the snapshot".to_string());
                }
                sizes(&f, &q)?;
                c.label("load");
            }
            Op::Json => {
                kind = "json";
                let t = f.save_snapshot().serialize().to_string();
                let v: Value = serde_json::from_str(&t).map_err(|e| format!("json: {}", e))?;
                let sn = BlockFunSnapshot::deserialize(&v).map_err(|e| format!("json: {}", e))?;
                let mut g = BlockFun::new(lang.clone());
                g.load_snapshot(&sn);
                let q = Drawn::of(&g)?;
                if q != d {
                    return Err("json: the program that was read is not the one that was written".to_string());
                }
                sizes(&g, &q)?;
                if s.bool() {
                    f = g;
                    c.label("json-swap");
                }
            }
            Op::Reset => {
                kind = "reset";
                f.reset();
                let q = Drawn::of(&f)?;
                if q.areas.len() != 1 || !q.areas[&0].is_empty() {
                    return Err("reset: the program is not empty".to_string());
                }
            }
        }
        let q = Drawn::of(&f)?;
        q.invariants()?;
        if q != d {
            changed += 1;
            // a chain that was taken out is put back by the caller
            if BlockCodeView::generation(&f) == gen && kind != "takechain" {
                return Err(format!("{}-generation: the program changed, but its generation did not", kind));
            }
        }
        if let Op::B(BlkOp::Recalc) = o {
            sizes(&f, &q)?;
        }
        view(&f, &q)?;
        d = q;
    }
    if changed >= 3 {
        c.nontrivial = true;
    }
    Ok(())
}

pub fn p19() -> Prop {
    Prop {
        id: "P19",
        level: "exploration",
        rule: "non-trivial: at least three operations of the history changed the program",
        assumptions: &["areas whose block was removed are not used as operands"],
        subs: vec![sub("history", 50000, 1000000, history)],
    }
}
