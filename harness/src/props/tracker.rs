// P12: the tracker plays the pattern that the editor shows.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::state::*;
use hexodsp::dsp::tracker::{Tracker, UIPatternModel};
use hexodsp::*;

/// what a column should give at a position (row + fraction): (value, gate), None = too near to a switching point
#[derive(Debug, Clone, Copy)]
enum Want {
    Exact(f64, f64),
    /// a gate that is drawn: either silent or this value
    Drawn(f64, f64),
    Skip,
}

fn value_rows(m: &PatModel, col: usize) -> Vec<f64> {
    let n = m.rows;
    let v = |x: u16| (x & 0xFFF) as f64 / 4095.0;
    let mut known: Vec<(usize, f64)> = (0..n).filter_map(|r| m.cells[r][col].map(|x| (r, v(x)))).collect();
    if known.first().map(|x| x.0) != Some(0) {
        known.insert(0, (0, 0.0));
    }
    if known.last().map(|x| x.0) != Some(n - 1) {
        known.push((n - 1, 0.0));
    }
    let mut out = vec![0.0; n];
    for w in known.windows(2) {
        let ((a, x), (b, y)) = (w[0], w[1]);
        for r in a..=b {
            out[r] = if a == b { y } else { x + (y - x) * (r - a) as f64 / (b - a) as f64 };
        }
    }
    if n == 1 {
        out[0] = m.cells[0][col].map(v).unwrap_or(0.0);
    }
    out
}

fn want(m: &PatModel, col: usize, phase: f64) -> Want {
    let n = m.rows;
    if n == 0 {
        return Want::Skip;
    }
    let pos = phase * n as f64;
    let near = |x: f64, eps: f64| (x - x.round()).abs() < eps;
    let eps = 1e-5 * n as f64 + 2e-5;
    if near(pos, eps) {
        return Want::Skip;
    }
    let line = pos.floor() as usize % n;
    let frac = pos.fract();
    match m.types[col] {
        0 => {
            let rows = value_rows(m, col);
            let prev = rows[if line == 0 { n - 1 } else { line - 1 }];
            Want::Exact(prev + (rows[line] - prev) * frac, if line == n - 1 { 1.0 } else { 0.0 })
        }
        1 | 2 => {
            let last = (0..=line).rev().find_map(|r| m.cells[r][col]);
            let v = match last {
                None => 0.0,
                Some(x) if m.types[col] == 1 => ((x as f64 - 69.0) * 0.1 / 12.0).clamp(-1.0, 1.0),
                Some(x) => (x & 0xFFF) as f64 / 4095.0,
            };
            Want::Exact(v, if m.cells[line][col].is_some() { 1.0 } else { 0.0 })
        }
        _ => match m.cells[line][col] {
            None => Want::Exact(0.0, 0.0),
            Some(g) => {
                let len = ((g & 0xF) as f64 + 1.0) / 16.0;
                let div = 16.0 - ((g >> 4) & 0xF) as f64;
                let sub = (frac * div).fract();
                let e = eps * div;
                if near(frac * div, e) || (sub - len).abs() < e {
                    return Want::Skip;
                }
                let v = if sub <= len { 1.0 } else { 0.0 };
                if (g >> 8) & 0xF == 0xF {
                    Want::Exact(v, 1.0)
                } else {
                    Want::Drawn(v, 1.0)
                }
            }
        },
    }
}

fn cmp_want(what: &str, w: Want, v: Option<f32>, g: Option<f32>) -> Result<bool, String> {
    let (a, b, drawn) = match w {
        Want::Skip => return Ok(false),
        Want::Exact(a, b) => (a, b, false),
        Want::Drawn(a, b) => (a, b, true),
    };
    if let Some(v) = v {
        if (v as f64 - a).abs() > 3e-3 && !(drawn && v == 0.0) {
            return Err(format!("value: {}: plays {} but the pattern has {}", what, v, a));
        }
    }
    if let Some(g) = g {
        if (g as f64 - b).abs() > 1e-4 {
            return Err(format!("gate: {}: plays {} but the pattern has {}", what, g, b));
        }
    }
    Ok(true)
}

fn gen_ops(s: &mut Src, rows: usize) -> Vec<PatOp> {
    let k = s.usz(1, 8);
    (0..k).map(|_| gen_patop(s, rows)).collect()
}

const TYN: [&str; 4] = ["value", "note", "step", "gate"];

/// tracker and backend alone, with arbitrary delivery of the updates
fn delivery(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut t = Tracker::new();
    let mut m = PatModel::new();
    let mut be = if s.bool() { Some(t.get_backend()) } else { None };
    let n = s.usz(1, 14);
    let mut msgs = 0;
    for _ in 0..n {
        match s.weighted(&[6, 4, 3, 1, 1]) {
            0 => {
                let ops = gen_ops(s, m.rows);
                c.note(|| format!("{:?}", ops));
                let d = t.data();
                let mut d = d.lock().unwrap();
                for o in &ops {
                    apply_patop(&mut d, o);
                    m.op(o);
                }
            }
            1 => {
                let k = s.usz(1, 8);
                for _ in 0..k {
                    if t.send_one_update() {
                        msgs += 1;
                    }
                }
                c.note(|| format!("send {}", k));
            }
            2 => {
                let k = s.usz(1, 8);
                if let Some(b) = &mut be {
                    for _ in 0..k {
                        b.check_updates();
                    }
                    c.note(|| format!("take {}", k));
                }
            }
            3 => {
                // many updates of one column without the backend taking any
                let col = s.below(6);
                let k = s.usz(20, 90);
                c.note(|| format!("{} edits of column {}, each sent", k, col));
                for i in 0..k {
                    let o = PatOp::Cell(s.below(m.rows.max(1)), col, (i * 37 % 4096) as u16);
                    apply_patop(&mut t.data().lock().unwrap(), &o);
                    m.op(&o);
                    if t.send_one_update() {
                        msgs += 1;
                    }
                }
            }
            _ => {
                // a new player, the old one is gone
                c.note(|| "new backend".to_string());
                be = None;
                be = Some(t.get_backend());
                c.label("new-backend");
            }
        }
    }
    let mut be = match be {
        Some(b) => b,
        None => t.get_backend(),
    };
    let mut guard = 0;
    loop {
        let a = t.send_one_update();
        let b = be.check_updates();
        guard += 1;
        if !a && !b {
            break;
        }
        if guard > 5000 {
            return Err("endless: updates never come to rest".into());
        }
    }
    m.cmp(&mut t.data().lock().unwrap())?;
    if be.pattern_len() != m.rows {
        return Err(format!("rows: plays {} rows but the pattern has {}", be.pattern_len(), m.rows));
    }
    let np = s.usz(1, 40);
    let ph: Vec<f32> = (0..np)
        .map(|_| match s.weighted(&[4, 2, 1]) {
            0 => s.f(0.0, 0.999_99),
            1 if m.rows > 0 => ((gen_row(s, m.rows) % m.rows) as f32 + s.f(0.05, 0.95)) / m.rows as f32,
            _ => s.f(0.9, 0.99999),
        })
        .collect();
    c.note(|| format!("phases {:?}", ph));
    let mut seen = false;
    for col in 0..6 {
        let mut o = vec![0.0; np];
        let mut g = vec![0.0; np];
        be.get_col_at_phase(col, &ph, &mut o, &mut g);
        for i in 0..np {
            let w = want(&m, col, ph[i] as f64);
            let what = format!("{} column {} at phase {} of {} rows", TYN[m.types[col]], col, ph[i], m.rows);
            if cmp_want(&what, w, Some(o[i]), Some(g[i]))? && o[i] != 0.0 {
                seen = true;
            }
        }
    }
    if msgs > 64 {
        c.label("many-updates");
    }
    c.nontrivial = seen;
    Ok(())
}

/// the share of played gates per probability
fn chance(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut t = Tracker::new();
    let mut be = t.get_backend();
    let p = s.below(16) as u16;
    let col = s.below(6);
    let rows = s.usz(2, 32);
    {
        let d = t.data();
        let mut d = d.lock().unwrap();
        d.set_rows(rows);
        d.set_col_gate_type(col);
        for r in 0..rows {
            d.set_cell_value(r, col, (p << 8) | 0xFF);
        }
    }
    while t.send_one_update() {}
    while be.check_updates() {}
    let n = 4000;
    let ph: Vec<f32> = (0..n).flat_map(|i| { let x = ((i % rows) as f32 + 0.3) / rows as f32; [x, x + 0.4 / rows as f32] }).collect();
    let mut o = vec![0.0; 2 * n];
    let mut g = vec![0.0; 2 * n];
    be.get_col_at_phase(col, &ph, &mut o, &mut g);
    let mut on = 0;
    for i in 0..n {
        if o[2 * i] != o[2 * i + 1] {
            return Err(format!("chance-flips: probability {:x}: the gate changes within one row", p));
        }
        if g[2 * i] != 1.0 {
            return Err(format!("chance-gate: probability {:x}: gate output {}", p, g[2 * i]));
        }
        if o[2 * i] == 1.0 {
            on += 1;
        } else if o[2 * i] != 0.0 {
            return Err(format!("chance-value: probability {:x}: {}", p, o[2 * i]));
        }
    }
    let q = (p as f64 + 1.0) / 16.0;
    let sd = (q * (1.0 - q) * n as f64).sqrt();
    if (on as f64 - q * n as f64).abs() > 7.0 * sd + 0.5 {
        return Err(format!("chance-share: probability {:x}: {} of {} rows played, expected {}", p, on, n, q * n as f64));
    }
    c.nontrivial = p < 15;
    Ok(())
}

const TRK: [&str; 6] = ["trk1", "trk2", "trk3", "trk4", "trk5", "trk6"];
const GAT: [&str; 6] = ["gat1", "gat2", "gat3", "gat4", "gat5", "gat6"];

/// the sequencer node in a running engine
fn playing(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let inst = s.pickc(&[0u8, 0, 1, 2, 5]);
    let ts = NodeId::TSeq(inst);
    let (ca, cb) = (s.below(6), s.below(6));
    let gate_b = s.bool();
    let mut l = Layout::new(3, 3);
    // (1,1): clock from above, sync trigger from the left
    let outs = [ts.out(TRK[ca]), None, ts.out(if gate_b { GAT[cb] } else { TRK[cb] })];
    l.cells.insert((1, 1), MCell { node: ts, ins: [inp(ts, "clock"), inp(ts, "trig"), None], outs });
    l.cells.insert((1, 0), MCell { node: NodeId::Inp(0), ins: [None; 3], outs: [None, None, Some(0)] });
    for y in 0..3 {
        if out_neighbour(0, y, 1) == (1, 1) {
            l.cells.insert((0, y), MCell { node: NodeId::Inp(0), ins: [None; 3], outs: [None, Some(1), None] });
        }
    }
    let (x, y) = out_neighbour(1, 1, 0);
    l.cells.insert((x as usize, y as usize), MCell { node: NodeId::Out(0), ins: [None, None, Some(0)], outs: [None; 3] });
    l.cells.insert((1, 2), MCell { node: NodeId::Out(0), ins: [Some(1), None, None], outs: [None; 3] });
    let mut e = Eng::new(3, 3);
    let mut m = PatModel::new();
    let mut other = PatModel::new();
    let oi = (inst as usize + 1) % 4;
    let mode = s.below(3) as i64;
    let mut placed = false;
    let mut clock = synfx_dsp::TriggerPhaseClock::new();
    // the input gain of 1.0 is not exact, hence clock pulses stay clear of the thresholds
    let place = |e: &mut Eng| -> Result<(), String> {
        e.m.change_matrix(|m| l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
        e.m.set_param(ts.inp_param("cmode").unwrap(), SAtom::setting(mode));
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))
    };
    if s.chance(3, 4) {
        place(&mut e)?;
        placed = true;
    }
    let mut cgen = {
        let per = s.usz(2, 60);
        let ran = s.bool();
        let (mut left, mut high) = (per, 0usize);
        let mut st = s.raw(1 << 30);
        let step = s.f(0.0005, 0.05) as f64;
        let mut ph = 0.0f64;
        move || -> f32 {
            if mode == 2 {
                ph += step;
                if ph >= 1.0 {
                    ph -= 1.0;
                }
                return ph as f32;
            }
            if high > 0 {
                high -= 1;
                return 1.0;
            }
            if left == 0 {
                st = mix(st);
                left = if ran { 1 + (st % (2 * per as u64)) as usize } else { per };
                high = (st >> 32) as usize % 3;
                return 1.0;
            }
            left -= 1;
            0.0
        }
    };
    let steps = s.usz(1, 8);
    let mut compared = 0;
    let mut lively = false;
    for st in 0..steps {
        match s.weighted(&[6, 2, 1, 1, 1]) {
            0 => {
                let ops = gen_ops(s, m.rows);
                c.note(|| format!("step {}: {:?}", st, ops));
                let d = e.m.get_pattern_data(inst as usize).ok_or("no pattern data")?;
                let mut d = d.lock().unwrap();
                for o in &ops {
                    apply_patop(&mut d, o);
                    m.op(o);
                }
            }
            1 => {
                // another pattern
                let ops = gen_ops(s, other.rows);
                let d = e.m.get_pattern_data(oi).ok_or("no pattern data")?;
                let mut d = d.lock().unwrap();
                for o in &ops {
                    apply_patop(&mut d, o);
                    other.op(o);
                }
                c.note(|| format!("step {}: other pattern {:?}", st, ops));
            }
            2 => {
                // save and load
                let r = e.m.to_repr();
                c.note(|| format!("step {}: save and load", st));
                let mut mr = r;
                let txt = mr.serialize();
                let r2 = hexodsp::matrix_repr::MatrixRepr::deserialize(&txt).map_err(|x| format!("load: {:?}", x))?;
                e.m.from_repr(&r2).map_err(|x| format!("load: {:?}", x))?;
                clock = synfx_dsp::TriggerPhaseClock::new();
            }
            3 => {
                c.note(|| format!("step {}: clear", st));
                e.m.clear();
                m = PatModel::new();
                other = PatModel::new();
                placed = false;
            }
            _ => {
                c.note(|| format!("step {}: sync", st));
                e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
            }
        }
        let k = s.usz(0, 7);
        for _ in 0..k {
            e.m.check_pattern_data(inst as usize);
            e.m.check_pattern_data(oi);
        }
        let nb = s.usz(0, 3);
        let run = |e: &mut Eng, clock: &mut synfx_dsp::TriggerPhaseClock, n: usize, sync: bool, cgen: &mut dyn FnMut() -> f32, rows: usize, placed: bool| -> (Vec<f32>, Vec<f32>, Vec<f64>) {
            let il: Vec<f32> = (0..n).map(|_| cgen()).collect();
            let mut ir = vec![0.0; n];
            if sync && n > 1 {
                ir[1] = 1.0;
            }
            let (ol, or) = e.block(n, &il, &ir);
            let mut ph = vec![];
            if placed {
                for f in 0..n {
                    if sync && f == 1 {
                        clock.sync();
                    }
                    let pl = rows.max(1) as f64;
                    ph.push(match mode {
                        0 => clock.next_phase(pl, il[f]) / pl,
                        1 => clock.next_phase(1.0, il[f]),
                        _ => il[f].abs() as f64,
                    });
                }
            }
            (ol, or, ph)
        };
        for _ in 0..nb {
            let n = s.usz(1, 128);
            run(&mut e, &mut clock, n, false, &mut cgen, m.rows, placed);
        }
        if !(st + 1 == steps || s.chance(1, 3)) {
            continue;
        }
        if !placed {
            place(&mut e)?;
            placed = true;
            clock = synfx_dsp::TriggerPhaseClock::new();
        }
        // let everything arrive, then restart the sequence
        for _ in 0..12 {
            e.m.check_pattern_data(inst as usize);
            e.m.check_pattern_data(oi);
        }
        for _ in 0..24 {
            run(&mut e, &mut clock, 1, false, &mut cgen, m.rows, true);
        }
        // (once more: updates that found no room)
        for _ in 0..80 {
            e.m.check_pattern_data(inst as usize);
            run(&mut e, &mut clock, 1, false, &mut cgen, m.rows, true);
        }
        m.cmp(&mut e.m.get_pattern_data(inst as usize).unwrap().lock().unwrap())?;
        other.cmp(&mut e.m.get_pattern_data(oi).unwrap().lock().unwrap())?;
        run(&mut e, &mut clock, 4, true, &mut cgen, m.rows, true);
        let nb = s.usz(2, 40);
        let big = s.bool();
        for _ in 0..nb {
            let n = if big { s.usz(1, 128) } else { s.usz(1, 12) };
            let (ol, or, ph) = run(&mut e, &mut clock, n, false, &mut cgen, m.rows, true);
            for f in 0..n {
                let what = |col: usize| format!("step {} {} column {} at phase {} of {} rows (mode {})", st, TYN[m.types[col]], col, ph[f], m.rows, mode);
                if m.rows == 0 {
                    continue;
                }
                let w = want(&m, ca, ph[f]);
                if cmp_want(&what(ca), w, Some(ol[f]), None)? {
                    compared += 1;
                    lively |= ol[f] != 0.0;
                }
                let w = want(&m, cb, ph[f]);
                let (v, g) = if gate_b { (None, Some(or[f])) } else { (Some(or[f]), None) };
                cmp_want(&what(cb), w, v, g)?;
            }
            e.m.update_output_feedback();
            if m.rows > 0 {
                for col in 0..6 {
                    let v = e.m.out_fb_for(&ts, ts.out(TRK[col]).unwrap());
                    let g = e.m.out_fb_for(&ts, ts.out(GAT[col]).unwrap());
                    let w = want(&m, col, ph[n - 1]);
                    cmp_want(&format!("feedback of {} column {} at phase {} of {} rows (mode {})", TYN[m.types[col]], col, ph[n - 1], m.rows, mode), w, v, g)?;
                    lively |= v.unwrap_or(0.0) != 0.0;
                }
            }
        }
    }
    c.label(["RowT", "PatT", "Phase"][mode as usize]);
    c.nontrivial = compared > 0 && lively;
    Ok(())
}

pub fn p12() -> Prop {
    Prop {
        id: "P12",
        level: "exploration",
        rule: "delivery: random pattern edit histories on a tracker with arbitrary delivery of its updates (bursts beyond the queue size, players created late or anew), then every column compared with an independent model of the pattern at random positions. playing: the sequencer node in a running engine with all three clock modes, edits, saves/loads, clears and syncs interleaved with audio; all twelve outputs compared with the model. chance: share of randomly played gates. Non-trivial = a non-zero value was compared (chance: probability below 100%).",
        assumptions: &["comparison takes place after pending updates were taken and, in clocked modes, after a restart trigger", "positions nearer than about 1e-5 pattern lengths to a row or pulse boundary are skipped", "the phase clock itself belongs to the external crate synfx-dsp and is used as reference"],
        subs: vec![sub("delivery", 60000, 1500000, delivery), sub("chance", 400, 8000, chance), sub("playing", 6000, 120000, playing)],
    }
}
