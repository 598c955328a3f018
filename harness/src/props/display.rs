// P15: displayed signals are the played signals.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::props::slicing::{gen_patch, Patch};
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;
use std::collections::HashMap;

fn pool() -> Vec<NodeId> {
    audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Out(_) | NodeId::Test(_))).collect()
}

/// mono and level of the output node stay at their default, so that the sound is the signal
fn plain_out(p: &mut Patch) {
    p.vals.retain(|(q, _)| !matches!(q.node_id(), NodeId::Out(_)));
    p.mods.retain(|(q, _)| !matches!(q.node_id(), NodeId::Out(_)));
}

/// model of the filter: (neg, pos) maxima over the last 10 values
#[derive(Default)]
struct Filt(Vec<f32>);
impl Filt {
    fn push(&mut self, v: f32) -> (f32, f32) {
        self.0.push(v);
        let l = self.0.len();
        let last = &self.0[l.saturating_sub(10)..];
        let neg = last.iter().filter(|v| **v < 0.0).fold(0.0f32, |a, v| a.max(v.abs()));
        let pos = last.iter().filter(|v| **v >= 0.0).fold(0.0f32, |a, v| a.max(*v));
        (neg, pos)
    }
}

const LAMP: u8 = 255;

fn outfb(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (w, h) = (s.usz(2, 6), s.usz(2, 6));
    let mut e = Eng::new(w, h);
    let pl = pool();
    let mut filt: HashMap<(NodeId, u8), Filt> = HashMap::new();
    let mut filt2: HashMap<(NodeId, u8), Filt> = HashMap::new();
    let mut seen = 0;
    for ed in 0..s.usz(1, 3) {
        let att = 4 + s.below(26);
        let mut p = gen_patch(s, w, h, att, &pl, 2, 3);
        plain_out(&mut p);
        c.note(|| p.show());
        p.apply(&mut e)?;
        let mods: Vec<ParamId> = p.mods.iter().map(|x| x.0).collect();
        let edges = p.l.edges();
        // the sequencers have something to play
        for i in 0..3u8 {
            if edges.iter().any(|x| x.from == NodeId::TSeq(i)) && s.chance(2, 3) {
                if let Some(d) = e.m.get_pattern_data(i as usize) {
                    let mut d = d.lock().unwrap();
                    d.set_rows(4);
                    for col in 0..6 {
                        match s.below(3) {
                            0 => d.set_col_step_type(col),
                            1 => d.set_col_value_type(col),
                            _ => {}
                        }
                        for row in 0..4 {
                            d.set_cell_value(row, col, s.below(0x1000) as u16);
                        }
                    }
                }
                for _ in 0..8 {
                    e.m.check_pattern_data(i as usize);
                }
            }
        }
        // the level of the output is not played with
        let plain = !edges.iter().any(|x| x.to == NodeId::Out(0) && x.inp > 1);
        let mut frames = 0;
        for _ in 0..s.usz(1, 14) {
            let n = s.usz(1, 128);
            let (il, ir) = (gen_signal(s, n), gen_signal(s, n));
            // sometimes several blocks before anyone looks
            let (mut l, mut r) = e.block(n, &il, &ir);
            if s.chance(1, 4) {
                let x = e.block(n, &il, &ir);
                l = x.0;
                r = x.1;
            }
            let filtered = s.bool();
            if filtered {
                e.m.update_filters();
            } else {
                e.m.update_output_feedback();
            }
            for x in &edges {
                let Some(fb) = e.m.out_fb_for(&x.from, x.out) else {
                    return Err(format!("no-feedback: {} output {} reports nothing", x.from, x.out));
                };
                if x.to == NodeId::Out(0) && x.inp < 2 && plain && !mods.contains(&x.to.inp_param_by_idx(x.inp as usize).unwrap()) && ed == 0 {
                    let heard = if x.inp == 0 { l[n - 1] } else { r[n - 1] };
                    if fb != 0.0 {
                        seen += 1;
                    }
                    if !close(fb, heard, 1e-6, 1e-5) {
                        return Err(format!("feedback-wrong: {} output {} shows {} but {} is heard", x.from, x.out, fb, heard));
                    }
                }
                if matches!(x.from, NodeId::Inp(_)) && !p.vals.iter().any(|v| v.0.node_id() == x.from) && ed == 0 && !edges.iter().any(|y| y.to == x.from) {
                    let sent = if x.out == 0 { il[n - 1] } else { ir[n - 1] };
                    if !close(fb, sent, 1e-6, 1e-5) {
                        return Err(format!("feedback-wrong: input channel {} shows {} but is {}", x.out, fb, sent));
                    }
                }
            }
            if filtered {
                // all outputs of all connected nodes, and their lamps
                let mut keys: Vec<(NodeId, u8)> = vec![];
                for n in edges.iter().flat_map(|x| [x.from, x.to]) {
                    if keys.iter().any(|k| k.0 == n) {
                        continue;
                    }
                    for o in 0..=254u8 {
                        if n.out_name_by_idx(o).is_none() {
                            break;
                        }
                        keys.push((n, o));
                    }
                    keys.push((n, LAMP));
                }
                for k in keys {
                    if k.1 == LAMP {
                        let v = e.m.led_value_for(&k.0);
                        let got = e.m.filtered_led_for(&k.0);
                        let again = e.m.filtered_led_for(&k.0);
                        let want = filt.entry(k).or_default().push(v);
                        let off = |w: (f32, f32)| (got.0 - w.0).abs() + (got.1 - w.1).abs() > 1e-6;
                        let late = if frames > 0 { Some(filt2.entry(k).or_default().push(v)) } else { Some((0.0, 0.0)) };
                        if got != again || (ed == 0 && off(want) && late.map(|x| off(x)).unwrap_or(true) && !(v.is_nan())) {
                            return Err(format!("filtered-lamp: {} shows {:?} then {:?} expected {:?} (value {})", k.0, got, again, want, v));
                        }
                        continue;
                    }
                    let v = e.m.out_fb_for(&k.0, k.1).unwrap_or(0.0);
                    let got = e.m.filtered_out_fb_for(&k.0, k.1);
                    let again = e.m.filtered_out_fb_for(&k.0, k.1);
                    if got != again {
                        return Err(format!("filter-unstable: {:?} then {:?}", got, again));
                    }
                    let want = filt.entry(k).or_default().push(v);
                    let off = |w: (f32, f32)| (got.0 - w.0).abs() + (got.1 - w.1).abs() > 1e-6;
                    // the filters may start to listen with the second frame
                    let late = if frames > 0 { Some(filt2.entry(k).or_default().push(v)) } else { Some((0.0, 0.0)) };
                    if ed == 0 && off(want) && late.map(|x| off(x)).unwrap_or(true) && !(v.is_nan()) {
                        return Err(format!("filtered-wrong: {} output {} shows {:?} expected {:?} (value {})", k.0, k.1, got, want, v));
                    }
                }
                frames += 1;
            }
        }
        // a node that is not there shows nothing
        let ghost = NodeId::Amp(77);
        if e.m.out_fb_for(&ghost, 0).is_some() {
            return Err("ghost-feedback: a node that does not exist shows a value".into());
        }
    }
    if seen > 0 {
        c.nontrivial = true;
    }
    Ok(())
}

/// per sample history of all outputs of a patch, from a twin rendered sample by sample
struct Twin {
    e: Eng,
}
impl Twin {
    fn step(&mut self, l: f32, r: f32, want: &[(NodeId, u8)], into: &mut HashMap<(NodeId, u8), Vec<f32>>) {
        self.e.block(1, &[l], &[r]);
        self.e.m.update_output_feedback();
        for k in want {
            into.entry(*k).or_default().push(self.e.m.out_fb_for(&k.0, k.1).unwrap_or(f32::NAN));
        }
    }
}

const WIN: usize = 900;

fn monitor(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (w, h) = (s.usz(2, 4), s.usz(2, 5));
    let pl = pool();
    let att = 6 + s.below(14);
    let mut p = gen_patch(s, w, h, att, &pl, 2, 2);
    // mods are left to their own property
    p.mods.clear();
    plain_out(&mut p);
    let mut a = Eng::new(w, h);
    let mut b = Twin { e: Eng::new(w, h) };
    p.apply(&mut a)?;
    p.apply(&mut b.e)?;
    c.note(|| p.show());
    let mut edges = p.l.edges();
    let mut streams: Vec<Vec<f32>> = vec![vec![]; 6];
    let mut cells: Vec<((usize, usize), MCell)> = p.l.cells.iter().map(|(k, v)| (*k, v.clone())).collect();
    let mut cur: Option<MCell> = None;
    let mut at = (0, 0);
    let mut nz = false;
    for _ in 0..s.usz(1, 4) {
        // (without a monitored cell a sync starts to monitor the cell at the origin)
        match if cur.is_none() { 0 } else { s.weighted(&[6, 1, 2, 3]) } {
            0 => {
                let (pos, m) = s.pick(&cells).clone();
                let cell = *a.m.get(pos.0, pos.1).ok_or("no-cell: get failed")?;
                a.m.monitor_cell(cell);
                c.note(|| format!("monitor {:?} {}", pos, m.node));
                cur = Some(m);
                at = pos;
            }
            1 => {
                a.m.monitor_cell(Cell::empty(NodeId::Nop));
                c.note(|| "monitor nothing".to_string());
                cur = None;
            }
            3 => {
                // the grid is edited: the display follows the monitored place
                let mut q = gen_patch(s, w, h, att, &pl, 2, 2);
                q.mods.clear();
                plain_out(&mut q);
                c.note(|| format!("edit: {}", q.show()));
                for m in [&mut a.m, &mut b.e.m] {
                    m.change_matrix(|m| q.l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
                    m.sync().map_err(|x| format!("sync: {:?}", x))?;
                }
                edges = q.l.edges();
                cells = q.l.cells.iter().map(|(k, v)| (*k, v.clone())).collect();
                cur = cells.iter().find(|x| x.0 == at).map(|x| x.1.clone());
                c.label("edit");
            }
            _ => {
                // nothing changes, but the graph is built anew
                a.m.sync().map_err(|x| format!("sync: {:?}", x))?;
                b.e.m.sync().map_err(|x| format!("sync: {:?}", x))?;
                c.note(|| "sync".to_string());
            }
        }
        let total = s.usz(300, 3500);
        let bs = match s.below(3) {
            0 => vec![128],
            1 => vec![100, 64, 128],
            _ => vec![s.usz(60, 128)],
        };
        let (il, ir) = (gen_signal(s, total), gen_signal(s, total));
        a.run_blocks(&il, &ir, &bs);
        let mut want: Vec<(NodeId, u8)> = edges.iter().map(|x| (x.from, x.out)).collect();
        if let Some(m) = &cur {
            for o in m.outs.iter().flatten() {
                want.push((m.node, *o));
            }
        }
        want.sort();
        want.dedup();
        let mut hist: HashMap<(NodeId, u8), Vec<f32>> = HashMap::new();
        for i in 0..total {
            b.step(il[i], ir[i], &want, &mut hist);
        }
        if let Some(m) = &cur {
            for k in 0..3 {
                if let Some(i) = m.ins[k] {
                    // whichever cell the input is connected at
                    let src = edges.iter().find(|x| x.to == m.node && x.inp == i);
                    match src {
                        Some(x) => streams[k].extend(&hist[&(x.from, x.out)]),
                        None => {
                            let pid = m.node.inp_param_by_idx(i as usize).unwrap();
                            let v = a.m.get_param(&pid).map(|v| v.f()).unwrap_or(pid.as_atom_def().f());
                            streams[k].extend(std::iter::repeat(v).take(total));
                        }
                    }
                }
                if let Some(o) = m.outs[k] {
                    streams[3 + k].extend(&hist[&(m.node, o)]);
                }
            }
        }
        // expected entries, newest last
        let t0 = std::time::Instant::now();
        loop {
            let mut bad = None;
            for k in 0..6 {
                let wins: Vec<(f32, f32)> = streams[k]
                    .chunks_exact(WIN)
                    .map(|x| (x.iter().fold(100.0f32, |a, v| a.min(*v)), x.iter().fold(-100.0f32, |a, v| a.max(*v))))
                    .collect();
                let mm = a.m.get_minmax_monitor_samples(k);
                let n = mm.len();
                for j in 0..n {
                    let back = n - 1 - j;
                    let want = if back < wins.len() { wins[wins.len() - 1 - back] } else { (0.0, 0.0) };
                    let got = *mm.at(j);
                    if want.0 != want.1 {
                        nz = true;
                    }
                    let ok = |a: f32, b: f32| close(a, b, 1e-4, 1e-3);
                    if !(ok(got.0, want.0) && ok(got.1, want.1)) && !want.0.is_nan() && !want.1.is_nan() {
                        bad = Some(format!("monitor-wrong: signal {} entry {} from the end shows {:?} expected {:?}; {} windows", k, back, got, want, wins.len()));
                        break;
                    }
                }
            }
            match bad {
                None => break,
                Some(m) if t0.elapsed().as_secs_f64() > 4.0 => return Err(m),
                _ => std::thread::sleep(std::time::Duration::from_millis(4)),
            }
        }
    }
    if nz {
        c.nontrivial = true;
    }
    Ok(())
}

const N: usize = 512;

/// Do entries [from, to) of a display show consecutive windows of about `spb` samples of x, the first one
/// starting within `start`? Returns the possible ends.
fn windows_fit(ent: &[(f32, f32)], x: &[f32], start: std::ops::Range<usize>, spb: f64, open_first: bool) -> Result<Vec<usize>, usize> {
    // (origin, position)
    let mut set: Vec<(usize, usize)> = start.map(|p| (p, p)).collect();
    let lo = (spb.floor() as usize).max(1);
    let hi = spb.ceil() as usize + 1;
    for (k, e) in ent.iter().enumerate() {
        let mut nx: Vec<(usize, usize)> = vec![];
        for (o, p) in set {
            let lo = if k == 0 && open_first { 1 } else { lo.saturating_sub(1).max(1) };
            for len in lo..=hi + 1 {
                let q = p + len;
                if q > x.len() {
                    break;
                }
                let ideal = o as f64 + spb * (k + 1) as f64;
                if (q as f64 - ideal).abs() > 3.0 + if open_first { spb } else { 0.0 } {
                    continue;
                }
                let mx = x[p..q].iter().fold(-99999.0f32, |a, v| a.max(*v));
                let mn = x[p..q].iter().fold(99999.0f32, |a, v| a.min(*v));
                if close(mx, e.0, 1e-5, 1e-5) && close(mn, e.1, 1e-5, 1e-5) && !nx.contains(&(o, q)) {
                    nx.push((o, q));
                }
            }
        }
        if nx.is_empty() {
            return Err(k);
        }
        set = nx;
        if set.len() > 400 {
            set.truncate(400);
        }
    }
    let mut v: Vec<usize> = set.into_iter().map(|x| x.1).collect();
    v.sort();
    v.dedup();
    Ok(v)
}

fn scope(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0, 96000.0]);
    let mut e = Eng::with_sr(8, 4, sr);
    let inst = s.below(8) as u8;
    let sc = NodeId::Scope(inst);
    let inp0 = NodeId::Inp(0);
    // which engine channel goes to which scope input
    let mut con: [Option<usize>; 3] = [None; 3];
    for x in con.iter_mut() {
        if s.chance(4, 5) {
            *x = Some(s.below(2));
        }
    }
    let tsrc = s.below(3);
    let mut consts = [0.0f32; 3];
    let mut l = Layout::new(8, 4);
    for k in 0..3 {
        match con[k] {
            Some(ch) => {
                l.cells.insert((k, 0), MCell { node: inp0, ins: [None; 3], outs: [None, None, Some(ch as u8)] });
                l.cells.insert((k, 1), MCell { node: sc, ins: [Some(k as u8), None, None], outs: [None; 3] });
            }
            None => {
                l.cells.insert((k, 1), MCell { node: sc, ins: [Some(k as u8), None, None], outs: [None; 3] });
                if s.bool() {
                    consts[k] = s.f(-0.3, 0.3);
                    set(&mut e.m, sc, ["in1", "in2", "in3"][k], consts[k]);
                }
            }
        }
    }
    if tsrc == 2 {
        l.cells.insert((4, 0), MCell { node: inp0, ins: [None; 3], outs: [None, None, Some(1)] });
        l.cells.insert((4, 1), MCell { node: sc, ins: [inp(sc, "trig"), None, None], outs: [None; 3] });
    }
    // other scopes must not interfere
    if s.bool() {
        let o = NodeId::Scope((inst + 1 + s.below(6) as u8) % 8);
        l.cells.insert((6, 0), MCell { node: inp0, ins: [None; 3], outs: [None, None, Some(0)] });
        l.cells.insert((6, 1), MCell { node: o, ins: [Some(0), None, None], outs: [None; 3] });
    }
    set_i(&mut e.m, sc, "tsrc", tsrc as i64);
    let tp = sc.inp_param("time").unwrap();
    let over = s.bool();
    let ms = if over { s.f(0.2, 0.95 * N as f32 / sr * 1000.0) } else { s.f(1.05, 20.0) * N as f32 / sr * 1000.0 };
    e.m.set_param(tp, SAtom::param(tp.norm(ms)));
    let spb = (tp.denorm(tp.norm(ms)) as f64 * sr as f64 / 1000.0) / N as f64;
    let inv = 1.0 / spb;
    if over && ((inv.fract() < 0.02) || (inv.fract() > 0.98)) {
        return Ok(());
    }
    let thr = s.f(0.45, 0.6);
    set(&mut e.m, sc, "thrsh", thr);
    let mut og = [(0.0f32, 1.0f32); 3];
    for k in 0..3 {
        let (po, pg) = (sc.inp_param(["off1", "off2", "off3"][k]).unwrap(), sc.inp_param(["gain1", "gain2", "gain3"][k]).unwrap());
        if s.bool() {
            let (o, g) = (s.bip(), s.uni());
            e.m.set_param(po, SAtom::param(o));
            e.m.set_param(pg, SAtom::param(g));
            og[k] = (o, pg.denorm(g));
        } else {
            og[k] = (0.0, pg.denorm(pg.as_atom_def().f()));
        }
    }
    e.m.change_matrix(|m| l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    let hd = e.m.get_scope_handle(inst as usize).ok_or("no-scope-handle: none")?;
    let cc = (1.0 / spb) as usize;
    let rec = if over { N.div_ceil(cc) } else { (N as f64 * spb).ceil() as usize };
    // signals: low everywhere; pulses for triggers
    let quiet = |s: &mut Src, n: usize| -> Vec<f32> { gen_signal(s, n).iter().map(|v| v * 0.4).collect() };
    let recs = s.usz(0, 2);
    let total = if tsrc == 0 { rec * recs + s.usz(1, rec) } else { (rec + 20 + s.below(200)) * (recs + 1) + s.below(rec) };
    if total > 60000 {
        return Ok(());
    }
    let mut il = quiet(s, total);
    let mut ir = quiet(s, total);
    let mut pulses = vec![];
    if tsrc > 0 {
        // pulses only while the scope waits
        let mut t = rec + 4 + s.below(100);
        while t + 1 < total {
            let len = s.usz(1, 20);
            let y = if tsrc == 2 { &mut ir } else { &mut il };
            for i in t..(t + len).min(total) {
                y[i] = s.f(0.7, 1.0);
            }
            pulses.push(t);
            t += rec + 4 + len + s.below(100);
        }
    }
    let trig_ok = match tsrc {
        0 => true,
        1 => con[0] == Some(0),
        _ => true,
    };
    c.note(|| format!("rate {} spb {} time {} ms tsrc {} inputs {:?} consts {:?} total {} record {} pulses {:?}", sr, spb, ms, tsrc, con, consts, total, rec, pulses));
    let bs = gen_blocks(s);
    e.run_blocks(&il, &ir, &bs);
    for k in 0..3 {
        if hd.is_active(k) != con[k].is_some() {
            return Err(format!("active-wrong: input {} connected {:?} but is_active is {}", k, con[k], hd.is_active(k)));
        }
        let g = hd.get_offs_gain(k);
        if !close(g.0, og[k].0, 1e-5, 1e-5) || !close(g.1, og[k].1, 1e-5, 1e-5) {
            return Err(format!("offs-gain-wrong: input {} shows {:?} expected {:?}", k, g, og[k]));
        }
    }
    match (tsrc, hd.get_threshold()) {
        (0, None) => {}
        (1 | 2, Some(t)) if close(t, thr, 1e-5, 1e-5) => {}
        (_, t) => return Err(format!("threshold-wrong: shows {:?}, source {} threshold {}", t, tsrc, thr)),
    }
    if !trig_ok {
        pulses.clear();
    }
    for k in 0..3 {
        let x: Vec<f32> = match con[k] {
            Some(0) => il.clone(),
            Some(_) => ir.clone(),
            None => vec![consts[k]; total],
        };
        let ent: Vec<(f32, f32)> = (0..N).map(|i| hd.read(k, i)).collect();
        if over {
            // starts of the records
            let mut starts = vec![0usize];
            if tsrc == 0 {
                while starts.last().unwrap() + rec < total {
                    starts.push(starts.last().unwrap() + rec);
                }
            } else {
                for p in &pulses {
                    starts.push(p + 1);
                }
            }
            for j in 0..N {
                // the latest record that has reached this entry
                let st = starts.iter().rev().find(|st| **st + j / cc < total);
                let want = match st {
                    Some(st) => x[st + j / cc],
                    None => 0.0,
                };
                if !close(ent[j].0, want, 1e-5, 1e-5) || !close(ent[j].1, want, 1e-5, 1e-5) {
                    return Err(format!("scope-wrong: input {} entry {} shows {:?} expected {} ({} entries per sample, records start at {:?})", k, j, ent[j], want, cc, starts));
                }
            }
            if total > 3 {
                c.nontrivial = true;
            }
        } else {
            let (start, open) = if tsrc == 0 {
                let r = total / ((N as f64 * spb) as usize + 1);
                if r == 0 {
                    (0..1, false)
                } else {
                    let st = (r as f64 * N as f64 * spb) as usize;
                    (st.saturating_sub(2 + 2 * r)..st + 4 + 2 * r, true)
                }
            } else {
                match pulses.last() {
                    Some(p) => (p + 1..p + 2, false),
                    None => (0..1, false),
                }
            };
            // how many entries of the current record are there for sure
            let have = (((total as f64 - start.end as f64) / spb) as isize - 2).clamp(0, N as isize) as usize;
            if have > 3 {
                c.nontrivial = true;
            }
            let ends = match windows_fit(&ent[..have], &x, start.clone(), spb, open) {
                Ok(v) => v,
                Err(j) => {
                    return Err(format!(
                        "scope-wrong: input {} entry {} shows {:?}: no consecutive windows of {} samples starting in {:?}",
                        k, j, ent[j], spb, start
                    ))
                }
            };
            let _ = ends;
            // never written
            if tsrc == 0 && total < (N as f64 * spb) as usize {
                let first = (total as f64 / spb) as usize + 3;
                for j in first.min(N)..N {
                    if ent[j] != (0.0, 0.0) {
                        return Err(format!("scope-extra: input {} entry {} shows {:?} although that time has not come", k, j, ent[j]));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn p15() -> Prop {
    Prop {
        id: "P15",
        level: "exploration",
        rule: "non-trivial: an output that sounds and is not zero was compared (outfb), a complete window of a moving signal was compared (monitor), at least four scope entries were determined (scope)",
        assumptions: &[
            "monitor windows are compared after the monitor thread took all blocks (at most 4 s) and with fewer blocks in flight than it has buffers",
            "scope: record and window borders may be off by the rounding of the time base (3 samples); triggers are pulses that come while the scope waits",
        ],
        subs: vec![sub("outfb", 1500, 60000, outfb), sub("monitor", 1200, 20000, monitor), sub("scope", 4000, 150000, scope)],
    }
}
