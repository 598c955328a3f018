// P14: feedback writer/reader pairs are a constant delay.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::*;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wr {
    None,
    /// the engine's input channel
    Inp(usize),
    /// the input plus what the own reader gives
    Loop(usize),
    /// what the reader of another pair gives
    Cross(usize),
}

#[derive(Clone, Debug)]
struct Conf {
    wr: Vec<Wr>,
    /// reader present in the graph
    rd: Vec<bool>,
    /// which pair's reader is heard on the left and right
    hear: [Option<usize>; 2],
}

fn gen_conf(s: &mut Src, n: usize) -> Conf {
    let mut wr = vec![];
    for _ in 0..n {
        wr.push(match s.weighted(&[4, 2, 1, 1]) {
            0 => Wr::Inp(s.below(2)),
            1 => Wr::Loop(s.below(2)),
            2 => Wr::Cross(s.below(n)),
            _ => Wr::None,
        });
    }
    let mut rd = vec![false; n];
    let mut hear = [None, None];
    for h in hear.iter_mut() {
        if !s.chance(1, 6) {
            let k = s.below(n);
            *h = Some(k);
            rd[k] = true;
        }
    }
    for k in 0..n {
        match wr[k] {
            Wr::Loop(_) => rd[k] = true,
            Wr::Cross(j) => rd[j] = true,
            _ => {}
        }
        if s.chance(1, 4) {
            rd[k] = true;
        }
    }
    Conf { wr, rd, hear }
}

/// vertical chains, stacked in random order
fn layout(s: &mut Src, c: &Conf, ids: &[u8], w: usize, h: usize) -> Layout {
    let inp = NodeId::Inp(0);
    let sig = |ch: usize| (inp, Some(ch as u8));
    let mut chains: Vec<[(NodeId, Option<u8>, Option<u8>); 2]> = vec![];
    let mut link = |a: (NodeId, Option<u8>), b: (NodeId, Option<u8>)| {
        chains.push([(a.0, None, a.1), (b.0, b.1, None)]);
    };
    for (k, wr) in c.wr.iter().enumerate() {
        let fw = (NodeId::FbWr(ids[k]), Some(0));
        let fr = |k: usize| (NodeId::FbRd(ids[k]), Some(0));
        match wr {
            Wr::None => {}
            Wr::Inp(ch) => link(sig(*ch), fw),
            Wr::Cross(j) => link(fr(*j), fw),
            Wr::Loop(ch) => {
                let m = NodeId::Mix3(ids[k]);
                link(sig(*ch), (m, Some(0)));
                link(fr(k), (m, Some(1)));
                link((m, Some(0)), fw);
            }
        }
    }
    for ch in 0..2 {
        if let Some(k) = c.hear[ch] {
            link((NodeId::FbRd(ids[k]), Some(0)), (NodeId::Out(0), Some(ch as u8)));
        }
    }
    for k in 0..ids.len() {
        if c.rd[k] && s.bool() {
            // stands around alone as well
            chains.push([(NodeId::FbRd(ids[k]), None, None), (NodeId::Nop, None, None)]);
        }
    }
    let mut l = Layout::new(w, h);
    // random order of the chains
    for i in (1..chains.len()).rev() {
        let j = s.below(i + 1);
        chains.swap(i, j);
    }
    let (mut x, mut y) = (0, 0);
    let colh = s.usz(2, h / 2 * 2) / 2 * 2;
    for ch in chains {
        if y + 2 > colh {
            y = 0;
            x += 1;
        }
        for (i, (n, a, b)) in ch.iter().enumerate() {
            if *n != NodeId::Nop {
                l.cells.insert((x, y + i), MCell { node: *n, ins: [*a, None, None], outs: [None, None, *b] });
            }
        }
        y += 2;
    }
    // readers that nobody needs must still be somewhere
    for k in 0..ids.len() {
        let n = NodeId::FbRd(ids[k]);
        if c.rd[k] && !l.cells.values().any(|m| m.node == n) {
            l.cells.insert((x + 1, k), MCell { node: n, ins: [None; 3], outs: [None; 3] });
        }
    }
    l
}

fn pair(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let rates = [44100.0f32, 48000.0, 88200.0, 96000.0, 176400.0, 192000.0, 352800.0, 384000.0];
    let mut sr = s.pickc(&rates);
    let (w, h) = (16, 8);
    let mut e = Eng::with_sr(w, h, sr);
    let n = s.usz(1, 3);
    let mut ids: Vec<u8> = vec![];
    while ids.len() < n {
        let i = if s.chance(1, 3) { s.below(200) as u8 } else { s.below(4) as u8 };
        if !ids.contains(&i) {
            ids.push(i);
        } else {
            let mut j = 0;
            while ids.contains(&j) {
                j += 1;
            }
            ids.push(j);
        }
    }
    let nseg = s.usz(1, 6);
    let mut t = 0usize;
    // what the reader of a pair gives at a time; NAN: not known
    let mut slots: Vec<HashMap<usize, f32>> = vec![HashMap::new(); n];
    let mut rd_since: Vec<Option<usize>> = vec![None; n];
    let mut ever: Vec<bool> = vec![false; n];
    let mut checked = 0;
    let mut mag = 1.0f32;
    let mut prev: Option<Conf> = None;
    for seg in 0..nseg {
        let cf = match (&prev, s.below(4)) {
            (Some(p), 0) => p.clone(),
            _ => gen_conf(s, n),
        };
        let l = layout(s, &cf, &ids, w, h);
        if seg > 0 && s.chance(1, 6) {
            e.m.clear();
            c.label("clear");
        }
        if seg > 0 && s.chance(1, 4) {
            sr = s.pickc(&rates);
            e.ex.set_sample_rate(sr);
            c.label("rate-change");
            c.note(|| format!("rate {}", sr));
        }
        let d = (sr as f64 * 3.14 / 1000.0) as usize;
        e.m.change_matrix(|m| {
            for x in 0..w {
                for y in 0..h {
                    m.place(x, y, Cell::empty(NodeId::Nop));
                }
            }
            l.place_into(m)
        })
        .map_err(|x| format!("refused: {:?} {}", x, l.show()))?;
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
        c.note(|| format!("t {} rate {} delay {} pairs {:?} {:?} layout {}", t, sr, d, ids, cf, l.show()));
        for k in 0..n {
            if cf.rd[k] {
                if rd_since[k].is_none() {
                    rd_since[k] = Some(t);
                }
            } else {
                rd_since[k] = None;
            }
        }
        let len = s.usz(1, 900);
        let sl = gen_signal(s, len);
        let sr_ = gen_signal(s, len);
        let bs = gen_blocks(s);
        let (ol, or) = e.run_blocks(&sl, &sr_, &bs);
        for i in 0..len {
            let tt = t + i;
            let x = [sl[i], sr_[i]];
            let rd: Vec<f32> = (0..n)
                .map(|k| {
                    if !cf.rd[k] {
                        return f32::NAN;
                    }
                    match slots[k].get(&tt) {
                        Some(v) => *v,
                        // nothing was written for now: silence, if there can't be leftovers
                        None => {
                            if !ever[k] || tt >= rd_since[k].unwrap() + 5000 {
                                0.0
                            } else if rd_since[k] == Some(0) {
                                0.0
                            } else {
                                f32::NAN
                            }
                        }
                    }
                })
                .collect();
            for k in 0..n {
                let v = match cf.wr[k] {
                    Wr::None => continue,
                    Wr::Inp(ch) => x[ch],
                    Wr::Loop(ch) => x[ch] + rd[k],
                    Wr::Cross(j) => rd[j],
                };
                if !v.is_nan() {
                    mag = mag.max(v.abs());
                }
                slots[k].insert(tt + d, v);
            }
            for (ch, o) in [(0, &ol), (1, &or)] {
                let want = match cf.hear[ch] {
                    Some(k) => rd[k],
                    None => 0.0,
                };
                if want.is_nan() {
                    continue;
                }
                if cf.hear[ch].is_some() && want != 0.0 {
                    checked += 1;
                }
                if !close(o[i], want, 2e-5 * mag, 2e-5) {
                    return Err(format!(
                        "delay-wrong: channel {} at {} (segment {} +{}) is {} expected {} (delay {} at {} Hz, {:?})",
                        ch, tt, seg, i, o[i], want, d, sr, cf
                    ));
                }
            }
        }
        for k in 0..n {
            if cf.wr[k] != Wr::None {
                ever[k] = true;
            }
        }
        t += len;
        prev = Some(cf);
    }
    if checked > 100 {
        c.nontrivial = true;
    }
    Ok(())
}

/// the shared buffer itself: one writer, several readers, in any order within a block
fn shared(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let rates = [44100.0f32, 48000.0, 88200.0, 96000.0, 192000.0, 384000.0];
    let mut sr = s.pickc(&rates);
    let delay = |sr: f32| ((sr * 3.14) / 1000.0) as usize;
    let sfb = SharedFeedback::new(sr);
    let mut w = SharedFeedbackWriter::new(&sfb);
    let nr = s.usz(1, 4);
    let mut rs: Vec<_> = (0..nr).map(|_| SharedFeedbackReader::new(&sfb)).collect();
    let mut at: HashMap<usize, f32> = HashMap::new();
    let mut pos = if s.chance(1, 4) { s.raw(1 << 40) as usize } else { 0 };
    let mut heard = [0usize; 4];
    let blocks = s.usz(10, 60);
    c.note(|| format!("{} Hz {} readers from {} {} blocks", sr, nr, pos, blocks));
    let seed = s.raw(1 << 40);
    for b in 0..blocks {
        if s.chance(1, 20) {
            sr = s.pickc(&rates);
            w.set_sample_rate(sr);
            c.label("rate-change");
        }
        let n = if s.chance(1, 2) { 128 } else { s.usz(1, 128) };
        // who takes part in this block, and in which order
        let w_at = if s.chance(1, 8) { None } else { Some(s.below(nr + 1)) };
        for k in 0..=nr {
            if w_at == Some(k) {
                w.set_frame_pos(pos);
                for i in 0..n {
                    let v = (mix(seed ^ (b * 1000 + i) as u64) % 2001) as f32 / 1000.0 - 1.0;
                    w.write(v);
                    at.insert(pos + i + delay(sr), v);
                }
            }
            if k < nr && !s.chance(1, 8) {
                rs[k].set_frame_pos(pos);
                for i in 0..n {
                    let (g, e) = (rs[k].read(), at.get(&(pos + i)).copied().unwrap_or(0.0));
                    if g != e {
                        return Err(format!("shared-wrong: reader {} of {} at {} (block {} +{}) gives {} expected {} at {} Hz", k, nr, pos + i, b, i, g, e, sr));
                    }
                    if e != 0.0 {
                        heard[k] += 1;
                    }
                }
            }
        }
        pos += n;
    }
    c.nontrivial = heard[..nr].iter().all(|h| *h > 50);
    if nr > 1 {
        c.label("several-readers");
    }
    Ok(())
}

pub fn p14() -> Prop {
    Prop {
        id: "P14",
        level: "exploration",
        rule: "a case counts as non-trivial when more than 100 samples that passed through a feedback pair and are not zero were compared with the reference delay line (shared: more than 50 per reader)",
        assumptions: &["sample rates from 44.1 kHz up to 384 kHz (below 42 kHz the documentation allows a longer delay)", "what a reader gives for times at which its writer was not in the graph is only checked if it was in the graph all the time"],
        subs: vec![sub("pair", 20000, 1000000, pair), sub("shared", 40000, 4000000, shared)],
    }
}
