// P27: the audio callback takes no memory from the heap, gives none back, waits for nobody and prints nothing.
use super::slicing::*;
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::rt::{count, Deeds};
use crate::state::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;
use std::sync::Arc;

/// a function for the Rust1x1 nodes that owns memory
struct Fun(Vec<f32>);
impl DynamicNode1x1 for Fun {
    fn set_sample_rate(&mut self, sr: f32) {
        self.0[0] = 1.0 / sr;
    }
    fn process(&mut self, inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context) {
        let a = ctx.alpha_slice();
        for i in 0..out.len() {
            out[i] = inp[i] * 0.5 + a[i] * self.0[1 + i % 3];
        }
        ctx.led_value().set(self.0[1]);
    }
}

/// a value; the Sallen-Key type of the one filter may not end (known finding of P17)
fn gen_v(s: &mut Src, q: ParamId) -> SAtom {
    match (q.node_id(), q.name()) {
        (NodeId::FVaFilt(_), "ftype") => SAtom::setting(s.range(0, 1)),
        _ => gen_val(s, q),
    }
}

fn gen_sample(s: &mut Src) -> SAtom {
    let n = s.usz(0, 3000);
    let v = gen_signal(s, n.max(1));
    let mut w = vec![44100.0];
    w.extend(&v[..n]);
    SAtom::audio(&format!("s{}.wav", s.below(4)), Arc::new(w))
}

/// one callback of the host; everything that it needs is there before
fn callback(e: &mut Eng, n: usize, il: &[f32], ir: &[f32], ev: &[HxTimedEvent], ol: &mut [f32], or: &mut [f32]) -> Result<(), String> {
    let check = |what: &str, d: Deeds| {
        if d.allocs + d.frees > 0 {
            return Err(format!("{} {}: {} allocations, {} frees", what, d.place.replace(':', "."), d.allocs, d.frees));
        }
        if !d.printed.is_empty() {
            return Err(format!("{} prints: {:?}", what, d.printed));
        }
        Ok(())
    };
    let ex = &mut e.ex;
    let (_, d) = count(|| ex.process_graph_updates());
    check("updates", d)?;
    let mut i = 0;
    let (_, d) = count(|| {
        ex.feed_midi_events_from(|| {
            i += 1;
            ev.get(i - 1).copied()
        })
    });
    check("midi", d)?;
    let ins = [&il[..n], &ir[..n]];
    let mut outs = [&mut ol[..n], &mut or[..n]];
    let (_, d) = count(|| {
        let mut ctx = Context { nframes: n, output: &mut outs, input: &ins };
        ex.process(&mut ctx);
    });
    check("process", d)
}

fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut e = new_eng(s);
    play(s, c, &mut e, true)
}

pub fn new_eng(s: &mut Src) -> Eng {
    let (w, h) = (s.usz(2, 7), s.usz(2, 6));
    let sr = s.pickc(&[44100.0, 48000.0, 22050.0, 96000.0, 192000.0]);
    Eng::with_sr(w, h, sr)
}

/// a random life of an engine
pub fn play(s: &mut Src, c: &mut Ctx, e: &mut Eng, judge: bool) -> Result<(), String> {
    let (w, h) = e.m.size();
    let sr = e.sr;
    let pool = all_nodes();
    let att = s.usz(4, 30);
    let mut p = gen_patch(s, w, h, att, &pool, 3, 2);
    for (q, v) in p.vals.iter_mut() {
        if let (NodeId::FVaFilt(_), "ftype") = (q.node_id(), q.name()) {
            *v = SAtom::setting(v.i() & 1);
        }
    }
    c.note(|| format!("rate {} {}", sr, p.show()));
    let steps = s.usz(2, 12);
    let at = s.below(steps);
    let (mut ol, mut or) = (vec![0.0; 128], vec![0.0; 128]);
    let mut l = Layout::new(w, h);
    // the thread that frees what the callback hands over looks every 250 ms and has place for 512 things
    let mut garbage = 0;
    let mut kinds = std::collections::BTreeSet::new();
    for st in 0..steps {
        if st == at {
            p.apply(e)?;
            l = p.l.clone();
            kinds.insert("patch");
        }
        let k = match s.weighted(&[3, 4, 2, 1]) { 0 => 0, 1 => s.usz(1, 4), 2 => s.usz(5, 40), _ => s.usz(40, 120) };
        for _ in 0..k {
            if garbage > 380 {
                break;
            }
            match s.weighted(&[30, 8, 6, 3, 3, 4, 3, 3, 3, 1, 1, 3]) {
                0 => {
                    let mut ns = l.nodes();
                    ns.sort();
                    let n = if ns.is_empty() || s.chance(1, 6) { any_node(s, 3) } else { s.pickc(&ns) };
                    let ps: Vec<ParamId> = params_of(n).into_iter().chain(atoms_of(n)).collect();
                    if ps.is_empty() {
                        continue;
                    }
                    let smp: Vec<ParamId> = ps.iter().copied().filter(|q| matches!(q.as_atom_def(), SAtom::AudioSample(_))).collect();
                    let q = if !smp.is_empty() && s.chance(1, 3) { smp[0] } else { s.pickc(&ps) };
                    let v = if matches!(q.as_atom_def(), SAtom::AudioSample(_)) { gen_sample(s) } else { gen_v(s, q) };
                    c.note(|| format!("{}: set {} {}", st, n, q.name()));
                    if matches!(v, SAtom::AudioSample(_)) {
                        kinds.insert("sample");
                    }
                    kinds.insert(if q.is_atom() { "setting" } else { "param" });
                    garbage += q.is_atom() as usize;
                    e.m.set_param(q, v);
                }
                1 => {
                    let mut ns = l.nodes();
                    ns.sort();
                    if ns.is_empty() {
                        continue;
                    }
                    let n = s.pickc(&ns);
                    let ps = params_of(n);
                    if ps.is_empty() {
                        continue;
                    }
                    let q = s.pickc(&ps);
                    let v = if s.chance(2, 3) { Some(s.bip()) } else { None };
                    c.note(|| format!("{}: amount {} {} {:?}", st, n, q.name(), v));
                    garbage += 1;
                    e.m.set_param_modamt(q, v).map_err(|x| format!("modamt: {:?}", x))?;
                    kinds.insert("amount");
                }
                2 => {
                    let mut nl = l.clone();
                    for _ in 0..s.usz(1, 3) {
                        let q = (s.below(w), s.below(h));
                        if s.chance(1, 3) {
                            nl.cells.remove(&q);
                        } else {
                            let n = s.pickc(&pool).to_instance(s.usz(0, 3));
                            let cell = gen_cell(s, n, 5);
                            nl.cells.insert(q, cell);
                        }
                    }
                    if !nl.legal() {
                        continue;
                    }
                    c.note(|| format!("{}: edit {}", st, nl.show()));
                    garbage += 1;
                    e.m.change_matrix(|m| nl.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
                    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                    l = nl;
                    kinds.insert("edit");
                }
                3 => {
                    let q = (s.below(w), s.below(h));
                    if let Some(cell) = e.m.get_copy(q.0, q.1) {
                        c.note(|| format!("{}: monitor {:?}", st, q));
                        e.m.monitor_cell(cell);
                        kinds.insert("monitor");
                    }
                }
                4 => {
                    let i = s.below(4);
                    c.note(|| format!("{}: pattern {}", st, i));
                    if let Some(d) = e.m.get_pattern_data(i) {
                        let mut d = d.lock().unwrap();
                        let mut rows = d.rows();
                        for _ in 0..s.usz(1, 12) {
                            let o = gen_patop(s, rows);
                            if let PatOp::Rows(r) = o {
                                rows = r;
                            }
                            apply_patop(&mut d, &o);
                        }
                    }
                    garbage += 12;
                    for _ in 0..s.usz(1, 6) {
                        e.m.check_pattern_data(i);
                    }
                    kinds.insert("pattern");
                }
                5 => {
                    let i = s.below(4);
                    c.note(|| format!("{}: rust function {}", st, i));
                    garbage += 1;
                    e.m.set_dynamic_node1x1(i, Box::new(Fun(vec![0.1, s.bip(), 0.2, -0.3, 0.0])));
                    kinds.insert("rust");
                }
                6 => {
                    let ev = match s.below(3) {
                        0 => HxMidiEvent::NoteOn { channel: 0, note: s.below(128) as u8, vel: s.uni() },
                        1 => HxMidiEvent::NoteOff { channel: 0, note: s.below(128) as u8 },
                        _ => HxMidiEvent::CC { channel: 0, cc: s.below(128) as u8, value: s.uni() },
                    };
                    for _ in 0..s.pickc(&[1usize, 2, 70]) {
                        e.m.inject_midi_event(ev);
                        garbage += 1;
                    }
                    kinds.insert("midi");
                }
                7 => {
                    e.m.update_filters();
                    e.m.update_output_feedback();
                    e.m.handle_graph_events();
                    let _ = e.m.get_minmax_monitor_samples(s.below(6));
                }
                8 => {
                    c.note(|| format!("{}: sync", st));
                    garbage += 1;
                    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                }
                9 => {
                    c.note(|| format!("{}: clear", st));
                    e.m.clear();
                    garbage += 2;
                    l = Layout::new(w, h);
                    kinds.insert("clear");
                }
                10 => {
                    let sr = s.pickc(&[44100.0, 48000.0, 88200.0, 22050.0]);
                    c.note(|| format!("{}: rate {}", st, sr));
                    e.ex.set_sample_rate(sr);
                    kinds.insert("rate");
                }
                _ => {
                    let i = s.below(3);
                    let Some(b) = e.m.get_block_function(i) else { continue };
                    let mut ops = vec![];
                    {
                        let mut b = b.lock().unwrap();
                        let types = block_types(&b);
                        for _ in 0..s.usz(1, 8) {
                            let na = n_areas(&b);
                            let o = gen_blkop(s, &b, &types, na);
                            if matches!(o, BlkOp::Shift(..)) {
                                continue;
                            }
                            let _ = apply_blkop(&mut b, &o);
                            ops.push(o);
                        }
                    }
                    c.note(|| format!("{}: program {}: {:?}", st, i, ops));
                    if e.m.check_block_function(i).is_ok() {
                        kinds.insert("program");
                    }
                }
            }
        }
        for _ in 0..s.usz(1, 4) {
            let n = s.usz(1, 128);
            let (il, ir) = (gen_signal(s, n), gen_signal(s, n));
            let ne = match s.below(6) { 0 => s.usz(1, 8), 1 => s.usz(500, 1500), _ => 0 };
            let cc = s.bool();
            let ev: Vec<HxTimedEvent> = (0..ne)
                .map(|i| {
                    let t = i * n / ne.max(1);
                    if cc { HxTimedEvent::cc(t, 0, (i % 5) as u8, 0.4) } else if i % 2 == 0 { HxTimedEvent::note_on(t, 0, 60, 0.5) } else { HxTimedEvent::note_off(t, 0, 60) }
                })
                .collect();
            // the control side may hold on to everything that is shared
            let hold = s.chance(1, 3);
            let pats: Vec<_> = if hold { (0..4).filter_map(|i| e.m.get_pattern_data(i)).collect() } else { vec![] };
            let blks: Vec<_> = if hold { (0..3).filter_map(|i| e.m.get_block_function(i)).collect() } else { vec![] };
            let pl: Vec<_> = pats.iter().map(|p| p.lock()).collect();
            let bl: Vec<_> = blks.iter().map(|p| p.lock()).collect();
            if pl.len() + bl.len() > 0 {
                kinds.insert("locked");
            }
            let r = callback(e, n, &il, &ir, &ev, &mut ol, &mut or);
            if judge {
                r.map_err(|x| format!("{}, step {}", x, st))?;
            }
        }
    }
    c.nontrivial = kinds.len() >= 3 && l.nodes().len() + p.l.nodes().len() >= 3;
    for k in kinds {
        c.label(k);
    }
    Ok(())
}

pub fn p27() -> Prop {
    Prop {
        id: "P27",
        level: "exploration",
        rule: "Random patches and histories of parameter, setting, sample, amount, layout, pattern, program, monitor, MIDI and Rust function changes, clears and rates; every callback of the host (graph updates, MIDI feed, process) runs with a counting allocator and must neither allocate nor free, nor print, nor wait for a pattern or a program that the control side has locked. Non-trivial = at least three kinds of changes and three nodes.",
        assumptions: &["fewer than 400 things to free per history: the thread that frees them looks every 250 ms and its queue has place for 512", "changing the sample rate itself happens outside of the callback", "no logger is attached"],
        subs: vec![sub("history", 6000, 150000, history)],
    }
}
