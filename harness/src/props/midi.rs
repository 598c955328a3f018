// P13: MIDI events take effect exactly once, in order, at their sample.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use hexodsp::nodes::EventWindowing;
use hexodsp::*;
use std::collections::VecDeque;
use synfx_dsp::{GateSignal, SlewValue, TrigSignal};

/// absolute time, event
type Ev = (usize, HxMidiEvent);

/// Reference of the note node. The gate is high from the note-on sample up to and including the note-off
/// sample; a note-on that finds the gate high one sample before (or at) it pauses the gate for one sample.
struct NoteRef {
    chan: u8,
    mode: i64,
    note: u8,
    vel: f32,
    /// gate as it was in the previous sample
    was: bool,
    /// switches on / off with the coming sample
    on_next: bool,
    off_next: bool,
    trig: TrigSignal,
    gate: GateSignal,
}

impl NoteRef {
    fn new(chan: u8, mode: i64, sr: f32) -> Self {
        let mut trig = TrigSignal::new();
        let mut gate = GateSignal::new();
        trig.set_sample_rate(sr);
        gate.set_sample_rate(sr);
        NoteRef { chan, mode, note: 0, vel: 0.0, was: false, on_next: false, off_next: false, trig, gate }
    }
    /// (pitch without detune, gate, velocity)
    fn next(&mut self, evs: &[HxMidiEvent], glen: f32) -> (f32, f32, f32) {
        let before = self.was;
        let mut cur = self.was;
        if self.on_next {
            cur = true;
        } else if self.off_next {
            cur = false;
        }
        self.on_next = false;
        self.off_next = false;
        let held = before;
        for e in evs {
            match e {
                HxMidiEvent::NoteOn { channel, note, vel } if *channel == self.chan => {
                    if cur || held {
                        // pause for one sample
                        self.on_next = true;
                        cur = false;
                    } else {
                        cur = true;
                        self.on_next = false;
                    }
                    self.off_next = false;
                    self.trig.trigger();
                    self.gate.trigger();
                    self.note = *note;
                    self.vel = *vel;
                }
                HxMidiEvent::NoteOff { channel, note } if *channel == self.chan => {
                    if *note == self.note {
                        self.off_next = true;
                        self.on_next = false;
                    }
                }
                _ => {}
            }
        }
        let g = match self.mode {
            1 => self.trig.next(),
            2 => {
                if self.on_next {
                    cur = false;
                    0.0
                } else {
                    let g = self.gate.next(glen);
                    cur = g > 0.0;
                    g
                }
            }
            _ => {
                if cur {
                    1.0
                } else {
                    0.0
                }
            }
        };
        self.was = cur;
        ((self.note as f32 - 69.0) / 120.0, g, self.vel)
    }
}

struct CcRef {
    chan: u8,
    cc: [u8; 3],
    val: [f32; 3],
    slew: [SlewValue<f32>; 3],
}
impl CcRef {
    fn new(chan: u8, cc: [u8; 3], sr: f32) -> Self {
        let mk = || {
            let mut s = SlewValue::new();
            s.set_sample_rate(sr);
            s
        };
        CcRef { chan, cc, val: [0.0; 3], slew: [mk(), mk(), mk()] }
    }
    fn next(&mut self, evs: &[HxMidiEvent], slew_ms: f32) -> [f32; 3] {
        for e in evs {
            if let HxMidiEvent::CC { channel, cc, value } = e {
                if *channel == self.chan {
                    for k in 0..3 {
                        if self.cc[k] == *cc {
                            self.val[k] = *value;
                        }
                    }
                }
            }
        }
        let mut o = [0.0; 3];
        for k in 0..3 {
            o[k] = self.slew[k].next(self.val[k], slew_ms);
        }
        o
    }
}

pub fn gen_event(s: &mut Src, chans: &[u8], notes: &[u8], ccs: &[u8]) -> HxMidiEvent {
    let channel = if s.chance(1, 8) { s.below(16) as u8 } else { s.pickc(chans) };
    match s.weighted(&[5, 4, 4]) {
        0 => HxMidiEvent::NoteOn { channel, note: s.pickc(notes), vel: s.unit() },
        1 => HxMidiEvent::NoteOff { channel, note: s.pickc(notes) },
        _ => HxMidiEvent::CC { channel, cc: if s.chance(1, 8) { s.below(128) as u8 } else { s.pickc(ccs) }, value: s.unit() },
    }
}

/// random gaps: bursts in one sample, neighbours, far apart
fn gen_evs(s: &mut Src, span: usize, k: usize, chans: &[u8], notes: &[u8], ccs: &[u8]) -> Vec<Ev> {
    let mut t = s.below(20);
    let mut v = vec![];
    for _ in 0..k {
        t += match s.weighted(&[3, 3, 2, 2]) {
            0 => 0,
            1 => 1,
            2 => s.usz(2, 6),
            _ => s.usz(2, (span / 6).max(4)),
        };
        if t >= span {
            break;
        }
        v.push((t, gen_event(s, chans, notes, ccs)));
    }
    v
}

fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 44100.0, 48000.0, 96000.0, 22050.0]);
    let nn = s.usz(1, 3);
    let nchan = s.usz(1, 3);
    let chans: Vec<u8> = (0..nchan).map(|_| if s.bool() { 0 } else { s.below(16) as u8 }).collect();
    let notes: Vec<u8> = { let k = s.usz(1, 4); (0..k).map(|_| s.below(128) as u8).collect() };
    let ccs: Vec<u8> = { let k = s.usz(1, 4); (0..k).map(|_| s.below(128) as u8).collect() };
    let mut l = Layout::new(3, 5);
    let mut e = Eng::with_sr(3, 5, sr);
    let mut nref = vec![];
    let mut cref = vec![];
    let mut glen = vec![];
    let mut det = vec![];
    let mut slew = vec![];
    let inst = s.usz(0, 3);
    for i in 0..nn {
        let mp = NodeId::MidiP((inst + i) as u8);
        let cc = NodeId::MidiCC((inst + i) as u8);
        let ch = s.pickc(&chans);
        let mode = s.below(3) as i64;
        let chp = s.pickc(&chans);
        let cset = [s.pickc(&ccs), s.pickc(&ccs), s.pickc(&ccs)];
        set_i(&mut e.m, mp, "chan", ch as i64);
        set_i(&mut e.m, mp, "gmode", mode);
        let g = s.pickc(&[0.2f32, 1.0, 3.0, 10.0]);
        set_denorm(&mut e.m, mp, "glen", g);
        let d = if s.bool() { 0.0 } else { s.f(-0.2, 0.2) };
        set(&mut e.m, mp, "det", d);
        set_i(&mut e.m, cc, "chan", chp as i64);
        for (k, n) in ["cc1", "cc2", "cc3"].iter().enumerate() {
            set_i(&mut e.m, cc, n, cset[k] as i64);
        }
        let sl = if s.chance(2, 3) { 0.0 } else { s.pickc(&[1.0f32, 5.0, 30.0]) };
        set_denorm(&mut e.m, cc, "slew", sl);
        let pg = mp.inp_param("glen").unwrap();
        glen.push(pg.denorm(pg.norm(g)));
        let pg = cc.inp_param("slew").unwrap();
        slew.push(pg.denorm(pg.norm(sl)));
        det.push(d);
        c.note(|| format!("{} chan {} mode {} glen {} det {}; {} chan {} ccs {:?} slew {}", mp, ch, mode, g, d, cc, chp, cset, sl));
        nref.push(NoteRef::new(ch, mode, sr));
        cref.push(CcRef::new(chp, cset, sr));
        l.cells.insert((0, i), MCell { node: mp, ins: [None; 3], outs: [None; 3] });
        l.cells.insert((2, i), MCell { node: cc, ins: [None; 3], outs: [None; 3] });
    }
    // one output of a note node on the left, one of a controller node on the right channel
    let (on, oo) = (s.below(nn), s.below(3));
    let (cn, co) = (s.below(nn), s.below(3));
    l.cells.insert((0, 3), MCell { node: NodeId::MidiP((inst + on) as u8), ins: [None; 3], outs: [None, None, Some(oo as u8)] });
    l.cells.insert((0, 4), MCell { node: NodeId::Out(0), ins: [Some(0), None, None], outs: [None; 3] });
    l.cells.insert((2, 3), MCell { node: NodeId::MidiCC((inst + cn) as u8), ins: [None; 3], outs: [None, None, Some(co as u8)] });
    l.cells.insert((2, 4), MCell { node: NodeId::Out(0), ins: [Some(1), None, None], outs: [None; 3] });
    e.m.change_matrix(|m| l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    let span = s.usz(20, 700);
    let k = if s.chance(1, 12) { 480 } else { s.pickc(&[3usize, 10, 30, 150]) };
    let evs = if s.chance(1, 25) {
        // a crowd in one block, only notes or only controllers
        let cc = s.bool();
        let k = s.usz(100, if cc { 1000 } else { 500 });
        c.label("crowd");
        let mut v: Vec<Ev> = vec![];
        let span = span.min(128);
        for _ in 0..4 * k {
            if v.len() >= k {
                break;
            }
            let ev = gen_event(s, &chans, &notes, &ccs);
            if matches!(ev, HxMidiEvent::CC { .. }) == cc {
                v.push((v.len() * span / k, ev));
            }
        }
        v
    } else {
        gen_evs(s, span, k, &chans, &notes, &ccs)
    };
    c.note(|| format!("sr {} events {:?}; left: midip {} out {}, right: midicc {} out {}", sr, evs, on, oo, cn, co));
    let mut q: VecDeque<Ev> = evs.iter().copied().collect();
    let mut t = 0;
    let mut used = 0;
    let bs_kind = s.below(3);
    while t < span {
        let n = match bs_kind {
            0 => 128,
            1 => s.usz(1, 12),
            _ => s.usz(1, 128),
        }
        .min(span - t);
        let mut inj = vec![];
        if s.chance(1, 8) {
            let ki = s.usz(1, 5);
            for _ in 0..ki {
                let ev = gen_event(s, &chans, &notes, &ccs);
                e.m.inject_midi_event(ev);
                inj.push(ev);
            }
            c.note(|| format!("inject before frame {}: {:?}", t, inj));
            c.label("injected");
        }
        let mut be: Vec<HxTimedEvent> = vec![];
        let mut per: Vec<Vec<HxMidiEvent>> = vec![vec![]; n];
        per[0].extend(inj);
        while let Some((x, ev)) = q.front().copied() {
            if x >= t + n {
                break;
            }
            q.pop_front();
            be.push(HxTimedEvent::new_timed(x - t, ev));
            per[x - t].push(ev);
            used += 1;
        }
        let z = vec![0.0; n];
        let (ol, or) = e.block_ev(n, &z, &z, &be);
        let mut last = vec![];
        let mut lastc = vec![];
        for f in 0..n {
            last.clear();
            lastc.clear();
            for i in 0..nn {
                let (p, g, v) = nref[i].next(&per[f], glen[i]);
                last.push([p + det[i], g, v]);
                lastc.push(cref[i].next(&per[f], slew[i]));
            }
            if !close(ol[f], last[on][oo], 1e-5, 1e-5) {
                return Err(format!("note-{}: frame {} of note node {} gives {} but expected {}", ["freq", "gate", "vel"][oo], t + f, on, ol[f], last[on][oo]));
            }
            if !close(or[f], lastc[cn][co], 1e-5, 1e-5) {
                return Err(format!("cc: frame {} of controller node {} output {} gives {} but expected {}", t + f, cn, co, or[f], lastc[cn][co]));
            }
        }
        e.m.update_output_feedback();
        for i in 0..nn {
            for o in 0..3u8 {
                if let Some(v) = e.m.out_fb_for(&NodeId::MidiP((inst + i) as u8), o) {
                    if !close(v, last[i][o as usize], 1e-5, 1e-5) {
                        return Err(format!("note-{}: last frame before {} of note node {} gives {} but expected {}", ["freq", "gate", "vel"][o as usize], t + n, i, v, last[i][o as usize]));
                    }
                }
                if let Some(v) = e.m.out_fb_for(&NodeId::MidiCC((inst + i) as u8), o) {
                    if !close(v, lastc[i][o as usize], 1e-5, 1e-5) {
                        return Err(format!("cc: last frame before {} of controller node {} output {} gives {} but expected {}", t + n, i, o, v, lastc[i][o as usize]));
                    }
                }
            }
        }
        t += n;
    }
    c.nontrivial = used >= 2;
    c.label(if used >= 30 { "events>=30" } else { "events<30" });
    Ok(())
}

/// splitting the event list of a large host buffer into blocks
fn windows(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut w = EventWindowing::new();
    let bufs = s.usz(1, 3);
    for _ in 0..bufs {
        let total = s.usz(1, 1024);
        let k = s.usz(0, 30);
        let mut evs = gen_evs(s, total, k, &[0, 3], &[60, 61, 62], &[1, 2]);
        if s.chance(1, 6) && evs.len() > 1 {
            // a host that delivers out of order
            let (i, j) = (s.below(evs.len()), s.below(evs.len()));
            evs.swap(i, j);
            c.label("unsorted");
        }
        c.note(|| format!("buffer {} events {:?}", total, evs));
        let mut i = 0;
        let mut got: Vec<(usize, usize, usize, HxMidiEvent)> = vec![];
        let mut t = 0;
        while t < total {
            let n = s.usz(1, 128).min(total - t);
            loop {
                if w.feed_me() {
                    if i < evs.len() {
                        w.feed(HxTimedEvent::new_timed(evs[i].0, evs[i].1));
                        i += 1;
                    }
                }
                match w.next_event_in_range(t, n) {
                    Some(_) if got.len() > evs.len() => return Err("endless: more events come out than went in".into()),
                    Some(ev) => {
                        // the offset is only visible through the event pointer
                        let b = [ev];
                        let mut p = hexodsp::nodes::MidiEventPointer::new(&b);
                        let off = (0..n).find(|f| p.next_at(*f).is_some());
                        match off {
                            Some(o) => got.push((t, n, t + o, ev.kind())),
                            None => return Err(format!("outside: an event handed out for the block of {} frames at {} lies behind it", n, t)),
                        }
                    }
                    None => break,
                }
            }
            t += n;
        }
        if got.len() != evs.len() {
            return Err(format!("count: {} events in, {} out", evs.len(), got.len()));
        }
        for (g, e) in got.iter().zip(evs.iter()) {
            if format!("{:?}", g.3) != format!("{:?}", e.1) {
                return Err(format!("order: {:?} came out where {:?} is due", g.3, e.1));
            }
            let due = e.0.max(g.0);
            if g.2 != due {
                return Err(format!("time: event due at {} took effect at {}", due, g.2));
            }
        }
        c.nontrivial = evs.len() > 1;
    }
    Ok(())
}

pub fn p13() -> Prop {
    Prop {
        id: "P13",
        level: "exploration",
        rule: "history: one to three note and controller nodes with random channels, gate modes, lengths, detune, controller numbers and slews at several sample rates; random event lists (bursts in one sample, neighbouring samples, foreign channels) cut into random blocks plus injected events; every frame of two outputs and the last frame of all outputs of each block compared with a reference. windows: event lists of host buffers cut into blocks by EventWindowing come out once, in order, at their time. Non-trivial = at least two events took effect.",
        assumptions: &["at most 64 injected events per block, 512 notes and 1024 controller events per block", "events of one block are sorted by time (history)", "pulse shapes and slew come from the external crate synfx-dsp and are used as reference"],
        subs: vec![sub("history", 30000, 200000, history), sub("windows", 40000, 500000, windows)],
    }
}
