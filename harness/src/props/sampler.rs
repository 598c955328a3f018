// P16: the sampler plays exactly the loaded sample.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::props::patchio::scratch;
use hexodsp::*;
use std::sync::Arc;

fn g_inp() -> f32 {
    let p = NodeId::Inp(0).inp_param("vol").unwrap();
    p.denorm(p.as_atom_def().f())
}

/// the value of the cyclic signal x at a position, Catmull-Rom
fn at(x: &[f32], pos: f64) -> f64 {
    let n = x.len() as i64;
    let i = pos.floor() as i64;
    let f = pos - pos.floor();
    let g = |k: i64| x[(i + k).rem_euclid(n) as usize] as f64;
    let (m1, p0, p1, p2) = (g(-1), g(0), g(1), g(2));
    p0 + 0.5 * f * (p1 - m1 + f * (2.0 * m1 - 5.0 * p0 + 4.0 * p1 - p2 + f * (3.0 * (p0 - p1) + p2 - m1)))
}

struct Model {
    sr: f64,
    phase: f64,
    playing: bool,
    trig_hi: bool,
    last: f64,
    decay: f64,
    /// how far it went since the last start
    way: f64,
}

#[derive(Clone, Debug)]
struct Set {
    looped: bool,
    declick: bool,
    rev: bool,
    dc_ms: f64,
    /// sample rate, data
    data: Option<(f32, Vec<f32>)>,
}

enum Verdict {
    Val(f64, Vec<f64>),
    Unsure,
}

impl Model {
    fn tone(&self, x: &[f32], phase: f64, st: &Set) -> f64 {
        let l = x.len();
        if l == 0 {
            return 0.0;
        }
        let p = phase.rem_euclid(l as f64);
        let mut v = if st.rev { at(x, l as f64 - p) } else { at(x, p) };
        if st.declick {
            let ramp = st.dc_ms * self.sr / 1000.0;
            let (idx, rest) = (p.floor(), l as f64 - p.floor());
            if idx < ramp.ceil() {
                v *= idx / ramp;
            } else if rest < ramp.ceil() {
                v *= rest / ramp;
            }
        }
        v
    }
    fn step(&mut self, st: &Set, trig: f32, freq: f32, offs: f32, len: f32) -> Verdict {
        let Some((rate, x)) = &st.data else {
            self.last = 0.0;
            return Verdict::Val(0.0, vec![]);
        };
        if x.len() < 2 {
            self.last = 0.0;
            return Verdict::Val(0.0, vec![]);
        }
        if trig > 0.5 && !self.trig_hi {
            self.trig_hi = true;
            self.phase = 0.0;
            self.way = 0.0;
            self.decay = self.last;
            self.playing = true;
        } else if trig < 0.25 {
            self.trig_hi = false;
        }
        if st.looped {
            self.playing = true;
        }
        let n = x.len();
        let a = ((n as f64 * offs.abs().min(0.999999) as f64).floor() as usize).min(n);
        let k = ((n as f64 * len.abs().min(1.0) as f64).round() as usize).min(n - a);
        let sl = &x[a..a + k];
        let inc = (*rate as f64 / self.sr) * (freq / 440.0) as f64;
        let exact = (inc * 4096.0).fract() == 0.0 && (self.phase * 4096.0).fract() == 0.0;
        let eps = 3e-4 + self.way * 3e-7;
        let mut alts = vec![];
        let mut v = 0.0;
        if self.playing && !st.looped {
            if !exact && (self.phase - k as f64).abs() < 2.0 * eps {
                return Verdict::Unsure;
            }
            if self.phase >= k as f64 {
                self.playing = false;
            }
        }
        if self.playing {
            v = self.tone(sl, self.phase, st);
            if !exact {
                alts.push(self.tone(sl, self.phase + eps, st));
                alts.push(self.tone(sl, self.phase - eps, st));
            }
            if k > 0 {
                self.phase = self.phase.rem_euclid(k as f64) + inc;
                self.way += inc;
            }
        }
        if !st.declick || self.decay.abs() < 0.00001 {
            self.decay = 0.0;
        } else {
            self.decay *= 0.98;
            let d = self.decay;
            let f = |v: f64| (v + d).clamp(-1.0, 1.0);
            v = f(v);
            alts = alts.into_iter().map(f).collect();
        }
        self.last = v;
        Verdict::Val(v, alts)
    }
}

fn gen_data(s: &mut Src) -> (f32, Vec<f32>) {
    let rate = s.pickc(&[44100.0f32, 48000.0, 22050.0, 11025.0, 96000.0]);
    let n = match s.below(4) {
        0 => s.usz(2, 8),
        1 => s.usz(8, 100),
        _ => s.usz(100, 1500),
    };
    let x = match s.below(3) {
        0 => (0..n).map(|i| (i as f32 + 1.0) / n as f32).collect(),
        1 => {
            let k = s.f(1.0, 6.0);
            let ph = s.uni();
            (0..n).map(|i| ((i as f32 / n as f32 * k + ph) * std::f32::consts::TAU).sin() * 0.8).collect()
        }
        _ => (0..n).map(|_| s.f(-0.8, 0.8)).collect(),
    };
    (rate, x)
}

/// values that lie in the middle between two borders of an n sample long sample
fn gen_pos(s: &mut Src, n: usize, mid: f32) -> f32 {
    let v = (s.below(n.max(1)) as f32 + mid) / n.max(1) as f32;
    match s.weighted(&[4, 2, 1, 8, 1, 1]) {
        0 => 0.0,
        1 => 1.0,
        2 => 1.7,
        3 => v,
        4 => -v,
        _ => 1.0 - 1.0 / n as f32 + mid / n as f32,
    }
}

fn play(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0, 22050.0, 96000.0]);
    let mut e = Eng::with_sr(8, 4, sr);
    let inst = s.below(3) as u8;
    let (sm, inp0) = (NodeId::Sampl(inst), NodeId::Inp(0));
    let mut l = Layout::new(8, 4);
    // left input modulates one of them, right input triggers
    let modp = s.pickc(&["", "offs", "len", "freq", "det"]);
    l.cells.insert((0, 0), MCell { node: inp0, ins: [None; 3], outs: [None, None, Some(1)] });
    l.cells.insert((0, 1), MCell { node: sm, ins: [inp(sm, "trig"), None, None], outs: [None, None, Some(0)] });
    l.cells.insert((0, 2), MCell { node: NodeId::Out(0), ins: [Some(0), None, None], outs: [None; 3] });
    if modp != "" {
        l.cells.insert((4, 0), MCell { node: inp0, ins: [None; 3], outs: [None, None, Some(0)] });
        l.cells.insert((4, 1), MCell { node: sm, ins: [inp(sm, modp), None, None], outs: [None; 3] });
    }
    let d0 = gen_data(s);
    let n0 = d0.1.len();
    let mut st = Set { looped: s.bool(), declick: s.bool(), rev: s.bool(), dc_ms: 0.0, data: Some(d0) };
    let dcp = sm.inp_param("dcms").unwrap();
    let dcn = if s.bool() { dcp.norm(s.f(0.05, 6.0)) } else { s.uni() };
    e.m.set_param(dcp, SAtom::param(dcn));
    st.dc_ms = dcp.denorm(dcn) as f64;
    let fp = sm.inp_param("freq").unwrap();
    let freq = match s.below(4) {
        0 => 0.0,
        1 => s.pickc(&[0.1f32, -0.1, 0.2, -0.2]),
        _ => s.f(-0.25, 0.25),
    };
    let det = if s.chance(1, 3) { s.f(-0.2, 0.2) } else { 0.0 };
    let offs = gen_pos(s, n0, 0.5).clamp(0.0, 1.0);
    let len = if s.bool() { 1.0 } else { gen_pos(s, n0, 0.2).clamp(0.0, 1.0) };
    for (n, v) in [("freq", freq), ("det", det), ("offs", offs), ("len", len)] {
        set(&mut e.m, sm, n, v);
    }
    let show = |st: &Set| format!("loop {} declick {} ({} ms) reverse {} data {:?}", st.looped, st.declick, st.dc_ms, st.rev, st.data.as_ref().map(|d| (d.0, d.1.len(), d.1.iter().take(6).copied().collect::<Vec<_>>())));
    let put = |e: &mut Eng, st: &Set| {
        set_i(&mut e.m, sm, "pmode", if st.looped { 0 } else { 1 });
        set_i(&mut e.m, sm, "dclick", st.declick as i64);
        set_i(&mut e.m, sm, "dir", st.rev as i64);
    };
    let put_data = |e: &mut Eng, st: &Set, k: usize| {
        let p = sm.inp_param("sample").unwrap();
        match &st.data {
            Some((r, x)) => {
                let mut v = vec![*r];
                v.extend(x);
                e.m.set_param(p, SAtom::audio(&format!("s{}", k), Arc::new(v)));
            }
            None => e.m.set_param(p, SAtom::audio_unloaded("")),
        }
    };
    put(&mut e, &st);
    put_data(&mut e, &st, 0);
    e.m.change_matrix(|m| l.place_into(m)).map_err(|x| format!("refused: {:?}", x))?;
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    c.note(|| format!("rate {} {} freq {} det {} offs {} len {} modulated {:?}", sr, show(&st), freq, det, offs, len, modp));
    let mut m = Model { sr: sr as f64, phase: 0.0, playing: false, trig_hi: false, last: 0.0, decay: 0.0, way: 0.0 };
    let gi = g_inp();
    let bs = gen_blocks(s);
    let mut heard = 0;
    let segs = s.usz(1, 4);
    for sg in 0..segs {
        if sg > 0 {
            match s.below(6) {
                0 => st.looped = !st.looped,
                1 => st.declick = !st.declick,
                2 => st.rev = !st.rev,
                3 => {
                    let r = s.weighted(&[6, 1, 1]);
                    st.data = match r {
                        0 => Some(gen_data(s)),
                        1 => None,
                        _ => Some((44100.0, vec![0.5; s.below(2)])),
                    };
                    put_data(&mut e, &st, sg);
                }
                _ => {}
            }
            put(&mut e, &st);
            c.note(|| show(&st));
        }
        let total = s.usz(20, 900);
        let mut il = vec![0.0f32; total];
        let mut ir = vec![0.0f32; total];
        let mut i = 0;
        let nn = st.data.as_ref().map(|d| d.1.len()).unwrap_or(2);
        while i < total {
            let k = s.usz(1, 200);
            let v = match modp {
                "offs" => gen_pos(s, nn, 0.5) / gi,
                "len" => gen_pos(s, nn, 0.2) / gi,
                "freq" | "det" => s.f(-0.3, 0.3),
                _ => 0.0,
            };
            for j in i..(i + k).min(total) {
                il[j] = v;
            }
            i += k;
        }
        // trigger pulses
        let mut t = s.below(60);
        while t < total && s.chance(7, 8) {
            let k = s.usz(1, 30);
            for j in t..(t + k).min(total) {
                ir[j] = s.f(0.6, 1.0);
            }
            t += k + s.usz(1, 400);
        }
        let (o, _) = e.run_blocks(&il, &ir, &bs);
        for i in 0..total {
            let iv = il[i] * gi;
            let (mut f, mut d, mut of, mut le) = (freq, det, offs, len);
            match modp {
                "freq" => f = iv,
                "det" => d = iv,
                "offs" => of = iv,
                "len" => le = iv,
                _ => {}
            }
            let hz = fp.denorm(f + d);
            match m.step(&st, ir[i] * gi, hz, of, le) {
                Verdict::Unsure => {
                    c.label("stopped at an undecided sample");
                    return Ok(());
                }
                Verdict::Val(v, alts) => {
                    let ok = |v: f64| (o[i] as f64 - v).abs() < 3e-4;
                    if v != 0.0 {
                        heard += 1;
                    }
                    let lo = alts.iter().copied().fold(v, f64::min);
                    let hi = alts.iter().copied().fold(v, f64::max);
                    let between = (o[i] as f64) > lo - 3e-4 && (o[i] as f64) < hi + 3e-4;
                    if !ok(v) && m.way * 3e-7 > 0.01 {
                        c.label("stopped after a long way");
                        return Ok(());
                    }
                    if !ok(v) && !between {
                        return Err(format!("wrong-sample: segment {} sample {} is {} expected {} (next phase {}, playing {})", sg, i, o[i], v, m.phase, m.playing));
                    }
                }
            }
        }
    }
    if heard > 30 {
        c.nontrivial = true;
    }
    Ok(())
}

struct Dir(String);
impl Dir {
    fn new() -> Dir {
        let d = scratch("p16");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch dir");
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn wav(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let dir = Dir::new();
    let path = format!("{}/{}.wav", dir.0, s.pickc(&["a", "a b", "ü", "x.y"]));
    let channels = s.pickc(&[1u16, 2, 3, 6]);
    let rate = s.pickc(&[44100u32, 48000, 8000, 96000, 37]);
    let fmt = s.pickc(&[16u16, 0, 8, 24, 32]);
    let frames = match s.below(5) {
        0 => s.below(3),
        1 if rate == 37 => 37 * 60 + s.below(9),
        _ => s.usz(2, 400),
    };
    let spec = hound::WavSpec {
        channels,
        sample_rate: rate,
        bits_per_sample: if fmt == 0 { 32 } else { fmt },
        sample_format: if fmt == 0 { hound::SampleFormat::Float } else { hound::SampleFormat::Int },
    };
    c.note(|| format!("{:?} {} frames", spec, frames));
    let mut want: Vec<f32> = vec![rate as f32];
    {
        let mut w = hound::WavWriter::create(&path, spec).map_err(|x| format!("harness: {:?}", x))?;
        for f in 0..frames {
            for ch in 0..channels {
                let v = if fmt == 0 {
                    let v = s.bip();
                    w.write_sample(v).unwrap();
                    v as f64
                } else {
                    let hi = (1i64 << (fmt - 1)) - 1;
                    let v = match s.below(5) {
                        0 => hi,
                        1 => -hi - 1,
                        2 => 0,
                        _ => s.range(-hi - 1, hi),
                    };
                    w.write_sample(v as i32).unwrap();
                    v as f64 / (hi + 1) as f64
                };
                // the first channel is taken, at most a minute
                if ch == 0 && f < 60 * rate as usize {
                    want.push(v as f32);
                }
            }
        }
        w.finalize().unwrap();
    }
    let mut bytes = std::fs::read(&path).unwrap();
    let whole = bytes.len();
    // 0: intact; 1: shortened; 2: bytes changed; 3: missing; 4: something else
    let kind = s.weighted(&[6, 2, 3, 1, 1]);
    match kind {
        1 => {
            let n = s.below(bytes.len());
            bytes.truncate(n);
        }
        2 => {
            for _ in 0..s.usz(1, 4) {
                let head = s.chance(3, 4);
                let k = s.below(if head { bytes.len().min(60) } else { bytes.len() });
                bytes[k] = match s.below(3) {
                    0 => 0,
                    1 => 255,
                    _ => s.below(256) as u8,
                };
            }
        }
        4 => bytes = (0..s.below(200)).map(|_| s.below(256) as u8).collect(),
        _ => {}
    }
    if kind == 3 {
        std::fs::remove_file(&path).unwrap();
    } else {
        std::fs::write(&path, &bytes).unwrap();
    }
    let get = |a: &SAtom| -> Option<Vec<f32>> {
        match a {
            SAtom::AudioSample((p, Some(v))) if *p == path => Some(v.to_vec()),
            _ => None,
        }
    };
    let mut lib = hexodsp::SampleLibrary::new();
    let first = match lib.load(&path) {
        Ok(a) => Some(get(a).ok_or_else(|| format!("load-wrong: got {:?}", a))?),
        Err(_) => None,
    };
    match (kind, &first) {
        (0, None) => return Err(format!("load-refused: {:?} is not loaded", spec)),
        (0, Some(v)) => {
            if v.len() != want.len() {
                return Err(format!("load-wrong: {} values, expected {}", v.len(), want.len()));
            }
            for i in 0..v.len() {
                if !close(v[i], want[i], 1e-6, 1e-6) {
                    return Err(format!("load-wrong: value {} is {} expected {}; {:?}", i, v[i], want[i], spec));
                }
            }
            if want.len() > 2 {
                c.nontrivial = true;
            }
        }
        (1, Some(v)) => {
            // may only be accepted if the part that was taken is intact
            if v.len() > want.len() || (bytes.len() < whole && v.len() == want.len() && v.len() > 1 && channels == 1 && rate != 37) {
                return Err(format!("truncated-accepted: {} of {} bytes gave {} of {} values", bytes.len(), whole, v.len(), want.len()));
            }
        }
        (3, Some(_)) => return Err("missing-accepted: a missing file was loaded".into()),
        _ => {
            c.nontrivial = true;
        }
    }
    // changed bytes must not be able to produce endless data
    if let Some(v) = &first {
        if v.len() > bytes.len() + 1 {
            return Err(format!("load-wrong: {} bytes gave {} values", bytes.len(), v.len()));
        }
    }
    // the same again
    let again = lib.load(&path).ok().and_then(|a| get(a));
    let bits = |v: &Option<Vec<f32>>| v.as_ref().map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    if bits(&again) != bits(&first) {
        return Err("load-differs: loading the same file again gave something else".into());
    }
    // through the matrix
    let mut e = Eng::new(3, 3);
    let sm = NodeId::Sampl(0);
    e.m.place(0, 0, Cell::empty(sm).out(None, None, Some(0)));
    e.m.place(0, 1, Cell::empty(NodeId::Out(0)).input(Some(0), None, None));
    e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
    let sp = sm.inp_param("sample").unwrap();
    let prior = s.bool();
    if prior {
        // something else was there before
        e.m.set_param(sp, SAtom::audio("x", Arc::new(vec![44100.0, 0.5, 0.5, 0.5])));
        e.run(64);
    }
    e.m.set_param(sp, SAtom::audio_unloaded(&path));
    let err = e.m.pop_error();
    let (o, _) = e.run(64);
    match &first {
        Some(v) => {
            if let Some(x) = err {
                return Err(format!("spurious-error: {}", x));
            }
            let stored = e.m.get_param(&sp).and_then(|a| get(&a));
            if bits(&stored) != bits(&first) {
                return Err("stored-differs: the parameter holds something else than the file".into());
            }
            // every value is reproduced at its own rate
            if !prior && v.len() > 2 && v[0] == 44100.0 && v[1..].iter().all(|x| x.abs() <= 1.0) {
                for i in 0..64 {
                    let w = v[1 + i % (v.len() - 1)];
                    if !close(o[i], w, 1e-5, 1e-5) {
                        return Err(format!("plays-wrong: sample {} is {} expected {}", i, o[i], w));
                    }
                }
            }
        }
        None => {
            if !err.as_ref().map(|x| x.contains(path.as_str())).unwrap_or(false) {
                return Err(format!("no-error: a broken file is not reported ({:?})", err));
            }
            if o.iter().any(|v| *v != 0.0) {
                return Err("broken-audible: a broken file is not silent".into());
            }
        }
    }
    Ok(())
}

pub fn p16() -> Prop {
    Prop {
        id: "P16",
        level: "exploration",
        rule: "non-trivial: more than 30 audible samples were compared with the model (play), a file with at least two samples was loaded or a broken one was treated (wav)",
        assumptions: &[
            "offsets and lengths are generated away from the borders between two samples; the read position may be off by 0.0003 samples plus 3e-7 of the way it went unless the speed is a round number",
            "declick ramps are counted in samples of the file, as the node does",
        ],
        subs: vec![sub("play", 6000, 250000, play), sub("wav", 2500, 80000, wav)],
    }
}
