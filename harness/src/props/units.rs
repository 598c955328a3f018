// P22: times and frequencies keep their unit at every sample rate.
use crate::eng::*;
use crate::fw::*;
use crate::patchgen::*;
use hexodsp::nodes::ExternalParams;
use hexodsp::*;
use std::sync::Arc;

/// (from, output, to, input)
pub type E = (NodeId, &'static str, NodeId, &'static str);

/// every connection as a pair of cells of its own
pub fn wire(m: &mut Matrix, edges: &[E]) {
    let (w, h) = m.size();
    for x in 0..w {
        for y in 0..h {
            m.place(x, y, Cell::empty(NodeId::Nop));
        }
    }
    for (i, (f, o, t, n)) in edges.iter().enumerate() {
        let (x, y) = (i / (h / 2), 2 * (i % (h / 2)));
        m.place(x, y, Cell::empty(*f).out(None, None, out(*f, o)));
        m.place(x, y + 1, Cell::empty(*t).input(inp(*t, n), None, None));
    }
}

const RATES: [f32; 7] = [44100.0, 48000.0, 88200.0, 96000.0, 176400.0, 192000.0, 32000.0];

/// An engine that runs the graph at `sr`, which it reached in one of several ways.
fn engine(s: &mut Src, c: &mut Ctx, sr: f32, edges: &[E], set: &dyn Fn(&mut Matrix)) -> Result<Eng, String> {
    let way = s.weighted(&[2, 3, 2, 2, 2, 1]);
    let r0 = *s.pick(&RATES);
    let k = s.usz(1, 400);
    c.label(["set-before", "changed-while-running", "changed-before-first-block", "changed-while-removed", "there-and-back", "default-then-set"][way]);
    c.note(|| format!("rate {} reached by way {} from {}", sr, way, r0));
    let mut e = match way {
        0 => Eng::with_sr(4, 8, sr),
        _ => Eng::with_sr(4, 8, r0),
    };
    let put = |e: &mut Eng| -> Result<(), String> {
        wire(&mut e.m, edges);
        e.m.sync().map_err(|x| format!("harness: {:?}", x))
    };
    let rate = |e: &mut Eng, r: f32| {
        e.ex.set_sample_rate(r);
        e.sr = r;
    };
    match way {
        0 => {
            set(&mut e.m);
            put(&mut e)?;
        }
        1 => {
            set(&mut e.m);
            put(&mut e)?;
            e.run(k);
            rate(&mut e, sr);
        }
        2 => {
            set(&mut e.m);
            put(&mut e)?;
            rate(&mut e, sr);
        }
        3 => {
            set(&mut e.m);
            put(&mut e)?;
            e.run(k);
            wire(&mut e.m, &[]);
            e.m.sync().map_err(|x| format!("harness: {:?}", x))?;
            e.run(k);
            rate(&mut e, sr);
            e.run(k);
            put(&mut e)?;
        }
        4 => {
            set(&mut e.m);
            put(&mut e)?;
            rate(&mut e, sr);
            e.run(k);
            rate(&mut e, r0);
            e.run(k);
            rate(&mut e, sr);
        }
        _ => {
            let (nc, mut ex) = new_node_engine();
            ex.no_logging();
            let m = Matrix::new(nc, 4, 8);
            e = Eng { m: std::mem::ManuallyDrop::new(m), ex: std::mem::ManuallyDrop::new(ex), sr };
            set(&mut e.m);
            put(&mut e)?;
            e.run(k);
            rate(&mut e, sr);
        }
    }
    e.upd();
    Ok(e)
}

fn pick_rate(s: &mut Src) -> f32 {
    *s.pick(&RATES)
}

/// complex amplitude of a frequency in y[at .. at + len], Hann window
fn dft(y: &[f32], at: usize, len: usize, w: f64) -> (f64, f64) {
    let (mut re, mut im, mut ws) = (0.0, 0.0, 0.0);
    for i in 0..len {
        let h = 0.5 - 0.5 * (std::f64::consts::TAU * (i as f64 + 0.5) / len as f64).cos();
        let (sn, cs) = (w * (at + i) as f64).sin_cos();
        re += h * y[at + i] as f64 * cs;
        im -= h * y[at + i] as f64 * sn;
        ws += h;
    }
    (2.0 * re / ws, 2.0 * im / ws)
}

/// Is `f` the frequency of the (periodic) signal?
fn has_freq(y: &[f32], sr: f32, f: f64, what: &str) -> Result<(), String> {
    let w = std::f64::consts::TAU * f / sr as f64;
    let l = y.len() / 2;
    let a = dft(y, 0, l, w);
    let b = dft(y, l, l, w);
    let mag = |x: (f64, f64)| (x.0 * x.0 + x.1 * x.1).sqrt();
    let rms = (y.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>() / y.len() as f64).sqrt();
    if mag(a) < 0.05 * rms || mag(b) < 0.05 * rms || rms < 1e-4 {
        return Err(format!("{}: there is no signal of {} Hz at rate {} (amplitude {:.5} of {:.5})", what, f, sr, mag(a), rms));
    }
    let mut d = b.1.atan2(b.0) - a.1.atan2(a.0);
    while d > std::f64::consts::PI {
        d -= std::f64::consts::TAU;
    }
    while d < -std::f64::consts::PI {
        d += std::f64::consts::TAU;
    }
    let df = d / (std::f64::consts::TAU * l as f64) * sr as f64;
    if df.abs() > f * 1e-3 {
        return Err(format!("{}: the frequency is {} Hz instead of {} Hz at rate {}", what, f + df, f, sr));
    }
    // not a multiple of the real frequency (above that aliases get in the way)
    if f > sr as f64 / 20.0 {
        return Ok(());
    }
    for k in [2.0, 3.0] {
        let s = mag(dft(y, 0, l, w / k));
        if s > 0.05 * rms {
            return Err(format!("{}: {} Hz is contained instead of {} Hz at rate {}", what, f / k, f, sr));
        }
    }
    Ok(())
}

pub const OUT: NodeId = NodeId::Out(0);
pub const INP: NodeId = NodeId::Inp(0);

fn osc(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let n = s.pickc(&[NodeId::Sin(0), NodeId::BOsc(0), NodeId::VOsc(0), NodeId::FormFM(0), NodeId::TsLFO(0), NodeId::BowStri(0)]);
    let lfo = matches!(n, NodeId::TsLFO(_));
    let bow = matches!(n, NodeId::BowStri(_));
    let f: f64 = match (lfo, bow) {
        (true, _) => 1000.0 / s.pickc(&[0.5, 1.0, 2.0, 5.0, 10.0, 20.0, 50.0, 120.0]),
        (_, true) => 60.0 * 2.0f64.powf(s.unit() as f64 * 3.0),
        _ => 30.0 * 2.0f64.powf(s.unit() as f64 * 7.6),
    };
    let det = if lfo { 0.0 } else { s.pickc(&[0.0f64, 12.0, -12.0, 7.0, -5.0, 0.5, 24.0]) };
    let (pf, fq) = if lfo {
        let p = n.inp_param("time").unwrap();
        let v = p.norm((1000.0 / f) as f32);
        (v, 1000.0 / p.denorm(v) as f64)
    } else {
        let p = n.inp_param("freq").unwrap();
        let v = p.norm(f as f32);
        (v, p.denorm(v) as f64 * 2.0f64.powf(det / 12.0))
    };
    // the other settings of the oscillator
    let wt = s.range(0, 3);
    let form = 1.05 + 0.8 * s.unit();
    if !lfo && (fq > 0.45 * sr as f64 || fq < 25.0) || (bow && fq > 600.0) {
        return Ok(());
    }
    let o: &'static str = "sig";
    let edges = [(n, o, OUT, "ch1")];
    c.note(|| format!("{} of {} Hz (det {}), waveform {}, form {}", n, fq, det, wt, form));
    let mut e = engine(s, c, sr, &edges, &|m| {
        if lfo {
            set(m, n, "time", pf);
        } else {
            set(m, n, "freq", pf);
            set(m, n, "det", (det / 120.0) as f32);
        }
        match n {
            NodeId::BOsc(_) => set_i(m, n, "wtype", wt),
            NodeId::FormFM(_) => set_denorm(m, n, "form", (fq as f32) * form),
            NodeId::TsLFO(_) => set(m, n, "rev", form - 1.0),
            _ => (),
        }
    })?;
    c.label(n.name());
    let per = sr as f64 / fq;
    let periods = if bow { 60.0 } else { 24.0 };
    let len = ((per * periods) as usize).clamp(3000, 400_000);
    // the string needs to settle
    e.run(if bow { (sr * 0.7) as usize } else { s.usz(0, 300) });
    let (y, _) = e.run(len);
    c.nontrivial = true;
    let mean = y.iter().map(|x| *x as f64).sum::<f64>() / y.len() as f64;
    let y: Vec<f32> = y.iter().map(|x| (*x as f64 - mean) as f32).collect();
    if bow {
        // best period by correlation, close to the wanted one
        let rms = y.iter().map(|x| x * x).sum::<f32>();
        if rms / (y.len() as f32) < 1e-10 {
            c.label("silent-string");
            c.nontrivial = false;
            return Ok(());
        }
        let lo = (per / 1.5) as usize;
        let hi = (per * 1.5) as usize + 1;
        let n = y.len() - hi;
        let mut best = (f32::MIN, 0);
        for lag in lo..=hi {
            let v: f32 = (0..n).map(|i| y[i] * y[i + lag]).sum();
            if v > best.0 {
                best = (v, lag);
            }
        }
        let cents = 1200.0 * (per / best.1 as f64).log2();
        let tol = 110.0 + 1200.0 * ((per + 1.0) / per).log2();
        if cents.abs() > tol {
            return Err(format!("bowed-string: {} Hz at rate {} instead of {} Hz ({:.1} cents)", sr as f64 / best.1 as f64, sr, fq, cents));
        }
        return Ok(());
    }
    has_freq(&y, sr, fq, n.name())
}

/// centre of gravity of y[a..b]
fn centroid(y: &[f32], a: usize, b: usize) -> Option<f64> {
    let (mut p, mut q) = (0.0f64, 0.0f64);
    for i in a..b.min(y.len()) {
        p += i as f64 * y[i] as f64;
        q += y[i] as f64;
    }
    if q.abs() < 1e-3 {
        None
    } else {
        Some(p / q)
    }
}

fn delay(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let kind = s.below(5);
    let n = [NodeId::Delay(0), NodeId::AllP(0), NodeId::Comb(0), NodeId::Comb(0), NodeId::PVerb(0)][kind];
    c.label(["Delay", "AllP", "Comb-feedback", "Comb-feedforward", "PVerb-predelay"][kind]);
    let max = if kind == 0 || kind == 4 { 300.0 } else { 150.0 };
    let t = 0.6 * (max / 0.6f32).powf(s.unit());
    let tp = if kind == 4 { "predly" } else { "time" };
    let p = n.inp_param(tp).unwrap();
    let v = p.norm(t);
    let d = p.denorm(v) as f64 * sr as f64 / 1000.0;
    c.note(|| format!("{} of {} ms = {} samples", n, p.denorm(v), d));
    let i: &'static str = if kind == 4 { "in_l" } else { "inp" };
    let o: &'static str = if kind == 4 { "sig_l" } else { "sig" };
    let edges = [(INP, "sig1", n, i), (n, o, OUT, "ch1")];
    let mut run = |s: &mut Src, c: &mut Ctx, v: f32| -> Result<Vec<f32>, String> {
        let mut e = engine(s, c, sr, &edges, &|m| {
            set(m, n, tp, v);
            match kind {
                0 => {
                    set(m, n, "mix", 1.0);
                    set(m, n, "fb", 0.0);
                }
                1 => set(m, n, "g", 0.0),
                2 | 3 => {
                    set(m, n, "g", 0.4);
                    set_i(m, n, "mode", (kind - 2) as i64);
                }
                _ => set(m, n, "mix", 1.0),
            }
        })?;
        e.run(s.usz(0, 300));
        let len = (d * 1.45) as usize + 64 + if kind == 4 { 30000 } else { 0 };
        let mut x = vec![0.0; len];
        x[0] = 1.0;
        Ok(e.run_in(&x, &x, 128).0)
    };
    let mut y = run(s, c, v)?;
    c.nontrivial = true;
    if kind == 4 {
        let z = run(s, c, 0.0)?;
        let first = |y: &[f32]| y.iter().position(|x| x.abs() > 1e-4);
        let (Some(a), Some(b)) = (first(&y), first(&z)) else { return Err("predelay: nothing is heard".to_string()) };
        let m = a as f64 - b as f64;
        if (m - d).abs() > 3.0 {
            return Err(format!("predelay: {} samples instead of {} at rate {}", m, d, sr));
        }
        return Ok(());
    }
    if kind == 2 || kind == 3 {
        for x in y.iter_mut().take(3) {
            *x = 0.0;
        }
    }
    let m = match centroid(&y, (d * 0.5) as usize, (d * 1.4) as usize + 8) {
        Some(m) => m,
        None => return Err(format!("delay: there is no echo after {} samples at rate {}", d, sr)),
    };
    if (m - d).abs() > 1.2 {
        return Err(format!("delay: {} samples instead of {} at rate {}", m, d, sr));
    }
    Ok(())
}

fn env(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let adsr = s.bool();
    let n = if adsr { NodeId::Adsr(0) } else { NodeId::Ad(0) };
    c.label(n.name());
    let mult = s.weighted(&[3, 1, 1]) as i64;
    let mf = [1.0f64, 10.0, 100.0][mult as usize];
    let mut time = |s: &mut Src, name: &str| -> (f32, f64) {
        let p = n.inp_param(name).unwrap();
        let t = 0.5 * 300.0f32.powf(s.unit());
        let v = p.norm((t as f64 / mf) as f32);
        (v, p.denorm(v) as f64 * mf * sr as f64 / 1000.0)
    };
    let (av, a) = time(s, "atk");
    let (dv, d) = time(s, "dcy");
    let (rv, r) = if adsr { time(s, "rel") } else { (0.0, 0.0) };
    let sus = s.f(0.2, 0.8);
    c.note(|| format!("{} attack {} decay {} release {} samples, mult {}", n, a, d, r, mult));
    let gate: &'static str = if adsr { "gate" } else { "trig" };
    let edges = [(INP, "sig1", n, gate), (n, "sig", OUT, "ch1"), (n, "eoet", OUT, "ch2")];
    let mut e = engine(s, c, sr, &edges, &|m| {
        set(m, n, "inp", 1.0);
        set(m, n, "atk", av);
        set(m, n, "dcy", dv);
        set_i(m, n, "mult", mult);
        if adsr {
            set(m, n, "rel", rv);
            set(m, n, "sus", sus);
        }
    })?;
    e.run(s.usz(1, 300));
    let hold = (a + d) as usize + s.usz(40, 1000);
    let len = hold + (if adsr { r } else { 0.0 }) as usize + (sr * 0.004) as usize + 100;
    let x: Vec<f32> = (0..len).map(|i| if i < if adsr { hold } else { 20 } { 1.0 } else { 0.0 }).collect();
    let (y, t) = e.run_in(&x, &x, 128);
    c.nontrivial = true;
    let tol = |x: f64| 3.0 + x * 1e-3;
    let chk = |what: &str, got: Option<usize>, want: f64| -> Result<(), String> {
        match got {
            Some(g) if (g as f64 - want).abs() <= tol(want) => Ok(()),
            g => Err(format!("{}: after {:?} samples instead of {} at rate {}", what, g, want, sr)),
        }
    };
    chk("attack", y.iter().position(|v| *v > 0.9999), a)?;
    let pulse = t.iter().position(|v| *v > 0.5);
    if adsr {
        // (linear ramps: the sustain level is met at the end of the decay)
        let at = a as usize + 5;
        chk("decay", y[at.min(y.len())..].iter().position(|v| *v < sus + 1e-4).map(|i| i + at), a + d)?;
        chk("release", y[hold..].iter().position(|v| *v < 1e-5), r)?;
        chk("end-trigger", pulse.and_then(|p| p.checked_sub(hold)), r)?;
    } else {
        let at = a as usize + 5;
        chk("decay", y[at..].iter().position(|v| *v < 1e-5).map(|i| i + at), a + d)?;
        chk("end-trigger", pulse, a + d)?;
    }
    let w = t.iter().filter(|v| **v > 0.5).count();
    chk("trigger-length", Some(w), sr as f64 * 0.002)
}

struct Ext(std::sync::Mutex<f32>);
impl ExternalParams for Ext {
    fn a1(&self) -> f32 {
        *self.0.lock().unwrap()
    }
    fn a2(&self) -> f32 {
        *self.0.lock().unwrap()
    }
    fn a3(&self) -> f32 {
        *self.0.lock().unwrap()
    }
}

fn slew(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let n = s.pickc(&[NodeId::MidiCC(0), NodeId::RndWk(0), NodeId::ExtA(0), NodeId::ExtB(0), NodeId::ExtC(0), NodeId::ExtD(0), NodeId::ExtE(0), NodeId::ExtF(0)]);
    let p = n.inp_param("slew").unwrap();
    let v = p.norm(0.5 * 400.0f32.powf(s.unit()));
    let d = p.denorm(v) as f64 * sr as f64 / 1000.0;
    let o: &'static str = match n {
        NodeId::RndWk(_) => "sig",
        _ => s.pickc(&["sig1", "sig2", "sig3"]),
    };
    let to = s.f(0.3, 1.0);
    c.note(|| format!("{} {} slew {} ms = {} samples to 1.0, step to {}", n, o, p.denorm(v), d, to));
    c.label(n.name());
    let mut edges: Vec<E> = vec![(n, o, OUT, "ch1")];
    if matches!(n, NodeId::RndWk(_)) {
        edges.push((INP, "sig1", n, "trig"));
    }
    let mut e = engine(s, c, sr, &edges, &|m| {
        set(m, n, "slew", v);
        match n {
            NodeId::RndWk(_) => {
                set(m, n, "step", 0.0);
                set(m, n, "offs", to);
            }
            NodeId::MidiCC(_) => {
                for k in ["cc1", "cc2", "cc3"] {
                    set_i(m, n, k, 5);
                }
            }
            _ => (),
        }
    })?;
    let ext = Arc::new(Ext(std::sync::Mutex::new(0.0)));
    e.ex.set_external_params(ext.clone());
    e.run(s.usz(1, 300));
    *ext.0.lock().unwrap() = to;
    let len = (d * to as f64 * 1.3) as usize + 200;
    let x = vec![1.0; len];
    let mut y = vec![];
    let mut first = true;
    while y.len() < len {
        let k = 128.min(len - y.len());
        let ev = if first { vec![HxTimedEvent::new_timed(0, HxMidiEvent::CC { channel: 0, cc: 5, value: to })] } else { vec![] };
        first = false;
        y.extend(e.block_ev(k, &x[..k], &x[..k], &ev).0);
    }
    c.nontrivial = true;
    let want = d * to as f64;
    let got = y.iter().position(|v| *v > to * 0.99999);
    match got {
        Some(g) if (g as f64 - want).abs() <= 3.0 + want * 2e-3 => Ok(()),
        g => Err(format!("slew-{}: {:?} samples instead of {} at rate {}", n.name(), g, want, sr)),
    }
}

fn pulse(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let kind = s.below(4);
    c.label(["Quant", "CQnt", "MidiP-trigger", "MidiP-gate"][kind]);
    let mut d = 0.002 * sr as f64;
    let n = [NodeId::Quant(0), NodeId::CQnt(0), NodeId::MidiP(0), NodeId::MidiP(0)][kind];
    let mut gv = 0.0;
    if kind == 3 {
        let p = n.inp_param("glen").unwrap();
        gv = p.norm(0.5 * 600.0f32.powf(s.unit()));
        d = p.denorm(gv) as f64 * sr as f64 / 1000.0;
    }
    let edges: Vec<E> = match kind {
        0 => vec![(INP, "sig1", n, "freq"), (n, "t", OUT, "ch1")],
        1 => vec![(INP, "sig1", n, "inp"), (n, "t", OUT, "ch1")],
        _ => vec![(n, "gate", OUT, "ch1")],
    };
    let mut e = engine(s, c, sr, &edges, &|m| {
        if kind >= 2 {
            set_i(m, n, "gmode", kind as i64 - 1);
        }
        if kind == 3 {
            set(m, n, "glen", gv);
        }
    })?;
    e.run((sr * 0.01) as usize);
    let len = (d * 1.3) as usize + 300;
    let at = s.usz(0, 127);
    c.note(|| format!("{} pulse of {} samples, event at {}", n, d, at));
    let mut y = vec![];
    let x: Vec<f32> = (0..len).map(|i| if i < at { 0.0 } else { 0.45 }).collect();
    while y.len() < len {
        let o = y.len();
        let k = 128.min(len - o);
        let ev = if o == 0 { vec![HxTimedEvent::new_timed(at, HxMidiEvent::NoteOn { channel: 0, note: 60, vel: 1.0 })] } else { vec![] };
        y.extend(e.block_ev(k, &x[o..o + k], &x[o..o + k], &ev).0);
    }
    c.nontrivial = true;
    let w = y.iter().filter(|v| **v > 0.5).count();
    if (w as f64 - d).abs() > 2.0 + d * 1e-3 {
        return Err(format!("pulse: {} samples instead of {} at rate {}", w, d, sr));
    }
    Ok(())
}

/// The gain of a filter at a frequency is the one that it has at 192 kHz.
fn filter(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let kind = s.weighted(&[5, 3, 2]);
    let n = [NodeId::SFilter(0), NodeId::BiqFilt(0), NodeId::FVaFilt(0)][kind];
    let ft = match kind {
        0 => s.range(0, 12),
        1 => s.range(0, 1),
        _ => s.range(0, 2),
    };
    let order = s.range(0, 3);
    let fc = 150.0f32 * 10.0f32.powf(s.unit());
    let ft_hz = fc as f64 * 4.0f64.powf(s.bip() as f64);
    let pfc = n.inp_param("freq").unwrap();
    let fv = pfc.norm(fc);
    let res = s.f(0.0, 0.5);
    let lvl = if kind == 2 { 0.05 } else { 0.5 };
    c.label(n.name());
    c.note(|| format!("{} type {} order {} cut-off {} res {}, test signal {} Hz", n, ft, order, fc, res, ft_hz));
    let edges = [(INP, "sig1", n, if kind == 2 { "in_l" } else { "inp" }), (n, if kind == 2 { "sig_l" } else { "sig" }, OUT, "ch1")];
    let conf = |m: &mut Matrix| {
        set(m, n, "freq", fv);
        set_i(m, n, "ftype", ft);
        if kind != 1 {
            set(m, n, "res", res);
        } else {
            set_i(m, n, "order", order);
        }
    };
    let gain = |e: &mut Eng, sr: f32| -> (f64, f64) {
        let len = (sr as f64 * (30.0 / ft_hz).max(0.02)) as usize;
        let pre = (sr as f64 * 0.06) as usize;
        let w = std::f64::consts::TAU * ft_hz / sr as f64;
        let x: Vec<f32> = (0..pre + len).map(|i| (lvl * (w * i as f64).sin()) as f32).collect();
        let (y, _) = e.run_in(&x, &x, 128);
        let (a, b) = dft(&y, pre, len, w);
        let g = (a * a + b * b).sqrt() / lvl;
        let p = y[pre..].iter().map(|v| v.abs()).fold(0.0f32, f32::max) as f64 / lvl;
        (g, p)
    };
    let mut e = engine(s, c, sr, &edges, &|m| conf(m))?;
    let (g, p) = gain(&mut e, sr);
    drop(e);
    let mut r = Eng::with_sr(4, 8, 192000.0);
    conf(&mut r.m);
    wire(&mut r.m, &edges);
    r.m.sync().map_err(|x| format!("harness: {:?}", x))?;
    let (h, _) = gain(&mut r, 192000.0);
    if !g.is_finite() || !h.is_finite() || h < 0.1 {
        return Ok(());
    }
    c.nontrivial = true;
    // (the resonator is not normalised: its gain follows the square root of the rate)
    let db = 20.0 * (g / h).log10() - if kind == 1 && ft == 1 { 10.0 * (sr as f64 / 192000.0).log10() } else { 0.0 };
    if db.abs() > 2.0 {
        return Err(format!("filter-{}-{}: the gain at {} Hz is {} at rate {} and {} at 192000 ({:.2} dB, peak {})", n.name(), ft, ft_hz, g, sr, h, db, p));
    }
    Ok(())
}

/// The program of a Code node is told the real rate.
fn code(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let n = NodeId::Code(0);
    let inv = s.bool();
    let late = s.bool();
    c.label(if late { "program-after" } else { "program-before" });
    c.note(|| format!("program {} the rate is set, {}", if late { "after" } else { "before" }, if inv { "$israte" } else { "$srate" }));
    let draw = |m: &mut Matrix| {
        let f = m.get_block_function(0).unwrap();
        {
            let mut f = f.lock().unwrap();
            let _ = f.instanciate_at(0, 1, 1, "get", Some(if inv { "$israte" } else { "$srate" }.to_string()));
            let _ = f.instanciate_at(0, 2, 1, "set", Some("&sig1".to_string()));
        }
        let _ = m.check_block_function(0);
    };
    let edges = [(n, "sig1", OUT, "ch1")];
    let mut e = engine(s, c, sr, &edges, &|m| {
        if !late {
            draw(m)
        }
    })?;
    if late {
        draw(&mut e.m);
    } else {
        // a program that was drawn before the node was there
        let _ = e.m.check_block_function(0);
    }
    e.run(s.usz(0, 300));
    let (y, _) = e.run(64);
    c.nontrivial = true;
    let w = if inv { 1.0 / sr } else { sr };
    match y.iter().find(|v| (**v - w).abs() > w * 1e-5) {
        Some(v) => Err(format!("code-rate: the program is told {} instead of {}", v, w)),
        None => Ok(()),
    }
}

/// A sample lasts as long as it was recorded (at 440 Hz).
fn sample(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let n = NodeId::Sampl(0);
    let rate = s.pickc(&[44100.0f32, 48000.0, 22050.0, 96000.0, 11025.0]);
    let cnt = s.usz(50, 4000);
    let fp = n.inp_param("freq").unwrap();
    let v = fp.norm(440.0 * 3.0f32.powf(s.bip()));
    let d = cnt as f64 / rate as f64 * sr as f64 * 440.0 / fp.denorm(v) as f64;
    c.note(|| format!("{} samples recorded at {} played at {} Hz: {} samples", cnt, rate, fp.denorm(v), d));
    let mut data = vec![0.5; cnt + 1];
    data[0] = rate;
    let edges = [(INP, "sig1", n, "trig"), (n, "sig", OUT, "ch1")];
    let mut e = engine(s, c, sr, &edges, &|m| {
        set(m, n, "freq", v);
        set_i(m, n, "pmode", 1);
        m.set_param(n.inp_param("sample").unwrap(), SAtom::audio("x", Arc::new(data.clone())));
    })?;
    e.run(s.usz(1, 300));
    let x = vec![1.0; d as usize + 200];
    let (y, _) = e.run_in(&x, &x, 128);
    c.nontrivial = true;
    let w = y.iter().filter(|v| **v > 0.4).count();
    if (w as f64 - d).abs() > 2.0 + d * 1e-4 {
        return Err(format!("sample: {} samples instead of {} at rate {}", w, d, sr));
    }
    Ok(())
}

/// The scope shows the time that it is set to.
fn scope(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use hexodsp::nodes::SCOPE_SAMPLES;
    let sr = pick_rate(s);
    let n = NodeId::Scope(0);
    let tp = n.inp_param("time").unwrap();
    let v = tp.norm(20.0 * 20.0f32.powf(s.unit()));
    let ms = tp.denorm(v) as f64;
    let per = s.range(3, 8) as f64;
    let w = std::f64::consts::TAU * per / (ms * sr as f64 / 1000.0);
    c.note(|| format!("scope of {} ms, {} periods", ms, per));
    let edges = [(INP, "sig1", n, "in1")];
    let mut e = engine(s, c, sr, &edges, &|m| {
        set(m, n, "time", v);
        set_i(m, n, "tsrc", 0);
    })?;
    e.run((sr * 0.02) as usize);
    let len = (ms * sr as f64 / 1000.0 * 3.2) as usize;
    let x: Vec<f32> = (0..len).map(|i| (w * i as f64).sin() as f32).collect();
    e.run_in(&x, &x, 128);
    c.nontrivial = true;
    let hd = e.m.get_scope_handle(0).ok_or("no scope handle")?;
    let y: Vec<f64> = (0..SCOPE_SAMPLES)
        .map(|i| {
            let (a, b) = hd.read(0, i);
            (a as f64 + b as f64) * 0.5
        })
        .collect();
    // phase per entry, measured with a step of the history between two places (the trace is a ring)
    let mut best = (0.0, 0.0);
    for k in 2..60 {
        let k = k as f64 / 4.0;
        let (mut re, mut im) = (0.0, 0.0);
        for (i, v) in y.iter().enumerate() {
            let h = 0.5 - 0.5 * (std::f64::consts::TAU * (i as f64 + 0.5) / SCOPE_SAMPLES as f64).cos();
            let p = std::f64::consts::TAU * k * i as f64 / SCOPE_SAMPLES as f64;
            re += h * v * p.cos();
            im += h * v * p.sin();
        }
        let m = re * re + im * im;
        if m > best.0 {
            best = (m, k);
        }
    }
    if (best.1 - per).abs() > 0.5 {
        return Err(format!("scope: {} periods are shown instead of {} ({} ms at rate {})", best.1, per, ms, sr));
    }
    Ok(())
}

/// Level of the reverb's tail after some time.
fn verb(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = pick_rate(s);
    let n = NodeId::PVerb(0);
    let (size, decay) = (s.f(0.2, 1.0), s.f(0.2, 0.8));
    c.note(|| format!("size {} decay {}", size, decay));
    let edges = [(INP, "sig1", n, "in_l"), (n, "sig_l", OUT, "ch1")];
    let conf = |m: &mut Matrix| {
        set(m, n, "mix", 1.0);
        set(m, n, "size", size);
        set(m, n, "dcy", decay);
        set(m, n, "predly", 0.0);
    };
    let tail = |e: &mut Eng, sr: f32| -> Vec<f64> {
        let len = (sr * 0.9) as usize;
        // 200 Hz burst of 50 ms
        let x: Vec<f32> = (0..len).map(|i| if i as f32 > sr * 0.05 { 0.0 } else { 0.5 * (std::f64::consts::TAU * 200.0 * i as f64 / sr as f64).sin() as f32 }).collect();
        let (y, _) = e.run_in(&x, &x, 128);
        [(0.05, 0.25), (0.3, 0.5), (0.65, 0.85)].iter().map(|(a, b)| {
            let (a, b) = ((a * sr) as usize, (b * sr) as usize);
            (y[a..b].iter().map(|v| (*v as f64) * (*v as f64)).sum::<f64>() / (b - a) as f64).sqrt()
        }).collect()
    };
    let mut e = engine(s, c, sr, &edges, &|m| conf(m))?;
    let a = tail(&mut e, sr);
    drop(e);
    let mut r = Eng::with_sr(4, 8, 96000.0);
    conf(&mut r.m);
    wire(&mut r.m, &edges);
    r.m.sync().map_err(|x| format!("harness: {:?}", x))?;
    let b = tail(&mut r, 96000.0);
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        if *y < 1e-4 {
            continue;
        }
        c.nontrivial = true;
        let db = 20.0 * (x / y).log10();
        if db.abs() > 3.0 {
            return Err(format!("verb-{}: the tail has {:.2} dB at rate {} compared to rate 96000 ({:?} {:?})", i, db, sr, a, b));
        }
    }
    Ok(())
}

pub fn p22() -> Prop {
    Prop {
        id: "P22",
        level: "exploration",
        rule: "non-trivial: the node sounded and its frequency or time was measured",
        assumptions: &["sample rates from 32 kHz to 192 kHz", "times are accepted within 3 samples and 0.1 %, frequencies within 0.02 % (bowed string: 110 cents, gain of filters: 2 dB)"],
        subs: vec![sub("osc", 1200, 40000, osc), sub("delay", 1000, 40000, delay), sub("env", 1000, 40000, env), sub("slew", 1000, 40000, slew), sub("pulse", 800, 40000, pulse), sub("filter", 1200, 40000, filter), sub("code", 400, 4000, code), sub("sample", 800, 20000, sample), sub("scope", 300, 8000, scope), sub("verb", 100, 4000, verb)],
    }
}
