// P23: nodes compute their documented function of their inputs.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::props::units::{wire, E, INP, OUT};
use hexodsp::nodes::ExternalParams;
use hexodsp::*;
use std::sync::{Arc, Mutex};
use synfx_dsp::*;

/// what an output has to be
pub enum Exp {
    V(f32, f32),
    Or(f32, f32, f32),
    Fun(Box<dyn Fn(f32) -> Option<String>>),
    Any,
}
use Exp::*;

/// per sample: raw input values and settings to expected outputs
type Ref = Box<dyn FnMut(&[f32], &[i64]) -> [Exp; 2]>;

fn v(x: f32) -> Exp {
    V(x, 1e-5 + x.abs() * 1e-5)
}

struct Ix {
    n: NodeId,
    p: Vec<ParamId>,
}
impl Ix {
    fn new(n: NodeId) -> Self {
        let mut p = vec![];
        for i in 0..n_inputs(n) {
            let name = n.inp_name_by_idx(i as u8).unwrap();
            p.push(n.inp_param(name).unwrap());
        }
        Ix { n, p }
    }
    fn i(&self, name: &str) -> usize {
        inp(self.n, name).unwrap() as usize
    }
    /// raw value
    fn r(&self, x: &[f32], name: &str) -> f32 {
        x[self.i(name)]
    }
    /// in the unit of the parameter
    fn d(&self, x: &[f32], name: &str) -> f32 {
        self.p[self.i(name)].denorm(x[self.i(name)])
    }
    /// detuned frequency
    fn f(&self, x: &[f32]) -> f32 {
        self.p[self.i("freq")].denorm(self.r(x, "freq") + self.r(x, "det"))
    }
}

fn trig() -> impl FnMut(f32) -> bool {
    let mut on = false;
    move |x| {
        if on {
            if x <= 0.25 {
                on = false;
            }
            false
        } else if x > 0.5 {
            on = true;
            true
        } else {
            false
        }
    }
}

/// 2 ms pulses at changes of a key
fn change(sr: f32) -> impl FnMut(i64) -> f32 {
    let mut last = i64::MIN;
    let mut ts = TrigSignal::new();
    ts.set_sample_rate(sr);
    move |k| {
        if k != last {
            last = k;
            ts.trigger();
        }
        ts.next()
    }
}

fn reference(n: NodeId, sr: f32, con: u32) -> Ref {
    let ix = Ix::new(n);
    match n {
        NodeId::Amp(_) => Box::new(move |x, a| {
            let att = ix.r(x, "att");
            let att = if a[0] > 0 { att.max(0.0) } else { att.abs() };
            [v(ix.r(x, "inp") * ix.p[ix.i("att")].denorm(att) * ix.d(x, "gain")), Any]
        }),
        NodeId::Mix3(_) => Box::new(move |x, _| {
            let s: f32 = (1..=3).map(|k| ix.r(x, &format!("ch{}", k)) * ix.d(x, &format!("vol{}", k))).sum();
            let s = s * ix.d(x, "ovol");
            [V(s, 1e-5 + s.abs() * 1e-4), Any]
        }),
        NodeId::Map(_) => Box::new(move |x, a| {
            let s = ix.r(x, "inp") * ix.r(x, "atv") + ix.r(x, "offs");
            let (i0, i1, o0, o1) = (ix.r(x, "imin"), ix.r(x, "imax"), ix.r(x, "min"), ix.r(x, "max"));
            if (i1 - i0).abs() < 1e-3 {
                return [Any, Any];
            }
            let p = (s - i0) / (i1 - i0);
            let (lo, hi) = (o0.min(o1), o0.max(o1));
            let fin = |y: f32| if a[0] > 0 { y.max(lo).min(hi) } else { y };
            let y = fin(o0 + (o1 - o0) * p);
            let tol = 1e-4 + y.abs() * 1e-4;
            if p < 1e-4 {
                // what happens below the input range is not documented
                // (the signal is reflected, for which the range is the same)
                [Or(y, fin(o0 - (o1 - o0) * p), tol), Any]
            } else {
                [V(y, tol), Any]
            }
        }),
        NodeId::SMap(_) => Box::new(move |x, a| {
            let s = ix.r(x, "inp");
            let p = match a[0] {
                0 => s,
                1 => (s + 1.0) / 2.0,
                2 => 1.0 - s,
                _ => (1.0 - s) / 2.0,
            };
            let p = if a[1] > 0 { p.max(0.0).min(1.0) } else { p };
            let (o0, o1) = (ix.r(x, "min"), ix.r(x, "max"));
            [v(o0 + (o1 - o0) * p), Any]
        }),
        NodeId::Mux9(_) => {
            let mut cur = 0usize;
            let (mut tr, mut tu, mut td) = (trig(), trig(), trig());
            Box::new(move |x, a| {
                let cnt = a[0].clamp(0, 8) as usize + 1;
                cur %= cnt;
                let get = |k: usize| ix.r(x, &format!("in_{}", k + 1));
                if con & 1 == 1 {
                    let s = ix.r(x, "slct");
                    if s > 1.0 {
                        // only 0..1 is documented
                        cur = 0;
                        let all: Vec<f32> = (0..cnt).map(get).collect();
                        return [Fun(Box::new(move |y| if all.iter().any(|z| (*z - y).abs() < 1e-5) { None } else { Some(format!("{:?}", all)) })), Any];
                    }
                    let k = (s * cnt as f32).max(0.0);
                    let near = |d: f32| ((k + d).max(0.0).floor() as usize).min(cnt - 1);
                    let (p, q) = (near(-2e-4), near(1e-4));
                    [Or(get(p), get(q), 1e-6), Any]
                } else {
                    if tr(ix.r(x, "t_rst")) {
                        cur = 0;
                    }
                    if tu(ix.r(x, "t_up")) {
                        cur = (cur + 1) % cnt;
                    }
                    if td(ix.r(x, "t_down")) {
                        cur = (cur + cnt - 1) % cnt;
                    }
                    [v(get(cur)), Any]
                }
            })
        }
        NodeId::Quant(_) => {
            Box::new(move |x, a| {
                let s = ix.r(x, "freq") as f64 * 120.0;
                let oct = ix.r(x, "oct");
                let mask = a[0] & 0xFFF;
                let on = move |note: i64| mask == 0 || mask & (1 << ((note + 9).rem_euclid(12))) != 0;
                let near = ((s.round() as i64 - 14)..=(s.round() as i64 + 14)).filter(|k| on(*k)).map(|k| (k as f64 - s).abs()).fold(f64::MAX, f64::min);
                let chk = move |y: f32| {
                    let k = (y - oct) as f64 * 120.0;
                    let note = k.round();
                    if (k - note).abs() > 0.01 {
                        return Some(format!("{} is not a note ({} semitones)", y, k));
                    }
                    if !on(note as i64) {
                        return Some(format!("note {} is not selected", note));
                    }
                    // the table has a resolution of half a semitone
                    if (note - s).abs() > near + 1.05 {
                        return Some(format!("note {} is not the closest one to {} (distance {})", note, s, near));
                    }
                    None
                };
                [Fun(Box::new(chk)), Any]
            })
        }
        NodeId::CQnt(_) => {
            let mut ch = change(sr);
            let mut unsure = 0;
            Box::new(move |x, a| {
                let mask = if a[0] & 0xFFF == 0 { 0xFFF } else { a[0] & 0xFFF };
                let mut keys = vec![];
                for o in -a[1].clamp(0, 4)..=a[2].clamp(0, 4) {
                    for k in 0..12 {
                        if mask & (1 << k) != 0 {
                            keys.push(o * 12 + k - 9);
                        }
                    }
                }
                let p = ix.r(x, "inp").clamp(0.0, 1.0) * keys.len() as f32;
                let near = |d: f32| keys[((p + d).max(0.0).floor() as usize).min(keys.len() - 1)];
                let (k, l) = (near(-0.013), near(1e-4));
                let f = |k: i64| k as f32 / 120.0 + ix.r(x, "oct");
                let tr = ch(k);
                if k != l {
                    unsure = (0.002 * sr) as i32 + 4;
                }
                unsure -= 1;
                [Or(f(k), f(l), 1e-4), if unsure > 0 { Any } else { v(tr) }]
            })
        }
        NodeId::Ad(_) => {
            let mut env = EnvRetrigAD::new();
            env.set_sample_rate(sr);
            Box::new(move |x, a| {
                let m = [1.0, 10.0, 100.0][a[0].clamp(0, 2) as usize];
                let (e, t) = env.tick(ix.r(x, "trig"), m * ix.d(x, "atk"), ix.d(x, "ashp").clamp(0.0, 1.0), m * ix.d(x, "dcy"), 1.0 - ix.d(x, "dshp").clamp(0.0, 1.0));
                [v(e * ix.r(x, "inp")), v(t)]
            })
        }
        NodeId::Adsr(_) => {
            let mut env = EnvRetrigADSR::new();
            env.set_sample_rate(sr);
            Box::new(move |x, a| {
                let m = [1.0, 10.0, 100.0][a[0].clamp(0, 2) as usize];
                let mut p = EnvADSRParams {
                    attack_ms: m * ix.d(x, "atk"),
                    attack_shape: ix.d(x, "ashp").clamp(0.0, 1.0),
                    decay_ms: m * ix.d(x, "dcy"),
                    decay_shape: 1.0 - ix.d(x, "dshp").clamp(0.0, 1.0),
                    sustain: ix.d(x, "sus").clamp(0.0, 1.0),
                    release_ms: m * ix.d(x, "rel"),
                    release_shape: 1.0 - ix.d(x, "rshp").clamp(0.0, 1.0),
                };
                let (e, t) = env.tick(ix.r(x, "gate"), &mut p);
                [v(e * ix.r(x, "inp")), v(t)]
            })
        }
        NodeId::Delay(_) => {
            let mut buf: DelayBuffer<f32> = DelayBuffer::new();
            buf.set_sample_rate(sr);
            let mut clock = TriggerSampleClock::new();
            Box::new(move |x, a| {
                let dry = ix.r(x, "inp");
                let wet = if a[0] == 0 { buf.cubic_interpolate_at(ix.d(x, "time")) } else { buf.at(clock.next(ix.r(x, "trig")) as usize) };
                buf.feed(dry + wet * ix.d(x, "fb"));
                let m = ix.d(x, "mix").clamp(0.0, 1.0);
                let s = dry * (1.0 - m) + wet * m;
                [V(s, 1e-5 + 1e-4 * s.abs()), Any]
            })
        }
        NodeId::AllP(_) => {
            let mut d: DelayBuffer<f64> = DelayBuffer::new_with_size(8 * 48000);
            d.set_sample_rate(sr as f64);
            Box::new(move |x, _| {
                let g = ix.d(x, "g") as f64;
                let s = d.cubic_interpolate_at(ix.d(x, "time") as f64);
                let w = ix.r(x, "inp") as f64 - g * s;
                d.feed(w);
                [v((w * g + s) as f32), Any]
            })
        }
        NodeId::Comb(_) => {
            let mut d: DelayBuffer<f32> = DelayBuffer::new_with_size(8 * 48000);
            d.set_sample_rate(sr);
            Box::new(move |x, a| {
                let g = ix.d(x, "g");
                let s = d.cubic_interpolate_at(ix.d(x, "time"));
                let y = ix.r(x, "inp") + s * g;
                d.feed(if a[0] == 0 { y } else { ix.r(x, "inp") });
                [V(y, 1e-5 + 1e-4 * y.abs()), Any]
            })
        }
        NodeId::RndWk(_) => {
            let mut t = trig();
            // the range of the current target
            let mut tgt = (0.0f32, 0.0f32);
            let seen = Arc::new(Mutex::new(0.0f32));
            Box::new(move |x, _| {
                let last = *seen.lock().unwrap();
                let ms = ix.d(x, "slew");
                if t(ix.r(x, "trig")) {
                    let (a, b) = (ix.d(x, "min").clamp(0.0, 1.0), ix.d(x, "max").clamp(0.0, 1.0));
                    let (lo, hi) = (a.min(b), a.max(b));
                    let step = ix.d(x, "step").clamp(-1.0, 1.0).abs();
                    let offs = ix.d(x, "offs").clamp(-1.0, 1.0);
                    let d = (hi - lo).clamp(0.0001, 1.0);
                    let refl = |w: f32| {
                        let w = w.clamp(lo - d * 0.99, hi + d * 0.99);
                        if w > hi {
                            hi - (w - hi)
                        } else if w < lo {
                            lo + (lo - w)
                        } else {
                            w
                        }
                    };
                    let (p, q) = (last + offs - step, last + offs + step);
                    let (r0, r1) = (refl(p), refl(q));
                    let mut r = (r0.min(r1), r0.max(r1));
                    // turning points of the reflection, and its limits
                    for w in [lo, hi, lo - d * 0.99, hi + d * 0.99] {
                        if w >= p && w <= q {
                            r = (r.0.min(refl(w)), r.1.max(refl(w)));
                        }
                    }
                    // without a range the reflection may leave it by its smallest width
                    let w = if hi - lo < 1e-3 { 2.1e-4 } else { 2e-6 };
                    tgt = (r.0 - w, r.1 + w);
                }
                let max = if ms < 0.11 { f32::MAX } else { 1000.0 / sr / ms };
                let (s2, (g0, g1)) = (seen.clone(), tgt);
                let sl = move |g: f32| if (g - last).abs() <= max { g } else { last + max.copysign(g - last) };
                let (e0, e1) = (sl(g0) - 2e-6, sl(g1) + 2e-6);
                [
                    Fun(Box::new(move |y| {
                        *s2.lock().unwrap() = y;
                        if y >= e0 && y <= e1 {
                            None
                        } else {
                            Some(format!("outside of {:?} (before {}, target in {:?})", (e0, e1), last, (g0, g1)))
                        }
                    })),
                    Any,
                ]
            })
        }
        NodeId::Noise(_) => Box::new(move |x, a| {
            let (atv, offs) = (ix.d(x, "atv"), ix.d(x, "offs"));
            let lo = if a[0] == 0 { -1.0 } else { 0.0 };
            let (p, q) = (lo * atv, atv);
            let r = (p.min(q) + offs - 1e-4, p.max(q) + offs + 1e-4);
            [Fun(Box::new(move |y| if y >= r.0 && y <= r.1 { None } else { Some(format!("outside of {:?}", r)) })), Any]
        }),
        NodeId::TsLFO(_) => {
            let mut t = trig();
            let mut ph = 0.0f64;
            let mut cycles = 0.0f64;
            Box::new(move |x, _| {
                if t(ix.r(x, "trig")) {
                    ph = 0.0;
                }
                let ms = ix.d(x, "time").clamp(0.1, 300000.0) as f64;
                let rev = (ix.d(x, "rev") as f64).clamp(0.0001, 0.999);
                if ph >= 1.0 {
                    ph -= 1.0;
                }
                let y = if ph < rev { ph / rev } else { (1.0 - ph) / (1.0 - rev) };
                // close to the steep edge everything in between is fine
                let eps = 3e-6 + 1e-6 * cycles;
                let steep = (eps / rev).max(eps / (1.0 - rev));
                let (q, r) = (ph, (ph - 1.0).abs().min(ph.abs()).min((ph - rev).abs()));
                ph += 1000.0 / ms / sr as f64;
                cycles += 1000.0 / ms / sr as f64;
                [if r < eps && q != 0.0 { Any } else { V(y as f32, 1e-4 + steep as f32) }, Any]
            })
        }
        NodeId::Sin(_) => {
            let mut ph = n.init_phase() as f64;
            Box::new(move |x, _| {
                let p = ph + ix.d(x, "pm") as f64;
                let y = (p * std::f64::consts::TAU).sin() as f32;
                ph = (ph + ix.f(x) as f64 / sr as f64).fract();
                [V(y, 0.01), Any]
            })
        }
        NodeId::BOsc(_) => {
            let mut o = PolyBlepOscillator::new(n.init_phase());
            let isr = 1.0 / sr;
            Box::new(move |x, a| {
                let f = ix.f(x);
                let pw = ix.d(x, "pw");
                [
                    v(match a[0] {
                        0 => o.next_sin(f, isr),
                        1 => o.next_tri(f.min(sr), isr),
                        2 => o.next_saw(f, isr),
                        3 => o.next_pulse_no_dc(f, isr, pw),
                        _ => o.next_pulse(f, isr, pw),
                    }),
                    Any,
                ]
            })
        }
        NodeId::VOsc(_) => {
            let mut o = VPSOscillator::new(n.init_phase());
            let mut over = Box::new(Oversampling::<4>::new());
            over.set_sample_rate(sr);
            Box::new(move |x, a| {
                let f = ix.f(x);
                let d = ix.d(x, "d").clamp(0.0, 1.0);
                let vv = VPSOscillator::limit_v(d, ix.d(x, "v").clamp(0.0, 1.0) + ix.d(x, "vs").clamp(0.0, 20.0));
                let (damt, dist) = (ix.d(x, "damt").clamp(0.0, 1.0), inpa(n, a, "dist") as u8);
                let isr = 1.0 / (sr * 4.0);
                if inpa(n, a, "ovrsmpl") == 1 {
                    for b in over.resample_buffer() {
                        let s = o.next(f, isr, d, vv);
                        *b = apply_distortion(s, damt, dist);
                    }
                    return [V(over.downsample(), 1e-3), Any];
                }
                let s = o.next(f, isr * 4.0, d, vv);
                [V(apply_distortion(s, damt, dist), 1e-3), Any]
            })
        }
        NodeId::SFilter(_) => {
            let isr = 1.0 / sr;
            let (mut z, mut y, mut k, mut h) = (0.0f32, 0.0f32, 0.0f32, 0.0f32);
            let mut last = -1;
            let mut dl = [0.0f32; 4];
            Box::new(move |x, a| {
                let t = a[0];
                if t != last {
                    dl = [0.0; 4];
                    z = 0.0;
                    y = 0.0;
                    k = 0.0;
                    h = 0.0;
                    last = t;
                }
                let i = ix.r(x, "inp");
                let f = ix.d(x, "freq").clamp(1.0, 22000.0);
                let r = ix.d(x, "res").clamp(0.0, 0.99);
                let r1 = ix.d(x, "res").clamp(0.0, 1.0);
                let o = match t {
                    0 => process_1pole_lowpass(i, f, isr, &mut z),
                    1 => process_1pole_tpt_lowpass(i, f, isr, &mut z),
                    2 => process_1pole_highpass(i, f, isr, &mut z, &mut y),
                    3 => process_1pole_tpt_highpass(i, f, isr, &mut z),
                    4 | 5 | 6 | 7 => {
                        let f = f.min(16000.0).max(if t == 4 { 2.0 } else { 1.0 });
                        let (hp, no) = process_hal_chamberlin_svf(i, f, r, isr, &mut z, &mut y);
                        [y, hp, z, no][t as usize - 4]
                    }
                    13 => process_stilson_moog(i.clamp(-1.0, 1.0), f.min(20000.0), r1, isr, &mut z, &mut y, &mut k, &mut h, &mut dl),
                    _ => {
                        let (lo, b, hi) = process_simper_svf(i, f, r1, isr, &mut k, &mut h);
                        match t {
                            8 => lo,
                            9 => hi,
                            10 => b,
                            11 => lo + hi,
                            _ => lo - hi,
                        }
                    }
                };
                [V(o, 1e-4 + o.abs() * 1e-3), Any]
            })
        }
        NodeId::BiqFilt(_) => {
            let mut c: Vec<Biquad> = vec![Biquad::new(); 4];
            let mut last = -1;
            Box::new(move |x, a| {
                let t = a[0];
                if t != last {
                    last = t;
                    let f = ix.d(x, "freq").clamp(0.0, 22000.0);
                    let k = if t == 1 { BiquadCoefs::resonator(sr, f, ix.d(x, "q")) } else { BiquadCoefs::butter_lowpass(sr, f) };
                    for b in c.iter_mut() {
                        b.set_coefs(k);
                        b.reset();
                    }
                }
                let mut s = ix.r(x, "inp");
                for k in 0..=(if t == 1 { 0 } else { a[1].clamp(0, 3) }) as usize {
                    s = c[k].tick(s);
                }
                [V(s, 1e-5 + s.abs() * 1e-3), Any]
            })
        }
        NodeId::FormFM(_) => {
            let mut ph = 0.0f32;
            let isr = 1.0 / sr;
            Box::new(move |x, _| {
                let f = ix.f(x);
                let form = ix.d(x, "form");
                let side = ix.d(x, "side").min(1.0 - 1e-6).max(1e-6);
                let tri = (ph / side).min((1.0 - ph) / (1.0 - side));
                let carrier = 1.0 - (1.0 - ix.d(x, "peak")) * (tri * tri * (3.0 - 2.0 * tri));
                let m = form / f.max(1e-6);
                let (a, b) = (m.floor(), m.floor() + 1.0);
                let l = m.fract();
                let cos = |k: f32| (std::f32::consts::TAU * ph * k).cos();
                let y = carrier * ((1.0 - l) * if m < 1.0 { 0.0 } else { cos(a) } + l * cos(b));
                ph = (ph + f * isr).fract();
                // the rounding of the phase counts as often as the formant is higher
                [V(y, 1e-4 + (y.abs() + carrier.abs()) * (1e-4 + 2e-6 * m.abs())), Any]
            })
        }
        NodeId::PVerb(_) => {
            let mut verb = DattorroReverb::new();
            verb.set_sample_rate(sr as f64);
            Box::new(move |x, _| {
                let (mut l, mut r) = (ix.r(x, "in_l"), ix.r(x, "in_r"));
                if con & 3 == 1 {
                    r = l;
                }
                if con & 3 == 2 {
                    l = r;
                }
                let d = |k: &str| ix.d(x, k) as f64;
                let size = d("size");
                let mut p = Verb([d("predly"), size, d("dcy"), d("ilpf"), d("ihpf"), d("dif"), d("dmix"), d("mspeed"), d("mdepth").min(2.5 * size.max(0.1)), d("mshp"), d("rlpf"), d("rhpf")]);
                let (wl, wr) = verb.process(&mut p, l as f64, r as f64);
                let m = ix.d(x, "mix");
                let f = |dry: f32, wet: f64| {
                    let y = dry * (1.0 - m) + wet as f32 * m;
                    V(y, 1e-4 + y.abs() * 1e-3)
                };
                [f(l, wl), f(r, wr)]
            })
        }
        NodeId::FVaFilt(_) => {
            use std::simd::f32x4;
            use synfx_dsp::fh_va::*;
            let par = Arc::new(FilterParams::new());
            let mut ladder = LadderFilter::new(par.clone());
            let mut svf = Svf::new(par.clone());
            let mut sk = SallenKey::new(par.clone());
            let mut over = (PolyIIRHalfbandFilter::new(8, true), PolyIIRHalfbandFilter::new(8, true));
            let mut dc = DCFilterX4::default();
            let mut init = false;
            Box::new(move |x, a| {
                let (ftype, smode, lmode) = (inpa(n, a, "ftype"), inpa(n, a, "smode"), inpa(n, a, "lmode"));
                if !init {
                    init = true;
                    // nobody else uses the parameters
                    let p = unsafe { &mut *(Arc::as_ptr(&par) as *mut FilterParams) };
                    p.set_sample_rate(2.0 * sr);
                    p.set_frequency(ix.d(x, "freq").clamp(1.0, 20000.0));
                    p.set_resonance(ix.d(x, "res").clamp(0.0, 1.0));
                    p.drive = ix.d(x, "drive").max(0.0);
                    p.ladder_mode = [LadderMode::LP6, LadderMode::LP12, LadderMode::LP18, LadderMode::LP24, LadderMode::HP6, LadderMode::HP12, LadderMode::HP18, LadderMode::HP24, LadderMode::BP12, LadderMode::BP24, LadderMode::N12][lmode as usize];
                    p.mode = [SvfMode::LP, SvfMode::HP, SvfMode::BP1, SvfMode::BP2, SvfMode::Notch][smode as usize];
                    svf.update();
                    sk.update();
                    ladder.set_mix(p.ladder_mode);
                }
                let v = dc.process(f32x4::from_array([ix.r(x, "in_l"), ix.r(x, "in_r"), 0.0, 0.0]));
                let mut y = f32x4::splat(0.0);
                for u in [v, f32x4::splat(0.0)] {
                    let w = over.0.process(f32x4::splat(2.0) * u);
                    y = over.1.process(match ftype {
                        2 => sk.process(w),
                        1 => svf.process(w),
                        _ => ladder.tick_newton(w),
                    });
                }
                let y = y.as_array();
                [V(y[0], 1e-4 + y[0].abs() * 1e-3), V(y[1], 1e-4 + y[1].abs() * 1e-3)]
            })
        }
        NodeId::BowStri(_) => {
            let (mut nut, mut bri): (DelayBuffer<f32>, DelayBuffer<f32>) = (DelayBuffer::new(), DelayBuffer::new());
            let mut sf = FixedOnePole::new(0.75 - (0.2 * (22050.0 / sr)), 0.9);
            let mut body = [
                Biquad::new_with(1.0, 1.5667, 0.3133, -0.5509, -0.3925),
                Biquad::new_with(1.0, -1.9537, 0.9542, -1.6357, 0.8697),
                Biquad::new_with(1.0, -1.6683, 0.8852, -1.7674, 0.8735),
                Biquad::new_with(1.0, -1.8585, 0.9653, -1.8498, 0.9516),
                Biquad::new_with(1.0, -1.9299, 0.9621, -1.9354, 0.9590),
                Biquad::new_with(1.0, -1.9800, 0.9888, -1.9867, 0.9923),
            ];
            Box::new(move |x, _| {
                let fr = ix.r(x, "freq");
                let tune = (fr.clamp(-0.2, 1.0) + 0.2) * 10.0 * 0.0012;
                let f = ix.p[ix.i("freq")].denorm(fr + (tune + ix.r(x, "det")));
                let len = sr / f.max(20.0);
                let pos = ((ix.d(x, "pos") + 1.0) / 2.0).clamp(0.01, 0.99);
                let a = -nut.cubic_interpolate_at_s(len * (1.0 - pos));
                let b = -sf.process(bri.cubic_interpolate_at_s(len * pos));
                let dv = 0.25 * ix.d(x, "vel") - (a + b);
                let t = ((dv + 0.001) * ix.d(x, "force") + 0.75).abs().powf(-4.0).clamp(0.01, 0.98) * dv;
                bri.feed((a + t).clamp(-10.0, 10.0));
                nut.feed((b + t).clamp(-10.0, 10.0));
                let mut y = b;
                for q in body.iter_mut() {
                    y = q.tick(y);
                }
                [V(y, 1e-3 + y.abs() * 1e-3), Any]
            })
        }
        _ => Box::new(|_, _| [Any, Any]),
    }
}

struct Verb([f64; 12]);
macro_rules! verb {
    ($($f: ident $i: expr),*) => { impl DattorroReverbParams for Verb { $(fn $f(&self) -> f64 { self.0[$i] })* } };
}
verb! {pre_delay_time_ms 0, time_scale 1, decay 2, input_low_cutoff_hz 3, input_high_cutoff_hz 4, diffusion 5, input_diffusion_mix 6, mod_speed 7, mod_depth 8, mod_shape 9, reverb_low_cutoff_hz 10, reverb_high_cutoff_hz 11}

fn inpa(n: NodeId, a: &[i64], name: &str) -> i64 {
    a[atoms(n).iter().position(|(p, _)| p == name).unwrap()]
}

/// names and ranges of the settings
fn atoms(n: NodeId) -> Vec<(String, (i64, i64))> {
    let mut v = vec![];
    let mut i = 0;
    while let Some(p) = n.atom_param_by_idx(i) {
        let r = match p.setting_min_max() {
            Some((a, b)) if (a, b) != (0, 0) => (a, b),
            _ => (0, 0xFFF),
        };
        v.push((p.name().to_string(), r));
        i += 1;
    }
    v
}

pub fn sig(s: &mut Src, len: usize) -> Vec<f32> {
    let mut v = vec![];
    let style = s.weighted(&[3, 3, 2, 1]);
    while v.len() < len {
        let k = s.usz(1, 120);
        let lv = |s: &mut Src| match style {
            1 => s.pickc(&[0.0f32, 1.0, 0.2, 0.3, 0.45, 0.6, -1.0, 0.0, 1.0]),
            2 => s.unit(),
            3 => s.f(-3.0, 3.0),
            _ => s.bip(),
        };
        let a = lv(s);
        match s.below(6) {
            0 => v.extend((0..k).map(|_| a)),
            1 => {
                let b = lv(s);
                v.extend((0..k).map(|i| a + (b - a) * i as f32 / k as f32));
            }
            2 => {
                let b = lv(s);
                let p = s.usz(1, 12);
                let q = s.usz(1, 12);
                v.extend((0..k).map(|i| if i % (p + q) < p { a } else { b }));
            }
            3 => v.extend((0..k).map(|i| a * (i as f32 * 0.37).sin())),
            4 => {
                for _ in 0..k.min(30) {
                    let x = lv(s);
                    v.push(x);
                }
            }
            _ => {
                v.push(a);
                let b = lv(s);
                v.push(b);
            }
        }
    }
    v.truncate(len);
    v
}

fn plain(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0, 96000.0]);
    let k = s.weighted(&[2, 2, 3, 3, 4, 3, 3, 3, 3, 2, 1, 1, 3, 1, 2, 2, 2, 2, 3, 1, 2, 2, 3, 2]);
    let i = s.below(3) as u8;
    let n = [
        NodeId::Amp(i),
        NodeId::Mix3(i),
        NodeId::Map(i),
        NodeId::SMap(i),
        NodeId::Mux9(i),
        NodeId::Quant(i),
        NodeId::CQnt(i),
        NodeId::Ad(i),
        NodeId::Adsr(i),
        NodeId::Delay(i),
        NodeId::AllP(i),
        NodeId::Comb(i),
        NodeId::RndWk(i),
        NodeId::Noise(i),
        NodeId::TsLFO(i),
        NodeId::Sin(i),
        NodeId::BOsc(i),
        NodeId::VOsc(i),
        NodeId::SFilter(i),
        NodeId::BiqFilt(i),
        NodeId::FormFM(i),
        NodeId::PVerb(i),
        NodeId::FVaFilt(i),
        NodeId::BowStri(i),
    ][k];
    c.label(n.name());
    let ix = Ix::new(n);
    let mut e = Eng::with_sr(8, 8, sr);
    let mut edges: Vec<E> = vec![];
    // Src of every input: constant or signal (channel, scale)
    let nin = n_inputs(n);
    let mut con = 0u32;
    let mut src: Vec<(usize, f32, Option<NodeId>)> = vec![];
    let mut cst = vec![0.0f32; nin];
    let mut amps = 5u8;
    let many = s.bool();
    for j in 0..nin {
        let name = n.inp_name_by_idx(j as u8).unwrap();
        let (lo, hi) = ix.p[j].param_min_max().map(|x| x.0).unwrap_or((-1.0, 1.0));
        let key = matches!(name, "inp" | "trig" | "gate" | "slct" | "t_up" | "t_down" | "t_rst" | "ch1" | "freq" | "in_l" | "in_r");
        let may = !matches!((n, name), (NodeId::BiqFilt(_), "freq" | "q" | "gain") | (NodeId::FVaFilt(_), "freq" | "res" | "drive")) && !(name == "slct" && s.chance(2, 3));
        let p = if key { (3, 4) } else if many { (1, 3) } else { (1, 10) };
        if may && edges.len() < 24 && s.chance(p.0, p.1) {
            con |= 1 << j;
            let ch = s.below(2);
            let on: &'static str = if ch == 0 { "sig1" } else { "sig2" };
            if s.chance(1, 3) {
                let a = NodeId::Amp(amps);
                amps += 1;
                let g = s.f(0.1, 1.0);
                set(&mut e.m, a, "att", g);
                edges.push((INP, on, a, "inp"));
                edges.push((a, "sig", n, name));
                src.push((ch, g, Some(a)));
            } else {
                edges.push((INP, on, n, name));
                src.push((ch, 1.0, None));
            }
        } else {
            let val = match (n, name) {
                (NodeId::Delay(_) | NodeId::AllP(_) | NodeId::Comb(_), "time") => ix.p[j].norm(0.1 + 6.0 * s.unit()),
                (NodeId::Ad(_) | NodeId::Adsr(_), "atk" | "dcy" | "rel") => ix.p[j].norm(4.0 * s.unit()),
                (NodeId::RndWk(_), "slew") => ix.p[j].norm(s.pickc(&[0.0, 0.05, 1.0, 5.0])),
                (NodeId::RndWk(_), "step") if s.bool() => 0.0,
                (NodeId::Comb(_) | NodeId::AllP(_), "g") => s.f(-0.9, 0.9),
                (NodeId::BiqFilt(_), "freq") => s.f(-0.3, 0.45),
                (_, "det") => s.f(-0.1, 0.1),
                _ => {
                    if s.chance(1, 5) {
                        s.pickc(&[lo, hi, 0.0])
                    } else {
                        s.f(lo, hi)
                    }
                }
            };
            set(&mut e.m, n, name, val);
            cst[j] = val;
            src.push((9, 0.0, None));
        }
    }
    edges.push((n, n.out_name_by_idx(0).unwrap(), OUT, "ch1"));
    if n_outputs(n) > 1 {
        edges.push((n, n.out_name_by_idx(1).unwrap(), OUT, "ch2"));
    }
    let ats = atoms(n);
    let draw = |s: &mut Src| -> Vec<i64> {
        ats.iter()
            .map(|(nm, (a, b))| {
                if nm == "keys" {
                    match s.below(3) {
                        0 => 0,
                        1 => 1 << s.below(12),
                        _ => s.range(0, 0xFFF),
                    }
                } else if nm == "ftype" && matches!(n, NodeId::SFilter(_)) {
                    s.range(0, 13)
                } else {
                    s.range(*a, *b)
                }
            })
            .collect()
    };
    let put = |e: &mut Eng, v: &[i64]| {
        for ((nm, _), x) in ats.iter().zip(v) {
            set_i(&mut e.m, n, nm, *x);
        }
    };
    let mut at = draw(s);
    put(&mut e, &at);
    let early = s.usz(0, 200);
    wire(&mut e.m, &edges);
    e.m.sync().map_err(|x| format!("harness: {:?}", x))?;
    c.note(|| format!("{} at {} Hz, constants {:?}, connections {:?}", n, sr, (0..nin).filter(|j| con & (1 << j) == 0).map(|j| (n.inp_name_by_idx(j as u8).unwrap(), cst[j])).collect::<Vec<_>>(), edges));
    let dv = |m: &Matrix, n: NodeId, p: &str| {
        let p = n.inp_param(p).unwrap();
        p.denorm(m.get_param(&p).map(|x| x.f()).unwrap_or(p.as_atom_def().f()))
    };
    let gi = dv(&e.m, INP, "vol");
    let go = dv(&e.m, OUT, "vol");
    let mut rf = reference(n, sr, con);
    let segs = s.usz(1, 3);
    let mut diff = 0;
    let mut hist = None;
    for seg in 0..segs {
        let fixed = matches!(n, NodeId::VOsc(_) | NodeId::BOsc(_) | NodeId::BiqFilt(_) | NodeId::FVaFilt(_));
        if seg > 0 && !fixed && s.bool() {
            at = draw(s);
            put(&mut e, &at);
            c.label("setting-changed");
        }
        c.note(|| format!("settings {:?}", ats.iter().map(|x| x.0.as_str()).zip(&at).collect::<Vec<_>>()));
        let len = s.usz(20, 700) + if seg == 0 { early } else { 0 };
        let x = [sig(s, len), sig(s, len)];
        let mut o = 0;
        let mut got = [vec![], vec![]];
        while o < len {
            let b = s.usz(1, 128).min(len - o);
            let (p, q) = e.block(b, &x[0][o..o + b], &x[1][o..o + b]);
            got[0].extend(p);
            got[1].extend(q);
            o += b;
        }
        for t in 0..len {
            let raw: Vec<f32> = (0..nin)
                .map(|j| match src[j] {
                    (9, _, _) => cst[j],
                    (ch, _, None) => gi * x[ch][t],
                    (ch, g, Some(a)) => (gi * x[ch][t]) * a.inp_param("att").unwrap().denorm(g) * a.inp_param("gain").unwrap().denorm(a.inp_param("gain").unwrap().as_atom_def().f()),
                })
                .collect();
            let r = rf(&raw, &at);
            for k in 0..2.min(n_outputs(n)) {
                let y = got[k][t];
                let bad = match &r[k] {
                    Any => None,
                    V(w, tol) => {
                        let w2 = w * go;
                        if !w.is_finite() || w.abs() > 1e6 || (y - w2).abs() <= *tol {
                            None
                        } else {
                            Some(format!("expected {}", w2))
                        }
                    }
                    Or(a, b, tol) => {
                        if (y - a * go).abs() <= tol + a.abs() * 1e-5 || (y - b * go).abs() <= tol + b.abs() * 1e-5 {
                            None
                        } else {
                            Some(format!("expected {} or {}", a, b))
                        }
                    }
                    Fun(f) => f(y / go),
                };
                if let Some(b) = bad {
                    return Err(format!("{}-{}: segment {} sample {} is {}: {} (inputs {:?})", n.name(), n.out_name_by_idx(k as u8).unwrap(), seg, t, y, b, raw));
                }
                if hist != Some(y) {
                    diff += 1;
                    hist = Some(y);
                }
            }
        }
    }
    c.nontrivial = diff > 2;
    Ok(())
}

struct Ext3(Mutex<[f32; 18]>);
macro_rules! ext {
    ($($f: ident $i: expr),*) => { impl ExternalParams for Ext3 { $(fn $f(&self) -> f32 { self.0.lock().unwrap()[$i] })* } };
}
ext! {a1 0, a2 1, a3 2, b1 3, b2 4, b3 5, c1 6, c2 7, c3 8, d1 9, d2 10, d3 11, e1 12, e2 13, e3 14, f1 15, f2 16, f3 17}

/// the nodes at the border: external parameters, input and output
fn border(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0, 96000.0]);
    let mut e = Eng::with_sr(8, 8, sr);
    let x: Vec<Vec<f32>> = (0..2).map(|_| sig(s, 400)).collect();
    if s.bool() {
        // Inp -> Out with volumes
        let mono = s.bool();
        let (vi, vo) = (s.unit(), s.unit());
        let mod_i = s.chance(1, 3);
        let mod_o = s.chance(1, 3);
        let swap = s.bool();
        set(&mut e.m, INP, "vol", vi);
        set(&mut e.m, OUT, "vol", vo);
        set_i(&mut e.m, OUT, "mono", mono as i64);
        // the volumes are modulated by an input that is not touched by the volume of INP
        let i1 = NodeId::Inp(1);
        set(&mut e.m, i1, "vol", 1.0);
        let mut edges: Vec<E> = vec![(INP, if swap { "sig2" } else { "sig1" }, OUT, "ch1"), (INP, if swap { "sig1" } else { "sig2" }, OUT, "ch2")];
        if mod_i {
            edges.push((i1, "sig2", INP, "vol"));
        }
        if mod_o {
            edges.push((i1, "sig1", OUT, "vol"));
        }
        wire(&mut e.m, &edges);
        e.m.sync().map_err(|x| format!("harness: {:?}", x))?;
        c.label("inp-out");
        c.note(|| format!("mono {} volumes {} {} modulated {} {} swapped {}", mono, vi, vo, mod_i, mod_o, swap));
        let (a, b) = e.run_in(&x[0], &x[1], s.usz(1, 128));
        let pi = INP.inp_param("vol").unwrap();
        let po = OUT.inp_param("vol").unwrap();
        for t in 0..400 {
            let gi = pi.denorm(if mod_i { pi.denorm(1.0) * x[1][t] } else { vi });
            let go = po.denorm(if mod_o { pi.denorm(1.0) * x[0][t] } else { vo });
            let (l, r) = if swap { (x[1][t], x[0][t]) } else { (x[0][t], x[1][t]) };
            let wl = l * gi * go;
            let wr = if mono { wl } else { r * gi * go };
            for (k, g, w) in [(0, a[t], wl), (1, b[t], wr)] {
                if (g - w).abs() > 1e-5 + w.abs() * 1e-4 {
                    return Err(format!("inp-out: channel {} sample {} is {} instead of {}", k, t, g, w));
                }
            }
        }
        c.nontrivial = true;
        return Ok(());
    }
    let k = s.below(6);
    let n = [NodeId::ExtA(0), NodeId::ExtB(0), NodeId::ExtC(0), NodeId::ExtD(0), NodeId::ExtE(0), NodeId::ExtF(0)][k];
    let j = s.below(3);
    let (on, an): (&'static str, &'static str) = [("sig1", "atv1"), ("sig2", "atv2"), ("sig3", "atv3")][j];
    let mut edges: Vec<E> = vec![(n, on, OUT, "ch1")];
    let atv = s.bip();
    let modatv = s.chance(1, 3);
    if modatv {
        edges.push((INP, "sig1", n, an));
    }
    let p = n.inp_param("slew").unwrap();
    let ms = s.pickc(&[0.0f32, 0.05, 0.5, 2.0, 10.0]);
    let sv = p.norm(ms);
    set(&mut e.m, n, "slew", sv);
    for (q, nm) in ["atv1", "atv2", "atv3"].iter().enumerate() {
        let o = s.bip();
        set(&mut e.m, n, nm, if q == j { atv } else { o });
    }
    wire(&mut e.m, &edges);
    e.m.sync().map_err(|x| format!("harness: {:?}", x))?;
    let ext = Arc::new(Ext3(Mutex::new([0.0; 18])));
    c.label("ext");
    c.note(|| format!("{} {} slew {} atv {} modulated {}", n, on, p.denorm(sv), atv, modatv));
    e.ex.set_external_params(ext.clone());
    let mut sl = SlewValue::<f32>::new();
    sl.set_sample_rate(sr);
    let mut o = 0;
    while o < 400 {
        let b = s.usz(1, 128).min(400 - o);
        for z in ext.0.lock().unwrap().iter_mut() {
            if s.bool() {
                *z = s.unit();
            }
        }
        let (y, _) = e.block(b, &x[0][o..o + b], &x[1][o..o + b]);
        for t in 0..b {
            let w = sl.next(ext.0.lock().unwrap()[k * 3 + j], p.denorm(sv)) * if modatv { x[0][o + t] } else { atv };
            if (y[t] - w).abs() > 1e-4 + w.abs() * 1e-4 {
                return Err(format!("ext: {} {} sample {} is {} instead of {}", n, on, o + t, y[t], w));
            }
        }
        o += b;
    }
    c.nontrivial = true;
    Ok(())
}

pub fn p23() -> Prop {
    Prop {
        id: "P23",
        level: "exploration",
        rule: "non-trivial: the output has more than two different values",
        assumptions: &["the primitives of the crate synfx-dsp (delay line, envelope stages, filter sections, oscillator cores) are given", "frequency and Q of BiqFilt are not modulated"],
        subs: vec![sub("plain", 45000, 900000, plain), sub("border", 6000, 100000, border)],
    }
}
