// P21: the control side and the audio side converge, whatever the interleaving.
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::state::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

type Edge = (NodeId, u8, NodeId, u8);
const SEQ: NodeId = NodeId::TSeq(0);
const LFO: NodeId = NodeId::TsLFO(0);
const W: usize = 8;
const H: usize = 8;

#[derive(Clone, Debug)]
enum Op {
    Set(ParamId, SAtom),
    /// many values in a row, as from an automation
    Burst(Vec<(ParamId, SAtom)>),
    Mod(ParamId, Option<f32>),
    Wire(Vec<Edge>),
    Clear,
    Pat(Vec<PatOp>, usize),
    Monitor(usize, usize),
    Look,
    Poll,
    /// let the other side run
    Pause(u64),
}

#[derive(Clone, Default)]
struct World {
    edges: Vec<Edge>,
    vals: BTreeMap<String, (ParamId, SAtom)>,
    mods: BTreeMap<String, (ParamId, f32)>,
    pats: Vec<PatOp>,
}

fn pool() -> Vec<NodeId> {
    let mut v = vec![];
    for i in 0..3 {
        v.extend([NodeId::Amp(i), NodeId::Mix3(i), NodeId::SMap(i), NodeId::Map(i)]);
    }
    v.push(SEQ);
    v.push(LFO);
    v
}

fn key(p: &ParamId) -> String {
    format!("{} {} {}", p.node_id(), p.name(), p.is_atom())
}

fn gen_edges(s: &mut Src) -> Vec<Edge> {
    let mut order = pool();
    for i in (1..order.len()).rev() {
        let j = s.below(i + 1);
        order.swap(i, j);
    }
    order.truncate(s.usz(1, 9));
    order.insert(0, NodeId::Inp(0));
    order.push(NodeId::Out(0));
    let mut e: Vec<Edge> = vec![];
    for (i, n) in order.iter().enumerate().skip(1) {
        let ni = n_inputs(*n);
        if ni == 0 {
            continue;
        }
        let k = if *n == NodeId::Out(0) { 2 } else { s.usz(1, 3) };
        for _ in 0..k {
            let f = order[if s.chance(1, 3) { i - 1 } else { s.below(i) }];
            let inp = if *n == NodeId::Out(0) { s.below(2) as u8 } else { s.below(ni) as u8 };
            if n_outputs(f) == 0 || *n == LFO || e.len() >= 30 {
                continue;
            }
            // the sequencer runs by the phase only
            if *n == SEQ && n.inp_name_by_idx(inp) != Some("clock") {
                continue;
            }
            let o = s.below(if f == SEQ { 4 } else { n_outputs(f) }) as u8;
            if !e.iter().any(|x| x.2 == *n && x.3 == inp) {
                e.push((f, o, *n, inp));
            }
        }
    }
    if order.contains(&LFO) {
        e.push((NodeId::Inp(0), out(NodeId::Inp(0), "sig2").unwrap(), LFO, inp(LFO, "trig").unwrap()));
    }
    e
}

fn wire(m: &mut Matrix, edges: &[Edge]) {
    for x in 0..W {
        for y in 0..H {
            m.place(x, y, Cell::empty(NodeId::Nop));
        }
    }
    for (i, (f, o, t, n)) in edges.iter().enumerate() {
        let (x, y) = (i / (H / 2), 2 * (i % (H / 2)));
        m.place(x, y, Cell::empty(*f).out(None, None, Some(*o)));
        m.place(x, y + 1, Cell::empty(*t).input(Some(*n), None, None));
    }
}

fn gen_pv(s: &mut Src) -> (ParamId, SAtom) {
    let mut p = pool();
    p.push(NodeId::Out(0));
    let n = s.pickc(&p);
    let mut v: Vec<ParamId> = params_of(n);
    if n != SEQ {
        v.extend(atoms_of(n));
    }
    let p = s.pickc(&v);
    let mut x = gen_val(s, p);
    // far from a slope that magnifies every rounding
    if let (NodeId::Map(_), "imin") = (n, p.name()) {
        x = SAtom::param(s.f(-1.0, -0.2));
    }
    if let (NodeId::Map(_), "imax") = (n, p.name()) {
        x = SAtom::param(s.f(0.2, 1.0));
    }
    (p, x)
}

fn gen_ops(s: &mut Src, n: usize, big: bool) -> Vec<Op> {
    let mut ops = vec![Op::Wire(gen_edges(s))];
    for _ in 0..n {
        let o = match s.weighted(&[6, if big { 2 } else { 1 }, 2, 3, 1, 2, 1, 1, 3, 4]) {
            0 => {
                let (p, v) = gen_pv(s);
                Op::Set(p, v)
            }
            1 => {
                // a few parameters, again and again
                let ps: Vec<_> = (0..s.usz(1, 12)).map(|_| gen_pv(s)).collect();
                let k = if big { s.pickc(&[30usize, 300, 520, 1500]) } else { s.usz(10, 60) };
                let seed = s.raw(1 << 32);
                Op::Burst(
                    (0..k as u64)
                        .map(|i| {
                            let (p, v) = ps[(mix(seed ^ i) % ps.len() as u64) as usize].clone();
                            if p.is_atom() || matches!(p.node_id(), NodeId::Map(_)) {
                                (p, v)
                            } else {
                                let ((lo, hi), _) = p.param_min_max().unwrap();
                                let u = (mix(seed ^ i ^ 0x5555) >> 40) as f32 / (1u64 << 24) as f32;
                                (p, SAtom::param(lo + (hi - lo) * u))
                            }
                        })
                        .collect(),
                )
            }
            2 => loop {
                let (p, _) = gen_pv(s);
                if p.is_atom() || p.node_id() == LFO {
                    continue;
                }
                break Op::Mod(p, if s.chance(1, 3) { None } else { Some(s.bip()) });
            },
            3 => Op::Wire(gen_edges(s)),
            4 => Op::Clear,
            5 => {
                let k = s.usz(1, if big { 40 } else { 4 });
                let ops = (0..k)
                    .map(|_| match gen_patop(s, 256) {
                        PatOp::Type(c, t) => PatOp::Type(c, if t == 3 { 0 } else { t }),
                        o => o,
                    })
                    .collect();
                Op::Pat(ops, s.usz(0, 8))
            }
            6 => Op::Monitor(s.below(W), s.below(H)),
            7 => Op::Look,
            8 => Op::Poll,
            _ => Op::Pause(s.raw(400)),
        };
        ops.push(o);
    }
    ops
}

fn poll(m: &mut Matrix) {
    m.update_filters();
    m.handle_graph_events();
    m.check_pattern_data(0);
}

fn phase_mode(m: &mut Matrix) {
    set_i(m, SEQ, "cmode", 2);
}

fn apply(m: &mut Matrix, w: &mut World, op: &Op) -> Result<(), String> {
    match op {
        Op::Set(p, v) => {
            m.set_param(*p, v.clone());
            w.vals.insert(key(p), (*p, v.clone()));
        }
        Op::Burst(v) => {
            for (p, v) in v {
                m.set_param(*p, v.clone());
                w.vals.insert(key(p), (*p, v.clone()));
            }
        }
        Op::Mod(p, v) => {
            m.set_param_modamt(*p, *v).map_err(|x| format!("refused: {:?}", x))?;
            match v {
                Some(a) => {
                    w.mods.insert(key(p), (*p, *a));
                }
                None => {
                    w.mods.remove(&key(p));
                }
            }
        }
        Op::Wire(e) => {
            wire(m, e);
            m.sync().map_err(|x| format!("refused: {:?}", x))?;
            w.edges = e.clone();
        }
        Op::Clear => {
            m.clear();
            *w = World::default();
            phase_mode(m);
        }
        Op::Pat(ops, k) => {
            if let Some(pd) = m.get_pattern_data(0) {
                for o in ops {
                    apply_patop(&mut pd.lock().unwrap(), o);
                    w.pats.push(o.clone());
                }
            }
            for _ in 0..*k {
                m.check_pattern_data(0);
            }
        }
        Op::Monitor(x, y) => {
            if let Some(c) = m.get_copy(*x, *y) {
                m.monitor_cell(c);
            }
        }
        Op::Look => {
            for n in pool() {
                let _ = m.led_value_for(&n);
                let _ = m.phase_value_for(&n);
                let _ = m.filtered_led_for(&n);
                let _ = m.out_fb_for(&n, 0);
                let _ = m.filtered_out_fb_for(&n, 0);
            }
            for i in 0..6 {
                let _ = m.get_minmax_monitor_samples(i).len();
            }
        }
        Op::Poll => poll(m),
        Op::Pause(_) => (),
    }
    Ok(())
}

/// an engine that was set up for this state from the beginning
fn fresh(w: &World, sr: f32) -> Result<Eng, String> {
    let mut e = Eng::with_sr(W, H, sr);
    phase_mode(&mut e.m);
    for (p, v) in w.vals.values() {
        e.m.set_param(*p, v.clone());
    }
    wire(&mut e.m, &w.edges);
    e.m.sync().map_err(|x| format!("refused: {:?}", x))?;
    for (p, a) in w.mods.values() {
        e.m.set_param_modamt(*p, Some(*a)).map_err(|x| format!("refused: {:?}", x))?;
    }
    if let Some(pd) = e.m.get_pattern_data(0) {
        let mut pd = pd.lock().unwrap();
        for o in &w.pats {
            apply_patop(&mut pd, o);
        }
    }
    for _ in 0..8 {
        e.m.check_pattern_data(0);
    }
    Ok(e)
}

fn compare(s: &mut Src, c: &mut Ctx, m: &mut Matrix, ex: &mut NodeExecutor, w: &World, sr: f32) -> Result<(), String> {
    let mut f = fresh(w, sr)?;
    let n = 400;
    let a = gen_signal(s, n);
    let z = vec![0.0f32; 128];
    let step = |ex: &mut NodeExecutor, l: &[f32], r: &[f32]| {
        ex.process_graph_updates();
        run_block(ex, l.len(), l, r)
    };
    // parameters and the trigger of the LFO come to rest
    for _ in 0..(sr * 0.03 / 128.0) as usize + 3 {
        step(ex, &z, &z);
        step(&mut f.ex, &z, &z);
    }
    let one = vec![1.0f32; n];
    let mut o = 0;
    let mut varied = false;
    let mut first = None;
    while o < n {
        let b = 100;
        let x = step(ex, &a[o..o + b], &one[..b]);
        let y = step(&mut f.ex, &a[o..o + b], &one[..b]);
        for (k, (g, e)) in [(&x.0, &y.0), (&x.1, &y.1)].iter().enumerate() {
            for t in 0..b {
                if *first.get_or_insert(e[t]) != e[t] {
                    varied = true;
                }
                if !close(g[t], e[t], 1e-4, 1e-4) {
                    return Err(format!("diverged: channel {} sample {} is {}, for the same state set up at once {}", k, o + t, g[t], e[t]));
                }
            }
        }
        o += b;
    }
    m.update_output_feedback();
    f.m.update_output_feedback();
    for n in w.edges.iter().flat_map(|e| [e.0, e.2]) {
        for o in 0..n_outputs(n) as u8 {
            if n == SEQ && o > 3 {
                continue;
            }
            let (g, e) = (m.out_fb_for(&n, o), f.m.out_fb_for(&n, o));
            let ok = match (g, e) {
                (Some(g), Some(e)) => close(g, e, 1e-4, 1e-4),
                _ => g.is_some() == e.is_some(),
            };
            if !ok {
                return Err(format!("feedback: {} output {} shows {:?}, for the same state set up at once {:?}", n, o, g, e));
            }
        }
    }
    c.nontrivial = varied;
    Ok(())
}

/// the audio side stands still during bursts of operations
fn burst(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0]);
    let mut e = Eng::with_sr(W, H, sr);
    phase_mode(&mut e.m);
    let k = s.usz(2, 24);
    let ops = gen_ops(s, k, true);
    let never = s.chance(1, 5);
    let mut w = World::default();
    let mut since = 0usize;
    let mut most = 0;
    for op in &ops {
        apply(&mut e.m, &mut w, op)?;
        since += match op {
            Op::Burst(v) => v.len(),
            Op::Set(..) | Op::Wire(_) | Op::Clear => 1,
            _ => 0,
        };
        most = most.max(since);
        c.note(|| match op {
            Op::Burst(v) => format!("burst of {} values", v.len()),
            o => format!("{:?}", o),
        });
        if let Op::Pause(n) = op {
            if !never {
                let z = vec![0.0f32; 128];
                for _ in 0..1 + n / 100 {
                    e.block(1 + (*n as usize % 128), &z, &z);
                }
                since = 0;
            }
        }
    }
    if most > 512 {
        c.label("more-than-512-updates-between-blocks");
    }
    // the user interface goes on polling
    let z = vec![0.0f32; 128];
    let n: usize = ops.iter().map(|o| if let Op::Burst(v) = o { v.len() } else { 1 }).sum();
    // a sequencer takes one update of a column per block, 64 of them may be waiting
    for _ in 0..n / 256 + 80 {
        poll(&mut e.m);
        e.block(128, &z, &z);
    }
    let Eng { m, ex, .. } = &mut e;
    compare(s, c, m, ex, &w, sr)
}

struct Sendable<T>(T);
unsafe impl<T> Send for Sendable<T> {}

/// both sides run at the same time
fn threads(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let rates = [44100.0f32, 48000.0, 96000.0];
    let sr0 = s.pickc(&rates);
    let mut e = Eng::with_sr(W, H, sr0);
    phase_mode(&mut e.m);
    let k = s.usz(4, 60);
    let ops = gen_ops(s, k, false);
    let pace = s.below(4);
    let seed = s.raw(1 << 48);
    let rate_changes = s.chance(1, 4);
    let sr = if rate_changes { s.pickc(&rates) } else { sr0 };
    c.label(["audio-spins", "audio-yields", "audio-naps", "audio-stalls"][pace]);
    if rate_changes {
        c.label("rate-changes");
    }
    c.note(|| format!("pace {} seed {:x} rates {} -> {}", pace, seed, sr0, sr));
    for o in &ops {
        c.note(|| match o {
            Op::Burst(v) => format!("burst of {} values", v.len()),
            o => format!("{:?}", o),
        });
    }
    let stop = AtomicBool::new(false);
    let rounds = AtomicU64::new(0);
    let mut w = World::default();
    let Eng { m, ex, .. } = &mut e;
    let m: &mut Matrix = m;
    let exr = Sendable(&mut **ex);
    let r: Result<Result<(), String>, String> = std::thread::scope(|sc| {
        let (stop, rounds) = (&stop, &rounds);
        let th = sc.spawn(move || {
            let exr = exr;
            let ex: &mut NodeExecutor = exr.0;
            crate::fw::set_worker(true);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let z = vec![0.1f32; 128];
                let mut i = 0u64;
                while !stop.load(Ordering::Acquire) {
                    let h = mix(seed ^ i);
                    i += 1;
                    ex.process_graph_updates();
                    run_block(ex, 1 + (h % 128) as usize, &z, &z);
                    if rate_changes && h >> 40 & 31 == 0 {
                        ex.set_sample_rate(rates[(h >> 50) as usize % 3]);
                    }
                    match pace {
                        0 => (),
                        1 => std::thread::yield_now(),
                        2 => {
                            for _ in 0..(h >> 20 & 0x3FF) {
                                std::hint::spin_loop();
                            }
                        }
                        _ => {
                            if h >> 20 & 7 == 0 {
                                std::thread::sleep(std::time::Duration::from_micros(h >> 30 & 0x1FF));
                            }
                        }
                    }
                    rounds.fetch_add(1, Ordering::Release);
                }
            }))
            .map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())
        });
        let r = (|| {
            for (i, op) in ops.iter().enumerate() {
                apply(m, &mut w, op)?;
                if let Op::Pause(n) = op {
                    match n % 3 {
                        0 => std::thread::yield_now(),
                        1 => {
                            for _ in 0..n * 10 {
                                std::hint::spin_loop();
                            }
                        }
                        _ => std::thread::sleep(std::time::Duration::from_micros(*n)),
                    }
                }
                let _ = i;
            }
            // idle: the user interface goes on polling, the audio side goes on running
            for _ in 0..42 {
                poll(m);
                let r0 = rounds.load(Ordering::Acquire);
                let t0 = std::time::Instant::now();
                while rounds.load(Ordering::Acquire) < r0 + 2 && !th.is_finished() {
                    std::thread::yield_now();
                    if t0.elapsed().as_secs() > 20 {
                        return Err("stuck: the audio side does not process blocks any more".to_string());
                    }
                }
            }
            Ok(())
        })();
        stop.store(true, Ordering::Release);
        match th.join() {
            Ok(Ok(())) => Ok(r),
            Ok(Err(p)) => Err(format!("panic-in-audio-thread: {}", p)),
            Err(_) => Err("panic-in-audio-thread: ?".into()),
        }
    });
    r??;
    if rate_changes {
        ex.set_sample_rate(sr);
    }
    compare(s, c, m, ex, &w, sr)
}

pub fn p21() -> Prop {
    Prop {
        id: "P21",
        level: "exploration",
        rule: "non-trivial: the compared output varies",
        assumptions: &["the control side goes on polling (update_filters, handle_graph_events) while it is idle, as a user interface does for every frame", "real threads: the schedules are sampled, not enumerated"],
        subs: vec![sub("burst", 12000, 300000, burst), subt("threads", 8000, 150000, 4, threads)],
    }
}
