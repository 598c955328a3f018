// P18: visual block programs compute what they show.
use crate::eng::*;
use crate::fw::*;
use crate::props::blockedit::{at, has, Area, Drawn};
use hexodsp::wblockdsp::*;
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};
use synfx_dsp_jit::{ASTFun, DSPNodeContext, JIT};

/// number of shared atoms in the default configuration of the JIT context
const ATOMS: usize = 32;

/// The meaning of a drawn program, taken from the picture alone.
struct Interp {
    a: Area,
    ids: BTreeMap<usize, NodeState>,
    vars: BTreeMap<String, f64>,
    pers: BTreeMap<String, f64>,
    atoms: Vec<f32>,
    srate: f64,
    memo: BTreeMap<(i64, i64), BTreeMap<String, f64>>,
    sig: [f64; 2],
}
#[derive(Clone)]
struct NodeState {
    v: f64,
    trig: synfx_dsp::Trigger,
}

impl Interp {
    fn new(a: &Area, srate: f64) -> Self {
        Interp { a: a.clone(), ids: BTreeMap::new(), vars: BTreeMap::new(), pers: BTreeMap::new(), atoms: vec![0.0; ATOMS], srate, memo: BTreeMap::new(), sig: [0.0; 2] }
    }
    fn get(&self, n: &str) -> f64 {
        match n {
            "PI" => std::f64::consts::PI,
            "TAU" => std::f64::consts::TAU,
            "$srate" => self.srate,
            "$israte" => 1.0 / self.srate,
            "&sig1" => self.sig[0],
            "&sig2" => self.sig[1],
            _ if n.starts_with('*') => self.pers.get(n).copied().unwrap_or(0.0),
            _ => self.vars.get(n).copied().unwrap_or(0.0),
        }
    }
    fn set(&mut self, n: &str, v: f64) {
        match n {
            "&sig1" => self.sig[0] = v,
            "&sig2" => self.sig[1] = v,
            _ if n.starts_with('*') => {
                self.pers.insert(n.to_string(), v);
            }
            _ => {
                self.vars.insert(n.to_string(), v);
            }
        }
    }
    /// the value that arrives from the left at a place
    fn left(&mut self, x: i64, y: i64) -> f64 {
        match at(&self.a, x - 1, y) {
            Some((p, b)) if has(&b.outs, y - p.1) => {
                let name = b.outs[(y - p.1) as usize].clone().unwrap();
                self.eval(p)[&name]
            }
            _ => 0.0,
        }
    }
    fn eval(&mut self, p: (i64, i64)) -> BTreeMap<String, f64> {
        if let Some(v) = self.memo.get(&p) {
            return v.clone();
        }
        let b = self.a[&p].clone();
        let mut ins: Vec<(String, f64)> = vec![];
        for r in 0..b.rows {
            if let Some(Some(n)) = b.ins.get(r) {
                let v = self.left(p.0, p.1 + r as i64);
                ins.push((n.clone(), v));
            }
        }
        let i = |n: &str| ins.iter().find(|x| x.0 == n).unwrap().1;
        let u = |k: usize| ins[k].1;
        let st = self.ids.entry(b.id).or_insert(NodeState { v: 0.0, trig: synfx_dsp::Trigger::new() });
        let mut o: Vec<f64> = vec![];
        match &b.typ[..] {
            "zero" => o.push(0.0),
            "π" => o.push(std::f64::consts::PI),
            "2π" => o.push(std::f64::consts::TAU),
            "value" => o.push(b.lbl.parse().unwrap()),
            "->" | "->2" | "->3" => o.push(u(0)),
            "get" => o.push(self.get(&b.lbl)),
            "set" => self.set(&b.lbl, u(0)),
            "+" => o.push(u(0) + u(1)),
            "*" => o.push(u(0) * u(1)),
            "-" => o.push(i("a") - i("b")),
            "/" => o.push(i("a") / i("b")),
            "sin" => o.push(u(0).sin()),
            "/%" => {
                o.push(i("a") / i("b"));
                o.push(i("a") % i("b"));
            }
            "accum" => {
                st.v = if i("re") > 0.5 { 0.0 } else { st.v + i("in") };
                o.push(st.v);
            }
            "phase" => {
                if st.trig.check_trigger(i("re") as f32) {
                    st.v = 0.0;
                }
                o.push(st.v);
                st.v = (st.v + i("fr") * (1.0 / self.srate)).fract();
            }
            "s&h" => {
                if st.trig.check_trigger(i("se") as f32) {
                    st.v = i("in");
                }
                o.push(st.v);
            }
            "s&h~" => {
                if i("se") > 0.5 {
                    st.v = i("in");
                }
                o.push(st.v);
            }
            "atomr" => o.push(self.atoms[i("in").floor() as usize % ATOMS] as f64),
            "atomr~" => {
                let k = i("in").floor() as usize % ATOMS;
                let f = i("in").fract();
                o.push(self.atoms[k] as f64 * (1.0 - f) + f * self.atoms[(k + 1) % ATOMS] as f64);
            }
            "atomw" => {
                let k = i("in").floor() as usize % ATOMS;
                self.atoms[k] = i("va") as f32;
                o.push(i("va"));
            }
            t => panic!("block type {} has no meaning", t),
        }
        // the first output of the type gets the first value, the rows may be exchanged
        let names: Vec<String> = out_names(&b.typ);
        let mut m = BTreeMap::new();
        for (k, n) in names.iter().enumerate() {
            m.insert(n.clone(), o[k.min(o.len() - 1)]);
        }
        self.memo.insert(p, m.clone());
        m
    }
    /// one sample: (sig1, sig2, result)
    fn exec(&mut self, ins: &[f64; 6]) -> (f64, f64, f64) {
        self.memo.clear();
        self.vars.clear();
        self.sig = [0.0; 2];
        for (n, v) in ["in1", "in2", "alpha", "beta", "delta", "gamma"].iter().zip(ins) {
            self.vars.insert(n.to_string(), *v);
        }
        // top to bottom, left to right: everything that nobody takes
        let mut sinks: Vec<(i64, i64, (i64, i64), Option<String>)> = vec![];
        for (p, b) in &self.a {
            if b.outs.iter().flatten().count() == 0 {
                sinks.push((p.1, p.0, *p, None));
                continue;
            }
            for r in 0..b.rows as i64 {
                if has(&b.outs, r) {
                    let taken = at(&self.a, p.0 + 1, p.1 + r).map(|(q, n)| has(&n.ins, p.1 + r - q.1)).unwrap_or(false);
                    if !taken {
                        sinks.push((p.1 + r, p.0, *p, b.outs[r as usize].clone()));
                    }
                }
            }
        }
        sinks.sort();
        let mut res = 0.0;
        for (_, _, p, name) in sinks {
            let m = self.eval(p);
            if let Some(n) = name {
                res = m[&n];
            }
        }
        (self.sig[0], self.sig[1], res)
    }
}

fn out_names(t: &str) -> Vec<String> {
    let v: &[&str] = match t {
        "set" => &[],
        "/%" => &["di", "re"],
        "accum" => &["su"],
        "phase" => &["ph"],
        "atomr" | "atomr~" | "atomw" | "s&h" | "s&h~" => &["va"],
        _ => &[""],
    };
    v.iter().map(|s| s.to_string()).collect()
}

/// programs with a meaning: names and numbers are legal, no branches
fn legal(d: &Drawn) -> bool {
    d.areas[&0].values().all(|b| match &b.typ[..] {
        "if" => false,
        "value" => b.lbl.parse::<f64>().is_ok(),
        "get" => !(b.lbl.starts_with('&') && b.lbl != "&sig1" && b.lbl != "&sig2") && !(b.lbl.starts_with('$') && b.lbl != "$srate" && b.lbl != "$israte"),
        "set" => !(b.lbl.starts_with('&') && b.lbl != "&sig1" && b.lbl != "&sig2"),
        _ => true,
    })
}

const ONE: &[&str] = &["zero", "π", "2π", "value", "value", "->", "->2", "->3", "set", "set", "get", "get", "get", "+", "-", "*", "/", "sin", "accum", "/%", "phase", "s&h", "s&h~"];

struct Dom {
    atoms: bool,
    pers: &'static [&'static str],
    bad: bool,
}

fn label(s: &mut Src, t: &str, d: &Dom) -> Option<String> {
    match t {
        "value" => {
            if d.bad && s.chance(1, 30) {
                return Some("1.0x".into());
            }
            Some(s.pickc(&["0.5", "1.0", "-2.25", "3", "0.001", "-1e3", "0.3"]).to_string())
        }
        "set" | "get" => {
            if d.bad && s.chance(1, 30) {
                return Some("&nope".into());
            }
            let mut v = vec!["a", "b", "c", "in1", "in2", "alpha", "beta", "delta", "gamma", "&sig1", "&sig2", "&sig1"];
            v.extend(d.pers);
            v.extend(d.pers);
            if t == "get" {
                v.extend(["PI", "TAU", "$srate", "$israte", "in1", "in2"]);
            }
            Some(s.pick(&v).to_string())
        }
        _ => None,
    }
}

/// draws one more block, mostly next to one that is there
fn draw(s: &mut Src, f: &mut BlockFun, d: &Dom) {
    let a = match Drawn::of(f) {
        Ok(d) => d.areas[&0].clone(),
        Err(_) => return,
    };
    let t = if d.bad && s.chance(1, 60) {
        "if"
    } else if d.atoms && s.chance(1, 5) {
        s.pickc(&["atomr", "atomr~", "atomw"])
    } else {
        s.pickc(ONE)
    };
    let (x, y) = if !a.is_empty() && s.chance(9, 10) {
        let v: Vec<_> = a.iter().collect();
        let (p, b) = *s.pick(&v);
        let r = s.below(b.rows) as i64;
        (p.0 + if s.bool() { 1 } else { -1 }, p.1 + r - s.below(2) as i64)
    } else {
        (s.range(0, 5), s.range(0, 7))
    };
    if x.abs() > 12 || y.abs() > 12 {
        return;
    }
    let l = label(s, t, d);
    let _ = f.instanciate_at(0, x, y, t, l);
}

fn shift(s: &mut Src, f: &mut BlockFun) {
    let Ok(d) = Drawn::of(f) else { return };
    let v: Vec<_> = d.areas[&0].iter().filter(|(_, b)| b.rows > 1).collect();
    if !v.is_empty() {
        let (p, b) = *s.pick(&v);
        f.shift_port(0, p.0, p.1, s.below(b.rows), s.bool());
    }
}

fn program(s: &mut Src, f: &mut BlockFun, d: &Dom, n: usize) {
    // blocks that were drawn and erased earlier: the ones that stay have high ids
    if s.chance(1, 10) {
        for _ in 0..s.usz(40, 300) {
            if f.instanciate_at(0, 0, 0, "zero", None).is_ok() {
                let _ = f.remove_at(0, 0, 0);
            }
        }
    }
    for _ in 0..n {
        draw(s, f, d);
    }
    // the order of reading and writing atoms inside of one expression is not drawn if ports are exchanged
    if !d.atoms {
        for _ in 0..s.below(5) {
            shift(s, f);
        }
    }
}

fn show(d: &Drawn) -> String {
    d.areas[&0].iter().map(|(p, b)| format!("{}{}@{},{} in{:?} out{:?}", b.typ, if b.typ != b.lbl { format!("[{}]", b.lbl) } else { String::new() }, p.0, p.1, b.ins.iter().map(|x| x.as_deref().unwrap_or("-")).collect::<Vec<_>>(), b.outs.iter().map(|x| x.as_deref().unwrap_or("-")).collect::<Vec<_>>())).collect::<Vec<_>>().join("; ")
}

fn eqf(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn deep(d: &Drawn) -> bool {
    // at least one operation that takes the result of another one
    let a = &d.areas[&0];
    a.iter().any(|(p, b)| {
        (0..b.rows as i64).any(|r| has(&b.ins, r) && at(a, p.0 - 1, p.1 + r).map(|(q, n)| has(&n.outs, p.1 + r - q.1) && n.ins.iter().flatten().count() > 0).unwrap_or(false))
    })
}

/// compiled and executed directly
fn direct(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let lib = synfx_dsp_jit::get_standard_library();
    let lang = setup_hxdsp_block_language(lib.clone());
    let mut f = BlockFun::new(lang);
    let dom = Dom { atoms: s.chance(1, 4), pers: &["*v", "*w"], bad: s.chance(1, 4) };
    let n = s.usz(1, 24);
    program(s, &mut f, &dom, n);
    let d = Drawn::of(&f)?;
    c.note(|| show(&d));
    let mut comp = Block2JITCompiler::new(f.block_language());
    let ctx = DSPNodeContext::new_ref();
    let sr = s.pickc(&[44100.0f64, 48000.0, 96000.0]);
    let fun = match comp.compile(&f) {
        Err(e) => Err(format!("{:?}", e)),
        Ok(ast) => JIT::new(lib, ctx.clone()).compile(ASTFun::new(ast)).map_err(|e| format!("{:?}", e)),
    };
    let r = match fun {
        Err(e) => {
            if legal(&d) {
                Err(format!("refused: {}", e))
            } else {
                c.label("refused");
                Ok(())
            }
        }
        Ok(_) if !legal(&d) => Err("accepted: a program without a meaning was compiled".to_string()),
        Ok(mut fun) => {
            fun.init(sr, None);
            let mut m = Interp::new(&d.areas[&0], sr);
            let mut r = Ok(());
            for k in 0..s.usz(1, 12) {
                let ins = [s.bip() as f64, s.bip() as f64, s.uni() as f64, s.bip() as f64, s.uni() as f64, s.bip() as f64];
                let e = m.exec(&ins);
                let (mut s1, mut s2) = (0.0, 0.0);
                let g = fun.exec(ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], &mut s1, &mut s2);
                if !eqf(s1, e.0) || !eqf(s2, e.1) || !eqf(g, e.2) {
                    r = Err(format!("value: step {} inputs {:?} gave {:?}, the picture says {:?}", k, ins, (s1, s2, g), e));
                    break;
                }
            }
            r
        }
    };
    ctx.borrow_mut().free();
    c.nontrivial = deep(&d);
    r
}

/// drawn, changed and played in a Code node
fn node(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sr = s.pickc(&[44100.0f32, 48000.0, 96000.0]);
    let mut e = Eng::with_sr(6, 4, sr);
    let k = s.below(3) as u8;
    let n = NodeId::Code(k);
    let outs = [s.below(3) as u8, s.below(3) as u8];
    let place = |e: &mut Eng| -> Result<(), String> {
        e.m.place(0, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0)));
        e.m.place(0, 1, Cell::empty(n).input(inp(n, "in1"), None, None));
        e.m.place(2, 0, Cell::empty(NodeId::Inp(0)).out(None, None, Some(1)));
        e.m.place(2, 1, Cell::empty(n).input(inp(n, "in2"), None, None).out(None, None, Some(outs[0])));
        e.m.place(2, 2, Cell::empty(NodeId::Out(0)).input(inp(NodeId::Out(0), "ch1"), None, None));
        e.m.place(4, 1, Cell::empty(n).out(None, None, Some(outs[1])));
        e.m.place(4, 2, Cell::empty(NodeId::Out(0)).input(inp(NodeId::Out(0), "ch2"), None, None));
        e.m.sync().map_err(|x| format!("sync: {:?}", x))
    };
    let pv = [s.uni(), s.bip(), s.uni(), s.bip()];
    for (p, v) in ["alpha", "beta", "delta", "gamma"].iter().zip(pv) {
        set(&mut e.m, n, p, v);
    }
    let gi = NodeId::Inp(0).inp_param("vol").unwrap();
    let go = NodeId::Out(0).inp_param("vol").unwrap();
    let gi = gi.denorm(e.m.get_param(&gi).map(|x| x.f()).unwrap_or(gi.as_atom_def().f()));
    let go = go.denorm(e.m.get_param(&go).map(|x| x.f()).unwrap_or(go.as_atom_def().f()));
    let al: Vec<f64> = ["alpha", "beta", "delta", "gamma"].iter().zip(pv).map(|(p, v)| n.inp_param(p).unwrap().denorm(v) as f64).collect();
    let early = s.chance(1, 4);
    if !early {
        place(&mut e)?;
    }
    let f = e.m.get_block_function(k as usize).ok_or("no-function: no block function")?;
    let dom = Dom { atoms: s.chance(1, 6), pers: &["*v"], bad: s.chance(1, 4) };
    let mut m: Option<Interp> = None;
    let mut checked = None;
    let mut snaps = vec![];
    let mut undone = false;
    let rounds = s.usz(1, 4);
    for round in 0..rounds {
        let mut reloaded = false;
        {
            let mut f = f.lock().unwrap();
            if round > 0 && s.chance(1, 4) {
                // back to an earlier program, the blocks start anew
                f.load_snapshot(s.pick(&snaps));
                undone = true;
                c.note(|| "undo".to_string());
                c.label("undo");
            }
            if round > 0 {
                // change the program: remove or move something
                for _ in 0..s.below(4) {
                    let d = Drawn::of(&f)?;
                    let v: Vec<_> = d.areas[&0].keys().copied().collect();
                    if v.is_empty() {
                        break;
                    }
                    let p = *s.pick(&v);
                    match s.below(3) {
                        0 => {
                            let _ = f.remove_at(0, p.0, p.1);
                        }
                        1 => {
                            let _ = f.move_block_from_to(0, p.0, p.1, 0, s.range(0, 5), s.range(0, 7));
                        }
                        _ => {
                            let _ = f.move_block_chain_from_to(0, p.0, p.1, 0, s.range(0, 5), s.range(0, 7));
                        }
                    }
                }
            }
            let cnt = s.usz(0, 14);
            program(s, &mut f, &dom, cnt);
            snaps.push(f.save_snapshot());
        }
        let d = Drawn::of(&f.lock().unwrap())?;
        c.note(|| format!("{}, Code {}, outputs {:?}: {}", if round == 0 { "draw" } else { "change to" }, k, outs, show(&d)));
        if round > 0 && !dom.atoms && s.chance(1, 5) {
            // save, load another patch, load it again
            c.note(|| "save and load".to_string());
            let rep = e.m.to_repr();
            if s.bool() {
                let mut other = BlockFun::new(f.lock().unwrap().block_language());
                program(s, &mut other, &dom, 10);
                c.note(|| format!("another program in between: {}", Drawn::of(&other).map(|d| show(&d)).unwrap_or_default()));
                if s.bool() {
                    f.lock().unwrap().reset();
                }
                f.lock().unwrap().load_snapshot(&other.save_snapshot());
                let _ = e.m.check_block_function(k as usize);
                e.run(64);
            }
            e.m.from_repr(&rep).map_err(|x| format!("load: {:?}", x))?;
            reloaded = true;
            c.label("reload");
        }
        let gen = BlockCodeView::generation(&*f.lock().unwrap());
        let seen = checked == Some(gen);
        checked = Some(gen);
        let r = e.m.check_block_function(k as usize);
        if early && round == 0 {
            // the node is created after the program was drawn
            place(&mut e)?;
            let _ = e.m.check_block_function(k as usize);
            c.label("early");
        }
        match (r.is_ok(), legal(&d)) {
            // an error is reported once per change
            (true, false) if seen => (),
            (true, false) => return Err("node-accepted: a program without a meaning was compiled".to_string()),
            (false, true) => return Err(format!("node-refused: {:?}", r.err())),
            (true, true) => {
                let mut x = Interp::new(&d.areas[&0], sr as f64);
                if let (Some(o), false) = (&m, reloaded) {
                    // blocks and variables that are still there keep their state
                    let old: BTreeSet<usize> = o.a.values().map(|b| b.id).collect();
                    if !undone {
                        x.ids = o.ids.clone();
                    }
                    x.ids.retain(|i, _| old.contains(i) || d.areas[&0].values().any(|b| b.id == *i));
                    x.pers = o.pers.clone();
                    x.atoms = o.atoms.clone();
                    if !d.areas[&0].values().any(|b| b.lbl == "*v") {
                        x.pers.clear();
                    }
                }
                m = Some(x);
                undone = false;
            }
            (false, false) => {
                c.label("refused");
                if reloaded {
                    m = None;
                }
            }
        }
        c.nontrivial |= deep(&d);
        let total = s.usz(1, 200);
        let il: Vec<f32> = (0..total).map(|_| s.bip()).collect();
        let ir: Vec<f32> = (0..total).map(|_| s.bip()).collect();
        let (ol, or) = e.run_in(&il, &ir, 64);
        for i in 0..total {
            let r = match &mut m {
                Some(m) => m.exec(&[(il[i] * gi) as f64, (ir[i] * gi) as f64, al[0], al[1], al[2], al[3]]),
                None => (0.0, 0.0, 0.0),
            };
            let v = [r.2, r.0, r.1];
            for (ch, g) in [(0usize, ol[i]), (1, or[i])] {
                let w = v[outs[ch] as usize] as f32 * go;
                if !(w == g || (w.is_nan() && g.is_nan()) || (w - g).abs() <= 1e-6 * w.abs()) {
                    return Err(format!("node-value: round {} sample {} output {} is {}, the picture says {}", round, i, ["sig", "sig1", "sig2"][outs[ch] as usize], g, w));
                }
            }
        }
    }
    Ok(())
}

pub fn p18() -> Prop {
    Prop {
        id: "P18",
        level: "exploration",
        rule: "non-trivial: the program has at least one operation that takes the result of another one",
        assumptions: &["the functions of the library blocks (crate synfx-dsp-jit) are given", "programs that read and write atoms have no exchanged ports"],
        subs: vec![sub("direct", 30000, 600000, direct), sub("node", 8000, 100000, node)],
    }
}
