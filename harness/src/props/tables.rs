// P10 (parameter value mappings) and P11 (addresses of nodes, ports and cells).
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use hexodsp::dsp::NodeInfo;
use hexodsp::*;

fn fmt(p: &ParamId, v: f32) -> Option<String> {
    let mut b: Vec<u8> = vec![];
    p.format(&mut b, v)?.ok()?;
    String::from_utf8(b).ok()
}

/// the number, its decimals and its unit, if the text is a plain number with unit
fn parse(t: &str) -> Option<(f64, i32, String)> {
    let t = t.trim();
    let e = t.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == '+')).unwrap_or(t.len());
    let x: f64 = t[..e].parse().ok()?;
    let d = t[..e].find('.').map(|i| e - i - 1).unwrap_or(0) as i32;
    Some((x, d, t[e..].trim().to_string()))
}

fn cont_params() -> Vec<ParamId> {
    let mut v = vec![];
    for n in all_nodes() {
        v.extend(params_of(n));
    }
    v
}

fn gen_in(s: &mut Src, lo: f32, hi: f32) -> f32 {
    match s.weighted(&[1, 1, 1, 2, 10]) {
        0 => lo,
        1 => hi,
        2 => lo + (hi - lo) * 0.5,
        3 => {
            // near an end
            let d = (hi - lo) * s.f(0.0, 0.02);
            if s.bool() { lo + d } else { hi - d }
        }
        _ => s.f(lo, hi),
    }
}

fn mapping(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ps = cont_params();
    let p = s.pickc(&ps);
    let p = p.node_id().to_instance(s.below(256)).param_by_idx(p.inp() as usize).ok_or("no-param: lost with the instance")?;
    let w = format!("{}.{}", p.node_id(), p.name());
    let ((lo, hi), _) = p.param_min_max().ok_or(format!("no-range: {}", w))?;
    let x = gen_in(s, lo, hi);
    let y = gen_in(s, lo, hi);
    c.note(|| format!("{} range {}..{} at {} and {}", w, lo, hi, x, y));
    let (ulo, uhi) = (p.denorm(lo), p.denorm(hi));
    if !(ulo < uhi) {
        return Err(format!("ends: {}: {} .. {}", w, ulo, uhi));
    }
    // normalised -> user -> normalised
    let back = |x: f32| -> Result<(), String> {
        let u = p.denorm(x);
        if !u.is_finite() || u < ulo - (uhi - ulo) * 1e-5 || u > uhi + (uhi - ulo) * 1e-5 {
            return Err(format!("denorm-out-of-range: {} at {} is {}", w, x, u));
        }
        let b = p.norm(u);
        let flat = (u - ulo).abs() <= ulo.abs().max(1e-3) * 1e-4;
        if !((b - x).abs() <= 2e-4 || (flat && (b - x).abs() <= 0.03)) {
            return Err(format!("norm-denorm: {}: {} -> {} -> {}", w, x, u, b));
        }
        Ok(())
    };
    for v in [x, y, lo, hi] {
        back(v)?;
    }
    // user -> normalised -> user
    let u = ulo + (uhi - ulo) * s.uni() * s.pickc(&[1.0, 0.1, 0.01]);
    let u = u.clamp(ulo, uhi);
    let n = p.norm(u);
    if !(n >= lo - 1e-4 && n <= hi + 1e-4) {
        return Err(format!("norm-out-of-range: {}: {} -> {}", w, u, n));
    }
    let u2 = p.denorm(n);
    if !close(u, u2, (uhi - ulo) * 1e-6 + 4e-5, 3e-4) {
        return Err(format!("denorm-norm: {}: {} -> {} -> {}", w, u, n, u2));
    }
    // monotone
    let (a, b) = if x <= y { (x, y) } else { (y, x) };
    let (da, db) = (p.denorm(a), p.denorm(b));
    if da > db + db.abs() * 1e-5 + 1e-7 {
        return Err(format!("not-monotone: {}: {} -> {}, {} -> {}", w, a, da, b, db));
    }
    if b - a > (hi - lo) * 0.05 && !(da < db) {
        return Err(format!("not-strict: {}: {} -> {}, {} -> {}", w, a, da, b, db));
    }
    // the node information and the default agree
    let ni = NodeInfo::from_node_id(p.node_id());
    let i = p.inp() as usize;
    if ni.denorm(i, x).to_bits() != p.denorm(x).to_bits() || ni.norm(i, u).to_bits() != p.norm(u).to_bits() {
        return Err(format!("info-differs: {} at {}: {} vs {}", w, x, ni.denorm(i, x), p.denorm(x)));
    }
    if p.norm_def().to_bits() != p.as_atom_def().f().to_bits() {
        return Err(format!("default: {}: {} vs {}", w, p.norm_def(), p.as_atom_def().f()));
    }
    // the pitch convention
    let t = fmt(&p, x).ok_or(format!("no-text: {}", w))?;
    if t.ends_with("Hz") && lo < 0.0 {
        let hz = 440.0 * (10.0 * x as f64).exp2();
        if !close(p.denorm(x), hz as f32, 1e-3, 1e-4) {
            return Err(format!("pitch: {} at {} is {} expected {}", w, x, p.denorm(x), hz));
        }
        c.label("pitch");
    }
    c.nontrivial = lo < x && x < hi && lo < y && y < hi;
    Ok(())
}

fn rounding(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ps = cont_params();
    let p = s.pickc(&ps);
    let w = format!("{}.{}", p.node_id(), p.name());
    let ((lo, hi), _) = p.param_min_max().ok_or(format!("no-range: {}", w))?;
    let x = gen_in(s, lo, hi);
    let y = gen_in(s, lo, hi);
    let coarse = s.bool();
    c.note(|| format!("{} range {}..{} at {} and {} coarse {}", w, lo, hi, x, y, coarse));
    let r = |v: f32| p.round(v, coarse);
    let (rx, ry) = (r(x), r(y));
    for (v, q) in [(x, rx), (y, ry)] {
        if !(q >= lo && q <= hi) {
            return Err(format!("round-out-of-range: {}: {} -> {}", w, v, q));
        }
        let q2 = r(q);
        if !close(p.denorm(q), p.denorm(q2), 2e-4, 2e-4) && (q - q2).abs() > 1e-4 {
            return Err(format!("round-not-idempotent: {}: {} -> {} -> {} ({} -> {})", w, v, q, q2, p.denorm(q), p.denorm(q2)));
        }
    }
    if (x < y && rx > ry + 1e-5) || (y < x && ry > rx + 1e-5) {
        return Err(format!("round-not-monotone: {}: {} -> {}, {} -> {}", w, x, rx, y, ry));
    }
    // to the nearer one of the two neighbouring values
    if (rx - x).abs() > 1e-5 {
        // the other neighbour: walk past x
        let up = rx <= x;
        let (mut a, mut b) = (x, if up { hi } else { lo });
        let same = |q: f32| (r(q) - rx).abs() < 1e-5;
        if !same(b) {
            for _ in 0..40 {
                let m = 0.5 * (a + b);
                if same(m) {
                    a = m;
                } else {
                    b = m;
                }
            }
            let other = r(b);
            let metric = |f: &dyn Fn(f32) -> f64| -> bool {
                let (dr, d) = ((f(rx) - f(x)).abs(), (f(other) - f(rx)).abs());
                dr <= 0.56 * d
            };
            let ok = metric(&|v| v as f64) || metric(&|v| p.denorm(v) as f64) || metric(&|v| 1.0 / (p.denorm(v) as f64)) || metric(&|v| (p.denorm(v) as f64).max(1e-9).ln());
            // the range ends are reachable by clamping only, they need not lie on the raster
            let end = (other - lo).abs() < 1e-5 || (other - hi).abs() < 1e-5;
            if !ok && !end {
                return Err(format!("round-not-nearest: {}: {} ({}) -> {} ({}), next is {} ({})", w, x, p.denorm(x), rx, p.denorm(rx), other, p.denorm(other)));
            }
            c.nontrivial = true;
        }
    } else {
        c.nontrivial = lo < x && x < hi;
    }
    Ok(())
}

fn text(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ps = cont_params();
    let p = s.pickc(&ps);
    let w = format!("{}.{}", p.node_id(), p.name());
    let ((lo, hi), _) = p.param_min_max().ok_or(format!("no-range: {}", w))?;
    let x = gen_in(s, lo, hi);
    let x = if s.chance(1, 4) { p.round(x, s.bool()) } else { x };
    let u = p.denorm(x) as f64;
    let t = fmt(&p, x).ok_or(format!("no-text: {}", w))?;
    c.note(|| format!("{} at {} ({}) shows {:?}", w, x, u, t));
    let bad = |want: f64, tol: f64, got: f64| -> Result<(), String> {
        if (want - got).abs() <= tol {
            Ok(())
        } else {
            Err(format!("text: {} at {} with value {} shows {:?}", w, x, u, t))
        }
    };
    if t.trim() == "-inf dB" {
        c.nontrivial = true;
        return if u <= 10f64.powf(-89.0 / 20.0) { Ok(()) } else { bad(1.0, 0.0, 0.0) };
    }
    // detune: semitones and cents
    let tt = t.trim();
    if tt.ends_with('c') {
        let mut it = tt.split_whitespace();
        let sm = it.next().unwrap_or("");
        let ce = it.next().unwrap_or("").trim_end_matches('c').parse::<f64>().map_err(|_| format!("text: unreadable {:?}", t))?;
        let neg = sm.starts_with('-');
        let sm = sm.trim_end_matches('s').parse::<f64>().map_err(|_| format!("text: unreadable {:?}", t))?;
        let v = if neg { sm - ce / 100.0 } else { sm + ce / 100.0 };
        c.nontrivial = true;
        c.label("cents");
        return bad(u, 0.006, v);
    }
    let (v, d, unit) = parse(&t).ok_or(format!("text: unreadable {:?}", t))?;
    let half = 0.5 * 10f64.powi(-d) * 1.02;
    c.label(if unit.is_empty() { "plain" } else { &unit });
    c.nontrivial = true;
    match unit.as_str() {
        "" => {
            bad(u, half + u.abs() * 1e-6, v)
        }
        "Hz" => {
            // either the value itself or, for times, its reciprocal
            if (u - v).abs() <= half + u.abs() * 1e-6 {
                if lo < 0.0 { Ok(()) } else { Err(format!("text-unit: {} at {} shows {:?}", w, x, t)) }
            } else {
                bad(1000.0 / u, half + 1e-3 * 1000.0 / u * 0.01, v)
            }
        }
        "ms" => bad(u, half + u.abs() * 1e-6, v),
        "s" => {
            if hi <= 0.25 && lo < 0.0 {
                // semitones only
                bad(u, 0.006, v)
            } else {
                bad(u / 1000.0, half + u.abs() * 1e-8, v)
            }
        }
        "dB" => bad(20.0 * u.log10(), half + 1e-3, v),
        o => Err(format!("text-unit: {} shows {:?} with unit {:?}", w, t, o)),
    }
}

/// names of settings are there and differ
fn setting_text(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut ps = vec![];
    for n in all_nodes() {
        ps.extend(atoms_of(n));
    }
    let p = s.pickc(&ps);
    let w = format!("{}.{}", p.node_id(), p.name());
    let (lo, hi) = p.setting_min_max().ok_or(format!("no-range: {}", w))?;
    if hi <= lo || !matches!(p.as_atom_def(), SAtom::Setting(_)) {
        return Ok(());
    }
    let (a, b) = (s.range(lo, hi), s.range(lo, hi));
    let (ta, tb) = (fmt(&p, a as f32), fmt(&p, b as f32));
    c.note(|| format!("{} {} shows {:?}, {} shows {:?}", w, a, ta, b, tb));
    let d = p.as_atom_def().i();
    if d < lo || d > hi {
        return Err(format!("setting-default: {}: {} outside {}..{}", w, d, lo, hi));
    }
    if let (Some(ta), Some(tb)) = (ta, tb) {
        if ta.trim().is_empty() {
            c.label("empty");
            return Ok(());
        }
        if a != b && ta == tb {
            return Err(format!("setting-text: {}: {} and {} both show {:?}", w, a, b, ta));
        }
        c.nontrivial = a != b;
    }
    Ok(())
}

pub fn p10() -> Prop {
    Prop {
        id: "P10",
        level: "exploration",
        rule: "value strictly inside the range (mapping, rounding), any value (text), two different settings (setting)",
        assumptions: &[
            "the PVerb ihpf/rhpf defaults lie outside of their range and are left out of the property",
            "single precision: flat ends of the exponential curves compared in user units",
        ],
        subs: vec![sub("mapping", 400_000, 6_000_000, mapping), sub("rounding", 200_000, 4_000_000, rounding), sub("text", 200_000, 4_000_000, text), sub("setting", 20_000, 200_000, setting_text)],
    }
}

// ---------------------------------------------------------------- P11

fn names(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let all = all_nodes();
    let base = s.pickc(&all);
    let inst = s.below(256);
    let n = base.to_instance(inst);
    c.note(|| format!("{}", n));
    if n.instance() != inst {
        return Err(format!("instance: {} has instance {}", n, n.instance()));
    }
    let other = s.pickc(&all).to_instance(s.below(256));
    let same = std::mem::discriminant(&n) == std::mem::discriminant(&other);
    if n.eq_variant(&other) != same {
        return Err(format!("eq-variant: {} and {}", n, other));
    }
    if (n == other) != (same && n.instance() == other.instance()) {
        return Err(format!("equality: {} and {}", n, other));
    }
    // type names
    for nm in [n.name()] {
        let b = NodeId::from_str(nm);
        if !b.eq_variant(&n) || b.to_instance(inst) != n {
            return Err(format!("name: {} -> {:?} -> {}", n, nm, b));
        }
    }
    if !same && (n.name() == other.name() || n.label() == other.label() || format!("{}", n) == format!("{}", other)) {
        return Err(format!("name-collision: {} and {}", n, other));
    }
    let ni = NodeInfo::from_node_id(n);
    if ni.to_id() != n {
        return Err(format!("info-id: {} gives {}", n, ni.to_id()));
    }
    if ni.in_count() != params_of(n).len() || ni.at_count() != atoms_of(n).len() || ni.out_count() != n_outputs(n) {
        return Err(format!("info-counts: {} has {} {} {}", n, ni.in_count(), ni.at_count(), ni.out_count()));
    }
    // inputs, settings
    let (np, na) = (params_of(n).len(), atoms_of(n).len());
    let lim = if s.chance(1, 4) { 256 } else { np + na + 2 };
    let i = s.below(lim);
    c.note(|| format!("index {}", i));
    let q = n.param_by_idx(i);
    if q.is_some() != (i < np + na) {
        return Err(format!("param-index: {} index {} gives {:?}", n, i, q));
    }
    if n.inp_name_by_idx(i as u8) != q.map(|q| q.name()) {
        return Err(format!("inp-name: {} index {} gives {:?}", n, i, n.inp_name_by_idx(i as u8)));
    }
    if let Some(q) = q {
        if q.node_id() != n || q.inp() as usize != i || q.is_atom() != (i >= np) {
            return Err(format!("param: {} index {} gives {:?}", n, i, q));
        }
        if n.inp_param(q.name()) != Some(q) {
            return Err(format!("param-name: {} {} gives {:?}", n, q.name(), n.inp_param(q.name())));
        }
        let (pi, ai) = (n.inp_param_by_idx(i), if i >= np { n.atom_param_by_idx(i - np) } else { None });
        if i < np && (pi != Some(q) || n.inp(q.name()) != Some(i as u8) || ni.in_name(i) != Some(q.name())) {
            return Err(format!("input: {} index {}: {:?} {:?} {:?}", n, i, pi, n.inp(q.name()), ni.in_name(i)));
        }
        if i >= np && (ai != Some(q) || pi.is_some() || n.inp(q.name()).is_some() || ni.at_name(i - np) != Some(q.name())) {
            return Err(format!("setting: {} index {}: {:?} {:?} {:?} {:?}", n, i, ai, pi, n.inp(q.name()), ni.at_name(i - np)));
        }
        if (q.param_min_max().is_some(), q.setting_min_max().is_some()) != (i < np, i >= np) {
            return Err(format!("kind: {} {}", n, q.name()));
        }
        // the same name on another node is another parameter
        if let Some(o) = other.inp_param(q.name()) {
            if (o == q) != (n == other && o.inp() == q.inp()) {
                return Err(format!("param-collision: {:?} {:?}", o, q));
            }
        }
        for j in 0..np + na {
            if j != i && n.param_by_idx(j).map(|x| x.name()) == Some(q.name()) {
                return Err(format!("param-names: {} {} and {} are both {:?}", n, i, j, q.name()));
            }
        }
        c.nontrivial = true;
    }
    // outputs
    let no = n_outputs(n);
    let lim = if s.chance(1, 4) { 256 } else { no + 2 };
    let o = s.below(lim);
    let on = n.out_name_by_idx(o as u8);
    if on.is_some() != (o < no) || ni.out_name(o) != on {
        return Err(format!("out-index: {} index {} gives {:?} / {:?}", n, o, on, ni.out_name(o)));
    }
    if let Some(on) = on {
        if n.out(on) != Some(o as u8) {
            return Err(format!("out-name: {} {} gives {:?}", n, on, n.out(on)));
        }
    }
    // names of something else
    let mut foreign: Vec<String> = vec!["".into(), "xyzzy".into(), "NOP".into()];
    foreign.extend(params_of(other).iter().chain(atoms_of(other).iter()).map(|p| p.name().to_string()));
    foreign.extend((0..n_outputs(other)).filter_map(|i| other.out_name_by_idx(i as u8)).map(|x| x.to_string()));
    let mut f = s.pick(&foreign).clone();
    match s.below(4) {
        0 => f = f.to_uppercase(),
        1 => f.push('1'),
        _ => {}
    }
    let want = (0..np + na).find(|i| n.inp_name_by_idx(*i as u8) == Some(&f[..]));
    if n.inp_param(&f).map(|p| p.inp() as usize) != want {
        return Err(format!("unknown-param: {} {:?} gives {:?}", n, f, n.inp_param(&f)));
    }
    if n.inp(&f) != want.filter(|i| *i < np).map(|i| i as u8) {
        return Err(format!("unknown-input: {} {:?} gives {:?}", n, f, n.inp(&f)));
    }
    let wo = (0..no).find(|i| n.out_name_by_idx(*i as u8) == Some(&f[..])).map(|i| i as u8);
    if n.out(&f) != wo {
        return Err(format!("unknown-out: {} {:?} gives {:?}", n, f, n.out(&f)));
    }
    if !all.iter().any(|x| x.name() == f) && NodeId::from_str(&f) != NodeId::Nop {
        return Err(format!("unknown-node: {:?} gives {}", f, NodeId::from_str(&f)));
    }
    Ok(())
}

const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];

fn nb(x: usize, y: usize, d: usize) -> Option<(usize, usize)> {
    // outputs by the picture, inputs as the inverse of outputs
    if d < 3 {
        let (nx, ny) = out_neighbour(x, y, d);
        return if nx >= 0 && ny >= 0 { Some((nx as usize, ny as usize)) } else { None };
    }
    let slot = d - 3;
    for qx in x as i64 - 1..=x as i64 + 1 {
        for qy in y as i64 - 1..=y as i64 + 1 {
            if qx >= 0 && qy >= 0 && out_neighbour(qx as usize, qy as usize, slot) == (x as i64, y as i64) {
                return Some((qx as usize, qy as usize));
            }
        }
    }
    None
}

fn grid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let big = s.chance(1, 4);
    let lim = if big { 250 } else { 8 };
    let p = (s.below(lim), s.below(lim));
    let d = s.below(6);
    let dir = DIRS[d];
    c.note(|| format!("{:?} {:?}", p, dir));
    if CellDir::from(d as u8) != dir || dir.as_edge() as usize != d {
        return Err(format!("edge-index: {:?}", dir));
    }
    if dir.is_output() != (d < 3) || dir.is_input() != (d >= 3) || dir.flip() != DIRS[(d + 3) % 6] {
        return Err(format!("dir: {:?}", dir));
    }
    let q = dir.offs_pos(p);
    if q != nb(p.0, p.1, d) {
        return Err(format!("move: {:?} {:?} gives {:?}, expected {:?}", p, dir, q, nb(p.0, p.1, d)));
    }
    if let Some(q) = q {
        if dir.flip().offs_pos(q) != Some(p) {
            return Err(format!("move-back: {:?} {:?} -> {:?} back -> {:?}", p, dir, q, dir.flip().offs_pos(q)));
        }
        if CellDir::are_adjacent(p, q) != Some(dir) || CellDir::are_adjacent(q, p) != Some(dir.flip()) {
            return Err(format!("adjacent: {:?} {:?}: {:?}", p, q, CellDir::are_adjacent(p, q)));
        }
        c.nontrivial = true;
    }
    let r = ((p.0 + s.below(5)).saturating_sub(2), (p.1 + s.below(5)).saturating_sub(2));
    let want = (0..6).find(|d| nb(p.0, p.1, *d) == Some(r)).map(|d| DIRS[d]);
    if CellDir::are_adjacent(p, r) != want {
        return Err(format!("adjacent: {:?} {:?}: {:?} expected {:?}", p, r, CellDir::are_adjacent(p, r), want));
    }
    // paths lead to their end
    let t = if big { let m = s.pickc(&[30, 30, 100, 256]); (s.below(m), s.below(m)) } else { (s.below(8), s.below(8)) };
    let f = if big { let m = s.pickc(&[30, 30, 100, 256]); (s.below(m), s.below(m)) } else { p };
    let path = CellDir::path_from_to(f, t);
    let mut cur = f;
    for d in &path {
        cur = match d.offs_pos(cur) {
            Some(x) => x,
            None => return Err(format!("path: {:?} to {:?} leaves the grid: {:?}", f, t, path)),
        };
    }
    if cur != t {
        return Err(format!("path: {:?} to {:?} ends at {:?}: {:?}", f, t, cur, path));
    }
    Ok(())
}

/// cells: ports by direction and by name, free and connected neighbours, labels
fn cells(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (w, h) = (s.usz(1, 4), s.usz(1, 4));
    let mut l = Layout::new(w, h);
    let all = all_nodes();
    for _ in 0..s.usz(1, 8) {
        let n = s.pickc(&all).to_instance(s.below(3));
        let mc = gen_cell(s, n, 2);
        l.cells.insert((s.below(w), s.below(h)), mc);
    }
    c.note(|| l.show());
    let mut e = Eng::new(w, h);
    l.place_into(&mut e.m);
    let port = |p: (usize, usize), d: usize| -> Option<u8> {
        let m = l.cells.get(&p)?;
        match d {
            0..=2 => m.outs[d],
            3 => m.ins[2],
            4 => m.ins[1],
            _ => m.ins[0],
        }
    };
    let m = &e.m;
    for x in 0..w {
        for y in 0..h {
            let cell = m.get_copy(x, y).ok_or("no-cell: get_copy")?;
            if cell.pos() != (x, y) {
                return Err(format!("pos: cell at ({},{}) says {:?}", x, y, cell.pos()));
            }
            for d in 0..6 {
                let dir = DIRS[d];
                if cell.local_port_idx(dir) != port((x, y), d) || cell.has_dir_set(dir) != port((x, y), d).is_some() {
                    return Err(format!("port: ({},{}) {:?}: {:?} expected {:?}", x, y, dir, cell.local_port_idx(dir), port((x, y), d)));
                }
                let nbp = nb(x, y, d).filter(|q| q.0 < w && q.1 < h);
                let adj = m.get_adjacent(x, y, dir).map(|c| c.node_id());
                let want = nbp.map(|q| l.cells.get(&q).map(|c| c.node).unwrap_or(NodeId::Nop));
                if adj != want {
                    return Err(format!("get-adjacent: ({},{}) {:?}: {:?} expected {:?}", x, y, dir, adj, want));
                }
                let conn = nbp.filter(|q| port((x, y), d).is_some() && port(*q, (d + 3) % 6).is_some());
                if cell.is_port_dir_connected(m, dir) != conn {
                    return Err(format!("port-connected: ({},{}) {:?}: {:?} expected {:?}", x, y, dir, cell.is_port_dir_connected(m, dir), conn));
                }
                if d >= 3 {
                    let ao = m.get_adjacent_output(x, y, dir);
                    let want = nbp.and_then(|q| port(q, d - 3).map(|o| (l.cells[&q].node, o)));
                    if ao != want {
                        return Err(format!("adjacent-output: ({},{}) {:?}: {:?} expected {:?}", x, y, dir, ao, want));
                    }
                }
                // builder functions address the same port
                let mut b = Cell::empty(cell.node_id());
                if let (Some(i), false) = (port((x, y), d), cell.is_empty()) {
                    if d < 3 {
                        let nm = cell.node_id().out_name_by_idx(i).ok_or("out-name: none")?;
                        b.set_output_by_name(nm, dir).map_err(|_| format!("set-output: {}", nm))?;
                    } else {
                        let nm = cell.node_id().inp_name_by_idx(i).ok_or("inp-name: none")?;
                        b.set_input_by_name(nm, dir).map_err(|_| format!("set-input: {}", nm))?;
                    }
                    for d2 in 0..6 {
                        let want = if d2 == d { Some(i) } else { None };
                        if b.local_port_idx(DIRS[d2]) != want {
                            return Err(format!("set-by-name: {:?} sets {:?} to {:?}", dir, DIRS[d2], b.local_port_idx(DIRS[d2])));
                        }
                    }
                    b.clear_io_dir(dir);
                    if b.has_dir_set(dir) {
                        return Err(format!("clear-io: {:?}", dir));
                    }
                    let mut buf = [0u8; 64];
                    // labels need the node to be known to the engine, otherwise none
                    if let Some((lab, con)) = m.edge_label(&cell, dir, &mut buf) {
                        let want = if d < 3 { cell.node_id().out_name_by_idx(i) } else { cell.node_id().inp_name_by_idx(i) };
                        if Some(lab) != want {
                            return Err(format!("edge-label: ({},{}) {:?}: {:?} expected {:?}", x, y, dir, lab, want));
                        }
                        if d < 3 && con != conn.is_some() {
                            return Err(format!("edge-connected: ({},{}) {:?}: {}", x, y, dir, con));
                        }
                    }
                    c.nontrivial = true;
                }
            }
            for kind in [CellDir::T, CellDir::B, CellDir::C] {
                let ds: Vec<usize> = match kind {
                    CellDir::T => vec![5, 4, 3],
                    CellDir::B => vec![0, 1, 2],
                    _ => vec![5, 4, 3, 0, 1, 2],
                };
                let free: Vec<(CellDir, (usize, usize))> =
                    ds.iter().filter_map(|d| nb(x, y, *d).filter(|q| q.0 < w && q.1 < h && !l.cells.contains_key(q)).map(|q| (DIRS[*d], q))).collect();
                let mut got = cell.find_all_adjacent_free(m, kind);
                let key = |a: &(CellDir, (usize, usize))| (a.0, a.1);
                let mut want = free.clone();
                got.sort_by_key(key);
                want.sort_by_key(key);
                if got != want {
                    return Err(format!("all-free: ({},{}) {:?}: {:?} expected {:?}", x, y, kind, got, want));
                }
                match cell.find_first_adjacent_free(m, kind) {
                    None => {
                        if !free.is_empty() {
                            return Err(format!("first-free: ({},{}) {:?} finds none of {:?}", x, y, kind, free));
                        }
                    }
                    Some((fd, fi)) => {
                        if !free.iter().any(|f| f.0 == fd) || (fi.is_some() && fi != cell.local_port_idx(fd)) {
                            return Err(format!("first-free: ({},{}) {:?} finds {:?} {:?} of {:?}", x, y, kind, fd, fi, free));
                        }
                        if fi.is_none() && free.iter().any(|f| cell.has_dir_set(f.0)) {
                            return Err(format!("first-free: ({},{}) {:?} prefers {:?} over an assigned port", x, y, kind, fd));
                        }
                    }
                }
                let un = cell.find_unconnected_ports(m, kind);
                for d in ds {
                    let q = nb(x, y, d).filter(|q| q.0 < w && q.1 < h);
                    let set = port((x, y), d).is_some();
                    let conn = set && q.map(|q| port(q, (d + 3) % 6).is_some()).unwrap_or(false);
                    if set && un.contains(&DIRS[d]) == conn {
                        return Err(format!("unconnected: ({},{}) {:?} in {:?}", x, y, DIRS[d], un));
                    }
                }
            }
        }
    }
    if m.get(w, 0).is_some() || m.get(0, h).is_some() || m.get_copy(w, 0).is_some() {
        return Err("outside: a cell outside of the grid".into());
    }
    let mut seen = 0;
    let mut bad = None;
    m.for_each(|x, y, c| {
        seen += 1;
        if c.node_id() != l.cells.get(&(x, y)).map(|c| c.node).unwrap_or(NodeId::Nop) {
            bad = Some((x, y));
        }
    });
    if seen != w * h || bad.is_some() {
        return Err(format!("for-each: {} cells, wrong at {:?}", seen, bad));
    }
    Ok(())
}

pub fn p11() -> Prop {
    Prop {
        id: "P11",
        level: "exploration",
        rule: "names: a valid input or setting index; grid: the neighbour exists; cells: at least one port is set",
        assumptions: &["paths within 30x30 cells; cells within 4x4 grids"],
        subs: vec![sub("names", 200_000, 3_000_000, names), sub("grid", 100_000, 2_000_000, grid), sub("cells", 3_000, 100_000, cells)],
    }
}
