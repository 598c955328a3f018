// P07 (save/load round trip) and P08 (loading depends only on the text and never aborts).
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::props::slicing::cmp_bits;
use crate::state::*;
use hexodsp::matrix_repr::*;
use hexodsp::*;
use serde_json::{json, Value};

pub fn save_text(e: &Eng) -> String {
    e.m.to_repr().serialize()
}

pub fn canon_text(t: &str) -> Result<String, String> {
    let mut v: Value = serde_json::from_str(t).map_err(|e| format!("text-not-json: {}", e))?;
    let b: Vec<String> = v["block_funs"].as_array().map(|a| a.iter().map(|x| if x.is_null() { "empty".into() } else { canon_blocks(x) }).collect()).unwrap_or_default();
    v["block_funs"] = json!(b);
    Ok(canon(&v))
}

/// first difference of two canonical texts
pub fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            let i = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            let i0 = i.saturating_sub(60);
            let cut = |s: &str| -> String { String::from_utf8_lossy(&s.as_bytes()[i0.min(s.len())..(i + 60).min(s.len())]).to_string() };
            return format!("in {}: …{}… vs …{}…", x.split('=').next().unwrap_or(""), cut(x), cut(y));
        }
    }
    format!("lengths {} vs {}", a.len(), b.len())
}

pub fn scratch(n: &str) -> String {
    let d = std::env::var("HX_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    let t = format!("{:?}", std::thread::current().id());
    let t: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
    format!("{}/{}-{}", d, n, t)
}

fn cmp_layout(e: &Eng, l: &Layout) -> Result<(), String> {
    let (w, h) = e.m.size();
    for x in 0..w {
        for y in 0..h {
            let c = e.m.get(x, y).ok_or("cell-missing: get failed")?;
            match l.cells.get(&(x, y)) {
                None => {
                    if c.node_id() != NodeId::Nop {
                        return Err(format!("cell-extra: ({},{}) has {}", x, y, c.node_id()));
                    }
                }
                Some(m) => {
                    if c.node_id() != m.node {
                        return Err(format!("cell-node: ({},{}) has {} expected {}", x, y, c.node_id(), m.node));
                    }
                    for k in 0..3 {
                        if c.local_port_idx(IN_DIRS[k]) != m.ins[k] || c.local_port_idx(OUT_DIRS[k]) != m.outs[k] {
                            return Err(format!("cell-ports: ({},{}) {} has {:?}", x, y, m.node, c));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// two engines must be in the same state and sound the same
fn same_state(a: &mut Eng, b: &mut Eng, what: &str) -> Result<(), String> {
    let (ta, tb) = (canon_text(&save_text(a))?, canon_text(&save_text(b))?);
    if ta != tb {
        return Err(format!("{}-state: {}", what, diff(&ta, &tb)));
    }
    Ok(())
}

fn render2(a: &mut Eng, b: &mut Eng, s: &mut Src, what: &str) -> Result<bool, String> {
    let n = 300 + s.below(300);
    let l = gen_signal(s, n);
    let r = gen_signal(s, n);
    let (al, ar) = a.run_in(&l, &r, 128);
    let (bl, br) = b.run_in(&l, &r, 128);
    cmp_bits(&format!("{}-audio", what), &al, &bl)?;
    cmp_bits(&format!("{}-audio", what), &ar, &br)?;
    Ok(al.iter().chain(ar.iter()).any(|x| *x != 0.0))
}

fn round(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let pool: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Out(_))).collect();
    let big = s.chance(1, 5);
    let (w, h) = (s.usz(1, 8), s.usz(1, 8));
    let f = gen_full(s, &pool, if big { 24 } else { 2 }, w, h, true);
    c.note(|| f.show().join("\n"));
    let mut e1 = Eng::new(w, h);
    f.apply(&mut e1)?;
    if s.chance(1, 4) {
        e1.run(64);
    }
    let t1 = save_text(&e1);
    // a grid at least as large
    let (w2, h2) = if s.chance(1, 4) { (w + s.below(3), h + s.below(3)) } else { (w, h) };
    let mut e2 = Eng::new(w2, h2);
    if s.chance(1, 3) {
        let p = scratch("p07.hxy");
        save_patch_to_file(&mut e1.m, &p).map_err(|e| format!("save-file: {:?}", e))?;
        let r = load_patch_from_file(&mut e2.m, &p).map_err(|e| format!("load-file: {:?}", e));
        let _ = std::fs::remove_file(&p);
        r?;
        c.label("file");
    } else {
        load_patch_from_mem(&mut e2.m, t1.as_bytes()).map_err(|e| format!("load: {:?}", e))?;
    }
    cmp_layout(&e2, &f.l)?;
    let ps = f.all_params();
    for p in &ps {
        let (mut a, b) = (e1.m.get_param(p), e2.m.get_param(p));
        if a.is_none() && !p.is_atom() && f.mods.iter().any(|x| x.0 == *p) && !f.vals.iter().any(|x| x.0 == *p) {
            // only a modulation amount, and the node does not exist: saved with the default value
            c.label("parked-modamt");
            a = Some(p.norm_def().into());
        }
        let (Some(a), Some(b)) = (a.clone(), b.clone()) else {
            return Err(format!("param-lost: {} {} was {:?} is {:?}", p.node_id(), p.name(), a, b));
        };
        if p.is_atom() {
            if !atom_eq(&a, &b) {
                return Err(format!("atom-changed: {} {} was {:?} is {:?}", p.node_id(), p.name(), a, b));
            }
        } else if !close(a.f(), b.f(), 2e-5, 1e-4) && p.denorm(a.f()) != p.denorm(b.f()) {
            return Err(format!("param-changed: {} {} was {:?} is {:?}", p.node_id(), p.name(), a, b));
        }
        if let Some((_, v)) = f.vals.iter().find(|x| x.0 == *p) {
            if !atom_eq(v, &a) {
                return Err(format!("param-not-kept: {} {} set {:?} is {:?}", p.node_id(), p.name(), v, a));
            }
        }
        let (ma, mb) = (e1.m.get_param_modamt(p), e2.m.get_param_modamt(p));
        let want = f.mods.iter().find(|x| x.0 == *p).map(|x| x.1);
        if ma != want || mb != want {
            return Err(format!("modamt-changed: {} {} expected {:?}, before {:?} after {:?}", p.node_id(), p.name(), want, ma, mb));
        }
    }
    for (k, v) in &f.props {
        match e2.m.get_prop(k) {
            Some(x) if atom_eq(x, v) => {}
            o => return Err(format!("prop-changed: {:?} was {:?} is {:?}", k, v, o)),
        }
    }
    for (id, pm) in f.pat_models() {
        let pd = e2.m.get_pattern_data(id).ok_or("no-pattern: missing")?;
        pm.cmp(&mut pd.lock().unwrap()).map_err(|e| format!("{} (pattern {})", e, id))?;
    }
    // the rest, including block programs, through the text
    let t2 = save_text(&e2);
    let (mut v1, mut v2): (Value, Value) = (serde_json::from_str(&t1).unwrap(), serde_json::from_str(&t2).unwrap());
    for v in [&mut v1, &mut v2] {
        // user values of parameters are subject to rounding and compared above
        if let Some(a) = v["params"].as_array_mut() {
            for p in a.iter_mut() {
                p[3] = json!(0);
            }
        }
    }
    let (c1, c2) = (canon_text(&v1.to_string())?, canon_text(&v2.to_string())?);
    if c1 != c2 {
        return Err(format!("text-changed: {}", diff(&c1, &c2)));
    }
    // block programs have the right content to begin with
    for (id, ops) in &f.blks {
        let b2 = e2.m.get_block_function(*id).ok_or("no-blocks: missing")?;
        let b2 = b2.lock().unwrap();
        let b1 = e1.m.get_block_function(*id).ok_or("no-blocks: missing")?;
        let b1 = b1.lock().unwrap();
        let _ = ops;
        for a in 0..n_areas(&b1).max(n_areas(&b2)) {
            if b1.area_size(a) != b2.area_size(a) {
                // sizes are recalculated on load
                let mut bb = b1.clone();
                bb.recalculate_area_sizes();
                if bb.area_size(a) != b2.area_size(a) {
                    return Err(format!("blocks-area-size: function {} area {}: {:?} vs {:?}", id, a, bb.area_size(a), b2.area_size(a)));
                }
            }
            for x in 0..14 {
                for y in 0..14 {
                    let (o1, o2) = (b1.origin_at(a, x, y), b2.origin_at(a, x, y));
                    if o1 != o2 {
                        return Err(format!("blocks-origin: function {} area {} ({},{}): {:?} vs {:?}", id, a, x, y, o1, o2));
                    }
                    if let Some((ox, oy)) = o1 {
                        let (v1, v2) = (b1.block_at(a, ox, oy).unwrap(), b2.block_at(a, ox, oy).unwrap());
                        let show = |v: &dyn hexodsp::wblockdsp::BlockView| -> String {
                            let mut s = format!("rows {} {:?} {:?} col {:?}", v.rows(), v.contains(0), v.contains(1), v.custom_color());
                            for i in 0..v.rows() {
                                s += &format!(" {}{}", v.has_input(i), v.has_output(i));
                                let mut b = [0u8; 64];
                                let n = v.input_label(i, &mut b);
                                s += &String::from_utf8_lossy(&b[..n]);
                                let n = v.output_label(i, &mut b);
                                s += &String::from_utf8_lossy(&b[..n]);
                            }
                            let mut b = [0u8; 64];
                            let n = v.label(&mut b);
                            s + &String::from_utf8_lossy(&b[..n])
                        };
                        if show(v1) != show(v2) {
                            return Err(format!("blocks-block: function {} area {} ({},{}): {} vs {}", id, a, ox, oy, show(v1), show(v2)));
                        }
                    }
                }
            }
        }
    }
    let mut sound = false;
    if !big {
        if s.chance(1, 4) {
            // loading the text once more changes nothing
            load_patch_from_mem(&mut e2.m, t2.as_bytes()).map_err(|e| format!("load-again: {:?}", e))?;
        }
        // the loaded engine sounds like one that is set up by hand with exactly the loaded values
        let mut g = f.clone();
        g.vals = ps.iter().map(|p| (*p, e2.m.get_param(p).unwrap())).collect();
        let mut e5 = Eng::new(w, h);
        g.apply(&mut e5)?;
        // take over everything in both before time starts
        e2.upd();
        e5.upd();
        flush(&mut e2, &f);
        flush(&mut e5, &f);
        let silent_gate = f.pats.is_empty();
        let has_tseq = f.l.nodes().iter().any(|n| matches!(n, NodeId::TSeq(_)));
        if silent_gate || !has_tseq {
            sound = render2(&mut e2, &mut e5, s, "loaded")?;
        } else {
            c.label("tseq-random-skipped");
        }
    }
    if sound {
        c.label("sound");
    }
    if !f.pats.is_empty() {
        c.label("patterns");
    }
    if !f.blks.is_empty() {
        c.label("blocks");
    }
    c.nontrivial = f.l.cells.len() >= 3 && (sound || !f.pats.is_empty() || !f.blks.is_empty() || !f.mods.is_empty());
    Ok(())
}

pub fn p07() -> Prop {
    Prop {
        id: "P07",
        level: "exploration",
        rule: "at least three cells and audible output, patterns, block programs or modulation amounts present",
        assumptions: &[
            "values inside the parameter ranges; float rounding of user-facing values tolerated (1e-4 relative)",
            "modulation amounts of parameters whose node was created",
            "sound compared for node types without time-seeded randomness",
        ],
        subs: vec![sub("round", 3000, 60000, round)],
    }
}

// ---------------------------------------------------------------- P08

fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let pool: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Out(_))).collect();
    let (w, h) = (s.usz(2, 7), s.usz(2, 7));
    let target = gen_full(s, &pool, 2, w, h, true);
    let prior = gen_full(s, &pool, 2, w, h, true);
    c.note(|| format!("prior:\n{}\ntarget:\n{}", prior.show().join("\n"), target.show().join("\n")));
    let text = {
        let mut e0 = Eng::new(w, h);
        target.apply(&mut e0)?;
        save_text(&e0)
    };
    let mut fresh = Eng::new(w, h);
    let mut used = Eng::new(w, h);
    load_patch_from_mem(&mut fresh.m, text.as_bytes()).map_err(|e| format!("load: {:?}", e))?;
    // prior life of the other one
    let mode = s.below(4);
    match mode {
        0 => prior.apply(&mut used)?,
        1 => {
            prior.apply(&mut used)?;
            used.run(200 + s.usz(0, 800));
        }
        2 => {
            let mut e0 = Eng::new(w, h);
            prior.apply(&mut e0)?;
            let t = save_text(&e0);
            load_patch_from_mem(&mut used.m, t.as_bytes()).map_err(|e| format!("load-prior: {:?}", e))?;
            if s.bool() {
                used.run(300);
            }
        }
        _ => {
            target.apply(&mut used)?;
            used.run(300);
            let ps = target.all_params();
            for _ in 0..s.usz(0, 6) {
                if ps.is_empty() {
                    break;
                }
                let p = s.pickc(&ps);
                used.m.set_param(p, gen_val(s, p));
            }
            if s.bool() {
                used.run(100);
            }
            used.m.save_matrix();
        }
    }
    for (id, _) in prior.pats.iter() {
        for _ in 0..s.below(7) {
            used.m.check_pattern_data(*id);
        }
    }
    for (id, _) in prior.blks.iter() {
        let _ = used.m.check_block_function(*id);
    }
    if s.bool() {
        used.upd();
    }
    if s.chance(1, 4) {
        used.m.clear();
        if s.bool() {
            used.run(50);
        }
    }
    load_patch_from_mem(&mut used.m, text.as_bytes()).map_err(|e| format!("load-used: {:?}", e))?;
    cmp_layout(&used, &target.l)?;
    same_state(&mut used, &mut fresh, "used-vs-fresh")?;
    for p in target.all_params().iter().chain(prior.all_params().iter()) {
        let (a, b) = (used.m.get_param(p), fresh.m.get_param(p));
        if format!("{:?}", a) != format!("{:?}", b) {
            return Err(format!("used-vs-fresh-param: {} {}: {:?} vs {:?}", p.node_id(), p.name(), a, b));
        }
        let (a, b) = (used.m.get_param_modamt(p), fresh.m.get_param_modamt(p));
        if a != b {
            return Err(format!("used-vs-fresh-modamt: {} {}: {:?} vs {:?}", p.node_id(), p.name(), a, b));
        }
    }
    for (k, _) in prior.props.iter() {
        if format!("{:?}", used.m.get_prop(k)) != format!("{:?}", fresh.m.get_prop(k)) {
            return Err(format!("used-vs-fresh-prop: {:?}", k));
        }
    }
    let pm = target.pat_models();
    for (id, _) in prior.pats.iter().chain(target.pats.iter()) {
        let want = pm.get(id).cloned().unwrap_or_else(PatModel::new);
        let pd = used.m.get_pattern_data(*id).ok_or("no-pattern: missing")?;
        want.cmp(&mut pd.lock().unwrap()).map_err(|e| format!("used-{} (pattern {})", e, id))?;
    }
    for l in target.l.edges() {
        let a = used.m.get_connections(l.fpos.0, l.fpos.1).map(|v| v.len());
        let b = fresh.m.get_connections(l.fpos.0, l.fpos.1).map(|v| v.len());
        if a != b {
            return Err(format!("used-vs-fresh-connections: at {:?}: {:?} vs {:?}", l.fpos, a, b));
        }
    }
    used.upd();
    fresh.upd();
    for f in [&prior, &target] {
        flush(&mut used, f);
        flush(&mut fresh, f);
    }
    let has_tseq = target.l.nodes().iter().any(|n| matches!(n, NodeId::TSeq(_)));
    let mut sound = false;
    if !has_tseq || target.pats.iter().all(|(id, o)| *id > 2 || !o.iter().any(|x| matches!(x, PatOp::Type(_, 3)))) {
        sound = render2(&mut used, &mut fresh, s, "used-vs-fresh")?;
    }
    // a restore must not bring anything from before the load back
    if s.chance(1, 4) {
        used.m.restore_matrix();
        cmp_layout(&used, &target.l).map_err(|e| format!("restored-after-load-{}", e))?;
    }
    if sound {
        c.label("sound");
    }
    c.label(["edited", "played", "loaded", "same"][mode]);
    c.nontrivial = sound || !prior.pats.is_empty() || !prior.blks.is_empty();
    Ok(())
}

fn gen_leaf(s: &mut Src) -> Value {
    match s.below(14) {
        0 => Value::Null,
        1 => json!(-1),
        2 => json!(0),
        3 => json!(s.range(1, 300)),
        4 => json!(s.pickc(&[255i64, 256, 65535, 65534, 32767, 32768, -32769, 1 << 31, 1 << 32, i64::MAX, i64::MIN, i64::MAX - 3])),
        5 => json!(u64::MAX),
        6 => json!(s.pickc(&[1e308f64, -1e308, 1e39, 0.5, -0.0, 1e-320])),
        7 => json!(gen_str(s)),
        8 => json!(true),
        9 => json!([]),
        10 => json!({}),
        11 => json!(s.pickc(&["sin", "out", "code", "tseq", "amp", "sampl", "as", "ms", "i", "p", "s", "keys", "freq"])),
        12 => json!(s.range(-5, 40)),
        _ => json!([1, [2], "x"]),
    }
}

fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>, depth: usize) {
    if !cur.is_empty() {
        out.push(cur.clone());
    }
    if depth == 0 {
        return;
    }
    match v {
        Value::Array(a) => {
            let n = a.len();
            for (i, x) in a.iter().enumerate() {
                // long arrays: look at the ends and everything that is not null
                if n > 40 && i > 4 && i + 2 < n && (x.is_null() || i % 37 != 0) {
                    continue;
                }
                cur.push(i.to_string());
                paths(x, cur, out, depth - 1);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(k.clone());
                paths(x, cur, out, depth - 1);
                cur.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

fn mutate(s: &mut Src, v: &mut Value, c: &mut Ctx) {
    let mut ps = vec![];
    // choose a top level section first, so that long sections do not dominate
    let mut keys: Vec<String> = v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    keys.sort();
    if keys.is_empty() {
        return;
    }
    let k = s.pick(&keys).clone();
    let mut cur = vec![k.clone()];
    if let Some(x) = v.get(&k) {
        paths(x, &mut cur, &mut ps, 9);
    }
    if ps.is_empty() {
        return;
    }
    let p = s.pick(&ps).clone();
    let op = s.weighted(&[6, 1, 2, 1, 2]);
    match op {
        0 => {
            let l = gen_leaf(s);
            c.note(|| format!("replace {} by {}", p.join("/"), l));
            if let Some(x) = at(v, &p) {
                *x = l;
            }
        }
        1 => {
            c.note(|| format!("delete {}", p.join("/")));
            let (last, pre) = p.split_last().unwrap();
            match at(v, pre) {
                Some(Value::Array(a)) => {
                    let i: usize = last.parse().unwrap_or(0);
                    if i < a.len() {
                        a.remove(i);
                    }
                }
                Some(Value::Object(o)) => {
                    o.remove(last);
                }
                _ => {}
            }
        }
        2 => {
            let n = s.pickc(&[1usize, 2, 7, 300]);
            c.note(|| format!("repeat the last element of {} {} times", p.join("/"), n));
            if let Some(Value::Array(a)) = at(v, &p) {
                if let Some(l) = a.last().cloned() {
                    for _ in 0..n {
                        a.push(l.clone());
                    }
                }
            }
        }
        3 => {
            let q = s.pick(&ps).clone();
            c.note(|| format!("copy {} to {}", q.join("/"), p.join("/")));
            let val = at(v, &q).cloned();
            if let (Some(val), Some(x)) = (val, at(v, &p)) {
                *x = val;
            }
        }
        _ => {
            // nudge a number
            let d = s.pickc(&[1i64, -1, 5, 100, -100]);
            c.note(|| format!("add {} to {}", d, p.join("/")));
            if let Some(x) = at(v, &p) {
                if let Some(i) = x.as_i64() {
                    *x = json!(i.wrapping_add(d));
                } else if let Some(f) = x.as_f64() {
                    *x = json!(f * 1000.0 + d as f64);
                }
            }
        }
    }
}

fn malformed(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let pool: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Out(_))).collect();
    let (w, h) = (s.usz(2, 6), s.usz(2, 6));
    let f = gen_full(s, &pool, 2, w, h, true);
    let text = {
        let mut e0 = Eng::new(w, h);
        f.apply(&mut e0)?;
        save_text(&e0)
    };
    let mut bytes = if s.chance(5, 6) {
        let mut v: Value = serde_json::from_str(&text).unwrap();
        for _ in 0..s.usz(1, 4) {
            mutate(s, &mut v, c);
        }
        v.to_string().into_bytes()
    } else {
        text.into_bytes()
    };
    if s.chance(1, 4) {
        for _ in 0..s.usz(1, 3) {
            let n = bytes.len().max(1);
            let i = s.below(n);
            match s.below(4) {
                0 => bytes.truncate(i),
                1 => {
                    if i < bytes.len() {
                        bytes[i] = s.raw(256) as u8
                    }
                }
                2 => bytes.insert(i.min(bytes.len()), s.pickc(b"[]{},:\"0-9en\\\xff\xc3")),
                _ => {
                    let j = (i + s.below(20)).min(bytes.len());
                    if i < j {
                        bytes.drain(i..j);
                    }
                }
            }
        }
        c.note(|| format!("text damaged: {}", String::from_utf8_lossy(&bytes[..bytes.len().min(400)])));
    }
    let mut e = Eng::new(w, h);
    let used = s.chance(1, 3);
    if used {
        let p = gen_full(s, &pool, 2, w, h, true);
        p.apply(&mut e)?;
        e.run(64);
    }
    c.note(|| "load".into());
    let r = load_patch_from_mem(&mut e.m, &bytes);
    let ok = r.is_ok();
    c.label(if ok { "accepted" } else { "refused" });
    let mut e2 = Eng::new(w, h);
    let r2 = load_patch_from_mem(&mut e2.m, &bytes);
    if r2.is_ok() != ok {
        return Err(format!("used-vs-fresh-verdict: {:?} vs {:?}", r, r2));
    }
    // whatever happened, everything goes on
    c.note(|| "render".into());
    let finite = render2(&mut e, &mut Eng::new(1, 1), &mut Src::seeded(1), "x").is_ok();
    let _ = finite;
    for id in 0..3 {
        for _ in 0..7 {
            e.m.check_pattern_data(id);
        }
    }
    for id in 0..32 {
        let _ = e.m.check_block_function(id);
    }
    e.run(260);
    for x in 0..w {
        for y in 0..h {
            let _ = e.m.get_connections(x, y);
            if let Some(cell) = e.m.get_copy(x, y) {
                if !cell.is_empty() {
                    e.m.monitor_cell(cell);
                    e.m.led_value_for(&cell.node_id());
                    e.m.phase_value_for(&cell.node_id());
                }
            }
        }
    }
    e.m.update_filters();
    if ok {
        c.note(|| "save again".into());
        let t = save_text(&e);
        let mut e3 = Eng::new(w, h);
        load_patch_from_mem(&mut e3.m, t.as_bytes()).map_err(|e| format!("reload: a saved patch is refused: {:?}", e))?;
    }
    // a good patch is loaded properly afterwards
    if s.chance(1, 3) {
        c.note(|| "load a good patch".into());
        let mut g = Eng::new(w, h);
        f.apply(&mut g)?;
        let t = save_text(&g);
        load_patch_from_mem(&mut e.m, t.as_bytes()).map_err(|e| format!("load-after: {:?}", e))?;
        let mut fresh = Eng::new(w, h);
        load_patch_from_mem(&mut fresh.m, t.as_bytes()).map_err(|e| format!("load: {:?}", e))?;
        same_state(&mut e, &mut fresh, "after-malformed")?;
    }
    c.nontrivial = ok;
    Ok(())
}

/// settings of any kind and value in a patch file, on a node that is heard
fn settings(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let pool: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Out(_)) && n.out_name_by_idx(0).is_some()).collect();
    let node = s.pickc(&pool);
    let mut e = Eng::new(3, 3);
    e.m.place(0, 1, Cell::empty(node).out(None, None, Some(0)));
    e.m.place(0, 2, Cell::empty(NodeId::Out(0)).input(NodeId::Out(0).inp("ch1"), None, None));
    e.m.sync().map_err(|e| format!("sync: {:?}", e))?;
    let mut v: Value = serde_json::from_str(&save_text(&e)).unwrap();
    let mut ps = vec![];
    let mut i = 0;
    while let Some(p) = node.param_by_idx(i) {
        ps.push(p);
        i += 1;
    }
    let mut i = 0;
    while let Some(p) = node.atom_param_by_idx(i) {
        ps.push(p);
        ps.push(p);
        i += 1;
    }
    let (mut pa, mut aa) = (vec![], vec![]);
    for _ in 0..s.usz(1, 5) {
        if ps.is_empty() {
            break;
        }
        let p = s.pickc(&ps);
        if p.is_atom() {
            let a = match s.below(6) {
                0 | 1 => json!(["i", s.pickc(&[-1i64, 0, 1, 2, 3, 5, 9, 17, 40, 255, 256, 65535, i32::MAX as i64, i64::MAX, i64::MIN, -2, -300, 1 << 32])]),
                2 => json!(["i", s.range(-20, 300)]),
                3 => json!(["p", s.pickc(&[-1.0f64, 0.0, 0.5, 1.0, 1e30, -1e30, 2.5])]),
                4 => json!(["s", gen_str(s)]),
                _ => s.pick(&[json!(["as", "/nonexistent/file.wav"]), json!(["ms", [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8]]), json!(["ms", []]), json!(["n"]), json!([]), json!(["ms", 3])]).clone(),
            };
            aa.push(json!([p.node_id().name(), p.node_id().instance(), p.name(), a]));
        } else {
            let x = s.pickc(&[-1e30f64, 1e30, 0.0, -1.0, 1.0, 1e9, 22050.0, 1e-9, 0.5, -100.0, 3.0e38]);
            pa.push(json!([p.node_id().name(), p.node_id().instance(), p.name(), x]));
        }
    }
    c.note(|| format!("{}: {:?} {:?}", node, pa, aa));
    v["params"] = json!(pa);
    v["atoms"] = json!(aa);
    let text = v.to_string();
    let mut e2 = Eng::new(3, 3);
    match load_patch_from_mem(&mut e2.m, text.as_bytes()) {
        Err(_) => c.label("refused"),
        Ok(_) => {
            c.label("accepted");
            e2.run(700);
            let t = save_text(&e2);
            let mut e3 = Eng::new(3, 3);
            load_patch_from_mem(&mut e3.m, t.as_bytes()).map_err(|e| format!("reload: a saved patch is refused: {:?}", e))?;
            c.nontrivial = true;
        }
    }
    Ok(())
}

pub fn p08() -> Prop {
    Prop {
        id: "P08",
        level: "exploration",
        rule: "history: audible target, or the prior life left patterns/block programs behind; malformed: the damaged text was accepted",
        assumptions: &["grids up to 7x7; texts derived from generated patches by up to four structural and three byte mutations"],
        subs: vec![sub("history", 1500, 30000, history), sub("malformed", 2500, 100000, malformed), sub("settings", 2000, 100000, settings)],
    }
}
