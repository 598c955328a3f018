// P01 acceptance of layouts, P02 rollback of refused edits
use crate::eng::*;
use crate::fw::*;
use crate::model::*;
use hexodsp::matrix::MatrixError;
use hexodsp::nodes::NodeGraphOrdering;
use hexodsp::*;

pub fn gen_pool(s: &mut Src) -> Vec<NodeId> {
    let all = all_nodes();
    let n = s.usz(1, 9);
    (0..n).map(|_| { let i = s.usz(0, 3); s.pickc(&all).to_instance(i) }).collect()
}

fn edit_op(s: &mut Src, l: &mut Layout, pool: &[NodeId], odds: u64) {
    match s.weighted(&[8, 2, 2, 2]) {
        0 => {
            let p = (s.below(l.w), s.below(l.h));
            let n = s.pickc(pool);
            let c = gen_cell(s, n, odds);
            l.cells.insert(p, c);
        }
        1 => {
            let p = (s.below(l.w), s.below(l.h));
            l.cells.remove(&p);
        }
        2 => {
            // move a cell
            let p = (s.below(l.w), s.below(l.h));
            let q = (s.below(l.w), s.below(l.h));
            if let Some(c) = l.cells.remove(&p) {
                l.cells.insert(q, c);
            }
        }
        _ => {
            // place next to an existing cell so that the ports meet
            let keys: Vec<_> = l.cells.keys().copied().collect();
            if keys.is_empty() {
                return;
            }
            let p = *s.pick(&keys);
            let slot = s.below(3);
            let (nx, ny) = out_neighbour(p.0, p.1, slot);
            if nx < 0 || ny < 0 || nx as usize >= l.w || ny as usize >= l.h {
                return;
            }
            let np = (nx as usize, ny as usize);
            let n = s.pickc(pool);
            let mut c = gen_cell(s, n, odds);
            let is = in_slot_of_out(slot);
            if n_inputs(n) > 0 {
                c.ins[is] = Some(s.below(n_inputs(n)) as u8);
            }
            l.cells.insert(np, c);
            let src = l.cells.get_mut(&p).unwrap();
            if n_outputs(src.node) > 0 {
                src.outs[slot] = Some(s.below(n_outputs(src.node)) as u8);
            }
        }
    }
}

fn expect(m: &Layout, r: &Result<(), MatrixError>) -> Result<(), String> {
    let dups = m.duplicates();
    let cyc = m.order().is_none();
    match r {
        Ok(()) => {
            if !dups.is_empty() {
                return Err(format!("accepted-doubly-fed: layout with doubly fed input {:?} accepted", dups[0]));
            }
            if cyc {
                return Err("accepted-cycle: cyclic layout accepted".into());
            }
        }
        Err(MatrixError::CycleDetected) => {
            if !cyc {
                return Err("bad-reason-cycle: refused as cyclic but the layout has no cycle".into());
            }
        }
        Err(MatrixError::DuplicatedInput { output1, output2 }) => {
            if !dups.contains(&(*output1, *output2)) {
                return Err(format!("bad-reason-dup: refused for {:?} {:?} which do not feed one input (dups {:?})", output1, output2, dups));
            }
        }
        Err(e) => return Err(format!("bad-reason-other: {:?}", e)),
    }
    Ok(())
}

/// everything the matrix reports about the wiring of an accepted layout
pub fn check_reported(m: &Matrix, l: &Layout, pool: &[NodeId]) -> Result<(), String> {
    let edges = l.edges();
    let seen = Layout::of_matrix(m);
    if seen != *l {
        return Err(format!("grid-differs: matrix shows {} expected {}", seen.show(), l.show()));
    }
    for x in 0..l.w {
        for y in 0..l.h {
            let Some(con) = m.get_connections(x, y) else {
                return Err(format!("no-connections: get_connections({},{}) is None", x, y));
            };
            let mut got: Vec<(bool, usize, u8, u8, (usize, usize))> = vec![];
            for ((c, d, i), (oc, od, oi, pos)) in con.iter() {
                let me = l.cells.get(&(x, y)).ok_or_else(|| format!("ghost-connection: empty cell {},{} has connections", x, y))?;
                let ot = l.cells.get(pos).ok_or_else(|| format!("ghost-connection: connection to empty cell {:?}", pos))?;
                if c.node_id() != me.node || oc.node_id() != ot.node {
                    return Err("connection-cell: wrong cell in get_connections".into());
                }
                if let Some(k) = OUT_DIRS.iter().position(|q| q == d) {
                    if IN_DIRS.iter().position(|q| q == od) != Some(in_slot_of_out(k)) {
                        return Err(format!("connection-dir: {:?} meets {:?}", d, od));
                    }
                    got.push((true, k, *i, *oi, *pos));
                } else if let Some(k) = IN_DIRS.iter().position(|q| q == d) {
                    got.push((false, k, *i, *oi, *pos));
                } else {
                    return Err("connection-dir: centre".into());
                }
            }
            let mut want = vec![];
            for e in &edges {
                if e.fpos == (x, y) {
                    want.push((true, e.oslot, e.out, e.inp, e.tpos));
                }
                if e.tpos == (x, y) {
                    want.push((false, e.islot, e.inp, e.out, e.fpos));
                }
            }
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("connections: cell ({},{}) reports {:?}, layout has {:?}", x, y, got, want));
            }
            // per-direction queries
            if let Some(cell) = m.get(x, y) {
                for k in 0..3 {
                    let we = edges.iter().find(|e| e.fpos == (x, y) && e.oslot == k);
                    let r = cell.is_port_dir_connected(m, OUT_DIRS[k]);
                    if r != we.map(|e| e.tpos) {
                        return Err(format!("port-connected: ({},{}) {:?} reports {:?} expected {:?}", x, y, OUT_DIRS[k], r, we.map(|e| e.tpos)));
                    }
                    let we = edges.iter().find(|e| e.tpos == (x, y) && e.islot == k);
                    let r = cell.is_port_dir_connected(m, IN_DIRS[k]);
                    if r != we.map(|e| e.fpos) {
                        return Err(format!("port-connected: ({},{}) {:?} reports {:?} expected {:?}", x, y, IN_DIRS[k], r, we.map(|e| e.fpos)));
                    }
                }
            }
        }
    }
    let mut ns = l.nodes();
    ns.extend(pool.iter().copied());
    for n in ns {
        for i in 0..n_inputs(n) {
            let p = n.inp_param_by_idx(i).unwrap();
            let want = edges.iter().any(|e| e.to == n && e.inp as usize == i);
            if m.param_input_is_used(p) != want {
                return Err(format!("input-used: {} input {} ({}) reported used={} but layout says {}", n, i, p.name(), !want, want));
            }
        }
    }
    Ok(())
}

fn accept(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = s.usz(1, 7);
    let h = s.usz(1, 7);
    let mut e = Eng::new(w, h);
    let pool = gen_pool(s);
    let odds = s.range(2, 7) as u64;
    let mut l = Layout::new(w, h);
    let steps = s.usz(1, 14);
    c.note(|| format!("grid {}x{} pool {:?}", w, h, pool));
    for _ in 0..steps {
        let mut nl = l.clone();
        let k = s.usz(1, 4);
        for _ in 0..k {
            edit_op(s, &mut nl, &pool, odds);
        }
        let legal = nl.legal();
        let how = s.below(3);
        c.note(|| format!("{} {}", ["change_matrix", "change_matrix_err", "save+check"][how], nl.show()));
        let r = match how {
            0 => e.m.change_matrix(|m| nl.place_into(m)),
            1 => e.m.change_matrix_err(|m| {
                nl.place_into(m);
                Ok(())
            }),
            _ => {
                e.m.save_matrix();
                nl.place_into(&mut e.m);
                let r = e.m.check();
                if r.is_err() {
                    e.m.restore_matrix();
                }
                r
            }
        };
        expect(&nl, &r)?;
        if nl.edges().len() > 0 {
            c.label(if legal { "legal" } else if nl.order().is_none() { "cycle" } else { "dup" });
            if !legal || nl.edges().len() >= 2 {
                c.nontrivial = true;
            }
        }
        if r.is_ok() {
            l = nl;
            if s.bool() {
                if let Err(er) = e.m.sync() {
                    return Err(format!("sync-refused: sync() of a legal layout says {:?}", er));
                }
                check_reported(&e.m, &l, &pool)?;
            } else {
                check_reported(&e.m, &l, &pool)?;
            }
        } else {
            let g = Layout::of_matrix(&e.m);
            if g != l {
                return Err(format!("not-restored: after refusal grid is {} expected {}", g.show(), l.show()));
            }
        }
    }
    // plain placement followed by sync: refused exactly for cycles
    let mut nl = l.clone();
    for _ in 0..2 {
        edit_op(s, &mut nl, &pool, odds);
    }
    nl.place_into(&mut e.m);
    let r = e.m.sync();
    match (nl.order().is_some(), r) {
        (true, Err(x)) => return Err(format!("sync-refused: sync() of acyclic layout says {:?}: {}", x, nl.show())),
        (false, Ok(())) => return Err(format!("sync-accepted-cycle: {}", nl.show())),
        _ => {}
    }
    Ok(())
}

/// Long cycles and long chains laid out on purpose, several cells per node.
fn ring(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    // a chain of k nodes n0 -> n1 -> ... runs down one column; a second cell of n0 below closes the ring (or not)
    let k = s.usz(1, 12);
    let close = s.bool();
    let amp = |i: usize| NodeId::Mix3(i as u8);
    let mut l = Layout::new(3, k + 3);
    let x = s.below(3);
    for i in 0..k {
        l.cells.insert((x, i), MCell { node: amp(i), ins: [if i > 0 { Some(s.below(3) as u8) } else { None }, None, None], outs: [None, None, Some(0)] });
    }
    let last = if close { amp(s.below(k)) } else { amp(k) };
    // an input that is not used yet on any node of the chain
    let inp = 3 + s.below(2) as u8;
    l.cells.insert((x, k), MCell { node: last, ins: [Some(inp), None, None], outs: [None; 3] });
    // permuted instance numbers must not matter
    let perm: Vec<usize> = { let mut v: Vec<usize> = (0..=k).collect(); for i in (1..v.len()).rev() { let j = s.below(i + 1); v.swap(i, j); } v };
    for cell in l.cells.values_mut() {
        cell.node = cell.node.to_instance(perm[cell.node.instance()]);
    }
    let mut e = Eng::new(l.w, l.h);
    c.nontrivial = true;
    c.label(if close { "cycle" } else { "chain" });
    c.note(|| l.show());
    let r = e.m.change_matrix(|m| l.place_into(m));
    expect(&l, &r)?;
    if r.is_ok() {
        check_reported(&e.m, &l, &[])?;
        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
        check_reported(&e.m, &l, &[])?;
    }
    Ok(())
}

/// Fan-out: one node in many cells feeding many distinct nodes.
fn fanout(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = s.usz(1, 60);
    let mut l = Layout::new(6, 64);
    let col = s.below(5);
    let mut inst = 1;
    for i in 0..n {
        l.cells.insert((col, i), MCell { node: NodeId::Sin(0), ins: [None; 3], outs: [Some(0), Some(0), None] });
    }
    for i in 0..n {
        if s.chance(6, 8) {
            l.cells.insert((col + 1, i), MCell { node: NodeId::Amp(inst as u8), ins: [None, if s.bool() { Some(0) } else { None }, if s.bool() { Some(1) } else { None }], outs: [None; 3] });
            inst += 1;
        }
    }
    let succ: std::collections::BTreeSet<usize> = l.edges().iter().map(|e| e.to.instance()).collect();
    c.nontrivial = succ.len() > 8;
    c.mixsig(n as u64 * 1000 + succ.len() as u64);
    c.label(if succ.len() > 32 { "succ>32" } else { "succ<=32" });
    let mut e = Eng::new(l.w, l.h);
    let r = e.m.change_matrix(|m| l.place_into(m));
    expect(&l, &r)?;
    if r.is_ok() {
        check_reported(&e.m, &l, &[])?;
    }
    Ok(())
}

/// The graph ordering on arbitrary graphs: an order is produced exactly for acyclic graphs, it is a topological order.
fn ordering(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut g = NodeGraphOrdering::new();
    let rounds = s.usz(1, 3);
    for _ in 0..rounds {
        g.clear();
        let n = s.usz(1, 24);
        let nodes: Vec<NodeId> = (0..n).map(|i| if i % 2 == 0 { NodeId::Sin(i as u8) } else { NodeId::Amp(i as u8) }).collect();
        for x in &nodes {
            g.add_node(*x);
        }
        let m = s.usz(0, 2 * n);
        let forward = s.chance(5, 8);
        let mut edges = vec![];
        for _ in 0..m {
            let (mut a, mut b) = (s.below(n), s.below(n));
            if forward {
                if a == b {
                    continue;
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            edges.push((nodes[a], nodes[b]));
            g.add_edge(nodes[a], nodes[b]);
        }
        // reference
        let mut left = nodes.clone();
        let mut acyclic = true;
        while !left.is_empty() {
            match left.iter().position(|x| !edges.iter().any(|e| e.1 == *x && left.contains(&e.0))) {
                Some(p) => {
                    left.remove(p);
                }
                None => {
                    acyclic = false;
                    break;
                }
            }
        }
        c.note(|| format!("nodes {} edges {:?} acyclic {}", n, edges, acyclic));
        c.label(if acyclic { "acyclic" } else { "cyclic" });
        if edges.len() > 1 {
            c.nontrivial = true;
        }
        let mut out = vec![];
        let r = g.calculate_order(&mut out);
        if r != acyclic {
            return Err(format!("order-verdict: calculate_order says {} but acyclic={}", r, acyclic));
        }
        if r {
            let mut a = out.clone();
            let mut b = nodes.clone();
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("order-set: {:?} vs {:?}", out, nodes));
            }
            for (x, y) in &edges {
                let px = out.iter().position(|n| n == x).unwrap();
                let py = out.iter().position(|n| n == y).unwrap();
                if px >= py {
                    return Err(format!("order-edge: {} before {} expected", x, y));
                }
            }
        } else if !out.is_empty() {
            return Err("order-not-cleared: out must be empty for a cyclic graph".into());
        }
    }
    Ok(())
}

fn gen_edit(s: &mut Src, l: &Layout, pool: &[NodeId], odds: u64) -> Layout {
    let mut nl = l.clone();
    let k = s.usz(1, 5);
    for _ in 0..k {
        edit_op(s, &mut nl, pool, odds);
    }
    nl
}

/// everything observable about the control side
pub fn observe(m: &mut Matrix, l: &Layout, pool: &[NodeId], patch: bool) -> Vec<String> {
    let mut o = vec![];
    o.push(format!("grid {}", Layout::of_matrix(m).show()));
    o.push(format!("generation {}", m.get_generation()));
    if patch {
        o.push(format!("patch {}", crate::patchgen::repr_text(m)));
    }
    for x in 0..l.w {
        for y in 0..l.h {
            let con = m.get_connections(x, y).map(|v| v.iter().map(|((c, d, i), (oc, od, oi, p))| format!("{} {:?} {} - {} {:?} {} {:?}", c.node_id(), d, i, oc.node_id(), od, oi, p)).collect::<Vec<_>>());
            o.push(format!("connections {} {} {:?}", x, y, con));
        }
    }
    let mut ns = l.nodes();
    ns.extend(pool.iter().copied());
    ns.sort();
    ns.dedup();
    for n in ns {
        for p in crate::patchgen::params_of(n) {
            o.push(format!("{} {} used {} value {:?} mod {:?}", n, p.name(), m.param_input_is_used(p), m.get_param(&p), m.get_param_modamt(&p)));
        }
        for p in crate::patchgen::atoms_of(n) {
            o.push(format!("{} {} value {:?}", n, p.name(), m.get_param(&p)));
        }
        o.push(format!("{} idx {:?} unused {}", n, m.unique_index_for(&n), m.get_unused_instance_node_id(n.to_instance(0))));
    }
    o
}

fn refused(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = s.usz(2, 5);
    let h = s.usz(2, 5);
    let mut a = Eng::new(w, h);
    let mut b = Eng::new(w, h);
    let all = audio_nodes();
    let np = s.usz(2, 8);
    let mut pool: Vec<NodeId> = (0..np).map(|_| { let i = s.usz(0, 2); s.pickc(&all).to_instance(i) }).collect();
    pool.push(NodeId::Out(0));
    pool.push(NodeId::Sin(0));
    pool.push(NodeId::Amp(0));
    let odds = s.range(3, 7) as u64;
    let mut l = Layout::new(w, h);
    let mut nrefused = 0;
    let steps = s.usz(2, 14);
    for st in 0..steps {
        let op = s.weighted(&[3, 5, 3, 1, 3]);
        match op {
            0 => {
                // accepted edit on both sides
                let mut nl = l.clone();
                let nodes = pool.clone();
                let k = s.usz(1, 6);
                crate::patchgen::grow(s, &mut nl, k, |s, _| s.pickc(&nodes), |_, _| true, |_, _| true);
                if s.chance(1, 4) {
                    let keys: Vec<_> = nl.cells.keys().copied().collect();
                    if !keys.is_empty() {
                        nl.cells.remove(s.pick(&keys));
                    }
                }
                if !nl.legal() {
                    continue;
                }
                c.note(|| format!("edit {}", nl.show()));
                let do_sync = s.chance(4, 5);
                for e in [&mut a, &mut b] {
                    e.m.change_matrix(|m| nl.place_into(m)).map_err(|x| format!("refused-legal: {:?}", x))?;
                    if do_sync {
                        e.m.sync().map_err(|x| format!("sync-refused: {:?}", x))?;
                    }
                }
                l = nl;
            }
            1 => {
                // refused or rolled back edit on side a only
                let nl = gen_edit(s, &l, &pool, odds);
                let how = s.below(4);
                let fail_at = s.below(3);
                c.note(|| format!("refused ({}) {}", how, nl.show()));
                match how {
                    0 => {
                        if nl.legal() {
                            continue;
                        }
                        if a.m.change_matrix(|m| nl.place_into(m)).is_ok() {
                            return Err("accepted: illegal layout accepted".into());
                        }
                    }
                    1 => {
                        let r = a.m.change_matrix_err(|m| {
                            if fail_at == 0 {
                                return Err(hexodsp::matrix::MatrixError::PosOutOfRange);
                            }
                            nl.place_into(m);
                            if fail_at == 1 {
                                let _ = m.check();
                            }
                            Err(hexodsp::matrix::MatrixError::PosOutOfRange)
                        });
                        if r.is_ok() {
                            return Err("accepted: failing edit accepted".into());
                        }
                    }
                    2 => {
                        a.m.save_matrix();
                        nl.place_into(&mut a.m);
                        if s.bool() {
                            let _ = a.m.check();
                        }
                        a.m.restore_matrix();
                    }
                    _ => {
                        // a cluster that does not fit or hits other cells
                        let cells: Vec<Cell> = nl.cells.iter().filter(|(p, _)| !l.cells.contains_key(p)).map(|((x, y), mc)| { let mut cc = mc.cell(); cc = cc.with_pos_of(Cell::empty_at(NodeId::Nop, *x as u8, *y as u8)); cc }).collect();
                        let mut cells = cells;
                        let at = s.below(cells.len() + 1);
                        let bad = match (s.bool(), l.cells.keys().next()) {
                            (true, Some(k)) => Cell::empty_at(NodeId::Sin(0), k.0 as u8, k.1 as u8),
                            _ => Cell::empty_at(NodeId::Sin(0), w as u8, s.below(h) as u8),
                        };
                        cells.insert(at, bad);
                        if a.m.change_matrix_err(|m| m.place_multiple(&cells)).is_ok() {
                            return Err("accepted: cluster placed over occupied or missing cell".into());
                        }
                    }
                }
                nrefused += 1;
            }
            2 => {
                let ns: Vec<NodeId> = l.nodes();
                if ns.is_empty() {
                    continue;
                }
                let n = s.pickc(&ns);
                let ps: Vec<_> = crate::patchgen::params_of(n).into_iter().chain(crate::patchgen::atoms_of(n)).collect();
                if ps.is_empty() {
                    continue;
                }
                let p = s.pickc(&ps);
                let v = crate::patchgen::gen_val(s, p);
                c.note(|| format!("set {} {} {:?}", n, p.name(), v));
                for e in [&mut a, &mut b] {
                    e.m.set_param(p, v.clone());
                }
            }
            3 => {
                let ns: Vec<NodeId> = l.nodes();
                if ns.is_empty() {
                    continue;
                }
                let n = s.pickc(&ns);
                if let Some(p) = n.inp_param_by_idx(s.below(n_inputs(n).max(1))) {
                    let v = if s.chance(1, 4) { None } else { Some(s.bip()) };
                    c.note(|| format!("modamt {} {} {:?}", n, p.name(), v));
                    for e in [&mut a, &mut b] {
                        e.m.set_param_modamt(p, v).map_err(|x| format!("modamt: {:?}", x))?;
                    }
                }
            }
            _ => {
                let n = s.usz(1, 128);
                let k = s.usz(1, 4);
                let il = crate::patchgen::gen_signal(s, n);
                c.note(|| format!("render {} x {}", k, n));
                for _ in 0..k {
                    let (al, ar) = a.block(n, &il, &il);
                    let (bl, br) = b.block(n, &il, &il);
                    cmp_sig("sound-left", &al, &bl, 0.0, 0.0)?;
                    cmp_sig("sound-right", &ar, &br, 0.0, 0.0)?;
                }
                a.m.update_output_feedback();
                b.m.update_output_feedback();
                for nd in l.nodes() {
                    for o in 0..n_outputs(nd) {
                        let (x, y) = (a.m.out_fb_for(&nd, o as u8), b.m.out_fb_for(&nd, o as u8));
                        if x.map(|f| f.to_bits()) != y.map(|f| f.to_bits()) && !(x.map_or(false, |f| f.is_nan()) && y.map_or(false, |f| f.is_nan())) {
                            return Err(format!("sound-node: {} out {}: {:?} vs {:?}", nd, o, x, y));
                        }
                    }
                }
            }
        }
        let oa = observe(&mut a.m, &l, &pool, op == 1 && st % 4 == 1 || st + 1 == steps);
        let ob = observe(&mut b.m, &l, &pool, op == 1 && st % 4 == 1 || st + 1 == steps);
        for (x, y) in oa.iter().zip(ob.iter()) {
            if x != y {
                return Err(format!("state {}: after refused edits: {} without them: {}", x.split(' ').next().unwrap_or(""), x, y));
            }
        }
    }
    c.nontrivial = nrefused > 0 && !l.cells.is_empty();
    Ok(())
}

pub fn p02() -> Prop {
    Prop {
        id: "P02",
        level: "exploration",
        rule: "Twin engines run the same random history (accepted edits, parameters, modulation amounts, rendering, all node types); one of them additionally attempts refused edits: illegal layouts through change_matrix, failing closures through change_matrix_err, clusters that do not fit through place_multiple, and save/edit/restore. After every step grid, connections, used inputs, values, amounts, node indices, generation and serialised patch agree, and rendered audio and node outputs are bit-identical. Non-trivial = at least one edit was refused or rolled back on a non-empty layout.",
        assumptions: &["a transaction edits the grid only (placing, replacing, removing cells); it does not set parameters or synchronise inside the transaction", "node instances 0..2, whose oscillators start deterministically"],
        subs: vec![sub("refused", 6000, 120000, refused)],
    }
}

pub fn p01() -> Prop {
    Prop {
        id: "P01",
        level: "exploration",
        rule: "Edit histories on grids up to 7x7 (plus long chains/rings and fan-outs) over all node types; non-trivial = a step whose layout has an illegal wiring or at least two connections; distinct by the full choice sequence.",
        assumptions: &["ports placed in cells exist on the node type", "a node feeds at most 64 distinct other nodes"],
        subs: vec![sub("accept", 12000, 200000, accept), sub("ring", 3000, 40000, ring), sub("fanout", 1500, 20000, fanout), sub("ordering", 30000, 600000, ordering)],
    }
}
