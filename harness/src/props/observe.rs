// P24: observers see every change of the matrix.
use crate::eng::*;
use crate::fw::*;
use crate::model::{audio_nodes, gen_cell};
use crate::patchgen::*;
use crate::props::midi::gen_event;
use hexodsp::matrix::{MatrixError, MatrixObserver};
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Prop(String),
    Mon(Cell),
    Param(ParamId),
    Matrix,
    All,
    Midi(String),
}
#[derive(Default)]
struct Obs {
    ev: Mutex<Vec<Ev>>,
}
impl Obs {
    fn add(&self, e: Ev) {
        self.ev.lock().unwrap().push(e);
    }
    fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.ev.lock().unwrap())
    }
}
impl MatrixObserver for Obs {
    fn update_prop(&self, key: &str) {
        self.add(Ev::Prop(key.to_string()))
    }
    fn update_monitor(&self, cell: &Cell) {
        self.add(Ev::Mon(*cell))
    }
    fn update_param(&self, p: &ParamId) {
        self.add(Ev::Param(*p))
    }
    fn update_matrix(&self) {
        self.add(Ev::Matrix)
    }
    fn update_all(&self) {
        self.add(Ev::All)
    }
    fn midi_event(&self, e: HxMidiEvent) {
        self.add(Ev::Midi(format!("{:?}", e)))
    }
}

fn is(kind: &str, got: &[Ev], exp: &[Ev]) -> Result<(), String> {
    if got != exp {
        return Err(format!("{}: reported {:?}, expected {:?}", kind, got, exp));
    }
    Ok(())
}

fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (w, h) = (s.usz(1, 5), s.usz(1, 5));
    let mut e = Eng::new(w, h);
    let mut o = Arc::new(Obs::default());
    e.m.set_observer(o.clone());
    let nodes: Vec<NodeId> = (0..s.usz(1, 4)).map(|_| s.pickc(&audio_nodes()).to_instance(s.below(3))).collect();
    let mut props: BTreeMap<String, i64> = BTreeMap::new();
    let mut par: BTreeMap<ParamId, SAtom> = BTreeMap::new();
    let mut amt: BTreeMap<ParamId, Option<f32>> = BTreeMap::new();
    let mut saved: Option<(MatrixRepr, BTreeMap<String, i64>)> = None;
    let mut midi: Vec<String> = vec![]; // on the way to the audio side, in order
    let mut back: Vec<String> = vec![]; // on the way back
    let (mut changes, mut last_gen) = (0, e.m.get_generation());
    for _ in 0..s.usz(1, 30) {
        let op = s.weighted(&[6, 6, 3, 4, 3, 3, 1, 1, 3, 3, 3, 2, 1, 2]);
        let n = *s.pick(&nodes);
        let mut moved = None;
        let kind;
        match op {
            0 => {
                kind = "param";
                let mut ps = params_of(n);
                ps.extend(atoms_of(n));
                if ps.is_empty() {
                    continue;
                }
                let p = *s.pick(&ps);
                let v = gen_val(s, p);
                c.note(|| format!("set_param {:?} {:?}", p, v));
                e.m.set_param(p, v.clone());
                is("param", &o.take(), &[Ev::Param(p)])?;
                if e.m.get_param(&p) != Some(v.clone()) {
                    return Err(format!("param-value: {:?} is {:?}, expected {:?}", p, e.m.get_param(&p), v));
                }
                par.insert(p, v);
                moved = Some(true);
            }
            1 => {
                kind = "modamt";
                let ps = params_of(n);
                if ps.is_empty() {
                    continue;
                }
                let p = *s.pick(&ps);
                let v = if s.chance(1, 3) { None } else { Some(s.pickc(&[0.0f32, 0.5, -1.0, 0.25])) };
                let old = e.m.get_param_modamt(&p);
                c.note(|| format!("set_param_modamt {:?} {:?} (was {:?})", p, v, old));
                let r = e.m.set_param_modamt(p, v);
                let got = o.take();
                if e.m.get_param_modamt(&p) != v {
                    return Err(format!("modamt-value: {:?} is {:?}, expected {:?}", p, e.m.get_param_modamt(&p), v));
                }
                if old != v {
                    is("modamt", &got, &[Ev::Param(p)])?;
                    moved = Some(true);
                    if r.is_err() {
                        c.label("modamt-cycle");
                    }
                } else if got.len() > 0 {
                    is("modamt-same", &got, &[Ev::Param(p)])?;
                }
                amt.insert(p, v);
                c.label(match (old, v) {
                    (Some(_), Some(_)) => "modamt-change",
                    (None, Some(_)) => "modamt-add",
                    (Some(_), None) => "modamt-remove",
                    _ => "modamt-none",
                });
            }
            2 => {
                kind = "prop";
                let k = s.pickc(&["a", "b", "", "long name ✓"]);
                let v = s.range(-3, 3);
                c.note(|| format!("set_prop {:?} {}", k, v));
                e.m.set_prop(k, SAtom::setting(v));
                is("prop", &o.take(), &[Ev::Prop(k.to_string())])?;
                props.insert(k.to_string(), v);
                moved = Some(true);
            }
            3 | 4 => {
                kind = "place";
                let (x, y) = (s.below(w), s.below(h));
                let cell = if s.chance(1, 6) { Cell::empty(NodeId::Nop) } else { gen_cell(s, n, 4).cell() };
                let how = s.below(3);
                c.note(|| format!("place {} {} {:?} (way {})", x, y, cell, how));
                match how {
                    0 => e.m.place(x, y, cell),
                    1 => {
                        let _ = e.m.change_matrix(|m| m.place(x, y, cell));
                    }
                    _ => {
                        let _ = e.m.change_matrix_err(|m| {
                            m.place(x, y, cell);
                            Err(MatrixError::PosOutOfRange)
                        });
                    }
                }
                // the change is reported when it takes effect
                is("place", &o.take(), &[])?;
            }
            5 => {
                kind = "sync";
                let r = e.m.sync();
                c.note(|| format!("sync {:?}", r));
                let mut got = o.take();
                if r.is_ok() {
                    let mon = *e.m.monitored_cell();
                    got.retain(|x| *x != Ev::Mon(mon));
                    is("sync", &got, &[Ev::Matrix])?;
                    moved = Some(true);
                } else {
                    is("sync-refused", &got, &[])?;
                    c.label("sync-refused");
                }
            }
            6 => {
                kind = "clear";
                c.note(|| "clear".to_string());
                e.m.clear();
                let got = o.take();
                if got.last() != Some(&Ev::All) || got.iter().filter(|x| **x == Ev::All).count() != 1 || got.iter().any(|x| matches!(x, Ev::Param(_) | Ev::Prop(_) | Ev::Midi(_))) {
                    return Err(format!("clear: reported {:?}", got));
                }
                props.clear();
                par.clear();
                amt.clear();
                moved = Some(true);
            }
            7 => {
                kind = "load";
                let Some((r, p)) = &saved else {
                    c.note(|| "save".to_string());
                    saved = Some((e.m.to_repr(), props.clone()));
                    is("save", &o.take(), &[])?;
                    if e.m.get_generation() != last_gen {
                        return Err("save-generation: to_repr changed the generation".to_string());
                    }
                    continue;
                };
                c.note(|| "load".to_string());
                let res = e.m.from_repr(r);
                let got = o.take();
                if got.last() != Some(&Ev::All) || got.iter().any(|x| matches!(x, Ev::Param(_) | Ev::Prop(_) | Ev::Midi(_))) {
                    return Err(format!("load: reported {:?}", got));
                }
                let _ = res;
                props = p.clone();
                par.clear();
                amt.clear();
                moved = Some(true);
            }
            8 => {
                kind = "monitor";
                let cell = if s.bool() { *e.m.get(s.below(w), s.below(h)).unwrap() } else { gen_cell(s, n, 4).cell() };
                c.note(|| format!("monitor {:?}", cell));
                e.m.monitor_cell(cell);
                is("monitor", &o.take(), &[Ev::Mon(cell)])?;
            }
            9 => {
                kind = "inject";
                // no more than the audio side takes per block, and than the way back can hold
                if midi.len() > 40 || back.len() > 300 {
                    continue;
                }
                for _ in 0..s.usz(1, 20) {
                    let ev = gen_event(s, &[0, 1, 15], &[0, 60, 127], &[0, 1, 127]);
                    c.note(|| format!("inject {:?}", ev));
                    e.m.inject_midi_event(ev);
                    midi.push(format!("{:?}", ev));
                }
                is("inject", &o.take(), &[])?;
            }
            10 => {
                kind = "audio";
                let mut evs = vec![];
                let n = s.usz(1, 128);
                if back.len() < 300 {
                    for _ in 0..s.pickc(&[0usize, 1, 5, 40]) {
                        let ev = gen_event(s, &[0, 1, 15], &[0, 60, 127], &[0, 1, 127]);
                        evs.push(HxTimedEvent::new_timed(0, ev));
                        midi.push(format!("{:?}", ev));
                    }
                }
                c.note(|| format!("audio block of {} frames, {} events", n, evs.len()));
                let z = vec![0.0; n];
                e.block_ev(n, &z, &z, &evs);
                back.append(&mut midi);
                is("audio", &o.take(), &[])?;
                moved = Some(false);
            }
            11 => {
                kind = "events";
                c.note(|| format!("handle_graph_events, {} events", back.len()));
                e.m.handle_graph_events();
                let exp: Vec<Ev> = back.drain(..).map(Ev::Midi).collect();
                if exp.len() > 1 {
                    c.label("midi");
                }
                is("events", &o.take(), &exp)?;
                moved = Some(false);
            }
            12 => {
                kind = "observer";
                c.note(|| "another observer".to_string());
                let old = o.clone();
                o = Arc::new(Obs::default());
                e.m.set_observer(o.clone());
                // the old one is not informed any more
                let p = s.pickc(&["a", "b"]);
                e.m.set_prop(p, SAtom::setting(7));
                props.insert(p.to_string(), 7);
                is("old-observer", &old.take(), &[])?;
                is("new-observer", &o.take(), &[Ev::Prop(p.to_string())])?;
                moved = Some(true);
            }
            _ => {
                kind = "query";
                let _ = e.m.check();
                let _ = e.m.to_repr();
                let _ = e.m.get_prop("a");
                e.m.update_filters();
                e.m.update_output_feedback();
                let _ = e.m.filtered_led_for(&n);
                let _ = e.m.out_fb_for(&n, 0);
                let _ = e.m.pop_error();
                let _ = e.m.get_minmax_monitor_samples(0);
                e.m.for_each_atom(|_, _, _, _| ());
                is("query", &o.take(), &[])?;
                moved = Some(false);
            }
        }
        // everything else is still as it was reported
        for (p, v) in &par {
            if e.m.get_param(p).as_ref() != Some(v) {
                return Err(format!("{}-silent: parameter {:?} changed to {:?} without a report", kind, p, e.m.get_param(p)));
            }
        }
        for (p, v) in &amt {
            if e.m.get_param_modamt(p) != *v {
                return Err(format!("{}-silent: modulation amount of {:?} changed to {:?} without a report", kind, p, e.m.get_param_modamt(p)));
            }
        }
        for k in ["a", "b", "", "long name ✓"] {
            let v = e.m.get_prop(k).map(|x| x.i());
            if v != props.get(k).copied() {
                return Err(format!("{}-silent: property {:?} is {:?}, expected {:?}", kind, k, v, props.get(k)));
            }
        }
        let g = e.m.get_generation();
        if g < last_gen || (moved == Some(true) && g == last_gen) || (moved == Some(false) && g != last_gen) {
            return Err(format!("{}-generation: the counter went from {} to {}", kind, last_gen, g));
        }
        last_gen = g;
        if moved == Some(true) {
            changes += 1;
        }
    }
    c.nontrivial = changes >= 3;
    Ok(())
}

pub fn p24() -> Prop {
    Prop {
        id: "P24",
        level: "exploration",
        rule: "non-trivial: at least three operations of the history changed the matrix",
        assumptions: &["no more than 64 injected MIDI events per block and 512 unread events"],
        subs: vec![sub("history", 10000, 300000, history)],
    }
}
