use crate::fw::Prop;
pub mod blockedit;
mod blockprog;
mod builders;
mod converge;
mod dataflow;
mod display;
mod dynnode;
mod ends;
mod feedback;
pub mod files;
mod finite;
mod graphs;
mod layout;
mod live;
pub mod midi;
mod nodes;
mod observe;
mod params;
mod patchio;
mod sampler;
mod tables;
mod tracker;
mod rtsafe;
pub mod slicing;
mod units;

pub fn all() -> Vec<Prop> {
    vec![layout::p01(), layout::p02(), dataflow::p03(), live::p04(), params::p05(), slicing::p06(), patchio::p07(), patchio::p08(), files::p09(), tables::p10(), tables::p11(), tracker::p12(), midi::p13(), feedback::p14(), display::p15(), sampler::p16(), finite::p17(), blockprog::p18(), blockedit::p19(), builders::p20(), converge::p21(), units::p22(), nodes::p23(), observe::p24(), dynnode::p25(), graphs::p26(), rtsafe::p27(), ends::p28()]
}
pub fn get(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
