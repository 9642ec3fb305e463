//! Histories of craballoc and crabslab, run symbolically (feature `sym`) and natively.
pub mod rt;
mod conc;
mod hist;
mod ranges;
mod reads;
mod slabs;
mod world;

pub type Row = (&'static str, extern "C" fn(), &'static [&'static str]);
pub fn all() -> Vec<Row> {
    [conc::LIST, ranges::LIST, hist::LIST, reads::LIST, slabs::LIST, slabs::OUTSIDE].concat()
}
