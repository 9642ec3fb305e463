#![allow(clippy::all, unused)]
//! Harnesses for the crabslab properties C01..C07, decided by Kani.
#[macro_use]
pub mod nd;
pub mod grow;
pub mod handles;
pub mod layout;
pub mod slices;
#[cfg(not(kani))]
pub mod slices_x;
pub mod store;
#[cfg(not(kani))]
pub mod store_x;
pub mod total;
pub mod types;

#[cfg(not(kani))]
pub fn harnesses() -> Vec<(&'static str, extern "C" fn())> {
    [store::HARNESSES, total::HARNESSES, slices::HARNESSES, slices_x::HARNESSES, store_x::HARNESSES, layout::HARNESSES, handles::HARNESSES, grow::HARNESSES]
        .concat()
}
