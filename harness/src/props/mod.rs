//! The properties.

use crate::engine::{entry, Entry};

pub mod hp;
mod conc;
mod h_enc;
pub mod h_dec;
mod h_tab;
mod huf;
mod p_dec;
mod p_enc;
pub mod pb;

pub fn all() -> Vec<Entry> {
    vec![
        entry::<h_enc::H01>(),
        entry::<h_enc::H02>(),
        entry::<h_enc::H03>(),
        entry::<h_enc::H04>(),
        entry::<h_enc::H13>(),
        entry::<h_dec::H05>(),
        entry::<h_dec::H06>(),
        entry::<h_dec::H07>(),
        entry::<h_dec::H08>(),
        entry::<h_dec::H12>(),
        entry::<h_tab::H09>(),
        entry::<h_tab::H10>(),
        entry::<h_tab::H11>(),
        entry::<huf::F01>(),
        entry::<huf::F02>(),
        entry::<huf::F03>(),
        entry::<p_enc::P01>(),
        entry::<p_enc::P02>(),
        entry::<p_dec::P03>(),
        entry::<p_dec::P04>(),
        entry::<p_dec::P05>(),
        entry::<p_dec::P06>(),
        entry::<p_enc::P07>(),
        entry::<p_enc::P08>(),
        entry::<conc::C01>(),
    ]
}

pub use conc::aged;
