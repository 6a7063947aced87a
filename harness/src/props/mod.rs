use crate::runner::{DynProp, Entry};
use std::marker::PhantomData;

pub mod forge;
pub mod geo;
pub mod kinds;
pub mod meta;
pub mod diff;
pub mod faults;
pub mod structure;
pub mod surf;
pub mod text;
pub mod wad;

pub fn all() -> Vec<Box<dyn DynProp>> {
    macro_rules! list { ($($t:ty),* $(,)?) => { vec![$(Box::new(Entry::<$t>(PhantomData)) as Box<dyn DynProp>),*] } }
    list![structure::C01, structure::C02, structure::C03, structure::C04, forge::C05,
        text::C06, text::C07, text::C08,
        geo::C09, geo::C10, geo::C11, geo::C12, geo::C13,
        surf::C14, surf::C15, surf::C16, surf::C17, surf::C18, surf::C19,
        meta::C20, meta::C21, meta::C22,
        forge::C23, forge::C24,
        wad::C25, wad::C26, wad::C27, wad::C28, wad::C29,
        diff::C30, faults::C31,
        meta::C32, kinds::C33,
    ]
}
