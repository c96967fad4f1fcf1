//! Registry of properties.
use crate::ctx::{Ctx, R};

pub mod s01;
pub mod s03;
pub mod s04;
pub mod s05;
pub mod s06;
pub mod s07;
pub mod s08;
pub mod s09;
pub mod s10;
pub mod s11;
pub mod s12;
pub mod s13;
pub mod s14;
#[cfg(feature = "typegen")]
pub mod s15;
pub mod s16;
pub mod s17;
pub mod s18;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// demonstrations of known findings: (case name, Some(message) when the defect shows)
    pub known: &'static [(&'static str, fn() -> Option<String>)],
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub min_secs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static str,
}

pub const ALL: &[&Prop] = &[&s01::S01, &s01::S02, &s03::PROP, &s04::PROP, &s05::PROP, &s06::PROP, &s07::PROP, &s08::PROP, &s09::PROP, &s10::PROP, &s11::PROP, &s12::PROP, &s13::PROP, &s14::PROP, #[cfg(feature = "typegen")] &s15::PROP, &s16::PROP, &s17::PROP, &s18::PROP];

pub fn get(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id).copied()
}
