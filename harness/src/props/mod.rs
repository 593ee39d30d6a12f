//! The properties' monitors.

use crate::ctx::{Ctx, Tier};

mod c01_03;
mod c04_08;
mod c09_23;
mod c10_16;
mod c17_20;
mod c21;
mod c22;

pub use c21::transcript;

pub struct Prop {
    pub id: &'static str,
    /// Judges one case, made from `ctx.rng` and `ctx.case`.
    pub run: fn(&mut Ctx),
    /// The number of cases after which a run ends, if time doesn't end it first.
    pub cases: fn(Tier) -> u64,
    /// Cases that are always run, even past the deadline.
    pub min_cases: fn(Tier) -> u64,
    /// Seconds after which no new case is started.
    pub secs: fn(Tier) -> f64,
    /// Seconds without progress after which a worker counts as hung.
    pub hang_secs: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn unlimited(_: Tier) -> u64 {
    u64::MAX
}

pub fn default_secs(t: Tier) -> f64 {
    let s = match t {
        Tier::Quick => 25.0,
        Tier::Thorough => 420.0,
    };
    std::env::var("MON_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(s)
}

/// For properties over small domains.
pub fn short_secs(t: Tier) -> f64 {
    match t {
        Tier::Quick => default_secs(t).min(10.0),
        Tier::Thorough => default_secs(t).min(150.0),
    }
}

pub static ALL: &[&Prop] = &[&c01_03::C01, &c01_03::C02, &c01_03::C03,
    &c04_08::C04, &c04_08::C05, &c04_08::C06, &c04_08::C07, &c04_08::C08,
    &c09_23::C09, &c10_16::C10, &c10_16::C11, &c10_16::C12, &c10_16::C13, &c10_16::C14, &c10_16::C15, &c10_16::C16,
    &c17_20::C17, &c17_20::C18, &c17_20::C19, &c17_20::C20, &c21::C21, &c22::C22, &c09_23::C23,
];
