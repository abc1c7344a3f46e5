//! One simulated system per property.
use crate::ctx::{Ctx, R};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod hostile;

pub type Scen = fn(&mut Ctx) -> R;

pub struct Prop {
    pub id: &'static str,
    pub f: Scen,
    pub quick: u64,
    pub rule: &'static str,
}

pub const ALL: &[Prop] = &[
    Prop { id: "C01", f: c01::run, quick: 120_000, rule: c01::RULE },
    Prop { id: "C02", f: c02::run, quick: 20_000, rule: c02::RULE },
    Prop { id: "C03", f: c03::run, quick: 100_000, rule: c03::RULE },
    Prop { id: "C04", f: c04::run, quick: 120_000, rule: c04::RULE },
    Prop { id: "C05", f: c05::run, quick: 150_000, rule: c05::RULE },
    Prop { id: "C06", f: c06::run, quick: 250_000, rule: c06::RULE },
    Prop { id: "C07", f: c07::run, quick: 80_000, rule: c07::RULE },
    Prop { id: "C08", f: c08::run, quick: 100_000, rule: c08::RULE },
    Prop { id: "C09", f: c09::run, quick: 300_000, rule: c09::RULE },
    Prop { id: "C10", f: c10::run, quick: 250_000, rule: c10::RULE },
    Prop { id: "C11", f: c11::run, quick: 200_000, rule: c11::RULE },
    Prop { id: "C16", f: c16::run, quick: 120_000, rule: c16::RULE },
    Prop { id: "C17", f: c17::run, quick: 120_000, rule: c17::RULE },
    Prop { id: "C18", f: c18::run, quick: 90_000, rule: c18::RULE },
    Prop { id: "C20", f: c20::run, quick: 60_000, rule: c20::RULE },
    Prop { id: "C19", f: c19::run, quick: 100_000, rule: c19::RULE },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
