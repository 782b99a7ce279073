pub mod abi;
#[cfg(feature = "custom")]
pub mod custom;
pub mod deploy;
pub mod determinism;
pub mod encoding;
pub mod hash;
pub mod limits;
pub mod mixed;
pub mod pointers;
pub mod prices;
pub mod system;
pub mod tables;
pub mod values;

use crate::engine::Property;

pub const ALL: [(&str, fn() -> Property); 34] = [
    ("C01", encoding::c01),
    ("C02", encoding::c02),
    ("C03", encoding::c03),
    ("C04", encoding::c04),
    ("C05", encoding::c05),
    ("C06", tables::c06),
    ("C07", tables::c07),
    ("C08", tables::c08),
    ("C09", tables::c09),
    ("C10", tables::c10),
    ("C11", tables::c11),
    ("C12", tables::c12),
    ("C13", encoding::c13),
    ("C14", abi::c14),
    ("C15", abi::c15),
    ("C16", abi::c16),
    ("C17", abi::c17),
    ("C18", abi::c18),
    ("C19", abi::c19),
    ("C20", hash::c20),
    ("C21", prices::c21),
    ("C22", prices::c22),
    ("C23", prices::c23),
    ("C24", system::c24),
    ("C25", determinism::c25),
    ("C26", encoding::c26),
    ("C27", values::c27),
    ("C28", values::c28),
    ("C29", limits::c29),
    ("C30", limits::c30),
    ("C31", limits::c31),
    ("C32", pointers::c32),
    ("C33", deploy::c33),
    ("C34", c34),
];

#[cfg(feature = "custom")]
use custom::c34;

/// The traits a user implements have changed, so nothing can be said about implementations of them.
#[cfg(not(feature = "custom"))]
fn c34() -> Property {
    use crate::engine::{trivial, Arg, Kind};
    Property {
        id: "C34",
        rule: "the traits for user-defined modes and hash kinds are not those of the original tree; no case counts",
        assumptions: vec![],
        kinds: vec![Kind::exhaustive("none", vec![Arg::Below(1)], |_| trivial("the traits have changed"))],
    }
}

pub fn get(id: &str) -> Option<Property> {
    let ordinal = ALL.iter().position(|p| p.0 == id)?;
    mixed::set_current(ordinal);
    let mut p = (ALL[ordinal].1)();
    mixed::add(id, &mut p.kinds);
    Some(p)
}
