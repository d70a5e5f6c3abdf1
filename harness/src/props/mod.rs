//! Property table.
use crate::core::Stratum;
pub mod ahrs;
pub mod cause;
pub mod det;
pub mod linear;
pub mod misc;
pub mod quat;
pub mod store;

pub fn table(id: &str) -> Option<(&'static str, &'static [Stratum])> {
    Some(match id {
        "C01" => ("C01", store::C01),
        "C02" => ("C02", store::C02),
        "C03" => ("C03", store::C03),
        "C04" => ("C04", store::C04),
        "C05" => ("C05", store::C05),
        "C06" => ("C06", linear::C06),
        "C07" => ("C07", linear::C07),
        "C08" => ("C08", linear::C08),
        "C09" => ("C09", linear::C09),
        "C10" => ("C10", linear::C10),
        "C11" => ("C11", linear::C11),
        "C12" => ("C12", linear::C12),
        "C13" => ("C13", linear::C13),
        "C14" => ("C14", quat::C14),
        "C15" => ("C15", quat::C15),
        "C16" => ("C16", quat::C16),
        "C17" => ("C17", quat::C17),
        "C18" => ("C18", quat::C18),
        "C19" => ("C19", ahrs::C19),
        "C20" => ("C20", ahrs::C20),
        "C21" => ("C21", ahrs::C21),
        "C22" => ("C22", ahrs::C22),
        "C23" => ("C23", ahrs::C23),
        "C24" => ("C24", ahrs::C24),
        "C28" => ("C28", ahrs::C28),
        "C25" => ("C25", misc::C25),
        "C26" => ("C26", misc::C26),
        "C31" => ("C31", linear::C31),
        "C32" => ("C32", linear::C32),
        "C34" => ("C34", ahrs::C34),
        "C35" => ("C35", cause::C35),
        #[cfg(feature = "std")]
        "C33" => ("C33", misc::C33),
        "C27" => ("C27", det::C27),
        _ => return None,
    })
}
