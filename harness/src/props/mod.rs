pub mod cli;
pub mod core;
pub mod kotlin;
pub mod lang;
pub mod names;
pub mod options;
pub mod rust;
pub mod shapes;
pub mod sql;
use crate::run::Prop;
pub fn by_id(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => rust::c01(),
        "C02" => rust::c02(),
        "C03" => rust::c03(),
        "C04" => lang::c04(),
        "C05" => lang::c05(),
        "C06" => lang::c06(),
        "C07" => kotlin::c07(),
        "C08" => lang::c08(),
        "C09" => core::c09(),
        "C10" => core::c10(),
        "C11" => core::c11(),
        "C12" => core::c12(),
        "C13" => options::c13(),
        "C14" => shapes::c14(),
        "C15" => shapes::c15(),
        "C16" => shapes::c16(),
        "C17" => sql::c17(),
        "C18" => cli::c18(),
        "C19" => rust::c19(),
        "C20" => cli::c20(),
        "C21" => cli::c21(),
        "C23" => names::c23(),
        _ => return None,
    })
}
/// cases in the quick tier, cases in the thorough tier
pub fn n(quick: u32, thorough: u32) -> u32 {
    if crate::run::thorough() {
        thorough
    } else {
        quick
    }
}
