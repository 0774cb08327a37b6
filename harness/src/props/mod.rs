use crate::engine::Prop;

#[cfg(feature = "dnssec")]
pub mod signing;
pub mod derived;
pub mod frame;
pub mod history;
pub mod names;
pub mod procs;
pub mod robust;
pub mod sets;
pub mod strict;
pub mod tables;
pub mod values;
pub mod wire;

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23",
];

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => robust::c01(),
        "C02" => wire::c02(),
        "C03" => wire::c03(),
        "C04" => wire::c04(),
        "C05" => wire::c05(),
        "C06" => wire::c06(),
        "C07" => wire::c07(),
        "C08" => history::c08(),
        "C09" => history::c09(),
        "C10" => history::c10(),
        "C11" => names::c11(),
        "C12" => names::c12(),
        "C13" => tables::c13(),
        "C14" => tables::c14(),
        "C15" => history::c15(),
        "C16" => procs::c16(),
        "C17" => sets::c17(),
        #[cfg(feature = "dnssec")]
        "C18" => signing::c18(),
        "C19" => derived::c19(),
        "C20" => procs::c20(),
        "C21" => frame::c21(),
        "C22" => values::c22(),
        "C23" => strict::c23(),
        _ => return None,
    })
}

/// Answers questions of a check that runs in another process.
pub fn serve(_what: &str) -> i32 {
    procs::serve()
}
