//! The properties, one module per group.
use crate::fw::*;
pub mod c01;
pub mod c03;
pub mod c06;
pub mod c10;
pub mod c12;
pub mod c14;
pub mod c16;
pub mod c18;
pub mod c20;
pub mod c22;
pub mod c25;

pub struct Prop {
    pub jobs: Vec<Job>,
    /// when a generated case counts as non-trivial
    pub rule: &'static str,
}
pub fn ids() -> Vec<&'static str> {
    vec!["C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"]
}
pub fn get(id: &str, ctx: &Ctx) -> Prop {
    match id {
        "C01" => c01::c01(ctx),
        "C03" => c03::c03(ctx),
        "C04" => c03::c04(ctx),
        "C05" => c03::c05(ctx),
        "C06" => c06::c06(ctx),
        "C07" => c06::c07(ctx),
        "C08" => c06::c08(ctx),
        "C09" => c06::c09(ctx),
        "C10" => c10::c10(ctx),
        "C11" => c10::c11(ctx),
        "C12" => c12::c12(ctx),
        "C13" => c12::c13(ctx),
        "C14" => c14::c14(ctx),
        "C15" => c14::c15(ctx),
        "C17" => c14::c17(ctx),
        "C18" => c18::c18(ctx),
        "C19" => c18::c19(ctx),
        "C20" => c20::c20(ctx),
        "C21" => c20::c21(ctx),
        "C22" => c22::c22(ctx),
        "C23" => c22::c23(ctx),
        "C25" => c25::c25(ctx),
        "C26" => c25::c26(ctx),
        "C16" => c16::c16(ctx),
        "C24" => c16::c24(ctx),
        "C27" => c16::c27(ctx),
        "C28" => c16::c28(ctx),
        _ => {
            eprintln!("ERROR: no property {id}");
            std::process::exit(2)
        }
    }
}
