use crate::Prop;
mod edit_props;
mod parse_props;
mod part_props;
mod stream_props;
use edit_props::*;
use parse_props::*;
use part_props::*;
use stream_props::*;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"];

pub fn get(id: &str, thorough: bool) -> Prop {
    let f = match id {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => c07,
        "C08" => c08,
        "C09" => c09,
        "C10" => c10,
        "C11" => c11,
        "C12" => c12,
        "C16" => c16,
        "C19" => c19,
        "C13" => c13,
        "C14" => c14,
        "C15" => c15,
        "C17" => c17,
        "C18" => c18,
        "C20" => c20,
        "C21" => c21,
        "C22" => c22,
        "C23" => c23,
        "C24" => c24,
        _ => panic!("no such property {id}"),
    };
    // cheap enough to explore the whole of it on every change, in one of the two builds
    let all = ["C10", "C13", "C15", "C16", "C17", "C19", "C22", "C23"].contains(&id) && std::env::var_os("VMC_SECOND").is_none();
    f(thorough || all)
}
