use crate::runner::Ctx;

pub mod blocks;
pub mod edits;
pub mod faults;
pub mod files;
pub mod foreign;
pub mod hostile;
pub mod interop;
pub mod logging;
pub mod mbr;
pub mod report;
pub mod small;
pub mod writes;

pub fn dispatch(id: &str, ctx: &Ctx) -> bool {
    match id {
        "C01" => writes::c01(ctx),
        "C02" => writes::c02(ctx),
        "C03" => writes::c03(ctx),
        "C04" => writes::c04(ctx),
        "C05" => edits::c05(ctx),
        "C06" => edits::c06(ctx),
        "C07" => edits::c07(ctx),
        "C08" => edits::c08(ctx),
        "C09" => edits::c09(ctx),
        "C10" => faults::c10(ctx),
        "C11" => faults::c11(ctx),
        "C12" => faults::c12(ctx),
        "C13" => faults::c13(ctx),
        "C14" => faults::c14(ctx),
        "C15" => writes::c15(ctx),
        "C16" => hostile::c16(ctx),
        "C17" => mbr::c17(ctx),
        "C18" => mbr::c18(ctx),
        "C19" => small::c19(ctx),
        "C20" => small::c20(ctx),
        "C21" => small::c21(ctx),
        "C22" => files::c22(ctx),
        "C23" => writes::c23(ctx),
        "C24" => small::c24(ctx),
        "C25" => edits::c25(ctx),
        "C26" => edits::c26(ctx),
        "C27" => foreign::c27(ctx),
        "C28" => writes::c28(ctx),
        "C29" => edits::c29(ctx),
        "C30" => foreign::c30(ctx),
        "C31" => small::c31(ctx),
        "C32" => logging::c32(ctx),
        "C33" => report::c33(ctx),
        "C34" => report::c34(ctx),
        "C35" => interop::c35(ctx),
        "C36" => blocks::c36(ctx),
        _ => return false,
    }
    true
}
