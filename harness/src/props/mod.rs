pub mod training;
pub mod python;
pub mod bench;
mod criteria;
pub mod designs;
pub mod doe;
pub mod egor;
pub mod loops;
pub mod mixgp;
pub mod gp;
pub mod mixint;
pub mod moe;
pub mod resume;
pub mod service;
pub mod sgp;
use crate::fw::Ctx;

/// Sub-process helpers (crash workloads and the like).
pub fn helper(name: &str, args: &[String]) -> Option<i32> {
    match name {
        "resume-run" => Some(resume::child_main(args)),
        _ => None,
    }
}

pub fn run(ctx: &Ctx, id: &str) -> bool {
    match id {
        "C01" => doe::c01(ctx),
        "C02" => doe::c02(ctx),
        "C03" => mixint::c03(ctx),
        "C04" => mixint::c04(ctx),
        "C05" => gp::c05(ctx),
        "C06" => gp::c06(ctx),
        "C07" => gp::c07(ctx),
        "C08" => gp::c08(ctx),
        "C09" => gp::c09(ctx),
        "C10" => gp::c10(ctx),
        "C11" => sgp::c11(ctx),
        "C12" => moe::c12(ctx),
        "C13" => moe::c13(ctx),
        "C14" => moe::c14(ctx),
        "C15" => moe::c15(ctx),
        "C17" => egor::c17(ctx),
        "C18" => egor::c18(ctx),
        "C19" => egor::c19(ctx),
        "C20" => loops::c20(ctx),
        "C21" => resume::c21(ctx),
        "C22" => designs::c22(ctx),
        "C23" => service::c23(ctx),
        "C24" => criteria::c24(ctx),
        "C25" => criteria::c25(ctx),
        "C31" => criteria::c31(ctx),
        "C32" => training::c32(ctx),
        "C26" => bench::c26(ctx),
        "C29" => python::c29(ctx),
        "C27" => loops::c27(ctx),
        "C28" => loops::c28(ctx),
        "C30" => mixgp::c30(ctx),
        _ => return false,
    }
    true
}
