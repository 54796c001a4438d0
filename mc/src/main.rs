//! jmtmc <property> [--tier quick|thorough] [--replay FILE] [--only FAMILY]
mod basic;
mod cli;
mod codec;
mod faults;
mod forge;
mod local;
mod record;
mod ics;
mod mock;
mod restore;
mod shapes;
mod spec;
mod store;
mod util;
mod world;

pub use cli::*;
use util::*;

fn main() {
    cli::main_with(run)
}

fn run(p: &str, ctx: &Ctx) -> Option<Info> {
    Some(match p {
        "C01" => basic::c01(ctx),
        "C02" => basic::c02(ctx),
        "C03" => basic::c03(ctx),
        "C04" => forge::c04(ctx),
        "C05" => basic::c05(ctx),
        "C06" => forge::c06(ctx),
        "C07" => forge::c07(ctx),
        "C08" => faults::c08(ctx),
        "C09" => basic::c09(ctx),
        "C10" => faults::c10(ctx),
        "C11" => basic::c11(ctx),
        "C12" => basic::c12(ctx),
        "C13" => forge::c13(ctx),
        "C14" => restore::c14(ctx),
        "C15" => restore::c15(ctx),
        "C16" => restore::c16(ctx),
        "C17" => ics::c17(ctx),
        "C18" => ics::c18(ctx),
        "C19" => codec::c19(ctx),
        "C20" => basic::c20(ctx),
        "C21" => mock::c21(ctx),
        "C22" => faults::c22(ctx),
        "C23" => faults::c23(ctx),
        "C24" => basic::c24(ctx),
        "C25" => local::c25(ctx),
        "C26" => local::c26(ctx),
        "C27" => record::c27(ctx),
        #[cfg(feature = "nostd")]
        "C29" => c29(ctx),
        _ => return None,
    })
}

/// The library built without `std`: bounded forms of other checks.
#[cfg(feature = "nostd")]
fn c29(ctx: &Ctx) -> Info {
    let part = |p| *ctx.part.lock().unwrap() = p;
    let parts: [(&str, fn(&Ctx) -> Info); 7] = [
        ("root ", basic::c02),
        ("store ", mock::c21),
        ("statistics ", basic::c20),
        ("missing ", basic::c24),
        ("append ", faults::c22),
        ("pruning ", basic::c09),
        ("interfaces ", basic::c11),
    ];
    for (p, f) in parts {
        part(p);
        f(ctx);
    }
    part("");
    mc("stateless exploration of the real code built without the standard library: the histories, store operations, prunings and interfaces of C02, C09, C11, C20, C21, C22 and C24, with the same oracles")
}
