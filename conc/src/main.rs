//! Explores every interleaving of threads that share the in-memory store: the store's locks are
//! replaced by ones whose acquisitions a scheduler places (`parking_lot/` beside this crate).
#[path = "../../mc/src/cli.rs"]
mod cli;
mod conc;
#[path = "../../mc/src/util.rs"]
#[allow(dead_code)]
mod util;
mod world {
    pub fn history_text() -> String {
        String::new()
    }
}
pub use cli::*;

fn main() {
    cli::main_with(|p, ctx| match p {
        "C28" => Some(conc::c28(ctx)),
        _ => None,
    })
}
