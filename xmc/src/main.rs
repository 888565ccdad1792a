//! Exhaustive exploration of what surrounds the parsers: how grammars are written down (C22) and
//! the demo command (C25).
//!
//!   xmc check <ID> <tier> <verif dir>
//!   xmc replay <file> <verif dir>
//!
//! Exit codes: 0 held, 1 violation, 2 the machinery failed.

#![allow(dead_code)]

#[path = "../../wopmc/src/drive.rs"]
mod drive;
#[path = "../../wopmc/src/ex.rs"]
mod ex;
#[path = "../../mc/src/fam.rs"]
mod fam;
#[path = "../../wopmc/src/gen.rs"]
mod gen;
#[path = "../../mc/src/gram.rs"]
mod gram;
#[path = "../../mc/src/lrref.rs"]
mod lrref;
#[path = "../../mc/src/sut.rs"]
mod sut;

/// What the shared code generator wants to know of the wop checks.
mod shapes {
    pub const LEAVES: usize = 0;
}

mod decl;
mod demo;

use drive::report;
use ex::{Bad, Ctx, Stats};
use std::process::exit;

fn main() {
    drive::main(
        run,
        &[
            "bounds: the families listed under families; nothing is claimed beyond them",
            "every execution is an execution of the real crate or of its real command",
        ],
    )
}

/// `only`: decide just this case.
fn run(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    match c.id.as_str() {
        "C22" => decl::run(c, only, st),
        "C25" => demo::run(c, only, st),
        _ => {
            eprintln!("unknown property {}", c.id);
            exit(2)
        }
    }
}
