//! Exhaustive exploration of the `wop` grammar compiler, one property per run.
//!
//!   wopmc check <ID> <tier> <verif dir>
//!   wopmc replay <file> <verif dir>
//!
//! Exit codes: 0 held, 1 violation, 2 the machinery failed.

mod ast;
mod boot;
mod build;
mod cli;
mod drive;
mod ex;
mod fault;
mod front;
mod gen;
mod lex;
mod shapes;

use drive::report;
use ex::{Bad, Ctx, Stats};
use std::process::exit;

fn main() {
    drive::main(
        run,
        &[
            "bounds: the families listed under families; nothing is claimed beyond them",
            "every execution is an execution of the real wop crate (or of the code it generated); the reference front end only judges it",
            "wop is built as its Cargo.toml says, against the published lrp 0.1.0",
        ],
    )
}

/// `only`: decide just this case.
fn run(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    match c.id.as_str() {
        "C15" => lex::run(c, only, st),
        "C16" => ast::run(c, only, st),
        "C17" => build::expansions(c, only, st),
        "C18" => build::bindings(c, only, st),
        "C19" => build::programs(c, only, st),
        "C20" => boot::run(c, st),
        "C21" => cli::run(c, only, st),
        "C27" => fault::run(c, only, st),
        _ => {
            eprintln!("unknown property {}", c.id);
            exit(2)
        }
    }
}
