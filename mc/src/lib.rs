//! The model checker: everything that does not depend on the code under test.
pub mod adv;
pub mod common;
pub mod explore;
pub mod rec;
pub mod selftest;
pub mod tiny;

pub use adv::{accept, conform, outs, pins, run, show, showf, wire, Circuit, DynCircuit, Exp, Jobs, Judge, Run, Wire};
pub use common::*;
pub use explore::*;
pub use rec::*;
pub use tiny::*;

/// One check: `rule` says how cases are made.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub f: fn(&Ctx),
}

pub fn main_with(checks: &[Check]) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    if id == "selftest" {
        let _ = std::panic::take_hook();
        selftest::run();
        std::process::exit(0);
    }
    let tier = a.get(2).cloned().unwrap_or("quick".into());
    let only = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1).cloned());
    let c = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            println!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut ctx = Ctx::new(&id, tier == "thorough", only);
        ctx.level = c.level;
        ctx.rule = c.rule;
        ctx.assumptions = c.assumptions.to_vec();
        selftest::quick();
        (c.f)(&ctx);
        ctx.finish(true)
    }));
    match r {
        Ok(code) => std::process::exit(code),
        Err(e) => {
            println!("internal error: {}", panic_text(&*e));
            std::process::exit(2);
        }
    }
}
