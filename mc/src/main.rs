//! Model checker for the dumpster garbage collector. See /verif/DESIGN.md.

#![allow(clippy::missing_safety_doc)]

mod auto;
mod conc;
mod cond;
mod driver;
mod dtor;
#[cfg(feature = "unsized")]
mod fat;
mod exit;
mod flavor;
mod ghost;
mod layout;
mod scale;
mod seq;
mod world;

mod checks;

#[global_allocator]
static ALLOC: parking_lot::mc::McAlloc = parking_lot::mc::McAlloc;

/// Bring lazily initialised state of the process into its steady state.
pub fn warm_up() {
    drop(dumpster::sync::Gc::new(0u8));
    drop(dumpster::unsync::Gc::new(0u8));
    dumpster::sync::collect();
    dumpster::unsync::collect();
    parking_lot::mc::exit_thread(0);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match args.get(1).map(String::as_str) {
        Some("replay") => driver::replay_file(&args[2], checks::check),
        Some(p) => match checks::check(p) {
            Some(mut c) => {
                // (for development) only the suites named after the tier
                if args.len() > 3 {
                    c.suites.retain(|s| args[3..].iter().any(|a| a == s.name));
                    assert!(!c.suites.is_empty(), "no such suite");
                }
                driver::run_check(c, &root)
            }
            None => {
                eprintln!("unknown property {p}");
                2
            }
        },
        None => {
            eprintln!("usage: mc <property> | mc replay <file>");
            2
        }
    };
    std::process::exit(code);
}
