//! Every Gc stored in a standard container is traced exactly once.
//!
//! All nestings of the standard types up to a depth, all contents up to a size, and every
//! position of a locked or borrowed part: `accept` is compared with a walk of the value.

mod cycles;
mod shape;

fn main() {
    let code = lite::main(
        "C09",
        "states: distinct (type, contents, borrow state) combinations; transitions: pointers visited by accept and operations on the collectors; traces: values for which accept was compared with a walk of the value, or histories of a cycle through a container",
        |r| {
            shape::run(r);
            cycles::run(r);
        },
    );
    std::process::exit(code);
}
