//! Model threads are coroutines on one OS thread, each with a stack and thread locals of its own.

use super::rt::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const STACK: usize = 512 * 1024;

struct Fiber {
    stack: *mut u8,
    sp: usize,
    f: Option<Box<dyn FnOnce()>>,
}
const F0: Fiber = Fiber { stack: std::ptr::null_mut(), sp: 0, f: None };
static mut FIBERS: [Fiber; MAXT] = [F0; MAXT];

#[allow(static_mut_refs)]
fn fib(t: usize) -> &'static mut Fiber {
    unsafe { &mut (*std::ptr::addr_of_mut!(FIBERS))[t] }
}

std::arch::global_asm!(
    ".global mc_fiber_switch",
    "mc_fiber_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    fn mc_fiber_switch(save: *mut usize, to: usize);
}

/// Continue `to`; returns when something switches back to `from`.
pub fn switch(from: usize, to: usize) {
    let save: *mut usize = &mut fib(from).sp;
    unsafe { mc_fiber_switch(save, fib(to).sp) }
}

extern "C" fn entry() -> ! {
    let t = rt().cur;
    let f = fib(t).f.take().expect("fiber body");
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        violation("panic", "a panic ended a thread");
    }
    super::tls::exit_thread(t);
    finish_thread();
    unreachable!()
}

/// Prepare thread `t` to run `f` when first switched to.
pub fn prepare(t: usize, f: Box<dyn FnOnce()>) {
    let fb = fib(t);
    unsafe {
        if fb.stack.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                STACK,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "stack of a model thread");
            libc::mprotect(p, 4096, libc::PROT_NONE);
            fb.stack = p.cast();
        }
        let top = (fb.stack as usize + STACK) & !15;
        let sp = top - 64;
        let w = sp as *mut usize;
        for i in 0..6 {
            *w.add(i) = 0;
        }
        *w.add(6) = entry as *const () as usize;
        *w.add(7) = 0;
        fb.sp = sp;
    }
    fb.f = Some(f);
}
