pub use ::std::process::*;

/// Ends the simulated process the caller belongs to.
pub fn exit(code: i32) -> ! {
    if ::rt::active() {
        ::rt::proc_exit(code);
    }
    panic!("process::exit({}) outside an execution", code)
}

pub fn abort() -> ! {
    exit(134)
}

pub fn id() -> u32 {
    4242
}
