//! `std` as the program under test sees it: everything that touches threads, time, files, the
//! environment or the process goes to the explorer; the rest is the real standard library.

#![allow(warnings)]
pub use ::std::*;

pub mod collections;
pub mod env;
pub mod fs;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;

pub mod panic {
    pub use ::std::panic::*;
    /// Panic hooks belong to the harness.
    pub fn set_hook<F>(_hook: F) {}
    /// The end of an execution unwinds its tasks: that is not for the program to catch.
    pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> ::std::thread::Result<R> {
        match ::std::panic::catch_unwind(f) {
            Ok(v) => Ok(v),
            Err(p) => {
                if !::rt::active() {
                    ::std::panic::resume_unwind(p);
                }
                ::rt::note_panic();
                Err(p)
            }
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        ::rt::yield_now();
    }
}

pub mod os {
    pub use ::std::os::*;
    pub mod unix {
        pub use ::std::os::unix::*;
        pub mod fs {
            pub use crate::fs::{FileExt, OpenOptionsExt};
            pub use ::std::os::unix::fs::{DirBuilderExt, DirEntryExt, FileTypeExt, MetadataExt, PermissionsExt};
        }
    }
}
