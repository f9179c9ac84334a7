//! Drop-in replacement of `async-std` for model checking.
//!
//! Everything a component of the program under test can use to interact with another component or
//! with the outside (channels, timers, files, stdin/stdout/stderr, child processes) is replaced by
//! a model object whose every operation is a scheduling point of [`mc::World`].  Everything else
//! (prelude, combinators, `BufWriter`, traits...) is re-exported from the real crate.
pub use real::{eprint, eprintln, print, println, write, writeln};
// (the timers behind `future::timeout`, `stream::interval` and the like are model timers: see
// `task::install_timers`)
pub use real::{future, net, os, path, pin, prelude, stream, sync};

pub mod channel;
pub mod fs;
pub mod io;
pub mod mc;
pub mod process;
pub mod task;
