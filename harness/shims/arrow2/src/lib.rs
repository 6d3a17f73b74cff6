//! Stand-in for the private fork of arrow2 (not available offline): only what the repository uses,
//! with the same names, signatures, panics and orderings where the repository can observe them.
pub mod array;
pub mod bitmap;
pub mod chunk;
pub mod compute;
pub mod datatypes;
pub mod error;
pub mod ffi;
pub mod io;
pub mod offset;
pub mod types;
