//! Parts shared by the monitors of the C interface.
#![allow(clippy::all, non_snake_case)]
pub mod ffi;
pub mod mem;
