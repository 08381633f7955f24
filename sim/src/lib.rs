//! The simulated operating system. As an rlib it is linked into the driver
//! `dst`; as a cdylib it is preloaded under the real `index` program.
pub mod json;
pub mod libc_hooks;
pub mod os;
pub mod preload;
pub mod rng;
