//! Where the generic code of /repo that runs in several threads is compiled
//! for the driver: this crate gets the same instrumentation as /repo itself
//! (tools/rustc-points), which the simulator must not have.
use std::io::Write;
use dir_signature::{v1, Error, ScannerConfig};

pub fn scan(cfg: &ScannerConfig, mut out: &mut dyn Write) -> Result<(), Error> {
    v1::scan(cfg, &mut out)
}
