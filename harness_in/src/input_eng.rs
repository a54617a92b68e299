use crate::common::*;
pub fn run(_a: &Args, _t: &mut Trace) {}
