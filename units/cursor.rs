#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include pdata.inc
fn main() {}
}
