use vstd::prelude::*;
verus! {
//@INCLUDE mesh_common.inc
//@INCLUDE traverse.inc
fn main() {}
}
