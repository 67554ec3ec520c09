#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
// Unit: which files a history file depends on, as saving and loading see it (property 17).
use vstd::prelude::*;
use std::collections::BTreeMap;

// messages are dropped
macro_rules! format { ($($t:tt)*) => { crate::lib_specs::text() } }

verus! {
global size_of usize == 8;

//@ include tree.inc

//@ include ancestors.inc

fn main() {}
}
