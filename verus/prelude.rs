#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, unused_labels, unreachable_code, non_snake_case, non_camel_case_types, unused_must_use)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
// ---- helpers the extraction rules refer to
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_range_len(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b - a } else { 0 }) { if a <= b { b - a } else { 0 } }
/// chunks_exact panics on a chunk size of 0
pub fn vx_chunks_exact_len(len: usize, c: usize) -> (r: usize) requires c > 0 ensures r as int == len as int / c as int { len / c }
/// what Option::filter does with the value it rejects: a mutable borrow in it ends here
pub fn vx_drop<T>(t: T) ensures has_resolved(t) { }
/// stands for every panic in the source: reaching it is a failed obligation
#[verifier::external_body] pub fn vx_panic() requires false { }
}
