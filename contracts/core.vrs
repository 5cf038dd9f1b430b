#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code, non_camel_case_types, unused_must_use)]
use vstd::prelude::*;
use std::rc::Rc;
use std::ops;
use std::collections::BTreeMap;
verus! {
broadcast use vstd::std_specs::btree::group_btree_axioms;
global size_of usize == 8;

// ---- lowering helpers (panics become obligations)
pub fn vx_assert(b: bool)
    requires b,
{
}
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T)
    requires false,
{
    unimplemented!()
}

// TRUSTED: element `i` of a vector consumed by a by-value `for` loop; each index is taken once.
#[verifier::external_body]
pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v.len(),
    ensures r == v@[i as int],
{
    unimplemented!()
}

pub fn vx_all<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), false),
{
    let mut k: usize = 0;
    while k < s.len()
        invariant
            0 <= k <= s@.len(),
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s@[i],), true),
        decreases s@.len() - k,
    {
        if !f(&s[k]) {
            assert(call_ensures(f, (&s@[k as int],), false));
            return false;
        }
        k = k + 1;
    }
    true
}

pub fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
        r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), true),
{
    let mut k: usize = 0;
    while k < s.len()
        invariant
            0 <= k <= s@.len(),
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s@[i],), false),
        decreases s@.len() - k,
    {
        if f(&s[k]) {
            assert(call_ensures(f, (&s@[k as int],), true));
            return true;
        }
        k = k + 1;
    }
    false
}

// `iter().map(f)`, collected.
pub fn vx_map<T, U, F: Fn(&T) -> U>(s: &[T], f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), #[trigger] r@[i]),
{
    let mut out: Vec<U> = Vec::new();
    let mut k: usize = 0;
    while k < s.len()
        invariant
            0 <= k <= s@.len(), out@.len() == k,
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (&s@[i],), #[trigger] out@[i]),
        decreases s@.len() - k,
    {
        out.push(f(&s[k]));
        k = k + 1;
    }
    out
}
// TRUSTED: Option::copied.
pub assume_specification<'a, T: Copy> [Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

