//! Full-domain harnesses on the real crate for the contracts that the Verus
//! units assume of symbol widths (`trait SymbolPrimitive` in G01.vrs).
#![cfg(kani)]
use cfg_symbol::{Symbol, SymbolPrimitive};
use miniserde::de::Deserialize;
use miniserde::ser::{Fragment, Serialize};
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

fn conversions<T: SymbolPrimitive>(max: u32) {
    assert!(T::MAX == max);
    let n: NonZeroU32 = kani::any();
    match T::try_from(n) {
        Ok(x) => {
            assert!(n.get() <= max);
            let back: NonZeroU32 = x.into();
            assert!(back == n);
        }
        Err(_) => { assert!(n.get() > max); }
    }
}

fn serialized<T: SymbolPrimitive>() {
    let n: u64 = kani::any();
    let mut out: Option<Symbol<T>> = None;
    let ok = <Symbol<T> as Deserialize>::begin(&mut out).nonnegative(n).is_ok();
    assert!(ok == (n < T::MAX as u64));
    assert!(ok == out.is_some());
    if let Some(s) = out {
        assert!(s.usize() as u64 == n);
        let i: u32 = s.into();
        assert!(i as u64 == n);
        match Serialize::begin(&s) {
            Fragment::U64(m) => { assert!(m == n); }
            _ => panic!("not a number"),
        }
    }
}

fn first<T: SymbolPrimitive>() {
    assert!(Symbol::<T>::first().usize() == 0);
    assert!(<Symbol<T> as Default>::default().usize() == 0);
}

#[kani::proof]
fn conversions_u8() { conversions::<NonZeroU8>(255) }
#[kani::proof]
fn conversions_u16() { conversions::<NonZeroU16>(65535) }
#[kani::proof]
fn conversions_u32() { conversions::<NonZeroU32>(u32::MAX) }
#[kani::proof]
fn serialized_u8() { serialized::<NonZeroU8>() }
#[kani::proof]
fn serialized_u16() { serialized::<NonZeroU16>() }
#[kani::proof]
fn serialized_u32() { serialized::<NonZeroU32>() }
#[kani::proof]
fn first_all() { first::<NonZeroU8>(); first::<NonZeroU16>(); first::<NonZeroU32>() }
