use crate::core::*;
use crate::ensure;
use crate::gram::*;
use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
use cfg_symbol::{Symbol, SymbolSource};
use std::collections::{BTreeMap, BTreeSet};

mod advanced;
mod analyses;
mod lexing;
mod loading;
mod sequences;
mod symbols;
mod transforms;

pub type Prop = fn(&mut Src) -> Res;

pub fn find(id: &str) -> Option<Vec<(&'static str, Prop)>> {
    Some(match id {
        "G01" => vec![("symbol-source", symbols::source as Prop), ("widths", symbols::widths), ("round-trip", symbols::round_trip)],
        "G02" => vec![("sets", symbols::sets)],
        "G03" => vec![("closure", analyses::closure)],
        "G04" => vec![("values", analyses::values)],
        "G05" => vec![("limit", transforms::limit), ("add-rule", transforms::add_rule)],
        "G06" => vec![("nulling", transforms::nulling)],
        "G07" => vec![("sequence", sequences::language), ("sequence-large", sequences::large), ("sequence-range", sequences::ranges)],
        "G08" => vec![("first-last", analyses::first_last)],
        "G09" => vec![("follow", analyses::follow)],
        "G10" => vec![("ll1", analyses::ll1)],
        "G11" => vec![("useful", analyses::useful)],
        "G12" => vec![("cycles", transforms::cycles)],
        "G13" => vec![("recursion", analyses::recursion)],
        "G14" => vec![("remap", transforms::remap), ("remap_any", transforms::remap_any), ("mapping", transforms::mapping)],
        "G15" => vec![("precedence", transforms::precedence)],
        "G16" => vec![("wrap", transforms::wrap)],
        "G17" => vec![("history", transforms::history)],
        "G18" => vec![("random", analyses::random), ("shares", analyses::shares)],
        "G19" => vec![("distances", analyses::distances)],
        "G20" => vec![("rule-list", transforms::rule_list)],
        "G21" => vec![("lexer-map", lexing::lexer_map)],
        "G22" => vec![("regexp", lexing::regexp)],
        "G23" => vec![("load", loading::load), ("print-load", loading::print_load)],
        "G24" => vec![("load-advanced", advanced::load)],
        _ => return None,
    })
}

pub fn set_of(b: &SymbolBitSet) -> BTreeSet<usize> {
    b.iter().map(|x| x.usize()).collect()
}

pub fn of_bools(v: &[bool]) -> BTreeSet<usize> {
    v.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect()
}

pub fn bitset(c: &Cfg, v: &[bool]) -> SymbolBitSet {
    let mut b = SymbolBitSet::from_elem(c, false);
    for (i, &x) in v.iter().enumerate() {
        if x {
            b.set(s(i), true);
        }
    }
    b
}
