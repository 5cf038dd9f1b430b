seed("B01", "G03", [("cfg-grammar/src/cfg.rs",
"""                let rule = &self.rules[rule_id];
                let mut rhs_iter = rule.rhs.iter();
""","""                let rule = &self.rules[rule_id];
                if property_mode == RhsPropertyMode::Any && property[rule.lhs] {
                    break;
                }
                let mut rhs_iter = rule.rhs.iter();
""")], "the 'any' mode, and a symbol occurring in two rules, the first of which has a left-hand side already in the set",
"the closure misses left-hand sides after a rule that is already satisfied", """
fn main() {
    let mut c = Cfg::new();
    let [a, b, t] = c.sym();
    c.rule(a).rhs([t]);
    c.rule(b).rhs([t]);
    let mut p = SymbolBitSet::from_elem(&c, false);
    p.set(t, true);
    p.set(a, true);
    c.rhs_closure_for_any(&mut p);
    assert!(p[b], "b is not in the closure");
}
""")
seed("B02", "G05", [("cfg-grammar/src/cfg.rs",
"""                .saturating_sub(self.rule_rhs_len_allowed_range().end);""",
"""                .saturating_sub(self.rule_rhs_len_allowed_range().end.min(2));""")],
"a limit of three or more and a rule as long as the limit",
"a rule within the limit is split all the same", """
fn main() {
    let mut c = Cfg::new();
    let [a, b, x, y] = c.sym();
    c.limit_rhs_len(Some(3));
    c.rule(a).rhs([b, x, y]);
    assert_eq!(rules(&c), vec![(0, vec![1, 2, 3])]);
}
""")
seed("B03", "G06", [("cfg-grammar/src/cfg.rs",
"""                    if num == 2 {
                        rewritten_work
                            .rule(rule.lhs)
                            .history(history)
                            .rhs(&rule.rhs[0..1]);
""","""                    if num == 2 {
                        if rule.rhs[1] != rule.lhs {
                            rewritten_work
                                .rule(rule.lhs)
                                .history(history)
                                .rhs(&rule.rhs[0..1]);
                        }
""")],
"a right-recursive rule with two nullable symbols",
"the string derived through the first symbol alone is lost", """
fn main() {
    let mut c = Cfg::new();
    let [a, n, x] = c.sym();
    c.rule(a).rhs([n, a]).rhs([]);
    c.rule(n).rhs([]).rhs([x]);
    c.set_roots([a]);
    c.binarize_and_eliminate_nulling_rules();
    // a must still derive the one-symbol string x: a -> n -> x.
    let r = rules(&c);
    assert!(r.contains(&(0, vec![1])) || r.contains(&(0, vec![2])), "a no longer derives x: {:?}", r);
}
""")
seed("B04", "G07", [("cfg-sequence/src/rewrite.rs",
"""                let (rhs1, rhs2) = (
                    self.recurse(&seq1.separator(separator.prefix_separator())),
                    self.recurse(&seq2.separator(separator)),
                );""","""                let rhs1 = self.recurse(&seq1.separator(separator.prefix_separator()));
                let rhs2 = if start > 4 && (seq1.start, seq1.end) == (seq2.start, seq2.end) {
                    // Two equal halves.
                    rhs1
                } else {
                    self.recurse(&seq2.separator(separator))
                };""")],
"a properly separated block of eight or more repetitions, a power of two",
"the block ends in a separator", """
use cfg_sequence::CfgSequenceExt;
use std::collections::BTreeSet;
fn lang(c: &Cfg, sym: usize, depth: usize, term: &[usize]) -> BTreeSet<Vec<usize>> {
    if term.contains(&sym) { return [vec![sym]].into(); }
    let mut out = BTreeSet::new();
    if depth == 0 { return out; }
    for (l, r) in rules(c) {
        if l != sym { continue; }
        let mut cur: BTreeSet<Vec<usize>> = [vec![]].into();
        for x in r {
            let sub = lang(c, x, depth - 1, term);
            let mut nx = BTreeSet::new();
            for a in &cur { for b in &sub { let mut v = a.clone(); v.extend(b); if v.len() <= 20 { nx.insert(v); } } }
            cur = nx;
        }
        out.extend(cur);
    }
    out
}
fn main() {
    let mut c = Cfg::new();
    let [s, x, sep] = c.sym();
    c.sequence(s).inclusive(8, Some(8)).intersperse(sep).rhs(x);
    let l = lang(&c, 0, 14, &[1, 2]);
    let mut want = vec![1];
    for _ in 1..8 { want.push(2); want.push(1); }
    assert_eq!(l, [want].into());
}
""")
seed("B05", "G08", [("cfg-predict-sets/src/sets.rs",
"""        self.list.len() + self.has_none as usize""","""        self.list.len()""")],
"nullability discovered late, in a pass that adds no terminal",
"FIRST misses terminals behind a symbol found nullable in the last pass", """
use cfg_predict_sets::*;
fn main() {
    let mut c = Cfg::new();
    let [a, b, n, x] = c.sym();
    // b is nullable only through n, whose rule comes last.
    c.rule(a).rhs([b, x]);
    c.rule(b).rhs([n]);
    c.rule(n).rhs([]);
    c.set_roots([a]);
    let f = c.first_sets();
    assert_eq!(f.predict_sets()[&a].list, vec![x]);
    assert!(f.predict_sets()[&b].has_none());
}
""")
seed("B06", "G09", [("cfg-predict-sets/src/follow.rs",
"""                        follow_set.clear();
                        follow_set.push(sym);""","""                        follow_set.list.clear();
                        follow_set.push(sym);""")],
"a nonterminal followed by a terminal in a rule of a root",
"the end of input leaks past a terminal into FOLLOW sets", """
use cfg_predict_sets::*;
fn main() {
    let mut c = Cfg::new();
    let [a, b, x] = c.sym();
    c.rule(a).rhs([b, x]);
    c.rule(b).rhs([x]);
    c.set_roots([a]);
    let f = c.first_sets();
    let fo = c.follow_sets_with_first(&f);
    assert!(fo.predict_sets()[&a].has_none());
    assert!(!fo.predict_sets()[&b].has_none(), "b cannot be at the end of input");
}
""")
seed("B07", "G11", [("cfg-classify/src/useful.rs",
"""        for &sym in syms.as_ref() {
            for derived""","""        for &sym in syms.as_ref() {
            if self.reachable_syms[sym] {
                continue;
            }
            for derived"""),("cfg-classify/src/useful.rs",
"""        reachable_syms.union(&unused_syms);
""","""        reachable_syms.union(&unused_syms);
        for (rule, next) in grammar.rules().zip(grammar.rules().skip(1)) {
            if rule.lhs == next.lhs && rule.rhs.is_empty() && next.rhs.is_empty() {
                reachable_syms.set(rule.lhs, true);
            }
        }
""")],
"two adjacent empty rules for one symbol",
"a symbol with duplicated empty rules counts as reachable, and as a root it hides what it reaches", """
use cfg_classify::CfgClassifyExt;
fn main() {
    let mut c = Cfg::new();
    let [a, b, x] = c.sym();
    c.rule(a).rhs([b, x]);
    c.rule(b).rhs([x]);
    let [u] = c.sym();
    c.rule(u).rhs([]);
    c.rule(u).rhs([]);
    c.set_roots([a]);
    assert!(!c.make_proper());
    assert_eq!(rules(&c).len(), 2, "rules of an unreachable symbol are left");
}
""")
seed("B08", "G12", [("cfg-classify/src/cyclical.rs",
"""                            row.set(s, lhs_derives && unit_derivation[(s, rule.lhs)])""","""                            if lhs_derives && unit_derivation[(s, rule.lhs)] {
                                row.set(s, true);
                            }""")],
"two separate cycles",
"the symbols of an earlier cycle are merged into a later one", """
use cfg_classify::cyclical::Cycles;
fn main() {
    let mut c = Cfg::new();
    let [s, a, b, d, e, x, y] = c.sym();
    c.rule(s).rhs([a, d]);
    c.rule(a).rhs([b]).rhs([x]);
    c.rule(b).rhs([a]);
    c.rule(d).rhs([e]).rhs([y]);
    c.rule(e).rhs([d]);
    c.set_roots([s]);
    Cycles::new(&mut c).rewrite_cycles();
    let r = rules(&c);
    let sr = r.iter().find(|r| r.0 == 0).unwrap().1.clone();
    assert!(sr[0] != sr[1], "both cycles became one symbol: {:?}", r);
}
""")
seed("B09", "G13", [("cfg-classify/src/recursive.rs",
"""            .take(rule.rhs.len().saturating_sub(2))""","""            .take(rule.rhs.len().saturating_sub(2).min(1))""")],
"a rule of four symbols recursive in its third symbol only",
"middle recursion past the second symbol is not reported", """
use cfg_classify::CfgClassifyExt;
fn main() {
    let mut c = Cfg::new();
    let [a, x] = c.sym();
    c.rule(a).rhs([x, x, a, x]).rhs([x]);
    let r = c.recursion();
    let k = r.recursive_rules().next().expect("not recursive").recursion;
    assert!(!k.right && !k.left && k.middle, "{:?}", k);
}
""")
seed("B10", "G14", [("cfg-symbol-bit-matrix/src/remap_symbols.rs",
"""                wrapped_root.inner_root = map(wrapped_root.inner_root);
""","")],
"a wrapped grammar whose symbols are renumbered",
"the inner root of a wrapped root keeps its old number", """
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
fn main() {
    let mut c = Cfg::new();
    let [_u, a, x] = c.sym();
    c.rule(a).rhs([x]);
    c.set_roots([a]);
    c.wrap_input();
    c.remap().remove_unused_symbols();
    let w = c.wrapped_roots()[0];
    let r = c.rules().find(|r| r.lhs == w.root).unwrap().rhs.clone();
    assert_eq!(&r[..], &[w.start_of_input, w.inner_root, w.end_of_input]);
}
""")
seed("B11", "G15", [("cfg-grammar/src/precedenced_rule.rs",
"""                let extreme_sym_mut = if self.assoc == Left {""","""                let extreme_sym_mut = if self.assoc == Left || self.looseness > 2 {""")],
"a right-associative operator on the fourth or a looser level",
"right associativity is treated as left", """
use cfg_grammar::precedenced_rule::Associativity;
fn main() {
    let mut c = Cfg::new();
    let [e, n, p] = c.sym();
    c.precedenced_rule(e).rhs([n]).lower_precedence().rhs([p, e]).lower_precedence().rhs([p, p, e]).lower_precedence().associativity(Associativity::Right).rhs([e, p, e]).finalize();
    let r = rules(&c);
    // level symbols: 3 (tightest), 4, 5, 6
    assert!(r.contains(&(6, vec![5, 2, 6])), "{:?}", r);
}
""")
seed("B12", "G16", [("cfg-grammar/src/cfg.rs",
"""        self.wrapped_roots.clear();
        let roots_len""","""        let roots_len""")],
"a grammar that is wrapped twice",
"wrapped roots of the first wrapping stay in the list", """
fn main() {
    let mut c = Cfg::new();
    let [a, x] = c.sym();
    c.rule(a).rhs([x]);
    c.set_roots([a]);
    c.wrap_input();
    c.wrap_input();
    assert_eq!(c.wrapped_roots().len(), 1);
}
""")
seed("B13", "G18", [("cfg-generate/src/weighted/random.rs",
"""                    if result.len() as u64 > our_limits.terminals {""","""                    if string.len() as u64 > our_limits.terminals {""")],
"terminals without a character, and a limit",
"the limit counts characters, not terminals", """
use cfg_generate::weighted::random::{GenRange, Random, Limits, RandomGenError};
#[derive(Clone)]
struct Fix(f64);
impl GenRange for Fix { fn generate(&mut self, l: f64) -> f64 { self.0 * l } fn mutate_start(&mut self, _: u64) {} }
fn main() {
    let mut c = Cfg::new();
    let [a, x] = c.sym();
    c.rule(a).rhs([x, x]);
    let r = c.random(a, Some(Limits { terminals: 1, negative_rule_attempts: 0 }), &mut Fix(0.5), &[], |_, _| None);
    assert_eq!(r, Err(RandomGenError::LimitExceeded));
}
""")
seed("B14", "G19", [("cfg-predict-distance/src/lib.rs",
"""        dots.sort_unstable();
""","""        dots.dedup();
""")],
"targets which are not given in order",
"some targets are not found", """
use cfg_predict_distance::*;
fn main() {
    let mut c = Cfg::new();
    let [a, d, x, y] = c.sym();
    c.rule(a).rhs([x, x]);
    c.rule(d).rhs([y, y]);
    let mut m = MinimalDistance::new(&c);
    let r = m.minimal_distances(&[(1, 1), (0, 2)], DistanceDirection::Forward).to_vec();
    assert_eq!(r, vec![vec![Some(2), Some(1), Some(0)], vec![Some(1), Some(0), None]]);
}
""")
seed("B15", "G20", [("cfg-grammar/src/cfg.rs",
"""rule.rhs.get(col.wrapping_sub(1)).copied()""","""rule.rhs.get(col.saturating_sub(1)).copied()""")],
"the first column",
"the first column reports a symbol before the dot", """
fn main() {
    let mut c = Cfg::new();
    let [a, b] = c.sym();
    c.rule(a).rhs([b]);
    let d = c.column(0).next().unwrap();
    assert!(d.predot.is_none() && d.postdot == Some(b));
}
""")
seed("B16", "G04", [("cfg-grammar/src/cfg.rs",
"""                    value[rule.lhs.usize()] = Some(work_value);
                    tmp_stack.push(rule.lhs);""","""                    if value[rule.lhs.usize()].is_none() || work_value > 0 {
                        tmp_stack.push(rule.lhs);
                    }
                    value[rule.lhs.usize()] = Some(work_value);""")],
"a symbol that is found to cost nothing after its first value was used elsewhere",
"an improvement to zero is not carried on", """
fn main() {
    let mut c = Cfg::new();
    let [a, b, t, n] = c.sym();
    c.rule(a).rhs([b, t]);
    c.rule(b).rhs([t]);
    c.rule(b).rhs([n]);
    let mut v = vec![None, None, Some(1), Some(0)];
    c.rhs_closure_with_values(&mut v);
    assert_eq!(v, vec![Some(1), Some(0), Some(1), Some(0)]);
    let mut c = Cfg::new();
    let [n, t, a, b] = c.sym();
    c.rule(a).rhs([b, t]);
    c.rule(b).rhs([t]);
    c.rule(b).rhs([n]);
    let mut v = vec![Some(0), Some(1), None, None];
    c.rhs_closure_with_values(&mut v);
    assert_eq!(v, vec![Some(0), Some(1), Some(1), Some(0)]);
}
""")
seed("B17", "G01", [("cfg-symbol/src/source.rs",
"""        self.names.truncate(new_len);
""","""        if new_len > self.names.len() / 2 {
            self.names.truncate(new_len);
        }
""")],
"truncation by half or more, then new symbols",
"names of truncated symbols come back on new symbols", """
fn main() {
    let mut s: SymbolSource = SymbolSource::new();
    let a = s.next_sym(Some("a".into()));
    s.next_sym(Some("b".into()));
    s.next_sym(Some("c".into()));
    s.truncate(1);
    let n = s.next_sym(Some("n".into()));
    assert_eq!(n.usize(), 1);
    assert_eq!(s.name_of(n), "n");
    assert_eq!(s.name_of(a), "a");
}
""")
seed("B18", "G17", [("cfg-history/src/earley/mod.rs",
"""            History {
                origin: self.origin,
                ..History::default()
            }
        } else {""","""            History::default()
        } else {""")],
"a rule all of whose symbols are nullable",
"the nulling part of a rule loses its origin", """
use cfg_history::*;
use cfg_history::earley::History;
fn main() {
    let h: History = RootHistoryNode::Origin { origin: 7 }.into();
    let n: History = HistoryNodeEliminateNulling { prev: h, rhs0: None, rhs1: None, which: BinarizedRhsRange::All(0) }.into();
    assert_eq!(n.origin(), h.origin());
}
""")
seed("B19", "G02", [("cfg-grammar/src/symbol_bit_set.rs",
"""            .extend(iter::repeat(false).take(len.saturating_sub(self.bit_vec.len())));""",
"""            .extend(iter::repeat(false).take(len.saturating_sub(self.bit_vec.len() & !1)));""")],
"reserving space in a set of odd size",
"a set gets more space than asked for", """
fn main() {
    let mut c = Cfg::new();
    let [_a, _b, _d] = c.sym();
    let mut p = SymbolBitSet::from_elem(&c, true);
    p.reserve(4);
    assert_eq!(p.space(), 4);
    p.reserve(2);
    assert_eq!(p.space(), 4);
    let mut p = SymbolBitSet::from_elem(&c, true);
    p.reserve(3);
    assert!(p.all(), "reserving what is there changed the set");
}
""")
seed("B20", "G10", [("cfg-classify/src/ll.rs",
"""            if rhs_first_set.has_none() {""","""            if rhs_first_set.has_none() && rhs_first_set.list.is_empty() {""")],
"a nullable alternative that can also start with a terminal",
"conflicts between an alternative and what follows a nullable one are missed", """
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;
fn main() {
    let mut c = Cfg::new();
    let [s, b, n, x, y] = c.sym();
    c.rule(s).rhs([b, x]);
    c.rule(b).rhs([n]).rhs([x, x]);
    c.rule(n).rhs([]).rhs([y]);
    c.set_roots([s]);
    let t = c.ll_parse_table().classify();
    assert_eq!(t.classes()[&b], LlNonterminalClass::ContextFree);
}
""")
