// G13: kinds of recursion.
//@struct cfg-classify/src/recursive.rs Recursion
//@struct cfg-classify/src/recursive.rs RecursionKind #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-classify/src/recursive.rs RecursiveRule
pub fn vx_any_range<F: Fn(&Symbol) -> bool>(s: &[Symbol], skip: usize, take: usize, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        !r ==> forall|i: int| skip <= i < skip + take && i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
        r ==> exists|i: int| skip <= i < skip + take && i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), true),
{
    let mut k: usize = skip;
    while k < s.len() && k - skip < take
        invariant
            skip <= k, k - skip <= take, k <= s@.len() || k == skip,
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: int| skip <= i < k && i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
        decreases s@.len() - k,
    {
        if f(&s[k]) {
            assert(call_ensures(f, (&s@[k as int],), true));
            return true;
        }
        k = k + 1;
    }
    false
}
pub open spec fn reaches(d: ReachabilityMatrix, r: CfgRule, i: int) -> bool { d.0.has(r.rhs@[i], r.lhs) }
pub open spec fn kind_of(d: ReachabilityMatrix, r: CfgRule) -> RecursionKind {
    RecursionKind {
        left: reaches(d, r, 0),
        middle: exists|i: int| 0 < i < r.rhs@.len() - 1 && #[trigger] reaches(d, r, i),
        right: reaches(d, r, r.rhs@.len() - 1),
    }
}
/// Recursive exactly if some symbol of the right-hand side reaches the left-hand side.
pub open spec fn recursive(d: ReachabilityMatrix, r: CfgRule) -> bool { exists|i: int| 0 <= i < r.rhs@.len() && #[trigger] reaches(d, r, i) }
pub open spec fn recursion_of(d: ReachabilityMatrix, r: CfgRule) -> Option<RecursionKind> {
    if recursive(d, r) { Some(kind_of(d, r)) } else { None }
}
//@fn cfg-classify/src/recursive.rs RecursionKind::any
    ensures ret == (self.left || self.middle || self.right),
//@end
//@fn cfg-classify/src/recursive.rs rule_recursion
//@rewrite_opt rule.rhs.first().map(|&$s| $$b) == Some(true) => (match vx_get(&rule.rhs, 0) { Some(vx_p) => { let $s = vx_p; $$b } None => false })
//@rewrite_opt rule.rhs.last().map(|&$s| $$b) == Some(true) => (match vx_last(&rule.rhs) { Some(vx_p) => { let $s = vx_p; $$b } None => false })
//@rewrite_opt rule.rhs.iter().skip($$n).take($$m).any(|&$s| $$b) => vx_any_range(&rule.rhs, $$n, $$m, |vx_p: &Symbol| -> (r: bool) requires vx_p.raw < derivation.0.bit_matrix.rows() ensures r == derivation.0.has(*vx_p, rule.lhs) { let $s = *vx_p; $$b })
//@rewrite_opt derivation[$$i] => (*derivation.0.index($$i))
    requires rule_in(*rule, derivation.0.bit_matrix.rows()), derivation.0.bit_matrix.rows() == derivation.0.bit_matrix.cols(),
    ensures ret == recursion_of(*derivation, *rule),
//@at end
    proof {
        let r = *rule;
        let k = kind_of(*derivation, r);
        assert(rec_kind.left == k.left);
        assert(rec_kind.right == k.right);
        assert(forall|i: int| #![trigger reaches(*derivation, r, i)] #![trigger r.rhs@[i]] 0 <= i < r.rhs@.len() ==> reaches(*derivation, r, i) == derivation.0.has(r.rhs@[i], r.lhs));
        assert(rec_kind.middle == k.middle);
        if k.left { assert(reaches(*derivation, r, 0)); }
        if k.right { assert(reaches(*derivation, r, r.rhs@.len() - 1)); }
        if recursive(*derivation, r) {
            let i = choose|i: int| 0 <= i < r.rhs@.len() && #[trigger] reaches(*derivation, r, i);
            assert(i == 0 || i == r.rhs@.len() - 1 || (0 < i < r.rhs@.len() - 1));
        }
    }
//@end
#[verifier::external_body]
pub fn vx_get(s: &Rc<[Symbol]>, i: usize) -> (r: Option<Symbol>)
    ensures r == (if i < s@.len() { Some(s@[i as int]) } else { None }),
{ s.get(i).copied() }
#[verifier::external_body]
pub fn vx_last(s: &Rc<[Symbol]>) -> (r: Option<Symbol>)
    ensures r == (if s@.len() > 0 { Some(s@[s@.len() - 1]) } else { None }),
{ s.last().copied() }
//@fn cfg-classify/src/recursive.rs Recursion::new
    requires grammar.wf(),
    ensures
        ret.grammar == grammar, ret.derivation.0.sq(grammar.n()),
        forall|i: int, j: int| #[trigger] ret.derivation.0.bit_matrix.at(i, j) == path(direct(grammar.rules@), i, j),
//@end
// TRUSTED: the rule iterator R of RecursiveRules as a slice and a position (Iterator::next of slice::Iter).
pub struct RuleIter<'b> { pub rules: &'b Vec<CfgRule>, pub at: usize }
impl<'b> RuleIter<'b> {
    pub fn next(&mut self) -> (r: Option<&'b CfgRule>)
        requires old(self).at <= old(self).rules@.len(),
        ensures
            final(self).rules == old(self).rules,
            old(self).at < old(self).rules@.len() ==> r == Some(&old(self).rules@[old(self).at as int]) && final(self).at == old(self).at + 1,
            old(self).at == old(self).rules@.len() ==> r is None && final(self).at == old(self).at,
    {
        if self.at < self.rules.len() { self.at = self.at + 1; Some(&self.rules[self.at - 1]) } else { None }
    }
}
pub struct RecursiveRules<'a, 'b> { pub rules: RuleIter<'b>, pub recursion: &'b Recursion<'a> }
//@contains cfg-classify/src/recursive.rs pub struct RecursiveRules<'a, 'b, R: Iterator<Item = &'b CfgRule>> { rules: R, recursion: &'b Recursion<'a>, }
//@bodyis cfg-classify/src/recursive.rs Recursion::recursive_rules :: RecursiveRules { rules: self.grammar.rules(), recursion: self, }
//@bodyis cfg-classify/src/lib.rs CfgClassifyExt for Cfg::recursion :: recursive::Recursion::new(self)
//@fn cfg-classify/src/recursive.rs Iterator for RecursiveRules<'a, 'b, R>::next
//@impl impl<'a, 'b> RecursiveRules<'a, 'b>
//@sig Self::Item => RecursiveRule<'b>
//@rewrite rule_recursion(rule, &self.recursion.derivation) => rule_recursion(rule, &self.recursion.derivation)
//@loops while
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
    requires
        old(self).rules.at <= old(self).rules.rules@.len(),
        old(self).recursion.derivation.0.sq(old(self).recursion.derivation.0.bit_matrix.rows()),
        rules_in(old(self).rules.rules@, old(self).recursion.derivation.0.bit_matrix.rows()),
    ensures
        final(self).recursion == old(self).recursion, final(self).rules.rules == old(self).rules.rules,
        old(self).rules.at <= final(self).rules.at <= final(self).rules.rules@.len(),
        // the next recursive rule, with the kind of its recursion, and none skipped
        ret is Some ==> {
            let k = final(self).rules.at - 1;
            &&& k >= old(self).rules.at
            &&& ret->0.rule == &final(self).rules.rules@[k] && ret->0.distances is None
            &&& recursion_of(final(self).recursion.derivation, final(self).rules.rules@[k]) == Some(ret->0.recursion)
            &&& forall|i: int| old(self).rules.at <= i < k ==> !recursive(final(self).recursion.derivation, #[trigger] final(self).rules.rules@[i])
        },
        ret is None ==> final(self).rules.at == final(self).rules.rules@.len() && forall|i: int| old(self).rules.at <= i < final(self).rules.rules@.len() ==> !recursive(final(self).recursion.derivation, #[trigger] final(self).rules.rules@[i]),
//@loop 0
    invariant
        self.recursion == old(self).recursion, self.rules.rules == old(self).rules.rules,
        old(self).rules.at <= self.rules.at <= self.rules.rules@.len(),
        forall|i: int| old(self).rules.at <= i < self.rules.at ==> !recursive(self.recursion.derivation, #[trigger] self.rules.rules@[i]),
    ensures self.rules.at == self.rules.rules@.len(),
    decreases self.rules.rules@.len() - self.rules.at,
//@end
