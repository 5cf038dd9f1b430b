// G20: rule list operations.
// TRUSTED: Vec::sort_by_key, sort_by, dedup_by_key, retain, extend, clear; comparison and reversal of slices.
pub open spec fn key(r: CfgRule) -> (Symbol, Seq<Symbol>) { (r.lhs, r.rhs@) }
/// Lexicographic order of strings of symbols.
pub open spec fn str_le(a: Seq<Symbol>, b: Seq<Symbol>) -> bool
    decreases a.len(),
{
    if a.len() == 0 { true } else if b.len() == 0 { false }
    else if a[0].raw != b[0].raw { a[0].raw < b[0].raw }
    else { str_le(a.skip(1), b.skip(1)) }
}
pub open spec fn key_le(a: (Symbol, Seq<Symbol>), b: (Symbol, Seq<Symbol>)) -> bool {
    if a.0.raw != b.0.raw { a.0.raw < b.0.raw } else { str_le(a.1, b.1) }
}
pub open spec fn is_key<F: Fn(&CfgRule) -> (Symbol, Rc<[Symbol]>)>(f: F) -> bool {
    &&& forall|x: CfgRule| call_requires(f, (&x,))
    &&& forall|x: CfgRule, k: (Symbol, Rc<[Symbol]>)| call_ensures(f, (&x,), k) ==> k.0 == x.lhs && k.1@ == x.rhs@
}
#[verifier::external_body]
pub fn vx_sort_by_key<F: Fn(&CfgRule) -> (Symbol, Rc<[Symbol]>)>(v: &mut Vec<CfgRule>, f: F)
    requires is_key(f),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key_le(#[trigger] key(final(v)@[i]), #[trigger] key(final(v)@[j])),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_sort_by<F: Fn(&CfgRule, &CfgRule) -> std::cmp::Ordering>(v: &mut Vec<CfgRule>, f: F)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(),
{ v.sort_by(f) }
/// The rules whose predecessor has another key.
pub open spec fn deduped(s: Seq<CfgRule>) -> Seq<CfgRule>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s.len() > 1 && key(s[s.len() - 1]) == key(s[s.len() - 2]) { deduped(s.drop_last()) }
    else { deduped(s.drop_last()).push(s.last()) }
}
#[verifier::external_body]
pub fn vx_dedup_by_key<F: Fn(&CfgRule) -> (Symbol, Rc<[Symbol]>)>(v: &mut Vec<CfgRule>, f: F)
    requires is_key(f),
    ensures final(v)@ == deduped(old(v)@),
{ v.dedup_by_key(|x| f(x)) }
pub open spec fn selected<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { s } else if keep[s.len() - 1] { selected(s.drop_last(), keep).push(s.last()) } else { selected(s.drop_last(), keep) }
}
pub open spec fn answers<F: Fn(&CfgRule) -> bool>(f: F, s: Seq<CfgRule>, keep: Seq<bool>) -> bool {
    keep.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (&#[trigger] s[i],), keep[i])
}
#[verifier::external_body]
pub fn vx_retain<F: Fn(&CfgRule) -> bool>(v: &mut Vec<CfgRule>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i],)),
    ensures exists|keep: Seq<bool>| #[trigger] answers(f, old(v)@, keep) && final(v)@ == selected(old(v)@, keep),
{ v.retain(f) }
#[verifier::external_body]
pub fn vx_extend_cloned(v: &mut Vec<CfgRule>, o: &Vec<CfgRule>)
    ensures final(v)@ == old(v)@ + o@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_rc_rev(s: &Rc<[Symbol]>) -> (r: Rc<[Symbol]>)
    ensures r@ == s@.reverse(),
{ s.iter().copied().rev().collect() }
#[verifier::external_body]
pub fn vx_rc_eq(a: &Rc<[Symbol]>, b: &Rc<[Symbol]>) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
#[verifier::external_body]
pub fn vx_rc_clone(a: &Rc<[Symbol]>) -> (r: Rc<[Symbol]>)
    ensures r@ == a@, r == *a,
{ a.clone() }

//@struct cfg-grammar/src/cfg.rs DotInfo
//@ty earley::rule_dot::RuleDot => RuleDot

/// All but the rules.
pub open spec fn same_but_rules(a: Cfg, b: Cfg) -> bool { a == (Cfg { rules: a.rules, ..b }) }
pub open spec fn mirrored(a: CfgRule, b: CfgRule) -> bool { a.lhs == b.lhs && a.rhs@ == b.rhs@.reverse() && a.history == b.history }
/// Mirroring twice restores the rule.
pub proof fn lemma_mirror_twice(a: CfgRule, b: CfgRule, c: CfgRule)
    requires mirrored(b, a), mirrored(c, b),
    ensures c.lhs == a.lhs, c.rhs@ == a.rhs@, c.history == a.history,
{
    assert(a.rhs@.reverse().reverse() =~= a.rhs@);
}
//@fn cfg-grammar/src/cfg.rs Cfg::reverse
//@rewrite_opt $x.rhs.iter().copied().rev().collect() => vx_rc_rev(&$x.rhs)
//@rewrite_opt $x.rhs.iter().rev().copied().collect() => vx_rc_rev(&$x.rhs)
//@loops for
//@attr #[verifier::loop_isolation(false)]
    ensures
        same_but_rules(*final(self), *old(self)),
        final(self).rules@.len() == old(self).rules@.len(),
        forall|i: int| 0 <= i < final(self).rules@.len() ==> mirrored(#[trigger] final(self).rules@[i], old(self).rules@[i]),
//@loop 0
    invariant
        0 <= __i0 <= self.rules@.len(), self.rules@.len() == old(self).rules@.len(),
        same_but_rules(*self, *old(self)),
        forall|i: int| 0 <= i < __i0 ==> mirrored(#[trigger] self.rules@[i], old(self).rules@[i]),
        forall|i: int| __i0 <= i < self.rules@.len() ==> #[trigger] self.rules@[i] == old(self).rules@[i],
    decreases self.rules@.len() - __i0,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::sort
//@rewrite $v.sort_by_key(|$r| $$b) => vx_sort_by_key(&mut $v, |$r: &CfgRule| -> (k: (Symbol, Rc<[Symbol]>)) ensures k.0 == $r.lhs, k.1@ == $r.rhs@ { $$b })
//@rewrite_opt $x.rhs.clone() => vx_rc_clone(&$x.rhs)
    ensures
        same_but_rules(*final(self), *old(self)),
        final(self).rules@.to_multiset() == old(self).rules@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(self).rules@.len() ==> key_le(#[trigger] key(final(self).rules@[i]), #[trigger] key(final(self).rules@[j])),
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::sort_by
//@sig impl FnMut(&CfgRule, &CfgRule) -> cmp::Ordering => impl Fn(&CfgRule, &CfgRule) -> std::cmp::Ordering
//@rewrite $v.sort_by(compare) => vx_sort_by(&mut $v, compare)
    ensures
        same_but_rules(*final(self), *old(self)),
        final(self).rules@.to_multiset() == old(self).rules@.to_multiset(),
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::dedup
//@rewrite $v.dedup_by_key(|$r| $$b) => vx_dedup_by_key(&mut $v, |$r: &CfgRule| -> (k: (Symbol, Rc<[Symbol]>)) ensures k.0 == $r.lhs, k.1@ == $r.rhs@ { $$b })
//@rewrite_opt $x.rhs.clone() => vx_rc_clone(&$x.rhs)
    ensures same_but_rules(*final(self), *old(self)), final(self).rules@ == deduped(old(self).rules@),
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::retain
//@sig impl FnMut(&CfgRule) -> bool => impl Fn(&CfgRule) -> bool
//@rewrite $v.retain(f) => vx_retain(&mut $v, f)
    requires forall|i: int| 0 <= i < old(self).rules@.len() ==> call_requires(f, (&#[trigger] old(self).rules@[i],)),
    ensures
        same_but_rules(*final(self), *old(self)),
        exists|keep: Seq<bool>| #[trigger] answers(f, old(self).rules@, keep) && final(self).rules@ == selected(old(self).rules@, keep),
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::extend
//@rewrite $v.extend($o.iter().cloned()) => vx_extend_cloned(&mut $v, &$o)
    ensures same_but_rules(*final(self), *old(self)), final(self).rules@ == old(self).rules@ + other.rules@,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::clear_rules
    ensures same_but_rules(*final(self), *old(self)), final(self).rules@.len() == 0,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::column
//@sig impl Iterator<Item = DotInfo> + '_ => Vec<DotInfo>
//@rewrite_opt let mapper = move |rule: &CfgRule| $$b; self.rules().map(mapper) => self.rules().map(move |rule: &CfgRule| $$b)
//@rewrite_opt move |rule| => move |rule: &CfgRule|
//@rewrite self.rules().map(move |rule: &CfgRule| $$b) => vx_map(self.rules.as_slice(), |rule: &CfgRule| -> (r: DotInfo) ensures r == dot_info(*rule, col as int) { let __l = rule.rhs.len(); $$b })
    ensures
        ret@.len() == self.rules@.len(),
        forall|i: int| 0 <= i < self.rules@.len() ==> #[trigger] ret@[i] == dot_info(self.rules@[i], col as int),
//@end
pub open spec fn sym_at(s: Seq<Symbol>, i: int) -> Option<Symbol> { if 0 <= i < s.len() { Some(s[i]) } else { None } }
pub open spec fn dot_info(r: CfgRule, col: int) -> DotInfo {
    DotInfo {
        lhs: r.lhs,
        predot: sym_at(r.rhs@, col - 1),
        postdot: sym_at(r.rhs@, col),
        earley: Some(if col < 3 { r.history.dots[col] } else { no_dot() }),
    }
}
pub open spec fn same_rule(a: CfgRule, b: CfgRule) -> bool { a.lhs == b.lhs && a.rhs@ == b.rhs@ }
//@fn cfg-grammar/src/compare.rs Cfg::equivalent
//@rewrite_opt $x.rules().count() => $x.rules.len()
//@rewrite_opt $x.rules() => $x.rules.iter()
//@rewrite_opt $x.rhs == $y.rhs => vx_rc_eq(&$x.rhs, &$y.rhs)
//@loops for
//@attr #[verifier::loop_isolation(false)]
    ensures ret == (self.rules@.len() == other.rules@.len() && forall|i: int| 0 <= i < self.rules@.len() ==> same_rule(#[trigger] self.rules@[i], other.rules@[i])),
//@loop 0
    invariant
        0 <= __i0 <= self.rules@.len(), __i0 <= other.rules@.len(),
        eq == (self.rules@.len() == other.rules@.len() && forall|i: int| 0 <= i < __i0 ==> same_rule(#[trigger] self.rules@[i], other.rules@[i])),
    decreases self.rules@.len() - __i0,
//@end
