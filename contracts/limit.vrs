// G05: limiting right-hand side lengths; G17: the histories of the rules of a chain.
// TRUSTED: slice::reverse, drain of a tail into another vector.
#[verifier::external_body]
pub fn vx_reverse<T>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@.reverse(),
{ v.reverse() }
#[verifier::external_body]
pub fn vx_drain_tail(tail: &mut Vec<Symbol>, v: &mut Vec<Symbol>, i: usize)
    requires i <= old(v)@.len(),
    ensures final(tail)@ == old(tail)@ + old(v)@.skip(i as int), final(v)@ == old(v)@.take(i as int),
{ tail.extend(v.drain(i..)) }
pub fn vx_range_contains(r: ops::Range<usize>, x: &usize) -> (b: bool)
    ensures b == (r.start <= *x < r.end),
{ r.start <= *x && *x < r.end }
// TRUSTED: conversions of a slice to Rc<[Symbol]>.
#[verifier::external_body]
pub fn vx_rc(s: &[Symbol]) -> (r: Rc<[Symbol]>)
    ensures r@ == s@,
{ s.into() }

/// What one rule is split into: the first k symbols are named by a new symbol, and so on.
pub open spec fn chain(l: Symbol, s: Seq<Symbol>, n: int, k: int) -> Seq<Prod>
    decreases s.len(),
{
    if s.len() <= k || k < 2 { seq![Prod { l: l, r: s }] }
    else { seq![Prod { l: sym_of(n), r: s.take(k) }] + chain(l, seq![sym_of(n)] + s.skip(k), n + 1, k) }
}
pub open spec fn prod_of(r: CfgRule) -> Prod { Prod { l: r.lhs, r: r.rhs@ } }
pub open spec fn prod_seq(rs: Seq<CfgRule>) -> Seq<Prod> { rs.map_values(|r: CfgRule| prod_of(r)) }
/// The history of the i-th of m rules that a rule is split into.
pub open spec fn chain_history(h: History, len: int, k: int, i: int, m: int) -> History {
    if m == 1 || k != 2 { h } else { binarized(h, i, len, i == m - 1) }
}
impl Cfg {
    pub open spec fn limit(self) -> int {
        match self.rhs_len_invariant { Some(k) => k as int, None => usize::MAX as int }
    }
    /// All but the rules and the symbols.
    pub open spec fn same_rest(self, o: Cfg) -> bool {
        self.lexemes == o.lexemes && self.roots == o.roots && self.wrapped_roots == o.wrapped_roots
            && self.rhs_len_invariant == o.rhs_len_invariant && self.eliminate_nulling == o.eliminate_nulling
    }
}
/// What `add_rule` has to append.
pub open spec fn added(g: Cfg, r: CfgRule) -> Seq<Prod> { added_prods(g, r.lhs, r.rhs@) }
pub open spec fn added_prods(g: Cfg, l: Symbol, s: Seq<Symbol>) -> Seq<Prod> {
    if s.len() == 0 && g.eliminate_nulling { Seq::empty() } else { chain(l, s, g.n(), g.limit()) }
}
pub proof fn lemma_chain_len(l: Symbol, s: Seq<Symbol>, n: int, k: int)
    requires k >= 2,
    ensures 1 <= chain(l, s, n, k).len() <= s.len() + 1, s.len() <= k ==> chain(l, s, n, k).len() == 1,
    decreases s.len(),
{
    if s.len() > k { lemma_chain_len(l, seq![sym_of(n)] + s.skip(k), n + 1, k); }
}

//@bodyis cfg-grammar/src/cfg.rs Cfg::sym_source_mut :: &mut self.sym_source
//@fn cfg-grammar/src/cfg.rs Cfg::next_sym
//@sig Option<Cow<str>> => Option<SymbolName>
//@rewrite_opt self.sym_source_mut() => self.sym_source
    ensures
        ret.raw == old(self).n(), final(self).n() == old(self).n() + 1,
        final(self).rules == old(self).rules, final(self).same_rest(*old(self)),
//@end
//@fn cfg-grammar/src/cfg.rs CfgRule::new
//@sig impl AsRef<[Symbol]> => &[Symbol]
//@rewrite_opt rhs.as_ref().into() => vx_rc(rhs)
    ensures ret.lhs == lhs, ret.rhs@ == rhs@, ret.history == history,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::rule_rhs_len_allowed_range
//@rewrite_opt self.eliminate_nulling as usize => (if self.eliminate_nulling { 1usize } else { 0usize })
    ensures
        ret.start == (if self.eliminate_nulling { 1int } else { 0int }),
        ret.end == self.limit(),
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::add_rule
//@rewrite_opt $r.contains(&$$x) => vx_range_contains($r, &$$x)
//@rewrite_opt $x.to_vec() => vx_to_vec(&$x)
//@rewrite_opt rhs_rev.reverse() => vx_reverse(&mut rhs_rev)
//@rewrite_opt tail.reverse() => vx_reverse(&mut tail)
//@rewrite_opt Vec::new() => Vec::<Symbol>::new()
//@rewrite_opt tail.extend(rhs_rev.drain($i..)) => vx_drain_tail(&mut tail, &mut rhs_rev, $i)
//@rewrite_opt Into::into($$x) => History::from_binarize($$x)
//@rewrite_opt &tail[..] => tail.as_slice()
//@loops while
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).limit() >= 2, rule.rhs@.len() < u32::MAX,
    ensures
        final(self).same_rest(*old(self)),
        prod_seq(final(self).rules@) == prod_seq(old(self).rules@) + added(*old(self), rule),
        final(self).rules@.take(old(self).rules@.len() as int) == old(self).rules@,
        forall|i: int| old(self).rules@.len() <= i < final(self).rules@.len() ==>
            (#[trigger] final(self).rules@[i]).history == chain_history(rule.history, rule.rhs@.len() as int, old(self).limit(), i - old(self).rules@.len(), final(self).rules@.len() - old(self).rules@.len()),
        ret == final(self).rules@.len() - old(self).rules@.len(),
        final(self).n() == old(self).n() + (if ret == 0 { 0int } else { ret - 1 }),
        final(self).n() == old(self).n() ==> final(self).sym_source == old(self).sym_source,
//@at begin
    let ghost rs0 = self.rules@;
    let ghost n0 = self.n();
    let ghost k = self.limit();
    let ghost h = rule.history;
    let ghost len = rule.rhs@.len() as int;
    proof {
        lemma_chain_len(rule.lhs, rule.rhs@, n0, k);
        assert(seq![prod_of(rule)] == prod_seq(seq![rule])) by { assert(seq![prod_of(rule)] =~= prod_seq(seq![rule])); }
    }
//@at if0.then
    proof {
        assert(prod_seq(rs0.push(rule)) =~= prod_seq(rs0) + chain(rule.lhs, rule.rhs@, n0, k));
        assert(rs0.push(rule).take(rs0.len() as int) =~= rs0);
    }
//@at loop0.pre
    proof {
        assert(rule.rhs@.reverse().reverse() =~= rule.rhs@);
        assert(self.rules@.skip(rs0.len() as int) =~= Seq::empty());
        assert(prod_seq(self.rules@) + chain(rule.lhs, rhs_rev@.reverse(), self.n(), k) =~= prod_seq(rs0) + chain(rule.lhs, rule.rhs@, n0, k));
        assert(self.rules@.take(rs0.len() as int) =~= rs0);
    }
//@loop 0
    invariant
        self.same_rest(*old(self)), tail@.len() == 0, self.n() >= n0, self.n() == n0 ==> self.sym_source == old(self).sym_source,
        self.rules@.len() == rs0.len() + parts,
        self.rules@.take(rs0.len() as int) == rs0,
        parts > 0 || rhs_rev@.len() > 0 ==> self.n() == n0 + parts - (if parts > 0 && rhs_rev@.len() == 0 { 1int } else { 0int }),
        parts == 0 ==> self.n() == n0 && rhs_rev@.len() == len,
        parts > 0 ==> len > 0,
        len > k && parts > 0 && rhs_rev@.len() == 0 ==> parts >= 2,
        parts > 0 && rhs_rev@.len() > 0 ==> len > k,
        rhs_rev@.len() > 0 ==> rhs_rev@.len() + parts <= len,
        rhs_rev@.len() == 0 ==> parts <= len,
        len <= k ==> parts <= 1,
        prod_seq(self.rules@) + (if rhs_rev@.len() == 0 { Seq::<Prod>::empty() } else { chain(rule.lhs, rhs_rev@.reverse(), self.n(), k) })
            == prod_seq(rs0) + (if len == 0 { Seq::<Prod>::empty() } else { chain(rule.lhs, rule.rhs@, n0, k) }),
        forall|i: int| rs0.len() <= i < self.rules@.len() ==>
            (#[trigger] self.rules@[i]).history == (if len <= k || k != 2 { h } else { binarized(h, i - rs0.len(), len, rhs_rev@.len() == 0 && i == self.rules@.len() - 1) }),
    decreases rhs_rev@.len(),
//@at loop0.begin
    let ghost rr = rhs_rev@;
    let ghost n1 = self.n();
    let ghost r1 = self.rules@;
//@at loop0.end
    proof {
        let form = rr.reverse();
        let last = self.rules@[r1.len() as int];
        assert(self.rules@ =~= r1.push(last));
        assert(prod_seq(self.rules@) =~= prod_seq(r1).push(prod_of(last)));
        if rr.len() > k {
            assert(rr.skip(rr.len() - k).reverse() =~= form.take(k));
            assert(rhs_rev@.reverse() =~= seq![sym_of(n1)] + form.skip(k));
            assert(prod_of(last) == (Prod { l: sym_of(n1), r: form.take(k) }));
        } else {
            assert(rr.skip(0).reverse() =~= form);
            assert(prod_of(last) == (Prod { l: rule.lhs, r: form }));
        }
        assert(prod_seq(self.rules@) + (if rhs_rev@.len() == 0 { Seq::<Prod>::empty() } else { chain(rule.lhs, rhs_rev@.reverse(), self.n(), k) })
            =~= prod_seq(r1) + chain(rule.lhs, form, n1, k));
        assert(self.rules@.take(rs0.len() as int) =~= r1.take(rs0.len() as int));
    }
//@at end
    proof {
        assert(prod_seq(self.rules@) =~= prod_seq(rs0) + added(*old(self), rule));
    }
//@end
