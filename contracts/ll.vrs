// G10: the LL(1) parse table and classification.
//@struct cfg-classify/src/ll.rs LlParseTableKey #[derive(Clone,Copy)]
//@struct cfg-classify/src/ll.rs LlNonterminalClass #[derive(Clone,Copy)]
//@struct cfg-classify/src/ll.rs LlClassification
//@struct cfg-classify/src/ll.rs LlParseTable
//@contains cfg-classify/src/ll.rs #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq)] struct LlParseTableKey
// TRUSTED: BTreeMap::iter and iter_mut visit every entry once; derived Ord of LlParseTableKey is lawful.
#[verifier::external_body]
pub fn vx_entries<'a, K, V>(m: &'a BTreeMap<K, V>) -> (r: Vec<(&'a K, &'a V)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(*(#[trigger] r@[i]).0) && *r@[i].1 == m@[*r@[i].0],
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_keys<V>(m: &BTreeMap<Symbol, V>) -> (r: Vec<Symbol>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(#[trigger] r@[i]),
        forall|k: Symbol| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == k,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] != r@[j],
{ unimplemented!() }

// ---- what the table is
pub open spec fn fol(g: Cfg) -> Sets { follow(g.rules@, g.roots@) }
/// Terminal `a` selects rule `r`: by the first symbols of its right-hand side, or by what follows its left-hand side if that can be empty.
pub open spec fn by_first(g: Cfg, r: CfgRule, a: Symbol) -> bool { in_first(g.rules@, first(g.rules@), r.rhs@, Some(a)) }
pub open spec fn by_follow(g: Cfg, r: CfgRule, a: Symbol) -> bool { in_first(g.rules@, first(g.rules@), r.rhs@, None) && fol(g)(r.lhs, Some(a)) }
pub open spec fn selects(g: Cfg, r: CfgRule, a: Symbol) -> bool { by_first(g, r, a) || by_follow(g, r, a) }
pub open spec fn row1(g: Cfg, i: int, k: LlParseTableKey) -> Seq<usize> {
    if g.rules@[i].lhs == k.nonterminal && by_first(g, g.rules@[i], k.terminal) { seq![i as usize] } else { Seq::empty() }
}
pub open spec fn row2(g: Cfg, i: int, k: LlParseTableKey) -> Seq<usize> {
    if g.rules@[i].lhs == k.nonterminal && by_follow(g, g.rules@[i], k.terminal) { seq![i as usize] } else { Seq::empty() }
}
/// The entry for a key, over the first `c` rules.
pub open spec fn entry(g: Cfg, c: int, k: LlParseTableKey) -> Seq<usize>
    decreases c,
{
    if c <= 0 { Seq::empty() } else { entry(g, c - 1, k) + row1(g, c - 1, k) + row2(g, c - 1, k) }
}
pub type Table = Map<LlParseTableKey, Vec<usize>>;
pub open spec fn at_key(m: Table, k: LlParseTableKey) -> Seq<usize> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
pub open spec fn no_blank(m: Table) -> bool { forall|k: LlParseTableKey| #[trigger] m.contains_key(k) ==> m[k]@.len() > 0 }
/// Two different rules of `s` are selected by the same terminal.
pub open spec fn conflict(g: Cfg, s: Symbol) -> bool {
    exists|i: int, j: int, a: Symbol| 0 <= i < j < g.rules@.len() && (#[trigger] g.rules@[i]).lhs == s && (#[trigger] g.rules@[j]).lhs == s && #[trigger] selects(g, g.rules@[i], a) && selects(g, g.rules@[j], a)
}
pub open spec fn reaches(g: Cfg, s: Symbol, t: Symbol) -> bool { s == t || path(direct(g.rules@), s.ix(), t.ix()) }
/// A conflict at `s` or at a symbol reachable from it.
pub open spec fn clash(g: Cfg, s: Symbol) -> bool { exists|t: Symbol| reaches(g, s, t) && #[trigger] conflict(g, t) }
pub open spec fn has_entry(g: Cfg, s: Symbol) -> bool { exists|i: int, a: Symbol| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).lhs == s && #[trigger] selects(g, g.rules@[i], a) }
impl<'a> LlParseTable<'a> {
    pub open spec fn exact(self) -> bool {
        &&& self.grammar.wf() && self.grammar.n() <= u32::MAX
        &&& no_blank(self.map@)
        &&& forall|k: LlParseTableKey| #[trigger] at_key(self.map@, k) == entry(*self.grammar, self.grammar.rules@.len() as int, k)
    }
}
//@fn cfg-classify/src/ll.rs LlParseTable::new
//@impl impl<'a> LlParseTable<'a>
//@rewrite_opt grammar.first_sets() => FirstSets::new(grammar)
//@rewrite_opt grammar.follow_sets_with_first(&first) => FollowSets::new(grammar, &first.map)
//@rewrite_opt first.first_set_for_string(&rule.rhs[..]) => first.first_set_for_string(vx_rc_slice(&rule.rhs), Ghost(*grammar))
//@rewrite_opt follow.predict_sets() => follow.map
//@rewrite_opt for &terminal in &rhs_first_set[..] => for &terminal in &rhs_first_set.list
//@rewrite_opt for &terminal in &lhs_follow_set[..] => for &terminal in &lhs_follow_set.list
//@rewrite_opt $m.entry($$k).or_default() => vx_entry_or(&mut $m, $$k, Vec::<usize>::new())
//@rewrite_opt grammar.rules() => grammar.rules.iter()
//@loops for for for
//@attr #[verifier::loop_isolation(false)]
    requires grammar.wf(), grammar.n() <= u32::MAX, grammar.rules@.len() <= usize::MAX,
    ensures ret.grammar == grammar, ret.exact(),
//@at begin
    let ghost g = *grammar;
    let ghost rs = g.rules@;
    let ghost n = g.n();
    let ghost ff = first(rs);
    broadcast use axiom_symbol_ord;
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == rs, this.grammar == grammar, no_blank(this.map@),
        forall|k: LlParseTableKey| #[trigger] at_key(this.map@, k) == entry(g, __i0 as int, k),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost i = __i0 as int - 1;
    let ghost r = rs[i];
    let ghost m0 = this.map@;
    proof { broadcast use axiom_symbol_ord; assert(rule_in(r, n)); assert(is_lhs(rs, r.lhs)); }
//@loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == rhs_first_set.list@, this.grammar == grammar, no_blank(this.map@),
        forall|k: LlParseTableKey| #[trigger] at_key(this.map@, k) == at_key(m0, k) + (if k.nonterminal == r.lhs && __s1@.take(__i1 as int).contains(k.terminal) { seq![i as usize] } else { Seq::empty() }),
    decreases __s1.len() - __i1,
//@at loop1.begin
    let ghost m1 = this.map@;
    let ghost k1 = LlParseTableKey { nonterminal: r.lhs, terminal: __s1@[__i1 as int - 1] };
    proof { lemma_take_once(__s1@, __i1 as int - 1); }
//@at loop1.end
    proof {
        let w = this.map@;
        assert(w == m1.insert(k1, w[k1]));
        assert(at_key(w, k1) =~= at_key(m1, k1).push(i as usize));
        assert forall|k: LlParseTableKey| #[trigger] at_key(w, k) == at_key(m0, k) + (if k.nonterminal == r.lhs && __s1@.take(__i1 as int).contains(k.terminal) { seq![i as usize] } else { Seq::empty() }) by {
            assert(at_key(m1, k) == at_key(m0, k) + (if k.nonterminal == r.lhs && __s1@.take(__i1 as int - 1).contains(k.terminal) { seq![i as usize] } else { Seq::empty() }));
            if k == k1 { assert(at_key(w, k) =~= at_key(m0, k) + seq![i as usize]); }
            else { assert(at_key(w, k) == at_key(m1, k)); }
        }
    }
//@at loop1.post
    let ghost m2 = this.map@;
    proof {
        assert(__s1@.take(__s1@.len() as int) =~= __s1@);
        assert forall|k: LlParseTableKey| #[trigger] at_key(m2, k) == entry(g, i, k) + row1(g, i, k) by {
            assert(rhs_first_set.in_set(Some(k.terminal)) == in_first(rs, ff, r.rhs@, Some(k.terminal)));
            assert(at_key(m0, k) == entry(g, i, k));
        }
        assert(rhs_first_set.in_set(None) == in_first(rs, ff, r.rhs@, None));
    }
//@at loop2.pre
    proof {
        assert(follow.map@.contains_key(r.lhs));
        assert(follow.map@[r.lhs].proper(n));
        assert(lhs_follow_set.list@ == follow.map@[r.lhs].list@);
    }
//@loop 2
    invariant
        __i2 <= __s2@.len(), __s2@ == lhs_follow_set.list@, this.grammar == grammar, no_blank(this.map@),
        forall|k: LlParseTableKey| #[trigger] at_key(this.map@, k) == at_key(m2, k) + (if k.nonterminal == r.lhs && __s2@.take(__i2 as int).contains(k.terminal) { seq![i as usize] } else { Seq::empty() }),
    decreases __s2.len() - __i2,
//@at loop2.begin
    let ghost m3 = this.map@;
    let ghost k1 = LlParseTableKey { nonterminal: r.lhs, terminal: __s2@[__i2 as int - 1] };
    proof { lemma_take_once(__s2@, __i2 as int - 1); }
//@at loop2.end
    proof {
        let w = this.map@;
        assert(w == m3.insert(k1, w[k1]));
        assert(at_key(w, k1) =~= at_key(m3, k1).push(i as usize));
        assert forall|k: LlParseTableKey| #[trigger] at_key(w, k) == at_key(m2, k) + (if k.nonterminal == r.lhs && __s2@.take(__i2 as int).contains(k.terminal) { seq![i as usize] } else { Seq::empty() }) by {
            assert(at_key(m3, k) == at_key(m2, k) + (if k.nonterminal == r.lhs && __s2@.take(__i2 as int - 1).contains(k.terminal) { seq![i as usize] } else { Seq::empty() }));
            if k == k1 { assert(at_key(w, k) =~= at_key(m2, k) + seq![i as usize]); }
            else { assert(at_key(w, k) == at_key(m3, k)); }
        }
    }
//@at loop2.post
    proof {
        assert(__s2@.take(__s2@.len() as int) =~= __s2@);
        assert forall|k: LlParseTableKey| k.nonterminal == r.lhs implies __s2@.contains(k.terminal) == #[trigger] fol(g)(k.nonterminal, Some(k.terminal)) by {
            assert(rel_of(follow.map@)(r.lhs, Some(k.terminal)) == fol(g)(r.lhs, Some(k.terminal)));
        }
    }
//@at loop0.end
    proof {
        assert forall|k: LlParseTableKey| #[trigger] at_key(this.map@, k) == entry(g, __i0 as int, k) by {
            assert(at_key(m2, k) == entry(g, i, k) + row1(g, i, k));
            assert(at_key(this.map@, k) =~= at_key(m2, k) + row2(g, i, k));
        }
    }
//@end
/// The k-th of different symbols is not among those before.
pub proof fn lemma_take_once(s: Seq<Symbol>, k: int)
    requires 0 <= k < s.len(), ascending(s),
    ensures !s.take(k).contains(s[k]), forall|x: Symbol| #[trigger] s.take(k + 1).contains(x) == (s.take(k).contains(x) || s[k] == x),
{
    lemma_take_contains(s, k);
    if s.take(k).contains(s[k]) {
        let i = choose|i: int| 0 <= i < k && s.take(k)[i] == s[k];
        assert(s[i].raw < s[k].raw);
    }
}

// ---- classification
pub type Entries<'a> = Seq<(&'a LlParseTableKey, &'a Vec<usize>)>;
pub open spec fn seen(e: Entries, c: int, s: Symbol) -> bool { exists|i: int| 0 <= i < c && (#[trigger] e[i]).0.nonterminal == s }
pub open spec fn multi(e: Entries, c: int, s: Symbol) -> bool { exists|i: int| 0 <= i < c && (#[trigger] e[i]).0.nonterminal == s && e[i].1@.len() > 1 }
pub proof fn lemma_seen(e: Entries, c: int)
    requires 0 <= c < e.len(),
    ensures
        forall|s: Symbol| #[trigger] seen(e, c + 1, s) == (seen(e, c, s) || e[c].0.nonterminal == s),
        forall|s: Symbol| #[trigger] multi(e, c + 1, s) == (multi(e, c, s) || (e[c].0.nonterminal == s && e[c].1@.len() > 1)),
{
    assert forall|s: Symbol| #[trigger] seen(e, c + 1, s) == (seen(e, c, s) || e[c].0.nonterminal == s) by {
        if seen(e, c, s) { let i = choose|i: int| 0 <= i < c && (#[trigger] e[i]).0.nonterminal == s; assert(e[i].0.nonterminal == s); }
    }
    assert forall|s: Symbol| #[trigger] multi(e, c + 1, s) == (multi(e, c, s) || (e[c].0.nonterminal == s && e[c].1@.len() > 1)) by {
        if multi(e, c, s) { let i = choose|i: int| 0 <= i < c && (#[trigger] e[i]).0.nonterminal == s && e[i].1@.len() > 1; assert(e[i].0.nonterminal == s); }
    }
}
/// The entry of a key lists more than one rule, or one rule twice.
pub open spec fn multi_key(g: Cfg, s: Symbol) -> bool { exists|k: LlParseTableKey| k.nonterminal == s && #[trigger] entry(g, g.rules@.len() as int, k).len() > 1 }
pub open spec fn twice(g: Cfg, s: Symbol) -> bool { exists|i: int, a: Symbol| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).lhs == s && #[trigger] by_first(g, g.rules@[i], a) && by_follow(g, g.rules@[i], a) }
pub proof fn lemma_entry_has(g: Cfg, c: int, k: LlParseTableKey, i: int)
    requires 0 <= i < c <= g.rules@.len(), g.rules@[i].lhs == k.nonterminal, selects(g, g.rules@[i], k.terminal),
    ensures entry(g, c, k).len() > 0,
    decreases c,
{
    if i < c - 1 { lemma_entry_has(g, c - 1, k, i); }
}
pub proof fn lemma_entry_two(g: Cfg, c: int, k: LlParseTableKey, i: int, j: int)
    requires 0 <= i < j < c <= g.rules@.len(), g.rules@[i].lhs == k.nonterminal, selects(g, g.rules@[i], k.terminal), g.rules@[j].lhs == k.nonterminal, selects(g, g.rules@[j], k.terminal),
    ensures entry(g, c, k).len() > 1,
    decreases c,
{
    if j < c - 1 { lemma_entry_two(g, c - 1, k, i, j); } else { lemma_entry_has(g, c - 1, k, i); }
}
pub proof fn lemma_entry_some(g: Cfg, c: int, k: LlParseTableKey)
    requires 0 <= c <= g.rules@.len(), entry(g, c, k).len() > 0,
    ensures exists|i: int| 0 <= i < c && (#[trigger] g.rules@[i]).lhs == k.nonterminal && selects(g, g.rules@[i], k.terminal),
    decreases c,
{
    if c > 0 {
        if entry(g, c - 1, k).len() > 0 {
            lemma_entry_some(g, c - 1, k);
            let i = choose|i: int| 0 <= i < c - 1 && (#[trigger] g.rules@[i]).lhs == k.nonterminal && selects(g, g.rules@[i], k.terminal);
            assert(g.rules@[i].lhs == k.nonterminal);
        } else {
            assert(g.rules@[c - 1].lhs == k.nonterminal && selects(g, g.rules@[c - 1], k.terminal));
        }
    }
}
pub proof fn lemma_entry_many(g: Cfg, c: int, k: LlParseTableKey)
    requires 0 <= c <= g.rules@.len(), entry(g, c, k).len() > 1,
    ensures conflict(g, k.nonterminal) || twice(g, k.nonterminal),
    decreases c,
{
    if c > 0 {
        if entry(g, c - 1, k).len() > 1 {
            lemma_entry_many(g, c - 1, k);
        } else if entry(g, c - 1, k).len() == 1 {
            lemma_entry_some(g, c - 1, k);
            let i = choose|i: int| 0 <= i < c - 1 && (#[trigger] g.rules@[i]).lhs == k.nonterminal && selects(g, g.rules@[i], k.terminal);
            assert(g.rules@[c - 1].lhs == k.nonterminal && selects(g, g.rules@[c - 1], k.terminal));
            assert(conflict(g, k.nonterminal));
        } else {
            assert(g.rules@[c - 1].lhs == k.nonterminal && by_first(g, g.rules@[c - 1], k.terminal) && by_follow(g, g.rules@[c - 1], k.terminal));
        }
    }
}
/// What is first of a symbol is first of one of its rules.
pub proof fn lemma_first_inv(rs: Seq<CfgRule>, s: Symbol, x: Option<Symbol>)
    requires first(rs)(s, x),
    ensures exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == s && in_first(rs, first(rs), rs[i].rhs@, x),
{
    let f = first(rs);
    let q: Sets = |t: Symbol, y: Option<Symbol>| f(t, y) && exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == t && in_first(rs, f, rs[i].rhs@, y);
    lemma_first_is_closed(rs);
    assert(first_closed(rs, q)) by {
        assert forall|i: int| 0 <= i < rs.len() implies first_closed_at(rs, q, #[trigger] rs[i]) by {
            assert forall|y: Option<Symbol>| #[trigger] in_first(rs, q, rs[i].rhs@, y) implies q(rs[i].lhs, y) by {
                assert(sub_sets(q, f));
                lemma_first_mono(rs, q, f, rs[i].rhs@, 0, y);
                assert(first_closed_at(rs, f, rs[i]));
                assert(in_first(rs, f, rs[i].rhs@, y));
                assert(rs[i].lhs == rs[i].lhs);
            }
        }
    }
    assert(q(s, x));
}
pub proof fn lemma_steps_on(r: Rel, i: int, m: int, j: int, k: nat)
    requires r(i, m), steps(r, m, j, k),
    ensures path(r, i, j),
{
    assert(steps(r, i, j, k + 1));
}
/// A clash below a symbol of the right-hand side is one below the left-hand side.
pub proof fn lemma_clash_up(g: Cfg, i: int, y: Symbol)
    requires 0 <= i < g.rules@.len(), g.rules@[i].has(y), clash(g, y),
    ensures clash(g, g.rules@[i].lhs),
{
    let s = g.rules@[i].lhs;
    let d = direct(g.rules@);
    let t = choose|t: Symbol| reaches(g, y, t) && #[trigger] conflict(g, t);
    assert(y == sym_of(y.ix()));
    assert(g.rules@[i].lhs.ix() == s.ix());
    assert(d(s.ix(), y.ix()));
    if y == t {
        assert(steps(d, y.ix(), t.ix(), 0));
        lemma_steps_on(d, s.ix(), y.ix(), t.ix(), 0);
    } else {
        let k = choose|k: nat| k >= 1 && steps(d, y.ix(), t.ix(), k);
        lemma_steps_on(d, s.ix(), y.ix(), t.ix(), k);
    }
    assert(reaches(g, s, t) && conflict(g, t));
}
/// The symbol that starts with `a` in a nullable right-hand side, with what follows it.
pub proof fn lemma_nullable_start(g: Cfg, r: CfgRule, a: Symbol) -> (j: int)
    requires
        exists|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == r,
        in_first(g.rules@, first(g.rules@), r.rhs@, None), in_first(g.rules@, first(g.rules@), r.rhs@, Some(a)), fol(g)(r.lhs, Some(a)),
    ensures
        0 <= j < r.rhs@.len(), is_lhs(g.rules@, r.rhs@[j]), sym_first(g.rules@, first(g.rules@), r.rhs@[j], Some(a)),
        first(g.rules@)(r.rhs@[j], None), first(g.rules@)(r.rhs@[j], Some(a)), fol(g)(r.rhs@[j], Some(a)),
{
    let rs = g.rules@;
    let f = first(rs);
    let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == r;
    let s = r.rhs@;
    let j = choose|j: int| 0 <= j < s.len() && skips(rs, f, s, 0, j) && sym_first(rs, f, #[trigger] s[j], Some(a));
    assert(skips(rs, f, s, 0, s.len() as int));
    assert(is_lhs(rs, s[j]) && f(s[j], None));
    assert(in_first_from(rs, f, s, j + 1, None)) by {
        assert forall|l: int| j + 1 <= l < s.len() implies is_lhs(rs, #[trigger] s[l]) && f(s[l], None) by {}
    }
    let w = fol(g);
    lemma_follow_is_closed(rs, g.roots@);
    assert(follow_closed_at(rs, w, rs[i]));
    assert(follows_at(rs, w, r, j, Some(a)));
    assert(w(s[j], Some(a)));
    j
}
/// A rule that is selected twice comes with two rules selected by one terminal, at a symbol below.
pub proof fn lemma_twice(g: Cfg, s: Symbol)
    requires twice(g, s),
    ensures clash(g, s),
{
    let rs = g.rules@;
    let f = first(rs);
    let (i0, a) = choose|i: int, a: Symbol| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == s && #[trigger] by_first(g, rs[i], a) && by_follow(g, rs[i], a);
    let q: Sets = |t: Symbol, y: Option<Symbol>| f(t, y) && (y == Some(a) && f(t, None) && fol(g)(t, Some(a)) ==> clash(g, t));
    lemma_first_is_closed(rs);
    assert(sub_sets(q, f));
    assert(first_closed(rs, q)) by {
        assert forall|i: int| 0 <= i < rs.len() implies first_closed_at(rs, q, #[trigger] rs[i]) by {
            let r = rs[i];
            assert forall|y: Option<Symbol>| #[trigger] in_first(rs, q, r.rhs@, y) implies q(r.lhs, y) by {
                lemma_first_mono(rs, q, f, r.rhs@, 0, y);
                assert(first_closed_at(rs, f, rs[i]));
                assert(in_first(rs, f, r.rhs@, y));
                assert(f(r.lhs, y));
                if y == Some(a) && f(r.lhs, None) && fol(g)(r.lhs, Some(a)) {
                    if in_first(rs, f, r.rhs@, None) {
                        let sq = r.rhs@;
                        let j = choose|j: int| 0 <= j < sq.len() && skips(rs, q, sq, 0, j) && sym_first(rs, q, #[trigger] sq[j], Some(a));
                        assert(is_lhs(rs, sq[j]) && f(sq[j], None));
                        assert(q(sq[j], Some(a)));
                        assert(in_first_from(rs, f, sq, j + 1, None)) by {
                            assert forall|l: int| j + 1 <= l < sq.len() implies is_lhs(rs, #[trigger] sq[l]) && f(sq[l], None) by {}
                        }
                        let w = fol(g);
                        lemma_follow_is_closed(rs, g.roots@);
                        assert(follow_closed_at(rs, w, rs[i]));
                        assert(follows_at(rs, w, r, j, Some(a)));
                        assert(w(sq[j], Some(a)));
                        assert(clash(g, sq[j]));
                        assert(r.has(sq[j])) by { assert(sq[j] == sq[j]); }
                        lemma_clash_up(g, i, sq[j]);
                    } else {
                        lemma_first_inv(rs, r.lhs, None);
                        let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).lhs == r.lhs && in_first(rs, f, rs[k].rhs@, None);
                        assert(selects(g, rs[i], a));
                        assert(selects(g, rs[k], a));
                        assert(conflict(g, r.lhs)) by {
                            if i < k { assert(rs[i].lhs == r.lhs && rs[k].lhs == r.lhs); } else { assert(k != i); assert(rs[k].lhs == r.lhs && rs[i].lhs == r.lhs); }
                        }
                        assert(reaches(g, r.lhs, r.lhs));
                    }
                }
            }
        }
    }
    let r = rs[i0];
    let j = lemma_nullable_start(g, r, a);
    assert(q(r.rhs@[j], Some(a)));
    assert(r.has(r.rhs@[j]));
    lemma_clash_up(g, i0, r.rhs@[j]);
}
/// `i` is marked, or a path leads from it to a marked one.
pub open spec fn from_marked(rs: Seq<CfgRule>, p0: Seq<bool>, i: int, k: nat) -> bool { exists|j: int| 0 <= j < p0.len() && #[trigger] p0[j] && steps(direct(rs), i, j, k) }
pub proof fn lemma_closure_steps(rs: Seq<CfgRule>, p0: Seq<bool>, p: Seq<bool>, i: int, j: int, k: nat)
    requires is_closure(rs, p0, p, RhsPropertyMode::Any), rules_in(rs, p0.len() as int), 0 <= j < p0.len(), p0[j], steps(direct(rs), i, j, k), 0 <= i < p0.len(),
    ensures p[i],
    decreases k,
{
    if k == 0 { assert(p0[i] ==> p[i]); }
    else {
        let d = direct(rs);
        let m = choose|m: int| #[trigger] d(i, m) && steps(d, m, j, (k - 1) as nat);
        let x = choose|x: int| 0 <= x < rs.len() && (#[trigger] rs[x]).lhs.ix() == i && rs[x].has(sym_of(m)) && 0 <= m <= u32::MAX;
        assert(rule_in(rs[x], p0.len() as int));
        let y = choose|y: int| 0 <= y < rs[x].rhs@.len() && rs[x].rhs@[y] == sym_of(m);
        assert(rs[x].rhs@[y].raw < p0.len());
        assert(m < p0.len());
        lemma_closure_steps(rs, p0, p, m, j, (k - 1) as nat);
        assert(p[rs[x].rhs@[y].ix()]);
        assert(sat(rs[x], p, RhsPropertyMode::Any));
    }
}
pub proof fn lemma_closure_marked(rs: Seq<CfgRule>, p0: Seq<bool>, p: Seq<bool>)
    requires is_closure(rs, p0, p, RhsPropertyMode::Any), rules_in(rs, p0.len() as int), p0.len() <= u32::MAX,
    ensures forall|i: int| 0 <= i < p0.len() ==> #[trigger] p[i] == exists|k: nat| #[trigger] from_marked(rs, p0, i, k),
{
    let d = direct(rs);
    let q = Seq::new(p0.len(), |i: int| exists|k: nat| #[trigger] from_marked(rs, p0, i, k));
    assert(sub(p0, q)) by {
        assert forall|i: int| 0 <= i < p0.len() implies (#[trigger] p0[i] ==> q[i]) by { if p0[i] { assert(steps(d, i, i, 0)); assert(from_marked(rs, p0, i, 0)); } }
    }
    assert(closed(rs, q, RhsPropertyMode::Any)) by {
        assert forall|x: int| 0 <= x < rs.len() implies (sat(#[trigger] rs[x], q, RhsPropertyMode::Any) ==> q[rs[x].lhs.ix()]) by {
            if sat(rs[x], q, RhsPropertyMode::Any) {
                assert(rule_in(rs[x], p0.len() as int));
                let y = choose|y: int| 0 <= y < rs[x].rhs@.len() && q[(#[trigger] rs[x].rhs@[y]).ix()];
                let m = rs[x].rhs@[y].ix();
                let k = choose|k: nat| #[trigger] from_marked(rs, p0, m, k);
                let j = choose|j: int| 0 <= j < p0.len() && #[trigger] p0[j] && steps(d, m, j, k);
                assert(sym_of(m) == rs[x].rhs@[y]);
                assert(rs[x].has(sym_of(m)));
                assert(rs[x].lhs.ix() == rs[x].lhs.ix());
                assert(d(rs[x].lhs.ix(), m));
                assert(steps(d, rs[x].lhs.ix(), j, k + 1));
                assert(from_marked(rs, p0, rs[x].lhs.ix(), k + 1));
            }
        }
    }
    assert(sub(p, q));
    assert forall|i: int| 0 <= i < p0.len() implies #[trigger] p[i] == exists|k: nat| #[trigger] from_marked(rs, p0, i, k) by {
        assert(p[i] ==> q[i]);
        if q[i] {
            let k = choose|k: nat| #[trigger] from_marked(rs, p0, i, k);
            let j = choose|j: int| 0 <= j < p0.len() && #[trigger] p0[j] && steps(d, i, j, k);
            lemma_closure_steps(rs, p0, p, i, j, k);
        }
    }
}
/// The marked symbols are those with a key of several rules: then the closure marks exactly those with a clash.
pub proof fn lemma_class(g: Cfg, p0: Seq<bool>, p: Seq<bool>)
    requires
        g.wf(), g.n() <= u32::MAX, p0.len() == g.n(), is_closure(g.rules@, p0, p, RhsPropertyMode::Any),
        forall|s: Symbol| s.raw < g.n() ==> #[trigger] p0[s.ix()] == multi_key(g, s),
    ensures forall|s: Symbol| s.raw < g.n() ==> #[trigger] p[s.ix()] == clash(g, s),
{
    let rs = g.rules@;
    let d = direct(rs);
    lemma_closure_marked(rs, p0, p);
    assert forall|s: Symbol| multi_key(g, s) implies #[trigger] clash(g, s) by {
        let k = choose|k: LlParseTableKey| k.nonterminal == s && #[trigger] entry(g, rs.len() as int, k).len() > 1;
        lemma_entry_many(g, rs.len() as int, k);
        if conflict(g, s) { assert(reaches(g, s, s)); } else { lemma_twice(g, s); }
    }
    assert forall|s: Symbol| conflict(g, s) implies multi_key(g, s) by {
        let (i, j, a) = choose|i: int, j: int, a: Symbol| 0 <= i < j < rs.len() && (#[trigger] rs[i]).lhs == s && (#[trigger] rs[j]).lhs == s && #[trigger] selects(g, rs[i], a) && selects(g, rs[j], a);
        let k = LlParseTableKey { nonterminal: s, terminal: a };
        lemma_entry_two(g, rs.len() as int, k, i, j);
    }
    assert forall|s: Symbol| s.raw < g.n() implies #[trigger] p[s.ix()] == clash(g, s) by {
        let i = s.ix();
        if p[i] {
            let k = choose|k: nat| #[trigger] from_marked(rs, p0, i, k);
            let j = choose|j: int| 0 <= j < p0.len() && #[trigger] p0[j] && steps(d, i, j, k);
            let t = sym_of(j);
            assert(p0[t.ix()]);
            assert(multi_key(g, t));
            assert(clash(g, t));
            let u = choose|u: Symbol| reaches(g, t, u) && #[trigger] conflict(g, u);
            lemma_reach_on(g, s, t, u, k);
            assert(reaches(g, s, u) && conflict(g, u));
        }
        if clash(g, s) {
            let t = choose|t: Symbol| reaches(g, s, t) && #[trigger] conflict(g, t);
            assert(multi_key(g, t));
            let ti = t.ix();
            // a symbol with a conflict is the left-hand side of a rule
            let (x, y, a) = choose|x: int, y: int, a: Symbol| 0 <= x < y < rs.len() && (#[trigger] rs[x]).lhs == t && (#[trigger] rs[y]).lhs == t && #[trigger] selects(g, rs[x], a) && selects(g, rs[y], a);
            assert(rule_in(rs[x], g.n()));
            assert(p0[ti]);
            if s == t { assert(steps(d, i, ti, 0)); assert(from_marked(rs, p0, i, 0)); }
            else {
                let k = choose|k: nat| k >= 1 && steps(d, i, ti, k);
                assert(from_marked(rs, p0, i, k));
            }
        }
    }
}
pub proof fn lemma_steps_join(r: Rel, i: int, m: int, j: int, k: nat, l: nat)
    requires steps(r, i, m, k), steps(r, m, j, l),
    ensures steps(r, i, j, k + l),
    decreases k,
{
    if k > 0 {
        let x = choose|x: int| #[trigger] r(i, x) && steps(r, x, m, (k - 1) as nat);
        lemma_steps_join(r, x, m, j, (k - 1) as nat, l);
        assert(steps(r, i, j, k + l));
    }
}
pub proof fn lemma_reach_on(g: Cfg, s: Symbol, t: Symbol, u: Symbol, k: nat)
    requires steps(direct(g.rules@), s.ix(), t.ix(), k), reaches(g, t, u),
    ensures reaches(g, s, u),
{
    let d = direct(g.rules@);
    if t == u {
        if k == 0 { assert(s == u); } else { assert(path(d, s.ix(), u.ix())); }
    } else {
        let l = choose|l: nat| l >= 1 && steps(d, t.ix(), u.ix(), l);
        lemma_steps_join(d, s.ix(), t.ix(), u.ix(), k, l);
        assert(path(d, s.ix(), u.ix()));
    }
}
// TRUSTED: BTreeMap::iter, with copies of keys and values.
#[verifier::external_body]
pub fn vx_pairs(m: &BTreeMap<Symbol, LlNonterminalClass>) -> (r: Vec<(Symbol, LlNonterminalClass)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0) && r@[i].1 == m@[r@[i].0],
        forall|k: Symbol| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
{ unimplemented!() }
pub type Classes = Map<Symbol, LlNonterminalClass>;
pub open spec fn cf(m: Classes, s: Symbol) -> bool { m.contains_key(s) && m[s] == LlNonterminalClass::ContextFree }
pub open spec fn at_of(e: Seq<Symbol>, c: int, s: Symbol) -> bool { exists|i: int| 0 <= i < c && #[trigger] e[i] == s }
pub open spec fn marked(e: Seq<(Symbol, LlNonterminalClass)>, c: int, s: Symbol) -> bool { exists|i: int| 0 <= i < c && (#[trigger] e[i]).0 == s && e[i].1 == LlNonterminalClass::ContextFree }
//@fn cfg-classify/src/ll.rs LlParseTable::classify
//@impl impl<'a> LlParseTable<'a>
//@rewrite for ($a, $b) in &self.map { $$c } ==>> for ($a, $b) in vx_entries(&self.map) { $$c }
//@rewrite for (&$a, &$b) in result.classes.iter() { $$c } ==>> for ($a, $b) in vx_pairs(&result.classes) { $$c }
//@rewrite for (&$a, $b) in result.classes.iter_mut() { $$c } ==>> for $a in vx_keys(&result.classes) { let $b = vx_get_mut(&mut result.classes, &$a); $$c }
//@rewrite_opt $m.entry($$k).or_insert($$v) ==>> vx_entry_or(&mut $m, $$k, $$v)
//@rewrite_opt property[$$i] => *property.index($$i)
//@for 0 value
//@for 1 value
//@for 2 value
//@loops for for for
//@attr #[verifier::loop_isolation(false)]
    requires self.exact(),
    ensures
        forall|s: Symbol| #[trigger] ret.classes@.contains_key(s) == has_entry(*self.grammar, s),
        forall|s: Symbol| #[trigger] ret.classes@.contains_key(s) ==> (ret.classes@[s] == LlNonterminalClass::ContextFree) == clash(*self.grammar, s),
//@at begin
    let ghost g = *self.grammar;
    let ghost n = g.n();
    let ghost rs = g.rules@;
    let ghost m = self.map@;
    broadcast use axiom_symbol_ord;
//@loop 0
    invariant
        __i0 <= __s0@.len(),
        forall|s: Symbol| #[trigger] result.classes@.contains_key(s) == seen(__s0@, __i0 as int, s),
        forall|s: Symbol| #[trigger] cf(result.classes@, s) == multi(__s0@, __i0 as int, s),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost c0 = result.classes@;
    proof { lemma_seen(__s0@, __i0 as int - 1); assert(__s0@[__i0 as int - 1].0 == key && __s0@[__i0 as int - 1].1 == rules); }
//@at loop0.end
    proof {
        let c1 = result.classes@;
        assert forall|s: Symbol| #[trigger] cf(c1, s) == multi(__s0@, __i0 as int, s) by { assert(cf(c0, s) == multi(__s0@, __i0 as int - 1, s)); assert(c0.contains_key(s) == seen(__s0@, __i0 as int - 1, s)); }
    }
//@at loop0.post
    let ghost e = __s0@;
    let ghost c2 = result.classes@;
    proof {
        let z = rs.len() as int;
        assert forall|s: Symbol| #[trigger] seen(e, e.len() as int, s) == has_entry(g, s) by {
            if seen(e, e.len() as int, s) {
                let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.nonterminal == s;
                let k = *e[i].0;
                assert(m.contains_key(k));
                assert(at_key(m, k) == entry(g, z, k));
                lemma_entry_some(g, z, k);
                let x = choose|x: int| 0 <= x < z && (#[trigger] rs[x]).lhs == s && selects(g, rs[x], k.terminal);
                assert(rs[x].lhs == s && selects(g, rs[x], k.terminal));
            }
            if has_entry(g, s) {
                let (x, a) = choose|i: int, a: Symbol| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).lhs == s && #[trigger] selects(g, g.rules@[i], a);
                let k = LlParseTableKey { nonterminal: s, terminal: a };
                lemma_entry_has(g, z, k, x);
                assert(at_key(m, k) == entry(g, z, k));
                assert(m.contains_key(k));
            }
        }
        assert forall|s: Symbol| #[trigger] multi(e, e.len() as int, s) == multi_key(g, s) by {
            if multi(e, e.len() as int, s) {
                let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.nonterminal == s && e[i].1@.len() > 1;
                let k = *e[i].0;
                assert(m.contains_key(k));
                assert(at_key(m, k) == entry(g, z, k));
            }
            if multi_key(g, s) {
                let k = choose|k: LlParseTableKey| k.nonterminal == s && #[trigger] entry(g, z, k).len() > 1;
                assert(at_key(m, k) == entry(g, z, k));
                assert(m.contains_key(k));
                let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]).0 == k;
                assert(e[i].0.nonterminal == s && e[i].1@.len() > 1);
            }
        }
        assert forall|s: Symbol| #[trigger] c2.contains_key(s) implies s.raw < n by {
            assert(has_entry(g, s));
            let (x, a) = choose|i: int, a: Symbol| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).lhs == s && #[trigger] selects(g, g.rules@[i], a);
            assert(rule_in(rs[x], n));
        }
    }
//@loop 1
    invariant
        __i1 <= __s1@.len(), property@.len() == n, result.classes@ == c2,
        forall|s: Symbol| s.raw < n ==> #[trigger] property@[s.ix()] == marked(__s1@, __i1 as int, s),
    decreases __s1.len() - __i1,
//@at loop1.begin
    let ghost p1 = property@;
    let ghost z1 = __i1 as int - 1;
    proof {
        assert(c2.contains_key(__s1@[z1].0));
        assert forall|s: Symbol| #[trigger] marked(__s1@, z1 + 1, s) == (marked(__s1@, z1, s) || (__s1@[z1].0 == s && __s1@[z1].1 == LlNonterminalClass::ContextFree)) by {
            if marked(__s1@, z1, s) { let i = choose|i: int| 0 <= i < z1 && (#[trigger] __s1@[i]).0 == s && __s1@[i].1 == LlNonterminalClass::ContextFree; assert(__s1@[i].0 == s); }
        }
    }
//@at loop1.end
    proof {
        assert forall|s: Symbol| s.raw < n implies #[trigger] property@[s.ix()] == marked(__s1@, __i1 as int, s) by { assert(p1[s.ix()] == marked(__s1@, z1, s)); }
    }
//@at loop1.post
    let ghost p0 = property@;
    proof {
        let e1 = __s1@;
        assert forall|s: Symbol| s.raw < n implies #[trigger] p0[s.ix()] == multi_key(g, s) by {
            assert(cf(c2, s) == multi(e, e.len() as int, s));
            if marked(e1, e1.len() as int, s) {
                let i = choose|i: int| 0 <= i < e1.len() && (#[trigger] e1[i]).0 == s && e1[i].1 == LlNonterminalClass::ContextFree;
                assert(c2.contains_key(e1[i].0) && e1[i].1 == c2[e1[i].0]);
            }
            if cf(c2, s) {
                assert(c2.contains_key(s));
                let i = choose|i: int| 0 <= i < e1.len() && (#[trigger] e1[i]).0 == s;
                assert(e1[i].1 == c2[e1[i].0]);
            }
        }
    }
//@at loop2.pre
    proof { lemma_class(g, p0, property@); }
//@loop 2
    invariant
        __i2 <= __s2@.len(),
        forall|s: Symbol| #[trigger] result.classes@.contains_key(s) == c2.contains_key(s),
        forall|s: Symbol| #[trigger] c2.contains_key(s) ==> result.classes@[s] == (if at_of(__s2@, __i2 as int, s) && property@[s.ix()] { LlNonterminalClass::ContextFree } else { c2[s] }),
    decreases __s2.len() - __i2,
//@at loop2.begin
    let ghost z2 = __i2 as int - 1;
    proof {
        assert(c2.contains_key(__s2@[z2]));
        assert forall|s: Symbol| #[trigger] at_of(__s2@, z2 + 1, s) == (at_of(__s2@, z2, s) || __s2@[z2] == s) by {
            if at_of(__s2@, z2, s) { let i = choose|i: int| 0 <= i < z2 && #[trigger] __s2@[i] == s; assert(__s2@[i] == s); }
        }
    }
//@at loop2.post
    proof {
        let e2 = __s2@;
        assert forall|s: Symbol| #[trigger] result.classes@.contains_key(s) implies (result.classes@[s] == LlNonterminalClass::ContextFree) == clash(g, s) by {
            assert(c2.contains_key(s));
            assert(property@[s.ix()] == clash(g, s));
            let i = choose|i: int| 0 <= i < e2.len() && #[trigger] e2[i] == s;
            assert(at_of(e2, e2.len() as int, s));
            if cf(c2, s) { assert(p0[s.ix()] ==> property@[s.ix()]); assert(multi_key(g, s)); assert(p0[s.ix()]); }
        }
    }
//@end
//@bodyis cfg-classify/src/ll.rs LlClassification::classes :: &self.classes
