// G09: FOLLOW sets.
//@struct cfg-predict-sets/src/follow.rs FollowSets
//@bodyis cfg-predict-sets/src/follow.rs PredictSets for FollowSets::predict_sets :: &self.map
//@bodyis cfg-predict-sets/src/cfg_sets_ext.rs CfgSetsExt for Cfg::follow_sets :: FollowSets::new(self, self.first_sets().predict_sets())
//@bodyis cfg-predict-sets/src/cfg_sets_ext.rs CfgSetsExt for Cfg::follow_sets_with_first :: FollowSets::new(self, first_sets.predict_sets())
// TRUSTED: slice::binary_search, slice::sort; BTreeMap::get_mut.
#[verifier::external_body]
pub fn vx_search(v: &Vec<Symbol>, s: &Symbol) -> (r: bool)
    requires sorted(v@),
    ensures r == v@.contains(*s),
{ v.binary_search(s).is_ok() }
#[verifier::external_body]
pub fn vx_get_mut<'a, K, V>(m: &'a mut BTreeMap<K, V>, k: &K) -> (r: &'a mut V)
    requires old(m)@.contains_key(*k),
    ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_set(v: &PerSymbolSetVal) -> (r: PerSymbolSetVal)
    ensures r.has_none == v.has_none, r.list@ == v.list@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_syms_vec(s: &[Symbol]) -> (r: Vec<Symbol>)
    ensures r@ == s@,
{ s.to_vec() }

// ---- what a FOLLOW set is
/// What comes after position `j` of a rule: the first symbols of the rest and, if the rest derives the empty string, what follows the left-hand side.
pub open spec fn follows_at(rs: Seq<CfgRule>, q: Sets, r: CfgRule, j: int, x: Option<Symbol>) -> bool {
    (x is Some && in_first_from(rs, first(rs), r.rhs@, j + 1, x)) || (in_first_from(rs, first(rs), r.rhs@, j + 1, None) && q(r.lhs, x))
}
pub open spec fn follow_closed_at(rs: Seq<CfgRule>, q: Sets, r: CfgRule) -> bool {
    forall|j: int, x: Option<Symbol>| 0 <= j < r.rhs@.len() && is_lhs(rs, r.rhs@[j]) && #[trigger] follows_at(rs, q, r, j, x) ==> q(r.rhs@[j], x)
}
pub open spec fn follow_closed(rs: Seq<CfgRule>, roots: Seq<Symbol>, q: Sets) -> bool {
    &&& forall|s: Symbol| is_lhs(rs, s) && roots.contains(s) ==> #[trigger] q(s, None)
    &&& forall|i: int| 0 <= i < rs.len() ==> follow_closed_at(rs, q, #[trigger] rs[i])
}
/// The least relation closed under the rules in which the end of input follows the roots.
pub open spec fn follow(rs: Seq<CfgRule>, roots: Seq<Symbol>) -> Sets {
    |s: Symbol, x: Option<Symbol>| forall|q: Sets| #[trigger] follow_closed(rs, roots, q) ==> q(s, x)
}
pub proof fn lemma_follow_mono(rs: Seq<CfgRule>, p: Sets, q: Sets, r: CfgRule, j: int, x: Option<Symbol>)
    requires sub_sets(p, q), follows_at(rs, p, r, j, x),
    ensures follows_at(rs, q, r, j, x),
{
}
pub proof fn lemma_follow_is_closed(rs: Seq<CfgRule>, roots: Seq<Symbol>)
    ensures follow_closed(rs, roots, follow(rs, roots)),
{
    let f = follow(rs, roots);
    assert forall|i: int| 0 <= i < rs.len() implies follow_closed_at(rs, f, #[trigger] rs[i]) by {
        let r = rs[i];
        assert forall|j: int, x: Option<Symbol>| 0 <= j < r.rhs@.len() && is_lhs(rs, r.rhs@[j]) && #[trigger] follows_at(rs, f, r, j, x) implies f(r.rhs@[j], x) by {
            assert forall|q: Sets| #[trigger] follow_closed(rs, roots, q) implies q(r.rhs@[j], x) by {
                assert(sub_sets(f, q));
                lemma_follow_mono(rs, f, q, r, j, x);
                assert(follow_closed_at(rs, q, rs[i]));
            }
        }
    }
}
pub proof fn lemma_follow_exact(rs: Seq<CfgRule>, roots: Seq<Symbol>, p: Sets)
    requires follow_closed(rs, roots, p), forall|q: Sets| #[trigger] follow_closed(rs, roots, q) ==> sub_sets(p, q),
    ensures p =~= follow(rs, roots),
{
    let f = follow(rs, roots);
    lemma_follow_is_closed(rs, roots);
    assert forall|s: Symbol, x: Option<Symbol>| #[trigger] p(s, x) == f(s, x) by {
        if p(s, x) { assert(sub_sets(p, f)); }
    }
    assert(p =~= f);
}
/// What is first from position `k` on, by what is first from the next position on.
pub proof fn lemma_first_step(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, k: int)
    requires 0 <= k < s.len(),
    ensures
        in_first_from(rs, q, s, k, None) == (is_lhs(rs, s[k]) && q(s[k], None) && in_first_from(rs, q, s, k + 1, None)),
        forall|t: Symbol| #[trigger] in_first_from(rs, q, s, k, Some(t)) == (sym_first(rs, q, s[k], Some(t)) || (is_lhs(rs, s[k]) && q(s[k], None) && in_first_from(rs, q, s, k + 1, Some(t)))),
{
    assert forall|t: Symbol| #[trigger] in_first_from(rs, q, s, k, Some(t)) == (sym_first(rs, q, s[k], Some(t)) || (is_lhs(rs, s[k]) && q(s[k], None) && in_first_from(rs, q, s, k + 1, Some(t)))) by {
        if in_first_from(rs, q, s, k, Some(t)) {
            let j = choose|j: int| k <= j < s.len() && skips(rs, q, s, k, j) && sym_first(rs, q, #[trigger] s[j], Some(t));
            if j > k { assert(is_lhs(rs, s[k]) && q(s[k], None)); assert(skips(rs, q, s, k + 1, j)); assert(sym_first(rs, q, s[j], Some(t))); }
        }
        if sym_first(rs, q, s[k], Some(t)) { assert(skips(rs, q, s, k, k)); }
        if is_lhs(rs, s[k]) && q(s[k], None) && in_first_from(rs, q, s, k + 1, Some(t)) {
            let j = choose|j: int| k + 1 <= j < s.len() && skips(rs, q, s, k + 1, j) && sym_first(rs, q, #[trigger] s[j], Some(t));
            assert forall|l: int| k <= l < j implies is_lhs(rs, #[trigger] s[l]) && q(s[l], None) by {}
            assert(skips(rs, q, s, k, j));
            assert(sym_first(rs, q, s[j], Some(t)));
        }
    }
    if is_lhs(rs, s[k]) && q(s[k], None) && in_first_from(rs, q, s, k + 1, None) {
        assert forall|l: int| k <= l < s.len() implies is_lhs(rs, #[trigger] s[l]) && q(s[l], None) by {}
    }
    if in_first_from(rs, q, s, k, None) { assert(is_lhs(rs, s[k]) && q(s[k], None)); }
}
/// The map is that of FIRST sets of the grammar.
pub open spec fn first_map(m: SetMap, g: Cfg) -> bool {
    proper_map(m, g.rules@, g.n()) && rel_of(m) == first(g.rules@) && forall|s: Symbol| #[trigger] m.contains_key(s) == is_lhs(g.rules@, s)
}
pub open spec fn all_keys(m: SetMap, rs: Seq<CfgRule>) -> bool { forall|s: Symbol| #[trigger] m.contains_key(s) == is_lhs(rs, s) }
pub open spec fn follow_sound(m: SetMap, rs: Seq<CfgRule>, roots: Seq<Symbol>) -> bool { forall|q: Sets| #[trigger] follow_closed(rs, roots, q) ==> sub_sets(rel_of(m), q) }
/// The right-hand side is closed from position `k` on.
pub open spec fn follow_closed_from(rs: Seq<CfgRule>, q: Sets, r: CfgRule, k: int) -> bool {
    forall|j: int, x: Option<Symbol>| k <= j < r.rhs@.len() && is_lhs(rs, r.rhs@[j]) && #[trigger] follows_at(rs, q, r, j, x) ==> q(r.rhs@[j], x)
}
//@fn cfg-predict-sets/src/follow.rs FollowSets::new
//@rewrite_opt grammar.roots().to_vec() => vx_syms_vec(grammar.roots())
//@rewrite_opt roots.sort() => vx_sort_syms(&mut roots)
//@rewrite_opt roots.binary_search(&$$k).is_ok() => vx_search(&roots, &$$k)
//@rewrite_opt $m.entry($$k).or_insert_with(PerSymbolSetVal::new) => vx_entry_or(&mut $m, $$k, PerSymbolSetVal::new())
//@rewrite_opt $m.get($$k).cloned().expect($$e) => vx_clone_set($m.get($$k).unwrap())
//@rewrite_opt $m.get_mut(&$$k).unwrap() => vx_get_mut(&mut $m, &$$k)
//@rewrite_opt terminal_set[$$i] => *terminal_set.index($$i)
//@rewrite_opt $x.extend($y.iter().cloned()) => vx_extend_syms(&mut $x.list, $y.list.as_slice())
//@rewrite_opt follow_set.push($$s) => follow_set.list.push($$s)
//@rewrite_opt followed.sort_unstable() => vx_sort_syms(&mut followed.list)
//@rewrite_opt followed.dedup() => vx_dedup_syms(&mut followed.list)
//@rewrite_opt $x |= $$y; => $x = vx_or($x, $$y);
//@rewrite_opt grammar.rules() => &grammar.rules
//@loops for while for for
//@attr #[verifier::loop_isolation(false)]
    requires grammar.wf(), grammar.n() <= u32::MAX, first_map(first_sets@, *grammar),
    ensures
        all_keys(ret.map@, grammar.rules@), proper_map(ret.map@, grammar.rules@, grammar.n()),
        rel_of(ret.map@) == follow(grammar.rules@, grammar.roots@),
//@at begin
    let ghost rs = grammar.rules@;
    let ghost n = grammar.n();
    let ghost rts = grammar.roots@;
    let ghost f = first(rs);
    broadcast use axiom_symbol_ord;
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == rs, sorted(roots@), forall|x: Symbol| #[trigger] roots@.contains(x) == rts.contains(x),
        proper_map(this.map@, rs, n),
        forall|s: Symbol| #[trigger] this.map@.contains_key(s) == is_lhs(rs.take(__i0 as int), s),
        forall|s: Symbol, x: Option<Symbol>| #[trigger] rel_of(this.map@)(s, x) == (x is None && is_lhs(rs.take(__i0 as int), s) && rts.contains(s)),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost m0 = this.map@;
    let ghost z = __i0 as int - 1;
    proof {
        lemma_take(rs, z);
        assert(rule_in(rs[z], n));
        assert(is_lhs(rs, rs[z].lhs));
    }
//@at loop0.end
    proof {
        let w = this.map@;
        let s0 = rs[z].lhs;
        assert(w == m0.insert(s0, w[s0]));
        assert forall|s: Symbol, x: Option<Symbol>| #[trigger] rel_of(w)(s, x) == (x is None && is_lhs(rs.take(z + 1), s) && rts.contains(s)) by {
            assert(rel_of(m0)(s, x) == (x is None && is_lhs(rs.take(z), s) && rts.contains(s)));
        }
    }
//@at loop0.post
    proof {
        assert(rs.take(rs.len() as int) =~= rs);
        assert forall|q: Sets| #[trigger] follow_closed(rs, rts, q) implies sub_sets(rel_of(this.map@), q) by {}
        lemma_room(this.map@, rs, n, n);
    }
//@loop 1
    invariant
        all_keys(this.map@, rs), proper_map(this.map@, rs, n), follow_sound(this.map@, rs, rts), 0 <= room(this.map@, n, n),
        forall|s: Symbol| is_lhs(rs, s) && rts.contains(s) ==> #[trigger] rel_of(this.map@)(s, None),
        !changed ==> follow_closed(rs, rts, rel_of(this.map@)),
    decreases (if changed { room(this.map@, n, n) + 1 } else { 0 }),
//@at loop1.begin
    let ghost m1 = this.map@;
//@loop 2
    invariant
        __i2 <= __s2@.len(), __s2@ == rs,
        all_keys(this.map@, rs), proper_map(this.map@, rs, n), follow_sound(this.map@, rs, rts),
        forall|s: Symbol| is_lhs(rs, s) && rts.contains(s) ==> #[trigger] rel_of(this.map@)(s, None),
        0 <= room(this.map@, n, n) <= room(m1, n, n), changed ==> room(this.map@, n, n) < room(m1, n, n),
        !changed ==> rel_of(this.map@) == rel_of(m1) && forall|i: int| 0 <= i < __i2 ==> follow_closed_at(rs, rel_of(m1), #[trigger] rs[i]),
    decreases __s2.len() - __i2,
//@at loop2.begin
    let ghost z = __i2 as int - 1;
    let ghost r = rs[z];
    let ghost len = r.rhs@.len() as int;
    let ghost q2 = rel_of(this.map@);
    let ghost c2 = changed;
    proof {
        broadcast use axiom_symbol_ord;
        assert(rule_in(r, n));
        assert(is_lhs(rs, r.lhs));
        assert(this.map@.contains_key(r.lhs));
    }
//@loop 3
    invariant
        __i3 <= len, __s3@ == r.rhs@,
        all_keys(this.map@, rs), proper_map(this.map@, rs, n), follow_sound(this.map@, rs, rts),
        forall|s: Symbol| is_lhs(rs, s) && rts.contains(s) ==> #[trigger] rel_of(this.map@)(s, None),
        0 <= room(this.map@, n, n) <= room(m1, n, n), changed ==> room(this.map@, n, n) < room(m1, n, n),
        c2 ==> changed, sub_sets(q2, rel_of(this.map@)),
        !changed ==> rel_of(this.map@) == q2 && follow_closed_from(rs, q2, r, len - __i3),
        forall|x: Option<Symbol>| #[trigger] follow_set.in_set(x) == follows_at(rs, q2, r, len - __i3 - 1, x),
        below(follow_set.list@, n),
    decreases __s3.len() - __i3,
//@at loop3.begin
    let ghost k = len - __i3;
    let ghost y = r.rhs@[k];
    let ghost m3 = this.map@;
    let ghost fs0 = follow_set;
    proof {
        broadcast use axiom_symbol_ord;
        assert(y.raw < n && sym_of(y.ix()) == y);
        lemma_first_step(rs, f, r.rhs@, k);
    }
//@at loop3.end
    proof {
        broadcast use axiom_symbol_ord;
        let w = this.map@;
        if is_lhs(rs, y) {
            let a = |x: Option<Symbol>| fs0.in_set(x);
            assert(w == m3.insert(y, w[y]));
            assert forall|x: Option<Symbol>| #[trigger] w[y].in_set(x) == (rel_of(m3)(y, x) || a(x)) by {
                match x { None => {} Some(t) => { assert(w[y].list@.contains(t) == (m3[y].list@.contains(t) || fs0.list@.contains(t))); } }
            }
            assert(w[y].proper(n)) by {
                assert(m3.contains_key(y));
                assert(m3[y].proper(n));
                let l = w[y].list@;
                assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).raw < n by { assert(l.contains(l[i])); }
            }
            assert(adds(m3, w, y, a));
            lemma_room(m3, rs, n, n);
            lemma_room(w, rs, n, n);
            lemma_adds(m3, w, rs, n, y, a);
            assert forall|q: Sets| #[trigger] follow_closed(rs, rts, q) implies sub_sets(rel_of(w), q) by {
                assert(sub_sets(rel_of(m3), q));
                assert(sub_sets(q2, q));
                assert(follow_closed_at(rs, q, rs[z]));
                assert forall|s: Symbol, x: Option<Symbol>| #[trigger] rel_of(w)(s, x) implies q(s, x) by {
                    if s == y {
                        if !rel_of(m3)(y, x) {
                            assert(w[y].in_set(x));
                            assert(a(x));
                            assert(follows_at(rs, q2, r, k, x));
                            lemma_follow_mono(rs, q2, q, r, k, x);
                            assert(follows_at(rs, q, r, k, x));
                        }
                    } else { assert(m3.contains_key(s)); assert(rel_of(m3)(s, x)); }
                }
            }
            assert forall|s: Symbol, x: Option<Symbol>| #[trigger] rel_of(m3)(s, x) implies rel_of(w)(s, x) by {
                if s == y { assert(w[y].in_set(x) == (rel_of(m3)(y, x) || a(x))); }
            }
            assert forall|s: Symbol| is_lhs(rs, s) && rts.contains(s) implies #[trigger] rel_of(w)(s, None) by { assert(rel_of(m3)(s, None)); }
            if !changed {
                assert forall|j: int, x: Option<Symbol>| k <= j < r.rhs@.len() && is_lhs(rs, r.rhs@[j]) && #[trigger] follows_at(rs, q2, r, j, x) implies q2(r.rhs@[j], x) by {
                    if j == k { assert(fs0.in_set(x)); assert(a(x)); }
                }
            }
            assert(first_sets@.contains_key(y));
            assert(rel_of(first_sets@)(y, None) == f(y, None));
        }
        assert forall|x: Option<Symbol>| #[trigger] follow_set.in_set(x) == follows_at(rs, q2, r, k - 1, x) by {
            assert(fs0.in_set(x) == follows_at(rs, q2, r, k, x));
            match x {
                None => {}
                Some(t) => {
                    if is_lhs(rs, y) { assert(rel_of(first_sets@)(y, Some(t)) == f(y, Some(t))); }
                    else { assert(follow_set.list@ =~= seq![y]); assert(follow_set.list@[0] == y); }
                }
            }
        }
        if is_lhs(rs, y) {
            assert(first_sets@[y].proper(n));
            let l = follow_set.list@;
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).raw < n by { assert(l.contains(l[i])); }
        }
    }
//@at loop3.post
    proof {
        if !changed {
            assert forall|i: int| 0 <= i < __i2 implies follow_closed_at(rs, rel_of(m1), #[trigger] rs[i]) by {
                if i == z {
                    assert(follow_closed_from(rs, q2, r, 0));
                }
            }
        }
    }
//@at loop1.post
    proof { lemma_follow_exact(rs, rts, rel_of(this.map@)); }
//@end
