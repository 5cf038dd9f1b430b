// G04: closure with values.
pub open spec fn seq_sum(c: Seq<int>) -> int
    decreases c.len(),
{
    if c.len() == 0 { 0 } else { seq_sum(c.drop_last()) + c.last() }
}
/// Rule `i` rewrites `s`, with the costs `cs` of its symbols adding up to `c`.
pub open spec fn rule_cost(rs: Seq<CfgRule>, i: int, cs: Seq<int>, s: Symbol, c: int) -> bool {
    0 <= i < rs.len() && rs[i].lhs == s && rs[i].rhs@.len() > 0 && cs.len() == rs[i].rhs@.len() && seq_sum(cs) == c
}
/// `s` can be built at cost `c` by a tree of height at most `d` from symbols with an initial value.
pub open spec fn cost(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, s: Symbol, c: int, d: nat) -> bool
    decreases d,
{
    (v0[s.ix()] matches Some(x) && x == c) || (d > 0 && exists|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c)
        && forall|j: int| 0 <= j < cs.len() ==> cost(rs, v0, rs[i].rhs@[j], #[trigger] cs[j], (d - 1) as nat))
}
pub open spec fn built(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, s: Symbol, c: int) -> bool { exists|d: nat| cost(rs, v0, s, c, d) }
/// The sum of the values of a string, if all have one and it fits.
pub open spec fn sumv(s: Seq<Symbol>, v: Seq<Option<u32>>) -> Option<u32>
    decreases s.len(),
{
    if s.len() == 0 { Some(0) } else { add_opt(sumv(s.drop_last(), v), v[s.last().ix()]) }
}
pub open spec fn add_opt(a: Option<u32>, b: Option<u32>) -> Option<u32> {
    match (a, b) {
        (Some(x), Some(y)) => if x + y <= u32::MAX { Some((x + y) as u32) } else { None },
        _ => None,
    }
}
pub open spec fn at_most(a: Option<u32>, m: int) -> bool { a matches Some(x) && x <= m }
pub open spec fn ok_rule(r: CfgRule, v: Seq<Option<u32>>) -> bool {
    r.rhs@.len() > 0 ==> (sumv(r.rhs@, v) matches Some(m) ==> at_most(v[r.lhs.ix()], m as int))
}
pub open spec fn sound(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, v: Seq<Option<u32>>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] matches Some(c) ==> built(rs, v0, sym_of(i), c as int))
}
pub open spec fn lower(v0: Seq<Option<u32>>, v: Seq<Option<u32>>) -> bool {
    v.len() == v0.len() && forall|i: int| 0 <= i < v.len() ==> (v0[i] matches Some(c) ==> at_most(#[trigger] v[i], c as int))
}
/// Every symbol has the least cost of building it, if that fits, and otherwise no value.
pub open spec fn minimal(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, v: Seq<Option<u32>>) -> bool {
    &&& v.len() == v0.len()
    &&& sound(rs, v0, v)
    &&& forall|s: Symbol, c: int| s.raw < v.len() && c <= u32::MAX && #[trigger] built(rs, v0, s, c) ==> at_most(v[s.ix()], c)
}
pub proof fn lemma_cost_mono(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, s: Symbol, c: int, d: nat, e: nat)
    requires cost(rs, v0, s, c, d), d <= e,
    ensures cost(rs, v0, s, c, e),
    decreases d,
{
    if v0[s.ix()] != Some(c as u32) || c < 0 || c > u32::MAX {
        assert(!(v0[s.ix()] matches Some(x) && x == c));
        assert(d > 0);
        assert(exists|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c));
        let (i, cs) = choose|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c) && forall|j: int| 0 <= j < cs.len() ==> cost(rs, v0, rs[i].rhs@[j], #[trigger] cs[j], (d - 1) as nat);
        assert forall|j: int| 0 <= j < cs.len() implies cost(rs, v0, rs[i].rhs@[j], #[trigger] cs[j], (e - 1) as nat) by {
            assert(cost(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat));
            lemma_cost_mono(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat, (e - 1) as nat);
        }
        assert(rule_cost(rs, i, cs, s, c));
    }
}
pub proof fn height(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, s: Symbol, c: int) -> (d: nat)
    requires built(rs, v0, s, c),
    ensures cost(rs, v0, s, c, d),
{
    choose|d: nat| cost(rs, v0, s, c, d)
}
/// One height for a whole string of symbols.
pub proof fn lemma_common_height(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, s: Seq<Symbol>, cs: Seq<int>, k: int) -> (d: nat)
    requires 0 <= k <= s.len(), cs.len() == s.len(), forall|j: int| 0 <= j < k ==> built(rs, v0, #[trigger] s[j], cs[j]),
    ensures forall|j: int| 0 <= j < k ==> cost(rs, v0, #[trigger] s[j], cs[j], d),
    decreases k,
{
    if k == 0 { 0 } else {
        let d1 = lemma_common_height(rs, v0, s, cs, k - 1);
        assert(built(rs, v0, s[k - 1], cs[k - 1]));
        let d2 = height(rs, v0, s[k - 1], cs[k - 1]);
        let d = if d1 > d2 { d1 } else { d2 };
        assert forall|j: int| 0 <= j < k implies cost(rs, v0, #[trigger] s[j], cs[j], d) by {
            if j < k - 1 { lemma_cost_mono(rs, v0, s[j], cs[j], d1, d); } else { lemma_cost_mono(rs, v0, s[j], cs[j], d2, d); }
        }
        d
    }
}
pub proof fn lemma_sum_values(s: Seq<Symbol>, v: Seq<Option<u32>>, cs: Seq<int>)
    requires sumv(s, v) is Some, cs.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> (v[(#[trigger] s[j]).ix()] matches Some(x) ==> cs[j] == x),
    ensures
        forall|j: int| 0 <= j < s.len() ==> v[(#[trigger] s[j]).ix()] is Some,
        seq_sum(cs) == sumv(s, v)->0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies (v[(#[trigger] s.drop_last()[j]).ix()] matches Some(x) ==> cs.drop_last()[j] == x) by { assert(s.drop_last()[j] == s[j]); }
        lemma_sum_values(s.drop_last(), v, cs.drop_last());
        assert forall|j: int| 0 <= j < s.len() implies v[(#[trigger] s[j]).ix()] is Some by {
            if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); }
        }
        assert(s.last() == s[s.len() - 1]);
    }
}
/// The sum of a rule whose symbols all can be built is a cost of its left-hand side.
pub proof fn lemma_rule_built(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, v: Seq<Option<u32>>, i: int, n: int)
    requires
        rules_in(rs, n), n <= v.len(), sound(rs, v0, v), 0 <= i < rs.len(), rs[i].rhs@.len() > 0, sumv(rs[i].rhs@, v) is Some,
    ensures built(rs, v0, rs[i].lhs, sumv(rs[i].rhs@, v)->0 as int),
{
    let s = rs[i].rhs@;
    assert(rule_in(rs[i], n));
    let cs = Seq::new(s.len(), |j: int| v[s[j].ix()]->0 as int);
    lemma_sum_values(s, v, cs);
    assert forall|j: int| 0 <= j < s.len() implies built(rs, v0, #[trigger] s[j], cs[j]) by {
        assert(v[s[j].ix()] is Some);
        assert(sym_of(s[j].ix()) == s[j]);
    }
    let d = lemma_common_height(rs, v0, s, cs, s.len() as int);
    assert(rule_cost(rs, i, cs, rs[i].lhs, seq_sum(cs)));
    assert forall|j: int| 0 <= j < cs.len() implies cost(rs, v0, rs[i].rhs@[j], #[trigger] cs[j], ((d + 1) - 1) as nat) by { assert(cost(rs, v0, s[j], cs[j], d)); }
    assert(cost(rs, v0, rs[i].lhs, seq_sum(cs), d + 1));
}
pub proof fn lemma_cost_nonneg(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, s: Symbol, c: int, d: nat)
    requires cost(rs, v0, s, c, d),
    ensures c >= 0,
    decreases d,
{
    if v0[s.ix()] != Some(c as u32) || c < 0 || c > u32::MAX {
        assert(!(v0[s.ix()] matches Some(x) && x == c));
        assert(d > 0);
        assert(exists|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c));
        let (i, cs) = choose|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c) && forall|j: int| 0 <= j < cs.len() ==> cost(rs, v0, rs[i].rhs@[j], #[trigger] cs[j], (d - 1) as nat);
        assert forall|j: int| 0 <= j < cs.len() implies #[trigger] cs[j] >= 0 by {
            assert(cost(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat));
            lemma_cost_nonneg(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat);
        }
        lemma_sum_nonneg(cs);
    }
}
pub proof fn lemma_sum_nonneg(cs: Seq<int>)
    requires forall|j: int| 0 <= j < cs.len() ==> #[trigger] cs[j] >= 0,
    ensures seq_sum(cs) >= 0, forall|j: int| 0 <= j < cs.len() ==> #[trigger] cs[j] <= seq_sum(cs),
    decreases cs.len(),
{
    if cs.len() > 0 {
        assert forall|j: int| 0 <= j < cs.drop_last().len() implies #[trigger] cs.drop_last()[j] >= 0 by { assert(cs.drop_last()[j] == cs[j]); }
        lemma_sum_nonneg(cs.drop_last());
        assert forall|j: int| 0 <= j < cs.len() implies #[trigger] cs[j] <= seq_sum(cs) by { if j < cs.len() - 1 { assert(cs.drop_last()[j] == cs[j]); } }
    }
}
pub proof fn lemma_sum_le(s: Seq<Symbol>, v: Seq<Option<u32>>, cs: Seq<int>)
    requires
        cs.len() == s.len(), seq_sum(cs) <= u32::MAX, forall|j: int| 0 <= j < cs.len() ==> #[trigger] cs[j] >= 0,
        forall|j: int| 0 <= j < s.len() ==> at_most(v[(#[trigger] s[j]).ix()], cs[j]),
    ensures at_most(sumv(s, v), seq_sum(cs)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies at_most(v[(#[trigger] s.drop_last()[j]).ix()], cs.drop_last()[j]) by { assert(s.drop_last()[j] == s[j]); }
        assert forall|j: int| 0 <= j < cs.drop_last().len() implies #[trigger] cs.drop_last()[j] >= 0 by { assert(cs.drop_last()[j] == cs[j]); }
        assert(cs.last() >= 0) by { assert(cs[cs.len() - 1] >= 0); }
        lemma_sum_le(s.drop_last(), v, cs.drop_last());
        assert(s.last() == s[s.len() - 1]);
    }
}
/// At a fixpoint no way of building a symbol is cheaper than its value.
pub proof fn lemma_minimal(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, v: Seq<Option<u32>>, s: Symbol, c: int, d: nat, n: int)
    requires
        rules_in(rs, n), n <= v.len(), lower(v0, v), s.raw < v.len(),
        forall|i: int| 0 <= i < rs.len() ==> ok_rule(#[trigger] rs[i], v),
        cost(rs, v0, s, c, d), c <= u32::MAX,
    ensures at_most(v[s.ix()], c),
    decreases d,
{
    if v0[s.ix()] != Some(c as u32) || c < 0 || c > u32::MAX {
        assert(!(v0[s.ix()] matches Some(x) && x == c));
        assert(d > 0);
        assert(exists|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c));
        let (i, cs) = choose|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c) && forall|j: int| 0 <= j < cs.len() ==> cost(rs, v0, rs[i].rhs@[j], #[trigger] cs[j], (d - 1) as nat);
        assert(rule_in(rs[i], n));
        assert forall|j: int| 0 <= j < cs.len() implies #[trigger] cs[j] >= 0 by {
            assert(cost(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat));
            lemma_cost_nonneg(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat);
        }
        lemma_sum_nonneg(cs);
        assert forall|j: int| 0 <= j < cs.len() implies at_most(v[(#[trigger] rs[i].rhs@[j]).ix()], cs[j]) by {
            assert(cost(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat));
            assert(cs[j] <= c);
            lemma_minimal(rs, v0, v, rs[i].rhs@[j], cs[j], (d - 1) as nat, n);
        }
        lemma_sum_le(rs[i].rhs@, v, cs);
        assert(ok_rule(rs[i], v));
    } else {
        assert(v0[s.ix()] matches Some(x) && at_most(v[s.ix()], x as int));
    }
}
pub open spec fn weight1(x: Option<u32>) -> nat { match x { Some(y) => y as nat, None => 0x1_0000_0000nat } }
pub open spec fn total(v: Seq<Option<u32>>, k: int) -> nat
    decreases k,
{
    if k <= 0 { 0 } else { total(v, k - 1) + weight1(v[k - 1]) }
}
pub proof fn lemma_total(v: Seq<Option<u32>>, x: int, y: Option<u32>, k: int)
    requires 0 <= x < v.len(), 0 <= k <= v.len(), weight1(y) < weight1(v[x]),
    ensures total(v.update(x, y), k) == total(v, k) - (if x < k { weight1(v[x]) - weight1(y) } else { 0int }),
    decreases k,
{
    if k > 0 { lemma_total(v, x, y, k - 1); }
}
pub proof fn lemma_sumv_frame(s: Seq<Symbol>, v: Seq<Option<u32>>, x: Symbol, y: Option<u32>)
    requires !s.contains(x), x.raw < v.len(),
    ensures sumv(s, v.update(x.ix(), y)) == sumv(s, v),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(!s.drop_last().contains(x)) by {
            if s.drop_last().contains(x) { let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == x; assert(s[j] == x); }
        }
        assert(s.last() == s[s.len() - 1]);
        assert(s.contains(s.last()));
        lemma_sumv_frame(s.drop_last(), v, x, y);
    }
}
pub open spec fn wait_but(rs: Seq<CfgRule>, v: Seq<Option<u32>>, st: Seq<Symbol>, w: Symbol, occ: Seq<usize>, k: int) -> bool {
    forall|i: int| 0 <= i < rs.len() && !ok_rule(#[trigger] rs[i], v) ==> pending(rs[i], st) || (rs[i].has(w) && in_occ(occ, k, i))
}
pub open spec fn wait(rs: Seq<CfgRule>, v: Seq<Option<u32>>, st: Seq<Symbol>) -> bool {
    forall|i: int| 0 <= i < rs.len() && !ok_rule(#[trigger] rs[i], v) ==> pending(rs[i], st)
}
pub fn vx_try_fold<F: Fn(u32, &Symbol) -> Option<u32>>(s: &[Symbol], init: u32, v: Ghost<Seq<Option<u32>>>, f: F) -> (r: Option<u32>)
    requires
        init == 0, forall|j: int| 0 <= j < s@.len() ==> (#[trigger] s@[j]).raw < v@.len(),
        forall|a: u32, x: Symbol| x.raw < v@.len() ==> call_requires(f, (a, &x)),
        forall|a: u32, x: Symbol, o: Option<u32>| call_ensures(f, (a, &x), o) ==> o == add_opt(Some(a), v@[x.ix()]),
    ensures r == sumv(s@, v@),
{
    let mut acc = init;
    let mut k: usize = 0;
    proof { assert(s@.take(0) =~= Seq::empty()); assert(s@.take(s@.len() as int) =~= s@); }
    while k < s.len()
        invariant
            0 <= k <= s@.len(), sumv(s@.take(k as int), v@) == Some(acc), s@.take(s@.len() as int) == s@,
            forall|j: int| 0 <= j < s@.len() ==> (#[trigger] s@[j]).raw < v@.len(),
            forall|a: u32, x: Symbol| x.raw < v@.len() ==> call_requires(f, (a, &x)),
            forall|a: u32, x: Symbol, o: Option<u32>| call_ensures(f, (a, &x), o) ==> o == add_opt(Some(a), v@[x.ix()]),
        decreases s@.len() - k,
    {
        proof {
            assert(s@.take(k as int + 1).drop_last() =~= s@.take(k as int));
            assert(s@.take(k as int + 1).last() == s@[k as int]);
        }
        match f(acc, &s[k]) {
            Some(x) => { acc = x; }
            None => {
                proof { lemma_sumv_none(s@, v@, k as int + 1); }
                return None;
            }
        }
        k = k + 1;
    }
    Some(acc)
}
pub proof fn lemma_sumv_none(s: Seq<Symbol>, v: Seq<Option<u32>>, k: int)
    requires 0 <= k <= s.len(), sumv(s.take(k), v) is None,
    ensures sumv(s, v) is None,
    decreases s.len() - k,
{
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        lemma_sumv_none(s, v, k + 1);
    } else {
        assert(s.take(k) =~= s);
    }
}
pub proof fn lemma_sumv_some(s: Seq<Symbol>, v: Seq<Option<u32>>, j: int)
    requires sumv(s, v) is Some, 0 <= j < s.len(),
    ensures v[s[j].ix()] is Some,
{
    let cs = Seq::new(s.len(), |j: int| v[s[j].ix()]->0 as int);
    lemma_sum_values(s, v, cs);
}
//@fn cfg-grammar/src/cfg.rs Cfg::rhs_closure_with_values
//@rewrite let mut tmp_stack = self.tmp_stack.borrow_mut(); => let mut tmp_stack: Vec<Symbol> = Vec::new();
//@rewrite_opt self.rules() => &self.rules
//@rewrite_opt let rules = $$x.iter().map(|&rule_id| &self.rules[rule_id]); for rule in rules { $$b } => for &rule_id in $$x.iter() { let rule = &self.rules[rule_id]; $$b }
//@rewrite_opt $x.iter().try_fold(0u32, |acc, elem| $$b) => vx_try_fold(&$x, 0u32, Ghost(value@), |acc: u32, elem: &Symbol| -> (r: Option<u32>) requires elem.raw < value@.len() ensures r == add_opt(Some(acc), value@[elem.ix()]) { $$b })
//@rewrite_opt $v.and_then(|val| $$b) => (match $v { Some(val) => { $$b }, None => None })
//@rewrite_opt $v.map(|val| $$b) => (match $v { Some(val) => Some({ $$b }), None => None })
//@for 2 ref
//@loops for while for
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
    requires
        old(self).wf(), old(self).n() <= old(value)@.len() <= u32::MAX,
    ensures
        minimal(old(self).rules@, old(value)@, final(value)@),
        *final(self) == *old(self),
//@at begin
    broadcast use lemma_pop_push;
    let ghost rs = self.rules@;
    let ghost v0 = value@;
    let ghost n = self.n();
//@loop 0
    invariant
        value@ == v0, __s0@ == v0, 0 <= __i0 <= v0.len(),
        forall|i: int| 0 <= i < __i0 && (#[trigger] v0[i]) is Some ==> tmp_stack@.contains(sym_of(i)),
        forall|j: int| 0 <= j < tmp_stack@.len() ==> (#[trigger] tmp_stack@[j]).raw < v0.len(),
    decreases v0.len() - __i0,
//@at loop0.begin
    let ghost st0 = tmp_stack@;
//@at loop0.end
    proof {
        assert forall|i: int| 0 <= i < __i0 && (#[trigger] v0[i]) is Some implies tmp_stack@.contains(sym_of(i)) by {
            if i < __i0 - 1 {
                let z = choose|z: int| 0 <= z < st0.len() && st0[z] == sym_of(i);
                assert(tmp_stack@[z] == st0[z]);
            } else { assert(tmp_stack@[st0.len() as int] == sym_of(i)); }
        }
    }
//@at loop1.pre
    proof {
        assert forall|i: int| 0 <= i < rs.len() && !ok_rule(#[trigger] rs[i], value@) implies pending(rs[i], tmp_stack@) by {
            let s = rs[i].rhs@[0];
            assert(rule_in(rs[i], n));
            lemma_sumv_some(rs[i].rhs@, value@, 0);
            assert(sym_of(s.ix()) == s);
            let z = choose|z: int| 0 <= z < tmp_stack@.len() && tmp_stack@[z] == s;
            assert(rs[i].has(tmp_stack@[z]));
        }
        assert forall|i: int| 0 <= i < v0.len() implies (#[trigger] v0[i] matches Some(c) ==> built(rs, v0, sym_of(i), c as int)) by {
            if v0[i] is Some { assert(cost(rs, v0, sym_of(i), v0[i]->0 as int, 0)); }
        }
    }
//@loop 1
    invariant
        lower(v0, value@), sound(rs, v0, value@), wait(rs, value@, tmp_stack@),
        *self == *old(self),
        forall|j: int| 0 <= j < tmp_stack@.len() ==> (#[trigger] tmp_stack@[j]).raw < v0.len(),
    ensures tmp_stack@.len() == 0,
    decreases total(value@, value@.len() as int), tmp_stack@.len(),
//@at loop1.begin
    let ghost v1 = value@;
    let ghost st1 = tmp_stack@;
//@at loop2.pre
    proof {
        assert(wait_but(rs, value@, tmp_stack@, work_sym, __s2@, 0)) by {
            assert forall|i: int| 0 <= i < rs.len() && !ok_rule(#[trigger] rs[i], value@) implies pending(rs[i], tmp_stack@) || (rs[i].has(work_sym) && in_occ(__s2@, 0, i)) by {
                let full = st1.push(work_sym);
                assert(pending(rs[i], full));
                let j = choose|j: int| 0 <= j < full.len() && rs[i].has(#[trigger] full[j]);
                if j < st1.len() { assert(rs[i].has(st1[j])); } else { assert(rs[i].has(work_sym)); }
            }
        }
    }
//@loop 2
    invariant
        __i2 <= __s2@.len(),
        lower(v0, value@), sound(rs, v0, value@),
        wait_but(rs, value@, tmp_stack@, work_sym, __s2@, __i2 as int),
        *self == *old(self),
        forall|j: int| 0 <= j < tmp_stack@.len() ==> (#[trigger] tmp_stack@[j]).raw < v0.len(),
        (value@ == v1 && tmp_stack@ == st1) || total(value@, value@.len() as int) < total(v1, v1.len() as int),
    decreases __s2@.len() - __i2,
//@at loop2.begin
    let ghost v2 = value@;
    let ghost st2 = tmp_stack@;
    let ghost k = __i2 as int - 1;
    proof { assert(rule_in(rs[rule_id as int], n)); }
//@at if3.then
    proof { lemma_skip(rs, v2, st2, work_sym, __s2@, k, rule_id as int); }
//@at loop2.end
    proof {
        if maybe_work_value is Some {
            lemma_total(v2, rule.lhs.ix(), maybe_work_value, v2.len() as int);
            lemma_rule_built(rs, v0, v2, rule_id as int, n);
            assert(sym_of(rule.lhs.ix()) == rule.lhs);
            assert(tmp_stack@[st2.len() as int] == rule.lhs);
            assert forall|i: int| 0 <= i < rs.len() && !ok_rule(#[trigger] rs[i], value@) implies
                pending(rs[i], tmp_stack@) || (rs[i].has(work_sym) && in_occ(__s2@, k + 1, i)) by {
                if rs[i].has(rule.lhs) { assert(pending(rs[i], tmp_stack@)); }
                else {
                    lemma_sumv_frame(rs[i].rhs@, v2, rule.lhs, maybe_work_value);
                    assert(rule_in(rs[i], n));
                    assert(!ok_rule(rs[i], v2));
                    if pending(rs[i], st2) {
                        let j = choose|j: int| 0 <= j < st2.len() && rs[i].has(#[trigger] st2[j]);
                        assert(tmp_stack@[j] == st2[j]);
                    } else {
                        let z = choose|z: int| k <= z < __s2@.len() && #[trigger] __s2@[z] == i;
                        assert(i != rule_id);
                        assert(in_occ(__s2@, k + 1, i));
                    }
                }
            }
        } else {
            lemma_skip(rs, v2, st2, work_sym, __s2@, k, rule_id as int);
        }
    }
//@at end
    proof {
        assert forall|i: int| 0 <= i < rs.len() implies ok_rule(#[trigger] rs[i], value@) by {}
        assert forall|s: Symbol, c: int| s.raw < value@.len() && c <= u32::MAX && #[trigger] built(rs, v0, s, c) implies at_most(value@[s.ix()], c) by {
            let d = choose|d: nat| cost(rs, v0, s, c, d);
            lemma_minimal(rs, v0, value@, s, c, d, n);
        }
    }
//@end
pub proof fn lemma_skip(rs: Seq<CfgRule>, v: Seq<Option<u32>>, st: Seq<Symbol>, w: Symbol, occ: Seq<usize>, k: int, r: int)
    requires wait_but(rs, v, st, w, occ, k), 0 <= k < occ.len(), occ[k] == r, 0 <= r < rs.len(), ok_rule(rs[r], v),
    ensures wait_but(rs, v, st, w, occ, k + 1),
{
    assert forall|i: int| 0 <= i < rs.len() && !ok_rule(#[trigger] rs[i], v) implies pending(rs[i], st) || (rs[i].has(w) && in_occ(occ, k + 1, i)) by {
        if !pending(rs[i], st) {
            let z = choose|z: int| k <= z < occ.len() && #[trigger] occ[z] == i;
            assert(z != k);
            assert(in_occ(occ, k + 1, i));
        }
    }
}
