// G03: rhs_closure is the least fixpoint.
pub open spec fn sat(r: CfgRule, p: Seq<bool>, m: RhsPropertyMode) -> bool {
    match m {
        RhsPropertyMode::All => r.rhs@.len() > 0 && forall|j: int| 0 <= j < r.rhs@.len() ==> p[(#[trigger] r.rhs@[j]).ix()],
        RhsPropertyMode::Any => exists|j: int| 0 <= j < r.rhs@.len() && p[(#[trigger] r.rhs@[j]).ix()],
    }
}
pub open spec fn sub(p: Seq<bool>, q: Seq<bool>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] ==> q[i])
}
pub open spec fn closed(rs: Seq<CfgRule>, p: Seq<bool>, m: RhsPropertyMode) -> bool {
    forall|i: int| 0 <= i < rs.len() ==> (sat(#[trigger] rs[i], p, m) ==> p[rs[i].lhs.ix()])
}
/// p is included in every closed superset of p0.
pub open spec fn least(rs: Seq<CfgRule>, p0: Seq<bool>, p: Seq<bool>, m: RhsPropertyMode) -> bool {
    forall|q: Seq<bool>| q.len() == p0.len() && sub(p0, q) && #[trigger] closed(rs, q, m) ==> sub(p, q)
}
pub open spec fn is_closure(rs: Seq<CfgRule>, p0: Seq<bool>, p: Seq<bool>, m: RhsPropertyMode) -> bool {
    p.len() == p0.len() && sub(p0, p) && closed(rs, p, m) && least(rs, p0, p, m)
}
/// Repeating the closure changes nothing, and the closure is unique.
pub proof fn lemma_closure_unique(rs: Seq<CfgRule>, p0: Seq<bool>, p: Seq<bool>, q: Seq<bool>, m: RhsPropertyMode)
    requires is_closure(rs, p0, p, m), is_closure(rs, p0, q, m),
    ensures p =~= q,
{
    assert(sub(p, q)); assert(sub(q, p));
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by {}
}
pub proof fn lemma_closure_idempotent(rs: Seq<CfgRule>, p0: Seq<bool>, p: Seq<bool>, q: Seq<bool>, m: RhsPropertyMode)
    requires is_closure(rs, p0, p, m), is_closure(rs, p, q, m),
    ensures p =~= q,
{
    assert(sub(p, p)); assert(sub(q, p)); assert(sub(p, q));
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by {}
}
pub open spec fn missing(p: Seq<bool>, k: int) -> nat
    decreases k,
{
    if k <= 0 { 0 } else { missing(p, k - 1) + (if p[k - 1] { 0nat } else { 1nat }) }
}
pub proof fn lemma_missing(p: Seq<bool>, x: int, k: int)
    requires 0 <= x < p.len(), 0 <= k <= p.len(), !p[x],
    ensures missing(p.update(x, true), k) == missing(p, k) - (if x < k { 1int } else { 0int }),
    decreases k,
{
    if k > 0 { lemma_missing(p, x, k - 1); }
}
pub proof fn lemma_sat_new(r: CfgRule, p: Seq<bool>, x: Symbol, m: RhsPropertyMode, n: int)
    requires rule_in(r, n), n <= p.len(), x.raw < p.len(), sat(r, p.update(x.ix(), true), m), !sat(r, p, m),
    ensures r.has(x),
{
    let q = p.update(x.ix(), true);
    match m {
        RhsPropertyMode::All => {
            let j = choose|j: int| 0 <= j < r.rhs@.len() && !p[(#[trigger] r.rhs@[j]).ix()];
            assert(q[r.rhs@[j].ix()]);
            assert(r.rhs@[j] == x);
        }
        RhsPropertyMode::Any => {
            let j = choose|j: int| 0 <= j < r.rhs@.len() && q[(#[trigger] r.rhs@[j]).ix()];
            assert(!p[r.rhs@[j].ix()]);
            assert(r.rhs@[j] == x);
        }
    }
}
pub proof fn lemma_sat_mono(r: CfgRule, p: Seq<bool>, q: Seq<bool>, m: RhsPropertyMode, n: int)
    requires rule_in(r, n), n <= p.len(), p.len() == q.len(), sub(p, q), sat(r, p, m),
    ensures sat(r, q, m),
{
    match m {
        RhsPropertyMode::All => {
            assert forall|j: int| 0 <= j < r.rhs@.len() implies q[(#[trigger] r.rhs@[j]).ix()] by { assert(p[r.rhs@[j].ix()]); }
        }
        RhsPropertyMode::Any => {
            let j = choose|j: int| 0 <= j < r.rhs@.len() && p[(#[trigger] r.rhs@[j]).ix()];
            assert(q[r.rhs@[j].ix()]);
        }
    }
}
/// Some symbol of the right-hand side is still to be processed.
pub open spec fn pending(r: CfgRule, st: Seq<Symbol>) -> bool {
    exists|j: int| 0 <= j < st.len() && r.has(#[trigger] st[j])
}
pub open spec fn covered(rs: Seq<CfgRule>, p: Seq<bool>, st: Seq<Symbol>, m: RhsPropertyMode) -> bool {
    forall|i: int| 0 <= i < rs.len() && sat(#[trigger] rs[i], p, m) && !p[rs[i].lhs.ix()] ==> pending(rs[i], st)
}
pub open spec fn covered_but(rs: Seq<CfgRule>, p: Seq<bool>, st: Seq<Symbol>, m: RhsPropertyMode, w: Symbol, occ: Seq<usize>, k: int) -> bool {
    forall|i: int| 0 <= i < rs.len() && sat(#[trigger] rs[i], p, m) && !p[rs[i].lhs.ix()] ==>
        pending(rs[i], st) || (rs[i].has(w) && in_occ(occ, k, i))
}
pub open spec fn stacked(p: Seq<bool>, st: Seq<Symbol>) -> bool {
    forall|j: int| 0 <= j < st.len() ==> (#[trigger] st[j]).raw < p.len() && p[st[j].ix()]
}
pub fn vx_extend(v: &mut Vec<Symbol>, w: Vec<Symbol>)
    ensures final(v)@ == old(v)@ + w@,
{
    let mut k: usize = 0;
    while k < w.len()
        invariant 0 <= k <= w@.len(), v@ == old(v)@ + w@.take(k as int),
        decreases w@.len() - k,
    {
        v.push(w[k]);
        k = k + 1;
        proof { assert(v@ =~= old(v)@ + w@.take(k as int)); }
    }
    proof { assert(w@.take(k as int) =~= w@); }
}
//@fn cfg-grammar/src/cfg.rs Cfg::rhs_closure
//@rewrite let mut tmp_stack = self.tmp_stack.borrow_mut(); => let mut tmp_stack: Vec<Symbol> = Vec::new();
//@rewrite_opt tmp_stack.extend($$x) => vx_extend(&mut tmp_stack, $$x)
//@rewrite_opt self.rules() => &self.rules
//@rewrite_opt let mut rhs_iter = $r.iter(); => let rhs_iter = &$r;
//@rewrite |&sym: &Symbol| $$b; => |vx_p: &Symbol| -> (r: bool) requires vx_p.raw < property@.len() ensures r == property@[vx_p.ix()] { let sym = *vx_p; $$b };
//@rewrite_opt rhs_iter.all($$f) => vx_all(rhs_iter, $$f)
//@rewrite_opt rhs_iter.any($$f) => vx_any(rhs_iter, $$f)
//@rewrite property[$$i] => (*property.index($$i))
//@for 1 ref
//@loops while for
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
    requires
        self.wf(), self.n() <= old(property)@.len() <= u32::MAX,
    ensures
        is_closure(self.rules@, old(property)@, final(property)@, property_mode),
//@at begin
    broadcast use lemma_pop_push;
    let ghost rs = self.rules@;
    let ghost p0 = property@;
    let ghost n = self.n();
//@at loop0.pre
    proof {
        assert(covered(rs, property@, tmp_stack@, property_mode)) by {
            assert forall|i: int| 0 <= i < rs.len() && sat(#[trigger] rs[i], property@, property_mode) && !property@[rs[i].lhs.ix()] implies pending(rs[i], tmp_stack@) by {
                let r = rs[i];
                let j: int = match property_mode { RhsPropertyMode::All => 0int, RhsPropertyMode::Any => choose|j: int| 0 <= j < r.rhs@.len() && property@[(#[trigger] r.rhs@[j]).ix()] };
                let s = r.rhs@[j];
                assert(property.has(s));
                assert(tmp_stack@.contains(s));
                let z = choose|z: int| 0 <= z < tmp_stack@.len() && tmp_stack@[z] == s;
                assert(r.has(tmp_stack@[z]));
            }
        }
        assert(stacked(property@, tmp_stack@)) by {
            assert forall|j: int| 0 <= j < tmp_stack@.len() implies (#[trigger] tmp_stack@[j]).raw < property@.len() && property@[tmp_stack@[j].ix()] by {
                assert(tmp_stack@.contains(tmp_stack@[j]));
                assert(property.has(tmp_stack@[j]));
            }
        }
    }
//@loop 0
    invariant
        property@.len() == p0.len(), sub(p0, property@), least(rs, p0, property@, property_mode),
        stacked(property@, tmp_stack@), covered(rs, property@, tmp_stack@, property_mode),
    ensures tmp_stack@.len() == 0,
    decreases missing(property@, property@.len() as int), tmp_stack@.len(),
//@at loop0.begin
    let ghost p1 = property@;
    let ghost st1 = tmp_stack@;
//@at loop1.pre
    proof {
        assert(covered_but(rs, property@, tmp_stack@, property_mode, work_sym, __s1@, 0)) by {
            assert forall|i: int| 0 <= i < rs.len() && sat(#[trigger] rs[i], property@, property_mode) && !property@[rs[i].lhs.ix()] implies
                pending(rs[i], tmp_stack@) || (rs[i].has(work_sym) && in_occ(__s1@, 0, i)) by {
                let full = st1.push(work_sym);
                assert(pending(rs[i], full));
                let j = choose|j: int| 0 <= j < full.len() && rs[i].has(#[trigger] full[j]);
                if j < st1.len() { assert(rs[i].has(st1[j])); } else { assert(rs[i].has(work_sym)); }
            }
        }
    }
//@loop 1
    invariant
        __i1 <= __s1@.len(),
        property@.len() == p0.len(), sub(p0, property@), least(rs, p0, property@, property_mode),
        stacked(property@, tmp_stack@),
        covered_but(rs, property@, tmp_stack@, property_mode, work_sym, __s1@, __i1 as int),
        (property@ == p1 && tmp_stack@ == st1) || missing(property@, property@.len() as int) < missing(p1, p1.len() as int),
    decreases __s1@.len() - __i1,
//@at loop1.begin
    let ghost p2 = property@;
    let ghost st2 = tmp_stack@;
//@at loop1.end
    proof {
        let k = __i1 as int - 1;
        let occ = __s1@;
        assert(rule_id == occ[k]);
        assert(rhs_satifies_property == sat(*rule, p2, property_mode)) by {
            if property_mode == RhsPropertyMode::Any {}
        }
        if !p2[rule.lhs.ix()] && sat(*rule, p2, property_mode) {
            lemma_missing(p2, rule.lhs.ix(), p2.len() as int);
            assert(property@ == p2.update(rule.lhs.ix(), true));
            assert(tmp_stack@[tmp_stack@.len() - 1] == rule.lhs);
            assert forall|q: Seq<bool>| q.len() == p0.len() && sub(p0, q) && #[trigger] closed(rs, q, property_mode) implies sub(property@, q) by {
                assert(sub(p2, q));
                lemma_sat_mono(*rule, p2, q, property_mode, n);
            }
        }
        assert forall|i: int| 0 <= i < rs.len() && sat(#[trigger] rs[i], property@, property_mode) && !property@[rs[i].lhs.ix()] implies
            pending(rs[i], tmp_stack@) || (rs[i].has(work_sym) && in_occ(occ, k + 1, i)) by {
            if !sat(rs[i], p2, property_mode) {
                lemma_sat_new(rs[i], p2, rule.lhs, property_mode, n);
                assert(rs[i].has(tmp_stack@[tmp_stack@.len() - 1]));
            } else if pending(rs[i], st2) {
                let j = choose|j: int| 0 <= j < st2.len() && rs[i].has(#[trigger] st2[j]);
                assert(tmp_stack@[j] == st2[j]);
            } else {
                assert(i != rule_id);
                let z = choose|z: int| k <= z < occ.len() && #[trigger] occ[z] == i;
                assert(z != k);
                assert(in_occ(occ, k + 1, i));
            }
        }
    }
//@at loop1.post
    proof {
        assert(covered(rs, property@, tmp_stack@, property_mode)) by {
        }
    }
//@at end
    proof { assert(tmp_stack@.len() == 0); }
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::rhs_closure_for_all
    requires self.wf(), self.n() <= old(property)@.len() <= u32::MAX,
    ensures is_closure(self.rules@, old(property)@, final(property)@, RhsPropertyMode::All),
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::rhs_closure_for_any
    requires self.wf(), self.n() <= old(property)@.len() <= u32::MAX,
    ensures is_closure(self.rules@, old(property)@, final(property)@, RhsPropertyMode::Any),
//@end
