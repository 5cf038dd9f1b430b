// G12: cycles of single-symbol rules.
// `Cycles<G: Borrow<Cfg>>` is verified for G = Cfg; `borrow()` and `borrow_mut()` give a reference to it.
//@contains cfg-classify/src/cyclical.rs pub struct Cycles<G: Borrow<Cfg>> { grammar: G, unit_derivation: UnitDerivationMatrix, cycle_free: Option<bool>, }
pub struct Cycles { pub grammar: Cfg, pub unit_derivation: UnitDerivationMatrix, pub cycle_free: Option<bool> }

// TRUSTED: derived Clone of CfgRule; conversions between vectors and Rc slices; Iterator::map over a slice of symbols.
#[verifier::external_body]
pub fn vx_clone_rule(r: &CfgRule) -> (c: CfgRule)
    ensures c == *r,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_take_rules(v: &mut Vec<CfgRule>) -> (r: Vec<CfgRule>)
    ensures r@ == old(v)@, final(v)@.len() == 0,
{ std::mem::take(v) }
#[verifier::external_body]
pub fn vx_rc_to_vec(s: &Rc<[Symbol]>) -> (r: Vec<Symbol>)
    ensures r@ == s@,
{ s.to_vec() }
pub fn vx_map_syms<F: Fn(Symbol) -> Symbol>(s: &[Symbol], f: &F) -> (r: Vec<Symbol>)
    requires forall|x: Symbol| call_requires(*f, (x,)),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(*f, (s@[i],), #[trigger] r@[i]),
{
    let mut out: Vec<Symbol> = Vec::new();
    let mut k: usize = 0;
    while k < s.len()
        invariant
            0 <= k <= s@.len(), out@.len() == k, forall|x: Symbol| call_requires(*f, (x,)),
            forall|i: int| 0 <= i < k ==> call_ensures(*f, (s@[i],), #[trigger] out@[i]),
        decreases s@.len() - k,
    {
        out.push(f(s[k]));
        k = k + 1;
    }
    out
}
#[verifier::external_body]
pub fn vx_wrapped_to_vec(s: &[WrappedRoot]) -> (r: Vec<WrappedRoot>)
    ensures r@ == s@,
{ s.to_vec() }
// `generate_fresh().take(n).all(f)`
pub fn vx_all_fresh<F: Fn(Symbol) -> bool>(n: usize, f: F) -> (r: bool)
    requires n <= u32::MAX, forall|i: int| 0 <= i < n ==> call_requires(f, (#[trigger] sym_of(i),)),
    ensures
        r ==> forall|i: int| 0 <= i < n ==> call_ensures(f, (#[trigger] sym_of(i),), true),
        !r ==> exists|i: int| 0 <= i < n && call_ensures(f, (#[trigger] sym_of(i),), false),
{
    let mut k: usize = 0;
    while k < n
        invariant
            0 <= k <= n <= u32::MAX, forall|i: int| 0 <= i < n ==> call_requires(f, (#[trigger] sym_of(i),)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] sym_of(i),), true),
        decreases n - k,
    {
        assert(sym_of(k as int).raw == k);
        if !f(Symbol { raw: k as u32 }) {
            assert(call_ensures(f, (sym_of(k as int),), false));
            return false;
        }
        k = k + 1;
    }
    true
}
impl BitMatrix {
    // `iter_row(row).zip(SymbolSource::generate_fresh())`, collected.
    #[verifier::external_body]
    pub fn row_syms(&self, row: usize) -> (r: Vec<(bool, Symbol)>)
        requires row < self.rows(), self.cols() <= u32::MAX,
        ensures r@.len() == self.cols(), forall|j: int| 0 <= j < self.cols() ==> #[trigger] r@[j] == (self.at(row as int, j), sym_of(j)),
    { unimplemented!() }
}
// `map.get(k)` where only an entry with a symbol matters.
pub fn vx_entry_sym(m: &BTreeMap<Symbol, Option<Symbol>>, k: &Symbol) -> (r: Option<Symbol>)
    ensures r == (if m@.contains_key(*k) { m@[*k] } else { None }),
{
    broadcast use axiom_symbol_ord;
    match m.get(k) { Some(x) => *x, None => None }
}
/// Tells the kind of a closure, as passing it to its user does.
pub fn vx_rule_test<F: Fn(&CfgRule) -> bool>(f: F) -> (r: F)
    ensures r == f,
{ f }
pub fn vx_sym_fn<F: Fn(Symbol) -> Symbol>(f: F) -> (r: F)
    ensures r == f,
{ f }
pub fn vx_sym_or(o: Option<Symbol>, d: Symbol) -> (r: Symbol)
    ensures r == (match o { Some(x) => x, None => d }),
{ match o { Some(x) => x, None => d } }

#[verifier::external_body]
pub fn vx_wrapped_vec(s: &[WrappedRoot]) -> (r: Vec<WrappedRoot>)
    ensures r@ == s@,
{ s.to_vec() }
//@fn cfg-grammar/src/cfg.rs Cfg::set_roots
//@sig impl AsRef<[Symbol]> => &[Symbol]
//@rewrite_opt roots.as_ref().iter().copied().collect() => vx_to_vec(roots)
    ensures *final(self) == (Cfg { roots: final(self).roots, ..*old(self) }), final(self).roots@ == roots@,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::set_wrapped_roots
//@rewrite_opt $x.into() => vx_wrapped_vec($x)
    ensures *final(self) == (Cfg { wrapped_roots: final(self).wrapped_roots, ..*old(self) }), final(self).wrapped_roots@ == wrapped_roots@,
//@end
//@bodyis cfg-grammar/src/cfg.rs Cfg::retain :: self.rules.retain(f);
// ---- what a cycle is
pub open spec fn chained(rs: Seq<CfgRule>, a: Symbol, b: Symbol) -> bool { path(unit(rs), a.ix(), b.ix()) }
/// A single-symbol rule whose right-hand symbol derives the left-hand side by single-symbol rules.
pub open spec fn cyclical(rs: Seq<CfgRule>, r: CfgRule) -> bool { r.rhs@.len() == 1 && chained(rs, r.rhs@[0], r.lhs) }
pub open spec fn without_cycle(rs: Seq<CfgRule>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !chained(rs, #[trigger] sym_of(i), sym_of(i)) }
impl Cycles {
    pub open spec fn exact(self, rs: Seq<CfgRule>, n: int) -> bool {
        &&& 0 <= n <= u32::MAX && self.unit_derivation.0.sq(n)
        &&& forall|a: Symbol, b: Symbol| #[trigger] self.unit_derivation.0.has(a, b) == chained(rs, a, b)
        &&& self.cycle_free matches Some(x) ==> x == without_cycle(rs, n)
    }
}
//@fn cfg-classify/src/cyclical.rs Cycles::new
//@impl impl Cycles
//@sig grammar: G => grammar: Cfg
//@rewrite_opt grammar.borrow() => (&grammar)
    requires grammar.wf(),
    ensures ret.exact(grammar.rules@, grammar.n()), ret.cycle_free is None, ret.grammar == grammar,
//@end
//@fn cfg-classify/src/cyclical.rs Cycles::cycle_free
//@impl impl Cycles
//@rewrite *self.cycle_free.get_or_insert_with(|| $$b) => { if self.cycle_free.is_none() { let vx_v = $$b; self.cycle_free = Some(vx_v); } self.cycle_free.unwrap() }
//@rewrite_opt self.grammar.borrow() => self.grammar
//@rewrite SymbolSource::generate_fresh().take($$n).all(|i| $$b) => vx_all_fresh($$n, |i: Symbol| -> (r: bool) requires i.raw < self.unit_derivation.0.bit_matrix.rows(), self.unit_derivation.0.sq(self.unit_derivation.0.bit_matrix.rows()) ensures r == !self.unit_derivation.0.has(i, i) { $$b })
//@rewrite_opt self.unit_derivation[$$i] => *self.unit_derivation.0.index($$i)
    requires exists|rs: Seq<CfgRule>| #[trigger] old(self).exact(rs, old(self).grammar.n()),
    ensures
        final(self).unit_derivation == old(self).unit_derivation, final(self).grammar == old(self).grammar,
        final(self).cycle_free == Some(ret),
        forall|rs: Seq<CfgRule>| #[trigger] old(self).exact(rs, old(self).grammar.n()) ==> ret == without_cycle(rs, old(self).grammar.n()) && final(self).exact(rs, old(self).grammar.n()),
//@end
//@fn cfg-classify/src/cyclical.rs Cycles::classify
//@impl impl Cycles
//@sig impl Iterator<Item = (&CfgRule, bool)> + '_ => Vec<(CfgRule, bool)>
//@rewrite_opt self.grammar.borrow().rules().map(move |rule| $$b) => vx_map(self.grammar.rules.as_slice(), |rule: &CfgRule| -> (r: (CfgRule, bool)) requires rule_in(*rule, self.unit_derivation.0.bit_matrix.rows()), self.unit_derivation.0.sq(self.unit_derivation.0.bit_matrix.rows()) ensures r.0 == *rule, r.1 == (rule.rhs@.len() == 1 && self.unit_derivation.0.has(rule.rhs@[0], rule.lhs)) { let vx_p = $$b; (vx_clone_rule(vx_p.0), vx_p.1) })
//@rewrite_opt self.unit_derivation[$$i] => *self.unit_derivation.0.index($$i)
    requires self.exact(self.grammar.rules@, self.grammar.n()), self.grammar.wf(),
    ensures
        ret@.len() == self.grammar.rules@.len(),
        forall|i: int| 0 <= i < self.grammar.rules@.len() ==> #[trigger] ret@[i] == (self.grammar.rules@[i], cyclical(self.grammar.rules@, self.grammar.rules@[i])),
//@end
//@fn cfg-classify/src/cyclical.rs Cycles::remove_cycles
//@impl impl Cycles
//@rewrite_opt self.grammar.borrow_mut().retain(|rule| $$b); => { let vx_f = vx_rule_test(|rule: &CfgRule| -> (r: bool) requires rule_in(*rule, self.unit_derivation.0.bit_matrix.rows()), self.unit_derivation.0.sq(self.unit_derivation.0.bit_matrix.rows()) ensures r == !(rule.rhs@.len() == 1 && self.unit_derivation.0.has(rule.rhs@[0], rule.lhs)) $$b); self.grammar.retain(vx_f); proof { let keep = choose|keep: Seq<bool>| #[trigger] answers(vx_f, rs, keep) && self.grammar.rules@ == selected(rs, keep); assert(keeps_acyclic(rs, keep)); } }
//@rewrite_opt self.unit_derivation[$$i] => *self.unit_derivation.0.index($$i)
    requires old(self).exact(old(self).grammar.rules@, old(self).grammar.n()), old(self).grammar.wf(),
    ensures
        same_but_rules(final(self).grammar, old(self).grammar),
        exists|keep: Seq<bool>| #[trigger] keeps_acyclic(old(self).grammar.rules@, keep) && final(self).grammar.rules@ == selected(old(self).grammar.rules@, keep),
//@at begin
    let ghost rs = self.grammar.rules@;
    let ghost n = self.grammar.n();
//@at end
    proof {
        if without_cycle(rs, n) {
            let keep = Seq::new(rs.len(), |i: int| true);
            lemma_no_cyclical(rs, n);
            assert(keeps_acyclic(rs, keep));
            lemma_select_all2(rs, keep);
        }
    }
//@end
/// Exactly the rules that are not cyclical are kept, in order.
pub open spec fn keeps_acyclic(rs: Seq<CfgRule>, keep: Seq<bool>) -> bool {
    keep.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> keep[i] == !cyclical(rs, #[trigger] rs[i])
}
pub proof fn lemma_select_all2(rs: Seq<CfgRule>, keep: Seq<bool>)
    requires rs.len() <= keep.len(), forall|i: int| 0 <= i < keep.len() ==> keep[i],
    ensures selected(rs, keep) == rs,
    decreases rs.len(),
{
    if rs.len() > 0 {
        lemma_select_all2(rs.drop_last(), keep);
        assert(selected(rs, keep) =~= rs);
    }
}
pub proof fn lemma_steps_trans(r: Rel, i: int, j: int, m: int, k: nat, l: nat)
    requires steps(r, i, j, k), steps(r, j, m, l),
    ensures steps(r, i, m, k + l),
    decreases k,
{
    if k > 0 {
        let x = choose|x: int| #[trigger] r(i, x) && steps(r, x, j, (k - 1) as nat);
        lemma_steps_trans(r, x, j, m, (k - 1) as nat, l);
        assert(r(i, x) && steps(r, x, m, (k + l - 1) as nat));
    }
}
pub proof fn lemma_path_trans(r: Rel, i: int, j: int, m: int)
    requires path(r, i, j), path(r, j, m),
    ensures path(r, i, m),
{
    let k = choose|k: nat| k >= 1 && steps(r, i, j, k);
    let l = choose|l: nat| l >= 1 && steps(r, j, m, l);
    lemma_steps_trans(r, i, j, m, k, l);
}
pub proof fn lemma_path_step(r: Rel, i: int, j: int)
    requires r(i, j),
    ensures path(r, i, j),
{
    assert(steps(r, j, j, 0));
    assert(steps(r, i, j, 1));
}
pub proof fn lemma_no_cyclical(rs: Seq<CfgRule>, n: int)
    requires rules_in(rs, n), without_cycle(rs, n),
    ensures forall|i: int| 0 <= i < rs.len() ==> !cyclical(rs, #[trigger] rs[i]),
{
    assert forall|i: int| 0 <= i < rs.len() implies !cyclical(rs, #[trigger] rs[i]) by {
        let r = rs[i];
        if cyclical(rs, r) {
            assert(rule_in(r, n));
            lemma_cyclical_self(rs, i);
            assert(sym_of(r.lhs.ix()) == r.lhs);
        }
    }
}
/// The left-hand side of a cyclical rule is on a cycle.
pub proof fn lemma_cyclical_self(rs: Seq<CfgRule>, i: int)
    requires 0 <= i < rs.len(), cyclical(rs, rs[i]),
    ensures chained(rs, rs[i].lhs, rs[i].lhs),
{
    let r = rs[i];
    if r.lhs != r.rhs@[0] {
        assert(unit_step(r, r.lhs.ix(), r.rhs@[0].ix()));
        assert(unit(rs)(r.lhs.ix(), r.rhs@[0].ix()));
        lemma_path_step(unit(rs), r.lhs.ix(), r.rhs@[0].ix());
        lemma_path_trans(unit(rs), r.lhs.ix(), r.rhs@[0].ix(), r.lhs.ix());
    }
}
/// Unit derivations are derivations.
pub proof fn lemma_steps_unit_der(rs: Seq<CfgRule>, a: Symbol, b: Symbol, k: nat)
    requires steps(unit(rs), a.ix(), b.ix(), k),
    ensures der(prods(rs), seq![a], seq![b]),
    decreases k,
{
    let ps = prods(rs);
    if k == 0 { lemma_refl(ps, seq![a]); }
    else {
        let m = choose|m: int| #[trigger] unit(rs)(a.ix(), m) && steps(unit(rs), m, b.ix(), (k - 1) as nat);
        let z = choose|z: int| 0 <= z < rs.len() && unit_step(#[trigger] rs[z], a.ix(), m);
        let s = rs[z].rhs@[0];
        lemma_steps_unit_der(rs, s, b, (k - 1) as nat);
        assert(rs[z].rhs@ =~= seq![s]);
        assert(ps.contains(Prod { l: a, r: seq![s] }));
        lemma_prod(ps, Prod { l: a, r: seq![s] });
        lemma_trans(ps, seq![a], seq![s], seq![b]);
    }
}
// ---- merging the symbols of each cycle
pub type Rep = spec_fn(Symbol) -> Symbol;
/// Both derive each other by single-symbol rules, or they are equal.
pub open spec fn mutual(rs: Seq<CfgRule>, s: Symbol, t: Symbol) -> bool { s == t || (chained(rs, s, t) && chained(rs, t, s)) }
/// One representative for the symbols of each cycle; all other symbols stand for themselves.
pub open spec fn good_rep(rs: Seq<CfgRule>, n: int, rho: Rep) -> bool {
    &&& forall|s: Symbol| s.raw < n ==> (#[trigger] rho(s)).raw < n && mutual(rs, s, rho(s))
    &&& forall|s: Symbol, t: Symbol| s.raw < n && t.raw < n && mutual(rs, s, t) ==> #[trigger] rho(s) == #[trigger] rho(t)
}
pub open spec fn map_rep(rho: Rep, s: Seq<Symbol>) -> Seq<Symbol> { Seq::new(s.len(), |i: int| rho(s[i])) }
pub open spec fn renamed(a: CfgRule, b: CfgRule, rho: Rep) -> bool { b.lhs == rho(a.lhs) && b.rhs@ == map_rep(rho, a.rhs@) && b.history == a.history }
pub open spec fn unmoved(r: CfgRule, rho: Rep) -> bool { rho(r.lhs) == r.lhs && forall|j: int| 0 <= j < r.rhs@.len() ==> rho(#[trigger] r.rhs@[j]) == r.rhs@[j] }
pub open spec fn keep_of(rs: Seq<CfgRule>) -> Seq<bool> { Seq::new(rs.len(), |i: int| !cyclical(rs, rs[i])) }
pub open spec fn unmoved_of(rs: Seq<CfgRule>, rho: Rep) -> Seq<bool> { Seq::new(rs.len(), |i: int| unmoved(rs[i], rho)) }
pub open spec fn moved_of(rs: Seq<CfgRule>, rho: Rep) -> Seq<bool> { Seq::new(rs.len(), |i: int| !unmoved(rs[i], rho)) }
/// `new` has the rules of `rs` that are not cyclical: first those without a merged symbol, then the others renamed.
pub open spec fn merged(rs: Seq<CfgRule>, new: Seq<CfgRule>, rho: Rep) -> bool {
    let k = selected(rs, keep_of(rs));
    let a = selected(k, unmoved_of(k, rho));
    let b = selected(k, moved_of(k, rho));
    new.len() == a.len() + b.len() && new.take(a.len() as int) == a && forall|i: int| 0 <= i < b.len() ==> renamed(b[i], #[trigger] new[a.len() + i], rho)
}
pub proof fn lemma_map_rep_hom(rho: Rep, s: Seq<Symbol>)
    ensures hom(|x: Symbol| seq![rho(x)], s) == map_rep(rho, s),
    decreases s.len(),
{
    let e: Hom = |x: Symbol| seq![rho(x)];
    if s.len() > 0 {
        lemma_map_rep_hom(rho, s.drop_last());
        assert(hom(e, s) =~= map_rep(rho, s));
    } else { assert(hom(e, s) =~= map_rep(rho, s)); }
}
/// Each symbol of `s` derives the corresponding symbol of `t`.
pub proof fn lemma_pointwise_der(ps: ISet<Prod>, s: Seq<Symbol>, t: Seq<Symbol>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> der(ps, seq![#[trigger] s[i]], seq![t[i]]),
    ensures der(ps, s, t),
    decreases s.len(),
{
    if s.len() == 0 { lemma_refl(ps, s); assert(s =~= t); }
    else {
        let a = s.drop_last(); let b = t.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies der(ps, seq![#[trigger] a[i]], seq![b[i]]) by { assert(s[i] == a[i]); }
        lemma_pointwise_der(ps, a, b);
        assert(der(ps, seq![s[s.len() - 1]], seq![t[t.len() - 1]]));
        lemma_ctx(ps, a, b, Seq::empty(), seq![s.last()]);
        lemma_ctx(ps, seq![s.last()], seq![t.last()], b, Seq::empty());
        assert(Seq::<Symbol>::empty() + a + seq![s.last()] =~= s);
        assert(Seq::<Symbol>::empty() + b + seq![s.last()] =~= b + seq![s.last()] + Seq::<Symbol>::empty());
        assert(b + seq![t.last()] + Seq::<Symbol>::empty() =~= t);
        lemma_trans(ps, s, b + seq![s.last()] + Seq::<Symbol>::empty(), t);
    }
}
pub proof fn lemma_mutual_der(rs: Seq<CfgRule>, s: Symbol, t: Symbol)
    requires mutual(rs, s, t),
    ensures der(prods(rs), seq![s], seq![t]), der(prods(rs), seq![t], seq![s]),
{
    if s == t { lemma_refl(prods(rs), seq![s]); }
    else {
        let k = choose|k: nat| k >= 1 && steps(unit(rs), s.ix(), t.ix(), k);
        lemma_steps_unit_der(rs, s, t, k);
        let l = choose|l: nat| l >= 1 && steps(unit(rs), t.ix(), s.ix(), l);
        lemma_steps_unit_der(rs, t, s, l);
    }
}
pub proof fn lemma_selected2(s: Seq<CfgRule>, keep: Seq<bool>)
    requires s.len() <= keep.len(),
    ensures
        forall|x: CfgRule| selected(s, keep).contains(x) <==> (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i]),
    decreases s.len(),
{
    let t = selected(s, keep);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_selected2(d, keep);
        assert(s.last() == s[s.len() - 1]);
        let m = selected(d, keep);
        assert forall|x: CfgRule| t.contains(x) <==> (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i]) by {
            if t.contains(x) {
                let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
                if j < m.len() {
                    assert(m[j] == x);
                    assert(m.contains(x));
                    let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == x && keep[i];
                    assert(s[i] == x);
                } else { assert(s[s.len() - 1] == x); }
            }
            if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i] {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i];
                if i < d.len() {
                    assert(d[i] == x);
                    assert(m.contains(x));
                    let j = choose|j: int| 0 <= j < m.len() && m[j] == x;
                    assert(t[j] == x);
                } else { assert(t[t.len() - 1] == x); }
            }
        }
    }
}
/// The new rules are the renamed old ones, less the cyclical ones.
pub proof fn lemma_merged_rules(rs: Seq<CfgRule>, new: Seq<CfgRule>, rho: Rep)
    requires merged(rs, new, rho),
    ensures
        forall|i: int| 0 <= i < new.len() ==> from_old(rs, #[trigger] new[i], rho),
        forall|z: int| 0 <= z < rs.len() && !cyclical(rs, #[trigger] rs[z]) ==> prods(new).contains(Prod { l: rho(rs[z].lhs), r: map_rep(rho, rs[z].rhs@) }),
{
    let k = selected(rs, keep_of(rs));
    let a = selected(k, unmoved_of(k, rho));
    let b = selected(k, moved_of(k, rho));
    lemma_selected2(rs, keep_of(rs));
    lemma_selected2(k, unmoved_of(k, rho));
    lemma_selected2(k, moved_of(k, rho));
    assert forall|i: int| 0 <= i < new.len() implies from_old(rs, #[trigger] new[i], rho) by {
        if i < a.len() {
            assert(new.take(a.len() as int)[i] == a[i]);
            assert(a.contains(a[i]));
            let y = choose|y: int| 0 <= y < k.len() && #[trigger] k[y] == a[i] && unmoved_of(k, rho)[y];
            assert(k.contains(k[y]));
            let z = choose|z: int| 0 <= z < rs.len() && #[trigger] rs[z] == k[y] && keep_of(rs)[z];
            assert(map_rep(rho, rs[z].rhs@) =~= rs[z].rhs@);
            assert(same_prod(rs[z], new[i], rho));
        } else {
            let x = b[i - a.len()];
            assert(renamed(x, new[a.len() + (i - a.len())], rho));
            assert(b.contains(x));
            let y = choose|y: int| 0 <= y < k.len() && #[trigger] k[y] == x && moved_of(k, rho)[y];
            assert(k.contains(k[y]));
            let z = choose|z: int| 0 <= z < rs.len() && #[trigger] rs[z] == k[y] && keep_of(rs)[z];
            assert(same_prod(rs[z], new[i], rho));
        }
    }
    assert forall|z: int| 0 <= z < rs.len() && !cyclical(rs, #[trigger] rs[z]) implies prods(new).contains(Prod { l: rho(rs[z].lhs), r: map_rep(rho, rs[z].rhs@) }) by {
        assert(keep_of(rs)[z]);
        assert(k.contains(rs[z]));
        let y = choose|y: int| 0 <= y < k.len() && k[y] == rs[z];
        if unmoved(k[y], rho) {
            assert(unmoved_of(k, rho)[y]);
            assert(a.contains(rs[z]));
            let i = choose|i: int| 0 <= i < a.len() && a[i] == rs[z];
            assert(new.take(a.len() as int)[i] == new[i]);
            assert(map_rep(rho, rs[z].rhs@) =~= rs[z].rhs@);
            assert(new[i].lhs == rho(rs[z].lhs) && new[i].rhs@ == map_rep(rho, rs[z].rhs@));
        } else {
            assert(moved_of(k, rho)[y]);
            assert(b.contains(rs[z]));
            let i = choose|i: int| 0 <= i < b.len() && b[i] == rs[z];
            assert(renamed(b[i], new[a.len() + i], rho));
        }
    }
}
pub open spec fn same_prod(o: CfgRule, r: CfgRule, rho: Rep) -> bool { r.lhs == rho(o.lhs) && r.rhs@ == map_rep(rho, o.rhs@) }
pub open spec fn from_old(rs: Seq<CfgRule>, r: CfgRule, rho: Rep) -> bool {
    exists|z: int| 0 <= z < rs.len() && !cyclical(rs, rs[z]) && same_prod(#[trigger] rs[z], r, rho)
}
/// Merging the symbols of every cycle keeps all derivations of strings of symbols that are not merged.
pub proof fn lemma_merged_lang(rs: Seq<CfgRule>, new: Seq<CfgRule>, n: int, rho: Rep, a: Seq<Symbol>, w: Seq<Symbol>)
    requires rules_in(rs, n), good_rep(rs, n, rho), merged(rs, new, rho), below(a, n), below(w, n), map_rep(rho, w) == w,
    ensures der(prods(rs), a, w) <==> der(prods(new), map_rep(rho, a), w),
{
    let p = prods(rs); let q = prods(new);
    let e: Hom = |x: Symbol| seq![rho(x)];
    lemma_merged_rules(rs, new, rho);
    if der(p, a, w) {
        assert(simulates(p, q, e)) by {
            assert forall|x: Prod| #[trigger] p.contains(x) implies der(q, e(x.l), hom(e, x.r)) by {
                let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == x.l && rs[z].rhs@ == x.r;
                assert(rule_in(rs[z], n));
                lemma_map_rep_hom(rho, x.r);
                if cyclical(rs, rs[z]) {
                    lemma_cyclical_self(rs, z);
                    let s = x.r[0];
                    if s != x.l {
                        assert(unit_step(rs[z], x.l.ix(), s.ix()));
                        assert(unit(rs)(x.l.ix(), s.ix()));
                        lemma_path_step(unit(rs), x.l.ix(), s.ix());
                    }
                    assert(mutual(rs, x.l, s));
                    assert(rs[z].rhs@[0].raw < n);
                    assert(rho(x.l) == rho(s));
                    assert(map_rep(rho, x.r) =~= seq![rho(x.l)]);
                    lemma_refl(q, seq![rho(x.l)]);
                } else {
                    lemma_prod(q, Prod { l: rho(x.l), r: map_rep(rho, x.r) });
                }
            }
        }
        lemma_sim(p, q, e, a, w);
        lemma_map_rep_hom(rho, a); lemma_map_rep_hom(rho, w);
    }
    if der(q, map_rep(rho, a), w) {
        assert forall|x: Prod| #[trigger] q.contains(x) implies der(p, seq![x.l], x.r) by {
            let i = choose|i: int| 0 <= i < new.len() && (#[trigger] new[i]).lhs == x.l && new[i].rhs@ == x.r;
            assert(from_old(rs, new[i], rho));
            let z = choose|z: int| 0 <= z < rs.len() && !cyclical(rs, rs[z]) && same_prod(#[trigger] rs[z], new[i], rho);
            let l = rs[z].lhs; let r = rs[z].rhs@;
            assert(rule_in(rs[z], n));
            assert(p.contains(Prod { l: l, r: r }));
            lemma_prod(p, Prod { l: l, r: r });
            assert(mutual(rs, l, rho(l)));
            lemma_mutual_der(rs, l, rho(l));
            assert forall|j: int| 0 <= j < r.len() implies der(p, seq![#[trigger] r[j]], seq![map_rep(rho, r)[j]]) by {
                assert(rs[z].rhs@[j].raw < n);
                assert(mutual(rs, r[j], rho(r[j])));
                lemma_mutual_der(rs, r[j], rho(r[j]));
            }
            lemma_pointwise_der(p, r, map_rep(rho, r));
            lemma_trans(p, seq![x.l], seq![l], r);
            lemma_trans(p, seq![x.l], r, x.r);
        }
        lemma_incl(q, p, map_rep(rho, a), w);
        assert forall|j: int| 0 <= j < a.len() implies der(p, seq![#[trigger] a[j]], seq![map_rep(rho, a)[j]]) by {
            assert(mutual(rs, a[j], rho(a[j])));
            lemma_mutual_der(rs, a[j], rho(a[j]));
        }
        lemma_pointwise_der(p, a, map_rep(rho, a));
        lemma_trans(p, a, map_rep(rho, a), w);
    }
}
pub proof fn lemma_new_unit(rs: Seq<CfgRule>, new: Seq<CfgRule>, n: int, rho: Rep, a: int, b: int)
    requires rules_in(rs, n), good_rep(rs, n, rho), merged(rs, new, rho), unit(new)(a, b),
    ensures path(unit(rs), a, b), !path(unit(rs), b, a), a != b,
{
    lemma_merged_rules(rs, new, rho);
    let u = unit(rs);
    let i = choose|i: int| 0 <= i < new.len() && unit_step(#[trigger] new[i], a, b);
    assert(from_old(rs, new[i], rho));
    let z = choose|z: int| 0 <= z < rs.len() && !cyclical(rs, rs[z]) && same_prod(#[trigger] rs[z], new[i], rho);
    assert(rule_in(rs[z], n));
    let l = rs[z].lhs; let r = rs[z].rhs@[0];
    assert(rs[z].rhs@.len() == 1);
    assert(map_rep(rho, rs[z].rhs@)[0] == rho(r));
    assert(rs[z].rhs@[0].raw < n);
    assert(mutual(rs, l, rho(l)) && mutual(rs, r, rho(r)));
    assert(rho(l).ix() == a && rho(r).ix() == b);
    assert(l != r);
    assert(unit_step(rs[z], l.ix(), r.ix()));
    assert(u(l.ix(), r.ix()));
    lemma_path_step(u, l.ix(), r.ix());
    if l != rho(l) { lemma_path_trans(u, a, l.ix(), r.ix()); }
    assert(path(u, a, r.ix()));
    if r != rho(r) { lemma_path_trans(u, a, r.ix(), b); }
    if path(u, b, a) {
        if r != rho(r) { lemma_path_trans(u, r.ix(), b, a); }
        assert(path(u, r.ix(), a));
        if l != rho(l) { lemma_path_trans(u, r.ix(), a, l.ix()); }
        assert(chained(rs, r, l));
        assert(cyclical(rs, rs[z]));
    }
}
pub proof fn lemma_new_steps(rs: Seq<CfgRule>, new: Seq<CfgRule>, n: int, rho: Rep, a: int, b: int, k: nat)
    requires rules_in(rs, n), good_rep(rs, n, rho), merged(rs, new, rho), steps(unit(new), a, b, k), k >= 1,
    ensures path(unit(rs), a, b),
    decreases k,
{
    let m = choose|m: int| #[trigger] unit(new)(a, m) && steps(unit(new), m, b, (k - 1) as nat);
    lemma_new_unit(rs, new, n, rho, a, m);
    if k > 1 {
        lemma_new_steps(rs, new, n, rho, m, b, (k - 1) as nat);
        lemma_path_trans(unit(rs), a, m, b);
    }
}
/// The new rules have no cycle.
pub proof fn lemma_merged_acyclic(rs: Seq<CfgRule>, new: Seq<CfgRule>, n: int, rho: Rep)
    requires rules_in(rs, n), good_rep(rs, n, rho), merged(rs, new, rho),
    ensures forall|a: int| !path(unit(new), a, a),
{
    assert forall|a: int| !path(unit(new), a, a) by {
        if path(unit(new), a, a) {
            let k = choose|k: nat| k >= 1 && steps(unit(new), a, a, k);
            let m = choose|m: int| #[trigger] unit(new)(a, m) && steps(unit(new), m, a, (k - 1) as nat);
            lemma_new_unit(rs, new, n, rho, a, m);
            if k > 1 { lemma_new_steps(rs, new, n, rho, m, a, (k - 1) as nat); }
        }
    }
}

// ---- the renaming that rewrite_cycles collects
pub type Names = Map<Symbol, Option<Symbol>>;
pub open spec fn rep(m: Names, s: Symbol) -> Symbol {
    if m.contains_key(s) { match m[s] { Some(r) => r, None => s } } else { s }
}
pub open spec fn rep_of(m: Names) -> Rep { |s: Symbol| rep(m, s) }
/// Every key is on a cycle, and with a key all symbols of its cycles are keys, with the same representative.
pub open spec fn names_ok(rs: Seq<CfgRule>, n: int, m: Names) -> bool {
    &&& forall|s: Symbol| #[trigger] m.contains_key(s) ==> s.raw < n && chained(rs, s, s) && mutual(rs, s, rep(m, s)) && m.contains_key(rep(m, s)) && m[rep(m, s)] is None
    &&& forall|s: Symbol| #[trigger] m.contains_key(s) && m[s] is Some ==> m[s] != Some(s)
    &&& forall|s: Symbol, t: Symbol| #[trigger] m.contains_key(s) && #[trigger] mutual(rs, s, t) ==> m.contains_key(t) && rep(m, s) == rep(m, t)
}
pub open spec fn done(rs: Seq<CfgRule>, m: Names, k: int) -> bool {
    forall|i: int| 0 <= i < k && cyclical(rs, #[trigger] rs[i]) ==> m.contains_key(rs[i].lhs)
}
/// A symbol on a cycle has a cyclical rule.
pub proof fn lemma_on_cycle(rs: Seq<CfgRule>, s: Symbol)
    requires chained(rs, s, s),
    ensures exists|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == s && cyclical(rs, rs[z]),
{
    let u = unit(rs);
    let k = choose|k: nat| k >= 1 && steps(u, s.ix(), s.ix(), k);
    let m = choose|m: int| #[trigger] u(s.ix(), m) && steps(u, m, s.ix(), (k - 1) as nat);
    let z = choose|z: int| 0 <= z < rs.len() && unit_step(#[trigger] rs[z], s.ix(), m);
    let x = rs[z].rhs@[0];
    if k == 1 { assert(x == s); }
    else { assert(path(u, x.ix(), s.ix())); }
    assert(chained(rs, x, s));
    assert(rs[z].lhs == s);
}
pub proof fn lemma_names_rep(rs: Seq<CfgRule>, n: int, m: Names)
    requires names_ok(rs, n, m), done(rs, m, rs.len() as int),
    ensures good_rep(rs, n, rep_of(m)),
{
    let rho = rep_of(m);
    assert forall|s: Symbol| s.raw < n implies (#[trigger] rho(s)).raw < n && mutual(rs, s, rho(s)) by {
        if m.contains_key(s) { assert(m.contains_key(rep(m, s))); }
    }
    assert forall|s: Symbol, t: Symbol| s.raw < n && t.raw < n && mutual(rs, s, t) implies #[trigger] rho(s) == #[trigger] rho(t) by {
        if s != t {
            lemma_path_trans(unit(rs), s.ix(), t.ix(), s.ix());
            lemma_on_cycle(rs, s);
            assert(m.contains_key(s));
        }
    }
}
/// What the class of `l` adds to the names.
pub open spec fn class_names(rs: Seq<CfgRule>, n: int, m: Names, w: Names, l: Symbol) -> bool {
    forall|s: Symbol| #[trigger] w.contains_key(s) == (m.contains_key(s) || (s.raw < n && chained(rs, l, s) && chained(rs, s, l)))
        && (w.contains_key(s) ==> w[s] == (if s == l { None } else if s.raw < n && chained(rs, l, s) && chained(rs, s, l) { Some(l) } else { m[s] }))
}
pub proof fn lemma_class(rs: Seq<CfgRule>, n: int, m: Names, w: Names, l: Symbol)
    requires names_ok(rs, n, m), class_names(rs, n, m, w, l), chained(rs, l, l), l.raw < n, !m.contains_key(l), rules_in(rs, n),
    ensures names_ok(rs, n, w), w.contains_key(l), forall|s: Symbol| m.contains_key(s) ==> #[trigger] w.contains_key(s),
{
    let u = unit(rs);
    assert forall|s: Symbol| m.contains_key(s) implies !(chained(rs, l, s) && chained(rs, s, l)) by {
        if chained(rs, l, s) && chained(rs, s, l) { assert(mutual(rs, s, l)); }
    }
    assert forall|s: Symbol| #[trigger] w.contains_key(s) implies s.raw < n && chained(rs, s, s) && mutual(rs, s, rep(w, s)) && w.contains_key(rep(w, s)) && w[rep(w, s)] is None by {
        if m.contains_key(s) {
            assert(w[s] == m[s]);
            let r = rep(m, s);
            assert(rep(w, s) == r);
            assert(m.contains_key(r) && m[r] is None);
            assert(w.contains_key(r));
            assert(w[r] == m[r]);
        } else {
            lemma_path_trans(u, s.ix(), l.ix(), s.ix());
            assert(rep(w, s) == l);
            assert(w.contains_key(l));
        }
    }
    assert forall|s: Symbol, t: Symbol| #[trigger] w.contains_key(s) && #[trigger] mutual(rs, s, t) implies w.contains_key(t) && rep(w, s) == rep(w, t) by {
        if s != t {
            if m.contains_key(s) {
                assert(m.contains_key(t));
                assert(w.contains_key(t));
                assert(w[s] == m[s] && w[t] == m[t]);
            } else {
                lemma_path_trans(u, l.ix(), s.ix(), t.ix());
                lemma_path_trans(u, t.ix(), s.ix(), l.ix());
                lemma_end_in(rs, n, s.ix(), t.ix());
                assert(w.contains_key(t));
                assert(!m.contains_key(t));
                assert(rep(w, s) == l && rep(w, t) == l);
            }
        }
    }
}
/// Chains end at symbols of the grammar.
pub proof fn lemma_end_in(rs: Seq<CfgRule>, n: int, a: int, b: int)
    requires rules_in(rs, n), path(unit(rs), a, b),
    ensures 0 <= b < n,
{
    let k = choose|k: nat| k >= 1 && steps(unit(rs), a, b, k);
    lemma_end_in2(rs, n, a, b, k);
}
pub proof fn lemma_end_in2(rs: Seq<CfgRule>, n: int, a: int, b: int, k: nat)
    requires rules_in(rs, n), k >= 1, steps(unit(rs), a, b, k),
    ensures 0 <= b < n,
    decreases k,
{
    let m = choose|m: int| #[trigger] unit(rs)(a, m) && steps(unit(rs), m, b, (k - 1) as nat);
    let z = choose|z: int| 0 <= z < rs.len() && unit_step(#[trigger] rs[z], a, m);
    assert(rule_in(rs[z], n));
    assert(rs[z].rhs@[0].raw < n);
    if k > 1 { lemma_end_in2(rs, n, m, b, (k - 1) as nat); }
}
/// All rules are as `add_rule` takes them unchanged.
pub open spec fn rule_fits(g: Cfg, r: CfgRule) -> bool { r.rhs@.len() <= g.limit() && r.rhs@.len() < u32::MAX && (g.eliminate_nulling ==> r.rhs@.len() > 0) }
pub open spec fn rules_fit(g: Cfg) -> bool { g.limit() >= 2 && forall|i: int| 0 <= i < g.rules@.len() ==> rule_fits(g, #[trigger] g.rules@[i]) }
pub open spec fn map_wrapped(rho: Rep, w: WrappedRoot) -> WrappedRoot { WrappedRoot { inner_root: rho(w.inner_root), ..w } }
pub open spec fn rewritten(g: Cfg, h: Cfg, rho: Rep) -> bool {
    &&& good_rep(g.rules@, g.n(), rho)
    &&& merged(g.rules@, h.rules@, rho)
    &&& h.roots@ == map_rep(rho, g.roots@)
    &&& h.wrapped_roots@.len() == g.wrapped_roots@.len() && forall|i: int| 0 <= i < g.wrapped_roots@.len() ==> #[trigger] h.wrapped_roots@[i] == map_wrapped(rho, g.wrapped_roots@[i])
    &&& h.n() == g.n() && h.lexemes == g.lexemes && h.rhs_len_invariant == g.rhs_len_invariant && h.eliminate_nulling == g.eliminate_nulling
}
pub proof fn lemma_no_merge(g: Cfg)
    requires g.wf(), without_cycle(g.rules@, g.n()),
    ensures rewritten(g, g, |s: Symbol| s),
{
    let rs = g.rules@; let n = g.n();
    let rho: Rep = |s: Symbol| s;
    lemma_no_cyclical(rs, n);
    lemma_select_all2(rs, keep_of(rs));
    assert forall|s: Symbol, t: Symbol| s.raw < n && t.raw < n && mutual(rs, s, t) implies #[trigger] rho(s) == #[trigger] rho(t) by {
        if s != t { lemma_path_trans(unit(rs), s.ix(), t.ix(), s.ix()); assert(sym_of(s.ix()) == s); }
    }
    lemma_select_all2(rs, unmoved_of(rs, rho));
    lemma_select_none(rs, moved_of(rs, rho));
    assert(rs.take(rs.len() as int) =~= rs);
    assert(map_rep(rho, g.roots@) =~= g.roots@);
}
pub proof fn lemma_select_none(rs: Seq<CfgRule>, keep: Seq<bool>)
    requires rs.len() <= keep.len(), forall|i: int| 0 <= i < keep.len() ==> !keep[i],
    ensures selected(rs, keep).len() == 0,
    decreases rs.len(),
{
    if rs.len() > 0 { lemma_select_none(rs.drop_last(), keep); }
}
//@fn cfg-classify/src/cyclical.rs Cycles::rewrite_cycles
//@impl impl Cycles
//@rewrite_opt self.grammar.borrow_mut().retain(|rule| $$b); => let vx_old = vx_take_rules(&mut self.grammar.rules); for rule in vx_old.iter() { let vx_keep: bool = $$b; if vx_keep { self.grammar.rules.push(vx_clone_rule(rule)); } }
//@rewrite_opt BTreeMap::new() => BTreeMap::<Symbol, Option<Symbol>>::new()
//@rewrite_opt unit_derivation.iter_row($$r).zip(SymbolSource::generate_fresh()) => unit_derivation.0.bit_matrix.row_syms($$r)
//@rewrite_opt unit_derivation[$$i] => *unit_derivation.0.index($$i)
//@rewrite_opt if let Some(&Some($x)) = translation.get($$k) => if let Some($x) = vx_entry_sym(&translation, $$k)
//@rewrite_opt rule.clone() => vx_clone_rule(rule)
//@rewrite_opt $x.rhs.to_vec() => vx_rc_to_vec(&$x.rhs)
//@rewrite_opt rhs.into() => vx_rc(rhs.as_slice())
//@rewrite_opt vec![] => Vec::<CfgRule>::new()
//@rewrite_opt translation.get(&sym).copied().flatten().unwrap_or(sym) => vx_sym_or(vx_entry_sym(&translation, &sym), sym)
//@rewrite_opt let translate = |sym: Symbol| $$b; => let translate = vx_sym_fn(|sym: Symbol| -> (r: Symbol) ensures r == rep(translation@, sym) { $$b });
//@rewrite_opt grammar.roots().iter().copied().map(translate).collect() => vx_map_syms(grammar.roots(), &translate)
//@rewrite_opt grammar.set_roots(roots) => grammar.set_roots(roots.as_slice())
//@rewrite_opt grammar.wrapped_roots().to_vec() => vx_wrapped_to_vec(grammar.wrapped_roots())
//@rewrite_opt &wrapped_roots[..] => wrapped_roots.as_slice()
//@rewrite_opt self.grammar.borrow_mut() => (&mut self.grammar)
//@rewrite_opt self.grammar.borrow() => (&self.grammar)
//@for 1 value
//@for 2 value
//@for 5 value
//@loops for for for for for for for
//@attr #[verifier::loop_isolation(false)]
    requires old(self).exact(old(self).grammar.rules@, old(self).grammar.n()), old(self).grammar.wf(), rules_fit(old(self).grammar),
    ensures
        without_cycle(old(self).grammar.rules@, old(self).grammar.n()) ==> final(self).grammar == old(self).grammar,
        exists|rho: Rep| #[trigger] rewritten(old(self).grammar, final(self).grammar, rho),
//@at begin
    let ghost g = self.grammar;
    let ghost rs = g.rules@;
    let ghost n = g.n();
    let ghost ud = self.unit_derivation;
    let ghost k = selected(rs, keep_of(rs));
    let ghost mut rho0: Rep = |s: Symbol| s;
//@at loop0.pre
    proof { assert(names_ok(rs, n, translation@)); assert(rs.take(0) =~= Seq::empty()); }
//@loop 0
    invariant
        __i0 <= __s0.len(),
        __s0@ == rs, row@.len() == n, names_ok(rs, n, translation@), done(rs, translation@, __i0 as int),
        same_but_rules(self.grammar, g), self.unit_derivation == ud, *unit_derivation == ud,
        self.grammar.rules@ == selected(rs.take(__i0 as int), keep_of(rs)),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost i = __i0 as int - 1;
    let ghost m0 = translation@;
    proof {
        broadcast use axiom_symbol_ord;
        assert(rs.take(i + 1).drop_last() =~= rs.take(i));
        assert(rs.take(i + 1).last() == rs[i]);
        assert(rule_in(rs[i], n));
        if rs[i].rhs@.len() == 1 { assert(rs[i].rhs@[0].raw < n); }
        if cyclical(rs, rs[i]) { lemma_cyclical_self(rs, i); }
    }
//@at loop1.pre
    let ghost l = rule.lhs;
//@loop 1
    invariant
        __i1 <= __s1.len(),
        row@.len() == n, __s1@.len() == n,
        forall|j: int| 0 <= j < n ==> #[trigger] __s1@[j] == (ud.0.bit_matrix.at(l.ix(), j), sym_of(j)),
        forall|j: int| 0 <= j < __i1 ==> #[trigger] row@[j] == (chained(rs, l, sym_of(j)) && chained(rs, sym_of(j), l)),
    decreases __s1.len() - __i1,
//@at loop1.begin
    proof {
        let j = __i1 as int - 1;
        assert(sym_of(j).ix() == j);
        assert(ud.0.has(l, sym_of(j)) == chained(rs, l, sym_of(j)));
        assert(ud.0.has(sym_of(j), l) == chained(rs, sym_of(j), l));
    }
//@at loop2.pre
    proof {
        broadcast use axiom_symbol_ord;
        lemma_listed(row@, n);
        assert(__s2@.take(0) =~= Seq::empty());
    }
//@loop 2
    invariant
        __i2 <= __s2.len(),
        row@.len() == n, __s2@ == listed(row@, n),
        forall|s: Symbol| #[trigger] translation@.contains_key(s) == (m0.contains_key(s) || __s2@.take(__i2 as int).contains(s)),
        forall|s: Symbol| #[trigger] translation@.contains_key(s) ==> translation@[s] == (if __s2@.take(__i2 as int).contains(s) { Some(l) } else { m0[s] }),
    decreases __s2.len() - __i2,
//@at loop2.begin
    proof {
        broadcast use axiom_symbol_ord;
        lemma_take_contains(__s2@, __i2 as int - 1);
    }
//@at loop2.post
    proof {
        assert(__s2@.take(__s2@.len() as int) =~= __s2@);
        assert forall|s: Symbol| __s2@.contains(s) == (s.raw < n && chained(rs, l, s) && chained(rs, s, l)) by {
            if s.raw < n { assert(sym_of(s.ix()) == s); assert(row@[s.ix()] == (chained(rs, l, sym_of(s.ix())) && chained(rs, sym_of(s.ix()), l))); }
        }
        lemma_class(rs, n, m0, translation@.insert(l, None), l);
    }
//@at loop0.post
    proof {
        assert(rs.take(rs.len() as int) =~= rs);
        assert(self.grammar.rules@ == k);
        lemma_names_rep(rs, n, translation@);
    }
    let ghost m = translation@;
    let ghost rho = rep_of(m);
    proof { rho0 = rho; }
    let ghost um = unmoved_of(k, rho);
    let ghost mv = moved_of(k, rho);
//@at loop3.pre
    proof { assert(k.take(0) =~= Seq::empty()); }
//@loop 3
    invariant
        __i3 <= __s3.len(),
        __s3@ == k, translation@ == m,
        same_but_rules(self.grammar, g), self.unit_derivation == ud,
        self.grammar.rules@ == selected(k.take(__i3 as int), um),
        rewritten_rules@.len() == selected(k.take(__i3 as int), mv).len(),
        forall|j: int| 0 <= j < rewritten_rules@.len() ==> renamed(selected(k.take(__i3 as int), mv)[j], #[trigger] rewritten_rules@[j], rho),
    decreases __s3.len() - __i3,
//@at loop3.begin
    let ghost i = __i3 as int - 1;
    proof {
        assert(k.take(i + 1).drop_last() =~= k.take(i));
        assert(k.take(i + 1).last() == k[i]);
        assert(um[i] == unmoved(k[i], rho) && mv[i] == !unmoved(k[i], rho));
        assert forall|s: Symbol| m.contains_key(s) && m[s] is Some implies #[trigger] rho(s) != s by {}
    }
//@loop 4
    invariant
        __i4 <= rhs.len(),
        rhs@.len() == rule.rhs@.len(), new_rule.lhs == rho(rule.lhs), translation@ == m, new_rule.history == rule.history,
        forall|j: int| 0 <= j < __i4 ==> #[trigger] rhs@[j] == rho(rule.rhs@[j]),
        forall|j: int| __i4 <= j < rhs@.len() ==> #[trigger] rhs@[j] == rule.rhs@[j],
        changed == !(rho(rule.lhs) == rule.lhs && forall|j: int| 0 <= j < __i4 ==> rho(#[trigger] rule.rhs@[j]) == rule.rhs@[j]),
    decreases rhs.len() - __i4,
//@at loop4.post
    proof {
        assert(rhs@ =~= map_rep(rho, rule.rhs@));
        assert(changed == !unmoved(*rule, rho));
    }
//@at loop5.pre
    proof { assert(k.take(k.len() as int) =~= k); }
    let ghost a = self.grammar.rules@;
    let ghost b = selected(k, mv);
//@loop 5
    invariant
        __i5 <= __s5.len(),
        __s5@.len() == b.len(), translation@ == m,
        forall|j: int| 0 <= j < b.len() ==> renamed(b[j], #[trigger] __s5@[j], rho),
        self.grammar.same_rest(g), self.grammar.n() == n,
        self.grammar.rules@.len() == a.len() + __i5, self.grammar.rules@.take(a.len() as int) == a,
        forall|j: int| 0 <= j < __i5 ==> renamed(b[j], #[trigger] self.grammar.rules@[a.len() + j], rho),
    decreases __s5.len() - __i5,
//@at loop5.begin
    let ghost g5 = self.grammar;
    let ghost j5 = __i5 as int - 1;
    proof {
        assert(renamed(b[j5], __s5@[j5], rho));
        lemma_selected2(k, mv);
        lemma_selected2(rs, keep_of(rs));
        assert(b.contains(b[j5]));
        let y = choose|y: int| 0 <= y < k.len() && #[trigger] k[y] == b[j5] && mv[y];
        assert(k.contains(k[y]));
        let z = choose|z: int| 0 <= z < rs.len() && #[trigger] rs[z] == k[y] && keep_of(rs)[z];
        assert(rule_fits(g, rs[z]));
        lemma_chain_len(__s5@[j5].lhs, __s5@[j5].rhs@, n, g.limit());
    }
//@at loop5.end
    proof {
        let p = added_prods(g5, __s5@[j5].lhs, __s5@[j5].rhs@);
        assert(p.len() == 1);
        let r = self.grammar.rules@;
        assert(prod_seq(r).len() == r.len());
        assert(r.len() == g5.rules@.len() + 1);
        assert(prod_seq(r)[r.len() - 1] == p[0]);
        assert(prod_of(r[r.len() - 1]) == prod_of(__s5@[j5]));
        assert(r.take(g5.rules@.len() as int) == g5.rules@);
        assert(r.take(a.len() as int) =~= g5.rules@.take(a.len() as int));
        assert forall|j: int| 0 <= j < j5 + 1 implies renamed(b[j], #[trigger] r[a.len() + j], rho) by {
            if j < j5 { assert(r[a.len() + j] == r.take(g5.rules@.len() as int)[a.len() + j]); assert(renamed(b[j], g5.rules@[a.len() + j], rho)); }
            else { assert(r[a.len() + j].history == __s5@[j5].history); }
        }
    }
//@at loop5.post
    let ghost g6 = self.grammar;
    proof { assert(merged(rs, g6.rules@, rho)); }
//@at loop6.pre
    let ghost g7 = *grammar;
    proof { assert(g7.roots@ =~= map_rep(rho, g.roots@)); }
//@loop 6
    invariant
        __i6 <= wrapped_roots.len(),
        wrapped_roots@.len() == g.wrapped_roots@.len(), *grammar == g7,
        forall|j: int| 0 <= j < __i6 ==> #[trigger] wrapped_roots@[j] == map_wrapped(rho, g.wrapped_roots@[j]),
        forall|j: int| __i6 <= j < wrapped_roots@.len() ==> #[trigger] wrapped_roots@[j] == g.wrapped_roots@[j],
        forall|x: Symbol| call_requires(translate, (x,)), forall|x: Symbol, y: Symbol| call_ensures(translate, (x,), y) ==> y == rho(x),
    decreases wrapped_roots.len() - __i6,
//@at end
    proof {
        if without_cycle(rs, n) {
            let rho = |s: Symbol| s;
            lemma_no_merge(g);
            assert(rewritten(g, self.grammar, rho));
        } else {
            assert(rewritten(g, self.grammar, rho0));
        }
    }
//@end
//@fn cfg-classify/src/cyclical.rs Cycles::cycle_participants
//@impl impl Cycles
//@sig impl Iterator<Item = &CfgRule> + '_ => Vec<CfgRule>
//@rewrite_opt self.classify().filter_map(move |($r, $c)| $$b) => { let vx_c = self.classify(); let mut vx_out: Vec<CfgRule> = Vec::new(); for vx_p in vx_c.iter() { let $r = vx_clone_rule(&vx_p.0); let $c = vx_p.1; let vx_r: Option<CfgRule> = $$b; if let Some(vx_x) = vx_r { vx_out.push(vx_x); } } vx_out }
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires self.exact(self.grammar.rules@, self.grammar.n()), self.grammar.wf(),
    ensures ret@ == selected(self.grammar.rules@, kind_of(self.grammar.rules@, get_cyclical)),
//@at begin
    let ghost rs = self.grammar.rules@;
    proof { assert(rs.take(0) =~= Seq::empty()); }
//@loop 0
    invariant
        __i0 <= __s0.len(), __s0@.len() == rs.len(),
        forall|i: int| 0 <= i < rs.len() ==> #[trigger] __s0@[i] == (rs[i], cyclical(rs, rs[i])),
        vx_out@ == selected(rs.take(__i0 as int), kind_of(rs, get_cyclical)),
    decreases __s0.len() - __i0,
//@at loop0.begin
    proof {
        let i = __i0 as int - 1;
        assert(rs.take(i + 1).drop_last() =~= rs.take(i));
        assert(rs.take(i + 1).last() == rs[i]);
        assert(__s0@[i] == (rs[i], cyclical(rs, rs[i])));
    }
//@at loop0.post
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@end
pub open spec fn kind_of(rs: Seq<CfgRule>, c: bool) -> Seq<bool> { Seq::new(rs.len(), |i: int| cyclical(rs, rs[i]) == c) }
/// What G12 says of `rewrite_cycles`: there is no cycle left, and every root and every symbol that is not merged
/// derives the same strings of symbols that are not merged; terminals are not merged.
pub proof fn lemma_rewritten(g: Cfg, h: Cfg, rho: Rep)
    requires g.wf(), rewritten(g, h, rho),
    ensures
        without_cycle(h.rules@, h.n()),
        forall|s: Symbol| s.raw < g.n() && !is_lhs(g.rules@, s) ==> #[trigger] rho(s) == s,
        forall|s: Symbol, w: Seq<Symbol>| s.raw < g.n() && below(w, g.n()) && map_rep(rho, w) == w ==>
            (#[trigger] der(prods(g.rules@), seq![s], w) <==> der(prods(h.rules@), seq![rho(s)], w)),
        forall|i: int, w: Seq<Symbol>| 0 <= i < g.roots@.len() && g.roots@[i].raw < g.n() && below(w, g.n()) && map_rep(rho, w) == w ==>
            (#[trigger] der(prods(g.rules@), seq![g.roots@[i]], w) <==> der(prods(h.rules@), seq![h.roots@[i]], w)),
{
    let rs = g.rules@; let n = g.n();
    lemma_merged_acyclic(rs, h.rules@, n, rho);
    assert forall|s: Symbol| s.raw < n && !is_lhs(rs, s) implies #[trigger] rho(s) == s by {
        if rho(s) != s {
            assert(mutual(rs, s, rho(s)));
            let e = rho(s).ix();
            let k = choose|k: nat| k >= 1 && steps(unit(rs), s.ix(), e, k);
            let m = choose|m: int| #[trigger] unit(rs)(s.ix(), m) && steps(unit(rs), m, e, (k - 1) as nat);
            let z = choose|z: int| 0 <= z < rs.len() && unit_step(#[trigger] rs[z], s.ix(), m);
            assert(rs[z].lhs == s);
        }
    }
    assert forall|s: Symbol, w: Seq<Symbol>| s.raw < n && below(w, n) && map_rep(rho, w) == w implies
        (#[trigger] der(prods(rs), seq![s], w) <==> der(prods(h.rules@), seq![rho(s)], w)) by {
        lemma_merged_lang(rs, h.rules@, n, rho, seq![s], w);
        assert(map_rep(rho, seq![s]) =~= seq![rho(s)]);
    }
    assert forall|i: int, w: Seq<Symbol>| 0 <= i < g.roots@.len() && g.roots@[i].raw < g.n() && below(w, g.n()) && map_rep(rho, w) == w implies
        (#[trigger] der(prods(g.rules@), seq![g.roots@[i]], w) <==> der(prods(h.rules@), seq![h.roots@[i]], w)) by {
        assert(map_rep(rho, g.roots@)[i] == h.roots@[i]);
    }
}
