// Sequences and rules, asked for through the builders.
pub type Syms = spec_fn(Symbol) -> bool;
pub open spec fn all_in(s: Syms, u: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < u.len() ==> s(#[trigger] u[i]) }
pub open spec fn subset(p: ISet<Prod>, q: ISet<Prod>) -> bool { forall|x: Prod| #[trigger] p.contains(x) ==> q.contains(x) }
//@bodyis cfg-sequence/src/ext.rs CfgSequenceExt for Cfg::sequence :: SequencesToProductions::new(self).sequence(lhs)
//@bodyis cfg-sequence/src/rewrite.rs SequenceDestination for SequencesToProductions<'a>::add_sequence :: self.rewrite(seq);
pub open spec fn rep_seq(lhs: Symbol, rhs: Symbol, min: u32, max: Option<u32>) -> Sequence { Sequence { lhs: lhs, rhs: rhs, start: min, end: max, separator: Null, history: None } }
//@contains cfg-sequence/src/destination.rs SequenceRuleBuilder::new(self).sequence(lhs)
/// `cfg.sequence(lhs).inclusive(min, max).rhs(rhs)`: the builder hands this sequence to `rewrite`.
pub fn vx_sequence(g: &mut Cfg, lhs: Symbol, min: u32, max: Option<u32>, rhs: Symbol)
    requires
        old(g).limit() == usize::MAX, !old(g).eliminate_nulling, old(g).wf(),
        ctx_ok(ctx_of(*old(g), rep_seq(lhs, rhs, min, max))),
    ensures
        final(g).same_rest(*old(g)), keeps(old(g).rules@, final(g).rules@), new_lhs(ctx_of(*old(g), rep_seq(lhs, rhs, min, max)), old(g).rules@, final(g).rules@),
        rewrites_alone(ctx_of(*old(g), rep_seq(lhs, rhs, min, max)), prods(final(g).rules@)), rewrites_seq(ctx_of(*old(g), rep_seq(lhs, rhs, min, max)), prods(final(g).rules@)),
        subset(prods(old(g).rules@), prods(final(g).rules@)), prods_below(prods(final(g).rules@), final(g).n()), final(g).n() >= old(g).n(),
        forall|x: Prod| #[trigger] prods(final(g).rules@).contains(x) ==> prods(old(g).rules@).contains(x) || (x.l == lhs || x.l.raw >= old(g).n()) && own_syms(ctx_of(*old(g), rep_seq(lhs, rhs, min, max)), x.r),
{
    let ghost g0 = *g;
    let mut d = SequencesToProductions::new(g);
    let ghost d0 = d;
    d.rewrite(Sequence { lhs: lhs, rhs: rhs, start: min, end: max, separator: Null, history: None });
    proof {
        assert forall|x: Prod| #[trigger] prods(g0.rules@).contains(x) implies d.ps().contains(x) by { assert(d0.ps().contains(x)); }
        assert forall|x: Prod| #[trigger] d.ps().contains(x) implies prods(g0.rules@).contains(x) || (x.l == lhs || x.l.raw >= g0.n()) && own_syms(ctx_of(g0, rep_seq(lhs, rhs, min, max)), x.r) by { }
    }
}
/// A rule with a new left-hand side.
pub proof fn lemma_rule_added(a: Cfg, b: Cfg, l: Symbol, u: Seq<Symbol>)
    requires prod_seq(b.rules@) == prod_seq(a.rules@) + added_prods(a, l, u), a.limit() == usize::MAX, !a.eliminate_nulling, u.len() <= usize::MAX,
    ensures prods(b.rules@) == prods(a.rules@).insert(Prod { l: l, r: u }), added_prods(a, l, u).len() == 1,
{
    let x = Prod { l: l, r: u };
    assert(added_prods(a, l, u) =~= seq![x]);
    assert(prod_seq(a.rules@) + seq![x] =~= prod_seq(a.rules@).push(x));
    lemma_prods_push(a.rules@, b.rules@, x);
}
pub fn vx_extend(v: &mut Vec<Symbol>, u: &Vec<Symbol>)
    ensures final(v)@ == old(v)@ + u@,
{
    let ghost v0 = v@;
    let mut k: usize = 0;
    while k < u.len()
        invariant k <= u@.len(), v@ == v0 + u@.take(k as int),
        decreases u@.len() - k,
    {
        v.push(u[k]);
        proof { assert(v@ =~= v0 + u@.take(k + 1)); }
        k = k + 1;
    }
    proof { assert(u@.take(k as int) =~= u@); }
}
pub fn vx_rule(g: &mut Cfg, lhs: Symbol, rhs: &[Symbol])
    requires old(g).limit() == usize::MAX, !old(g).eliminate_nulling, rhs@.len() < u32::MAX,
    ensures final(g).same_rest(*old(g)), final(g).n() == old(g).n(), prods(final(g).rules@) == prods(old(g).rules@).insert(Prod { l: lhs, r: rhs@ }),
{
    let ghost g0 = *g;
    RuleBuilder::new(g).rule(lhs).rhs(rhs);
    proof {
        lemma_rule_added(g0, *g, lhs, rhs@);
        assert(prod_seq(g.rules@).len() == g.rules@.len() && prod_seq(g0.rules@).len() == g0.rules@.len());
    }
}
//@bodyis cfg-grammar/src/cfg.rs Cfg::rule :: RuleBuilder::new(self).rule(lhs)
pub fn vx_sym(s: Symbol) -> (r: Vec<Symbol>)
    ensures r@ == seq![s],
{
    let mut r: Vec<Symbol> = Vec::new();
    r.push(s);
    assert(r@ =~= seq![s]);
    r
}
