// G16: wrapping the input.
// TRUSTED: SymbolSource::with_names (three names), binary search.
impl SymbolSource {
    #[verifier::external_body]
    pub fn with_names3(&mut self) -> (r: (Symbol, Symbol, Symbol))
        ensures
            r.0.raw == old(self).n(), r.1.raw == old(self).n() + 1, r.2.raw == old(self).n() + 2,
            final(self).n() == old(self).n() + 3,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_search(v: &Vec<Symbol>, x: &Symbol) -> (r: bool)
    requires forall|i: int, j: int| 0 <= i <= j < v@.len() ==> v@[i].raw <= v@[j].raw,
    ensures r == v@.contains(*x),
{ v.binary_search(x).is_ok() }
#[verifier::external_body]
pub fn vx_clone_syms(v: &Vec<Symbol>) -> (r: Vec<Symbol>)
    ensures r@ == v@,
{ v.clone() }

pub open spec fn stride(k: int) -> int { if k == 2 { 4 } else { 3 } }
pub open spec fn wrap_root(n: int, k: int, i: int) -> int { if k == 2 { n + 4 * i } else { n + 3 * i } }
pub open spec fn wrap_prods(roots: Seq<Symbol>, n: int, k: int, i: int) -> Seq<Prod>
    decreases i,
{
    if i <= 0 { Seq::empty() } else {
        let b = wrap_root(n, k, i - 1);
        wrap_prods(roots, n, k, i - 1) + chain(sym_of(b), seq![sym_of(b + 1), roots[i - 1], sym_of(b + 2)], b + 3, k)
    }
}
/// Without a limit below three, exactly one rule for each root.
pub proof fn lemma_wrap_one_rule_each(roots: Seq<Symbol>, n: int, k: int, i: int)
    requires k >= 3, 0 <= i <= roots.len(),
    ensures
        wrap_prods(roots, n, k, i).len() == i,
        forall|j: int| 0 <= j < i ==> #[trigger] wrap_prods(roots, n, k, i)[j] == (Prod { l: sym_of(n + 3 * j), r: seq![sym_of(n + 3 * j + 1), roots[j], sym_of(n + 3 * j + 2)] }),
    decreases i,
{
    if i > 0 { lemma_wrap_one_rule_each(roots, n, k, i - 1); }
}
//@fn cfg-grammar/src/cfg.rs Cfg::wrap_input
//@rewrite_opt mem::replace(&mut self.roots, MaybeSmallVec::with_capacity(roots_len)) => vx_mem_take(&mut self.roots)
//@rewrite let [root, start_of_input, end_of_input] = self.sym_source.with_names($$a); => let (root, start_of_input, end_of_input) = self.sym_source.with_names3();
//@rewrite_opt [$a, $b, $c].into() => vx_rc(&[$a, $b, $c])
//@rewrite_opt RootHistoryNode::Rule { $$f }.into() => History::from_root(RootHistoryNode::Rule { $$f })
//@for 0 value
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires old(self).limit() >= 2, !old(self).eliminate_nulling,
    ensures
        final(self).roots@.len() == old(self).roots@.len(),
        final(self).wrapped_roots@.len() == old(self).roots@.len(),
        forall|i: int| 0 <= i < old(self).roots@.len() ==> (#[trigger] final(self).roots@[i]).raw == wrap_root(old(self).n(), old(self).limit(), i),
        forall|i: int| 0 <= i < old(self).roots@.len() ==> {
            let b = wrap_root(old(self).n(), old(self).limit(), i);
            let w = #[trigger] final(self).wrapped_roots@[i];
            w.root.raw == b && w.start_of_input.raw == b + 1 && w.end_of_input.raw == b + 2 && w.inner_root == old(self).roots@[i]
        },
        prod_seq(final(self).rules@) == prod_seq(old(self).rules@) + wrap_prods(old(self).roots@, old(self).n(), old(self).limit(), old(self).roots@.len() as int),
        final(self).rules@.take(old(self).rules@.len() as int) == old(self).rules@,
        final(self).n() == wrap_root(old(self).n(), old(self).limit(), old(self).roots@.len() as int),
        final(self).lexemes == old(self).lexemes, final(self).rhs_len_invariant == old(self).rhs_len_invariant,
        final(self).eliminate_nulling == old(self).eliminate_nulling,
//@at begin
    let ghost rs0 = self.rules@;
    let ghost n0 = self.n();
    let ghost k = self.limit();
    let ghost rt = self.roots@;
//@at loop0.pre
    proof {
        assert(prod_seq(self.rules@) =~= prod_seq(rs0) + wrap_prods(rt, n0, k, 0));
        assert(self.rules@.take(rs0.len() as int) =~= rs0);
    }
//@loop 0
    invariant
        0 <= __i0 <= __s0@.len(), self.limit() == k, self.rhs_len_invariant == old(self).rhs_len_invariant, !self.eliminate_nulling,
        self.lexemes == old(self).lexemes,
        self.roots@.len() == __i0, self.wrapped_roots@.len() == __i0,
        self.n() == wrap_root(n0, k, __i0 as int),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.roots@[i]).raw == wrap_root(n0, k, i),
        forall|i: int| 0 <= i < __i0 ==> {
            let b = wrap_root(n0, k, i);
            let w = #[trigger] self.wrapped_roots@[i];
            w.root.raw == b && w.start_of_input.raw == b + 1 && w.end_of_input.raw == b + 2 && w.inner_root == rt[i]
        },
        self.rules@.len() >= rs0.len(),
        prod_seq(self.rules@) == prod_seq(rs0) + wrap_prods(rt, n0, k, __i0 as int),
        self.rules@.take(rs0.len() as int) == rs0,
    decreases __s0@.len() - __i0,
//@at loop0.begin
    let ghost r1 = self.rules@;
//@at loop0.end
    proof {
        let b = wrap_root(n0, k, __i0 as int - 1);
        let s = seq![sym_of(b + 1), rt[__i0 as int - 1], sym_of(b + 2)];
        let c = chain(sym_of(b), s, b + 3, k);
        assert([start_of_input, inner_root, end_of_input]@ =~= s);
        assert(prod_seq(self.rules@) == prod_seq(r1) + c);
        assert(prod_seq(self.rules@).len() == self.rules@.len() && prod_seq(r1).len() == r1.len());
        if k == 2 {
            assert((seq![sym_of(b + 3)] + s.skip(2)).len() == 2);
            reveal_with_fuel(chain, 3);
            assert(c.len() == 2);
        } else { assert(c.len() == 1); }
        assert(prod_seq(self.rules@) =~= prod_seq(rs0) + wrap_prods(rt, n0, k, __i0 as int));
        assert(self.rules@.take(rs0.len() as int) =~= r1.take(rs0.len() as int)) by {
            assert forall|i: int| 0 <= i < rs0.len() implies self.rules@[i] == r1[i] by { assert(self.rules@.take(r1.len() as int)[i] == r1[i]); }
        }
    }
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::is_empty
//@rewrite_opt self.roots.clone() => vx_clone_syms(&self.roots)
//@rewrite_opt roots.sort() => vx_sort(&mut roots)
//@rewrite self.rules().all(|rule| $$b) => vx_all(self.rules.as_slice(), |rule: &CfgRule| -> (r: bool) ensures r == roots@.contains(rule.lhs) { $$b })
//@rewrite_opt $v.binary_search($$x).is_ok() => vx_search(&$v, $$x)
    ensures
        self.wrapped_roots@.len() == 0 ==> ret == (self.rules@.len() == 0),
        self.wrapped_roots@.len() > 0 ==> ret == (forall|i: int| 0 <= i < self.rules@.len() ==> self.roots@.contains((#[trigger] self.rules@[i]).lhs)),
//@end
