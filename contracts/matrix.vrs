// G13: relations between symbols as bit matrices.
pub type Rel = spec_fn(int, int) -> bool;
/// `k` steps of `r` lead from `i` to `j`.
pub open spec fn steps(r: Rel, i: int, j: int, k: nat) -> bool
    decreases k,
{
    if k == 0 { i == j } else { exists|m: int| #[trigger] r(i, m) && steps(r, m, j, (k - 1) as nat) }
}
/// One or more steps.
pub open spec fn path(r: Rel, i: int, j: int) -> bool { exists|k: nat| k >= 1 && steps(r, i, j, k) }
pub proof fn lemma_steps_eq(r: Rel, q: Rel, i: int, j: int, k: nat)
    requires forall|a: int, b: int| #[trigger] r(a, b) == q(a, b),
    ensures steps(r, i, j, k) == steps(q, i, j, k),
    decreases k,
{
    if k > 0 {
        if steps(r, i, j, k) {
            let m = choose|m: int| #[trigger] r(i, m) && steps(r, m, j, (k - 1) as nat);
            assert(q(i, m));
            lemma_steps_eq(r, q, m, j, (k - 1) as nat);
        }
        if steps(q, i, j, k) {
            let m = choose|m: int| #[trigger] q(i, m) && steps(q, m, j, (k - 1) as nat);
            assert(r(i, m));
            lemma_steps_eq(r, q, m, j, (k - 1) as nat);
        }
    }
}
pub proof fn lemma_path_eq(r: Rel, q: Rel)
    requires forall|a: int, b: int| #[trigger] r(a, b) == q(a, b),
    ensures forall|i: int, j: int| path(r, i, j) == path(q, i, j),
{
    assert forall|i: int, j: int| path(r, i, j) == path(q, i, j) by {
        if path(r, i, j) { let k = choose|k: nat| k >= 1 && steps(r, i, j, k); lemma_steps_eq(r, q, i, j, k); }
        if path(q, i, j) { let k = choose|k: nat| k >= 1 && steps(q, i, j, k); lemma_steps_eq(r, q, i, j, k); }
    }
}
pub broadcast proof fn lemma_path_ext(r: Rel, q: Rel, i: int, j: int)
    ensures #![trigger path(r, i, j), path(q, i, j)] (forall|a: int, b: int| #[trigger] r(a, b) == q(a, b)) ==> path(r, i, j) == path(q, i, j),
{
    if forall|a: int, b: int| #[trigger] r(a, b) == q(a, b) { lemma_path_eq(r, q); }
}
// ---- TRUSTED: bit_matrix::BitMatrix as a relation between row and column numbers.
#[verifier::external_body]
pub struct BitMatrix { x: u8 }
impl BitMatrix {
    pub uninterp spec fn rows(&self) -> int;
    pub uninterp spec fn cols(&self) -> int;
    pub uninterp spec fn at(&self, i: int, j: int) -> bool;
    pub open spec fn rel(&self) -> Rel { |i: int, j: int| 0 <= i < self.rows() && 0 <= j < self.cols() && self.at(i, j) }
    // (A matrix without columns has no rows.)
    #[verifier::external_body]
    pub fn new(rows: usize, cols: usize) -> (r: Self)
        ensures r.rows() == (if cols == 0 { 0 } else { rows as int }), r.cols() == cols, forall|i: int, j: int| !(#[trigger] r.at(i, j)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, row: usize, col: usize, enabled: bool)
        requires row < old(self).rows(), col < old(self).cols(),
        ensures
            final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            forall|i: int, j: int| #[trigger] final(self).at(i, j) == (if i == row && j == col { enabled } else { old(self).at(i, j) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, row: usize, col: usize) -> (r: bool)
        requires row < self.rows(), col < self.cols(),
        ensures r == self.at(row as int, col as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: (usize, usize))
        ensures r.0 == self.rows(), r.1 == self.cols(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn transitive_closure(&mut self)
        requires old(self).rows() == old(self).cols(),
        ensures
            final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            forall|i: int, j: int| #[trigger] final(self).at(i, j) == path(old(self).rel(), i, j),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reflexive_closure(&mut self)
        ensures
            final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            forall|i: int, j: int| #[trigger] final(self).at(i, j) == (old(self).at(i, j) || (i == j && 0 <= i < old(self).rows() && i < old(self).cols())),
    { unimplemented!() }
    // `iter_row`, as the bits of the row.
    #[verifier::external_body]
    pub fn row(&self, row: usize) -> (r: BitVec)
        requires row < self.rows(),
        ensures r@.len() == self.cols(), forall|j: int| 0 <= j < self.cols() ==> #[trigger] r@[j] == self.at(row as int, j),
    { unimplemented!() }
}
//@struct cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs SymbolBitMatrix
//@struct cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs DirectDerivationMatrix
//@struct cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs ReachabilityMatrix
//@struct cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs UnitDerivationMatrix
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs Deref for SymbolBitMatrix::deref :: &self.bit_matrix
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs DerefMut for SymbolBitMatrix::deref_mut :: &mut self.bit_matrix
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs Deref for DirectDerivationMatrix::deref :: &self.0
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs DerefMut for DirectDerivationMatrix::deref_mut :: &mut self.0
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs Deref for ReachabilityMatrix::deref :: &self.0
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs DerefMut for ReachabilityMatrix::deref_mut :: &mut self.0
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs Deref for UnitDerivationMatrix::deref :: &self.0
//@bodyis cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs DerefMut for UnitDerivationMatrix::deref_mut :: &mut self.0
//@contains cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs static TRUE: bool = true;
//@contains cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs static FALSE: bool = false;
impl SymbolBitMatrix {
    /// A relation between `n` symbols.
    pub open spec fn sq(self, n: int) -> bool { self.bit_matrix.rows() == n && self.bit_matrix.cols() == n }
    pub open spec fn has(self, a: Symbol, b: Symbol) -> bool { self.bit_matrix.at(a.ix(), b.ix()) }
}
/// `b` occurs in a rule of `a`.
pub open spec fn direct(rs: Seq<CfgRule>) -> Rel {
    |a: int, b: int| exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs.ix() == a && rs[i].has(sym_of(b)) && 0 <= b <= u32::MAX
}
/// `a` has a single-symbol rule to another symbol `b`.
pub open spec fn unit_step(r: CfgRule, a: int, b: int) -> bool {
    r.rhs@.len() == 1 && r.lhs.ix() == a && r.rhs@[0].ix() == b && a != b
}
pub open spec fn unit(rs: Seq<CfgRule>) -> Rel {
    |a: int, b: int| exists|i: int| 0 <= i < rs.len() && unit_step(#[trigger] rs[i], a, b)
}
pub proof fn lemma_direct_take(rs: Seq<CfgRule>, k: int)
    requires 0 <= k < rs.len(),
    ensures
        forall|a: int, b: int| #[trigger] direct(rs.take(k + 1))(a, b) == (direct(rs.take(k))(a, b) || (rs[k].lhs.ix() == a && rs[k].has(sym_of(b)) && 0 <= b <= u32::MAX)),
        forall|a: int, b: int| #[trigger] unit(rs.take(k + 1))(a, b) == (unit(rs.take(k))(a, b) || unit_step(rs[k], a, b)),
{
    let s = rs.take(k + 1); let t = rs.take(k);
    assert(s[k] == rs[k]);
    assert(forall|i: int| 0 <= i < k ==> s[i] == t[i]);
    assert forall|a: int, b: int| #[trigger] direct(s)(a, b) == (direct(t)(a, b) || (rs[k].lhs.ix() == a && rs[k].has(sym_of(b)) && 0 <= b <= u32::MAX)) by {
        if direct(s)(a, b) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lhs.ix() == a && s[i].has(sym_of(b)); if i < k { assert(t[i] == s[i]); } }
        if direct(t)(a, b) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).lhs.ix() == a && t[i].has(sym_of(b)); assert(s[i] == t[i]); }
    }
    assert forall|a: int, b: int| #[trigger] unit(s)(a, b) == (unit(t)(a, b) || unit_step(rs[k], a, b)) by {
        if unit(s)(a, b) { let i = choose|i: int| 0 <= i < s.len() && unit_step(#[trigger] s[i], a, b); if i < k { assert(t[i] == s[i]); } }
        if unit(t)(a, b) { let i = choose|i: int| 0 <= i < t.len() && unit_step(#[trigger] t[i], a, b); assert(s[i] == t[i]); }
    }
}
pub proof fn lemma_no_step(rs: Seq<CfgRule>)
    requires rs.len() == 0,
    ensures forall|a: int, b: int| !(#[trigger] direct(rs)(a, b)), forall|a: int, b: int| !(#[trigger] unit(rs)(a, b)),
{}
/// Steps stay among the symbols of the grammar.
pub proof fn lemma_direct_in(rs: Seq<CfgRule>, n: int)
    requires rules_in(rs, n),
    ensures
        forall|a: int, b: int| #[trigger] direct(rs)(a, b) ==> 0 <= a < n && 0 <= b < n,
        forall|a: int, b: int| #[trigger] unit(rs)(a, b) ==> 0 <= a < n && 0 <= b < n,
{
    assert forall|a: int, b: int| #[trigger] direct(rs)(a, b) implies 0 <= a < n && 0 <= b < n by {
        let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs.ix() == a && rs[i].has(sym_of(b));
        assert(rule_in(rs[i], n));
        let j = choose|j: int| 0 <= j < rs[i].rhs@.len() && rs[i].rhs@[j] == sym_of(b);
        assert(rs[i].rhs@[j].raw < n);
    }
    assert forall|a: int, b: int| #[trigger] unit(rs)(a, b) implies 0 <= a < n && 0 <= b < n by {
        let i = choose|i: int| 0 <= i < rs.len() && unit_step(#[trigger] rs[i], a, b);
        assert(rule_in(rs[i], n));
        assert(rs[i].rhs@[0].raw < n);
    }
}
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs SymbolBitMatrix::new
    ensures ret.sq(num_syms as int), forall|a: Symbol, b: Symbol| !(#[trigger] ret.has(a, b)), forall|i: int, j: int| !(#[trigger] ret.bit_matrix.at(i, j)),
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs SymbolBitMatrix::set
    requires row.raw < old(self).bit_matrix.rows(), col.raw < old(self).bit_matrix.cols(),
    ensures
        final(self).bit_matrix.rows() == old(self).bit_matrix.rows(), final(self).bit_matrix.cols() == old(self).bit_matrix.cols(),
        forall|i: int, j: int| #[trigger] final(self).bit_matrix.at(i, j) == (if i == row.ix() && j == col.ix() { included } else { old(self).bit_matrix.at(i, j) }),
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs SymbolBitMatrix::iter_row_syms
//@sig impl Iterator<Item = Symbol> + '_ => Vec<Symbol>
//@rewrite $x.iter_row($$r).zip(SymbolSource::generate_fresh()).filter_map(|(present, sym)| $$b) => vx_filter_syms(&$x.row($$r), |present: bool, sym: Symbol| -> (r: Option<Symbol>) ensures r == (if present { Some(sym) } else { None::<Symbol> }) { $$b })
    requires row.raw < self.bit_matrix.rows(), self.bit_matrix.cols() <= u32::MAX,
    ensures forall|s: Symbol| ret@.contains(s) <==> (s.raw < self.bit_matrix.cols() && self.has(row, s)),
//@at begin
    proof {
        assert forall|b: Seq<bool>| b.len() == self.bit_matrix.cols() implies #[trigger] listed(b, b.len() as int) == listed(b, b.len() as int) && (forall|s: Symbol| listed(b, b.len() as int).contains(s) <==> (s.raw < b.len() && b[s.ix()])) by { lemma_listed(b, b.len() as int); }
    }
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs ops::Index<(Symbol, Symbol)> for SymbolBitMatrix::index
//@sig Self::Output => bool
//@rewrite $x.bit_matrix[($$i, $$j)] => $x.bit_matrix.get($$i, $$j)
//@rewrite TRUE => true
//@rewrite FALSE => false
    requires index.0.raw < self.bit_matrix.rows(), index.1.raw < self.bit_matrix.cols(),
    ensures *ret == self.has(index.0, index.1),
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs TryFrom<BitMatrix> for SymbolBitMatrix::try_from
//@sig Self::Error => ()
    ensures
        ret is Ok == (bit_matrix.rows() == bit_matrix.cols()),
        ret is Ok ==> ret->Ok_0.bit_matrix == bit_matrix,
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs From<DirectDerivationMatrix> for SymbolBitMatrix::from
//@name vx_from_direct
    ensures ret == value.0,
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs From<ReachabilityMatrix> for SymbolBitMatrix::from
//@name vx_from_reach
    ensures ret == value.0,
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs From<UnitDerivationMatrix> for SymbolBitMatrix::from
//@name vx_from_unit
    ensures ret == value.0,
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs ReachabilityMatrix::reflexive
//@rewrite_opt __self.reflexive_closure() => __self.0.bit_matrix.reflexive_closure()
    requires self.0.bit_matrix.rows() == self.0.bit_matrix.cols(),
    ensures
        ret.0.sq(self.0.bit_matrix.rows()),
        forall|a: Symbol, b: Symbol| a.raw < self.0.bit_matrix.rows() && b.raw < self.0.bit_matrix.rows() ==> #[trigger] ret.0.has(a, b) == (a == b || self.0.has(a, b)),
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs DirectDerivationMatrix::reachability
//@rewrite_opt __self.transitive_closure() => __self.0.bit_matrix.transitive_closure()
//@rewrite_opt __self.into() => SymbolBitMatrix::vx_from_direct(__self)
    requires self.0.bit_matrix.rows() == self.0.bit_matrix.cols(),
    ensures
        ret.0.sq(self.0.bit_matrix.rows()),
        forall|i: int, j: int| #[trigger] ret.0.bit_matrix.at(i, j) == path(self.0.bit_matrix.rel(), i, j),
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs CfgSymbolBitMatrixExt for Cfg::empty_matrix
    ensures ret.sq(self.n()), forall|i: int, j: int| !(#[trigger] ret.bit_matrix.at(i, j)),
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs CfgSymbolBitMatrixExt for Cfg::direct_derivation_matrix
//@rewrite_opt self.rules() => &self.rules
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires self.wf(),
    ensures
        ret.0.sq(self.n()),
        forall|i: int, j: int| #[trigger] ret.0.bit_matrix.at(i, j) == direct(self.rules@)(i, j),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == self.rules@, derivation.sq(self.n()),
        forall|i: int, j: int| #[trigger] derivation.bit_matrix.at(i, j) == direct(self.rules@.take(__i0 as int))(i, j),
    decreases __s0@.len() - __i0,
//@loop 1
    invariant
        0 < __i0 <= __s0@.len(), *rule == self.rules@[__i0 as int - 1], __i1 <= __s1@.len(), __s1@ == rule.rhs@, derivation.sq(self.n()),
        forall|i: int, j: int| #[trigger] derivation.bit_matrix.at(i, j) == (direct(self.rules@.take(__i0 as int - 1))(i, j) || (rule.lhs.ix() == i && 0 <= j <= u32::MAX && __s1@.take(__i1 as int).contains(sym_of(j)))),
    decreases __s1@.len() - __i1,
//@at loop1.pre
    proof { assert(rule_in(*rule, self.n())); }
//@at loop1.end
    proof { lemma_take_contains(__s1@, __i1 as int - 1); }
//@at loop1.post
    proof { assert(__s1@.take(__i1 as int) =~= rule.rhs@); }
//@at loop0.end
    proof { lemma_direct_take(self.rules@, __i0 as int - 1); }
//@at loop0.post
    proof { assert(self.rules@.take(__i0 as int) =~= self.rules@); }
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs CfgSymbolBitMatrixExt for Cfg::reachability_matrix
    requires self.wf(),
    ensures
        ret.0.sq(self.n()),
        forall|i: int, j: int| #[trigger] ret.0.bit_matrix.at(i, j) == path(direct(self.rules@), i, j),
//@at begin
    broadcast use lemma_path_ext;
    proof { lemma_direct_in(self.rules@, self.n()); }
//@end
//@fn cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs CfgSymbolBitMatrixExt for Cfg::unit_derivation_matrix
//@rewrite_opt self.rules() => &self.rules
//@rewrite_opt unit_derivation.transitive_closure() => unit_derivation.bit_matrix.transitive_closure()
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires self.wf(),
    ensures
        ret.0.sq(self.n()),
        forall|i: int, j: int| #[trigger] ret.0.bit_matrix.at(i, j) == path(unit(self.rules@), i, j),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == self.rules@, unit_derivation.sq(self.n()),
        forall|i: int, j: int| #[trigger] unit_derivation.bit_matrix.at(i, j) == unit(self.rules@.take(__i0 as int))(i, j),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    proof { assert(rule_in(self.rules@[__i0 as int - 1], self.n())); }
//@at loop0.end
    proof { lemma_direct_take(self.rules@, __i0 as int - 1); }
//@at loop0.post
    proof {
        assert(self.rules@.take(__i0 as int) =~= self.rules@);
        lemma_direct_in(self.rules@, self.n());
        let r = unit_derivation.bit_matrix.rel();
        lemma_path_eq(r, unit(self.rules@));
    }
//@end
