// Types of cfg-grammar, extracted.
//@include history_types.vrs
//@struct cfg-grammar/src/cfg.rs CfgRule
//@struct cfg-grammar/src/cfg.rs WrappedRoot #[derive(Clone,Copy)]
//@struct cfg-grammar/src/cfg.rs RhsPropertyMode #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-grammar/src/symbol_bit_set.rs SymbolBitSet
//@struct cfg-grammar/src/cfg.rs Cfg drop=tmp_stack
//@ty MaybeSmallVec => Vec

impl CfgRule {
    pub open spec fn has(self, s: Symbol) -> bool { self.rhs@.contains(s) }
}
impl Cfg {
    pub open spec fn n(self) -> int { self.sym_source.n() }
    /// Every symbol in a rule comes from the grammar's own symbol source.
    pub open spec fn wf(self) -> bool { rules_in(self.rules@, self.n()) }
}
pub open spec fn rule_in(r: CfgRule, n: int) -> bool {
    r.lhs.raw < n && forall|j: int| 0 <= j < r.rhs@.len() ==> (#[trigger] r.rhs@[j]).raw < n
}
pub open spec fn rules_in(rs: Seq<CfgRule>, n: int) -> bool {
    forall|i: int| 0 <= i < rs.len() ==> rule_in(#[trigger] rs[i], n)
}
pub open spec fn occurs(rs: Seq<CfgRule>, s: Symbol) -> bool {
    exists|i: int| 0 <= i < rs.len() && ((#[trigger] rs[i]).lhs == s || rs[i].has(s))
}
pub open spec fn is_lhs(rs: Seq<CfgRule>, s: Symbol) -> bool {
    exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == s
}
pub open spec fn is_nulling(rs: Seq<CfgRule>, s: Symbol) -> bool {
    exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == s && rs[i].rhs@.len() == 0
}
impl View for SymbolBitSet {
    type V = Seq<bool>;
    open spec fn view(&self) -> Seq<bool> { self.bit_vec@ }
}
impl SymbolBitSet {
    pub open spec fn has(self, s: Symbol) -> bool { s.raw < self@.len() && self@[s.ix()] }
}

//@bodyis cfg-grammar/src/cfg.rs Cfg::rules :: self.rules.iter()
//@contains cfg-grammar/src/symbol_bit_set.rs static TRUE: bool = true;
//@contains cfg-grammar/src/symbol_bit_set.rs static FALSE: bool = false;
//@fn cfg-grammar/src/cfg.rs Cfg::sym_source
    ensures ret == &self.sym_source,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::num_syms
    ensures ret == self.n(),
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::roots
//@rewrite_opt &self.roots[..] => self.roots.as_slice()
    ensures ret@ == self.roots@,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::wrapped_roots
//@rewrite_opt &self.wrapped_roots[..] => self.wrapped_roots.as_slice()
    ensures ret@ == self.wrapped_roots@,
//@end
