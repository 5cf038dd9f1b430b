// A new grammar.
//@fn cfg-grammar/src/cfg.rs Cfg::with_sym_source
//@rewrite_opt , tmp_stack: RefCell::new(vec![]), =>
//@rewrite_opt MaybeSmallVec::new() => Vec::new()
    ensures ret.sym_source == sym_source, ret.rules@.len() == 0, ret.rhs_len_invariant is None, !ret.eliminate_nulling, ret.roots@.len() == 0, ret.wrapped_roots@.len() == 0,
//@end
//@fn cfg-grammar/src/cfg.rs Default for Cfg::default
    ensures ret.n() == 0, ret.rules@.len() == 0, ret.rhs_len_invariant is None, !ret.eliminate_nulling, ret.roots@.len() == 0, ret.wrapped_roots@.len() == 0,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::new
    ensures ret.n() == 0, ret.rules@.len() == 0, ret.rhs_len_invariant is None, !ret.eliminate_nulling, ret.roots@.len() == 0, ret.wrapped_roots@.len() == 0,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::set_roots
//@sig impl AsRef<[Symbol]> => &[Symbol]
//@rewrite_opt roots.as_ref().iter().copied().collect() => vx_to_vec(roots)
    ensures *final(self) == (Cfg { roots: final(self).roots, ..*old(self) }), final(self).roots@ == roots@,
//@end
