// RuleBuilder: every rule goes through Cfg::add_rule.
//@struct cfg-grammar/src/rule_builder.rs RuleBuilder
//@fn cfg-grammar/src/rule_builder.rs RuleBuilder::new
    ensures *ret.grammar == *old(grammar), *final(ret.grammar) == *final(grammar), ret.lhs is None, ret.history is None,
//@end
//@fn cfg-grammar/src/rule_builder.rs RuleBuilder::rule
    ensures *ret.grammar == *old(self.grammar), *final(ret.grammar) == *final(self.grammar), ret.lhs == Some(lhs), ret.history is None,
//@end
//@fn cfg-grammar/src/rule_builder.rs RuleBuilder::history
    ensures *ret.grammar == *old(self.grammar), *final(ret.grammar) == *final(self.grammar), ret.lhs == self.lhs, ret.history == Some(history),
//@end
//@fn cfg-grammar/src/rule_builder.rs RuleBuilder::rhs_with_history
//@sig impl AsRef<[Symbol]> => &[Symbol]
//@rewrite_opt syms.as_ref().into() => vx_rc(syms)
    requires self.lhs is Some, old(self.grammar).limit() >= 2, syms@.len() < u32::MAX,
    ensures
        *final(ret.grammar) == *final(self.grammar), ret.lhs == self.lhs, ret.history == self.history,
        ret.grammar.same_rest(*old(self.grammar)),
        prod_seq(ret.grammar.rules@) == prod_seq(old(self.grammar).rules@) + added_prods(*old(self.grammar), self.lhs->0, syms@),
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        forall|i: int| old(self.grammar).rules@.len() <= i < ret.grammar.rules@.len() ==>
            (#[trigger] ret.grammar.rules@[i]).history == chain_history(history, syms@.len() as int, old(self.grammar).limit(), i - old(self.grammar).rules@.len(), ret.grammar.rules@.len() - old(self.grammar).rules@.len()),
        ret.grammar.n() == old(self.grammar).n() + (if ret.grammar.rules@.len() == old(self.grammar).rules@.len() { 0int } else { ret.grammar.rules@.len() - old(self.grammar).rules@.len() - 1 }),
//@end
//@fn cfg-grammar/src/rule_builder.rs RuleBuilder::rhs
//@sig impl AsRef<[Symbol]> => &[Symbol]
//@rewrite_opt RootHistoryNode::Rule { $$f }.into() => History::from_root(RootHistoryNode::Rule { $$f })
    requires self.lhs is Some, old(self.grammar).limit() >= 2, syms@.len() < u32::MAX,
    ensures
        *final(ret.grammar) == *final(self.grammar), ret.lhs == self.lhs, ret.history is None,
        ret.grammar.same_rest(*old(self.grammar)),
        prod_seq(ret.grammar.rules@) == prod_seq(old(self.grammar).rules@) + added_prods(*old(self.grammar), self.lhs->0, syms@),
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        forall|i: int| old(self.grammar).rules@.len() <= i < ret.grammar.rules@.len() ==>
            (#[trigger] ret.grammar.rules@[i]).history == chain_history(match self.history { Some(h) => h, None => rule_history(0) }, syms@.len() as int, old(self.grammar).limit(), i - old(self.grammar).rules@.len(), ret.grammar.rules@.len() - old(self.grammar).rules@.len()),
        ret.grammar.n() == old(self.grammar).n() + (if ret.grammar.rules@.len() == old(self.grammar).rules@.len() { 0int } else { ret.grammar.rules@.len() - old(self.grammar).rules@.len() - 1 }),
//@end
