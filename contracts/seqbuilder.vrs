// The sequence builder hands on exactly what was asked for.
//@bodyis cfg-sequence/src/rewrite.rs SequenceDestination for SequencesToProductions<'a>::add_sequence :: self.rewrite(seq);
//@bodyis cfg-sequence/src/ext.rs CfgSequenceExt for Cfg::sequence :: SequencesToProductions::new(self).sequence(lhs)
pub trait SequenceDestination: Sized {
    spec fn added(a: Self, s: Sequence, b: Self) -> bool;
    spec fn can_add(a: Self, s: Sequence) -> bool;
    fn add_sequence(&mut self, seq: Sequence)
        requires Self::can_add(*old(self), seq),
        ensures Self::added(*old(self), seq, *final(self));
}
//@struct cfg-sequence/src/builder.rs SequenceRuleBuilder
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::new
    ensures ret.lhs is None, ret.range is None, ret.history is None, ret.separator is Null, ret.destination == destination,
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::sequence
    ensures ret == (SequenceRuleBuilder { lhs: Some(lhs), separator: Null, ..self }),
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::separator
    ensures ret == (SequenceRuleBuilder { separator: sep, ..self }),
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::intersperse
    ensures ret == (SequenceRuleBuilder { separator: Proper(sym), ..self }),
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::history
    ensures ret == (SequenceRuleBuilder { history: Some(history), ..self }),
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::inclusive
    ensures ret == (SequenceRuleBuilder { range: Some((start, end)), ..self }),
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::range
//@sig impl RangeBounds<u32> => VxRange
//@rewrite let to_option = |bound: Bound<u32>, diff| match bound { $$b }; => let to_option = |bound: ops::Bound<u32>, diff: i64| -> (r: Option<u32>) requires -1 <= diff <= 1, bound_ok(bound, diff as int) ensures r == bound_at(bound, diff as int) { match bound { $$b } };
//@rewrite_opt Bound::$v($x) ==>> ops::Bound::$v($x)
//@rewrite_opt Bound::Unbounded ==>> ops::Bound::Unbounded
//@rewrite_opt range.start_bound().cloned() => range.start
//@rewrite_opt range.end_bound().cloned() => range.end
    requires bound_ok(range.start, 1), bound_ok(range.end, -1),
    ensures ret == (SequenceRuleBuilder { range: Some((match bound_at(range.start, 1) { Some(x) => x, None => 0 }, bound_at(range.end, -1))), ..self }),
//@end
pub open spec fn asked<D: SequenceDestination>(b: SequenceRuleBuilder<D>, rhs: Symbol, history: Option<History>) -> Sequence {
    Sequence { lhs: b.lhs->0, rhs: rhs, start: (b.range->0).0, end: (b.range->0).1, separator: b.separator, history: history }
}
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::rhs_with_history
    requires self.lhs is Some, self.range is Some, D::can_add(self.destination, asked(self, rhs, history)),
    ensures D::added(self.destination, asked(self, rhs, history), ret.destination), ret == (SequenceRuleBuilder { range: None, destination: ret.destination, ..self }),
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::rhs
    requires self.lhs is Some, self.range is Some, D::can_add(self.destination, asked(self, rhs, self.history)),
    ensures D::added(self.destination, asked(self, rhs, self.history), ret.destination), ret == (SequenceRuleBuilder { range: None, history: None, destination: ret.destination, ..self }),
//@end
//@fn cfg-sequence/src/builder.rs SequenceRuleBuilder::rhs_with_range
//@sig impl RangeBounds<u32> => VxRange
    requires
        self.lhs is Some, bound_ok(range.start, 1), bound_ok(range.end, -1),
        D::can_add(self.destination, Sequence { lhs: self.lhs->0, rhs: rhs, start: match bound_at(range.start, 1) { Some(x) => x, None => 0 }, end: bound_at(range.end, -1), separator: self.separator, history: self.history }),
    ensures
        D::added(self.destination, Sequence { lhs: self.lhs->0, rhs: rhs, start: match bound_at(range.start, 1) { Some(x) => x, None => 0 }, end: bound_at(range.end, -1), separator: self.separator, history: self.history }, ret.destination),
//@end
