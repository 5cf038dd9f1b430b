// G17: rule histories.
// TRUSTED: derived `Default` of History: all zero, all none.
#[verifier::external_body]
pub fn vx_history_default() -> (r: History)
    ensures r == default_history(),
{ unimplemented!() }
// TRUSTED (opaque): the floating-point weight conversion.
pub uninterp spec fn weight_of(w: f64) -> u32;
#[verifier::external_body]
pub fn vx_weight(w: f64) -> (r: u32)
    ensures r == weight_of(w),
{ unimplemented!() }

//@fn cfg-history/src/earley/mod.rs MinimalDistance::null
    ensures ret.distance == u32::MAX,
//@at begin
    assert(!0u32 == u32::MAX) by (bit_vector);
//@end
//@fn cfg-history/src/earley/mod.rs EventId::null
    ensures ret.id == 0,
//@end
//@fn cfg-history/src/earley/mod.rs ExternalDottedRule::null
    ensures ret.id == u32::MAX, ret.pos == u32::MAX,
//@at begin
    assert(!0u32 == u32::MAX) by (bit_vector);
//@end
//@fn cfg-history/src/earley/mod.rs ExternalOrigin::null
    ensures ret.id == u32::MAX,
//@at begin
    assert(!0u32 == u32::MAX) by (bit_vector);
//@end
//@fn cfg-history/src/earley/rule_dot.rs RuleDot::new
    ensures ret == (RuleDot { event: EventId { id: 0 }, trace: ExternalDottedRule { id: id, pos: pos }, distance: MinimalDistance { distance: u32::MAX } }),
//@end
//@fn cfg-history/src/earley/rule_dot.rs RuleDot::none
    ensures ret == no_dot(),
//@end
//@fn cfg-history/src/earley/mod.rs History::new
//@rewrite_opt History::default() => vx_history_default()
    ensures ret == rule_history(id),
//@end
//@fn cfg-history/src/earley/mod.rs process_root
    ensures
        root_node matches RootHistoryNode::Rule { .. } ==> ret == rule_history(0),
        root_node matches RootHistoryNode::NoOp ==> ret == rule_history(u32::MAX),
        root_node matches RootHistoryNode::Origin { origin } ==> ret == rule_history(origin as u32),
//@at begin
    assert(!0u32 == u32::MAX) by (bit_vector);
//@end
//@fn cfg-history/src/earley/mod.rs History::at_dot
    ensures ret == orig_dot(*self, n as int),
//@end
//@fn cfg-history/src/earley/mod.rs History::dot
//@rewrite_opt $x.get($$i).copied().unwrap_or($$d) => (if $$i < $x.len() { $x[$$i] } else { $$d })
    ensures ret == (if n < 3 { self.dots[n as int] } else { no_dot() }),
//@end
//@fn cfg-history/src/earley/mod.rs History::origin
    ensures ret == self.origin,
//@end
//@fn cfg-history/src/earley/mod.rs History::nullable
    ensures ret == self.nullable,
//@end
//@fn cfg-history/src/earley/mod.rs History::binarize
//@rewrite_opt self.dots.is_empty() => (self.dots.len() == 0)
//@rewrite_opt self.clone() => *self
//@rewrite_opt [none; 3] => [none, none, none]
    requires height as int + 1 <= usize::MAX,
    ensures ret == binarized(*self, height as int, full_len as int, is_top),
//@at begin
    broadcast use axiom_array_ext;
//@end
pub broadcast proof fn axiom_array_ext(a: [RuleDot; 3], b: [RuleDot; 3])
    requires a[0] == b[0], a[1] == b[1], a[2] == b[2],
    ensures #[trigger] a@ == #[trigger] b@, a == b,
{
    assert(a@ =~= b@);
}
pub open spec fn nulling_eliminated(h: History, rhs0: Option<Symbol>, rhs1: Option<Symbol>, w: BinarizedRhsRange) -> History {
    match w {
        BinarizedRhsRange::All(_) => History { origin: h.origin, ..default_history() },
        BinarizedRhsRange::Left => History { nullable: Some((rhs0->0, false)), ..h },
        BinarizedRhsRange::Right => History { nullable: Some((rhs1->0, true)), ..h },
    }
}
//@fn cfg-history/src/earley/mod.rs History::eliminate_nulling
//@rewrite_opt self.clone() => *self
//@rewrite_opt History::default() => vx_history_default()
    requires
        subset == BinarizedRhsRange::Left ==> rhs0 is Some,
        subset == BinarizedRhsRange::Right ==> rhs1 is Some,
    ensures ret == nulling_eliminated(*self, rhs0, rhs1, subset),
//@end
pub open spec fn linked(n: LinkedHistoryNode, h: History) -> History {
    match n {
        LinkedHistoryNode::AssignPrecedence { looseness } => h,
        LinkedHistoryNode::Binarize { height, full_len, is_top } => binarized(h, height as int, full_len as int, is_top),
        LinkedHistoryNode::EliminateNulling { rhs0, rhs1, which } => nulling_eliminated(h, rhs0, rhs1, which),
        LinkedHistoryNode::RewriteSequence { top, rhs, sep } => History { sequence: Some(SequenceDetails { top, rhs, sep }), ..h },
        LinkedHistoryNode::Weight { weight } => History { weight: Some(weight_of(weight)), ..h },
        LinkedHistoryNode::SequenceRhs { rhs } => h,
    }
}
pub open spec fn linked_ok(n: LinkedHistoryNode) -> bool {
    n matches LinkedHistoryNode::EliminateNulling { rhs0, rhs1, which } ==>
        (which == BinarizedRhsRange::Left ==> rhs0 is Some) && (which == BinarizedRhsRange::Right ==> rhs1 is Some)
}
// The result of `rewrite_sequence` is computed and dropped by the code; that call is left out.
//@fn cfg-history/src/earley/mod.rs process_linked
//@rewrite_opt (weight * 1000f64) as u32 => vx_weight(weight)
//@rewrite_opt let rhs: Vec<_> = rhs.into_iter().flatten().collect(); =>
//@rewrite_opt prev_history.rewrite_sequence($$a); =>
//@rewrite_opt match linked_node => match *linked_node
//@rewrite_opt &LinkedHistoryNode => LinkedHistoryNode
    requires linked_ok(*linked_node),
    ensures ret == linked(*linked_node, prev_history),
//@end
//@fn cfg-history/src/lib.rs From<HistoryNodeBinarize> for History::from
//@name from_binarize
    ensures ret == binarized(value.prev, value.height as int, value.full_len as int, value.is_top),
//@end
//@fn cfg-history/src/lib.rs From<HistoryNodeEliminateNulling> for History::from
//@name from_eliminate_nulling
    requires
        value.which == BinarizedRhsRange::Left ==> value.rhs0 is Some,
        value.which == BinarizedRhsRange::Right ==> value.rhs1 is Some,
    ensures ret == nulling_eliminated(value.prev, value.rhs0, value.rhs1, value.which),
//@end
//@fn cfg-history/src/lib.rs From<HistoryNodeWeight> for History::from
//@name from_weight
    ensures ret == (History { weight: Some(weight_of(value.weight)), ..value.prev }),
//@end
//@fn cfg-history/src/lib.rs From<HistoryNodeAssignPrecedence> for History::from
//@name from_assign_precedence
    ensures ret == value.prev,
//@end
//@fn cfg-history/src/lib.rs From<HistoryNodeRewriteSequence> for History::from
//@name from_rewrite_sequence
    ensures ret == (History { sequence: Some(SequenceDetails { top: value.top, rhs: value.rhs, sep: value.sep }), ..value.prev }),
//@end
//@fn cfg-history/src/lib.rs From<HistoryNodeSequenceRhs> for History::from
//@name from_sequence_rhs
    ensures ret == value.prev,
//@end
//@fn cfg-history/src/earley/mod.rs From<RootHistoryNode> for History::from
//@name from_root
    ensures
        value matches RootHistoryNode::Rule { .. } ==> ret == rule_history(0),
        value matches RootHistoryNode::NoOp ==> ret == rule_history(u32::MAX),
        value matches RootHistoryNode::Origin { origin } ==> ret == rule_history(origin as u32),
//@end
//@fn cfg-history/src/lib.rs BinarizedRhsRange::as_range
    ensures
        ret.start == (match self { BinarizedRhsRange::Right => 1usize, _ => 0usize }),
        ret.end == (match self { BinarizedRhsRange::Left => 1usize, BinarizedRhsRange::Right => 2usize, BinarizedRhsRange::All(k) => k }),
//@end
//@fn cfg-history/src/lib.rs BinarizedRhsRange::negate
    requires !(self matches BinarizedRhsRange::All(_)),
    ensures
        self == BinarizedRhsRange::Left ==> ret == BinarizedRhsRange::Right,
        self == BinarizedRhsRange::Right ==> ret == BinarizedRhsRange::Left,
//@end
