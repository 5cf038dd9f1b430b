//@struct cfg-history/src/earley/mod.rs ExternalOrigin #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-history/src/earley/mod.rs EventId #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-history/src/earley/mod.rs MinimalDistance #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-history/src/earley/mod.rs ExternalDottedRule #[derive(Clone,Copy,PartialEq,Eq,Structural)]
pub type NullingEliminated = Option<(Symbol, bool)>;
//@contains cfg-history/src/earley/mod.rs pub type NullingEliminated = Option<(Symbol, bool)>;
//@struct cfg-history/src/earley/rule_dot.rs RuleDot #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-history/src/earley/mod.rs SequenceDetails #[derive(Clone,Copy)]
//@struct cfg-history/src/earley/mod.rs History #[derive(Clone,Copy)]
//@struct cfg-history/src/lib.rs BinarizedRhsRange #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-history/src/lib.rs RootHistoryNode #[derive(Clone,Copy)]
//@struct cfg-history/src/lib.rs LinkedHistoryNode #[derive(Clone,Copy)] 
//@struct cfg-history/src/lib.rs HistoryNodeBinarize #[derive(Clone,Copy)]
//@struct cfg-history/src/lib.rs HistoryNodeEliminateNulling #[derive(Clone,Copy)]
//@struct cfg-history/src/lib.rs HistoryNodeRewriteSequence #[derive(Clone,Copy)]
//@struct cfg-history/src/lib.rs HistoryNodeSequenceRhs #[derive(Clone,Copy)]
//@struct cfg-history/src/lib.rs HistoryNodeAssignPrecedence #[derive(Clone,Copy)]
//@struct cfg-history/src/lib.rs HistoryNodeWeight #[derive(Clone,Copy)]

// What the histories of the rules of one chain have to be.
use crate::BinarizedRhsRange::*;
pub open spec fn no_dot() -> RuleDot {
    RuleDot {
        event: EventId { id: 0 },
        trace: ExternalDottedRule { id: u32::MAX, pos: u32::MAX },
        distance: MinimalDistance { distance: u32::MAX },
    }
}
pub open spec fn orig_dot(h: History, pos: int) -> RuleDot {
    RuleDot {
        event: EventId { id: 0 },
        trace: ExternalDottedRule { id: h.origin.id, pos: pos as u32 },
        distance: MinimalDistance { distance: u32::MAX },
    }
}
pub open spec fn binarized(h: History, height: int, full_len: int, is_top: bool) -> History {
    History {
        dots: if is_top {
            [
                orig_dot(h, 0),
                if full_len >= 2 { orig_dot(h, full_len - 1) } else { no_dot() },
                if full_len >= 1 { orig_dot(h, full_len) } else { no_dot() },
            ]
        } else {
            [no_dot(), orig_dot(h, height + 1), no_dot()]
        },
        origin: if is_top { h.origin } else { ExternalOrigin { id: u32::MAX } },
        ..h
    }
}
pub open spec fn default_history() -> History {
    let d = RuleDot { event: EventId { id: 0 }, trace: ExternalDottedRule { id: 0, pos: 0 }, distance: MinimalDistance { distance: 0 } };
    History { dots: [d, d, d], origin: ExternalOrigin { id: 0 }, nullable: None, weight: None, sequence: None }
}
pub open spec fn rule_history(id: u32) -> History {
    History { origin: ExternalOrigin { id: id }, ..default_history() }
}
