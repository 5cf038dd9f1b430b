//@include prelude.vrs
//@include grammar.vrs
//@assume occ.vrs
//@assume history.vrs
//@include lang.vrs
//@assume sets.vrs
//@assume limit.vrs
//@include plang.vrs
//@assume builder.vrs
//@include subst.vrs
//@include sequence.vrs
//@include seqbuilder.vrs
} // verus!
fn main() {}
