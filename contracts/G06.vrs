//@include prelude.vrs
//@include grammar.vrs
//@assume history.vrs
//@assume occ.vrs
//@assume sets.vrs
//@include lang.vrs
//@include recs.vrs
//@assume closure.vrs
//@assume limit.vrs
//@include plang.vrs
//@assume limit2.vrs
//@assume builder.vrs
//@assume rules.vrs
//@include nulling.vrs
} // verus!
fn main() {}
