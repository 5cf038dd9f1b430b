//@include prelude.vrs
//@include grammar.vrs
//@assume sets.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume rules.vrs
//@include lang.vrs
//@assume limit.vrs
//@assume matrix.vrs
//@include cycles.vrs
} // verus!
fn main() {}
