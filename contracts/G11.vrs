//@include prelude.vrs
//@include grammar.vrs
//@assume sets.vrs
//@assume occ.vrs
//@assume closure.vrs
//@assume history.vrs
//@assume rules.vrs
//@include lang.vrs
//@assume matrix.vrs
//@include useful.vrs
} // verus!
fn main() {}
