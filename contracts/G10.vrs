//@include prelude.vrs
//@include grammar.vrs
//@assume sets.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume rules.vrs
//@assume closure.vrs
//@assume predict.vrs
//@assume follow.vrs
//@assume matrix.vrs
//@include ll.vrs
} // verus!
fn main() {}
