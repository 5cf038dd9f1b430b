//@include prelude.vrs
//@include grammar.vrs
//@assume sets.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume rules.vrs
//@assume predict.vrs
//@include follow.vrs
} // verus!
fn main() {}
