//@include prelude.vrs
//@include grammar.vrs
//@assume sets.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume rules.vrs
//@include predict.vrs
} // verus!
fn main() {}
