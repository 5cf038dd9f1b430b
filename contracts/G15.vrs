//@include prelude.vrs
//@include grammar.vrs
//@assume history.vrs
//@assume occ.vrs
//@include lang.vrs
//@assume sets.vrs
//@assume limit.vrs
//@assume builder.vrs
//@include precedence.vrs
} // verus!
fn main() {}
