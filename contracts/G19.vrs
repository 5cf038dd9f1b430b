//@include prelude.vrs
//@include grammar.vrs
//@assume occ.vrs
//@assume sets.vrs
//@assume closure.vrs
//@assume values.vrs
//@include lang.vrs
//@include distance.vrs
} // verus!
fn main() {}
