//@include prelude.vrs
//@include grammar.vrs
//@assume occ.vrs
//@include sets.vrs
//@include lang.vrs
//@include generate.vrs
} // verus!
fn main() {}
