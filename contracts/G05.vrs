//@include prelude.vrs
//@include grammar.vrs
//@include occ.vrs
//@include history.vrs
//@include lang.vrs
//@include sets.vrs
//@include limit.vrs
//@include plang.vrs
//@include limit2.vrs
//@include builder.vrs
} // verus!
fn main() {}
