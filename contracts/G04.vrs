//@include prelude.vrs
//@include grammar.vrs
//@include occ.vrs
//@include sets.vrs
//@include closure.vrs
//@include values.vrs
} // verus!
fn main() {}
