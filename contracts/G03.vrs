//@include prelude.vrs
//@include grammar.vrs
//@include sets.vrs
//@include occ.vrs
//@include closure.vrs
} // verus!
fn main() {}
