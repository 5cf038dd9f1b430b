//@include prelude.vrs
//@include grammar.vrs
//@include sets.vrs
} // verus!
fn main() {}
