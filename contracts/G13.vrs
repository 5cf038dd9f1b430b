//@include prelude.vrs
//@include grammar.vrs
//@include sets.vrs
//@include matrix.vrs
//@include recursion.vrs
} // verus!
fn main() {}
