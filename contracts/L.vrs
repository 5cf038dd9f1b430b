//@include prelude.vrs
//@include grammar.vrs
//@include lang.vrs
} // verus!
fn main() {}
