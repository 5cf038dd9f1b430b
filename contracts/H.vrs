//@include prelude.vrs
//@include grammar.vrs
//@include history.vrs
} // verus!
fn main() {}
