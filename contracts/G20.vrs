//@include prelude.vrs
//@include grammar.vrs
//@include history.vrs
//@include rules.vrs
} // verus!
fn main() {}
