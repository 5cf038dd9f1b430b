//@include prelude.vrs
//@include lexmap.vrs
} // verus!
fn main() {}
