//@include prelude.vrs
//@include grammar.vrs
//@assume sets.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume rules.vrs
//@include lang.vrs
//@include recs.vrs
//@assume limit.vrs
//@include remap.vrs
} // verus!
fn main() {}
