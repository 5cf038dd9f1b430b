//@include prelude.vrs
//@include grammar.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume lang.vrs
//@assume sets.vrs
//@assume limit.vrs
//@assume plang.vrs
//@assume builder.vrs
//@assume subst.vrs
//@assume sequence.vrs
//@include seqcall.vrs
//@assume lexmap.vrs
//@include rxlang.vrs
//@include regexp.vrs
//@include regexp2.vrs
//@include regexp3.vrs
} // verus!
fn main() {}
