//@include prelude.vrs
//@include grammar.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume lang.vrs
//@assume sets.vrs
//@assume limit.vrs
//@assume plang.vrs
//@assume builder.vrs
//@assume subst.vrs
//@assume sequence.vrs
//@include seqcall.vrs
//@include newcfg.vrs
//@include bnflex.vrs
//@include bnfparse.vrs
//@include bnftree.vrs
//@include loadgrp.vrs
//@include bnfload.vrs
//@include bnfown.vrs
//@include bnfbuild.vrs
//@include bnfprint.vrs
//@include bnftrip.vrs
} // verus!
fn main() {}
