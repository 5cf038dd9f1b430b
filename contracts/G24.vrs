//@include prelude.vrs
//@include grammar.vrs
//@assume occ.vrs
//@assume history.vrs
//@assume lang.vrs
//@assume sets.vrs
//@assume limit.vrs
//@assume plang.vrs
//@assume builder.vrs
//@assume subst.vrs
//@assume sequence.vrs
//@include seqcall.vrs
//@include newcfg.vrs
//@assume lexmap.vrs
//@include classmap.vrs
//@include advlex.vrs
//@include advparse.vrs
//@include advtree.vrs
//@include loadgrp.vrs
//@include advlay.vrs
//@include advrx.vrs
//@include advload.vrs
//@include advsize.vrs
//@include advbuild.vrs
//@include advone.vrs
} // verus!
fn main() {}
