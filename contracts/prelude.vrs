//@include core.vrs
//@include symbols.vrs
