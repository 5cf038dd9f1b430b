// TRUSTED: BTreeMap::entry for the symbols of classes.
impl ClassMap {
    #[verifier::external_body]
    pub fn get(&self, k: &LexerClasses) -> (r: Option<Symbol>)
        ensures r == (if self@.contains_key(k.set@) { Some(self@[k.set@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: LexerClasses, s: Symbol)
        ensures final(self)@ == old(self)@.insert(k.set@, s),
    { unimplemented!() }
}
