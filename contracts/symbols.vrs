// ---- TRUSTED: cfg_symbol::Symbol. `raw` is the index, i.e. the NonZeroU32 value minus one.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Structural)]
pub struct Symbol { pub raw: u32 }
impl Symbol {
    pub open spec fn ix(self) -> int { self.raw as int }
    pub fn usize(&self) -> (r: usize)
        ensures r == self.raw,
    {
        self.raw as usize
    }
}
// The i-th symbol of `SymbolSource::generate_fresh()`, which panics when it runs out.
#[verifier::external_body]
pub fn vx_fresh(i: usize) -> (r: Symbol)
    ensures r.raw == i,
{ Symbol { raw: i as u32 } }
pub open spec fn sym_of(i: int) -> Symbol { Symbol { raw: i as u32 } }

// ---- TRUSTED: cfg_symbol::SymbolSource (its own contracts are decided under G01).
#[verifier::external_body]
pub struct SymbolName { x: u8 }
pub struct SymbolSource { pub next_symbol: Symbol, pub names: Vec<Option<SymbolName>> }
impl SymbolSource {
    pub open spec fn n(self) -> int { self.next_symbol.raw as int }
    #[verifier::external_body]
    pub fn num_syms(&self) -> (r: usize)
        ensures r == self.n(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.n() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
    // Panics when the symbol space is used up.
    #[verifier::external_body]
    pub fn next_sym(&mut self, name: Option<SymbolName>) -> (r: Symbol)
        ensures r == old(self).next_symbol, final(self).n() == old(self).n() + 1,
    { unimplemented!() }
}

pub open spec fn all_true(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] }
pub open spec fn all_false(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i] }
// ---- TRUSTED: bit_vec::BitVec as a sequence of bools.
#[verifier::external_body]
pub struct BitVec { x: Vec<bool> }
impl View for BitVec {
    type V = Seq<bool>;
    uninterp spec fn view(&self) -> Seq<bool>;
}
impl BitVec {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<bool>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_elem(n: usize, e: bool) -> (r: Self)
        ensures r@ == Seq::new(n as nat, |i: int| e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, e: bool)
        requires i < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: bool)
        requires i < self@.len(),
        ensures r == self@[i as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn negate(&mut self)
        ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| !old(self)@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or(&mut self, o: &BitVec) -> (r: bool)
        requires old(self)@.len() == o@.len(),
        ensures
            final(self)@ == Seq::new(old(self)@.len(), |i: int| old(self)@[i] || o@[i]),
            r == (final(self)@ != old(self)@),
    { unimplemented!() }
    // `extend(iter::repeat(e).take(n))`
    #[verifier::external_body]
    pub fn extend_repeat(&mut self, e: bool, n: usize)
        ensures final(self)@ == old(self)@ + Seq::new(n as nat, |i: int| e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_all(&self) -> (r: bool)
        ensures r == all_true(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_any(&self) -> (r: bool)
        ensures r == !all_false(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}

pub broadcast proof fn lemma_pop_push<A>(s: Seq<A>)
    requires s.len() > 0,
    ensures #[trigger] s.subrange(0, s.len() as int - 1).push(s[s.len() as int - 1]) == s,
{
    assert(s.subrange(0, s.len() as int - 1).push(s[s.len() as int - 1]) =~= s);
}
