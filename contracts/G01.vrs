//@include core.vrs
// G01: symbols and symbol sources, for symbols of any width.
// TRUSTED: std::num::NonZeroU32 and the conversions of the NonZero types (see the Kani harnesses, which run
// them over their full domain).
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 {
    pub fn new(n: u32) -> (r: Option<NonZeroU32>)
        ensures r == (if n == 0 { None } else { Some(NonZeroU32 { v: n }) }),
    { if n == 0 { None } else { Some(NonZeroU32 { v: n }) } }
    pub fn get(self) -> (r: u32)
        ensures r == self.v,
    { self.v }
    pub fn saturating_add(self, k: u32) -> (r: NonZeroU32)
        ensures r.v as int == (if self.v + k > u32::MAX { u32::MAX as int } else { self.v + k }),
    { if self.v > u32::MAX - k { NonZeroU32 { v: u32::MAX } } else { NonZeroU32 { v: self.v + k } } }
}
// The width of a symbol: a non-zero number up to `max()`.
pub trait SymbolPrimitive: Sized + Copy {
    spec fn val(self) -> int;
    spec fn max() -> int;
    proof fn in_range(self)
        ensures 1 <= self.val() <= Self::max(), 255 <= Self::max() <= u32::MAX;
    proof fn unique(a: Self, b: Self)
        ensures a.val() == b.val() ==> a == b;
    proof fn max_bound()
        ensures 255 <= Self::max() <= u32::MAX;
    fn vx_max() -> (r: u32)
        ensures r == Self::max();
    // `Into<NonZeroU32>`
    fn vx_into(self) -> (r: NonZeroU32)
        ensures r.v == self.val();
    // `TryFrom<NonZeroU32>`
    fn vx_try(n: NonZeroU32) -> (r: Option<Self>)
        ensures
            1 <= n.v <= Self::max() ==> (r matches Some(x) && x.val() == n.v),
            n.v > Self::max() ==> r is None;
    // `TryFrom<BasePrimitive>` of a small number
    fn vx_base(n: u8) -> (r: Option<Self>)
        ensures n > 0 ==> (r matches Some(x) && x.val() == n), n == 0 ==> r is None;
}
// A panic the code is meant to raise: what follows holds when it does not.
#[verifier::external_body]
pub fn vx_may_panic(b: bool)
    ensures b,
{ if !b { panic!() } }
#[verifier::external_body]
pub fn vx_expect_or_panic<A>(o: Option<A>) -> (r: A)
    ensures o == Some(r),
{ o.unwrap() }
#[verifier::external_body]
pub fn vx_add_or_panic(a: u32, b: u32) -> (r: u32)
    ensures r == a + b,
{ a + b }
pub fn vx_expect<A>(o: Option<A>) -> (r: A)
    requires o is Some,
    ensures o == Some(r),
{ o.unwrap() }

//@struct cfg-symbol/src/symbol.rs Symbol #[derive(Clone,Copy)] #[verifier::allow(autoderive_clone_without_spec)]
//@ty T: SymbolPrimitive = NonZeroU32 => T: SymbolPrimitive
impl<T: SymbolPrimitive> Symbol<T> {
    /// The index of a symbol.
    pub open spec fn ix(self) -> int { self.n.val() - 1 }
    pub proof fn lemma_ix(self)
        ensures 0 <= self.ix() < T::max(), T::max() <= u32::MAX,
    { self.n.in_range(); }
}
/// Symbols with the same index are the same symbol.
pub proof fn lemma_same_symbol<T: SymbolPrimitive>(a: Symbol<T>, b: Symbol<T>)
    ensures a.ix() == b.ix() ==> a == b,
{ T::unique(a.n, b.n); }

//@fn cfg-symbol/src/symbol.rs Symbol::first
//@rewrite_opt let one: T::BasePrimitive = 1u8.into(); => let one: u8 = 1u8;
//@rewrite_opt $n.try_into().ok().expect($$m) => vx_expect(T::vx_base($n))
    ensures ret.ix() == 0,
//@end
//@fn cfg-symbol/src/symbol.rs Default for Symbol<T>::default
    ensures ret.ix() == 0,
//@end
//@fn cfg-symbol/src/symbol.rs Symbol::usize
//@rewrite_opt $x.n.into() => $x.n.vx_into()
    ensures ret == self.ix(),
//@at begin
    proof { self.lemma_ix(); }
//@end
//@fn cfg-symbol/src/symbol.rs Into<u32> for Symbol<T>::into
//@name vx_u32
//@rewrite_opt self.n.into() => self.n.vx_into()
    ensures ret == self.ix(),
//@at begin
    proof { self.lemma_ix(); }
//@end
// Serialized form: the index.
pub enum Fragment { U64(u64) }
//@fn cfg-symbol/src/symbol.rs Serialize for Symbol<T>::begin
//@name vx_serialize
//@sig ser::Fragment<'_> => Fragment
//@rewrite_opt ser::Fragment::U64($$e) => Fragment::U64($$e)
//@rewrite_opt (*self).into() => self.vx_u32()
    ensures ret == Fragment::U64(self.ix() as u64),
//@at begin
    proof { self.lemma_ix(); }
//@end
pub struct Error;
pub struct Place<T: SymbolPrimitive> { pub out: Option<Symbol<T>> }
//@fn cfg-symbol/src/symbol.rs Visitor for Place<Symbol<T>>::nonnegative
//@impl impl<T: SymbolPrimitive> Place<T>
//@sig Result<()> => Result<(), Error>
//@rewrite_opt T::MAX => T::vx_max()
//@rewrite_opt if let Some(Ok(nonzero_num)) = NonZeroU32::new($$e).map(|n| TryInto::<T>::try_into(n)) => if let Some(Some(nonzero_num)) = vx_map_opt(NonZeroU32::new($$e))
    ensures
        n < T::max() ==> ret is Ok && (final(self).out matches Some(s) && s.ix() == n),
        n >= T::max() ==> ret is Err && final(self).out == old(self).out,
//@at begin
    proof { T::max_bound(); }
//@end
fn vx_map_opt<T: SymbolPrimitive>(o: Option<NonZeroU32>) -> (r: Option<Option<T>>)
    ensures
        o is None ==> r is None,
        o matches Some(n) ==> r is Some && (1 <= n.v <= T::max() ==> (r->0 matches Some(x) && x.val() == n.v)) && (n.v > T::max() ==> r->0 is None),
{
    match o { Some(n) => Some(T::vx_try(n)), None => None }
}
/// Serializing and reading back gives the same symbol.
pub proof fn lemma_round_trip<T: SymbolPrimitive>(s: Symbol<T>, t: Symbol<T>)
    requires t.ix() == s.ix() as u64,
    ensures t == s,
{
    s.lemma_ix();
    lemma_same_symbol(s, t);
}

// ---- sources
//@fn cfg-symbol/src/source.rs advance
//@name advance_or_panic
//@rewrite_opt $n.try_into().ok().expect($$m) => vx_expect_or_panic(T::vx_try($n))
//@rewrite_opt $x.n.into() => $x.n.vx_into()
//@rewrite_opt $x.into() => $x.vx_into()
//@rewrite_opt T::MAX => T::vx_max()
//@rewrite_opt vx_assert => vx_may_panic
    ensures final(sym).ix() == old(sym).ix() + 1, final(sym).ix() + 1 < T::max(),
//@at begin
    proof { sym.lemma_ix(); sym.n.in_range(); }
//@end
// No panic as long as symbols are left.
//@fn cfg-symbol/src/source.rs advance
//@rewrite_opt $n.try_into().ok().expect($$m) => vx_expect(T::vx_try($n))
//@rewrite_opt $x.n.into() => $x.n.vx_into()
//@rewrite_opt $x.into() => $x.vx_into()
//@rewrite_opt T::MAX => T::vx_max()
    requires old(sym).ix() + 2 < T::max(),
    ensures final(sym).ix() == old(sym).ix() + 1,
//@at begin
    proof { sym.lemma_ix(); sym.n.in_range(); }
//@end
// A name; text is not interpreted.
#[verifier::external_body]
pub struct SymbolName { x: u8 }
impl Clone for SymbolName {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_names_clone(v: &Vec<Option<SymbolName>>) -> (r: Vec<Option<SymbolName>>)
    ensures r@ == v@,
{ v.clone() }
//@bodyis cfg-symbol/src/source.rs From<Cow<'_, str>> for SymbolName::from :: SymbolName { name: Rc::from(&*value), }
//@bodyis cfg-symbol/src/source.rs From<&'a str> for SymbolName::from :: SymbolName { name: Rc::from(value), }
//@struct cfg-symbol/src/source.rs SymbolSource
//@ty T: SymbolPrimitive = NonZeroU32 => T: SymbolPrimitive
impl<T: SymbolPrimitive> SymbolSource<T> {
    pub open spec fn count(self) -> int { self.next_symbol.ix() }
    /// Every generated symbol has its name, or the lack of one, on record.
    pub open spec fn inv(self) -> bool { self.names@.len() == self.count() }
    pub open spec fn name(self, i: int) -> Option<SymbolName> { if 0 <= i < self.names@.len() { self.names@[i] } else { None } }
}
//@fn cfg-symbol/src/source.rs SymbolSource::new
    ensures ret.count() == 0, ret.inv(),
//@end
//@fn cfg-symbol/src/source.rs SymbolSource::next_sym
//@sig Option<Cow<str>> => Option<SymbolName>
//@rewrite_opt name.map(|cow| cow.into()) => name
//@rewrite_opt advance($$a) => advance_or_panic($$a)
    ensures
        ret == old(self).next_symbol, ret.ix() == old(self).count(),
        final(self).count() == old(self).count() + 1,
        final(self).names@ == old(self).names@.push(name),
        old(self).inv() ==> final(self).inv() && final(self).name(ret.ix()) == name
            && forall|i: int| 0 <= i < old(self).count() ==> #[trigger] final(self).name(i) == old(self).name(i),
//@end
//@fn cfg-symbol/src/source.rs SymbolSource::sym
//@loops for
//@attr #[verifier::loop_isolation(false)]
    ensures
        forall|i: int| 0 <= i < N ==> (#[trigger] ret@[i]).ix() == old(self).count() + i,
        final(self).count() == old(self).count() + N,
        final(self).names@ == old(self).names@ + Seq::new(N as nat, |i: int| None),
//@at loop0.pre
    proof { assert(self.names@ =~= old(self).names@ + Seq::new(0, |i: int| None)); }
//@loop 0
    invariant
        0 <= __i0 <= N, result@.len() == N,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] result@[i]).ix() == old(self).count() + i,
        self.count() == old(self).count() + __i0,
        self.names@ == old(self).names@ + Seq::new(__i0 as nat, |i: int| None),
    decreases N - __i0,
//@at loop0.end
    proof { assert(self.names@ =~= old(self).names@ + Seq::new(__i0 as nat, |i: int| None)); }
//@end
#[verifier::external_body]
pub fn vx_take_arr<A, const N: usize>(v: &[A; N], i: usize) -> (r: A)
    requires i < N,
    ensures r == v@[i as int],
{ unimplemented!() }
//@fn cfg-symbol/src/source.rs SymbolSource::with_names
//@sig with_names<'a, const N: usize, S: Into<Cow<'static, str>>> => with_names<const N: usize>
//@sig Option<S> => Option<SymbolName>
//@rewrite_opt name.map(|s| s.into()) => name
//@for 0 value
//@loops for
//@attr #[verifier::loop_isolation(false)]
    ensures
        forall|i: int| 0 <= i < N ==> (#[trigger] ret@[i]).ix() == old(self).count() + i,
        final(self).count() == old(self).count() + N,
        final(self).names@ == old(self).names@ + names@,
//@at loop0.pre
    proof { assert(self.names@ =~= old(self).names@ + names@.take(0)); }
//@loop 0
    invariant
        0 <= __i0 <= N, result@.len() == N,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] result@[i]).ix() == old(self).count() + i,
        self.count() == old(self).count() + __i0,
        self.names@ == old(self).names@ + names@.take(__i0 as int),
    decreases N - __i0,
//@at loop0.end
    proof { assert(self.names@ =~= old(self).names@ + names@.take(__i0 as int)); }
//@at end
    proof { assert(names@.take(N as int) =~= names@); }
//@end
#[verifier::external_body]
pub fn vx_lookup(v: &Vec<Option<SymbolName>>, i: usize) -> (r: Option<&SymbolName>)
    ensures
        i < v@.len() && v@[i as int] is Some ==> r is Some && *r->0 == v@[i as int]->0,
        i >= v@.len() || v@[i as int] is None ==> r is None,
{ unimplemented!() }
//@fn cfg-symbol/src/source.rs SymbolSource::original_name_of
//@sig sym: Symbol => sym: Symbol<T>
//@sig Option<&str> => Option<&SymbolName>
//@rewrite $v.get($$i).map(|v| v.as_ref().map(|v| &v.name[..])).unwrap_or(None) => vx_lookup(&$v, $$i)
    ensures
        self.name(sym.ix()) matches Some(m) ==> ret is Some && *ret->0 == m,
        self.name(sym.ix()) is None ==> ret is None,
//@end
//@fn cfg-symbol/src/source.rs SymbolSource::num_syms
    ensures ret == self.count(),
//@end
pub enum VxName<'a> { Borrowed(&'a SymbolName), Gensym(usize) }
//@fn cfg-symbol/src/source.rs SymbolSource::name_of
//@sig Cow<'_, str> => VxName<'_>
//@sig sym: Symbol => sym: Symbol<T>
//@rewrite_opt Cow::Borrowed(&name.name[..]) => VxName::Borrowed(name)
//@rewrite_opt Cow::Owned(format!("g{}", $$e)) => VxName::Gensym($$e)
    ensures
        self.name(sym.ix()) matches Some(m) ==> (ret matches VxName::Borrowed(r) && *r == m),
        self.name(sym.ix()) is None ==> ret == VxName::Gensym(sym.ix() as usize),
//@end
//@fn cfg-symbol/src/source.rs SymbolSource::names
//@rewrite_opt self.names.clone() => vx_names_clone(&self.names)
    ensures ret@ == self.names@,
//@end
//@fn cfg-symbol/src/source.rs SymbolSource::truncate
//@name truncate_or_panic
//@rewrite_opt vx_assert => vx_may_panic
//@rewrite_opt T::MAX => T::vx_max()
//@rewrite_opt new_len as u32 + 1 => vx_add_or_panic(new_len as u32, 1)
//@rewrite_opt NonZeroU32::new($$e).expect($$m) => vx_expect_or_panic(NonZeroU32::new($$e))
//@rewrite_opt $n.try_into().ok().expect($$m) => vx_expect_or_panic(T::vx_try($n))
    ensures
        final(self).count() == new_len,
        final(self).names@ == (if new_len <= old(self).names@.len() { old(self).names@.take(new_len as int) } else { old(self).names@ }),
        old(self).inv() && new_len <= old(self).count() ==> final(self).inv()
            && forall|i: int| 0 <= i < new_len ==> #[trigger] final(self).name(i) == old(self).name(i),
//@at begin
    proof { T::max_bound(); }
//@end
//@struct cfg-symbol/src/source.rs Generate
//@fn cfg-symbol/src/source.rs Iterator for Generate::next
//@sig Self::Item => Symbol<T>
    ensures
        ret == Some(old(self).source.next_symbol),
        final(self).source.count() == old(self).source.count() + 1,
        final(self).source.names@ == old(self).source.names@.push(None),
//@end
//@struct cfg-symbol/src/source.rs Unfolder
//@fn cfg-symbol/src/source.rs Iterator for Unfolder::next
//@rewrite_opt advance($$a) => advance_or_panic($$a)
    ensures ret == Some(old(self).0), final(self).0.ix() == old(self).0.ix() + 1,
//@end
} // verus!
fn main() {}
