// G14: renaming symbols.
pub use std::cmp::Ordering;
//@struct cfg-symbol/src/intern.rs Mapping
//@struct cfg-symbol-bit-matrix/src/remap_symbols.rs Remap

// TRUSTED: derived Clone of CfgRule; vec![x; n]; conversions between vectors and Rc slices; Iterator::map over a slice;
// slice::sort_by; bool's Ord; extending a vector by equal elements.
#[verifier::external_body]
pub fn vx_clone_rule(r: &CfgRule) -> (c: CfgRule)
    ensures c == *r,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_take_rules(v: &mut Vec<CfgRule>) -> (r: Vec<CfgRule>)
    ensures r@ == old(v)@, final(v)@.len() == 0,
{ std::mem::take(v) }
#[verifier::external_body]
pub fn vx_nones(n: usize) -> (r: Vec<Option<Symbol>>)
    ensures r@ == Seq::new(n as nat, |i: int| None::<Symbol>),
{ vec![None; n] }
#[verifier::external_body]
pub fn vx_grow(v: &mut Vec<Option<SymbolName>>, k: usize)
    ensures final(v)@ == old(v)@ + Seq::new(k as nat, |i: int| None::<SymbolName>),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_name_clone(v: &Option<SymbolName>) -> (r: Option<SymbolName>)
    ensures r == *v,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_wrapped_vec(s: &[WrappedRoot]) -> (r: Vec<WrappedRoot>)
    ensures r@ == s@,
{ s.to_vec() }
pub fn vx_cmp_bool(a: &bool, b: &bool) -> (r: std::cmp::Ordering)
    ensures r == (if *a == *b { std::cmp::Ordering::Equal } else if *b { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }),
{ if *a == *b { std::cmp::Ordering::Equal } else if *b { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater } }
pub open spec fn ids(n: int) -> Seq<Symbol> { Seq::new(n as nat, |i: int| sym_of(i)) }
// `SymbolSource::generate_fresh().take(n).collect()`
pub fn vx_ids(n: usize) -> (r: Vec<Symbol>)
    ensures r@ == ids(n as int),
{
    let mut out: Vec<Symbol> = Vec::new();
    let mut k: usize = 0;
    while k < n
        invariant k <= n, out@ == ids(k as int),
        decreases n - k,
    {
        let s = vx_fresh(k);
        out.push(s);
        assert(s == sym_of(k as int));
        k = k + 1;
        assert(out@ =~= ids(k as int));
    }
    out
}
// `.map(Some).collect()`
pub fn vx_somes(v: Vec<Symbol>) -> (r: Vec<Option<Symbol>>)
    ensures r@ == v@.map_values(|s: Symbol| Some(s)),
{
    let mut out: Vec<Option<Symbol>> = Vec::new();
    let mut k: usize = 0;
    while k < v.len()
        invariant k <= v@.len(), out@ =~= v@.take(k as int).map_values(|s: Symbol| Some(s)),
        decreases v@.len() - k,
    { out.push(Some(v[k])); k = k + 1; }
    assert(v@.take(v@.len() as int) =~= v@);
    out
}
// `o.get(i).and_then(|&x| x)`
pub fn vx_get_flat(v: &Vec<Option<Symbol>>, i: usize) -> (r: Option<Symbol>)
    ensures r == (if i < v@.len() { v@[i as int] } else { None }),
{ if i < v.len() { v[i] } else { None } }
pub fn vx_some_or_panic(o: Option<Symbol>) -> (r: Symbol)
    requires o is Some,
    ensures Some(r) == o,
{ o.unwrap() }
pub type Ren = spec_fn(Symbol) -> Symbol;
pub type Ord2 = spec_fn(Symbol, Symbol) -> std::cmp::Ordering;
pub open spec fn le(o: Ord2, a: Symbol, b: Symbol) -> bool { o(a, b) != std::cmp::Ordering::Greater }
/// `o` compares the first n symbols as a total preorder.
pub open spec fn total_order(o: Ord2, n: int) -> bool {
    &&& forall|a: Symbol, b: Symbol| a.raw < n && b.raw < n ==> (#[trigger] o(a, b) == std::cmp::Ordering::Less <==> o(b, a) == std::cmp::Ordering::Greater)
    &&& forall|a: Symbol, b: Symbol, c: Symbol| a.raw < n && b.raw < n && c.raw < n && #[trigger] le(o, a, b) && #[trigger] le(o, b, c) ==> le(o, a, c)
}
pub open spec fn computes2<F: Fn(Symbol, Symbol) -> std::cmp::Ordering>(f: F, o: Ord2, n: int) -> bool {
    &&& forall|a: Symbol, b: Symbol| a.raw < n && b.raw < n ==> call_requires(f, (a, b))
    &&& forall|a: Symbol, b: Symbol, r: std::cmp::Ordering| a.raw < n && b.raw < n && call_ensures(f, (a, b), r) ==> r == o(a, b)
}
#[verifier::external_body]
pub fn vx_sort_syms<F: Fn(Symbol, Symbol) -> std::cmp::Ordering>(v: &mut Vec<Symbol>, f: &F, Ghost(o): Ghost<Ord2>, Ghost(n): Ghost<int>)
    requires computes2(*f, o, n), total_order(o, n), old(v)@ == ids(n),
    ensures
        // Stable: symbols that compare equal stay in order.
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() && le(o, #[trigger] final(v)@[j], #[trigger] final(v)@[i]) ==> final(v)@[i].raw < final(v)@[j].raw,
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> le(o, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }
/// The function computes `m` on the first n symbols.
pub open spec fn computes<F: Fn(Symbol) -> Symbol>(f: F, m: Ren, n: int) -> bool {
    &&& forall|x: Symbol| x.raw < n ==> call_requires(f, (x,))
    &&& forall|x: Symbol, y: Symbol| x.raw < n && call_ensures(f, (x,), y) ==> y == m(x)
}
/// `m` renames the first n symbols one to one, and `back` is its inverse.
pub open spec fn perm(m: Ren, back: Ren, n: int) -> bool {
    &&& forall|x: Symbol| x.raw < n ==> (#[trigger] m(x)).raw < n && back(m(x)) == x
    &&& forall|x: Symbol| x.raw < n ==> (#[trigger] back(x)).raw < n && m(back(x)) == x
}
pub open spec fn map_ren(m: Ren, s: Seq<Symbol>) -> Seq<Symbol> { Seq::new(s.len(), |i: int| m(s[i])) }
pub fn vx_map_in<F: Fn(Symbol) -> Symbol>(s: &[Symbol], f: &F, Ghost(m): Ghost<Ren>, Ghost(n): Ghost<int>) -> (r: Vec<Symbol>)
    requires computes(*f, m, n), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).raw < n,
    ensures r@ == map_ren(m, s@),
{
    let mut out: Vec<Symbol> = Vec::new();
    let mut k: usize = 0;
    while k < s.len()
        invariant
            0 <= k <= s@.len(), out@.len() == k, computes(*f, m, n), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).raw < n,
            forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == m(s@[i]),
        decreases s@.len() - k,
    {
        assert(s@[k as int].raw < n);
        out.push(f(s[k]));
        k = k + 1;
    }
    assert(out@ =~= map_ren(m, s@));
    out
}
impl SymbolSource {
    // Contract decided under G01; panics for 0.
    #[verifier::external_body]
    pub fn truncate(&mut self, new_len: usize)
        requires new_len > 0,
        ensures final(self).n() == new_len,
            final(self).names@ == (if new_len <= old(self).names@.len() { old(self).names@.take(new_len as int) } else { old(self).names@ }),
    { unimplemented!() }
}
/// Different symbols are renamed differently.
pub open spec fn inj(m: Ren, n: int) -> bool { forall|x: Symbol, y: Symbol| x.raw < n && y.raw < n && #[trigger] m(x) == #[trigger] m(y) ==> x == y }
pub open spec fn in_range(m: Ren, n: int) -> bool { forall|x: Symbol| x.raw < n ==> (#[trigger] m(x)).raw < u32::MAX }
pub proof fn lemma_perm_inj(m: Ren, back: Ren, n: int)
    requires perm(m, back, n), n <= u32::MAX,
    ensures inj(m, n), in_range(m, n),
{
    assert forall|x: Symbol, y: Symbol| x.raw < n && y.raw < n && #[trigger] m(x) == #[trigger] m(y) implies x == y by { assert(back(m(x)) == x && back(m(y)) == y); }
}
pub open spec fn placed(v: Seq<Option<SymbolName>>, old_v: Seq<Option<SymbolName>>, m: Ren, j: int) -> bool {
    m(sym_of(j)).raw < v.len() && v[m(sym_of(j)).ix()] == old_v[j]
}
//@fn cfg-symbol/src/source.rs SymbolSource::remap_symbols
//@impl impl SymbolSource
//@sig FnMut(Symbol<T>) -> Symbol<T> => Fn(Symbol) -> Symbol
//@sig map: F => map: F, Ghost(m): Ghost<Ren>, Ghost(back): Ghost<Ren>
//@rewrite for (name, sym) in self.names.iter().zip(new_source.generate()) { $$b } => for vx_i in 0..self.names.len() { let name = &self.names[vx_i]; let sym = vx_fresh(vx_i); $$b }
//@rewrite_opt SymbolSource::<T>::new() => SymbolSource::new()
//@rewrite_opt new_names.extend(iter::repeat(None).take($$k)) => { let vx_k = $$k; vx_grow(&mut new_names, vx_k) }
//@rewrite_opt new_names[$i] = $$e; => new_names.set($i, $$e);
//@rewrite_opt name.clone() => vx_name_clone(name)
//@rewrite_opt vec![] => Vec::<Option<SymbolName>>::new()
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).names@.len() <= u32::MAX,
        computes(map, m, old(self).names@.len() as int), in_range(m, old(self).names@.len() as int),
    ensures
        final(self).next_symbol == old(self).next_symbol,
        perm(m, back, old(self).names@.len() as int) ==> final(self).names@.len() == old(self).names@.len(),
        inj(m, old(self).names@.len() as int) ==> forall|i: int| 0 <= i < old(self).names@.len() ==> #[trigger] placed(final(self).names@, old(self).names@, m, i),
//@at begin
    let ghost n = self.names@.len() as int;
    proof { if perm(m, back, n) { lemma_perm_inj(m, back, n); } }
//@loop 0
    invariant
        __i0 <= __e0, __e0 == n, *self == *old(self), perm(m, back, n) ==> new_names@.len() <= n,
        inj(m, n) ==> forall|j: int| 0 <= j < __i0 ==> #[trigger] placed(new_names@, self.names@, m, j),
    decreases __e0 - __i0,
//@at loop0.begin
    let ghost j0 = __i0 as int - 1;
    let ghost before = new_names@;
    proof {
        let s = sym_of(j0);
        assert(s.raw < n);
        assert(m(s).raw < u32::MAX);
        if perm(m, back, n) { assert(back(m(s)) == s && m(s).raw < n); }
    }
//@at loop0.end
    proof {
        assert forall|j: int| inj(m, n) && 0 <= j < __i0 implies #[trigger] placed(new_names@, self.names@, m, j) by {
            let s = sym_of(j);
            assert(s.raw == j);
            if j < j0 {
                assert(placed(before, self.names@, m, j));
                assert(sym_of(j0).raw == j0);
                assert(m(s) != m(sym_of(j0)));
                assert(m(s).raw != m(sym_of(j0)).raw);
            }
        }
    }
//@at end
    proof {
        if n > 0 && perm(m, back, n) {
            let t = sym_of(n - 1);
            assert(t.raw == n - 1);
            let s = back(t);
            assert(m(s) == t && s.raw < n);
            assert(sym_of(s.ix()) == s);
            assert(placed(self.names@, old(self).names@, m, s.ix()));
        }
    }
//@end
// ---- mappings
impl Mapping {
    /// The two directions agree.
    pub open spec fn bij(self) -> bool {
        &&& forall|x: int| 0 <= x < self.to_internal@.len() ==> (#[trigger] self.to_internal@[x] matches Some(y) ==> y.raw < self.to_external@.len() && self.to_external@[y.ix()].ix() == x)
        &&& forall|k: int| 0 <= k < self.to_external@.len() ==> (#[trigger] self.to_external@[k]).raw < self.to_internal@.len() && self.to_internal@[self.to_external@[k].ix()] == Some(sym_of(k))
    }
    /// A renaming of the first n symbols.
    pub open spec fn total(self, n: int) -> bool { self.bij() && self.to_internal@.len() == n && self.to_external@.len() == n && n <= u32::MAX }
    pub open spec fn forth(self) -> Ren { |x: Symbol| self.to_internal@[x.ix()]->0 }
    pub open spec fn back(self) -> Ren { |x: Symbol| self.to_external@[x.ix()] }
    pub open spec fn then(self, o: Mapping, x: int) -> Option<Symbol> {
        match self.to_internal@[x] { Some(y) => if y.raw < o.to_internal@.len() { o.to_internal@[y.ix()] } else { None }, None => None }
    }
}
/// `c` is `a` followed by `b`, both ways.
pub open spec fn composed(a: Mapping, b: Mapping, c: Mapping) -> bool {
    &&& c.to_internal@.len() == a.to_internal@.len() && forall|x: int| 0 <= x < a.to_internal@.len() ==> #[trigger] c.to_internal@[x] == a.then(b, x)
    &&& c.to_external@.len() == b.to_external@.len() && forall|k: int| 0 <= k < b.to_external@.len() ==> #[trigger] c.to_external@[k] == a.to_external@[b.to_external@[k].ix()]
}
pub proof fn lemma_composed(a: Mapping, b: Mapping, c: Mapping)
    requires a.bij(), b.bij(), composed(a, b, c), b.to_internal@.len() <= a.to_external@.len(), a.to_external@.len() <= u32::MAX,
    ensures c.bij(),
{
    assert forall|x: int| 0 <= x < c.to_internal@.len() implies (#[trigger] c.to_internal@[x] matches Some(y) ==> y.raw < c.to_external@.len() && c.to_external@[y.ix()].ix() == x) by {
        if c.to_internal@[x] is Some {
            let y = c.to_internal@[x]->0;
            assert(c.to_internal@[x] == a.then(b, x));
            let z = a.to_internal@[x]->0;
            assert(b.to_internal@[z.ix()] == Some(y));
            assert(c.to_external@[y.ix()] == a.to_external@[b.to_external@[y.ix()].ix()]);
        }
    }
    assert forall|k: int| 0 <= k < c.to_external@.len() implies (#[trigger] c.to_external@[k]).raw < c.to_internal@.len() && c.to_internal@[c.to_external@[k].ix()] == Some(sym_of(k)) by {
        let z = b.to_external@[k];
        assert(b.to_internal@[z.ix()] == Some(sym_of(k)));
        let x = a.to_external@[z.ix()];
        assert(a.to_internal@[x.ix()] == Some(sym_of(z.ix())));
        assert(c.to_external@[k] == x);
        assert(c.to_internal@[x.ix()] == a.then(b, x.ix()));
        assert(sym_of(z.ix()) == z);
    }
}
pub proof fn lemma_total_perm(mp: Mapping, n: int)
    requires mp.total(n), forall|x: int| 0 <= x < n ==> #[trigger] mp.to_internal@[x] is Some,
    ensures perm(mp.forth(), mp.back(), n),
{
    let m = mp.forth(); let back = mp.back();
    assert forall|x: Symbol| x.raw < n implies m(x).raw < n && back(x).raw < n && back(#[trigger] m(x)) == x && m(#[trigger] back(x)) == x by {
        assert(mp.to_internal@[x.ix()] is Some);
        let e = mp.to_external@[x.ix()];
        assert(mp.to_internal@[e.ix()] == Some(sym_of(x.ix())));
        assert(sym_of(x.ix()) == x);
        let y = mp.to_internal@[x.ix()]->0;
        assert(mp.to_external@[y.ix()].ix() == x.raw);
        assert(sym_of(mp.to_external@[y.ix()].ix()) == mp.to_external@[y.ix()]);
    }
}
//@fn cfg-symbol/src/intern.rs Mapping::new
//@rewrite_opt vec![None; $$n] => vx_nones($$n)
//@rewrite_opt vec![] => Vec::<Symbol>::new()
    ensures ret.to_internal@ == Seq::new(num_external as nat, |i: int| None::<Symbol>), ret.to_external@.len() == 0,
//@end
//@fn cfg-symbol/src/intern.rs Mapping::translate
//@rewrite_opt &mut self.to_internal[..] => &mut self.to_internal
//@rewrite_opt $v.get($$i).and_then(|&x| x) => vx_get_flat(&$v, $$i)
//@rewrite_opt $v.get($$i).copied().flatten() => vx_get_flat(&$v, $$i)
//@rewrite_opt other.to_external.iter().map(|middle| $$b).collect() => { let mut vx_out: Vec<Symbol> = Vec::new(); for vx_i in 0..other.to_external.len() { let middle = &other.to_external[vx_i]; vx_out.push($$b); } vx_out }
//@rewrite_opt other.to_external.iter().map(|&middle| $$b).collect() => { let mut vx_out: Vec<Symbol> = Vec::new(); for vx_i in 0..other.to_external.len() { let middle = other.to_external[vx_i]; vx_out.push($$b); } vx_out }
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires forall|k: int| 0 <= k < other.to_external@.len() ==> (#[trigger] other.to_external@[k]).raw < old(self).to_external@.len(),
    ensures composed(*old(self), *other, *final(self)),
//@loop 0
    invariant
        __i0 <= self.to_internal@.len(), self.to_external == old(self).to_external, self.to_internal@.len() == old(self).to_internal@.len(),
        forall|x: int| 0 <= x < __i0 ==> #[trigger] self.to_internal@[x] == old(self).then(*other, x),
        forall|x: int| __i0 <= x < self.to_internal@.len() ==> #[trigger] self.to_internal@[x] == old(self).to_internal@[x],
    decreases self.to_internal@.len() - __i0,
//@loop 1
    invariant
        __i1 <= __e1, __e1 == other.to_external@.len(), vx_out@.len() == __i1,
        forall|k: int| 0 <= k < __i1 ==> #[trigger] vx_out@[k] == old(self).to_external@[other.to_external@[k].ix()],
    decreases __e1 - __i1,
//@end
// ---- renaming a grammar
pub open spec fn rec_ren(m: Ren, r: CfgRule) -> Rec { Rec { l: m(r.lhs), r: map_ren(m, r.rhs@), h: r.history } }
pub open spec fn recs_ren(m: Ren, rs: Seq<CfgRule>) -> Seq<Rec> { Seq::new(rs.len(), |i: int| rec_ren(m, rs[i])) }
pub open spec fn unmoved(m: Ren, r: CfgRule) -> bool { m(r.lhs) == r.lhs && forall|j: int| 0 <= j < r.rhs@.len() ==> m(#[trigger] r.rhs@[j]) == r.rhs@[j] }
pub open spec fn unmoved_of(m: Ren, rs: Seq<CfgRule>) -> Seq<bool> { Seq::new(rs.len(), |i: int| unmoved(m, rs[i])) }
pub open spec fn moved_of(m: Ren, rs: Seq<CfgRule>) -> Seq<bool> { Seq::new(rs.len(), |i: int| !unmoved(m, rs[i])) }
pub open spec fn wrapped_ren(m: Ren, w: WrappedRoot) -> WrappedRoot {
    WrappedRoot { start_of_input: m(w.start_of_input), inner_root: m(w.inner_root), end_of_input: m(w.end_of_input), root: m(w.root) }
}
pub open spec fn wrapped_in(w: WrappedRoot, n: int) -> bool { w.start_of_input.raw < n && w.inner_root.raw < n && w.end_of_input.raw < n && w.root.raw < n }
pub open spec fn rule_fits(g: Cfg, r: CfgRule) -> bool { r.rhs@.len() <= g.limit() && r.rhs@.len() < u32::MAX && (g.eliminate_nulling ==> r.rhs@.len() > 0) }
impl Cfg {
    /// What every grammar built with this library satisfies: all symbols are its own, symbols have names on record,
    /// rules are within its limits.
    pub open spec fn good(self) -> bool {
        &&& self.wf() && self.n() <= u32::MAX && self.sym_source.names@.len() == self.n() && self.limit() >= 2
        &&& forall|i: int| 0 <= i < self.rules@.len() ==> rule_fits(self, #[trigger] self.rules@[i])
        &&& forall|i: int| 0 <= i < self.roots@.len() ==> (#[trigger] self.roots@[i]).raw < self.n()
        &&& forall|i: int| 0 <= i < self.wrapped_roots@.len() ==> wrapped_in(#[trigger] self.wrapped_roots@[i], self.n())
    }
}
/// `h` is `g` with all symbols renamed by `m`: no rule is lost, added or changed otherwise.
/// Every symbol of `g` is replaced: in rules, roots and wrapped roots; names follow, if no two symbols get the same.
pub open spec fn mapped(g: Cfg, h: Cfg, m: Ren) -> bool {
    &&& recs(h.rules@).to_multiset() == recs_ren(m, g.rules@).to_multiset()
    &&& h.roots@ == map_ren(m, g.roots@)
    &&& h.wrapped_roots@.len() == g.wrapped_roots@.len() && forall|i: int| 0 <= i < g.wrapped_roots@.len() ==> #[trigger] h.wrapped_roots@[i] == wrapped_ren(m, g.wrapped_roots@[i])
    &&& h.n() == g.n()
    &&& inj(m, g.n()) ==> forall|i: int| 0 <= i < g.n() ==> #[trigger] placed(h.sym_source.names@, g.sym_source.names@, m, i)
    &&& h.rhs_len_invariant == g.rhs_len_invariant && h.eliminate_nulling == g.eliminate_nulling && h.lexemes == g.lexemes
}
pub open spec fn renamed(g: Cfg, h: Cfg, m: Ren) -> bool {
    &&& recs(h.rules@).to_multiset() == recs_ren(m, g.rules@).to_multiset()
    &&& h.roots@ == map_ren(m, g.roots@)
    &&& h.wrapped_roots@.len() == g.wrapped_roots@.len() && forall|i: int| 0 <= i < g.wrapped_roots@.len() ==> #[trigger] h.wrapped_roots@[i] == wrapped_ren(m, g.wrapped_roots@[i])
    &&& h.n() == g.n() && h.sym_source.names@.len() == g.sym_source.names@.len()
    &&& forall|i: int| 0 <= i < g.n() ==> #[trigger] placed(h.sym_source.names@, g.sym_source.names@, m, i)
    &&& h.rhs_len_invariant == g.rhs_len_invariant && h.eliminate_nulling == g.eliminate_nulling && h.lexemes == g.lexemes
}
pub proof fn lemma_push_multiset<A>(s: Seq<A>, x: A)
    ensures s.push(x).to_multiset() == s.to_multiset().insert(x),
{
    s.to_multiset_ensures();
}
/// Rules that stay and rules that move are all the rules.
pub proof fn lemma_parted(m: Ren, rs: Seq<CfgRule>, k: int)
    requires 0 <= k <= rs.len(),
    ensures
        recs_ren(m, selected(rs.take(k), unmoved_of(m, rs))).to_multiset().add(recs_ren(m, selected(rs.take(k), moved_of(m, rs))).to_multiset()) =~= recs_ren(m, rs.take(k)).to_multiset(),
    decreases k,
{
    let a = selected(rs.take(k), unmoved_of(m, rs));
    let b = selected(rs.take(k), moved_of(m, rs));
    if k == 0 {
        assert(recs_ren(m, a) =~= Seq::empty()); assert(recs_ren(m, b) =~= Seq::empty()); assert(recs_ren(m, rs.take(k)) =~= Seq::empty());
        assert(Seq::<Rec>::empty().to_multiset() =~= vstd::multiset::Multiset::empty()) by { Seq::<Rec>::empty().to_multiset_ensures(); }
    } else {
        lemma_parted(m, rs, k - 1);
        assert(rs.take(k).drop_last() =~= rs.take(k - 1));
        let r = rs[k - 1];
        assert(rs.take(k).last() == r);
        let a0 = selected(rs.take(k - 1), unmoved_of(m, rs));
        let b0 = selected(rs.take(k - 1), moved_of(m, rs));
        assert(recs_ren(m, rs.take(k)) =~= recs_ren(m, rs.take(k - 1)).push(rec_ren(m, r)));
        lemma_push_multiset(recs_ren(m, rs.take(k - 1)), rec_ren(m, r));
        if unmoved(m, r) {
            assert(recs_ren(m, a) =~= recs_ren(m, a0).push(rec_ren(m, r)));
            lemma_push_multiset(recs_ren(m, a0), rec_ren(m, r));
        } else {
            assert(recs_ren(m, b) =~= recs_ren(m, b0).push(rec_ren(m, r)));
            lemma_push_multiset(recs_ren(m, b0), rec_ren(m, r));
        }
    }
}
pub proof fn lemma_unmoved_all(m: Ren, rs: Seq<CfgRule>, k: int)
    requires 0 <= k <= rs.len(),
    ensures recs_ren(m, selected(rs.take(k), unmoved_of(m, rs))) =~= recs(selected(rs.take(k), unmoved_of(m, rs))),
    decreases k,
{
    if k > 0 {
        lemma_unmoved_all(m, rs, k - 1);
        assert(rs.take(k).drop_last() =~= rs.take(k - 1));
        let r = rs[k - 1];
        assert(rs.take(k).last() == r);
        let a0 = selected(rs.take(k - 1), unmoved_of(m, rs));
        if unmoved(m, r) {
            assert(map_ren(m, r.rhs@) =~= r.rhs@);
            assert(rec_ren(m, r) == rec(r));
            assert(recs_ren(m, a0.push(r)) =~= recs_ren(m, a0).push(rec_ren(m, r)));
            assert(recs(a0.push(r)) =~= recs(a0).push(rec(r)));
        }
    }
}
/// What the loops do: first the rules that stay, then the others renamed.
pub proof fn lemma_renamed_rules(m: Ren, rs: Seq<CfgRule>, new: Seq<CfgRule>)
    requires ({
        let a = selected(rs, unmoved_of(m, rs)); let b = selected(rs, moved_of(m, rs));
        recs(new) == recs(a) + recs_ren(m, b)
    }),
    ensures recs(new).to_multiset() == recs_ren(m, rs).to_multiset(),
{
    let a = selected(rs, unmoved_of(m, rs)); let b = selected(rs, moved_of(m, rs));
    assert(rs.take(rs.len() as int) =~= rs);
    lemma_parted(m, rs, rs.len() as int);
    lemma_unmoved_all(m, rs, rs.len() as int);
    vstd::seq_lib::lemma_multiset_commutative(recs(a), recs_ren(m, b));
}
pub fn vx_sym_ren<F: Fn(Symbol) -> Symbol>(f: F) -> (r: F)
    ensures r == f,
{ f }
pub fn vx_sym_cmp<F: Fn(Symbol, Symbol) -> std::cmp::Ordering>(f: F) -> (r: F)
    ensures r == f,
{ f }
//@fn cfg-grammar/src/cfg.rs Cfg::set_roots
//@sig impl AsRef<[Symbol]> => &[Symbol]
//@rewrite_opt roots.as_ref().iter().copied().collect() => vx_to_vec(roots)
    ensures *final(self) == (Cfg { roots: final(self).roots, ..*old(self) }), final(self).roots@ == roots@,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::set_wrapped_roots
//@rewrite_opt $x.into() => vx_wrapped_vec($x)
    ensures *final(self) == (Cfg { wrapped_roots: final(self).wrapped_roots, ..*old(self) }), final(self).wrapped_roots@ == wrapped_roots@,
//@end
//@bodyis cfg-grammar/src/cfg.rs Cfg::retain :: self.rules.retain(f);
//@bodyis cfg-symbol-bit-matrix/src/remap_symbols.rs CfgRemapSymbolsExt for Cfg::remap :: Remap::new(self)
//@fn cfg-symbol-bit-matrix/src/remap_symbols.rs Remap::new
//@impl impl<'a> Remap<'a>
//@rewrite_opt SymbolSource::generate_fresh().take($$n).map(Some).collect() => vx_somes(vx_ids($$n))
//@rewrite_opt SymbolSource::generate_fresh().take($$n).collect() => vx_ids($$n)
    requires old(grammar).n() <= u32::MAX,
    ensures
        *ret.grammar == *old(grammar), *final(ret.grammar) == *final(grammar),
        ret.mapping.total(ret.grammar.n()), forall|x: int| 0 <= x < old(grammar).n() ==> #[trigger] ret.mapping.to_internal@[x] == Some(sym_of(x)),
//@end
//@fn cfg-symbol-bit-matrix/src/remap_symbols.rs Remap::remap_symbols
//@impl impl<'a> Remap<'a>
//@sig mut map: F => map: F, Ghost(m): Ghost<Ren>, Ghost(back): Ghost<Ren>
//@sig FnMut(Symbol) -> Symbol => Fn(Symbol) -> Symbol
//@rewrite_opt self.grammar.retain(|rule| $$b); => let vx_old = vx_take_rules(&mut self.grammar.rules); for rule in vx_old.iter() { let vx_keep: bool = $$b; if vx_keep { self.grammar.rules.push(vx_clone_rule(rule)); } }
//@rewrite_opt vec![] => Vec::<CfgRule>::new()
//@rewrite_opt rule.rhs.iter().all(|&sym| $$c) => vx_all(&rule.rhs, |vx_s: &Symbol| -> (r: bool) requires vx_s.raw < n ensures r == (m(*vx_s) == *vx_s) { let sym = *vx_s; $$c })
//@rewrite_opt $r.rhs.iter().cloned().map(&mut map).collect() => vx_rc(vx_map_in(&$r.rhs, &map, Ghost(m), Ghost(n)).as_slice())
//@rewrite_opt $r.rhs.iter().copied().map(&mut map).collect() => vx_rc(vx_map_in(&$r.rhs, &map, Ghost(m), Ghost(n)).as_slice())
//@rewrite_opt self.grammar.roots().iter().copied().map(&mut map).collect() => vx_map_in(self.grammar.roots(), &map, Ghost(m), Ghost(n))
//@rewrite_opt let wrapped_roots: Vec<_> = self.grammar.wrapped_roots().iter().copied().map(|mut wrapped_root| { $$b }).collect(); => let vx_ws = vx_wrapped_vec(self.grammar.wrapped_roots()); let mut wrapped_roots: Vec<WrappedRoot> = Vec::new(); for vx_w in vx_ws.iter() { let mut wrapped_root = *vx_w; let vx_r = { $$b }; wrapped_roots.push(vx_r); }
//@rewrite_opt &roots[..] => roots.as_slice()
//@rewrite_opt &wrapped_roots[..] => wrapped_roots.as_slice()
//@rewrite_opt self.grammar.sym_source_mut().remap_symbols(map) => self.grammar.sym_source.remap_symbols(map, Ghost(m), Ghost(back))
//@for 1 value
//@loops for for for
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).grammar.good(), computes(map, m, old(self).grammar.n()), in_range(m, old(self).grammar.n()),
    ensures
        final(self).mapping == old(self).mapping, *final(final(self).grammar) == *final(old(self).grammar),
        mapped(*old(self).grammar, *final(self).grammar, m),
        perm(m, back, old(self).grammar.n()) ==> renamed(*old(self).grammar, *final(self).grammar, m) && final(self).grammar.good(),
//@at begin
    let ghost g = *self.grammar;
    let ghost rs = g.rules@;
    let ghost n = g.n();
    let ghost um = unmoved_of(m, rs);
    let ghost mv = moved_of(m, rs);
//@at loop0.pre
    proof { assert(rs.take(0) =~= Seq::empty()); assert(recs_ren(m, Seq::<CfgRule>::empty()) =~= Seq::empty()); assert(recs(added_rules@) =~= Seq::empty()); }
//@loop 0
    invariant
        __i0 <= __s0.len(), __s0@ == rs,
        same_but_rules(*self.grammar, g), self.mapping == old(self).mapping, *final(self.grammar) == *final(old(self).grammar),
        self.grammar.rules@ == selected(rs.take(__i0 as int), um),
        recs(added_rules@) == recs_ren(m, selected(rs.take(__i0 as int), mv)),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost i = __i0 as int - 1;
    let ghost add0 = added_rules@;
    proof {
        assert(rs.take(i + 1).drop_last() =~= rs.take(i));
        assert(rs.take(i + 1).last() == rs[i]);
        assert(rule_in(rs[i], n));
    }
//@at loop0.end
    proof {
        let r = rs[i];
        let b0 = selected(rs.take(i), mv);
        if !unmoved(m, r) {
            assert(recs_ren(m, b0.push(r)) =~= recs_ren(m, b0).push(rec_ren(m, r)));
            assert(added_rules@ == add0.push(added_rules@.last()));
            assert(recs(added_rules@) =~= recs(add0).push(rec(added_rules@.last())));
        }
    }
//@at loop1.pre
    let ghost a = self.grammar.rules@;
    let ghost adds = added_rules@;
    let ghost b = selected(rs, mv);
    proof {
        assert(rs.take(rs.len() as int) =~= rs);
        assert(a == selected(rs, um) && recs(adds) == recs_ren(m, b));
        assert(recs(a) + recs(adds).take(0) =~= recs(a));
        lemma_selected_in(rs, mv);
    }
//@loop 1
    invariant
        __i1 <= __s1.len(), __s1@ == adds,
        self.grammar.same_rest(g), self.grammar.sym_source == g.sym_source, self.mapping == old(self).mapping, *final(self.grammar) == *final(old(self).grammar),
        recs(self.grammar.rules@) == recs(a) + recs(adds).take(__i1 as int),
    decreases __s1.len() - __i1,
//@at loop1.begin
    let ghost g1 = *self.grammar;
    let ghost j1 = __i1 as int - 1;
    proof {
        let r = adds[j1];
        assert(recs(adds)[j1] == rec(r));
        assert(recs_ren(m, b)[j1] == rec_ren(m, b[j1]));
        assert(rs.contains(b[j1]));
        let z = choose|z: int| 0 <= z < rs.len() && #[trigger] rs[z] == b[j1];
        assert(rule_fits(g, rs[z]));
        assert(r.rhs@.len() == b[j1].rhs@.len());
        lemma_chain_len(r.lhs, r.rhs@, n, g.limit());
    }
//@at loop1.end
    proof {
        let r = adds[j1];
        let p = added_prods(g1, r.lhs, r.rhs@);
        assert(p.len() == 1);
        let new = self.grammar.rules@;
        let len = new.len() as int;
        assert(prod_seq(new).len() == len);
        assert(len == g1.rules@.len() + 1);
        assert(prod_seq(new)[len - 1] == p[0]);
        assert(prod_of(new[len - 1]) == prod_of(r));
        assert(new[len - 1].history == r.history);
        assert(rec(new[len - 1]) == rec(r));
        assert forall|j: int| 0 <= j < len - 1 implies #[trigger] new[j] == g1.rules@[j] by { assert(new.take(len - 1)[j] == new[j]); }
        assert(recs(new) =~= recs(g1.rules@).push(rec(r)));
        assert(recs(adds).take(j1 + 1) =~= recs(adds).take(j1).push(rec(r)));
        assert(recs(a) + recs(adds).take(j1).push(rec(r)) =~= (recs(a) + recs(adds).take(j1)).push(rec(r)));
    }
//@at loop1.post
    let ghost g2 = *self.grammar;
    proof {
        assert(recs(adds).take(adds.len() as int) =~= recs(adds));
        lemma_renamed_rules(m, rs, g2.rules@);
    }
//@loop 2
    invariant
        __i2 <= __s2.len(), __s2@ == g.wrapped_roots@, wrapped_roots@.len() == __i2,
        forall|j: int| 0 <= j < __i2 ==> #[trigger] wrapped_roots@[j] == wrapped_ren(m, g.wrapped_roots@[j]),
    decreases __s2.len() - __i2,
//@at loop2.begin
    proof { assert(wrapped_in(g.wrapped_roots@[__i2 as int - 1], n)); }
//@at end
    proof {
        assert(mapped(g, *self.grammar, m));
        if perm(m, back, n) {
            lemma_perm_inj(m, back, n);
            assert(renamed(g, *self.grammar, m));
            lemma_renamed_good(g, *self.grammar, m, back);
        }
    }
//@end
pub open spec fn from_old(g: Cfg, r: CfgRule, m: Ren) -> bool { exists|z: int| 0 <= z < g.rules@.len() && rec(r) == rec_ren(m, #[trigger] g.rules@[z]) }
pub open spec fn in_new(h: Cfg, r: CfgRule, m: Ren) -> bool { exists|i: int| 0 <= i < h.rules@.len() && rec(#[trigger] h.rules@[i]) == rec_ren(m, r) }
pub proof fn lemma_same_recs(g: Cfg, h: Cfg, m: Ren)
    requires mapped(g, h, m),
    ensures
        forall|i: int| 0 <= i < h.rules@.len() ==> from_old(g, #[trigger] h.rules@[i], m),
        forall|z: int| 0 <= z < g.rules@.len() ==> in_new(h, #[trigger] g.rules@[z], m),
{
    let a = recs(h.rules@); let b = recs_ren(m, g.rules@);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < h.rules@.len() implies from_old(g, #[trigger] h.rules@[i], m) by {
        assert(a[i] == rec(h.rules@[i]));
        assert(a.contains(a[i]));
        assert(a.to_multiset().count(a[i]) > 0);
        assert(b.contains(a[i]));
        let z = choose|z: int| 0 <= z < b.len() && b[z] == a[i];
        assert(b[z] == rec_ren(m, g.rules@[z]));
    }
    assert forall|z: int| 0 <= z < g.rules@.len() implies in_new(h, #[trigger] g.rules@[z], m) by {
        assert(b[z] == rec_ren(m, g.rules@[z]));
        assert(b.contains(b[z]));
        assert(b.to_multiset().count(b[z]) > 0);
        assert(a.contains(b[z]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[z];
        assert(a[i] == rec(h.rules@[i]));
    }
}
pub open spec fn image(m: Ren, p: Prod) -> Prod { Prod { l: m(p.l), r: map_ren(m, p.r) } }
pub open spec fn is_image(m: Ren, ps: ISet<Prod>, q: Prod) -> bool { exists|p: Prod| #[trigger] ps.contains(p) && q == image(m, p) }
/// The productions are the images of the productions: none is lost, none is made up.
pub proof fn lemma_mapped_prods(g: Cfg, h: Cfg, m: Ren)
    requires mapped(g, h, m),
    ensures forall|q: Prod| #[trigger] prods(h.rules@).contains(q) <==> is_image(m, prods(g.rules@), q),
{
    lemma_same_recs(g, h, m);
    assert forall|q: Prod| #[trigger] prods(h.rules@).contains(q) <==> is_image(m, prods(g.rules@), q) by {
        if prods(h.rules@).contains(q) {
            let i = choose|i: int| 0 <= i < h.rules@.len() && (#[trigger] h.rules@[i]).lhs == q.l && h.rules@[i].rhs@ == q.r;
            assert(from_old(g, h.rules@[i], m));
            let z = choose|z: int| 0 <= z < g.rules@.len() && rec(h.rules@[i]) == rec_ren(m, #[trigger] g.rules@[z]);
            let p = Prod { l: g.rules@[z].lhs, r: g.rules@[z].rhs@ };
            assert(prods(g.rules@).contains(p));
            assert(q == image(m, p));
        }
        if is_image(m, prods(g.rules@), q) {
            let p = choose|p: Prod| #[trigger] prods(g.rules@).contains(p) && q == image(m, p);
            let z = choose|z: int| 0 <= z < g.rules@.len() && (#[trigger] g.rules@[z]).lhs == p.l && g.rules@[z].rhs@ == p.r;
            assert(in_new(h, g.rules@[z], m));
            let i = choose|i: int| 0 <= i < h.rules@.len() && rec(#[trigger] h.rules@[i]) == rec_ren(m, g.rules@[z]);
            assert(h.rules@[i].lhs == q.l && h.rules@[i].rhs@ == q.r);
        }
    }
}
pub proof fn lemma_renamed_good(g: Cfg, h: Cfg, m: Ren, back: Ren)
    requires g.good(), renamed(g, h, m), perm(m, back, g.n()),
    ensures h.good(), forall|s: Symbol| s.raw < g.n() ==> (#[trigger] occurs(h.rules@, m(s)) <==> occurs(g.rules@, s)),
{
    let n = g.n();
    lemma_same_recs(g, h, m);
    assert forall|i: int| 0 <= i < h.rules@.len() implies rule_fits(h, #[trigger] h.rules@[i]) && rule_in(h.rules@[i], n) by {
        assert(from_old(g, h.rules@[i], m));
        let z = choose|z: int| 0 <= z < g.rules@.len() && rec(h.rules@[i]) == rec_ren(m, #[trigger] g.rules@[z]);
        let o = g.rules@[z];
        assert(rule_fits(g, o) && rule_in(o, n));
        assert(h.rules@[i].rhs@ == map_ren(m, o.rhs@));
        assert forall|j: int| 0 <= j < h.rules@[i].rhs@.len() implies (#[trigger] h.rules@[i].rhs@[j]).raw < n by { assert(o.rhs@[j].raw < n); }
    }
    assert forall|s: Symbol| s.raw < n implies (#[trigger] occurs(h.rules@, m(s)) <==> occurs(g.rules@, s)) by {
        if occurs(g.rules@, s) {
            let z = choose|z: int| 0 <= z < g.rules@.len() && ((#[trigger] g.rules@[z]).lhs == s || g.rules@[z].has(s));
            assert(in_new(h, g.rules@[z], m));
            let i = choose|i: int| 0 <= i < h.rules@.len() && rec(#[trigger] h.rules@[i]) == rec_ren(m, g.rules@[z]);
            if g.rules@[z].lhs != s {
                let j = choose|j: int| 0 <= j < g.rules@[z].rhs@.len() && g.rules@[z].rhs@[j] == s;
                assert(h.rules@[i].rhs@[j] == m(s));
            }
        }
        if occurs(h.rules@, m(s)) {
            let i = choose|i: int| 0 <= i < h.rules@.len() && ((#[trigger] h.rules@[i]).lhs == m(s) || h.rules@[i].has(m(s)));
            assert(from_old(g, h.rules@[i], m));
            let z = choose|z: int| 0 <= z < g.rules@.len() && rec(h.rules@[i]) == rec_ren(m, #[trigger] g.rules@[z]);
            let o = g.rules@[z];
            assert(rule_in(o, n));
            if h.rules@[i].lhs == m(s) { assert(back(m(s)) == s && back(m(o.lhs)) == o.lhs); }
            else {
                let j = choose|j: int| 0 <= j < h.rules@[i].rhs@.len() && h.rules@[i].rhs@[j] == m(s);
                assert(h.rules@[i].rhs@[j] == m(o.rhs@[j]));
                assert(o.rhs@[j].raw < n);
                assert(back(m(s)) == s && back(m(o.rhs@[j])) == o.rhs@[j]);
            }
        }
    }
}
/// `e` lists the first n symbols, each once, in the order `o`; those that compare equal by number.
pub open spec fn sorted_ids(e: Seq<Symbol>, o: Ord2, n: int) -> bool {
    &&& e.to_multiset() == ids(n).to_multiset() && e.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> le(o, #[trigger] e[i], #[trigger] e[j]) && (le(o, e[j], e[i]) ==> e[i].raw < e[j].raw)
}
pub proof fn lemma_ids(e: Seq<Symbol>, n: int)
    requires e.to_multiset() == ids(n).to_multiset(), 0 <= n <= u32::MAX,
    ensures e.len() == n, e.no_duplicates(), forall|s: Symbol| #[trigger] e.contains(s) <==> s.raw < n,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let d = ids(n);
    assert(d.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies d[i] != d[j] by { assert(d[i].raw == i && d[j].raw == j); }
    }
    assert(e.len() == e.to_multiset().len() && d.len() == d.to_multiset().len());
    d.lemma_multiset_has_no_duplicates();
    e.lemma_multiset_has_no_duplicates_conv();
    assert forall|s: Symbol| #[trigger] e.contains(s) <==> s.raw < n by {
        assert(e.contains(s) <==> e.to_multiset().count(s) > 0);
        assert(d.contains(s) <==> d.to_multiset().count(s) > 0);
        if s.raw < n { assert(d[s.ix()] == s); }
        if d.contains(s) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s; assert(s == sym_of(i)); }
    }
}
/// The effect of reordering the symbols of `g` so that they are listed by `e`: `mp` is the renaming.
pub open spec fn reordered(g: Cfg, h: Cfg, mp: Mapping) -> bool {
    &&& mp.total(g.n()) && perm(mp.forth(), mp.back(), g.n())
    &&& renamed(g, h, mp.forth())
}
//@fn cfg-symbol-bit-matrix/src/remap_symbols.rs Remap::reorder_symbols
//@impl impl<'a> Remap<'a>
//@sig f: F => f: F, Ghost(o): Ghost<Ord2>
//@rewrite_opt SymbolSource::generate_fresh().take($$n).collect() => vx_ids($$n)
//@rewrite $v.sort_by(|&a, &b| f(a, b)) => vx_sort_syms(&mut $v, &f, Ghost(o), Ghost(n))
//@rewrite for (before, after) in new_mapping.to_external.iter().cloned().zip(SymbolSource::generate_fresh()) { $$b } => for vx_i in 0..new_mapping.to_external.len() { let before = new_mapping.to_external[vx_i]; let after = vx_fresh(vx_i); $$b }
//@rewrite_opt new_mapping.to_internal[$$i] = $$e; => new_mapping.to_internal.set($$i, $$e);
//@rewrite self.remap_symbols(|sym| $$b); => let vx_f = vx_sym_ren(|sym: Symbol| -> (r: Symbol) requires sym.raw < n, new_mapping.to_internal@.len() == n, new_mapping.to_internal@[sym.ix()] is Some ensures r == new_mapping.to_internal@[sym.ix()]->0 { $$b }); self.remap_symbols(vx_f, Ghost(new_mapping.forth()), Ghost(new_mapping.back()));
//@rewrite_opt $v.to_internal[$$i].unwrap() => vx_some_or_panic($v.to_internal[$$i])
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).grammar.good(), old(self).mapping.bij(), old(self).grammar.n() <= old(self).mapping.to_external@.len() <= u32::MAX,
        computes2(f, o, old(self).grammar.n()), total_order(o, old(self).grammar.n()),
    ensures
        *final(final(self).grammar) == *final(old(self).grammar), final(self).grammar.good(), final(self).mapping.bij(),
        exists|mp: Mapping| #[trigger] reordered(*old(self).grammar, *final(self).grammar, mp) && sorted_ids(mp.to_external@, o, old(self).grammar.n())
            && composed(old(self).mapping, mp, final(self).mapping),
//@at begin
    let ghost g = *self.grammar;
    let ghost n = g.n();
    let ghost mp0 = self.mapping;
//@at loop0.pre
    let ghost e = new_mapping.to_external@;
    proof { lemma_ids(e, n); }
//@loop 0
    invariant
        __i0 <= __e0, __e0 == n, new_mapping.to_external@ == e, new_mapping.to_internal@.len() == n,
        forall|x: int| 0 <= x < n ==> (#[trigger] new_mapping.to_internal@[x] matches Some(y) ==> y.raw < __i0 && e[y.ix()].ix() == x),
        forall|k: int| 0 <= k < __i0 ==> new_mapping.to_internal@[(#[trigger] e[k]).ix()] == Some(sym_of(k)),
    decreases __e0 - __i0,
//@at loop0.begin
    proof {
        let k = __i0 as int - 1;
        assert(e.contains(e[k]));
        assert(sym_of(k).raw == k);
        assert forall|j: int| 0 <= j < k implies (#[trigger] e[j]).ix() != e[k].ix() by { assert(e[j] != e[k]); }
    }
//@at loop0.end
    proof {
        let k = __i0 as int - 1;
        assert forall|j: int| 0 <= j < __i0 implies new_mapping.to_internal@[(#[trigger] e[j]).ix()] == Some(sym_of(j)) by {
            assert(e.contains(e[j]));
            if j < k { assert(e[j].ix() != e[k].ix()); }
        }
    }
//@at loop0.post
    proof {
        assert forall|k: int| 0 <= k < n implies (#[trigger] e[k]).raw < n by { assert(e.contains(e[k])); }
        assert(new_mapping.bij());
        assert forall|x: int| 0 <= x < n implies #[trigger] new_mapping.to_internal@[x] is Some by {
            assert(sym_of(x).raw == x);
            assert(e.contains(sym_of(x)));
            let k = choose|k: int| 0 <= k < e.len() && e[k] == sym_of(x);
            assert(new_mapping.to_internal@[e[k].ix()] == Some(sym_of(k)));
        }
        lemma_total_perm(new_mapping, n);
        lemma_perm_inj(new_mapping.forth(), new_mapping.back(), n);
    }
//@at end
    proof {
        lemma_composed(mp0, new_mapping, self.mapping);
        assert(reordered(g, *self.grammar, new_mapping));
    }
//@end
// ---- removing unused symbols
pub open spec fn unused_order(rs: Seq<CfgRule>) -> Ord2 {
    |a: Symbol, b: Symbol| if occurs(rs, a) == occurs(rs, b) { Ordering::Equal } else if occurs(rs, a) { Ordering::Less } else { Ordering::Greater }
}
/// In a list without duplicates whose used symbols come first, they come before position n - u.
pub proof fn lemma_split(rs: Seq<CfgRule>, e: Seq<Symbol>, n: int, un: Seq<Symbol>)
    requires
        sorted_ids(e, unused_order(rs), n), 0 <= n <= u32::MAX,
        un.no_duplicates(), forall|s: Symbol| #[trigger] un.contains(s) <==> s.raw < n && !occurs(rs, s),
    ensures un.len() <= n, forall|k: int| 0 <= k < n ==> (#[trigger] occurs(rs, e[k]) <==> k < n - un.len()),
{
    lemma_ids(e, n);
    let o = unused_order(rs);
    let p = lemma_first_unused(rs, e, n);
    assert forall|k: int| p <= k < n implies !#[trigger] occurs(rs, e[k]) by {
        if k > p { assert(le(o, e[p], e[k])); }
    }
    let t = e.subrange(p, n);
    assert(t.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(e[p + i] != e[p + j]); }
    }
    assert forall|s: Symbol| #[trigger] t.contains(s) <==> un.contains(s) by {
        if t.contains(s) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == s;
            assert(e[p + i] == s);
            assert(e.contains(s));
            assert(!occurs(rs, e[p + i]));
        }
        if un.contains(s) {
            assert(e.contains(s));
            let k = choose|k: int| 0 <= k < e.len() && e[k] == s;
            if k < p { assert(occurs(rs, e[k])); }
            assert(t[k - p] == s);
        }
    }
    assert(t.to_set() =~= un.to_set());
    t.unique_seq_to_set();
    un.unique_seq_to_set();
}
pub proof fn lemma_first_unused(rs: Seq<CfgRule>, e: Seq<Symbol>, n: int) -> (p: int)
    requires 0 <= n,
    ensures 0 <= p <= n, forall|k: int| 0 <= k < p ==> #[trigger] occurs(rs, e[k]), p < n ==> !occurs(rs, e[p]),
    decreases n,
{
    if n == 0 { 0 } else {
        let q = lemma_first_unused(rs, e, n - 1);
        if q < n - 1 { q } else if occurs(rs, e[n - 1]) { n } else { n - 1 }
    }
}
/// `h` is `g` renamed by `mp` without the symbols that are in no rule: exactly the first of the new symbols remain,
/// and exactly those occur in rules.
pub open spec fn cleaned(g: Cfg, h: Cfg, mp: Mapping) -> bool {
    &&& mp.total(g.n()) && perm(mp.forth(), mp.back(), g.n())
    &&& recs(h.rules@).to_multiset() == recs_ren(mp.forth(), g.rules@).to_multiset()
    &&& h.roots@ == map_ren(mp.forth(), g.roots@)
    &&& h.wrapped_roots@.len() == g.wrapped_roots@.len() && forall|i: int| 0 <= i < g.wrapped_roots@.len() ==> #[trigger] h.wrapped_roots@[i] == wrapped_ren(mp.forth(), g.wrapped_roots@[i])
    &&& forall|s: Symbol| s.raw < g.n() ==> (mp.forth()(s).raw < h.n() <==> #[trigger] occurs(g.rules@, s))
    &&& forall|s: Symbol| s.raw < h.n() <==> #[trigger] occurs(h.rules@, s)
    &&& h.sym_source.names@.len() == h.n() && h.n() <= g.n()
    &&& forall|i: int| 0 <= i < g.n() && occurs(g.rules@, sym_of(i)) ==> #[trigger] placed(h.sym_source.names@, g.sym_source.names@, mp.forth(), i)
    &&& h.rhs_len_invariant == g.rhs_len_invariant && h.eliminate_nulling == g.eliminate_nulling && h.lexemes == g.lexemes
}
pub proof fn lemma_kept(g: Cfg, mp: Mapping, k: int, un: Seq<Symbol>)
    requires
        g.good(), mp.total(g.n()), perm(mp.forth(), mp.back(), g.n()), sorted_ids(mp.to_external@, unused_order(g.rules@), g.n()),
        un.no_duplicates(), forall|s: Symbol| #[trigger] un.contains(s) <==> s.raw < g.n() && !occurs(g.rules@, s),
        k == g.n() - un.len(),
    ensures 0 <= k <= g.n(), forall|s: Symbol| s.raw < g.n() ==> (mp.forth()(s).raw < k <==> #[trigger] occurs(g.rules@, s)),
{
    let n = g.n(); let rs = g.rules@; let e = mp.to_external@; let m = mp.forth(); let back = mp.back();
    lemma_split(rs, e, n, un);
    assert forall|s: Symbol| s.raw < n implies (m(s).raw < k <==> #[trigger] occurs(rs, s)) by {
        assert(back(m(s)) == s);
        assert(e[m(s).ix()] == s);
        assert(occurs(rs, e[m(s).ix()]) <==> m(s).raw < k);
    }
}
pub proof fn lemma_kept_new(g: Cfg, h: Cfg, mp: Mapping, k: int)
    requires
        g.good(), renamed(g, h, mp.forth()), h.good(), perm(mp.forth(), mp.back(), g.n()), 0 <= k <= g.n(),
        forall|s: Symbol| s.raw < g.n() ==> (mp.forth()(s).raw < k <==> #[trigger] occurs(g.rules@, s)),
    ensures forall|s: Symbol| s.raw < k <==> #[trigger] occurs(h.rules@, s),
{
    let n = g.n(); let rs = g.rules@; let m = mp.forth(); let back = mp.back();
    lemma_renamed_good(g, h, m, back);
    assert forall|s: Symbol| s.raw < k <==> #[trigger] occurs(h.rules@, s) by {
        if s.raw < n {
            let t = back(s);
            assert(m(t) == s && t.raw < n);
            assert(occurs(h.rules@, m(t)) <==> occurs(rs, t));
        } else if occurs(h.rules@, s) {
            let i = choose|i: int| 0 <= i < h.rules@.len() && ((#[trigger] h.rules@[i]).lhs == s || h.rules@[i].has(s));
            assert(rule_in(h.rules@[i], n));
        }
    }
}
pub proof fn lemma_cleaned(g: Cfg, h1: Cfg, h: Cfg, mp: Mapping, un: Seq<Symbol>)
    requires
        g.good(), reordered(g, h1, mp), h1.good(), sorted_ids(mp.to_external@, unused_order(g.rules@), g.n()),
        un.no_duplicates(), forall|s: Symbol| #[trigger] un.contains(s) <==> s.raw < g.n() && !occurs(g.rules@, s),
        h.n() == g.n() - un.len(),
        h == (Cfg { sym_source: h.sym_source, ..h1 }), h.sym_source.names@ == h1.sym_source.names@.take(h.n()),
    ensures cleaned(g, h, mp), h.wf(),
{
    let n = g.n(); let rs = g.rules@; let m = mp.forth(); let k = h.n();
    lemma_kept(g, mp, k, un);
    lemma_kept_new(g, h1, mp, k);
    assert forall|i: int| 0 <= i < n && occurs(rs, sym_of(i)) implies #[trigger] placed(h.sym_source.names@, g.sym_source.names@, m, i) by {
        assert(placed(h1.sym_source.names@, g.sym_source.names@, m, i));
        assert(sym_of(i).raw == i);
    }
    assert forall|i: int| 0 <= i < h.rules@.len() implies rule_in(#[trigger] h.rules@[i], k) by {
        let r = h.rules@[i];
        assert(occurs(h1.rules@, r.lhs));
        assert forall|j: int| 0 <= j < r.rhs@.len() implies (#[trigger] r.rhs@[j]).raw < k by {
            assert(r.has(r.rhs@[j]));
            assert(occurs(h1.rules@, r.rhs@[j]));
        }
    }
}
pub open spec fn flags(rs: Seq<CfgRule>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| !occurs(rs, sym_of(i))) }
pub proof fn lemma_unused_order(g: Cfg, o: Ord2, un: Seq<bool>)
    requires g.good(), g.rules@.len() > 0, o == unused_order(g.rules@), un == flags(g.rules@, g.n()),
    ensures
        total_order(o, g.n()), un.len() == g.n(),
        forall|a: Symbol, b: Symbol| a.raw < g.n() && b.raw < g.n() ==> #[trigger] cmp_flags(un, a, b) == o(a, b),
        listed(un, g.n()).no_duplicates(), listed(un, g.n()).len() <= g.n(),
        forall|s: Symbol| #[trigger] listed(un, g.n()).contains(s) <==> s.raw < g.n() && !occurs(g.rules@, s),
        occurs(g.rules@, g.rules@[0].lhs), g.rules@[0].lhs.raw < g.n(),
{
    let n = g.n(); let rs = g.rules@;
    assert forall|s: Symbol| s.raw < n implies #[trigger] un[s.ix()] == !occurs(rs, s) by { assert(sym_of(s.ix()) == s); }
    lemma_listed(un, n);
    assert(rule_in(rs[0], n));
    assert forall|s: Symbol| #[trigger] listed(un, n).contains(s) <==> s.raw < n && !occurs(rs, s) by {
        if s.raw < n { assert(un[s.ix()] == !occurs(rs, s)); }
    }
    assert forall|i: int, j: int| 0 <= i < listed(un, n).len() && 0 <= j < listed(un, n).len() && i != j implies listed(un, n)[i] != listed(un, n)[j] by {
        if i < j { assert(listed(un, n)[i].raw < listed(un, n)[j].raw); } else { assert(listed(un, n)[j].raw < listed(un, n)[i].raw); }
    }
}
//@fn cfg-symbol-bit-matrix/src/remap_symbols.rs Remap::remove_unused_symbols
//@attr #[verifier::rlimit(40)]
//@impl impl<'a> Remap<'a>
//@rewrite self.reorder_symbols(|sym0, sym1| $$b); => proof { assert(unused_symbols@ =~= un); } let vx_f = vx_sym_cmp(|sym0: Symbol, sym1: Symbol| -> (r: Ordering) requires sym0.raw < un.len(), sym1.raw < un.len(), unused_symbols@ == un ensures r == cmp_flags(un, sym0, sym1) { $$b }); self.reorder_symbols(vx_f, Ghost(o)); let ghost h1 = *self.grammar; let ghost mp = choose|mp: Mapping| #[trigger] reordered(g, h1, mp) && sorted_ids(mp.to_external@, o, n) && composed(mp0, mp, self.mapping); proof { let b = listed(un, n); lemma_kept(g, mp, n - b.len(), b); assert(mp.forth()(rs[0].lhs).raw < n - b.len()); }
//@rewrite_opt unused_symbols[$$a].cmp(&unused_symbols[$$b]) => vx_cmp_bool(unused_symbols.index($$a), unused_symbols.index($$b))
//@rewrite_opt unused_symbols.iter().count() => unused_symbols.iter().len()
//@rewrite_opt self.grammar.sym_source_mut().truncate($$k); => { let vx_k = $$k; self.grammar.sym_source.truncate(vx_k); }
    requires
        old(self).grammar.good(), old(self).mapping.bij(), old(self).grammar.n() <= old(self).mapping.to_external@.len() <= u32::MAX,
        // A grammar without rules has no symbols to keep, and the symbol source refuses to be emptied.
        old(self).grammar.rules@.len() > 0,
    ensures
        *final(final(self).grammar) == *final(old(self).grammar), final(self).mapping.bij(), final(self).grammar.wf(),
        exists|mp: Mapping| #[trigger] cleaned(*old(self).grammar, *final(self).grammar, mp) && composed(old(self).mapping, mp, final(self).mapping),
//@at begin
    let ghost g = *self.grammar;
    let ghost n = g.n();
    let ghost rs = g.rules@;
    let ghost o = unused_order(rs);
    let ghost mp0 = self.mapping;
    let ghost un = flags(rs, n);
    proof { lemma_unused_order(g, o, un); }
//@at end
    proof {
        lemma_cleaned(g, h1, *self.grammar, mp, listed(un, n));
        assert(cleaned(g, *self.grammar, mp));
    }
//@end
pub open spec fn cmp_flags(un: Seq<bool>, a: Symbol, b: Symbol) -> Ordering {
    if un[a.ix()] == un[b.ix()] { Ordering::Equal } else if un[b.ix()] { Ordering::Less } else { Ordering::Greater }
}
