// G08: FIRST and LAST sets.
//@struct cfg-predict-sets/src/sets.rs PerSymbolSetVal
pub type PerSymbolSets = BTreeMap<Symbol, PerSymbolSetVal>;
//@contains cfg-predict-sets/src/sets.rs pub type PerSymbolSets = BTreeMap<Symbol, PerSymbolSetVal>;
//@struct cfg-predict-sets/src/first.rs FirstSets
//@bodyis cfg-predict-sets/src/sets.rs Deref for PerSymbolSetVal::deref :: &self.list
//@bodyis cfg-predict-sets/src/sets.rs DerefMut for PerSymbolSetVal::deref_mut :: &mut self.list

// TRUSTED: slice::sort_unstable and Vec::dedup on symbols; BTreeMap::entry().or_insert, get_mut.
pub open spec fn ascending(s: Seq<Symbol>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).raw < (#[trigger] s[j]).raw }
pub open spec fn sorted(s: Seq<Symbol>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).raw <= (#[trigger] s[j]).raw }
#[verifier::external_body]
pub fn vx_sort_syms(v: &mut Vec<Symbol>)
    ensures sorted(final(v)@), forall|x: Symbol| #[trigger] final(v)@.contains(x) == old(v)@.contains(x),
{ v.sort_unstable() }
#[verifier::external_body]
pub fn vx_dedup_syms(v: &mut Vec<Symbol>)
    ensures
        sorted(old(v)@) ==> ascending(final(v)@),
        forall|x: Symbol| #[trigger] final(v)@.contains(x) == old(v)@.contains(x),
{ v.dedup() }
#[verifier::external_body]
pub fn vx_entry_or<'a, K, V>(m: &'a mut BTreeMap<K, V>, k: K, v: V) -> (r: &'a mut V)
    ensures
        *r == (if old(m)@.contains_key(k) { old(m)@[k] } else { v }),
        final(m)@ == old(m)@.insert(k, *final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_rc_slice(s: &Rc<[Symbol]>) -> (r: &[Symbol])
    ensures r@ == s@,
{ &s[..] }
pub fn vx_or(a: bool, b: bool) -> (r: bool)
    ensures r == (a || b),
{ if a { true } else { b } }
// TRUSTED: a vector takes up at most isize::MAX bytes.
#[verifier::external_body]
pub proof fn axiom_vec_len(v: &Vec<Symbol>)
    ensures v@.len() < usize::MAX,
{ }
/// `v.extend(s.iter().copied())`.
pub fn vx_extend_syms(v: &mut Vec<Symbol>, s: &[Symbol])
    ensures final(v)@ == old(v)@ + s@, forall|x: Symbol| #[trigger] final(v)@.contains(x) == (old(v)@.contains(x) || s@.contains(x)),
{
    let mut k: usize = 0;
    while k < s.len()
        invariant 0 <= k <= s@.len(), v@ == old(v)@ + s@.take(k as int),
        decreases s@.len() - k,
    {
        v.push(s[k]);
        k = k + 1;
        proof { assert(v@ =~= old(v)@ + s@.take(k as int)); }
    }
    proof {
        assert(v@ =~= old(v)@ + s@);
        lemma_concat_has(old(v)@, s@);
    }
}
pub proof fn lemma_concat_has(a: Seq<Symbol>, b: Seq<Symbol>)
    ensures forall|x: Symbol| #[trigger] (a + b).contains(x) == (a.contains(x) || b.contains(x)),
{
    let c = a + b;
    assert forall|x: Symbol| #[trigger] c.contains(x) == (a.contains(x) || b.contains(x)) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[a.len() + i] == x); }
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
}
pub proof fn lemma_push_has(a: Seq<Symbol>, y: Symbol)
    ensures forall|x: Symbol| #[trigger] a.push(y).contains(x) == (a.contains(x) || x == y),
{
    let c = a.push(y);
    assert forall|x: Symbol| #[trigger] c.contains(x) == (a.contains(x) || x == y) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
        if x == y { assert(c[a.len() as int] == x); }
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < a.len() { assert(a[i] == x); } }
    }
}
/// An ascending list below n has at most n entries; included in another of the same length it is the same.
pub proof fn lemma_ascending_len(s: Seq<Symbol>, n: int)
    requires ascending(s), below(s, n), n >= 0,
    ensures s.len() <= n,
{
    if s.len() > 0 { lemma_ascending_at(s, s.len() - 1); assert(s[s.len() - 1].raw < n); }
}
pub proof fn lemma_ascending_at(s: Seq<Symbol>, k: int)
    requires ascending(s), 0 <= k < s.len(),
    ensures s[k].raw >= k,
    decreases k,
{
    if k > 0 { lemma_ascending_at(s, k - 1); assert(s[k - 1].raw < s[k].raw); }
}
pub proof fn lemma_ascending_sub(a: Seq<Symbol>, b: Seq<Symbol>)
    requires ascending(a), ascending(b), forall|x: Symbol| #[trigger] a.contains(x) ==> b.contains(x),
    ensures a.len() <= b.len(), a.len() == b.len() ==> forall|x: Symbol| #[trigger] b.contains(x) ==> a.contains(x),
{
    assert(a.no_duplicates());
    assert(b.no_duplicates());
    a.unique_seq_to_set();
    b.unique_seq_to_set();
    assert(a.to_set().subset_of(b.to_set())) by {
        assert forall|x: Symbol| a.to_set().contains(x) implies b.to_set().contains(x) by { assert(a.contains(x)); }
    }
    vstd::set_lib::lemma_len_subset(a.to_set(), b.to_set());
    if a.len() == b.len() {
        vstd::set_lib::lemma_subset_equality(a.to_set(), b.to_set());
        assert forall|x: Symbol| #[trigger] b.contains(x) implies a.contains(x) by { assert(b.to_set().contains(x)); assert(a.to_set().contains(x)); }
    }
}

pub open spec fn below(s: Seq<Symbol>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).raw < n }

// ---- what a FIRST set is
/// A relation between symbols and terminals; None stands for the empty string (FIRST) or the end of input (FOLLOW).
pub type Sets = spec_fn(Symbol, Option<Symbol>) -> bool;
pub open spec fn skips(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, from: int, to: int) -> bool {
    forall|l: int| from <= l < to ==> is_lhs(rs, #[trigger] s[l]) && q(s[l], None)
}
/// The first symbols of strings derived from `y`.
pub open spec fn sym_first(rs: Seq<CfgRule>, q: Sets, y: Symbol, x: Option<Symbol>) -> bool {
    if is_lhs(rs, y) { q(y, x) } else { x == Some(y) }
}
/// The first symbols of a string, after `from`; leading symbols deriving the empty string may be skipped.
pub open spec fn in_first_from(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, from: int, x: Option<Symbol>) -> bool {
    match x {
        None => skips(rs, q, s, from, s.len() as int),
        Some(t) => exists|j: int| from <= j < s.len() && skips(rs, q, s, from, j) && sym_first(rs, q, #[trigger] s[j], Some(t)),
    }
}
pub open spec fn in_first(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, x: Option<Symbol>) -> bool { in_first_from(rs, q, s, 0, x) }
pub open spec fn first_closed_at(rs: Seq<CfgRule>, q: Sets, r: CfgRule) -> bool { forall|x: Option<Symbol>| #[trigger] in_first(rs, q, r.rhs@, x) ==> q(r.lhs, x) }
pub open spec fn first_closed(rs: Seq<CfgRule>, q: Sets) -> bool { forall|i: int| 0 <= i < rs.len() ==> first_closed_at(rs, q, #[trigger] rs[i]) }
/// The least relation that is closed under the rules.
pub open spec fn first(rs: Seq<CfgRule>) -> Sets { |s: Symbol, x: Option<Symbol>| forall|q: Sets| #[trigger] first_closed(rs, q) ==> q(s, x) }
pub open spec fn sub_sets(p: Sets, q: Sets) -> bool { forall|s: Symbol, x: Option<Symbol>| #[trigger] p(s, x) ==> q(s, x) }
pub proof fn lemma_first_mono(rs: Seq<CfgRule>, p: Sets, q: Sets, s: Seq<Symbol>, from: int, x: Option<Symbol>)
    requires sub_sets(p, q), in_first_from(rs, p, s, from, x),
    ensures in_first_from(rs, q, s, from, x),
{
    match x {
        None => {}
        Some(t) => {
            let j = choose|j: int| from <= j < s.len() && skips(rs, p, s, from, j) && sym_first(rs, p, #[trigger] s[j], Some(t));
            assert(skips(rs, q, s, from, j));
            assert(sym_first(rs, q, s[j], Some(t)));
        }
    }
}
/// The least closed relation is closed.
pub proof fn lemma_first_is_closed(rs: Seq<CfgRule>)
    ensures first_closed(rs, first(rs)),
{
    let f = first(rs);
    assert forall|i: int| 0 <= i < rs.len() implies first_closed_at(rs, f, #[trigger] rs[i]) by {
        assert forall|x: Option<Symbol>| #[trigger] in_first(rs, f, rs[i].rhs@, x) implies f(rs[i].lhs, x) by {
            assert forall|q: Sets| #[trigger] first_closed(rs, q) implies q(rs[i].lhs, x) by {
                assert(sub_sets(f, q));
                lemma_first_mono(rs, f, q, rs[i].rhs@, 0, x);
                assert(first_closed_at(rs, q, rs[i]));
                assert(in_first(rs, q, rs[i].rhs@, x));
            }
        }
    }
}
pub proof fn lemma_first_exact(rs: Seq<CfgRule>, p: Sets)
    requires first_closed(rs, p), forall|q: Sets| #[trigger] first_closed(rs, q) ==> sub_sets(p, q),
    ensures p =~= first(rs),
{
    let f = first(rs);
    lemma_first_is_closed(rs);
    assert forall|s: Symbol, x: Option<Symbol>| #[trigger] p(s, x) == f(s, x) by {
        if p(s, x) { assert(sub_sets(p, f)); }
    }
    assert(p =~= f);
}

// ---- the map that is built
pub type SetMap = Map<Symbol, PerSymbolSetVal>;
impl PerSymbolSetVal {
    pub open spec fn in_set(self, x: Option<Symbol>) -> bool { match x { None => self.has_none, Some(t) => self.list@.contains(t) } }
    pub open spec fn size(self) -> int { self.list@.len() + (if self.has_none { 1int } else { 0int }) }
    pub open spec fn proper(self, n: int) -> bool { ascending(self.list@) && below(self.list@, n) }
}
pub open spec fn rel_of(m: SetMap) -> Sets { |s: Symbol, x: Option<Symbol>| m.contains_key(s) && m[s].in_set(x) }
pub open spec fn proper_map(m: SetMap, rs: Seq<CfgRule>, n: int) -> bool {
    forall|s: Symbol| #[trigger] m.contains_key(s) ==> is_lhs(rs, s) && m[s].proper(n)
}
pub open spec fn room(m: SetMap, n: int, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { room(m, n, k - 1) + (n + 1) - (if m.contains_key(sym_of(k - 1)) { m[sym_of(k - 1)].size() } else { 0 }) }
}
pub proof fn lemma_room(m: SetMap, rs: Seq<CfgRule>, n: int, k: int)
    requires proper_map(m, rs, n), 0 <= k <= n,
    ensures room(m, n, k) >= 0,
    decreases k,
{
    if k > 0 {
        lemma_room(m, rs, n, k - 1);
        let s = sym_of(k - 1);
        if m.contains_key(s) { lemma_ascending_len(m[s].list@, n); }
    }
}
pub proof fn lemma_room_insert(m: SetMap, n: int, k: int, s: Symbol, v: PerSymbolSetVal)
    requires 0 <= k <= u32::MAX,
    ensures room(m.insert(s, v), n, k) == room(m, n, k) - (if s.raw < k { v.size() - (if m.contains_key(s) { m[s].size() } else { 0 }) } else { 0 }),
    decreases k,
{
    if k > 0 { lemma_room_insert(m, n, k - 1, s, v); assert(sym_of(k - 1).raw == k - 1); assert(s.raw == k - 1 ==> s == sym_of(k - 1)); }
}
/// Adding `a` to the set of `s`: the union, and a larger set exactly if something is new.
pub open spec fn adds(m: SetMap, w: SetMap, s: Symbol, a: spec_fn(Option<Symbol>) -> bool) -> bool {
    &&& forall|t: Symbol| #[trigger] w.contains_key(t) == (m.contains_key(t) || t == s)
    &&& forall|t: Symbol| #[trigger] m.contains_key(t) && t != s ==> w[t] == m[t]
    &&& forall|x: Option<Symbol>| #[trigger] w[s].in_set(x) == (rel_of(m)(s, x) || a(x))
}
pub proof fn lemma_adds(m: SetMap, w: SetMap, rs: Seq<CfgRule>, n: int, s: Symbol, a: spec_fn(Option<Symbol>) -> bool)
    requires proper_map(m, rs, n), proper_map(w, rs, n), adds(m, w, s, a), s.raw < n, n <= u32::MAX, w == m.insert(s, w[s]),
    ensures
        ({
            let old = if m.contains_key(s) { m[s].size() } else { 0 };
            &&& old <= w[s].size()
            &&& old == w[s].size() ==> rel_of(w) =~= rel_of(m) && forall|x: Option<Symbol>| #[trigger] a(x) ==> rel_of(m)(s, x)
            &&& old != w[s].size() ==> 0 <= room(w, n, n) < room(m, n, n)
            &&& room(w, n, n) == room(m, n, n) - (w[s].size() - old)
        }),
{
    let ol = if m.contains_key(s) { m[s].list@ } else { Seq::empty() };
    let nl = w[s].list@;
    let on = m.contains_key(s) && m[s].has_none;
    assert(w.contains_key(s));
    assert(w[s].proper(n));
    assert(ascending(ol));
    assert forall|x: Symbol| #[trigger] ol.contains(x) implies nl.contains(x) by { assert(rel_of(m)(s, Some(x))); assert(w[s].in_set(Some(x))); }
    lemma_ascending_sub(ol, nl);
    assert(on ==> w[s].has_none) by { assert(w[s].in_set(None) == (rel_of(m)(s, None) || a(None))); }
    let old = if m.contains_key(s) { m[s].size() } else { 0 };
    lemma_room_insert(m, n, n, s, w[s]);
    lemma_room(w, rs, n, n);
    if old == w[s].size() {
        assert(ol.len() == nl.len() && on == w[s].has_none);
        assert forall|t: Symbol, x: Option<Symbol>| #[trigger] rel_of(w)(t, x) == rel_of(m)(t, x) by {
            if t == s {
                match x { None => {} Some(y) => { if nl.contains(y) { assert(ol.contains(y)); } } }
            } else if w.contains_key(t) { assert(m.contains_key(t)); }
        }
        assert(rel_of(w) =~= rel_of(m));
        assert forall|x: Option<Symbol>| #[trigger] a(x) implies rel_of(m)(s, x) by { assert(w[s].in_set(x)); assert(rel_of(w)(s, x)); }
    }
}
impl FirstSets {
    pub open spec fn base(self, g: Cfg) -> bool {
        &&& g.wf() && 0 <= g.n() <= u32::MAX
        &&& self.terminal_set@.len() == g.n() && forall|i: int| 0 <= i < g.n() ==> #[trigger] self.terminal_set@[i] == !is_lhs(g.rules@, sym_of(i))
        &&& proper_map(self.map@, g.rules@, g.n())
    }
    pub open spec fn sound(self, rs: Seq<CfgRule>) -> bool { forall|q: Sets| #[trigger] first_closed(rs, q) ==> sub_sets(rel_of(self.map@), q) }
    /// The sets are the FIRST sets of the grammar.
    pub open spec fn exact(self, g: Cfg) -> bool {
        &&& self.base(g)
        &&& forall|s: Symbol| #[trigger] self.map@.contains_key(s) == is_lhs(g.rules@, s)
        &&& rel_of(self.map@) == first(g.rules@)
    }
}
//@fn cfg-predict-sets/src/sets.rs PerSymbolSetVal::new
//@rewrite_opt vec![] => Vec::<Symbol>::new()
    ensures !ret.has_none, ret.list@.len() == 0,
//@end
//@fn cfg-predict-sets/src/sets.rs PerSymbolSetVal::clear
    ensures !final(self).has_none, final(self).list@.len() == 0,
//@end
//@fn cfg-predict-sets/src/sets.rs PerSymbolSetVal::has_none
    ensures ret == self.has_none,
//@end
//@fn cfg-predict-sets/src/sets.rs PerSymbolSetVal::len
//@rewrite_opt self.has_none as usize => (if self.has_none { 1usize } else { 0usize })
    ensures ret == self.size(),
//@at begin
    proof { axiom_vec_len(&self.list); }
//@end
//@fn cfg-predict-sets/src/first.rs FirstSets::first_set_collect
//@sig rhs: &[Symbol] => rhs: &[Symbol], Ghost(g): Ghost<Cfg>
//@rewrite_opt $x.sort_unstable() => vx_sort_syms(&mut $x)
//@rewrite_opt $x.sort() => vx_sort_syms(&mut $x)
//@rewrite_opt $x.dedup() => vx_dedup_syms(&mut $x)
//@rewrite_opt $x.extend($y.iter().copied()) => vx_extend_syms(&mut $x, $y.as_slice())
//@rewrite_opt self.terminal_set[$$i] => *self.terminal_set.index($$i)
//@rewrite_opt Some(&PerSymbolSetVal { has_none, ref list }) => { $$b } ==>> Some(vx_e) => { let has_none = vx_e.has_none; let list = &vx_e.list; $$b }
//@for 0 ref
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires old(self).base(g), below(rhs@, g.n()), old(self).lookahead.list@.len() == 0, !old(self).lookahead.has_none,
    ensures
        final(self).map == old(self).map, final(self).terminal_set == old(self).terminal_set, final(self).changed == old(self).changed,
        forall|x: Option<Symbol>| #[trigger] final(self).lookahead.in_set(x) == in_first(g.rules@, rel_of(old(self).map@), rhs@, x),
        below(final(self).lookahead.list@, g.n()),
//@at begin
    let ghost m = self.map@;
    let ghost q = rel_of(m);
    let ghost rs = g.rules@;
    let ghost n = g.n();
    broadcast use axiom_symbol_ord;
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == rhs@, self.map == old(self).map, self.terminal_set == old(self).terminal_set, self.changed == old(self).changed,
        !self.lookahead.has_none, below(self.lookahead.list@, n),
        skips(rs, q, rhs@, 0, __i0 as int),
        forall|t: Symbol| #[trigger] self.lookahead.list@.contains(t) == first_upto(rs, q, rhs@, __i0 as int, t),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    let ghost i = __i0 as int - 1;
    let ghost l0 = self.lookahead.list@;
    proof {
        broadcast use axiom_symbol_ord;
        assert(rhs@[i].raw < n);
        assert(sym_of(rhs@[i].ix()) == rhs@[i]);
        lemma_push_has(l0, rhs@[i]);
        lemma_first_upto(rs, q, rhs@, i);
        if m.contains_key(rhs@[i]) { assert(m[rhs@[i]].proper(n)); }
    }
//@at if2.then
    proof {
        lemma_below_of(self.lookahead.list@, l0, rhs@[i], m, n);
        lemma_first_stop(rs, q, rhs@, i);
    }
//@at loop0.end
    proof { lemma_below_of(self.lookahead.list@, l0, rhs@[i], m, n); }
//@end
/// Found among the first `k` positions.
pub open spec fn first_upto(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, k: int, t: Symbol) -> bool {
    exists|j: int| 0 <= j < k && skips(rs, q, s, 0, j) && sym_first(rs, q, #[trigger] s[j], Some(t))
}
pub proof fn lemma_first_upto(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, i: int)
    requires 0 <= i < s.len(), skips(rs, q, s, 0, i),
    ensures
        forall|t: Symbol| #[trigger] first_upto(rs, q, s, i + 1, t) == (first_upto(rs, q, s, i, t) || sym_first(rs, q, s[i], Some(t))),
        first_upto(rs, q, s, i + 1, s[i]) || is_lhs(rs, s[i]),
{
    assert forall|t: Symbol| #[trigger] first_upto(rs, q, s, i + 1, t) == (first_upto(rs, q, s, i, t) || sym_first(rs, q, s[i], Some(t))) by {
        if first_upto(rs, q, s, i, t) { let j = choose|j: int| 0 <= j < i && skips(rs, q, s, 0, j) && sym_first(rs, q, #[trigger] s[j], Some(t)); assert(sym_first(rs, q, s[j], Some(t))); }
    }
}
/// Nothing is found behind a symbol that is not skipped.
pub proof fn lemma_first_stop(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, i: int)
    requires 0 <= i < s.len(), !skips(rs, q, s, 0, i + 1),
    ensures
        !in_first(rs, q, s, None),
        forall|t: Symbol| #[trigger] in_first(rs, q, s, Some(t)) == first_upto(rs, q, s, i + 1, t),
{
    assert(in_first(rs, q, s, None) ==> skips(rs, q, s, 0, i + 1));
    assert forall|t: Symbol| #[trigger] in_first(rs, q, s, Some(t)) == first_upto(rs, q, s, i + 1, t) by {
        if in_first(rs, q, s, Some(t)) {
            let j = choose|j: int| 0 <= j < s.len() && skips(rs, q, s, 0, j) && sym_first(rs, q, #[trigger] s[j], Some(t));
            if j > i { assert(skips(rs, q, s, 0, i + 1)); }
        }
        if first_upto(rs, q, s, i + 1, t) {
            let j = choose|j: int| 0 <= j < i + 1 && skips(rs, q, s, 0, j) && sym_first(rs, q, #[trigger] s[j], Some(t));
            assert(sym_first(rs, q, s[j], Some(t)));
        }
    }
}
pub proof fn lemma_below_of(l: Seq<Symbol>, l0: Seq<Symbol>, y: Symbol, m: SetMap, n: int)
    requires
        below(l0, n), y.raw < n, m.contains_key(y) ==> below(m[y].list@, n),
        forall|t: Symbol| #[trigger] l.contains(t) ==> l0.contains(t) || t == y || (m.contains_key(y) && m[y].list@.contains(t)),
    ensures below(l, n),
{
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).raw < n by {
        assert(l.contains(l[i]));
    }
}

//@fn cfg-predict-sets/src/first.rs FirstSets::process_rule
//@sig rhs: &[Symbol] => rhs: &[Symbol], Ghost(g): Ghost<Cfg>, Ghost(z): Ghost<int>
//@rewrite_opt self.first_set_collect(rhs); => self.first_set_collect(rhs, Ghost(g)); let ghost la = self.lookahead;
//@rewrite_opt $x |= $$y; => $x = vx_or($x, $$y);
//@rewrite_opt prev_cardinality != first_set.len() => { let vx_r = prev_cardinality != first_set.len(); vx_r }
//@rewrite_opt $m.entry($$k).or_insert_with(PerSymbolSetVal::new) => vx_entry_or(&mut $m, $$k, PerSymbolSetVal::new())
//@rewrite_opt $x.sort_unstable() => vx_sort_syms(&mut $x)
//@rewrite_opt $x.dedup() => vx_dedup_syms(&mut $x)
//@rewrite_opt $x.extend($y.iter().cloned()) => vx_extend_syms(&mut $x, $y.as_slice())
    requires
        old(self).base(g), old(self).sound(g.rules@), old(self).lookahead.list@.len() == 0, !old(self).lookahead.has_none,
        0 <= z < g.rules@.len(), lhs == g.rules@[z].lhs, rhs@ == g.rules@[z].rhs@,
    ensures
        final(self).base(g), final(self).sound(g.rules@), final(self).terminal_set == old(self).terminal_set, final(self).changed == old(self).changed,
        final(self).lookahead.list@.len() == 0, !final(self).lookahead.has_none,
        forall|s: Symbol| #[trigger] final(self).map@.contains_key(s) == (old(self).map@.contains_key(s) || s == lhs),
        !ret ==> rel_of(final(self).map@) == rel_of(old(self).map@) && first_closed_at(g.rules@, rel_of(final(self).map@), g.rules@[z]),
        ret ==> 0 <= room(final(self).map@, g.n(), g.n()) < room(old(self).map@, g.n(), g.n()),
        0 <= room(final(self).map@, g.n(), g.n()) <= room(old(self).map@, g.n(), g.n()),
//@at begin
    let ghost m = self.map@;
    let ghost q = rel_of(m);
    let ghost rs = g.rules@;
    let ghost n = g.n();
    let ghost a = |x: Option<Symbol>| in_first(rs, q, rhs@, x);
    proof { assert(rule_in(rs[z], n)); }
//@at end
    proof {
        let w = self.map@;
        assert(w == m.insert(lhs, w[lhs]));
        assert(is_lhs(rs, lhs)) by { assert(rs[z].lhs == lhs); }
        assert(w[lhs].proper(n)) by {
            let l = w[lhs].list@;
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).raw < n by {
                assert(l.contains(l[i]));
                if m.contains_key(lhs) { assert(m[lhs].proper(n)); }
            }
        }
        assert forall|x: Option<Symbol>| #[trigger] w[lhs].in_set(x) == (rel_of(m)(lhs, x) || a(x)) by {
            assert(la.in_set(x) == a(x));
            match x { None => {} Some(t) => { assert(w[lhs].list@.contains(t) == ((m.contains_key(lhs) && m[lhs].list@.contains(t)) || la.list@.contains(t))); } }
        }
        assert(adds(m, w, lhs, a));
        lemma_adds(m, w, rs, n, lhs, a);
        assert forall|p: Sets| #[trigger] first_closed(rs, p) implies sub_sets(rel_of(w), p) by {
            assert(sub_sets(q, p));
            assert(first_closed_at(rs, p, rs[z]));
            assert forall|s: Symbol, x: Option<Symbol>| #[trigger] rel_of(w)(s, x) implies p(s, x) by {
                if s == lhs {
                    assert(w[lhs].in_set(x) == (q(lhs, x) || a(x)));
                    if !q(lhs, x) { lemma_first_mono(rs, q, p, rhs@, 0, x); assert(in_first(rs, p, rs[z].rhs@, x)); }
                } else { assert(m.contains_key(s)); assert(q(s, x)); }
            }
        }
        lemma_room(m, rs, n, n);
        lemma_room(w, rs, n, n);
    }
//@end

//@fn cfg-predict-sets/src/first.rs FirstSets::collect_from
//@rewrite_opt self.process_rule(rule.lhs, &rule.rhs[..]) => self.process_rule(rule.lhs, vx_rc_slice(&rule.rhs), Ghost(*grammar), Ghost(__i1 as int - 1))
//@rewrite_opt $x |= $$y; => $x = vx_or($x, $$y);
//@rewrite_opt grammar.rules() => &grammar.rules
//@loops while for
//@attr #[verifier::loop_isolation(false)]
    requires old(self).base(*grammar), old(self).sound(grammar.rules@), old(self).lookahead.list@.len() == 0, !old(self).lookahead.has_none, old(self).changed,
    ensures final(self).exact(*grammar),
//@at begin
    let ghost rs = grammar.rules@;
    let ghost n = grammar.n();
    proof { lemma_room(self.map@, rs, n, n); }
//@loop 0
    invariant
        self.base(*grammar), self.sound(rs), self.lookahead.list@.len() == 0, !self.lookahead.has_none,
        0 <= room(self.map@, n, n),
        !self.changed ==> first_closed(rs, rel_of(self.map@)) && forall|s: Symbol| is_lhs(rs, s) ==> #[trigger] self.map@.contains_key(s),
    decreases (if self.changed { room(self.map@, n, n) + 1 } else { 0 }),
//@at loop0.begin
    let ghost m0 = self.map@;
//@loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == rs,
        self.base(*grammar), self.sound(rs), self.lookahead.list@.len() == 0, !self.lookahead.has_none,
        0 <= room(self.map@, n, n) <= room(m0, n, n),
        self.changed ==> room(self.map@, n, n) < room(m0, n, n),
        !self.changed ==> forall|i: int| 0 <= i < __i1 ==> first_closed_at(rs, rel_of(self.map@), #[trigger] rs[i]),
        forall|i: int| 0 <= i < __i1 ==> self.map@.contains_key((#[trigger] rs[i]).lhs),
    decreases __s1.len() - __i1,
//@at loop0.post
    proof {
        lemma_first_exact(rs, rel_of(self.map@));
    }
//@end
//@fn cfg-predict-sets/src/first.rs FirstSets::new
//@rewrite_opt this.collect_from($$g); this => this.collect_from($$g); { let vx_r = this; vx_r }
    requires grammar.wf(),
    ensures ret.exact(*grammar),
//@at begin
    proof { lemma_empty_sound(grammar.rules@); }
//@end
pub proof fn lemma_empty_sound(rs: Seq<CfgRule>)
    ensures forall|q: Sets| sub_sets(rel_of(Map::<Symbol, PerSymbolSetVal>::empty()), q),
{
}
//@fn cfg-predict-sets/src/first.rs FirstSets::first_set_for_string
//@sig string: &[Symbol] => string: &[Symbol], Ghost(g): Ghost<Cfg>
//@rewrite_opt PerSymbolSetVal { has_none, list } => { let vx_r = PerSymbolSetVal { has_none, list }; vx_r }
//@rewrite_opt $x.sort_unstable() => vx_sort_syms(&mut $x)
//@rewrite_opt $x.dedup() => vx_dedup_syms(&mut $x)
//@rewrite_opt $x.extend($y.iter().copied()) => vx_extend_syms(&mut $x, $y.as_slice())
//@rewrite_opt self.terminal_set[$$i] => *self.terminal_set.index($$i)
//@rewrite_opt vec![] => Vec::<Symbol>::new()
//@rewrite_opt $x.expect($$m) => $x.unwrap()
//@for 0 ref
//@loops for
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires self.exact(g), below(string@, g.n()),
    ensures
        forall|x: Option<Symbol>| #[trigger] ret.in_set(x) == in_first(g.rules@, first(g.rules@), string@, x),
        ret.proper(g.n()),
//@at begin
    let ghost rs = g.rules@;
    let ghost q = first(rs);
    let ghost m = self.map@;
    let ghost n = g.n();
    broadcast use axiom_symbol_ord;
//@loop 0
    invariant_except_break
        has_none, skips(rs, q, string@, 0, __i0 as int),
        forall|t: Symbol| #[trigger] list@.contains(t) == first_upto(rs, q, string@, __i0 as int, t),
    invariant
        __i0 <= __s0@.len(), __s0@ == string@, below(list@, n),
    ensures
        has_none == in_first(rs, q, string@, None), forall|t: Symbol| #[trigger] list@.contains(t) == in_first(rs, q, string@, Some(t)),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost i = __i0 as int - 1;
    let ghost l0 = list@;
    let ghost y = string@[i];
    proof {
        broadcast use axiom_symbol_ord;
        assert(y.raw < n && sym_of(y.ix()) == y);
        lemma_push_has(l0, y);
        lemma_first_upto(rs, q, string@, i);
        if m.contains_key(y) {
            assert(m[y].proper(n));
            lemma_concat_has(l0, m[y].list@);
            lemma_below_of(l0 + m[y].list@, l0, y, m, n);
        }
        lemma_below_of(l0.push(y), l0, y, m, n);
        assert(rel_of(m) == q);
        if is_lhs(rs, y) {
            assert(m.contains_key(y));
            assert(q(y, None) == m[y].has_none);
            assert forall|t: Symbol| q(y, Some(t)) == m[y].list@.contains(t) by {}
        }
        if !skips(rs, q, string@, 0, i + 1) { lemma_first_stop(rs, q, string@, i); }
    }
//@at loop0.post
    let ghost l1 = list@;
//@at end
    proof {
        let l = __tail.list@;
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).raw < n by { assert(l.contains(l[i])); assert(l1.contains(l[i])); }
    }
//@end

// ---- LAST sets
//@struct cfg-predict-sets/src/last.rs LastSets
//@bodyis cfg-predict-sets/src/cfg_sets_ext.rs CfgSetsExt for Cfg::first_sets :: FirstSets::new(self)
//@bodyis cfg-predict-sets/src/first.rs PredictSets for FirstSets::predict_sets :: &self.map
//@bodyis cfg-predict-sets/src/last.rs PredictSets for LastSets::predict_sets :: &self.map
// TRUSTED: derived Clone of Cfg.
#[verifier::external_body]
pub fn vx_clone_cfg(g: &Cfg) -> (r: Cfg)
    ensures r == *g,
{ unimplemented!() }
/// The last symbols of a string; trailing symbols deriving the empty string may be skipped.
pub open spec fn in_last(rs: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, x: Option<Symbol>) -> bool {
    match x {
        None => skips(rs, q, s, 0, s.len() as int),
        Some(t) => exists|j: int| 0 <= j < s.len() && skips(rs, q, s, j + 1, s.len() as int) && sym_first(rs, q, #[trigger] s[j], Some(t)),
    }
}
pub open spec fn last_closed_at(rs: Seq<CfgRule>, q: Sets, r: CfgRule) -> bool { forall|x: Option<Symbol>| #[trigger] in_last(rs, q, r.rhs@, x) ==> q(r.lhs, x) }
pub open spec fn last_closed(rs: Seq<CfgRule>, q: Sets) -> bool { forall|i: int| 0 <= i < rs.len() ==> last_closed_at(rs, q, #[trigger] rs[i]) }
pub open spec fn last(rs: Seq<CfgRule>) -> Sets { |s: Symbol, x: Option<Symbol>| forall|q: Sets| #[trigger] last_closed(rs, q) ==> q(s, x) }
pub open spec fn all_mirrored(rs: Seq<CfgRule>, ms: Seq<CfgRule>) -> bool { ms.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> mirrored(#[trigger] ms[i], rs[i]) }
pub proof fn lemma_mirror_lhs(rs: Seq<CfgRule>, ms: Seq<CfgRule>)
    requires all_mirrored(rs, ms),
    ensures forall|s: Symbol| #[trigger] is_lhs(ms, s) == is_lhs(rs, s),
{
    assert forall|s: Symbol| #[trigger] is_lhs(ms, s) == is_lhs(rs, s) by {
        if is_lhs(rs, s) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == s; assert(mirrored(ms[i], rs[i])); assert(ms[i].lhs == s); }
        if is_lhs(ms, s) { let i = choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).lhs == s; assert(mirrored(ms[i], rs[i])); assert(rs[i].lhs == s); }
    }
}
pub proof fn lemma_mirror_string(rs: Seq<CfgRule>, ms: Seq<CfgRule>, q: Sets, s: Seq<Symbol>, x: Option<Symbol>)
    requires all_mirrored(rs, ms),
    ensures in_first(ms, q, s.reverse(), x) == in_last(rs, q, s, x),
{
    lemma_mirror_lhs(rs, ms);
    let r = s.reverse();
    let n = s.len() as int;
    assert forall|j: int| 0 <= j <= n implies #[trigger] skips(ms, q, r, 0, j) == skips(rs, q, s, n - j, n) by {
        if skips(ms, q, r, 0, j) { assert forall|l: int| n - j <= l < n implies is_lhs(rs, #[trigger] s[l]) && q(s[l], None) by { assert(r[n - 1 - l] == s[l]); } }
        if skips(rs, q, s, n - j, n) { assert forall|l: int| 0 <= l < j implies is_lhs(ms, #[trigger] r[l]) && q(r[l], None) by { assert(r[l] == s[n - 1 - l]); } }
    }
    match x {
        None => { assert(skips(ms, q, r, 0, n) == skips(rs, q, s, 0, n)); }
        Some(t) => {
            if in_first(ms, q, r, x) {
                let j = choose|j: int| 0 <= j < r.len() && skips(ms, q, r, 0, j) && sym_first(ms, q, #[trigger] r[j], Some(t));
                assert(s[n - 1 - j] == r[j]);
                assert(sym_first(rs, q, s[n - 1 - j], Some(t)));
            }
            if in_last(rs, q, s, x) {
                let j = choose|j: int| 0 <= j < s.len() && skips(rs, q, s, j + 1, n) && sym_first(rs, q, #[trigger] s[j], Some(t));
                assert(r[n - 1 - j] == s[j]);
                assert(skips(ms, q, r, 0, n - 1 - j));
                assert(sym_first(ms, q, r[n - 1 - j], Some(t)));
            }
        }
    }
}
/// FIRST of the mirrored rules is LAST.
pub proof fn lemma_last(rs: Seq<CfgRule>, ms: Seq<CfgRule>)
    requires all_mirrored(rs, ms),
    ensures first(ms) == last(rs),
{
    assert forall|q: Sets| #[trigger] first_closed(ms, q) == last_closed(rs, q) by {
        assert forall|i: int| 0 <= i < rs.len() implies first_closed_at(ms, q, ms[i]) == last_closed_at(rs, q, #[trigger] rs[i]) by {
            assert(mirrored(ms[i], rs[i]));
            assert(ms[i].rhs@ == rs[i].rhs@.reverse());
            assert forall|x: Option<Symbol>| #[trigger] in_first(ms, q, ms[i].rhs@, x) == in_last(rs, q, rs[i].rhs@, x) by { lemma_mirror_string(rs, ms, q, rs[i].rhs@, x); }
            if last_closed_at(rs, q, rs[i]) {
                assert forall|x: Option<Symbol>| #[trigger] in_first(ms, q, ms[i].rhs@, x) implies q(ms[i].lhs, x) by { assert(in_last(rs, q, rs[i].rhs@, x)); }
            }
            if first_closed_at(ms, q, ms[i]) {
                assert forall|x: Option<Symbol>| #[trigger] in_last(rs, q, rs[i].rhs@, x) implies q(rs[i].lhs, x) by { assert(in_first(ms, q, ms[i].rhs@, x)); }
            }
        }
        if first_closed(ms, q) { assert forall|i: int| 0 <= i < rs.len() implies last_closed_at(rs, q, #[trigger] rs[i]) by { assert(first_closed_at(ms, q, ms[i])); } }
        if last_closed(rs, q) { assert forall|i: int| 0 <= i < ms.len() implies first_closed_at(ms, q, #[trigger] ms[i]) by { assert(last_closed_at(rs, q, rs[i])); } }
    }
    assert forall|s: Symbol, x: Option<Symbol>| #[trigger] first(ms)(s, x) == last(rs)(s, x) by {
        if first(ms)(s, x) { assert forall|q: Sets| #[trigger] last_closed(rs, q) implies q(s, x) by { assert(first_closed(ms, q)); } }
        if last(rs)(s, x) { assert forall|q: Sets| #[trigger] first_closed(ms, q) implies q(s, x) by { assert(last_closed(rs, q)); } }
    }
    assert(first(ms) =~= last(rs));
}
//@fn cfg-predict-sets/src/last.rs LastSets::new
//@rewrite_opt grammar.clone() => vx_clone_cfg(grammar)
//@rewrite_opt reversed_grammar.first_sets() => FirstSets::new(&reversed_grammar)
//@rewrite_opt LastSets { map } => { let vx_r = LastSets { map }; vx_r }
    requires grammar.wf(),
    ensures
        forall|s: Symbol| #[trigger] ret.map@.contains_key(s) == is_lhs(grammar.rules@, s),
        rel_of(ret.map@) == last(grammar.rules@), proper_map(ret.map@, grammar.rules@, grammar.n()),
//@at end
    proof {
        let ms = reversed_grammar.rules@;
        assert(all_mirrored(grammar.rules@, ms));
        lemma_last(grammar.rules@, ms);
        lemma_mirror_lhs(grammar.rules@, ms);
    }
//@end
