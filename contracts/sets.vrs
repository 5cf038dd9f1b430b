// G02: SymbolBitSet.
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::new
    ensures ret@ == Seq::<bool>::empty(),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::from_elem
    ensures ret@ == Seq::new(grammar.n() as nat, |i: int| elem),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::reset
//@rewrite $x.extend(iter::repeat($b).take($$n)) => $x.extend_repeat($b, $$n)
    ensures final(self)@ == Seq::new(symbol_source.n() as nat, |i: int| false),
//@at end
    proof { assert(self@ =~= Seq::new(symbol_source.n() as nat, |i: int| false)); }
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::set_all
//@rewrite $x.extend(iter::repeat($b).take($$n)) => $x.extend_repeat($b, $$n)
    ensures final(self)@ == Seq::new(symbol_source.n() as nat, |i: int| true),
//@at end
    proof { assert(self@ =~= Seq::new(symbol_source.n() as nat, |i: int| true)); }
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::set
    requires index.raw < old(self)@.len(),
    ensures final(self)@ == old(self)@.update(index.ix(), elem),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::space
    ensures ret == self@.len(),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::negate
    ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| !old(self)@[i]),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::union
    requires old(self)@.len() == other@.len(),
    ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| old(self)@[i] || other@[i]),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::all
//@rewrite $x.iter().all(|b| b) => $x.iter_all()
    ensures ret == all_true(self@),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::is_empty
//@rewrite_opt $x.iter().any(|b| b) => $x.iter_any()
//@rewrite_opt $x.iter().all(|b| b) => $x.iter_all()
    ensures ret == all_false(self@),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::reserve
//@rewrite $x.extend(iter::repeat($b).take($$n)) => $x.extend_repeat($b, $$n)
    ensures
        final(self)@.len() == (if len > old(self)@.len() { len as int } else { old(self)@.len() as int }),
        forall|s: Symbol| final(self).has(s) == old(self).has(s),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs ops::Index<Symbol> for SymbolBitSet::index
//@sig Self::Output => bool
//@rewrite $x.bit_vec[$$i] => $x.bit_vec.at($$i)
//@rewrite TRUE => true
//@rewrite FALSE => false
    requires index.raw < self@.len(),
    ensures *ret == self@[index.ix()], *ret == self.has(index),
//@end

/// The symbols of a set, in order.
pub open spec fn listed(b: Seq<bool>, k: int) -> Seq<Symbol>
    decreases k,
{
    if k <= 0 { Seq::empty() } else if b[k - 1] { listed(b, k - 1).push(sym_of(k - 1)) } else { listed(b, k - 1) }
}
pub proof fn lemma_listed(b: Seq<bool>, k: int)
    requires 0 <= k <= b.len(), k <= u32::MAX,
    ensures
        forall|s: Symbol| listed(b, k).contains(s) <==> (s.raw < k && b[s.ix()]),
        forall|i: int, j: int| 0 <= i < j < listed(b, k).len() ==> (#[trigger] listed(b, k)[i]).raw < (#[trigger] listed(b, k)[j]).raw,
        listed(b, k).len() <= k,
        (listed(b, k).len() == 0) <==> (forall|i: int| 0 <= i < k ==> !b[i]),
    decreases k,
{
    if k > 0 {
        lemma_listed(b, k - 1);
        let p = listed(b, k - 1);
        if b[k - 1] {
            assert(listed(b, k) == p.push(sym_of(k - 1)));
            assert forall|s: Symbol| listed(b, k).contains(s) <==> (s.raw < k && b[s.ix()]) by {
                if s.raw == k - 1 { assert(listed(b, k)[p.len() as int] == s); }
                if p.contains(s) { let i = choose|i: int| 0 <= i < p.len() && p[i] == s; assert(listed(b, k)[i] == s); }
                if listed(b, k).contains(s) {
                    let i = choose|i: int| 0 <= i < listed(b, k).len() && listed(b, k)[i] == s;
                    if i < p.len() { assert(p[i] == s); }
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < listed(b, k).len() implies (#[trigger] listed(b, k)[i]).raw < (#[trigger] listed(b, k)[j]).raw by {
                if j == p.len() { assert(p.contains(p[i])); }
            }
        }
    }
}
// `bits.iter().zip(SymbolSource::generate_fresh()).filter_map(f)`, collected.
pub fn vx_filter_syms<F: Fn(bool, Symbol) -> Option<Symbol>>(bits: &BitVec, f: F) -> (r: Vec<Symbol>)
    requires
        bits@.len() <= u32::MAX,
        forall|b: bool, s: Symbol| call_requires(f, (b, s)),
        forall|b: bool, s: Symbol, o: Option<Symbol>| call_ensures(f, (b, s), o) ==> o == (if b { Some(s) } else { None }),
    ensures r@ == listed(bits@, bits@.len() as int),
{
    let mut out: Vec<Symbol> = Vec::new();
    let mut k: usize = 0;
    while k < bits.len()
        invariant
            bits@.len() <= u32::MAX, 0 <= k <= bits@.len(), out@ == listed(bits@, k as int),
            forall|b: bool, s: Symbol| call_requires(f, (b, s)),
            forall|b: bool, s: Symbol, o: Option<Symbol>| call_ensures(f, (b, s), o) ==> o == (if b { Some(s) } else { None }),
        decreases bits@.len() - k,
    {
        if let Some(s) = f(bits.at(k), Symbol { raw: k as u32 }) {
            out.push(s);
        }
        k = k + 1;
    }
    out
}
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::iter
//@sig impl Iterator<Item = Symbol> + use<'_> => Vec<Symbol>
//@rewrite $x.iter().zip(SymbolSource::generate_fresh()).filter_map(|(is_present, sym)| $$b) => vx_filter_syms(&$x, |is_present: bool, sym: Symbol| -> (r: Option<Symbol>) ensures r == (if is_present { Some(sym) } else { None::<Symbol> }) { $$b })
    requires self@.len() <= u32::MAX,
    ensures
        ret@ == listed(self@, self@.len() as int),
        forall|s: Symbol| ret@.contains(s) <==> self.has(s),
        ret@.len() <= self@.len(),
        (ret@.len() == 0) <==> all_false(self@),
//@at begin
    proof { lemma_listed(self@, self@.len() as int); }
//@end

//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::terminal
//@rewrite_opt $g.rules() => &$g.rules
//@loops for
    requires grammar.wf(),
    ensures
        final(self)@.len() == grammar.n(),
        forall|i: int| 0 <= i < grammar.n() ==> #[trigger] final(self)@[i] == !is_lhs(grammar.rules@, sym_of(i)),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == grammar.rules@, grammar.wf(), self@.len() == grammar.n(),
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (!is_lhs(grammar.rules@.take(__i0 as int), sym_of(i))),
    decreases __s0@.len() - __i0,
//@at loop0.end
    proof { lemma_take(grammar.rules@, __i0 as int - 1); }
//@at loop0.post
    proof { assert(grammar.rules@.take(__i0 as int) =~= grammar.rules@); }
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::nulling
//@rewrite_opt $g.rules() => &$g.rules
//@loops for
    requires grammar.wf(), old(self)@.len() <= u32::MAX, old(self)@.len() == 0 || grammar.n() <= old(self)@.len(),
    ensures
        final(self)@.len() == (if old(self)@.len() == 0 { grammar.n() } else { old(self)@.len() as int }),
        forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == ((if old(self)@.len() == 0 { false } else { old(self)@[i] }) || is_nulling(grammar.rules@, sym_of(i))),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == grammar.rules@, grammar.wf(), old(self)@.len() <= u32::MAX, old(self)@.len() == 0 || grammar.n() <= old(self)@.len(), self@.len() == (if old(self)@.len() == 0 { grammar.n() } else { old(self)@.len() as int }),
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (((if old(self)@.len() == 0 { false } else { old(self)@[i] }) || is_nulling(grammar.rules@.take(__i0 as int), sym_of(i)))),
    decreases __s0@.len() - __i0,
//@at loop0.end
    proof { lemma_take(grammar.rules@, __i0 as int - 1); }
//@at loop0.post
    proof { assert(grammar.rules@.take(__i0 as int) =~= grammar.rules@); }
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::productive
//@rewrite_opt $g.rules() => &$g.rules
//@loops for
    requires grammar.wf(), old(self)@.len() <= u32::MAX, old(self)@.len() == 0 || grammar.n() <= old(self)@.len(),
    ensures
        final(self)@.len() == (if old(self)@.len() == 0 { grammar.n() } else { old(self)@.len() as int }),
        forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == ((if old(self)@.len() == 0 { false } else { old(self)@[i] }) || is_lhs(grammar.rules@, sym_of(i))),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == grammar.rules@, grammar.wf(), old(self)@.len() <= u32::MAX, old(self)@.len() == 0 || grammar.n() <= old(self)@.len(), self@.len() == (if old(self)@.len() == 0 { grammar.n() } else { old(self)@.len() as int }),
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (((if old(self)@.len() == 0 { false } else { old(self)@[i] }) || is_lhs(grammar.rules@.take(__i0 as int), sym_of(i)))),
    decreases __s0@.len() - __i0,
//@at loop0.end
    proof { lemma_take(grammar.rules@, __i0 as int - 1); }
//@at loop0.post
    proof { assert(grammar.rules@.take(__i0 as int) =~= grammar.rules@); }
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::subtract_productive
//@rewrite_opt $g.rules() => &$g.rules
//@loops for
    requires grammar.wf(), old(self)@.len() <= u32::MAX, old(self)@.len() == 0 || grammar.n() <= old(self)@.len(),
    ensures
        final(self)@.len() == (if old(self)@.len() == 0 { grammar.n() } else { old(self)@.len() as int }),
        forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == ((if old(self)@.len() == 0 { true } else { old(self)@[i] }) && !is_lhs(grammar.rules@, sym_of(i))),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == grammar.rules@, grammar.wf(), old(self)@.len() <= u32::MAX, old(self)@.len() == 0 || grammar.n() <= old(self)@.len(), self@.len() == (if old(self)@.len() == 0 { grammar.n() } else { old(self)@.len() as int }),
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (((if old(self)@.len() == 0 { true } else { old(self)@[i] }) && !is_lhs(grammar.rules@.take(__i0 as int), sym_of(i)))),
    decreases __s0@.len() - __i0,
//@at loop0.end
    proof { lemma_take(grammar.rules@, __i0 as int - 1); }
//@at loop0.post
    proof { assert(grammar.rules@.take(__i0 as int) =~= grammar.rules@); }
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::used
//@rewrite_opt $g.rules() => &$g.rules
//@loops for for
    requires grammar.wf(),
    ensures
        final(self)@.len() == grammar.n(),
        forall|i: int| 0 <= i < grammar.n() ==> #[trigger] final(self)@[i] == occurs(grammar.rules@, sym_of(i)),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == grammar.rules@, grammar.wf(), self@.len() == grammar.n(),
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (occurs(grammar.rules@.take(__i0 as int), sym_of(i))),
    decreases __s0@.len() - __i0,
//@loop 1
    invariant
        __i0 <= __s0@.len(), 0 < __i0, __s0@ == grammar.rules@, grammar.wf(), self@.len() == grammar.n(),
        *rule == grammar.rules@[__i0 as int - 1],
        __i1 <= __s1@.len(), __s1@ == rule.rhs@,
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (occurs(grammar.rules@.take(__i0 as int - 1), sym_of(i)) || rule.lhs == sym_of(i) || __s1@.take(__i1 as int).contains(sym_of(i))),
    decreases __s1@.len() - __i1,
//@at loop1.end
    proof { lemma_take_contains(__s1@, __i1 as int - 1); }
//@at loop1.post
    proof { assert(__s1@.take(__i1 as int) =~= rule.rhs@); }
//@at loop0.end
    proof { lemma_take(grammar.rules@, __i0 as int - 1); }
//@at loop0.post
    proof { assert(grammar.rules@.take(__i0 as int) =~= grammar.rules@); }
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs SymbolBitSet::unused
//@rewrite_opt $g.rules() => &$g.rules
//@loops for for
    requires grammar.wf(),
    ensures
        final(self)@.len() == grammar.n(),
        forall|i: int| 0 <= i < grammar.n() ==> #[trigger] final(self)@[i] == !occurs(grammar.rules@, sym_of(i)),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == grammar.rules@, grammar.wf(), self@.len() == grammar.n(),
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (!occurs(grammar.rules@.take(__i0 as int), sym_of(i))),
    decreases __s0@.len() - __i0,
//@loop 1
    invariant
        __i0 <= __s0@.len(), 0 < __i0, __s0@ == grammar.rules@, grammar.wf(), self@.len() == grammar.n(),
        *rule == grammar.rules@[__i0 as int - 1],
        __i1 <= __s1@.len(), __s1@ == rule.rhs@,
        forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == !(occurs(grammar.rules@.take(__i0 as int - 1), sym_of(i)) || rule.lhs == sym_of(i) || __s1@.take(__i1 as int).contains(sym_of(i))),
    decreases __s1@.len() - __i1,
//@at loop1.end
    proof { lemma_take_contains(__s1@, __i1 as int - 1); }
//@at loop1.post
    proof { assert(__s1@.take(__i1 as int) =~= rule.rhs@); }
//@at loop0.end
    proof { lemma_take(grammar.rules@, __i0 as int - 1); }
//@at loop0.post
    proof { assert(grammar.rules@.take(__i0 as int) =~= grammar.rules@); }
//@end
pub proof fn lemma_take_contains(s: Seq<Symbol>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|x: Symbol| #[trigger] s.take(k + 1).contains(x) == (s.take(k).contains(x) || s[k] == x),
{
    let a = s.take(k); let b = s.take(k + 1);
    assert forall|x: Symbol| #[trigger] b.contains(x) == (a.contains(x) || s[k] == x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        if s[k] == x { assert(b[k] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < k { assert(a[i] == x); } }
    }
}
//@fn cfg-grammar/src/symbol_bit_set.rs Cfg::terminal_symbols
    requires self.wf(),
    ensures
        ret@.len() == self.n(),
        forall|i: int| 0 <= i < self.n() ==> #[trigger] ret@[i] == !is_lhs(self.rules@, sym_of(i)),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs Cfg::nulling_symbols
    requires self.wf(),
    ensures
        ret@.len() == self.n(),
        forall|i: int| 0 <= i < self.n() ==> #[trigger] ret@[i] == is_nulling(self.rules@, sym_of(i)),
//@end
//@fn cfg-grammar/src/symbol_bit_set.rs Cfg::unused_symbols
    requires self.wf(),
    ensures
        ret@.len() == self.n(),
        forall|i: int| 0 <= i < self.n() ==> #[trigger] ret@[i] == !occurs(self.rules@, sym_of(i)),
//@end
pub proof fn lemma_take(rs: Seq<CfgRule>, k: int)
    requires 0 <= k < rs.len(),
    ensures
        forall|s: Symbol| #[trigger] is_lhs(rs.take(k + 1), s) == (is_lhs(rs.take(k), s) || rs[k].lhs == s),
        forall|s: Symbol| #[trigger] is_nulling(rs.take(k + 1), s) == (is_nulling(rs.take(k), s) || (rs[k].lhs == s && rs[k].rhs@.len() == 0)),
        forall|s: Symbol| #[trigger] occurs(rs.take(k + 1), s) == (occurs(rs.take(k), s) || rs[k].lhs == s || rs[k].has(s)),
{
    let a = rs.take(k); let b = rs.take(k + 1);
    assert forall|s: Symbol| #[trigger] is_lhs(b, s) == (is_lhs(a, s) || rs[k].lhs == s) by {
        if is_lhs(a, s) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lhs == s; assert(b[i].lhs == s); }
        if rs[k].lhs == s { assert(b[k].lhs == s); }
        if is_lhs(b, s) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lhs == s; if i < k { assert(a[i].lhs == s); } }
    }
    assert forall|s: Symbol| #[trigger] is_nulling(b, s) == (is_nulling(a, s) || (rs[k].lhs == s && rs[k].rhs@.len() == 0)) by {
        if is_nulling(a, s) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lhs == s && a[i].rhs@.len() == 0; assert(b[i].lhs == s); }
        if rs[k].lhs == s && rs[k].rhs@.len() == 0 { assert(b[k].lhs == s); }
        if is_nulling(b, s) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lhs == s && b[i].rhs@.len() == 0; if i < k { assert(a[i].lhs == s); } }
    }
    assert forall|s: Symbol| #[trigger] occurs(b, s) == (occurs(a, s) || rs[k].lhs == s || rs[k].has(s)) by {
        if occurs(a, s) { let i = choose|i: int| 0 <= i < a.len() && ((#[trigger] a[i]).lhs == s || a[i].has(s)); assert(b[i] == a[i]); }
        if rs[k].lhs == s || rs[k].has(s) { assert(b[k] == rs[k]); }
        if occurs(b, s) { let i = choose|i: int| 0 <= i < b.len() && ((#[trigger] b[i]).lhs == s || b[i].has(s)); if i < k { assert(a[i] == b[i]); } }
    }
}
