// OccurenceMap: for every symbol the rules in whose right-hand side it occurs.
pub type RuleIndex = usize;
//@struct cfg-grammar/src/occurence_map.rs Occurences
//@ty MaybeSmallVec => Vec
//@struct cfg-grammar/src/occurence_map.rs OccurenceMap

// TRUSTED: derived Ord of Symbol (a newtype over an integer) is a lawful total order.
pub broadcast proof fn axiom_symbol_ord()
    ensures #[trigger] vstd::laws_cmp::obeys_cmp::<Symbol>(),
{
    admit();
}
// TRUSTED: slice::to_vec, slice::sort, Vec::dedup on symbols.
#[verifier::external_body]
pub fn vx_to_vec(s: &[Symbol]) -> (r: Vec<Symbol>)
    ensures r@ == s@,
{ s.to_vec() }
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<Symbol>)
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|x: Symbol| final(v)@.contains(x) == old(v)@.contains(x),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i].raw <= final(v)@[j].raw,
{ v.sort() }
#[verifier::external_body]
pub fn vx_dedup(v: &mut Vec<Symbol>)
    ensures forall|x: Symbol| final(v)@.contains(x) == old(v)@.contains(x),
{ v.dedup() }

/// `i` is among the entries of `occ` from position `k` on.
pub open spec fn in_occ(occ: Seq<usize>, k: int, i: int) -> bool { exists|z: int| k <= z < occ.len() && #[trigger] occ[z] == i }
pub open spec fn occ_rhs(m: Map<Symbol, Occurences>, s: Symbol) -> Seq<usize> {
    if m.contains_key(s) { m[s].rhs@ } else { Seq::empty() }
}
pub open spec fn occ_exact(m: Map<Symbol, Occurences>, rs: Seq<CfgRule>, k: int) -> bool {
    &&& forall|s: Symbol, q: int| 0 <= q < occ_rhs(m, s).len() ==> (#[trigger] occ_rhs(m, s)[q]) < k && rs[occ_rhs(m, s)[q] as int].has(s)
    &&& forall|s: Symbol, i: int| 0 <= i < k && (#[trigger] rs[i]).has(s) ==> #[trigger] in_occ(occ_rhs(m, s), 0, i)
}
impl OccurenceMap {
    pub open spec fn exact(self, rs: Seq<CfgRule>) -> bool {
        occ_exact(self.occurences@, rs, rs.len() as int) && self.empty_occurences.rhs@.len() == 0
    }
}
//@fn cfg-grammar/src/occurence_map.rs Occurences::new
//@rewrite_opt MaybeSmallVec => Vec
    ensures ret.lhs@.len() == 0, ret.rhs@.len() == 0,
//@end
//@fn cfg-grammar/src/occurence_map.rs Occurences::rhs
//@rewrite_opt &self.rhs[..] => self.rhs.as_slice()
    ensures ret@ == self.rhs@,
//@end
//@fn cfg-grammar/src/occurence_map.rs OccurenceMap::get
//@rewrite_opt $m.get($$k).unwrap_or($$d) => (match $m.get($$k) { Some(vx_v) => vx_v, None => $$d })
    requires self.empty_occurences.rhs@.len() == 0,
    ensures ret.rhs@ == occ_rhs(self.occurences@, sym),
//@at begin
    broadcast use axiom_symbol_ord;
//@end
//@fn cfg-grammar/src/occurence_map.rs OccurenceMap::from_rules
//@sig fn from_rules<'a>(rules: impl Iterator<Item = &'a CfgRule>) => fn from_rules(rules: &Vec<CfgRule>)
//@rewrite BTreeMap::new() => BTreeMap::<Symbol, Occurences>::new()
//@rewrite $m.entry($$k).or_insert($$d).lhs.push($$i); => { let mut vx_o = match $m.remove(&$$k) { Some(vx_v) => vx_v, None => $$d }; vx_o.lhs.push($$i); $m.insert($$k, vx_o); }
//@rewrite $m.entry($$k).or_insert($$d).rhs.push($$i); => { let mut vx_o = match $m.remove(&$$k) { Some(vx_v) => vx_v, None => $$d }; vx_o.rhs.push($$i); $m.insert($$k, vx_o); }
//@rewrite_opt $x.to_vec() => vx_to_vec(&$x)
//@rewrite_opt rhs_syms.sort() => vx_sort(&mut rhs_syms)
//@rewrite_opt rhs_syms.dedup() => vx_dedup(&mut rhs_syms)
//@for 0 ref
//@for 1 value
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    ensures ret.exact(rules@),
//@at begin
    broadcast use axiom_symbol_ord;
//@loop 0
    invariant
        __i0 <= __s0@.len(), occ_exact(occurences@, rules@, __i0 as int),
    decreases __s0@.len() - __i0,
//@at loop1.pre
    let ghost m0 = occurences@;
    proof { assert(forall|s: Symbol| occ_rhs(m0, s) == occ_rhs(m_pre, s)); }
//@at loop0.begin
    let ghost m_pre = occurences@;
//@loop 1
    invariant
        __i1 <= __s1@.len(),
        forall|s: Symbol, q: int| 0 <= q < occ_rhs(occurences@, s).len() ==> (#[trigger] occ_rhs(occurences@, s)[q]) <= i && rules@[occ_rhs(occurences@, s)[q] as int].has(s),
        forall|s: Symbol, k: int| 0 <= k < i && (#[trigger] rules@[k]).has(s) ==> #[trigger] in_occ(occ_rhs(occurences@, s), 0, k),
        forall|s: Symbol| #[trigger] __s1@.take(__i1 as int).contains(s) ==> in_occ(occ_rhs(occurences@, s), 0, i as int),
    decreases __s1@.len() - __i1,
//@at loop1.begin
    let ghost m1 = occurences@;
//@at loop1.end
    proof {
        lemma_take_contains(__s1@, __i1 as int - 1);
        assert(__s1@.contains(rhs_sym));
        let a = occ_rhs(m1, rhs_sym);
        let b = occ_rhs(occurences@, rhs_sym);
        assert(b == a.push(i));
        assert forall|s: Symbol| s != rhs_sym implies occ_rhs(occurences@, s) == occ_rhs(m1, s) by {}
        assert(rule.has(rhs_sym));
        assert forall|k: int| in_occ(a, 0, k) implies in_occ(b, 0, k) by {
            let z = choose|z: int| 0 <= z < a.len() && #[trigger] a[z] == k; assert(b[z] == k);
        }
        assert forall|s: Symbol, q: int| 0 <= q < occ_rhs(occurences@, s).len() implies (#[trigger] occ_rhs(occurences@, s)[q]) <= i && rules@[occ_rhs(occurences@, s)[q] as int].has(s) by {
            if s == rhs_sym { if q < a.len() { assert(b[q] == a[q]); } else { assert(b[q] == i); } }
            else { assert(occ_rhs(m1, s)[q] == occ_rhs(occurences@, s)[q]); }
        }
        assert(b[a.len() as int] == i);
        assert forall|s: Symbol, k: int| 0 <= k < i && (#[trigger] rules@[k]).has(s) implies #[trigger] in_occ(occ_rhs(occurences@, s), 0, k) by {
            assert(in_occ(occ_rhs(m1, s), 0, k));
            if s == rhs_sym { assert(in_occ(b, 0, k)); }
        }
    }
//@at loop1.post
    proof { assert(__s1@.take(__i1 as int) =~= __s1@); }
//@end
