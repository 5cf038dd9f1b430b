// G23: the rules of a document as the rules of a grammar.
//@struct cfg-load/src/lib.rs LoadError
//@ty crate::advanced::Token => VxNoToken
pub struct VxNoToken { x: u8 }
// ---- what is loaded
/// Where the parts of a document are in a grammar.
pub ghost struct Lay { pub names: Map<Seq<char>, Symbol>, pub at: Seq<int>, pub grps: Seq<Grp> }
pub open spec fn is_grp(l: Lay, j: int, s: Symbol, item: Symbol, min: u32) -> bool { 0 <= j < l.grps.len() && l.grps[j].x == s && l.grps[j].item == item && l.grps[j].min == min }
/// The symbol that is written as `f`.
pub open spec fn frag_is(l: Lay, f: Fr, s: Symbol) -> bool {
    l.names.contains_key(f.name) && match f.rep {
        Rp::Once => s == l.names[f.name],
        Rp::Plus => exists|j: int| #[trigger] is_grp(l, j, s, l.names[f.name], 1),
        Rp::Star => exists|j: int| #[trigger] is_grp(l, j, s, l.names[f.name], 0),
    }
}
pub open spec fn frags_are(l: Lay, fs: Seq<Fr>, u: Seq<Symbol>) -> bool { u.len() == fs.len() && forall|k: int| 0 <= k < u.len() ==> frag_is(l, fs[k], #[trigger] u[k]) }
pub open spec fn rule_of(rs: Seq<CfgRule>, l: Lay, r: Ru, i: int, p: int) -> bool {
    &&& 0 <= p < rs.len() && l.names.contains_key(r.lhs) && rs[p].lhs == l.names[r.lhs] && frags_are(l, r.rhs, rs[p].rhs@)
    &&& rs[p].history == rule_history((i + 1) as u32)
}
pub open spec fn names_ok(l: Lay, n: int) -> bool {
    &&& forall|s: Seq<char>| #[trigger] l.names.contains_key(s) ==> l.names[s].raw < n && given(l.names[s], s)
    &&& forall|s: Seq<char>, t: Seq<char>| #[trigger] l.names.contains_key(s) && #[trigger] l.names.contains_key(t) && l.names[s] == l.names[t] ==> s == t
    &&& forall|s: Seq<char>, j: int| #[trigger] l.names.contains_key(s) && 0 <= j < l.grps.len() ==> !own(#[trigger] l.grps[j], l.names[s])
}
pub open spec fn is_named(l: Lay, x: Symbol) -> bool { exists|s: Seq<char>| #[trigger] l.names.contains_key(s) && l.names[s] == x }
pub open spec fn grps_ok(l: Lay, rs: Seq<CfgRule>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < l.grps.len() ==> grp_ok(rs, #[trigger] l.grps[j], n)
    &&& forall|i: int, j: int| 0 <= i < j < l.grps.len() ==> (#[trigger] l.grps[i]).end <= (#[trigger] l.grps[j]).x.raw
    // the items are symbols with names
    &&& forall|j: int| 0 <= j < l.grps.len() ==> is_named(l, (#[trigger] l.grps[j]).item)
}
pub open spec fn mains_ok(l: Lay, rs: Seq<CfgRule>, ds: Seq<Ru>) -> bool {
    &&& l.at.len() == ds.len()
    &&& forall|i: int| 0 <= i < ds.len() ==> rule_of(rs, l, ds[i], i, #[trigger] l.at[i])
    &&& forall|i: int, j: int| 0 <= i < j < l.at.len() ==> #[trigger] l.at[i] < #[trigger] l.at[j]
}
pub open spec fn in_grp(l: Lay, p: int, j: int) -> bool { 0 <= j < l.grps.len() && l.grps[j].from <= p < l.grps[j].to }
pub open spec fn in_main(l: Lay, p: int, i: int) -> bool { 0 <= i < l.at.len() && l.at[i] == p }
/// There are no other rules.
pub open spec fn no_more(l: Lay, rs: Seq<CfgRule>) -> bool {
    forall|p: int| 0 <= p < rs.len() ==> #[trigger] has_place(l, p)
}
pub open spec fn has_place(l: Lay, p: int) -> bool { (exists|i: int| in_main(l, p, i)) || (exists|j: int| in_grp(l, p, j)) }
/// `g` has the rules of `ds`: the i-th one is at `at[i]`, the names are symbols, one each, and a repetition
/// is a symbol of its own.
pub open spec fn laid(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>) -> bool {
    names_ok(l, n) && grps_ok(l, rs, n) && mains_ok(l, rs, ds) && no_more(l, rs)
}
// ---- how it is laid out
pub open spec fn extends(l: Lay, m: Lay) -> bool {
    &&& forall|s: Seq<char>| #[trigger] l.names.contains_key(s) ==> m.names.contains_key(s) && m.names[s] == l.names[s]
    &&& l.grps.len() <= m.grps.len() && forall|j: int| 0 <= j < l.grps.len() ==> #[trigger] m.grps[j] == l.grps[j]
}
pub proof fn lemma_frag_ext(l: Lay, m: Lay, f: Fr, s: Symbol)
    requires extends(l, m), frag_is(l, f, s),
    ensures frag_is(m, f, s),
{
    match f.rep {
        Rp::Once => {}
        Rp::Plus => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[f.name], 1); assert(is_grp(m, j, s, m.names[f.name], 1)); }
        Rp::Star => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[f.name], 0); assert(is_grp(m, j, s, m.names[f.name], 0)); }
    }
}
pub proof fn lemma_frags_ext(l: Lay, m: Lay, fs: Seq<Fr>, u: Seq<Symbol>)
    requires extends(l, m), frags_are(l, fs, u),
    ensures frags_are(m, fs, u),
{
    assert forall|k: int| 0 <= k < u.len() implies frag_is(m, fs[k], #[trigger] u[k]) by { lemma_frag_ext(l, m, fs[k], u[k]); }
}
/// What is laid out stays as the grammar grows.
pub proof fn lemma_laid_ext(l: Lay, m: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, k: int, ds: Seq<Ru>)
    requires grps_ok(l, rs, n), mains_ok(l, rs, ds), extends(l, m), keeps(rs, qs), n <= k, m.at == l.at,
    ensures
        mains_ok(m, qs, ds), forall|j: int| 0 <= j < l.grps.len() ==> grp_ok(qs, #[trigger] m.grps[j], k),
        forall|j: int| 0 <= j < l.grps.len() ==> is_named(m, (#[trigger] m.grps[j]).item),
{
    assert forall|i: int| 0 <= i < ds.len() implies rule_of(qs, m, ds[i], i, #[trigger] m.at[i]) by {
        let p = l.at[i];
        assert(rule_of(rs, l, ds[i], i, p));
        assert(qs[p] == rs[p]);
        lemma_frags_ext(l, m, ds[i].rhs, rs[p].rhs@);
    }
    assert forall|j: int| 0 <= j < l.grps.len() implies grp_ok(qs, #[trigger] m.grps[j], k) by {
        let g = l.grps[j];
        assert(m.grps[j] == g);
        assert(grp_ok(rs, g, n));
        assert forall|p: int| g.from <= p < g.to implies #[trigger] qs[p] == rs[p] by { }
        assert(qs.subrange(g.from, g.to) =~= rs.subrange(g.from, g.to));
    }
    assert forall|j: int| 0 <= j < l.grps.len() implies is_named(m, (#[trigger] m.grps[j]).item) by {
        assert(m.grps[j] == l.grps[j]);
        let s = choose|s: Seq<char>| #[trigger] l.names.contains_key(s) && l.names[s] == l.grps[j].item;
        assert(m.names.contains_key(s));
    }
}
pub open spec fn with_name(l: Lay, s: Seq<char>, x: Symbol) -> Lay { Lay { names: l.names.insert(s, x), ..l } }
/// A new symbol for a name.
pub proof fn lemma_name_laid(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, s: Seq<char>, x: Symbol)
    requires laid(l, rs, n, ds), !l.names.contains_key(s), x.raw == n, given(x, s),
    ensures laid(with_name(l, s, x), rs, n + 1, ds), extends(l, with_name(l, s, x)),
{
    let m = with_name(l, s, x);
    assert(extends(l, m));
    lemma_laid_ext(l, m, rs, rs, n, n + 1, ds);
    assert forall|t: Seq<char>, j: int| #[trigger] m.names.contains_key(t) && 0 <= j < m.grps.len() implies !own(#[trigger] m.grps[j], m.names[t]) by {
        assert(grp_ok(rs, l.grps[j], n));
        if t != s { assert(l.names.contains_key(t)); }
    }
    assert forall|t: Seq<char>, v: Seq<char>| #[trigger] m.names.contains_key(t) && #[trigger] m.names.contains_key(v) && m.names[t] == m.names[v] implies t == v by {
        if t != s { assert(l.names.contains_key(t)); }
        if v != s { assert(l.names.contains_key(v)); }
    }
    assert forall|p: int| 0 <= p < rs.len() implies #[trigger] has_place(m, p) by {
        assert(p < rs.len() ==> has_place(l, p));
        if exists|i: int| in_main(l, p, i) { let i = choose|i: int| in_main(l, p, i); assert(in_main(m, p, i)); }
        else { let j = choose|j: int| in_grp(l, p, j); assert(in_grp(m, p, j)); }
    }
}
pub open spec fn with_grp(l: Lay, g: Grp) -> Lay { Lay { grps: l.grps.push(g), ..l } }
pub proof fn lemma_grp_laid(l: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, k: int, ds: Seq<Ru>, g: Grp)
    requires
        laid(l, rs, n, ds), keeps(rs, qs), g.x.raw == n, n < k, g.end == k, g.from == rs.len(), g.to == qs.len(), grp_ok(qs, g, k),
        is_named(l, g.item),
    ensures laid(with_grp(l, g), qs, k, ds), extends(l, with_grp(l, g)), is_grp(with_grp(l, g), l.grps.len() as int, g.x, g.item, g.min),
{
    let m = with_grp(l, g);
    assert(extends(l, m));
    lemma_laid_ext(l, m, rs, qs, n, k, ds);
    assert forall|t: Seq<char>, j: int| #[trigger] m.names.contains_key(t) && 0 <= j < m.grps.len() implies !own(#[trigger] m.grps[j], m.names[t]) by {
        if j < l.grps.len() { assert(m.grps[j] == l.grps[j]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < m.grps.len() implies (#[trigger] m.grps[i]).end <= (#[trigger] m.grps[j]).x.raw by {
        assert(m.grps[i] == l.grps[i]);
        assert(grp_ok(rs, l.grps[i], n));
        if j < l.grps.len() { assert(m.grps[j] == l.grps[j]); }
    }
    assert forall|p: int| 0 <= p < qs.len() implies #[trigger] has_place(m, p) by {
        assert(p < rs.len() ==> has_place(l, p));
        if p >= rs.len() { assert(in_grp(m, p, l.grps.len() as int)); }
        else if exists|i: int| in_main(l, p, i) { let i = choose|i: int| in_main(l, p, i); assert(in_main(m, p, i)); }
        else { let j = choose|j: int| in_grp(l, p, j); assert(m.grps[j] == l.grps[j]); assert(in_grp(m, p, j)); }
    }
}
pub open spec fn with_rule(l: Lay, p: int) -> Lay { Lay { at: l.at.push(p), ..l } }
pub proof fn lemma_rule_laid(l: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, ds: Seq<Ru>, es: Seq<Ru>, r: Ru)
    requires
        laid(l, rs, n, ds), keeps(rs, qs), qs.len() == rs.len() + 1, es == ds.push(r), rule_of(qs, l, r, ds.len() as int, rs.len() as int),
    ensures laid(with_rule(l, rs.len() as int), qs, n, es),
{
    let m = with_rule(l, rs.len() as int);
    lemma_laid_ext(l, l, rs, qs, n, n, ds);
    assert forall|i: int| 0 <= i < es.len() implies rule_of(qs, m, es[i], i, #[trigger] m.at[i]) by {
        if i < ds.len() {
            assert(rule_of(rs, l, ds[i], i, l.at[i]));
            assert(rule_of(qs, l, ds[i], i, l.at[i]));
        }
        lemma_frags_ext(l, m, es[i].rhs, qs[m.at[i]].rhs@);
    }
    assert forall|i: int, j: int| 0 <= i < j < m.at.len() implies #[trigger] m.at[i] < #[trigger] m.at[j] by { assert(rule_of(rs, l, ds[i], i, l.at[i])); }
    assert forall|p: int| 0 <= p < qs.len() implies #[trigger] has_place(m, p) by {
        assert(p < rs.len() ==> has_place(l, p));
        if p >= rs.len() { assert(in_main(m, p, l.at.len() as int)); }
        else if exists|i: int| in_main(l, p, i) { let i = choose|i: int| in_main(l, p, i); assert(m.at[i] == l.at[i]); assert(in_main(m, p, i)); }
        else { let j = choose|j: int| in_grp(l, p, j); assert(in_grp(m, p, j)); }
    }
}
// ---- sizes
pub proof fn lemma_lex_len(s: Seq<char>)
    requires lex(s) is Some,
    ensures lex(s).unwrap().len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_one_tok(s); lemma_lex_len(s.skip(one(s).unwrap().1 as int)); }
}
pub open spec fn rhs_within(ds: Seq<Ru>, n: nat) -> bool { forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).rhs.len() <= n }
pub proof fn lemma_alt_len(a: Seq<Pt>)
    ensures fl_alt(a).len() <= pr_alt(a).len(),
    decreases a.len(),
{
    if a.len() > 0 { lemma_alt_len(a.drop_last()); }
}
pub proof fn lemma_alts_len(s: Seq<Seq<Pt>>, j: int)
    requires 0 <= j < s.len(),
    ensures fl_alt(s[j]).len() <= pr_alts(s).len(),
    decreases s.len(),
{
    lemma_alt_len(s[j]);
    if s.len() > 1 && j < s.len() - 1 { lemma_alts_len(s.drop_last(), j); }
}
pub proof fn lemma_doc_len(d: Seq<Line>)
    ensures rhs_within(fl_doc(d), pr_doc(d).len()), fl_doc(d).len() <= pr_doc(d).len(), d.len() > 0 ==> fl_doc(d).len() > 0,
    decreases d.len(),
{
    if d.len() > 0 {
        let l = d.last();
        lemma_doc_len(d.drop_last());
        assert forall|j: int| 0 <= j < l.alts.len() implies fl_alt(#[trigger] l.alts[j]).len() <= pr_alts(l.alts).len() by { lemma_alts_len(l.alts, j); }
        lemma_alts_count(l.alts);
        let a = fl_doc(d.drop_last());
        let b = fl_line(l);
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).rhs.len() <= pr_line(l).len() by { if l.alts.len() > 0 { assert(b[i].rhs == fl_alt(l.alts[i])); } }
        assert forall|i: int| 0 <= i < fl_doc(d).len() implies (#[trigger] fl_doc(d)[i]).rhs.len() <= pr_doc(d).len() by {
            if i < a.len() { assert(fl_doc(d)[i] == a[i]); } else { assert(fl_doc(d)[i] == b[i - a.len()]); }
        }
    }
}
pub proof fn lemma_alts_count(s: Seq<Seq<Pt>>)
    ensures s.len() <= pr_alts(s).len() + 1,
    decreases s.len(),
{
    if s.len() > 1 { lemma_alts_count(s.drop_last()); }
}
// ---- TRUSTED: tiny_earley. The grammar of the `grammar!` in the text is the one extracted; a text is read
// terminal by terminal; it is a sentence if a node is finished, and the value of a node is the value of one of its trees.
#[verifier::external_body]
pub struct BGrammar { x: u8 }
#[verifier::external_body]
pub fn vx_bnf_grammar() -> (r: BGrammar) { unimplemented!() }
impl BGrammar {
    #[verifier::external_body]
    pub fn symbols(&self) -> (r: [BSym; 13])
        ensures all_syms(r),
    { unimplemented!() }
}
/// What the maps know is what has been laid out.
pub open spec fn known(l: Lay, it: StringInterner, m: Map<usize, Symbol>) -> bool {
    &&& forall|s: Seq<char>| #[trigger] l.names.contains_key(s) ==> m.contains_key(it.id(s)) && m[it.id(s)] == l.names[s] && it.back(it.id(s)) == s
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> l.names.contains_key(it.back(k)) && it.id(it.back(k)) == k
}
pub proof fn lemma_known(l: Lay, it: StringInterner, m: Map<usize, Symbol>, k: usize, x: Symbol)
    requires known(l, it, m), !m.contains_key(k), it.id(it.back(k)) == k,
    ensures !l.names.contains_key(it.back(k)), known(with_name(l, it.back(k), x), it, m.insert(k, x)),
{
    let s = it.back(k);
    let v = with_name(l, s, x);
    let q = m.insert(k, x);
    assert forall|t: Seq<char>| #[trigger] v.names.contains_key(t) implies q.contains_key(it.id(t)) && q[it.id(t)] == v.names[t] && it.back(it.id(t)) == t by {
        if t != s { assert(l.names.contains_key(t)); assert(it.id(t) != k); }
    }
    assert forall|j: usize| #[trigger] q.contains_key(j) implies v.names.contains_key(it.back(j)) && it.id(it.back(j)) == j by {
        if j != k { assert(m.contains_key(j)); }
    }
}
pub proof fn lemma_after_seq(l: Lay, a: Cfg, b: Cfg, g: Cfg, x: Symbol, item: Symbol, min: u32, ds: Seq<Ru>) -> (m: Lay)
    requires
        plain(a), plain(b), laid(l, a.rules@, a.n(), ds), is_named(l, item),
        b.rules == a.rules, b.same_rest(a), b.n() == a.n() + 1, x.raw == a.n(), item.raw < a.n(), min <= 1,
        g.same_rest(b), keeps(b.rules@, g.rules@), new_lhs(ctx_of(b, rep_seq(x, item, min, None)), b.rules@, g.rules@),
        rewrites_alone(ctx_of(b, rep_seq(x, item, min, None)), prods(g.rules@)),
        prods_below(prods(g.rules@), g.n()), g.n() >= b.n(),
        forall|p: Prod| #[trigger] prods(g.rules@).contains(p) ==> prods(b.rules@).contains(p) || (p.l == x || p.l.raw >= b.n()) && own_syms(ctx_of(b, rep_seq(x, item, min, None)), p.r),
    ensures
        plain(g), laid(m, g.rules@, g.n(), ds), extends(l, m), m.names == l.names, m.at == l.at, m.grps.len() == l.grps.len() + 1, is_grp(m, l.grps.len() as int, x, item, min),
{
    lemma_prods_wf(a);
    lemma_wf_prods(g);
    let h = Grp { x: x, end: g.n(), item: item, min: min, from: b.rules@.len() as int, to: g.rules@.len() as int };
    lemma_repeats(b, g, x, item, min, h);
    lemma_grp_laid(l, a.rules@, g.rules@, a.n(), g.n(), ds, h);
    with_grp(l, h)
}
pub proof fn lemma_frag_below(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, f: Fr, s: Symbol)
    requires laid(l, rs, n, ds), frag_is(l, f, s),
    ensures s.raw < n,
{
    match f.rep {
        Rp::Once => {}
        Rp::Plus => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[f.name], 1); assert(grp_ok(rs, l.grps[j], n)); }
        Rp::Star => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[f.name], 0); assert(grp_ok(rs, l.grps[j], n)); }
    }
}
/// A rule has been added for the i-th rule of the document.
pub proof fn lemma_after_rule(l: Lay, a: Cfg, b: Cfg, ds: Seq<Ru>, es: Seq<Ru>, r: Ru, x: Symbol, u: Seq<Symbol>) -> (m: Lay)
    requires
        plain(a), laid(l, a.rules@, a.n(), ds), es == ds.push(r), l.names.contains_key(r.lhs), l.names[r.lhs] == x, frags_are(l, r.rhs, u), u.len() < u32::MAX,
        b.same_rest(a), prod_seq(b.rules@) == prod_seq(a.rules@) + added_prods(a, x, u), b.rules@.take(a.rules@.len() as int) == a.rules@,
        forall|i: int| a.rules@.len() <= i < b.rules@.len() ==>
            (#[trigger] b.rules@[i]).history == chain_history(rule_history((ds.len() + 1) as u32), u.len() as int, a.limit(), i - a.rules@.len(), b.rules@.len() - a.rules@.len()),
        b.n() == a.n() + (if b.rules@.len() == a.rules@.len() { 0int } else { b.rules@.len() - a.rules@.len() - 1 }),
    ensures
        plain(b), laid(m, b.rules@, b.n(), es), m.names == l.names, m.grps == l.grps, m.at == l.at.push(a.rules@.len() as int), keeps(a.rules@, b.rules@),
        b.rules@.len() > a.rules@.len(), b.rules@[a.rules@.len() as int].rhs@ == u,
{
    lemma_rule_added(a, b, x, u);
    let k = a.rules@.len() as int;
    assert(prod_seq(b.rules@).len() == b.rules@.len() && prod_seq(a.rules@).len() == a.rules@.len());
    lemma_keeps(a.rules@, b.rules@);
    assert(prods(b.rules@).contains(Prod { l: x, r: u }));
    assert(prod_seq(b.rules@)[k] == added_prods(a, x, u)[0]);
    assert(b.rules@[k].lhs == x && b.rules@[k].rhs@ == u);
    assert(rule_of(b.rules@, l, r, ds.len() as int, k));
    lemma_rule_laid(l, a.rules@, b.rules@, a.n(), ds, es, r);
    lemma_prods_wf(a);
    assert forall|p: Prod| #[trigger] prods(b.rules@).contains(p) implies p.l.raw < b.n() && below(p.r, b.n()) by {
        if p == (Prod { l: x, r: u }) {
            assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).raw < a.n() by { lemma_frag_below(l, a.rules@, a.n(), ds, r.rhs[i], u[i]); }
        }
    }
    lemma_wf_prods(b);
    with_rule(l, k)
}
