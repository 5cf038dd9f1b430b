// G23: what is printed is read back.
pub open spec fn plain_frs(src: SymbolSource, u: Seq<Symbol>) -> Seq<Fr> { Seq::new(u.len(), |i: int| Fr { name: shown(src, u[i]), rep: Rp::Once }) }
pub open spec fn plain_rule(src: SymbolSource, r: CfgRule) -> Ru { Ru { lhs: shown(src, r.lhs), rhs: plain_frs(src, r.rhs@) } }
pub open spec fn plain_rules(src: SymbolSource, rs: Seq<CfgRule>) -> Seq<Ru> { Seq::new(rs.len(), |i: int| plain_rule(src, rs[i])) }
pub proof fn lemma_fl_plain(src: SymbolSource, u: Seq<Symbol>)
    ensures fl_alt(id_alt(src, u)) == plain_frs(src, u),
    decreases u.len(),
{
    let a = id_alt(src, u);
    if u.len() == 0 { assert(fl_alt(a) =~= plain_frs(src, u)); } else {
        let v = u.drop_last();
        lemma_fl_plain(src, v);
        assert(a.drop_last() =~= id_alt(src, v));
        assert(a.last() == id_pt(src, u.last()));
        assert(fl_alt(a) =~= plain_frs(src, u));
    }
}
pub proof fn lemma_fl_for(src: SymbolSource, rs: Seq<CfgRule>)
    ensures fl_doc(doc_for(src, rs)) == plain_rules(src, rs),
    decreases rs.len(),
{
    let d = doc_for(src, rs);
    if rs.len() == 0 { assert(fl_doc(d) =~= plain_rules(src, rs)); } else {
        let qs = rs.drop_last();
        let r = rs.last();
        lemma_fl_for(src, qs);
        assert(d.drop_last() =~= doc_for(src, qs));
        assert(d.last() == line_for(src, r));
        lemma_fl_plain(src, r.rhs@);
        let l = line_for(src, r);
        if r.rhs@.len() == 0 { assert(plain_frs(src, r.rhs@) =~= Seq::empty()); assert(fl_line(l) =~= seq![plain_rule(src, r)]); }
        else { assert(l.alts[0] == id_alt(src, r.rhs@)); assert(fl_line(l) =~= seq![plain_rule(src, r)]); }
        assert(fl_doc(d) =~= plain_rules(src, rs));
    }
}
pub proof fn lemma_doc_ok(src: SymbolSource, rs: Seq<CfgRule>)
    requires rs.len() > 0,
    ensures written(doc_for(src, rs), pr_doc(doc_for(src, rs))),
{
    let d = doc_for(src, rs);
    assert forall|i: int| 0 <= i < d.len() implies alts_ok((#[trigger] d[i]).alts) by {
        assert(d[i] == line_for(src, rs[i]));
        if rs[i].rhs@.len() > 0 { assert(id_alt(src, rs[i].rhs@).len() == rs[i].rhs@.len()); }
    }
}
/// Rules that are all there is are at their places.
pub proof fn lemma_in_place(l: Lay, rs: Seq<CfgRule>, ds: Seq<Ru>, k: int)
    requires mains_ok(l, rs, ds), no_more(l, rs), l.grps.len() == 0, 0 <= k <= ds.len(),
    ensures forall|i: int| 0 <= i < k ==> #[trigger] l.at[i] == i,
    decreases k,
{
    if k > 0 {
        let p = k - 1;
        lemma_in_place(l, rs, ds, p);
        assert(rule_of(rs, l, ds[p], p, l.at[p]));
        if p > 0 { assert(l.at[p - 1] < l.at[p]); }
        assert(has_place(l, p));
        let i = choose|i: int| in_main(l, p, i);
        assert(in_main(l, p, i));
        if i < p { assert(l.at[i] == i); }
        if i > p { assert(l.at[p] < l.at[i]); }
    }
}
/// The symbol for `s` in the grammar that is read.
pub open spec fn to(l: Lay, src: SymbolSource, s: Symbol) -> Symbol { l.names[shown(src, s)] }
pub open spec fn same_rule(l: Lay, src: SymbolSource, r: CfgRule, q: CfgRule) -> bool {
    &&& q.lhs == to(l, src, r.lhs) && q.rhs@.len() == r.rhs@.len()
    &&& forall|k: int| 0 <= k < r.rhs@.len() ==> #[trigger] q.rhs@[k] == to(l, src, r.rhs@[k])
}
/// The symbols in rules have one each in the grammar that is read, with the same name.
pub open spec fn renamed(l: Lay, src: SymbolSource, rs: Seq<CfgRule>) -> bool {
    &&& forall|s: Symbol| #[trigger] in_use(rs, s) ==> given(to(l, src, s), shown(src, s))
    &&& forall|s: Symbol, t: Symbol| #[trigger] in_use(rs, s) && #[trigger] in_use(rs, t) && to(l, src, s) == to(l, src, t) ==> s == t
}
/// A grammar with rules whose symbols have different identifiers for names, as it is read from its text.
pub open spec fn read_back(l: Lay, src: SymbolSource, rs: Seq<CfgRule>, h: Cfg) -> bool {
    &&& renamed(l, src, rs) && h.rules@.len() == rs.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> same_rule(l, src, rs[i], #[trigger] h.rules@[i])
    &&& h.roots@ == seq![to(l, src, rs[0].lhs)] && h.wrapped_roots@.len() == 0
}
/// Its text has one document, and what is loaded from that has the same rules in the same order.
pub proof fn lemma_read_back(src: SymbolSource, rs: Seq<CfgRule>, d: Seq<Line>, h: Cfg, l: Lay, who: Who)
    requires rs.len() > 0, named_apart(src, rs), written(d, pr_doc(doc_for(src, rs))), as_written(fl_doc(d), h, l, who),
    ensures read_back(l, src, rs, h),
{
    lemma_doc_ok(src, rs);
    lemma_one_meaning(pr_doc(doc_for(src, rs)), d, doc_for(src, rs));
    lemma_fl_for(src, rs);
    let ds = plain_rules(src, rs);
    let hs = h.rules@;
    assert(fl_doc(d) == ds);
    assert(l.grps.len() == 0) by {
        if l.grps.len() > 0 {
            assert(used_at(l, who, hs, ds, Seq::empty(), Seq::empty(), 0));
            let i = who[0].0;
            if i != ds.len() { assert(ds[i] == plain_rule(src, rs[i])); assert(ds[i].rhs[who[0].1].rep == Rp::Once); }
        }
    }
    lemma_in_place(l, hs, ds, ds.len() as int);
    assert(hs.len() == rs.len()) by {
        assert(rule_of(hs, l, ds[ds.len() - 1], ds.len() - 1, l.at[ds.len() - 1]));
        if hs.len() > ds.len() {
            let p = ds.len() as int;
            assert(has_place(l, p));
            let i = choose|i: int| in_main(l, p, i);
            assert(in_main(l, p, i));
            assert(l.at[i] == i);
        }
    }
    assert forall|i: int| 0 <= i < rs.len() implies same_rule(l, src, rs[i], #[trigger] hs[i]) by {
        assert(l.at[i] == i);
        assert(rule_of(hs, l, ds[i], i, l.at[i]));
        assert(ds[i] == plain_rule(src, rs[i]));
        assert(frags_are(l, ds[i].rhs, hs[i].rhs@));
        assert forall|k: int| 0 <= k < rs[i].rhs@.len() implies #[trigger] hs[i].rhs@[k] == to(l, src, rs[i].rhs@[k]) by { assert(frag_is(l, ds[i].rhs[k], hs[i].rhs@[k])); }
    }
    assert forall|s: Symbol| #[trigger] in_use(rs, s) implies l.names.contains_key(shown(src, s)) by { lemma_has_name(src, rs, hs, ds, l, s); }
    assert(ds[0] == plain_rule(src, rs[0]));
}
pub proof fn lemma_has_name(src: SymbolSource, rs: Seq<CfgRule>, hs: Seq<CfgRule>, ds: Seq<Ru>, l: Lay, s: Symbol)
    requires in_use(rs, s), ds == plain_rules(src, rs), mains_ok(l, hs, ds),
    ensures l.names.contains_key(shown(src, s)),
{
    let i = choose|i: int| 0 <= i < rs.len() && ((#[trigger] rs[i]).lhs == s || rs[i].rhs@.contains(s));
    assert(ds[i] == plain_rule(src, rs[i]));
    assert(rule_of(hs, l, ds[i], i, l.at[i]));
    if rs[i].lhs != s {
        let k = rs[i].rhs@.index_of(s);
        assert(rs[i].rhs@[k] == s);
        let u = hs[l.at[i]].rhs@;
        assert(frags_are(l, ds[i].rhs, u));
        assert(ds[i].rhs.len() == rs[i].rhs@.len());
        assert(frag_is(l, ds[i].rhs[k], u[k]));
    }
}
