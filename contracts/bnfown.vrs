// G23: every repetition in a document has a symbol of its own, and there are no other such symbols.
// `who` tells which item (of which rule) the j-th one is for.
pub type Who = Seq<(int, int)>;
pub open spec fn frag_at(fs: Seq<Fr>, u: Seq<Symbol>, k: int, s: Symbol) -> bool { 0 <= k < u.len() && k < fs.len() && fs[k].rep != Rp::Once && u[k] == s }
/// The j-th such symbol is where an item repeats: in a rule that is done, or in what there is of the next one.
pub open spec fn used_at(l: Lay, who: Who, rs: Seq<CfgRule>, ds: Seq<Ru>, cur: Seq<Fr>, v: Seq<Symbol>, j: int) -> bool {
    let i = who[j].0;
    if i == ds.len() { frag_at(cur, v, who[j].1, l.grps[j].x) } else { 0 <= i < ds.len() && frag_at(ds[i].rhs, rs[l.at[i]].rhs@, who[j].1, l.grps[j].x) }
}
pub open spec fn is_who(l: Lay, who: Who, j: int, i: int, k: int, s: Symbol) -> bool { 0 <= j < l.grps.len() && who[j] == (i, k) && l.grps[j].x == s }
pub open spec fn mine(l: Lay, who: Who, i: int, k: int, s: Symbol) -> bool { exists|j: int| #[trigger] is_who(l, who, j, i, k, s) }
pub open spec fn all_mine(l: Lay, who: Who, i: int, fs: Seq<Fr>, u: Seq<Symbol>) -> bool {
    forall|k: int| 0 <= k < u.len() && k < fs.len() && fs[k].rep != Rp::Once ==> #[trigger] mine(l, who, i, k, u[k])
}
pub open spec fn rule_mine(l: Lay, who: Who, rs: Seq<CfgRule>, ds: Seq<Ru>, i: int) -> bool { all_mine(l, who, i, ds[i].rhs, rs[l.at[i]].rhs@) }
pub open spec fn owned(l: Lay, who: Who, rs: Seq<CfgRule>, ds: Seq<Ru>, cur: Seq<Fr>, v: Seq<Symbol>) -> bool {
    &&& who.len() == l.grps.len()
    &&& forall|j: int| 0 <= j < l.grps.len() ==> #[trigger] used_at(l, who, rs, ds, cur, v, j)
    &&& forall|i: int| 0 <= i < ds.len() ==> #[trigger] rule_mine(l, who, rs, ds, i)
    &&& all_mine(l, who, ds.len() as int, cur, v)
}
pub open spec fn who_next(l: Lay, m: Lay, who: Who, i: int, k: int) -> Who { if m.grps.len() > l.grps.len() { who.push((i, k)) } else { who } }
pub proof fn lemma_owned_same(l: Lay, m: Lay, who: Who, rs: Seq<CfgRule>, ds: Seq<Ru>, cur: Seq<Fr>, v: Seq<Symbol>)
    requires owned(l, who, rs, ds, Seq::empty(), Seq::empty()), m.grps == l.grps, m.at == l.at, cur.len() == 0, v.len() == 0,
    ensures owned(m, who, rs, ds, cur, v),
{
    assert(cur =~= Seq::empty());
    assert(v =~= Seq::empty());
    assert forall|j: int| 0 <= j < m.grps.len() implies #[trigger] used_at(m, who, rs, ds, cur, v, j) by { assert(used_at(l, who, rs, ds, cur, v, j)); }
    assert forall|i: int| 0 <= i < ds.len() implies #[trigger] rule_mine(m, who, rs, ds, i) by {
        assert(rule_mine(l, who, rs, ds, i));
        let u = rs[l.at[i]].rhs@;
        assert forall|a: int| 0 <= a < u.len() && a < ds[i].rhs.len() && ds[i].rhs[a].rep != Rp::Once implies #[trigger] mine(m, who, i, a, u[a]) by {
            assert(mine(l, who, i, a, u[a]));
            let j = choose|j: int| #[trigger] is_who(l, who, j, i, a, u[a]);
            assert(is_who(m, who, j, i, a, u[a]));
        }
    }
}
/// One more item.
pub proof fn lemma_owned_item(l: Lay, m: Lay, who: Who, rs: Seq<CfgRule>, qs: Seq<CfgRule>, ds: Seq<Ru>, cur: Seq<Fr>, v: Seq<Symbol>, f: Fr, s: Symbol, n: int, k: int)
    requires
        owned(l, who, rs, ds, cur, v), laid(l, rs, n, ds), laid(m, qs, k, ds), keeps(rs, qs), extends(l, m), m.at == l.at, cur.len() == v.len(),
        f.rep == Rp::Once ==> m.grps.len() == l.grps.len(),
        f.rep != Rp::Once ==> m.grps.len() == l.grps.len() + 1 && m.grps.last().x == s,
    ensures owned(m, who_next(l, m, who, ds.len() as int, v.len() as int), qs, ds, cur.push(f), v.push(s)),
{
    let w = who_next(l, m, who, ds.len() as int, v.len() as int);
    assert forall|j: int| 0 <= j < m.grps.len() implies #[trigger] used_at(m, w, qs, ds, cur.push(f), v.push(s), j) by {
        if j < l.grps.len() {
            assert(used_at(l, who, rs, ds, cur, v, j));
            assert(m.grps[j] == l.grps[j]);
            let i = who[j].0;
            if i != ds.len() { assert(rule_of(rs, l, ds[i], i, l.at[i])); assert(qs[l.at[i]] == rs[l.at[i]]); }
        }
    }
    assert forall|i: int, a: int, x: Symbol| mine(l, who, i, a, x) implies #[trigger] mine(m, w, i, a, x) by {
        let j = choose|j: int| #[trigger] is_who(l, who, j, i, a, x);
        assert(m.grps[j] == l.grps[j]);
        assert(is_who(m, w, j, i, a, x));
    }
    assert forall|i: int| 0 <= i < ds.len() implies #[trigger] rule_mine(m, w, qs, ds, i) by {
        assert(rule_mine(l, who, rs, ds, i));
        assert(rule_of(rs, l, ds[i], i, l.at[i]));
        assert(qs[l.at[i]] == rs[l.at[i]]);
        let u = rs[l.at[i]].rhs@;
        assert forall|a: int| 0 <= a < u.len() && a < ds[i].rhs.len() && ds[i].rhs[a].rep != Rp::Once implies #[trigger] mine(m, w, i, a, u[a]) by { assert(mine(l, who, i, a, u[a])); }
    }
    let c2 = cur.push(f);
    let v2 = v.push(s);
    let i = ds.len() as int;
    assert forall|a: int| 0 <= a < v2.len() && a < c2.len() && c2[a].rep != Rp::Once implies #[trigger] mine(m, w, i, a, v2[a]) by {
        if a < v.len() { assert(mine(l, who, i, a, v[a])); }
        else { assert(is_who(m, w, l.grps.len() as int, i, a, s)); }
    }
}
/// The items are a rule now.
pub proof fn lemma_owned_rule(l: Lay, m: Lay, who: Who, rs: Seq<CfgRule>, qs: Seq<CfgRule>, ds: Seq<Ru>, r: Ru, v: Seq<Symbol>, n: int)
    requires
        owned(l, who, rs, ds, r.rhs, v), laid(l, rs, n, ds), keeps(rs, qs), m.grps == l.grps, m.at == l.at.push(rs.len() as int),
        qs.len() > rs.len(), qs[rs.len() as int].rhs@ == v,
    ensures owned(m, who, qs, ds.push(r), Seq::empty(), Seq::empty()),
{
    let es = ds.push(r);
    let e = Seq::<Fr>::empty();
    let o = Seq::<Symbol>::empty();
    assert forall|j: int| 0 <= j < m.grps.len() implies #[trigger] used_at(m, who, qs, es, e, o, j) by {
        assert(used_at(l, who, rs, ds, r.rhs, v, j));
        let i = who[j].0;
        if i != ds.len() { assert(rule_of(rs, l, ds[i], i, l.at[i])); assert(qs[l.at[i]] == rs[l.at[i]]); assert(m.at[i] == l.at[i]); }
    }
    assert forall|i: int, a: int, x: Symbol| mine(l, who, i, a, x) implies #[trigger] mine(m, who, i, a, x) by {
        let j = choose|j: int| #[trigger] is_who(l, who, j, i, a, x);
        assert(is_who(m, who, j, i, a, x));
    }
    assert forall|i: int| 0 <= i < es.len() implies #[trigger] rule_mine(m, who, qs, es, i) by {
        let u = qs[m.at[i]].rhs@;
        if i < ds.len() {
            assert(rule_mine(l, who, rs, ds, i));
            assert(rule_of(rs, l, ds[i], i, l.at[i]));
            assert(qs[l.at[i]] == rs[l.at[i]] && m.at[i] == l.at[i]);
            assert forall|a: int| 0 <= a < u.len() && a < es[i].rhs.len() && es[i].rhs[a].rep != Rp::Once implies #[trigger] mine(m, who, i, a, u[a]) by { assert(mine(l, who, i, a, u[a])); }
        } else {
            assert(u == v);
            assert forall|a: int| 0 <= a < u.len() && a < es[i].rhs.len() && es[i].rhs[a].rep != Rp::Once implies #[trigger] mine(m, who, i, a, u[a]) by { assert(mine(l, who, i, a, v[a])); }
        }
    }
}
/// Everything is as it should be: the rules are those of the document, and repetitions have symbols of their own.
pub open spec fn as_written(ds: Seq<Ru>, g: Cfg, l: Lay, who: Who) -> bool {
    &&& laid(l, g.rules@, g.n(), ds) && owned(l, who, g.rules@, ds, Seq::empty(), Seq::empty())
    &&& ds.len() > 0 && g.roots@ == seq![l.names[ds[0].lhs]] && g.wrapped_roots@.len() == 0
}
pub open spec fn loaded(ds: Seq<Ru>, g: Cfg) -> bool { exists|l: Lay, who: Who| #[trigger] as_written(ds, g, l, who) }
/// No two items share such a symbol.
pub proof fn lemma_not_shared(ds: Seq<Ru>, g: Cfg, l: Lay, who: Who, i: int, a: int, k: int, b: int)
    requires
        as_written(ds, g, l, who), 0 <= i < ds.len(), 0 <= k < ds.len(),
        0 <= a < ds[i].rhs.len(), 0 <= b < ds[k].rhs.len(), ds[i].rhs[a].rep != Rp::Once, ds[k].rhs[b].rep != Rp::Once,
        g.rules@[l.at[i]].rhs@[a] == g.rules@[l.at[k]].rhs@[b],
    ensures i == k && a == b,
{
    let rs = g.rules@;
    assert(rule_of(rs, l, ds[i], i, l.at[i]) && rule_of(rs, l, ds[k], k, l.at[k]));
    assert(rule_mine(l, who, rs, ds, i) && rule_mine(l, who, rs, ds, k));
    let s = rs[l.at[i]].rhs@[a];
    assert(mine(l, who, i, a, rs[l.at[i]].rhs@[a]) && mine(l, who, k, b, rs[l.at[k]].rhs@[b]));
    let p = choose|j: int| #[trigger] is_who(l, who, j, i, a, s);
    let q = choose|j: int| #[trigger] is_who(l, who, j, k, b, s);
    assert(grp_ok(rs, l.grps[p], g.n()) && grp_ok(rs, l.grps[q], g.n()));
    if p < q { assert(l.grps[p].end <= l.grps[q].x.raw); }
    if q < p { assert(l.grps[q].end <= l.grps[p].x.raw); }
}
