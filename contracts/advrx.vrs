// G24: an expression derives what its translation derives, and nothing else.
pub open spec fn rx_derives(x: Rx, u: Seq<Symbol>, v: Seq<Symbol>) -> bool {
    exists|w: Seq<Symbol>| in_dom(x.ren, w) && v == mv_seq(x.ren, w) && #[trigger] der(x.of.ps, u, w)
}
pub proof fn lemma_mv_step(m: RM, u: Seq<Symbol>, p: Prod, i: int)
    requires 0 <= i < u.len(), u[i] == p.l, in_dom(m, u), in_dom(m, p.r),
    ensures ({
        let w = u.take(i) + p.r + u.skip(i + 1);
        in_dom(m, w) && mv_seq(m, w) == mv_seq(m, u).take(i) + mv_seq(m, p.r) + mv_seq(m, u).skip(i + 1)
    }),
{
    let w = u.take(i) + p.r + u.skip(i + 1);
    assert forall|k: int| 0 <= k < w.len() implies m.contains_key(#[trigger] w[k]) by {
        if k < i { assert(w[k] == u[k]); }
        else if k < i + p.r.len() { assert(w[k] == p.r[k - i]); }
        else { assert(w[k] == u[k - p.r.len() + 1]); }
    }
    assert(mv_seq(m, w) =~= mv_seq(m, u).take(i) + mv_seq(m, p.r) + mv_seq(m, u).skip(i + 1));
}
pub proof fn lemma_rx_fwd(l: Lay, rs: Seq<CfgRule>, n: int, j: int, u: Seq<Symbol>, w: Seq<Symbol>, k: nat)
    requires rx_fact(l, rs, n, j), in_dom(l.rxs[j].ren, u), dern(l.rxs[j].of.ps, u, w, k),
    ensures in_dom(l.rxs[j].ren, w), der(prods(rs), mv_seq(l.rxs[j].ren, u), mv_seq(l.rxs[j].ren, w)),
    decreases k,
{
    let x = l.rxs[j];
    if k == 0 {
        lemma_refl(prods(rs), mv_seq(x.ren, u));
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(x.of.ps, u, c) && dern(x.of.ps, c, w, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(x.of.ps, u, c, p, i);
        lemma_mv_step(x.ren, u, p, i);
        let q = mv(x.ren, p);
        assert(is_mv(x.ren, x.of.ps, q));
        let sub = rs.subrange(x.from, x.to);
        assert(mv_all(x.ren, x.of.ps).contains(q));
        assert(prods(sub).contains(q));
        let e = choose|e: int| 0 <= e < sub.len() && (#[trigger] sub[e]).lhs == q.l && sub[e].rhs@ == q.r;
        assert(rs[x.from + e] == sub[e]);
        assert(prods(rs).contains(q));
        assert(step_at(prods(rs), mv_seq(x.ren, u), mv_seq(x.ren, c), q, i));
        assert(step(prods(rs), mv_seq(x.ren, u), mv_seq(x.ren, c)));
        lemma_step(prods(rs), mv_seq(x.ren, u), mv_seq(x.ren, c));
        lemma_rx_fwd(l, rs, n, j, c, w, (k - 1) as nat);
        lemma_trans(prods(rs), mv_seq(x.ren, u), mv_seq(x.ren, c), mv_seq(x.ren, w));
    }
}
/// A rule for a symbol of an expression is a rule of its translation.
pub proof fn lemma_rx_rule(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, j: int, s: Symbol, q: Prod) -> (o: Prod)
    requires laid(l, rs, n, ds), 0 <= j < l.rxs.len(), l.rxs[j].ren.contains_key(s), prods(rs).contains(q), q.l == l.rxs[j].ren[s],
    ensures l.rxs[j].of.ps.contains(o), o.l == s, q == mv(l.rxs[j].ren, o),
{
    let x = l.rxs[j];
    assert(rx_fact(l, rs, n, j));
    let p = choose|p: int| 0 <= p < rs.len() && (#[trigger] rs[p]).lhs == q.l && rs[p].rhs@ == q.r;
    lemma_classes_bare(l, rs, n, ds);
    if rx_class(x.of.cm, s) {
        let k = choose|k: Seq<(char, char)>| #[trigger] x.of.cm.contains_key(k) && x.of.cm[k] == s;
        assert(l.cm.contains_key(k) && rs[p].lhs == l.cm[k]);
        assert(false);
    }
    assert(x.first <= q.l.raw < x.end);
    assert(l.role[q.l.raw as int] == Role::Rx(j));
    assert(place_fact(l, rs, p));
    match l.place[p] {
        Place::Main(i) => { assert(main_fact(l, rs, ds, i)); assert(name_fact(l, n, ds[i].lhs)); assert(false); }
        Place::Str(t) => { assert(lit_fact(l, t)); assert(name_fact(l, n, l.lits[t])); assert(false); }
        Place::Grp(i) => {
            assert(grp_fact(l, rs, n, i));
            assert(own(l.grps[i], rs[p].lhs));
            assert(l.role[rs[p].lhs.raw as int] == Role::Grp(i));
            assert(false);
        }
        Place::Rx(i) => {
            assert(rx_fact(l, rs, n, i));
            lemma_rx_lhs(l, rs, n, i, p);
            assert(l.role[rs[p].lhs.raw as int] == Role::Rx(i));
            assert(i == j);
        }
    }
    let sub = rs.subrange(x.from, x.to);
    assert(sub[p - x.from] == rs[p]);
    assert(prods(sub).contains(q));
    assert(mv_all(x.ren, x.of.ps).contains(q));
    let o = choose|o: Prod| #[trigger] x.of.ps.contains(o) && q == mv(x.ren, o);
    assert(is_left(x.of.ps, o.l));
    if rx_class(x.of.cm, o.l) {
        let k = choose|k: Seq<(char, char)>| #[trigger] x.of.cm.contains_key(k) && x.of.cm[k] == o.l;
        assert(false);
    }
    assert(x.ren.contains_key(o.l) && x.ren[o.l] == x.ren[s]);
    o
}
pub proof fn lemma_rx_bwd(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, j: int, u: Seq<Symbol>, v: Seq<Symbol>, k: nat)
    requires laid(l, rs, n, ds), 0 <= j < l.rxs.len(), in_dom(l.rxs[j].ren, u), dern(prods(rs), mv_seq(l.rxs[j].ren, u), v, k),
    ensures rx_derives(l.rxs[j], u, v),
    decreases k,
{
    let x = l.rxs[j];
    assert(rx_fact(l, rs, n, j));
    let a = mv_seq(x.ren, u);
    if k == 0 {
        lemma_refl(x.of.ps, u);
        assert(in_dom(x.ren, u) && v == mv_seq(x.ren, u));
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(prods(rs), a, c) && dern(prods(rs), c, v, (k - 1) as nat);
        let (q, i) = choose|q: Prod, i: int| #[trigger] step_at(prods(rs), a, c, q, i);
        assert(a[i] == x.ren[u[i]]);
        let o = lemma_rx_rule(l, rs, n, ds, j, u[i], q);
        lemma_mv_step(x.ren, u, o, i);
        let d = u.take(i) + o.r + u.skip(i + 1);
        assert(c == mv_seq(x.ren, d));
        assert(step_at(x.of.ps, u, d, o, i));
        assert(step(x.of.ps, u, d));
        lemma_step(x.of.ps, u, d);
        lemma_rx_bwd(l, rs, n, ds, j, d, v, (k - 1) as nat);
        let w = choose|w: Seq<Symbol>| in_dom(x.ren, w) && v == mv_seq(x.ren, w) && #[trigger] der(x.of.ps, d, w);
        lemma_trans(x.of.ps, u, d, w);
    }
}
/// In the grammar, the symbol of an expression derives what its translation derives, with new names: nothing
/// more, and nothing less. Symbols of classes stay symbols of those classes.
pub proof fn lemma_rx_language(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, j: int, v: Seq<Symbol>)
    requires laid(l, rs, n, ds), 0 <= j < l.rxs.len(),
    ensures der(prods(rs), seq![rx_root(l.rxs[j])], v) <==> rx_derives(l.rxs[j], seq![l.rxs[j].of.root], v),
{
    let x = l.rxs[j];
    assert(rx_fact(l, rs, n, j));
    let u = seq![x.of.root];
    assert(in_dom(x.ren, u));
    assert(mv_seq(x.ren, u) =~= seq![rx_root(x)]);
    if der(prods(rs), seq![rx_root(x)], v) {
        let k = choose|k: nat| dern(prods(rs), seq![rx_root(x)], v, k);
        lemma_rx_bwd(l, rs, n, ds, j, u, v, k);
    }
    if rx_derives(x, u, v) {
        let w = choose|w: Seq<Symbol>| in_dom(x.ren, w) && v == mv_seq(x.ren, w) && #[trigger] der(x.of.ps, u, w);
        let k = choose|k: nat| dern(x.of.ps, u, w, k);
        lemma_rx_fwd(l, rs, n, j, u, w, k);
    }
}
