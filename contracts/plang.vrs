// The productions of a list of rules.
pub open spec fn pset(ps: Seq<Prod>) -> ISet<Prod> { ISet::new(|p: Prod| ps.contains(p)) }
pub proof fn lemma_prods(rs: Seq<CfgRule>)
    ensures prods(rs) == pset(prod_seq(rs)),
{
    assert forall|p: Prod| prods(rs).contains(p) <==> pset(prod_seq(rs)).contains(p) by {
        if prods(rs).contains(p) {
            let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == p.l && rs[i].rhs@ == p.r;
            assert(prod_seq(rs)[i] == p);
        }
        if prod_seq(rs).contains(p) {
            let i = choose|i: int| 0 <= i < prod_seq(rs).len() && prod_seq(rs)[i] == p;
            assert(rs[i].lhs == p.l);
        }
    }
    assert(prods(rs) =~= pset(prod_seq(rs)));
}
pub proof fn lemma_prods_push(a: Seq<CfgRule>, b: Seq<CfgRule>, x: Prod)
    requires prod_seq(b) == prod_seq(a).push(x),
    ensures prods(b) == prods(a).insert(x),
{
    lemma_prods(a); lemma_prods(b);
    assert forall|y: Prod| prods(b).contains(y) <==> prods(a).insert(x).contains(y) by {
        let s = prod_seq(b);
        if prod_seq(a).contains(y) { let i = choose|i: int| 0 <= i < a.len() && prod_seq(a)[i] == y; assert(s[i] == y); }
        if y == x { assert(s[a.len() as int] == y); }
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < a.len() { assert(prod_seq(a)[i] == y); } }
    }
    assert(prods(b) =~= prods(a).insert(x));
}
