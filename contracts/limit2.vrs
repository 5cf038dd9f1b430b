pub proof fn lemma_chain_lang(p: ISet<Prod>, l: Symbol, s: Seq<Symbol>, n: int, k: int)
    requires
        prods_below(p, n), l.raw < n, below(s, n), k >= 2, n >= 0,
        n + chain(l, s, n, k).len() - 1 <= u32::MAX,
    ensures
        same_lang(p.insert(Prod { l: l, r: s }), p.union(pset(chain(l, s, n, k))), n),
        prods_below(p.union(pset(chain(l, s, n, k))), n + chain(l, s, n, k).len() - 1),
        forall|i: int| 0 <= i < chain(l, s, n, k).len() ==> (#[trigger] chain(l, s, n, k)[i]).r.len() <= k,
        chain(l, s, n, k).len() >= 1,
    decreases s.len(),
{
    let c = chain(l, s, n, k);
    if s.len() <= k {
        assert(c[0] == Prod { l: l, r: s });
        assert(p.insert(Prod { l: l, r: s }) =~= p.union(pset(c)));
    } else {
        let f = sym_of(n);
        let u = s.take(k);
        let v = s.skip(k);
        let a = Prod { l: f, r: u };
        let rest = chain(l, seq![f] + v, n + 1, k);
        assert(c == seq![a] + rest);
        assert(c.len() == 1 + rest.len());
        assert(u + v =~= s);
        lemma_chain_len(l, seq![f] + v, n + 1, k);
        assert(below(u, n)) by { assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).raw < n by { assert(u[i] == s[i]); } }
        assert(below(v, n)) by { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).raw < n by { assert(v[i] == s[i + k]); } }
        lemma_name(p, l, u, v, f, n);
        let p1 = p.insert(a);
        assert(prods_below(p1, n + 1)) by {
            assert forall|x: Prod| #[trigger] p1.contains(x) implies x.l.raw < n + 1 && below(x.r, n + 1) by {
                if x != a { assert(p.contains(x)); }
            }
        }
        lemma_chain_lang(p1, l, seq![f] + v, n + 1, k);
        assert(p1.union(pset(rest)) =~= p.union(pset(c))) by {
            assert forall|x: Prod| p1.union(pset(rest)).contains(x) <==> p.union(pset(c)).contains(x) by {
                if rest.contains(x) { let i = choose|i: int| 0 <= i < rest.len() && rest[i] == x; assert(c[i + 1] == x); }
                if x == a { assert(c[0] == x); }
                if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i > 0 { assert(rest[i - 1] == x); } }
            }
        }
        lemma_same_trans(p.insert(Prod { l: l, r: s }), p1.insert(Prod { l: l, r: seq![f] + v }), p.union(pset(c)), n, n + 1);
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).r.len() <= k by {
            if i > 0 { assert(c[i] == rest[i - 1]); }
        }
    }
}
/// What a list of rules is split into, one rule after the other.
pub open spec fn limit_all(ps: Seq<Prod>, n: int, k: int) -> Seq<Prod>
    decreases ps.len(),
{
    if ps.len() == 0 { Seq::empty() } else { limit_all(ps.drop_last(), n, k) + chain(ps.last().l, ps.last().r, n + limit_all(ps.drop_last(), n, k).len() - (ps.len() - 1), k) }
}
/// Repeating the operation changes nothing.
pub proof fn lemma_limit_idempotent(ps: Seq<Prod>, n: int, k: int)
    requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).r.len() <= k,
    ensures limit_all(ps, n, k) == ps,
    decreases ps.len(),
{
    if ps.len() > 0 {
        assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]).r.len() <= k by { assert(ps.drop_last()[i] == ps[i]); }
        lemma_limit_idempotent(ps.drop_last(), n, k);
        assert(ps.last() == ps[ps.len() - 1]);
        assert(limit_all(ps, n, k) =~= ps);
    } else {
        assert(limit_all(ps, n, k) =~= ps);
    }
}
pub proof fn lemma_prods_skip(rs: Seq<CfgRule>, j: int)
    requires 0 <= j < rs.len(),
    ensures prods(rs.skip(j)) == prods(rs.skip(j + 1)).insert(Prod { l: rs[j].lhs, r: rs[j].rhs@ }),
{
    let a = rs.skip(j); let b = rs.skip(j + 1);
    let y = Prod { l: rs[j].lhs, r: rs[j].rhs@ };
    assert forall|x: Prod| prods(a).contains(x) <==> prods(b).insert(y).contains(x) by {
        if prods(a).contains(x) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lhs == x.l && a[i].rhs@ == x.r;
            if i > 0 { assert(b[i - 1] == a[i]); }
        }
        if prods(b).contains(x) {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lhs == x.l && b[i].rhs@ == x.r;
            assert(a[i + 1] == b[i]);
        }
        if x == y { assert(a[0].lhs == x.l); }
    }
    assert(prods(a) =~= prods(b).insert(y));
}
// TRUSTED: mem::take of the rule vector.
#[verifier::external_body]
pub fn vx_mem_take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0,
{ std::mem::take(v) }

pub open spec fn short(rs: Seq<CfgRule>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).rhs@.len() < u32::MAX }
//@fn cfg-grammar/src/cfg.rs Cfg::limit_rhs_len
//@rewrite_opt mem::take($$x) => vx_mem_take($$x)
//@for 0 value
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).wf(), !old(self).eliminate_nulling, short(old(self).rules@),
        limit matches Some(k) ==> k >= 2,
    ensures
        final(self).rhs_len_invariant == limit,
        final(self).same_rest(Cfg { rhs_len_invariant: limit, ..*old(self) }),
        prod_seq(final(self).rules@) == limit_all(prod_seq(old(self).rules@), old(self).n(), final(self).limit()),
        same_lang(prods(old(self).rules@), prods(final(self).rules@), old(self).n()),
        forall|i: int| 0 <= i < final(self).rules@.len() ==> (#[trigger] final(self).rules@[i]).rhs@.len() <= final(self).limit(),
        final(self).wf(), final(self).n() >= old(self).n(),
        final(self).n() == old(self).n() + final(self).rules@.len() - old(self).rules@.len(),
//@at begin
    let ghost rs0 = self.rules@;
    let ghost n0 = self.n();
    let ghost k: int = match limit { Some(x) => x as int, None => usize::MAX as int };
    let ghost all = prod_seq(rs0);
//@at loop0.pre
    proof {
        assert(__s0@ == rs0);
        lemma_prods(rs0);
        assert(all.take(0) =~= Seq::empty());
        assert(prod_seq(self.rules@) =~= Seq::empty());
        assert(limit_all(all.take(0), n0, k) =~= Seq::empty());
        assert(prods(rs0) =~= prods(self.rules@).union(prods(rs0.skip(0)))) by { assert(rs0.skip(0) =~= rs0); }
    }
//@loop 0
    invariant
        0 <= __i0 <= __s0@.len(), self.limit() == k, self.rhs_len_invariant == limit, !self.eliminate_nulling,
        self.same_rest(Cfg { rhs_len_invariant: limit, ..*old(self) }),
        prod_seq(self.rules@) == limit_all(all.take(__i0 as int), n0, k),
        self.n() == n0 + self.rules@.len() - __i0,
        self.rules@.len() >= __i0,
        prods_below(prods(self.rules@), self.n()),
        same_lang(prods(rs0), prods(self.rules@).union(prods(rs0.skip(__i0 as int))), n0),
        forall|i: int| 0 <= i < self.rules@.len() ==> (#[trigger] self.rules@[i]).rhs@.len() <= k,
    decreases __s0@.len() - __i0,
//@at loop0.begin
    let ghost r1 = self.rules@;
    let ghost n1 = self.n();
    proof { assert(rule == rs0[__i0 as int - 1]); assert(rule_in(rs0[__i0 as int - 1], n0)); }
//@at loop0.end
    proof {
        let j = __i0 as int - 1;
        let r = rs0[j];
        let c = chain(r.lhs, r.rhs@, n1, k);
        lemma_chain_len(r.lhs, r.rhs@, n1, k);
        assert(added(Cfg { rules: self.rules, sym_source: self.sym_source, ..*self }, r).len() >= 0);
        assert(prod_seq(self.rules@) == prod_seq(r1) + c);
        assert(prod_seq(r1).len() == r1.len() && prod_seq(self.rules@).len() == self.rules@.len());
        assert(self.n() == n1 + c.len() - 1);
        lemma_prods(r1); lemma_prods(self.rules@);
        let rest = prods(rs0.skip(j + 1));
        let p = prods(r1).union(rest);
        assert(prods_below(p, n1)) by {
            assert forall|x: Prod| #[trigger] p.contains(x) implies x.l.raw < n1 && below(x.r, n1) by {
                if rest.contains(x) {
                    let i = choose|i: int| 0 <= i < rs0.skip(j + 1).len() && (#[trigger] rs0.skip(j + 1)[i]).lhs == x.l && rs0.skip(j + 1)[i].rhs@ == x.r;
                    assert(rule_in(rs0[i + j + 1], n0));
                }
            }
        }
        assert(below(r.rhs@, n1));
        lemma_chain_lang(p, r.lhs, r.rhs@, n1, k);
        lemma_prods_skip(rs0, j);
        assert(prods(r1).union(prods(rs0.skip(j))) =~= p.insert(Prod { l: r.lhs, r: r.rhs@ }));
        assert(prods(self.rules@) =~= prods(r1).union(pset(c))) by {
            let s = prod_seq(self.rules@);
            assert forall|x: Prod| s.contains(x) <==> (prod_seq(r1).contains(x) || c.contains(x)) by {
                if prod_seq(r1).contains(x) { let i = choose|i: int| 0 <= i < r1.len() && prod_seq(r1)[i] == x; assert(s[i] == x); }
                if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(s[i + r1.len()] == x); }
                if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < r1.len() { assert(prod_seq(r1)[i] == x); } else { assert(c[i - r1.len()] == x); } }
            }
        }
        assert(p.union(pset(c)) =~= prods(self.rules@).union(rest));
        lemma_same_trans(prods(rs0), p.insert(Prod { l: r.lhs, r: r.rhs@ }), prods(self.rules@).union(rest), n0, n1);
        assert(all.take(j + 1).drop_last() =~= all.take(j));
        assert(all.take(j + 1).last() == prod_of(r));
        assert forall|i: int| 0 <= i < self.rules@.len() implies (#[trigger] self.rules@[i]).rhs@.len() <= k by {
            assert(prod_seq(self.rules@)[i] == prod_of(self.rules@[i]));
            if i < r1.len() { assert(self.rules@[i] == self.rules@.take(r1.len() as int)[i]); } else { assert(prod_seq(self.rules@)[i] == c[i - r1.len()]); }
        }
        assert forall|x: Prod| #[trigger] prods(self.rules@).contains(x) implies x.l.raw < self.n() && below(x.r, self.n()) by {
            assert(p.union(pset(c)).contains(x));
        }
    }
//@at end
    proof {
        assert(all.take(rs0.len() as int) =~= all);
        assert(prods(self.rules@).union(prods(rs0.skip(rs0.len() as int))) =~= prods(self.rules@));
        assert(self.wf()) by {
            assert forall|i: int| 0 <= i < self.rules@.len() implies rule_in(#[trigger] self.rules@[i], self.n()) by {
                let x = prod_of(self.rules@[i]);
                assert(prods(self.rules@).contains(x));
            }
        }
    }
//@end
