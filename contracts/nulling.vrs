// G06: binarization with nulling elimination; G17: the histories of its rules.
// TRUSTED: slicing and element access of a right-hand side.
#[verifier::external_body]
pub fn vx_sub(s: &Rc<[Symbol]>, r: ops::Range<usize>) -> (t: &[Symbol])
    requires r.start <= r.end <= s@.len(),
    ensures t@ == s@.subrange(r.start as int, r.end as int),
{ &s[r] }
#[verifier::external_body]
pub fn vx_at(s: &Rc<[Symbol]>, i: usize) -> (t: Option<&Symbol>)
    ensures t == (if i < s@.len() { Some(&s@[i as int]) } else { None }),
{ s.get(i) }
pub fn vx_at_cloned(s: &Rc<[Symbol]>, i: usize) -> (t: Option<Symbol>)
    ensures t == sym_at(s@, i as int),
{
    match vx_at(s, i) { Some(x) => Some(*x), None => None }
}
pub fn vx_opt_test<F: Fn(&Symbol) -> bool>(o: Option<&Symbol>, f: &F) -> (r: Option<bool>)
    requires o matches Some(x) ==> call_requires(f, (x,)),
    ensures
        o is None ==> r is None,
        o matches Some(x) ==> r is Some && call_ensures(f, (x,), r->0),
{
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn vx_sym_test<F: Fn(&Symbol) -> bool>(f: F) -> (r: F)
    ensures r == f,
{ f }
pub fn vx_rule_test<F: Fn(&CfgRule) -> bool>(f: F) -> (r: F)
    ensures r == f,
{ f }

//@fn cfg-grammar/src/cfg.rs Cfg::with_sym_source
//@rewrite_opt , tmp_stack: RefCell::new(vec![]), =>
//@rewrite_opt MaybeSmallVec::new() => Vec::new()
    ensures ret.sym_source == sym_source, ret.rules@.len() == 0, ret.rhs_len_invariant is None, !ret.eliminate_nulling, ret.roots@.len() == 0, ret.wrapped_roots@.len() == 0,
//@end
//@fn cfg-grammar/src/cfg.rs Default for Cfg::default
    ensures ret.n() == 0, ret.rules@.len() == 0, ret.rhs_len_invariant is None, !ret.eliminate_nulling, ret.roots@.len() == 0, ret.wrapped_roots@.len() == 0,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::new
    ensures ret.n() == 0, ret.rules@.len() == 0, ret.rhs_len_invariant is None, !ret.eliminate_nulling, ret.roots@.len() == 0, ret.wrapped_roots@.len() == 0,
//@end
//@fn cfg-grammar/src/cfg.rs Cfg::rule
    ensures *ret.grammar == *old(self), *final(ret.grammar) == *final(self), ret.lhs == Some(lhs), ret.history is None,
//@end
// ---- which rules come out of one rule
pub open spec fn nul(nl: Seq<bool>, s: Symbol) -> bool { s.raw < nl.len() && nl[s.ix()] }
/// The nullable part of a right-hand side.
pub open spec fn which_of(r: Seq<Symbol>, nl: Seq<bool>) -> Option<BinarizedRhsRange> {
    if r.len() == 0 { Some(BinarizedRhsRange::All(0)) }
    else if r.len() == 1 { if nul(nl, r[0]) { Some(BinarizedRhsRange::All(1)) } else { None } }
    else if nul(nl, r[0]) { if nul(nl, r[1]) { Some(BinarizedRhsRange::All(2)) } else { Some(BinarizedRhsRange::Left) } }
    else { if nul(nl, r[1]) { Some(BinarizedRhsRange::Right) } else { None } }
}
pub open spec fn hist_of(r: CfgRule, nl: Seq<bool>) -> History { nulling_eliminated(r.history, sym_at(r.rhs@, 0), sym_at(r.rhs@, 1), which_of(r.rhs@, nl)->0) }
/// The rules that replace an occurrence of a nullable symbol.
pub open spec fn work_of(r: CfgRule, nl: Seq<bool>) -> Seq<Rec> {
    let h = hist_of(r, nl);
    match which_of(r.rhs@, nl) {
        Some(BinarizedRhsRange::All(k)) => if k == 2 { seq![Rec { l: r.lhs, r: r.rhs@.subrange(0, 1), h: h }, Rec { l: r.lhs, r: r.rhs@.subrange(1, 2), h: h }] } else { Seq::empty() },
        Some(BinarizedRhsRange::Left) => seq![Rec { l: r.lhs, r: r.rhs@.subrange(1, 2), h: h }],
        Some(BinarizedRhsRange::Right) => seq![Rec { l: r.lhs, r: r.rhs@.subrange(0, 1), h: h }],
        None => Seq::empty(),
    }
}
/// The rules of the nulling part.
pub open spec fn res_of(r: CfgRule, nl: Seq<bool>) -> Seq<Rec> {
    match which_of(r.rhs@, nl) {
        Some(BinarizedRhsRange::All(k)) => seq![Rec { l: r.lhs, r: r.rhs@, h: hist_of(r, nl) }],
        _ => Seq::empty(),
    }
}
pub open spec fn work_all(rs: Seq<CfgRule>, nl: Seq<bool>, k: int) -> Seq<Rec>
    decreases k,
{
    if k <= 0 { Seq::empty() } else { work_all(rs, nl, k - 1) + work_of(rs[k - 1], nl) }
}
pub open spec fn res_all(rs: Seq<CfgRule>, nl: Seq<bool>, k: int) -> Seq<Rec>
    decreases k,
{
    if k <= 0 { Seq::empty() } else { res_all(rs, nl, k - 1) + res_of(rs[k - 1], nl) }
}
pub proof fn lemma_work_in(rs: Seq<CfgRule>, nl: Seq<bool>, k: int)
    requires 0 <= k <= rs.len(),
    ensures
        forall|x: Rec| #[trigger] work_all(rs, nl, k).contains(x) ==> exists|i: int| 0 <= i < k && work_of(#[trigger] rs[i], nl).contains(x),
        forall|x: Rec| #[trigger] res_all(rs, nl, k).contains(x) ==> exists|i: int| 0 <= i < k && res_of(#[trigger] rs[i], nl).contains(x),
        forall|x: Rec, i: int| 0 <= i < k && #[trigger] work_of(rs[i], nl).contains(x) ==> work_all(rs, nl, k).contains(x),
        forall|x: Rec, i: int| 0 <= i < k && #[trigger] res_of(rs[i], nl).contains(x) ==> res_all(rs, nl, k).contains(x),
    decreases k,
{
    if k > 0 {
        lemma_work_in(rs, nl, k - 1);
        let a = work_all(rs, nl, k - 1); let b = work_of(rs[k - 1], nl); let c = work_all(rs, nl, k);
        let d = res_all(rs, nl, k - 1); let e = res_of(rs[k - 1], nl); let f = res_all(rs, nl, k);
        lemma_cat_in(a, b); lemma_cat_in(d, e);
    }
}
pub proof fn lemma_cat_in(a: Seq<Rec>, b: Seq<Rec>)
    ensures forall|x: Rec| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    assert forall|x: Rec| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[i + a.len()] == x); }
        if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
}
/// Adding one rule within the limit.
pub proof fn lemma_added(o: Cfg, g: Cfg, l: Symbol, h: History, s: Seq<Symbol>)
    requires
        s.len() <= o.limit(), o.limit() >= 2, !o.eliminate_nulling,
        prod_seq(g.rules@) == prod_seq(o.rules@) + added_prods(o, l, s),
        g.rules@.take(o.rules@.len() as int) == o.rules@,
        forall|i: int| o.rules@.len() <= i < g.rules@.len() ==>
            (#[trigger] g.rules@[i]).history == chain_history(h, s.len() as int, o.limit(), i - o.rules@.len(), g.rules@.len() - o.rules@.len()),
    ensures recs(g.rules@) == recs(o.rules@).push(Rec { l: l, r: s, h: h }), g.rules@.len() == o.rules@.len() + 1,
{
    let p = Prod { l: l, r: s };
    assert(added_prods(o, l, s) == seq![p]);
    assert(prod_seq(g.rules@).len() == g.rules@.len() && prod_seq(o.rules@).len() == o.rules@.len());
    let z = o.rules@.len() as int;
    assert(prod_seq(g.rules@)[z] == p);
    assert(prod_seq(g.rules@)[z] == prod_of(g.rules@[z]));
    assert(g.rules@[z].history == h);
    assert forall|i: int| 0 <= i < g.rules@.len() implies recs(g.rules@)[i] == recs(o.rules@).push(Rec { l: l, r: s, h: h })[i] by {
        if i < z { assert(g.rules@[i] == g.rules@.take(z)[i]); }
    }
    assert(recs(g.rules@) =~= recs(o.rules@).push(Rec { l: l, r: s, h: h }));
}

// ---- nullable symbols are those that derive the empty string
pub open spec fn all_nul(nl: Seq<bool>, a: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < a.len() ==> nul(nl, #[trigger] a[i]) }
pub open spec fn nul_set(rs: Seq<CfgRule>, n: int, nl: Seq<bool>) -> bool {
    &&& rules_in(rs, n) && nl.len() == n && closed(rs, nl, RhsPropertyMode::All)
    &&& forall|i: int| 0 <= i < n && is_nulling(rs, sym_of(i)) ==> #[trigger] nl[i]
}
pub proof fn lemma_lhs_nul(rs: Seq<CfgRule>, n: int, nl: Seq<bool>, p: Prod)
    requires nul_set(rs, n, nl), prods(rs).contains(p), all_nul(nl, p.r), n <= u32::MAX,
    ensures nul(nl, p.l),
{
    let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == p.l && rs[i].rhs@ == p.r;
    assert(rule_in(rs[i], n));
    assert(sym_of(p.l.ix()) == p.l);
    if p.r.len() == 0 {
        assert(is_nulling(rs, p.l));
        assert(nl[p.l.ix()]);
    } else {
        assert(sat(rs[i], nl, RhsPropertyMode::All)) by {
            assert forall|j: int| 0 <= j < rs[i].rhs@.len() implies nl[(#[trigger] rs[i].rhs@[j]).ix()] by { assert(nul(nl, p.r[j])); }
        }
    }
}
pub proof fn lemma_null_down(rs: Seq<CfgRule>, n: int, nl: Seq<bool>, a: Seq<Symbol>, k: nat)
    requires nul_set(rs, n, nl), n <= u32::MAX, dern(prods(rs), a, Seq::empty(), k),
    ensures all_nul(nl, a),
    decreases k,
{
    if k > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(prods(rs), a, c) && dern(prods(rs), c, Seq::empty(), (k - 1) as nat);
        lemma_null_down(rs, n, nl, c, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(prods(rs), a, c, p, i);
        let m = p.r.len() as int;
        assert forall|j: int| 0 <= j < m implies nul(nl, #[trigger] p.r[j]) by { assert(c[i + j] == p.r[j]); }
        lemma_lhs_nul(rs, n, nl, p);
        assert forall|j: int| 0 <= j < a.len() implies nul(nl, #[trigger] a[j]) by {
            if j < i { assert(c[j] == a[j]); } else if j > i { assert(c[j - 1 + m] == a[j]); }
        }
    }
}
/// A string of symbols that derive the empty string derives the empty string.
pub proof fn lemma_all_empty(ps: ISet<Prod>, a: Seq<Symbol>)
    requires forall|i: int| 0 <= i < a.len() ==> der(ps, seq![#[trigger] a[i]], Seq::empty()),
    ensures der(ps, a, Seq::empty()),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a =~= Seq::empty());
        lemma_refl(ps, a);
    } else {
        let d = a.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies der(ps, seq![#[trigger] d[i]], Seq::empty()) by { assert(d[i] == a[i]); }
        lemma_all_empty(ps, d);
        lemma_ctx(ps, seq![a.last()], Seq::empty(), d, Seq::empty());
        assert(d + seq![a.last()] + Seq::<Symbol>::empty() =~= a);
        assert(d + Seq::<Symbol>::empty() + Seq::<Symbol>::empty() =~= d);
        lemma_trans(ps, a, d, Seq::empty());
    }
}
pub proof fn lemma_null_up(rs: Seq<CfgRule>, n: int, p0: Seq<bool>, nl: Seq<bool>)
    requires
        rules_in(rs, n), 0 <= n <= u32::MAX, p0.len() == n, is_closure(rs, p0, nl, RhsPropertyMode::All),
        forall|i: int| 0 <= i < n ==> #[trigger] p0[i] == is_nulling(rs, sym_of(i)),
    ensures
        nul_set(rs, n, nl),
        forall|s: Symbol| #[trigger] nul(nl, s) ==> der(prods(rs), seq![s], Seq::empty()),
{
    let ps = prods(rs);
    let q = Seq::new(n as nat, |i: int| der(ps, seq![sym_of(i)], Seq::empty()));
    assert(sub(p0, q)) by {
        assert forall|i: int| 0 <= i < p0.len() implies (#[trigger] p0[i] ==> q[i]) by {
            if p0[i] {
                let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == sym_of(i) && rs[z].rhs@.len() == 0;
                let p = Prod { l: sym_of(i), r: rs[z].rhs@ };
                assert(ps.contains(p));
                lemma_prod(ps, p);
                assert(p.r =~= Seq::empty());
            }
        }
    }
    assert(closed(rs, q, RhsPropertyMode::All)) by {
        assert forall|z: int| 0 <= z < rs.len() implies (sat(#[trigger] rs[z], q, RhsPropertyMode::All) ==> q[rs[z].lhs.ix()]) by {
            assert(rule_in(rs[z], n));
            if sat(rs[z], q, RhsPropertyMode::All) {
                let p = Prod { l: rs[z].lhs, r: rs[z].rhs@ };
                assert(ps.contains(p));
                lemma_prod(ps, p);
                assert forall|j: int| 0 <= j < p.r.len() implies der(ps, seq![#[trigger] p.r[j]], Seq::empty()) by {
                    assert(q[rs[z].rhs@[j].ix()]);
                    assert(sym_of(p.r[j].ix()) == p.r[j]);
                }
                lemma_all_empty(ps, p.r);
                lemma_trans(ps, seq![p.l], p.r, Seq::empty());
                assert(sym_of(p.l.ix()) == p.l);
            }
        }
    }
    assert(sub(nl, q));
    assert forall|s: Symbol| #[trigger] nul(nl, s) implies der(ps, seq![s], Seq::empty()) by {
        assert(nl[s.ix()]); assert(q[s.ix()]); assert(sym_of(s.ix()) == s);
    }
    assert forall|i: int| 0 <= i < n && is_nulling(rs, sym_of(i)) implies #[trigger] nl[i] by { assert(p0[i]); }
}
// ---- the productions of the result
pub open spec fn in_work(l: Symbol, r: Seq<Symbol>, nl: Seq<bool>, p: Prod) -> bool {
    p.l == l && r.len() == 2 && ((nul(nl, r[1]) && p.r == seq![r[0]]) || (nul(nl, r[0]) && p.r == seq![r[1]]))
}
pub open spec fn works(ps: ISet<Prod>, nl: Seq<bool>) -> ISet<Prod> {
    ISet::new(|p: Prod| exists|x: Prod| #[trigger] ps.contains(x) && in_work(x.l, x.r, nl, p))
}
/// The productions after the elimination, and before unproductive rules are left out.
pub open spec fn denulled(ps: ISet<Prod>, nl: Seq<bool>) -> ISet<Prod> {
    ISet::new(|p: Prod| p.r.len() > 0 && (ps.contains(p) || works(ps, nl).contains(p)))
}
pub open spec fn nulling_part(ps: ISet<Prod>, nl: Seq<bool>) -> ISet<Prod> {
    ISet::new(|p: Prod| ps.contains(p) && all_nul(nl, p.r))
}
pub open spec fn short2(rs: Seq<CfgRule>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).rhs@.len() <= 2 }
pub proof fn lemma_work_prods(rs: Seq<CfgRule>, nl: Seq<bool>, work: Seq<CfgRule>)
    requires short2(rs), recs(work) == work_all(rs, nl, rs.len() as int),
    ensures prods(work) == works(prods(rs), nl),
{
    lemma_work_in(rs, nl, rs.len() as int);
    let all = work_all(rs, nl, rs.len() as int);
    assert forall|p: Prod| prods(work).contains(p) <==> works(prods(rs), nl).contains(p) by {
        if prods(work).contains(p) {
            let i = choose|i: int| 0 <= i < work.len() && (#[trigger] work[i]).lhs == p.l && work[i].rhs@ == p.r;
            let x = rec(work[i]);
            assert(recs(work)[i] == x);
            assert(all.contains(x));
            let j = choose|j: int| 0 <= j < rs.len() && work_of(#[trigger] rs[j], nl).contains(x);
            let y = Prod { l: rs[j].lhs, r: rs[j].rhs@ };
            assert(prods(rs).contains(y));
            let r = rs[j].rhs@;
            if r.len() == 2 { assert(r.subrange(0, 1) =~= seq![r[0]]); assert(r.subrange(1, 2) =~= seq![r[1]]); }
            assert(in_work(y.l, y.r, nl, p));
        }
        if works(prods(rs), nl).contains(p) {
            let y = choose|y: Prod| #[trigger] prods(rs).contains(y) && in_work(y.l, y.r, nl, p);
            let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).lhs == y.l && rs[j].rhs@ == y.r;
            let r = rs[j].rhs@;
            assert(r.subrange(0, 1) =~= seq![r[0]]); assert(r.subrange(1, 2) =~= seq![r[1]]);
            let x = Rec { l: p.l, r: p.r, h: hist_of(rs[j], nl) };
            let w = work_of(rs[j], nl);
            assert(w.len() >= 1);
            assert(w[0] == x || (w.len() == 2 && w[1] == x));
            assert(w.contains(x));
            assert(all.contains(x));
            let i = choose|i: int| 0 <= i < all.len() && all[i] == x;
            assert(recs(work)[i] == rec(work[i]));
            assert(work[i].lhs == p.l);
        }
    }
    assert(prods(work) =~= works(prods(rs), nl));
}
pub proof fn lemma_res_prods(rs: Seq<CfgRule>, nl: Seq<bool>, res: Seq<CfgRule>)
    requires short2(rs), recs(res) == res_all(rs, nl, rs.len() as int),
    ensures prods(res) == nulling_part(prods(rs), nl),
{
    lemma_work_in(rs, nl, rs.len() as int);
    let all = res_all(rs, nl, rs.len() as int);
    assert forall|p: Prod| prods(res).contains(p) <==> nulling_part(prods(rs), nl).contains(p) by {
        if prods(res).contains(p) {
            let i = choose|i: int| 0 <= i < res.len() && (#[trigger] res[i]).lhs == p.l && res[i].rhs@ == p.r;
            let x = rec(res[i]);
            assert(recs(res)[i] == x);
            assert(all.contains(x));
            let j = choose|j: int| 0 <= j < rs.len() && res_of(#[trigger] rs[j], nl).contains(x);
            assert(rs[j].lhs == p.l && rs[j].rhs@ == p.r);
            assert(all_nul(nl, p.r));
        }
        if nulling_part(prods(rs), nl).contains(p) {
            let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).lhs == p.l && rs[j].rhs@ == p.r;
            let x = Rec { l: p.l, r: p.r, h: hist_of(rs[j], nl) };
            assert(forall|i: int| 0 <= i < p.r.len() ==> nul(nl, #[trigger] p.r[i]));
            if p.r.len() > 0 { assert(nul(nl, p.r[0])); }
            if p.r.len() > 1 { assert(nul(nl, p.r[1])); }
            assert(res_of(rs[j], nl)[0] == x);
            assert(res_of(rs[j], nl).contains(x));
            assert(all.contains(x));
            let i = choose|i: int| 0 <= i < all.len() && all[i] == x;
            assert(recs(res)[i] == rec(res[i]));
            assert(res[i].lhs == p.l);
        }
    }
    assert(prods(res) =~= nulling_part(prods(rs), nl));
}
// ---- strings with nullable symbols left out
pub open spec fn del(nl: Seq<bool>, a: Seq<Symbol>, b: Seq<Symbol>) -> bool
    decreases a.len(),
{
    if a.len() == 0 { b.len() == 0 }
    else { (b.len() > 0 && a.last() == b.last() && del(nl, a.drop_last(), b.drop_last())) || (nul(nl, a.last()) && del(nl, a.drop_last(), b)) }
}
pub proof fn lemma_del_refl(nl: Seq<bool>, a: Seq<Symbol>)
    ensures del(nl, a, a),
    decreases a.len(),
{
    if a.len() > 0 { lemma_del_refl(nl, a.drop_last()); }
}
pub proof fn lemma_del_cat(nl: Seq<bool>, x: Seq<Symbol>, y: Seq<Symbol>, b: Seq<Symbol>, c: Seq<Symbol>)
    requires del(nl, x, b), del(nl, y, c),
    ensures del(nl, x + y, b + c),
    decreases y.len(),
{
    if y.len() == 0 {
        assert(x + y =~= x); assert(b + c =~= b);
    } else {
        let s = x + y;
        assert(s.drop_last() =~= x + y.drop_last());
        assert(s.last() == y.last());
        if c.len() > 0 && y.last() == c.last() && del(nl, y.drop_last(), c.drop_last()) {
            lemma_del_cat(nl, x, y.drop_last(), b, c.drop_last());
            assert((b + c).drop_last() =~= b + c.drop_last());
            assert((b + c).last() == c.last());
        } else {
            lemma_del_cat(nl, x, y.drop_last(), b, c);
        }
    }
}
pub proof fn lemma_del_split(nl: Seq<bool>, x: Seq<Symbol>, y: Seq<Symbol>, b: Seq<Symbol>) -> (r: (Seq<Symbol>, Seq<Symbol>))
    requires del(nl, x + y, b),
    ensures del(nl, x, r.0), del(nl, y, r.1), b == r.0 + r.1,
    decreases y.len(),
{
    let s = x + y;
    if y.len() == 0 {
        assert(s =~= x);
        assert(b + Seq::<Symbol>::empty() =~= b);
        (b, Seq::empty())
    } else {
        assert(s.drop_last() =~= x + y.drop_last());
        assert(s.last() == y.last());
        if b.len() > 0 && s.last() == b.last() && del(nl, s.drop_last(), b.drop_last()) {
            let (u, v) = lemma_del_split(nl, x, y.drop_last(), b.drop_last());
            let v2 = v.push(b.last());
            assert(v2.drop_last() =~= v);
            assert(b =~= b.drop_last().push(b.last()));
            assert(b =~= u + v2);
            (u, v2)
        } else {
            lemma_del_split(nl, x, y.drop_last(), b)
        }
    }
}
/// What is left of at most two symbols.
pub proof fn lemma_del_two(nl: Seq<bool>, r: Seq<Symbol>, b: Seq<Symbol>)
    requires del(nl, r, b), r.len() <= 2,
    ensures
        b.len() == 0 ==> all_nul(nl, r),
        b.len() > 0 ==> b == r || (r.len() == 2 && ((nul(nl, r[1]) && b == seq![r[0]]) || (nul(nl, r[0]) && b == seq![r[1]]))),
{
    reveal_with_fuel(del, 4);
    if r.len() == 1 {
        if b.len() > 0 { assert(b.drop_last().len() == 0 || !del(nl, r.drop_last(), b.drop_last())); assert(b =~= r); }
    } else if r.len() == 2 {
        let d = r.drop_last();
        assert(d.last() == r[0]);
        if b.len() > 0 && r.last() == b.last() && del(nl, d, b.drop_last()) {
            let c = b.drop_last();
            if c.len() > 0 && d.last() == c.last() && del(nl, d.drop_last(), c.drop_last()) { assert(b =~= r); }
            else { assert(b =~= seq![r[1]]); }
        } else {
            if b.len() > 0 { assert(b =~= seq![r[0]]); }
        }
    }
}
/// Whatever a string derives, it derives without empty rules once the right nullable symbols are left out of it.
pub proof fn lemma_complete(rs: Seq<CfgRule>, n: int, nl: Seq<bool>, a: Seq<Symbol>, w: Seq<Symbol>, k: nat) -> (b: Seq<Symbol>)
    requires nul_set(rs, n, nl), n <= u32::MAX, short2(rs), dern(prods(rs), a, w, k),
    ensures del(nl, a, b), der(denulled(prods(rs), nl), b, w),
    decreases k,
{
    let ps = prods(rs);
    let qs = denulled(ps, nl);
    if k == 0 {
        lemma_del_refl(nl, a);
        lemma_refl(qs, a);
        a
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, w, (k - 1) as nat);
        let d = lemma_complete(rs, n, nl, c, w, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(ps, a, c, p, i);
        let x = a.take(i); let y = a.skip(i + 1);
        assert(c =~= x + (p.r + y));
        let (x2, z) = lemma_del_split(nl, x, p.r + y, d);
        let (r2, y2) = lemma_del_split(nl, p.r, y, z);
        let one = seq![p.l];
        let z2 = choose|z2: int| 0 <= z2 < rs.len() && (#[trigger] rs[z2]).lhs == p.l && rs[z2].rhs@ == p.r;
        assert(p.r.len() <= 2);
        lemma_del_two(nl, p.r, r2);
        assert(a =~= x + (one + y));
        assert(one.drop_last().len() == 0);
        if r2.len() == 0 {
            lemma_lhs_nul(rs, n, nl, p);
            assert(del(nl, one, Seq::empty())) by { reveal_with_fuel(del, 2); }
            lemma_del_cat(nl, one, y, Seq::empty(), y2);
            assert(Seq::<Symbol>::empty() + y2 =~= y2);
            assert(d =~= x2 + y2);
            lemma_del_cat(nl, x, one + y, x2, y2);
            d
        } else {
            let b = x2 + (one + y2);
            lemma_del_refl(nl, one);
            lemma_del_cat(nl, one, y, one, y2);
            lemma_del_cat(nl, x, one + y, x2, one + y2);
            let q = Prod { l: p.l, r: r2 };
            assert(qs.contains(q)) by {
                if r2 == p.r { assert(q == p); } else { assert(in_work(p.l, p.r, nl, q)); assert(works(ps, nl).contains(q)); }
            }
            lemma_prod(qs, q);
            lemma_ctx(qs, one, r2, x2, y2);
            assert(x2 + one + y2 =~= b);
            assert(x2 + r2 + y2 =~= d);
            lemma_trans(qs, b, d, w);
            b
        }
    }
}
pub proof fn lemma_grows(ps: ISet<Prod>, a: Seq<Symbol>, w: Seq<Symbol>, k: nat)
    requires dern(ps, a, w, k), forall|p: Prod| #[trigger] ps.contains(p) ==> p.r.len() > 0,
    ensures w.len() >= a.len(),
    decreases k,
{
    if k > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, w, (k - 1) as nat);
        lemma_grows(ps, c, w, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(ps, a, c, p, i);
    }
}
/// From the empty string nothing else is derived.
pub proof fn lemma_from_empty(ps: ISet<Prod>, w: Seq<Symbol>, k: nat)
    requires dern(ps, Seq::empty(), w, k),
    ensures w.len() == 0,
{
    if k > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, Seq::empty(), c) && dern(ps, c, w, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(ps, Seq::empty(), c, p, i);
    }
}
/// The new rules derive nothing new.
pub proof fn lemma_sound(ps: ISet<Prod>, nl: Seq<bool>, a: Seq<Symbol>, w: Seq<Symbol>)
    requires
        forall|s: Symbol| #[trigger] nul(nl, s) ==> der(ps, seq![s], Seq::empty()),
        der(denulled(ps, nl), a, w),
    ensures der(ps, a, w),
{
    assert forall|x: Prod| #[trigger] denulled(ps, nl).contains(x) implies der(ps, seq![x.l], x.r) by {
        if ps.contains(x) { lemma_prod(ps, x); }
        else {
            let y = choose|y: Prod| #[trigger] ps.contains(y) && in_work(y.l, y.r, nl, x);
            lemma_prod(ps, y);
            let e = Seq::<Symbol>::empty();
            assert(y.r =~= seq![y.r[0]] + seq![y.r[1]] + e);
            assert(y.r =~= e + seq![y.r[0]] + seq![y.r[1]]);
            if nul(nl, y.r[1]) && x.r == seq![y.r[0]] {
                lemma_ctx(ps, seq![y.r[1]], e, seq![y.r[0]], e);
                assert(seq![y.r[0]] + e + e =~= x.r);
            } else {
                lemma_ctx(ps, seq![y.r[0]], e, e, seq![y.r[1]]);
                assert(e + e + seq![y.r[1]] =~= x.r);
            }
            lemma_trans(ps, seq![y.l], y.r, x.r);
        }
    }
    lemma_incl(denulled(ps, nl), ps, a, w);
}
pub open spec fn restricted(ps: ISet<Prod>, pr: Seq<bool>) -> ISet<Prod> { ISet::new(|p: Prod| ps.contains(p) && nul(pr, p.l)) }
/// Leaving out the rules of unproductive symbols loses no string of productive symbols.
pub proof fn lemma_productive(rs: Seq<CfgRule>, n: int, pr: Seq<bool>, a: Seq<Symbol>, w: Seq<Symbol>, k: nat)
    requires
        rules_in(rs, n), pr.len() == n, closed(rs, pr, RhsPropertyMode::All), dern(prods(rs), a, w, k), all_nul(pr, w),
        forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).rhs@.len() > 0,
    ensures all_nul(pr, a), der(restricted(prods(rs), pr), a, w),
    decreases k,
{
    let ps = prods(rs);
    let qs = restricted(ps, pr);
    if k == 0 { lemma_refl(qs, a); }
    else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, w, (k - 1) as nat);
        lemma_productive(rs, n, pr, c, w, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(ps, a, c, p, i);
        let m = p.r.len() as int;
        let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == p.l && rs[z].rhs@ == p.r;
        assert(rule_in(rs[z], n));
        assert(sat(rs[z], pr, RhsPropertyMode::All)) by {
            assert forall|j: int| 0 <= j < rs[z].rhs@.len() implies pr[(#[trigger] rs[z].rhs@[j]).ix()] by { assert(c[i + j] == p.r[j]); assert(nul(pr, c[i + j])); }
        }
        assert(nul(pr, p.l));
        assert forall|j: int| 0 <= j < a.len() implies nul(pr, #[trigger] a[j]) by {
            if j < i { assert(c[j] == a[j]); } else if j > i { assert(c[j - 1 + m] == a[j]); }
        }
        assert(qs.contains(p));
        assert(step_at(qs, a, c, p, i));
        assert(step(qs, a, c));
        lemma_step(qs, a, c);
        lemma_trans(qs, a, c, w);
    }
}
/// The nulling part derives the same empty strings.
pub proof fn lemma_part(rs: Seq<CfgRule>, n: int, nl: Seq<bool>, a: Seq<Symbol>, k: nat)
    requires nul_set(rs, n, nl), n <= u32::MAX, dern(prods(rs), a, Seq::empty(), k),
    ensures dern(nulling_part(prods(rs), nl), a, Seq::empty(), k),
    decreases k,
{
    let ps = prods(rs);
    let qs = nulling_part(ps, nl);
    if k > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, Seq::empty(), (k - 1) as nat);
        lemma_part(rs, n, nl, c, (k - 1) as nat);
        lemma_null_down(rs, n, nl, c, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(ps, a, c, p, i);
        assert forall|j: int| 0 <= j < p.r.len() implies nul(nl, #[trigger] p.r[j]) by { assert(c[i + j] == p.r[j]); }
        assert(qs.contains(p));
        assert(step_at(qs, a, c, p, i));
        assert(step(qs, a, c));
    }
}
pub proof fn lemma_sub_der(ps: ISet<Prod>, qs: ISet<Prod>, a: Seq<Symbol>, w: Seq<Symbol>)
    requires forall|p: Prod| #[trigger] ps.contains(p) ==> qs.contains(p), der(ps, a, w),
    ensures der(qs, a, w),
{
    assert forall|x: Prod| #[trigger] ps.contains(x) implies der(qs, seq![x.l], x.r) by { lemma_prod(qs, x); }
    lemma_incl(ps, qs, a, w);
}

// ---- the whole transformation
pub open spec fn shape(rs: Seq<CfgRule>) -> bool { forall|i: int| 0 <= i < rs.len() ==> 1 <= (#[trigger] rs[i]).rhs@.len() <= 2 }
pub open spec fn no_empty(rs: Seq<CfgRule>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).rhs@.len() > 0 }
/// A string over the terminals of the grammar.
pub open spec fn terminals(rs: Seq<CfgRule>, n: int, w: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).raw < n && !is_lhs(rs, w[i]) }
/// The same non-empty strings of terminals, and no empty string.
pub open spec fn same_but_empty(rs: Seq<CfgRule>, n: int, qs: ISet<Prod>) -> bool {
    &&& forall|s: Symbol, w: Seq<Symbol>| s.raw < n && w.len() > 0 && terminals(rs, n, w) ==> (#[trigger] der(qs, seq![s], w) <==> der(prods(rs), seq![s], w))
    &&& forall|s: Symbol| !#[trigger] der(qs, seq![s], Seq::empty())
}
pub open spec fn same_empty(rs: Seq<CfgRule>, n: int, qs: ISet<Prod>) -> bool {
    forall|s: Symbol| s.raw < n ==> (#[trigger] der(qs, seq![s], Seq::empty()) <==> der(prods(rs), seq![s], Seq::empty()))
}
/// The left-hand sides of a binarized grammar are those of the grammar and new symbols.
pub open spec fn chained(rs: Seq<CfgRule>, bs: Seq<CfgRule>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).lhs.raw >= n || is_lhs(rs, bs[i].lhs)
    &&& no_empty(rs) ==> no_empty(bs)
}
pub proof fn lemma_chain_lhs(l: Symbol, s: Seq<Symbol>, n: int, k: int, m: int)
    requires k >= 2, m <= n, n + chain(l, s, n, k).len() - 1 <= u32::MAX,
    ensures
        forall|i: int| 0 <= i < chain(l, s, n, k).len() ==> (#[trigger] chain(l, s, n, k)[i]).l == l || chain(l, s, n, k)[i].l.raw >= m,
        s.len() > 0 ==> forall|i: int| 0 <= i < chain(l, s, n, k).len() ==> (#[trigger] chain(l, s, n, k)[i]).r.len() > 0,
    decreases s.len(),
{
    if s.len() > k {
        let t = seq![sym_of(n)] + s.skip(k);
        let c = chain(l, s, n, k); let d = chain(l, t, n + 1, k);
        lemma_chain_len(l, t, n + 1, k);
        lemma_chain_lhs(l, t, n + 1, k, m);
        assert forall|i: int| 0 <= i < c.len() implies ((#[trigger] c[i]).l == l || c[i].l.raw >= m) && c[i].r.len() > 0 by {
            if i > 0 { assert(c[i] == d[i - 1]); }
        }
    }
}
pub proof fn lemma_chained(ps: Seq<Prod>, n: int, k: int)
    requires k >= 2, 0 <= n, n + limit_all(ps, n, k).len() - ps.len() <= u32::MAX,
    ensures
        limit_all(ps, n, k).len() >= ps.len(),
        forall|i: int| 0 <= i < limit_all(ps, n, k).len() ==> (#[trigger] limit_all(ps, n, k)[i]).l.raw >= n || exists|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).l == limit_all(ps, n, k)[i].l,
        (forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).r.len() > 0) ==> forall|i: int| 0 <= i < limit_all(ps, n, k).len() ==> (#[trigger] limit_all(ps, n, k)[i]).r.len() > 0,
    decreases ps.len(),
{
    if ps.len() > 0 {
        let d = ps.drop_last(); let x = ps.last();
        let a = limit_all(d, n, k); let all = limit_all(ps, n, k);
        let m = n + a.len() - (ps.len() - 1);
        let c = chain(x.l, x.r, m, k);
        lemma_chain_len(x.l, x.r, m, k);
        assert(all == a + c);
        lemma_chained(d, n, k);
        lemma_chain_lhs(x.l, x.r, m, k, n);
        assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).l.raw >= n || exists|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).l == all[i].l by {
            if i < a.len() {
                assert(all[i] == a[i]);
                if a[i].l.raw < n { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).l == a[i].l; assert(ps[j].l == all[i].l); }
            } else {
                assert(all[i] == c[i - a.len()]);
                assert(ps[ps.len() - 1].l == x.l);
            }
        }
        if forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).r.len() > 0 {
            assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).r.len() > 0 by { assert(ps[j] == d[j]); }
            assert(ps[ps.len() - 1] == x);
            assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).r.len() > 0 by {
                if i < a.len() { assert(all[i] == a[i]); } else { assert(all[i] == c[i - a.len()]); }
            }
        }
    }
}
pub proof fn lemma_limited(rs: Seq<CfgRule>, bs: Seq<CfgRule>, n: int, k: int)
    requires prod_seq(bs) == limit_all(prod_seq(rs), n, k), k >= 2, 0 <= n, n + bs.len() - rs.len() <= u32::MAX,
    ensures chained(rs, bs, n),
{
    let ps = prod_seq(rs); let all = prod_seq(bs);
    lemma_chained(ps, n, k);
    assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).lhs.raw >= n || is_lhs(rs, bs[i].lhs) by {
        assert(all[i] == prod_of(bs[i]));
        if all[i].l.raw < n { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).l == all[i].l; assert(rs[j].lhs == bs[i].lhs); }
    }
    if no_empty(rs) {
        assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] ps[j]).r.len() > 0 by { assert(ps[j] == prod_of(rs[j])); }
        assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).rhs@.len() > 0 by { assert(all[i] == prod_of(bs[i])); }
    }
}
/// What is left at the end, in order: the binarized rules and the new rules, without the empty and the unproductive ones.
pub open spec fn eliminated(bs: Seq<CfgRule>, nl: Seq<bool>, res: Seq<CfgRule>, fin: Seq<CfgRule>) -> bool {
    &&& recs(res) == res_all(bs, nl, bs.len() as int)
    &&& forall|i: int| 0 <= i < fin.len() ==> bs.contains(#[trigger] fin[i]) || work_all(bs, nl, bs.len() as int).contains(rec(fin[i]))
}
pub open spec fn nonempty_of(rs: Seq<CfgRule>) -> Seq<bool> { Seq::new(rs.len(), |i: int| rs[i].rhs@.len() > 0) }
pub open spec fn productive_of(rs: Seq<CfgRule>, pr: Seq<bool>) -> Seq<bool> { Seq::new(rs.len(), |i: int| nul(pr, rs[i].lhs)) }
pub proof fn lemma_selected_has(s: Seq<CfgRule>, keep: Seq<bool>, i: int)
    requires s.len() <= keep.len(), 0 <= i < s.len(), keep[i],
    ensures selected(s, keep).contains(s[i]),
    decreases s.len(),
{
    let d = s.drop_last();
    let t = selected(s, keep); let u = selected(d, keep);
    if i == s.len() - 1 { assert(t[t.len() - 1] == s.last()); }
    else {
        lemma_selected_has(d, keep, i);
        assert(d[i] == s[i]);
        let j = choose|j: int| 0 <= j < u.len() && u[j] == s[i];
        assert(t[j] == s[i]);
    }
}
pub open spec fn kept_from(s: Seq<CfgRule>, keep: Seq<bool>, r: CfgRule) -> bool { exists|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == r }
pub proof fn lemma_selected_only(s: Seq<CfgRule>, keep: Seq<bool>)
    requires s.len() <= keep.len(),
    ensures forall|j: int| 0 <= j < selected(s, keep).len() ==> kept_from(s, keep, #[trigger] selected(s, keep)[j]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        let t = selected(s, keep); let u = selected(d, keep);
        lemma_selected_only(d, keep);
        assert forall|j: int| 0 <= j < t.len() implies kept_from(s, keep, #[trigger] t[j]) by {
            assert(j < u.len() ==> kept_from(d, keep, u[j]));
            if j < u.len() {
                assert(t[j] == u[j]);
                let i = choose|i: int| 0 <= i < d.len() && keep[i] && #[trigger] d[i] == u[j];
                assert(s[i] == t[j]);
            } else { assert(s[s.len() - 1] == t[j]); }
        }
    }
}
pub proof fn lemma_cat_prods(a: Seq<CfgRule>, b: Seq<CfgRule>)
    ensures prods(a + b) == prods(a).union(prods(b)),
{
    let c = a + b;
    assert forall|p: Prod| prods(c).contains(p) <==> prods(a).union(prods(b)).contains(p) by {
        if prods(a).contains(p) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lhs == p.l && a[i].rhs@ == p.r; assert(c[i] == a[i]); }
        if prods(b).contains(p) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lhs == p.l && b[i].rhs@ == p.r; assert(c[i + a.len()] == b[i]); }
        if prods(c).contains(p) {
            let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).lhs == p.l && c[i].rhs@ == p.r;
            if i < a.len() { assert(a[i] == c[i]); } else { assert(b[i - a.len()] == c[i]); }
        }
    }
    assert(prods(c) =~= prods(a).union(prods(b)));
}
/// The rules after the elimination.
pub proof fn lemma_denulled(bs: Seq<CfgRule>, nl: Seq<bool>, n: int, work: Seq<CfgRule>, keep: Seq<bool>, rs2: Seq<CfgRule>)
    requires
        short2(bs), rules_in(bs, n), recs(work) == work_all(bs, nl, bs.len() as int),
        keep.len() == bs.len() + work.len(), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == ((bs + work)[i].rhs@.len() > 0),
        rs2 == selected(bs + work, keep),
    ensures
        prods(rs2) == denulled(prods(bs), nl), rules_in(rs2, n), rules_in(bs + work, n), shape(rs2),
        forall|i: int| 0 <= i < rs2.len() ==> bs.contains(#[trigger] rs2[i]) || work_all(bs, nl, bs.len() as int).contains(rec(rs2[i])),
        forall|s: Symbol| #[trigger] is_lhs(rs2, s) ==> is_lhs(bs, s),
{
    let all = bs + work;
    lemma_work_prods(bs, nl, work);
    lemma_cat_prods(bs, work);
    lemma_selected_only(all, keep);
    assert forall|i: int| 0 <= i < work.len() implies rule_in(#[trigger] work[i], n) && work[i].rhs@.len() == 1 && is_lhs(bs, work[i].lhs) by {
        let p = Prod { l: work[i].lhs, r: work[i].rhs@ };
        assert(prods(work).contains(p));
        let y = choose|y: Prod| #[trigger] prods(bs).contains(y) && in_work(y.l, y.r, nl, p);
        let j = choose|j: int| 0 <= j < bs.len() && (#[trigger] bs[j]).lhs == y.l && bs[j].rhs@ == y.r;
        assert(rule_in(bs[j], n));
    }
    assert forall|i: int| 0 <= i < all.len() implies rule_in(#[trigger] all[i], n) && all[i].rhs@.len() <= 2 && is_lhs(bs, all[i].lhs) by {
        if i < bs.len() { assert(all[i] == bs[i]); } else { assert(all[i] == work[i - bs.len()]); }
    }
    assert forall|j: int| 0 <= j < rs2.len() implies rule_in(#[trigger] rs2[j], n) && 1 <= rs2[j].rhs@.len() <= 2 && is_lhs(bs, rs2[j].lhs) && (bs.contains(rs2[j]) || work_all(bs, nl, bs.len() as int).contains(rec(rs2[j]))) by {
        assert(kept_from(all, keep, rs2[j]));
        let i = choose|i: int| 0 <= i < all.len() && keep[i] && #[trigger] all[i] == rs2[j];
        if i < bs.len() { assert(bs[i] == rs2[j]); } else { assert(recs(work)[i - bs.len()] == rec(rs2[j])); }
    }
    assert forall|p: Prod| prods(rs2).contains(p) <==> denulled(prods(bs), nl).contains(p) by {
        if prods(rs2).contains(p) {
            let j = choose|j: int| 0 <= j < rs2.len() && (#[trigger] rs2[j]).lhs == p.l && rs2[j].rhs@ == p.r;
            assert(kept_from(all, keep, rs2[j]));
        let i = choose|i: int| 0 <= i < all.len() && keep[i] && #[trigger] all[i] == rs2[j];
            assert(prods(all).contains(p));
        }
        if denulled(prods(bs), nl).contains(p) {
            assert(prods(all).contains(p));
            let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).lhs == p.l && all[i].rhs@ == p.r;
            assert(keep[i]);
            lemma_selected_has(all, keep, i);
            let j = choose|j: int| 0 <= j < rs2.len() && rs2[j] == all[i];
            assert(rs2[j].lhs == p.l);
        }
    }
    assert(prods(rs2) =~= denulled(prods(bs), nl));
    assert forall|s: Symbol| #[trigger] is_lhs(rs2, s) implies is_lhs(bs, s) by {
        let j = choose|j: int| 0 <= j < rs2.len() && (#[trigger] rs2[j]).lhs == s;
    }
}
pub proof fn lemma_restricted(rs2: Seq<CfgRule>, pr: Seq<bool>, keep: Seq<bool>, rs3: Seq<CfgRule>)
    requires keep.len() == rs2.len(), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == nul(pr, rs2[i].lhs), rs3 == selected(rs2, keep),
    ensures
        prods(rs3) == restricted(prods(rs2), pr),
        forall|j: int| 0 <= j < rs3.len() ==> rs2.contains(#[trigger] rs3[j]),
{
    lemma_selected_only(rs2, keep);
    assert forall|j: int| 0 <= j < rs3.len() implies rs2.contains(#[trigger] rs3[j]) by {
        assert(kept_from(rs2, keep, rs3[j]));
        let i = choose|i: int| 0 <= i < rs2.len() && keep[i] && #[trigger] rs2[i] == rs3[j];
    }
    assert forall|p: Prod| prods(rs3).contains(p) <==> restricted(prods(rs2), pr).contains(p) by {
        if prods(rs3).contains(p) {
            let j = choose|j: int| 0 <= j < rs3.len() && (#[trigger] rs3[j]).lhs == p.l && rs3[j].rhs@ == p.r;
            assert(kept_from(rs2, keep, rs3[j]));
        let i = choose|i: int| 0 <= i < rs2.len() && keep[i] && #[trigger] rs2[i] == rs3[j];
            assert(rs2[i].lhs == p.l);
        }
        if restricted(prods(rs2), pr).contains(p) {
            let i = choose|i: int| 0 <= i < rs2.len() && (#[trigger] rs2[i]).lhs == p.l && rs2[i].rhs@ == p.r;
            assert(keep[i]);
            lemma_selected_has(rs2, keep, i);
            let j = choose|j: int| 0 <= j < rs3.len() && rs3[j] == rs2[i];
            assert(rs3[j].lhs == p.l);
        }
    }
    assert(prods(rs3) =~= restricted(prods(rs2), pr));
}
/// The language part of the property.
pub proof fn lemma_language(rs: Seq<CfgRule>, n: int, bs: Seq<CfgRule>, m: int, nl: Seq<bool>, rs2: Seq<CfgRule>, pr: Seq<bool>, res: Seq<CfgRule>, qs: ISet<Prod>)
    requires
        same_lang(prods(rs), prods(bs), n), chained(rs, bs, n), n <= m <= u32::MAX, short2(bs), nul_set(bs, m, nl),
        forall|s: Symbol| #[trigger] nul(nl, s) ==> der(prods(bs), seq![s], Seq::empty()),
        prods(rs2) == denulled(prods(bs), nl), rules_in(rs2, m), shape(rs2), pr.len() == m, closed(rs2, pr, RhsPropertyMode::All),
        forall|s: Symbol| #[trigger] is_lhs(rs2, s) ==> is_lhs(bs, s),
        prods(res) == nulling_part(prods(bs), nl),
        forall|i: int| 0 <= i < m && !is_lhs(rs2, sym_of(i)) && !is_lhs(res, sym_of(i)) ==> #[trigger] pr[i],
        qs == restricted(prods(rs2), pr),
    ensures same_but_empty(rs, n, qs), same_empty(rs, n, prods(res)),
{
    let e = Seq::<Symbol>::empty();
    assert(forall|p: Prod| #[trigger] prods(rs2).contains(p) ==> p.r.len() > 0);
    assert forall|s: Symbol, w: Seq<Symbol>| s.raw < n && w.len() > 0 && terminals(rs, n, w) implies (#[trigger] der(qs, seq![s], w) <==> der(prods(rs), seq![s], w)) by {
        let a = seq![s];
        assert(below(a, n) && below(w, n));
        if der(qs, a, w) {
            lemma_sub_der(qs, prods(rs2), a, w);
            lemma_sound(prods(bs), nl, a, w);
        }
        if der(prods(rs), a, w) {
            assert(der(prods(bs), a, w));
            let k = choose|k: nat| dern(prods(bs), a, w, k);
            let b = lemma_complete(bs, m, nl, a, w, k);
            assert(a.drop_last().len() == 0);
            lemma_del_two(nl, a, b);
            if b.len() == 0 {
                assert(b =~= e);
                let z = choose|z: nat| dern(prods(rs2), b, w, z);
                lemma_from_empty(prods(rs2), w, z);
            }
            assert(b == a);
            let z = choose|z: nat| dern(prods(rs2), a, w, z);
            assert forall|i: int| 0 <= i < w.len() implies nul(pr, #[trigger] w[i]) by {
                let t = w[i];
                assert(sym_of(t.ix()) == t);
                if is_lhs(bs, t) { let j = choose|j: int| 0 <= j < bs.len() && (#[trigger] bs[j]).lhs == t; assert(is_lhs(rs, t)); }
                if is_lhs(res, t) {
                    let j = choose|j: int| 0 <= j < res.len() && (#[trigger] res[j]).lhs == t;
                    let p = Prod { l: t, r: res[j].rhs@ };
                    assert(prods(res).contains(p));
                    let j2 = choose|j2: int| 0 <= j2 < bs.len() && (#[trigger] bs[j2]).lhs == p.l && bs[j2].rhs@ == p.r;
                    assert(is_lhs(bs, t));
                }
                assert(pr[t.ix()]);
            }
            lemma_productive(rs2, m, pr, a, w, z);
        }
    }
    assert forall|s: Symbol| !#[trigger] der(qs, seq![s], e) by {
        if der(qs, seq![s], e) { let k = choose|k: nat| dern(qs, seq![s], e, k); lemma_grows(qs, seq![s], e, k); }
    }
    assert forall|s: Symbol| s.raw < n implies (#[trigger] der(prods(res), seq![s], e) <==> der(prods(rs), seq![s], e)) by {
        let a = seq![s];
        assert(below(a, n) && below(e, n));
        if der(prods(res), a, e) { lemma_sub_der(prods(res), prods(bs), a, e); }
        if der(prods(rs), a, e) {
            assert(der(prods(bs), a, e));
            let k = choose|k: nat| dern(prods(bs), a, e, k);
            lemma_part(bs, m, nl, a, k);
        }
    }
}
/// Nothing nullable: nothing to do.
pub proof fn lemma_nothing(rs: Seq<CfgRule>, n: int, bs: Seq<CfgRule>, m: int, nl: Seq<bool>, res: Seq<CfgRule>)
    requires
        same_lang(prods(rs), prods(bs), n), n <= m <= u32::MAX, short2(bs), nul_set(bs, m, nl), all_false(nl), res.len() == 0,
    ensures same_but_empty(rs, n, prods(bs)), same_empty(rs, n, prods(res)), shape(bs), recs(res) == res_all(bs, nl, bs.len() as int),
{
    let e = Seq::<Symbol>::empty();
    assert forall|i: int| 0 <= i < bs.len() implies 1 <= (#[trigger] bs[i]).rhs@.len() <= 2 by {
        assert(rule_in(bs[i], m));
        if bs[i].rhs@.len() == 0 { assert(is_nulling(bs, bs[i].lhs)); assert(sym_of(bs[i].lhs.ix()) == bs[i].lhs); assert(nl[bs[i].lhs.ix()]); }
    }
    assert(forall|s: Symbol| !#[trigger] nul(nl, s));
    assert forall|s: Symbol, w: Seq<Symbol>| s.raw < n && w.len() > 0 && terminals(rs, n, w) implies (#[trigger] der(prods(bs), seq![s], w) <==> der(prods(rs), seq![s], w)) by {
        assert(below(seq![s], n) && below(w, n));
    }
    assert forall|s: Symbol| !#[trigger] der(prods(bs), seq![s], e) by {
        if der(prods(bs), seq![s], e) { let k = choose|k: nat| dern(prods(bs), seq![s], e, k); lemma_grows(prods(bs), seq![s], e, k); }
    }
    assert forall|s: Symbol| s.raw < n implies (#[trigger] der(prods(res), seq![s], e) <==> der(prods(rs), seq![s], e)) by {
        let a = seq![s];
        assert(below(a, n) && below(e, n));
        assert(!der(prods(bs), seq![s], e));
        if der(prods(res), a, e) { let k = choose|k: nat| dern(prods(res), a, e, k); lemma_grows(prods(res), a, e, k); }
    }
    lemma_no_res(bs, nl, bs.len() as int);
    assert(recs(res) =~= Seq::empty());
}
pub proof fn lemma_no_res(bs: Seq<CfgRule>, nl: Seq<bool>, k: int)
    requires 0 <= k <= bs.len(), shape(bs), forall|s: Symbol| !#[trigger] nul(nl, s),
    ensures res_all(bs, nl, k) =~= Seq::empty(),
    decreases k,
{
    if k > 0 { lemma_no_res(bs, nl, k - 1); assert(bs[k - 1].rhs@.len() >= 1); }
}
/// Without empty rules no symbol is nullable.
pub proof fn lemma_none_nullable(bs: Seq<CfgRule>, n: int, p0: Seq<bool>, nl: Seq<bool>)
    requires
        no_empty(bs), p0.len() == n, 0 <= n <= u32::MAX, is_closure(bs, p0, nl, RhsPropertyMode::All), rules_in(bs, n),
        forall|i: int| 0 <= i < n ==> #[trigger] p0[i] == is_nulling(bs, sym_of(i)),
    ensures all_false(nl),
{
    let q = Seq::new(n as nat, |i: int| false);
    assert(sub(p0, q)) by {
        assert forall|i: int| 0 <= i < p0.len() implies (#[trigger] p0[i] ==> q[i]) by {
            if p0[i] { let z = choose|z: int| 0 <= z < bs.len() && (#[trigger] bs[z]).lhs == sym_of(i) && bs[z].rhs@.len() == 0; }
        }
    }
    assert(closed(bs, q, RhsPropertyMode::All)) by {
        assert forall|z: int| 0 <= z < bs.len() implies (sat(#[trigger] bs[z], q, RhsPropertyMode::All) ==> q[bs[z].lhs.ix()]) by {
            assert(rule_in(bs[z], n));
            if sat(bs[z], q, RhsPropertyMode::All) { assert(q[bs[z].rhs@[0].ix()]); }
        }
    }
    assert(sub(nl, q));
    assert forall|i: int| 0 <= i < nl.len() implies !#[trigger] nl[i] by { if nl[i] { assert(q[i]); } }
}
pub open spec fn keeps(p: spec_fn(CfgRule) -> bool, s: Seq<CfgRule>) -> Seq<bool> { Seq::new(s.len(), |i: int| p(s[i])) }
pub open spec fn is_filled() -> spec_fn(CfgRule) -> bool { |r: CfgRule| r.rhs@.len() > 0 }
pub open spec fn is_prod(pr: Seq<bool>) -> spec_fn(CfgRule) -> bool { |r: CfgRule| nul(pr, r.lhs) }
pub fn vx_retain_by<F: Fn(&CfgRule) -> bool>(v: &mut Vec<CfgRule>, f: F, Ghost(p): Ghost<spec_fn(CfgRule) -> bool>)
    requires
        forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i],)),
        forall|r: CfgRule, b: bool| #[trigger] call_ensures(f, (&r,), b) ==> b == p(r),
    ensures final(v)@ == selected(old(v)@, keeps(p, old(v)@)),
{
    let ghost o = v@;
    let ghost g = f;
    vx_retain(v, f);
    proof {
        let keep = choose|keep: Seq<bool>| #[trigger] answers(g, o, keep) && v@ == selected(o, keep);
        assert(keep =~= keeps(p, o)) by {
            assert forall|i: int| 0 <= i < o.len() implies keep[i] == p(o[i]) by { assert(call_ensures(g, (&o[i],), keep[i])); }
        }
    }
}
pub proof fn lemma_res_in(bs: Seq<CfgRule>, nl: Seq<bool>, n: int, res: Seq<CfgRule>)
    requires rules_in(bs, n), recs(res) == res_all(bs, nl, bs.len() as int),
    ensures rules_in(res, n),
{
    lemma_work_in(bs, nl, bs.len() as int);
    assert forall|i: int| 0 <= i < res.len() implies rule_in(#[trigger] res[i], n) by {
        let x = rec(res[i]);
        assert(recs(res)[i] == x);
        assert(res_all(bs, nl, bs.len() as int).contains(x));
        let j = choose|j: int| 0 <= j < bs.len() && res_of(#[trigger] bs[j], nl).contains(x);
        assert(rule_in(bs[j], n));
    }
}
// ---- the symbols that keep rules
/// `s` derives a non-empty string of the terminals of `rs`.
pub open spec fn live_by(rs: Seq<CfgRule>, n: int, qs: ISet<Prod>, a: Seq<Symbol>, w: Seq<Symbol>) -> bool { w.len() > 0 && terminals(rs, n, w) && der(qs, a, w) }
pub open spec fn live(rs: Seq<CfgRule>, n: int, qs: ISet<Prod>, s: Symbol) -> bool { exists|w: Seq<Symbol>| live_by(rs, n, qs, seq![s], w) }
pub open spec fn all_live(rs: Seq<CfgRule>, n: int, qs: ISet<Prod>, fin: Seq<CfgRule>) -> bool { forall|s: Symbol| #[trigger] is_lhs(fin, s) ==> live(rs, n, qs, s) }
pub open spec fn has_lhs(ps: Seq<Prod>, s: Symbol) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).l == s }
pub proof fn lemma_chain_covers(l: Symbol, s: Seq<Symbol>, n: int, k: int, t: Symbol)
    requires k >= 2, 0 <= n, n + chain(l, s, n, k).len() - 1 <= u32::MAX, t == l || n <= t.raw < n + chain(l, s, n, k).len() - 1,
    ensures has_lhs(chain(l, s, n, k), t),
    decreases s.len(),
{
    let c = chain(l, s, n, k);
    if s.len() > k {
        let u = seq![sym_of(n)] + s.skip(k);
        let d = chain(l, u, n + 1, k);
        lemma_chain_len(l, u, n + 1, k);
        assert(c.len() == d.len() + 1);
        if t != l && t.raw == n { assert(t == sym_of(n)); assert(c[0].l == t); }
        else {
            lemma_chain_covers(l, u, n + 1, k, t);
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).l == t;
            assert(c[i + 1] == d[i]);
        }
    } else { assert(c[0].l == t); }
}
/// The left-hand sides are still left-hand sides, and the new symbols are.
pub proof fn lemma_covers(ps: Seq<Prod>, n: int, k: int, t: Symbol)
    requires k >= 2, 0 <= n, n + limit_all(ps, n, k).len() - ps.len() <= u32::MAX, has_lhs(ps, t) || n <= t.raw < n + limit_all(ps, n, k).len() - ps.len(),
    ensures has_lhs(limit_all(ps, n, k), t),
    decreases ps.len(),
{
    let all = limit_all(ps, n, k);
    if ps.len() > 0 {
        let d = ps.drop_last(); let x = ps.last();
        let a = limit_all(d, n, k);
        let m = n + a.len() - (ps.len() - 1);
        let c = chain(x.l, x.r, m, k);
        lemma_chain_len(x.l, x.r, m, k);
        lemma_chained(d, n, k);
        assert(all == a + c);
        if has_lhs(d, t) || n <= t.raw < m {
            lemma_covers(d, n, k, t);
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).l == t;
            assert(all[i] == a[i]);
        } else {
            if has_lhs(ps, t) {
                let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).l == t;
                if i < d.len() { assert(d[i].l == t); }
                assert(t == x.l);
            }
            lemma_chain_covers(x.l, x.r, m, k, t);
            let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).l == t;
            assert(all[i + a.len()] == c[i]);
        }
    }
}
pub proof fn lemma_lhs_seq(rs: Seq<CfgRule>, s: Symbol)
    ensures has_lhs(prod_seq(rs), s) == is_lhs(rs, s),
{
    let ps = prod_seq(rs);
    if has_lhs(ps, s) { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).l == s; assert(ps[i] == prod_of(rs[i])); assert(rs[i].lhs == s); }
    if is_lhs(rs, s) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == s; assert(ps[i] == prod_of(rs[i])); assert(ps[i].l == s); }
}
/// What has no rules after the elimination, and none in the nulling part, is a terminal of the grammar.
pub proof fn lemma_was_terminal(rs: Seq<CfgRule>, bs: Seq<CfgRule>, n: int, m: int, nl: Seq<bool>, rs2: Seq<CfgRule>, res: Seq<CfgRule>, t: Symbol)
    requires
        prod_seq(bs) == limit_all(prod_seq(rs), n, 2), 0 <= n, m == n + bs.len() - rs.len(), m <= u32::MAX, t.raw < m,
        prods(rs2) == denulled(prods(bs), nl), prods(res) == nulling_part(prods(bs), nl),
        !is_lhs(rs2, t), !is_lhs(res, t),
    ensures t.raw < n, !is_lhs(rs, t),
{
    lemma_lhs_seq(rs, t);
    lemma_lhs_seq(bs, t);
    if t.raw >= n || is_lhs(rs, t) {
        lemma_covers(prod_seq(rs), n, 2, t);
        let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).lhs == t;
        let p = Prod { l: t, r: bs[i].rhs@ };
        assert(prods(bs).contains(p));
        if p.r.len() > 0 {
            assert(prods(rs2).contains(p));
            let j = choose|j: int| 0 <= j < rs2.len() && (#[trigger] rs2[j]).lhs == p.l && rs2[j].rhs@ == p.r;
            assert(is_lhs(rs2, t));
        } else {
            assert(prods(res).contains(p));
            let j = choose|j: int| 0 <= j < res.len() && (#[trigger] res[j]).lhs == p.l && res[j].rhs@ == p.r;
            assert(is_lhs(res, t));
        }
    }
}
pub proof fn lemma_live_string(rs: Seq<CfgRule>, n: int, qs: ISet<Prod>, a: Seq<Symbol>)
    requires a.len() > 0, forall|j: int| 0 <= j < a.len() ==> live(rs, n, qs, #[trigger] a[j]),
    ensures exists|w: Seq<Symbol>| live_by(rs, n, qs, a, w),
    decreases a.len(),
{
    let z = a[a.len() - 1];
    assert(live(rs, n, qs, z));
    let v = seq![z];
    let x = choose|x: Seq<Symbol>| live_by(rs, n, qs, v, x);
    if a.len() == 1 {
        assert(a =~= seq![a[0]]);
    } else {
        let b = a.drop_last();
        assert forall|j: int| 0 <= j < b.len() implies live(rs, n, qs, #[trigger] b[j]) by { assert(b[j] == a[j]); }
        lemma_live_string(rs, n, qs, b);
        let w = choose|w: Seq<Symbol>| live_by(rs, n, qs, b, w);
        let l = v;
        lemma_ctx(qs, b, w, Seq::empty(), l);
        lemma_ctx(qs, l, x, w, Seq::empty());
        assert(Seq::<Symbol>::empty() + b + l =~= a);
        assert(w + l + Seq::<Symbol>::empty() =~= Seq::<Symbol>::empty() + w + l);
        assert(w + x + Seq::<Symbol>::empty() =~= w + x);
        lemma_trans(qs, a, Seq::<Symbol>::empty() + w + l, w + x);
        assert(live_by(rs, n, qs, a, w + x));
    }
}
/// The closure of the terminals has only symbols that derive a non-empty string of terminals by the rules that are left.
pub proof fn lemma_live(rs: Seq<CfgRule>, n: int, m: int, rs2: Seq<CfgRule>, p0: Seq<bool>, pr: Seq<bool>, fin: Seq<CfgRule>)
    requires
        rules_in(rs2, m), shape(rs2), p0.len() == m, 0 <= m <= u32::MAX, is_closure(rs2, p0, pr, RhsPropertyMode::All), prods(fin) == restricted(prods(rs2), pr),
        forall|i: int| 0 <= i < m && #[trigger] p0[i] ==> sym_of(i).raw < n && !is_lhs(rs, sym_of(i)),
    ensures all_live(rs, n, prods(fin), fin),
{
    let qs = prods(fin);
    let q = Seq::new(m as nat, |i: int| pr[i] && live(rs, n, qs, sym_of(i)));
    assert(sub(p0, q)) by {
        assert forall|i: int| 0 <= i < p0.len() && #[trigger] p0[i] implies q[i] by {
            let s = sym_of(i);
            lemma_refl(qs, seq![s]);
            assert(live_by(rs, n, qs, seq![s], seq![s]));
        }
    }
    assert(closed(rs2, q, RhsPropertyMode::All)) by {
        assert forall|i: int| 0 <= i < rs2.len() && sat(#[trigger] rs2[i], q, RhsPropertyMode::All) implies q[rs2[i].lhs.ix()] by {
            let r = rs2[i];
            assert(rule_in(r, m));
            assert(sat(r, pr, RhsPropertyMode::All)) by { assert forall|j: int| 0 <= j < r.rhs@.len() implies pr[(#[trigger] r.rhs@[j]).ix()] by { assert(q[r.rhs@[j].ix()]); } }
            assert(pr[r.lhs.ix()]);
            assert forall|j: int| 0 <= j < r.rhs@.len() implies live(rs, n, qs, #[trigger] r.rhs@[j]) by { assert(q[r.rhs@[j].ix()]); assert(sym_of(r.rhs@[j].ix()) == r.rhs@[j]); }
            lemma_live_string(rs, n, qs, r.rhs@);
            let w = choose|w: Seq<Symbol>| live_by(rs, n, qs, r.rhs@, w);
            let p = Prod { l: r.lhs, r: r.rhs@ };
            assert(prods(rs2).contains(p));
            assert(qs.contains(p));
            lemma_prod(qs, p);
            lemma_trans(qs, seq![r.lhs], r.rhs@, w);
            assert(live_by(rs, n, qs, seq![r.lhs], w));
            assert(sym_of(r.lhs.ix()) == r.lhs);
        }
    }
    assert(sub(pr, q));
    assert forall|s: Symbol| #[trigger] is_lhs(fin, s) implies live(rs, n, qs, s) by {
        let i = choose|i: int| 0 <= i < fin.len() && (#[trigger] fin[i]).lhs == s;
        let p = Prod { l: s, r: fin[i].rhs@ };
        assert(qs.contains(p));
        assert(nul(pr, s));
        assert(q[s.ix()]);
        assert(sym_of(s.ix()) == s);
    }
}
/// Where nothing is nullable, there are no empty rules.
pub proof fn lemma_nothing_empty(rs: Seq<CfgRule>, n: int, res: Seq<CfgRule>)
    requires rules_in(rs, n), same_empty(rs, n, prods(res)), res.len() == 0,
    ensures no_empty(rs),
{
    let e = Seq::<Symbol>::empty();
    assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).rhs@.len() > 0 by {
        assert(rule_in(rs[i], n));
        if rs[i].rhs@.len() == 0 {
            assert(rs[i].rhs@ =~= e);
            let p = Prod { l: rs[i].lhs, r: e };
            assert(prods(rs).contains(p));
            lemma_prod(prods(rs), p);
            assert(der(prods(res), seq![p.l], e));
            let k = choose|k: nat| dern(prods(res), seq![p.l], e, k);
            if k > 0 { let c = choose|c: Seq<Symbol>| #[trigger] step(prods(res), seq![p.l], c) && dern(prods(res), c, e, (k - 1) as nat); }
        }
    }
}
//@fn cfg-grammar/src/cfg.rs Cfg::binarize_and_eliminate_nulling_rules
//@rewrite_opt self.rules() => &self.rules
//@rewrite_opt $x.iter().count() => $x.iter().len()
//@rewrite_opt Into::into($$x) => History::from_eliminate_nulling($$x)
//@rewrite_opt |sym: &Symbol| nullable[*sym] => vx_sym_test(|sym: &Symbol| -> (b: bool) requires sym.raw < nullable@.len() ensures b == nullable@[sym.ix()] { *nullable.index(*sym) })
//@rewrite_opt $x.rhs.get($$i).map($f) => vx_opt_test(vx_at(&$x.rhs, $$i), &$f)
//@rewrite_opt $x.rhs.get($$i).cloned() => vx_at_cloned(&$x.rhs, $$i)
//@rewrite_opt $x.rhs.get($$i).copied() => vx_at_cloned(&$x.rhs, $$i)
//@rewrite $x.rule($$l).history($$h).rhs(&$y.rhs[$$r]) => { let vx_s = vx_sub(&$y.rhs, $$r); let ghost vx_o = $x; $x.rule($$l).history($$h).rhs(vx_s); proof { lemma_added(vx_o, $x, $$l, $$h, vx_s@); } }
//@rewrite_opt $v.retain(|$r| { productive[$$i] }) => vx_retain_by(&mut $v, vx_rule_test(|$r: &CfgRule| -> (b: bool) requires rule_in(*$r, productive@.len() as int) ensures b == nul(productive@, $r.lhs) { *productive.index($$i) }), Ghost(is_prod(productive@)))
//@rewrite_opt $v.retain(|$r| productive[$$i]) => vx_retain_by(&mut $v, vx_rule_test(|$r: &CfgRule| -> (b: bool) requires rule_in(*$r, productive@.len() as int) ensures b == nul(productive@, $r.lhs) { *productive.index($$i) }), Ghost(is_prod(productive@)))
//@rewrite_opt $v.retain(|$r| $$b) => { vx_retain_by(&mut $v, vx_rule_test(|$r: &CfgRule| -> (b: bool) ensures b == ($r.rhs@.len() > 0) { let __l = $r.rhs.len(); $$b }), Ghost(is_filled())); proof { rs2 = $v@; lemma_denulled(bs, nl, self.n(), work, keeps(is_filled(), bs + work), rs2); lemma_res_in(bs, nl, self.n(), result.rules@); } }
//@rewrite_opt $x.rhs_closure_for_all(&mut $p) => { let ghost vx_p = $p@; $x.rhs_closure_for_all(&mut $p); proof { p0 = vx_p; } }
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).wf(), !old(self).eliminate_nulling, short(old(self).rules@),
    ensures
        shape(final(self).rules@),
        final(self).wf(), final(self).n() >= old(self).n(), !final(self).eliminate_nulling, final(self).rhs_len_invariant == Some(2usize),
        final(self).roots == old(self).roots && final(self).wrapped_roots == old(self).wrapped_roots && final(self).lexemes == old(self).lexemes,
        same_but_empty(old(self).rules@, old(self).n(), prods(final(self).rules@)),
        same_empty(old(self).rules@, old(self).n(), prods(ret.rules@)),
        ret.n() == final(self).n(), ret.wf(),
        no_empty(old(self).rules@) ==> ret.rules@.len() == 0 && prod_seq(final(self).rules@) == limit_all(prod_seq(old(self).rules@), old(self).n(), 2),
        !no_empty(old(self).rules@) ==> all_live(old(self).rules@, old(self).n(), prods(final(self).rules@), final(self).rules@),
        exists|bs: Seq<CfgRule>, nl: Seq<bool>| prod_seq(bs) == limit_all(prod_seq(old(self).rules@), old(self).n(), 2) && #[trigger] eliminated(bs, nl, ret.rules@, final(self).rules@),
//@at begin
    let ghost rs0 = self.rules@;
    let ghost n0 = self.n();
    let ghost mut p0: Seq<bool> = Seq::empty();
    let ghost mut rs2: Seq<CfgRule> = Seq::empty();
    let ghost mut bs: Seq<CfgRule> = Seq::empty();
    let ghost mut nl: Seq<bool> = Seq::empty();
    let ghost mut work: Seq<CfgRule> = Seq::empty();
//@at if0.pre
    proof {
        bs = self.rules@;
        nl = nullable@;
        assert(self.n() == n0 + bs.len() - rs0.len());
        lemma_null_up(bs, self.n(), p0, nl);
        lemma_limited(rs0, bs, n0, 2);
        if no_empty(rs0) { lemma_none_nullable(bs, self.n(), p0, nl); }
    }
//@at if0.then
    proof {
        lemma_nothing(rs0, n0, bs, self.n(), nl, result.rules@);
        lemma_nothing_empty(rs0, n0, result.rules@);
        assert forall|i: int| 0 <= i < bs.len() implies bs.contains(#[trigger] bs[i]) by {}
        assert(eliminated(bs, nl, result.rules@, self.rules@));
    }
//@at loop0.pre
    proof {
        assert(recs(rewritten_work.rules@) =~= work_all(bs, nl, 0));
        assert(recs(result.rules@) =~= res_all(bs, nl, 0));
        assert(__s0@ == bs);
    }
//@loop 0
    invariant
        0 <= __i0 <= __s0@.len(), __s0@ == bs, bs == self.rules@, nl == nullable@, self.wf(), nl.len() == self.n(),
        short2(bs), rewritten_work.limit() == usize::MAX, result.limit() == usize::MAX, !rewritten_work.eliminate_nulling, !result.eliminate_nulling,
        result.n() == self.n(),
        recs(rewritten_work.rules@) == work_all(bs, nl, __i0 as int),
        recs(result.rules@) == res_all(bs, nl, __i0 as int),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    proof {
        assert(*rule == bs[__i0 as int - 1]);
        assert(rule_in(bs[__i0 as int - 1], self.n()));
        let a = work_all(bs, nl, __i0 as int - 1); let b = res_all(bs, nl, __i0 as int - 1);
        assert(a + Seq::<Rec>::empty() =~= a);
        assert(b + Seq::<Rec>::empty() =~= b);
        assert(forall|x: Rec| #[trigger] a.push(x) =~= a + seq![x]);
        assert(forall|x: Rec| #[trigger] b.push(x) =~= b + seq![x]);
        assert(forall|x: Rec, y: Rec| #[trigger] a.push(x).push(y) =~= a + seq![x, y]);
        assert(rule.rhs@.subrange(0, rule.rhs@.len() as int) =~= rule.rhs@);
    }
//@at loop0.post
    proof { work = rewritten_work.rules@; }
//@at end
    proof {
        let m = self.n();
        let pr = productive@;
        lemma_res_prods(bs, nl, result.rules@);
        lemma_restricted(rs2, pr, keeps(is_prod(pr), rs2), self.rules@);
        assert forall|i: int| 0 <= i < m && !is_lhs(rs2, sym_of(i)) && !is_lhs(result.rules@, sym_of(i)) implies #[trigger] pr[i] by { assert(p0[i]); }
        assert forall|i: int| 0 <= i < m && #[trigger] p0[i] implies sym_of(i).raw < n0 && !is_lhs(rs0, sym_of(i)) by {
            lemma_was_terminal(rs0, bs, n0, m, nl, rs2, result.rules@, sym_of(i));
        }
        lemma_live(rs0, n0, m, rs2, p0, pr, self.rules@);
        lemma_language(rs0, n0, bs, m, nl, rs2, pr, result.rules@, prods(self.rules@));
        assert forall|i: int| 0 <= i < self.rules@.len() implies rule_in(#[trigger] self.rules@[i], m) && 1 <= self.rules@[i].rhs@.len() <= 2 && (bs.contains(self.rules@[i]) || work_all(bs, nl, bs.len() as int).contains(rec(self.rules@[i]))) by {
            assert(rs2.contains(self.rules@[i]));
        }
        assert(eliminated(bs, nl, result.rules@, self.rules@));
    }
//@end
/// Doing it again changes no rule and finds nothing: the contract above, applied to its own result.
pub proof fn lemma_again(g: Cfg, h: Cfg, ret: Cfg)
    requires
        shape(g.rules@),
        no_empty(g.rules@) ==> ret.rules@.len() == 0 && prod_seq(h.rules@) == limit_all(prod_seq(g.rules@), g.n(), 2),
    ensures ret.rules@.len() == 0, prod_seq(h.rules@) == prod_seq(g.rules@),
{
    let ps = prod_seq(g.rules@);
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).r.len() <= 2 by { assert(ps[i] == prod_of(g.rules@[i])); }
    lemma_limit_idempotent(ps, g.n(), 2);
}
