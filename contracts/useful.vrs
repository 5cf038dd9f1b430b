// G11: usefulness.
//@struct cfg-classify/src/useful.rs Usefulness
//@struct cfg-classify/src/useful.rs RuleUsefulness #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-classify/src/useful.rs UsefulnessForRule #[derive(Clone,Copy)]

// `iter().filter_map(f)`, collected.
pub open spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T>
    decreases o.len(),
{
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) } }
}
pub open spec fn maps_to<'g, T: 'g, U, F: Fn(&'g T) -> Option<U>>(f: F, s: Seq<T>, o: Seq<Option<U>>) -> bool {
    o.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (&s[i],), #[trigger] o[i])
}
pub fn vx_filter_map<'g, T: 'g, U, F: Fn(&'g T) -> Option<U>>(s: &'g [T], f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures exists|o: Seq<Option<U>>| #[trigger] maps_to(f, s@, o) && r@ == somes(o),
{
    let mut out: Vec<U> = Vec::new();
    let ghost mut o = Seq::<Option<U>>::empty();
    let mut k: usize = 0;
    while k < s.len()
        invariant
            0 <= k <= s@.len(), o.len() == k, out@ == somes(o),
            forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (&s@[i],), #[trigger] o[i]),
        decreases s@.len() - k,
    {
        let x = f(&s[k]);
        proof {
            let o2 = o.push(x);
            assert(o2.drop_last() =~= o);
            o = o2;
        }
        match x { Some(y) => { out.push(y); } None => {} }
        k = k + 1;
    }
    assert(maps_to(f, s@, o));
    out
}

// ---- what productive, reachable and useful mean
pub open spec fn is_terminal(rs: Seq<CfgRule>, n: int, s: Symbol) -> bool { s.raw < n && !is_lhs(rs, s) }
/// A string of terminals.
pub open spec fn sentence(rs: Seq<CfgRule>, n: int, w: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < w.len() ==> is_terminal(rs, n, #[trigger] w[i]) }
pub open spec fn yields(rs: Seq<CfgRule>, n: int, a: Seq<Symbol>, w: Seq<Symbol>) -> bool { sentence(rs, n, w) && der(prods(rs), a, w) }
/// Some terminal string is derivable.
pub open spec fn productive(rs: Seq<CfgRule>, n: int, s: Symbol) -> bool { exists|w: Seq<Symbol>| yields(rs, n, seq![s], w) }
/// `b` is `a` or connected to it by rules.
pub open spec fn reaches_sym(rs: Seq<CfgRule>, a: Symbol, b: Symbol) -> bool { a == b || path(direct(rs), a.ix(), b.ix()) }
pub open spec fn start_set(rs: Seq<CfgRule>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| !is_lhs(rs, sym_of(i)) || is_nulling(rs, sym_of(i))) }
pub open spec fn productive_exact(rs: Seq<CfgRule>, n: int, p: Seq<bool>) -> bool {
    p.len() == n && forall|s: Symbol| s.raw < n ==> #[trigger] p[s.ix()] == productive(rs, n, s)
}

pub proof fn lemma_cat_der(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>, c: Seq<Symbol>, d: Seq<Symbol>)
    requires der(ps, a, b), der(ps, c, d),
    ensures der(ps, a + c, b + d),
{
    lemma_ctx(ps, a, b, Seq::empty(), c);
    lemma_ctx(ps, c, d, b, Seq::empty());
    assert(Seq::<Symbol>::empty() + a + c =~= a + c);
    assert(Seq::<Symbol>::empty() + b + c =~= b + c);
    assert(b + c + Seq::<Symbol>::empty() =~= b + c);
    assert(b + d + Seq::<Symbol>::empty() =~= b + d);
    lemma_trans(ps, a + c, b + c, b + d);
}
/// If every symbol is productive, the string is.
pub proof fn lemma_string_productive(rs: Seq<CfgRule>, n: int, a: Seq<Symbol>)
    requires forall|j: int| 0 <= j < a.len() ==> productive(rs, n, #[trigger] a[j]),
    ensures exists|w: Seq<Symbol>| yields(rs, n, a, w),
    decreases a.len(),
{
    if a.len() == 0 {
        lemma_refl(prods(rs), a);
        assert(yields(rs, n, a, a));
    } else {
        let b = a.drop_last();
        assert forall|j: int| 0 <= j < b.len() implies productive(rs, n, #[trigger] b[j]) by { assert(b[j] == a[j]); }
        lemma_string_productive(rs, n, b);
        let w = choose|w: Seq<Symbol>| yields(rs, n, b, w);
        assert(a.last() == a[a.len() - 1]);
        let x = choose|x: Seq<Symbol>| yields(rs, n, seq![a.last()], x);
        lemma_cat_der(prods(rs), b, w, seq![a.last()], x);
        assert(b + seq![a.last()] =~= a);
        assert(yields(rs, n, a, w + x));
    }
}
/// All symbols of a string that derives a sentence are in every closed set with the terminals and nulling symbols.
pub proof fn lemma_all_in(rs: Seq<CfgRule>, n: int, p: Seq<bool>, a: Seq<Symbol>, w: Seq<Symbol>, k: nat)
    requires
        rules_in(rs, n), p.len() == n, sub(start_set(rs, n), p), closed(rs, p, RhsPropertyMode::All),
        dern(prods(rs), a, w, k), sentence(rs, n, w), below(a, n),
    ensures forall|i: int| 0 <= i < a.len() ==> p[(#[trigger] a[i]).ix()],
    decreases k,
{
    let ss = start_set(rs, n);
    if k == 0 {
        assert forall|i: int| 0 <= i < a.len() implies p[(#[trigger] a[i]).ix()] by { assert(is_terminal(rs, n, w[i])); assert(ss[a[i].ix()]); }
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(prods(rs), a, c) && dern(prods(rs), c, w, (k - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(prods(rs), a, c, x, i);
        let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == x.l && rs[z].rhs@ == x.r;
        assert(rule_in(rs[z], n));
        assert(below(c, n)) by {
            assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).raw < n by {
                if j < i { assert(c[j] == a[j]); } else if j < i + x.r.len() { assert(c[j] == x.r[j - i]); } else { assert(c[j] == a[j - x.r.len() + 1]); }
            }
        }
        lemma_all_in(rs, n, p, c, w, (k - 1) as nat);
        assert(p[x.l.ix()]) by {
            if x.r.len() == 0 {
                assert(is_nulling(rs, x.l));
                assert(ss[x.l.ix()]);
            } else {
                assert forall|j: int| 0 <= j < x.r.len() implies p[(#[trigger] rs[z].rhs@[j]).ix()] by { assert(c[i + j] == x.r[j]); }
                assert(sat(rs[z], p, RhsPropertyMode::All));
            }
        }
        assert forall|j: int| 0 <= j < a.len() implies p[(#[trigger] a[j]).ix()] by {
            if j < i { assert(c[j] == a[j]); } else if j > i { assert(c[j - 1 + x.r.len()] == a[j]); }
        }
    }
}
/// The closure of the terminals and nulling symbols is exactly the set of productive symbols.
pub proof fn lemma_productive(rs: Seq<CfgRule>, n: int, p: Seq<bool>)
    requires rules_in(rs, n), 0 <= n <= u32::MAX, is_closure(rs, start_set(rs, n), p, RhsPropertyMode::All),
    ensures productive_exact(rs, n, p),
{
    let q = Seq::new(n as nat, |i: int| productive(rs, n, sym_of(i)));
    let ss = start_set(rs, n);
    assert(sub(ss, q)) by {
        assert forall|i: int| 0 <= i < ss.len() && #[trigger] ss[i] implies q[i] by {
            let s = sym_of(i);
            if !is_lhs(rs, s) {
                lemma_refl(prods(rs), seq![s]);
                assert(yields(rs, n, seq![s], seq![s]));
            } else if is_nulling(rs, s) {
                let e = Seq::<Symbol>::empty();
                let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == s && rs[z].rhs@.len() == 0;
                assert(rs[z].rhs@ =~= e);
                assert(prods(rs).contains(Prod { l: s, r: e }));
                lemma_prod(prods(rs), Prod { l: s, r: e });
                assert(yields(rs, n, seq![s], e));
            }
        }
    }
    assert(closed(rs, q, RhsPropertyMode::All)) by {
        assert forall|i: int| 0 <= i < rs.len() && sat(#[trigger] rs[i], q, RhsPropertyMode::All) implies q[rs[i].lhs.ix()] by {
            let r = rs[i];
            assert(rule_in(r, n));
            assert forall|j: int| 0 <= j < r.rhs@.len() implies productive(rs, n, #[trigger] r.rhs@[j]) by { assert(q[r.rhs@[j].ix()]); }
            lemma_string_productive(rs, n, r.rhs@);
            let w = choose|w: Seq<Symbol>| yields(rs, n, r.rhs@, w);
            assert(prods(rs).contains(Prod { l: r.lhs, r: r.rhs@ }));
            lemma_prod(prods(rs), Prod { l: r.lhs, r: r.rhs@ });
            lemma_trans(prods(rs), seq![r.lhs], r.rhs@, w);
            assert(yields(rs, n, seq![r.lhs], w));
            assert(sym_of(r.lhs.ix()) == r.lhs);
        }
    }
    assert(sub(p, q));
    assert forall|s: Symbol| s.raw < n implies #[trigger] p[s.ix()] == productive(rs, n, s) by {
        assert(sym_of(s.ix()) == s);
        if p[s.ix()] { assert(q[s.ix()]); }
        if productive(rs, n, s) {
            let w = choose|w: Seq<Symbol>| yields(rs, n, seq![s], w);
            let k = choose|k: nat| dern(prods(rs), seq![s], w, k);
            lemma_all_in(rs, n, p, seq![s], w, k);
            assert(p[seq![s][0].ix()]);
        }
    }
}
// ---- reachability
pub proof fn lemma_steps_snoc(r: Rel, i: int, j: int, m: int, k: nat)
    requires steps(r, i, j, k), r(j, m),
    ensures steps(r, i, m, k + 1),
    decreases k,
{
    if k == 0 {
        assert(steps(r, m, m, 0));
        assert(r(i, m) && steps(r, m, m, 0));
    } else {
        let x = choose|x: int| #[trigger] r(i, x) && steps(r, x, j, (k - 1) as nat);
        lemma_steps_snoc(r, x, j, m, (k - 1) as nat);
        assert(r(i, x) && steps(r, x, m, k));
    }
}
/// What a reachable symbol has in its rules is reachable.
pub proof fn lemma_reaches_on(rs: Seq<CfgRule>, a: Symbol, z: int, s: Symbol)
    requires 0 <= z < rs.len(), reaches_sym(rs, a, rs[z].lhs), rs[z].has(s),
    ensures reaches_sym(rs, a, s),
{
    let b = rs[z].lhs;
    let d = direct(rs);
    assert(sym_of(s.ix()) == s);
    assert(d(b.ix(), s.ix()));
    if a == b {
        assert(steps(d, a.ix(), b.ix(), 0));
        lemma_steps_snoc(d, a.ix(), b.ix(), s.ix(), 0);
        assert(path(d, a.ix(), s.ix()));
    } else {
        let k = choose|k: nat| k >= 1 && steps(d, a.ix(), b.ix(), k);
        lemma_steps_snoc(d, a.ix(), b.ix(), s.ix(), k);
        assert(path(d, a.ix(), s.ix()));
    }
}
/// `b` occurs in a string derived from `a`.
pub open spec fn occurs_from(rs: Seq<CfgRule>, a: Symbol, b: Symbol) -> bool {
    exists|u: Seq<Symbol>| #[trigger] u.contains(b) && der(prods(rs), seq![a], u)
}
pub proof fn lemma_steps_der(rs: Seq<CfgRule>, a: Symbol, b: Symbol, k: nat)
    requires steps(direct(rs), a.ix(), b.ix(), k),
    ensures occurs_from(rs, a, b),
    decreases k,
{
    let ps = prods(rs);
    if k == 0 {
        lemma_refl(ps, seq![a]);
        assert(seq![a][0] == b);
        assert(seq![a].contains(b));
    } else {
        let m = choose|m: int| #[trigger] direct(rs)(a.ix(), m) && steps(direct(rs), m, b.ix(), (k - 1) as nat);
        let s = sym_of(m);
        lemma_steps_der(rs, s, b, (k - 1) as nat);
        let u = choose|u: Seq<Symbol>| #[trigger] u.contains(b) && der(ps, seq![s], u);
        let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs.ix() == a.ix() && rs[z].has(sym_of(m));
        let r = rs[z].rhs@;
        let i = choose|i: int| 0 <= i < r.len() && r[i] == s;
        assert(ps.contains(Prod { l: a, r: r }));
        lemma_prod(ps, Prod { l: a, r: r });
        lemma_ctx(ps, seq![s], u, r.take(i), r.skip(i + 1));
        assert(r.take(i) + seq![s] + r.skip(i + 1) =~= r);
        let v = r.take(i) + u + r.skip(i + 1);
        lemma_trans(ps, seq![a], r, v);
        let j = choose|j: int| 0 <= j < u.len() && u[j] == b;
        assert(v[i + j] == b);
        assert(v.contains(b));
    }
}
pub proof fn lemma_der_reaches(rs: Seq<CfgRule>, a: Symbol, u: Seq<Symbol>, v: Seq<Symbol>, k: nat)
    requires dern(prods(rs), u, v, k), forall|i: int| 0 <= i < u.len() ==> reaches_sym(rs, a, #[trigger] u[i]),
    ensures forall|i: int| 0 <= i < v.len() ==> reaches_sym(rs, a, #[trigger] v[i]),
    decreases k,
{
    if k > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(prods(rs), u, c) && dern(prods(rs), c, v, (k - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(prods(rs), u, c, x, i);
        let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == x.l && rs[z].rhs@ == x.r;
        assert forall|j: int| 0 <= j < c.len() implies reaches_sym(rs, a, #[trigger] c[j]) by {
            if j < i { assert(c[j] == u[j]); } else if j < i + x.r.len() {
                assert(c[j] == x.r[j - i]);
                assert(rs[z].has(c[j]));
                assert(reaches_sym(rs, a, u[i]));
                lemma_reaches_on(rs, a, z, c[j]);
            } else { assert(c[j] == u[j - x.r.len() + 1]); }
        }
        lemma_der_reaches(rs, a, c, v, (k - 1) as nat);
    }
}
/// A symbol is reachable exactly if it occurs in a derivation.
pub proof fn lemma_reachable(rs: Seq<CfgRule>, a: Symbol, b: Symbol)
    ensures reaches_sym(rs, a, b) <==> occurs_from(rs, a, b),
{
    if reaches_sym(rs, a, b) {
        if a == b { assert(steps(direct(rs), a.ix(), b.ix(), 0)); lemma_steps_der(rs, a, b, 0); }
        else { let k = choose|k: nat| k >= 1 && steps(direct(rs), a.ix(), b.ix(), k); lemma_steps_der(rs, a, b, k); }
    }
    if occurs_from(rs, a, b) {
        let u = choose|u: Seq<Symbol>| #[trigger] u.contains(b) && der(prods(rs), seq![a], u);
        let k = choose|k: nat| dern(prods(rs), seq![a], u, k);
        lemma_der_reaches(rs, a, seq![a], u, k);
        let j = choose|j: int| 0 <= j < u.len() && u[j] == b;
        assert(reaches_sym(rs, a, u[j]));
    }
}
// ---- pruning
/// The set of reachable symbols: unused ones, and those reachable from the symbols `q`.
pub open spec fn reached_exact(rs: Seq<CfgRule>, n: int, q: Seq<Symbol>, b: Seq<bool>) -> bool {
    b.len() == n && forall|s: Symbol| s.raw < n ==> #[trigger] b[s.ix()] == (!occurs(rs, s) || reached(rs, q, s))
}
pub open spec fn reached(rs: Seq<CfgRule>, q: Seq<Symbol>, s: Symbol) -> bool { exists|i: int| 0 <= i < q.len() && reaches_sym(rs, #[trigger] q[i], s) }
pub open spec fn rule_useful(r: CfgRule, p: Seq<bool>, b: Seq<bool>) -> bool {
    b[r.lhs.ix()] && forall|j: int| 0 <= j < r.rhs@.len() ==> p[(#[trigger] r.rhs@[j]).ix()]
}
pub proof fn lemma_selected(s: Seq<CfgRule>, keep: Seq<bool>)
    requires s.len() <= keep.len(),
    ensures forall|x: CfgRule| selected(s, keep).contains(x) <==> (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i]),
    decreases s.len(),
{
    let t = selected(s, keep);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_selected(d, keep);
        assert(s.last() == s[s.len() - 1]);
        let m = selected(d, keep);
        assert forall|x: CfgRule| t.contains(x) <==> (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i]) by {
            if t.contains(x) {
                let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
                if j < m.len() {
                    assert(m[j] == x);
                    assert(m.contains(x));
                    let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == x && keep[i];
                    assert(s[i] == x);
                } else { assert(s[s.len() - 1] == x); }
            }
            if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i] {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && keep[i];
                if i < d.len() {
                    assert(d[i] == x);
                    assert(m.contains(x));
                    let j = choose|j: int| 0 <= j < m.len() && m[j] == x;
                    assert(t[j] == x);
                } else { assert(t[t.len() - 1] == x); }
            }
        }
    }
}
/// Exactly the useful rules are kept, in order.
pub open spec fn keeps_useful(rs: Seq<CfgRule>, p: Seq<bool>, b: Seq<bool>, keep: Seq<bool>) -> bool {
    keep.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> keep[i] == rule_useful(#[trigger] rs[i], p, b)
}
pub proof fn lemma_pruned_der(rs: Seq<CfgRule>, n: int, q: Seq<Symbol>, p: Seq<bool>, b: Seq<bool>, keep: Seq<bool>, a: Seq<Symbol>, w: Seq<Symbol>, k: nat)
    requires
        rules_in(rs, n), 0 <= n <= u32::MAX, productive_exact(rs, n, p), reached_exact(rs, n, q, b), keeps_useful(rs, p, b, keep),
        below(a, n), sentence(rs, n, w), dern(prods(rs), a, w, k),
        forall|i: int| 0 <= i < a.len() ==> reached(rs, q, #[trigger] a[i]),
    ensures der(prods(selected(rs, keep)), a, w),
    decreases k,
{
    let ps = prods(rs);
    let rs2 = selected(rs, keep);
    if k == 0 { lemma_refl(prods(rs2), a); }
    else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, w, (k - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(ps, a, c, x, i);
        let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == x.l && rs[z].rhs@ == x.r;
        assert(rule_in(rs[z], n));
        assert(reached(rs, q, a[i]));
        assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).raw < n && reached(rs, q, c[j]) by {
            if j < i { assert(c[j] == a[j]); } else if j < i + x.r.len() {
                assert(c[j] == x.r[j - i]);
                assert(rs[z].has(c[j]));
                let y = choose|y: int| 0 <= y < q.len() && reaches_sym(rs, #[trigger] q[y], x.l);
                lemma_reaches_on(rs, q[y], z, c[j]);
            } else { assert(c[j] == a[j - x.r.len() + 1]); }
        }
        lemma_pruned_der(rs, n, q, p, b, keep, c, w, (k - 1) as nat);
        assert(rule_useful(rs[z], p, b)) by {
            assert(b[x.l.ix()]);
            assert forall|j: int| 0 <= j < x.r.len() implies p[(#[trigger] rs[z].rhs@[j]).ix()] by {
                assert(c[i + j] == x.r[j]);
                lemma_productive_sub(rs, n, c, w, (k - 1) as nat, i + j);
            }
        }
        lemma_selected(rs, keep);
        assert(rs2.contains(rs[z]));
        let y = choose|y: int| 0 <= y < rs2.len() && rs2[y] == rs[z];
        assert(rs2[y].lhs == x.l);
        assert(prods(rs2).contains(x));
        assert(step_at(prods(rs2), a, c, x, i));
        lemma_step(prods(rs2), a, c);
        lemma_trans(prods(rs2), a, c, w);
    }
}
/// Every symbol of a string that derives a sentence is productive.
pub proof fn lemma_productive_sub(rs: Seq<CfgRule>, n: int, a: Seq<Symbol>, w: Seq<Symbol>, k: nat, i: int)
    requires rules_in(rs, n), 0 <= n <= u32::MAX, dern(prods(rs), a, w, k), sentence(rs, n, w), below(a, n), 0 <= i < a.len(),
    ensures productive(rs, n, a[i]),
{
    let q = Seq::new(n as nat, |i: int| productive(rs, n, sym_of(i)));
    lemma_productive_set(rs, n);
    lemma_all_in(rs, n, q, a, w, k);
    assert(q[a[i].ix()]);
    assert(sym_of(a[i].ix()) == a[i]);
}
pub proof fn lemma_productive_set(rs: Seq<CfgRule>, n: int)
    requires rules_in(rs, n), 0 <= n <= u32::MAX,
    ensures ({
        let q = Seq::new(n as nat, |i: int| productive(rs, n, sym_of(i)));
        sub(start_set(rs, n), q) && closed(rs, q, RhsPropertyMode::All)
    }),
{
    let q = Seq::new(n as nat, |i: int| productive(rs, n, sym_of(i)));
    let ss = start_set(rs, n);
    assert(sub(ss, q)) by {
        assert forall|i: int| 0 <= i < ss.len() && #[trigger] ss[i] implies q[i] by {
            let s = sym_of(i);
            if !is_lhs(rs, s) {
                lemma_refl(prods(rs), seq![s]);
                assert(yields(rs, n, seq![s], seq![s]));
            } else if is_nulling(rs, s) {
                let e = Seq::<Symbol>::empty();
                let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == s && rs[z].rhs@.len() == 0;
                assert(rs[z].rhs@ =~= e);
                assert(prods(rs).contains(Prod { l: s, r: e }));
                lemma_prod(prods(rs), Prod { l: s, r: e });
                assert(yields(rs, n, seq![s], e));
            }
        }
    }
    assert(closed(rs, q, RhsPropertyMode::All)) by {
        assert forall|i: int| 0 <= i < rs.len() && sat(#[trigger] rs[i], q, RhsPropertyMode::All) implies q[rs[i].lhs.ix()] by {
            let r = rs[i];
            assert(rule_in(r, n));
            assert forall|j: int| 0 <= j < r.rhs@.len() implies productive(rs, n, #[trigger] r.rhs@[j]) by { assert(q[r.rhs@[j].ix()]); assert(sym_of(r.rhs@[j].ix()) == r.rhs@[j]); }
            lemma_string_productive(rs, n, r.rhs@);
            let w = choose|w: Seq<Symbol>| yields(rs, n, r.rhs@, w);
            assert(prods(rs).contains(Prod { l: r.lhs, r: r.rhs@ }));
            lemma_prod(prods(rs), Prod { l: r.lhs, r: r.rhs@ });
            lemma_trans(prods(rs), seq![r.lhs], r.rhs@, w);
            assert(yields(rs, n, seq![r.lhs], w));
            assert(sym_of(r.lhs.ix()) == r.lhs);
        }
    }
}
/// Removing the useless rules keeps the sentences of every root.
pub open spec fn same_sentences(rs: Seq<CfgRule>, rs2: Seq<CfgRule>, n: int, q: Seq<Symbol>) -> bool {
    forall|s: Symbol, w: Seq<Symbol>| q.contains(s) && sentence(rs, n, w) ==> (#[trigger] der(prods(rs), seq![s], w) <==> der(prods(rs2), seq![s], w))
}
pub proof fn lemma_pruned(rs: Seq<CfgRule>, n: int, q: Seq<Symbol>, p: Seq<bool>, b: Seq<bool>, keep: Seq<bool>)
    requires
        rules_in(rs, n), 0 <= n <= u32::MAX, productive_exact(rs, n, p), reached_exact(rs, n, q, b), keeps_useful(rs, p, b, keep), below(q, n),
    ensures same_sentences(rs, selected(rs, keep), n, q),
{
    let rs2 = selected(rs, keep);
    lemma_selected(rs, keep);
    assert forall|s: Symbol, w: Seq<Symbol>| q.contains(s) && sentence(rs, n, w) implies (#[trigger] der(prods(rs), seq![s], w) <==> der(prods(rs2), seq![s], w)) by {
        let y = choose|y: int| 0 <= y < q.len() && q[y] == s;
        if der(prods(rs), seq![s], w) {
            let k = choose|k: nat| dern(prods(rs), seq![s], w, k);
            assert(reaches_sym(rs, q[y], s));
            assert(reached(rs, q, s));
            assert forall|i: int| 0 <= i < seq![s].len() implies reached(rs, q, #[trigger] seq![s][i]) by {}
            lemma_pruned_der(rs, n, q, p, b, keep, seq![s], w, k);
        }
        if der(prods(rs2), seq![s], w) {
            assert forall|x: Prod| #[trigger] prods(rs2).contains(x) implies der(prods(rs), seq![x.l], x.r) by {
                let i = choose|i: int| 0 <= i < rs2.len() && (#[trigger] rs2[i]).lhs == x.l && rs2[i].rhs@ == x.r;
                assert(rs2.contains(rs2[i]));
                let z = choose|z: int| 0 <= z < rs.len() && #[trigger] rs[z] == rs2[i] && keep[z];
                assert(rs[z].lhs == x.l);
                assert(prods(rs).contains(x));
                lemma_prod(prods(rs), x);
            }
            lemma_incl(prods(rs2), prods(rs), seq![s], w);
        }
    }
}
/// All symbols are productive and reachable exactly if every rule is useful.
pub proof fn lemma_all_useful(rs: Seq<CfgRule>, n: int, q: Seq<Symbol>, p: Seq<bool>, b: Seq<bool>)
    requires rules_in(rs, n), 0 <= n <= u32::MAX, productive_exact(rs, n, p), reached_exact(rs, n, q, b),
    ensures (all_true(p) && all_true(b)) <==> (forall|i: int| 0 <= i < rs.len() ==> rule_useful(#[trigger] rs[i], p, b)),
{
    if all_true(p) && all_true(b) {
        assert forall|i: int| 0 <= i < rs.len() implies rule_useful(#[trigger] rs[i], p, b) by { assert(rule_in(rs[i], n)); }
    }
    if forall|i: int| 0 <= i < rs.len() ==> rule_useful(#[trigger] rs[i], p, b) {
        assert forall|i: int| 0 <= i < n implies #[trigger] p[i] by {
            let s = sym_of(i);
            assert(p[s.ix()] == productive(rs, n, s));
            lemma_productive_set(rs, n);
            let pq = Seq::new(n as nat, |i: int| productive(rs, n, sym_of(i)));
            let ss = start_set(rs, n);
            if is_lhs(rs, s) {
                let z = choose|z: int| 0 <= z < rs.len() && (#[trigger] rs[z]).lhs == s;
                assert(rule_useful(rs[z], p, b));
                assert(rule_in(rs[z], n));
                if rs[z].rhs@.len() == 0 { assert(is_nulling(rs, s)); assert(ss[i]); assert(pq[i]); }
                else {
                    assert forall|j: int| 0 <= j < rs[z].rhs@.len() implies pq[(#[trigger] rs[z].rhs@[j]).ix()] by {
                        let t = rs[z].rhs@[j];
                        assert(p[t.ix()] == productive(rs, n, t));
                        assert(sym_of(t.ix()) == t);
                    }
                    assert(sat(rs[z], pq, RhsPropertyMode::All));
                    assert(pq[i]);
                }
            } else { assert(ss[i]); assert(pq[i]); }
        }
        assert forall|i: int| 0 <= i < n implies #[trigger] b[i] by {
            let s = sym_of(i);
            assert(b[s.ix()] == (!occurs(rs, s) || reached(rs, q, s)));
            if occurs(rs, s) {
                let z = choose|z: int| 0 <= z < rs.len() && ((#[trigger] rs[z]).lhs == s || rs[z].has(s));
                assert(rule_useful(rs[z], p, b));
                assert(rule_in(rs[z], n));
                let l = rs[z].lhs;
                assert(b[l.ix()] == (!occurs(rs, l) || reached(rs, q, l)));
                assert(occurs(rs, l));
                if l != s {
                    let y = choose|y: int| 0 <= y < q.len() && reaches_sym(rs, #[trigger] q[y], l);
                    lemma_reaches_on(rs, q[y], z, s);
                    assert(reached(rs, q, s));
                }
            }
        }
    }
}
impl Usefulness {
    /// The analysis of the rules `rs` for `n` symbols, after the symbols `q` were declared reachable.
    pub open spec fn exact(self, rs: Seq<CfgRule>, n: int, q: Seq<Symbol>) -> bool {
        &&& productive_exact(rs, n, self.productivity@)
        &&& reached_exact(rs, n, q, self.reachable_syms@)
        &&& self.reachability.0.sq(n)
        &&& forall|s: Symbol, t: Symbol| s.raw < n && t.raw < n ==> #[trigger] self.reachability.0.has(s, t) == reaches_sym(rs, s, t)
    }
}
//@fn cfg-classify/src/useful.rs RuleUsefulness::is_useless
    ensures ret == (!self.reachable || !self.productive),
//@end
//@fn cfg-classify/src/useful.rs productive_syms
    requires grammar.wf(),
    ensures productive_exact(grammar.rules@, grammar.n(), ret@),
//@at end
    proof {
        let rs = grammar.rules@;
        let n = grammar.n();
        let ss = start_set(rs, n);
        assert forall|p0: Seq<bool>| #[trigger] is_closure(rs, p0, productive_syms@, RhsPropertyMode::All) && p0.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] p0[i] == ss[i]) implies is_closure(rs, ss, productive_syms@, RhsPropertyMode::All) by { assert(p0 =~= ss); }
        lemma_productive(rs, n, productive_syms@);
    }
//@end
//@fn cfg-classify/src/useful.rs Usefulness::new
//@rewrite_opt reachability.size() => reachability.0.bit_matrix.size()
//@rewrite_opt $a == ($b, $c) => vx_eq2($a, $b, $c)
    requires grammar.wf(),
    ensures ret.exact(grammar.rules@, grammar.n(), Seq::empty()),
//@at end
    proof {
        lemma_direct_in(grammar.rules@, grammar.n());
        assert forall|s: Symbol| s.raw < grammar.n() && !occurs(grammar.rules@, s) implies productive(grammar.rules@, grammar.n(), s) by {
            lemma_refl(prods(grammar.rules@), seq![s]);
            assert(!is_lhs(grammar.rules@, s));
            assert(yields(grammar.rules@, grammar.n(), seq![s], seq![s]));
        }
        assert forall|s: Symbol| s.raw < grammar.n() implies #[trigger] sym_of(s.ix()) == s by {}
    }
//@end
pub fn vx_eq2(a: (usize, usize), b: usize, c: usize) -> (r: bool)
    ensures r == (a.0 == b && a.1 == c),
{ a.0 == b && a.1 == c }
//@fn cfg-classify/src/useful.rs Usefulness::productivity
//@rewrite_opt self.productivity[$$i] => *self.productivity.index($$i)
    requires sym.raw < self.productivity@.len(),
    ensures ret == self.productivity@[sym.ix()],
//@end
//@fn cfg-classify/src/useful.rs Usefulness::reachable
//@sig impl AsRef<[Symbol]> => &[Symbol]
//@rewrite_opt syms.as_ref() => syms
//@rewrite_opt self.reachability.iter_row_syms($$s) => self.reachability.0.iter_row_syms($$s)
//@for 0 ref
//@for 1 value
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires
        forall|i: int| 0 <= i < syms@.len() ==> (#[trigger] syms@[i]).raw < old(self).reachability.0.bit_matrix.rows(),
        old(self).reachability.0.sq(old(self).reachable_syms@.len() as int), old(self).reachable_syms@.len() <= u32::MAX,
    ensures
        final(self).productivity == old(self).productivity, final(self).reachability == old(self).reachability,
        final(self).reachable_syms@.len() == old(self).reachable_syms@.len(),
        forall|s: Symbol| s.raw < final(self).reachable_syms@.len() ==> #[trigger] final(self).reachable_syms@[s.ix()] == (old(self).reachable_syms@[s.ix()] || from_any(old(self).reachability, syms@, s)),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == syms@,
        self.productivity == old(self).productivity, self.reachability == old(self).reachability,
        self.reachable_syms@.len() == old(self).reachable_syms@.len(),
        forall|s: Symbol| s.raw < self.reachable_syms@.len() ==> #[trigger] self.reachable_syms@[s.ix()] == (old(self).reachable_syms@[s.ix()] || from_any(old(self).reachability, syms@.take(__i0 as int), s)),
    decreases __s0@.len() - __i0,
//@at loop1.pre
    let ghost b0 = self.reachable_syms@;
//@loop 1
    invariant
        0 < __i0 <= __s0@.len(), __i1 <= __s1@.len(), sym == syms@[__i0 as int - 1],
        self.productivity == old(self).productivity, self.reachability == old(self).reachability,
        self.reachable_syms@.len() == old(self).reachable_syms@.len(), b0.len() == self.reachable_syms@.len(),
        forall|s: Symbol| __s1@.contains(s) <==> (s.raw < b0.len() && self.reachability.0.has(sym, s)),
        forall|s: Symbol| s.raw < self.reachable_syms@.len() ==> #[trigger] self.reachable_syms@[s.ix()] == (b0[s.ix()] || __s1@.take(__i1 as int).contains(s)),
    decreases __s1@.len() - __i1,
//@at loop1.begin
    proof { assert(__s1@.contains(__s1@[__i1 as int - 1])); }
//@at loop1.end
    proof { lemma_take_contains(__s1@, __i1 as int - 1); }
//@at loop1.post
    proof {
        assert(__s1@.take(__i1 as int) =~= __s1@);
        lemma_from_any(self.reachability, syms@, __i0 as int - 1);
    }
//@at loop0.post
    proof { assert(syms@.take(__i0 as int) =~= syms@); }
//@end
pub open spec fn from_any(m: ReachabilityMatrix, q: Seq<Symbol>, s: Symbol) -> bool { exists|i: int| 0 <= i < q.len() && m.0.has(#[trigger] q[i], s) }
pub proof fn lemma_from_any(m: ReachabilityMatrix, q: Seq<Symbol>, k: int)
    requires 0 <= k < q.len(),
    ensures forall|s: Symbol| #[trigger] from_any(m, q.take(k + 1), s) == (from_any(m, q.take(k), s) || m.0.has(q[k], s)),
{
    let a = q.take(k); let b = q.take(k + 1);
    assert forall|s: Symbol| #[trigger] from_any(m, b, s) == (from_any(m, a, s) || m.0.has(q[k], s)) by {
        if from_any(m, a, s) { let i = choose|i: int| 0 <= i < a.len() && m.0.has(#[trigger] a[i], s); assert(b[i] == a[i]); }
        if m.0.has(q[k], s) { assert(b[k] == q[k]); }
        if from_any(m, b, s) { let i = choose|i: int| 0 <= i < b.len() && m.0.has(#[trigger] b[i], s); if i < k { assert(a[i] == b[i]); } }
    }
}
/// Declaring symbols reachable makes exactly the symbols reachable from them reachable.
pub proof fn lemma_declared(u: Usefulness, v: Usefulness, rs: Seq<CfgRule>, n: int, q: Seq<Symbol>)
    requires
        u.exact(rs, n, Seq::empty()), below(q, n), v.productivity == u.productivity, v.reachability == u.reachability, v.reachable_syms@.len() == n,
        forall|s: Symbol| s.raw < n ==> #[trigger] v.reachable_syms@[s.ix()] == (u.reachable_syms@[s.ix()] || from_any(u.reachability, q, s)),
    ensures v.exact(rs, n, q),
{
    assert forall|s: Symbol| s.raw < n implies #[trigger] v.reachable_syms@[s.ix()] == (!occurs(rs, s) || reached(rs, q, s)) by {
        assert(u.reachable_syms@[s.ix()] == (!occurs(rs, s) || reached(rs, Seq::empty(), s)));
        if from_any(u.reachability, q, s) { let i = choose|i: int| 0 <= i < q.len() && u.reachability.0.has(#[trigger] q[i], s); assert(reaches_sym(rs, q[i], s)); }
        if reached(rs, q, s) { let i = choose|i: int| 0 <= i < q.len() && reaches_sym(rs, #[trigger] q[i], s); assert(u.reachability.0.has(q[i], s)); }
    }
}
//@fn cfg-classify/src/useful.rs Usefulness::all_useful
    ensures ret == (all_true(self.productivity@) && all_true(self.reachable_syms@)),
//@end
//@fn cfg-classify/src/useful.rs Usefulness::all_productive
    ensures ret == all_true(self.productivity@),
//@end
//@fn cfg-classify/src/useful.rs Usefulness::all_reachable
    ensures ret == all_true(self.reachable_syms@),
//@end
//@fn cfg-classify/src/useful.rs UsefulnessForRule::rule
    ensures ret == self.rule,
//@end
//@fn cfg-classify/src/useful.rs UsefulnessForRule::usefulness
    ensures ret == self.usefulness,
//@end
pub open spec fn usefulness_of(u: Usefulness, r: CfgRule) -> RuleUsefulness {
    RuleUsefulness {
        reachable: u.reachable_syms@[r.lhs.ix()],
        productive: forall|j: int| 0 <= j < r.rhs@.len() ==> u.productivity@[(#[trigger] r.rhs@[j]).ix()],
    }
}
//@fn cfg-classify/src/useful.rs Usefulness::usefulness
//@rewrite_opt rule.rhs.iter().all(|&$s| $$b) => vx_all(&rule.rhs, |vx_p: &Symbol| -> (r: bool) requires vx_p.raw < self.productivity@.len() ensures r == self.productivity@[vx_p.ix()] { let $s = *vx_p; $$b })
//@rewrite_opt self.productivity[$$i] => *self.productivity.index($$i)
//@rewrite_opt self.reachable_syms[$$i] => *self.reachable_syms.index($$i)
    requires rule_in(*rule, self.productivity@.len() as int), self.reachable_syms@.len() == self.productivity@.len(),
    ensures ret.rule == rule, ret.usefulness == usefulness_of(*self, *rule),
//@end
//@fn cfg-classify/src/useful.rs Usefulness::uselessness_if_useless
    requires rule_in(*rule, self.productivity@.len() as int), self.reachable_syms@.len() == self.productivity@.len(),
    ensures
        ret == (if rule_useful(*rule, self.productivity@, self.reachable_syms@) { None } else { Some(UsefulnessForRule { rule: rule, usefulness: usefulness_of(*self, *rule) }) }),
//@end
pub open spec fn useless_entry<'g>(u: Usefulness, r: CfgRule, e: Option<UsefulnessForRule<'g>>) -> bool {
    if rule_useful(r, u.productivity@, u.reachable_syms@) { e is None } else { e is Some && *e->0.rule == r && e->0.usefulness == usefulness_of(u, r) }
}
pub open spec fn useless_entries<'g>(u: Usefulness, rs: Seq<CfgRule>, o: Seq<Option<UsefulnessForRule<'g>>>) -> bool {
    o.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> useless_entry(u, rs[i], #[trigger] o[i])
}
//@fn cfg-classify/src/useful.rs Usefulness::useless_rules
//@sig impl Iterator<Item = UsefulnessForRule<'g>> + 'a => Vec<UsefulnessForRule<'g>>
//@rewrite grammar.rules().filter_map(|rule| $$b) => { let vx_f = |rule: &'g CfgRule| -> (r: Option<UsefulnessForRule<'g>>) requires rule_in(*rule, self.productivity@.len() as int) ensures useless_entry(*self, *rule, r) { $$b }; let vx_r = vx_filter_map(grammar.rules.as_slice(), vx_f); proof { let o = choose|o: Seq<Option<UsefulnessForRule<'g>>>| maps_to(vx_f, grammar.rules@, o) && vx_r@ == somes(o); assert(useless_entries(*self, grammar.rules@, o)); } vx_r }
    requires rules_in(grammar.rules@, self.productivity@.len() as int), self.reachable_syms@.len() == self.productivity@.len(),
    ensures exists|o: Seq<Option<UsefulnessForRule<'g>>>| #[trigger] useless_entries(*self, grammar.rules@, o) && ret@ == somes(o),
//@end
//@fn cfg-classify/src/useful.rs Usefulness::remove_useless_rules
//@rewrite_opt let $f = |rule: &CfgRule| $$b; => let $f = |rule: &CfgRule| -> (r: bool) requires rule_in(*rule, self.productivity@.len() as int) ensures r == rule_useful(*rule, self.productivity@, self.reachable_syms@) $$b;
//@rewrite_opt rule.rhs.iter().all(|&$s| $$b) => vx_all(&rule.rhs, |vx_p: &Symbol| -> (r: bool) requires vx_p.raw < self.productivity@.len() ensures r == self.productivity@[vx_p.ix()] { let $s = *vx_p; $$b })
//@rewrite_opt $g.retain($f); => $g.retain($f); proof { let keep = choose|keep: Seq<bool>| #[trigger] answers($f, old(grammar).rules@, keep) && $g.rules@ == selected(old(grammar).rules@, keep); assert(keeps_useful(old(grammar).rules@, self.productivity@, self.reachable_syms@, keep)); }
//@rewrite_opt productivity[$$i] => *productivity.index($$i)
//@rewrite_opt reachable_syms[$$i] => *reachable_syms.index($$i)
    requires self.reachable_syms@.len() == self.productivity@.len(), rules_in(old(grammar).rules@, self.productivity@.len() as int),
    ensures
        same_but_rules(*final(grammar), *old(grammar)),
        exists|keep: Seq<bool>| #[trigger] keeps_useful(old(grammar).rules@, self.productivity@, self.reachable_syms@, keep) && final(grammar).rules@ == selected(old(grammar).rules@, keep),
//@at end
    proof {
        let rs = old(grammar).rules@;
        if all_true(self.productivity@) && all_true(self.reachable_syms@) {
            let keep = Seq::new(rs.len(), |i: int| true);
            assert forall|i: int| 0 <= i < rs.len() implies rule_useful(#[trigger] rs[i], self.productivity@, self.reachable_syms@) by { assert(rule_in(rs[i], self.productivity@.len() as int)); }
            assert(keeps_useful(rs, self.productivity@, self.reachable_syms@, keep));
            lemma_select_all(rs, keep);
        }
    }
//@end
pub proof fn lemma_select_all(rs: Seq<CfgRule>, keep: Seq<bool>)
    requires rs.len() <= keep.len(), forall|i: int| 0 <= i < keep.len() ==> keep[i],
    ensures selected(rs, keep) == rs,
    decreases rs.len(),
{
    if rs.len() > 0 {
        lemma_select_all(rs.drop_last(), keep);
        assert(selected(rs, keep) =~= rs);
    }
}
//@fn cfg-classify/src/lib.rs CfgClassifyExt for Cfg::usefulness
//@sig useful::Usefulness => Usefulness
//@rewrite_opt useful::Usefulness::new($$a) => Usefulness::new($$a)
    requires old(self).wf(), below(old(self).roots@, old(self).n()),
    ensures *final(self) == *old(self), ret.exact(old(self).rules@, old(self).n(), old(self).roots@),
//@end
//@fn cfg-classify/src/lib.rs CfgClassifyExt for Cfg::usefulness_with_roots
//@sig useful::Usefulness => Usefulness
//@rewrite_opt useful::Usefulness::new($$a) => Usefulness::new($$a)
    requires old(self).wf(), below(roots@, old(self).n()),
    ensures *final(self) == *old(self), ret.exact(old(self).rules@, old(self).n(), roots@),
//@end
//@fn cfg-classify/src/lib.rs CfgClassifyExt for Cfg::make_proper
    requires old(self).wf(), below(old(self).roots@, old(self).n()),
    ensures
        same_but_rules(*final(self), *old(self)),
        same_sentences(old(self).rules@, final(self).rules@, old(self).n(), old(self).roots@),
        exists|p: Seq<bool>, b: Seq<bool>, keep: Seq<bool>| {
            &&& productive_exact(old(self).rules@, old(self).n(), p)
            &&& reached_exact(old(self).rules@, old(self).n(), old(self).roots@, b)
            &&& #[trigger] keeps_useful(old(self).rules@, p, b, keep)
            &&& final(self).rules@ == selected(old(self).rules@, keep)
            &&& ret == (forall|i: int| 0 <= i < old(self).rules@.len() ==> #[trigger] rule_useful(old(self).rules@[i], p, b))
        },
//@at end
    proof {
        let rs = old(self).rules@;
        let n = old(self).n();
        let p = usefulness.productivity@;
        let b = usefulness.reachable_syms@;
        lemma_all_useful(rs, n, old(self).roots@, p, b);
        if !contains_useless_rules {
            let keep = Seq::new(rs.len(), |i: int| true);
            assert(keeps_useful(rs, p, b, keep));
            lemma_select_all(rs, keep);
        }
        let keep = choose|keep: Seq<bool>| #[trigger] keeps_useful(rs, p, b, keep) && self.rules@ == selected(rs, keep);
        lemma_pruned(rs, n, old(self).roots@, p, b, keep);
    }
//@end
