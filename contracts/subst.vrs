// Substitutions that give every symbol a set of strings.
pub type Sub = spec_fn(Symbol, Seq<Symbol>) -> bool;
pub open spec fn star(e: Sub, u: Seq<Symbol>, w: Seq<Symbol>) -> bool
    decreases u.len(),
{
    if u.len() == 0 { w.len() == 0 } else { exists|k: int| #[trigger] star_cut(e, u, w, k) && star(e, u.drop_last(), w.take(k)) }
}
pub open spec fn star_cut(e: Sub, u: Seq<Symbol>, w: Seq<Symbol>, k: int) -> bool { 0 <= k <= w.len() && e(u.last(), w.skip(k)) }
pub proof fn lemma_star_push(e: Sub, u: Seq<Symbol>, x: Symbol, w: Seq<Symbol>, v: Seq<Symbol>)
    requires star(e, u, w), e(x, v),
    ensures star(e, u.push(x), w + v),
{
    let k = w.len() as int;
    assert((w + v).skip(k) =~= v);
    assert((w + v).take(k) =~= w);
    assert(u.push(x).drop_last() =~= u);
    assert(star_cut(e, u.push(x), w + v, k));
}
pub proof fn lemma_star_cat(e: Sub, u: Seq<Symbol>, t: Seq<Symbol>, w: Seq<Symbol>, v: Seq<Symbol>)
    requires star(e, u, w), star(e, t, v),
    ensures star(e, u + t, w + v),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(u + t =~= u); assert(w + v =~= w);
    } else {
        let k = choose|k: int| #[trigger] star_cut(e, t, v, k) && star(e, t.drop_last(), v.take(k));
        lemma_star_cat(e, u, t.drop_last(), w, v.take(k));
        lemma_star_push(e, u + t.drop_last(), t.last(), w + v.take(k), v.skip(k));
        assert((u + t.drop_last()).push(t.last()) =~= u + t);
        assert((w + v.take(k)) + v.skip(k) =~= w + v);
    }
}
pub proof fn lemma_star_split(e: Sub, u: Seq<Symbol>, t: Seq<Symbol>, w: Seq<Symbol>) -> (k: int)
    requires star(e, u + t, w),
    ensures 0 <= k <= w.len(), star(e, u, w.take(k)), star(e, t, w.skip(k)),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(u + t =~= u); assert(w.take(w.len() as int) =~= w);
        w.len() as int
    } else {
        let s = u + t;
        let j = choose|j: int| #[trigger] star_cut(e, s, w, j) && star(e, s.drop_last(), w.take(j));
        assert(s.drop_last() =~= u + t.drop_last());
        let k = lemma_star_split(e, u, t.drop_last(), w.take(j));
        assert(w.take(j).take(k) =~= w.take(k));
        lemma_star_push(e, t.drop_last(), t.last(), w.take(j).skip(k), w.skip(j));
        assert(t.drop_last().push(t.last()) =~= t);
        assert(w.take(j).skip(k) + w.skip(j) =~= w.skip(k));
        k
    }
}
pub proof fn lemma_star1(e: Sub, x: Symbol, w: Seq<Symbol>)
    ensures star(e, seq![x], w) <==> e(x, w),
{
    let u = seq![x];
    assert(u.drop_last() =~= Seq::empty());
    if star(e, u, w) {
        let k = choose|k: int| #[trigger] star_cut(e, u, w, k) && star(e, u.drop_last(), w.take(k));
        assert(w.skip(0) =~= w);
    }
    if e(x, w) {
        assert(star(e, Seq::empty(), Seq::empty()));
        lemma_star_push(e, Seq::empty(), x, Seq::empty(), w);
        assert(Seq::<Symbol>::empty().push(x) =~= u);
        assert(Seq::<Symbol>::empty() + w =~= w);
    }
}
pub proof fn lemma_star2(e: Sub, x: Symbol, y: Symbol, a: Seq<Symbol>, b: Seq<Symbol>)
    requires e(x, a), e(y, b),
    ensures star(e, seq![x, y], a + b),
{
    lemma_star1(e, x, a); lemma_star1(e, y, b);
    lemma_star_cat(e, seq![x], seq![y], a, b);
    assert(seq![x] + seq![y] =~= seq![x, y]);
}
pub proof fn lemma_unstar2(e: Sub, x: Symbol, y: Symbol, w: Seq<Symbol>) -> (k: int)
    requires star(e, seq![x, y], w),
    ensures 0 <= k <= w.len(), e(x, w.take(k)), e(y, w.skip(k)),
{
    assert(seq![x] + seq![y] =~= seq![x, y]);
    let k = lemma_star_split(e, seq![x], seq![y], w);
    lemma_star1(e, x, w.take(k)); lemma_star1(e, y, w.skip(k));
    k
}
pub proof fn lemma_star3(e: Sub, x: Symbol, y: Symbol, z: Symbol, a: Seq<Symbol>, b: Seq<Symbol>, c: Seq<Symbol>)
    requires e(x, a), e(y, b), e(z, c),
    ensures star(e, seq![x, y, z], a + b + c),
{
    lemma_star2(e, x, y, a, b); lemma_star1(e, z, c);
    lemma_star_cat(e, seq![x, y], seq![z], a + b, c);
    assert(seq![x, y] + seq![z] =~= seq![x, y, z]);
}
pub proof fn lemma_unstar3(e: Sub, x: Symbol, y: Symbol, z: Symbol, w: Seq<Symbol>) -> (r: (int, int))
    requires star(e, seq![x, y, z], w),
    ensures 0 <= r.0 <= r.1 <= w.len(), e(x, w.take(r.0)), e(y, w.subrange(r.0, r.1)), e(z, w.skip(r.1)),
{
    assert(seq![x, y] + seq![z] =~= seq![x, y, z]);
    let k = lemma_star_split(e, seq![x, y], seq![z], w);
    lemma_star1(e, z, w.skip(k));
    let j = lemma_unstar2(e, x, y, w.take(k));
    assert(w.take(k).take(j) =~= w.take(j));
    assert(w.take(k).skip(j) =~= w.subrange(j, k));
    (j, k)
}
pub proof fn lemma_star_mono(e: Sub, f: Sub, u: Seq<Symbol>, w: Seq<Symbol>)
    requires
        star(e, u, w),
        forall|i: int, v: Seq<Symbol>| 0 <= i < u.len() && v.len() <= w.len() && #[trigger] e(u[i], v) ==> f(u[i], v),
    ensures star(f, u, w),
    decreases u.len(),
{
    if u.len() > 0 {
        let k = choose|k: int| #[trigger] star_cut(e, u, w, k) && star(e, u.drop_last(), w.take(k));
        assert forall|i: int, v: Seq<Symbol>| 0 <= i < u.drop_last().len() && v.len() <= w.take(k).len() && #[trigger] e(u.drop_last()[i], v) implies f(u.drop_last()[i], v) by {
            assert(e(u[i], v));
        }
        lemma_star_mono(e, f, u.drop_last(), w.take(k));
        assert(e(u[u.len() - 1], w.skip(k)));
        assert(star_cut(f, u, w, k));
    }
}
/// A string of symbols that stand for themselves.
pub proof fn lemma_star_self(e: Sub, s: Seq<Symbol>)
    requires forall|i: int| 0 <= i < s.len() ==> e(#[trigger] s[i], seq![s[i]]),
    ensures star(e, s, s),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies e(#[trigger] d[i], seq![d[i]]) by { assert(d[i] == s[i]); }
        lemma_star_self(e, d);
        assert(e(s[s.len() - 1], seq![s[s.len() - 1]]));
        lemma_star_push(e, d, s.last(), d, seq![s.last()]);
        assert(d.push(s.last()) =~= s);
        assert(d + seq![s.last()] =~= s);
    }
}
/// What the symbols of a string derive, the string derives.
pub proof fn lemma_star_der(q: ISet<Prod>, e: Sub, u: Seq<Symbol>, w: Seq<Symbol>)
    requires
        star(e, u, w),
        forall|i: int, v: Seq<Symbol>| 0 <= i < u.len() && v.len() <= w.len() && #[trigger] e(u[i], v) ==> der(q, seq![u[i]], v),
    ensures der(q, u, w),
    decreases u.len(),
{
    if u.len() == 0 {
        assert(u =~= w);
        lemma_refl(q, u);
    } else {
        let d = u.drop_last();
        let x = u.last();
        let k = choose|k: int| #[trigger] star_cut(e, u, w, k) && star(e, u.drop_last(), w.take(k));
        assert forall|i: int, v: Seq<Symbol>| 0 <= i < d.len() && v.len() <= w.take(k).len() && #[trigger] e(d[i], v) implies der(q, seq![d[i]], v) by {
            assert(e(u[i], v));
        }
        lemma_star_der(q, e, d, w.take(k));
        assert(e(u[u.len() - 1], w.skip(k)));
        let emp = Seq::<Symbol>::empty();
        lemma_ctx(q, d, w.take(k), emp, seq![x]);
        lemma_ctx(q, seq![x], w.skip(k), w.take(k), emp);
        assert(emp + d + seq![x] =~= u);
        assert(emp + w.take(k) + seq![x] =~= w.take(k) + seq![x] + emp);
        assert(w.take(k) + w.skip(k) + emp =~= w);
        lemma_trans(q, u, w.take(k) + seq![x] + emp, w);
    }
}
/// Every production of `p` is, under the substitution, a derivation of `q`.
pub open spec fn sub_simulates(p: ISet<Prod>, q: ISet<Prod>, e: Sub) -> bool {
    forall|x: Prod, w: Seq<Symbol>| p.contains(x) && #[trigger] star(e, x.r, w) ==> sub_step(q, e, x.l, w)
}
pub open spec fn sub_step(q: ISet<Prod>, e: Sub, l: Symbol, w: Seq<Symbol>) -> bool { exists|v: Seq<Symbol>| #[trigger] e(l, v) && der(q, v, w) }
pub proof fn lemma_sub_simn(p: ISet<Prod>, q: ISet<Prod>, e: Sub, a: Seq<Symbol>, b: Seq<Symbol>, n: nat) -> (r: Seq<Symbol>)
    requires sub_simulates(p, q, e), dern(p, a, b, n), star(e, b, b),
    ensures star(e, a, r), der(q, r, b),
    decreases n,
{
    if n == 0 {
        lemma_refl(q, b);
        b
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(p, a, c) && dern(p, c, b, (n - 1) as nat);
        let w = lemma_sub_simn(p, q, e, c, b, (n - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(p, a, c, x, i);
        let l = a.take(i);
        let r = a.skip(i + 1);
        let k2 = lemma_star_split(e, l + x.r, r, w);
        let k1 = lemma_star_split(e, l, x.r, w.take(k2));
        let w1 = w.take(k2).take(k1);
        let w2 = w.take(k2).skip(k1);
        let w3 = w.skip(k2);
        assert(star(e, x.r, w2));
        assert(sub_step(q, e, x.l, w2));
        let v = choose|v: Seq<Symbol>| #[trigger] e(x.l, v) && der(q, v, w2);
        lemma_star1(e, x.l, v);
        lemma_star_cat(e, l, seq![x.l], w1, v);
        lemma_star_cat(e, l + seq![x.l], r, w1 + v, w3);
        assert(l + seq![x.l] + r =~= a);
        lemma_ctx(q, v, w2, w1, w3);
        assert(w1 + w2 + w3 =~= w);
        lemma_trans(q, w1 + v + w3, w, b);
        w1 + v + w3
    }
}
