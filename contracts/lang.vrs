// Derivations over a set of productions, and the simulation lemma.
pub ghost struct Prod { pub l: Symbol, pub r: Seq<Symbol> }
pub open spec fn prods(rs: Seq<CfgRule>) -> ISet<Prod> {
    ISet::new(|p: Prod| exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == p.l && rs[i].rhs@ == p.r)
}
pub open spec fn step_at(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>, p: Prod, i: int) -> bool {
    ps.contains(p) && 0 <= i < a.len() && a[i] == p.l && b == a.take(i) + p.r + a.skip(i + 1)
}
pub open spec fn step(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>) -> bool {
    exists|p: Prod, i: int| #[trigger] step_at(ps, a, b, p, i)
}
pub open spec fn dern(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>, n: nat) -> bool
    decreases n,
{
    if n == 0 { a == b } else { exists|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, b, (n - 1) as nat) }
}
/// `a` derives `b` in any number of steps.
pub open spec fn der(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>) -> bool { exists|n: nat| dern(ps, a, b, n) }

pub proof fn lemma_refl(ps: ISet<Prod>, a: Seq<Symbol>)
    ensures der(ps, a, a),
{
    assert(dern(ps, a, a, 0));
}
pub proof fn lemma_transn(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>, c: Seq<Symbol>, n: nat)
    requires dern(ps, a, b, n), der(ps, b, c),
    ensures der(ps, a, c),
    decreases n,
{
    if n > 0 {
        let d = choose|d: Seq<Symbol>| #[trigger] step(ps, a, d) && dern(ps, d, b, (n - 1) as nat);
        lemma_transn(ps, d, b, c, (n - 1) as nat);
        let m = choose|m: nat| dern(ps, d, c, m);
        assert(dern(ps, a, c, m + 1));
    }
}
pub proof fn lemma_trans(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>, c: Seq<Symbol>)
    requires der(ps, a, b), der(ps, b, c),
    ensures der(ps, a, c),
{
    let n = choose|n: nat| dern(ps, a, b, n);
    lemma_transn(ps, a, b, c, n);
}
pub proof fn lemma_step(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>)
    requires step(ps, a, b),
    ensures der(ps, a, b),
{
    assert(dern(ps, b, b, 0));
    assert(dern(ps, a, b, 1));
}
/// A production derives its right-hand side.
pub proof fn lemma_prod(ps: ISet<Prod>, p: Prod)
    requires ps.contains(p),
    ensures der(ps, seq![p.l], p.r),
{
    let a = seq![p.l];
    assert(p.r =~= a.take(0) + p.r + a.skip(1));
    assert(step_at(ps, a, p.r, p, 0));
    lemma_step(ps, a, p.r);
}
pub proof fn lemma_ctxn(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>, x: Seq<Symbol>, y: Seq<Symbol>, n: nat)
    requires dern(ps, a, b, n),
    ensures dern(ps, x + a + y, x + b + y, n),
    decreases n,
{
    if n > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, b, (n - 1) as nat);
        lemma_ctxn(ps, c, b, x, y, (n - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(ps, a, c, p, i);
        let a2 = x + a + y;
        let c2 = x + c + y;
        assert(a2[i + x.len()] == p.l);
        assert(c2 =~= a2.take(i + x.len()) + p.r + a2.skip(i + x.len() + 1));
        assert(step_at(ps, a2, c2, p, i + x.len()));
        assert(step(ps, a2, c2));
    }
}
pub proof fn lemma_ctx(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>, x: Seq<Symbol>, y: Seq<Symbol>)
    requires der(ps, a, b),
    ensures der(ps, x + a + y, x + b + y),
{
    let n = choose|n: nat| dern(ps, a, b, n);
    lemma_ctxn(ps, a, b, x, y, n);
}
// ---- homomorphisms
pub type Hom = spec_fn(Symbol) -> Seq<Symbol>;
pub open spec fn hom(e: Hom, s: Seq<Symbol>) -> Seq<Symbol>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { hom(e, s.drop_last()) + e(s.last()) }
}
pub proof fn lemma_hom_cat(e: Hom, a: Seq<Symbol>, b: Seq<Symbol>)
    ensures hom(e, a + b) == hom(e, a) + hom(e, b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(hom(e, a) + hom(e, b) =~= hom(e, a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_hom_cat(e, a, b.drop_last());
        assert(hom(e, a + b) =~= hom(e, a) + hom(e, b));
    }
}
pub proof fn lemma_hom_one(e: Hom, x: Symbol)
    ensures hom(e, seq![x]) == e(x),
{
    assert(seq![x].drop_last() =~= Seq::empty());
    assert(hom(e, seq![x].drop_last()) =~= Seq::empty());
    assert(hom(e, seq![x]) =~= e(x));
}
pub proof fn lemma_hom_id(e: Hom, s: Seq<Symbol>)
    requires forall|i: int| 0 <= i < s.len() ==> e(#[trigger] s[i]) == seq![s[i]],
    ensures hom(e, s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies e(#[trigger] s.drop_last()[i]) == seq![s.drop_last()[i]] by { assert(s.drop_last()[i] == s[i]); }
        lemma_hom_id(e, s.drop_last());
        assert(s.last() == s[s.len() - 1]);
        assert(hom(e, s) =~= s);
    } else {
        assert(hom(e, s) =~= s);
    }
}
/// Every production of `p` is, under `e`, a derivation of `q`.
pub open spec fn simulates(p: ISet<Prod>, q: ISet<Prod>, e: Hom) -> bool {
    forall|x: Prod| #[trigger] p.contains(x) ==> der(q, e(x.l), hom(e, x.r))
}
pub proof fn lemma_simn(p: ISet<Prod>, q: ISet<Prod>, e: Hom, a: Seq<Symbol>, b: Seq<Symbol>, n: nat)
    requires simulates(p, q, e), dern(p, a, b, n),
    ensures der(q, hom(e, a), hom(e, b)),
    decreases n,
{
    if n == 0 {
        lemma_refl(q, hom(e, a));
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(p, a, c) && dern(p, c, b, (n - 1) as nat);
        lemma_simn(p, q, e, c, b, (n - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(p, a, c, x, i);
        let l = a.take(i);
        let r = a.skip(i + 1);
        assert(a =~= l + seq![x.l] + r);
        lemma_hom_cat(e, l + seq![x.l], r); lemma_hom_cat(e, l, seq![x.l]); lemma_hom_one(e, x.l);
        lemma_hom_cat(e, l + x.r, r); lemma_hom_cat(e, l, x.r);
        lemma_ctx(q, e(x.l), hom(e, x.r), hom(e, l), hom(e, r));
        lemma_trans(q, hom(e, a), hom(e, c), hom(e, b));
    }
}
pub proof fn lemma_sim(p: ISet<Prod>, q: ISet<Prod>, e: Hom, a: Seq<Symbol>, b: Seq<Symbol>)
    requires simulates(p, q, e), der(p, a, b),
    ensures der(q, hom(e, a), hom(e, b)),
{
    let n = choose|n: nat| dern(p, a, b, n);
    lemma_simn(p, q, e, a, b, n);
}
pub open spec fn id_hom() -> Hom { |x: Symbol| seq![x] }
/// Every production of `p` is a derivation of `q`: `q` derives all that `p` derives.
pub proof fn lemma_incl(p: ISet<Prod>, q: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>)
    requires forall|x: Prod| #[trigger] p.contains(x) ==> der(q, seq![x.l], x.r), der(p, a, b),
    ensures der(q, a, b),
{
    let e = id_hom();
    assert forall|x: Prod| #[trigger] p.contains(x) implies der(q, e(x.l), hom(e, x.r)) by { lemma_hom_id(e, x.r); }
    lemma_sim(p, q, e, a, b);
    lemma_hom_id(e, a); lemma_hom_id(e, b);
}
/// A string of symbols numbered below `n`.
pub open spec fn below(s: Seq<Symbol>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).raw < n }
/// The same derivations between strings of symbols numbered below `n`.
pub open spec fn same_lang(p: ISet<Prod>, q: ISet<Prod>, n: int) -> bool {
    forall|a: Seq<Symbol>, b: Seq<Symbol>| below(a, n) && below(b, n) ==> (#[trigger] der(p, a, b) <==> der(q, a, b))
}
pub open spec fn prods_below(p: ISet<Prod>, n: int) -> bool {
    forall|x: Prod| #[trigger] p.contains(x) ==> x.l.raw < n && below(x.r, n)
}
pub proof fn lemma_same_trans(p: ISet<Prod>, q: ISet<Prod>, r: ISet<Prod>, n: int, m: int)
    requires same_lang(p, q, n), same_lang(q, r, m), n <= m,
    ensures same_lang(p, r, n),
{
    assert forall|a: Seq<Symbol>, b: Seq<Symbol>| below(a, n) && below(b, n) implies (#[trigger] der(p, a, b) <==> der(r, a, b)) by {
        assert(below(a, m) && below(b, m));
        assert(der(p, a, b) <==> der(q, a, b));
        assert(der(q, a, b) <==> der(r, a, b));
    }
}
/// Naming the front `u` of a right-hand side by a fresh symbol keeps the language.
pub proof fn lemma_name(p: ISet<Prod>, l: Symbol, u: Seq<Symbol>, v: Seq<Symbol>, f: Symbol, n: int)
    requires prods_below(p, n), l.raw < n, below(u, n), below(v, n), f.raw >= n,
    ensures same_lang(p.insert(Prod { l: l, r: u + v }), p.insert(Prod { l: f, r: u }).insert(Prod { l: l, r: seq![f] + v }), n),
{
    let p1 = p.insert(Prod { l: l, r: u + v });
    let p2 = p.insert(Prod { l: f, r: u }).insert(Prod { l: l, r: seq![f] + v });
    let e: Hom = |x: Symbol| if x == f { u } else { seq![x] };
    assert forall|x: Prod| #[trigger] p1.contains(x) implies der(p2, seq![x.l], x.r) by {
        if p.contains(x) {
            assert(p2.contains(x));
            lemma_prod(p2, x);
        } else {
            let t = Prod { l: l, r: seq![f] + v };
            lemma_prod(p2, t);
            lemma_prod(p2, Prod { l: f, r: u });
            lemma_ctx(p2, seq![f], u, Seq::empty(), v);
            assert(Seq::<Symbol>::empty() + seq![f] + v =~= seq![f] + v);
            assert(Seq::<Symbol>::empty() + u + v =~= u + v);
            lemma_trans(p2, seq![l], seq![f] + v, u + v);
        }
    }
    assert(simulates(p2, p1, e)) by {
        assert forall|x: Prod| #[trigger] p2.contains(x) implies der(p1, e(x.l), hom(e, x.r)) by {
            if x == (Prod { l: l, r: seq![f] + v }) {
                lemma_hom_cat(e, seq![f], v); lemma_hom_one(e, f); lemma_hom_id(e, v);
                lemma_prod(p1, Prod { l: l, r: u + v });
            } else if x == (Prod { l: f, r: u }) {
                lemma_hom_id(e, u);
                lemma_refl(p1, u);
            } else {
                assert(p.contains(x));
                assert(p1.contains(x));
                lemma_hom_id(e, x.r);
                lemma_prod(p1, x);
            }
        }
    }
    assert forall|a: Seq<Symbol>, b: Seq<Symbol>| below(a, n) && below(b, n) implies (#[trigger] der(p1, a, b) <==> der(p2, a, b)) by {
        if der(p1, a, b) { lemma_incl(p1, p2, a, b); }
        if der(p2, a, b) {
            lemma_sim(p2, p1, e, a, b);
            lemma_hom_id(e, a); lemma_hom_id(e, b);
        }
    }
}
