// G22: the languages of regular expressions, and derivations from fresh symbols.
pub type CM = Map<Seq<(char, char)>, Symbol>;
// ---- products of languages
pub type Fam = spec_fn(int, Seq<Symbol>) -> bool;
pub open spec fn cut(f: Fam, n: int, w: Seq<Symbol>, c: int) -> bool { 0 <= c <= w.len() && f(n - 1, w.skip(c)) }
/// `w` is a string of the language 0, then one of the language 1, up to `n - 1`.
pub open spec fn cat(f: Fam, n: nat, w: Seq<Symbol>) -> bool
    decreases n,
{
    if n == 0 { w.len() == 0 } else { exists|c: int| #[trigger] cut(f, n as int, w, c) && cat(f, (n - 1) as nat, w.take(c)) }
}
pub open spec fn lhs_of(ps: ISet<Prod>, s: Symbol) -> bool { exists|x: Prod| #[trigger] ps.contains(x) && x.l == s }
/// No symbol of `w` has rules.
pub open spec fn fin(ps: ISet<Prod>, w: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < w.len() ==> !lhs_of(ps, #[trigger] w[i]) }
pub proof fn lemma_in_parts(s: Syms, w: Seq<Symbol>, c: int)
    requires all_in(s, w), 0 <= c <= w.len(),
    ensures all_in(s, w.take(c)), all_in(s, w.skip(c)),
{
    assert forall|i: int| 0 <= i < w.take(c).len() implies s(#[trigger] w.take(c)[i]) by { assert(w.take(c)[i] == w[i]); }
    assert forall|i: int| 0 <= i < w.skip(c).len() implies s(#[trigger] w.skip(c)[i]) by { assert(w.skip(c)[i] == w[i + c]); }
}
pub open spec fn agree(f: Fam, g: Fam, n: nat, s: Syms) -> bool {
    forall|i: int, v: Seq<Symbol>| 0 <= i < n && all_in(s, v) ==> (#[trigger] f(i, v) == g(i, v))
}
pub proof fn lemma_cat_one_way(f: Fam, g: Fam, n: nat, s: Syms, w: Seq<Symbol>)
    requires agree(f, g, n, s), all_in(s, w), cat(f, n, w),
    ensures cat(g, n, w),
    decreases n,
{
    if n > 0 {
        let c = choose|c: int| #[trigger] cut(f, n as int, w, c) && cat(f, (n - 1) as nat, w.take(c));
        lemma_in_parts(s, w, c);
        lemma_cat_one_way(f, g, (n - 1) as nat, s, w.take(c));
        assert(f(n - 1, w.skip(c)) == g(n - 1, w.skip(c)));
        assert(cut(g, n as int, w, c));
    }
}
pub proof fn lemma_cat_agree(f: Fam, g: Fam, n: nat, s: Syms, w: Seq<Symbol>)
    requires agree(f, g, n, s), all_in(s, w),
    ensures cat(f, n, w) == cat(g, n, w),
{
    assert forall|i: int, v: Seq<Symbol>| 0 <= i < n && all_in(s, v) implies (#[trigger] g(i, v) == f(i, v)) by { assert(f(i, v) == g(i, v)); }
    if cat(f, n, w) { lemma_cat_one_way(f, g, n, s, w); }
    if cat(g, n, w) { lemma_cat_one_way(g, f, n, s, w); }
}
// ---- derivations
pub proof fn lemma_split_n(ps: ISet<Prod>, u: Seq<Symbol>, v: Seq<Symbol>, w: Seq<Symbol>, n: nat) -> (k: int)
    requires dern(ps, u + v, w, n),
    ensures 0 <= k <= w.len(), der(ps, u, w.take(k)), der(ps, v, w.skip(k)),
    decreases n,
{
    if n == 0 {
        let k = u.len() as int;
        assert(w.take(k) =~= u);
        assert(w.skip(k) =~= v);
        lemma_refl(ps, u); lemma_refl(ps, v);
        k
    } else {
        let a = u + v;
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, w, (n - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(ps, a, c, p, i);
        if i < u.len() {
            let u2 = u.take(i) + p.r + u.skip(i + 1);
            assert(c =~= u2 + v);
            assert(step_at(ps, u, u2, p, i));
            let k = lemma_split_n(ps, u2, v, w, (n - 1) as nat);
            lemma_step(ps, u, u2);
            lemma_trans(ps, u, u2, w.take(k));
            k
        } else {
            let j = i - u.len();
            let v2 = v.take(j) + p.r + v.skip(j + 1);
            assert(c =~= u + v2);
            assert(step_at(ps, v, v2, p, j));
            let k = lemma_split_n(ps, u, v2, w, (n - 1) as nat);
            lemma_step(ps, v, v2);
            lemma_trans(ps, v, v2, w.skip(k));
            k
        }
    }
}
pub proof fn lemma_der_join(ps: ISet<Prod>, u: Seq<Symbol>, v: Seq<Symbol>, a: Seq<Symbol>, b: Seq<Symbol>)
    requires der(ps, u, a), der(ps, v, b),
    ensures der(ps, u + v, a + b),
{
    let emp = Seq::<Symbol>::empty();
    lemma_ctx(ps, u, a, emp, v);
    lemma_ctx(ps, v, b, a, emp);
    assert(emp + u + v =~= u + v);
    assert(emp + a + v =~= a + v + emp);
    assert(a + b + emp =~= a + b);
    lemma_trans(ps, u + v, a + v + emp, a + b);
}
/// What the symbols of a string derive.
pub open spec fn of_syms(ps: ISet<Prod>, u: Seq<Symbol>) -> Fam { |i: int, v: Seq<Symbol>| 0 <= i < u.len() && der(ps, seq![u[i]], v) }
pub proof fn lemma_der_cat(ps: ISet<Prod>, u: Seq<Symbol>, w: Seq<Symbol>)
    ensures der(ps, u, w) == cat(of_syms(ps, u), u.len(), w),
    decreases u.len(),
{
    let f = of_syms(ps, u);
    let n = u.len();
    if n == 0 {
        if der(ps, u, w) {
            let k = choose|k: nat| dern(ps, u, w, k);
            if k > 0 { let c = choose|c: Seq<Symbol>| #[trigger] step(ps, u, c) && dern(ps, c, w, (k - 1) as nat); }
        } else if w.len() == 0 { assert(u =~= w); lemma_refl(ps, u); }
    } else {
        let d = u.drop_last();
        let x = u.last();
        let g = of_syms(ps, d);
        assert(u =~= d + seq![x]);
        let m = (n - 1) as nat;
        assert forall|v: Seq<Symbol>| #[trigger] cat(g, m, v) == cat(f, m, v) by {
            let none: Syms = |x: Symbol| true;
            assert forall|i: int, z: Seq<Symbol>| 0 <= i < m && all_in(none, z) implies (#[trigger] g(i, z) == f(i, z)) by { assert(d[i] == u[i]); }
            lemma_cat_agree(g, f, m, none, v);
        }
        if der(ps, u, w) {
            let k = choose|k: nat| dern(ps, u, w, k);
            let c = lemma_split_n(ps, d, seq![x], w, k);
            lemma_der_cat(ps, d, w.take(c));
            assert(cut(f, n as int, w, c));
        }
        if cat(f, n, w) {
            let c = choose|c: int| #[trigger] cut(f, n as int, w, c) && cat(f, (n - 1) as nat, w.take(c));
            lemma_der_cat(ps, d, w.take(c));
            lemma_der_join(ps, d, seq![x], w.take(c), w.skip(c));
            assert(w.take(c) + w.skip(c) =~= w);
        }
    }
}
/// Strings over a closed set of symbols derive the same with or without the other rules.
pub proof fn lemma_closed_n(p: ISet<Prod>, q: ISet<Prod>, s: Syms, a: Seq<Symbol>, b: Seq<Symbol>, n: nat)
    requires
        forall|x: Prod| #[trigger] q.contains(x) && s(x.l) ==> p.contains(x) && all_in(s, x.r),
        all_in(s, a), dern(q, a, b, n),
    ensures der(p, a, b),
    decreases n,
{
    if n == 0 {
        lemma_refl(p, a);
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(q, a, c) && dern(q, c, b, (n - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(q, a, c, x, i);
        assert(s(a[i]));
        assert(step_at(p, a, c, x, i));
        assert forall|j: int| 0 <= j < c.len() implies s(#[trigger] c[j]) by {
            if j < i { assert(c[j] == a[j]); } else if j < i + x.r.len() { assert(c[j] == x.r[j - i]); } else { assert(c[j] == a[j - x.r.len() + 1]); }
        }
        lemma_closed_n(p, q, s, c, b, (n - 1) as nat);
        lemma_step(p, a, c);
        lemma_trans(p, a, c, b);
    }
}
pub proof fn lemma_closed(p: ISet<Prod>, q: ISet<Prod>, s: Syms, a: Seq<Symbol>, b: Seq<Symbol>)
    requires
        subset(p, q), forall|x: Prod| #[trigger] q.contains(x) && s(x.l) ==> p.contains(x) && all_in(s, x.r),
        all_in(s, a),
    ensures der(p, a, b) == der(q, a, b),
{
    if der(q, a, b) { let n = choose|n: nat| dern(q, a, b, n); lemma_closed_n(p, q, s, a, b, n); }
    if der(p, a, b) {
        assert forall|x: Prod| #[trigger] p.contains(x) implies der(q, seq![x.l], x.r) by { lemma_prod(q, x); }
        lemma_incl(p, q, a, b);
    }
}
/// A string of symbols without rules derives itself only.
pub proof fn lemma_final(ps: ISet<Prod>, a: Seq<Symbol>, b: Seq<Symbol>)
    requires fin(ps, a),
    ensures der(ps, a, b) == (a == b),
{
    if a == b { lemma_refl(ps, a); }
    if der(ps, a, b) {
        let n = choose|n: nat| dern(ps, a, b, n);
        if n > 0 {
            let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, b, (n - 1) as nat);
            let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(ps, a, c, x, i);
            assert(lhs_of(ps, a[i]));
        }
    }
}
/// A symbol derives what its alternatives derive.
pub open spec fn any_of(ps: ISet<Prod>, l: Symbol, w: Seq<Symbol>) -> bool { exists|x: Prod| #[trigger] ps.contains(x) && x.l == l && der(ps, x.r, w) }
pub proof fn lemma_any(ps: ISet<Prod>, l: Symbol, w: Seq<Symbol>)
    requires w != seq![l],
    ensures der(ps, seq![l], w) == any_of(ps, l, w),
{
    if der(ps, seq![l], w) {
        let n = choose|n: nat| dern(ps, seq![l], w, n);
        let a = seq![l];
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, w, (n - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(ps, a, c, x, i);
        assert(c =~= x.r);
        assert(ps.contains(x) && x.l == l && der(ps, x.r, w));
    }
    if any_of(ps, l, w) {
        let x = choose|x: Prod| #[trigger] ps.contains(x) && x.l == l && der(ps, x.r, w);
        lemma_prod(ps, x);
        lemma_trans(ps, seq![l], x.r, w);
    }
}
// ---- regular expressions
// TRUSTED: regex_syntax::hir as a tree; a literal as the characters of its (UTF-8) bytes.
#[verifier::external_body]
pub struct Literal { x: u8 }
impl Literal { pub uninterp spec fn chars(self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_chars(l: &Literal) -> (r: Vec<char>)
    ensures r@ == l.chars(),
{ unimplemented!() }
#[verifier::external_body]
pub struct Look { x: u8 }
pub struct Repetition { pub min: u32, pub max: Option<u32>, pub greedy: bool, pub sub: Box<Hir> }
pub struct Capture { pub index: u32, pub sub: Box<Hir> }
pub enum HirKind { Empty, Literal(Literal), Class(Class), Look(Look), Repetition(Repetition), Capture(Capture), Concat(Vec<Hir>), Alternation(Vec<Hir>) }
pub struct Hir { pub kind: HirKind }
impl Hir {
    pub fn kind(&self) -> (r: &HirKind)
        ensures *r == self.kind,
    { &self.kind }
}
pub open spec fn lit_word(cs: Seq<char>, cm: CM, w: Seq<Symbol>) -> bool {
    w.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> cm.contains_key(char_key(#[trigger] cs[i])) && w[i] == cm[char_key(cs[i])]
}
pub open spec fn times(min: u32, max: Option<u32>, k: nat) -> bool { min <= k && (max matches Some(m) ==> k <= m) }
/// `w` is a string of one of the languages.
pub open spec fn any(f: Fam, n: nat, w: Seq<Symbol>) -> bool { exists|i: int| 0 <= i < n && #[trigger] f(i, w) }
/// The strings, over the symbols of the classes, that an expression matches.
pub open spec fn means(h: Hir, cm: CM, w: Seq<Symbol>) -> bool
    decreases h, 0nat,
{
    match h.kind {
        HirKind::Empty => w.len() == 0,
        HirKind::Literal(l) => lit_word(l.chars(), cm, w),
        HirKind::Class(c) => cm.contains_key(class_key(c)) && w == seq![cm[class_key(c)]],
        HirKind::Look(_) => false,
        HirKind::Repetition(r) => exists|k: nat| #[trigger] times(r.min, r.max, k) && cat(fam_const(*r.sub, cm), k, w),
        HirKind::Capture(g) => means(*g.sub, cm, w),
        HirKind::Concat(es) => cat(fam_of(es, cm), es@.len(), w),
        HirKind::Alternation(es) => any(fam_of(es, cm), es@.len(), w),
    }
}
pub open spec fn fam_const(h: Hir, cm: CM) -> Fam
    decreases h, 1nat,
{
    |i: int, v: Seq<Symbol>| means(h, cm, v)
}
pub open spec fn fam_of(es: Vec<Hir>, cm: CM) -> Fam
    decreases es, 1nat,
{
    |i: int, v: Seq<Symbol>| 0 <= i < es@.len() && means(es@[i], cm, v)
}
