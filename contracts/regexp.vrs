// G22: regular expressions translated into rules (cfg-regexp-logic).
//@struct cfg-regexp-logic/src/lib.rs Translator
//@include classmap.vrs
#[verifier::external_body]
pub fn vx_clone_class(c: &Class) -> (r: Class)
    ensures r == *c,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_some_name() -> (r: Option<SymbolName>) { unimplemented!() }
pub fn vx_one(v: Vec<Symbol>) -> (r: Vec<Vec<Symbol>>)
    ensures r@ == seq![v],
{
    let mut r: Vec<Vec<Symbol>> = Vec::new();
    r.push(v);
    assert(r@ =~= seq![v]);
    r
}
// ---- sizes and shape
pub open spec fn hsize(h: Hir) -> nat
    decreases h, 0nat,
{
    1 + match h.kind {
        HirKind::Literal(l) => l.chars().len(),
        HirKind::Repetition(r) => hsize(*r.sub),
        HirKind::Capture(g) => hsize(*g.sub),
        HirKind::Concat(es) => hsum(es, es@.len()),
        HirKind::Alternation(es) => hsum(es, es@.len()),
        _ => 0,
    }
}
pub open spec fn hsum(es: Vec<Hir>, n: nat) -> nat
    decreases es, n,
{
    if n == 0 || n > es@.len() { 0 } else { hsum(es, (n - 1) as nat) + hsize(es@[n - 1]) }
}
pub proof fn lemma_hsum(es: Vec<Hir>, i: nat, n: nat)
    requires i < n <= es@.len(),
    ensures hsum(es, i) + hsize(es@[i as int]) <= hsum(es, n),
    decreases n,
{
    if i + 1 < n { lemma_hsum(es, i, (n - 1) as nat); }
}
/// What regex-syntax builds, without look-around.
pub open spec fn hir_ok(h: Hir) -> bool
    decreases h,
{
    match h.kind {
        HirKind::Look(_) => false,
        HirKind::Class(c) => own_ranges(class_key(c)),
        HirKind::Repetition(r) => (r.max matches Some(m) ==> r.min <= m) && hir_ok(*r.sub),
        HirKind::Capture(g) => hir_ok(*g.sub),
        HirKind::Concat(es) => forall|i: int| 0 <= i < es@.len() ==> hir_ok(#[trigger] es@[i]),
        HirKind::Alternation(es) => es@.len() > 0 && forall|i: int| 0 <= i < es@.len() ==> hir_ok(#[trigger] es@[i]),
        _ => true,
    }
}
// ---- the state of a translation
pub ghost struct St { pub ps: ISet<Prod>, pub n: int, pub cm: CM }
pub open spec fn term(cm: CM, s: Symbol) -> bool { exists|k: Seq<(char, char)>| #[trigger] cm.contains_key(k) && cm[k] == s }
pub open spec fn sub_cm(a: CM, b: CM) -> bool { forall|k: Seq<(char, char)>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
pub open spec fn good(t: St) -> bool {
    &&& prods_below(t.ps, t.n) && own_classes(t.cm) && t.n >= 0
    &&& forall|k: Seq<(char, char)>| #[trigger] t.cm.contains_key(k) ==> t.cm[k].raw < t.n && !lhs_of(t.ps, t.cm[k])
}
pub open spec fn grows(a: St, b: St) -> bool {
    &&& a.n <= b.n && subset(a.ps, b.ps) && sub_cm(a.cm, b.cm)
    &&& forall|x: Prod| #[trigger] b.ps.contains(x) ==> a.ps.contains(x) || x.l.raw >= a.n
    &&& forall|k: Seq<(char, char)>| #[trigger] b.cm.contains_key(k) ==> a.cm.contains_key(k) || b.cm[k].raw >= a.n
}
/// Symbols of classes, and symbols numbered from `lo` up.
pub open spec fn seg(t: St, lo: int) -> Syms { |s: Symbol| term(t.cm, s) || lo <= s.raw < t.n }
pub open spec fn closed_in(t: St, lo: int) -> bool { forall|x: Prod| #[trigger] t.ps.contains(x) && x.l.raw >= lo ==> all_in(seg(t, lo), x.r) }
/// Symbols of classes, now or later.
pub open spec fn leaf(t: St) -> Syms { |s: Symbol| term(t.cm, s) || s.raw >= t.n }
pub open spec fn alts(ps: ISet<Prod>, xs: Seq<Vec<Symbol>>, w: Seq<Symbol>) -> bool { exists|i: int| 0 <= i < xs.len() && der(ps, (#[trigger] xs[i])@, w) }
pub open spec fn asked_word(t: St, cm: CM, w: Seq<Symbol>) -> bool { sub_cm(t.cm, cm) && all_in(leaf(t), w) }
pub open spec fn sem(t: St, xs: Seq<Vec<Symbol>>, h: Hir) -> bool { forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) ==> alts(t.ps, xs, w) == means(h, cm, w) }
pub open spec fn sem1(t: St, u: Seq<Symbol>, h: Hir) -> bool { forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) ==> der(t.ps, u, w) == means(h, cm, w) }
pub open spec fn all_seg(t: St, lo: int, xs: Seq<Vec<Symbol>>, size: nat) -> bool {
    forall|i: int| 0 <= i < xs.len() ==> all_in(seg(t, lo), (#[trigger] xs[i])@) && xs[i]@.len() <= size
}
pub open spec fn walked(t0: St, t1: St, xs: Seq<Vec<Symbol>>, h: Hir) -> bool {
    &&& good(t1) && grows(t0, t1) && closed_in(t1, t0.n)
    &&& xs.len() > 0 && all_seg(t1, t0.n, xs, hsize(h))
    &&& sem(t1, xs, h)
}
impl Translator {
    pub open spec fn st(self) -> St { St { ps: prods(self.cfg.rules@), n: self.cfg.n(), cm: self.class_map.classes@ } }
    pub open spec fn fine(self) -> bool {
        self.cfg.limit() == usize::MAX && !self.cfg.eliminate_nulling && good(self.st())
    }
}
pub proof fn lemma_wf(g: Cfg)
    requires prods_below(prods(g.rules@), g.n()),
    ensures g.wf(),
{
    assert forall|i: int| 0 <= i < g.rules@.len() implies rule_in(#[trigger] g.rules@[i], g.n()) by {
        let x = Prod { l: g.rules@[i].lhs, r: g.rules@[i].rhs@ };
        assert(prods(g.rules@).contains(x));
        assert forall|j: int| 0 <= j < g.rules@[i].rhs@.len() implies (#[trigger] g.rules@[i].rhs@[j]).raw < g.n() by { assert(x.r[j].raw < g.n()); }
    }
}
pub proof fn lemma_grows_trans(a: St, b: St, c: St)
    requires grows(a, b), grows(b, c),
    ensures grows(a, c),
{
    assert forall|x: Prod| #[trigger] c.ps.contains(x) implies a.ps.contains(x) || x.l.raw >= a.n by { if b.ps.contains(x) { } }
    assert forall|k: Seq<(char, char)>| #[trigger] c.cm.contains_key(k) implies a.cm.contains_key(k) || c.cm[k].raw >= a.n by { if b.cm.contains_key(k) { } }
}
pub proof fn lemma_term_mono(a: CM, b: CM, s: Symbol)
    requires sub_cm(a, b), term(a, s),
    ensures term(b, s),
{
    let k = choose|k: Seq<(char, char)>| #[trigger] a.contains_key(k) && a[k] == s;
    assert(b.contains_key(k) && b[k] == s);
}
pub proof fn lemma_seg_mono(t1: St, t2: St, lo: int, lo2: int, u: Seq<Symbol>)
    requires sub_cm(t1.cm, t2.cm), t1.n <= t2.n, lo2 <= lo, all_in(seg(t1, lo), u),
    ensures all_in(seg(t2, lo2), u),
{
    assert forall|i: int| 0 <= i < u.len() implies (seg(t2, lo2))(#[trigger] u[i]) by {
        assert((seg(t1, lo))(u[i]));
        if term(t1.cm, u[i]) { lemma_term_mono(t1.cm, t2.cm, u[i]); }
    }
}
pub proof fn lemma_leaf_mono(t1: St, t2: St, w: Seq<Symbol>)
    requires grows(t1, t2), all_in(leaf(t2), w),
    ensures all_in(leaf(t1), w),
{
    assert forall|i: int| 0 <= i < w.len() implies (leaf(t1))(#[trigger] w[i]) by {
        assert((leaf(t2))(w[i]));
        if term(t2.cm, w[i]) {
            let k = choose|k: Seq<(char, char)>| #[trigger] t2.cm.contains_key(k) && t2.cm[k] == w[i];
            if t1.cm.contains_key(k) { assert(t1.cm[k] == w[i]); }
        }
    }
}
pub proof fn lemma_leaf_fin(t: St, w: Seq<Symbol>)
    requires good(t), all_in(leaf(t), w),
    ensures fin(t.ps, w),
{
    assert forall|i: int| 0 <= i < w.len() implies !lhs_of(t.ps, #[trigger] w[i]) by { assert((leaf(t))(w[i])); }
}
/// Later rules do not change what the symbols of a part derive.
pub proof fn lemma_keep(lo: int, t1: St, t2: St, a: Seq<Symbol>, w: Seq<Symbol>)
    requires
        good(t1), good(t2), closed_in(t1, lo), subset(t1.ps, t2.ps), sub_cm(t1.cm, t2.cm), all_in(seg(t1, lo), a),
        forall|x: Prod| #[trigger] t2.ps.contains(x) ==> t1.ps.contains(x) || x.l.raw < lo || x.l.raw >= t1.n,
    ensures der(t1.ps, a, w) == der(t2.ps, a, w),
{
    let s = seg(t1, lo);
    assert forall|x: Prod| #[trigger] t2.ps.contains(x) && s(x.l) implies t1.ps.contains(x) && all_in(s, x.r) by {
        if term(t1.cm, x.l) {
            lemma_term_mono(t1.cm, t2.cm, x.l);
            assert(lhs_of(t2.ps, x.l));
            assert(false);
        }
        assert(t1.ps.contains(x));
    }
    lemma_closed(t1.ps, t2.ps, s, a, w);
}
pub proof fn lemma_below_n(ps: ISet<Prod>, n: int, a: Seq<Symbol>, b: Seq<Symbol>, k: nat)
    requires prods_below(ps, n), below(a, n), dern(ps, a, b, k),
    ensures below(b, n),
    decreases k,
{
    if k > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, b, (k - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(ps, a, c, x, i);
        assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).raw < n by {
            if j < i { assert(c[j] == a[j]); } else if j < i + x.r.len() { assert(c[j] == x.r[j - i]); } else { assert(c[j] == a[j - x.r.len() + 1]); }
        }
        lemma_below_n(ps, n, c, b, (k - 1) as nat);
    }
}
pub proof fn lemma_below(ps: ISet<Prod>, n: int, a: Seq<Symbol>, b: Seq<Symbol>)
    requires prods_below(ps, n), below(a, n), der(ps, a, b),
    ensures below(b, n),
{
    let k = choose|k: nat| dern(ps, a, b, k);
    lemma_below_n(ps, n, a, b, k);
}
// ---- symbols of classes
/// A class has been given a new symbol.
pub proof fn lemma_new_class(t0: St, t1: St, lo: int, k: Seq<(char, char)>, s: Symbol)
    requires
        good(t0), !t0.cm.contains_key(k), own_ranges(k), s.raw == t0.n, closed_in(t0, lo), lo <= t0.n,
        t1 == (St { ps: t0.ps, n: t0.n + 1, cm: t0.cm.insert(k, s) }),
    ensures good(t1), grows(t0, t1), closed_in(t1, lo),
{
    assert forall|x: Seq<(char, char)>| #[trigger] t1.cm.contains_key(x) implies t1.cm[x].raw < t1.n && !lhs_of(t1.ps, t1.cm[x]) by {
        if x == k { if lhs_of(t1.ps, s) { let p = choose|p: Prod| #[trigger] t1.ps.contains(p) && p.l == s; assert(p.l.raw < t0.n); } } else { assert(t0.cm.contains_key(x)); }
    }
    assert(own_classes(t1.cm)) by {
        assert forall|x: Seq<(char, char)>| #[trigger] t1.cm.contains_key(x) implies own_ranges(x) by { if x != k { assert(t0.cm.contains_key(x)); } }
        assert forall|x: Seq<(char, char)>, y: Seq<(char, char)>| #[trigger] t1.cm.contains_key(x) && #[trigger] t1.cm.contains_key(y) && t1.cm[x] == t1.cm[y] implies x == y by {
            if x != k { assert(t0.cm.contains_key(x)); }
            if y != k { assert(t0.cm.contains_key(y)); }
        }
    }
    assert(prods_below(t1.ps, t1.n)) by { assert forall|x: Prod| #[trigger] t1.ps.contains(x) implies x.l.raw < t1.n && below(x.r, t1.n) by { assert(t0.ps.contains(x)); } }
    assert forall|x: Prod| #[trigger] t1.ps.contains(x) && x.l.raw >= lo implies all_in(seg(t1, lo), x.r) by { lemma_seg_mono(t0, t1, lo, lo, x.r); }
}
/// Symbols of classes stand for themselves.
pub proof fn lemma_leaves(t: St, u: Vec<Symbol>, h: Hir)
    requires
        good(t), forall|i: int| 0 <= i < u@.len() ==> term(t.cm, #[trigger] u@[i]),
        forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) ==> (w == u@) == means(h, cm, w),
    ensures sem(t, seq![u], h),
{
    let xs = seq![u];
    assert(fin(t.ps, u@)) by {
        assert forall|i: int| 0 <= i < u@.len() implies !lhs_of(t.ps, #[trigger] u@[i]) by { assert(term(t.cm, u@[i])); }
    }
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) implies alts(t.ps, xs, w) == means(h, cm, w) by {
        lemma_final(t.ps, u@, w);
        assert(xs[0] == u);
    }
}
// ---- a symbol for alternatives
pub open spec fn with_alts(ps: ISet<Prod>, l: Symbol, xs: Seq<Vec<Symbol>>, n: int) -> ISet<Prod> {
    ISet::new(|p: Prod| ps.contains(p) || (p.l == l && exists|j: int| 0 <= j < n && (#[trigger] xs[j])@ == p.r))
}
pub proof fn lemma_with_alts(ps: ISet<Prod>, l: Symbol, xs: Seq<Vec<Symbol>>, n: int)
    requires 0 <= n < xs.len(),
    ensures with_alts(ps, l, xs, n + 1) == with_alts(ps, l, xs, n).insert(Prod { l: l, r: xs[n]@ }), with_alts(ps, l, xs, 0) == ps,
{
    let a = with_alts(ps, l, xs, n + 1);
    let b = with_alts(ps, l, xs, n).insert(Prod { l: l, r: xs[n]@ });
    assert forall|p: Prod| a.contains(p) == b.contains(p) by {
        if p.l == l && exists|j: int| 0 <= j < n + 1 && (#[trigger] xs[j])@ == p.r {
            let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] xs[j])@ == p.r;
            if j < n { assert(xs[j]@ == p.r); } else { assert(p == (Prod { l: l, r: xs[n]@ })); }
        }
        if p == (Prod { l: l, r: xs[n]@ }) { assert(xs[n]@ == p.r); }
    }
    assert(a =~= b);
    assert(with_alts(ps, l, xs, 0) =~= ps);
}
/// The alternatives of a part get a symbol of their own.
pub proof fn lemma_inner(t0: St, t1: St, xs: Seq<Vec<Symbol>>, h: Hir, t2: St, l: Symbol)
    requires
        good(t0), walked(t0, t1, xs, h), l.raw == t1.n, t2 == (St { ps: with_alts(t1.ps, l, xs, xs.len() as int), n: t1.n + 1, cm: t1.cm }),
    ensures good(t2), grows(t0, t2), grows(t1, t2), closed_in(t2, t0.n), sem1(t2, seq![l], h), all_in(seg(t2, t0.n), seq![l]),
{
    assert(prods_below(t2.ps, t2.n)) by {
        assert forall|x: Prod| #[trigger] t2.ps.contains(x) implies x.l.raw < t2.n && below(x.r, t2.n) by {
            if !t1.ps.contains(x) {
                let j = choose|j: int| 0 <= j < xs.len() && (#[trigger] xs[j])@ == x.r;
                lemma_seg_below(t1, t0.n, xs[j]@);
            }
        }
    }
    assert forall|k: Seq<(char, char)>| #[trigger] t2.cm.contains_key(k) implies t2.cm[k].raw < t2.n && !lhs_of(t2.ps, t2.cm[k]) by {
        assert(t1.cm.contains_key(k));
        if lhs_of(t2.ps, t2.cm[k]) { let p = choose|p: Prod| #[trigger] t2.ps.contains(p) && p.l == t2.cm[k]; assert(t1.ps.contains(p)); assert(lhs_of(t1.ps, t1.cm[k])); }
    }
    lemma_grows_trans(t0, t1, t2);
    assert forall|x: Prod| #[trigger] t2.ps.contains(x) && x.l.raw >= t0.n implies all_in(seg(t2, t0.n), x.r) by {
        if !t1.ps.contains(x) { let j = choose|j: int| 0 <= j < xs.len() && (#[trigger] xs[j])@ == x.r; assert(all_in(seg(t1, t0.n), xs[j]@)); }
        lemma_seg_mono(t1, t2, t0.n, t0.n, x.r);
    }
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t2, cm, w) implies der(t2.ps, seq![l], w) == means(h, cm, w) by {
        lemma_leaf_mono(t1, t2, w);
        assert(asked_word(t1, cm, w));
        lemma_leaf_fin(t2, w);
        let p0 = Prod { l: l, r: xs[0]@ };
        assert(t2.ps.contains(p0));
        assert(lhs_of(t2.ps, l));
        if w == seq![l] { assert(!lhs_of(t2.ps, w[0])); assert(false); }
        lemma_any(t2.ps, l, w);
        assert forall|j: int| 0 <= j < xs.len() implies der(t1.ps, (#[trigger] xs[j])@, w) == der(t2.ps, xs[j]@, w) by { lemma_keep(t0.n, t1, t2, xs[j]@, w); }
        if any_of(t2.ps, l, w) {
            let x = choose|x: Prod| #[trigger] t2.ps.contains(x) && x.l == l && der(t2.ps, x.r, w);
            if t1.ps.contains(x) { assert(x.l.raw < t1.n); assert(false); }
            let j = choose|j: int| 0 <= j < xs.len() && (#[trigger] xs[j])@ == x.r;
            assert(der(t1.ps, xs[j]@, w));
        }
        if alts(t1.ps, xs, w) {
            let j = choose|j: int| 0 <= j < xs.len() && der(t1.ps, (#[trigger] xs[j])@, w);
            let x = Prod { l: l, r: xs[j]@ };
            assert(t2.ps.contains(x) && der(t2.ps, x.r, w));
        }
    }
}
pub proof fn lemma_seg_below(t: St, lo: int, u: Seq<Symbol>)
    requires good(t), all_in(seg(t, lo), u),
    ensures below(u, t.n),
{
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).raw < t.n by { assert((seg(t, lo))(u[i])); }
}
/// A part with one alternative of one symbol.
pub proof fn lemma_single(t1: St, xs: Seq<Vec<Symbol>>, h: Hir, u: Seq<Symbol>)
    requires sem(t1, xs, h), xs.len() == 1, xs[0]@ == u,
    ensures sem1(t1, u, h),
{
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t1, cm, w) implies der(t1.ps, u, w) == means(h, cm, w) by {
        if der(t1.ps, u, w) { assert(der(t1.ps, xs[0]@, w)); }
    }
}
pub proof fn lemma_double(t1: St, v: Vec<Symbol>, h: Hir)
    requires sem1(t1, v@, h),
    ensures sem(t1, seq![v], h),
{
    let xs = seq![v];
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t1, cm, w) implies alts(t1.ps, xs, w) == means(h, cm, w) by {
        assert(xs[0] == v);
    }
}
// ---- repetitions
pub open spec fn ctx_at(t: St, s: Sequence) -> Ctx { Ctx { p0: t.ps, n0: t.n, lhs: s.lhs, top: part(s), rec: is_rec(part(s)) } }
/// What stands before a repetition is added: `rhs` is the part, `lhs` a symbol made before the part.
pub open spec fn before_rep(t0: St, t2: St, lhs: Symbol, rhs: Symbol, r: Repetition) -> bool {
    &&& good(t0) && good(t2) && lhs.raw == t0.n && grows(St { n: t0.n + 1, ..t0 }, t2) && closed_in(t2, t0.n + 1)
    &&& all_in(seg(t2, t0.n + 1), seq![rhs]) && sem1(t2, seq![rhs], *r.sub) && (r.max matches Some(m) ==> r.min <= m)
}
pub proof fn lemma_before_rep(t0: St, t2: St, lhs: Symbol, rhs: Symbol, r: Repetition)
    requires before_rep(t0, t2, lhs, rhs, r),
    ensures
        ctx_ok(ctx_at(t2, rep_seq(lhs, rhs, r.min, r.max))), lhs != rhs, rhs.raw < t2.n, lhs.raw < t2.n, !term(t2.cm, lhs), !lhs_of(t2.ps, lhs),
{
    assert((seg(t2, t0.n + 1))(seq![rhs][0]));
    if term(t2.cm, lhs) { let k = choose|k: Seq<(char, char)>| #[trigger] t2.cm.contains_key(k) && t2.cm[k] == lhs; if t0.cm.contains_key(k) { assert(t0.cm[k].raw < t0.n); } assert(false); }
    if lhs_of(t2.ps, lhs) { let p = choose|p: Prod| #[trigger] t2.ps.contains(p) && p.l == lhs; if t0.ps.contains(p) { assert(p.l.raw < t0.n); } assert(false); }
    assert forall|x: Prod| #[trigger] t2.ps.contains(x) implies x.l != lhs by { assert(lhs_of(t2.ps, x.l)); }
}
pub open spec fn after_rep(t2: St, t3: St, s: Sequence) -> bool {
    &&& t2.n <= t3.n && t3.cm == t2.cm && subset(t2.ps, t3.ps) && prods_below(t3.ps, t3.n) && rewrites_seq(ctx_at(t2, s), t3.ps)
    &&& forall|x: Prod| #[trigger] t3.ps.contains(x) ==> t2.ps.contains(x) || (x.l == s.lhs || x.l.raw >= t2.n) && own_syms(ctx_at(t2, s), x.r)
}
pub proof fn lemma_after_rep(t0: St, t2: St, t3: St, lhs: Symbol, rhs: Symbol, r: Repetition, h: Hir)
    requires before_rep(t0, t2, lhs, rhs, r), after_rep(t2, t3, rep_seq(lhs, rhs, r.min, r.max)), h.kind == HirKind::Repetition(r),
    ensures good(t3), grows(t0, t3), closed_in(t3, t0.n), all_in(seg(t3, t0.n), seq![lhs]), sem1(t3, seq![lhs], h),
{
    let sq = rep_seq(lhs, rhs, r.min, r.max);
    let c = ctx_at(t2, sq);
    let q = seq_prods(c);
    let ta = St { n: t0.n + 1, ..t0 };
    lemma_before_rep(t0, t2, lhs, rhs, r);
    assert((seg(t2, t0.n + 1))(seq![rhs][0]));
    assert(good(t3)) by {
        assert forall|k: Seq<(char, char)>| #[trigger] t3.cm.contains_key(k) implies t3.cm[k].raw < t3.n && !lhs_of(t3.ps, t3.cm[k]) by {
            assert(t2.cm.contains_key(k));
            if lhs_of(t3.ps, t3.cm[k]) {
                let p = choose|p: Prod| #[trigger] t3.ps.contains(p) && p.l == t3.cm[k];
                if t2.ps.contains(p) { assert(lhs_of(t2.ps, t2.cm[k])); } else { assert(term(t2.cm, p.l)); }
                assert(false);
            }
        }
    }
    assert(grows(t0, t3)) by {
        assert forall|x: Prod| #[trigger] t3.ps.contains(x) implies t0.ps.contains(x) || x.l.raw >= t0.n by { if t2.ps.contains(x) { assert(ta.ps.contains(x) || x.l.raw >= ta.n); } }
        assert forall|k: Seq<(char, char)>| #[trigger] t3.cm.contains_key(k) implies t0.cm.contains_key(k) || t3.cm[k].raw >= t0.n by { assert(t2.cm.contains_key(k)); }
        assert forall|x: Prod| #[trigger] t0.ps.contains(x) implies t3.ps.contains(x) by { assert(ta.ps.contains(x)); assert(t2.ps.contains(x)); }
        assert forall|k: Seq<(char, char)>| #[trigger] t0.cm.contains_key(k) implies t3.cm.contains_key(k) && t3.cm[k] == t0.cm[k] by { assert(ta.cm.contains_key(k)); }
    }
    assert forall|x: Prod| #[trigger] t3.ps.contains(x) && x.l.raw >= t0.n implies all_in(seg(t3, t0.n), x.r) by {
        if t2.ps.contains(x) {
            if x.l == lhs { assert(lhs_of(t2.ps, lhs)); assert(false); }
            lemma_seg_mono(t2, t3, t0.n + 1, t0.n, x.r);
        } else {
            assert forall|i: int| 0 <= i < x.r.len() implies (seg(t3, t0.n))(#[trigger] x.r[i]) by {
                assert(own_sym(c, x.r[i]));
                assert(x.r[i].raw < t3.n);
            }
        }
    }
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t3, cm, w) implies der(t3.ps, seq![lhs], w) == means(h, cm, w) by {
        assert(leaf(t2)(lhs) == false);
        assert forall|i: int| 0 <= i < w.len() implies (leaf(t2))(#[trigger] w[i]) by { assert((leaf(t3))(w[i])); }
        assert(asked_word(t2, cm, w));
        assert(!w.contains(lhs)) by { if w.contains(lhs) { let i = choose|i: int| 0 <= i < w.len() && w[i] == lhs; assert((leaf(t3))(w[i])); } }
        lemma_rep_lang(t0, t2, lhs, rhs, r, h, cm, w);
        let a = seq![lhs];
        assert(below(a, t2.n));
        assert(prods_below(q, t2.n)) by {
            assert forall|x: Prod| #[trigger] q.contains(x) implies x.l.raw < t2.n && below(x.r, t2.n) by {
                if !t2.ps.contains(x) { let k = choose|k: nat| #[trigger] in_range(c.top, k) && shape(c.top.rhs, c.top.separator, k, x.r); }
            }
        }
        if below(w, t2.n) {
            assert(der(t3.ps, a, w) <==> der(q, a, w));
        } else {
            if der(q, a, w) { lemma_below(q, t2.n, a, w); }
            if der(t3.ps, a, w) {
                lemma_below(t3.ps, t3.n, a, w);
                assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).raw < t2.n by { assert((leaf(t3))(w[i])); }
            }
        }
    }
}
/// The language of one production for every number of repetitions.
pub proof fn lemma_rep_lang(t0: St, t2: St, lhs: Symbol, rhs: Symbol, r: Repetition, h: Hir, cm: CM, w: Seq<Symbol>)
    requires before_rep(t0, t2, lhs, rhs, r), h.kind == HirKind::Repetition(r), asked_word(t2, cm, w), !w.contains(lhs),
    ensures der(seq_prods(ctx_at(t2, rep_seq(lhs, rhs, r.min, r.max))), seq![lhs], w) == means(h, cm, w),
{
    let c = ctx_at(t2, rep_seq(lhs, rhs, r.min, r.max));
    let q = seq_prods(c);
    lemma_before_rep(t0, t2, lhs, rhs, r);
    let tq = St { ps: q, n: t2.n, cm: t2.cm };
    assert(good(tq)) by {
        assert forall|x: Prod| #[trigger] q.contains(x) implies x.l.raw < t2.n && below(x.r, t2.n) by {
            if !t2.ps.contains(x) { let k = choose|k: nat| #[trigger] in_range(c.top, k) && shape(c.top.rhs, c.top.separator, k, x.r); }
        }
        assert forall|k: Seq<(char, char)>| #[trigger] tq.cm.contains_key(k) implies !lhs_of(q, tq.cm[k]) by {
            if lhs_of(q, tq.cm[k]) {
                let p = choose|p: Prod| #[trigger] q.contains(p) && p.l == tq.cm[k];
                if t2.ps.contains(p) { assert(lhs_of(t2.ps, t2.cm[k])); } else { assert(term(t2.cm, lhs)); }
                assert(false);
            }
        }
    }
    assert(w != seq![lhs]) by { if w == seq![lhs] { assert(w[0] == lhs); } }
    lemma_any(q, lhs, w);
    let f = fam_const(*r.sub, cm);
    assert forall|k: nat, u: Seq<Symbol>| #[trigger] shape(rhs, Null, k, u) implies der(q, u, w) == cat(f, k, w) by {
        lemma_der_cat(q, u, w);
        let g = of_syms(q, u);
        assert forall|i: int, v: Seq<Symbol>| 0 <= i < k && all_in(leaf(t2), v) implies (#[trigger] g(i, v) == f(i, v)) by {
            assert(u[i] == rhs);
            lemma_keep(t0.n + 1, t2, tq, seq![rhs], v);
            assert(asked_word(t2, cm, v));
        }
        lemma_cat_agree(g, f, k, leaf(t2), w);
    }
    if any_of(q, lhs, w) {
        let x = choose|x: Prod| #[trigger] q.contains(x) && x.l == lhs && der(q, x.r, w);
        if t2.ps.contains(x) { assert(lhs_of(t2.ps, lhs)); assert(false); }
        let k = choose|k: nat| #[trigger] in_range(c.top, k) && shape(c.top.rhs, c.top.separator, k, x.r);
        assert(times(r.min, r.max, k));
        assert(cat(f, k, w));
    }
    if means(h, cm, w) {
        let k = choose|k: nat| #[trigger] times(r.min, r.max, k) && cat(fam_const(*r.sub, cm), k, w);
        let u = Seq::new(k, |i: int| rhs);
        assert(in_range(c.top, k));
        assert(shape(rhs, Null, k, u));
        let x = Prod { l: lhs, r: u };
        assert(reps(c.top, u));
        assert(q.contains(x));
        assert(der(q, x.r, w));
    }
}
// ---- concatenations and alternations
pub open spec fn cat_sem(t: St, u: Seq<Symbol>, es: Vec<Hir>, n: nat) -> bool { forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) ==> der(t.ps, u, w) == cat(fam_of(es, cm), n, w) }
pub open spec fn partial(t0: St, t: St, es: Vec<Hir>, n: nat) -> bool {
    good(t0) && good(t) && grows(t0, t) && closed_in(t, t0.n) && n <= es@.len()
}
pub proof fn lemma_cat_step(t0: St, t1: St, t2: St, u: Seq<Symbol>, y: Seq<Symbol>, es: Vec<Hir>, n: nat)
    requires
        partial(t0, t1, es, n), n < es@.len(), cat_sem(t1, u, es, n), all_in(seg(t1, t0.n), u),
        good(t2), grows(t1, t2), closed_in(t2, t1.n), all_in(seg(t2, t1.n), y), sem1(t2, y, es@[n as int]),
    ensures partial(t0, t2, es, n + 1), cat_sem(t2, u + y, es, n + 1), all_in(seg(t2, t0.n), u + y),
{
    lemma_part_step(t0, t1, t2, es, n);
    lemma_seg_mono(t1, t2, t0.n, t0.n, u);
    lemma_seg_mono(t2, t2, t1.n, t0.n, y);
    assert forall|i: int| 0 <= i < (u + y).len() implies (seg(t2, t0.n))(#[trigger] (u + y)[i]) by { if i < u.len() { assert((u + y)[i] == u[i]); } else { assert((u + y)[i] == y[i - u.len()]); } }
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t2, cm, w) implies der(t2.ps, u + y, w) == cat(fam_of(es, cm), n + 1, w) by {
        let f = fam_of(es, cm);
        assert forall|k: int| 0 <= k <= w.len() implies #[trigger] cat(f, n, w.take(k)) == der(t2.ps, u, w.take(k)) && f(n as int, w.skip(k)) == der(t2.ps, y, w.skip(k)) by {
            lemma_in_parts(leaf(t2), w, k);
            lemma_leaf_mono(t1, t2, w.take(k));
            assert(asked_word(t1, cm, w.take(k)));
            assert(asked_word(t2, cm, w.skip(k)));
            lemma_keep(t0.n, t1, t2, u, w.take(k));
        }
        if der(t2.ps, u + y, w) {
            let m = choose|m: nat| dern(t2.ps, u + y, w, m);
            let k = lemma_split_n(t2.ps, u, y, w, m);
            assert(cat(f, n, w.take(k)));
            assert(cut(f, (n + 1) as int, w, k));
        }
        if cat(f, n + 1, w) {
            let k = choose|k: int| #[trigger] cut(f, (n + 1) as int, w, k) && cat(f, n, w.take(k));
            lemma_der_join(t2.ps, u, y, w.take(k), w.skip(k));
            assert(w.take(k) + w.skip(k) =~= w);
        }
    }
}
pub proof fn lemma_part_step(t0: St, t1: St, t2: St, es: Vec<Hir>, n: nat)
    requires partial(t0, t1, es, n), n < es@.len(), good(t2), grows(t1, t2), closed_in(t2, t1.n),
    ensures partial(t0, t2, es, n + 1),
{
    lemma_grows_trans(t0, t1, t2);
    assert forall|x: Prod| #[trigger] t2.ps.contains(x) && x.l.raw >= t0.n implies all_in(seg(t2, t0.n), x.r) by {
        if t1.ps.contains(x) { lemma_seg_mono(t1, t2, t0.n, t0.n, x.r); } else { lemma_seg_mono(t2, t2, t1.n, t0.n, x.r); }
    }
}
pub open spec fn alt_of(es: Vec<Hir>, cm: CM, n: nat, w: Seq<Symbol>) -> bool { exists|i: int| 0 <= i < n && means(#[trigger] es@[i], cm, w) }
pub open spec fn alt_sem(t: St, xs: Seq<Vec<Symbol>>, es: Vec<Hir>, n: nat) -> bool { forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) ==> alts(t.ps, xs, w) == alt_of(es, cm, n, w) }
pub proof fn lemma_alt_step(t0: St, t1: St, t2: St, xs: Seq<Vec<Symbol>>, ys: Seq<Vec<Symbol>>, es: Vec<Hir>, n: nat, size: nat)
    requires
        partial(t0, t1, es, n), n < es@.len(), alt_sem(t1, xs, es, n), all_seg(t1, t0.n, xs, size), walked(t1, t2, ys, es@[n as int]), hsize(es@[n as int]) <= size,
    ensures partial(t0, t2, es, n + 1), alt_sem(t2, xs + ys, es, n + 1), all_seg(t2, t0.n, xs + ys, size),
{
    lemma_part_step(t0, t1, t2, es, n);
    let zs = xs + ys;
    assert forall|i: int| 0 <= i < zs.len() implies all_in(seg(t2, t0.n), (#[trigger] zs[i])@) && zs[i]@.len() <= size by {
        if i < xs.len() { assert(zs[i] == xs[i]); lemma_seg_mono(t1, t2, t0.n, t0.n, xs[i]@); }
        else { assert(zs[i] == ys[i - xs.len()]); lemma_seg_mono(t2, t2, t1.n, t0.n, zs[i]@); }
    }
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t2, cm, w) implies alts(t2.ps, zs, w) == alt_of(es, cm, n + 1, w) by {
        lemma_leaf_mono(t1, t2, w);
        assert(asked_word(t1, cm, w));
        assert(alts(t1.ps, xs, w) == alt_of(es, cm, n, w));
        assert(alts(t2.ps, ys, w) == means(es@[n as int], cm, w));
        assert forall|j: int| 0 <= j < xs.len() implies der(t1.ps, (#[trigger] xs[j])@, w) == der(t2.ps, xs[j]@, w) by { lemma_keep(t0.n, t1, t2, xs[j]@, w); }
        if alts(t2.ps, zs, w) {
            let i = choose|i: int| 0 <= i < zs.len() && der(t2.ps, (#[trigger] zs[i])@, w);
            if i < xs.len() { assert(der(t1.ps, xs[i]@, w)); } else { assert(der(t2.ps, ys[i - xs.len()]@, w)); }
        }
        if alt_of(es, cm, n + 1, w) {
            let i = choose|i: int| 0 <= i < n + 1 && means(#[trigger] es@[i], cm, w);
            if i < n {
                assert(alt_of(es, cm, n, w));
                let j = choose|j: int| 0 <= j < xs.len() && der(t1.ps, (#[trigger] xs[j])@, w);
                assert(zs[j] == xs[j]);
            } else {
                let j = choose|j: int| 0 <= j < ys.len() && der(t2.ps, (#[trigger] ys[j])@, w);
                assert(zs[xs.len() + j] == ys[j]);
            }
        }
        if alt_of(es, cm, n, w) {
            let i = choose|i: int| 0 <= i < n && means(#[trigger] es@[i], cm, w);
            assert(alt_of(es, cm, n + 1, w));
        }
    }
}
