// G07: sequences rewritten into rules.
//@struct cfg-sequence/src/lib.rs Separator #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-sequence/src/lib.rs Sequence #[derive(Clone,Copy)]
//@struct cfg-sequence/src/rewrite.rs PartialSequence #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-sequence/src/rewrite.rs SequencesToProductions
//@ty HashMap<PartialSequence, Symbol> => VxMap
use crate::Separator::*;
// TRUSTED: std's HashMap with the derived Hash and Eq of its key, as a finite map.
#[verifier::external_body]
pub struct VxMap { x: u8 }
impl View for VxMap {
    type V = Map<PartialSequence, Symbol>;
    uninterp spec fn view(&self) -> Map<PartialSequence, Symbol>;
}
pub enum VxEntry { Vacant(PartialSequence), Occupied(Symbol) }
impl VxMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<PartialSequence, Symbol>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<PartialSequence, Symbol>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry(&self, k: PartialSequence) -> (r: VxEntry)
        ensures r == (if self@.contains_key(k) { VxEntry::Occupied(self@[k]) } else { VxEntry::Vacant(k) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: PartialSequence, v: Symbol)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
}
// TRUSTED: u32::ilog2, as far as it is used here.
#[verifier::external_body]
pub fn vx_ilog2(x: u32) -> (r: u32)
    requires x > 0,
    ensures r < 32, 1 <= (1u32 << r) <= x,
{ x.ilog2() }
// A range over u32 is a pair of bounds.
pub struct VxRange { pub start: ops::Bound<u32>, pub end: ops::Bound<u32> }
pub fn vx_incl(a: u32, b: u32) -> (r: VxRange)
    ensures r.start == ops::Bound::Included(a), r.end == ops::Bound::Included(b),
{ VxRange { start: ops::Bound::Included(a), end: ops::Bound::Included(b) } }
pub open spec fn bound_ok(b: ops::Bound<u32>, diff: int) -> bool { b matches ops::Bound::Excluded(x) ==> 0 <= x + diff <= u32::MAX }
pub open spec fn bound_at(b: ops::Bound<u32>, diff: int) -> Option<u32> {
    match b { ops::Bound::Included(x) => Some(x), ops::Bound::Excluded(x) => Some((x + diff) as u32), ops::Bound::Unbounded => None }
}
// ---- the strings of a sequence
pub open spec fn alt(x: Symbol, s: Symbol, len: int) -> Seq<Symbol> { Seq::new(len as nat, |i: int| if i % 2 == 0 { x } else { s }) }
pub open spec fn width(sep: Separator, k: nat) -> int {
    match sep { Null => k as int, Trailing(_) => 2 * (k as int), Proper(_) => if k == 0 { 0int } else { 2 * k - 1 }, Liberal(_) => 0 }
}
/// `k` items `x`, separated as `sep` says.
pub open spec fn shape(x: Symbol, sep: Separator, k: nat, w: Seq<Symbol>) -> bool {
    match sep {
        Null => w == Seq::new(k, |i: int| x),
        Proper(s) => w == alt(x, s, if k == 0 { 0 } else { 2 * k - 1 }),
        Trailing(s) => w == alt(x, s, 2 * (k as int)),
        Liberal(s) => w == alt(x, s, 2 * (k as int)) || w == alt(x, s, if k == 0 { 0 } else { 2 * k - 1 }),
    }
}
pub open spec fn in_range(p: PartialSequence, k: nat) -> bool { p.start <= k && (p.end matches Some(e) ==> k <= e) }
/// `w` is one of the repetitions that `p` stands for.
pub open spec fn reps(p: PartialSequence, w: Seq<Symbol>) -> bool { exists|k: nat| #[trigger] in_range(p, k) && shape(p.rhs, p.separator, k, w) }
pub open spec fn valid(p: PartialSequence) -> bool { p.end matches Some(e) ==> p.start <= e }
pub open spec fn part(s: Sequence) -> PartialSequence { PartialSequence { rhs: s.rhs, start: s.start, end: s.end, separator: s.separator } }
pub open spec fn prefix(s: Separator) -> Separator { match s { Proper(x) => Trailing(x), Liberal(x) => Trailing(x), o => o } }
pub proof fn lemma_cat(x: Symbol, sep: Separator, a: nat, b: nat, u: Seq<Symbol>, v: Seq<Symbol>)
    requires shape(x, prefix(sep), a, u), shape(x, sep, b, v), b >= 1, !(sep is Liberal),
    ensures shape(x, sep, a + b, u + v),
{
    match sep {
        Null => { assert(u + v =~= Seq::new(a + b, |i: int| x)); }
        Proper(s) => { assert(u + v =~= alt(x, s, 2 * (a + b) - 1)); }
        Trailing(s) => { assert(u + v =~= alt(x, s, 2 * (a + b) as int)); }
        _ => {}
    }
}
pub proof fn lemma_uncat(x: Symbol, sep: Separator, a: nat, b: nat, w: Seq<Symbol>)
    requires shape(x, sep, a + b, w), b >= 1, !(sep is Liberal),
    ensures
        0 <= width(prefix(sep), a) <= w.len(),
        shape(x, prefix(sep), a, w.take(width(prefix(sep), a))),
        shape(x, sep, b, w.skip(width(prefix(sep), a))),
        w.take(width(prefix(sep), a)) + w.skip(width(prefix(sep), a)) == w,
{
    let n = width(prefix(sep), a);
    assert(w.take(n) + w.skip(n) =~= w);
    match sep {
        Null => { assert(w.take(n) =~= Seq::new(a, |i: int| x)); assert(w.skip(n) =~= Seq::new(b, |i: int| x)); }
        Proper(s) => { assert(w.take(n) =~= alt(x, s, 2 * (a as int))); assert(w.skip(n) =~= alt(x, s, 2 * b - 1)); }
        Trailing(s) => { assert(w.take(n) =~= alt(x, s, 2 * (a as int))); assert(w.skip(n) =~= alt(x, s, 2 * (b as int))); }
        _ => {}
    }
}
pub proof fn lemma_one(x: Symbol, sep: Separator, w: Seq<Symbol>)
    requires sep is Null || sep is Proper,
    ensures shape(x, sep, 1, w) <==> w == seq![x],
{
    match sep {
        Null => { assert(seq![x] =~= Seq::new(1, |i: int| x)); }
        Proper(s) => { assert(seq![x] =~= alt(x, s, 1)); }
        _ => {}
    }
}
pub proof fn lemma_trailing(x: Symbol, s: Symbol, k: nat, w: Seq<Symbol>)
    requires k >= 1,
    ensures
        shape(x, Proper(s), k, w) ==> shape(x, Trailing(s), k, w + seq![s]),
        shape(x, Trailing(s), k, w) ==> w.len() > 0 && shape(x, Proper(s), k, w.drop_last()) && w == w.drop_last() + seq![s],
{
    if shape(x, Proper(s), k, w) { assert(w + seq![s] =~= alt(x, s, 2 * (k as int))); }
    if shape(x, Trailing(s), k, w) {
        assert(w.drop_last() =~= alt(x, s, 2 * k - 1));
        assert(w =~= w.drop_last() + seq![s]);
    }
}
// ---- the order in which sequences are taken apart
pub open spec fn rank(p: PartialSequence) -> nat {
    (match p.separator { Liberal(_) => 8nat, Trailing(_) => 4nat, _ => 0nat })
        + (if p.start == 0 { 2nat } else if p.start == 1 && p.end == Some(2u32) { 1nat } else { 0nat })
}
pub open spec fn meas(p: PartialSequence) -> nat {
    (match p.end { Some(e) => 16 * e as nat, None => 0x100_0000_0000nat + 16 * (if p.start <= 1 { 1nat } else { p.start as nat }) }) + rank(p)
}
pub open spec fn p4(m: nat) -> nat
    decreases m,
{
    if m == 0 { 1 } else { 4 * p4((m - 1) as nat) }
}
pub proof fn lemma_p4(a: nat, b: nat)
    requires a < b,
    ensures 4 * p4(a) <= p4(b), p4(a) > 0,
    decreases b,
{
    if a + 1 < b { lemma_p4(a, (b - 1) as nat); } else { lemma_p4_pos(a); }
}
pub proof fn lemma_p4_pos(a: nat)
    ensures p4(a) > 0,
    decreases a,
{
    if a > 0 { lemma_p4_pos((a - 1) as nat); }
}
pub open spec fn wsum(s: Seq<Sequence>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { wsum(s.drop_last()) + p4(meas(part(s.last()))) }
}
// ---- the state of a rewrite
/// What a rewrite starts from: the rules, the number of symbols, the sequence, its left-hand side,
/// and whether that left-hand side becomes left recursive.
pub ghost struct Ctx { pub p0: ISet<Prod>, pub n0: int, pub lhs: Symbol, pub top: PartialSequence, pub rec: bool }
pub open spec fn is_rec(p: PartialSequence) -> bool { p.start == 1 && p.end is None && (p.separator is Null || p.separator is Proper) }
pub open spec fn sep_sym(s: Separator) -> Option<Symbol> { match s { Null => None, Proper(x) => Some(x), Trailing(x) => Some(x), Liberal(x) => Some(x) } }
pub open spec fn ctx_ok(c: Ctx) -> bool {
    &&& prods_below(c.p0, c.n0)
    &&& c.lhs.raw < c.n0 && c.top.rhs.raw < c.n0
    &&& (sep_sym(c.top.separator) matches Some(s) ==> s.raw < c.n0)
    &&& c.rec == is_rec(c.top)
    &&& c.rec ==> c.lhs != c.top.rhs && sep_sym(c.top.separator) != Some(c.lhs)
    &&& c.rec ==> forall|x: Prod| #[trigger] c.p0.contains(x) ==> x.l != c.lhs
    &&& valid(c.top)
}
pub open spec fn like_top(c: Ctx, p: PartialSequence) -> bool {
    p.rhs == c.top.rhs && sep_sym(p.separator) == sep_sym(c.top.separator) && valid(p)
}
pub type PMap = Map<PartialSequence, Symbol>;
pub open spec fn owner(c: Ctx, m: PMap, l: Symbol, p: PartialSequence) -> bool {
    (l == c.lhs && p == c.top) || (m.contains_key(p) && m[p] == l)
}
pub open spec fn is_kid(m: PMap, x: Symbol, v: Seq<Symbol>, p: PartialSequence) -> bool { m.contains_key(p) && m[p] == x && reps(p, v) }
/// The strings that a symbol stands for.
pub open spec fn interp(c: Ctx, m: PMap) -> Sub {
    |x: Symbol, v: Seq<Symbol>|
        if c.rec && x == c.lhs { reps(c.top, v) }
        else if x.raw < c.n0 { v == seq![x] }
        else { exists|p: PartialSequence| is_kid(m, x, v, p) }
}
/// The symbols of the sequence, and new ones.
pub open spec fn own_sym(c: Ctx, s: Symbol) -> bool { s == c.lhs || s == c.top.rhs || sep_sym(c.top.separator) == Some(s) || s.raw >= c.n0 }
pub open spec fn own_syms(c: Ctx, u: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < u.len() ==> own_sym(c, #[trigger] u[i]) }
/// A rule of `l` gives nothing but repetitions.
pub open spec fn rule_sound(c: Ctx, m: PMap, x: Prod) -> bool {
    own_syms(c, x.r) && exists|p: PartialSequence| #[trigger] owner(c, m, x.l, p) && forall|w: Seq<Symbol>| #[trigger] star(interp(c, m), x.r, w) ==> reps(p, w)
}
pub open spec fn all_sound(c: Ctx, m: PMap, ps: ISet<Prod>) -> bool {
    forall|x: Prod| #[trigger] ps.contains(x) ==> c.p0.contains(x) || rule_sound(c, m, x)
}
/// Parts that are smaller, in the order of taking apart, than the string `w` of `p`.
pub open spec fn smaller(c: Ctx, m: PMap, l: Symbol, p: PartialSequence, len: nat) -> Sub {
    |x: Symbol, v: Seq<Symbol>|
        (x.raw < c.n0 && v == seq![x])
            || (exists|q: PartialSequence| is_kid(m, x, v, q) && meas(q) < meas(p))
            || (x == l && reps(p, v) && v.len() < len)
}
pub open spec fn cover_by(c: Ctx, ps: ISet<Prod>, m: PMap, l: Symbol, p: PartialSequence, w: Seq<Symbol>, u: Seq<Symbol>) -> bool {
    ps.contains(Prod { l: l, r: u }) && star(smaller(c, m, l, p, w.len()), u, w)
}
/// Every repetition of `p` comes from a rule of `l` and smaller parts.
pub open spec fn covered(c: Ctx, ps: ISet<Prod>, m: PMap, l: Symbol, p: PartialSequence) -> bool {
    forall|w: Seq<Symbol>| #[trigger] reps(p, w) ==> exists|u: Seq<Symbol>| cover_by(c, ps, m, l, p, w, u)
}
pub open spec fn sub_map(m: PMap, n: PMap) -> bool { forall|p: PartialSequence| #[trigger] m.contains_key(p) ==> n.contains_key(p) && n[p] == m[p] }
pub open spec fn on_stack(st: Seq<Sequence>, p: PartialSequence) -> bool { exists|i: int| 0 <= i < st.len() && part(#[trigger] st[i]) == p }
pub open spec fn map_ok(c: Ctx, m: PMap, n: int) -> bool {
    &&& forall|p: PartialSequence| #[trigger] m.contains_key(p) ==> c.n0 <= m[p].raw < n && like_top(c, p)
    &&& forall|p: PartialSequence, q: PartialSequence| #[trigger] m.contains_key(p) && #[trigger] m.contains_key(q) && m[p] == m[q] ==> p == q
}
/// The rules there were are still there, first and in order.
pub open spec fn keeps(a: Seq<CfgRule>, b: Seq<CfgRule>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub proof fn lemma_keeps(a: Seq<CfgRule>, b: Seq<CfgRule>)
    requires b.take(a.len() as int) == a, a.len() <= b.len(),
    ensures keeps(a, b),
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == a[i] by { assert(b.take(a.len() as int)[i] == b[i]); }
}
/// Rules are added for the left-hand side of the sequence and new symbols.
pub open spec fn new_lhs(c: Ctx, a: Seq<CfgRule>, b: Seq<CfgRule>) -> bool { forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).lhs == c.lhs || b[i].lhs.raw >= c.n0 }
impl<'a> SequencesToProductions<'a> {
    pub open spec fn ps(self) -> ISet<Prod> { prods(self.destination.rules@) }
    pub open spec fn ok(self, c: Ctx) -> bool {
        &&& ctx_ok(c)
        &&& self.destination.limit() >= 3 && !self.destination.eliminate_nulling
        &&& c.n0 <= self.destination.n()
        &&& prods_below(self.ps(), self.destination.n())
        &&& forall|x: Prod| #[trigger] c.p0.contains(x) ==> self.ps().contains(x)
        &&& map_ok(c, self.map@, self.destination.n())
        &&& all_sound(c, self.map@, self.ps())
        &&& self.top is Some
        &&& forall|i: int| 0 <= i < self.stack@.len() ==> self.map@.contains_key(part(#[trigger] self.stack@[i])) && self.map@[part(self.stack@[i])] == self.stack@[i].lhs
    }
    pub open spec fn same_dest(self, o: Self, c: Ctx) -> bool {
        self.destination.same_rest(*o.destination) && keeps(o.destination.rules@, self.destination.rules@)
            && new_lhs(c, o.destination.rules@, self.destination.rules@)
    }
}
// ---- growth of rules and map
pub proof fn lemma_covered_mono(c: Ctx, ps: ISet<Prod>, qs: ISet<Prod>, m: PMap, n: PMap, l: Symbol, p: PartialSequence)
    requires covered(c, ps, m, l, p), sub_map(m, n), forall|x: Prod| #[trigger] ps.contains(x) ==> qs.contains(x),
    ensures covered(c, qs, n, l, p),
{
    assert forall|w: Seq<Symbol>| #[trigger] reps(p, w) implies exists|u: Seq<Symbol>| cover_by(c, qs, n, l, p, w, u) by {
        let u = choose|u: Seq<Symbol>| cover_by(c, ps, m, l, p, w, u);
        let e = smaller(c, m, l, p, w.len());
        let f = smaller(c, n, l, p, w.len());
        assert forall|i: int, v: Seq<Symbol>| 0 <= i < u.len() && v.len() <= w.len() && #[trigger] e(u[i], v) implies f(u[i], v) by {
            if exists|q: PartialSequence| is_kid(m, u[i], v, q) && meas(q) < meas(p) {
                let q = choose|q: PartialSequence| is_kid(m, u[i], v, q) && meas(q) < meas(p);
                assert(is_kid(n, u[i], v, q));
            }
        }
        lemma_star_mono(e, f, u, w);
        assert(cover_by(c, qs, n, l, p, w, u));
    }
}
pub proof fn lemma_sound_mono(c: Ctx, ps: ISet<Prod>, m: PMap, n: PMap, k: int)
    requires
        ctx_ok(c), all_sound(c, m, ps), sub_map(m, n), prods_below(ps, k), c.n0 <= k,
        forall|p: PartialSequence| #[trigger] n.contains_key(p) ==> m.contains_key(p) || n[p].raw >= k,
    ensures all_sound(c, n, ps),
{
    assert forall|x: Prod| #[trigger] ps.contains(x) implies c.p0.contains(x) || rule_sound(c, n, x) by {
        if !c.p0.contains(x) {
            let p = choose|p: PartialSequence| #[trigger] owner(c, m, x.l, p) && forall|w: Seq<Symbol>| #[trigger] star(interp(c, m), x.r, w) ==> reps(p, w);
            assert(owner(c, n, x.l, p));
            assert forall|w: Seq<Symbol>| #[trigger] star(interp(c, n), x.r, w) implies reps(p, w) by {
                let e = interp(c, n);
                let f = interp(c, m);
                assert forall|i: int, v: Seq<Symbol>| 0 <= i < x.r.len() && v.len() <= w.len() && #[trigger] e(x.r[i], v) implies f(x.r[i], v) by {
                    if !(c.rec && x.r[i] == c.lhs) && x.r[i].raw >= c.n0 {
                        let q = choose|q: PartialSequence| is_kid(n, x.r[i], v, q);
                        assert(m.contains_key(q));
                        assert(is_kid(m, x.r[i], v, q));
                    }
                }
                lemma_star_mono(e, f, x.r, w);
            }
        }
    }
}
pub proof fn lemma_wsum_push(s: Seq<Sequence>, x: Sequence)
    ensures wsum(s.push(x)) == wsum(s) + p4(meas(part(x))),
{
    assert(s.push(x).drop_last() =~= s);
}

// ---- rules that give nothing but repetitions
pub open spec fn incl(q: PartialSequence, p: PartialSequence) -> bool {
    &&& q.rhs == p.rhs && q.start >= p.start
    &&& p.end matches Some(e) ==> (q.end matches Some(f) && f <= e)
    &&& q.separator == p.separator || (p.separator matches Liberal(s) && (q.separator == Proper(s) || q.separator == Trailing(s)))
}
pub open spec fn kid(m: PMap, x: Symbol, q: PartialSequence) -> bool { m.contains_key(q) && m[q] == x }
pub open spec fn end_sum(p: PartialSequence, a: PartialSequence, b: PartialSequence) -> bool {
    p.end matches Some(e) ==> (a.end matches Some(f) && b.end matches Some(g) && f + g <= e)
}
pub open spec fn two_parts(p: PartialSequence, a: PartialSequence, b: PartialSequence) -> bool {
    a.rhs == p.rhs && b.rhs == p.rhs && a.separator == prefix(p.separator) && b.separator == p.separator && !(p.separator is Liberal)
        && b.start >= 1 && a.start + b.start >= p.start && end_sum(p, a, b)
}
/// `l` stands for the repetitions of `p`, which have no upper bound.
pub open spec fn recursive(c: Ctx, m: PMap, l: Symbol, p: PartialSequence) -> bool {
    p.end is None && p.start >= 1 && (kid(m, l, p) || (c.rec && l == c.lhs && p == c.top))
}
pub open spec fn just(c: Ctx, m: PMap, l: Symbol, p: PartialSequence, u: Seq<Symbol>) -> bool {
    if u.len() == 0 { p.start == 0 }
    else if u.len() == 1 {
        (u[0] == p.rhs && in_range(p, 1) && (p.separator is Null || p.separator is Proper)) || exists|q: PartialSequence| #[trigger] kid(m, u[0], q) && incl(q, p)
    } else if u.len() == 2 {
        ||| p.separator is Null && u[0] == p.rhs && u[1] == p.rhs && in_range(p, 2)
        ||| p.separator is Null && u[0] == l && u[1] == p.rhs && recursive(c, m, l, p)
        ||| p.separator == Trailing(u[1]) && exists|q: PartialSequence| #[trigger] kid(m, u[0], q) && q.start >= 1 && q.separator == Proper(u[1]) && incl(q, PartialSequence { separator: Proper(u[1]), ..p })
        ||| exists|a: PartialSequence, b: PartialSequence| #[trigger] kid(m, u[0], a) && #[trigger] kid(m, u[1], b) && two_parts(p, a, b)
    } else {
        u.len() == 3 && p.separator == Proper(u[1]) && u[2] == p.rhs && ((u[0] == p.rhs && in_range(p, 2)) || (u[0] == l && recursive(c, m, l, p)))
    }
}
pub proof fn lemma_interp_kid(c: Ctx, m: PMap, n: int, x: Symbol, q: PartialSequence, v: Seq<Symbol>)
    requires ctx_ok(c), map_ok(c, m, n), kid(m, x, q),
    ensures interp(c, m)(x, v) <==> reps(q, v),
{
    if interp(c, m)(x, v) {
        let r = choose|r: PartialSequence| is_kid(m, x, v, r);
        assert(m.contains_key(r) && m.contains_key(q));
    }
    if reps(q, v) { assert(is_kid(m, x, v, q)); }
}
pub proof fn lemma_reps_incl(q: PartialSequence, p: PartialSequence, w: Seq<Symbol>)
    requires reps(q, w), incl(q, p),
    ensures reps(p, w),
{
    let k = choose|k: nat| #[trigger] in_range(q, k) && shape(q.rhs, q.separator, k, w);
    assert(in_range(p, k));
}
pub proof fn lemma_rule(c: Ctx, m: PMap, n: int, l: Symbol, p: PartialSequence, u: Seq<Symbol>)
    requires ctx_ok(c), map_ok(c, m, n), owner(c, m, l, p), like_top(c, p), just(c, m, l, p, u),
    ensures rule_sound(c, m, Prod { l: l, r: u }),
{
    let e = interp(c, m);
    let x = p.rhs;
    assert forall|w: Seq<Symbol>| #[trigger] star(e, u, w) implies reps(p, w) by {
        if u.len() == 0 {
            assert(in_range(p, 0));
            match p.separator { Null => { assert(w =~= Seq::new(0, |i: int| x)); } Proper(s) => { assert(w =~= alt(x, s, 0)); } Trailing(s) => { assert(w =~= alt(x, s, 0)); } Liberal(s) => { assert(w =~= alt(x, s, 0)); } }
        } else if u.len() == 1 {
            assert(u =~= seq![u[0]]);
            lemma_star1(e, u[0], w);
            if u[0] == p.rhs && in_range(p, 1) && (p.separator is Null || p.separator is Proper) {
                lemma_one(x, p.separator, w);
            } else {
                let q = choose|q: PartialSequence| #[trigger] kid(m, u[0], q) && incl(q, p);
                lemma_interp_kid(c, m, n, u[0], q, w);
                lemma_reps_incl(q, p, w);
            }
        } else if u.len() == 2 {
            assert(u =~= seq![u[0], u[1]]);
            let k = lemma_unstar2(e, u[0], u[1], w);
            let w1 = w.take(k); let w2 = w.skip(k);
            assert(w == w1 + w2);
            if p.separator is Null && u[0] == x && u[1] == x && in_range(p, 2) {
                assert(w =~= Seq::new(2, |i: int| x));
            } else if p.separator is Null && u[0] == l && u[1] == x && recursive(c, m, l, p) {
                if kid(m, l, p) { lemma_interp_kid(c, m, n, l, p, w1); }
                let j = choose|j: nat| #[trigger] in_range(p, j) && shape(x, p.separator, j, w1);
                assert(w =~= Seq::new(j + 1, |i: int| x));
                assert(in_range(p, j + 1));
            } else if p.separator == Trailing(u[1]) && exists|q: PartialSequence| #[trigger] kid(m, u[0], q) && q.start >= 1 && q.separator == Proper(u[1]) && incl(q, PartialSequence { separator: Proper(u[1]), ..p }) {
                let q = choose|q: PartialSequence| #[trigger] kid(m, u[0], q) && q.start >= 1 && q.separator == Proper(u[1]) && incl(q, PartialSequence { separator: Proper(u[1]), ..p });
                lemma_interp_kid(c, m, n, u[0], q, w1);
                let j = choose|j: nat| #[trigger] in_range(q, j) && shape(q.rhs, q.separator, j, w1);
                lemma_trailing(x, u[1], j, w1);
                assert(in_range(p, j));
            } else {
                let (a, b) = choose|a: PartialSequence, b: PartialSequence| #[trigger] kid(m, u[0], a) && #[trigger] kid(m, u[1], b) && two_parts(p, a, b);
                lemma_interp_kid(c, m, n, u[0], a, w1);
                lemma_interp_kid(c, m, n, u[1], b, w2);
                let i = choose|i: nat| #[trigger] in_range(a, i) && shape(a.rhs, a.separator, i, w1);
                let j = choose|j: nat| #[trigger] in_range(b, j) && shape(b.rhs, b.separator, j, w2);
                lemma_cat(x, p.separator, i, j, w1, w2);
                assert(in_range(p, i + j));
            }
        } else {
            let s = u[1];
            assert(u =~= seq![u[0], u[1], u[2]]);
            let (i, j) = lemma_unstar3(e, u[0], u[1], u[2], w);
            let w1 = w.take(i); let w2 = w.subrange(i, j); let w3 = w.skip(j);
            assert(w =~= w1 + w2 + w3);
            assert(w2 == seq![s] && w3 == seq![x]);
            if u[0] == x && in_range(p, 2) {
                assert(w =~= alt(x, s, 3));
            } else {
                if kid(m, l, p) { lemma_interp_kid(c, m, n, l, p, w1); }
                let k = choose|k: nat| #[trigger] in_range(p, k) && shape(x, p.separator, k, w1);
                if k > 0 {
                    assert(w =~= alt(x, s, 2 * (k + 1) as int - 1));
                    assert(in_range(p, k + 1));
                }
            }
        }
    }
    assert(owner(c, m, (Prod { l: l, r: u }).l, p));
    assert forall|i: int| 0 <= i < u.len() implies own_sym(c, #[trigger] u[i]) by {
        if exists|q: PartialSequence| kid(m, u[i], q) { let q = choose|q: PartialSequence| kid(m, u[i], q); assert(m.contains_key(q)); }
    }
}
// ---- rules that give all repetitions
pub open spec fn has(ps: ISet<Prod>, l: Symbol, u: Seq<Symbol>) -> bool { ps.contains(Prod { l: l, r: u }) }
pub open spec fn ranged(p: PartialSequence, a: u32, b: Option<u32>) -> PartialSequence { PartialSequence { start: a, end: b, ..p } }
pub open spec fn with_sep(p: PartialSequence, s: Separator) -> PartialSequence { PartialSequence { separator: s, ..p } }
/// Counts from `a` on split into exactly `a` and the rest.
pub open spec fn block_span(ps: ISet<Prod>, m: PMap, l: Symbol, p: PartialSequence, q1: PartialSequence, q2: PartialSequence, a: nat) -> bool {
    &&& m.contains_key(q1) && m.contains_key(q2) && has(ps, l, seq![m[q1], m[q2]])
    &&& q1.rhs == p.rhs && q2.rhs == p.rhs && q1.separator == prefix(p.separator) && q2.separator == p.separator
    &&& q1.start == a && q1.end == Some(a as u32) && meas(q1) < meas(p) && meas(q2) < meas(p)
}
pub open spec fn decomposed(c: Ctx, ps: ISet<Prod>, m: PMap, l: Symbol, p: PartialSequence) -> bool {
    let x = p.rhs;
    match p.separator {
        Liberal(s) => {
            let (qp, qt) = (with_sep(p, Proper(s)), with_sep(p, Trailing(s)));
            m.contains_key(qp) && m.contains_key(qt) && has(ps, l, seq![m[qp]]) && has(ps, l, seq![m[qt]])
        }
        _ => {
            if p.start == 0 && p.end == Some(0u32) { has(ps, l, seq![]) }
            else if p.start == 0 { let q = ranged(p, 1, p.end); has(ps, l, seq![]) && m.contains_key(q) && has(ps, l, seq![m[q]]) }
            else if p.separator is Trailing { let q = with_sep(p, Proper(p.separator->Trailing_0)); m.contains_key(q) && has(ps, l, seq![m[q], p.separator->Trailing_0]) }
            else if p.start == 1 && p.end is None {
                has(ps, l, seq![x]) && (p.separator matches Proper(s) ==> has(ps, l, seq![l, s, x])) && (p.separator is Null ==> has(ps, l, seq![l, x]))
            }
            else if p.start == 1 && p.end == Some(1u32) { has(ps, l, seq![x]) }
            else if p.start == 1 && p.end == Some(2u32) {
                let (a, b) = (ranged(p, 1, Some(1u32)), ranged(p, 2, Some(2u32)));
                m.contains_key(a) && m.contains_key(b) && has(ps, l, seq![m[a]]) && has(ps, l, seq![m[b]])
            }
            else if p.start == 1 {
                exists|q0: PartialSequence, q1: PartialSequence, q2: PartialSequence| {
                    &&& #[trigger] m.contains_key(q0) && has(ps, l, seq![m[q0]]) && q0 == ranged(p, 1, q0.end) && q0.end is Some && meas(q0) < meas(p)
                    &&& #[trigger] m.contains_key(q1) && #[trigger] m.contains_key(q2) && block_span(ps, m, l, p, q1, q2, q0.end->0 as nat)
                    &&& q2.start == 1 && q2.end == Some((p.end->0 - q0.end->0) as u32) && q0.end->0 < p.end->0
                }
            }
            else if p.start == 2 && p.end == Some(2u32) { if p.separator is Proper { has(ps, l, seq![x, p.separator->Proper_0, x]) } else { has(ps, l, seq![x, x]) } }
            else {
                exists|q1: PartialSequence, q2: PartialSequence|
                    #[trigger] m.contains_key(q1) && #[trigger] m.contains_key(q2) && 1 <= q1.start < p.start && block_span(ps, m, l, p, q1, q2, q1.start as nat)
                    && q2.start == p.start - q1.start && q2.start >= 1 && q2.end == (match p.end { Some(e) => Some((e - q1.start) as u32), None => None })
            }
        }
    }
}
pub proof fn lemma_cov_kid(c: Ctx, ps: ISet<Prod>, m: PMap, l: Symbol, p: PartialSequence, w: Seq<Symbol>, q: PartialSequence)
    requires m.contains_key(q), meas(q) < meas(p), reps(q, w), has(ps, l, seq![m[q]]),
    ensures cover_by(c, ps, m, l, p, w, seq![m[q]]),
{
    let e = smaller(c, m, l, p, w.len());
    assert(is_kid(m, m[q], w, q));
    assert(e(m[q], w));
    lemma_star1(e, m[q], w);
}
pub proof fn lemma_cov_two(c: Ctx, ps: ISet<Prod>, m: PMap, l: Symbol, p: PartialSequence, w: Seq<Symbol>, a: nat, k: nat, q1: PartialSequence, q2: PartialSequence)
    requires
        block_span(ps, m, l, p, q1, q2, a), shape(p.rhs, p.separator, k, w), !(p.separator is Liberal), a < k, in_range(q2, (k - a) as nat), a <= u32::MAX,
    ensures cover_by(c, ps, m, l, p, w, seq![m[q1], m[q2]]),
{
    lemma_uncat(p.rhs, p.separator, a, (k - a) as nat, w);
    let n = width(prefix(p.separator), a);
    let e = smaller(c, m, l, p, w.len());
    assert(in_range(q1, a));
    assert(reps(q1, w.take(n)));
    assert(reps(q2, w.skip(n)));
    assert(is_kid(m, m[q1], w.take(n), q1));
    assert(is_kid(m, m[q2], w.skip(n), q2));
    assert(e(m[q1], w.take(n)) && e(m[q2], w.skip(n)));
    lemma_star2(e, m[q1], m[q2], w.take(n), w.skip(n));
}
pub proof fn lemma_covered(c: Ctx, ps: ISet<Prod>, m: PMap, l: Symbol, p: PartialSequence)
    requires ctx_ok(c), like_top(c, p), decomposed(c, ps, m, l, p),
    ensures covered(c, ps, m, l, p),
{
    let x = p.rhs;
    assert forall|w: Seq<Symbol>| #[trigger] reps(p, w) implies exists|u: Seq<Symbol>| cover_by(c, ps, m, l, p, w, u) by {
        let k = choose|k: nat| #[trigger] in_range(p, k) && shape(x, p.separator, k, w);
        let e = smaller(c, m, l, p, w.len());
        let emp = Seq::<Symbol>::empty();
        assert(star(e, emp, emp));
        match p.separator {
            Liberal(s) => {
                let (qp, qt) = (with_sep(p, Proper(s)), with_sep(p, Trailing(s)));
                assert(in_range(qp, k) && in_range(qt, k));
                if shape(x, Proper(s), k, w) { lemma_cov_kid(c, ps, m, l, p, w, qp); } else { lemma_cov_kid(c, ps, m, l, p, w, qt); }
            }
            _ => {
                if p.start == 0 && k == 0 {
                    assert(w =~= emp);
                    assert(seq![] =~= emp);
                    assert(cover_by(c, ps, m, l, p, w, emp));
                } else if p.start == 0 {
                    let q = ranged(p, 1, p.end);
                    assert(in_range(q, k));
                    lemma_cov_kid(c, ps, m, l, p, w, q);
                } else if p.separator is Trailing {
                    let s = p.separator->Trailing_0;
                    let q = with_sep(p, Proper(s));
                    lemma_trailing(x, s, k, w);
                    assert(in_range(q, k));
                    assert(reps(q, w.drop_last()));
                    assert(is_kid(m, m[q], w.drop_last(), q));
                    assert(e(m[q], w.drop_last()) && e(s, seq![s]));
                    lemma_star2(e, m[q], s, w.drop_last(), seq![s]);
                    assert(cover_by(c, ps, m, l, p, w, seq![m[q], s]));
                } else if k == 1 && has(ps, l, seq![x]) {
                    lemma_one(x, p.separator, w);
                    assert(e(x, seq![x]));
                    lemma_star1(e, x, w);
                    assert(cover_by(c, ps, m, l, p, w, seq![x]));
                } else if p.start == 1 && p.end is None {
                    assert(in_range(p, (k - 1) as nat));
                    if p.separator is Proper {
                        let s = p.separator->Proper_0;
                        let v = alt(x, s, 2 * k - 3);
                        assert(shape(x, p.separator, (k - 1) as nat, v));
                        assert(w =~= v + seq![s] + seq![x]);
                        assert(e(l, v) && e(s, seq![s]) && e(x, seq![x]));
                        lemma_star3(e, l, s, x, v, seq![s], seq![x]);
                        assert(cover_by(c, ps, m, l, p, w, seq![l, s, x]));
                    } else {
                        let v = Seq::new((k - 1) as nat, |i: int| x);
                        assert(shape(x, p.separator, (k - 1) as nat, v));
                        assert(w =~= v + seq![x]);
                        assert(e(l, v) && e(x, seq![x]));
                        lemma_star2(e, l, x, v, seq![x]);
                        assert(cover_by(c, ps, m, l, p, w, seq![l, x]));
                    }
                } else if p.start == 1 && p.end == Some(2u32) {
                    let (a, b) = (ranged(p, 1, Some(1u32)), ranged(p, 2, Some(2u32)));
                    if k == 1 { assert(in_range(a, k)); lemma_cov_kid(c, ps, m, l, p, w, a); } else { assert(in_range(b, k)); lemma_cov_kid(c, ps, m, l, p, w, b); }
                } else if p.start == 1 {
                    let (q0, q1, q2) = choose|q0: PartialSequence, q1: PartialSequence, q2: PartialSequence| {
                        &&& #[trigger] m.contains_key(q0) && has(ps, l, seq![m[q0]]) && q0 == ranged(p, 1, q0.end) && q0.end is Some && meas(q0) < meas(p)
                        &&& #[trigger] m.contains_key(q1) && #[trigger] m.contains_key(q2) && block_span(ps, m, l, p, q1, q2, q0.end->0 as nat)
                        &&& q2.start == 1 && q2.end == Some((p.end->0 - q0.end->0) as u32) && q0.end->0 < p.end->0
                    };
                    if k <= q0.end->0 { assert(in_range(q0, k)); lemma_cov_kid(c, ps, m, l, p, w, q0); }
                    else { lemma_cov_two(c, ps, m, l, p, w, q0.end->0 as nat, k, q1, q2); }
                } else if p.start == 2 && p.end == Some(2u32) {
                    assert(e(x, seq![x]));
                    if p.separator is Proper {
                        let s = p.separator->Proper_0;
                        assert(e(s, seq![s]));
                        assert(w =~= seq![x] + seq![s] + seq![x]);
                        lemma_star3(e, x, s, x, seq![x], seq![s], seq![x]);
                        assert(cover_by(c, ps, m, l, p, w, seq![x, s, x]));
                    } else {
                        assert(w =~= seq![x] + seq![x]);
                        lemma_star2(e, x, x, seq![x], seq![x]);
                        assert(cover_by(c, ps, m, l, p, w, seq![x, x]));
                    }
                } else {
                    let (q1, q2) = choose|q1: PartialSequence, q2: PartialSequence|
                        #[trigger] m.contains_key(q1) && #[trigger] m.contains_key(q2) && 1 <= q1.start < p.start && block_span(ps, m, l, p, q1, q2, q1.start as nat)
                        && q2.start == p.start - q1.start && q2.start >= 1 && q2.end == (match p.end { Some(e) => Some((e - q1.start) as u32), None => None });
                    lemma_cov_two(c, ps, m, l, p, w, q1.start as nat, k, q1, q2);
                }
            }
        }
    }
}
//@fn cfg-sequence/src/lib.rs Sequence::inclusive
    ensures ret == (Sequence { start: start, end: end, ..self }),
//@end
//@fn cfg-sequence/src/lib.rs Sequence::separator
    ensures ret == (Sequence { separator: sep, ..self }),
//@end
//@fn cfg-sequence/src/lib.rs Sequence::range
//@sig impl RangeBounds<u32> => VxRange
//@rewrite let to_option = |bound: Bound<u32>, diff| match bound { $$b }; => let to_option = |bound: ops::Bound<u32>, diff: i64| -> (r: Option<u32>) requires -1 <= diff <= 1, bound_ok(bound, diff as int) ensures r == bound_at(bound, diff as int) { match bound { $$b } };
//@rewrite_opt Bound::$v($x) ==>> ops::Bound::$v($x)
//@rewrite_opt Bound::Unbounded ==>> ops::Bound::Unbounded
//@rewrite_opt range.start_bound().cloned() => range.start
//@rewrite_opt range.end_bound().cloned() => range.end
    requires bound_ok(range.start, 1), bound_ok(range.end, -1),
    ensures ret == (Sequence { start: match bound_at(range.start, 1) { Some(x) => x, None => 0 }, end: bound_at(range.end, -1), ..self }),
//@end
//@fn cfg-sequence/src/lib.rs Separator::prefix_separator
    ensures ret == prefix(self),
//@end
//@fn cfg-sequence/src/lib.rs From<Separator> for Option<Symbol>::from
//@name vx_separator_option
//@free
    ensures ret == (match val { Trailing(s) => Some(s), _ => None }),
//@end
//@fn cfg-sequence/src/rewrite.rs From<Sequence> for PartialSequence::from
    ensures ret == part(value),
//@end
//@fn cfg-sequence/src/rewrite.rs SequencesToProductions::new
//@rewrite_opt HashMap::new() => VxMap::new()
//@rewrite_opt vec![] => Vec::new()
    ensures *ret.destination == *old(destination), *final(ret.destination) == *final(destination),
//@end
//@fn cfg-sequence/src/rewrite.rs SequencesToProductions::recurse
//@sig (&mut self, seq: &Sequence) => (&mut self, seq: &Sequence, Ghost(c): Ghost<Ctx>)
//@rewrite_opt (*seq).into() => PartialSequence::from(*seq)
//@rewrite_opt self.map.entry($$x) => self.map.vx_entry($$x)
//@rewrite_opt Entry::Vacant => VxEntry::Vacant
//@rewrite_opt Entry::Occupied => VxEntry::Occupied
//@rewrite_opt vacant.insert($$x) => self.map.vx_insert(vacant, $$x)
//@rewrite_opt *lhs.get() => lhs
    requires old(self).ok(c), like_top(c, part(*seq)),
    ensures
        final(self).ok(c), final(self).same_dest(*old(self), c),
        final(self).destination.rules == old(self).destination.rules,
        final(self).destination.n() >= old(self).destination.n(),
        *final(final(self).destination) == *final(old(self).destination),
        final(self).top == old(self).top, final(self).lhs == old(self).lhs,
        final(self).map@ == (if old(self).map@.contains_key(part(*seq)) { old(self).map@ } else { old(self).map@.insert(part(*seq), ret) }),
        sub_map(old(self).map@, final(self).map@), kid(final(self).map@, ret, part(*seq)),
        forall|x: Symbol, q: PartialSequence| #[trigger] kid(old(self).map@, x, q) ==> kid(final(self).map@, x, q),
        ret.raw >= c.n0, ret.raw < final(self).destination.n(),
        final(self).stack@.len() >= old(self).stack@.len(),
        forall|i: int| 0 <= i < old(self).stack@.len() ==> final(self).stack@[i] == #[trigger] old(self).stack@[i],
        old(self).map@.contains_key(part(*seq)) || on_stack(final(self).stack@, part(*seq)),
        wsum(final(self).stack@) <= wsum(old(self).stack@) + p4(meas(part(*seq))),
//@at begin
    let ghost m0 = self.map@;
    let ghost n0 = self.destination.n();
    let ghost st0 = self.stack@;
    let ghost p = part(*seq);
//@at end
    proof {
        if !m0.contains_key(p) {
            lemma_sound_mono(c, self.ps(), m0, self.map@, n0);
            lemma_wsum_push(st0, self.stack@.last());
            assert(part(self.stack@[st0.len() as int]) == p);
            assert(self.stack@ =~= st0.push(self.stack@.last()));
        }
    }
//@end
//@fn cfg-sequence/src/rewrite.rs SequencesToProductions::rhs
//@sig fn rhs<A: AsRef<[Symbol]>>(&mut self, rhs: A) => fn rhs(&mut self, rhs: &[Symbol], Ghost(c): Ghost<Ctx>)
//@rewrite_opt rhs.as_ref() => rhs
//@rewrite_opt Into::into($$x) => History::from_sequence_rhs($$x)
    requires
        old(self).ok(c), old(self).lhs is Some, rhs@.len() <= 3, below(rhs@, old(self).destination.n()),
        rule_sound(c, old(self).map@, Prod { l: old(self).lhs->0, r: rhs@ }),
    ensures
        final(self).ok(c), final(self).same_dest(*old(self), c),
        final(self).ps() == old(self).ps().insert(Prod { l: old(self).lhs->0, r: rhs@ }),
        final(self).destination.n() == old(self).destination.n(),
        *final(final(self).destination) == *final(old(self).destination),
        final(self).top == old(self).top, final(self).lhs == old(self).lhs,
        final(self).map@ == old(self).map@, final(self).stack@ == old(self).stack@,
//@at begin
    let ghost g0 = *self;
//@at end
    proof {
        let x = Prod { l: g0.lhs->0, r: rhs@ };
        assert(prod_seq(self.destination.rules@) =~= prod_seq(g0.destination.rules@).push(x));
        lemma_prods_push(g0.destination.rules@, self.destination.rules@, x);
        let p = choose|p: PartialSequence| #[trigger] owner(c, g0.map@, x.l, p) && forall|w: Seq<Symbol>| #[trigger] star(interp(c, g0.map@), x.r, w) ==> reps(p, w);
        assert(x.l.raw < self.destination.n());
        assert(x.l == c.lhs || x.l.raw >= c.n0) by { if !(x.l == c.lhs && p == c.top) { assert(g0.map@.contains_key(p) && g0.map@[p].raw >= c.n0); } }
        let k = g0.destination.rules@.len() as int;
        assert(self.destination.rules@.len() == prod_seq(self.destination.rules@).len());
        assert(prod_seq(self.destination.rules@)[k] == x);
        assert(self.destination.rules@[k].lhs == x.l);
    }
//@end
/// Every sequence met so far is covered or still to be taken apart.
pub open spec fn pending_seqs(c: Ctx, ps: ISet<Prod>, m: PMap, st: Seq<Sequence>) -> bool {
    forall|q: PartialSequence| #[trigger] m.contains_key(q) ==> covered(c, ps, m, m[q], q) || on_stack(st, q)
}
/// The stack holds `a` and new entries, among them all sequences new in the map.
pub open spec fn grown(a: Seq<Sequence>, b: Seq<Sequence>, m: PMap, n: PMap) -> bool {
    &&& a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]
    &&& forall|q: PartialSequence| #[trigger] n.contains_key(q) ==> m.contains_key(q) || on_stack(b, q)
}
//@fn cfg-sequence/src/rewrite.rs SequencesToProductions::reduce
//@sig (&mut self, sequence: Sequence) => (&mut self, sequence: Sequence, Ghost(c): Ghost<Ctx>)
//@rewrite_opt self.recurse($$x) => self.recurse($$x, Ghost(c))
//@rewrite_opt self.rhs([$$x]) => { let __r: [Symbol; _] = [$$x]; proof { assert(__r@ =~= seq![$$x]); lemma_rule(c, self.map@, self.destination.n(), l, p, __r@); } self.rhs(&__r, Ghost(c)); }
//@rewrite_opt $x.ilog2() => vx_ilog2($x)
//@rewrite_opt sequence.range($$a..=$$b) => sequence.range(vx_incl($$a, $$b))
//@rewrite_opt $v.map(|$x| $$b) => (match $v { Some($x) => Some({ $$b }), None => None })
//@attr #[verifier::rlimit(60)]
    requires
        old(self).ok(c), like_top(c, part(sequence)), owner(c, old(self).map@, sequence.lhs, part(sequence)),
    ensures
        final(self).ok(c), final(self).same_dest(*old(self), c),
        *final(final(self).destination) == *final(old(self).destination),
        sub_map(old(self).map@, final(self).map@),
        forall|x: Prod| #[trigger] old(self).ps().contains(x) ==> final(self).ps().contains(x),
        covered(c, final(self).ps(), final(self).map@, sequence.lhs, part(sequence)),
        grown(old(self).stack@, final(self).stack@, old(self).map@, final(self).map@),
        wsum(final(self).stack@) < wsum(old(self).stack@) + p4(meas(part(sequence))),
//@at begin
    let ghost l = sequence.lhs;
    let ghost p = part(sequence);
    proof {
        assert forall|q: PartialSequence| meas(q) < meas(p) implies 4 * #[trigger] p4(meas(q)) <= p4(meas(p)) by { lemma_p4(meas(q), meas(p)); }
        lemma_p4_pos(meas(p));
    }
//@at end
    proof {
        let m = self.map@;
        if p.separator is Liberal { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.start == 0 { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.separator is Trailing { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.start == 1 && p.end is None { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.start == 1 && p.end == Some(1u32) { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.start == 1 && p.end == Some(2u32) { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.start == 1 { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.start == 2 && p.end == Some(2u32) { assert(decomposed(c, self.ps(), m, l, p)); }
        else if p.end == Some(p.start) { assert(decomposed(c, self.ps(), m, l, p)); }
        else { assert(decomposed(c, self.ps(), m, l, p)); }
        lemma_covered(c, self.ps(), self.map@, l, p);
    }
//@end
// ---- the language after a rewrite
/// The rules before, and one production for every repetition.
pub open spec fn seq_prods(c: Ctx) -> ISet<Prod> { ISet::new(|x: Prod| c.p0.contains(x) || (x.l == c.lhs && reps(c.top, x.r))) }
pub open spec fn all_covered(c: Ctx, ps: ISet<Prod>, m: PMap) -> bool {
    covered(c, ps, m, c.lhs, c.top) && forall|q: PartialSequence| #[trigger] m.contains_key(q) ==> covered(c, ps, m, m[q], q)
}
pub proof fn lemma_reps_derived(c: Ctx, ps: ISet<Prod>, m: PMap, n: int, l: Symbol, p: PartialSequence, w: Seq<Symbol>)
    requires map_ok(c, m, n), all_covered(c, ps, m), owner(c, m, l, p), reps(p, w),
    ensures der(ps, seq![l], w),
    decreases meas(p), w.len(),
{
    assert(covered(c, ps, m, l, p));
    let u = choose|u: Seq<Symbol>| cover_by(c, ps, m, l, p, w, u);
    let e = smaller(c, m, l, p, w.len());
    assert forall|i: int, v: Seq<Symbol>| 0 <= i < u.len() && v.len() <= w.len() && #[trigger] e(u[i], v) implies der(ps, seq![u[i]], v) by {
        if u[i].raw < c.n0 && v == seq![u[i]] { lemma_refl(ps, v); }
        else if exists|q: PartialSequence| is_kid(m, u[i], v, q) && meas(q) < meas(p) {
            let q = choose|q: PartialSequence| is_kid(m, u[i], v, q) && meas(q) < meas(p);
            lemma_reps_derived(c, ps, m, n, u[i], q, v);
        } else {
            lemma_reps_derived(c, ps, m, n, l, p, v);
        }
    }
    lemma_star_der(ps, e, u, w);
    lemma_prod(ps, Prod { l: l, r: u });
    lemma_trans(ps, seq![l], u, w);
}
/// Strings without a left-recursive left-hand side are derived exactly as the repetitions allow.
pub open spec fn rewrites_seq(c: Ctx, ps: ISet<Prod>) -> bool {
    forall|a: Seq<Symbol>, b: Seq<Symbol>| below(a, c.n0) && below(b, c.n0) && (c.rec ==> !b.contains(c.lhs)) ==>
        (#[trigger] der(ps, a, b) <==> der(seq_prods(c), a, b))
}
pub proof fn lemma_rewritten(c: Ctx, ps: ISet<Prod>, m: PMap, n: int)
    requires
        ctx_ok(c), map_ok(c, m, n), all_sound(c, m, ps), all_covered(c, ps, m),
        forall|x: Prod| #[trigger] c.p0.contains(x) ==> ps.contains(x),
    ensures rewrites_seq(c, ps),
{
    let q = seq_prods(c);
    let e = interp(c, m);
    assert forall|x: Prod| #[trigger] q.contains(x) implies der(ps, seq![x.l], x.r) by {
        if c.p0.contains(x) { lemma_prod(ps, x); } else {
            assert(owner(c, m, c.lhs, c.top));
            lemma_reps_derived(c, ps, m, n, c.lhs, c.top, x.r);
        }
    }
    // an old symbol derives, in the target, what it stands for
    assert forall|x: Symbol, v: Seq<Symbol>| x.raw < c.n0 && #[trigger] e(x, v) implies der(q, seq![x], v) by {
        if c.rec && x == c.lhs { lemma_prod(q, Prod { l: x, r: v }); } else { lemma_refl(q, v); }
    }
    assert(sub_simulates(ps, q, e)) by {
        assert forall|x: Prod, w: Seq<Symbol>| ps.contains(x) && #[trigger] star(e, x.r, w) implies sub_step(q, e, x.l, w) by {
            if c.p0.contains(x) {
                assert(e(x.l, seq![x.l]));
                lemma_star_der(q, e, x.r, w);
                assert(q.contains(x));
                lemma_prod(q, x);
                lemma_trans(q, seq![x.l], x.r, w);
            } else {
                let p = choose|p: PartialSequence| #[trigger] owner(c, m, x.l, p) && forall|w: Seq<Symbol>| #[trigger] star(interp(c, m), x.r, w) ==> reps(p, w);
                assert(reps(p, w));
                if x.l == c.lhs && p == c.top {
                    if c.rec {
                        assert(e(x.l, w));
                        lemma_refl(q, w);
                    } else {
                        assert(e(x.l, seq![x.l]));
                        lemma_prod(q, Prod { l: x.l, r: w });
                    }
                } else {
                    assert(is_kid(m, x.l, w, p));
                    assert(e(x.l, w));
                    lemma_refl(q, w);
                }
            }
        }
    }
    assert forall|a: Seq<Symbol>, b: Seq<Symbol>| below(a, c.n0) && below(b, c.n0) && (c.rec ==> !b.contains(c.lhs)) implies
        (#[trigger] der(ps, a, b) <==> der(q, a, b)) by {
        if der(q, a, b) { lemma_incl(q, ps, a, b); }
        if der(ps, a, b) {
            let k = choose|k: nat| dern(ps, a, b, k);
            assert forall|i: int| 0 <= i < b.len() implies e(#[trigger] b[i], seq![b[i]]) by { assert(b.contains(b[i])); }
            lemma_star_self(e, b);
            let r = lemma_sub_simn(ps, q, e, a, b, k);
            lemma_star_der(q, e, a, r);
            lemma_trans(q, a, r, b);
        }
    }
}
/// The rules added, taken alone.
pub open spec fn alone(c: Ctx) -> Ctx { Ctx { p0: ISet::empty(), ..c } }
pub open spec fn seq_added(c: Ctx, ps: ISet<Prod>) -> ISet<Prod> { ISet::new(|x: Prod| ps.contains(x) && !c.p0.contains(x)) }
pub open spec fn rewrites_alone(c: Ctx, ps: ISet<Prod>) -> bool {
    (forall|x: Prod| #[trigger] c.p0.contains(x) ==> x.l != c.lhs) ==> rewrites_seq(alone(c), seq_added(c, ps))
}
pub proof fn lemma_alone(c: Ctx, ps: ISet<Prod>, m: PMap, n: int)
    requires
        ctx_ok(c), map_ok(c, m, n), all_sound(c, m, ps), all_covered(c, ps, m),
        forall|x: Prod| #[trigger] c.p0.contains(x) ==> ps.contains(x),
    ensures rewrites_alone(c, ps),
{
    if forall|x: Prod| #[trigger] c.p0.contains(x) ==> x.l != c.lhs {
        let d = alone(c);
        let qs = seq_added(c, ps);
        assert forall|x: Prod| #[trigger] qs.contains(x) implies rule_sound(d, m, x) by {
            assert(rule_sound(c, m, x));
            let p = choose|p: PartialSequence| #[trigger] owner(c, m, x.l, p) && forall|w: Seq<Symbol>| #[trigger] star(interp(c, m), x.r, w) ==> reps(p, w);
            assert(owner(d, m, x.l, p));
            let e = interp(d, m);
            let f = interp(c, m);
            assert forall|w: Seq<Symbol>| #[trigger] star(e, x.r, w) implies reps(p, w) by {
                assert forall|i: int, v: Seq<Symbol>| 0 <= i < x.r.len() && v.len() <= w.len() && #[trigger] e(x.r[i], v) implies f(x.r[i], v) by { }
                lemma_star_mono(e, f, x.r, w);
            }
        }
        assert forall|l: Symbol, p: PartialSequence| covered(c, ps, m, l, p) && (l == c.lhs || l.raw >= c.n0) implies #[trigger] covered(d, qs, m, l, p) by {
            assert forall|w: Seq<Symbol>| #[trigger] reps(p, w) implies exists|u: Seq<Symbol>| cover_by(d, qs, m, l, p, w, u) by {
                let u = choose|u: Seq<Symbol>| cover_by(c, ps, m, l, p, w, u);
                let e = smaller(c, m, l, p, w.len());
                let f = smaller(d, m, l, p, w.len());
                assert forall|i: int, v: Seq<Symbol>| 0 <= i < u.len() && v.len() <= w.len() && #[trigger] e(u[i], v) implies f(u[i], v) by { }
                lemma_star_mono(e, f, u, w);
                assert(cover_by(d, qs, m, l, p, w, u));
            }
        }
        assert(map_ok(d, m, n));
        lemma_rewritten(d, qs, m, n);
    }
}
pub open spec fn ctx_of(g: Cfg, top: Sequence) -> Ctx {
    Ctx { p0: prods(g.rules@), n0: g.n(), lhs: top.lhs, top: part(top), rec: is_rec(part(top)) }
}
//@fn cfg-sequence/src/rewrite.rs SequencesToProductions::rewrite
//@rewrite_opt $x.unwrap_or_else(|| RootHistoryNode::$v { $$f }.into()) => (match $x { Some(h) => h, None => History::from_root(RootHistoryNode::$v { $$f }) })
//@rewrite_opt $x.unwrap_or_else(|| RootHistoryNode::$v.into()) => (match $x { Some(h) => h, None => History::from_root(RootHistoryNode::$v) })
//@rewrite_opt Into::into($$x) => History::from_rewrite_sequence($$x)
//@rewrite_opt top.separator.into() => vx_separator_option(top.separator)
//@rewrite_opt *self.top.as_mut().unwrap() = $$x; => vx_assert(self.top.is_some()); self.top = Some($$x);
//@rewrite_opt self.reduce($$x) => self.reduce($$x, Ghost(c))
//@rewrite_opt seq.end.unwrap_or(!0) => (match seq.end { Some(x) => x, None => !0 })
//@loops while
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
    requires
        old(self).destination.limit() >= 3, !old(self).destination.eliminate_nulling, old(self).destination.wf(),
        ctx_ok(ctx_of(*old(self).destination, top)),
    ensures
        final(self).same_dest(*old(self), ctx_of(*old(self).destination, top)),
        rewrites_alone(ctx_of(*old(self).destination, top), final(self).ps()),
        *final(final(self).destination) == *final(old(self).destination),
        rewrites_seq(ctx_of(*old(self).destination, top), final(self).ps()),
        forall|x: Prod| #[trigger] old(self).ps().contains(x) ==> final(self).ps().contains(x),
        forall|x: Prod| #[trigger] final(self).ps().contains(x) ==> old(self).ps().contains(x) || (x.l == top.lhs || x.l.raw >= old(self).destination.n()) && own_syms(ctx_of(*old(self).destination, top), x.r),
        prods_below(final(self).ps(), final(self).destination.n()), final(self).destination.n() >= old(self).destination.n(),
//@at begin
    broadcast use lemma_pop_push;
    let ghost c = ctx_of(*self.destination, top);
    let ghost g0 = *self;
    proof { assert(!0u32 == u32::MAX) by (bit_vector); }
//@at loop0.pre
    proof {
        let st = self.stack@;
        assert(pending_seqs(c, self.ps(), self.map@, st));
    }
//@loop 0
    invariant
        self.ok(c), self.same_dest(g0, c), *final(self.destination) == *final(g0.destination),
        covered(c, self.ps(), self.map@, c.lhs, c.top),
        pending_seqs(c, self.ps(), self.map@, self.stack@),
    ensures self.stack@.len() == 0,
    decreases wsum(self.stack@),
//@at loop0.begin
    let ghost p = part(seq);
    let ghost st1 = self.stack@;
    let ghost m1 = self.map@;
    let ghost ps1 = self.ps();
    proof { lemma_wsum_push(st1, seq); assert(pending_seqs(c, ps1, m1, st1.push(seq))); assert(st1.push(seq)[st1.len() as int] == seq); }
//@at loop0.end
    proof {
        lemma_covered_mono(c, ps1, self.ps(), m1, self.map@, c.lhs, c.top);
        assert forall|q: PartialSequence| #[trigger] self.map@.contains_key(q) implies covered(c, self.ps(), self.map@, self.map@[q], q) || on_stack(self.stack@, q) by {
            if m1.contains_key(q) && q != p {
                if on_stack(st1.push(seq), q) {
                    let i = choose|i: int| 0 <= i < st1.push(seq).len() && part(#[trigger] st1.push(seq)[i]) == q;
                    assert(self.stack@[i] == st1[i]);
                } else {
                    lemma_covered_mono(c, ps1, self.ps(), m1, self.map@, m1[q], q);
                }
            }
        }
    }
//@at end
    proof {
        lemma_rewritten(c, self.ps(), self.map@, self.destination.n());
        lemma_alone(c, self.ps(), self.map@, self.destination.n());
        assert forall|x: Prod| #[trigger] self.ps().contains(x) implies g0.ps().contains(x) || (x.l == top.lhs || x.l.raw >= g0.destination.n()) && own_syms(c, x.r) by {
            if !c.p0.contains(x) { assert(rule_sound(c, self.map@, x)); }
        }
    }
//@end
