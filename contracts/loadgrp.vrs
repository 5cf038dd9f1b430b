// G23, G24: what both loaders need: repetitions, the parser, names.
/// A new symbol that stands for repetitions of `item`: its rules are at `from..to`, their left-hand sides
/// are the symbols from `x` up to `end`.
pub ghost struct Grp { pub x: Symbol, pub end: int, pub item: Symbol, pub min: u32, pub from: int, pub to: int }
/// TRUSTED: the name a symbol was made with (what the symbol source keeps of it is decided under G01).
pub uninterp spec fn given(s: Symbol, name: Seq<char>) -> bool;
pub open spec fn own(g: Grp, s: Symbol) -> bool { g.x.raw <= s.raw < g.end }
pub open spec fn no_own(g: Grp, w: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < w.len() ==> !own(g, #[trigger] w[i]) }
pub open spec fn own_rhs(g: Grp, u: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < u.len() ==> own(g, #[trigger] u[i]) || u[i] == g.item }
pub open spec fn own_prods(rs: Seq<CfgRule>, g: Grp) -> ISet<Prod> { prods(rs.subrange(g.from, g.to)) }
pub open spec fn asked(g: Grp) -> PartialSequence { PartialSequence { rhs: g.item, start: g.min, end: None, separator: Null } }
/// By these rules, `x` derives `min` or more times `item`, and nothing else without its own symbols.
pub open spec fn repeats(ps: ISet<Prod>, g: Grp) -> bool {
    forall|w: Seq<Symbol>| #[trigger] no_own(g, w) ==> (der(ps, seq![g.x], w) <==> reps(asked(g), w))
}
pub open spec fn grp_ok(rs: Seq<CfgRule>, g: Grp, n: int) -> bool {
    &&& g.x.raw < g.end <= n && g.item.raw < g.x.raw && 0 <= g.from <= g.to <= rs.len()
    &&& forall|p: int| g.from <= p < g.to ==> own(g, (#[trigger] rs[p]).lhs) && own_rhs(g, rs[p].rhs@)
    &&& repeats(own_prods(rs, g), g)
}
// ---- a repetition
/// Symbols that only occur where they are made stay out of what is derived.
pub proof fn lemma_stays(ps: ISet<Prod>, s: Syms, a: Seq<Symbol>, b: Seq<Symbol>, n: nat)
    requires dern(ps, a, b, n), all_in(s, a), forall|x: Prod| #[trigger] ps.contains(x) ==> all_in(s, x.r),
    ensures all_in(s, b),
    decreases n,
{
    if n > 0 {
        let c = choose|c: Seq<Symbol>| #[trigger] step(ps, a, c) && dern(ps, c, b, (n - 1) as nat);
        let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(ps, a, c, x, i);
        assert forall|j: int| 0 <= j < c.len() implies s(#[trigger] c[j]) by {
            if j < i { assert(c[j] == a[j]); } else if j < i + x.r.len() { assert(c[j] == x.r[j - i]); } else { assert(c[j] == a[j - x.r.len() + 1]); }
        }
        lemma_stays(ps, s, c, b, (n - 1) as nat);
    }
}
pub proof fn lemma_unbounded(p: PartialSequence, w: Seq<Symbol>, i: int)
    requires reps(p, w), p.separator is Null, 0 <= i < w.len(),
    ensures w[i] == p.rhs,
{
}
/// What `sequence` adds for a new symbol `x`, taken alone, derives the repetitions.
pub proof fn lemma_repeats(a: Cfg, b: Cfg, x: Symbol, item: Symbol, min: u32, g: Grp)
    requires
        a.wf(), b.n() >= a.n(), x.raw == a.n() - 1, item.raw < x.raw, min <= 1,
        forall|p: Prod| #[trigger] prods(a.rules@).contains(p) ==> p.l.raw < x.raw,
        keeps(a.rules@, b.rules@), new_lhs(ctx_of(a, rep_seq(x, item, min, None)), a.rules@, b.rules@),
        rewrites_alone(ctx_of(a, rep_seq(x, item, min, None)), prods(b.rules@)), prods_below(prods(b.rules@), b.n()),
        forall|p: Prod| #[trigger] prods(b.rules@).contains(p) ==> prods(a.rules@).contains(p) || (p.l == x || p.l.raw >= a.n()) && own_syms(ctx_of(a, rep_seq(x, item, min, None)), p.r),
        g == (Grp { x: x, end: b.n(), item: item, min: min, from: a.rules@.len() as int, to: b.rules@.len() as int }),
    ensures grp_ok(b.rules@, g, b.n()),
{
    let c = ctx_of(a, rep_seq(x, item, min, None));
    let rs = b.rules@;
    let ps = own_prods(rs, g);
    let sub = rs.subrange(g.from, g.to);
    assert forall|p: int| g.from <= p < g.to implies own(g, (#[trigger] rs[p]).lhs) && own_rhs(g, rs[p].rhs@) by {
        let y = Prod { l: rs[p].lhs, r: rs[p].rhs@ };
        assert(prods(rs).contains(y));
        assert(!prods(a.rules@).contains(y));
        assert forall|i: int| 0 <= i < y.r.len() implies own(g, #[trigger] y.r[i]) || y.r[i] == item by { assert(own_sym(c, y.r[i])); }
    }
    assert forall|y: Prod| #[trigger] ps.contains(y) == seq_added(c, prods(rs)).contains(y) by {
        if ps.contains(y) {
            let i = choose|i: int| 0 <= i < sub.len() && (#[trigger] sub[i]).lhs == y.l && sub[i].rhs@ == y.r;
            assert(rs[i + g.from] == sub[i]);
            assert(own(g, rs[i + g.from].lhs));
            assert(prods(rs).contains(y));
            if c.p0.contains(y) { assert(prods(a.rules@).contains(y)); }
        }
        if seq_added(c, prods(rs)).contains(y) {
            let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == y.l && rs[i].rhs@ == y.r;
            if i < g.from { assert(a.rules@[i] == rs[i]); assert(prods(a.rules@).contains(y)); }
            assert(sub[i - g.from] == rs[i]);
        }
    }
    assert(ps =~= seq_added(c, prods(rs)));
    let d = alone(c);
    assert(rewrites_seq(d, ps)) by { assert forall|y: Prod| #[trigger] c.p0.contains(y) implies y.l != c.lhs by { assert(prods(a.rules@).contains(y)); } }
    let q = seq_prods(d);
    let t = asked(g);
    assert(t == d.top);
    assert forall|w: Seq<Symbol>| #[trigger] no_own(g, w) implies (der(ps, seq![x], w) <==> reps(t, w)) by {
        let u = seq![x];
        if reps(t, w) {
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).raw < c.n0 by { lemma_unbounded(t, w, i); }
            if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; lemma_unbounded(t, w, i); }
            lemma_prod(q, Prod { l: x, r: w });
            assert(below(u, d.n0) && below(w, d.n0));
            assert(der(ps, u, w) <==> der(q, u, w));
        }
        if der(ps, u, w) {
            let s: Syms = |z: Symbol| own(g, z) || z == item;
            assert(all_in(s, u)) by { assert(s(x)); }
            assert forall|y: Prod| #[trigger] ps.contains(y) implies all_in(s, y.r) by {
                let i = choose|i: int| 0 <= i < sub.len() && (#[trigger] sub[i]).lhs == y.l && sub[i].rhs@ == y.r;
                assert(rs[i + g.from] == sub[i]);
                assert(own_rhs(g, rs[i + g.from].rhs@));
            }
            let n = choose|n: nat| dern(ps, u, w, n);
            lemma_stays(ps, s, u, w, n);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).raw < c.n0 && w[i] == item by { assert(s(w[i])); }
            if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; assert(w[i] == item); }
            assert(below(u, d.n0) && below(w, d.n0));
            assert(der(ps, u, w) <==> der(q, u, w));
            lemma_target(d, u, w);
        }
    }
}
/// By one production for every repetition, the left-hand side derives the repetitions.
pub proof fn lemma_target(d: Ctx, u: Seq<Symbol>, w: Seq<Symbol>)
    requires d.p0 == ISet::<Prod>::empty(), u == seq![d.lhs], der(seq_prods(d), u, w), !w.contains(d.lhs), d.top.rhs != d.lhs, d.top.separator is Null,
    ensures reps(d.top, w),
{
    let q = seq_prods(d);
    let n = choose|n: nat| dern(q, u, w, n);
    if n == 0 { assert(w[0] == d.lhs); }
    let c = choose|c: Seq<Symbol>| #[trigger] step(q, u, c) && dern(q, c, w, (n - 1) as nat);
    let (x, i) = choose|x: Prod, i: int| #[trigger] step_at(q, u, c, x, i);
    assert(c =~= x.r);
    if n > 1 {
        let e = choose|e: Seq<Symbol>| #[trigger] step(q, c, e) && dern(q, e, w, (n - 2) as nat);
        let (y, j) = choose|y: Prod, j: int| #[trigger] step_at(q, c, e, y, j);
        lemma_unbounded(d.top, c, j);
        assert(false);
    }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BNode { x: u8 }
pub struct Recognizer { pub finished_node: Option<BNode>, pub scanned: Ghost<Seq<Sc>>, pub ended: Ghost<nat> }
pub open spec fn begins(a: Seq<Sc>, y: Seq<Sc>) -> bool { a.len() <= y.len() && y.take(a.len() as int) == a }
impl Recognizer {
    pub open spec fn ready(self) -> bool { self.ended@ == self.scanned@.len() && (self.finished_node is Some <==> sentence(self.scanned@)) }
    #[verifier::external_body]
    pub fn new(g: &BGrammar) -> (r: Self)
        ensures r.ready(), r.scanned@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn scan(&mut self, terminal: BSym, values: u32)
        requires old(self).ready(),
        ensures final(self).scanned@ == old(self).scanned@.push((terminal.n as nat, values as nat)), final(self).ended == old(self).ended,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end_earleme(&mut self) -> (r: bool)
        requires old(self).scanned@.len() == old(self).ended@ + 1,
        ensures
            final(self).scanned == old(self).scanned, r ==> final(self).ready(),
            !r ==> forall|y: Seq<Sc>| #[trigger] begins(old(self).scanned@, y) ==> !sentence(y),
    { unimplemented!() }
}
/// The values of the parts of a sentence are what `product` asks for.
pub open spec fn acts_typed() -> bool {
    forall|id: nat, a: Seq<Va>| is_rule(id) && #[trigger] args_typed(id, a) ==> typed(g_lhs(id), act(id, a))
}
pub open spec fn args_typed(id: nat, a: Seq<Va>) -> bool { a.len() == g_rhs(id).len() && forall|k: int| 0 <= k < a.len() ==> typed(g_rhs(id)[k], #[trigger] a[k]) }
pub proof fn lemma_acts_typed()
    ensures acts_typed(),
{
    assert forall|id: nat, a: Seq<Va>| is_rule(id) && #[trigger] args_typed(id, a) implies typed(g_lhs(id), act(id, a)) by {
        if a.len() > 0 { assert(typed(g_rhs(id)[0], a[0])); }
        if a.len() > 1 { assert(typed(g_rhs(id)[1], a[1])); }
        if a.len() > 2 { assert(typed(g_rhs(id)[2], a[2])); }
        if a.len() > 3 { assert(typed(g_rhs(id)[3], a[3])); }
    }
}
// TRUSTED: calls `leaf` and `product` of the evaluator as one tree of the sentence asks for.
#[verifier::external_body]
pub fn vx_evaluate(r: &Recognizer, e: Evaluator, n: BNode) -> (v: Value)
    requires
        e.fine(), r.ready(), r.finished_node == Some(n), acts_typed(),
        forall|i: int| 0 <= i < r.scanned@.len() ==> leaf_ok(e.toks(), (#[trigger] r.scanned@[i]).0, r.scanned@[i].1),
    ensures exists|t: Tree| #[trigger] t_wf(t) && t_sym(t) == s_start() && t_yield(t) == r.scanned@ && v.v() == t_val(t, e.toks()),
{ unimplemented!() }
// ---- TRUSTED: names to numbers, numbers to symbols (an index set of strings, a HashMap).
//@bodyis cfg-load/src/string_interner.rs StringInterner::get_or_intern :: self.set.insert_full(value.as_ref().to_string()).0
//@bodyis cfg-load/src/string_interner.rs StringInterner::new :: StringInterner { set: FrozenIndexSet::new(), }
#[verifier::external_body]
pub struct StringInterner { x: u8 }
impl StringInterner {
    pub uninterp spec fn id(self, name: Seq<char>) -> usize;
    pub uninterp spec fn back(self, id: usize) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_intern(&self, name: &String) -> (r: usize)
        ensures r == self.id(name@), self.back(r) == name@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxSymMap { x: u8 }
impl View for VxSymMap {
    type V = Map<usize, Symbol>;
    uninterp spec fn view(&self) -> Map<usize, Symbol>;
}
impl VxSymMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<usize, Symbol>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, k: usize) -> (r: Option<Symbol>)
        ensures r == (if self@.contains_key(k) { Some(self@[k]) } else { None::<Symbol> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: usize, v: Symbol)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_name_of(s: &String) -> (r: Option<SymbolName>)
    ensures r is Some,
{ unimplemented!() }
/// A new symbol with a name.
pub fn vx_named(g: &mut Cfg, s: &String) -> (r: Symbol)
    ensures
        r.raw == old(g).n(), final(g).n() == old(g).n() + 1, final(g).rules == old(g).rules, final(g).same_rest(*old(g)), given(r, s@),
{
    let x = g.next_sym(vx_name_of(s));
    assume_given(x, s);
    x
}
// TRUSTED: see `given`.
#[verifier::external_body]
pub fn assume_given(x: Symbol, s: &String)
    ensures given(x, s@),
{ }
#[verifier::external_body]
pub fn vx_text() -> (r: String) { unimplemented!() }
pub open spec fn plain(g: Cfg) -> bool { g.wf() && g.limit() == usize::MAX && !g.eliminate_nulling && g.wrapped_roots@.len() == 0 }
pub proof fn lemma_prods_wf(g: Cfg)
    requires g.wf(),
    ensures prods_below(prods(g.rules@), g.n()),
{
    assert forall|p: Prod| #[trigger] prods(g.rules@).contains(p) implies p.l.raw < g.n() && below(p.r, g.n()) by {
        let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).lhs == p.l && g.rules@[i].rhs@ == p.r;
        assert(rule_in(g.rules@[i], g.n()));
    }
}
pub proof fn lemma_wf_prods(g: Cfg)
    requires prods_below(prods(g.rules@), g.n()),
    ensures g.wf(),
{
    assert forall|i: int| 0 <= i < g.rules@.len() implies rule_in(#[trigger] g.rules@[i], g.n()) by {
        assert(prods(g.rules@).contains(Prod { l: g.rules@[i].lhs, r: g.rules@[i].rhs@ }));
    }
}
pub proof fn lemma_before_seq(a: Cfg, b: Cfg, x: Symbol, item: Symbol, min: u32)
    requires plain(a), b.rules == a.rules, b.same_rest(a), b.n() == a.n() + 1, x.raw == a.n(), item.raw < a.n(), min <= 1,
    ensures plain(b), ctx_ok(ctx_of(b, rep_seq(x, item, min, None))),
{
    lemma_prods_wf(a);
    assert forall|p: Prod| #[trigger] prods(b.rules@).contains(p) implies p.l.raw < b.n() && below(p.r, b.n()) && p.l != x by { assert(prods(a.rules@).contains(p)); }
    lemma_wf_prods(b);
}
