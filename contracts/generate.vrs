// G18: random generation (cfg-generate).
pub use std::cmp::Ordering;
// TRUSTED: f64, treated as a real number (no rounding, no NaN).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { x: f64 }
impl F64 {
    pub uninterp spec fn r(self) -> real;
    #[verifier::external_body]
    pub fn zero() -> (o: Self)
        ensures o.r() == 0real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn of(x: u32) -> (o: Self)
        ensures o.r() == x as int as real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn over(self, y: F64) -> (o: Self)
        requires y.r() != 0real,
        ensures o.r() == self.r() / y.r(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn times(self, y: F64) -> (o: Self)
        ensures o.r() == self.r() * y.r(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_to(&mut self, y: F64)
        ensures final(self).r() == old(self).r() + y.r(),
    { unimplemented!() }
    pub fn into(self) -> (o: F64)
        ensures o == self,
    { self }
    #[verifier::external_body]
    pub fn partial_cmp(&self, y: &F64) -> (o: Option<Ordering>)
        ensures o == Some(cmp_real(self.r(), y.r())),
    { unimplemented!() }
}
pub open spec fn cmp_real(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
// TRUSTED: the source of randomness. `draws` are the numbers drawn so far.
#[verifier::external_body]
pub struct VxRng { x: u8 }
impl VxRng {
    pub uninterp spec fn draws(self) -> Seq<real>;
    #[verifier::external_body]
    pub fn generate(&mut self, limit: F64) -> (o: F64)
        requires limit.r() > 0real,
        ensures 0real <= o.r() <= limit.r(), final(self).draws() == old(self).draws().push(o.r()),
    { unimplemented!() }
}
// TRUSTED: the caller's function; `gives(f, s, c)` if a call with `s` returned `c`.
#[verifier::external_body]
pub struct VxFn { x: u8 }
pub uninterp spec fn gives(f: VxFn, s: Symbol, c: Option<char>) -> bool;
#[verifier::external_body]
pub fn vx_call(f: &VxFn, s: Symbol, rng: &mut VxRng) -> (r: Option<char>)
    ensures gives(*f, s, r), old(rng).draws().is_prefix_of(final(rng).draws()),
{ unimplemented!() }
// TRUSTED: rpds::List as a sequence.
#[verifier::external_body]
pub struct List { x: Vec<Symbol> }
impl View for List {
    type V = Seq<Symbol>;
    uninterp spec fn view(&self) -> Seq<Symbol>;
}
impl List {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<Symbol>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_first(&self) -> (r: Symbol)
        requires self@.len() > 0,
        ensures r == self@[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drop_first_mut(&mut self) -> (r: bool)
        ensures final(self)@ == (if old(self)@.len() > 0 { old(self)@.skip(1) } else { old(self)@ }), r == (old(self)@.len() > 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front_mut(&mut self, s: Symbol)
        ensures final(self)@ == seq![s] + old(self)@,
    { unimplemented!() }
}
//@struct cfg-generate/src/weighted/weighted_rhs_by_lhs.rs WeightedRhs
//@ty <W> =>
//@ty W => F64
//@struct cfg-generate/src/weighted/weighted_rhs_by_lhs.rs WeightedRhsList
//@ty <W> =>
//@ty W => F64
//@struct cfg-generate/src/weighted/weighted_rhs_by_lhs.rs WeightedRhsByLhs
//@ty <W> =>
//@ty W => F64
//@struct cfg-generate/src/weighted/random.rs RandomGenError #[derive(Clone,Copy)]
//@struct cfg-generate/src/weighted/random.rs Limits #[derive(Clone,Copy)]
//@struct cfg-generate/src/weighted/random.rs NegativeRule #[derive(Clone,Copy)]

// ---- the alternatives of a symbol and their weights
/// The rules of `s` among the first `k`, in order.
pub open spec fn alts(rs: Seq<CfgRule>, k: int, s: Symbol) -> Seq<int>
    decreases k,
{
    if k <= 0 { Seq::empty() } else if rs[k - 1].lhs == s { alts(rs, k - 1, s).push(k - 1) } else { alts(rs, k - 1, s) }
}
pub open spec fn wt(rs: Seq<CfgRule>, i: int) -> real {
    (match rs[i].history.weight { Some(w) => w as int as real, None => 1000real }) / 1000real
}
/// The weight of the first `j` alternatives.
pub open spec fn cum(rs: Seq<CfgRule>, al: Seq<int>, j: int) -> real
    decreases j,
{
    if j <= 0 { 0real } else { cum(rs, al, j - 1) + wt(rs, al[j - 1]) }
}
pub open spec fn list_ok(l: WeightedRhsList, rs: Seq<CfgRule>, al: Seq<int>) -> bool {
    &&& l.rhs_list@.len() == al.len() && l.total_weight.r() == cum(rs, al, al.len() as int)
    &&& forall|j: int| 0 <= j < al.len() ==> (#[trigger] l.rhs_list@[j]).rhs@ == rs[al[j]].rhs@ && l.rhs_list@[j].weight.r() == cum(rs, al, j)
}
pub open spec fn sym_ok(m: Map<Symbol, WeightedRhsList>, rs: Seq<CfgRule>, k: int, s: Symbol) -> bool {
    &&& m.contains_key(s) <==> alts(rs, k, s).len() > 0
    &&& m.contains_key(s) ==> list_ok(m[s], rs, alts(rs, k, s))
}
pub open spec fn weighted_ok(m: Map<Symbol, WeightedRhsList>, rs: Seq<CfgRule>, k: int) -> bool { forall|s: Symbol| #[trigger] sym_ok(m, rs, k, s) }
pub proof fn lemma_alts(rs: Seq<CfgRule>, k: int, s: Symbol)
    requires 0 <= k <= rs.len(),
    ensures
        forall|j: int| 0 <= j < alts(rs, k, s).len() ==> 0 <= #[trigger] alts(rs, k, s)[j] < k && rs[alts(rs, k, s)[j]].lhs == s,
        alts(rs, k, s).len() == 0 ==> forall|i: int| 0 <= i < k ==> (#[trigger] rs[i]).lhs != s,
    decreases k,
{
    if k > 0 { lemma_alts(rs, k - 1, s); }
}
pub proof fn lemma_cum(rs: Seq<CfgRule>, al: Seq<int>, i: int, j: int)
    requires 0 <= i <= j,
    ensures cum(rs, al, i) <= cum(rs, al, j),
    decreases j - i,
{
    if i < j {
        lemma_cum(rs, al, i, j - 1);
        assert(wt(rs, al[j - 1]) >= 0real) by { lemma_wt(rs, al[j - 1]); }
    }
}
pub proof fn lemma_wt(rs: Seq<CfgRule>, i: int)
    ensures wt(rs, i) >= 0real,
{
    let x = match rs[i].history.weight { Some(w) => w as int as real, None => 1000real };
    assert(x >= 0real);
    assert(x / 1000real >= 0real) by (nonlinear_arith) requires x >= 0real;
}
pub proof fn lemma_cum_prefix(rs: Seq<CfgRule>, al: Seq<int>, x: int, j: int)
    requires 0 <= j <= al.len(),
    ensures cum(rs, al.push(x), j) == cum(rs, al, j),
    decreases j,
{
    if j > 0 { lemma_cum_prefix(rs, al, x, j - 1); assert(al.push(x)[j - 1] == al[j - 1]); }
}
pub open spec fn vx_list_of(m: Map<Symbol, WeightedRhsList>, s: Symbol, l: WeightedRhsList) -> bool {
    if m.contains_key(s) { l == m[s] } else { l.rhs_list@.len() == 0 && l.total_weight.r() == 0real }
}
/// `l` after one more alternative.
pub open spec fn extended(l: WeightedRhsList, l2: WeightedRhsList, w: F64, rhs: Seq<Symbol>) -> bool {
    &&& l2.total_weight.r() == l.total_weight.r() + w.r()
    &&& l2.rhs_list@.len() == l.rhs_list@.len() + 1 && l2.rhs_list@.last().rhs@ == rhs && l2.rhs_list@.last().weight == l.total_weight
    &&& forall|j: int| 0 <= j < l.rhs_list@.len() ==> #[trigger] l2.rhs_list@[j] == l.rhs_list@[j]
}
pub open spec fn added(m: Map<Symbol, WeightedRhsList>, m2: Map<Symbol, WeightedRhsList>, s: Symbol, w: F64, rhs: Seq<Symbol>) -> bool {
    m2.contains_key(s) && m2 == m.insert(s, m2[s]) && exists|l: WeightedRhsList| #[trigger] vx_list_of(m, s, l) && extended(l, m2[s], w, rhs)
}
pub fn vx_list_default() -> (r: WeightedRhsList)
    ensures r.rhs_list@.len() == 0, r.total_weight.r() == 0real,
{ WeightedRhsList { total_weight: F64::zero(), rhs_list: Vec::new() } }
//@fn cfg-generate/src/weighted/weighted_rhs_by_lhs.rs WeightedRhsByLhs::new
//@impl impl WeightedRhsByLhs
//@rewrite_opt Self::default() => WeightedRhsByLhs { weights: BTreeMap::new() }
    ensures ret.weights@ == Map::<Symbol, WeightedRhsList>::empty(),
//@end
//@fn cfg-generate/src/weighted/weighted_rhs_by_lhs.rs WeightedRhsByLhs::add_weight
//@impl impl WeightedRhsByLhs
//@sig W => F64
//@rewrite let $l = $m.entry($$k).or_default(); => let vx_k = $$k; let mut vx_l = match $m.remove(&vx_k) { Some(vx_v) => vx_v, None => vx_list_default() }; let ghost vx_o = vx_l; let $l = &mut vx_l;
//@rewrite_opt $$a += $$b; => $$a.add_to($$b);
//@rewrite_opt rhs.to_vec() => vx_to_vec(rhs)
    ensures added(old(self).weights@, final(self).weights@, lhs, weight, rhs@),
//@at begin
    broadcast use axiom_symbol_ord;
//@at end
    self.weights.insert(vx_k, vx_l);
    proof {
        assert(vx_list_of(old(self).weights@, lhs, vx_o));
        assert(extended(vx_o, vx_l, weight, rhs@));
        assert(self.weights@ =~= old(self).weights@.insert(lhs, vx_l));
    }
//@end
//@fn cfg-generate/src/weighted/weighted_rhs_by_lhs.rs Weighted for Cfg::weighted
//@impl impl Cfg
//@sig WeightedRhsByLhs<f64> => WeightedRhsByLhs
//@rewrite_opt self.rules() => &self.rules
//@rewrite let weight = $$x as f64 / 1000f64; => let weight = F64::of($$x).over(F64::of(1000));
//@rewrite_opt &rule.rhs[..] => vx_rc_slice(&rule.rhs)
//@loops for
    ensures weighted_ok(ret.weights@, self.rules@, self.rules@.len() as int),
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == self.rules@, weighted_ok(weighted.weights@, self.rules@, __i0 as int),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    let ghost m0 = weighted.weights@;
//@at loop0.end
    proof { lemma_add_weight(self.rules@, __i0 as int - 1, m0, weighted.weights@, weight); }
//@at begin
    proof {
        assert forall|s: Symbol| #[trigger] sym_ok(Map::<Symbol, WeightedRhsList>::empty(), self.rules@, 0, s) by { assert(alts(self.rules@, 0, s).len() == 0); }
    }
//@end
pub fn vx_rc_slice(r: &Rc<[Symbol]>) -> (o: &[Symbol])
    ensures o@ == r@,
{ &**r }
pub proof fn lemma_add_weight(rs: Seq<CfgRule>, k: int, m: Map<Symbol, WeightedRhsList>, m2: Map<Symbol, WeightedRhsList>, w: F64)
    requires
        0 <= k < rs.len(), weighted_ok(m, rs, k), w.r() == wt(rs, k), added(m, m2, rs[k].lhs, w, rs[k].rhs@),
    ensures weighted_ok(m2, rs, k + 1),
{
    assert forall|s: Symbol| #[trigger] sym_ok(m2, rs, k + 1, s) by {
        assert(sym_ok(m, rs, k, s));
        let al = alts(rs, k, s);
        if s == rs[k].lhs {
            assert(alts(rs, k + 1, s) == al.push(k));
            let l = choose|l: WeightedRhsList| #[trigger] vx_list_of(m, s, l) && extended(l, m2[s], w, rs[k].rhs@);
            assert(list_ok(l, rs, al));
            let l2 = m2[s];
            let al2 = al.push(k);
            lemma_cum_prefix(rs, al, k, al.len() as int);
            assert(al2[al.len() as int] == k);
            assert(cum(rs, al2, al2.len() as int) == cum(rs, al2, al.len() as int) + wt(rs, k));
            assert forall|j: int| 0 <= j < al2.len() implies (#[trigger] l2.rhs_list@[j]).rhs@ == rs[al2[j]].rhs@ && l2.rhs_list@[j].weight.r() == cum(rs, al2, j) by {
                lemma_cum_prefix(rs, al, k, j);
                if j < al.len() { assert(l2.rhs_list@[j] == l.rhs_list@[j]); assert(al2[j] == al[j]); }
            }
            assert(list_ok(l2, rs, al2));
        } else {
            assert(alts(rs, k + 1, s) == al);
        }
    }
}
/// The alternative `j` of `s` is chosen: by itself if there is no other, or by the draw of a
/// number in its share of the total weight.
pub open spec fn picked(rs: Seq<CfgRule>, s: Symbol, j: int, d: Seq<real>, d2: Seq<real>) -> bool {
    let al = alts(rs, rs.len() as int, s);
    &&& 0 <= j < al.len()
    &&& if al.len() == 1 { d2 == d } else {
        d2.len() == d.len() + 1 && d2.take(d.len() as int) == d && cum(rs, al, j) <= d2.last() <= cum(rs, al, j + 1)
    }
}
/// The choice among several alternatives can be drawn: they have some weight.
#[verifier::opaque]
pub open spec fn drawable(rs: Seq<CfgRule>, s: Symbol) -> bool {
    alts(rs, rs.len() as int, s).len() >= 2 ==> cum(rs, alts(rs, rs.len() as int, s), alts(rs, rs.len() as int, s).len() as int) > 0real
}
pub open spec fn chosen(rs: Seq<CfgRule>, s: Symbol, rhs: Seq<Symbol>, d: Seq<real>, d2: Seq<real>) -> bool {
    exists|j: int| #[trigger] picked(rs, s, j, d, d2) && rhs == rs[alts(rs, rs.len() as int, s)[j]].rhs@
}
// `slice::binary_search_by` with a comparison of weights.
pub fn vx_bsearch<F: Fn(&WeightedRhs) -> Ordering>(v: &Vec<WeightedRhs>, f: F, Ghost(x): Ghost<real>) -> (r: Result<usize, usize>)
    requires
        forall|w: &WeightedRhs| call_requires(f, (w,)),
        forall|w: &WeightedRhs, o: Ordering| call_ensures(f, (w,), o) ==> o == cmp_real(w.weight.r(), x),
        forall|i: int, j: int| 0 <= i <= j < v@.len() ==> (#[trigger] v@[i]).weight.r() <= (#[trigger] v@[j]).weight.r(),
    ensures
        match r {
            Ok(k) => k < v@.len() && v@[k as int].weight.r() == x,
            Err(k) => k <= v@.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] v@[i]).weight.r() < x) && (forall|i: int| k <= i < v@.len() ==> (#[trigger] v@[i]).weight.r() > x),
        },
{
    let mut k: usize = 0;
    while k < v.len()
        invariant
            k <= v@.len(), forall|i: int| 0 <= i < k ==> (#[trigger] v@[i]).weight.r() < x,
            forall|w: &WeightedRhs| call_requires(f, (w,)),
            forall|w: &WeightedRhs, o: Ordering| call_ensures(f, (w,), o) ==> o == cmp_real(w.weight.r(), x),
            forall|i: int, j: int| 0 <= i <= j < v@.len() ==> (#[trigger] v@[i]).weight.r() <= (#[trigger] v@[j]).weight.r(),
        decreases v@.len() - k,
    {
        match f(&v[k]) {
            Ordering::Less => { k = k + 1; }
            Ordering::Equal => { return Ok(k); }
            Ordering::Greater => {
                assert forall|i: int| k <= i < v@.len() implies (#[trigger] v@[i]).weight.r() > x by { assert(v@[k as int].weight.r() <= v@[i].weight.r()); }
                return Err(k);
            }
        }
    }
    Err(k)
}
pub proof fn lemma_is_alt(rs: Seq<CfgRule>, k: int, s: Symbol)
    requires 0 <= k <= rs.len(),
    ensures (alts(rs, k, s).len() > 0) == (exists|i: int| 0 <= i < k && (#[trigger] rs[i]).lhs == s),
{
    lemma_alts(rs, k, s);
    if alts(rs, k, s).len() > 0 { assert(rs[alts(rs, k, s)[0]].lhs == s); }
}
pub proof fn lemma_sorted(rs: Seq<CfgRule>, l: WeightedRhsList, al: Seq<int>)
    requires list_ok(l, rs, al),
    ensures forall|i: int, j: int| 0 <= i <= j < l.rhs_list@.len() ==> (#[trigger] l.rhs_list@[i]).weight.r() <= (#[trigger] l.rhs_list@[j]).weight.r(),
{
    assert forall|i: int, j: int| 0 <= i <= j < l.rhs_list@.len() implies (#[trigger] l.rhs_list@[i]).weight.r() <= (#[trigger] l.rhs_list@[j]).weight.r() by {
        lemma_cum(rs, al, i, j);
    }
}
/// What the weights say about a number drawn.
pub open spec fn in_share(l: WeightedRhsList, v: real, j: int) -> bool {
    l.rhs_list@[j].weight.r() <= v && (if j + 1 < l.rhs_list@.len() { v <= l.rhs_list@[j + 1].weight.r() } else { v <= l.total_weight.r() })
}
pub proof fn lemma_share(rs: Seq<CfgRule>, s: Symbol, l: WeightedRhsList, d: Seq<real>, v: real)
    requires list_ok(l, rs, alts(rs, rs.len() as int, s)),
    ensures
        alts(rs, rs.len() as int, s).len() >= 2 ==> forall|j: int| 0 <= j < l.rhs_list@.len() && in_share(l, v, j) ==> chosen(rs, s, (#[trigger] l.rhs_list@[j]).rhs@, d, d.push(v)),
        l.rhs_list@.len() > 0 ==> l.rhs_list@[0].weight.r() == 0real,
{
    let al = alts(rs, rs.len() as int, s);
    if al.len() >= 2 {
        assert forall|j: int| 0 <= j < l.rhs_list@.len() && in_share(l, v, j) implies chosen(rs, s, (#[trigger] l.rhs_list@[j]).rhs@, d, d.push(v)) by {
            if j + 1 < l.rhs_list@.len() { assert(l.rhs_list@[j + 1].weight.r() == cum(rs, al, j + 1)); }
            assert(d.push(v).take(d.len() as int) =~= d);
            assert(picked(rs, s, j, d, d.push(v)));
        }
    }
}
pub fn vx_no_syms<'a>() -> (r: &'a [Symbol])
    ensures r@ == Seq::<Symbol>::empty(),
{
    let r: &'a [Symbol] = &[];
    assert(r@ =~= Seq::<Symbol>::empty());
    r
}
//@fn cfg-generate/src/weighted/weighted_rhs_by_lhs.rs WeightedRhsByLhs::pick_rhs
//@impl impl WeightedRhsByLhs
//@sig pick_rhs<R> => pick_rhs
//@sig where R: GenRange, =>
//@sig rng: &mut R => rng: &mut VxRng, Ghost(rs): Ghost<Seq<CfgRule>>
//@rewrite let $v = rng.generate($$x); => let $v = rng.generate($$x); let ghost vx_v = $v.r(); proof { lemma_share(rs, lhs, self.weights@[lhs], old(rng).draws(), vx_v); }
//@rewrite_opt &$l.rhs_list[$$i].rhs[..] => $l.rhs_list[$$i].rhs.as_slice()
//@rewrite_opt &[] => vx_no_syms()
//@rewrite $l.binary_search_by(|$w| $$b) => vx_bsearch(&$l, |vx_w: &WeightedRhs| -> (o: Ordering) ensures o == cmp_real(vx_w.weight.r(), vx_v) { let $w = vx_w; $$b }, Ghost(vx_v))
    requires weighted_ok(self.weights@, rs, rs.len() as int), drawable(rs, lhs),
    ensures
        is_lhs(rs, lhs) ==> chosen(rs, lhs, ret@, old(rng).draws(), final(rng).draws()),
        !is_lhs(rs, lhs) ==> ret@.len() == 0 && final(rng).draws() == old(rng).draws(),
//@at begin
    broadcast use axiom_symbol_ord;
    let ghost al = alts(rs, rs.len() as int, lhs);
    proof {
        reveal(drawable);
        assert(sym_ok(self.weights@, rs, rs.len() as int, lhs));
        lemma_alts(rs, rs.len() as int, lhs);
        lemma_is_alt(rs, rs.len() as int, lhs);
        if al.len() > 0 { lemma_sorted(rs, self.weights@[lhs], al); }
        if al.len() == 1 { assert(picked(rs, lhs, 0, rng.draws(), rng.draws())); }
    }
//@end
// ---- a run of the generator
pub ghost struct St { pub work: Seq<Symbol>, pub res: Seq<Symbol>, pub text: Seq<char>, pub draws: Seq<real> }
pub open spec fn opt_char(c: Option<char>) -> Seq<char> { match c { Some(x) => seq![x], None => Seq::empty() } }
/// The first symbol is expanded by the alternative chosen for it.
pub open spec fn expands(rs: Seq<CfgRule>, a: St, b: St, rhs: Seq<Symbol>) -> bool {
    &&& is_lhs(rs, a.work[0]) && chosen(rs, a.work[0], rhs, a.draws, b.draws)
    &&& b.work == rhs + a.work.skip(1) && b.res == a.res && b.text == a.text
}
/// The first symbol is a terminal and is emitted; `c` is what the caller's function gives for it.
pub open spec fn emits(rs: Seq<CfgRule>, f: VxFn, a: St, b: St, c: Option<char>) -> bool {
    &&& !is_lhs(rs, a.work[0]) && gives(f, a.work[0], c)
    &&& b.work == a.work.skip(1) && b.res == a.res.push(a.work[0]) && b.text == a.text + opt_char(c)
    &&& a.draws.is_prefix_of(b.draws)
}
pub open spec fn gstep(rs: Seq<CfgRule>, f: VxFn, a: St, b: St) -> bool {
    a.work.len() > 0 && ((exists|rhs: Seq<Symbol>| expands(rs, a, b, rhs)) || (exists|c: Option<char>| emits(rs, f, a, b, c)))
}
pub open spec fn runs(rs: Seq<CfgRule>, f: VxFn, log: Seq<St>) -> bool { forall|i: int| 0 < i < log.len() ==> gstep(rs, f, log[i - 1], #[trigger] log[i]) }
pub open spec fn begun(log: Seq<St>, start: Symbol, d: Seq<real>) -> bool {
    log.len() > 0 && log[0] == (St { work: seq![start], res: Seq::empty(), text: Seq::empty(), draws: d })
}
/// Some run of the generator from `start` ends in `st`.
pub open spec fn run_to(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>, st: St) -> bool {
    exists|log: Seq<St>| #[trigger] begun(log, start, d) && runs(rs, f, log) && log.last() == st
}
pub open spec fn sentence(rs: Seq<CfgRule>, w: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < w.len() ==> !is_lhs(rs, #[trigger] w[i]) }
pub open spec fn all_in(w: Seq<Symbol>, n: int) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).raw < n }
pub proof fn lemma_run_begin(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>)
    ensures run_to(rs, f, start, d, St { work: seq![start], res: Seq::empty(), text: Seq::empty(), draws: d }),
{
    let log = seq![St { work: seq![start], res: Seq::empty(), text: Seq::empty(), draws: d }];
    assert(begun(log, start, d));
}
pub proof fn lemma_run_step(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>, a: St, b: St)
    requires run_to(rs, f, start, d, a), gstep(rs, f, a, b),
    ensures run_to(rs, f, start, d, b),
{
    let log = choose|log: Seq<St>| #[trigger] begun(log, start, d) && runs(rs, f, log) && log.last() == a;
    let l2 = log.push(b);
    assert(begun(l2, start, d));
    assert forall|i: int| 0 < i < l2.len() implies gstep(rs, f, l2[i - 1], #[trigger] l2[i]) by {
        if i < log.len() { assert(l2[i] == log[i]); }
    }
}
/// What the run has emitted, followed by what is left to do, is derivable from the start symbol.
pub open spec fn sound(rs: Seq<CfgRule>, start: Symbol, st: St) -> bool { sentence(rs, st.res) && der(prods(rs), seq![start], st.res + st.work) }
pub proof fn lemma_sound_step(rs: Seq<CfgRule>, f: VxFn, start: Symbol, a: St, b: St)
    requires sound(rs, start, a), gstep(rs, f, a, b),
    ensures sound(rs, start, b),
{
    let s = a.work[0];
    let x = a.res + a.work;
    assert(a.work =~= seq![s] + a.work.skip(1));
    if exists|rhs: Seq<Symbol>| expands(rs, a, b, rhs) {
        let rhs = choose|rhs: Seq<Symbol>| expands(rs, a, b, rhs);
        let al = alts(rs, rs.len() as int, s);
        let j = choose|j: int| #[trigger] picked(rs, s, j, a.draws, b.draws) && rhs == rs[al[j]].rhs@;
        lemma_alts(rs, rs.len() as int, s);
        let p = Prod { l: s, r: rhs };
        assert(rs[al[j]].lhs == s);
        assert(prods(rs).contains(p));
        let y = b.res + b.work;
        let i = a.res.len() as int;
        assert(x[i] == s);
        assert(y =~= x.take(i) + p.r + x.skip(i + 1));
        assert(step_at(prods(rs), x, y, p, i));
        lemma_step(prods(rs), x, y);
        lemma_trans(prods(rs), seq![start], x, y);
    } else {
        let c = choose|c: Option<char>| emits(rs, f, a, b, c);
        assert(b.res + b.work =~= x);
        assert(sentence(rs, b.res));
    }
}
/// The whole contract of a step: both of the above.
#[verifier::opaque]
pub open spec fn gen_ok(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>, st: St) -> bool { run_to(rs, f, start, d, st) && sound(rs, start, st) }
pub proof fn lemma_gen_begin(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>)
    ensures gen_ok(rs, f, start, d, St { work: seq![start], res: Seq::empty(), text: Seq::empty(), draws: d }),
{
    reveal(gen_ok);
    lemma_run_begin(rs, f, start, d);
    lemma_refl(prods(rs), seq![start]);
    assert(Seq::<Symbol>::empty() + seq![start] =~= seq![start]);
}
pub proof fn lemma_gen_emit(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>, a: St, b: St, c: Option<char>)
    requires gen_ok(rs, f, start, d, a), a.work.len() > 0, emits(rs, f, a, b, c),
    ensures gen_ok(rs, f, start, d, b),
{
    reveal(gen_ok);
    lemma_run_step(rs, f, start, d, a, b);
    lemma_sound_step(rs, f, start, a, b);
}
pub proof fn lemma_gen_expand(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>, a: St, b: St, rhs: Seq<Symbol>)
    requires gen_ok(rs, f, start, d, a), a.work.len() > 0, expands(rs, a, b, rhs),
    ensures gen_ok(rs, f, start, d, b),
{
    reveal(gen_ok);
    lemma_run_step(rs, f, start, d, a, b);
    lemma_sound_step(rs, f, start, a, b);
}
pub proof fn lemma_gen_done(rs: Seq<CfgRule>, f: VxFn, start: Symbol, d: Seq<real>, st: St)
    requires gen_ok(rs, f, start, d, st), st.work.len() == 0,
    ensures
        sentence(rs, st.res), der(prods(rs), seq![start], st.res),
        run_to(rs, f, start, d, St { work: Seq::empty(), res: st.res, text: st.text, draws: st.draws }),
{
    reveal(gen_ok);
    assert(st.res + st.work =~= st.res);
    assert(st.work =~= Seq::<Symbol>::empty());
}
pub proof fn lemma_rhs_in(rs: Seq<CfgRule>, n: int, s: Symbol, rhs: Seq<Symbol>, d: Seq<real>, d2: Seq<real>)
    requires rules_in(rs, n), chosen(rs, s, rhs, d, d2),
    ensures all_in(rhs, n),
{
    let al = alts(rs, rs.len() as int, s);
    let j = choose|j: int| #[trigger] picked(rs, s, j, d, d2) && rhs == rs[al[j]].rhs@;
    lemma_alts(rs, rs.len() as int, s);
    assert(rule_in(rs[al[j]], n));
}
// The map of negative rules. TRUSTED: it has the symbols of the rules for keys.
#[verifier::external_body]
pub fn vx_negative(rules: &[NegativeRule]) -> (r: BTreeMap<Symbol, Vec<char>>)
    ensures forall|s: Symbol| r@.contains_key(s) <==> exists|i: int| 0 <= i < rules@.len() && (#[trigger] rules@[i]).sym == s,
{ unimplemented!() }
// The record of places to go back to; only its emptiness matters here.
pub struct Backtracking { pub used: bool }
impl Backtracking {
    pub fn new() -> (r: Self)
        ensures !r.used,
    { Backtracking { used: false } }
    pub fn any(&self) -> (r: bool)
        ensures r ==> self.used,
    { self.used }
}
pub open spec fn within(l: Option<Limits>, k: int) -> bool { match l { Some(x) => k <= x.terminals, None => true } }
/// The next symbol is a terminal too many.
pub open spec fn exceeds(rs: Seq<CfgRule>, l: Option<Limits>, st: St) -> bool {
    st.work.len() > 0 && !is_lhs(rs, st.work[0]) && match l { Some(x) => st.res.len() == x.terminals, None => false }
}
pub open spec fn too_long(rs: Seq<CfgRule>, f: VxFn, start: Symbol, l: Option<Limits>, d: Seq<real>, d2: Seq<real>) -> bool {
    exists|st: St| #[trigger] gen_ok(rs, f, start, d, st) && exceeds(rs, l, st) && st.draws.is_prefix_of(d2)
}
//@fn cfg-generate/src/weighted/random.rs Random for Cfg::random
//@impl impl Cfg
//@sig random<R: GenRange + Clone, F: Fn(Symbol, &mut R) -> Option<char>> => random
//@sig rng: &mut R => rng: &mut VxRng
//@sig to_char: F => to_char: VxFn
//@rewrite let negative: $$t = $$e; => let negative = vx_negative(negative_rules);
//@rewrite let mut backtracking: $$t = $$e; => let mut backtracking = Backtracking::new();
//@rewrite let mut backtracking_attempts: $$t = $$e; =>
//@rewrite if let Some(back) = backtracking.get_mut($$k) { $$b } => if backtracking.any() { vx_unreachable::<()>(); }
//@rewrite if let Some(forbidden) = negative.get(&$s) { $$b } => if negative.contains_key(&$s) { vx_unreachable::<()>(); }
//@rewrite_opt while let Some(&$s) = work.first() { $$b } => while !work.is_empty() { let $s = work.vx_first(); $$b }
//@rewrite_opt to_char($$a) => { let vx_r = vx_call(&to_char, $$a); proof { vx_c = vx_r; } vx_r }
//@rewrite_opt terminal_set[$$i] => (*terminal_set.index($$i))
//@rewrite_opt weighted.pick_rhs($$a) => weighted.pick_rhs($$a, Ghost(self.rules@))
//@rewrite for $s in $r.iter().cloned().rev() { $$b } => for vx_i in 0..$r.len() { let $s = $r[$r.len() - 1 - vx_i]; $$b }
//@rewrite_opt let mut result = vec![]; => let mut result: Vec<Symbol> = Vec::new();
//@rewrite_opt let mut string = vec![]; => let mut string: Vec<char> = Vec::new();
//@rewrite_opt return Err($$e); => { proof { assert(gen_ok(rs, to_char, start, d0, a)); assert(exceeds(rs, limit, a)); assert(a.draws.is_prefix_of(rng.draws())); assert(too_long(rs, to_char, start, limit, d0, rng.draws())); } return Err($$e); }
//@loops while for
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires
        self.wf(), start.raw < self.n(), negative_rules@.len() == 0,
        forall|s: Symbol| #[trigger] drawable(self.rules@, s),
    ensures
        match ret {
            Ok(o) => {
                &&& sentence(self.rules@, o.0@) && der(prods(self.rules@), seq![start], o.0@) && within(limit, o.0@.len() as int)
                &&& run_to(self.rules@, to_char, start, old(rng).draws(), St { work: Seq::empty(), res: o.0@, text: o.1@, draws: final(rng).draws() })
            }
            Err(e) => e is LimitExceeded && too_long(self.rules@, to_char, start, limit, old(rng).draws(), final(rng).draws()),
        },
//@at begin
    broadcast use axiom_symbol_ord;
    let ghost rs = self.rules@;
    let ghost d0 = old(rng).draws();
    let ghost mut vx_c: Option<char> = None;
    proof { lemma_gen_begin(rs, to_char, start, d0); }
//@loop 0
    invariant
        gen_ok(rs, to_char, start, d0, St { work: work@, res: result@, text: string@, draws: rng.draws() }),
        all_in(work@, self.n()), within(limit, result@.len() as int), !backtracking.used,
//@at loop0.begin
    let ghost a = St { work: work@, res: result@, text: string@, draws: rng.draws() };
    assert(sym_of(a.work[0].ix()) == a.work[0]);
//@at loop0.end
    proof {
        let b = St { work: work@, res: result@, text: string@, draws: rng.draws() };
        if is_lhs(rs, a.work[0]) {
        } else {
            assert(b.text =~= a.text + opt_char(vx_c));
            lemma_gen_emit(rs, to_char, start, d0, a, b, vx_c);
        }
    }
//@at loop0.post
    proof { lemma_gen_done(rs, to_char, start, d0, St { work: work@, res: result@, text: string@, draws: rng.draws() }); }
//@at loop1.pre
    proof { lemma_rhs_in(rs, self.n(), a.work[0], rhs@, a.draws, rng.draws()); }
//@loop 1
    invariant
        __i1 <= __e1, __e1 == rhs@.len(),
        work@ == rhs@.skip(rhs@.len() - __i1) + a.work.skip(1),
    decreases __e1 - __i1,
//@at loop1.end
    proof { assert(work@ =~= rhs@.skip(rhs@.len() - __i1) + a.work.skip(1)); }
//@at loop1.post
    proof {
        assert(rhs@.skip(0) =~= rhs@);
        let b = St { work: work@, res: result@, text: string@, draws: rng.draws() };
        lemma_gen_expand(rs, to_char, start, d0, a, b, rhs@);
    }
//@end
// ---- the deterministic source of randomness
// TRUSTED: an iterator over bytes.
#[verifier::external_body]
pub struct VxBytes { x: u8 }
impl VxBytes {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
    { unimplemented!() }
}
//@struct cfg-generate/src/weighted/random.rs ByteSource
//@ty <I: Iterator<Item = u8>> =>
//@ty I => VxBytes
//@fn cfg-generate/src/weighted/random.rs GenRange for ByteSource::generate
//@impl impl ByteSource
//@sig f64 => F64
//@rewrite_opt $x as f64 * $l / 255.0 => { let vx_o = F64::of($x as u32).times($l).over(F64::of(255)); proof { lemma_in_range($x as int as real, $l.r(), vx_o.r()); } vx_o }
    requires limit.r() >= 0real,
    ensures 0real <= ret.r() <= limit.r(),
//@end
pub proof fn lemma_in_range(b: real, l: real, o: real)
    ensures 0real <= b <= 255real && l >= 0real && o == b * l / 255real ==> 0real <= o <= l,
{
    if 0real <= b <= 255real && l >= 0real && o == b * l / 255real {
        assert(0real <= b * l <= 255real * l) by (nonlinear_arith) requires 0real <= b <= 255real, l >= 0real;
        let p = b * l;
        assert(0real <= p / 255real <= l) by (nonlinear_arith) requires 0real <= p <= 255real * l;
    }
}
