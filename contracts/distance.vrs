// G19: minimal distances (cfg-predict-distance).
//@struct cfg-predict-distance/src/lib.rs DistanceDirection #[derive(Clone,Copy)]
//@struct cfg-predict-distance/src/lib.rs Distances
//@struct cfg-predict-distance/src/lib.rs MinimalDistance
//@ty MinimalDistance => VxDist

// ---- lengths of shortest sentences
/// What `rhs_closure_with_values` starts from: nulled symbols 0, terminals 1.
pub open spec fn lens0(rs: Seq<CfgRule>, n: int) -> Seq<Option<u32>> {
    Seq::new(n as nat, |i: int| if is_nulling(rs, sym_of(i)) { Some(0u32) } else if !is_lhs(rs, sym_of(i)) { Some(1u32) } else { None })
}
pub open spec fn ml(v: Seq<Option<u32>>, s: Symbol) -> int { v[s.ix()]->0 as int }
/// The sum of the lengths of `s[a..b]`.
pub open spec fn sm(v: Seq<Option<u32>>, s: Seq<Symbol>, a: int, b: int) -> int
    decreases b - a,
{
    if b <= a { 0 } else { sm(v, s, a, b - 1) + ml(v, s[b - 1]) }
}
pub proof fn lemma_sm_front(v: Seq<Option<u32>>, s: Seq<Symbol>, a: int, b: int)
    requires a < b,
    ensures sm(v, s, a, b) == ml(v, s[a]) + sm(v, s, a + 1, b),
    decreases b - a,
{
    if b - 1 > a { lemma_sm_front(v, s, a, b - 1); }
    else { assert(sm(v, s, a, b - 1) == 0); assert(sm(v, s, a + 1, b) == 0); }
}
pub proof fn lemma_sm_nonneg(v: Seq<Option<u32>>, s: Seq<Symbol>, a: int, b: int)
    ensures sm(v, s, a, b) >= 0,
    decreases b - a,
{
    if a < b { lemma_sm_nonneg(v, s, a, b - 1); }
}
pub proof fn lemma_sm_sub(v: Seq<Option<u32>>, s: Seq<Symbol>, a: int, b: int, l: int)
    requires 0 <= a <= b <= l,
    ensures sm(v, s, a, b) <= sm(v, s, 0, l),
    decreases a + l - b,
{
    if b < l { lemma_sm_sub(v, s, a, b + 1, l); }
    else if a > 0 { lemma_sm_front(v, s, a - 1, b); lemma_sm_sub(v, s, a - 1, b, l); }
}
/// All lengths are known, and distances made of them fit.
pub open spec fn cap(n: int) -> int { (u32::MAX as int) / (n + 1) }
pub open spec fn fits(rs: Seq<CfgRule>, v: Seq<Option<u32>>, n: int) -> bool {
    &&& forall|i: int, z: int| 0 <= i < rs.len() && 0 <= z < rs[i].rhs@.len() ==> v[(#[trigger] rs[i].rhs@[z]).ix()] is Some
    &&& forall|i: int| 0 <= i < rs.len() ==> sm(v, (#[trigger] rs[i]).rhs@, 0, rs[i].rhs@.len() as int) <= cap(n)
}

// ---- positions and moves between them
pub ghost struct Env { pub rs: Seq<CfgRule>, pub v: Seq<Option<u32>>, pub n: int, pub t: ISet<(int, int)>, pub fw: bool, pub bw: bool }
impl Env {
    pub open spec fn on(self, rev: bool) -> bool { if rev { self.bw } else { self.fw } }
    pub open spec fn single(self) -> bool { self.fw != self.bw }
    pub open spec fn rhs(self, i: int) -> Seq<Symbol> { self.rs[i].rhs@ }
    pub open spec fn at(self, i: int, j: int) -> bool { 0 <= i < self.rs.len() && 0 <= j <= self.rs[i].rhs@.len() }
    pub open spec fn sym(self, i: int, z: int) -> bool { 0 <= i < self.rs.len() && 0 <= z < self.rs[i].rhs@.len() }
    pub open spec fn ok(self) -> bool {
        rules_in(self.rs, self.n) && self.v.len() == self.n && fits(self.rs, self.v, self.n) && 0 <= self.n <= u32::MAX
    }
}
/// The position next to symbol `z` that is nearer to what lies in the direction, and the other one.
pub open spec fn land(rev: bool, z: int) -> int { if rev { z } else { z + 1 } }
pub open spec fn opp(rev: bool, z: int) -> int { if rev { z + 1 } else { z } }
/// Where one enters a rule, and where one leaves it.
pub open spec fn entry(e: Env, rev: bool, i: int) -> int { if rev { e.rs[i].rhs@.len() as int } else { 0 } }
pub open spec fn exit(e: Env, rev: bool, i: int) -> int { if rev { 0 } else { e.rs[i].rhs@.len() as int } }
/// One move in the direction, past `w` terminals: over a symbol, into a rule of the symbol, or out of a rule.
pub open spec fn hop(e: Env, rev: bool, i: int, j: int, i2: int, j2: int, w: int) -> bool {
    &&& e.at(i, j) && e.at(i2, j2)
    &&& over(e, rev, i, j, i2, j2, w) || (w == 0 && into(e, rev, i, j, i2, j2)) || (w == 0 && out(e, rev, i, j, i2, j2))
}
pub open spec fn over(e: Env, rev: bool, i: int, j: int, i2: int, j2: int, w: int) -> bool {
    i2 == i && exists|z: int| #[trigger] e.sym(i, z) && j == opp(rev, z) && j2 == land(rev, z) && w == ml(e.v, e.rs[i].rhs@[z])
}
pub open spec fn into(e: Env, rev: bool, i: int, j: int, i2: int, j2: int) -> bool {
    j2 == entry(e, rev, i2) && exists|z: int| #[trigger] e.sym(i, z) && j == opp(rev, z) && e.rs[i2].lhs == e.rs[i].rhs@[z]
}
pub open spec fn out(e: Env, rev: bool, i: int, j: int, i2: int, j2: int) -> bool {
    j == exit(e, rev, i) && exists|z: int| #[trigger] e.sym(i2, z) && j2 == land(rev, z) && e.rs[i2].rhs@[z] == e.rs[i].lhs
}
/// A target is `k` moves and `d` terminals away.
pub open spec fn neark(e: Env, rev: bool, i: int, j: int, d: int, k: nat) -> bool
    decreases k,
{
    e.at(i, j) && if k == 0 { e.t.contains((i, j)) && d == 0 } else {
        exists|i2: int, j2: int, w: int| #[trigger] hop(e, rev, i, j, i2, j2, w) && neark(e, rev, i2, j2, d - w, (k - 1) as nat)
    }
}
pub open spec fn near(e: Env, rev: bool, i: int, j: int, d: int) -> bool { exists|k: nat| neark(e, rev, i, j, d, k) }
pub proof fn lemma_hop(e: Env, rev: bool, i: int, j: int, i2: int, j2: int, w: int, d: int)
    requires hop(e, rev, i, j, i2, j2, w), near(e, rev, i2, j2, d),
    ensures near(e, rev, i, j, d + w),
{
    let k = choose|k: nat| neark(e, rev, i2, j2, d, k);
    assert((d + w) - w == d);
    assert(neark(e, rev, i, j, d + w, k + 1));
}

// ---- what is known of the tables
pub open spec fn minopt(o: Option<u32>, x: u32) -> Option<u32> { match o { Some(y) => if y > x { Some(x) } else { o }, None => Some(x) } }
pub open spec fn dims(e: Env, d: Seq<Seq<Option<u32>>>) -> bool {
    d.len() == e.rs.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len() == e.rs[i].rhs@.len() + 1
}
pub open spec fn near_any(e: Env, i: int, j: int, d: int) -> bool { (e.fw && near(e, false, i, j, d)) || (e.bw && near(e, true, i, j, d)) }
pub open spec fn s1(e: Env, d: Seq<Seq<Option<u32>>>) -> bool {
    forall|i: int, j: int| #[trigger] e.at(i, j) ==> (d[i][j] matches Some(x) ==> near_any(e, i, j, x as int))
}
pub open spec fn lands(e: Env, rev: bool, i: int, z: int, s: Symbol, x: int) -> bool {
    e.sym(i, z) && e.rs[i].rhs@[z] == s && near(e, rev, i, land(rev, z), x)
}
pub open spec fn s2(e: Env, rev: bool, a: Seq<Option<u32>>) -> bool {
    a.len() == e.n && forall|s: Symbol| s.raw < e.n ==> (a[#[trigger] s.ix()] matches Some(x) ==> e.on(rev) && exists|i: int, z: int| lands(e, rev, i, z, s, x as int))
}
pub open spec fn enters(e: Env, rev: bool, i: int, s: Symbol, x: int) -> bool {
    0 <= i < e.rs.len() && e.rs[i].lhs == s && near(e, rev, i, entry(e, rev, i), x)
}
pub open spec fn s3(e: Env, rev: bool, b: Seq<Option<u32>>) -> bool {
    b.len() == e.n && forall|s: Symbol| s.raw < e.n ==> (b[#[trigger] s.ix()] matches Some(x) ==> entered(e, rev, s, x as int))
}
pub open spec fn entered(e: Env, rev: bool, s: Symbol, x: int) -> bool { exists|i: int| enters(e, rev, i, s, x) }
pub open spec fn cnt(a: Seq<Option<u32>>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { cnt(a, k - 1) + if a[k - 1] is Some { 1int } else { 0 } }
}
pub proof fn lemma_cnt(a: Seq<Option<u32>>, x: int, y: u32, k: int)
    requires 0 <= x < a.len(), 0 <= k <= a.len(),
    ensures
        cnt(a.update(x, Some(y)), k) == cnt(a, k) + (if x < k && a[x] is None { 1int } else { 0 }),
        0 <= cnt(a, k) <= k,
    decreases k,
{
    if k > 0 { lemma_cnt(a, x, y, k - 1); }
}
pub open spec fn bnd(e: Env, a: Seq<Option<u32>>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] matches Some(x) ==> x <= cnt(a, e.n) * cap(e.n))
}
/// The table of a symbol is at most the distance after each of its occurrences.
pub open spec fn i1(e: Env, rev: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>) -> bool {
    forall|i: int, z: int| #[trigger] e.sym(i, z) ==> (d[i][land(rev, z)] matches Some(x) ==> at_most(a[e.rs[i].rhs@[z].ix()], x as int))
}
pub open spec fn next_ok(e: Env, rev: bool, d: Seq<Seq<Option<u32>>>, i: int, z: int) -> bool {
    d[i][land(rev, z)] matches Some(x) ==> at_most(d[i][opp(rev, z)], x + ml(e.v, e.rs[i].rhs@[z]))
}
/// A position is at most as far as the next one and the symbol between them.
pub open spec fn i3(e: Env, rev: bool, d: Seq<Seq<Option<u32>>>) -> bool {
    forall|i: int, z: int| #[trigger] e.sym(i, z) ==> next_ok(e, rev, d, i, z)
}
pub open spec fn i3hole(e: Env, rev: bool, d: Seq<Seq<Option<u32>>>, idx: int, zh: int, cur: int) -> bool {
    forall|i: int, z: int| #[trigger] e.sym(i, z) ==> next_ok(e, rev, d, i, z)
        || (i == idx && z == zh && (d[i][land(rev, z)] matches Some(x) ==> cur <= x + ml(e.v, e.rs[i].rhs@[z])))
}
pub open spec fn lowr(d0: Seq<Seq<Option<u32>>>, d: Seq<Seq<Option<u32>>>) -> bool {
    d.len() == d0.len() && forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].len() ==> (d0[i][j] matches Some(x) ==> at_most(#[trigger] d[i][j], x as int))
}
pub open spec fn pot(d: Seq<Seq<Option<u32>>>, k: int) -> nat
    decreases k,
{
    if k <= 0 { 0 } else { pot(d, k - 1) + total(d[k - 1], d[k - 1].len() as int) }
}
pub proof fn lemma_pot(d: Seq<Seq<Option<u32>>>, i: int, j: int, y: Option<u32>, k: int)
    requires 0 <= i < d.len(), 0 <= j < d[i].len(), weight1(y) < weight1(d[i][j]), 0 <= k <= d.len(),
    ensures
        i < k ==> pot(d.update(i, d[i].update(j, y)), k) < pot(d, k),
        i >= k ==> pot(d.update(i, d[i].update(j, y)), k) == pot(d, k),
    decreases k,
{
    if k > 0 {
        lemma_pot(d, i, j, y, k - 1);
        if i == k - 1 { lemma_total(d[i], j, y, d[i].len() as int); }
    }
}

// ---- a walk through one rule
pub ghost struct Walk { pub rev: bool, pub idx: int, pub start: int, pub len: int, pub cur0: int, pub cnt0: int, pub d0: Seq<Seq<Option<u32>>>, pub a0: Seq<Option<u32>>, pub b: Seq<Option<u32>> }
impl Walk {
    /// The position after `k` symbols, and the symbol then passed.
    pub open spec fn pos(self, k: int) -> int { if self.rev { self.start + k } else { self.start + self.len - k } }
    pub open spec fn z(self, k: int) -> int { if self.rev { self.start + k } else { self.start + self.len - k - 1 } }
    pub open spec fn ps(self, e: Env, k: int) -> int {
        if self.rev { sm(e.v, e.rs[self.idx].rhs@, self.start, self.start + k) } else { sm(e.v, e.rs[self.idx].rhs@, self.start + self.len - k, self.start + self.len) }
    }
    pub open spec fn ok(self, e: Env) -> bool {
        &&& e.ok() && e.on(self.rev) && 0 <= self.idx < e.rs.len()
        &&& 0 <= self.start && 0 <= self.len && self.start + self.len <= e.rs[self.idx].rhs@.len()
        &&& if self.rev { self.start + self.len == e.rs[self.idx].rhs@.len() } else { self.start == 0 }
        &&& 0 <= self.cur0 <= self.cnt0 * cap(e.n)
        &&& dims(e, self.d0) && self.a0.len() == e.n && s3(e, self.rev, self.b)
    }
}
pub open spec fn tables(e: Env, w: Walk, changed: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>) -> bool {
    &&& dims(e, d) && s1(e, d) && s2(e, w.rev, a) && bnd(e, a)
    &&& w.cnt0 <= cnt(a, e.n)
    &&& lowr(w.d0, d)
    &&& if changed { pot(d, d.len() as int) < pot(w.d0, w.d0.len() as int) } else { d == w.d0 }
    &&& e.single() ==> i1(e, w.rev, d, a) && (!changed ==> a == w.a0)
}
pub open spec fn walked(e: Env, w: Walk, d: Seq<Seq<Option<u32>>>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> at_most(d[w.idx][#[trigger] w.pos(j)], w.cur0 + w.ps(e, j))
}
#[verifier::opaque]
pub open spec fn linv(e: Env, w: Walk, k: int, cur: int, changed: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>) -> bool {
    &&& tables(e, w, changed, d, a)
    &&& near(e, w.rev, w.idx, w.pos(k), cur) && 0 <= cur <= w.cur0 + w.ps(e, k)
    &&& walked(e, w, d, k)
    &&& e.single() ==> (if k == 0 { i3(e, w.rev, d) } else { i3hole(e, w.rev, d, w.idx, w.z(k - 1), cur) })
}
pub open spec fn after_sym(e: Env, b: Seq<Option<u32>>, s: Symbol, cur: int) -> int {
    match b[s.ix()] { Some(x) => if cur + ml(e.v, s) <= x { cur + ml(e.v, s) } else { x as int }, None => cur + ml(e.v, s) }
}
pub proof fn lemma_cap(e: Env, w: Walk, c: int)
    requires e.ok(), w.cnt0 <= c <= e.n, w.cur0 <= w.cnt0 * cap(e.n),
    ensures w.cur0 + cap(e.n) <= (c + 1) * cap(e.n) <= u32::MAX, 0 <= cap(e.n),
{
    let m = cap(e.n);
    assert(m * (e.n + 1) <= u32::MAX && m >= 0) by (nonlinear_arith) requires m == (u32::MAX as int) / (e.n + 1), e.n >= 0;
    assert(w.cnt0 * m + m <= (c + 1) * m <= m * (e.n + 1)) by (nonlinear_arith) requires m >= 0, w.cnt0 <= c <= e.n;
}
pub proof fn lemma_ps(e: Env, w: Walk, k: int)
    requires w.ok(e), 0 <= k <= w.len,
    ensures
        0 <= w.ps(e, k) <= cap(e.n),
        k < w.len ==> w.ps(e, k + 1) == w.ps(e, k) + ml(e.v, e.rs[w.idx].rhs@[w.z(k)]),
{
    let s = e.rs[w.idx].rhs@;
    let (a, b) = if w.rev { (w.start, w.start + k) } else { (w.start + w.len - k, w.start + w.len) };
    lemma_sm_nonneg(e.v, s, a, b);
    lemma_sm_sub(e.v, s, a, b, s.len() as int);
    if k < w.len && !w.rev { lemma_sm_front(e.v, s, a - 1, b); }
}
/// Setting one entry of the distances.
pub proof fn lemma_set_d(e: Env, w: Walk, q: int, cur: u32, changed: bool, d: Seq<Seq<Option<u32>>>)
    requires
        w.ok(e), dims(e, d), s1(e, d), lowr(w.d0, d), e.at(w.idx, q), near(e, w.rev, w.idx, q, cur as int),
        if changed { pot(d, d.len() as int) < pot(w.d0, w.d0.len() as int) } else { d == w.d0 },
    ensures ({
        let d1 = d.update(w.idx, d[w.idx].update(q, minopt(d[w.idx][q], cur)));
        let ch1 = changed || minopt(d[w.idx][q], cur) != d[w.idx][q];
        &&& dims(e, d1) && s1(e, d1) && lowr(w.d0, d1) && lowr(d, d1)
        &&& if ch1 { pot(d1, d1.len() as int) < pot(w.d0, w.d0.len() as int) } else { d1 == w.d0 }
        &&& minopt(d[w.idx][q], cur) == d[w.idx][q] ==> d1 == d
    }),
{
    let y = minopt(d[w.idx][q], cur);
    let d1 = d.update(w.idx, d[w.idx].update(q, y));
    if y == d[w.idx][q] {
        assert(d[w.idx].update(q, y) =~= d[w.idx]);
        assert(d1 =~= d);
    } else {
        lemma_pot(d, w.idx, q, y, d.len() as int);
    }
    assert forall|i: int, j: int| #[trigger] e.at(i, j) implies (d1[i][j] matches Some(x) ==> near_any(e, i, j, x as int)) by {
        if i == w.idx && j == q { assert(near_any(e, i, j, cur as int)); }
    }
    assert forall|i: int, j: int| 0 <= i < d1.len() && 0 <= j < d1[i].len() implies (d[i][j] matches Some(x) ==> at_most(#[trigger] d1[i][j], x as int)) by {}
    assert forall|i: int, j: int| 0 <= i < d1.len() && 0 <= j < d1[i].len() implies (w.d0[i][j] matches Some(x) ==> at_most(#[trigger] d1[i][j], x as int)) by {
        assert(w.d0[i][j] matches Some(x) ==> at_most(d[i][j], x as int));
    }
}
pub proof fn lemma_walk_near(e: Env, w: Walk, k: int, cur: u32)
    requires w.ok(e), 0 <= k < w.len, near(e, w.rev, w.idx, w.pos(k), cur as int),
    ensures ({
        let s = e.rs[w.idx].rhs@[w.z(k)];
        &&& near(e, w.rev, w.idx, w.pos(k + 1), after_sym(e, w.b, s, cur as int))
        &&& e.sym(w.idx, w.z(k)) && w.pos(k) == land(w.rev, w.z(k)) && w.pos(k + 1) == opp(w.rev, w.z(k)) && e.at(w.idx, w.pos(k)) && s.raw < e.n
    }),
{
    let q = w.pos(k);
    let z0 = w.z(k);
    let s = e.rs[w.idx].rhs@[z0];
    let q1 = w.pos(k + 1);
    assert(rule_in(e.rs[w.idx], e.n));
    assert(e.sym(w.idx, z0) && q == land(w.rev, z0) && e.at(w.idx, q));
    assert(q1 == opp(w.rev, z0) && e.at(w.idx, q1));
    assert(hop(e, w.rev, w.idx, q1, w.idx, q, ml(e.v, s)));
    lemma_hop(e, w.rev, w.idx, q1, w.idx, q, ml(e.v, s), cur as int);
    if w.b[s.ix()] is Some {
        let x = w.b[s.ix()]->0 as int;
        let m = choose|m: int| enters(e, w.rev, m, s, x);
        assert(enters(e, w.rev, m, s, x));
        assert(e.at(m, entry(e, w.rev, m)));
        assert(hop(e, w.rev, w.idx, q1, m, entry(e, w.rev, m), 0));
        lemma_hop(e, w.rev, w.idx, q1, m, entry(e, w.rev, m), 0, x);
    }
}
pub proof fn lemma_walk_a(e: Env, w: Walk, k: int, cur: u32, a: Seq<Option<u32>>)
    requires
        w.ok(e), 0 <= k < w.len, near(e, w.rev, w.idx, w.pos(k), cur as int), cur <= w.cur0 + w.ps(e, k),
        s2(e, w.rev, a), bnd(e, a), w.cnt0 <= cnt(a, e.n), e.rs[w.idx].rhs@[w.z(k)].raw < e.n,
    ensures ({
        let s = e.rs[w.idx].rhs@[w.z(k)];
        let a1 = a.update(s.ix(), minopt(a[s.ix()], cur));
        s2(e, w.rev, a1) && bnd(e, a1) && w.cnt0 <= cnt(a1, e.n) && a.len() == e.n
    }),
{
    let z0 = w.z(k);
    let s = e.rs[w.idx].rhs@[z0];
    let y = minopt(a[s.ix()], cur);
    let a1 = a.update(s.ix(), y);
    lemma_ps(e, w, k);
    assert(a1 == a.update(s.ix(), Some(y->0)));
    lemma_cnt(a, s.ix(), y->0, e.n);
    lemma_cap(e, w, cnt(a, e.n));
    assert(e.sym(w.idx, z0) && w.pos(k) == land(w.rev, z0));
    assert forall|t: Symbol| t.raw < e.n implies (a1[#[trigger] t.ix()] matches Some(x) ==> e.on(w.rev) && exists|i: int, z: int| lands(e, w.rev, i, z, t, x as int)) by {
        if t == s { assert(lands(e, w.rev, w.idx, z0, s, cur as int)); }
    }
    let c1 = cnt(a1, e.n);
    let c0 = cnt(a, e.n);
    let m = cap(e.n);
    assert(c0 * m <= c1 * m) by (nonlinear_arith) requires 0 <= m, c0 <= c1;
    assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i] matches Some(x) ==> x <= c1 * m) by {
        assert(a[i] matches Some(x) ==> x <= c0 * m);
        if i == s.ix() && a[i] is None { assert(c1 == c0 + 1); }
    }
}
pub proof fn lemma_walk_single(e: Env, w: Walk, k: int, cur: u32, changed: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>)
    requires
        w.ok(e), 0 <= k < w.len, dims(e, d), a.len() == e.n, i1(e, w.rev, d, a),
        if k == 0 { i3(e, w.rev, d) } else { i3hole(e, w.rev, d, w.idx, w.z(k - 1), cur as int) },
        w.pos(k) == land(w.rev, w.z(k)), e.sym(w.idx, w.z(k)),
    ensures ({
        let q = w.pos(k);
        let s = e.rs[w.idx].rhs@[w.z(k)];
        let d1 = d.update(w.idx, d[w.idx].update(q, minopt(d[w.idx][q], cur)));
        let a1 = a.update(s.ix(), minopt(a[s.ix()], cur));
        &&& i1(e, w.rev, d1, a1)
        &&& minopt(d[w.idx][q], cur) == d[w.idx][q] ==> a1 == a
        &&& i3hole(e, w.rev, d1, w.idx, w.z(k), after_sym(e, w.b, s, cur as int))
    }),
{
    let q = w.pos(k);
    let z0 = w.z(k);
    let s = e.rs[w.idx].rhs@[z0];
    let d1 = d.update(w.idx, d[w.idx].update(q, minopt(d[w.idx][q], cur)));
    let a1 = a.update(s.ix(), minopt(a[s.ix()], cur));
    let cur1 = after_sym(e, w.b, s, cur as int);
    assert(rule_in(e.rs[w.idx], e.n));
    assert forall|i: int, z: int| #[trigger] e.sym(i, z) implies (d1[i][land(w.rev, z)] matches Some(x) ==> at_most(a1[e.rs[i].rhs@[z].ix()], x as int)) by {
        assert(rule_in(e.rs[i], e.n));
    }
    if minopt(d[w.idx][q], cur) == d[w.idx][q] {
        assert(at_most(d[w.idx][q], cur as int));
        assert(d[w.idx][land(w.rev, z0)] matches Some(x) ==> at_most(a[s.ix()], x as int));
        assert(a1 =~= a);
    }
    assert forall|i: int, z: int| #[trigger] e.sym(i, z) implies next_ok(e, w.rev, d1, i, z)
        || (i == w.idx && z == w.z(k) && (d1[i][land(w.rev, z)] matches Some(x) ==> cur1 <= x + ml(e.v, e.rs[i].rhs@[z]))) by {
        if k == 0 { assert(next_ok(e, w.rev, d, i, z)); }
        else if i == w.idx && z == w.z(k - 1) { assert(opp(w.rev, z) == q); }
        else { assert(next_ok(e, w.rev, d, i, z)); }
    }
}
#[verifier::rlimit(40)]
pub proof fn lemma_walk(e: Env, w: Walk, k: int, cur: u32, changed: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>)
    requires w.ok(e), linv(e, w, k, cur as int, changed, d, a), 0 <= k < w.len,
    ensures ({
        let q = w.pos(k);
        let s = e.rs[w.idx].rhs@[w.z(k)];
        let d1 = d.update(w.idx, d[w.idx].update(q, minopt(d[w.idx][q], cur)));
        let a1 = a.update(s.ix(), minopt(a[s.ix()], cur));
        let ch1 = changed || minopt(d[w.idx][q], cur) != d[w.idx][q];
        linv(e, w, k + 1, after_sym(e, w.b, s, cur as int), ch1, d1, a1)
    }),
{
    hide(near); hide(s1); hide(s2); hide(s3); hide(bnd); hide(i1); hide(i3); hide(i3hole); hide(lowr); hide(pot); hide(cnt); hide(sm);
    reveal(linv);
    let q = w.pos(k);
    let d1 = d.update(w.idx, d[w.idx].update(q, minopt(d[w.idx][q], cur)));
    lemma_walk_near(e, w, k, cur);
    lemma_set_d(e, w, q, cur, changed, d);
    lemma_ps(e, w, k);
    lemma_walk_a(e, w, k, cur, a);
    if e.single() { lemma_walk_single(e, w, k, cur, changed, d, a); }
    assert forall|j: int| 0 <= j < k + 1 implies at_most(d1[w.idx][#[trigger] w.pos(j)], w.cur0 + w.ps(e, j)) by {
        if j < k { assert(at_most(d[w.idx][w.pos(j)], w.cur0 + w.ps(e, j))); }
    }
}
pub proof fn lemma_walk_end(e: Env, w: Walk, cur: u32, changed: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>)
    requires w.ok(e), linv(e, w, w.len, cur as int, changed, d, a),
    ensures ({
        let q = w.pos(w.len);
        let d1 = d.update(w.idx, d[w.idx].update(q, minopt(d[w.idx][q], cur)));
        let ch1 = changed || minopt(d[w.idx][q], cur) != d[w.idx][q];
        tables(e, w, ch1, d1, a) && walked(e, w, d1, w.len + 1) && (e.single() ==> i3(e, w.rev, d1))
            && near(e, w.rev, w.idx, entry(e, w.rev, w.idx), cur as int)
    }),
{
    reveal(linv);
    let q = w.pos(w.len);
    let d1 = d.update(w.idx, d[w.idx].update(q, minopt(d[w.idx][q], cur)));
    assert(e.at(w.idx, q));
    assert(q == entry(e, w.rev, w.idx));
    lemma_set_d(e, w, q, cur, changed, d);
    assert forall|j: int| 0 <= j < w.len + 1 implies at_most(d1[w.idx][#[trigger] w.pos(j)], w.cur0 + w.ps(e, j)) by {
        if j < w.len { assert(at_most(d[w.idx][w.pos(j)], w.cur0 + w.ps(e, j))); }
    }
    if e.single() {
        assert forall|i: int, z: int| #[trigger] e.sym(i, z) implies (d1[i][land(w.rev, z)] matches Some(x) ==> at_most(a[e.rs[i].rhs@[z].ix()], x as int)) by {}
        assert forall|i: int, z: int| #[trigger] e.sym(i, z) implies next_ok(e, w.rev, d1, i, z) by {
            assert(next_ok(e, w.rev, d, i, z) || (w.len > 0 && i == w.idx && z == w.z(w.len - 1)));
        }
    }
}

// ---- the real code
impl<'a> VxDist<'a> {
    pub open spec fn dv(self) -> Seq<Seq<Option<u32>>> { Seq::new(self.distances@.len(), |i: int| self.distances@[i]@) }
    pub open spec fn after(self, rev: bool) -> Seq<Option<u32>> { if rev { self.backward_distances.after@ } else { self.forward_distances.after@ } }
    pub open spec fn before(self, rev: bool) -> Seq<Option<u32>> { if rev { self.backward_distances.before@ } else { self.forward_distances.before@ } }
    pub open spec fn shape(self, e: Env) -> bool {
        e.ok() && e.rs == self.grammar.rules@ && e.n == self.grammar.n() && self.min_length@ == e.v && dims(e, self.dv())
    }
    pub open spec fn side(self, e: Env, rev: bool) -> bool {
        &&& s2(e, rev, self.after(rev)) && s3(e, rev, self.before(rev)) && bnd(e, self.after(rev))
        &&& e.single() && e.on(rev) ==> i1(e, rev, self.dv(), self.after(rev)) && i3(e, rev, self.dv())
    }
    #[verifier::opaque]
    pub open spec fn state(self, e: Env) -> bool {
        self.shape(e) && s1(e, self.dv()) && self.side(e, false) && self.side(e, true)
    }
}
pub open spec fn none_of(s: Seq<Option<u32>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is None }
//@fn cfg-predict-distance/src/lib.rs DistanceDirection::includes_forward
    ensures ret == !(self is Backward),
//@end
//@fn cfg-predict-distance/src/lib.rs DistanceDirection::includes_backward
    ensures ret == !(self is Forward),
//@end
//@fn cfg-predict-distance/src/lib.rs Distances::new
//@rewrite_opt vec![None; $$n] => vx_nones($$n)
    ensures ret.before@.len() == num_syms, ret.after@.len() == num_syms, none_of(ret.before@), none_of(ret.after@),
//@end
/// `vec![None; n]`.
pub fn vx_nones(n: usize) -> (r: Vec<Option<u32>>)
    ensures r@.len() == n, none_of(r@),
{
    let mut v: Vec<Option<u32>> = Vec::new();
    let mut k: usize = 0;
    while k < n
        invariant v@.len() == k, k <= n, none_of(v@),
        decreases n - k,
    {
        v.push(None);
        k = k + 1;
    }
    v
}
//@fn cfg-predict-distance/src/lib.rs set_min
    ensures *final(current) == minopt(*old(current), new), ret == (*final(current) != *old(current)),
//@end
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::distances
//@impl impl<'a> VxDist<'a>
//@rewrite_opt &self.distances[..] => self.distances.as_slice()
    ensures ret@ == self.distances@,
//@end
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::update_sym_distance
//@impl impl<'a> VxDist<'a>
//@rewrite_opt set_min(if $c { $$a } else { $$b }, $$x); => if $c { set_min($$a, $$x); } else { set_min($$b, $$x); }
//@rewrite_opt if let Some($s) = if $c { &$a } else { &$b }.before[$$i] { $$t } else { $$f } => { let vx_o = if $c { $a.before[$$i] } else { $b.before[$$i] }; if let Some($s) = vx_o { $$t } else { $$f } }
//@rewrite_opt $a.min($$b) => vx_min($a, $$b)
    requires
        sym.raw < old(self).after(reverse).len(), sym.raw < old(self).before(reverse).len(), sym.raw < old(self).min_length@.len(),
        old(self).min_length@[sym.ix()] is Some, cur + ml(old(self).min_length@, sym) <= u32::MAX,
    ensures
        final(self).distances == old(self).distances, final(self).grammar == old(self).grammar, final(self).min_length == old(self).min_length,
        final(self).before(false) == old(self).before(false), final(self).before(true) == old(self).before(true),
        final(self).after(reverse) == old(self).after(reverse).update(sym.ix(), minopt(old(self).after(reverse)[sym.ix()], cur)),
        final(self).after(!reverse) == old(self).after(!reverse),
        ret == (match old(self).before(reverse)[sym.ix()] {
            Some(x) => if cur + ml(old(self).min_length@, sym) <= x { cur + ml(old(self).min_length@, sym) } else { x as int },
            None => cur + ml(old(self).min_length@, sym),
        }),
//@end
pub fn vx_min(a: u32, b: u32) -> (r: u32)
    ensures r == (if a <= b { a } else { b }),
{
    if a <= b { a } else { b }
}
pub open spec fn walk_of(s: VxDist, cur: int, len: int, idx: int, start: int, rev: bool) -> Walk {
    Walk { rev: rev, idx: idx, start: start, len: len, cur0: cur, cnt0: cnt(s.after(rev), s.grammar.n()), d0: s.dv(), a0: s.after(rev), b: s.before(rev) }
}
pub open spec fn same_rest(s: VxDist, t: VxDist, rev: bool) -> bool {
    &&& s.grammar == t.grammar && s.min_length == t.min_length && s.before(false) == t.before(false) && s.before(true) == t.before(true)
    &&& s.after(!rev) == t.after(!rev)
}
pub proof fn lemma_walk_start(e: Env, s: VxDist, w: Walk)
    requires
        s.state(e), e.on(w.rev), 0 <= w.idx < e.rs.len(), 0 <= w.start, 0 <= w.len, w.start + w.len <= e.rs[w.idx].rhs@.len(),
        if w.rev { w.start + w.len == e.rs[w.idx].rhs@.len() } else { w.start == 0 },
        near(e, w.rev, w.idx, w.pos(0), w.cur0), 0 <= w.cur0 <= cnt(s.after(w.rev), e.n) * cap(e.n),
        w == walk_of(s, w.cur0, w.len, w.idx, w.start, w.rev),
    ensures w.ok(e), linv(e, w, 0, w.cur0, false, s.dv(), s.after(w.rev)), e.n == s.after(w.rev).len(),
{
    reveal(linv);
    reveal(VxDist::state);
    assert(w.ps(e, 0) == 0);
    assert(s.side(e, w.rev));
}
pub proof fn lemma_walk_state(e: Env, s: VxDist, t: VxDist, w: Walk, changed: bool)
    requires
        s.state(e), same_rest(s, t, w.rev), e.on(w.rev), tables(e, w, changed, t.dv(), t.after(w.rev)), e.single() ==> i3(e, w.rev, t.dv()),
        w == walk_of(s, w.cur0, w.len, w.idx, w.start, w.rev),
    ensures t.state(e),
{
    reveal(VxDist::state);
    assert(s.side(e, false) && s.side(e, true));
    assert(!w.rev ==> t.after(true) == s.after(true));
    assert(w.rev ==> t.after(false) == s.after(false));
    if e.single() { assert(!e.on(!w.rev)); }
    assert(t.side(e, w.rev));
    assert(t.side(e, !w.rev));
}
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::update_rule_distances
//@impl impl<'a> VxDist<'a>
//@sig reverse: bool => reverse: bool, Ghost(e): Ghost<Env>
//@rewrite_opt for (dot, &sym) in rhs.iter().enumerate().rev() { $$b } => for vx_k in 0..rhs.len() { let dot = rhs.len() - 1 - vx_k; let sym = rhs[dot]; $$b }
//@rewrite_opt for (dot, &sym) in rhs.iter().enumerate() { $$b } => for vx_k in 0..rhs.len() { let dot = vx_k; let sym = rhs[dot]; $$b }
//@rewrite_opt changed |= $$e; => { let vx_b = $$e; changed = changed || vx_b; }
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).state(e), e.on(reverse), idx < e.rs.len(), start + rhs@.len() <= e.rs[idx as int].rhs@.len(),
        rhs@ == e.rs[idx as int].rhs@.subrange(start as int, start + rhs@.len()),
        if reverse { start + rhs@.len() == e.rs[idx as int].rhs@.len() } else { start == 0 },
        near(e, reverse, idx as int, if reverse { start as int } else { start + rhs@.len() }, cur as int),
        cur <= cnt(old(self).after(reverse), e.n) * cap(e.n),
    ensures
        final(self).state(e), same_rest(*old(self), *final(self), reverse),
        near(e, reverse, idx as int, entry(e, reverse, idx as int), ret.0 as int),
        tables(e, walk_of(*old(self), cur as int, rhs@.len() as int, idx as int, start as int, reverse), ret.1, final(self).dv(), final(self).after(reverse)),
        walked(e, walk_of(*old(self), cur as int, rhs@.len() as int, idx as int, start as int, reverse), final(self).dv(), rhs@.len() as int + 1),
//@at begin
    let ghost w = walk_of(*self, cur as int, rhs@.len() as int, idx as int, start as int, reverse);
    let ghost i0 = idx as int;
    let ghost mut d9 = self.dv();
    let ghost mut a9 = self.after(reverse);
    let ghost mut c9 = cur;
    let ghost mut ch9 = false;
    proof {
        reveal(VxDist::state);
        lemma_walk_start(e, *self, w);
        assert(self.distances@[i0].len() == self.distances@[i0]@.len());
        assert(self.dv()[i0].len() == e.rs[i0].rhs@.len() + 1);
    }
//@loop 0
    invariant
        __e0 == rhs@.len(), __i0 <= __e0, same_rest(*old(self), *self, reverse), reverse,
        linv(e, w, __i0 as int, cur as int, changed, self.dv(), self.after(reverse)),
    decreases __e0 - __i0,
//@at loop0.begin
    let ghost d1 = self.dv();
    let ghost a1 = self.after(reverse);
    let ghost c1 = cur;
    let ghost ch1 = changed;
    proof {
        let k = __i0 - 1;
        lemma_dims(e, w, k, cur as int, changed, d1, a1); lemma_in_walk(e, w, k, cur, changed, d1, a1, rhs@);
        assert(self.distances@[i0]@ == d1[i0]);
    }
//@at loop0.end
    proof {
        let k = __i0 - 1;
        assert(w.z(k) == start + dot && w.pos(k) == start + dot);
        assert(sym == e.rs[i0].rhs@[w.z(k)]);
        assert(self.dv() =~= d1.update(i0, d1[i0].update(w.pos(k), minopt(d1[i0][w.pos(k)], c1))));
        lemma_walk(e, w, k, c1, ch1, d1, a1);
    }
//@loop 1
    invariant
        __e1 == rhs@.len(), __i1 <= __e1, same_rest(*old(self), *self, reverse), !reverse,
        linv(e, w, __i1 as int, cur as int, changed, self.dv(), self.after(reverse)),
    decreases __e1 - __i1,
//@at loop1.begin
    let ghost d1 = self.dv();
    let ghost a1 = self.after(reverse);
    let ghost c1 = cur;
    let ghost ch1 = changed;
    proof {
        let k = __i1 - 1;
        lemma_dims(e, w, k, cur as int, changed, d1, a1); lemma_in_walk(e, w, k, cur, changed, d1, a1, rhs@);
        assert(self.distances@[i0]@ == d1[i0]);
    }
//@at loop1.end
    proof {
        let k = __i1 - 1;
        assert(w.z(k) == start + dot && w.pos(k) == start + dot + 1);
        assert(sym == e.rs[i0].rhs@[w.z(k)]);
        assert(self.dv() =~= d1.update(i0, d1[i0].update(w.pos(k), minopt(d1[i0][w.pos(k)], c1))));
        lemma_walk(e, w, k, c1, ch1, d1, a1);
    }
//@at loop0.post
    proof { d9 = self.dv(); a9 = self.after(reverse); c9 = cur; ch9 = changed; lemma_dims(e, w, w.len, cur as int, changed, d9, a9); assert(self.distances@[i0]@ == d9[i0]); assert(w.pos(w.len) == start + rhs@.len()); }
//@at loop1.post
    proof { d9 = self.dv(); a9 = self.after(reverse); c9 = cur; ch9 = changed; lemma_dims(e, w, w.len, cur as int, changed, d9, a9); assert(self.distances@[i0]@ == d9[i0]); assert(w.pos(w.len) == start); }
//@at end
    proof {
        lemma_walk_end(e, w, c9, ch9, d9, a9);
        assert(self.dv() =~= d9.update(i0, d9[i0].update(w.pos(w.len), minopt(d9[i0][w.pos(w.len)], c9))));
        lemma_walk_state(e, *old(self), *self, w, changed);
    }
//@end
pub proof fn lemma_in_walk(e: Env, w: Walk, k: int, cur: u32, changed: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>, rhs: Seq<Symbol>)
    requires w.ok(e), linv(e, w, k, cur as int, changed, d, a), 0 <= k < w.len, rhs == e.rs[w.idx].rhs@.subrange(w.start, w.start + w.len), a.len() == e.n,
    ensures
        e.at(w.idx, w.pos(k)), e.sym(w.idx, w.z(k)), rhs[w.z(k) - w.start] == e.rs[w.idx].rhs@[w.z(k)], e.rs[w.idx].rhs@[w.z(k)].raw < e.n,
        e.v[e.rs[w.idx].rhs@[w.z(k)].ix()] is Some, cur + ml(e.v, e.rs[w.idx].rhs@[w.z(k)]) <= u32::MAX,
        d[w.idx].len() == e.rs[w.idx].rhs@.len() + 1,
{
    reveal(linv);
    lemma_walk_near(e, w, k, cur);
    lemma_ps(e, w, k);
    lemma_ps(e, w, k + 1);
    if e.n > 0 { lemma_cnt(w.a0, 0, 0, e.n); lemma_cnt(a, 0, 0, e.n); }
    lemma_cap(e, w, w.cnt0);
}
pub proof fn lemma_dims(e: Env, w: Walk, k: int, cur: int, changed: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>)
    requires w.ok(e), linv(e, w, k, cur, changed, d, a),
    ensures d.len() == e.rs.len(), d[w.idx].len() == e.rs[w.idx].rhs@.len() + 1, a.len() == e.n,
{
    reveal(linv);
}
pub proof fn lemma_zero(e: Env, a: Seq<Option<u32>>)
    requires e.ok(), a.len() == e.n,
    ensures 0 <= cnt(a, e.n) * cap(e.n), 0 <= cnt(a, e.n) <= e.n, 0 <= cap(e.n),
{
    if e.n > 0 { lemma_cnt(a, 0, 0, e.n); }
    let c = cnt(a, e.n);
    let m = cap(e.n);
    assert(m >= 0) by (nonlinear_arith) requires m == (u32::MAX as int) / (e.n + 1), e.n >= 0;
    assert(c * m >= 0) by (nonlinear_arith) requires m >= 0, c >= 0;
}
pub proof fn lemma_before(e: Env, rev: bool, b: Seq<Option<u32>>, i: int, x: u32)
    requires s3(e, rev, b), 0 <= i < e.rs.len(), near(e, rev, i, entry(e, rev, i), x as int), e.ok(),
    ensures s3(e, rev, b.update(e.rs[i].lhs.ix(), minopt(b[e.rs[i].lhs.ix()], x))),
{
    hide(near);
    assert(rule_in(e.rs[i], e.n));
    let b1 = b.update(e.rs[i].lhs.ix(), minopt(b[e.rs[i].lhs.ix()], x));
    assert forall|s: Symbol| s.raw < e.n implies (b1[#[trigger] s.ix()] matches Some(y) ==> entered(e, rev, s, y as int)) by {
        assert(b[s.ix()] matches Some(y) ==> entered(e, rev, s, y as int));
        let l = e.rs[i].lhs;
        if s.raw == l.raw {
            assert(s == l);
            assert(b1[s.ix()] == minopt(b[l.ix()], x));
            if minopt(b[l.ix()], x) == Some(x) { assert(enters(e, rev, i, s, x as int)); }
            else { assert(b1[s.ix()] == b[s.ix()]); }
        } else {
            assert(b1[s.ix()] == b[s.ix()]);
        }
    }
}
/// The distances to target `t` of rule `i` within the rule.
pub open spec fn reached(e: Env, d: Seq<Seq<Option<u32>>>, i: int, t: int) -> bool {
    &&& e.fw ==> forall|j: int| 0 <= j <= t ==> at_most(#[trigger] d[i][j], sm(e.v, e.rs[i].rhs@, j, t))
    &&& e.bw ==> forall|j: int| t <= j <= e.rs[i].rhs@.len() ==> at_most(#[trigger] d[i][j], sm(e.v, e.rs[i].rhs@, t, j))
}
pub proof fn lemma_reached_low(e: Env, d: Seq<Seq<Option<u32>>>, d1: Seq<Seq<Option<u32>>>, i: int, t: int)
    requires dims(e, d), dims(e, d1), lowr(d, d1), reached(e, d, i, t), e.at(i, t),
    ensures reached(e, d1, i, t),
{
    assert forall|j: int| e.fw && 0 <= j <= t implies at_most(#[trigger] d1[i][j], sm(e.v, e.rs[i].rhs@, j, t)) by { assert(at_most(d[i][j], sm(e.v, e.rs[i].rhs@, j, t))); }
    assert forall|j: int| e.bw && t <= j <= e.rs[i].rhs@.len() implies at_most(#[trigger] d1[i][j], sm(e.v, e.rs[i].rhs@, t, j)) by { assert(at_most(d[i][j], sm(e.v, e.rs[i].rhs@, t, j))); }
}
pub proof fn lemma_lowr(e: Env, a: Seq<Seq<Option<u32>>>, b: Seq<Seq<Option<u32>>>, c: Seq<Seq<Option<u32>>>)
    requires dims(e, a), dims(e, b), dims(e, c), lowr(a, b), lowr(b, c),
    ensures lowr(a, c),
{
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c[i].len() implies (a[i][j] matches Some(x) ==> at_most(#[trigger] c[i][j], x as int)) by {
        assert(a[i][j] matches Some(x) ==> at_most(b[i][j], x as int));
        assert(b[i][j] matches Some(x) ==> at_most(c[i][j], x as int));
    }
}
pub open spec fn kept(s: VxDist, t: VxDist) -> bool { s.grammar == t.grammar && s.min_length == t.min_length }
pub open spec fn half(e: Env, d: Seq<Seq<Option<u32>>>, i: int, t: int, rev: bool) -> bool {
    if rev { forall|j: int| t <= j <= e.rs[i].rhs@.len() ==> at_most(#[trigger] d[i][j], sm(e.v, e.rs[i].rhs@, t, j)) }
    else { forall|j: int| 0 <= j <= t ==> at_most(#[trigger] d[i][j], sm(e.v, e.rs[i].rhs@, j, t)) }
}
pub proof fn lemma_reached_half(e: Env, d: Seq<Seq<Option<u32>>>, d1: Seq<Seq<Option<u32>>>, i: int, t: int)
    requires dims(e, d), dims(e, d1), lowr(d, d1), half(e, d, i, t, false), e.at(i, t),
    ensures half(e, d1, i, t, false),
{
    assert forall|j: int| 0 <= j <= t implies at_most(#[trigger] d1[i][j], sm(e.v, e.rs[i].rhs@, j, t)) by { assert(at_most(d[i][j], sm(e.v, e.rs[i].rhs@, j, t))); }
}
pub proof fn lemma_state_dims(e: Env, s: VxDist)
    requires s.state(e),
    ensures dims(e, s.dv()), e.rs == s.grammar.rules@, e.ok(), s.after(false).len() == e.n, s.after(true).len() == e.n, s.before(false).len() == e.n, s.before(true).len() == e.n,
        e.n == s.grammar.n(), s.dv().len() == s.distances@.len(), s.min_length@ == e.v,
{
    reveal(VxDist::state);
}
pub proof fn lemma_dot_start(e: Env, s: VxDist, i: int, t: int)
    requires s.state(e), e.at(i, t), e.t.contains((i, t)),
    ensures
        near(e, false, i, t, 0), near(e, true, i, t, 0), e.rs[i].lhs.raw < e.n, lowr(s.dv(), s.dv()), s.before(false).len() == e.n, s.before(true).len() == e.n,
        0 <= cnt(s.after(false), e.n) * cap(e.n), 0 <= cnt(s.after(true), e.n) * cap(e.n),
        e.rs[i].rhs@.subrange(0, t).len() == t, e.rs[i].rhs@.subrange(t, e.rs[i].rhs@.len() as int).len() == e.rs[i].rhs@.len() - t,
        e.rs == s.grammar.rules@,
{
    reveal(VxDist::state);
    assert(neark(e, false, i, t, 0, 0) && neark(e, true, i, t, 0, 0));
    lemma_zero(e, s.after(false));
    lemma_zero(e, s.after(true));
    assert(rule_in(e.rs[i], e.n));
}
/// After the walk from a target and noting the distance at the entry of the rule.
pub proof fn lemma_dot_done(e: Env, s0: VxDist, s1: VxDist, s2: VxDist, i: int, t: int, rev: bool, min: u32, ch: bool)
    requires
        s0.state(e), e.at(i, t), s1.state(e), same_rest(s0, s1, rev), near(e, rev, i, entry(e, rev, i), min as int),
        ({ let w = walk_of(s0, 0, if rev { e.rs[i].rhs@.len() - t } else { t }, i, if rev { t } else { 0 }, rev); tables(e, w, ch, s1.dv(), s1.after(rev)) && walked(e, w, s1.dv(), w.len + 1) }),
        s2.distances == s1.distances, s2.grammar == s1.grammar, s2.min_length == s1.min_length, s2.after(false) == s1.after(false), s2.after(true) == s1.after(true),
        s2.before(!rev) == s1.before(!rev), s2.before(rev) == s1.before(rev).update(e.rs[i].lhs.ix(), minopt(s1.before(rev)[e.rs[i].lhs.ix()], min)),
    ensures s2.state(e), lowr(s0.dv(), s2.dv()), half(e, s2.dv(), i, t, rev), kept(s0, s2),
{
    reveal(VxDist::state);
    let w = walk_of(s0, 0, if rev { e.rs[i].rhs@.len() - t } else { t }, i, if rev { t } else { 0 }, rev);
    assert(s1.side(e, rev) && s1.side(e, !rev));
    lemma_before(e, rev, s1.before(rev), i, min);
    assert(s2.dv() == s1.dv());
    assert(s2.side(e, rev));
    assert(s2.side(e, !rev));
    if rev {
        assert forall|j: int| t <= j <= e.rs[i].rhs@.len() implies at_most(#[trigger] s2.dv()[i][j], sm(e.v, e.rs[i].rhs@, t, j)) by {
            assert(w.pos(j - t) == j);
            assert(w.ps(e, j - t) == sm(e.v, e.rs[i].rhs@, t, j));
        }
    } else {
        assert forall|j: int| 0 <= j <= t implies at_most(#[trigger] s2.dv()[i][j], sm(e.v, e.rs[i].rhs@, j, t)) by {
            assert(w.pos(t - j) == j);
            assert(w.ps(e, t - j) == sm(e.v, e.rs[i].rhs@, j, t));
        }
    }
}
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::immediate_process_dot
//@impl impl<'a> VxDist<'a>
//@sig direction: DistanceDirection => direction: DistanceDirection, Ghost(e): Ghost<Env>
//@rewrite_opt &rule.rhs[..$$n] => vstd::slice::slice_subrange(&rule.rhs, 0, $$n)
//@rewrite_opt &rule.rhs[$$n..] => vstd::slice::slice_subrange(&rule.rhs, $$n, rule.rhs.len())
//@rewrite_opt let ($m, _) = self.update_rule_distances($$a, $$b, $$c, $$d, $$f); => let ($m, vx_c) = self.update_rule_distances($$a, $$b, $$c, $$d, $$f, Ghost(e)); proof { s1 = *self; }
    requires
        old(self).state(e), e.at(rule_idx as int, dot_pos as int), e.t.contains((rule_idx as int, dot_pos as int)), *rule == e.rs[rule_idx as int],
        e.fw == !(direction is Backward), e.bw == !(direction is Forward),
    ensures
        final(self).state(e), kept(*old(self), *final(self)), lowr(old(self).dv(), final(self).dv()), reached(e, final(self).dv(), rule_idx as int, dot_pos as int),
//@at begin
    let ghost i0 = rule_idx as int;
    let ghost t0 = dot_pos as int;
    let ghost mut s0 = *self;
    let ghost mut s1 = *self;
    proof { lemma_dot_start(e, *self, i0, t0); }
//@at if0.thenend
    proof {
        lemma_dot_done(e, s0, s1, *self, i0, t0, false, min, vx_c);
        s0 = *self;
        lemma_dot_start(e, *self, i0, t0);
    }
//@at if1.thenend
    proof {
        let ghost o = s0.dv();
        lemma_dot_done(e, s0, s1, *self, i0, t0, true, min, vx_c);
        if e.fw { lemma_reached_half(e, s0.dv(), self.dv(), i0, t0); }
        lemma_state_dims(e, *old(self)); lemma_state_dims(e, s0); lemma_state_dims(e, *self);
        lemma_lowr(e, old(self).dv(), s0.dv(), self.dv());
    }
//@end
/// A rule's end is at most as far as its left-hand side's table says.
pub open spec fn closed_at(e: Env, rev: bool, d: Seq<Seq<Option<u32>>>, a: Seq<Option<u32>>, i: int) -> bool {
    a[e.rs[i].lhs.ix()] matches Some(x) ==> at_most(d[i][exit(e, rev, i)], x as int)
}
pub open spec fn closed_to(e: Env, s: VxDist, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> #[trigger] closed_both(e, s, i)
}
pub open spec fn closed_both(e: Env, s: VxDist, i: int) -> bool {
    (e.fw ==> closed_at(e, false, s.dv(), s.after(false), i)) && (e.bw ==> closed_at(e, true, s.dv(), s.after(true), i))
}
pub open spec fn since(e: Env, s: VxDist, t: VxDist, changed: bool) -> bool {
    &&& kept(s, t) && lowr(s.dv(), t.dv())
    &&& if changed { pot(t.dv(), t.dv().len() as int) < pot(s.dv(), s.dv().len() as int) } else { s.dv() == t.dv() }
    &&& e.single() && !changed ==> s.after(false) == t.after(false) && s.after(true) == t.after(true)
}
pub proof fn lemma_since(e: Env, s: VxDist, t: VxDist, u: VxDist, c1: bool, c2: bool)
    requires since(e, s, t, c1), since(e, t, u, c2), dims(e, s.dv()), dims(e, t.dv()), dims(e, u.dv()),
    ensures since(e, s, u, c1 || c2),
{
    lemma_lowr(e, s.dv(), t.dv(), u.dv());
}
pub proof fn lemma_trans_start(e: Env, s: VxDist, i: int, rev: bool)
    requires s.state(e), 0 <= i < e.rs.len(),
    ensures
        e.rs[i].lhs.raw < e.n, s.after(false).len() == e.n, s.after(true).len() == e.n, e.rs == s.grammar.rules@,
        e.rs[i].rhs@.subrange(0, e.rs[i].rhs@.len() as int) == e.rs[i].rhs@,
        s.after(rev)[e.rs[i].lhs.ix()] matches Some(x) ==> e.on(rev) && near(e, rev, i, exit(e, rev, i), x as int) && x <= cnt(s.after(rev), e.n) * cap(e.n),
{
    reveal(VxDist::state);
    assert(rule_in(e.rs[i], e.n));
    assert(s.side(e, rev));
    assert(e.rs[i].rhs@.subrange(0, e.rs[i].rhs@.len() as int) =~= e.rs[i].rhs@);
    let l = e.rs[i].lhs;
    if s.after(rev)[l.ix()] is Some {
        let x = s.after(rev)[l.ix()]->0;
        assert(exists|m: int, z: int| lands(e, rev, m, z, l, x as int));
        let (m, z) = choose|m: int, z: int| lands(e, rev, m, z, l, x as int);
        assert(e.sym(m, z) && e.at(m, land(rev, z)) && e.at(i, exit(e, rev, i)));
        assert(out(e, rev, i, exit(e, rev, i), m, land(rev, z)));
        assert(hop(e, rev, i, exit(e, rev, i), m, land(rev, z), 0));
        lemma_hop(e, rev, i, exit(e, rev, i), m, land(rev, z), 0, x as int);
    }
}
pub proof fn lemma_trans_done(e: Env, s: VxDist, t: VxDist, i: int, rev: bool, cur: int, ch: bool)
    requires
        s.state(e), t.state(e), 0 <= i < e.rs.len(), same_rest(s, t, rev), s.after(rev)[e.rs[i].lhs.ix()] == Some(cur as u32), 0 <= cur <= u32::MAX,
        ({ let w = walk_of(s, cur, e.rs[i].rhs@.len() as int, i, 0, rev); tables(e, w, ch, t.dv(), t.after(rev)) && walked(e, w, t.dv(), w.len + 1) }),
    ensures since(e, s, t, ch), e.single() && !ch ==> closed_at(e, rev, t.dv(), t.after(rev), i),
{
    let w = walk_of(s, cur, e.rs[i].rhs@.len() as int, i, 0, rev);
    assert(w.pos(0) == exit(e, rev, i));
    assert(w.ps(e, 0) == 0);
}
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::transitive_minimal_distances
//@impl impl<'a> VxDist<'a>
//@sig &mut self => &mut self, Ghost(e): Ghost<Env>
//@rewrite_opt self.grammar.rules() => &self.grammar.rules
//@rewrite_opt &rule.rhs[..] => &rule.rhs
//@rewrite_opt let (_, $c) = self.update_rule_distances($$a, $$b, $$c2, $$d, $$f); => let ghost vx_o = *self; let (_, $c) = self.update_rule_distances($$a, $$b, $$c2, $$d, $$f, Ghost(e)); proof { lemma_trans_done(e, vx_o, *self, idx as int, $$f, $$a as int, $c); lemma_state_dims(e, *self); lemma_since(e, s0, vx_o, *self, changed, $c); }
//@rewrite_opt changed |= $$e; => { let vx_b = $$e; changed = changed || vx_b; }
//@loops while for
//@attr #[verifier::loop_isolation(false)]
    requires old(self).state(e),
    ensures
        final(self).state(e), kept(*old(self), *final(self)), lowr(old(self).dv(), final(self).dv()),
        e.single() ==> closed_to(e, *final(self), e.rs.len() as int),
//@at begin
    proof { lemma_state_dims(e, *self); assert(lowr(self.dv(), self.dv())); }
    let ghost mut s0 = *self;
//@loop 0
    invariant
        self.state(e), kept(*old(self), *self), lowr(old(self).dv(), self.dv()),
        e.single() && !changed ==> closed_to(e, *self, e.rs.len() as int),
    decreases pot(self.dv(), self.dv().len() as int), changed as int,
//@at loop0.begin
    proof { s0 = *self; lemma_state_dims(e, *self); assert(lowr(self.dv(), self.dv())); }
//@loop 1
    invariant
        __s1@ == e.rs, 0 <= __i1 <= e.rs.len(), s0.state(e), dims(e, s0.dv()), s0.dv() == s0.dv(),
        self.state(e), since(e, s0, *self, changed), dims(e, self.dv()),
        e.single() && !changed ==> closed_to(e, *self, __i1 as int),
    decreases e.rs.len() - __i1,
//@at loop1.begin
    let ghost s1 = *self;
    let ghost ch1 = changed;
    proof { lemma_trans_start(e, *self, idx as int, false); lemma_trans_start(e, *self, idx as int, true); }
//@at if0.post
    let ghost s2 = *self;
    proof { lemma_trans_start(e, *self, idx as int, true); }
//@at loop1.end
    proof {
        lemma_state_dims(e, *self);
        if e.single() && !changed {
            assert(s1.dv() == self.dv() && s1.after(false) == self.after(false) && s1.after(true) == self.after(true));
            assert forall|i: int| 0 <= i < __i1 implies #[trigger] closed_both(e, *self, i) by {
                if i < __i1 - 1 { assert(closed_both(e, s1, i)); }
                else { assert(i == idx); }
            }
        }
    }
//@at loop1.post
    proof { lemma_state_dims(e, *self); lemma_lowr(e, old(self).dv(), s0.dv(), self.dv()); }
//@end
// ---- target positions
pub open spec fn le2(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
pub open spec fn sorted2(s: Seq<(usize, usize)>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> le2(#[trigger] s[i], #[trigger] s[j]) }
// TRUSTED: slice::to_vec, sort and binary_search on pairs of integers.
#[verifier::external_body]
pub fn vx_pairs_vec(s: &[(usize, usize)]) -> (r: Vec<(usize, usize)>)
    ensures r@ == s@,
{ s.to_vec() }
#[verifier::external_body]
pub fn vx_sort_pairs(v: &mut Vec<(usize, usize)>)
    ensures sorted2(final(v)@), forall|x: (usize, usize)| final(v)@.contains(x) == old(v)@.contains(x),
{ v.sort_unstable() }
#[verifier::external_body]
pub fn vx_search(s: &[(usize, usize)], x: (usize, usize)) -> (r: Result<usize, usize>)
    requires sorted2(s@),
    ensures match r {
        Ok(p) => p < s@.len() && s@[p as int] == x,
        Err(p) => p <= s@.len() && (forall|i: int| 0 <= i < p ==> !le2(x, #[trigger] s@[i])) && (forall|i: int| p <= i < s@.len() ==> !le2(#[trigger] s@[i], x)),
    },
{ s.binary_search(&x) }
/// `s[from..].iter().copied().take_while(f)`, collected.
pub fn vx_take_pairs<F: Fn((usize, usize)) -> bool>(s: &[(usize, usize)], from: usize, f: F) -> (r: Vec<(usize, usize)>)
    requires from <= s@.len(), forall|p: (usize, usize)| call_requires(f, (p,)),
    ensures
        from + r@.len() <= s@.len(), r@ == s@.subrange(from as int, from + r@.len()),
        forall|j: int| 0 <= j < r@.len() ==> call_ensures(f, (#[trigger] r@[j],), true),
        from + r@.len() < s@.len() ==> call_ensures(f, (s@[from + r@.len()],), false),
{
    let mut out: Vec<(usize, usize)> = Vec::new();
    let mut k: usize = from;
    while k < s.len()
        invariant
            from <= k <= s@.len(), out@ == s@.subrange(from as int, k as int), forall|p: (usize, usize)| call_requires(f, (p,)),
            forall|j: int| 0 <= j < out@.len() ==> call_ensures(f, (#[trigger] out@[j],), true),
        decreases s@.len() - k,
    {
        if !f(s[k]) { return out; }
        proof { assert(s@.subrange(from as int, k + 1) =~= s@.subrange(from as int, k as int).push(s@[k as int])); }
        out.push(s[k]);
        k = k + 1;
    }
    out
}
pub proof fn lemma_span(s: Seq<(usize, usize)>, idx: usize, from: int, r: Seq<(usize, usize)>)
    requires
        sorted2(s), 0 <= from, from + r.len() <= s.len(), r == s.subrange(from, from + r.len()),
        forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).0 == idx, from + r.len() < s.len() ==> s[from + r.len()].0 != idx,
        (from < s.len() && s[from] == (idx, 0usize)) || ((forall|i: int| 0 <= i < from ==> !le2((idx, 0usize), #[trigger] s[i])) && (forall|i: int| from <= i < s.len() ==> !le2(#[trigger] s[i], (idx, 0usize)))),
    ensures
        forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).0 == idx && s.contains(r[j]),
        forall|x: int| 0 <= x < s.len() && (#[trigger] s[x]).0 == idx ==> r.contains(s[x]),
{
    assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).0 == idx && s.contains(r[j]) by { assert(r[j] == s[from + j]); }
    assert forall|x: int| 0 <= x < s.len() && (#[trigger] s[x]).0 == idx implies r.contains(s[x]) by {
        if x < from {
            assert(le2(s[x], s[from]));
            assert(s[x] == s[from]);
            assert(r.len() > 0);
            assert(r[0] == s[from]);
        } else if x < from + r.len() {
            assert(r[x - from] == s[x]);
        } else {
            let y = from + r.len();
            assert(le2(s[y], s[x]));
            assert(le2(s[from], s[y]));
        }
    }
}
//@fn cfg-predict-distance/src/lib.rs binary_search_span
//@sig impl Iterator<Item = (usize, usize)> + '_ => Vec<(usize, usize)>
//@rewrite_opt $d.binary_search(&$$x) => vx_search($d, $$x)
//@rewrite_opt $d[$$n..].iter().copied().take_while(move |&($r, _)| $$b) => { let vx_n = $$n; let vx_r = vx_take_pairs($d, vx_n, |vx_p: (usize, usize)| -> (r: bool) ensures r == (vx_p.0 == idx) { let $r = vx_p.0; $$b }); proof { lemma_span($d@, idx, vx_n as int, vx_r@); } vx_r }
    requires sorted2(dots@),
    ensures
        forall|j: int| 0 <= j < ret@.len() ==> (#[trigger] ret@[j]).0 == idx && dots@.contains(ret@[j]),
        forall|x: int| 0 <= x < dots@.len() && (#[trigger] dots@[x]).0 == idx ==> ret@.contains(dots@[x]),
//@end
pub open spec fn dots_ok(rs: Seq<CfgRule>, dots: Seq<(usize, usize)>) -> bool {
    forall|x: int| 0 <= x < dots.len() && (#[trigger] dots[x]).0 < rs.len() ==> dots[x].1 <= rs[dots[x].0 as int].rhs@.len()
}
pub open spec fn targets(dots: Seq<(usize, usize)>) -> ISet<(int, int)> {
    ISet::new(|p: (int, int)| exists|x: int| 0 <= x < dots.len() && (#[trigger] dots[x]).0 == p.0 && dots[x].1 == p.1)
}
pub open spec fn done(e: Env, d: Seq<Seq<Option<u32>>>, k: int) -> bool {
    forall|i: int, t: int| #[trigger] e.t.contains((i, t)) && 0 <= i < k ==> reached(e, d, i, t)
}
pub open spec fn targets_ok(e: Env) -> bool { forall|i: int, t: int| #[trigger] e.t.contains((i, t)) && 0 <= i < e.rs.len() ==> e.at(i, t) }
pub proof fn lemma_done_low(e: Env, d: Seq<Seq<Option<u32>>>, d1: Seq<Seq<Option<u32>>>, k: int)
    requires dims(e, d), dims(e, d1), lowr(d, d1), done(e, d, k), targets_ok(e), k <= e.rs.len(),
    ensures done(e, d1, k),
{
    assert forall|i: int, t: int| #[trigger] e.t.contains((i, t)) && 0 <= i < k implies reached(e, d1, i, t) by {
        assert(reached(e, d, i, t));
        assert(e.at(i, t));
        lemma_reached_low(e, d, d1, i, t);
    }
}
pub open spec fn span_done(e: Env, d: Seq<Seq<Option<u32>>>, s: Seq<(usize, usize)>, k: int) -> bool {
    forall|y: int| 0 <= y < k ==> reached(e, d, (#[trigger] s[y]).0 as int, s[y].1 as int)
}
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::immediate_minimal_distances
//@impl impl<'a> VxDist<'a>
//@sig direction: DistanceDirection => direction: DistanceDirection, Ghost(e): Ghost<Env>
//@rewrite_opt self.grammar.rules() => &self.grammar.rules
//@rewrite_opt self.immediate_process_dot($$a); => { let ghost vx_o = *self; self.immediate_process_dot($$a, Ghost(e)); proof { lemma_state_dims(e, *self); lemma_lowr(e, s0.dv(), vx_o.dv(), self.dv()); lemma_done_low(e, vx_o.dv(), self.dv(), idx as int); } }
//@for 1 value
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires
        old(self).state(e), sorted2(dots@), e.t == targets(dots@), dots_ok(e.rs, dots@),
        e.fw == !(direction is Backward), e.bw == !(direction is Forward),
    ensures
        final(self).state(e), kept(*old(self), *final(self)), lowr(old(self).dv(), final(self).dv()), done(e, final(self).dv(), e.rs.len() as int),
//@at begin
    let ghost s0 = *self;
    proof {
        lemma_state_dims(e, *self);
        assert(lowr(self.dv(), self.dv()));
        assert forall|i: int, t: int| #[trigger] e.t.contains((i, t)) && 0 <= i < e.rs.len() implies e.at(i, t) by {
            let x = choose|x: int| 0 <= x < dots@.len() && (#[trigger] dots@[x]).0 == i && dots@[x].1 == t;
            assert(dots@[x].0 < e.rs.len());
        }
    }
//@loop 0
    invariant
        __s0@ == e.rs, 0 <= __i0 <= e.rs.len(), self.state(e), dims(e, self.dv()), kept(s0, *self), lowr(s0.dv(), self.dv()), done(e, self.dv(), __i0 as int),
    decreases e.rs.len() - __i0,
//@loop 1
    invariant
        0 <= __i1 <= __s1@.len(), self.state(e), dims(e, self.dv()), kept(s0, *self), lowr(s0.dv(), self.dv()), done(e, self.dv(), idx as int),
        span_done(e, self.dv(), __s1@, __i1 as int),
    decreases __s1@.len() - __i1,
//@at loop1.begin
    let ghost d1 = self.dv();
    let ghost p1 = __s1@[__i1 - 1];
    proof {
        let x = choose|x: int| 0 <= x < dots@.len() && dots@[x] == p1;
        assert(dots@[x].0 == idx as int);
        assert(e.t.contains((idx as int, dot_pos as int)));
    }
//@at loop1.end
    proof {
        assert forall|y: int| 0 <= y < __i1 implies reached(e, self.dv(), (#[trigger] __s1@[y]).0 as int, __s1@[y].1 as int) by {
            let p = __s1@[y];
            if y < __i1 - 1 {
                assert(reached(e, d1, p.0 as int, p.1 as int));
                let x = choose|x: int| 0 <= x < dots@.len() && dots@[x] == p;
                assert(dots@[x].0 < e.rs.len());
                lemma_reached_low(e, d1, self.dv(), p.0 as int, p.1 as int);
            }
        }
    }
//@at loop0.end
    proof {
        assert forall|i: int, t: int| #[trigger] e.t.contains((i, t)) && 0 <= i < __i0 implies reached(e, self.dv(), i, t) by {
            if i == idx {
                let x = choose|x: int| 0 <= x < dots@.len() && (#[trigger] dots@[x]).0 == i && dots@[x].1 == t;
                assert(__s1@.contains(dots@[x]));
                let y = choose|y: int| 0 <= y < __s1@.len() && __s1@[y] == dots@[x];
                assert(reached(e, self.dv(), __s1@[y].0 as int, __s1@[y].1 as int));
            }
        }
    }
//@end
// TRUSTED: Cfg::clone copies the rules and the symbol source.
#[verifier::external_body]
pub fn vx_copy_cfg(g: &Cfg) -> (r: Cfg)
    ensures r.rules@ == g.rules@, r.sym_source == g.sym_source,
{ unimplemented!() }
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::minimal_sentence_lengths
//@impl impl<'a> VxDist<'a>
//@rewrite_opt self.grammar.rules() => &self.grammar.rules
//@rewrite_opt self.grammar.clone().rhs_closure_with_values(&mut $v); => { let mut vx_g = vx_copy_cfg(self.grammar); vx_g.rhs_closure_with_values(&mut $v); }
//@for 0 value
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires old(self).grammar.wf(), old(self).min_length@.len() == old(self).grammar.n(), none_of(old(self).min_length@), old(self).grammar.n() <= u32::MAX,
    ensures
        minimal(old(self).grammar.rules@, lens0(old(self).grammar.rules@, old(self).grammar.n()), final(self).min_length@),
        final(self).grammar == old(self).grammar, final(self).distances == old(self).distances,
        final(self).forward_distances == old(self).forward_distances, final(self).backward_distances == old(self).backward_distances,
//@at begin
    let ghost rs = self.grammar.rules@;
    let ghost n = self.grammar.n();
    let ghost s0 = *self;
    let ghost v0 = lens0(rs, n);
//@loop 0
    invariant
        0 <= __i0 <= __s0@.len(), self.min_length@.len() == n,
        self.grammar == s0.grammar, self.distances == s0.distances, self.forward_distances == s0.forward_distances, self.backward_distances == s0.backward_distances,
        forall|i: int| 0 <= i < n ==> #[trigger] self.min_length@[i] == (if in_syms(__s0@, __i0 as int, i) { Some(1u32) } else { None::<u32> }),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    let ghost m0 = self.min_length@;
    proof { assert(__s0@.contains(terminal)); assert(terminal_set.has(terminal)); }
//@at loop0.end
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] self.min_length@[i] == (if in_syms(__s0@, __i0 as int, i) { Some(1u32) } else { None::<u32> }) by {
            assert(m0[i] == (if in_syms(__s0@, __i0 - 1, i) { Some(1u32) } else { None::<u32> }));
            if i == terminal.ix() { assert(__s0@[__i0 - 1].raw == i); assert(in_syms(__s0@, __i0 as int, i)); }
            else if in_syms(__s0@, __i0 - 1, i) {
                let k = choose|k: int| 0 <= k < __i0 - 1 && (#[trigger] __s0@[k]).raw == i;
                assert(in_syms(__s0@, __i0 as int, i));
            } else if in_syms(__s0@, __i0 as int, i) {
                let k = choose|k: int| 0 <= k < __i0 && (#[trigger] __s0@[k]).raw == i;
                assert(k < __i0 - 1);
            }
        }
    }
//@at loop0.post
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] self.min_length@[i] == (if is_lhs(rs, sym_of(i)) { None::<u32> } else { Some(1u32) }) by {
            let s = sym_of(i);
            assert(terminal_set.has(s) == !is_lhs(rs, s));
            if terminal_set.has(s) {
                assert(__s0@.contains(s));
                let k = choose|k: int| 0 <= k < __s0@.len() && __s0@[k] == s;
                assert(__s0@[k].raw == i);
                assert(in_syms(__s0@, __s0@.len() as int, i));
            } else if in_syms(__s0@, __s0@.len() as int, i) {
                let k = choose|k: int| 0 <= k < __s0@.len() && (#[trigger] __s0@[k]).raw == i;
                assert(__s0@[k] == s);
                assert(__s0@.contains(s));
            }
        }
        assert(rs.take(0) =~= Seq::empty());
    }
//@loop 1
    invariant
        __s1@ == rs, 0 <= __i1 <= rs.len(), self.min_length@.len() == n,
        self.grammar == s0.grammar, self.distances == s0.distances, self.forward_distances == s0.forward_distances, self.backward_distances == s0.backward_distances,
        forall|i: int| 0 <= i < n ==> #[trigger] self.min_length@[i] == (if is_nulling(rs.take(__i1 as int), sym_of(i)) { Some(0u32) } else if !is_lhs(rs, sym_of(i)) { Some(1u32) } else { None::<u32> }),
    decreases rs.len() - __i1,
//@at loop1.begin
    let ghost m1 = self.min_length@;
    proof { assert(rule_in(rs[__i1 - 1], n)); lemma_take(rs, __i1 - 1); }
//@at loop1.end
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] self.min_length@[i] == (if is_nulling(rs.take(__i1 as int), sym_of(i)) { Some(0u32) } else if !is_lhs(rs, sym_of(i)) { Some(1u32) } else { None::<u32> }) by {
            assert(m1[i] == (if is_nulling(rs.take(__i1 - 1), sym_of(i)) { Some(0u32) } else if !is_lhs(rs, sym_of(i)) { Some(1u32) } else { None::<u32> }));
            assert(is_nulling(rs.take(__i1 as int), sym_of(i)) == (is_nulling(rs.take(__i1 - 1), sym_of(i)) || (rs[__i1 - 1].lhs == sym_of(i) && rs[__i1 - 1].rhs@.len() == 0)));
            assert(rule.lhs == sym_of(rule.lhs.ix()));
        }
    }
//@at loop1.post
    proof {
        assert(rs.take(rs.len() as int) =~= rs);
        assert(self.min_length@ =~= v0);
    }
//@end
pub open spec fn in_syms(s: Seq<Symbol>, k: int, i: int) -> bool { exists|z: int| 0 <= z < k && (#[trigger] s[z]).raw == i }
/// The end of a rule is at most as far as the position after each occurrence of its left-hand side.
pub open spec fn leaves(e: Env, rev: bool, d: Seq<Seq<Option<u32>>>) -> bool {
    forall|i: int, m: int, z: int| 0 <= i < e.rs.len() && #[trigger] e.sym(m, z) && e.rs[m].rhs@[z] == (#[trigger] e.rs[i]).lhs ==>
        (d[m][land(rev, z)] matches Some(x) ==> at_most(d[i][exit(e, rev, i)], x as int))
}
/// What the reported distances satisfy.
pub open spec fn distances_ok(e: Env, d: Seq<Seq<Option<u32>>>) -> bool {
    &&& dims(e, d) && s1(e, d) && done(e, d, e.rs.len() as int)
    &&& e.single() && e.fw ==> i3(e, false, d) && leaves(e, false, d)
    &&& e.single() && e.bw ==> i3(e, true, d) && leaves(e, true, d)
}
pub open spec fn env_of(rs: Seq<CfgRule>, n: int, v: Seq<Option<u32>>, dots: Seq<(usize, usize)>, direction: DistanceDirection) -> Env {
    Env { rs: rs, v: v, n: n, t: targets(dots), fw: !(direction is Backward), bw: !(direction is Forward) }
}
impl<'a> VxDist<'a> {
    /// As `new` makes it.
    pub open spec fn fresh(self) -> bool {
        &&& self.distances@.len() == self.grammar.rules@.len()
        &&& forall|i: int| 0 <= i < self.distances@.len() ==> (#[trigger] self.distances@[i])@.len() == self.grammar.rules@[i].rhs@.len() + 1 && none_of(self.distances@[i]@)
        &&& self.after(false).len() == self.grammar.n() && none_of(self.after(false)) && self.after(true).len() == self.grammar.n() && none_of(self.after(true))
        &&& self.before(false).len() == self.grammar.n() && none_of(self.before(false)) && self.before(true).len() == self.grammar.n() && none_of(self.before(true))
        &&& self.min_length@.len() == self.grammar.n() && none_of(self.min_length@)
    }
}
pub proof fn lemma_fresh_state(e: Env, s: VxDist)
    requires
        e.ok(), e.rs == s.grammar.rules@, e.n == s.grammar.n(), e.v == s.min_length@,
        s.distances@.len() == e.rs.len(), forall|i: int| 0 <= i < s.distances@.len() ==> (#[trigger] s.distances@[i])@.len() == e.rs[i].rhs@.len() + 1 && none_of(s.distances@[i]@),
        s.after(false).len() == e.n, none_of(s.after(false)), s.after(true).len() == e.n, none_of(s.after(true)),
        s.before(false).len() == e.n, none_of(s.before(false)), s.before(true).len() == e.n, none_of(s.before(true)),
    ensures s.state(e),
{
    reveal(VxDist::state);
    let d = s.dv();
    assert forall|i: int, j: int| e.at(i, j) implies d[i][j] is None by { assert(none_of(s.distances@[i]@)); assert(s.distances@[i]@[j] is None); }
    assert(s1(e, d)) by { assert forall|i: int, j: int| #[trigger] e.at(i, j) implies (d[i][j] matches Some(x) ==> near_any(e, i, j, x as int)) by {} }
    assert forall|rev: bool| #[trigger] s.side(e, rev) by {
        assert forall|i: int, z: int| #[trigger] e.sym(i, z) implies d[i][land(rev, z)] is None by { assert(e.at(i, land(rev, z))); }
    }
    assert(s.side(e, false) && s.side(e, true));
}
pub proof fn lemma_finish(e: Env, s: VxDist)
    requires s.state(e), e.single() ==> closed_to(e, s, e.rs.len() as int), done(e, s.dv(), e.rs.len() as int),
    ensures distances_ok(e, s.dv()),
{
    reveal(VxDist::state);
    assert(s.side(e, false) && s.side(e, true));
    let d = s.dv();
    assert forall|rev: bool| e.single() && #[trigger] e.on(rev) implies leaves(e, rev, d) by {
        assert forall|i: int, m: int, z: int| 0 <= i < e.rs.len() && #[trigger] e.sym(m, z) && e.rs[m].rhs@[z] == (#[trigger] e.rs[i]).lhs implies
            (d[m][land(rev, z)] matches Some(x) ==> at_most(d[i][exit(e, rev, i)], x as int)) by {
            assert(closed_both(e, s, i));
            assert(i1(e, rev, d, s.after(rev)));
        }
    }
    if e.single() && e.fw { assert(e.on(false)); }
    if e.single() && e.bw { assert(e.on(true)); }
}
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::new
//@impl impl<'a> VxDist<'a>
//@rewrite_opt MinimalDistance { $$f } => VxDist { $$f }
//@rewrite_opt $x.rules().map(|$r| vec![None; $$n]).collect() => vx_map($x.rules.as_slice(), |$r: &CfgRule| -> (r: Vec<Option<u32>>) requires $r.rhs@.len() < usize::MAX ensures r@.len() == $r.rhs@.len() + 1, none_of(r@) { vx_nones($$n) })
//@rewrite_opt vec![None; $$n] => vx_nones($$n)
    requires forall|i: int| 0 <= i < grammar.rules@.len() ==> (#[trigger] grammar.rules@[i]).rhs@.len() < usize::MAX,
    ensures ret.fresh(), ret.grammar == grammar,
//@end
//@fn cfg-predict-distance/src/lib.rs MinimalDistance::minimal_distances
//@impl impl<'a> VxDist<'a>
//@rewrite_opt dots.to_vec() => vx_pairs_vec(dots)
//@rewrite_opt $d.sort_unstable(); => vx_sort_pairs(&mut $d);
//@rewrite_opt $d.sort(); => vx_sort_pairs(&mut $d);
//@rewrite_opt &dots[..] => dots.as_slice()
//@rewrite_opt self.minimal_sentence_lengths(); => self.minimal_sentence_lengths(); proof { e = env_of(self.grammar.rules@, self.grammar.n(), self.min_length@, ts, direction); }
//@rewrite_opt self.immediate_minimal_distances($$a); => proof { lemma_targets(ts, dots@); lemma_fresh_state(e, *self); } self.immediate_minimal_distances($$a, Ghost(e)); proof { s1 = *self; }
//@rewrite_opt self.transitive_minimal_distances(); => self.transitive_minimal_distances(Ghost(e)); proof { lemma_state_dims(e, s1); lemma_state_dims(e, *self); lemma_targets_ok(e, ts); lemma_done_low(e, s1.dv(), self.dv(), e.rs.len() as int); lemma_finish(e, *self); }
    requires
        old(self).fresh(), old(self).grammar.wf(), dots_ok(old(self).grammar.rules@, dots@),
        // distances fit in 32 bits, and every symbol has a shortest sentence
        forall|v: Seq<Option<u32>>| #[trigger] minimal(old(self).grammar.rules@, lens0(old(self).grammar.rules@, old(self).grammar.n()), v) ==> fits(old(self).grammar.rules@, v, old(self).grammar.n()),
    ensures
        minimal(old(self).grammar.rules@, lens0(old(self).grammar.rules@, old(self).grammar.n()), final(self).min_length@),
        final(self).distances@ == ret@, final(self).grammar == old(self).grammar,
        distances_ok(env_of(old(self).grammar.rules@, old(self).grammar.n(), final(self).min_length@, dots@, direction), final(self).dv()),
//@at begin
    let ghost ts = dots@;
    let ghost mut s1 = *self;
    let ghost mut e = env_of(self.grammar.rules@, self.grammar.n(), self.min_length@, ts, direction);
//@end
pub proof fn lemma_targets_ok(e: Env, dots: Seq<(usize, usize)>)
    requires e.t == targets(dots), dots_ok(e.rs, dots),
    ensures targets_ok(e),
{
    assert forall|i: int, t: int| #[trigger] e.t.contains((i, t)) && 0 <= i < e.rs.len() implies e.at(i, t) by {
        let x = choose|x: int| 0 <= x < dots.len() && (#[trigger] dots[x]).0 == i && dots[x].1 == t;
        assert(dots[x].0 < e.rs.len());
    }
}
pub proof fn lemma_targets(a: Seq<(usize, usize)>, b: Seq<(usize, usize)>)
    requires forall|x: (usize, usize)| a.contains(x) == b.contains(x),
    ensures targets(a) == targets(b), forall|rs: Seq<CfgRule>| dots_ok(rs, a) ==> #[trigger] dots_ok(rs, b),
{
    assert forall|p: (int, int)| targets(a).contains(p) implies targets(b).contains(p) by {
        let x = choose|x: int| 0 <= x < a.len() && (#[trigger] a[x]).0 == p.0 && a[x].1 == p.1;
        assert(a.contains(a[x]));
        let y = choose|y: int| 0 <= y < b.len() && b[y] == a[x];
        assert(b[y].0 == p.0);
    }
    assert forall|p: (int, int)| targets(b).contains(p) implies targets(a).contains(p) by {
        let x = choose|x: int| 0 <= x < b.len() && (#[trigger] b[x]).0 == p.0 && b[x].1 == p.1;
        assert(b.contains(b[x]));
        let y = choose|y: int| 0 <= y < a.len() && a[y] == b[x];
        assert(a[y].0 == p.0);
    }
    assert(targets(a) =~= targets(b));
    assert forall|rs: Seq<CfgRule>| dots_ok(rs, a) implies #[trigger] dots_ok(rs, b) by {
        assert forall|x: int| 0 <= x < b.len() && (#[trigger] b[x]).0 < rs.len() implies b[x].1 <= rs[b[x].0 as int].rhs@.len() by {
            assert(b.contains(b[x]));
            let y = choose|y: int| 0 <= y < a.len() && a[y] == b[x];
            assert(a[y].0 < rs.len());
        }
    }
}
// ---- the lengths are those of shortest sentences
pub open spec fn sentence(rs: Seq<CfgRule>, w: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < w.len() ==> !is_lhs(rs, #[trigger] w[i]) }
pub open spec fn makes(rs: Seq<CfgRule>, a: Seq<Symbol>, w: Seq<Symbol>, c: int) -> bool { sentence(rs, w) && w.len() == c && der(prods(rs), a, w) }
pub open spec fn makes_some(rs: Seq<CfgRule>, a: Seq<Symbol>, c: int) -> bool { exists|w: Seq<Symbol>| makes(rs, a, w, c) }
pub proof fn lemma_makes_cat(rs: Seq<CfgRule>, a: Seq<Symbol>, b: Seq<Symbol>, c: int, d: int)
    requires makes_some(rs, a, c), makes_some(rs, b, d),
    ensures makes_some(rs, a + b, c + d),
{
    let u = choose|w: Seq<Symbol>| makes(rs, a, w, c);
    let v = choose|w: Seq<Symbol>| makes(rs, b, w, d);
    let ps = prods(rs);
    let z = Seq::<Symbol>::empty();
    lemma_ctx(ps, a, u, z, b);
    lemma_ctx(ps, b, v, u, z);
    assert(z + a + b =~= a + b);
    assert(z + u + b =~= u + b);
    assert(u + b + z =~= u + b);
    assert(u + v + z =~= u + v);
    lemma_trans(ps, a + b, u + b, u + v);
    assert(sentence(rs, u + v)) by {
        assert forall|i: int| 0 <= i < (u + v).len() implies !is_lhs(rs, #[trigger] (u + v)[i]) by { if i < u.len() { assert((u + v)[i] == u[i]); } else { assert((u + v)[i] == v[i - u.len()]); } }
    }
    assert(makes(rs, a + b, u + v, c + d));
}
pub proof fn lemma_makes_all(rs: Seq<CfgRule>, s: Seq<Symbol>, cs: Seq<int>, k: int)
    requires 0 <= k <= s.len(), cs.len() == s.len(), forall|j: int| 0 <= j < k ==> makes_some(rs, seq![#[trigger] s[j]], cs[j]),
    ensures makes_some(rs, s.take(k), seq_sum(cs.take(k))),
    decreases k,
{
    if k == 0 {
        lemma_refl(prods(rs), s.take(0));
        assert(makes(rs, s.take(0), Seq::<Symbol>::empty(), 0)) by { assert(s.take(0) =~= Seq::<Symbol>::empty()); }
        assert(seq_sum(cs.take(0)) == 0);
    } else {
        lemma_makes_all(rs, s, cs, k - 1);
        assert(makes_some(rs, seq![s[k - 1]], cs[k - 1]));
        lemma_makes_cat(rs, s.take(k - 1), seq![s[k - 1]], seq_sum(cs.take(k - 1)), cs[k - 1]);
        assert(s.take(k) =~= s.take(k - 1) + seq![s[k - 1]]);
        assert(cs.take(k).drop_last() =~= cs.take(k - 1));
    }
}
pub proof fn lemma_cost_makes(rs: Seq<CfgRule>, n: int, s: Symbol, c: int, d: nat)
    requires rules_in(rs, n), s.raw < n, n <= u32::MAX, cost(rs, lens0(rs, n), s, c, d),
    ensures makes_some(rs, seq![s], c),
    decreases d,
{
    let v0 = lens0(rs, n);
    assert(sym_of(s.ix()) == s);
    if v0[s.ix()] matches Some(x) && x == c {
        if is_nulling(rs, s) {
            let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).lhs == s && rs[i].rhs@.len() == 0;
            let p = Prod { l: s, r: rs[i].rhs@ };
            assert(prods(rs).contains(p));
            lemma_prod(prods(rs), p);
            assert(makes(rs, seq![s], rs[i].rhs@, 0));
        } else {
            lemma_refl(prods(rs), seq![s]);
            assert(makes(rs, seq![s], seq![s], 1));
        }
    } else {
        assert(exists|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c));
        let (i, cs) = choose|i: int, cs: Seq<int>| #[trigger] rule_cost(rs, i, cs, s, c) && forall|j: int| 0 <= j < cs.len() ==> cost(rs, v0, rs[i].rhs@[j], #[trigger] cs[j], (d - 1) as nat);
        assert(rule_in(rs[i], n));
        let r = rs[i].rhs@;
        assert forall|j: int| 0 <= j < r.len() implies makes_some(rs, seq![#[trigger] r[j]], cs[j]) by {
            assert(cost(rs, v0, rs[i].rhs@[j], cs[j], (d - 1) as nat));
            lemma_cost_makes(rs, n, r[j], cs[j], (d - 1) as nat);
        }
        lemma_makes_all(rs, r, cs, r.len() as int);
        assert(r.take(r.len() as int) =~= r);
        assert(cs.take(r.len() as int) =~= cs);
        let w = choose|w: Seq<Symbol>| makes(rs, r, w, c);
        let p = Prod { l: s, r: r };
        assert(prods(rs).contains(p));
        lemma_prod(prods(rs), p);
        lemma_trans(prods(rs), seq![s], r, w);
        assert(makes(rs, seq![s], w, c));
    }
}
pub proof fn lemma_seq_sum_cat(a: Seq<int>, b: Seq<int>)
    ensures seq_sum(a + b) == seq_sum(a) + seq_sum(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_seq_sum_cat(a, b.drop_last());
    }
}
pub open spec fn all_built(rs: Seq<CfgRule>, v0: Seq<Option<u32>>, a: Seq<Symbol>, cs: Seq<int>) -> bool {
    cs.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> built(rs, v0, #[trigger] a[j], cs[j])
}
pub proof fn lemma_makes_built(rs: Seq<CfgRule>, n: int, a: Seq<Symbol>, w: Seq<Symbol>, k: nat) -> (cs: Seq<int>)
    requires rules_in(rs, n), below(a, n), 0 <= n <= u32::MAX, dern(prods(rs), a, w, k), sentence(rs, w),
    ensures all_built(rs, lens0(rs, n), a, cs), seq_sum(cs) == w.len(),
    decreases k,
{
    let v0 = lens0(rs, n);
    if k == 0 {
        let cs = Seq::new(w.len(), |i: int| 1int);
        lemma_ones(w.len());
        assert forall|j: int| 0 <= j < a.len() implies built(rs, v0, #[trigger] a[j], cs[j]) by {
            assert(!is_lhs(rs, w[j]));
            assert(sym_of(a[j].ix()) == a[j]);
            assert(!is_nulling(rs, a[j]));
            assert(cost(rs, v0, a[j], 1, 0));
        }
        cs
    } else {
        let c = choose|c: Seq<Symbol>| #[trigger] step(prods(rs), a, c) && dern(prods(rs), c, w, (k - 1) as nat);
        let (p, i) = choose|p: Prod, i: int| #[trigger] step_at(prods(rs), a, c, p, i);
        let m = choose|m: int| 0 <= m < rs.len() && (#[trigger] rs[m]).lhs == p.l && rs[m].rhs@ == p.r;
        assert(rule_in(rs[m], n));
        let l = p.r.len() as int;
        assert(below(c, n)) by {
            assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).raw < n by {
                if j < i { assert(c[j] == a[j]); } else if j < i + l { assert(c[j] == p.r[j - i]); } else { assert(c[j] == a[j - l + 1]); }
            }
        }
        let ds = lemma_makes_built(rs, n, c, w, (k - 1) as nat);
        let d1 = ds.take(i);
        let d2 = ds.subrange(i, i + l);
        let d3 = ds.skip(i + l);
        let x = seq_sum(d2);
        let cs = d1 + seq![x] + d3;
        assert(ds =~= d1 + d2 + d3);
        lemma_seq_sum_cat(d1 + d2, d3); lemma_seq_sum_cat(d1, d2);
        lemma_seq_sum_cat(d1 + seq![x], d3); lemma_seq_sum_cat(d1, seq![x]);
        assert(seq![x].drop_last() =~= Seq::<int>::empty());
        assert(seq_sum(seq![x]) == x) by { assert(seq_sum(Seq::<int>::empty()) == 0); }
        assert(built(rs, v0, p.l, x)) by {
            if l == 0 {
                assert(is_nulling(rs, p.l));
                assert(sym_of(p.l.ix()) == p.l);
                assert(cost(rs, v0, p.l, 0, 0));
            } else {
                assert forall|j: int| 0 <= j < l implies built(rs, v0, #[trigger] p.r[j], d2[j]) by { assert(c[i + j] == p.r[j]); assert(built(rs, v0, c[i + j], ds[i + j])); }
                let d = lemma_common_height(rs, v0, p.r, d2, l);
                assert(rule_cost(rs, m, d2, p.l, x));
                assert forall|j: int| 0 <= j < d2.len() implies cost(rs, v0, rs[m].rhs@[j], #[trigger] d2[j], ((d + 1) - 1) as nat) by { assert(cost(rs, v0, p.r[j], d2[j], d)); }
                assert(cost(rs, v0, p.l, x, d + 1));
            }
        }
        assert forall|j: int| 0 <= j < a.len() implies built(rs, v0, #[trigger] a[j], cs[j]) by {
            if j < i { assert(c[j] == a[j]); assert(built(rs, v0, c[j], ds[j])); }
            else if j > i { assert(c[j - 1 + l] == a[j]); assert(built(rs, v0, c[j - 1 + l], ds[j - 1 + l])); }
        }
        cs
    }
}
pub proof fn lemma_ones(k: nat)
    ensures seq_sum(Seq::new(k, |i: int| 1int)) == k,
    decreases k,
{
    if k > 0 {
        assert(Seq::new(k, |i: int| 1int).drop_last() =~= Seq::new((k - 1) as nat, |i: int| 1int));
        lemma_ones((k - 1) as nat);
    }
}
/// The values `minimal_sentence_lengths` computes are the lengths of the shortest sentences.
pub proof fn theorem_lengths(rs: Seq<CfgRule>, n: int, v: Seq<Option<u32>>, s: Symbol)
    requires rules_in(rs, n), 0 <= n <= u32::MAX, s.raw < n, minimal(rs, lens0(rs, n), v),
    ensures
        v[s.ix()] matches Some(c) ==> exists|w: Seq<Symbol>| makes(rs, seq![s], w, c as int),
        forall|w: Seq<Symbol>| sentence(rs, w) && w.len() <= u32::MAX && #[trigger] der(prods(rs), seq![s], w) ==> at_most(v[s.ix()], w.len() as int),
{
    let v0 = lens0(rs, n);
    if v[s.ix()] is Some {
        let c = v[s.ix()]->0 as int;
        assert(sym_of(s.ix()) == s);
        assert(built(rs, v0, s, c));
        let d = height(rs, v0, s, c);
        lemma_cost_makes(rs, n, s, c, d);
    }
    assert forall|w: Seq<Symbol>| sentence(rs, w) && w.len() <= u32::MAX && #[trigger] der(prods(rs), seq![s], w) implies at_most(v[s.ix()], w.len() as int) by {
        let k = choose|k: nat| dern(prods(rs), seq![s], w, k);
        let cs = lemma_makes_built(rs, n, seq![s], w, k);
        assert(built(rs, v0, seq![s][0], cs[0]));
        assert(cs.drop_last() =~= Seq::<int>::empty());
        assert(seq_sum(cs) == cs[0]) by { assert(seq_sum(Seq::<int>::empty()) == 0); }
    }
}
