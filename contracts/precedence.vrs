// G15: the precedence builder.
//@struct cfg-grammar/src/precedenced_rule.rs Associativity #[derive(Clone,Copy,PartialEq,Eq,Structural)]
//@struct cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder
//@contains cfg-grammar/src/precedenced_rule.rs #[derive(Clone, Copy, Eq, PartialEq)] pub enum Associativity
//@contains cfg-grammar/src/precedenced_rule.rs use self::Associativity::*;
//@contains cfg-grammar/src/precedenced_rule.rs pub const DEFAULT_ASSOC: Associativity = Left;
use crate::Associativity::{Left, Right, Group};
pub const DEFAULT_ASSOC: Associativity = Associativity::Left;
// A double-ended iterator over the positions that were picked: `v.iter_mut().filter(..)`.
pub struct Picks { pub list: Vec<usize>, pub lo: usize, pub hi: usize }
impl Picks {
    pub open spec fn ok(self) -> bool { self.lo <= self.hi <= self.list@.len() }
    pub open spec fn left(self) -> Seq<usize> { self.list@.subrange(self.lo as int, self.hi as int) }
    pub fn new(list: Vec<usize>) -> (r: Self)
        ensures r.ok(), r.left() == list@,
    {
        let hi = list.len();
        proof { assert(list@.subrange(0, hi as int) =~= list@); }
        Picks { list, lo: 0, hi }
    }
    pub fn next(&mut self) -> (r: Option<usize>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
    {
        if self.lo < self.hi {
            let r = self.list[self.lo];
            self.lo = self.lo + 1;
            proof { assert(self.left() =~= old(self).left().skip(1)); }
            Some(r)
        } else { None }
    }
    pub fn next_back(&mut self) -> (r: Option<usize>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left().last()) && final(self).left() == old(self).left().drop_last(),
    {
        if self.lo < self.hi {
            self.hi = self.hi - 1;
            proof { assert(self.left() =~= old(self).left().drop_last()); }
            Some(self.list[self.hi])
        } else { None }
    }
    pub fn rest(self) -> (r: Vec<usize>)
        requires self.ok(),
        ensures r@ == self.left(),
    {
        let mut out: Vec<usize> = Vec::new();
        let mut k = self.lo;
        while k < self.hi
            invariant self.ok(), self.lo <= k <= self.hi, out@ == self.list@.subrange(self.lo as int, k as int),
            decreases self.hi - k,
        {
            out.push(self.list[k]);
            k = k + 1;
            proof { assert(out@ =~= self.list@.subrange(self.lo as int, k as int)); }
        }
        out
    }
}
pub fn vx_drain_rules(v: &mut Vec<CfgRule>) -> (r: Vec<CfgRule>)
    ensures r@ == old(v)@, final(v)@ == Seq::<CfgRule>::empty(),
{
    let mut out: Vec<CfgRule> = Vec::new();
    std::mem::swap(v, &mut out);
    out
}

// ---- what the rules of a precedenced rule are
/// The leftmost (or rightmost) occurrence of `y`.
pub open spec fn extreme(s: Seq<Symbol>, y: Symbol, right: bool, i: int) -> bool {
    s[i] == y && forall|j: int| (if right { i < j < s.len() } else { 0 <= j < i }) ==> #[trigger] s[j] != y
}
/// The extreme occurrence of `y` stands for the same level, the others for the next tighter level.
#[verifier::opaque]
pub open spec fn stratified(s: Seq<Symbol>, y: Symbol, same: Symbol, tighter: Symbol, right: bool) -> Seq<Symbol> {
    Seq::new(s.len(), |i: int| if s[i] != y { s[i] } else if extreme(s, y, right, i) { same } else { tighter })
}
/// With group associativity all occurrences stand for the loosest level.
pub open spec fn grouped(s: Seq<Symbol>, y: Symbol, loosest: Symbol) -> Seq<Symbol> {
    Seq::new(s.len(), |i: int| if s[i] == y { loosest } else { s[i] })
}
/// The grammar after one rule is added to it, as far as `add_rule` is concerned.
pub struct Shape { pub ps: Seq<Prod>, pub n: int, pub limit: int, pub elim: bool }
pub open spec fn shape(g: Cfg) -> Shape { Shape { ps: prod_seq(g.rules@), n: g.n(), limit: g.limit(), elim: g.eliminate_nulling } }
pub open spec fn with_rule(h: Shape, l: Symbol, s: Seq<Symbol>) -> Shape {
    let a = if s.len() == 0 && h.elim { Seq::empty() } else { chain(l, s, h.n, h.limit) };
    Shape { ps: h.ps + a, n: h.n + (if a.len() == 0 { 0 } else { a.len() - 1 }), ..h }
}
pub open spec fn with_groups(h: Shape, rs: Seq<CfgRule>, y: Symbol, loosest: Symbol) -> Shape
    decreases rs.len(),
{
    if rs.len() == 0 { h } else { with_rule(with_groups(h, rs.drop_last(), y, loosest), rs.last().lhs, grouped(rs.last().rhs@, y, loosest)) }
}
pub open spec fn with_symbol(h: Shape) -> Shape { Shape { n: h.n + 1, ..h } }
pub proof fn lemma_with_rule(g: Cfg, w: Cfg, l: Symbol, s: Seq<Symbol>, k: int)
    requires
        w.same_rest(g), prod_seq(w.rules@) == prod_seq(g.rules@) + added_prods(g, l, s), k == w.rules@.len() - g.rules@.len(),
        w.n() == g.n() + (if k == 0 { 0int } else { k - 1 }),
    ensures shape(w) == with_rule(shape(g), l, s),
{
    assert(prod_seq(w.rules@).len() == w.rules@.len());
    assert(prod_seq(g.rules@).len() == g.rules@.len());
}
/// The list names exactly the positions of `y` below `z`, in order.
#[verifier::opaque]
pub open spec fn mentioned(l: Seq<usize>, c: int, i: int) -> bool { exists|k: int| 0 <= k < c && #[trigger] l[k] == i }
#[verifier::opaque]
pub open spec fn picked(l: Seq<usize>, s: Seq<Symbol>, y: Symbol, z: int) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> 0 <= (#[trigger] l[k]) < z && s[l[k] as int] == y
    &&& forall|j: int, k: int| 0 <= j < k < l.len() ==> (#[trigger] l[j]) < (#[trigger] l[k])
    &&& forall|i: int| 0 <= i < z && #[trigger] s[i] == y ==> mentioned(l, l.len() as int, i)
}
pub open spec fn rest_of(l: Seq<usize>, right: bool) -> Seq<usize> { if right { l.drop_last() } else { l.skip(1) } }
pub open spec fn edge_of(l: Seq<usize>, right: bool) -> usize { if right { l.last() } else { l[0] } }
pub proof fn lemma_where(l: Seq<usize>, s: Seq<Symbol>, y: Symbol, i: int) -> (k: int)
    requires picked(l, s, y, s.len() as int), 0 <= i < s.len(), s[i] == y,
    ensures 0 <= k < l.len(), l[k] == i, l[0] <= i <= l[l.len() - 1], k > 0 ==> l[0] < i, k < l.len() - 1 ==> i < l[l.len() - 1], s[l[0] as int] == y, s[l[l.len() - 1] as int] == y,
{
    reveal(picked); reveal(mentioned);
    assert(mentioned(l, l.len() as int, i));
    let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == i;
    if k > 0 { assert(l[0] < l[k]); }
    if k < l.len() - 1 { assert(l[k] < l[l.len() - 1]); }
    k
}
/// The extreme occurrence is the first (or last) of the list.
pub proof fn lemma_extreme(l: Seq<usize>, s: Seq<Symbol>, y: Symbol, right: bool, i: int)
    requires picked(l, s, y, s.len() as int), 0 <= i < s.len(), s[i] == y,
    ensures l.len() > 0, extreme(s, y, right, i) == (i == edge_of(l, right)),
{
    reveal(picked); reveal(mentioned);
    let k = lemma_where(l, s, y, i);
    let e = edge_of(l, right) as int;
    if i == e {
        assert forall|j: int| (if right { i < j < s.len() } else { 0 <= j < i }) implies #[trigger] s[j] != y by {
            if s[j] == y { let m = lemma_where(l, s, y, j); }
        }
    } else {
        assert(s[e] == y);
    }
}
pub proof fn lemma_picked(l: Seq<usize>, s: Seq<Symbol>, y: Symbol, right: bool)
    requires picked(l, s, y, s.len() as int),
    ensures
        l.len() == 0 ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != y,
        l.len() > 0 ==> {
            let e = edge_of(l, right) as int;
            let rest = rest_of(l, right);
            &&& 0 <= e < s.len() && s[e] == y
            &&& forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == y ==> extreme(s, y, right, i) == (i == e)
            &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] mentioned(rest, rest.len() as int, i) == (s[i] == y && i != e)
            &&& forall|k: int| 0 <= k < rest.len() ==> (#[trigger] rest[k]) < s.len()
        },
{
    reveal(picked); reveal(mentioned);
    if l.len() == 0 {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != y by { if s[i] == y { assert(mentioned(l, 0, i)); } }
    } else {
        let e = edge_of(l, right) as int;
        let rest = rest_of(l, right);
        let d = if right { 0int } else { 1int };
        assert forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == y implies extreme(s, y, right, i) == (i == e) by { lemma_extreme(l, s, y, right, i); }
        assert forall|k: int| 0 <= k < rest.len() implies (#[trigger] rest[k]) < s.len() by { assert(rest[k] == l[k + d]); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] mentioned(rest, rest.len() as int, i) == (s[i] == y && i != e) by {
            if mentioned(rest, rest.len() as int, i) {
                let k = choose|k: int| 0 <= k < rest.len() && #[trigger] rest[k] == i;
                assert(rest[k] == l[k + d]);
                if right { assert(l[k] < l[l.len() - 1]); } else { assert(l[0] < l[k + 1]); }
            }
            if s[i] == y && i != e {
                let k = lemma_where(l, s, y, i);
                assert(rest[k - d] == i);
            }
        }
    }
}
pub proof fn lemma_pick_none(s: Seq<Symbol>, y: Symbol)
    ensures picked(Seq::empty(), s, y, 0),
{
    reveal(picked);
}
/// One more position looked at.
pub proof fn lemma_pick_step(l: Seq<usize>, w: Seq<usize>, s: Seq<Symbol>, y: Symbol, z: int)
    requires picked(l, s, y, z), 0 <= z < s.len(), z <= usize::MAX, w == (if s[z] == y { l.push(z as usize) } else { l }),
    ensures picked(w, s, y, z + 1),
{
    reveal(picked); reveal(mentioned);
    assert forall|i: int| 0 <= i < z + 1 && #[trigger] s[i] == y implies mentioned(w, w.len() as int, i) by {
        if i < z { assert(mentioned(l, l.len() as int, i)); let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == i; assert(w[k] == i); }
        else { assert(w[l.len() as int] == i); }
    }
    assert forall|k: int| 0 <= k < w.len() implies 0 <= (#[trigger] w[k]) < z + 1 && s[w[k] as int] == y by { if k < l.len() { assert(w[k] == l[k]); } }
    assert forall|j: int, k: int| 0 <= j < k < w.len() implies (#[trigger] w[j]) < (#[trigger] w[k]) by { assert(w[j] == l[j]); if k < l.len() { assert(w[k] == l[k]); } }
}
/// `t`: the symbols when the extreme occurrence and the first `c` others are replaced.
#[verifier::opaque]
pub open spec fn replaced(t: Seq<Symbol>, s: Seq<Symbol>, y: Symbol, cur: Symbol, tight: Symbol, right: bool, rest: Seq<usize>, c: int) -> bool {
    &&& t.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (if s[i] == y && extreme(s, y, right, i) { cur } else if mentioned(rest, c, i) { tight } else { s[i] })
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] mentioned(rest, rest.len() as int, i) == (s[i] == y && !extreme(s, y, right, i))
    &&& forall|k: int| 0 <= k < rest.len() ==> (#[trigger] rest[k]) < s.len()
}
pub proof fn lemma_replaced_begin(l: Seq<usize>, t: Seq<Symbol>, s: Seq<Symbol>, y: Symbol, cur: Symbol, tight: Symbol, right: bool, rest: Seq<usize>)
    requires
        picked(l, s, y, s.len() as int),
        l.len() == 0 ==> t == s && rest == l,
        l.len() > 0 ==> t == s.update(edge_of(l, right) as int, cur) && rest == rest_of(l, right),
    ensures replaced(t, s, y, cur, tight, right, rest, 0),
{
    lemma_picked(l, s, y, right);
    reveal(replaced);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] t[i] == (if s[i] == y && extreme(s, y, right, i) { cur } else if mentioned(rest, 0, i) { tight } else { s[i] }) by {
        reveal(mentioned);
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] mentioned(rest, rest.len() as int, i) == (s[i] == y && !extreme(s, y, right, i)) by {
        if l.len() == 0 { reveal(mentioned); assert(s[i] != y); } else if s[i] == y { lemma_extreme(l, s, y, right, i); }
    }
}
pub proof fn lemma_replaced_step(t: Seq<Symbol>, s: Seq<Symbol>, y: Symbol, cur: Symbol, tight: Symbol, right: bool, rest: Seq<usize>, c: int)
    requires replaced(t, s, y, cur, tight, right, rest, c), 0 <= c < rest.len(),
    ensures rest[c] < t.len(), replaced(t.update(rest[c] as int, tight), s, y, cur, tight, right, rest, c + 1),
{
    reveal(replaced);
    let e = rest[c] as int;
    assert(mentioned(rest, rest.len() as int, e)) by { reveal(mentioned); }
    assert forall|i: int| #[trigger] mentioned(rest, c + 1, i) == (mentioned(rest, c, i) || rest[c] == i) by {
        reveal(mentioned);
        if mentioned(rest, c, i) { let k = choose|k: int| 0 <= k < c && #[trigger] rest[k] == i; assert(rest[k] == i); }
    }
}
pub proof fn lemma_replaced_end(t: Seq<Symbol>, s: Seq<Symbol>, y: Symbol, cur: Symbol, tight: Symbol, right: bool, rest: Seq<usize>)
    requires replaced(t, s, y, cur, tight, right, rest, rest.len() as int),
    ensures t == stratified(s, y, cur, tight, right), t.len() == s.len(),
{
    reveal(replaced); reveal(stratified);
    assert(t =~= stratified(s, y, cur, tight, right));
}
// `[x]` as a vector.
pub fn vx_one(x: Symbol) -> (r: Vec<Symbol>)
    ensures r@ == seq![x],
{
    let mut v: Vec<Symbol> = Vec::new();
    v.push(x);
    proof { assert(v@ =~= seq![x]); }
    v
}
impl<'a> PrecedencedRuleBuilder<'a> {
    /// Alternatives within the bounds of add_rule.
    pub open spec fn ok(self) -> bool {
        &&& self.grammar.limit() >= 2
        &&& forall|i: int| 0 <= i < self.rules_with_group_assoc@.len() ==> (#[trigger] self.rules_with_group_assoc@[i]).rhs@.len() < u32::MAX
    }
    /// The level symbols and the looseness are those of `o`.
    pub open spec fn same_level(self, o: Self) -> bool {
        self.lhs == o.lhs && self.tighter_lhs == o.tighter_lhs && self.current_lhs == o.current_lhs && self.looseness == o.looseness
    }
}
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::new
//@impl impl<'a> PrecedencedRuleBuilder<'a>
    requires old(grammar).limit() >= 2,
    ensures
        ret.ok(), *final(ret.grammar) == *final(grammar),
        // one new symbol, for the tightest level
        ret.lhs == lhs, ret.current_lhs == sym_of(old(grammar).n()), ret.tighter_lhs == ret.current_lhs, ret.looseness == 0,
        shape(*ret.grammar) == with_symbol(shape(*old(grammar))), ret.grammar.same_rest(*old(grammar)), ret.grammar.rules == old(grammar).rules,
        ret.assoc == Associativity::Left, ret.history is None, ret.rules_with_group_assoc@.len() == 0,
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::associativity
//@impl impl<'a> PrecedencedRuleBuilder<'a>
    ensures
        *ret.grammar == *old(self.grammar), *final(ret.grammar) == *final(self.grammar),
        ret.assoc == assoc, ret.same_level(self), ret.history == self.history, ret.rules_with_group_assoc == self.rules_with_group_assoc,
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::history
//@impl impl<'a> PrecedencedRuleBuilder<'a>
    ensures
        *ret.grammar == *old(self.grammar), *final(ret.grammar) == *final(self.grammar),
        ret.assoc == self.assoc, ret.same_level(self), ret.history == Some(history), ret.rules_with_group_assoc == self.rules_with_group_assoc,
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::rhs_with_history
//@impl impl<'a> PrecedencedRuleBuilder<'a>
//@sig S => &[Symbol]
//@sig <&[Symbol]> =>
//@sig where &[Symbol]: AsRef<[Symbol]>, =>
//@rewrite_opt Into::into($$x) => History::from_assign_precedence($$x)
//@rewrite_opt let syms = syms.as_ref(); =>
//@rewrite_opt $x.to_vec() => vx_to_vec($x)
//@rewrite_opt CfgRule::new($$a, syms, $$h) => CfgRule::new($$a, syms.as_slice(), $$h)
//@rewrite_opt rhs: syms.into() => rhs: vx_rc(syms.as_slice())
//@rewrite let mut iter = $v.iter_mut().filter(|&&mut $s| $$c); => let mut vx_l: Vec<usize> = Vec::new(); for vx_i in 0..$v.len() { let $s = $v[vx_i]; if $$c { vx_l.push(vx_i); } } let mut iter = Picks::new(vx_l);
//@rewrite *extreme_sym = $$e; => syms.set(extreme_sym, $$e);
//@rewrite *sym = $$e; => syms.set(sym, $$e);
//@rewrite for sym in iter { $$c } => for sym in iter.rest() { $$c }
//@for 1 value
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires self.ok(), syms@.len() < u32::MAX,
    ensures
        ret.ok(), *final(ret.grammar) == *final(self.grammar), ret.same_level(self), ret.assoc == Associativity::Left, ret.history is None,
        ret.grammar.same_rest(*old(self.grammar)),
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        self.assoc == Associativity::Group ==> {
            &&& *ret.grammar == *old(self.grammar)
            &&& ret.rules_with_group_assoc@.len() == self.rules_with_group_assoc@.len() + 1
            &&& ret.rules_with_group_assoc@.drop_last() == self.rules_with_group_assoc@
            &&& ret.rules_with_group_assoc@.last().lhs == self.current_lhs && ret.rules_with_group_assoc@.last().rhs@ == syms@ && ret.rules_with_group_assoc@.last().history == history
        },
        self.assoc != Associativity::Group ==> {
            &&& ret.rules_with_group_assoc == self.rules_with_group_assoc
            &&& shape(*ret.grammar) == with_rule(shape(*old(self.grammar)), self.current_lhs, stratified(syms@, self.lhs, self.current_lhs, self.tighter_lhs, self.assoc == Associativity::Right))
        },
//@at begin
    let ghost s0 = syms@;
    let ghost y = self.lhs;
    let ghost right = self.assoc == Associativity::Right;
    let ghost cur = self.current_lhs;
    let ghost tight = self.tighter_lhs;
    let ghost g0 = *old(self.grammar);
    proof { assert(g0.rules@.take(g0.rules@.len() as int) =~= g0.rules@); }
//@at loop0.pre
    proof { lemma_pick_none(s0, y); }
//@loop 0
    invariant
        syms@ == s0, __i0 <= s0.len(), __e0 == s0.len(), picked(vx_l@, s0, y, __i0 as int),
    decreases __e0 - __i0,
//@at loop0.begin
    let ghost l0 = vx_l@;
//@at loop0.end
    proof { lemma_pick_step(l0, vx_l@, s0, y, __i0 as int - 1); }
//@at loop0.post
    let ghost l = vx_l@;
    proof { lemma_picked(l, s0, y, right); }
//@at loop1.pre
    let ghost rest = iter.left();
    proof { lemma_replaced_begin(l, syms@, s0, y, cur, tight, right, rest); }
//@loop 1
    invariant __i1 <= __s1@.len(), __s1@ == rest, replaced(syms@, s0, y, cur, tight, right, rest, __i1 as int),
    decreases __s1.len() - __i1,
//@at loop1.begin
    proof { lemma_replaced_step(syms@, s0, y, cur, tight, right, rest, __i1 as int - 1); }
//@at loop1.post
    proof { lemma_replaced_end(syms@, s0, y, cur, tight, right, rest); }
//@at end
    proof {
        if self.assoc != Associativity::Group {
            lemma_with_rule(g0, *__self.grammar, cur, stratified(s0, y, cur, tight, right), __self.grammar.rules@.len() - g0.rules@.len());
        }
    }
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::lower_precedence
//@impl impl<'a> PrecedencedRuleBuilder<'a>
//@rewrite_opt RootHistoryNode::NoOp.into() => History::from_root(RootHistoryNode::NoOp)
//@rewrite_opt rhs_with_history([$$x], $$h) => rhs_with_history(vx_one($$x).as_slice(), $$h)
    requires self.ok(), self.looseness < u32::MAX,
    ensures
        ret.ok(), *final(ret.grammar) == *final(self.grammar),
        // a new symbol for the next level, which derives the tighter one
        ret.lhs == self.lhs, ret.current_lhs == sym_of(old(self.grammar).n()), ret.tighter_lhs == self.current_lhs, ret.looseness == self.looseness + 1,
        ret.assoc == self.assoc, ret.history == self.history, ret.rules_with_group_assoc == self.rules_with_group_assoc,
        ret.grammar.same_rest(*old(self.grammar)),
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        shape(*ret.grammar) == with_rule(with_symbol(shape(*old(self.grammar))), ret.current_lhs, seq![self.current_lhs]),
//@at begin
    let ghost g0 = *old(self.grammar);
//@at end
    proof {
        let g = *__self.grammar;
        assert(prod_seq(g.rules@).len() == g.rules@.len());
        assert(prod_seq(g0.rules@).len() == g0.rules@.len());
        assert(g0.rules@.take(g0.rules@.len() as int) =~= g0.rules@);
    }
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::finalize
//@impl impl<'a> PrecedencedRuleBuilder<'a>
//@rewrite_opt RootHistoryNode::NoOp.into() => History::from_root(RootHistoryNode::NoOp)
//@rewrite_opt $m.drain(..) => vx_drain_rules(&mut $m)
//@rewrite_opt let rhs: $$t = $v.iter().map(|&$s| $$c).collect(); => let mut vx_v: Vec<Symbol> = Vec::new(); for vx_i in 0..$v.len() { let $s = $v[vx_i]; vx_v.push($$c); } let rhs: Rc<[Symbol]> = vx_rc(vx_v.as_slice());
//@rewrite_opt RuleBuilder::new($$a).rule($$b).rhs_with_history([$$x], $$h) => { let vx_r = RuleBuilder::new($$a).rule($$b).rhs_with_history(vx_one($$x).as_slice(), $$h); vx_r }
//@for 0 value
//@loops for for
//@attr #[verifier::loop_isolation(false)]
    requires self.ok(),
    ensures
        *final(ret.grammar) == *final(self.grammar), ret.lhs == Some(self.lhs), ret.history is None,
        ret.grammar.same_rest(*old(self.grammar)),
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        // the alternatives with group associativity, then the symbol itself
        shape(*ret.grammar) == with_rule(with_groups(shape(*old(self.grammar)), self.rules_with_group_assoc@, self.lhs, self.current_lhs), self.lhs, seq![self.current_lhs]),
//@at begin
    let ghost g0 = *old(self.grammar);
    let ghost ps = self.rules_with_group_assoc@;
    let ghost y = self.lhs;
    let ghost cur = self.current_lhs;
    let ghost mut g2 = g0;
//@at loop0.pre
    proof {
        assert(g0.rules@.take(g0.rules@.len() as int) =~= g0.rules@);
        assert(ps.take(0) =~= Seq::empty());
    }
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == ps, __self.lhs == y, __self.current_lhs == cur, loosest_lhs == cur,
        *final(__self.grammar) == *final(self.grammar),
        __self.grammar.same_rest(g0), __self.grammar.rules@.take(g0.rules@.len() as int) == g0.rules@,
        g0.rules@.len() <= __self.grammar.rules@.len(),
        shape(*__self.grammar) == with_groups(shape(g0), ps.take(__i0 as int), y, cur),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost g1 = *__self.grammar;
    let ghost r = rule;
//@loop 1
    invariant
        __i1 <= __e1, __e1 == r.rhs@.len(), vx_v@.len() == __i1, rule == r, __self.lhs == y, *__self.grammar == g1,
        forall|i: int| 0 <= i < __i1 ==> #[trigger] vx_v@[i] == (if r.rhs@[i] == y { cur } else { r.rhs@[i] }),
    decreases __e1 - __i1,
//@at loop1.post
    proof { assert(vx_v@ =~= grouped(r.rhs@, y, cur)); }
//@at loop0.end
    proof {
        let g = *__self.grammar;
        lemma_with_rule(g1, g, r.lhs, grouped(r.rhs@, y, cur), g.rules@.len() - g1.rules@.len());
        assert(ps.take(__i0 as int).drop_last() =~= ps.take(__i0 as int - 1));
        assert(g.rules@.take(g1.rules@.len() as int) == g1.rules@);
        assert(g.rules@.take(g0.rules@.len() as int) =~= g0.rules@) by {
            assert forall|i: int| 0 <= i < g0.rules@.len() implies g.rules@[i] == g0.rules@[i] by { assert(g.rules@[i] == g.rules@.take(g1.rules@.len() as int)[i]); assert(g1.rules@[i] == g1.rules@.take(g0.rules@.len() as int)[i]); }
        }
    }
//@at loop0.post
    proof { g2 = *__self.grammar; assert(ps.take(ps.len() as int) =~= ps); }
//@at end
    proof {
        let g = *__tail.grammar;
        lemma_with_rule(g2, g, y, seq![cur], g.rules@.len() - g2.rules@.len());
        assert(g.rules@.take(g0.rules@.len() as int) =~= g0.rules@) by {
            assert forall|i: int| 0 <= i < g0.rules@.len() implies g.rules@[i] == g0.rules@[i] by { assert(g.rules@[i] == g.rules@.take(g2.rules@.len() as int)[i]); assert(g2.rules@[i] == g2.rules@.take(g0.rules@.len() as int)[i]); }
        }
    }
//@end
//@fn cfg-grammar/src/rule_builder.rs RuleBuilder::precedenced_rule
    requires old(self.grammar).limit() >= 2,
    ensures
        ret.ok(), *final(ret.grammar) == *final(self.grammar),
        ret.lhs == lhs, ret.current_lhs == sym_of(old(self.grammar).n()), ret.tighter_lhs == ret.current_lhs, ret.looseness == 0,
        shape(*ret.grammar) == with_symbol(shape(*old(self.grammar))), ret.grammar.same_rest(*old(self.grammar)), ret.grammar.rules == old(self.grammar).rules,
        ret.assoc == Associativity::Left, ret.history is None, ret.rules_with_group_assoc@.len() == 0,
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::rhs
//@impl impl<'a> PrecedencedRuleBuilder<'a>
//@sig S => &[Symbol]
//@sig <&[Symbol]> =>
//@sig where &[Symbol]: AsRef<[Symbol]>, =>
//@rewrite_opt RootHistoryNode::Rule { $$f }.into() => History::from_root(RootHistoryNode::Rule { $$f })
//@rewrite_opt $h.take().unwrap_or_else(|| $$e) ==>> (match $h.take() { Some(vx_h) => vx_h, None => { $$e } })
//@rewrite_opt syms.as_ref() => syms
    requires self.ok(), syms@.len() < u32::MAX,
    ensures
        ret.ok(), *final(ret.grammar) == *final(self.grammar), ret.same_level(self), ret.assoc == Associativity::Left, ret.history is None,
        ret.grammar.same_rest(*old(self.grammar)),
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        self.assoc == Associativity::Group ==> {
            &&& *ret.grammar == *old(self.grammar)
            &&& ret.rules_with_group_assoc@.len() == self.rules_with_group_assoc@.len() + 1
            &&& ret.rules_with_group_assoc@.drop_last() == self.rules_with_group_assoc@
            &&& ret.rules_with_group_assoc@.last().lhs == self.current_lhs && ret.rules_with_group_assoc@.last().rhs@ == syms@
            &&& ret.rules_with_group_assoc@.last().history == (match self.history { Some(h) => h, None => rule_history(0) })
        },
        self.assoc != Associativity::Group ==> {
            &&& ret.rules_with_group_assoc == self.rules_with_group_assoc
            &&& shape(*ret.grammar) == with_rule(shape(*old(self.grammar)), self.current_lhs, stratified(syms@, self.lhs, self.current_lhs, self.tighter_lhs, self.assoc == Associativity::Right))
        },
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::rule
//@impl impl<'a> PrecedencedRuleBuilder<'a>
    requires self.ok(),
    ensures
        *final(ret.grammar) == *final(self.grammar), ret.lhs == Some(lhs), ret.history is None, ret.grammar.same_rest(*old(self.grammar)),
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        shape(*ret.grammar) == with_rule(with_groups(shape(*old(self.grammar)), self.rules_with_group_assoc@, self.lhs, self.current_lhs), self.lhs, seq![self.current_lhs]),
//@end
//@fn cfg-grammar/src/precedenced_rule.rs PrecedencedRuleBuilder::precedenced_rule
//@impl impl<'a> PrecedencedRuleBuilder<'a>
    requires self.ok(),
    ensures
        ret.ok(), *final(ret.grammar) == *final(self.grammar), ret.grammar.same_rest(*old(self.grammar)),
        ret.lhs == lhs, ret.tighter_lhs == ret.current_lhs, ret.looseness == 0, ret.assoc == Associativity::Left, ret.history is None, ret.rules_with_group_assoc@.len() == 0,
        ret.grammar.rules@.take(old(self.grammar).rules@.len() as int) == old(self.grammar).rules@,
        shape(*ret.grammar) == with_symbol(with_rule(with_groups(shape(*old(self.grammar)), self.rules_with_group_assoc@, self.lhs, self.current_lhs), self.lhs, seq![self.current_lhs])),
        ret.current_lhs == sym_of(shape(*ret.grammar).n - 1),
//@end
//@bodyis cfg-grammar/src/cfg.rs Cfg::precedenced_rule :: PrecedencedRuleBuilder::new(self, lhs)
