// G24: the rules of a text as the rules of a grammar.
pub type CM = Map<Seq<(char, char)>, Symbol>;
// ---- TRUSTED: tiny_earley (as in G23).
#[verifier::external_body]
pub struct BGrammar { x: u8 }
#[verifier::external_body]
pub fn vx_bnf_grammar() -> (r: BGrammar) { unimplemented!() }
impl BGrammar {
    #[verifier::external_body]
    pub fn symbols(&self) -> (r: [BSym; 24])
        ensures all_syms(r),
    { unimplemented!() }
}
// ---- TRUSTED: what regular expressions are translated into (decided under G22).
/// Rules, number of symbols, the symbol for the whole expression, symbols of classes.
pub ghost struct RxG { pub ps: ISet<Prod>, pub n: int, pub root: Symbol, pub cm: CM }
/// It has look-around assertions, which are not translated.
pub uninterp spec fn rx_looks(t: Seq<char>) -> bool;
/// The text is a regular expression, translated into `x`.
pub uninterp spec fn rx_of(t: Seq<char>, x: RxG) -> bool;
/// The text is not a regular expression.
pub open spec fn rx_err(t: Seq<char>) -> bool { forall|x: RxG| !#[trigger] rx_of(t, x) }
pub open spec fn rx_class(cm: CM, s: Symbol) -> bool { exists|k: Seq<(char, char)>| #[trigger] cm.contains_key(k) && cm[k] == s }
pub open spec fn rx_ok(x: RxG) -> bool {
    &&& prods_below(x.ps, x.n) && x.root.raw < x.n && own_classes(x.cm)
    &&& forall|k: Seq<(char, char)>| #[trigger] x.cm.contains_key(k) ==> x.cm[k].raw < x.n && !is_left(x.ps, x.cm[k])
}
pub open spec fn is_left(ps: ISet<Prod>, s: Symbol) -> bool { exists|p: Prod| #[trigger] ps.contains(p) && p.l == s }
pub open spec fn rxg(g: Cfg, cm: CM) -> RxG { RxG { ps: prods(g.rules@), n: g.n(), root: g.roots@[0], cm: cm } }
// ---- renamed rules
pub type RM = Map<Symbol, Symbol>;
pub open spec fn mv_seq(m: RM, u: Seq<Symbol>) -> Seq<Symbol> { Seq::new(u.len(), |i: int| m[u[i]]) }
pub open spec fn mv(m: RM, p: Prod) -> Prod { Prod { l: m[p.l], r: mv_seq(m, p.r) } }
pub open spec fn mv_all(m: RM, ps: ISet<Prod>) -> ISet<Prod> { ISet::new(|q: Prod| is_mv(m, ps, q)) }
pub open spec fn is_mv(m: RM, ps: ISet<Prod>, q: Prod) -> bool { exists|p: Prod| #[trigger] ps.contains(p) && q == mv(m, p) }
/// The symbol is in `u`, all of which have a new symbol.
pub open spec fn in_dom(m: RM, u: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < u.len() ==> m.contains_key(#[trigger] u[i]) }
pub open spec fn dom_ok(m: RM, x: RxG) -> bool { m.contains_key(x.root) && forall|p: Prod| #[trigger] x.ps.contains(p) ==> m.contains_key(p.l) && in_dom(m, p.r) }
/// Classes have the symbols they have in `cm`, others have symbols from `first` up to `end`, one each.
pub open spec fn moves(m: RM, x: RxG, cm: CM, first: int, end: int) -> bool {
    &&& forall|k: Seq<(char, char)>| #[trigger] x.cm.contains_key(k) ==> cm.contains_key(k) && m.contains_key(x.cm[k]) && m[x.cm[k]] == cm[k]
    &&& forall|s: Symbol| #[trigger] m.contains_key(s) ==> rx_class(x.cm, s) || first <= m[s].raw < end
    &&& forall|s: Symbol, t: Symbol| #[trigger] m.contains_key(s) && #[trigger] m.contains_key(t) && m[s] == m[t] && !rx_class(x.cm, s) && !rx_class(x.cm, t) ==> s == t
}
/// An expression, its translation, and the copy of that: its rules are at `from..to`.
pub ghost struct Rx { pub text: Seq<char>, pub of: RxG, pub ren: RM, pub first: int, pub end: int, pub from: int, pub to: int }
pub open spec fn rx_in(rs: Seq<CfgRule>, cm: CM, x: Rx, n: int) -> bool {
    &&& rx_of(x.text, x.of) && rx_ok(x.of) && dom_ok(x.ren, x.of) && moves(x.ren, x.of, cm, x.first, x.end)
    &&& 0 <= x.from <= x.to <= rs.len() && 0 <= x.first <= x.end <= n
    &&& prods(rs.subrange(x.from, x.to)) == mv_all(x.ren, x.of.ps)
}
pub open spec fn rx_root(x: Rx) -> Symbol { x.ren[x.of.root] }
// ---- what is loaded
/// What a symbol, and what a rule is there for.
pub ghost enum Role { Name(Seq<char>), Class(Seq<(char, char)>), Grp(int), Rx(int) }
pub ghost enum Place { Main(int), Grp(int), Str(Seq<char>), Rx(int) }
/// Where the parts of a text are in a grammar. `lits` has the names of the symbols of strings.
pub ghost struct Lay {
    pub role: Seq<Role>, pub place: Seq<Place>, pub names: Map<Seq<char>, Symbol>, pub cm: CM, pub lits: Map<Seq<char>, Seq<char>>,
    pub grps: Seq<Grp>, pub rxs: Seq<Rx>, pub at: Seq<int>,
}
pub open spec fn no_lay() -> Lay { Lay { role: Seq::empty(), place: Seq::empty(), names: Map::empty(), cm: Map::empty(), lits: Map::empty(), grps: Seq::empty(), rxs: Seq::empty(), at: Seq::empty() } }
pub open spec fn name_fact(l: Lay, n: int, s: Seq<char>) -> bool { l.names[s].raw < n && l.role[l.names[s].raw as int] == Role::Name(s) && given(l.names[s], s) }
pub open spec fn class_fact(l: Lay, n: int, k: Seq<(char, char)>) -> bool { l.cm[k].raw < n && l.role[l.cm[k].raw as int] == Role::Class(k) && own_ranges(k) }
pub open spec fn str_at(l: Lay, p: int, t: Seq<char>) -> bool { 0 <= p < l.place.len() && l.place[p] == Place::Str(t) }
pub open spec fn lit_fact(l: Lay, t: Seq<char>) -> bool { l.names.contains_key(l.lits[t]) && exists|p: int| #[trigger] str_at(l, p, t) }
pub open spec fn has_role(l: Lay, a: int, b: int, r: Role) -> bool { forall|i: int| a <= i < b ==> #[trigger] l.role[i] == r }
pub open spec fn has_place(l: Lay, a: int, b: int, r: Place) -> bool { forall|i: int| a <= i < b ==> #[trigger] l.place[i] == r }
pub open spec fn is_named(l: Lay, x: Symbol) -> bool { exists|s: Seq<char>| #[trigger] l.names.contains_key(s) && l.names[s] == x }
pub open spec fn grp_fact(l: Lay, rs: Seq<CfgRule>, n: int, j: int) -> bool {
    let g = l.grps[j];
    grp_ok(rs, g, n) && is_named(l, g.item) && has_role(l, g.x.raw as int, g.end, Role::Grp(j)) && has_place(l, g.from, g.to, Place::Grp(j))
}
pub open spec fn rx_fact(l: Lay, rs: Seq<CfgRule>, n: int, j: int) -> bool {
    let x = l.rxs[j];
    rx_in(rs, l.cm, x, n) && has_role(l, x.first, x.end, Role::Rx(j)) && has_place(l, x.from, x.to, Place::Rx(j))
}
pub open spec fn is_grp(l: Lay, j: int, s: Symbol, item: Symbol, min: u32) -> bool { 0 <= j < l.grps.len() && l.grps[j].x == s && l.grps[j].item == item && l.grps[j].min == min }
pub open spec fn is_rx(l: Lay, j: int, s: Symbol, t: Seq<char>) -> bool { 0 <= j < l.rxs.len() && l.rxs[j].text == t && s == rx_root(l.rxs[j]) }
/// The symbol that is written as `f`.
pub open spec fn frag_is(l: Lay, f: Pt, s: Symbol) -> bool {
    match f {
        Pt::Name(n, Rp::Once) => l.names.contains_key(n) && s == l.names[n],
        Pt::Name(n, Rp::Plus) => l.names.contains_key(n) && exists|j: int| #[trigger] is_grp(l, j, s, l.names[n], 1),
        Pt::Name(n, Rp::Star) => l.names.contains_key(n) && exists|j: int| #[trigger] is_grp(l, j, s, l.names[n], 0),
        Pt::Str(t) => l.lits.contains_key(t) && s == l.names[l.lits[t]],
        Pt::Call(c, t) => c == "Regexp"@ && exists|j: int| #[trigger] is_rx(l, j, s, t),
        Pt::Odd => false,
    }
}
pub open spec fn frags_are(l: Lay, fs: Seq<Pt>, u: Seq<Symbol>) -> bool { u.len() == fs.len() && forall|k: int| 0 <= k < u.len() ==> frag_is(l, fs[k], #[trigger] u[k]) }
pub open spec fn rule_of(rs: Seq<CfgRule>, l: Lay, r: Ru, i: int, p: int) -> bool {
    &&& 0 <= p < rs.len() && l.names.contains_key(r.lhs) && rs[p].lhs == l.names[r.lhs] && frags_are(l, r.rhs, rs[p].rhs@)
    &&& rs[p].history == rule_history((i + 1) as u32)
}
pub open spec fn main_fact(l: Lay, rs: Seq<CfgRule>, ds: Seq<Ru>, i: int) -> bool {
    rule_of(rs, l, ds[i], i, l.at[i]) && l.place[l.at[i]] == Place::Main(i) && (i > 0 ==> l.at[i - 1] < l.at[i])
}
/// A string is spelled by the symbols of its characters.
pub open spec fn spells(cm: CM, t: Seq<char>, u: Seq<Symbol>) -> bool {
    u.len() == t.len() && forall|i: int| 0 <= i < u.len() ==> #[trigger] spell_at(cm, t, u, i)
}
pub open spec fn spell_at(cm: CM, t: Seq<char>, u: Seq<Symbol>, i: int) -> bool { cm.contains_key(char_key(t[i])) && u[i] == cm[char_key(t[i])] }
pub open spec fn place_fact(l: Lay, rs: Seq<CfgRule>, p: int) -> bool {
    match l.place[p] {
        Place::Main(i) => 0 <= i < l.at.len() && l.at[i] == p,
        Place::Grp(j) => 0 <= j < l.grps.len() && l.grps[j].from <= p < l.grps[j].to,
        Place::Str(t) => l.lits.contains_key(t) && rs[p].lhs == l.names[l.lits[t]] && spells(l.cm, t, rs[p].rhs@),
        Place::Rx(j) => 0 <= j < l.rxs.len() && l.rxs[j].from <= p < l.rxs[j].to,
    }
}
pub open spec fn role_fact(l: Lay, i: int) -> bool {
    match l.role[i] {
        Role::Name(s) => l.names.contains_key(s) && l.names[s].raw == i,
        Role::Class(k) => l.cm.contains_key(k) && l.cm[k].raw == i,
        Role::Grp(j) => 0 <= j < l.grps.len() && l.grps[j].x.raw <= i < l.grps[j].end,
        Role::Rx(j) => 0 <= j < l.rxs.len() && l.rxs[j].first <= i < l.rxs[j].end,
    }
}
/// The grammar has the rules of `ds`: the i-th one is at `at[i]`, names and classes are symbols, one each,
/// a repetition is a symbol of its own, as is a string, and an expression is the root of a copy of its
/// translation. There are no other symbols, and no other rules.
pub open spec fn laid(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>) -> bool {
    &&& l.role.len() == n && l.place.len() == rs.len() && l.at.len() == ds.len()
    &&& forall|s: Seq<char>| #[trigger] l.names.contains_key(s) ==> name_fact(l, n, s)
    &&& forall|k: Seq<(char, char)>| #[trigger] l.cm.contains_key(k) ==> class_fact(l, n, k)
    &&& forall|t: Seq<char>| #[trigger] l.lits.contains_key(t) ==> lit_fact(l, t)
    &&& lits_apart(l)
    &&& forall|j: int| 0 <= j < l.grps.len() ==> #[trigger] grp_fact(l, rs, n, j)
    &&& forall|j: int| 0 <= j < l.rxs.len() ==> #[trigger] rx_fact(l, rs, n, j)
    &&& forall|i: int| 0 <= i < ds.len() ==> #[trigger] main_fact(l, rs, ds, i)
    &&& forall|p: int| 0 <= p < rs.len() ==> #[trigger] place_fact(l, rs, p)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] role_fact(l, i)
}
pub open spec fn lits_apart(l: Lay) -> bool { forall|s: Seq<char>, t: Seq<char>| #[trigger] l.lits.contains_key(s) && #[trigger] l.lits.contains_key(t) && l.lits[s] == l.lits[t] ==> s == t }
// ---- how it is laid out
pub open spec fn extends(l: Lay, m: Lay) -> bool {
    &&& l.role.len() <= m.role.len() && forall|i: int| 0 <= i < l.role.len() ==> #[trigger] m.role[i] == l.role[i]
    &&& l.place.len() <= m.place.len() && forall|i: int| 0 <= i < l.place.len() ==> #[trigger] m.place[i] == l.place[i]
    &&& forall|s: Seq<char>| #[trigger] l.names.contains_key(s) ==> m.names.contains_key(s) && m.names[s] == l.names[s]
    &&& forall|k: Seq<(char, char)>| #[trigger] l.cm.contains_key(k) ==> m.cm.contains_key(k) && m.cm[k] == l.cm[k]
    &&& forall|t: Seq<char>| #[trigger] l.lits.contains_key(t) ==> m.lits.contains_key(t) && m.lits[t] == l.lits[t]
    &&& l.grps.len() <= m.grps.len() && forall|j: int| 0 <= j < l.grps.len() ==> #[trigger] m.grps[j] == l.grps[j]
    &&& l.rxs.len() <= m.rxs.len() && forall|j: int| 0 <= j < l.rxs.len() ==> #[trigger] m.rxs[j] == l.rxs[j]
    &&& l.at.len() <= m.at.len() && forall|j: int| 0 <= j < l.at.len() ==> #[trigger] m.at[j] == l.at[j]
}
pub proof fn lemma_extends(l: Lay, m: Lay, o: Lay)
    requires extends(l, m), extends(m, o),
    ensures extends(l, o),
{
    assert forall|i: int| 0 <= i < l.role.len() implies #[trigger] o.role[i] == l.role[i] by { assert(m.role[i] == l.role[i]); }
    assert forall|i: int| 0 <= i < l.place.len() implies #[trigger] o.place[i] == l.place[i] by { assert(m.place[i] == l.place[i]); }
    assert forall|i: int| 0 <= i < l.grps.len() implies #[trigger] o.grps[i] == l.grps[i] by { assert(m.grps[i] == l.grps[i]); }
    assert forall|i: int| 0 <= i < l.rxs.len() implies #[trigger] o.rxs[i] == l.rxs[i] by { assert(m.rxs[i] == l.rxs[i]); }
    assert forall|i: int| 0 <= i < l.at.len() implies #[trigger] o.at[i] == l.at[i] by { assert(m.at[i] == l.at[i]); }
}
pub proof fn lemma_frag_ext(l: Lay, m: Lay, f: Pt, s: Symbol)
    requires extends(l, m), frag_is(l, f, s), forall|t: Seq<char>| #[trigger] l.lits.contains_key(t) ==> lit_fact(l, t),
    ensures frag_is(m, f, s),
{
    match f {
        Pt::Name(n, Rp::Plus) => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[n], 1); assert(m.grps[j] == l.grps[j]); assert(is_grp(m, j, s, m.names[n], 1)); }
        Pt::Name(n, Rp::Star) => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[n], 0); assert(m.grps[j] == l.grps[j]); assert(is_grp(m, j, s, m.names[n], 0)); }
        Pt::Str(t) => { assert(lit_fact(l, t)); }
        Pt::Call(c, t) => { let j = choose|j: int| #[trigger] is_rx(l, j, s, t); assert(m.rxs[j] == l.rxs[j]); assert(is_rx(m, j, s, t)); }
        _ => {}
    }
}
pub proof fn lemma_frags_ext(l: Lay, m: Lay, fs: Seq<Pt>, u: Seq<Symbol>)
    requires extends(l, m), frags_are(l, fs, u), forall|t: Seq<char>| #[trigger] l.lits.contains_key(t) ==> lit_fact(l, t),
    ensures frags_are(m, fs, u),
{
    assert forall|k: int| 0 <= k < u.len() implies frag_is(m, fs[k], #[trigger] u[k]) by { lemma_frag_ext(l, m, fs[k], u[k]); }
}
pub open spec fn begins_with(ds: Seq<Ru>, es: Seq<Ru>) -> bool { ds.len() <= es.len() && forall|i: int| 0 <= i < ds.len() ==> #[trigger] es[i] == ds[i] }
/// What is laid out stays as the grammar grows.
pub open spec fn stays(l: Lay, m: Lay, qs: Seq<CfgRule>, k: int, es: Seq<Ru>) -> bool {
    &&& forall|s: Seq<char>| #[trigger] l.names.contains_key(s) ==> name_fact(m, k, s)
    &&& forall|c: Seq<(char, char)>| #[trigger] l.cm.contains_key(c) ==> class_fact(m, k, c)
    &&& forall|t: Seq<char>| #[trigger] l.lits.contains_key(t) ==> lit_fact(m, t)
    &&& forall|j: int| 0 <= j < l.grps.len() ==> #[trigger] grp_fact(m, qs, k, j)
    &&& forall|j: int| 0 <= j < l.rxs.len() ==> #[trigger] rx_fact(m, qs, k, j)
    &&& forall|i: int| 0 <= i < l.at.len() ==> #[trigger] main_fact(m, qs, es, i)
    &&& forall|p: int| 0 <= p < l.place.len() ==> #[trigger] place_fact(m, qs, p)
    &&& forall|i: int| 0 <= i < l.role.len() ==> #[trigger] role_fact(m, i)
}
pub proof fn lemma_stays_grps(l: Lay, m: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, k: int, ds: Seq<Ru>)
    requires laid(l, rs, n, ds), extends(l, m), keeps(rs, qs), n <= k,
    ensures
        forall|j: int| 0 <= j < l.grps.len() ==> #[trigger] grp_fact(m, qs, k, j),
        forall|j: int| 0 <= j < l.rxs.len() ==> #[trigger] rx_fact(m, qs, k, j),
{
    assert forall|j: int| 0 <= j < l.grps.len() implies #[trigger] grp_fact(m, qs, k, j) by {
        let g = l.grps[j];
        assert(grp_fact(l, rs, n, j));
        assert(m.grps[j] == g);
        assert forall|p: int| g.from <= p < g.to implies #[trigger] qs[p] == rs[p] by { }
        assert(qs.subrange(g.from, g.to) =~= rs.subrange(g.from, g.to));
        let s = choose|s: Seq<char>| #[trigger] l.names.contains_key(s) && l.names[s] == g.item;
        assert(m.names.contains_key(s));
        assert forall|i: int| g.x.raw <= i < g.end implies #[trigger] m.role[i] == Role::Grp(j) by { assert(l.role[i] == Role::Grp(j)); }
        assert forall|i: int| g.from <= i < g.to implies #[trigger] m.place[i] == Place::Grp(j) by { assert(l.place[i] == Place::Grp(j)); }
    }
    assert forall|j: int| 0 <= j < l.rxs.len() implies #[trigger] rx_fact(m, qs, k, j) by {
        let x = l.rxs[j];
        assert(rx_fact(l, rs, n, j));
        assert(m.rxs[j] == x);
        assert(qs.subrange(x.from, x.to) =~= rs.subrange(x.from, x.to));
        assert forall|i: int| x.first <= i < x.end implies #[trigger] m.role[i] == Role::Rx(j) by { assert(l.role[i] == Role::Rx(j)); }
        assert forall|i: int| x.from <= i < x.to implies #[trigger] m.place[i] == Place::Rx(j) by { assert(l.place[i] == Place::Rx(j)); }
    }
}
pub proof fn lemma_stays_all(l: Lay, m: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, k: int, ds: Seq<Ru>, es: Seq<Ru>)
    requires laid(l, rs, n, ds), extends(l, m), keeps(rs, qs), n <= k, begins_with(ds, es),
    ensures stays(l, m, qs, k, es),
{
    lemma_stays_grps(l, m, rs, qs, n, k, ds);
    assert forall|s: Seq<char>| #[trigger] l.names.contains_key(s) implies name_fact(m, k, s) by { assert(name_fact(l, n, s)); assert(m.role[l.names[s].raw as int] == l.role[l.names[s].raw as int]); }
    assert forall|c: Seq<(char, char)>| #[trigger] l.cm.contains_key(c) implies class_fact(m, k, c) by { assert(class_fact(l, n, c)); assert(m.role[l.cm[c].raw as int] == l.role[l.cm[c].raw as int]); }
    assert forall|t: Seq<char>| #[trigger] l.lits.contains_key(t) implies lit_fact(m, t) by {
        assert(lit_fact(l, t));
        let p = choose|p: int| #[trigger] str_at(l, p, t);
        assert(m.place[p] == l.place[p]);
        assert(str_at(m, p, t));
    }
    assert forall|i: int| 0 <= i < l.at.len() implies #[trigger] main_fact(m, qs, es, i) by {
        assert(main_fact(l, rs, ds, i));
        let p = l.at[i];
        assert(m.at[i] == p);
        if i > 0 { assert(m.at[i - 1] == l.at[i - 1]); }
        assert(es[i] == ds[i]);
        assert(qs[p] == rs[p]);
        assert(m.place[p] == l.place[p]);
        lemma_frags_ext(l, m, ds[i].rhs, rs[p].rhs@);
    }
    assert forall|p: int| 0 <= p < l.place.len() implies #[trigger] place_fact(m, qs, p) by {
        assert(place_fact(l, rs, p));
        assert(m.place[p] == l.place[p] && qs[p] == rs[p]);
        match l.place[p] {
            Place::Main(i) => { assert(m.at[i] == l.at[i]); }
            Place::Grp(j) => { assert(m.grps[j] == l.grps[j]); }
            Place::Rx(j) => { assert(m.rxs[j] == l.rxs[j]); }
            Place::Str(t) => {
                assert(lit_fact(l, t));
                let u = rs[p].rhs@;
                assert forall|i: int| 0 <= i < u.len() implies #[trigger] spell_at(m.cm, t, u, i) by { assert(spell_at(l.cm, t, u, i)); }
            }
        }
    }
    assert forall|i: int| 0 <= i < l.role.len() implies #[trigger] role_fact(m, i) by {
        assert(role_fact(l, i));
        assert(m.role[i] == l.role[i]);
        match l.role[i] {
            Role::Grp(j) => { assert(m.grps[j] == l.grps[j]); }
            Role::Rx(j) => { assert(m.rxs[j] == l.rxs[j]); }
            _ => {}
        }
    }
}
pub open spec fn with_name(l: Lay, s: Seq<char>, x: Symbol) -> Lay { Lay { role: l.role.push(Role::Name(s)), names: l.names.insert(s, x), ..l } }
pub proof fn lemma_name_laid(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, s: Seq<char>, x: Symbol)
    requires laid(l, rs, n, ds), !l.names.contains_key(s), x.raw == n, given(x, s),
    ensures laid(with_name(l, s, x), rs, n + 1, ds), extends(l, with_name(l, s, x)),
{
    let m = with_name(l, s, x);
    assert(extends(l, m));
    lemma_stays_all(l, m, rs, rs, n, n + 1, ds, ds);
    assert forall|t: Seq<char>| #[trigger] m.names.contains_key(t) implies name_fact(m, n + 1, t) by { if t != s { assert(l.names.contains_key(t)); } }
    assert(role_fact(m, n));
}
pub open spec fn with_class(l: Lay, k: Seq<(char, char)>, x: Symbol) -> Lay { Lay { role: l.role.push(Role::Class(k)), cm: l.cm.insert(k, x), ..l } }
pub proof fn lemma_class_laid(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, k: Seq<(char, char)>, x: Symbol)
    requires laid(l, rs, n, ds), !l.cm.contains_key(k), x.raw == n, own_ranges(k),
    ensures laid(with_class(l, k, x), rs, n + 1, ds), extends(l, with_class(l, k, x)),
{
    let m = with_class(l, k, x);
    assert(extends(l, m));
    lemma_stays_all(l, m, rs, rs, n, n + 1, ds, ds);
    assert forall|t: Seq<(char, char)>| #[trigger] m.cm.contains_key(t) implies class_fact(m, n + 1, t) by { if t != k { assert(l.cm.contains_key(t)); } }
    assert(role_fact(m, n));
}
pub open spec fn with_grp(l: Lay, g: Grp) -> Lay {
    let j = l.grps.len() as int;
    Lay { role: l.role + Seq::new((g.end - g.x.raw) as nat, |i: int| Role::Grp(j)), place: l.place + Seq::new((g.to - g.from) as nat, |i: int| Place::Grp(j)), grps: l.grps.push(g), ..l }
}
pub proof fn lemma_grp_laid(l: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, k: int, ds: Seq<Ru>, g: Grp)
    requires
        laid(l, rs, n, ds), keeps(rs, qs), g.x.raw == n, n < k, g.end == k, g.from == rs.len(), g.to == qs.len(), grp_ok(qs, g, k),
        is_named(l, g.item),
    ensures laid(with_grp(l, g), qs, k, ds), extends(l, with_grp(l, g)), is_grp(with_grp(l, g), l.grps.len() as int, g.x, g.item, g.min),
{
    let m = with_grp(l, g);
    let j = l.grps.len() as int;
    assert(extends(l, m));
    lemma_stays_all(l, m, rs, qs, n, k, ds, ds);
    assert(m.grps[j] == g);
    let s = choose|s: Seq<char>| #[trigger] l.names.contains_key(s) && l.names[s] == g.item;
    assert(m.names.contains_key(s));
    assert(grp_fact(m, qs, k, j));
    assert forall|i: int| 0 <= i < m.grps.len() implies #[trigger] grp_fact(m, qs, k, i) by { }
    assert forall|p: int| 0 <= p < qs.len() implies #[trigger] place_fact(m, qs, p) by { if p >= rs.len() { assert(m.place[p] == Place::Grp(j)); } }
    assert forall|i: int| 0 <= i < k implies #[trigger] role_fact(m, i) by { if i >= n { assert(m.role[i] == Role::Grp(j)); } }
}
pub open spec fn with_rx(l: Lay, x: Rx) -> Lay {
    let j = l.rxs.len() as int;
    Lay { role: l.role + Seq::new((x.end - x.first) as nat, |i: int| Role::Rx(j)), place: l.place + Seq::new((x.to - x.from) as nat, |i: int| Place::Rx(j)), rxs: l.rxs.push(x), ..l }
}
pub proof fn lemma_rx_laid(l: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, k: int, ds: Seq<Ru>, x: Rx)
    requires laid(l, rs, n, ds), keeps(rs, qs), x.first == n, n <= k, x.end == k, x.from == rs.len(), x.to == qs.len(), rx_in(qs, l.cm, x, k),
    ensures laid(with_rx(l, x), qs, k, ds), extends(l, with_rx(l, x)), is_rx(with_rx(l, x), l.rxs.len() as int, rx_root(x), x.text),
{
    let m = with_rx(l, x);
    let j = l.rxs.len() as int;
    assert(extends(l, m));
    lemma_stays_all(l, m, rs, qs, n, k, ds, ds);
    assert(m.rxs[j] == x);
    assert(rx_fact(m, qs, k, j));
    assert forall|i: int| 0 <= i < m.rxs.len() implies #[trigger] rx_fact(m, qs, k, i) by { }
    assert forall|p: int| 0 <= p < qs.len() implies #[trigger] place_fact(m, qs, p) by { if p >= rs.len() { assert(m.place[p] == Place::Rx(j)); } }
    assert forall|i: int| 0 <= i < k implies #[trigger] role_fact(m, i) by { if i >= n { assert(m.role[i] == Role::Rx(j)); } }
}
pub open spec fn with_str(l: Lay, t: Seq<char>, s: Seq<char>) -> Lay { Lay { place: l.place.push(Place::Str(t)), lits: l.lits.insert(t, s), ..l } }
/// One rule has been added.
pub open spec fn one_more(rs: Seq<CfgRule>, qs: Seq<CfgRule>, x: Symbol, u: Seq<Symbol>) -> bool { keeps(rs, qs) && qs.len() == rs.len() + 1 && qs[rs.len() as int].lhs == x && qs[rs.len() as int].rhs@ == u }
pub proof fn lemma_str_laid(l: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, ds: Seq<Ru>, t: Seq<char>, s: Seq<char>, u: Seq<Symbol>)
    requires
        laid(l, rs, n, ds), l.names.contains_key(s), l.lits.contains_key(t) ==> l.lits[t] == s,
        forall|v: Seq<char>| #[trigger] l.lits.contains_key(v) && l.lits[v] == s ==> v == t,
        one_more(rs, qs, l.names[s], u), spells(l.cm, t, u),
    ensures laid(with_str(l, t, s), qs, n, ds), extends(l, with_str(l, t, s)),
{
    let m = with_str(l, t, s);
    assert(extends(l, m));
    lemma_stays_all(l, m, rs, qs, n, n, ds, ds);
    assert(str_at(m, rs.len() as int, t));
    assert forall|v: Seq<char>| #[trigger] m.lits.contains_key(v) implies lit_fact(m, v) by { if v != t { assert(l.lits.contains_key(v)); } }
    assert forall|v: Seq<char>, w: Seq<char>| #[trigger] m.lits.contains_key(v) && #[trigger] m.lits.contains_key(w) && m.lits[v] == m.lits[w] implies v == w by {
        if v != t { assert(l.lits.contains_key(v)); }
        if w != t { assert(l.lits.contains_key(w)); }
    }
    assert(place_fact(m, qs, rs.len() as int));
}
pub open spec fn with_rule(l: Lay, p: int) -> Lay { Lay { place: l.place.push(Place::Main(l.at.len() as int)), at: l.at.push(p), ..l } }
pub proof fn lemma_rule_laid(l: Lay, rs: Seq<CfgRule>, qs: Seq<CfgRule>, n: int, ds: Seq<Ru>, es: Seq<Ru>, r: Ru, u: Seq<Symbol>)
    requires
        laid(l, rs, n, ds), es == ds.push(r), l.names.contains_key(r.lhs), one_more(rs, qs, l.names[r.lhs], u), frags_are(l, r.rhs, u),
        qs[rs.len() as int].history == rule_history((ds.len() + 1) as u32),
    ensures laid(with_rule(l, rs.len() as int), qs, n, es), extends(l, with_rule(l, rs.len() as int)),
{
    let m = with_rule(l, rs.len() as int);
    assert(extends(l, m));
    lemma_stays_all(l, m, rs, qs, n, n, ds, es);
    let i = ds.len() as int;
    lemma_frags_ext(l, m, r.rhs, u);
    if i > 0 { assert(main_fact(l, rs, ds, i - 1)); assert(m.at[i - 1] == l.at[i - 1]); }
    assert(main_fact(m, qs, es, i));
    assert(place_fact(m, qs, rs.len() as int));
}
// ---- consequences
/// Symbols of classes have no rules.
pub proof fn lemma_classes_bare(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>)
    requires laid(l, rs, n, ds),
    ensures
        own_classes(l.cm),
        forall|k: Seq<(char, char)>, p: int| #[trigger] l.cm.contains_key(k) && 0 <= p < rs.len() ==> (#[trigger] rs[p]).lhs != l.cm[k],
{
    assert forall|k: Seq<(char, char)>, p: int| #[trigger] l.cm.contains_key(k) && 0 <= p < rs.len() implies (#[trigger] rs[p]).lhs != l.cm[k] by {
        assert(place_fact(l, rs, p));
        assert(class_fact(l, n, k));
        match l.place[p] {
            Place::Main(i) => { assert(main_fact(l, rs, ds, i)); assert(name_fact(l, n, ds[i].lhs)); }
            Place::Str(t) => { assert(lit_fact(l, t)); assert(name_fact(l, n, l.lits[t])); }
            Place::Grp(j) => {
                assert(grp_fact(l, rs, n, j));
                assert(own(l.grps[j], rs[p].lhs));
                assert(l.role[rs[p].lhs.raw as int] == Role::Grp(j));
            }
            Place::Rx(j) => {
                assert(rx_fact(l, rs, n, j));
                lemma_rx_lhs(l, rs, n, j, p);
                assert(l.role[rs[p].lhs.raw as int] == Role::Rx(j));
            }
        }
    }
    assert forall|k: Seq<(char, char)>| #[trigger] l.cm.contains_key(k) implies own_ranges(k) by { assert(class_fact(l, n, k)); }
    assert forall|k: Seq<(char, char)>, k2: Seq<(char, char)>| #[trigger] l.cm.contains_key(k) && #[trigger] l.cm.contains_key(k2) && l.cm[k] == l.cm[k2] implies k == k2 by {
        assert(class_fact(l, n, k) && class_fact(l, n, k2));
    }
}
pub proof fn lemma_rx_lhs(l: Lay, rs: Seq<CfgRule>, n: int, j: int, p: int)
    requires rx_fact(l, rs, n, j), l.rxs[j].from <= p < l.rxs[j].to,
    ensures l.rxs[j].first <= rs[p].lhs.raw < l.rxs[j].end,
{
    let x = l.rxs[j];
    let sub = rs.subrange(x.from, x.to);
    let q = Prod { l: rs[p].lhs, r: rs[p].rhs@ };
    assert(sub[p - x.from] == rs[p]);
    assert(prods(sub).contains(q));
    assert(is_mv(x.ren, x.of.ps, q));
    let o = choose|o: Prod| #[trigger] x.of.ps.contains(o) && q == mv(x.ren, o);
    assert(x.ren.contains_key(o.l));
    if rx_class(x.of.cm, o.l) {
        let k = choose|k: Seq<(char, char)>| #[trigger] x.of.cm.contains_key(k) && x.of.cm[k] == o.l;
        assert(is_left(x.of.ps, o.l));
    }
}
/// Every symbol of a rule is one of the grammar's.
pub proof fn lemma_frag_below(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, f: Pt, s: Symbol)
    requires laid(l, rs, n, ds), frag_is(l, f, s),
    ensures s.raw < n,
{
    match f {
        Pt::Name(t, Rp::Once) => { assert(name_fact(l, n, t)); }
        Pt::Name(t, Rp::Plus) => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[t], 1); assert(grp_fact(l, rs, n, j)); }
        Pt::Name(t, Rp::Star) => { let j = choose|j: int| #[trigger] is_grp(l, j, s, l.names[t], 0); assert(grp_fact(l, rs, n, j)); }
        Pt::Str(t) => { assert(lit_fact(l, t)); assert(name_fact(l, n, l.lits[t])); }
        Pt::Call(c, t) => { let j = choose|j: int| #[trigger] is_rx(l, j, s, t); assert(rx_fact(l, rs, n, j)); lemma_moved_below(l, n, l.rxs[j], rx_root(l.rxs[j])); }
        Pt::Odd => {}
    }
}
pub proof fn lemma_moved_below(l: Lay, n: int, x: Rx, s: Symbol)
    requires
        moves(x.ren, x.of, l.cm, x.first, x.end), x.end <= n, exists|o: Symbol| #[trigger] x.ren.contains_key(o) && x.ren[o] == s,
        forall|k: Seq<(char, char)>| #[trigger] l.cm.contains_key(k) ==> class_fact(l, n, k),
    ensures s.raw < n,
{
    let o = choose|o: Symbol| #[trigger] x.ren.contains_key(o) && x.ren[o] == s;
    if rx_class(x.of.cm, o) {
        let k = choose|k: Seq<(char, char)>| #[trigger] x.of.cm.contains_key(k) && x.of.cm[k] == o;
        assert(class_fact(l, n, k));
    }
}
