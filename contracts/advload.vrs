// G24: loading.
//@struct cfg-load/src/lib.rs LoadError
//@ty crate::advanced::Token => Token
//@struct cfg-load/src/advanced.rs AdvancedGrammar
//@ty BTreeMap<usize, Option<String>> => VxActions
//@ty BTreeMap<String, cfg_symbol::Symbol> => VxNames
pub open spec fn all_rules(d: Seq<Decl>) -> Seq<Ru> { fl_doc(d, false) + fl_doc(d, true) }
pub open spec fn outer(d: Seq<Decl>) -> int { fl_doc(d, false).len() as int }
/// The tokens up to where the text stops to consist of tokens.
pub open spec fn tks(w: Seq<At>) -> Seq<Tok> { Seq::new(w.len(), |i: int| w[i].0) }
// ---- what is no grammar
/// A name is a left-hand side outside and inside lexers.
pub open spec fn shared_at(d: Seq<Decl>, i: int, j: int) -> bool { 0 <= i < outer(d) && outer(d) <= j < all_rules(d).len() && all_rules(d)[i].lhs == all_rules(d)[j].lhs }
/// A function that is not `Regexp`, or something that is no regular expression.
pub open spec fn bad_frag(f: Pt) -> bool { match f { Pt::Call(c, t) => c != "Regexp"@ || rx_err(t), Pt::Odd => true, _ => false } }
pub open spec fn bad_at(d: Seq<Decl>, i: int, k: int) -> bool { 0 <= i < all_rules(d).len() && 0 <= k < all_rules(d)[i].rhs.len() && bad_frag(all_rules(d)[i].rhs[k]) }
pub open spec fn flawed(d: Seq<Decl>) -> bool { (exists|i: int, j: int| #[trigger] shared_at(d, i, j)) || exists|i: int, k: int| #[trigger] bad_at(d, i, k) }
/// Some document begins with these tokens.
pub open spec fn viable(p: Seq<Tok>) -> bool { exists|d: Seq<Decl>| #[trigger] doc_begins(d, p) }
pub open spec fn doc_begins(d: Seq<Decl>, p: Seq<Tok>) -> bool { doc_ok(d) && p.len() <= pr_doc(d).len() && pr_doc(d).take(p.len() as int) == p }
pub open spec fn at_char(e: LoadError, s: Seq<char>, at: nat) -> bool { at <= s.len() && e.line == line_of(s.take(at as int)) && e.col == col_of(s.take(at as int)) }
/// No document begins with the tokens up to the k-th.
pub open spec fn dead_at(s: Seq<char>, k: int) -> bool { 0 <= k < lex(s, 0).len() && !viable(tks(lex(s, 0)).take(k + 1)) }
pub open spec fn refused(s: Seq<char>, e: LoadError) -> bool {
    ||| stuck(s, 0) is Some && at_char(e, s, stuck(s, 0).unwrap())
    ||| exists|k: int| #[trigger] dead_at(s, k) && at_char(e, s, lex(s, 0)[k].1)
    ||| stuck(s, 0) is None && e.line == 0 && e.col == 0 && forall|d: Seq<Decl>| !#[trigger] written(d, tks(lex(s, 0)))
    ||| stuck(s, 0) is None && exists|d: Seq<Decl>| #[trigger] written(d, tks(lex(s, 0))) && flawed(d)
}
// ---- what is loaded
pub open spec fn lexical_lhs(l: Lay, ds: Seq<Ru>, a: int, b: int, j: int, s: Symbol) -> bool { a <= j < b && s == l.names[ds[j].lhs] }
pub open spec fn lexical_lit(l: Lay, t: Seq<char>, s: Symbol) -> bool { l.lits.contains_key(t) && s == l.names[l.lits[t]] }
/// The left-hand sides of the rules from `a` up to `b`, and the symbols of strings.
pub open spec fn lexical(l: Lay, ds: Seq<Ru>, a: int, b: int, s: Symbol) -> bool {
    (exists|j: int| #[trigger] lexical_lhs(l, ds, a, b, j, s)) || exists|t: Seq<char>| #[trigger] lexical_lit(l, t, s)
}
pub open spec fn actions_ok(m: Map<usize, Option<Seq<char>>>, ds: Seq<Ru>, n: int) -> bool {
    &&& forall|k: usize| #[trigger] m.contains_key(k) <==> 1 <= k <= n
    &&& forall|k: usize| 1 <= k <= n ==> #[trigger] m[k] == ds[k - 1].act
}
pub open spec fn loaded(l: Lay, d: Seq<Decl>, g: AdvancedGrammar) -> bool {
    let ds = all_rules(d);
    &&& laid(l, g.cfg.rules@, g.cfg.n(), ds) && plain(g.cfg)
    &&& ds.len() > 0 && g.cfg.roots@ == seq![l.names[ds[0].lhs]]
    &&& g.lexer_map.classes@ == l.cm && own_classes(l.cm)
    &&& g.sbs@.len() == g.cfg.n() && forall|s: Symbol| #[trigger] g.sbs.has(s) <==> lexical(l, ds, outer(d), ds.len() as int, s)
    &&& actions_ok(g.actions@, ds, ds.len() as int)
    &&& g.sym_map@ =~= l.names
}
/// Sizes that fit, and no look-around assertions.
pub open spec fn frag_fits(f: Pt) -> bool { match f { Pt::Str(t) => t.len() < u32::MAX, Pt::Call(c, t) => !rx_looks(t), _ => true } }
pub open spec fn ru_fits(r: Ru) -> bool { r.rhs.len() < u32::MAX && forall|k: int| 0 <= k < r.rhs.len() ==> frag_fits(#[trigger] r.rhs[k]) }
pub open spec fn doc_fits(d: Seq<Decl>) -> bool { all_rules(d).len() < u32::MAX && forall|i: int| 0 <= i < all_rules(d).len() ==> ru_fits(#[trigger] all_rules(d)[i]) }
// ---- TRUSTED: maps and sets.
#[verifier::external_body]
pub struct VxActions { x: u8 }
impl View for VxActions {
    type V = Map<usize, Option<Seq<char>>>;
    uninterp spec fn view(&self) -> Map<usize, Option<Seq<char>>>;
}
impl VxActions {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<usize, Option<Seq<char>>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: Option<String>)
        ensures final(self)@ == old(self)@.insert(k, text_of(v)),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxNames { x: u8 }
impl View for VxNames {
    type V = Map<Seq<char>, Symbol>;
    uninterp spec fn view(&self) -> Map<Seq<char>, Symbol>;
}
impl VxNames {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<char>, Symbol>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: String, v: Symbol)
        ensures final(self)@ == old(self)@.insert(k@, v),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxIds { x: u8 }
impl VxIds {
    pub uninterp spec fn has(self, k: usize) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures forall|k: usize| !#[trigger] r.has(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: usize) -> (r: bool)
        ensures forall|k: usize| #[trigger] final(self).has(k) == (k == x || old(self).has(k)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &usize) -> (r: bool)
        ensures r == self.has(*x),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxRen { x: u8 }
impl View for VxRen {
    type V = RM;
    uninterp spec fn view(&self) -> RM;
}
impl VxRen {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Symbol, Symbol>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, k: Symbol) -> (r: Option<Symbol>)
        ensures r == (if self@.contains_key(k) { Some(self@[k]) } else { None::<Symbol> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Symbol, v: Symbol)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
}
pub open spec fn entries_are(m: Map<usize, Symbol>, es: Seq<(usize, Symbol)>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> m.contains_key((#[trigger] es[i]).0) && m[es[i].0] == es[i].1
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
}
impl VxSymMap {
    #[verifier::external_body]
    pub fn list(&self) -> (r: Vec<(usize, Symbol)>)
        ensures entries_are(self@, r@),
    { unimplemented!() }
}
impl StringInterner {
    #[verifier::external_body]
    pub fn resolve(&self, id: usize) -> (r: Option<String>)
        requires self.id(self.back(id)) == id,
        ensures r is Some, r.unwrap()@ == self.back(id),
    { unimplemented!() }
}
pub fn vx_text_of(o: Option<String>) -> (r: String)
    requires o is Some,
    ensures r@ == o.unwrap()@,
{ o.unwrap() }
/// The name of the n-th string.
pub uninterp spec fn lex_name(n: usize) -> Seq<char>;
#[verifier::external_body]
pub fn vx_lex_name(n: usize) -> (r: String)
    ensures r@ == lex_name(n),
{ unimplemented!() }
#[verifier::external_body]
pub proof fn lemma_lex_name(a: usize, b: usize)
    ensures lex_name(a) == lex_name(b) ==> a == b,
{ }
#[verifier::external_body]
pub fn vx_clone_token(t: &Token) -> (r: Token)
    ensures r == *t,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_chars(s: &String) -> (r: Vec<char>)
    ensures r@ == s@,
{ unimplemented!() }
pub fn vx_must(b: bool)
    requires b,
{ }
/// The rules outside lexers, marked, and then those inside.
pub open spec fn marked(v: Seq<(Rule, bool)>, a: Seq<Rule>, x: bool, b: Seq<Rule>, y: bool) -> bool {
    &&& v.len() == a.len() + b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] v[i] == (a[i], x)
    &&& forall|i: int| a.len() <= i < v.len() ==> #[trigger] v[i] == (b[i - a.len()], y)
}
// TRUSTED: `zip` with a repeated value, `chain`.
#[verifier::external_body]
pub fn vx_both(a: Vec<Rule>, x: bool, b: Vec<Rule>, y: bool) -> (r: Vec<(Rule, bool)>)
    ensures marked(r@, a@, x, b@, y),
{ unimplemented!() }
// ---- TRUSTED: regular expressions (decided under G22), and new symbols for those of a grammar.
pub struct RxError { pub x: u8 }
#[verifier::external_body]
pub fn vx_from_regexp(t: &String) -> (r: Result<(Cfg, LexerMap), RxError>)
    requires !rx_looks(t@),
    ensures match r {
        Ok(x) => x.0.roots@.len() == 1 && rx_of(t@, rxg(x.0, x.1.classes@)) && rx_ok(rxg(x.0, x.1.classes@)),
        Err(_) => rx_err(t@),
    },
{ unimplemented!() }
pub open spec fn names_all(v: Seq<Symbol>, g: Cfg) -> bool {
    &&& forall|p: Prod| #[trigger] prods(g.rules@).contains(p) ==> v.contains(p.l) && forall|i: int| 0 <= i < p.r.len() ==> v.contains(#[trigger] p.r[i])
    &&& forall|i: int| 0 <= i < g.roots@.len() ==> v.contains(#[trigger] g.roots@[i])
}
/// The symbols `remap_symbols` asks for, in some order, as often as it does.
#[verifier::external_body]
pub fn vx_calls(g: &Cfg) -> (r: Vec<Symbol>)
    ensures names_all(r@, *g),
{ unimplemented!() }
/// What `remap_symbols` makes of the answers: every symbol is replaced by the answer for it.
#[verifier::external_body]
pub fn vx_renamed(g: &mut Cfg, Ghost(m): Ghost<RM>)
    requires dom_ok(m, rxg(*old(g), Map::empty())), old(g).roots@.len() == 1,
    ensures prods(final(g).rules@) == mv_all(m, prods(old(g).rules@)), final(g).roots@ == seq![m[old(g).roots@[0]]],
{ unimplemented!() }
// TRUSTED: clones of rules are equal.
#[verifier::external_body]
pub fn vx_extend_cloned(v: &mut Vec<CfgRule>, u: &Vec<CfgRule>)
    ensures final(v)@ == old(v)@ + u@,
{ unimplemented!() }
//@fn cfg-grammar/src/cfg.rs Cfg::extend
//@rewrite_opt self.rules.extend(other.rules.iter().cloned()); => vx_extend_cloned(&mut self.rules, &other.rules);
    ensures final(self).same_rest(*old(self)), final(self).n() == old(self).n(), final(self).rules@ == old(self).rules@ + other.rules@,
//@end
// ---- sizes
pub proof fn lemma_lines(s: Seq<char>)
    ensures 1 <= line_of(s) <= s.len() + 1, 1 <= col_of(s) <= s.len() + 1,
    decreases s.len(),
{
    if s.len() > 0 { lemma_lines(s.drop_last()); }
}
pub proof fn lemma_lex_len(s: Seq<char>, at: nat)
    requires at <= s.len(),
    ensures lex(s, at).len() <= s.len() - at, stuck(s, at) is Some ==> stuck(s, at).unwrap() <= s.len(),
    decreases s.len() - at,
{
    if at < s.len() {
        let q = s.skip(at as int);
        lemma_one_tok(q);
        if let Some(x) = one(q) { lemma_lex_len(s, at + x.1); }
    }
}
// ---- what the maps know
pub open spec fn known(l: Lay, it: StringInterner, m: Map<usize, Symbol>) -> bool {
    &&& forall|s: Seq<char>| #[trigger] l.names.contains_key(s) ==> m.contains_key(it.id(s)) && m[it.id(s)] == l.names[s] && it.back(it.id(s)) == s
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> l.names.contains_key(it.back(k)) && it.id(it.back(k)) == k
}
pub proof fn lemma_known(l: Lay, it: StringInterner, m: Map<usize, Symbol>, k: usize, x: Symbol)
    requires known(l, it, m), !m.contains_key(k), it.id(it.back(k)) == k,
    ensures !l.names.contains_key(it.back(k)), known(with_name(l, it.back(k), x), it, m.insert(k, x)),
{
    let s = it.back(k);
    let v = with_name(l, s, x);
    let q = m.insert(k, x);
    assert forall|t: Seq<char>| #[trigger] v.names.contains_key(t) implies q.contains_key(it.id(t)) && q[it.id(t)] == v.names[t] && it.back(it.id(t)) == t by {
        if t != s { assert(l.names.contains_key(t)); assert(it.id(t) != k); }
    }
    assert forall|j: usize| #[trigger] q.contains_key(j) implies v.names.contains_key(it.back(j)) && it.id(it.back(j)) == j by {
        if j != k { assert(m.contains_key(j)); }
    }
}
pub open spec fn lits_known(l: Lay, li: StringInterner) -> bool {
    forall|t: Seq<char>| #[trigger] l.lits.contains_key(t) ==> l.lits[t] == lex_name(li.id(t)) && li.back(li.id(t)) == t
}
/// Everything the loader keeps in mind.
pub open spec fn mind(l: Lay, g: Cfg, ds: Seq<Ru>, it: StringInterner, m: Map<usize, Symbol>, li: StringInterner, cls: CM) -> bool {
    plain(g) && laid(l, g.rules@, g.n(), ds) && known(l, it, m) && lits_known(l, li) && l.cm == cls
}
// ---- steps
pub proof fn lemma_more_syms(a: Cfg, b: Cfg)
    requires plain(a), b.rules == a.rules, b.same_rest(a), b.n() >= a.n(),
    ensures plain(b),
{
    lemma_prods_wf(a);
    assert(prods_below(prods(b.rules@), b.n()));
    lemma_wf_prods(b);
}
pub proof fn lemma_named(l: Lay, a: Cfg, b: Cfg, ds: Seq<Ru>, it: StringInterner, m: Map<usize, Symbol>, li: StringInterner, k: usize, x: Symbol) -> (v: Lay)
    requires
        mind(l, a, ds, it, m, li, l.cm), !m.contains_key(k), it.id(it.back(k)) == k, x.raw == a.n(), given(x, it.back(k)),
        b.rules == a.rules, b.same_rest(a), b.n() == a.n() + 1,
    ensures mind(v, b, ds, it, m.insert(k, x), li, l.cm), extends(l, v), v.names == l.names.insert(it.back(k), x), v.lits == l.lits,
{
    let s = it.back(k);
    lemma_known(l, it, m, k, x);
    lemma_name_laid(l, a.rules@, a.n(), ds, s, x);
    lemma_more_syms(a, b);
    with_name(l, s, x)
}
pub proof fn lemma_classed(l: Lay, a: Cfg, b: Cfg, ds: Seq<Ru>, it: StringInterner, m: Map<usize, Symbol>, li: StringInterner, k: Seq<(char, char)>, x: Symbol) -> (v: Lay)
    requires
        mind(l, a, ds, it, m, li, l.cm), !l.cm.contains_key(k), own_ranges(k), x.raw == a.n(),
        b.rules == a.rules, b.same_rest(a), b.n() == a.n() + 1,
    ensures mind(v, b, ds, it, m, li, l.cm.insert(k, x)), extends(l, v), v.names == l.names, v.lits == l.lits,
{
    lemma_class_laid(l, a.rules@, a.n(), ds, k, x);
    lemma_more_syms(a, b);
    with_class(l, k, x)
}
pub proof fn lemma_after_seq(l: Lay, a: Cfg, b: Cfg, g: Cfg, x: Symbol, item: Symbol, min: u32, ds: Seq<Ru>) -> (m: Lay)
    requires
        plain(a), plain(b), laid(l, a.rules@, a.n(), ds), is_named(l, item),
        b.rules == a.rules, b.same_rest(a), b.n() == a.n() + 1, x.raw == a.n(), item.raw < a.n(), min <= 1,
        g.same_rest(b), keeps(b.rules@, g.rules@), new_lhs(ctx_of(b, rep_seq(x, item, min, None)), b.rules@, g.rules@),
        rewrites_alone(ctx_of(b, rep_seq(x, item, min, None)), prods(g.rules@)),
        prods_below(prods(g.rules@), g.n()), g.n() >= b.n(),
        forall|p: Prod| #[trigger] prods(g.rules@).contains(p) ==> prods(b.rules@).contains(p) || (p.l == x || p.l.raw >= b.n()) && own_syms(ctx_of(b, rep_seq(x, item, min, None)), p.r),
    ensures
        plain(g), laid(m, g.rules@, g.n(), ds), extends(l, m), m.names == l.names, m.lits == l.lits, m.cm == l.cm, is_grp(m, l.grps.len() as int, x, item, min),
{
    lemma_prods_wf(a);
    lemma_wf_prods(g);
    let h = Grp { x: x, end: g.n(), item: item, min: min, from: b.rules@.len() as int, to: g.rules@.len() as int };
    lemma_repeats(b, g, x, item, min, h);
    lemma_grp_laid(l, a.rules@, g.rules@, a.n(), g.n(), ds, h);
    with_grp(l, h)
}
pub proof fn lemma_one_more(a: Cfg, b: Cfg, x: Symbol, u: Seq<Symbol>)
    requires
        plain(a), u.len() < u32::MAX, x.raw < a.n(), below(u, a.n()),
        b.same_rest(a), prod_seq(b.rules@) == prod_seq(a.rules@) + added_prods(a, x, u), b.rules@.take(a.rules@.len() as int) == a.rules@,
        b.n() == a.n() + (if b.rules@.len() == a.rules@.len() { 0int } else { b.rules@.len() - a.rules@.len() - 1 }),
    ensures plain(b), b.n() == a.n(), one_more(a.rules@, b.rules@, x, u),
{
    lemma_rule_added(a, b, x, u);
    let k = a.rules@.len() as int;
    assert(prod_seq(b.rules@).len() == b.rules@.len() && prod_seq(a.rules@).len() == a.rules@.len());
    lemma_keeps(a.rules@, b.rules@);
    assert(prods(b.rules@).contains(Prod { l: x, r: u }));
    assert(prod_seq(b.rules@)[k] == added_prods(a, x, u)[0]);
    assert(b.rules@[k].lhs == x && b.rules@[k].rhs@ == u);
    lemma_prods_wf(a);
    assert forall|p: Prod| #[trigger] prods(b.rules@).contains(p) implies p.l.raw < b.n() && below(p.r, b.n()) by { }
    lemma_wf_prods(b);
}
/// A rule has been added for the i-th rule of the document.
pub proof fn lemma_after_rule(l: Lay, a: Cfg, b: Cfg, ds: Seq<Ru>, es: Seq<Ru>, r: Ru, x: Symbol, u: Seq<Symbol>) -> (m: Lay)
    requires
        plain(a), laid(l, a.rules@, a.n(), ds), es == ds.push(r), l.names.contains_key(r.lhs), l.names[r.lhs] == x, frags_are(l, r.rhs, u), u.len() < u32::MAX,
        b.same_rest(a), prod_seq(b.rules@) == prod_seq(a.rules@) + added_prods(a, x, u), b.rules@.take(a.rules@.len() as int) == a.rules@,
        forall|i: int| a.rules@.len() <= i < b.rules@.len() ==>
            (#[trigger] b.rules@[i]).history == chain_history(rule_history((ds.len() + 1) as u32), u.len() as int, a.limit(), i - a.rules@.len(), b.rules@.len() - a.rules@.len()),
        b.n() == a.n() + (if b.rules@.len() == a.rules@.len() { 0int } else { b.rules@.len() - a.rules@.len() - 1 }),
    ensures plain(b), laid(m, b.rules@, b.n(), es), extends(l, m), m.names == l.names, m.lits == l.lits, m.cm == l.cm,
{
    assert(name_fact(l, a.n(), r.lhs));
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).raw < a.n() by { lemma_frag_below(l, a.rules@, a.n(), ds, r.rhs[i], u[i]); }
    lemma_one_more(a, b, x, u);
    let k = a.rules@.len() as int;
    assert(b.rules@[k].history == rule_history((ds.len() + 1) as u32));
    lemma_rule_laid(l, a.rules@, b.rules@, a.n(), ds, es, r, u);
    with_rule(l, k)
}
/// A rule has been added that spells a string.
pub proof fn lemma_after_str(l: Lay, a: Cfg, b: Cfg, ds: Seq<Ru>, it: StringInterner, m: Map<usize, Symbol>, li: StringInterner, t: Seq<char>, x: Symbol, u: Seq<Symbol>) -> (v: Lay)
    requires
        mind(l, a, ds, it, m, li, l.cm), l.names.contains_key(lex_name(li.id(t))), l.names[lex_name(li.id(t))] == x, li.back(li.id(t)) == t,
        spells(l.cm, t, u), u.len() < u32::MAX,
        b.same_rest(a), prod_seq(b.rules@) == prod_seq(a.rules@) + added_prods(a, x, u), b.rules@.take(a.rules@.len() as int) == a.rules@,
        b.n() == a.n() + (if b.rules@.len() == a.rules@.len() { 0int } else { b.rules@.len() - a.rules@.len() - 1 }),
    ensures mind(v, b, ds, it, m, li, l.cm), extends(l, v), v.names == l.names, v.lits == l.lits.insert(t, lex_name(li.id(t))), frag_is(v, Pt::Str(t), x),
{
    let s = lex_name(li.id(t));
    assert(name_fact(l, a.n(), s));
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).raw < a.n() by { assert(spell_at(l.cm, t, u, i)); assert(class_fact(l, a.n(), char_key(t[i]))); }
    lemma_one_more(a, b, x, u);
    assert forall|w: Seq<char>| #[trigger] l.lits.contains_key(w) && l.lits[w] == s implies w == t by { lemma_lex_name(li.id(w), li.id(t)); }
    lemma_str_laid(l, a.rules@, b.rules@, a.n(), ds, t, s, u);
    with_str(l, t, s)
}
/// A copy of the rules of an expression has been added.
pub proof fn lemma_after_rx(l: Lay, a: Cfg, b: Cfg, g: Cfg, qs: Seq<CfgRule>, ds: Seq<Ru>, x: RxG, m: RM, t: Seq<char>) -> (v: Lay)
    requires
        plain(a), laid(l, a.rules@, a.n(), ds), b.rules == a.rules, b.same_rest(a), b.n() >= a.n(), g.same_rest(b), g.n() == b.n(), g.rules@ == b.rules@ + qs,
        rx_of(t, x), rx_ok(x), dom_ok(m, x), moves(m, x, l.cm, a.n(), b.n()), prods(qs) == mv_all(m, x.ps),
    ensures plain(g), laid(v, g.rules@, g.n(), ds), extends(l, v), v.names == l.names, v.lits == l.lits, v.cm == l.cm, is_rx(v, l.rxs.len() as int, m[x.root], t),
{
    let k = a.rules@.len() as int;
    let y = Rx { text: t, of: x, ren: m, first: a.n(), end: b.n(), from: k, to: g.rules@.len() as int };
    assert(g.rules@.subrange(k, g.rules@.len() as int) =~= qs);
    assert(keeps(a.rules@, g.rules@));
    assert(rx_in(g.rules@, l.cm, y, g.n()));
    lemma_rx_laid(l, a.rules@, g.rules@, a.n(), g.n(), ds, y);
    let v = with_rx(l, y);
    lemma_prods_wf(a);
    assert forall|p: Prod| #[trigger] prods(g.rules@).contains(p) implies p.l.raw < g.n() && below(p.r, g.n()) by {
        let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).lhs == p.l && g.rules@[i].rhs@ == p.r;
        if i < k { assert(a.rules@[i] == g.rules@[i]); assert(prods(a.rules@).contains(p)); }
        else {
            assert(qs[i - k] == g.rules@[i]);
            assert(prods(qs).contains(p));
            assert(is_mv(m, x.ps, p));
            let o = choose|o: Prod| #[trigger] x.ps.contains(o) && p == mv(m, o);
            assert(m.contains_key(o.l) && in_dom(m, o.r));
            lemma_moved_below(v, g.n(), y, p.l);
            assert forall|j: int| 0 <= j < p.r.len() implies (#[trigger] p.r[j]).raw < g.n() by { assert(m.contains_key(o.r[j])); lemma_moved_below(v, g.n(), y, p.r[j]); }
        }
    }
    lemma_wf_prods(g);
    v
}
/// The symbols that are lexical stay so.
pub proof fn lemma_lexical(l: Lay, m: Lay, ds: Seq<Ru>, a: int, b: int, rs: Seq<CfgRule>, n: int, es: Seq<Ru>)
    requires extends(l, m), laid(l, rs, n, es), forall|j: int| a <= j < b ==> l.names.contains_key((#[trigger] ds[j]).lhs),
    ensures
        m.lits == l.lits ==> forall|s: Symbol| #[trigger] lexical(m, ds, a, b, s) == lexical(l, ds, a, b, s),
        forall|t: Seq<char>| m.lits == #[trigger] l.lits.insert(t, m.lits[t]) ==> forall|s: Symbol| #[trigger] lexical(m, ds, a, b, s) == (lexical(l, ds, a, b, s) || s == m.names[m.lits[t]]),
{
    assert forall|s: Symbol| lexical(l, ds, a, b, s) implies #[trigger] lexical(m, ds, a, b, s) by {
        if exists|j: int| #[trigger] lexical_lhs(l, ds, a, b, j, s) { let j = choose|j: int| #[trigger] lexical_lhs(l, ds, a, b, j, s); assert(lexical_lhs(m, ds, a, b, j, s)); }
        else { let t = choose|t: Seq<char>| #[trigger] lexical_lit(l, t, s); assert(lit_fact(l, t)); assert(lexical_lit(m, t, s)); }
    }
    assert forall|s: Symbol, j: int| #[trigger] lexical_lhs(m, ds, a, b, j, s) implies lexical(l, ds, a, b, s) by { assert(lexical_lhs(l, ds, a, b, j, s)); }
    if m.lits == l.lits {
        assert forall|s: Symbol, t: Seq<char>| #[trigger] lexical_lit(m, t, s) implies lexical(l, ds, a, b, s) by { assert(lit_fact(l, t)); assert(lexical_lit(l, t, s)); }
    }
    assert forall|t: Seq<char>| m.lits == #[trigger] l.lits.insert(t, m.lits[t]) implies forall|s: Symbol| #[trigger] lexical(m, ds, a, b, s) == (lexical(l, ds, a, b, s) || s == m.names[m.lits[t]]) by {
        assert(m.lits.contains_key(t));
        assert forall|s: Symbol| #[trigger] lexical(m, ds, a, b, s) == (lexical(l, ds, a, b, s) || s == m.names[m.lits[t]]) by {
            if s == m.names[m.lits[t]] { assert(lexical_lit(m, t, s)); }
            if lexical(m, ds, a, b, s) && !(exists|j: int| #[trigger] lexical_lhs(m, ds, a, b, j, s)) {
                let u = choose|u: Seq<char>| #[trigger] lexical_lit(m, u, s);
                if u != t { assert(l.lits.contains_key(u)); assert(lit_fact(l, u)); assert(lexical_lit(l, u, s)); }
            }
        }
    }
}
/// One more rule is inside lexers.
pub proof fn lemma_lexical_next(l: Lay, ds: Seq<Ru>, a: int, b: int)
    requires a <= b < ds.len(),
    ensures forall|s: Symbol| #[trigger] lexical(l, ds, a, b + 1, s) == (lexical(l, ds, a, b, s) || s == l.names[ds[b].lhs]),
{
    assert forall|s: Symbol| #[trigger] lexical(l, ds, a, b + 1, s) == (lexical(l, ds, a, b, s) || s == l.names[ds[b].lhs]) by {
        if s == l.names[ds[b].lhs] { assert(lexical_lhs(l, ds, a, b + 1, b, s)); }
        if lexical(l, ds, a, b, s) {
            if exists|j: int| #[trigger] lexical_lhs(l, ds, a, b, j, s) { let j = choose|j: int| #[trigger] lexical_lhs(l, ds, a, b, j, s); assert(lexical_lhs(l, ds, a, b + 1, j, s)); }
        }
        if lexical(l, ds, a, b + 1, s) {
            if exists|j: int| #[trigger] lexical_lhs(l, ds, a, b + 1, j, s) { let j = choose|j: int| #[trigger] lexical_lhs(l, ds, a, b + 1, j, s); if j < b { assert(lexical_lhs(l, ds, a, b, j, s)); } }
        }
    }
}
/// Without a rule inside lexers before `b`, only strings are lexical.
pub proof fn lemma_lexical_none(l: Lay, ds: Seq<Ru>, a: int, b: int)
    requires b < a,
    ensures forall|s: Symbol| #[trigger] lexical(l, ds, a, b + 1, s) == lexical(l, ds, a, b, s),
{
    assert forall|s: Symbol| #[trigger] lexical(l, ds, a, b + 1, s) == lexical(l, ds, a, b, s) by {
        assert forall|j: int| !#[trigger] lexical_lhs(l, ds, a, b + 1, j, s) by { }
        assert forall|j: int| !#[trigger] lexical_lhs(l, ds, a, b, j, s) by { }
    }
}
