// G24: what a sequence of tokens says.
// ---- declarations as they are written down
pub ghost enum Rp { Once, Plus, Star }
/// A part of an alternative: a name that may repeat, a string, or a function of a string.
pub ghost enum Pt { Name(Seq<char>, Rp), Str(Seq<char>), Call(Seq<char>, Seq<char>), Odd }
pub ghost struct Alt { pub items: Seq<Pt>, pub act: Option<Seq<char>> }
/// `lhs ::= alternative | … ;`, or `lhs ::= action;`, where the action may be left out.
pub ghost struct Line { pub lhs: Seq<char>, pub alts: Seq<Alt>, pub act: Option<Seq<char>> }
pub ghost enum Decl { Rule(Line), Lexer(Seq<Line>) }
pub ghost struct Ru { pub lhs: Seq<char>, pub rhs: Seq<Pt>, pub act: Option<Seq<char>> }
pub open spec fn pr_rep(r: Rp) -> Seq<Tok> { match r { Rp::Once => seq![], Rp::Plus => seq![Tok::Plus], Rp::Star => seq![Tok::Star] } }
pub open spec fn pr_part(p: Pt) -> Seq<Tok> {
    match p {
        Pt::Name(n, r) => seq![Tok::Id(n)] + pr_rep(r),
        Pt::Str(s) => seq![Tok::Str(s)],
        Pt::Call(f, s) => seq![Tok::Id(f), Tok::Open, Tok::Str(s), Tok::Close],
        Pt::Odd => seq![],
    }
}
pub open spec fn pr_items(a: Seq<Pt>) -> Seq<Tok>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else if a.len() == 1 { pr_part(a[0]) } else { pr_items(a.drop_last()) + seq![Tok::Tilde] + pr_part(a.last()) }
}
pub open spec fn pr_act(o: Option<Seq<char>>) -> Seq<Tok> { match o { Some(n) => seq![Tok::Gt, Tok::Id(n)], None => seq![] } }
pub open spec fn pr_alt(a: Alt) -> Seq<Tok> { pr_items(a.items) + pr_act(a.act) }
pub open spec fn pr_alts(s: Seq<Alt>) -> Seq<Tok>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else if s.len() == 1 { pr_alt(s[0]) } else { pr_alts(s.drop_last()) + seq![Tok::Pipe] + pr_alt(s.last()) }
}
pub open spec fn pr_line(l: Line) -> Seq<Tok> { seq![Tok::Id(l.lhs), Tok::Is] + (if l.alts.len() == 0 { pr_act(l.act) } else { pr_alts(l.alts) }) + seq![Tok::Semi] }
pub open spec fn pr_lines(d: Seq<Line>) -> Seq<Tok>
    decreases d.len(),
{
    if d.len() == 0 { seq![] } else { pr_lines(d.drop_last()) + pr_line(d.last()) }
}
pub open spec fn pr_decl(d: Decl) -> Seq<Tok> { match d { Decl::Rule(l) => pr_line(l), Decl::Lexer(ls) => seq![Tok::Kw, Tok::LBrace] + pr_lines(ls) + seq![Tok::RBrace] } }
pub open spec fn pr_doc(d: Seq<Decl>) -> Seq<Tok>
    decreases d.len(),
{
    if d.len() == 0 { seq![] } else { pr_doc(d.drop_last()) + pr_decl(d.last()) }
}
pub open spec fn items_ok(a: Seq<Pt>) -> bool { a.len() > 0 && forall|i: int| 0 <= i < a.len() ==> !((#[trigger] a[i]) is Odd) }
/// No alternative is left out.
pub open spec fn alts_ok(s: Seq<Alt>) -> bool { forall|j: int| 0 <= j < s.len() ==> items_ok((#[trigger] s[j]).items) }
pub open spec fn lines_ok(d: Seq<Line>) -> bool { d.len() > 0 && forall|i: int| 0 <= i < d.len() ==> alts_ok((#[trigger] d[i]).alts) }
pub open spec fn decl_ok(d: Decl) -> bool { match d { Decl::Rule(l) => alts_ok(l.alts), Decl::Lexer(ls) => lines_ok(ls) } }
pub open spec fn doc_ok(d: Seq<Decl>) -> bool { d.len() > 0 && forall|i: int| 0 <= i < d.len() ==> decl_ok(#[trigger] d[i]) }
// ---- the rules this means, outside and inside lexers
pub open spec fn with_lhs(lhs: Seq<char>, s: Seq<Alt>) -> Seq<Ru> { Seq::new(s.len(), |i: int| Ru { lhs: lhs, rhs: s[i].items, act: s[i].act }) }
pub open spec fn fl_line(l: Line) -> Seq<Ru> { if l.alts.len() == 0 { seq![Ru { lhs: l.lhs, rhs: seq![], act: l.act }] } else { with_lhs(l.lhs, l.alts) } }
pub open spec fn fl_lines(d: Seq<Line>) -> Seq<Ru>
    decreases d.len(),
{
    if d.len() == 0 { seq![] } else { fl_lines(d.drop_last()) + fl_line(d.last()) }
}
pub open spec fn fl_decl(d: Decl, inner: bool) -> Seq<Ru> { match d { Decl::Rule(l) => if inner { seq![] } else { fl_line(l) }, Decl::Lexer(ls) => if inner { fl_lines(ls) } else { seq![] } } }
pub open spec fn fl_doc(d: Seq<Decl>, inner: bool) -> Seq<Ru>
    decreases d.len(),
{
    if d.len() == 0 { seq![] } else { fl_doc(d.drop_last(), inner) + fl_decl(d.last(), inner) }
}
// ---- values
//@struct cfg-load/src/advanced.rs Rule
//@struct cfg-load/src/advanced.rs Fragment
//@struct cfg-load/src/advanced.rs Rep
//@struct cfg-load/src/advanced.rs LexerVal
//@struct cfg-load/src/advanced.rs Value
pub ghost enum Va { Id(Seq<char>), Str(Seq<char>), Start(Seq<Ru>, Seq<Ru>), Rules(Seq<Ru>), Lex(Seq<Ru>), Rhs(Seq<Alt>), Frag(Pt), Alt(Seq<Pt>), Alt2(Alt), Nothing }
impl Fragment {
    pub open spec fn v(self) -> Pt {
        match self {
            Fragment::Rhs { ident, rep } => Pt::Name(ident@, match rep { Rep::None => Rp::Once, Rep::OneOrMore => Rp::Plus, Rep::ZeroOrMore => Rp::Star }),
            Fragment::Lex { string, span } => Pt::Str(string@),
            Fragment::Call { func, arg, span } => match *arg { Fragment::Lex { string, span } => Pt::Call(func@, string@), _ => Pt::Odd },
        }
    }
}
pub open spec fn text_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn frs(v: Seq<Fragment>) -> Seq<Pt> { Seq::new(v.len(), |i: int| v[i].v()) }
pub open spec fn alt_of(x: (Vec<Fragment>, Option<String>)) -> Alt { Alt { items: frs(x.0@), act: text_of(x.1) } }
pub open spec fn frss(v: Seq<(Vec<Fragment>, Option<String>)>) -> Seq<Alt> { Seq::new(v.len(), |i: int| alt_of(v[i])) }
impl Rule {
    pub open spec fn v(self) -> Ru { Ru { lhs: self.lhs@, rhs: frs(self.rhs@), act: text_of(self.action) } }
}
pub open spec fn rus(v: Seq<Rule>) -> Seq<Ru> { Seq::new(v.len(), |i: int| v[i].v()) }
pub open spec fn inner_of(o: Option<LexerVal>) -> Seq<Ru> { match o { Some(x) => rus(x.0@), None => seq![] } }
impl Value {
    pub open spec fn v(self) -> Va {
        match self {
            Value::Ident(s, _) => Va::Id(s@),
            Value::String(s, _) => Va::Str(s@),
            Value::Start(v, l) => Va::Start(rus(v@), inner_of(l)),
            Value::Rules(v) => Va::Rules(rus(v@)),
            Value::Lex(l) => Va::Lex(rus(l.0@)),
            Value::Rhs(v) => Va::Rhs(frss(v@)),
            Value::Fragment(f) => Va::Frag(f.v()),
            Value::Alt(v) => Va::Alt(frs(v@)),
            Value::Alt2(v, a) => Va::Alt2(Alt { items: frs(v@), act: text_of(a) }),
            Value::None(_) => Va::Nothing,
        }
    }
}
pub open spec fn vals_of(v: Seq<Value>) -> Seq<Va> { Seq::new(v.len(), |i: int| v[i].v()) }
// ---- the grammar of these texts, as it stands in the code
//@grammar cfg-load/src/advanced.rs
pub open spec fn is_rule(id: nat) -> bool { 2 <= id < 2 + G_RULES }
/// The kind of value that belongs to a symbol.
pub open spec fn typed(s: nat, v: Va) -> bool {
    if s == s_start() { v is Start }
    else if s == s_decl() { v is Rules || v is Lex }
    else if s == s_rule() || s == s_rules() { v is Rules }
    else if s == s_lexer() { v is Lex }
    else if s == s_rhs() { v is Rhs }
    else if s == s_alt2() { v is Alt2 }
    else if s == s_alt() { v is Alt }
    else if s == s_fragment() { v is Frag }
    else if s == s_ident() || s == s_action() { v is Id }
    else if s == s_string() { v is Str }
    else { v is Nothing }
}
/// What a rule makes of the values of its parts.
pub open spec fn act(id: nat, a: Seq<Va>) -> Va {
    let l = g_lhs(id);
    let r = g_rhs(id);
    if l == s_start() {
        let (o, i) = if r.len() == 2 { (a[0]->Start_0, a[0]->Start_1) } else { (Seq::<Ru>::empty(), Seq::<Ru>::empty()) };
        match a.last() { Va::Rules(x) => Va::Start(o + x, i), Va::Lex(x) => Va::Start(o, i + x), _ => Va::Nothing }
    }
    else if l == s_decl() { a[0] }
    else if l == s_rule() {
        let x = a[0]->Id_0;
        Va::Rules(if r.len() == 3 { seq![Ru { lhs: x, rhs: seq![], act: None }] } else if r[2] == s_action() { seq![Ru { lhs: x, rhs: seq![], act: Some(a[2]->Id_0) }] } else { with_lhs(x, a[2]->Rhs_0) })
    }
    else if l == s_rhs() { Va::Rhs(if r.len() == 3 { a[0]->Rhs_0.push(a[2]->Alt2_0) } else { seq![a[0]->Alt2_0] }) }
    else if l == s_alt2() { Va::Alt2(Alt { items: a[0]->Alt_0, act: if r.len() == 2 { Some(a[1]->Id_0) } else { None } }) }
    else if l == s_alt() { Va::Alt(if r.len() == 3 { a[0]->Alt_0.push(a[2]->Frag_0) } else { seq![a[0]->Frag_0] }) }
    else if l == s_fragment() {
        Va::Frag(if r[0] == s_string() { Pt::Str(a[0]->Str_0) } else if r.len() == 4 { Pt::Call(a[0]->Id_0, a[2]->Str_0) }
            else { Pt::Name(a[0]->Id_0, if r.len() == 1 { Rp::Once } else if r[1] == s_op_plus() { Rp::Plus } else { Rp::Star }) })
    }
    else if l == s_lexer() { Va::Lex(a[2]->Rules_0) }
    else if l == s_action() { a[1] }
    else { Va::Rules(if r.len() == 2 { a[0]->Rules_0 + a[1]->Rules_0 } else { a[0]->Rules_0 }) }
}
// ---- TRUSTED: tiny_earley. Symbols are numbered in their order, rules from 2.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BSym { pub n: u32 }
pub open spec fn all_syms(s: [BSym; 24]) -> bool { forall|i: int| 0 <= i < 24 ==> (#[trigger] s@[i]).n == i }
pub type Tup24 = (BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym);
pub fn vx_syms(s: &[BSym; 24]) -> (r: Tup24)
    requires all_syms(*s),
    ensures
        r.0.n == 0, r.1.n == 1, r.2.n == 2, r.3.n == 3, r.4.n == 4, r.5.n == 5, r.6.n == 6, r.7.n == 7, r.8.n == 8, r.9.n == 9, r.10.n == 10, r.11.n == 11,
        r.12.n == 12, r.13.n == 13, r.14.n == 14, r.15.n == 15, r.16.n == 16, r.17.n == 17, r.18.n == 18, r.19.n == 19, r.20.n == 20, r.21.n == 21, r.22.n == 22, r.23.n == 23,
{ (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23]) }
//@struct cfg-load/src/advanced.rs Evaluator
//@ty Symbol => BSym
pub open spec fn toks(v: Seq<TokAt>) -> Seq<Tok> { Seq::new(v.len(), |i: int| v[i].0.v().unwrap()) }
pub open spec fn all_toks(v: Seq<TokAt>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.v() is Some }
impl Evaluator {
    pub open spec fn fine(self) -> bool { all_syms(self.symbols) && all_toks(self.tokens@) }
    pub open spec fn toks(self) -> Seq<Tok> { toks(self.tokens@) }
}
pub fn vx_arg(args: &Vec<Value>, k: usize) -> (r: Value)
    ensures r.v() == (if k < args@.len() { args@[k as int].v() } else { Va::Nothing }),
{
    if k < args.len() { vx_clone_value(&args[k]) } else { Value::None(0) }
}
#[verifier::external_body]
pub fn vx_clone_value(v: &Value) -> (r: Value)
    ensures r == *v,
{ unimplemented!() }
pub fn vx_extend_rules(v: &mut Vec<Rule>, u: Vec<Rule>)
    ensures final(v)@ == old(v)@ + u@,
{
    let mut u = u;
    v.append(&mut u);
}
pub fn vx_one_rule(a: Rule) -> (r: Vec<Rule>)
    ensures r@ == seq![a],
{
    let mut v: Vec<Rule> = Vec::new();
    v.push(a);
    assert(v@ =~= seq![a]);
    v
}
pub fn vx_one_alt(a: (Vec<Fragment>, Option<String>)) -> (r: Vec<(Vec<Fragment>, Option<String>)>)
    ensures r@ == seq![a],
{
    let mut v: Vec<(Vec<Fragment>, Option<String>)> = Vec::new();
    v.push(a);
    assert(v@ =~= seq![a]);
    v
}
pub fn vx_one_frag(a: Fragment) -> (r: Vec<Fragment>)
    ensures r@ == seq![a],
{
    let mut v: Vec<Fragment> = Vec::new();
    v.push(a);
    assert(v@ =~= seq![a]);
    v
}
// TRUSTED: clones are equal.
#[verifier::external_body]
pub fn vx_clone_opt(v: &Option<String>) -> (r: Option<String>)
    ensures r == *v,
{ unimplemented!() }
//@fn cfg-load/src/advanced.rs Token::ident
//@rewrite_opt if let &Token::Ident(ref s) = self => if let Token::Ident(s) = self
    requires self.v() is Some, self.v().unwrap() is Id,
    ensures ret.v() == Va::Id(self.v().unwrap()->Id_0),
//@end
//@fn cfg-load/src/advanced.rs Token::string
//@rewrite_opt if let &Token::String(ref s) = self => if let Token::String(s) = self
    requires self.v() is Some, self.v().unwrap() is Str,
    ensures ret.v() == Va::Str(self.v().unwrap()->Str_0),
//@end
pub open spec fn leaf_val(ts: Seq<Tok>, s: nat, k: nat) -> Va { if s == s_ident() { Va::Id(ts[k as int]->Id_0) } else if s == s_string() { Va::Str(ts[k as int]->Str_0) } else { Va::Nothing } }
pub open spec fn leaf_ok(ts: Seq<Tok>, s: nat, k: nat) -> bool { k < ts.len() && (s == s_ident() ==> ts[k as int] is Id) && (s == s_string() ==> ts[k as int] is Str) }
//@fn cfg-load/src/advanced.rs forest::Eval for Evaluator::leaf
//@name leaf
//@sig Symbol => BSym
//@sig Self::Elem => Value
//@rewrite_opt let [$$n] = self.symbols; => let ($$n) = vx_syms(&self.symbols);
//@rewrite_opt let (ref $t, $l, $c) = self.tokens[$$k]; => let vx_x = &self.tokens[$$k]; let $t = &vx_x.0; let $l = vx_x.1;
    requires self.fine(), leaf_ok(self.toks(), terminal.n as nat, values as nat),
    ensures ret.v() == leaf_val(self.toks(), terminal.n as nat, values as nat),
//@at begin
    proof { assert(self.tokens@[values as int].0.v() is Some); }
//@end
//@fn cfg-load/src/advanced.rs forest::Eval for Evaluator::product
//@name product
//@sig Self::Elem => Value
//@rewrite_opt let [$$n] = self.symbols; =>
//@rewrite_opt args.get($k).cloned().unwrap_or(Value::None(0)) ==>> vx_arg(&args, $k)
//@rewrite_opt rules.extend($x) => vx_extend_rules(&mut rules, $x)
//@rewrite_opt lex.0.extend($$x) => vx_extend_rules(&mut lex.0, $$x)
//@rewrite_opt Value::Rhs(vec![$$x]) => Value::Rhs(vx_one_alt($$x))
//@rewrite_opt Value::Alt(vec![$$x]) => Value::Alt(vx_one_frag($$x))
//@rewrite_opt vec![Rule { $$f }] => vx_one_rule(Rule { $$f })
//@rewrite_opt vec![] => Vec::new()
//@rewrite_opt rhs.into_iter().map(|(rhs, action)| Rule { $$f }).collect() => { let mut vx_v: Vec<Rule> = Vec::new(); for vx_x in rhs { vx_v.push({ let (rhs, action) = vx_x; Rule { $$f } }); } vx_v }
//@rewrite_opt match (action_num, $$a) { $$b } => let vx_r = match (action_num, $$a) { $$b }; proof {         let b = act(action_num as nat, va);         lemma_same_value(vx_r, b);     } vx_r
//@for 0 value
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(60)]
    requires
        is_rule(action_num as nat), args@.len() == g_rhs(action_num as nat).len(),
        forall|k: int| 0 <= k < args@.len() ==> typed(g_rhs(action_num as nat)[k], #[trigger] vals_of(args@)[k]),
    ensures ret.v() == act(action_num as nat, vals_of(args@)),
//@at begin
    let ghost va = vals_of(args@);
    proof { assert(forall|k: int| 0 <= k < args@.len() ==> args@[k].v() == #[trigger] va[k]); assert(frs(Seq::<Fragment>::empty()) =~= seq![]); assert(rus(Seq::<Rule>::empty()) =~= seq![]); }
//@loop 0
    invariant __i0 <= __s0@.len(), rus(vx_v@) == with_lhs(lhs@, frss(__s0@.take(__i0 as int))),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    let ghost v0 = vx_v@;
//@at loop0.end
    proof {
        let x = vx_v@.last();
        let y = alt_of(__s0@[__i0 - 1]);
        assert(x.v() == Ru { lhs: lhs@, rhs: y.items, act: y.act });
        assert(vx_v@ =~= v0.push(x));
        assert(rus(vx_v@) =~= rus(v0).push(x.v()));
        assert(with_lhs(lhs@, frss(__s0@.take(__i0 as int))) =~= with_lhs(lhs@, frss(__s0@.take(__i0 - 1))).push(x.v()));
    }
//@at loop0.post
    proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
//@end
/// Equal up to the way sequences are put together.
pub open spec fn alike(v: Va, b: Va) -> bool {
    match v {
        Va::Start(x, y) => b is Start && x =~= b->Start_0 && y =~= b->Start_1,
        Va::Rules(x) => b is Rules && x =~= b->Rules_0,
        Va::Lex(x) => b is Lex && x =~= b->Lex_0,
        Va::Rhs(x) => b is Rhs && x =~= b->Rhs_0,
        Va::Alt(x) => b is Alt && x =~= b->Alt_0,
        _ => v == b,
    }
}
pub proof fn lemma_same_value(r: Value, b: Va)
    requires alike(r.v(), b),
    ensures r.v() == b,
{
}
