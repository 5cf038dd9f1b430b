// G23: what a sequence of tokens says.
// ---- rules as they are written down
pub ghost enum Rp { Once, Plus, Star }
pub ghost struct Fr { pub name: Seq<char>, pub rep: Rp }
/// A part of an alternative: a name that may repeat, or `()`.
pub ghost enum Pt { Unit, Name(Fr) }
/// `lhs ::= alternative | … ;`, or `lhs ::= ;`.
pub ghost struct Line { pub lhs: Seq<char>, pub alts: Seq<Seq<Pt>> }
pub ghost struct Ru { pub lhs: Seq<char>, pub rhs: Seq<Fr> }
pub open spec fn pr_rep(r: Rp) -> Seq<Tok> { match r { Rp::Once => seq![], Rp::Plus => seq![Tok::Plus], Rp::Star => seq![Tok::Star] } }
pub open spec fn pr_part(p: Pt) -> Seq<Tok> { match p { Pt::Unit => seq![Tok::Open, Tok::Close], Pt::Name(f) => seq![Tok::Id(f.name)] + pr_rep(f.rep) } }
pub open spec fn pr_alt(a: Seq<Pt>) -> Seq<Tok>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else { pr_alt(a.drop_last()) + pr_part(a.last()) }
}
pub open spec fn pr_alts(s: Seq<Seq<Pt>>) -> Seq<Tok>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else if s.len() == 1 { pr_alt(s[0]) } else { pr_alts(s.drop_last()) + seq![Tok::Pipe] + pr_alt(s.last()) }
}
pub open spec fn pr_line(l: Line) -> Seq<Tok> { seq![Tok::Id(l.lhs), Tok::Is] + pr_alts(l.alts) + seq![Tok::Semi] }
pub open spec fn pr_doc(d: Seq<Line>) -> Seq<Tok>
    decreases d.len(),
{
    if d.len() == 0 { seq![] } else { pr_doc(d.drop_last()) + pr_line(d.last()) }
}
pub open spec fn alts_ok(s: Seq<Seq<Pt>>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).len() > 0 }
/// There is at least one line, and no alternative is left out.
pub open spec fn doc_ok(d: Seq<Line>) -> bool { d.len() > 0 && forall|i: int| 0 <= i < d.len() ==> alts_ok((#[trigger] d[i]).alts) }
// ---- the rules this means
pub open spec fn fl_part(p: Pt) -> Seq<Fr> { match p { Pt::Unit => seq![], Pt::Name(f) => seq![f] } }
pub open spec fn fl_alt(a: Seq<Pt>) -> Seq<Fr>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else { fl_alt(a.drop_last()) + fl_part(a.last()) }
}
pub open spec fn fl_alts(s: Seq<Seq<Pt>>) -> Seq<Seq<Fr>> { Seq::new(s.len(), |i: int| fl_alt(s[i])) }
pub open spec fn with_lhs(lhs: Seq<char>, s: Seq<Seq<Fr>>) -> Seq<Ru> { Seq::new(s.len(), |i: int| Ru { lhs: lhs, rhs: s[i] }) }
pub open spec fn fl_line(l: Line) -> Seq<Ru> { if l.alts.len() == 0 { seq![Ru { lhs: l.lhs, rhs: seq![] }] } else { with_lhs(l.lhs, fl_alts(l.alts)) } }
pub open spec fn fl_doc(d: Seq<Line>) -> Seq<Ru>
    decreases d.len(),
{
    if d.len() == 0 { seq![] } else { fl_doc(d.drop_last()) + fl_line(d.last()) }
}
// ---- values
//@struct cfg-load/src/basic.rs Rule
//@struct cfg-load/src/basic.rs Fragment
//@struct cfg-load/src/basic.rs Rep
//@struct cfg-load/src/basic.rs Value
pub ghost enum Va { Id(Seq<char>), Rules(Seq<Ru>), Rhs(Seq<Seq<Fr>>), Frag(Option<Fr>), Alt(Seq<Fr>), Nothing }
impl Fragment {
    pub open spec fn v(self) -> Fr { Fr { name: self.ident@, rep: match self.rep { Rep::None => Rp::Once, Rep::OneOrMore => Rp::Plus, Rep::ZeroOrMore => Rp::Star } } }
}
pub open spec fn frs(v: Seq<Fragment>) -> Seq<Fr> { Seq::new(v.len(), |i: int| v[i].v()) }
pub open spec fn frss(v: Seq<Vec<Fragment>>) -> Seq<Seq<Fr>> { Seq::new(v.len(), |i: int| frs(v[i]@)) }
impl Rule {
    pub open spec fn v(self) -> Ru { Ru { lhs: self.lhs@, rhs: frs(self.rhs@) } }
}
pub open spec fn rus(v: Seq<Rule>) -> Seq<Ru> { Seq::new(v.len(), |i: int| v[i].v()) }
impl Value {
    pub open spec fn v(self) -> Va {
        match self {
            Value::Ident(s) => Va::Id(s@),
            Value::Rules(v) => Va::Rules(rus(v@)),
            Value::Rhs(v) => Va::Rhs(frss(v@)),
            Value::Fragment(None) => Va::Frag(None),
            Value::Fragment(Some(f)) => Va::Frag(Some(f.v())),
            Value::Alt(v) => Va::Alt(frs(v@)),
            Value::None => Va::Nothing,
        }
    }
}
pub open spec fn vals_of(v: Seq<Value>) -> Seq<Va> { Seq::new(v.len(), |i: int| v[i].v()) }
// ---- the grammar of BNF texts, as it stands in the code
//@grammar cfg-load/src/basic.rs
pub open spec fn is_rule(id: nat) -> bool { 2 <= id < 2 + G_RULES }
/// The kind of value that belongs to a symbol.
pub open spec fn typed(s: nat, v: Va) -> bool {
    if s == s_start() || s == s_rule() { v is Rules }
    else if s == s_alt() { v is Alt }
    else if s == s_rhs() { v is Rhs }
    else if s == s_fragment() { v is Frag }
    else if s == s_ident() { v is Id }
    else { v is Nothing }
}
pub open spec fn opt_seq(o: Option<Fr>) -> Seq<Fr> { match o { Some(f) => seq![f], None => seq![] } }
/// What a rule makes of the values of its parts.
pub open spec fn act(id: nat, a: Seq<Va>) -> Va {
    let l = g_lhs(id);
    let r = g_rhs(id);
    if l == s_start() { Va::Rules(if r.len() == 2 { a[0]->Rules_0 + a[1]->Rules_0 } else { a[0]->Rules_0 }) }
    else if l == s_rule() { Va::Rules(if r.len() == 3 { seq![Ru { lhs: a[0]->Id_0, rhs: seq![] }] } else { with_lhs(a[0]->Id_0, a[2]->Rhs_0) }) }
    else if l == s_rhs() { Va::Rhs(if r.len() == 3 { a[0]->Rhs_0.push(a[2]->Alt_0) } else { seq![a[0]->Alt_0] }) }
    else if l == s_alt() { Va::Alt(if r.len() == 2 { a[0]->Alt_0 + opt_seq(a[1]->Frag_0) } else { opt_seq(a[0]->Frag_0) }) }
    else if r[0] == s_lparen() { Va::Frag(None) }
    else { Va::Frag(Some(Fr { name: a[0]->Id_0, rep: if r.len() == 1 { Rp::Once } else if r[1] == s_op_plus() { Rp::Plus } else { Rp::Star } })) }
}
// ---- TRUSTED: tiny_earley. Symbols are numbered in their order, rules from 2.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BSym { pub n: u32 }
pub type Tup13 = (BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym, BSym);
pub open spec fn all_syms(s: [BSym; 13]) -> bool { forall|i: int| 0 <= i < 13 ==> (#[trigger] s@[i]).n == i }
pub fn vx_syms(s: &[BSym; 13]) -> (r: Tup13)
    requires all_syms(*s),
    ensures r.0.n == 0, r.1.n == 1, r.2.n == 2, r.3.n == 3, r.4.n == 4, r.5.n == 5, r.6.n == 6, r.7.n == 7, r.8.n == 8, r.9.n == 9, r.10.n == 10, r.11.n == 11, r.12.n == 12,
{ (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12]) }
//@struct cfg-load/src/basic.rs Evaluator
//@ty Symbol => BSym
impl Evaluator {
    pub open spec fn fine(self) -> bool { all_syms(self.symbols) && all_toks(self.tokens@) }
    pub open spec fn toks(self) -> Seq<Tok> { toks(self.tokens@) }
}
pub fn vx_arg(args: &Vec<Value>, k: usize) -> (r: Value)
    ensures r.v() == (if k < args@.len() { args@[k as int].v() } else { Va::Nothing }),
{
    if k < args.len() { vx_clone_value(&args[k]) } else { Value::None }
}
#[verifier::external_body]
pub fn vx_clone_value(v: &Value) -> (r: Value)
    ensures r == *v,
{ unimplemented!() }
pub fn vx_extend_rules(v: &mut Vec<Rule>, u: Vec<Rule>)
    ensures final(v)@ == old(v)@ + u@,
{
    let mut u = u;
    v.append(&mut u);
}
pub fn vx_extend_alt(v: &mut Vec<Fragment>, u: Option<Fragment>)
    ensures frs(final(v)@) == frs(old(v)@) + opt_seq(match u { Some(f) => Some(f.v()), None => None }),
{
    let ghost v0 = v@;
    match u { Some(f) => { v.push(f); proof { assert(frs(v@) =~= frs(v0) + seq![f.v()]); } } None => { proof { assert(frs(v@) =~= frs(v0) + seq![]); } } }
}
pub fn vx_opt_vec(u: Option<Fragment>) -> (r: Vec<Fragment>)
    ensures frs(r@) == opt_seq(match u { Some(f) => Some(f.v()), None => None }),
{
    let mut v = Vec::new();
    match u { Some(f) => { v.push(f); proof { assert(frs(v@) =~= seq![f.v()]); } } None => { proof { assert(frs(v@) =~= seq![]); } } }
    v
}
pub fn vx_one_alt(a: Vec<Fragment>) -> (r: Vec<Vec<Fragment>>)
    ensures r@ == seq![a],
{
    let mut v: Vec<Vec<Fragment>> = Vec::new();
    v.push(a);
    assert(v@ =~= seq![a]);
    v
}
pub fn vx_one_rule(a: Rule) -> (r: Vec<Rule>)
    ensures r@ == seq![a],
{
    let mut v: Vec<Rule> = Vec::new();
    v.push(a);
    assert(v@ =~= seq![a]);
    v
}
//@fn cfg-load/src/basic.rs Token::ident
//@rewrite_opt if let &Token::Ident(ref s) = self => if let Token::Ident(s) = self
    requires self.v() is Some, self.v().unwrap() is Id,
    ensures ret.v() == Va::Id(self.v().unwrap()->Id_0),
//@end
pub open spec fn leaf_val(ts: Seq<Tok>, s: nat, k: nat) -> Va { if s == s_ident() { Va::Id(ts[k as int]->Id_0) } else { Va::Nothing } }
pub open spec fn leaf_ok(ts: Seq<Tok>, s: nat, k: nat) -> bool { s == s_ident() ==> k < ts.len() && ts[k as int] is Id }
//@fn cfg-load/src/basic.rs forest::Eval for Evaluator::leaf
//@name leaf
//@sig Symbol => BSym
//@sig Self::Elem => Value
//@rewrite_opt let [$$n] = self.symbols; => let ($$n) = vx_syms(&self.symbols);
    requires self.fine(), leaf_ok(self.toks(), terminal.n as nat, values as nat),
    ensures ret.v() == leaf_val(self.toks(), terminal.n as nat, values as nat),
//@at begin
    proof { if terminal.n == s_ident() { assert(self.tokens@[values as int].v() is Some); } }
//@end
//@fn cfg-load/src/basic.rs forest::Eval for Evaluator::product
//@name product
//@sig Self::Elem => Value
//@rewrite_opt let [$$n] = self.symbols; => let ($$n) = vx_syms(&self.symbols);
//@rewrite_opt args.get($k).cloned().unwrap_or(Value::None) ==>> vx_arg(&args, $k)
//@rewrite_opt rules.extend($x) => vx_extend_rules(&mut rules, $x)
//@rewrite_opt alt.extend($x) => vx_extend_alt(&mut alt, $x)
//@rewrite_opt vec![alt] => vx_one_alt(alt)
//@rewrite_opt rhs: vec![], => rhs: Vec::new(),
//@rewrite_opt vec![Rule { $$f }] => vx_one_rule(Rule { $$f })
//@rewrite_opt fragment.into_iter().collect() => vx_opt_vec(fragment)
//@rewrite_opt rhs.into_iter().map(|rhs| Rule { $$f }).collect() => { let mut vx_v: Vec<Rule> = Vec::new(); for vx_x in rhs { vx_v.push({ let rhs = vx_x; Rule { $$f } }); } vx_v }
//@rewrite_opt match (action, $$a) { $$b } => let vx_r = match (action, $$a) { $$b }; proof {         let b = act(action as nat, va);         if vx_r is Rules { assert(b is Rules); assert(rus(vx_r->Rules_0@) =~= b->Rules_0); } else if vx_r is Rhs { assert(b is Rhs); assert(frss(vx_r->Rhs_0@) =~= b->Rhs_0); } else if vx_r is Alt { assert(b is Alt); assert(frs(vx_r->Alt_0@) =~= b->Alt_0); } else { assert(vx_r.v() == b); }     } vx_r
//@for 0 value
//@attr #[verifier::loop_isolation(false)]
    requires
        self.fine(), is_rule(action as nat), args@.len() == g_rhs(action as nat).len(),
        forall|k: int| 0 <= k < args@.len() ==> typed(g_rhs(action as nat)[k], #[trigger] vals_of(args@)[k]),
    ensures ret.v() == act(action as nat, vals_of(args@)),
//@at begin
    let ghost va = vals_of(args@);
    proof { assert(forall|k: int| 0 <= k < args@.len() ==> args@[k].v() == #[trigger] va[k]); assert(frs(Seq::<Fragment>::empty()) =~= seq![]); }
//@loop 0
    invariant __i0 <= __s0@.len(), rus(vx_v@) == with_lhs(lhs@, frss(__s0@.take(__i0 as int))),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    let ghost v0 = vx_v@;
//@at loop0.end
    proof {
        let x = vx_v@.last();
        assert(x.v() == Ru { lhs: lhs@, rhs: frs(__s0@[__i0 - 1]@) });
        assert(vx_v@ =~= v0.push(x));
        assert(rus(vx_v@) =~= rus(v0).push(x.v()));
        assert(with_lhs(lhs@, frss(__s0@.take(__i0 as int))) =~= with_lhs(lhs@, frss(__s0@.take(__i0 - 1))).push(x.v()));
    }
//@at loop0.post
    proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
//@end
