// Parse trees over the grammar of these texts, and the texts they stand for.
pub ghost enum Tree { Leaf(nat, nat), Node(nat, Seq<Tree>) }
/// A terminal, and the number of the token it stands for.
pub type Sc = (nat, nat);
pub open spec fn t_sym(t: Tree) -> nat { match t { Tree::Leaf(s, _) => s, Tree::Node(id, _) => g_lhs(id) } }
pub open spec fn t_wf(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Leaf(_, _) => true,
        Tree::Node(id, ks) => is_rule(id) && ks.len() == g_rhs(id).len() && forall|i: int| 0 <= i < ks.len() ==> t_wf(#[trigger] ks[i]) && t_sym(ks[i]) == g_rhs(id)[i],
    }
}
pub open spec fn t_yield(t: Tree) -> Seq<Sc>
    decreases t, 0nat,
{
    match t { Tree::Leaf(s, k) => seq![(s, k)], Tree::Node(_, ks) => ks_yield(ks, ks.len()) }
}
pub open spec fn ks_yield(ks: Seq<Tree>, n: nat) -> Seq<Sc>
    decreases ks, n,
{
    if n == 0 || n > ks.len() { seq![] } else { ks_yield(ks, (n - 1) as nat) + t_yield(ks[n - 1]) }
}
pub open spec fn t_val(t: Tree, ts: Seq<Tok>) -> Va
    decreases t, 0nat,
{
    match t { Tree::Leaf(s, k) => leaf_val(ts, s, k), Tree::Node(id, ks) => act(id, ks_val(ks, ks.len(), ts)) }
}
pub open spec fn ks_val(ks: Seq<Tree>, n: nat, ts: Seq<Tok>) -> Seq<Va>
    decreases ks, n,
{
    if n == 0 || n > ks.len() { seq![] } else { ks_val(ks, (n - 1) as nat, ts).push(t_val(ks[n - 1], ts)) }
}
pub open spec fn term(t: Tok) -> nat {
    match t {
        Tok::Id(_) => s_ident(), Tok::Str(_) => s_string(), Tok::Kw => s_lexer_keyword(), Tok::Is => s_bnf_op(), Tok::Semi => s_semicolon(), Tok::Pipe => s_pipe(),
        Tok::Plus => s_op_plus(), Tok::Star => s_op_mul(), Tok::Tilde => s_tilde_op(), Tok::Open => s_lparen(), Tok::Close => s_rparen(),
        Tok::LBrace => s_lbrace(), Tok::RBrace => s_rbrace(), Tok::Gt => s_gt_op(),
    }
}
/// Leaves that are tokens of a text.
pub open spec fn leaves_of(ts: Seq<Tok>, y: Seq<Sc>) -> bool { forall|i: int| 0 <= i < y.len() ==> (#[trigger] y[i]).1 < ts.len() && y[i].0 == term(ts[y[i].1 as int]) }
pub open spec fn tk(ts: Seq<Tok>, y: Seq<Sc>) -> Seq<Tok> { Seq::new(y.len(), |i: int| ts[y[i].1 as int]) }
pub open spec fn scan_of(ts: Seq<Tok>) -> Seq<Sc> { Seq::new(ts.len(), |i: int| (term(ts[i]), i as nat)) }
// ---- what a tree says
pub open spec fn d_rep(r: Seq<nat>) -> Rp { if r.len() == 1 { Rp::Once } else if r[1] == s_op_plus() { Rp::Plus } else { Rp::Star } }
pub open spec fn leaf_name(t: Tree, ts: Seq<Tok>) -> Seq<char> { ts[t->Leaf_1 as int]->Id_0 }
pub open spec fn leaf_str(t: Tree, ts: Seq<Tok>) -> Seq<char> { ts[t->Leaf_1 as int]->Str_0 }
pub open spec fn d_part(t: Tree, ts: Seq<Tok>) -> Pt {
    match t {
        Tree::Node(id, ks) => if g_rhs(id)[0] == s_string() { Pt::Str(leaf_str(ks[0], ts)) } else if ks.len() == 4 { Pt::Call(leaf_name(ks[0], ts), leaf_str(ks[2], ts)) } else { Pt::Name(leaf_name(ks[0], ts), d_rep(g_rhs(id))) },
        _ => Pt::Odd,
    }
}
pub open spec fn d_items(t: Tree, ts: Seq<Tok>) -> Seq<Pt>
    decreases t,
{
    match t { Tree::Node(id, ks) => if ks.len() == 3 { d_items(ks[0], ts).push(d_part(ks[2], ts)) } else { seq![d_part(ks[0], ts)] }, _ => seq![] }
}
pub open spec fn d_act(t: Tree, ts: Seq<Tok>) -> Seq<char> { match t { Tree::Node(id, ks) => leaf_name(ks[1], ts), _ => seq![] } }
pub open spec fn d_alt(t: Tree, ts: Seq<Tok>) -> Alt {
    match t { Tree::Node(id, ks) => Alt { items: d_items(ks[0], ts), act: if ks.len() == 2 { Some(d_act(ks[1], ts)) } else { None } }, _ => Alt { items: seq![], act: None } }
}
pub open spec fn d_alts(t: Tree, ts: Seq<Tok>) -> Seq<Alt>
    decreases t,
{
    match t { Tree::Node(id, ks) => if ks.len() == 3 { d_alts(ks[0], ts).push(d_alt(ks[2], ts)) } else { seq![d_alt(ks[0], ts)] }, _ => seq![] }
}
pub open spec fn d_line(t: Tree, ts: Seq<Tok>) -> Line {
    match t {
        Tree::Node(id, ks) => Line {
            lhs: leaf_name(ks[0], ts), alts: if ks.len() == 4 && g_rhs(id)[2] != s_action() { d_alts(ks[2], ts) } else { seq![] },
            act: if ks.len() == 4 && g_rhs(id)[2] == s_action() { Some(d_act(ks[2], ts)) } else { None },
        },
        _ => Line { lhs: seq![], alts: seq![], act: None },
    }
}
pub open spec fn d_lines(t: Tree, ts: Seq<Tok>) -> Seq<Line>
    decreases t,
{
    match t { Tree::Node(id, ks) => if ks.len() == 2 { d_lines(ks[0], ts).push(d_line(ks[1], ts)) } else { seq![d_line(ks[0], ts)] }, _ => seq![] }
}
pub open spec fn d_lexer(t: Tree, ts: Seq<Tok>) -> Seq<Line> { match t { Tree::Node(id, ks) => d_lines(ks[2], ts), _ => seq![] } }
pub open spec fn d_decl(t: Tree, ts: Seq<Tok>) -> Decl {
    match t { Tree::Node(id, ks) => if g_rhs(id)[0] == s_rule() { Decl::Rule(d_line(ks[0], ts)) } else { Decl::Lexer(d_lexer(ks[0], ts)) }, _ => Decl::Lexer(seq![]) }
}
pub open spec fn d_doc(t: Tree, ts: Seq<Tok>) -> Seq<Decl>
    decreases t,
{
    match t { Tree::Node(id, ks) => if ks.len() == 2 { d_doc(ks[0], ts).push(d_decl(ks[1], ts)) } else { seq![d_decl(ks[0], ts)] }, _ => seq![] }
}
pub open spec fn says(t: Tree, ts: Seq<Tok>) -> bool {
    let s = t_sym(t);
    let w = tk(ts, t_yield(t));
    let v = t_val(t, ts);
    &&& typed(s, v)
    &&& s == s_fragment() ==> !(d_part(t, ts) is Odd) && w == pr_part(d_part(t, ts)) && v == Va::Frag(d_part(t, ts))
    &&& s == s_alt() ==> items_ok(d_items(t, ts)) && w == pr_items(d_items(t, ts)) && v == Va::Alt(d_items(t, ts))
    &&& s == s_action() ==> w == pr_act(Some(d_act(t, ts))) && v == Va::Id(d_act(t, ts))
    &&& s == s_alt2() ==> items_ok(d_alt(t, ts).items) && w == pr_alt(d_alt(t, ts)) && v == Va::Alt2(d_alt(t, ts))
    &&& s == s_rhs() ==> d_alts(t, ts).len() > 0 && alts_ok(d_alts(t, ts)) && w == pr_alts(d_alts(t, ts)) && v == Va::Rhs(d_alts(t, ts))
    &&& s == s_rule() ==> alts_ok(d_line(t, ts).alts) && w == pr_line(d_line(t, ts)) && v == Va::Rules(fl_line(d_line(t, ts)))
    &&& s == s_rules() ==> lines_ok(d_lines(t, ts)) && w == pr_lines(d_lines(t, ts)) && v == Va::Rules(fl_lines(d_lines(t, ts)))
    &&& s == s_lexer() ==> lines_ok(d_lexer(t, ts)) && w == pr_decl(Decl::Lexer(d_lexer(t, ts))) && v == Va::Lex(fl_lines(d_lexer(t, ts)))
    &&& s == s_decl() ==> decl_ok(d_decl(t, ts)) && w == pr_decl(d_decl(t, ts))
        && v == (match d_decl(t, ts) { Decl::Rule(l) => Va::Rules(fl_line(l)), Decl::Lexer(ls) => Va::Lex(fl_lines(ls)) })
    &&& s == s_start() ==> doc_ok(d_doc(t, ts)) && w == pr_doc(d_doc(t, ts)) && v == Va::Start(fl_doc(d_doc(t, ts), false), fl_doc(d_doc(t, ts), true))
}
pub proof fn lemma_ks(ks: Seq<Tree>, n: nat, ts: Seq<Tok>)
    requires n <= ks.len(),
    ensures
        ks_val(ks, n, ts).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] ks_val(ks, n, ts)[i] == t_val(ks[i], ts),
        n == 1 ==> ks_yield(ks, n) == t_yield(ks[0]),
        n == 2 ==> ks_yield(ks, n) == t_yield(ks[0]) + t_yield(ks[1]),
        n == 3 ==> ks_yield(ks, n) == t_yield(ks[0]) + t_yield(ks[1]) + t_yield(ks[2]),
        n == 4 ==> ks_yield(ks, n) == t_yield(ks[0]) + t_yield(ks[1]) + t_yield(ks[2]) + t_yield(ks[3]),
    decreases n,
{
    if n > 0 {
        lemma_ks(ks, (n - 1) as nat, ts);
        if n == 1 { assert(ks_yield(ks, 0) + t_yield(ks[0]) =~= t_yield(ks[0])); }
    }
}
pub proof fn lemma_leaves_kid(ks: Seq<Tree>, n: nat, i: int, ts: Seq<Tok>)
    requires 0 <= i < n <= ks.len(), leaves_of(ts, ks_yield(ks, n)),
    ensures leaves_of(ts, t_yield(ks[i])),
    decreases n,
{
    let a = ks_yield(ks, (n - 1) as nat);
    let b = t_yield(ks[n - 1]);
    if i == n - 1 {
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).1 < ts.len() && b[k].0 == term(ts[b[k].1 as int]) by { assert((a + b)[a.len() + k] == b[k]); }
    } else {
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).1 < ts.len() && a[k].0 == term(ts[a[k].1 as int]) by { assert((a + b)[k] == a[k]); }
        lemma_leaves_kid(ks, (n - 1) as nat, i, ts);
    }
}
pub proof fn lemma_tk(ts: Seq<Tok>, a: Seq<Sc>, b: Seq<Sc>)
    ensures tk(ts, a + b) == tk(ts, a) + tk(ts, b),
{
    assert(tk(ts, a + b) =~= tk(ts, a) + tk(ts, b));
}
pub proof fn lemma_leaf(t: Tree, ts: Seq<Tok>)
    requires t is Leaf, leaves_of(ts, t_yield(t)),
    ensures
        t->Leaf_1 < ts.len(), tk(ts, t_yield(t)) == seq![ts[t->Leaf_1 as int]], t_sym(t) == term(ts[t->Leaf_1 as int]),
        t_sym(t) == s_ident() ==> ts[t->Leaf_1 as int] == Tok::Id(leaf_name(t, ts)),
        t_sym(t) == s_string() ==> ts[t->Leaf_1 as int] == Tok::Str(leaf_str(t, ts)),
        t_sym(t) == s_lexer_keyword() ==> ts[t->Leaf_1 as int] == Tok::Kw, t_sym(t) == s_bnf_op() ==> ts[t->Leaf_1 as int] == Tok::Is,
        t_sym(t) == s_semicolon() ==> ts[t->Leaf_1 as int] == Tok::Semi, t_sym(t) == s_pipe() ==> ts[t->Leaf_1 as int] == Tok::Pipe,
        t_sym(t) == s_op_plus() ==> ts[t->Leaf_1 as int] == Tok::Plus, t_sym(t) == s_op_mul() ==> ts[t->Leaf_1 as int] == Tok::Star,
        t_sym(t) == s_tilde_op() ==> ts[t->Leaf_1 as int] == Tok::Tilde, t_sym(t) == s_lparen() ==> ts[t->Leaf_1 as int] == Tok::Open,
        t_sym(t) == s_rparen() ==> ts[t->Leaf_1 as int] == Tok::Close, t_sym(t) == s_lbrace() ==> ts[t->Leaf_1 as int] == Tok::LBrace,
        t_sym(t) == s_rbrace() ==> ts[t->Leaf_1 as int] == Tok::RBrace, t_sym(t) == s_gt_op() ==> ts[t->Leaf_1 as int] == Tok::Gt,
{
    let y = t_yield(t);
    assert(y[0] == (t->Leaf_0, t->Leaf_1));
    assert(tk(ts, y) =~= seq![ts[t->Leaf_1 as int]]);
}
/// A symbol without rules is a leaf.
pub open spec fn is_term(s: nat) -> bool {
    s == s_ident() || s == s_string() || s == s_lexer_keyword() || s == s_bnf_op() || s == s_semicolon() || s == s_pipe() || s == s_op_plus() || s == s_op_mul() || s == s_tilde_op()
        || s == s_lparen() || s == s_rparen() || s == s_lbrace() || s == s_rbrace() || s == s_gt_op()
}
pub proof fn lemma_push_items(a: Seq<Pt>, p: Pt)
    requires a.len() > 0 ==> items_ok(a), !(p is Odd),
    ensures
        items_ok(a.push(p)), a.len() > 0 ==> pr_items(a.push(p)) == pr_items(a) + seq![Tok::Tilde] + pr_part(p),
        a.len() == 0 ==> pr_items(a.push(p)) == pr_part(p) && a.push(p) == seq![p],
{
    assert(a.push(p).drop_last() =~= a);
    if a.len() == 0 { assert(a.push(p) =~= seq![p]); }
    assert forall|j: int| 0 <= j < a.push(p).len() implies !((#[trigger] a.push(p)[j]) is Odd) by { if j < a.len() { assert(!(a[j] is Odd)); } }
}
pub proof fn lemma_push_alts(a: Seq<Alt>, p: Alt)
    requires alts_ok(a), items_ok(p.items),
    ensures
        a.len() > 0 ==> pr_alts(a.push(p)) == pr_alts(a) + seq![Tok::Pipe] + pr_alt(p), alts_ok(a.push(p)),
        a.len() == 0 ==> pr_alts(a.push(p)) == pr_alt(p) && a.push(p) == seq![p],
{
    assert(a.push(p).drop_last() =~= a);
    if a.len() == 0 { assert(a.push(p) =~= seq![p]); }
    assert forall|j: int| 0 <= j < a.push(p).len() implies items_ok((#[trigger] a.push(p)[j]).items) by { if j < a.len() { assert(items_ok(a[j].items)); } }
}
pub proof fn lemma_push_lines(a: Seq<Line>, p: Line)
    requires a.len() > 0 ==> lines_ok(a), alts_ok(p.alts),
    ensures
        pr_lines(a.push(p)) == pr_lines(a) + pr_line(p), fl_lines(a.push(p)) == fl_lines(a) + fl_line(p), lines_ok(a.push(p)),
        a.len() == 0 ==> pr_lines(a.push(p)) == pr_line(p) && fl_lines(a.push(p)) == fl_line(p) && a.push(p) == seq![p],
{
    assert(a.push(p).drop_last() =~= a);
    if a.len() == 0 { assert(pr_lines(a) + pr_line(p) =~= pr_line(p)); assert(fl_lines(a) + fl_line(p) =~= fl_line(p)); assert(a.push(p) =~= seq![p]); }
    assert forall|j: int| 0 <= j < a.push(p).len() implies alts_ok((#[trigger] a.push(p)[j]).alts) by { if j < a.len() { assert(alts_ok(a[j].alts)); } }
}
pub proof fn lemma_push_doc(a: Seq<Decl>, p: Decl)
    requires a.len() > 0 ==> doc_ok(a), decl_ok(p),
    ensures
        pr_doc(a.push(p)) == pr_doc(a) + pr_decl(p), forall|b: bool| #[trigger] fl_doc(a.push(p), b) == fl_doc(a, b) + fl_decl(p, b), doc_ok(a.push(p)),
        a.len() == 0 ==> pr_doc(a.push(p)) == pr_decl(p) && a.push(p) == seq![p] && forall|b: bool| #[trigger] fl_doc(a.push(p), b) == fl_decl(p, b),
{
    assert(a.push(p).drop_last() =~= a);
    if a.len() == 0 {
        assert(pr_doc(a) + pr_decl(p) =~= pr_decl(p)); assert(a.push(p) =~= seq![p]);
        assert forall|b: bool| #[trigger] fl_doc(a.push(p), b) == fl_decl(p, b) by { assert(fl_doc(a, b) + fl_decl(p, b) =~= fl_decl(p, b)); }
    }
    assert forall|j: int| 0 <= j < a.push(p).len() implies decl_ok(#[trigger] a.push(p)[j]) by { if j < a.len() { assert(decl_ok(a[j])); } }
}
/// What is known of the parts of a tree.
pub open spec fn parts_fine(id: nat, ks: Seq<Tree>, ts: Seq<Tok>) -> bool {
    forall|i: int| 0 <= i < ks.len() ==> #[trigger] part_fine(ks[i], ts) && t_sym(ks[i]) == g_rhs(id)[i]
}
pub open spec fn part_fine(k: Tree, ts: Seq<Tok>) -> bool { says(k, ts) && leaves_of(ts, t_yield(k)) && (is_term(t_sym(k)) ==> k is Leaf) }
pub open spec fn whole(id: nat, ks: Seq<Tree>, ts: Seq<Tok>) -> bool {
    let y = tk(ts, t_yield(Tree::Node(id, ks)));
    let va = ks_val(ks, ks.len(), ts);
    &&& is_rule(id) && ks.len() == g_rhs(id).len() && 1 <= ks.len() <= 4 && parts_fine(id, ks, ts)
    &&& va.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] va[i] == t_val(ks[i], ts)
    &&& ks.len() == 1 ==> y == tk(ts, t_yield(ks[0]))
    &&& ks.len() == 2 ==> y == tk(ts, t_yield(ks[0])) + tk(ts, t_yield(ks[1]))
    &&& ks.len() == 3 ==> y == tk(ts, t_yield(ks[0])) + tk(ts, t_yield(ks[1])) + tk(ts, t_yield(ks[2]))
    &&& ks.len() == 4 ==> y == tk(ts, t_yield(ks[0])) + tk(ts, t_yield(ks[1])) + tk(ts, t_yield(ks[2])) + tk(ts, t_yield(ks[3]))
}
pub proof fn lemma_whole(id: nat, ks: Seq<Tree>, ts: Seq<Tok>)
    requires is_rule(id), ks.len() == g_rhs(id).len(), parts_fine(id, ks, ts),
    ensures whole(id, ks, ts),
{
    let n = ks.len();
    assert(1 <= n <= 4);
    lemma_ks(ks, n, ts);
    let y0 = t_yield(ks[0]);
    if n >= 2 { lemma_tk(ts, y0, t_yield(ks[1])); }
    if n >= 3 { lemma_tk(ts, y0 + t_yield(ks[1]), t_yield(ks[2])); }
    if n >= 4 { lemma_tk(ts, y0 + t_yield(ks[1]) + t_yield(ks[2]), t_yield(ks[3])); }
}
pub proof fn lemma_says_fragment(id: nat, ks: Seq<Tree>, ts: Seq<Tok>)
    requires whole(id, ks, ts), g_lhs(id) == s_fragment(),
    ensures says(Tree::Node(id, ks), ts),
{
    let t = Tree::Node(id, ks);
    assert(part_fine(ks[0], ts));
    lemma_leaf(ks[0], ts);
    if ks.len() >= 2 { assert(part_fine(ks[1], ts)); lemma_leaf(ks[1], ts); }
    if ks.len() >= 4 { assert(part_fine(ks[2], ts)); lemma_leaf(ks[2], ts); assert(part_fine(ks[3], ts)); lemma_leaf(ks[3], ts); }
    assert(tk(ts, t_yield(t)) =~= pr_part(d_part(t, ts)));
    assert(ks_val(ks, ks.len(), ts)[0] == t_val(ks[0], ts));
    if ks.len() >= 4 { assert(ks_val(ks, ks.len(), ts)[2] == t_val(ks[2], ts)); }
}
pub proof fn lemma_says_alt(id: nat, ks: Seq<Tree>, ts: Seq<Tok>)
    requires whole(id, ks, ts), g_lhs(id) == s_alt() || g_lhs(id) == s_alt2() || g_lhs(id) == s_action(),
    ensures says(Tree::Node(id, ks), ts),
{
    let t = Tree::Node(id, ks);
    let va = ks_val(ks, ks.len(), ts);
    assert(part_fine(ks[0], ts));
    assert(va[0] == t_val(ks[0], ts));
    if ks.len() >= 2 { assert(part_fine(ks[1], ts)); assert(va[1] == t_val(ks[1], ts)); }
    if g_lhs(id) == s_alt() {
        if ks.len() == 3 {
            assert(part_fine(ks[2], ts));
            assert(va[2] == t_val(ks[2], ts));
            lemma_leaf(ks[1], ts);
            lemma_push_items(d_items(ks[0], ts), d_part(ks[2], ts));
        } else { lemma_push_items(seq![], d_part(ks[0], ts)); }
    } else if g_lhs(id) == s_alt2() {
        if ks.len() == 1 { assert(tk(ts, t_yield(t)) =~= pr_alt(d_alt(t, ts))); }
    } else {
        lemma_leaf(ks[0], ts);
        lemma_leaf(ks[1], ts);
        assert(tk(ts, t_yield(t)) =~= pr_act(Some(d_act(t, ts))));
    }
}
pub proof fn lemma_says_rule(id: nat, ks: Seq<Tree>, ts: Seq<Tok>)
    requires whole(id, ks, ts), g_lhs(id) == s_rhs() || g_lhs(id) == s_rule() || g_lhs(id) == s_rules(),
    ensures says(Tree::Node(id, ks), ts),
{
    let t = Tree::Node(id, ks);
    let n = ks.len();
    let va = ks_val(ks, ks.len(), ts);
    assert(part_fine(ks[0], ts));
    assert(va[0] == t_val(ks[0], ts));
    if n >= 2 { assert(part_fine(ks[1], ts)); assert(va[1] == t_val(ks[1], ts)); }
    if n >= 3 { assert(part_fine(ks[2], ts)); assert(va[2] == t_val(ks[2], ts)); }
    if n >= 4 { assert(part_fine(ks[3], ts)); }
    if g_lhs(id) == s_rhs() {
        if n == 3 {
            lemma_leaf(ks[1], ts);
            lemma_push_alts(d_alts(ks[0], ts), d_alt(ks[2], ts));
        } else { lemma_push_alts(seq![], d_alt(ks[0], ts)); }
    } else if g_lhs(id) == s_rule() {
        lemma_leaf(ks[0], ts);
        lemma_leaf(ks[1], ts);
        if n == 4 { lemma_leaf(ks[3], ts); } else { lemma_leaf(ks[2], ts); }
        assert(tk(ts, t_yield(t)) =~= pr_line(d_line(t, ts)));
        if n == 4 && g_rhs(id)[2] != s_action() { assert(d_alts(ks[2], ts).len() > 0); }
    } else {
        if n == 2 { lemma_push_lines(d_lines(ks[0], ts), d_line(ks[1], ts)); } else { lemma_push_lines(seq![], d_line(ks[0], ts)); }
    }
}
pub proof fn lemma_says_start(id: nat, ks: Seq<Tree>, ts: Seq<Tok>)
    requires whole(id, ks, ts), g_lhs(id) == s_start() || g_lhs(id) == s_decl() || g_lhs(id) == s_lexer(),
    ensures says(Tree::Node(id, ks), ts),
{
    let t = Tree::Node(id, ks);
    let n = ks.len();
    let va = ks_val(ks, ks.len(), ts);
    assert(part_fine(ks[0], ts));
    assert(va[0] == t_val(ks[0], ts));
    if n >= 2 { assert(part_fine(ks[1], ts)); assert(va[1] == t_val(ks[1], ts)); }
    if n >= 3 { assert(part_fine(ks[2], ts)); assert(va[2] == t_val(ks[2], ts)); }
    if n >= 4 { assert(part_fine(ks[3], ts)); }
    if g_lhs(id) == s_start() {
        let d = if n == 2 { d_doc(ks[0], ts) } else { seq![] };
        let p = d_decl(ks[n - 1], ts);
        lemma_push_doc(d, p);
        let e = d.push(p);
        assert(d_doc(t, ts) == e);
        assert(fl_doc(e, false) =~= fl_doc(d, false) + fl_decl(p, false));
        assert(fl_doc(e, true) =~= fl_doc(d, true) + fl_decl(p, true));
        match t_val(t, ts) { Va::Start(a, b) => { assert(a =~= fl_doc(e, false)); assert(b =~= fl_doc(e, true)); } _ => {} }
    } else if g_lhs(id) == s_lexer() {
        lemma_leaf(ks[0], ts);
        lemma_leaf(ks[1], ts);
        lemma_leaf(ks[3], ts);
        assert(tk(ts, t_yield(t)) =~= pr_decl(Decl::Lexer(d_lexer(t, ts))));
    }
}
/// Every tree over the tokens of a text is a piece of a document, with the value the document has.
pub proof fn lemma_tree(t: Tree, ts: Seq<Tok>)
    requires t_wf(t), leaves_of(ts, t_yield(t)),
    ensures says(t, ts), is_term(t_sym(t)) ==> t is Leaf,
    decreases t,
{
    match t {
        Tree::Leaf(s, k) => { lemma_leaf(t, ts); assert(nonterm_leaf_no(s, ts[k as int])); }
        Tree::Node(id, ks) => {
            let n = ks.len();
            assert forall|i: int| 0 <= i < n implies #[trigger] part_fine(ks[i], ts) && t_sym(ks[i]) == g_rhs(id)[i] by {
                assert(t_wf(ks[i]));
                lemma_leaves_kid(ks, n, i, ts);
                lemma_tree(ks[i], ts);
            }
            lemma_whole(id, ks, ts);
            let l = g_lhs(id);
            if l == s_fragment() { lemma_says_fragment(id, ks, ts); }
            else if l == s_alt() || l == s_alt2() || l == s_action() { lemma_says_alt(id, ks, ts); }
            else if l == s_rhs() || l == s_rule() || l == s_rules() { lemma_says_rule(id, ks, ts); }
            else { assert(l == s_start() || l == s_decl() || l == s_lexer()); lemma_says_start(id, ks, ts); }
        }
    }
}
pub open spec fn nonterm_leaf_no(s: nat, t: Tok) -> bool { s == term(t) ==> is_term(s) }
// ---- a tree for every document
pub open spec fn node(l: nat, r: Seq<nat>, ks: Seq<Tree>) -> Tree { Tree::Node(choose|id: nat| #[trigger] form(id, l, r), ks) }
pub open spec fn form(id: nat, l: nat, r: Seq<nat>) -> bool { is_rule(id) && g_lhs(id) == l && g_rhs(id) =~= r }
pub open spec fn a_rule(l: nat, r: Seq<nat>) -> bool {
    form(2, l, r) || form(3, l, r) || form(4, l, r) || form(5, l, r) || form(6, l, r) || form(7, l, r) || form(8, l, r) || form(9, l, r) || form(10, l, r) || form(11, l, r) || form(12, l, r) || form(13, l, r) || form(14, l, r) || form(15, l, r) || form(16, l, r) || form(17, l, r) || form(18, l, r) || form(19, l, r) || form(20, l, r) || form(21, l, r) || form(22, l, r) || form(23, l, r)
}
/// The tree is for `s`, and its leaves are `w`, numbered from `at`.
pub open spec fn tree_of(t: Tree, s: nat, w: Seq<Tok>, at: nat) -> bool { t_wf(t) && t_sym(t) == s && t_yield(t) == Seq::new(w.len(), |i: int| (term(w[i]), (at + i) as nat)) }
pub proof fn lemma_leaf_of(k: Tok, at: nat)
    ensures tree_of(Tree::Leaf(term(k), at), term(k), seq![k], at),
{
    assert(t_yield(Tree::Leaf(term(k), at)) =~= Seq::new(1, |i: int| (term(seq![k][i]), (at + i) as nat)));
}
pub proof fn lemma_node1(l: nat, a: nat, t: Tree, w: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a]), tree_of(t, a, w, at),
    ensures tree_of(node(l, seq![a], seq![t]), l, w, at),
{
    let rr = seq![a]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    lemma_ks(seq![t], 1, w);
}
pub proof fn lemma_node2(l: nat, a: nat, b: nat, t: Tree, u: Tree, w: Seq<Tok>, x: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a, b]), tree_of(t, a, w, at), tree_of(u, b, x, at + w.len()),
    ensures tree_of(node(l, seq![a, b], seq![t, u]), l, w + x, at),
{
    let rr = seq![a, b]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    let n = node(l, seq![a, b], seq![t, u]);
    lemma_ks(seq![t, u], 2, w);
    assert(t_yield(n) =~= Seq::new((w + x).len(), |i: int| (term((w + x)[i]), (at + i) as nat)));
}
pub proof fn lemma_node3(l: nat, a: nat, b: nat, c: nat, t: Tree, u: Tree, v: Tree, w: Seq<Tok>, x: Seq<Tok>, y: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a, b, c]), tree_of(t, a, w, at), tree_of(u, b, x, at + w.len()), tree_of(v, c, y, at + w.len() + x.len()),
    ensures tree_of(node(l, seq![a, b, c], seq![t, u, v]), l, w + x + y, at),
{
    let rr = seq![a, b, c]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    let n = node(l, seq![a, b, c], seq![t, u, v]);
    lemma_ks(seq![t, u, v], 3, w);
    assert(t_yield(n) =~= Seq::new((w + x + y).len(), |i: int| (term((w + x + y)[i]), (at + i) as nat)));
}
pub proof fn lemma_node4(l: nat, a: nat, b: nat, c: nat, d: nat, t: Tree, u: Tree, v: Tree, z: Tree, w: Seq<Tok>, x: Seq<Tok>, y: Seq<Tok>, q: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a, b, c, d]), tree_of(t, a, w, at), tree_of(u, b, x, at + w.len()), tree_of(v, c, y, at + w.len() + x.len()), tree_of(z, d, q, at + w.len() + x.len() + y.len()),
    ensures tree_of(node(l, seq![a, b, c, d], seq![t, u, v, z]), l, w + x + y + q, at),
{
    let rr = seq![a, b, c, d]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    let n = node(l, seq![a, b, c, d], seq![t, u, v, z]);
    lemma_ks(seq![t, u, v, z], 4, w);
    assert(t_yield(n) =~= Seq::new((w + x + y + q).len(), |i: int| (term((w + x + y + q)[i]), (at + i) as nat)));
}
pub proof fn lemma_mk_part(p: Pt, at: nat) -> (t: Tree)
    requires !(p is Odd),
    ensures tree_of(t, s_fragment(), pr_part(p), at),
{
    match p {
        Pt::Str(s) => {
            let a = Tree::Leaf(s_string(), at);
            lemma_leaf_of(Tok::Str(s), at);
            lemma_node1(s_fragment(), s_string(), a, seq![Tok::Str(s)], at);
            node(s_fragment(), seq![s_string()], seq![a])
        }
        Pt::Call(f, s) => {
            lemma_leaf_of(Tok::Id(f), at); lemma_leaf_of(Tok::Open, at + 1); lemma_leaf_of(Tok::Str(s), at + 2); lemma_leaf_of(Tok::Close, at + 3);
            let (a, b, c, d) = (Tree::Leaf(s_ident(), at), Tree::Leaf(s_lparen(), at + 1), Tree::Leaf(s_string(), at + 2), Tree::Leaf(s_rparen(), at + 3));
            lemma_node4(s_fragment(), s_ident(), s_lparen(), s_string(), s_rparen(), a, b, c, d, seq![Tok::Id(f)], seq![Tok::Open], seq![Tok::Str(s)], seq![Tok::Close], at);
            assert(seq![Tok::Id(f)] + seq![Tok::Open] + seq![Tok::Str(s)] + seq![Tok::Close] =~= pr_part(p));
            node(s_fragment(), seq![s_ident(), s_lparen(), s_string(), s_rparen()], seq![a, b, c, d])
        }
        Pt::Odd => Tree::Leaf(0, 0),
        Pt::Name(n, r) => {
            let i = Tok::Id(n);
            let a = Tree::Leaf(s_ident(), at);
            lemma_leaf_of(i, at);
            match r {
                Rp::Once => {
                    lemma_node1(s_fragment(), s_ident(), a, seq![i], at);
                    assert(seq![i] =~= pr_part(p));
                    node(s_fragment(), seq![s_ident()], seq![a])
                }
                Rp::Plus => {
                    let b = Tree::Leaf(s_op_plus(), at + 1);
                    lemma_leaf_of(Tok::Plus, at + 1);
                    lemma_node2(s_fragment(), s_ident(), s_op_plus(), a, b, seq![i], seq![Tok::Plus], at);
                    node(s_fragment(), seq![s_ident(), s_op_plus()], seq![a, b])
                }
                Rp::Star => {
                    let b = Tree::Leaf(s_op_mul(), at + 1);
                    lemma_leaf_of(Tok::Star, at + 1);
                    lemma_node2(s_fragment(), s_ident(), s_op_mul(), a, b, seq![i], seq![Tok::Star], at);
                    node(s_fragment(), seq![s_ident(), s_op_mul()], seq![a, b])
                }
            }
        }
    }
}
pub proof fn lemma_mk_items(a: Seq<Pt>, at: nat) -> (t: Tree)
    requires items_ok(a),
    ensures tree_of(t, s_alt(), pr_items(a), at),
    decreases a.len(),
{
    let d = a.drop_last();
    assert(!(a[a.len() - 1] is Odd));
    if a.len() == 1 {
        let p = lemma_mk_part(a[0], at);
        lemma_node1(s_alt(), s_fragment(), p, pr_part(a[0]), at);
        node(s_alt(), seq![s_fragment()], seq![p])
    } else {
        assert forall|j: int| 0 <= j < d.len() implies !((#[trigger] d[j]) is Odd) by { assert(!(a[j] is Odd)); }
        let x = lemma_mk_items(d, at);
        let n = pr_items(d).len();
        let c = Tree::Leaf(s_tilde_op(), at + n);
        lemma_leaf_of(Tok::Tilde, at + n);
        let p = lemma_mk_part(a.last(), at + n + 1);
        lemma_node3(s_alt(), s_alt(), s_tilde_op(), s_fragment(), x, c, p, pr_items(d), seq![Tok::Tilde], pr_part(a.last()), at);
        node(s_alt(), seq![s_alt(), s_tilde_op(), s_fragment()], seq![x, c, p])
    }
}
pub proof fn lemma_mk_act(n: Seq<char>, at: nat) -> (t: Tree)
    ensures tree_of(t, s_action(), pr_act(Some(n)), at),
{
    let (a, b) = (Tree::Leaf(s_gt_op(), at), Tree::Leaf(s_ident(), at + 1));
    lemma_leaf_of(Tok::Gt, at); lemma_leaf_of(Tok::Id(n), at + 1);
    lemma_node2(s_action(), s_gt_op(), s_ident(), a, b, seq![Tok::Gt], seq![Tok::Id(n)], at);
    assert(seq![Tok::Gt] + seq![Tok::Id(n)] =~= pr_act(Some(n)));
    node(s_action(), seq![s_gt_op(), s_ident()], seq![a, b])
}
pub proof fn lemma_mk_alt(a: Alt, at: nat) -> (t: Tree)
    requires items_ok(a.items),
    ensures tree_of(t, s_alt2(), pr_alt(a), at),
{
    let x = lemma_mk_items(a.items, at);
    match a.act {
        None => {
            lemma_node1(s_alt2(), s_alt(), x, pr_items(a.items), at);
            assert(pr_alt(a) =~= pr_items(a.items));
            node(s_alt2(), seq![s_alt()], seq![x])
        }
        Some(n) => {
            let y = lemma_mk_act(n, at + pr_items(a.items).len());
            lemma_node2(s_alt2(), s_alt(), s_action(), x, y, pr_items(a.items), pr_act(Some(n)), at);
            node(s_alt2(), seq![s_alt(), s_action()], seq![x, y])
        }
    }
}
pub proof fn lemma_mk_alts(s: Seq<Alt>, at: nat) -> (t: Tree)
    requires s.len() > 0, alts_ok(s),
    ensures tree_of(t, s_rhs(), pr_alts(s), at),
    decreases s.len(),
{
    let d = s.drop_last();
    assert(items_ok(s[s.len() - 1].items));
    if s.len() == 1 {
        let x = lemma_mk_alt(s[0], at);
        lemma_node1(s_rhs(), s_alt2(), x, pr_alt(s[0]), at);
        node(s_rhs(), seq![s_alt2()], seq![x])
    } else {
        assert forall|j: int| 0 <= j < d.len() implies items_ok((#[trigger] d[j]).items) by { assert(items_ok(s[j].items)); }
        let x = lemma_mk_alts(d, at);
        let n = pr_alts(d).len();
        let p = Tree::Leaf(s_pipe(), at + n);
        lemma_leaf_of(Tok::Pipe, at + n);
        let y = lemma_mk_alt(s.last(), at + n + 1);
        lemma_node3(s_rhs(), s_rhs(), s_pipe(), s_alt2(), x, p, y, pr_alts(d), seq![Tok::Pipe], pr_alt(s.last()), at);
        node(s_rhs(), seq![s_rhs(), s_pipe(), s_alt2()], seq![x, p, y])
    }
}
pub proof fn lemma_mk_line(l: Line, at: nat) -> (t: Tree)
    requires alts_ok(l.alts),
    ensures tree_of(t, s_rule(), pr_line(l), at),
{
    let i = Tok::Id(l.lhs);
    let (a, b) = (Tree::Leaf(s_ident(), at), Tree::Leaf(s_bnf_op(), at + 1));
    lemma_leaf_of(i, at); lemma_leaf_of(Tok::Is, at + 1);
    let m = if l.alts.len() == 0 { pr_act(l.act) } else { pr_alts(l.alts) };
    let n = m.len();
    let c = Tree::Leaf(s_semicolon(), at + 2 + n);
    lemma_leaf_of(Tok::Semi, at + 2 + n);
    assert(seq![i] + seq![Tok::Is] =~= seq![i, Tok::Is]);
    if l.alts.len() > 0 {
        let x = lemma_mk_alts(l.alts, at + 2);
        lemma_node4(s_rule(), s_ident(), s_bnf_op(), s_rhs(), s_semicolon(), a, b, x, c, seq![i], seq![Tok::Is], m, seq![Tok::Semi], at);
        node(s_rule(), seq![s_ident(), s_bnf_op(), s_rhs(), s_semicolon()], seq![a, b, x, c])
    } else if l.act is Some {
        let x = lemma_mk_act(l.act.unwrap(), at + 2);
        lemma_node4(s_rule(), s_ident(), s_bnf_op(), s_action(), s_semicolon(), a, b, x, c, seq![i], seq![Tok::Is], m, seq![Tok::Semi], at);
        node(s_rule(), seq![s_ident(), s_bnf_op(), s_action(), s_semicolon()], seq![a, b, x, c])
    } else {
        lemma_node3(s_rule(), s_ident(), s_bnf_op(), s_semicolon(), a, b, c, seq![i], seq![Tok::Is], seq![Tok::Semi], at);
        assert(pr_line(l) =~= seq![i] + seq![Tok::Is] + seq![Tok::Semi]);
        node(s_rule(), seq![s_ident(), s_bnf_op(), s_semicolon()], seq![a, b, c])
    }
}
pub proof fn lemma_mk_lines(d: Seq<Line>, at: nat) -> (t: Tree)
    requires lines_ok(d),
    ensures tree_of(t, s_rules(), pr_lines(d), at),
    decreases d.len(),
{
    let e = d.drop_last();
    assert(alts_ok(d[d.len() - 1].alts));
    if d.len() == 1 {
        let x = lemma_mk_line(d[0], at);
        lemma_node1(s_rules(), s_rule(), x, pr_line(d[0]), at);
        assert(pr_lines(e) =~= seq![]);
        assert(pr_lines(d) =~= pr_line(d[0]));
        node(s_rules(), seq![s_rule()], seq![x])
    } else {
        assert forall|j: int| 0 <= j < e.len() implies alts_ok((#[trigger] e[j]).alts) by { assert(alts_ok(d[j].alts)); }
        let x = lemma_mk_lines(e, at);
        let y = lemma_mk_line(d.last(), at + pr_lines(e).len());
        lemma_node2(s_rules(), s_rules(), s_rule(), x, y, pr_lines(e), pr_line(d.last()), at);
        node(s_rules(), seq![s_rules(), s_rule()], seq![x, y])
    }
}
pub proof fn lemma_mk_decl(d: Decl, at: nat) -> (t: Tree)
    requires decl_ok(d),
    ensures tree_of(t, s_decl(), pr_decl(d), at),
{
    match d {
        Decl::Rule(l) => {
            let x = lemma_mk_line(l, at);
            lemma_node1(s_decl(), s_rule(), x, pr_line(l), at);
            node(s_decl(), seq![s_rule()], seq![x])
        }
        Decl::Lexer(ls) => {
            let (a, b) = (Tree::Leaf(s_lexer_keyword(), at), Tree::Leaf(s_lbrace(), at + 1));
            lemma_leaf_of(Tok::Kw, at); lemma_leaf_of(Tok::LBrace, at + 1);
            let n = pr_lines(ls).len();
            let x = lemma_mk_lines(ls, at + 2);
            let c = Tree::Leaf(s_rbrace(), at + 2 + n);
            lemma_leaf_of(Tok::RBrace, at + 2 + n);
            assert(seq![Tok::Kw] + seq![Tok::LBrace] =~= seq![Tok::Kw, Tok::LBrace]);
            lemma_node4(s_lexer(), s_lexer_keyword(), s_lbrace(), s_rules(), s_rbrace(), a, b, x, c, seq![Tok::Kw], seq![Tok::LBrace], pr_lines(ls), seq![Tok::RBrace], at);
            let y = node(s_lexer(), seq![s_lexer_keyword(), s_lbrace(), s_rules(), s_rbrace()], seq![a, b, x, c]);
            lemma_node1(s_decl(), s_lexer(), y, pr_decl(d), at);
            node(s_decl(), seq![s_lexer()], seq![y])
        }
    }
}
pub proof fn lemma_mk_doc(d: Seq<Decl>, at: nat) -> (t: Tree)
    requires doc_ok(d),
    ensures tree_of(t, s_start(), pr_doc(d), at),
    decreases d.len(),
{
    let e = d.drop_last();
    assert(decl_ok(d[d.len() - 1]));
    if d.len() == 1 {
        let x = lemma_mk_decl(d[0], at);
        lemma_node1(s_start(), s_decl(), x, pr_decl(d[0]), at);
        assert(pr_doc(e) =~= seq![]);
        assert(pr_doc(d) =~= pr_decl(d[0]));
        node(s_start(), seq![s_decl()], seq![x])
    } else {
        assert forall|j: int| 0 <= j < e.len() implies decl_ok(#[trigger] e[j]) by { assert(decl_ok(d[j])); }
        let x = lemma_mk_doc(e, at);
        let y = lemma_mk_decl(d.last(), at + pr_doc(e).len());
        lemma_node2(s_start(), s_start(), s_decl(), x, y, pr_doc(e), pr_decl(d.last()), at);
        node(s_start(), seq![s_start(), s_decl()], seq![x, y])
    }
}
/// A sentence: some tree has these leaves.
pub open spec fn sentence(y: Seq<Sc>) -> bool { exists|t: Tree| #[trigger] t_wf(t) && t_sym(t) == s_start() && t_yield(t) == y }
/// The tokens are those of a document.
pub open spec fn written(d: Seq<Decl>, ts: Seq<Tok>) -> bool { doc_ok(d) && ts == pr_doc(d) }
pub proof fn lemma_scan(ts: Seq<Tok>)
    ensures leaves_of(ts, scan_of(ts)), tk(ts, scan_of(ts)) == ts,
{
    assert(tk(ts, scan_of(ts)) =~= ts);
}
pub proof fn lemma_sentence(ts: Seq<Tok>)
    ensures sentence(scan_of(ts)) <==> exists|d: Seq<Decl>| written(d, ts),
{
    lemma_scan(ts);
    if sentence(scan_of(ts)) {
        let t = choose|t: Tree| #[trigger] t_wf(t) && t_sym(t) == s_start() && t_yield(t) == scan_of(ts);
        lemma_tree(t, ts);
        assert(written(d_doc(t, ts), ts));
    }
    if exists|d: Seq<Decl>| written(d, ts) {
        let d = choose|d: Seq<Decl>| written(d, ts);
        let t = lemma_mk_doc(d, 0);
        assert(t_yield(t) =~= scan_of(ts));
    }
}
