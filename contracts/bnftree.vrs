// Parse trees over the grammar of BNF texts, and the texts they stand for.
pub ghost enum Tree { Leaf(nat, nat), Node(nat, Seq<Tree>) }
/// A terminal, and the number of the token it stands for.
pub type Sc = (nat, nat);
pub open spec fn t_sym(t: Tree) -> nat { match t { Tree::Leaf(s, _) => s, Tree::Node(id, _) => g_lhs(id) } }
pub open spec fn t_wf(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Leaf(_, _) => true,
        Tree::Node(id, ks) => is_rule(id) && ks.len() == g_rhs(id).len() && forall|i: int| 0 <= i < ks.len() ==> t_wf(#[trigger] ks[i]) && t_sym(ks[i]) == g_rhs(id)[i],
    }
}
pub open spec fn t_yield(t: Tree) -> Seq<Sc>
    decreases t, 0nat,
{
    match t { Tree::Leaf(s, k) => seq![(s, k)], Tree::Node(_, ks) => ks_yield(ks, ks.len()) }
}
pub open spec fn ks_yield(ks: Seq<Tree>, n: nat) -> Seq<Sc>
    decreases ks, n,
{
    if n == 0 || n > ks.len() { seq![] } else { ks_yield(ks, (n - 1) as nat) + t_yield(ks[n - 1]) }
}
pub open spec fn t_val(t: Tree, ts: Seq<Tok>) -> Va
    decreases t, 0nat,
{
    match t { Tree::Leaf(s, k) => leaf_val(ts, s, k), Tree::Node(id, ks) => act(id, ks_val(ks, ks.len(), ts)) }
}
pub open spec fn ks_val(ks: Seq<Tree>, n: nat, ts: Seq<Tok>) -> Seq<Va>
    decreases ks, n,
{
    if n == 0 || n > ks.len() { seq![] } else { ks_val(ks, (n - 1) as nat, ts).push(t_val(ks[n - 1], ts)) }
}
pub open spec fn term(t: Tok) -> nat {
    match t { Tok::Id(_) => s_ident(), Tok::Is => s_bnf_op(), Tok::Semi => s_semicolon(), Tok::Pipe => s_pipe(), Tok::Plus => s_op_plus(), Tok::Star => s_op_mul(), Tok::Open => s_lparen(), Tok::Close => s_rparen() }
}
/// Leaves that are tokens of a text.
pub open spec fn leaves_of(ts: Seq<Tok>, y: Seq<Sc>) -> bool { forall|i: int| 0 <= i < y.len() ==> (#[trigger] y[i]).1 < ts.len() && y[i].0 == term(ts[y[i].1 as int]) }
pub open spec fn tk(ts: Seq<Tok>, y: Seq<Sc>) -> Seq<Tok> { Seq::new(y.len(), |i: int| ts[y[i].1 as int]) }
pub open spec fn scan_of(ts: Seq<Tok>) -> Seq<Sc> { Seq::new(ts.len(), |i: int| (term(ts[i]), i as nat)) }
// ---- what a tree says
pub open spec fn d_rep(r: Seq<nat>) -> Rp { if r.len() == 1 { Rp::Once } else if r[1] == s_op_plus() { Rp::Plus } else { Rp::Star } }
pub open spec fn leaf_name(t: Tree, ts: Seq<Tok>) -> Seq<char> { ts[t->Leaf_1 as int]->Id_0 }
pub open spec fn d_part(t: Tree, ts: Seq<Tok>) -> Pt {
    match t { Tree::Node(id, ks) => if g_rhs(id)[0] == s_lparen() { Pt::Unit } else { Pt::Name(Fr { name: leaf_name(ks[0], ts), rep: d_rep(g_rhs(id)) }) }, _ => Pt::Unit }
}
pub open spec fn d_alt(t: Tree, ts: Seq<Tok>) -> Seq<Pt>
    decreases t,
{
    match t { Tree::Node(id, ks) => if ks.len() == 2 { d_alt(ks[0], ts).push(d_part(ks[1], ts)) } else { seq![d_part(ks[0], ts)] }, _ => seq![] }
}
pub open spec fn d_rhs(t: Tree, ts: Seq<Tok>) -> Seq<Seq<Pt>>
    decreases t,
{
    match t { Tree::Node(id, ks) => if ks.len() == 3 { d_rhs(ks[0], ts).push(d_alt(ks[2], ts)) } else { seq![d_alt(ks[0], ts)] }, _ => seq![] }
}
pub open spec fn d_line(t: Tree, ts: Seq<Tok>) -> Line {
    match t { Tree::Node(id, ks) => Line { lhs: leaf_name(ks[0], ts), alts: if ks.len() == 4 { d_rhs(ks[2], ts) } else { seq![] } }, _ => Line { lhs: seq![], alts: seq![] } }
}
pub open spec fn d_doc(t: Tree, ts: Seq<Tok>) -> Seq<Line>
    decreases t,
{
    match t { Tree::Node(id, ks) => if ks.len() == 2 { d_doc(ks[0], ts).push(d_line(ks[1], ts)) } else { seq![d_line(ks[0], ts)] }, _ => seq![] }
}
pub open spec fn says(t: Tree, ts: Seq<Tok>) -> bool {
    let s = t_sym(t);
    let w = tk(ts, t_yield(t));
    let v = t_val(t, ts);
    &&& typed(s, v)
    &&& s == s_fragment() ==> w == pr_part(d_part(t, ts)) && v == Va::Frag(match d_part(t, ts) { Pt::Unit => None, Pt::Name(f) => Some(f) })
    &&& s == s_alt() ==> d_alt(t, ts).len() > 0 && w == pr_alt(d_alt(t, ts)) && v == Va::Alt(fl_alt(d_alt(t, ts)))
    &&& s == s_rhs() ==> d_rhs(t, ts).len() > 0 && alts_ok(d_rhs(t, ts)) && w == pr_alts(d_rhs(t, ts)) && v == Va::Rhs(fl_alts(d_rhs(t, ts)))
    &&& s == s_rule() ==> alts_ok(d_line(t, ts).alts) && w == pr_line(d_line(t, ts)) && v == Va::Rules(fl_line(d_line(t, ts)))
    &&& s == s_start() ==> doc_ok(d_doc(t, ts)) && w == pr_doc(d_doc(t, ts)) && v == Va::Rules(fl_doc(d_doc(t, ts)))
}
pub proof fn lemma_ks(ks: Seq<Tree>, n: nat, ts: Seq<Tok>)
    requires n <= ks.len(),
    ensures
        ks_val(ks, n, ts).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] ks_val(ks, n, ts)[i] == t_val(ks[i], ts),
        n == 1 ==> ks_yield(ks, n) == t_yield(ks[0]),
        n == 2 ==> ks_yield(ks, n) == t_yield(ks[0]) + t_yield(ks[1]),
        n == 3 ==> ks_yield(ks, n) == t_yield(ks[0]) + t_yield(ks[1]) + t_yield(ks[2]),
        n == 4 ==> ks_yield(ks, n) == t_yield(ks[0]) + t_yield(ks[1]) + t_yield(ks[2]) + t_yield(ks[3]),
    decreases n,
{
    if n > 0 {
        lemma_ks(ks, (n - 1) as nat, ts);
        if n == 1 { assert(ks_yield(ks, 0) + t_yield(ks[0]) =~= t_yield(ks[0])); }
    }
}
pub proof fn lemma_leaves_kid(ks: Seq<Tree>, n: nat, i: int, ts: Seq<Tok>)
    requires 0 <= i < n <= ks.len(), leaves_of(ts, ks_yield(ks, n)),
    ensures leaves_of(ts, t_yield(ks[i])),
    decreases n,
{
    let a = ks_yield(ks, (n - 1) as nat);
    let b = t_yield(ks[n - 1]);
    if i == n - 1 {
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).1 < ts.len() && b[k].0 == term(ts[b[k].1 as int]) by { assert((a + b)[a.len() + k] == b[k]); }
    } else {
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).1 < ts.len() && a[k].0 == term(ts[a[k].1 as int]) by { assert((a + b)[k] == a[k]); }
        lemma_leaves_kid(ks, (n - 1) as nat, i, ts);
    }
}
pub proof fn lemma_tk(ts: Seq<Tok>, a: Seq<Sc>, b: Seq<Sc>)
    ensures tk(ts, a + b) == tk(ts, a) + tk(ts, b),
{
    assert(tk(ts, a + b) =~= tk(ts, a) + tk(ts, b));
}
pub proof fn lemma_leaf(t: Tree, ts: Seq<Tok>)
    requires t is Leaf, leaves_of(ts, t_yield(t)),
    ensures
        t->Leaf_1 < ts.len(), tk(ts, t_yield(t)) == seq![ts[t->Leaf_1 as int]], t_sym(t) == term(ts[t->Leaf_1 as int]),
        t_sym(t) == s_ident() ==> ts[t->Leaf_1 as int] == Tok::Id(leaf_name(t, ts)),
{
    let y = t_yield(t);
    assert(y[0] == (t->Leaf_0, t->Leaf_1));
    assert(tk(ts, y) =~= seq![ts[t->Leaf_1 as int]]);
}
/// A symbol without rules is a leaf.
pub open spec fn is_term(s: nat) -> bool {
    s == s_ident() || s == s_bnf_op() || s == s_semicolon() || s == s_pipe() || s == s_op_plus() || s == s_op_mul() || s == s_lparen() || s == s_rparen()
}
pub proof fn lemma_push_alt(a: Seq<Pt>, p: Pt)
    ensures
        pr_alt(a.push(p)) == pr_alt(a) + pr_part(p), fl_alt(a.push(p)) == fl_alt(a) + fl_part(p),
        a.len() == 0 ==> pr_alt(a.push(p)) == pr_part(p) && fl_alt(a.push(p)) == fl_part(p),
{
    assert(a.push(p).drop_last() =~= a);
    if a.len() == 0 { assert(pr_alt(a) + pr_part(p) =~= pr_part(p)); assert(fl_alt(a) + fl_part(p) =~= fl_part(p)); }
}
pub proof fn lemma_push_alts(a: Seq<Seq<Pt>>, p: Seq<Pt>)
    requires alts_ok(a), p.len() > 0,
    ensures
        a.len() > 0 ==> pr_alts(a.push(p)) == pr_alts(a) + seq![Tok::Pipe] + pr_alt(p), fl_alts(a.push(p)) == fl_alts(a).push(fl_alt(p)), alts_ok(a.push(p)),
        a.len() == 0 ==> pr_alts(a.push(p)) == pr_alt(p) && fl_alts(a.push(p)) == seq![fl_alt(p)],
{
    assert(a.push(p).drop_last() =~= a);
    assert(fl_alts(a.push(p)) =~= fl_alts(a).push(fl_alt(p)));
    if a.len() == 0 { assert(fl_alts(a.push(p)) =~= seq![fl_alt(p)]); }
    assert forall|j: int| 0 <= j < a.push(p).len() implies (#[trigger] a.push(p)[j]).len() > 0 by { if j < a.len() { assert(a[j].len() > 0); } }
}
pub proof fn lemma_push_doc(a: Seq<Line>, p: Line)
    requires a.len() > 0 ==> doc_ok(a), alts_ok(p.alts),
    ensures
        pr_doc(a.push(p)) == pr_doc(a) + pr_line(p), fl_doc(a.push(p)) == fl_doc(a) + fl_line(p), doc_ok(a.push(p)),
        a.len() == 0 ==> pr_doc(a.push(p)) == pr_line(p) && fl_doc(a.push(p)) == fl_line(p),
{
    assert(a.push(p).drop_last() =~= a);
    if a.len() == 0 { assert(pr_doc(a) + pr_line(p) =~= pr_line(p)); assert(fl_doc(a) + fl_line(p) =~= fl_line(p)); }
    assert forall|j: int| 0 <= j < a.push(p).len() implies alts_ok((#[trigger] a.push(p)[j]).alts) by { if j < a.len() { assert(alts_ok(a[j].alts)); } }
}
/// Every tree over the tokens of a text is a piece of a document, with the value the document has.
#[verifier::rlimit(60)]
pub proof fn lemma_tree(t: Tree, ts: Seq<Tok>)
    requires t_wf(t), leaves_of(ts, t_yield(t)),
    ensures says(t, ts), is_term(t_sym(t)) ==> t is Leaf,
    decreases t,
{
    match t {
        Tree::Leaf(s, k) => { lemma_leaf(t, ts); }
        Tree::Node(id, ks) => {
            let n = ks.len();
            assert forall|i: int| 0 <= i < n implies says(#[trigger] ks[i], ts) && leaves_of(ts, t_yield(ks[i])) && (is_term(t_sym(ks[i])) ==> ks[i] is Leaf) by {
                assert(t_wf(ks[i]));
                lemma_leaves_kid(ks, n, i, ts);
                lemma_tree(ks[i], ts);
            }
            assert(1 <= n <= 4);
            lemma_ks(ks, n, ts);
            let y0 = t_yield(ks[0]);
            assert(t_wf(ks[0]) && t_sym(ks[0]) == g_rhs(id)[0]);
            if n >= 2 { assert(t_wf(ks[1]) && t_sym(ks[1]) == g_rhs(id)[1]); lemma_tk(ts, y0, t_yield(ks[1])); }
            if n >= 3 { assert(t_wf(ks[2]) && t_sym(ks[2]) == g_rhs(id)[2]); lemma_tk(ts, y0 + t_yield(ks[1]), t_yield(ks[2])); }
            if n >= 4 { assert(t_wf(ks[3]) && t_sym(ks[3]) == g_rhs(id)[3]); lemma_tk(ts, y0 + t_yield(ks[1]) + t_yield(ks[2]), t_yield(ks[3])); }
            let l = g_lhs(id);
            let va = ks_val(ks, n, ts);
            assert(t_val(t, ts) == act(id, va));
            assert(va[0] == t_val(ks[0], ts));
            if l == s_fragment() {
                lemma_leaf(ks[0], ts);
                if n == 2 { lemma_leaf(ks[1], ts); }
                assert(tk(ts, t_yield(t)) =~= pr_part(d_part(t, ts)));
            } else if l == s_alt() {
                if n == 2 {
                    assert(va[1] == t_val(ks[1], ts));
                    lemma_push_alt(d_alt(ks[0], ts), d_part(ks[1], ts));
                } else {
                    lemma_push_alt(seq![], d_part(ks[0], ts));
                    assert(seq![].push(d_part(ks[0], ts)) =~= seq![d_part(ks[0], ts)]);
                }
            } else if l == s_rhs() {
                if n == 3 {
                    assert(va[2] == t_val(ks[2], ts));
                    lemma_leaf(ks[1], ts);
                    lemma_push_alts(d_rhs(ks[0], ts), d_alt(ks[2], ts));
                } else {
                    lemma_push_alts(seq![], d_alt(ks[0], ts));
                    assert(seq![].push(d_alt(ks[0], ts)) =~= seq![d_alt(ks[0], ts)]);
                }
            } else if l == s_rule() {
                lemma_leaf(ks[0], ts);
                lemma_leaf(ks[1], ts);
                if n == 4 {
                    lemma_leaf(ks[3], ts);
                    assert(va[2] == t_val(ks[2], ts));
                    assert(tk(ts, t_yield(t)) =~= pr_line(d_line(t, ts)));
                } else {
                    lemma_leaf(ks[2], ts);
                    assert(tk(ts, t_yield(t)) =~= pr_line(d_line(t, ts)));
                }
            } else {
                assert(l == s_start());
                if n == 2 {
                    assert(va[1] == t_val(ks[1], ts));
                    lemma_push_doc(d_doc(ks[0], ts), d_line(ks[1], ts));
                } else {
                    lemma_push_doc(seq![], d_line(ks[0], ts));
                    assert(seq![].push(d_line(ks[0], ts)) =~= seq![d_line(ks[0], ts)]);
                }
            }
        }
    }
}
// ---- a tree for every document
pub open spec fn node(l: nat, r: Seq<nat>, ks: Seq<Tree>) -> Tree { Tree::Node(choose|id: nat| #[trigger] form(id, l, r), ks) }
pub open spec fn form(id: nat, l: nat, r: Seq<nat>) -> bool { is_rule(id) && g_lhs(id) == l && g_rhs(id) =~= r }
pub open spec fn a_rule(l: nat, r: Seq<nat>) -> bool {
    form(2, l, r) || form(3, l, r) || form(4, l, r) || form(5, l, r) || form(6, l, r) || form(7, l, r) || form(8, l, r) || form(9, l, r) || form(10, l, r) || form(11, l, r) || form(12, l, r) || form(13, l, r)
}
/// The tree is for `s`, and its leaves are `w`, numbered from `at`.
pub open spec fn tree_of(t: Tree, s: nat, w: Seq<Tok>, at: nat) -> bool { t_wf(t) && t_sym(t) == s && t_yield(t) == Seq::new(w.len(), |i: int| (term(w[i]), (at + i) as nat)) }
pub proof fn lemma_leaf_of(k: Tok, at: nat)
    ensures tree_of(Tree::Leaf(term(k), at), term(k), seq![k], at),
{
    assert(t_yield(Tree::Leaf(term(k), at)) =~= Seq::new(1, |i: int| (term(seq![k][i]), (at + i) as nat)));
}
pub proof fn lemma_node1(l: nat, a: nat, t: Tree, w: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a]), tree_of(t, a, w, at),
    ensures tree_of(node(l, seq![a], seq![t]), l, w, at),
{
    let rr = seq![a]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    lemma_ks(seq![t], 1, w);
}
pub proof fn lemma_node2(l: nat, a: nat, b: nat, t: Tree, u: Tree, w: Seq<Tok>, x: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a, b]), tree_of(t, a, w, at), tree_of(u, b, x, at + w.len()),
    ensures tree_of(node(l, seq![a, b], seq![t, u]), l, w + x, at),
{
    let rr = seq![a, b]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    let n = node(l, seq![a, b], seq![t, u]);
    lemma_ks(seq![t, u], 2, w);
    assert(t_yield(n) =~= Seq::new((w + x).len(), |i: int| (term((w + x)[i]), (at + i) as nat)));
}
pub proof fn lemma_node3(l: nat, a: nat, b: nat, c: nat, t: Tree, u: Tree, v: Tree, w: Seq<Tok>, x: Seq<Tok>, y: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a, b, c]), tree_of(t, a, w, at), tree_of(u, b, x, at + w.len()), tree_of(v, c, y, at + w.len() + x.len()),
    ensures tree_of(node(l, seq![a, b, c], seq![t, u, v]), l, w + x + y, at),
{
    let rr = seq![a, b, c]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    let n = node(l, seq![a, b, c], seq![t, u, v]);
    lemma_ks(seq![t, u, v], 3, w);
    assert(t_yield(n) =~= Seq::new((w + x + y).len(), |i: int| (term((w + x + y)[i]), (at + i) as nat)));
}
pub proof fn lemma_node4(l: nat, a: nat, b: nat, c: nat, d: nat, t: Tree, u: Tree, v: Tree, z: Tree, w: Seq<Tok>, x: Seq<Tok>, y: Seq<Tok>, q: Seq<Tok>, at: nat)
    requires a_rule(l, seq![a, b, c, d]), tree_of(t, a, w, at), tree_of(u, b, x, at + w.len()), tree_of(v, c, y, at + w.len() + x.len()), tree_of(z, d, q, at + w.len() + x.len() + y.len()),
    ensures tree_of(node(l, seq![a, b, c, d], seq![t, u, v, z]), l, w + x + y + q, at),
{
    let rr = seq![a, b, c, d]; let id = choose|id: nat| #[trigger] form(id, l, rr); assert(form(id, l, rr));
    let n = node(l, seq![a, b, c, d], seq![t, u, v, z]);
    lemma_ks(seq![t, u, v, z], 4, w);
    assert(t_yield(n) =~= Seq::new((w + x + y + q).len(), |i: int| (term((w + x + y + q)[i]), (at + i) as nat)));
}
pub proof fn lemma_mk_part(p: Pt, at: nat) -> (t: Tree)
    ensures tree_of(t, s_fragment(), pr_part(p), at),
{
    match p {
        Pt::Unit => {
            lemma_leaf_of(Tok::Open, at); lemma_leaf_of(Tok::Close, at + 1);
            let (a, b) = (Tree::Leaf(s_lparen(), at), Tree::Leaf(s_rparen(), at + 1));
            lemma_node2(s_fragment(), s_lparen(), s_rparen(), a, b, seq![Tok::Open], seq![Tok::Close], at);
            assert(seq![Tok::Open] + seq![Tok::Close] =~= pr_part(p));
            node(s_fragment(), seq![s_lparen(), s_rparen()], seq![a, b])
        }
        Pt::Name(f) => {
            let i = Tok::Id(f.name);
            let a = Tree::Leaf(s_ident(), at);
            lemma_leaf_of(i, at);
            match f.rep {
                Rp::Once => {
                    lemma_node1(s_fragment(), s_ident(), a, seq![i], at);
                    assert(seq![i] =~= pr_part(p));
                    node(s_fragment(), seq![s_ident()], seq![a])
                }
                Rp::Plus => {
                    let b = Tree::Leaf(s_op_plus(), at + 1);
                    lemma_leaf_of(Tok::Plus, at + 1);
                    lemma_node2(s_fragment(), s_ident(), s_op_plus(), a, b, seq![i], seq![Tok::Plus], at);
                    node(s_fragment(), seq![s_ident(), s_op_plus()], seq![a, b])
                }
                Rp::Star => {
                    let b = Tree::Leaf(s_op_mul(), at + 1);
                    lemma_leaf_of(Tok::Star, at + 1);
                    lemma_node2(s_fragment(), s_ident(), s_op_mul(), a, b, seq![i], seq![Tok::Star], at);
                    node(s_fragment(), seq![s_ident(), s_op_mul()], seq![a, b])
                }
            }
        }
    }
}
pub proof fn lemma_mk_alt(a: Seq<Pt>, at: nat) -> (t: Tree)
    requires a.len() > 0,
    ensures tree_of(t, s_alt(), pr_alt(a), at),
    decreases a.len(),
{
    let d = a.drop_last();
    if a.len() == 1 {
        let p = lemma_mk_part(a.last(), at);
        lemma_node1(s_alt(), s_fragment(), p, pr_part(a.last()), at);
        assert(pr_alt(d) =~= seq![]);
        assert(pr_alt(a) =~= pr_part(a.last()));
        node(s_alt(), seq![s_fragment()], seq![p])
    } else {
        let x = lemma_mk_alt(d, at);
        let p = lemma_mk_part(a.last(), at + pr_alt(d).len());
        lemma_node2(s_alt(), s_alt(), s_fragment(), x, p, pr_alt(d), pr_part(a.last()), at);
        node(s_alt(), seq![s_alt(), s_fragment()], seq![x, p])
    }
}
pub proof fn lemma_mk_alts(s: Seq<Seq<Pt>>, at: nat) -> (t: Tree)
    requires s.len() > 0, alts_ok(s),
    ensures tree_of(t, s_rhs(), pr_alts(s), at),
    decreases s.len(),
{
    let d = s.drop_last();
    if s.len() == 1 {
        let x = lemma_mk_alt(s[0], at);
        lemma_node1(s_rhs(), s_alt(), x, pr_alt(s[0]), at);
        node(s_rhs(), seq![s_alt()], seq![x])
    } else {
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).len() > 0 by { assert(s[j].len() > 0); }
        let x = lemma_mk_alts(d, at);
        let n = pr_alts(d).len();
        let p = Tree::Leaf(s_pipe(), at + n);
        lemma_leaf_of(Tok::Pipe, at + n);
        assert(s[s.len() - 1].len() > 0);
        let y = lemma_mk_alt(s.last(), at + n + 1);
        lemma_node3(s_rhs(), s_rhs(), s_pipe(), s_alt(), x, p, y, pr_alts(d), seq![Tok::Pipe], pr_alt(s.last()), at);
        node(s_rhs(), seq![s_rhs(), s_pipe(), s_alt()], seq![x, p, y])
    }
}
pub proof fn lemma_mk_line(l: Line, at: nat) -> (t: Tree)
    requires alts_ok(l.alts),
    ensures tree_of(t, s_rule(), pr_line(l), at),
{
    let i = Tok::Id(l.lhs);
    let (a, b) = (Tree::Leaf(s_ident(), at), Tree::Leaf(s_bnf_op(), at + 1));
    lemma_leaf_of(i, at); lemma_leaf_of(Tok::Is, at + 1);
    let n = pr_alts(l.alts).len();
    let c = Tree::Leaf(s_semicolon(), at + 2 + n);
    lemma_leaf_of(Tok::Semi, at + 2 + n);
    assert(seq![i] + seq![Tok::Is] =~= seq![i, Tok::Is]);
    if l.alts.len() == 0 {
        lemma_node3(s_rule(), s_ident(), s_bnf_op(), s_semicolon(), a, b, c, seq![i], seq![Tok::Is], seq![Tok::Semi], at);
        assert(pr_line(l) =~= seq![i] + seq![Tok::Is] + seq![Tok::Semi]);
        node(s_rule(), seq![s_ident(), s_bnf_op(), s_semicolon()], seq![a, b, c])
    } else {
        let x = lemma_mk_alts(l.alts, at + 2);
        lemma_node4(s_rule(), s_ident(), s_bnf_op(), s_rhs(), s_semicolon(), a, b, x, c, seq![i], seq![Tok::Is], pr_alts(l.alts), seq![Tok::Semi], at);
        node(s_rule(), seq![s_ident(), s_bnf_op(), s_rhs(), s_semicolon()], seq![a, b, x, c])
    }
}
pub proof fn lemma_mk_doc(d: Seq<Line>, at: nat) -> (t: Tree)
    requires doc_ok(d),
    ensures tree_of(t, s_start(), pr_doc(d), at),
    decreases d.len(),
{
    let e = d.drop_last();
    assert(alts_ok(d[d.len() - 1].alts));
    if d.len() == 1 {
        let x = lemma_mk_line(d[0], at);
        lemma_node1(s_start(), s_rule(), x, pr_line(d[0]), at);
        assert(pr_doc(e) =~= seq![]);
        assert(pr_doc(d) =~= pr_line(d[0]));
        node(s_start(), seq![s_rule()], seq![x])
    } else {
        assert forall|j: int| 0 <= j < e.len() implies alts_ok((#[trigger] e[j]).alts) by { assert(alts_ok(d[j].alts)); }
        let x = lemma_mk_doc(e, at);
        let y = lemma_mk_line(d.last(), at + pr_doc(e).len());
        lemma_node2(s_start(), s_start(), s_rule(), x, y, pr_doc(e), pr_line(d.last()), at);
        node(s_start(), seq![s_start(), s_rule()], seq![x, y])
    }
}
/// A sentence: some tree has these leaves.
pub open spec fn sentence(y: Seq<Sc>) -> bool { exists|t: Tree| #[trigger] t_wf(t) && t_sym(t) == s_start() && t_yield(t) == y }
/// The tokens are those of a document.
pub open spec fn written(d: Seq<Line>, ts: Seq<Tok>) -> bool { doc_ok(d) && ts == pr_doc(d) }
pub proof fn lemma_scan(ts: Seq<Tok>)
    ensures leaves_of(ts, scan_of(ts)), tk(ts, scan_of(ts)) == ts,
{
    assert(tk(ts, scan_of(ts)) =~= ts);
}
pub proof fn lemma_sentence(ts: Seq<Tok>)
    ensures sentence(scan_of(ts)) <==> exists|d: Seq<Line>| written(d, ts),
{
    lemma_scan(ts);
    if sentence(scan_of(ts)) {
        let t = choose|t: Tree| #[trigger] t_wf(t) && t_sym(t) == s_start() && t_yield(t) == scan_of(ts);
        lemma_tree(t, ts);
        assert(written(d_doc(t, ts), ts));
    }
    if exists|d: Seq<Line>| written(d, ts) {
        let d = choose|d: Seq<Line>| written(d, ts);
        let t = lemma_mk_doc(d, 0);
        assert(t_yield(t) =~= scan_of(ts));
    }
}
