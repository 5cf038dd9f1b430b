// G24: nothing that is written in a text is longer than the text.
pub open spec fn tok_short(t: Tok, m: int) -> bool { match t { Tok::Str(u) => u.len() <= m, _ => true } }
pub open spec fn all_short(ts: Seq<Tok>, m: int) -> bool { forall|i: int| 0 <= i < ts.len() ==> tok_short(#[trigger] ts[i], m) }
pub open spec fn part_short(f: Pt, m: int) -> bool { match f { Pt::Str(u) => u.len() <= m, _ => true } }
pub open spec fn items_short(a: Seq<Pt>, n: int, m: int) -> bool { a.len() <= n && forall|k: int| 0 <= k < a.len() ==> part_short(#[trigger] a[k], m) }
pub open spec fn rus_short(s: Seq<Ru>, n: int, m: int) -> bool { s.len() <= n && forall|i: int| 0 <= i < s.len() ==> items_short((#[trigger] s[i]).rhs, n, m) }
pub proof fn lemma_short_sub(a: Seq<Tok>, b: Seq<Tok>, m: int)
    requires all_short(a + b, m),
    ensures all_short(a, m), all_short(b, m),
{
    assert forall|i: int| 0 <= i < a.len() implies tok_short(#[trigger] a[i], m) by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies tok_short(#[trigger] b[i], m) by { assert((a + b)[a.len() + i] == b[i]); }
}
pub proof fn lemma_quoted_short(s: Seq<char>)
    ensures quoted(s) matches Some(q) ==> q.0.len() < q.1,
    decreases s.len(),
{
    if s.len() > 0 {
        if s[0] == '\\' { if s.len() > 1 { lemma_quoted_short(s.skip(2)); } } else if s[0] != '"' { lemma_quoted_short(s.skip(1)); }
    }
}
pub proof fn lemma_lex_short(s: Seq<char>, at: nat)
    requires at <= s.len(),
    ensures all_short(tks(lex(s, at)), s.len() as int),
    decreases s.len() - at,
{
    if at < s.len() {
        let q = s.skip(at as int);
        lemma_one_tok(q);
        if let Some(x) = one(q) {
            lemma_lex_short(s, at + x.1);
            lemma_quoted_short(q.skip(1));
            let rest = lex(s, at + x.1);
            assert forall|i: int| 0 <= i < lex(s, at).len() implies tok_short(#[trigger] tks(lex(s, at))[i], s.len() as int) by {
                if x.0 is Some { if i > 0 { assert(tks(rest)[i - 1] == tks(lex(s, at))[i]); } } else { assert(tks(rest)[i] == tks(lex(s, at))[i]); }
            }
        }
    }
}
pub proof fn lemma_part_short(p: Pt, m: int)
    requires all_short(pr_part(p), m), !(p is Odd),
    ensures part_short(p, m), pr_part(p).len() >= 1,
{
    if let Pt::Str(u) = p { assert(pr_part(p)[0] == Tok::Str(u)); }
}
pub proof fn lemma_items_short(a: Seq<Pt>, m: int)
    requires items_ok(a), all_short(pr_items(a), m),
    ensures items_short(a, pr_items(a).len() as int, m),
    decreases a.len(),
{
    if a.len() == 1 { lemma_part_short(a[0], m); }
    else {
        let b = a.drop_last();
        lemma_short_sub(pr_items(b) + seq![Tok::Tilde], pr_part(a.last()), m);
        lemma_short_sub(pr_items(b), seq![Tok::Tilde], m);
        assert(items_ok(b)) by { assert forall|i: int| 0 <= i < b.len() implies !((#[trigger] b[i]) is Odd) by { assert(a[i] == b[i]); } }
        lemma_items_short(b, m);
        lemma_part_short(a.last(), m);
        assert forall|k: int| 0 <= k < a.len() implies part_short(#[trigger] a[k], m) by { if k < b.len() { assert(b[k] == a[k]); } }
    }
}
pub open spec fn alts_short(s: Seq<Alt>, n: int, m: int) -> bool { s.len() <= n && forall|j: int| 0 <= j < s.len() ==> items_short((#[trigger] s[j]).items, n, m) }
pub proof fn lemma_alt_short(a: Alt, m: int)
    requires items_ok(a.items), all_short(pr_alt(a), m),
    ensures items_short(a.items, pr_alt(a).len() as int, m), pr_alt(a).len() >= 1,
{
    lemma_short_sub(pr_items(a.items), pr_act(a.act), m);
    lemma_items_short(a.items, m);
}
pub proof fn lemma_alts_short(s: Seq<Alt>, m: int)
    requires alts_ok(s), all_short(pr_alts(s), m),
    ensures alts_short(s, pr_alts(s).len() as int, m),
    decreases s.len(),
{
    if s.len() == 1 { lemma_alt_short(s[0], m); }
    else if s.len() > 1 {
        let b = s.drop_last();
        lemma_short_sub(pr_alts(b) + seq![Tok::Pipe], pr_alt(s.last()), m);
        lemma_short_sub(pr_alts(b), seq![Tok::Pipe], m);
        assert(alts_ok(b)) by { assert forall|i: int| 0 <= i < b.len() implies items_ok((#[trigger] b[i]).items) by { assert(s[i] == b[i]); } }
        lemma_alts_short(b, m);
        lemma_alt_short(s.last(), m);
        assert forall|j: int| 0 <= j < s.len() implies items_short((#[trigger] s[j]).items, pr_alts(s).len() as int, m) by { if j < b.len() { assert(b[j] == s[j]); } }
    }
}
pub proof fn lemma_line_short(l: Line, m: int)
    requires alts_ok(l.alts), all_short(pr_line(l), m),
    ensures rus_short(fl_line(l), pr_line(l).len() as int, m),
{
    let h = seq![Tok::Id(l.lhs), Tok::Is];
    let mid = if l.alts.len() == 0 { pr_act(l.act) } else { pr_alts(l.alts) };
    lemma_short_sub(h + mid, seq![Tok::Semi], m);
    lemma_short_sub(h, mid, m);
    if l.alts.len() > 0 {
        lemma_alts_short(l.alts, m);
        assert forall|i: int| 0 <= i < fl_line(l).len() implies items_short((#[trigger] fl_line(l)[i]).rhs, pr_line(l).len() as int, m) by { assert(items_short(l.alts[i].items, pr_alts(l.alts).len() as int, m)); }
    }
}
pub proof fn lemma_rus_more(a: Seq<Ru>, b: Seq<Ru>, n: int, k: int, m: int)
    requires rus_short(a, n, m), rus_short(b, k, m), n >= 0, k >= 0,
    ensures rus_short(a + b, n + k, m),
{
    let t = n + k;
    assert forall|i: int| 0 <= i < (a + b).len() implies items_short((#[trigger] (a + b)[i]).rhs, t, m) by {
        if i < a.len() { assert(items_short(a[i].rhs, n, m)); } else { assert(items_short(b[i - a.len()].rhs, k, m)); }
    }
}
pub proof fn lemma_lines_short(d: Seq<Line>, m: int)
    requires forall|i: int| 0 <= i < d.len() ==> alts_ok((#[trigger] d[i]).alts), all_short(pr_lines(d), m),
    ensures rus_short(fl_lines(d), pr_lines(d).len() as int, m),
    decreases d.len(),
{
    if d.len() > 0 {
        let b = d.drop_last();
        lemma_short_sub(pr_lines(b), pr_line(d.last()), m);
        assert forall|i: int| 0 <= i < b.len() implies alts_ok((#[trigger] b[i]).alts) by { assert(d[i] == b[i]); }
        lemma_lines_short(b, m);
        lemma_line_short(d.last(), m);
        lemma_rus_more(fl_lines(b), fl_line(d.last()), pr_lines(b).len() as int, pr_line(d.last()).len() as int, m);
    }
}
/// `outer` and `inner` rules together are no more than tokens.
pub proof fn lemma_doc_short(d: Seq<Decl>, m: int)
    requires forall|i: int| 0 <= i < d.len() ==> decl_ok(#[trigger] d[i]), all_short(pr_doc(d), m),
    ensures
        fl_doc(d, false).len() + fl_doc(d, true).len() <= pr_doc(d).len(),
        rus_short(fl_doc(d, false), pr_doc(d).len() as int, m), rus_short(fl_doc(d, true), pr_doc(d).len() as int, m),
    decreases d.len(),
{
    if d.len() > 0 {
        let b = d.drop_last();
        let x = d.last();
        lemma_short_sub(pr_doc(b), pr_decl(x), m);
        assert forall|i: int| 0 <= i < b.len() implies decl_ok(#[trigger] b[i]) by { assert(d[i] == b[i]); }
        lemma_doc_short(b, m);
        assert(decl_ok(d[d.len() - 1]));
        let k = pr_decl(x).len() as int;
        match x {
            Decl::Rule(l) => { lemma_line_short(l, m); }
            Decl::Lexer(ls) => {
                lemma_short_sub(seq![Tok::Kw, Tok::LBrace] + pr_lines(ls), seq![Tok::RBrace], m);
                lemma_short_sub(seq![Tok::Kw, Tok::LBrace], pr_lines(ls), m);
                lemma_lines_short(ls, m);
                assert forall|i: int| 0 <= i < fl_lines(ls).len() implies items_short((#[trigger] fl_lines(ls)[i]).rhs, k, m) by { }
            }
        }
        let n = pr_doc(b).len() as int;
        lemma_rus_more(fl_doc(b, false), fl_decl(x, false), n, k, m);
        lemma_rus_more(fl_doc(b, true), fl_decl(x, true), n, k, m);
    }
}
/// No regular expression has look-around assertions.
pub open spec fn call_plain(f: Pt) -> bool { match f { Pt::Call(c, t) => !rx_looks(t), _ => true } }
pub open spec fn calls_plain(d: Seq<Decl>) -> bool { forall|i: int, k: int| 0 <= i < all_rules(d).len() && 0 <= k < all_rules(d)[i].rhs.len() ==> call_plain(#[trigger] all_rules(d)[i].rhs[k]) }
pub proof fn lemma_fits(d: Seq<Decl>, s: Seq<char>)
    requires written(d, tks(lex(s, 0))), s.len() < u32::MAX, calls_plain(d),
    ensures doc_fits(d),
{
    lemma_lex_short(s, 0);
    lemma_lex_len(s, 0);
    lemma_doc_short(d, s.len() as int);
    let ds = all_rules(d);
    assert forall|i: int| 0 <= i < ds.len() implies ru_fits(#[trigger] ds[i]) by {
        let o = outer(d);
        if i < o { assert(ds[i] == fl_doc(d, false)[i]); assert(items_short(fl_doc(d, false)[i].rhs, pr_doc(d).len() as int, s.len() as int)); }
        else { assert(ds[i] == fl_doc(d, true)[i - o]); assert(items_short(fl_doc(d, true)[i - o].rhs, pr_doc(d).len() as int, s.len() as int)); }
        assert forall|k: int| 0 <= k < ds[i].rhs.len() implies frag_fits(#[trigger] ds[i].rhs[k]) by { assert(part_short(ds[i].rhs[k], s.len() as int)); assert(call_plain(all_rules(d)[i].rhs[k])); }
    }
}
