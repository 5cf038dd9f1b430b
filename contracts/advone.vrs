// G24: texts have one meaning.
pub ghost struct Rd { pub decls: Seq<Decl>, pub lines: Seq<Line>, pub within: bool, pub lhs: Seq<char>, pub open: bool, pub alts: Seq<Alt>, pub items: Seq<Pt>, pub act: Option<Seq<char>>, pub gt: bool, pub call: bool }
pub open spec fn rd0(decls: Seq<Decl>, lines: Seq<Line>, within: bool) -> Rd {
    Rd { decls: decls, lines: lines, within: within, lhs: Seq::empty(), open: false, alts: Seq::empty(), items: Seq::empty(), act: None, gt: false, call: false }
}
pub open spec fn again(a: Seq<Pt>, r: Rp) -> Seq<Pt> { match a.last() { Pt::Name(n, _) => a.drop_last().push(Pt::Name(n, r)), _ => a } }
pub open spec fn called(a: Seq<Pt>, t: Seq<char>) -> Seq<Pt> { match a.last() { Pt::Name(n, _) => a.drop_last().push(Pt::Call(n, t)), _ => a } }
pub open spec fn line_of_rd(s: Rd) -> Line {
    if s.alts.len() == 0 && s.items.len() == 0 { Line { lhs: s.lhs, alts: Seq::empty(), act: s.act } } else { Line { lhs: s.lhs, alts: s.alts.push(Alt { items: s.items, act: s.act }), act: None } }
}
pub open spec fn put_line(s: Rd, l: Line) -> Rd { if s.within { rd0(s.decls, s.lines.push(l), true) } else { rd0(s.decls.push(Decl::Rule(l)), s.lines, false) } }
pub open spec fn rd(s: Rd, t: Tok) -> Rd {
    match t {
        Tok::Id(n) => if s.gt { Rd { act: Some(n), gt: false, ..s } } else if s.open { Rd { items: s.items.push(Pt::Name(n, Rp::Once)), ..s } } else { Rd { lhs: n, open: true, ..s } },
        Tok::Str(t) => if s.call { Rd { items: called(s.items, t), call: false, ..s } } else { Rd { items: s.items.push(Pt::Str(t)), ..s } },
        Tok::Open => Rd { call: true, ..s },
        Tok::Plus => Rd { items: again(s.items, Rp::Plus), ..s },
        Tok::Star => Rd { items: again(s.items, Rp::Star), ..s },
        Tok::Gt => Rd { gt: true, ..s },
        Tok::Pipe => Rd { alts: s.alts.push(Alt { items: s.items, act: s.act }), items: Seq::empty(), act: None, ..s },
        Tok::Semi => put_line(s, line_of_rd(s)),
        Tok::LBrace => rd0(s.decls, Seq::empty(), true),
        Tok::RBrace => rd0(s.decls.push(Decl::Lexer(s.lines)), Seq::empty(), false),
        _ => s,
    }
}
pub open spec fn run(s: Rd, ts: Seq<Tok>) -> Rd
    decreases ts.len(),
{
    if ts.len() == 0 { s } else { rd(run(s, ts.drop_last()), ts.last()) }
}
pub proof fn lemma_run_cat(s: Rd, a: Seq<Tok>, b: Seq<Tok>)
    ensures run(s, a + b) == run(run(s, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_run_cat(s, a, b.drop_last());
    }
}
pub proof fn lemma_run_one(s: Rd, t: Tok)
    ensures run(s, seq![t]) == rd(s, t),
{
    assert(seq![t].drop_last() =~= Seq::empty());
    assert(run(s, Seq::empty()) == s);
    assert(seq![t].last() == t);
}
pub proof fn lemma_run_two(s: Rd, t: Tok, u: Tok)
    ensures run(s, seq![t, u]) == rd(rd(s, t), u),
{
    assert(seq![t, u] =~= seq![t] + seq![u]);
    lemma_run_cat(s, seq![t], seq![u]);
    lemma_run_one(s, t);
    lemma_run_one(rd(s, t), u);
}
/// Within an alternative.
pub open spec fn calm(s: Rd) -> bool { s.open && !s.gt && !s.call }
pub proof fn lemma_run_part(s: Rd, p: Pt)
    requires calm(s), !(p is Odd),
    ensures run(s, pr_part(p)) == (Rd { items: s.items.push(p), ..s }),
{
    match p {
        Pt::Name(n, r) => {
            lemma_run_cat(s, seq![Tok::Id(n)], pr_rep(r));
            lemma_run_one(s, Tok::Id(n));
            let q = rd(s, Tok::Id(n));
            assert(q.items.drop_last() =~= s.items);
            match r { Rp::Once => {} Rp::Plus => { lemma_run_one(q, Tok::Plus); } Rp::Star => { lemma_run_one(q, Tok::Star); } }
        }
        Pt::Str(t) => { lemma_run_one(s, Tok::Str(t)); }
        Pt::Call(f, t) => {
            let a = seq![Tok::Id(f), Tok::Open];
            let b = seq![Tok::Str(t), Tok::Close];
            assert(pr_part(p) =~= a + b);
            lemma_run_cat(s, a, b);
            lemma_run_two(s, Tok::Id(f), Tok::Open);
            lemma_run_two(run(s, a), Tok::Str(t), Tok::Close);
            let q = rd(s, Tok::Id(f));
            assert(q.items.drop_last() =~= s.items);
        }
        Pt::Odd => {}
    }
}
pub proof fn lemma_run_items(s: Rd, a: Seq<Pt>)
    requires calm(s), items_ok(a),
    ensures run(s, pr_items(a)) == (Rd { items: s.items + a, ..s }),
    decreases a.len(),
{
    assert(!(a[a.len() - 1] is Odd));
    if a.len() == 1 {
        lemma_run_part(s, a[0]);
        assert(s.items.push(a[0]) =~= s.items + a);
    } else {
        let b = a.drop_last();
        assert(items_ok(b)) by { assert forall|i: int| 0 <= i < b.len() implies !((#[trigger] b[i]) is Odd) by { assert(b[i] == a[i]); } }
        lemma_run_items(s, b);
        lemma_run_cat(s, pr_items(b) + seq![Tok::Tilde], pr_part(a.last()));
        lemma_run_cat(s, pr_items(b), seq![Tok::Tilde]);
        let q = Rd { items: s.items + b, ..s };
        lemma_run_one(q, Tok::Tilde);
        lemma_run_part(q, a.last());
        assert((s.items + b).push(a.last()) =~= s.items + a);
    }
}
pub proof fn lemma_run_act(s: Rd, o: Option<Seq<char>>)
    requires calm(s), s.act is None,
    ensures run(s, pr_act(o)) == (Rd { act: o, ..s }),
{
    match o { Some(n) => { lemma_run_two(s, Tok::Gt, Tok::Id(n)); } None => {} }
}
pub proof fn lemma_run_alt(s: Rd, a: Alt)
    requires calm(s), s.items.len() == 0, s.act is None, items_ok(a.items),
    ensures run(s, pr_alt(a)) == (Rd { items: a.items, act: a.act, ..s }),
{
    lemma_run_cat(s, pr_items(a.items), pr_act(a.act));
    lemma_run_items(s, a.items);
    assert(s.items + a.items =~= a.items);
    lemma_run_act(Rd { items: a.items, ..s }, a.act);
}
pub proof fn lemma_run_alts(s: Rd, a: Seq<Alt>)
    requires calm(s), s.alts.len() == 0, s.items.len() == 0, s.act is None, a.len() > 0, alts_ok(a),
    ensures run(s, pr_alts(a)) == (Rd { alts: a.drop_last(), items: a.last().items, act: a.last().act, ..s }),
    decreases a.len(),
{
    assert(items_ok(a[a.len() - 1].items));
    if a.len() == 1 {
        lemma_run_alt(s, a[0]);
        assert(a.drop_last() =~= s.alts);
    } else {
        let b = a.drop_last();
        assert(alts_ok(b)) by { assert forall|j: int| 0 <= j < b.len() implies items_ok((#[trigger] b[j]).items) by { assert(b[j] == a[j]); } }
        lemma_run_alts(s, b);
        let q = Rd { alts: b.drop_last(), items: b.last().items, act: b.last().act, ..s };
        lemma_run_cat(s, pr_alts(b) + seq![Tok::Pipe], pr_alt(a.last()));
        lemma_run_cat(s, pr_alts(b), seq![Tok::Pipe]);
        lemma_run_one(q, Tok::Pipe);
        let r = rd(q, Tok::Pipe);
        assert(r.alts =~= b);
        lemma_run_alt(r, a.last());
    }
}
/// Where there are alternatives the action is theirs.
pub open spec fn plain_line(l: Line) -> Line { if l.alts.len() == 0 { l } else { Line { act: None, ..l } } }
pub open spec fn plain_lines(d: Seq<Line>) -> Seq<Line> { Seq::new(d.len(), |i: int| plain_line(d[i])) }
pub open spec fn plain_decl(d: Decl) -> Decl { match d { Decl::Rule(l) => Decl::Rule(plain_line(l)), Decl::Lexer(ls) => Decl::Lexer(plain_lines(ls)) } }
pub open spec fn plain_doc(d: Seq<Decl>) -> Seq<Decl> { Seq::new(d.len(), |i: int| plain_decl(d[i])) }
pub proof fn lemma_run_line(ds: Seq<Decl>, ls: Seq<Line>, w: bool, l: Line)
    requires alts_ok(l.alts),
    ensures run(rd0(ds, ls, w), pr_line(l)) == put_line(rd0(ds, ls, w), plain_line(l)),
{
    let s = rd0(ds, ls, w);
    let h = seq![Tok::Id(l.lhs), Tok::Is];
    let m = if l.alts.len() == 0 { pr_act(l.act) } else { pr_alts(l.alts) };
    lemma_run_cat(s, h + m, seq![Tok::Semi]);
    lemma_run_cat(s, h, m);
    lemma_run_two(s, Tok::Id(l.lhs), Tok::Is);
    let q = run(s, h);
    assert(calm(q));
    let e = run(q, m);
    lemma_run_one(e, Tok::Semi);
    if l.alts.len() == 0 {
        lemma_run_act(q, l.act);
        assert(l.alts =~= Seq::empty());
        assert(line_of_rd(e) == plain_line(l));
    } else {
        lemma_run_alts(q, l.alts);
        assert(items_ok(l.alts[l.alts.len() - 1].items));
        assert(l.alts.drop_last().push(l.alts.last()) =~= l.alts);
        assert(line_of_rd(e) == plain_line(l));
    }
}
pub proof fn lemma_run_lines(ds: Seq<Decl>, d: Seq<Line>)
    requires forall|i: int| 0 <= i < d.len() ==> alts_ok((#[trigger] d[i]).alts),
    ensures run(rd0(ds, Seq::empty(), true), pr_lines(d)) == rd0(ds, plain_lines(d), true),
    decreases d.len(),
{
    let s = rd0(ds, Seq::empty(), true);
    if d.len() == 0 { assert(plain_lines(d) =~= Seq::empty()); } else {
        let b = d.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies alts_ok((#[trigger] b[i]).alts) by { assert(b[i] == d[i]); }
        lemma_run_lines(ds, b);
        lemma_run_cat(s, pr_lines(b), pr_line(d.last()));
        assert(d.last() == d[d.len() - 1]);
        lemma_run_line(ds, plain_lines(b), true, d.last());
        assert(plain_lines(b).push(plain_line(d.last())) =~= plain_lines(d));
    }
}
pub proof fn lemma_run_decl(ds: Seq<Decl>, x: Decl)
    requires decl_ok(x),
    ensures run(rd0(ds, Seq::empty(), false), pr_decl(x)) == rd0(ds.push(plain_decl(x)), Seq::empty(), false),
{
    let s = rd0(ds, Seq::empty(), false);
    match x {
        Decl::Rule(l) => { lemma_run_line(ds, Seq::empty(), false, l); }
        Decl::Lexer(ls) => {
            let h = seq![Tok::Kw, Tok::LBrace];
            lemma_run_cat(s, h + pr_lines(ls), seq![Tok::RBrace]);
            lemma_run_cat(s, h, pr_lines(ls));
            lemma_run_two(s, Tok::Kw, Tok::LBrace);
            lemma_run_lines(ds, ls);
            lemma_run_one(rd0(ds, plain_lines(ls), true), Tok::RBrace);
        }
    }
}
pub proof fn lemma_run_doc(d: Seq<Decl>)
    requires forall|i: int| 0 <= i < d.len() ==> decl_ok(#[trigger] d[i]),
    ensures run(rd0(Seq::empty(), Seq::empty(), false), pr_doc(d)) == rd0(plain_doc(d), Seq::empty(), false),
    decreases d.len(),
{
    let s = rd0(Seq::empty(), Seq::empty(), false);
    if d.len() == 0 { assert(plain_doc(d) =~= Seq::empty()); } else {
        let b = d.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies decl_ok(#[trigger] b[i]) by { assert(b[i] == d[i]); }
        lemma_run_doc(b);
        lemma_run_cat(s, pr_doc(b), pr_decl(d.last()));
        assert(d.last() == d[d.len() - 1]);
        lemma_run_decl(plain_doc(b), d.last());
        assert(plain_doc(b).push(plain_decl(d.last())) =~= plain_doc(d));
    }
}
pub proof fn lemma_plain_lines(d: Seq<Line>)
    ensures fl_lines(plain_lines(d)) == fl_lines(d),
    decreases d.len(),
{
    if d.len() > 0 {
        lemma_plain_lines(d.drop_last());
        assert(plain_lines(d).drop_last() =~= plain_lines(d.drop_last()));
        assert(fl_line(plain_line(d.last())) =~= fl_line(d.last()));
    }
}
pub proof fn lemma_plain_doc(d: Seq<Decl>, inner: bool)
    ensures fl_doc(plain_doc(d), inner) == fl_doc(d, inner),
    decreases d.len(),
{
    if d.len() > 0 {
        lemma_plain_doc(d.drop_last(), inner);
        assert(plain_doc(d).drop_last() =~= plain_doc(d.drop_last()));
        match d.last() { Decl::Rule(l) => { assert(fl_line(plain_line(l)) =~= fl_line(l)); } Decl::Lexer(ls) => { lemma_plain_lines(ls); } }
        assert(fl_decl(plain_decl(d.last()), inner) == fl_decl(d.last(), inner));
    }
}
/// A text means one sequence of rules outside lexers, and one inside.
pub proof fn lemma_one_meaning(ts: Seq<Tok>, d: Seq<Decl>, e: Seq<Decl>)
    requires written(d, ts), written(e, ts),
    ensures fl_doc(d, false) == fl_doc(e, false), fl_doc(d, true) == fl_doc(e, true), all_rules(d) == all_rules(e), outer(d) == outer(e), flawed(d) == flawed(e),
{
    lemma_run_doc(d);
    lemma_run_doc(e);
    assert(plain_doc(d) == plain_doc(e));
    lemma_plain_doc(d, false); lemma_plain_doc(e, false);
    lemma_plain_doc(d, true); lemma_plain_doc(e, true);
    assert forall|i: int, j: int| shared_at(d, i, j) == #[trigger] shared_at(e, i, j) by { }
    assert forall|i: int, k: int| bad_at(d, i, k) == #[trigger] bad_at(e, i, k) by { }
    if flawed(d) { if exists|i: int, j: int| #[trigger] shared_at(d, i, j) { let (i, j) = choose|i: int, j: int| #[trigger] shared_at(d, i, j); assert(shared_at(e, i, j)); } else { let (i, j) = choose|i: int, j: int| #[trigger] bad_at(d, i, j); assert(bad_at(e, i, j)); } }
    if flawed(e) { if exists|i: int, j: int| #[trigger] shared_at(e, i, j) { let (i, j) = choose|i: int, j: int| #[trigger] shared_at(e, i, j); assert(shared_at(d, i, j)); } else { let (i, j) = choose|i: int, j: int| #[trigger] bad_at(e, i, j); assert(bad_at(d, i, j)); } }
}
/// No text is both: loaded, and refused.
pub proof fn lemma_not_both(s: Seq<char>, d: Seq<Decl>, e: LoadError)
    requires stuck(s, 0) is None, written(d, tks(lex(s, 0))), !flawed(d),
    ensures !refused(s, e),
{
    let w = tks(lex(s, 0));
    assert forall|k: int| !#[trigger] dead_at(s, k) by {
        if 0 <= k < lex(s, 0).len() {
            assert(doc_begins(d, w.take(k + 1)));
            assert(viable(w.take(k + 1)));
        }
    }
    if exists|f: Seq<Decl>| #[trigger] written(f, w) && flawed(f) {
        let f = choose|f: Seq<Decl>| #[trigger] written(f, w) && flawed(f);
        lemma_one_meaning(w, d, f);
    }
}
