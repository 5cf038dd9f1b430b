// G23: texts have one meaning; a printed grammar.
// ---- what tokens say, read from the left
pub ghost struct Rd { pub doc: Seq<Line>, pub lhs: Seq<char>, pub open: bool, pub alts: Seq<Seq<Pt>>, pub alt: Seq<Pt> }
pub open spec fn rd0(d: Seq<Line>) -> Rd { Rd { doc: d, lhs: Seq::empty(), open: false, alts: Seq::empty(), alt: Seq::empty() } }
pub open spec fn again(a: Seq<Pt>, r: Rp) -> Seq<Pt> { match a.last() { Pt::Name(f) => a.drop_last().push(Pt::Name(Fr { name: f.name, rep: r })), Pt::Unit => a } }
pub open spec fn rd(s: Rd, t: Tok) -> Rd {
    match t {
        Tok::Id(n) => if s.open { Rd { alt: s.alt.push(Pt::Name(Fr { name: n, rep: Rp::Once })), ..s } } else { Rd { lhs: n, open: true, ..s } },
        Tok::Is => s,
        Tok::Semi => rd0(s.doc.push(Line { lhs: s.lhs, alts: if s.alts.len() == 0 && s.alt.len() == 0 { Seq::empty() } else { s.alts.push(s.alt) } })),
        Tok::Pipe => Rd { alts: s.alts.push(s.alt), alt: Seq::empty(), ..s },
        Tok::Plus => Rd { alt: again(s.alt, Rp::Plus), ..s },
        Tok::Star => Rd { alt: again(s.alt, Rp::Star), ..s },
        Tok::Open => s,
        Tok::Close => Rd { alt: s.alt.push(Pt::Unit), ..s },
    }
}
pub open spec fn run(s: Rd, ts: Seq<Tok>) -> Rd
    decreases ts.len(),
{
    if ts.len() == 0 { s } else { rd(run(s, ts.drop_last()), ts.last()) }
}
pub proof fn lemma_run_cat(s: Rd, a: Seq<Tok>, b: Seq<Tok>)
    ensures run(s, a + b) == run(run(s, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_run_cat(s, a, b.drop_last());
    }
}
pub proof fn lemma_run_one(s: Rd, t: Tok)
    ensures run(s, seq![t]) == rd(s, t),
{
    assert(seq![t].drop_last() =~= Seq::empty());
    assert(run(s, Seq::empty()) == s);
    assert(seq![t].last() == t);
}
pub proof fn lemma_run_part(s: Rd, p: Pt)
    requires s.open,
    ensures run(s, pr_part(p)) == (Rd { alt: s.alt.push(p), ..s }),
{
    match p {
        Pt::Unit => {
            assert(seq![Tok::Open, Tok::Close] =~= seq![Tok::Open] + seq![Tok::Close]);
            lemma_run_cat(s, seq![Tok::Open], seq![Tok::Close]);
            lemma_run_one(s, Tok::Open);
            lemma_run_one(s, Tok::Close);
        }
        Pt::Name(f) => {
            lemma_run_cat(s, seq![Tok::Id(f.name)], pr_rep(f.rep));
            lemma_run_one(s, Tok::Id(f.name));
            let q = rd(s, Tok::Id(f.name));
            assert(q.alt.drop_last() =~= s.alt);
            match f.rep { Rp::Once => {} Rp::Plus => { lemma_run_one(q, Tok::Plus); } Rp::Star => { lemma_run_one(q, Tok::Star); } }
        }
    }
}
pub proof fn lemma_run_alt(s: Rd, a: Seq<Pt>)
    requires s.open,
    ensures run(s, pr_alt(a)) == (Rd { alt: s.alt + a, ..s }),
    decreases a.len(),
{
    if a.len() == 0 { assert(s.alt + a =~= s.alt); } else {
        lemma_run_alt(s, a.drop_last());
        lemma_run_cat(s, pr_alt(a.drop_last()), pr_part(a.last()));
        lemma_run_part(Rd { alt: s.alt + a.drop_last(), ..s }, a.last());
        assert((s.alt + a.drop_last()).push(a.last()) =~= s.alt + a);
    }
}
pub proof fn lemma_run_alts(s: Rd, a: Seq<Seq<Pt>>)
    requires s.open, s.alts.len() == 0, s.alt.len() == 0, a.len() > 0,
    ensures run(s, pr_alts(a)) == (Rd { alts: a.drop_last(), alt: a.last(), ..s }),
    decreases a.len(),
{
    if a.len() == 1 {
        lemma_run_alt(s, a[0]);
        assert(s.alt + a[0] =~= a[0]);
        assert(a.drop_last() =~= s.alts);
    } else {
        let b = a.drop_last();
        lemma_run_alts(s, b);
        let q = Rd { alts: b.drop_last(), alt: b.last(), ..s };
        lemma_run_cat(s, pr_alts(b) + seq![Tok::Pipe], pr_alt(a.last()));
        lemma_run_cat(s, pr_alts(b), seq![Tok::Pipe]);
        lemma_run_one(q, Tok::Pipe);
        let r = rd(q, Tok::Pipe);
        assert(r.alts =~= b);
        lemma_run_alt(r, a.last());
        assert(r.alt + a.last() =~= a.last());
    }
}
pub proof fn lemma_run_line(d: Seq<Line>, l: Line)
    requires alts_ok(l.alts),
    ensures run(rd0(d), pr_line(l)) == rd0(d.push(l)),
{
    let s = rd0(d);
    let h = seq![Tok::Id(l.lhs)];
    assert(seq![Tok::Id(l.lhs), Tok::Is] =~= h + seq![Tok::Is]);
    lemma_run_cat(s, h + seq![Tok::Is] + pr_alts(l.alts), seq![Tok::Semi]);
    lemma_run_cat(s, h + seq![Tok::Is], pr_alts(l.alts));
    lemma_run_cat(s, h, seq![Tok::Is]);
    lemma_run_one(s, Tok::Id(l.lhs));
    let q = rd(s, Tok::Id(l.lhs));
    lemma_run_one(q, Tok::Is);
    let e = run(q, pr_alts(l.alts));
    lemma_run_one(e, Tok::Semi);
    if l.alts.len() == 0 {
        assert(e == q);
        assert(l.alts =~= Seq::empty());
    } else {
        lemma_run_alts(q, l.alts);
        assert(l.alts[l.alts.len() - 1].len() > 0);
        assert(l.alts.drop_last().push(l.alts.last()) =~= l.alts);
    }
}
pub proof fn lemma_run_doc(d: Seq<Line>)
    requires forall|i: int| 0 <= i < d.len() ==> alts_ok((#[trigger] d[i]).alts),
    ensures run(rd0(Seq::empty()), pr_doc(d)) == rd0(d),
    decreases d.len(),
{
    if d.len() == 0 { assert(d =~= Seq::empty()); } else {
        assert forall|i: int| 0 <= i < d.drop_last().len() implies alts_ok((#[trigger] d.drop_last()[i]).alts) by { assert(d.drop_last()[i] == d[i]); }
        lemma_run_doc(d.drop_last());
        lemma_run_cat(rd0(Seq::empty()), pr_doc(d.drop_last()), pr_line(d.last()));
        assert(d.last() == d[d.len() - 1]);
        lemma_run_line(d.drop_last(), d.last());
        assert(d.drop_last().push(d.last()) =~= d);
    }
}
/// A text says one thing only.
pub proof fn lemma_one_meaning(ts: Seq<Tok>, d: Seq<Line>, e: Seq<Line>)
    requires written(d, ts), written(e, ts),
    ensures d == e,
{
    lemma_run_doc(d);
    lemma_run_doc(e);
}
// ---- a grammar as a document
/// How a symbol is shown.
pub uninterp spec fn shown(src: SymbolSource, s: Symbol) -> Seq<char>;
pub open spec fn ident(n: Seq<char>) -> bool { n.len() > 0 && letter(n[0]) && forall|i: int| 0 <= i < n.len() ==> name_char(#[trigger] n[i]) }
pub open spec fn id_pt(src: SymbolSource, s: Symbol) -> Pt { Pt::Name(Fr { name: shown(src, s), rep: Rp::Once }) }
pub open spec fn id_alt(src: SymbolSource, u: Seq<Symbol>) -> Seq<Pt> { Seq::new(u.len(), |i: int| id_pt(src, u[i])) }
pub open spec fn line_for(src: SymbolSource, r: CfgRule) -> Line { Line { lhs: shown(src, r.lhs), alts: if r.rhs@.len() == 0 { Seq::empty() } else { seq![id_alt(src, r.rhs@)] } } }
pub open spec fn doc_for(src: SymbolSource, rs: Seq<CfgRule>) -> Seq<Line> { Seq::new(rs.len(), |i: int| line_for(src, rs[i])) }
pub open spec fn in_use(rs: Seq<CfgRule>, s: Symbol) -> bool { exists|i: int| 0 <= i < rs.len() && ((#[trigger] rs[i]).lhs == s || rs[i].rhs@.contains(s)) }
/// Symbols in rules have identifiers for names.
pub open spec fn named_well(src: SymbolSource, rs: Seq<CfgRule>) -> bool { forall|s: Symbol| #[trigger] in_use(rs, s) ==> ident(shown(src, s)) }
/// Different ones have different names.
pub open spec fn named_apart(src: SymbolSource, rs: Seq<CfgRule>) -> bool {
    forall|s: Symbol, t: Symbol| #[trigger] in_use(rs, s) && #[trigger] in_use(rs, t) && shown(src, s) == shown(src, t) ==> s == t
}
// ---- lexing what is put together
/// What ends here does not go on with a name.
pub open spec fn closed(a: Seq<char>) -> bool { a.len() == 0 || !name_char(a.last()) }
pub proof fn lemma_one_cat(a: Seq<char>, b: Seq<char>)
    requires a.len() > 0, closed(a), one(a) is Some,
    ensures one(a + b) == one(a),
{
    let s = a + b;
    assert(s[0] == a[0]);
    if letter(a[0]) {
        let r = a.skip(1);
        lemma_name_len(r);
        let k = name_len(r) as int;
        assert(a.len() > 1) by { if a.len() == 1 { assert(a.last() == a[0]); } }
        assert(r[r.len() - 1] == a.last());
        assert(k < r.len());
        let q = s.skip(1);
        assert forall|i: int| 0 <= i < k implies name_char(#[trigger] q[i]) by { assert(q[i] == r[i]); }
        assert(q[k] == r[k]);
        lemma_name_ends(q, k);
        assert(s.take(1 + k) =~= a.take(1 + k));
    }
}
pub proof fn lemma_lex_cat(a: Seq<char>, b: Seq<char>)
    requires closed(a), lex(a) is Some, lex(b) is Some,
    ensures lex(a + b) == Some(lex(a).unwrap() + lex(b).unwrap()),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(lex(a).unwrap() + lex(b).unwrap() =~= lex(b).unwrap());
    } else {
        lemma_one_cat(a, b);
        lemma_one_tok(a);
        let x = one(a).unwrap();
        let r = a.skip(x.1 as int);
        assert((a + b).skip(x.1 as int) =~= r + b);
        assert(closed(r)) by { if r.len() > 0 { assert(r.last() == a.last()); } }
        lemma_lex_cat(r, b);
        assert(opt_tok(x.0) + lex(r).unwrap() + lex(b).unwrap() =~= opt_tok(x.0) + (lex(r).unwrap() + lex(b).unwrap()));
    }
}
/// A name, and something that is no part of it.
pub proof fn lemma_lex_name(n: Seq<char>, b: Seq<char>)
    requires ident(n), b.len() > 0, !name_char(b[0]), lex(b) is Some,
    ensures lex(n + b) == Some(seq![Tok::Id(n)] + lex(b).unwrap()),
{
    let s = n + b;
    assert(s[0] == n[0]);
    let q = s.skip(1);
    let k = n.len() - 1;
    assert forall|i: int| 0 <= i < k implies name_char(#[trigger] q[i]) by { assert(q[i] == n[i + 1]); }
    assert(q[k] == b[0]);
    lemma_name_ends(q, k);
    assert(s.take(1 + k) =~= n);
    assert(s.skip(1 + k) =~= b);
}
pub proof fn lemma_lex_step(s: Seq<char>, k: nat, t: Option<Tok>)
    requires s.len() > 0, one(s) == Some((t, k)), lex(s.skip(k as int)) is Some,
    ensures lex(s) == Some(opt_tok(t) + lex(s.skip(k as int)).unwrap()),
{ }
pub proof fn lemma_lex_bits()
    ensures
        lex(seq![' ']) == Some(Seq::<Tok>::empty()), lex(seq!['\n']) == Some(Seq::<Tok>::empty()),
        lex(seq![';', '\n']) == Some(seq![Tok::Semi]),
        lex(seq![' ', ':', ':', '=', ' ']) == Some(seq![Tok::Is]),
{
    let e = Seq::<char>::empty();
    assert(lex(e) == Some(Seq::<Tok>::empty()));
    let a = seq![' ']; assert(a.skip(1) =~= e); lemma_lex_step(a, 1, None); assert(opt_tok(None) + Seq::<Tok>::empty() =~= Seq::<Tok>::empty());
    let n = seq!['\n']; assert(n.skip(1) =~= e); lemma_lex_step(n, 1, None);
    let c = seq![';', '\n']; assert(c.skip(1) =~= n); lemma_lex_step(c, 1, Some(Tok::Semi)); assert(opt_tok(Some(Tok::Semi)) + Seq::<Tok>::empty() =~= seq![Tok::Semi]);
    let d = seq![':', ':', '=', ' ']; assert(d.skip(3) =~= a); lemma_lex_step(d, 3, Some(Tok::Is)); assert(opt_tok(Some(Tok::Is)) + Seq::<Tok>::empty() =~= seq![Tok::Is]);
    let f = seq![' ', ':', ':', '=', ' ']; assert(f.skip(1) =~= d); lemma_lex_step(f, 1, None); assert(opt_tok(None) + seq![Tok::Is] =~= seq![Tok::Is]);
}
// ---- the text of a rule
/// Names, each with a blank.
pub open spec fn spaced(src: SymbolSource, u: Seq<Symbol>) -> Seq<char>
    decreases u.len(),
{
    if u.len() == 0 { Seq::empty() } else { spaced(src, u.drop_last()) + shown(src, u.last()) + seq![' '] }
}
pub open spec fn wells(src: SymbolSource, u: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < u.len() ==> ident(shown(src, #[trigger] u[i])) }
pub proof fn lemma_spaced(src: SymbolSource, u: Seq<Symbol>)
    requires wells(src, u),
    ensures lex(spaced(src, u)) == Some(pr_alt(id_alt(src, u))), closed(spaced(src, u)),
    decreases u.len(),
{
    if u.len() > 0 {
        let v = u.drop_last();
        assert(wells(src, v)) by { assert forall|i: int| 0 <= i < v.len() implies ident(shown(src, #[trigger] v[i])) by { assert(v[i] == u[i]); } }
        lemma_spaced(src, v);
        lemma_lex_bits();
        let n = shown(src, u.last());
        assert(u.last() == u[u.len() - 1]);
        lemma_lex_name(n, seq![' ']);
        let t = n + seq![' '];
        lemma_lex_cat(spaced(src, v), t);
        assert(spaced(src, u) =~= spaced(src, v) + t);
        let a = id_alt(src, u);
        assert(a.drop_last() =~= id_alt(src, v));
        assert(pr_part(a.last()) =~= seq![Tok::Id(n)] + Seq::<Tok>::empty());
    } else {
        assert(id_alt(src, u) =~= Seq::empty());
    }
}
/// The right-hand side, without blanks at its ends, or with them.
pub open spec fn cut(src: SymbolSource, u: Seq<Symbol>, t: Seq<char>) -> bool { t == spaced(src, u) || (u.len() > 0 && t == spaced(src, u).drop_last()) }
pub proof fn lemma_cut(src: SymbolSource, u: Seq<Symbol>, t: Seq<char>)
    requires wells(src, u), cut(src, u, t),
    ensures lex(t + seq![';', '\n']) == Some(pr_alt(id_alt(src, u)) + seq![Tok::Semi]),
{
    lemma_lex_bits();
    let e = seq![';', '\n'];
    lemma_spaced(src, u);
    if t == spaced(src, u) {
        lemma_lex_cat(t, e);
    } else {
        let v = u.drop_last();
        assert(wells(src, v)) by { assert forall|i: int| 0 <= i < v.len() implies ident(shown(src, #[trigger] v[i])) by { assert(v[i] == u[i]); } }
        lemma_spaced(src, v);
        let n = shown(src, u.last());
        assert(u.last() == u[u.len() - 1]);
        assert(t =~= spaced(src, v) + n);
        lemma_lex_name(n, e);
        lemma_lex_cat(spaced(src, v), n + e);
        assert(t + e =~= spaced(src, v) + (n + e));
        let a = id_alt(src, u);
        assert(a.drop_last() =~= id_alt(src, v));
        assert(pr_part(a.last()) =~= seq![Tok::Id(n)] + Seq::<Tok>::empty());
        assert(pr_alt(id_alt(src, v)) + (seq![Tok::Id(n)] + seq![Tok::Semi]) =~= pr_alt(a) + seq![Tok::Semi]);
    }
}
pub open spec fn row(src: SymbolSource, r: CfgRule, t: Seq<char>) -> Seq<char> { shown(src, r.lhs) + seq![' ', ':', ':', '=', ' '] + t + seq![';', '\n'] }
pub proof fn lemma_assoc4<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>, d: Seq<A>)
    ensures a + b + c + d == a + (b + (c + d)),
{
    assert(a + b + c + d =~= a + (b + (c + d)));
}
pub proof fn lemma_line_toks(l: Line, a: Seq<Tok>)
    requires pr_alts(l.alts) == a,
    ensures seq![Tok::Id(l.lhs)] + (seq![Tok::Is] + (a + seq![Tok::Semi])) == pr_line(l),
{
    lemma_assoc4(seq![Tok::Id(l.lhs)], seq![Tok::Is], a, seq![Tok::Semi]);
    assert(seq![Tok::Id(l.lhs)] + seq![Tok::Is] =~= seq![Tok::Id(l.lhs), Tok::Is]);
}
/// A name, something that starts with a blank, and the rest.
pub proof fn lemma_lex_four(n: Seq<char>, is: Seq<char>, t: Seq<char>, e: Seq<char>, x: Seq<Tok>, y: Seq<Tok>)
    requires ident(n), is.len() > 0, is[0] == ' ', closed(is), lex(is) == Some(x), lex(t + e) == Some(y), e.len() > 0, closed(e),
    ensures lex(n + is + t + e) == Some(seq![Tok::Id(n)] + (x + y)), closed(n + is + t + e),
{
    hide(lex);
    let te = t + e;
    lemma_lex_cat(is, te);
    let ite = is + te;
    assert(ite[0] == is[0]);
    lemma_lex_name(n, ite);
    lemma_assoc4(n, is, t, e);
    assert((n + is + t + e).last() == e.last());
}
pub proof fn lemma_row_alts(src: SymbolSource, r: CfgRule)
    ensures pr_alts(line_for(src, r).alts) == pr_alt(id_alt(src, r.rhs@)),
{
    let u = r.rhs@;
    let l = line_for(src, r);
    if u.len() == 0 { assert(id_alt(src, u) =~= Seq::empty()); assert(pr_alts(l.alts) =~= pr_alt(id_alt(src, u))); } else { assert(l.alts[0] == id_alt(src, u)); assert(pr_alts(l.alts) == pr_alt(id_alt(src, u))); }
}
pub proof fn lemma_row(src: SymbolSource, r: CfgRule, t: Seq<char>)
    requires wells(src, r.rhs@), ident(shown(src, r.lhs)), cut(src, r.rhs@, t),
    ensures lex(row(src, r, t)) == Some(pr_line(line_for(src, r))), closed(row(src, r, t)),
{
    hide(lex); hide(pr_alt); hide(pr_alts); hide(cut); hide(wells); hide(ident); hide(id_alt); hide(pr_line);
    let u = r.rhs@;
    let n = shown(src, r.lhs);
    let is = seq![' ', ':', ':', '=', ' '];
    let e = seq![';', '\n'];
    lemma_lex_bits();
    lemma_cut(src, u, t);
    lemma_ends(is, e);
    let a = pr_alt(id_alt(src, u));
    lemma_lex_four(n, is, t, e, seq![Tok::Is], a + seq![Tok::Semi]);
    lemma_row_alts(src, r);
    lemma_line_toks(line_for(src, r), a);
}
pub proof fn lemma_ends(is: Seq<char>, e: Seq<char>)
    requires is == seq![' ', ':', ':', '=', ' '], e == seq![';', '\n'],
    ensures is.len() > 0, is[0] == ' ', closed(is), e.len() > 0, closed(e),
{
    assert(is.last() == ' ');
    assert(e.last() == '\n');
}
// ---- TRUSTED: texts put together; `name_of` as what is shown (decided under G01); `trim`.
#[verifier::external_body]
pub fn vx_shown(c: &Cfg, s: Symbol) -> (r: String)
    ensures r@ == shown(c.sym_source, s),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_put(t: &mut String, s: &String)
    ensures final(t)@ == old(t)@ + s@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_put_str(t: &mut String, s: &str)
    ensures final(t)@ == old(t)@ + s@,
{ unimplemented!() }
/// White space, of which a blank is, and characters of names are not.
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn whites(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> white(#[trigger] s[i]) }
#[verifier::external_body]
pub proof fn lemma_white()
    ensures white(' '), forall|c: char| #[trigger] name_char(c) ==> !white(c),
{ }
pub open spec fn trims(s: Seq<char>, t: Seq<char>, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len() && t == s.subrange(a, b) && whites(s.take(a)) && whites(s.skip(b))
    &&& t.len() > 0 ==> !white(t[0]) && !white(t.last())
}
#[verifier::external_body]
pub fn vx_trim(s: &String) -> (r: String)
    ensures exists|a: int, b: int| #[trigger] trims(s@, r@, a, b),
{ unimplemented!() }
pub proof fn lemma_trim(src: SymbolSource, u: Seq<Symbol>, t: Seq<char>, a: int, b: int)
    requires wells(src, u), trims(spaced(src, u), t, a, b),
    ensures cut(src, u, t),
{
    let s = spaced(src, u);
    lemma_white();
    if u.len() == 0 {
        assert(t =~= s);
    } else {
        let v = u.drop_last();
        let n = shown(src, u.last());
        assert(u.last() == u[u.len() - 1]);
        lemma_first(src, u);
        assert(!white(s[0]));
        assert(a == 0) by { if a > 0 { assert(s.take(a)[0] == s[0]); } }
        assert(s[s.len() - 1] == ' ');
        let k = s.len() - 2;
        assert(s[k] == n.last());
        assert(n.last() == n[n.len() - 1]);
        assert(b > k) by { if b <= k { assert(s.skip(b)[k - b] == s[k]); } }
        assert(t.last() == s[b - 1]);
        assert(b == k + 1);
        assert(t =~= s.drop_last());
    }
}
pub proof fn lemma_first(src: SymbolSource, u: Seq<Symbol>)
    requires wells(src, u), u.len() > 0,
    ensures name_char(spaced(src, u)[0]), spaced(src, u).len() >= 2,
    decreases u.len(),
{
    let v = u.drop_last();
    let n = shown(src, u.last());
    assert(u.last() == u[u.len() - 1]);
    assert(ident(n));
    if v.len() > 0 {
        assert(wells(src, v)) by { assert forall|i: int| 0 <= i < v.len() implies ident(shown(src, #[trigger] v[i])) by { assert(v[i] == u[i]); } }
        lemma_first(src, v);
        assert(spaced(src, u)[0] == spaced(src, v)[0]);
    } else {
        assert(spaced(src, u)[0] == n[0]);
    }
}
pub proof fn lemma_doc_push(src: SymbolSource, rs: Seq<CfgRule>, k: int, x: Seq<char>, t: Seq<char>)
    requires named_well(src, rs), 0 <= k < rs.len(), closed(x), lex(x) == Some(pr_doc(doc_for(src, rs.take(k)))), cut(src, rs[k].rhs@, t),
    ensures closed(x + row(src, rs[k], t)), lex(x + row(src, rs[k], t)) == Some(pr_doc(doc_for(src, rs.take(k + 1)))),
{
    let r = rs[k];
    lemma_well(src, rs, k);
    lemma_row(src, r, t);
    lemma_lex_cat(x, row(src, r, t));
    let d = doc_for(src, rs.take(k + 1));
    assert(d.drop_last() =~= doc_for(src, rs.take(k)));
    assert(d.last() == line_for(src, r));
    assert((x + row(src, r, t)).last() == row(src, r, t).last());
}
pub proof fn lemma_well(src: SymbolSource, rs: Seq<CfgRule>, k: int)
    requires named_well(src, rs), 0 <= k < rs.len(),
    ensures wells(src, rs[k].rhs@), ident(shown(src, rs[k].lhs)),
{
    let r = rs[k];
    assert(in_use(rs, r.lhs));
    assert forall|i: int| 0 <= i < r.rhs@.len() implies ident(shown(src, #[trigger] r.rhs@[i])) by { assert(r.rhs@.contains(r.rhs@[i])); assert(in_use(rs, r.rhs@[i])); }
}
//@fn cfg-load/src/basic.rs CfgLoadExt for Cfg::to_bnf
//@name vx_to_bnf
//@free
//@loops for for
//@sig &self => vx_self: &Cfg
//@rewrite_opt self => vx_self
//@rewrite_opt write!($x, "{} ", $$a).unwrap(); => { let vx_n = $$a; vx_put(&mut $x, &vx_n); vx_put_str(&mut $x, " "); }
//@rewrite_opt writeln!($x, "{} ::= {};", $$a, $$b).unwrap(); => let vx_n = $$a; let vx_t = $$b; vx_put(&mut $x, &vx_n); vx_put_str(&mut $x, " ::= "); vx_put(&mut $x, &vx_t); vx_put_str(&mut $x, ";\n");
//@rewrite_opt $x.trim() => vx_trim(&$x)
//@rewrite_opt vx_self.sym_source().name_of($$s) => vx_shown(vx_self, $$s)
//@rewrite_opt vx_self.rules() => &vx_self.rules
//@rewrite_opt &rule.rhs[..] => &rule.rhs
    ensures named_well(vx_self.sym_source, vx_self.rules@) ==> lex(ret@) == Some(pr_doc(doc_for(vx_self.sym_source, vx_self.rules@))),
//@at begin
    let ghost src = vx_self.sym_source;
    let ghost rs = vx_self.rules@;
    proof { reveal_strlit(" "); reveal_strlit(" ::= "); reveal_strlit(";\n"); assert(" "@ =~= seq![' ']); assert(" ::= "@ =~= seq![' ', ':', ':', '=', ' ']); assert(";\n"@ =~= seq![';', '\n']); }
//@at loop0.pre
    proof { assert(rs.take(0) =~= Seq::empty()); assert(doc_for(src, rs.take(0)) =~= Seq::empty()); }
//@loop 0
    invariant
        src == vx_self.sym_source, rs == vx_self.rules@, __s0@ == rs, __i0 <= rs.len(),
        " "@ == seq![' '], " ::= "@ == seq![' ', ':', ':', '=', ' '], ";\n"@ == seq![';', '\n'],
        named_well(src, rs) ==> closed(result@) && lex(result@) == Some(pr_doc(doc_for(src, rs.take(__i0 as int)))),
    decreases __s0.len() - __i0,
//@at loop0.begin
    let ghost k = __i0 as int - 1;
    let ghost x = result@;
//@at loop1.pre
    proof { assert(rs[k].rhs@.take(0) =~= Seq::empty()); }
//@loop 1
    invariant
        src == vx_self.sym_source, rs == vx_self.rules@, 0 <= k < rs.len(), __s1@ == rs[k].rhs@, __i1 <= __s1@.len(), " "@ == seq![' '],
        rhs@ == spaced(src, rs[k].rhs@.take(__i1 as int)),
    decreases __s1.len() - __i1,
//@at loop1.begin
    proof {
        let u = rs[k].rhs@;
        let i = __i1 as int - 1;
        assert(u.take(i + 1).drop_last() =~= u.take(i));
        assert(u.take(i + 1).last() == u[i]);
    }
//@at loop1.post
    let ghost sp = rhs@;
    proof { assert(rs[k].rhs@.take(rs[k].rhs@.len() as int) =~= rs[k].rhs@); }
//@at loop0.end
    proof {
        let r = rs[k];
        let u = r.rhs@;
        let n = shown(src, r.lhs);
        assert(result@.len() >= x.len() + n.len() + 7);
        let t = result@.subrange((x.len() + n.len() + 5) as int, (result@.len() - 2) as int);
        assert(result@ =~= x + row(src, r, t));
        if named_well(src, rs) {
            lemma_well(src, rs, k);
            assert(cut(src, u, t)) by {
                assert(t =~= vx_t@);
                assert forall|a: int, b: int| trims(sp, t, a, b) implies cut(src, u, t) by { lemma_trim(src, u, t, a, b); }
            }
            lemma_doc_push(src, rs, k, x, t);
        }
    }
//@at loop0.post
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@end
