// G23: the tokens of a BNF text (cfg-load).
//@include vxchars.vrs
//@struct cfg-load/src/basic.rs Token
//@struct cfg-load/src/basic.rs Lexer
//@ty Chars<'a> => VxChars<'a>
// ---- the tokens of a text
pub ghost enum Tok { Id(Seq<char>), Is, Semi, Pipe, Plus, Star, Open, Close }
pub open spec fn letter(c: char) -> bool { 97 <= (c as u32) <= 122 || 65 <= (c as u32) <= 90 || c == '_' }
pub open spec fn name_char(c: char) -> bool { letter(c) || 48 <= (c as u32) <= 57 }
/// How many characters at the beginning belong to a name.
pub open spec fn name_len(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 || !name_char(s[0]) { 0 } else { 1 + name_len(s.skip(1)) }
}
/// The first token, if it is not a blank, and its length. None if the text does not begin with a token.
pub open spec fn one(s: Seq<char>) -> Option<(Option<Tok>, nat)> {
    let c = s[0];
    if letter(c) { Some((Some(Tok::Id(s.take(1 + name_len(s.skip(1)) as int))), 1 + name_len(s.skip(1)))) }
    else if c == ':' { if s.len() >= 3 && s[1] == ':' && s[2] == '=' { Some((Some(Tok::Is), 3)) } else { None } }
    else if c == ';' { Some((Some(Tok::Semi), 1)) }
    else if c == '|' { Some((Some(Tok::Pipe), 1)) }
    else if c == '+' { Some((Some(Tok::Plus), 1)) }
    else if c == '*' { Some((Some(Tok::Star), 1)) }
    else if c == '(' { Some((Some(Tok::Open), 1)) }
    else if c == ')' { Some((Some(Tok::Close), 1)) }
    else if c == ' ' || c == '\n' || c == '\t' { Some((None, 1)) }
    else { None }
}
pub open spec fn opt_tok(t: Option<Tok>) -> Seq<Tok> { match t { Some(x) => seq![x], None => Seq::empty() } }
pub proof fn lemma_name_len(s: Seq<char>)
    ensures name_len(s) <= s.len(), forall|i: int| 0 <= i < name_len(s) ==> name_char(#[trigger] s[i]), name_len(s) < s.len() ==> !name_char(s[name_len(s) as int]),
    decreases s.len(),
{
    if s.len() > 0 && name_char(s[0]) {
        lemma_name_len(s.skip(1));
        assert forall|i: int| 0 <= i < name_len(s) implies name_char(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if name_len(s) < s.len() { assert(s.skip(1)[name_len(s) - 1] == s[name_len(s) as int]); }
    }
}
/// A name ends where the first other character is.
pub proof fn lemma_name_ends(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> name_char(#[trigger] s[i]), k < s.len() ==> !name_char(s[k]),
    ensures name_len(s) == k,
    decreases s.len(),
{
    if k > 0 {
        assert(name_char(s[0]));
        let r = s.skip(1);
        assert forall|i: int| 0 <= i < k - 1 implies name_char(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        lemma_name_ends(r, k - 1);
    }
}
pub proof fn lemma_one_tok(s: Seq<char>)
    requires s.len() > 0,
    ensures one(s) matches Some(x) ==> 1 <= x.1 <= s.len(),
{
    lemma_name_len(s.skip(1));
}
/// The tokens of a text, if it consists of tokens and blanks.
pub open spec fn lex(s: Seq<char>) -> Option<Seq<Tok>>
    decreases s.len(),
    via lex_ends
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match one(s) {
            None => None,
            Some(x) => match lex(s.skip(x.1 as int)) { None => None, Some(r) => Some(opt_tok(x.0) + r) },
        }
    }
}
#[via_fn]
proof fn lex_ends(s: Seq<char>) { if s.len() > 0 { lemma_one_tok(s); } }
/// Where the text stops to consist of tokens and blanks.
pub open spec fn stuck(s: Seq<char>) -> int
    decreases s.len(),
    via stuck_ends
{
    if s.len() == 0 { 0 } else { match one(s) { None => 0, Some(x) => x.1 + stuck(s.skip(x.1 as int)) } }
}
#[via_fn]
proof fn stuck_ends(s: Seq<char>) { if s.len() > 0 { lemma_one_tok(s); } }
/// The line of what comes next.
pub open spec fn line_of(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 1 } else { line_of(s.drop_last()) + if s.last() == '\n' { 1nat } else { 0 } }
}
pub open spec fn col_of(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 || s.last() == '\n' { 1 } else { col_of(s.drop_last()) + 1 }
}
impl Token {
    pub open spec fn v(self) -> Option<Tok> {
        match self {
            Token::Ident(s) => Some(Tok::Id(s@)),
            Token::BnfOp => Some(Tok::Is),
            Token::Semicolon => Some(Tok::Semi),
            Token::Pipe => Some(Tok::Pipe),
            Token::Plus => Some(Tok::Plus),
            Token::Mul => Some(Tok::Star),
            Token::LParen => Some(Tok::Open),
            Token::RParen => Some(Tok::Close),
            Token::Whitespace => None,
            Token::Error(_, _) => None,
        }
    }
    pub open spec fn is_error(self) -> bool { self matches Token::Error(_, _) }
}
pub fn vx_is_blank(t: &Token) -> (r: bool)
    ensures r == (*t == Token::Whitespace),
{ match t { Token::Whitespace => true, _ => false } }
pub open spec fn toks(v: Seq<Token>) -> Seq<Tok> { Seq::new(v.len(), |i: int| v[i].v().unwrap()) }
pub open spec fn all_toks(v: Seq<Token>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).v() is Some }
impl<'a> Lexer<'a> {
    pub open spec fn fine(self) -> bool {
        &&& self.chars.fits() && self.line_no == line_of(self.chars.read()) && self.col_no == col_of(self.chars.read())
        &&& self.line_no <= self.chars.at + 1 && self.col_no <= self.chars.at + 1
    }
    /// `n` characters have been read since.
    pub open spec fn ate(self, x: Self, n: int) -> bool { x.fine() && x.chars.all == self.chars.all && x.chars.at == self.chars.at + n }
}
/// What `eat` makes of the text: a token that was read, or an error here.
pub open spec fn eaten(a: Lexer, b: Lexer, t: Token) -> bool {
    match one(a.chars.rest()) {
        Some(x) => a.ate(b, x.1 as int) && t.v() == x.0 && !t.is_error(),
        None => t == Token::Error(a.line_no, a.col_no),
    }
}
//@fn cfg-load/src/basic.rs Lexer::peek
//@rewrite_opt self.chars.as_str().chars().next() => self.chars.first()
//@rewrite_opt self.chars.clone().next() => self.chars.first()
    requires self.fine(),
    ensures ret == (if self.chars.rest().len() > 0 { Some(self.chars.rest()[0]) } else { None }), self.chars.rest().len() == self.chars.all@.len() - self.chars.at,
//@end
//@fn cfg-load/src/basic.rs Lexer::advance
    requires old(self).fine(),
    ensures
        old(self).chars.at < old(self).chars.all@.len() ==> old(self).ate(*final(self), 1),
        old(self).chars.at == old(self).chars.all@.len() ==> *final(self) == *old(self),
//@at begin
    proof {
        let a = self.chars;
        if a.at < a.all@.len() {
            let u = a.all@.take(a.at + 1);
            assert(u.drop_last() =~= a.read());
            assert(u.last() == a.all@[a.at as int]);
        }
    }
//@end
//@fn cfg-load/src/basic.rs Lexer::eat
//@rewrite_opt self.chars.as_str().starts_with($$s) => self.chars.starts_with($$s)
//@rewrite_opt substring[..substring.len() - self.chars.as_str().len()].to_string() => self.chars.since(&substring)
//@rewrite_opt while let Some($$p) = self.peek() { $$b } => loop { match self.peek() { Some($$p) => { $$b } _ => { break; } } }
//@loops loop
    requires old(self).fine(), old(self).chars.rest().len() > 0, ch == old(self).chars.rest()[0],
    ensures eaten(*old(self), *final(self), ret),
//@at begin
    let ghost l0 = *self;
    let ghost s0 = self.chars.rest();
    proof {
        reveal_strlit("::=");
        lemma_name_len(s0.skip(1));
        assert(s0.len() >= 3 && s0[1] == ':' && s0[2] == '=' && s0[0] == ':' ==> s0.take(3) =~= "::="@);
        assert(s0.len() >= 3 && s0.take(3) == "::="@ ==> s0.take(3)[1] == ':' && s0.take(3)[2] == '=');
    }
//@loop 0
    invariant
        l0.ate(*self, self.chars.at - l0.chars.at), l0.chars.at + 1 <= self.chars.at <= self.chars.all@.len(), substring == l0.chars, l0.fine(),
        s0 == l0.chars.rest(), s0.len() > 0, letter(s0[0]),
        forall|i: int| 0 <= i < self.chars.at - l0.chars.at - 1 ==> name_char(#[trigger] s0.skip(1)[i]),
    ensures
        self.chars.at - l0.chars.at - 1 == name_len(s0.skip(1)),
    decreases self.chars.all@.len() - self.chars.at,
//@at loop0.begin
    let ghost k = self.chars.at - l0.chars.at - 1;
    proof {
        assert(k < s0.skip(1).len() ==> self.chars.rest()[0] == s0.skip(1)[k]);
        if k == s0.skip(1).len() || !name_char(s0.skip(1)[k]) { lemma_name_ends(s0.skip(1), k); }
    }
//@at loop0.post
    proof {
        let n = name_len(s0.skip(1));
        assert(self.chars.all@.subrange(l0.chars.at as int, self.chars.at as int) =~= s0.take(1 + n as int));
    }
//@end
//@fn cfg-load/src/basic.rs Lexer::eat_token
//@rewrite_opt self.peek().map(|ch| $$b) => match self.peek() { Some(ch) => Some($$b), None => None }
    requires old(self).fine(),
    ensures
        ret is None ==> old(self).chars.rest().len() == 0 && *final(self) == *old(self),
        ret matches Some(t) ==> old(self).chars.rest().len() > 0 && eaten(*old(self), *final(self), t),
//@end
//@fn cfg-load/src/basic.rs Lexer::tokenize
//@rewrite_opt bnf.chars() => VxChars::of(bnf)
//@rewrite_opt vec![] => Vec::new()
//@rewrite_opt while let Some($$p) = lexer.eat_token() { $$b } => loop { match lexer.eat_token() { Some($$p) => { $$b } _ => { break; } } }
//@rewrite_opt token != Token::Whitespace => !vx_is_blank(&token)
//@loops loop
    requires bnf@.len() < usize::MAX,
    ensures
        match ret {
            Ok(v) => all_toks(v@) && lex(bnf@) == Some(toks(v@)),
            Err(e) => lex(bnf@) is None && 0 <= stuck(bnf@) < bnf@.len() && e.0 == line_of(bnf@.take(stuck(bnf@))) && e.1 == col_of(bnf@.take(stuck(bnf@))),
        },
//@at loop0.pre
    proof { assert(lexer.chars.rest() =~= bnf@); assert(toks(result@) + lex(bnf@).unwrap() =~= lex(bnf@).unwrap()); }
//@loop 0
    invariant
        lexer.fine(), lexer.chars.all@ == bnf@, all_toks(result@), lexer.chars.at <= bnf@.len(),
        lex(bnf@) == (match lex(lexer.chars.rest()) { None => None::<Seq<Tok>>, Some(r) => Some(toks(result@) + r) }),
        stuck(bnf@) == lexer.chars.at + stuck(lexer.chars.rest()),
    ensures lexer.chars.rest().len() == 0,
    decreases bnf@.len() - lexer.chars.at,
//@at loop0.begin
    let ghost a = lexer.chars;
    let ghost v0 = result@;
    proof {
        let s = a.rest();
        if s.len() > 0 {
            lemma_one_tok(s);
            if one(s) is Some { let n = one(s).unwrap().1; assert(bnf@.skip(a.at + n as int) =~= s.skip(n as int)); }
            else { assert(a.read() =~= bnf@.take(a.at as int)); }
        }
    }
//@at loop0.end
    proof {
        let s = a.rest();
        let x = one(s).unwrap();
        assert(toks(result@) =~= toks(v0) + opt_tok(x.0));
        match lex(s.skip(x.1 as int)) { Some(r) => { assert(toks(v0) + (opt_tok(x.0) + r) =~= toks(result@) + r); } None => {} }
    }
//@at loop0.post
    proof { assert(toks(result@) + Seq::<Tok>::empty() =~= toks(result@)); }
//@end
