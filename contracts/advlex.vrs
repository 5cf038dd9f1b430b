// G24: the tokens of a text of the advanced format (cfg-load).
//@include vxchars.vrs
//@struct cfg-load/src/advanced.rs Token
//@struct cfg-load/src/advanced.rs Lexer
//@ty Chars<'a> => VxChars<'a>
// ---- the tokens of a text
pub ghost enum Tok { Id(Seq<char>), Str(Seq<char>), Kw, Is, Semi, Pipe, Plus, Star, Tilde, Open, Close, LBrace, RBrace, Gt }
pub open spec fn letter(c: char) -> bool { 97 <= (c as u32) <= 122 || 65 <= (c as u32) <= 90 || c == '_' }
pub open spec fn name_char(c: char) -> bool { letter(c) || 48 <= (c as u32) <= 57 }
/// How many characters at the beginning belong to a name.
pub open spec fn name_len(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 || !name_char(s[0]) { 0 } else { 1 + name_len(s.skip(1)) }
}
/// What stands before the closing quotation mark, and how many characters it takes with the mark.
/// A character after a backslash stands for itself.
pub open spec fn quoted(s: Seq<char>) -> Option<(Seq<char>, nat)>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] == '"' { Some((seq![], 1)) }
    else if s[0] == '\\' {
        if s.len() == 1 { None } else { match quoted(s.skip(2)) { None => None, Some(q) => Some((seq![s[1]] + q.0, q.1 + 2)) } }
    }
    else { match quoted(s.skip(1)) { None => None, Some(q) => Some((seq![s[0]] + q.0, q.1 + 1)) } }
}
pub open spec fn word(s: Seq<char>) -> Tok { if s == "lexer"@ { Tok::Kw } else { Tok::Id(s) } }
/// The first token, if it is not a blank, and its length. None if the text does not begin with a token.
pub open spec fn one(s: Seq<char>) -> Option<(Option<Tok>, nat)> {
    let c = s[0];
    if letter(c) { Some((Some(word(s.take(1 + name_len(s.skip(1)) as int))), 1 + name_len(s.skip(1)))) }
    else if c == ':' { if s.len() >= 3 && s[1] == ':' && s[2] == '=' { Some((Some(Tok::Is), 3)) } else { None } }
    else if c == ';' { Some((Some(Tok::Semi), 1)) }
    else if c == '|' { Some((Some(Tok::Pipe), 1)) }
    else if c == '+' { Some((Some(Tok::Plus), 1)) }
    else if c == '*' { Some((Some(Tok::Star), 1)) }
    else if c == '~' { Some((Some(Tok::Tilde), 1)) }
    else if c == '(' { Some((Some(Tok::Open), 1)) }
    else if c == ')' { Some((Some(Tok::Close), 1)) }
    else if c == '{' { Some((Some(Tok::LBrace), 1)) }
    else if c == '}' { Some((Some(Tok::RBrace), 1)) }
    else if c == '>' { Some((Some(Tok::Gt), 1)) }
    else if c == ' ' || c == '\n' || c == '\t' { Some((None, 1)) }
    else if c == '"' { match quoted(s.skip(1)) { None => None, Some(q) => Some((Some(Tok::Str(q.0)), 1 + q.1)) } }
    else { None }
}
/// Where that is found out.
pub open spec fn trouble(s: Seq<char>) -> nat { if s[0] == '"' { s.len() } else { 0 } }
pub proof fn lemma_name_len(s: Seq<char>)
    ensures name_len(s) <= s.len(), forall|i: int| 0 <= i < name_len(s) ==> name_char(#[trigger] s[i]), name_len(s) < s.len() ==> !name_char(s[name_len(s) as int]),
    decreases s.len(),
{
    if s.len() > 0 && name_char(s[0]) {
        lemma_name_len(s.skip(1));
        assert forall|i: int| 0 <= i < name_len(s) implies name_char(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if name_len(s) < s.len() { assert(s.skip(1)[name_len(s) - 1] == s[name_len(s) as int]); }
    }
}
/// A name ends where the first other character is.
pub proof fn lemma_name_ends(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> name_char(#[trigger] s[i]), k < s.len() ==> !name_char(s[k]),
    ensures name_len(s) == k,
    decreases s.len(),
{
    if k > 0 {
        assert(name_char(s[0]));
        let r = s.skip(1);
        assert forall|i: int| 0 <= i < k - 1 implies name_char(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        lemma_name_ends(r, k - 1);
    }
}
pub proof fn lemma_quoted(s: Seq<char>)
    ensures quoted(s) matches Some(q) ==> 1 <= q.1 <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        if s[0] == '\\' { if s.len() > 1 { lemma_quoted(s.skip(2)); } } else if s[0] != '"' { lemma_quoted(s.skip(1)); }
    }
}
pub proof fn lemma_one_tok(s: Seq<char>)
    requires s.len() > 0,
    ensures one(s) matches Some(x) ==> 1 <= x.1 <= s.len(), trouble(s) <= s.len(),
{
    lemma_name_len(s.skip(1));
    lemma_quoted(s.skip(1));
}
/// A token and where it begins.
pub type At = (Tok, nat);
pub open spec fn opt_tok(t: Option<Tok>, at: nat) -> Seq<At> { match t { Some(x) => seq![(x, at)], None => Seq::empty() } }
/// The tokens of the text from a place on, up to where it stops to consist of tokens and blanks.
pub open spec fn lex(s: Seq<char>, at: nat) -> Seq<At>
    decreases s.len() - at,
    via lex_ends
{
    if at >= s.len() { Seq::empty() } else { match one(s.skip(at as int)) { None => Seq::empty(), Some(x) => opt_tok(x.0, at) + lex(s, at + x.1) } }
}
#[via_fn]
proof fn lex_ends(s: Seq<char>, at: nat) { if at < s.len() { lemma_one_tok(s.skip(at as int)); } }
/// Where this is found out, if the text has other things than tokens and blanks.
pub open spec fn stuck(s: Seq<char>, at: nat) -> Option<nat>
    decreases s.len() - at,
    via stuck_ends
{
    if at >= s.len() { None } else { match one(s.skip(at as int)) { None => Some(at + trouble(s.skip(at as int))), Some(x) => stuck(s, at + x.1) } }
}
#[via_fn]
proof fn stuck_ends(s: Seq<char>, at: nat) { if at < s.len() { lemma_one_tok(s.skip(at as int)); } }
/// The line of what comes next.
pub open spec fn line_of(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 1 } else { line_of(s.drop_last()) + if s.last() == '\n' { 1nat } else { 0 } }
}
pub open spec fn col_of(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 || s.last() == '\n' { 1 } else { col_of(s.drop_last()) + 1 }
}
impl Token {
    pub open spec fn v(self) -> Option<Tok> {
        match self {
            Token::Ident(s) => Some(Tok::Id(s@)),
            Token::String(s) => Some(Tok::Str(s@)),
            Token::BnfOp => Some(Tok::Is),
            Token::Semicolon => Some(Tok::Semi),
            Token::Pipe => Some(Tok::Pipe),
            Token::Plus => Some(Tok::Plus),
            Token::Mul => Some(Tok::Star),
            Token::LParen => Some(Tok::Open),
            Token::RParen => Some(Tok::Close),
            Token::LBrace => Some(Tok::LBrace),
            Token::RBrace => Some(Tok::RBrace),
            Token::GtOp => Some(Tok::Gt),
            Token::TildeOp => Some(Tok::Tilde),
            Token::LexerKeyword => Some(Tok::Kw),
            Token::Whitespace => None,
            Token::Error(_, _) => None,
        }
    }
    pub open spec fn is_error(self) -> bool { self matches Token::Error(_, _) }
}
pub fn vx_is_blank(t: &Token) -> (r: bool)
    ensures r == (*t == Token::Whitespace),
{ match t { Token::Whitespace => true, _ => false } }
pub fn vx_is_error(t: &Token) -> (r: bool)
    ensures r == t.is_error(),
{ match t { Token::Error(_, _) => true, _ => false } }
// TRUSTED: comparison of strings.
#[verifier::external_body]
pub fn vx_same(a: &String, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ unimplemented!() }
pub type TokAt = (Token, usize, usize);
/// The tokens of `v` are `w`, each with the line and column of its place in the text.
pub open spec fn same_toks(s: Seq<char>, v: Seq<TokAt>, w: Seq<At>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> at_place(s, #[trigger] v[i], w[i]) }
pub open spec fn at_place(s: Seq<char>, x: TokAt, y: At) -> bool { x.0.v() == Some(y.0) && y.1 <= s.len() && x.1 == line_of(s.take(y.1 as int)) && x.2 == col_of(s.take(y.1 as int)) }
pub open spec fn error_at(s: Seq<char>, x: TokAt, at: nat) -> bool { at <= s.len() && x.0.is_error() && x.0->Error_0 == line_of(s.take(at as int)) && x.0->Error_1 == col_of(s.take(at as int)) }
/// All tokens up to the first trouble, which comes last.
pub open spec fn tokenized(s: Seq<char>, v: Seq<TokAt>) -> bool {
    match stuck(s, 0) {
        None => same_toks(s, v, lex(s, 0)),
        Some(at) => v.len() > 0 && same_toks(s, v.drop_last(), lex(s, 0)) && error_at(s, v.last(), at),
    }
}
impl<'a> Lexer<'a> {
    pub open spec fn fine(self) -> bool {
        &&& self.chars.fits() && self.line_no == line_of(self.chars.read()) && self.col_no == col_of(self.chars.read())
        &&& self.line_no <= self.chars.at + 1 && self.col_no <= self.chars.at + 1
    }
    /// `n` characters have been read since.
    pub open spec fn ate(self, x: Self, n: int) -> bool { x.fine() && x.chars.all == self.chars.all && x.chars.at == self.chars.at + n }
}
/// What `eat` makes of the text: a token that was read, or an error.
pub open spec fn eaten(a: Lexer, b: Lexer, t: Token) -> bool {
    match one(a.chars.rest()) {
        Some(x) => a.ate(b, x.1 as int) && t.v() == x.0 && !t.is_error(),
        None => a.ate(b, trouble(a.chars.rest()) as int) && t == Token::Error(b.line_no, b.col_no),
    }
}
pub open spec fn with(a: Seq<char>, q: Option<(Seq<char>, nat)>) -> Option<(Seq<char>, nat)> { match q { None => None, Some(x) => Some((a + x.0, a.len() + x.1)) } }
//@fn cfg-load/src/advanced.rs Lexer::peek
//@rewrite_opt self.chars.as_str().chars().next() => self.chars.first()
//@rewrite_opt self.chars.clone().next() => self.chars.first()
    requires self.fine(),
    ensures ret == (if self.chars.rest().len() > 0 { Some(self.chars.rest()[0]) } else { None }), self.chars.rest().len() == self.chars.all@.len() - self.chars.at,
//@end
//@fn cfg-load/src/advanced.rs Lexer::advance
    requires old(self).fine(),
    ensures
        old(self).chars.at < old(self).chars.all@.len() ==> old(self).ate(*final(self), 1),
        old(self).chars.at == old(self).chars.all@.len() ==> *final(self) == *old(self),
//@at begin
    proof {
        let a = self.chars;
        if a.at < a.all@.len() {
            let u = a.all@.take(a.at + 1);
            assert(u.drop_last() =~= a.read());
            assert(u.last() == a.all@[a.at as int]);
        }
    }
//@end
//@fn cfg-load/src/advanced.rs Lexer::eat
//@rewrite_opt println!($$s); =>
//@rewrite_opt self.chars.as_str().starts_with($$s) => self.chars.starts_with($$s)
//@rewrite_opt substring[..substring.len() - self.chars.as_str().len()].to_string() => self.chars.since(&substring)
//@rewrite_opt while let Some($$p) = self.peek() { $$b } => loop { match self.peek() { Some($$p) => { $$b } _ => { break; } } }
//@rewrite_opt self.peek().map_or(false, |ch| $$e) => (match self.peek() { Some(ch) => $$e, None => false })
//@rewrite_opt result == $$s { $$a } => vx_same(&result, $$s) { $$a }
//@rewrite_opt if Some('"') == self.peek() => if (match self.peek() { Some(vx_c) => vx_c == '"', None => false })
//@loops loop while
    requires old(self).fine(), old(self).chars.rest().len() > 0, ch == old(self).chars.rest()[0],
    ensures eaten(*old(self), *final(self), ret),
//@at begin
    let ghost l0 = *self;
    let ghost s0 = self.chars.rest();
    proof {
        reveal_strlit("::=");
        reveal_strlit("lexer");
        lemma_name_len(s0.skip(1));
        assert(s0.len() >= 3 && s0[1] == ':' && s0[2] == '=' && s0[0] == ':' ==> s0.take(3) =~= "::="@);
        assert(s0.len() >= 3 && s0.take(3) == "::="@ ==> s0.take(3)[1] == ':' && s0.take(3)[2] == '=');
    }
//@loop 0
    invariant
        l0.ate(*self, self.chars.at - l0.chars.at), l0.chars.at <= self.chars.at <= self.chars.all@.len(), substring == l0.chars, l0.fine(),
        s0 == l0.chars.rest(), s0.len() > 0, letter(s0[0]),
        forall|i: int| 0 <= i < self.chars.at - l0.chars.at ==> name_char(#[trigger] s0[i]),
    ensures
        self.chars.at - l0.chars.at == name_len(s0),
    decreases self.chars.all@.len() - self.chars.at,
//@at loop0.begin
    let ghost k = self.chars.at - l0.chars.at;
    proof {
        assert(k < s0.len() ==> self.chars.rest()[0] == s0[k]);
        if k == s0.len() || !name_char(s0[k]) { lemma_name_ends(s0, k); }
    }
//@at loop0.post
    proof {
        let n = name_len(s0);
        assert(n == 1 + name_len(s0.skip(1)));
        assert(self.chars.all@.subrange(l0.chars.at as int, self.chars.at as int) =~= s0.take(n as int));
    }
//@loop 1
    invariant
        l0.ate(*self, self.chars.at - l0.chars.at), l0.chars.at + 1 <= self.chars.at <= self.chars.all@.len(), l0.fine(),
        s0 == l0.chars.rest(), s0.len() > 0, s0[0] == '"',
        quoted(s0.skip(1)) == (match quoted(self.chars.rest()) { None => None::<(Seq<char>, nat)>, Some(q) => Some((result@ + q.0, (self.chars.at - l0.chars.at - 1 + q.1) as nat)) }),
    ensures
        self.chars.at < self.chars.all@.len() ==> self.chars.rest()[0] == '"',
    decreases self.chars.all@.len() - self.chars.at,
//@at loop1.begin
    let ghost c0 = self.chars;
    let ghost r0 = result@;
    proof {
        let s = c0.rest();
        lemma_quoted(s);
        if s.len() > 1 && s[0] == '\\' { assert(s.skip(2) =~= c0.all@.skip(c0.at + 2)); match quoted(s.skip(2)) { Some(q) => { assert(r0 + (seq![s[1]] + q.0) =~= r0.push(s[1]) + q.0); } None => {} } }
        assert(s.skip(1) =~= c0.all@.skip(c0.at + 1));
        match quoted(s.skip(1)) { Some(q) => { assert(r0 + (seq![s[0]] + q.0) =~= r0.push(s[0]) + q.0); } None => {} }
    }
//@at loop1.pre
    proof { assert(s0.skip(1) =~= self.chars.rest()); match quoted(s0.skip(1)) { Some(q) => { assert(result@ + q.0 =~= q.0); } None => {} } }
//@at loop1.post
    proof { assert(result@ + Seq::<char>::empty() =~= result@); }
//@end
//@fn cfg-load/src/advanced.rs Lexer::eat_token
//@rewrite_opt self.peek().map(|ch| $$b) => match self.peek() { Some(ch) => Some($$b), None => None }
    requires old(self).fine(),
    ensures
        ret is None ==> old(self).chars.rest().len() == 0 && *final(self) == *old(self),
        ret matches Some(t) ==> old(self).chars.rest().len() > 0 && eaten(*old(self), *final(self), t),
//@end
//@fn cfg-load/src/advanced.rs Lexer::tokenize
//@rewrite_opt bnf.chars() => VxChars::of(bnf)
//@rewrite_opt vec![] => Vec::new()
//@rewrite_opt while let Some($$p) = lexer.eat_token() { $$b } => loop { match lexer.eat_token() { Some($$p) => { $$b } _ => { break; } } }
//@rewrite_opt if let &Token::Error($$p) = &token { $$b } => if vx_is_error(&token) { $$b }
//@rewrite_opt token != Token::Whitespace => !vx_is_blank(&token)
//@loops loop
    requires bnf@.len() < usize::MAX,
    ensures tokenized(bnf@, ret@),
//@at loop0.pre
    proof { assert(lexer.chars.rest() =~= bnf@); assert(Seq::<At>::empty() + lex(bnf@, 0) =~= lex(bnf@, 0)); assert(lexer.chars.read() =~= bnf@.take(0)); }
    let ghost mut done: Seq<At> = Seq::empty();
//@loop 0
    invariant
        lexer.fine(), lexer.chars.all@ == bnf@, lexer.chars.at <= bnf@.len(), line_no == lexer.line_no, col_no == lexer.col_no,
        same_toks(bnf@, result@, done), lex(bnf@, 0) == done + lex(bnf@, lexer.chars.at as nat),
        stuck(bnf@, 0) == stuck(bnf@, lexer.chars.at as nat),
    ensures lexer.chars.at == bnf@.len(),
    decreases bnf@.len() - lexer.chars.at,
//@at loop0.begin
    let ghost a = lexer.chars;
    let ghost v0 = result@;
    proof {
        let s = a.rest();
        if s.len() > 0 {
            lemma_one_tok(s);
            assert(a.read() =~= bnf@.take(a.at as int));
            match one(s) {
                Some(x) => {
                    let d = done + opt_tok(x.0, a.at as nat);
                    assert(done + (opt_tok(x.0, a.at as nat) + lex(bnf@, a.at as nat + x.1)) =~= d + lex(bnf@, a.at as nat + x.1));
                    done = d;
                }
                None => { assert(done + Seq::<At>::empty() =~= done); }
            }
        }
    }
//@at loop0.post
    proof { assert(done + Seq::<At>::empty() =~= done); }
//@end
