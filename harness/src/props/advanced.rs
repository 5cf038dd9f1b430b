//! G24: grammars with lexers, from texts of the advanced format.
use super::*;
use cfg_load::CfgLoadAdvancedExt;
use cfg_regexp_logic::{CfgRegexpExt, LexerClasses};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    Lexer,
    Is,
    P(char),
}
/// A token and where it begins.
type At = (Tok, u32, u32);

/// The tokens of a text, and where it stops to consist of tokens, if it does.
fn tokens(t: &str) -> (Vec<At>, Option<(u32, u32)>) {
    let c: Vec<char> = t.chars().collect();
    let pos = |n: usize| {
        let line = 1 + c[..n].iter().filter(|x| **x == '\n').count();
        let col = 1 + c[..n].iter().rev().take_while(|x| **x != '\n').count();
        (line as u32, col as u32)
    };
    let first = |x: char| x.is_ascii_alphabetic() || x == '_';
    let (mut v, mut i) = (vec![], 0);
    while i < c.len() {
        let (line, col) = pos(i);
        let mut n = 1;
        let tok = match c[i] {
            ' ' | '\n' | '\t' => {
                i += 1;
                continue;
            }
            ';' | '|' | '+' | '*' | '~' | '(' | ')' | '{' | '}' | '>' => Tok::P(c[i]),
            ':' => {
                if c.get(i + 1) != Some(&':') || c.get(i + 2) != Some(&'=') {
                    return (v, Some((line, col)));
                }
                n = 3;
                Tok::Is
            }
            '"' => {
                let mut x = String::new();
                loop {
                    match c.get(i + n) {
                        None => return (v, Some(pos(c.len()))),
                        Some('"') => break,
                        Some('\\') => {
                            match c.get(i + n + 1) {
                                None => return (v, Some(pos(c.len()))),
                                Some(y) => x.push(*y),
                            }
                            n += 2;
                        }
                        Some(y) => {
                            x.push(*y);
                            n += 1;
                        }
                    }
                }
                n += 1;
                Tok::Str(x)
            }
            x if first(x) => {
                while i + n < c.len() && (first(c[i + n]) || c[i + n].is_ascii_digit()) {
                    n += 1;
                }
                let x: String = c[i..i + n].iter().collect();
                if x == "lexer" { Tok::Lexer } else { Tok::Id(x) }
            }
            _ => return (v, Some((line, col))),
        };
        v.push((tok, line, col));
        i += n;
    }
    (v, None)
}

/// A part of an alternative, with the line it is on.
#[derive(Clone, Debug)]
enum Item {
    /// A name and how it repeats: 0 is once, 1 is `+`, 2 is `*`.
    Name(String, u8),
    Str(String),
    Call(String, String, u32, u32),
}
#[derive(Clone, Debug)]
struct Line {
    lhs: String,
    rhs: Vec<Item>,
    action: Option<String>,
    line: u32,
}

struct Parser<'a> {
    t: &'a [At],
    i: usize,
}
/// Stops at the first token that no text of the format goes on with.
impl Parser<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|x| &x.0)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn line(&self) -> u32 {
        self.t.get(self.i).map_or(0, |x| x.1)
    }
    fn want(&mut self, x: Tok) -> Result<(), usize> {
        if self.peek() == Some(&x) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn id(&mut self) -> Result<String, usize> {
        match self.peek().cloned() {
            Some(Tok::Id(x)) => {
                self.i += 1;
                Ok(x)
            }
            _ => Err(self.i),
        }
    }
    fn item(&mut self) -> Result<Item, usize> {
        if let Some(Tok::Str(x)) = self.peek().cloned() {
            self.i += 1;
            return Ok(Item::Str(x));
        }
        let line = self.line();
        let x = self.id()?;
        for (c, rep) in [('+', 1), ('*', 2)] {
            if self.is(c) {
                self.i += 1;
                return Ok(Item::Name(x, rep));
            }
        }
        if self.is('(') {
            self.i += 1;
            let inner = self.line();
            let Some(Tok::Str(y)) = self.peek().cloned() else { return Err(self.i) };
            self.i += 1;
            self.want(Tok::P(')'))?;
            return Ok(Item::Call(x, y, line, inner));
        }
        Ok(Item::Name(x, 0))
    }
    fn action(&mut self) -> Result<Option<String>, usize> {
        if self.is('>') {
            self.i += 1;
            self.id().map(Some)
        } else {
            Ok(None)
        }
    }
    fn rule(&mut self, out: &mut Vec<Line>) -> Result<(), usize> {
        let line = self.line();
        let lhs = self.id()?;
        self.want(Tok::Is)?;
        if self.is(';') || self.is('>') {
            let action = self.action()?;
            out.push(Line { lhs, rhs: vec![], action, line });
            return self.want(Tok::P(';'));
        }
        loop {
            let mut rhs = vec![self.item()?];
            while self.is('~') {
                self.i += 1;
                rhs.push(self.item()?);
            }
            let action = self.action()?;
            out.push(Line { lhs: lhs.clone(), rhs, action, line });
            if !self.is('|') {
                return self.want(Tok::P(';'));
            }
            self.i += 1;
        }
    }
    /// The rules outside and inside lexers.
    fn text(&mut self) -> Result<(Vec<Line>, Vec<Line>), usize> {
        let (mut p, mut l) = (vec![], vec![]);
        loop {
            if self.peek() == Some(&Tok::Lexer) {
                self.i += 1;
                self.want(Tok::P('{'))?;
                loop {
                    self.rule(&mut l)?;
                    if self.is('}') {
                        break;
                    }
                }
                self.i += 1;
            } else {
                self.rule(&mut p)?;
            }
            if self.i == self.t.len() {
                return Ok((p, l));
            }
        }
    }
}

const NAMES: [&str; 8] = ["a", "b", "S", "_", "x1", "lex", "Regexp", "lexer_"];
const STRINGS: [&str; 15] = ["a", "ab", "", "ba", "aa", "\"", "é", "\\b", "\u{10ffff}", " a", "a ", "A", "\n", "lexer { a ::= b; }", "__lex0"];
const REGEXPS: [&str; 16] = ["a", "ab", "a|b", "a*b", "[a-c]x?", "(ab)+", "", "a{2,3}", ".", "\\d", "é+", "(?:a|b)*", "(", "[b-", "b|", "[^a]"];

fn name(src: &mut Src) -> String {
    let n = if src.small() { 2 } else { NAMES.len() as u32 };
    NAMES[src.pick(n) as usize].to_string()
}

fn blank(src: &mut Src, must: bool) -> String {
    if src.small() {
        return " ".to_string();
    }
    match src.pick(6) {
        0 if !must => String::new(),
        1 => "\n".to_string(),
        2 => "\t  ".to_string(),
        _ => " ".to_string(),
    }
}

fn quoted(src: &mut Src, x: &str) -> String {
    let mut t = "\"".to_string();
    for c in x.chars() {
        if c == '"' || c == '\\' || !src.small() && src.pick(20) == 0 {
            t.push('\\');
        }
        t.push(c);
    }
    t + "\""
}

fn line(src: &mut Src, t: &mut String, lexical: bool) {
    *t += &blank(src, false);
    // Most often the two kinds of rules have different names on the left.
    let half = NAMES.len() / 2;
    *t += &if src.small() {
        if lexical { "c".to_string() } else { name(src) }
    } else if src.pick(12) > 0 {
        NAMES[src.pick(half as u32) as usize + if lexical { half } else { 0 }].to_string()
    } else {
        name(src)
    };
    *t += &blank(src, false);
    *t += "::=";
    let alts = src.range(0, if src.small() { 1 } else { 3 });
    let act = |src: &mut Src, t: &mut String| {
        if src.pick(4) == 3 {
            *t += &blank(src, false);
            *t += ">";
            *t += &blank(src, false);
            *t += &name(src);
        }
    };
    if alts == 0 {
        act(src, t);
    }
    for a in 0..alts {
        if a > 0 {
            *t += &blank(src, false);
            t.push('|');
        }
        let m = src.range(1, if src.small() { 2 } else { 4 });
        for k in 0..m {
            *t += &blank(src, false);
            if k > 0 {
                t.push('~');
                *t += &blank(src, false);
            }
            match src.pick(7) {
                f @ 0..=3 => {
                    *t += &name(src);
                    if f > 1 {
                        *t += &blank(src, false);
                        t.push(if f == 2 { '+' } else { '*' });
                    }
                }
                4 | 5 => {
                    let n = if src.small() { 3 } else { STRINGS.len() as u32 };
                    let x = STRINGS[src.pick(n) as usize];
                    *t += &quoted(src, x);
                }
                _ => {
                    let odd = !src.small() && src.pick(30) == 0;
                    *t += &if odd { name(src) } else { "Regexp".to_string() };
                    *t += &blank(src, false);
                    t.push('(');
                    *t += &blank(src, false);
                    let n = if src.small() { 5 } else { REGEXPS.len() as u32 };
                    let x = REGEXPS[src.pick(n) as usize];
                    *t += &quoted(src, x);
                    *t += &blank(src, false);
                    t.push(')');
                }
            }
        }
        act(src, t);
    }
    *t += &blank(src, false);
    t.push(';');
}

fn text(src: &mut Src) -> String {
    let mut t = String::new();
    let n = src.range(1, if src.small() { 2 } else { 5 });
    for _ in 0..n {
        if src.pick(3) == 2 {
            t += &blank(src, false);
            t += "lexer";
            t += &blank(src, false);
            t.push('{');
            let m = src.range(1, if src.small() { 1 } else { 3 });
            for _ in 0..m {
                line(src, &mut t, true);
            }
            t += &blank(src, false);
            t.push('}');
        } else {
            line(src, &mut t, false);
        }
    }
    t += &blank(src, false);
    if !src.small() && src.pick(4) == 0 {
        // spoil it
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..1 + src.pick(2) {
            let i = src.pick(c.len().max(1) as u32) as usize;
            let x = [':', '=', ';', '|', '+', '*', '(', ')', 'a', '0', ' ', '"', 'é', '~', '\r', '{', '}', '>', '\\', '\n'][src.pick(20) as usize];
            match src.pick(3) {
                0 if !c.is_empty() => {
                    c.remove(i);
                }
                1 if !c.is_empty() => c[i] = x,
                _ => c.insert(i.min(c.len()), x),
            }
        }
        t = c.into_iter().collect();
    }
    t
}

/// What `l` derives, up to a length, if symbols without rules, and `also`, stand for themselves.
fn strings(g: &Gram, l: usize, also: Option<usize>) -> Option<BTreeSet<Vec<usize>>> {
    let mut h = g.clone();
    if let Some(x) = also {
        h.rules.retain(|r| r.0 != x);
    }
    // only what can be reached
    let mut seen: BTreeSet<usize> = [l].into_iter().collect();
    loop {
        let more: BTreeSet<usize> = h.rules.iter().filter(|r| seen.contains(&r.0)).flat_map(|r| r.1.iter().copied()).collect();
        let n = seen.len();
        seen.extend(more);
        if seen.len() == n {
            break;
        }
    }
    h.rules.retain(|r| seen.contains(&r.0));
    let term: Vec<bool> = (0..h.n).map(|i| h.rules.iter().all(|r| r.0 != i)).collect();
    h.lang(4, &term, 20000).map(|v| v[l].clone())
}

/// The loaded grammar is the one that is written.
pub fn load(src: &mut Src) -> Res {
    let t = text(src);
    note(format!("text {:?}", t));
    let (toks, stuck) = tokens(&t);
    let mut p = Parser { t: &toks, i: 0 };
    let parsed = p.text();
    if let Ok((a, b)) = &parsed {
        // no look-around
        for x in a.iter().chain(b).flat_map(|l| &l.rhs) {
            if let Item::Call(_, y, _, _) = x {
                if regex_syntax::parse(y).map_or(false, |h| !h.properties().look_set().is_empty()) {
                    return Ok(Outcome::Discard);
                }
            }
        }
    }
    let got = Cfg::load_advanced(&t);
    let (outer, inner) = match parsed {
        Ok(x) if stuck.is_none() => x,
        r => {
            let e = match got {
                Ok(_) => return Err("loaded, though it is not in the format".to_string()),
                Err(e) => e,
            };
            let at = match r {
                Err(k) if k < toks.len() => Some((toks[k].1, toks[k].2)),
                _ => stuck,
            };
            if let Some(at) = at {
                ensure!((e.line, e.col) == at, "refused at {:?}, expected {:?}", (e.line, e.col), at);
            }
            return Ok(Outcome::Ok);
        }
    };
    // what is wrong with the rules
    let mut wrong = None;
    let heads: BTreeSet<&String> = outer.iter().map(|x| &x.lhs).collect();
    'rules: for (l, lexical) in outer.iter().map(|x| (x, false)).chain(inner.iter().map(|x| (x, true))) {
        if lexical && heads.contains(&l.lhs) {
            wrong = Some(l.line);
            break;
        }
        for x in &l.rhs {
            if let Item::Call(f, y, line, inner) = x {
                if f != "Regexp" {
                    wrong = Some(*line);
                    break 'rules;
                }
                if Cfg::from_regexp(y).is_err() {
                    wrong = Some(*inner);
                    break 'rules;
                }
            }
        }
    }
    let got = match (wrong, got) {
        (Some(line), Err(e)) => {
            ensure!(e.line == line, "refused at line {}, expected {}: {}", e.line, line, e);
            return Ok(Outcome::Ok);
        }
        (Some(_), Ok(_)) => return Err("loaded, though a rule is wrong".to_string()),
        (None, Err(e)) => return Err(format!("refused: {}", e)),
        (None, Ok(x)) => x,
    };
    let lines: Vec<&Line> = outer.iter().chain(&inner).collect();
    let cfg = &got.cfg;
    let g = Gram::of(cfg);
    // names
    let sym: BTreeMap<String, usize> = got.sym_map.iter().map(|(a, b)| (a.clone(), b.usize())).collect();
    for i in 0..g.n {
        let nm = cfg.sym_source().original_name_of(s(i)).map(|x| x.to_string());
        match nm {
            Some(x) => ensure!(sym.get(&x) == Some(&i), "symbol {} is named {}, but {:?} is mapped there", i, x, sym.get(&x)),
            None => ensure!(sym.values().all(|x| *x != i), "symbol {} has lost its name", i),
        }
    }
    let mut used: BTreeSet<String> = lines.iter().map(|x| x.lhs.clone()).collect();
    let mut lits: Vec<&String> = vec![];
    for x in lines.iter().flat_map(|x| &x.rhs) {
        match x {
            Item::Name(x, _) => {
                used.insert(x.clone());
            }
            Item::Str(x) if !lits.contains(&x) => {
                used.insert(format!("__lex{}", lits.len()));
                lits.push(x);
            }
            _ => {}
        }
    }
    ensure!(used == sym.keys().cloned().collect(), "named symbols {:?}, expected {:?}", sym.keys(), used);
    ensure!(g.roots == vec![sym[&lines[0].lhs]], "roots {:?}", g.roots);
    // characters and classes
    let classes: BTreeMap<LexerClasses, usize> = got.lexer_map.classes.iter().map(|(a, b)| (a.clone(), b.usize())).collect();
    let of_class: BTreeSet<usize> = classes.values().copied().collect();
    ensure!(of_class.len() == classes.len(), "two classes have the same symbol");
    let named: BTreeSet<usize> = sym.values().copied().collect();
    ensure!(of_class.is_disjoint(&named), "a class has the symbol of a name");
    ensure!(g.rules.iter().all(|r| !of_class.contains(&r.0)), "the symbol of a class has rules");
    // what belongs to each item
    let lit: BTreeSet<usize> = (0..lits.len()).map(|i| sym[&format!("__lex{}", i)]).collect();
    let rules: Vec<(Rule, u32)> = cfg.rules().zip(&g.rules).filter(|x| named.contains(&x.1 .0) && !lit.contains(&x.1 .0)).map(|x| (x.1.clone(), x.0.history.origin().id)).collect();
    ensure!(rules.len() == lines.len(), "{} rules of named symbols, expected {}", rules.len(), lines.len());
    let mut own: BTreeSet<usize> = BTreeSet::new();
    for (i, ((r, origin), l)) in rules.iter().zip(&lines).enumerate() {
        ensure!(*origin == i as u32 + 1, "rule {} has origin {}", i + 1, origin);
        ensure!(got.actions.get(&(i + 1)) == Some(&l.action), "rule {} has action {:?}, expected {:?}", i + 1, got.actions.get(&(i + 1)), l.action);
        ensure!(r.0 == sym[&l.lhs] && r.1.len() == l.rhs.len(), "rule {:?} for {:?}", r, l);
        for (&x, f) in r.1.iter().zip(&l.rhs) {
            match f {
                Item::Name(y, 0) => ensure!(x == sym[y], "symbol {} for {:?}", x, f),
                Item::Name(y, rep) => {
                    ensure!(!named.contains(&x) && own.insert(x), "symbol {} for {:?}", x, f);
                    let y = sym[y];
                    let want: BTreeSet<Vec<usize>> = (if *rep == 2 { 0 } else { 1 }..=4).map(|k| vec![y; k]).collect();
                    let k = strings(&g, x, Some(y)).unwrap_or_default();
                    ensure!(k == want, "{} derives {:?} for {:?}", x, k, f);
                }
                Item::Str(y) => {
                    let k = lits.iter().position(|z| *z == y).unwrap();
                    ensure!(x == sym[&format!("__lex{}", k)], "symbol {} for {:?}", x, f);
                    let want: Option<Vec<usize>> = y.chars().map(|c| classes.get(&c.into()).copied()).collect();
                    ensure!(want.is_some(), "a character of {:?} has no class", y);
                    let mut n = 0;
                    for r in g.rules.iter().filter(|r| r.0 == x) {
                        ensure!(Some(&r.1) == want.as_ref(), "{:?} is spelled {:?}, expected {:?}", y, r.1, want);
                        n += 1;
                    }
                    ensure!(n > 0, "{:?} has no rule", y);
                }
                Item::Call(_, y, _, _) => {
                    ensure!(!named.contains(&x), "symbol {} for {:?}", x, f);
                    let (c, m) = Cfg::from_regexp(y).map_err(|e| e.to_string())?;
                    let h = Gram::of(&c);
                    ensure!(of_class.contains(&x) || own.insert(x), "symbol {} for {:?}", x, f);
                    let a = strings(&h, h.roots[0], None);
                    let b = strings(&g, x, None);
                    if let (Some(a), Some(b)) = (a, b) {
                        let to: BTreeMap<usize, usize> = m.classes.iter().filter_map(|(k, v)| classes.get(k).map(|z| (v.usize(), *z))).collect();
                        let a: BTreeSet<Vec<usize>> = a.iter().map(|w| w.iter().map(|z| to.get(z).copied().unwrap_or(usize::MAX)).collect()).collect();
                        ensure!(a == b, "{} derives {:?}, but {:?} matches {:?}", x, b, y, a);
                    }
                }
            }
        }
    }
    ensure!(got.actions.len() == lines.len(), "{} actions", got.actions.len());
    let lexical: BTreeSet<usize> = inner.iter().map(|l| sym[&l.lhs]).chain(lit.iter().copied()).collect();
    let set = set_of(&got.sbs);
    ensure!(set == lexical, "lexemes {:?}, expected {:?}", set, lexical);
    Ok(Outcome::Ok)
}
