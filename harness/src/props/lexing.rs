//! G21: the map from characters to their symbols. G22: regular expressions as grammars.
use super::*;
use cfg_regexp_logic::{CfgRegexpExt, LexerClasses, LexerMap};
use regex_syntax::hir::{Hir, HirKind, Class, ClassBytes, ClassBytesRange, ClassUnicode, ClassUnicodeRange};

const CH: [char; 14] = ['a', 'b', 'c', '0', '~', '\u{7f}', '\u{80}', 'é', 'ÿ', 'Ā', '\u{d7ff}', '\u{e000}', '\u{10fffe}', '\u{10ffff}'];

fn ch(src: &mut Src) -> char {
    let n = if src.small() { 3 } else { CH.len() as u32 };
    CH[src.pick(n) as usize]
}

fn near(c: char) -> Vec<char> {
    let u = c as u32;
    let mut v = vec![c];
    for x in [u.wrapping_sub(1), u + 1] {
        if let Some(d) = char::from_u32(x) {
            v.push(d);
        }
    }
    v
}

/// The characters of the class made of one character. Known finding: it holds the next character too.
fn single(c: char) -> (char, char) {
    static WIDE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let wide = *WIDE.get_or_init(|| {
        let mut m = LexerMap::new();
        m.classes.insert('y'.into(), super::s(0));
        m.compute();
        !m.get('z').is_empty()
    });
    (c, if wide { (c..=char::MAX).nth(1).unwrap_or(c) } else { c })
}

/// The symbols of a character are those of the classes it is in.
pub fn lexer_map(src: &mut Src) -> Res {
    let k = src.range(1, if src.small() { 2 } else { 4 });
    let mut sets: Vec<Vec<(char, char)>> = vec![];
    let mut map = LexerMap::new();
    let mut order: BTreeMap<LexerClasses, usize> = BTreeMap::new();
    let mut text = String::new();
    for i in 0..k {
        let (cls, rs): (LexerClasses, Vec<(char, char)>) = match src.pick(4) {
            0 => {
                let c = ch(src);
                (c.into(), vec![single(c)])
            }
            1 => {
                let b = if src.small() { [97u8, 98, 255][src.pick(3) as usize] } else { src.pick(256) as u8 };
                (b.into(), vec![single(b as char)])
            }
            2 => {
                let m = src.range(1, if src.small() { 1 } else { 3 });
                let rs: Vec<(char, char)> = (0..m)
                    .map(|_| {
                        let (a, b) = (ch(src), ch(src));
                        (a.min(b), a.max(b))
                    })
                    .collect();
                let c = ClassUnicode::new(rs.iter().map(|x| ClassUnicodeRange::new(x.0, x.1)));
                (Class::Unicode(c).into(), rs)
            }
            _ => {
                let m = src.range(1, if src.small() { 1 } else { 2 });
                let rs: Vec<(u8, u8)> = (0..m)
                    .map(|_| {
                        let (a, b) = if src.small() { (97 + src.pick(2) as u8, 97 + src.pick(2) as u8) } else { (src.pick(256) as u8, src.pick(256) as u8) };
                        (a.min(b), a.max(b))
                    })
                    .collect();
                let c = ClassBytes::new(rs.iter().map(|x| ClassBytesRange::new(x.0, x.1)));
                (Class::Bytes(c).into(), rs.into_iter().map(|x| (x.0 as char, x.1 as char)).collect())
            }
        };
        text.push_str(&format!(" {}:{:?}", i, rs));
        order.insert(cls.clone(), i as usize);
        map.classes.insert(cls, s(i as usize));
        sets.push(rs);
    }
    note(format!("classes{}", text));
    let kept: BTreeSet<usize> = order.values().copied().collect();
    map.compute();
    let mut tests: BTreeSet<char> = CH.iter().flat_map(|&c| near(c)).collect();
    for r in sets.iter().flatten() {
        tests.extend(near(r.0));
        tests.extend(near(r.1));
    }
    for c in tests {
        let want: BTreeSet<usize> = kept.iter().copied().filter(|&i| sets[i].iter().any(|r| r.0 <= c && c <= r.1)).collect();
        let got: BTreeSet<usize> = map.get(c).iter().map(|x| x.usize()).collect();
        ensure!(want == got, "symbols of {:?}: {:?}, expected {:?}", c, got, want);
        ensure!(got.len() == map.get(c).len(), "symbols of {:?} repeat: {:?}", c, map.get(c));
    }
    Ok(Outcome::Ok)
}

#[derive(Clone, Debug)]
enum Re {
    Empty,
    Lit(char),
    Class(bool, Vec<(char, char)>),
    Dot,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    Group(Box<Re>),
}

fn re(src: &mut Src, depth: u32) -> Re {
    let small = src.small();
    let leaf = depth == 0;
    match src.pick(if leaf { 4 } else { 8 }) {
        0 => Re::Lit(ch(src)),
        1 => {
            let m = src.range(1, if small { 1 } else { 3 });
            let neg = if small { false } else { src.pick(4) == 0 };
            // regex-syntax itself negates a class wrongly where both ends of the surrogate gap are in it
            let ch2 = |src: &mut Src| match ch(src) {
                '\u{e000}' if neg => 'a',
                c => c,
            };
            let rs = (0..m)
                .map(|_| {
                    let (a, b) = (ch2(src), ch2(src));
                    (a.min(b), a.max(b))
                })
                .collect();
            Re::Class(neg, rs)
        }
        2 => Re::Empty,
        3 => {
            if small {
                Re::Lit('c')
            } else {
                Re::Dot
            }
        }
        4 => Re::Cat((0..2 + if small { 0 } else { src.pick(2) }).map(|_| re(src, depth - 1)).collect()),
        5 => Re::Alt((0..2 + if small { 0 } else { src.pick(3) }).map(|_| re(src, depth - 1)).collect()),
        6 => {
            let lo = src.pick(3);
            let hi = match src.pick(4) {
                0 => None,
                x => Some(lo + x - 1),
            };
            Re::Rep(Box::new(re(src, depth - 1)), lo, hi)
        }
        _ => Re::Group(Box::new(re(src, depth - 1))),
    }
}

fn show(r: &Re, o: &mut String) {
    let lit = |c: char| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("\\x{{{:x}}}", c as u32) };
    match r {
        Re::Empty => o.push_str("(?:)"),
        Re::Lit(c) => o.push_str(&lit(*c)),
        Re::Class(neg, rs) => {
            o.push('[');
            if *neg {
                o.push('^');
            }
            for x in rs {
                o.push_str(&format!("{}-{}", lit(x.0), lit(x.1)));
            }
            o.push(']');
        }
        Re::Dot => o.push('.'),
        Re::Cat(v) => v.iter().for_each(|x| {
            o.push_str("(?:");
            show(x, o);
            o.push(')');
        }),
        Re::Alt(v) => {
            o.push_str("(?:");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                show(x, o);
            }
            o.push(')');
        }
        Re::Rep(x, lo, hi) => {
            o.push_str("(?:");
            show(x, o);
            o.push(')');
            match hi {
                None => o.push_str(&format!("{{{},}}", lo)),
                Some(h) => o.push_str(&format!("{{{},{}}}", lo, h)),
            }
        }
        Re::Group(x) => {
            o.push('(');
            show(x, o);
            o.push(')');
        }
    }
}

/// The ends of the matches that begin at the given places.
fn ends(r: &Re, w: &[char], from: &BTreeSet<usize>, wide: bool) -> BTreeSet<usize> {
    let one = |f: &dyn Fn(char) -> bool| from.iter().copied().filter(|&i| i < w.len() && f(w[i])).map(|i| i + 1).collect();
    match r {
        Re::Empty => from.clone(),
        Re::Lit(c) => {
            let r = if wide { single(*c) } else { (*c, *c) };
            one(&|x| r.0 <= x && x <= r.1)
        }
        Re::Class(neg, rs) => one(&|x| rs.iter().any(|y| y.0 <= x && x <= y.1) != *neg),
        Re::Dot => one(&|x| x != '\n'),
        Re::Cat(v) => v.iter().fold(from.clone(), |f, x| ends(x, w, &f, wide)),
        Re::Alt(v) => v.iter().flat_map(|x| ends(x, w, from, wide)).collect(),
        Re::Group(x) => ends(x, w, from, wide),
        Re::Rep(x, lo, hi) => {
            let mut f = from.clone();
            for _ in 0..*lo {
                f = ends(x, w, &f, wide);
            }
            let mut all = f.clone();
            let mut k = *lo;
            while hi.map_or(true, |h| k < h) {
                f = ends(x, w, &f, wide);
                k += 1;
                let n = all.len();
                all.extend(f.iter().copied());
                if all.len() == n && hi.is_none() {
                    break;
                }
            }
            all
        }
    }
}

/// The expression as the parser understands it.
fn parsed(h: &Hir) -> Re {
    match h.kind() {
        HirKind::Empty => Re::Empty,
        HirKind::Literal(l) => Re::Cat(String::from_utf8_lossy(&l.0).chars().map(Re::Lit).collect()),
        HirKind::Class(Class::Unicode(c)) => Re::Class(false, c.ranges().iter().map(|x| (x.start(), x.end())).collect()),
        HirKind::Class(Class::Bytes(c)) => Re::Class(false, c.ranges().iter().map(|x| (x.start() as char, x.end() as char)).collect()),
        HirKind::Look(_) => unreachable!(),
        HirKind::Repetition(r) => Re::Rep(Box::new(parsed(&r.sub)), r.min, r.max),
        HirKind::Capture(c) => Re::Group(Box::new(parsed(&c.sub))),
        HirKind::Concat(v) => Re::Cat(v.iter().map(parsed).collect()),
        HirKind::Alternation(v) => Re::Alt(v.iter().map(parsed).collect()),
    }
}

/// Whether the grammar derives a string of symbols, one out of each set.
fn derives(g: &Gram, root: usize, w: &[BTreeSet<usize>]) -> bool {
    let n = w.len();
    let term = g.terminal();
    let mut t = vec![vec![0u64; n + 1]; g.n];
    for i in 0..n {
        for &x in &w[i] {
            if term[x] {
                t[x][i] |= 1 << (i + 1);
            }
        }
    }
    loop {
        let mut change = false;
        for (l, r) in &g.rules {
            for i in 0..=n {
                let mut f = 1u64 << i;
                for &x in r {
                    let mut nx = 0;
                    for j in i..=n {
                        if f >> j & 1 == 1 {
                            nx |= t[x][j];
                        }
                    }
                    f = nx;
                }
                if f | t[*l][i] != t[*l][i] {
                    t[*l][i] |= f;
                    change = true;
                }
            }
        }
        if !change {
            return t[root][0] >> n & 1 == 1;
        }
    }
}

/// The grammar of a regular expression derives exactly the strings it matches.
pub fn regexp(src: &mut Src) -> Res {
    let depth = if src.small() { 2 } else { src.pick(4) };
    let r = re(src, depth);
    let mut pat = String::new();
    show(&r, &mut pat);
    note(format!("regexp {}", pat));
    let (cfg, mut map) = match Cfg::from_regexp(&pat) {
        Ok(x) => x,
        Err(e) => {
            // patterns with an unreasonable size are refused by the parser
            return if pat.len() > 200 { Ok(Outcome::Discard) } else { Err(format!("refused: {}", e)) };
        }
    };
    let hir = parsed(&regex_syntax::Parser::new().parse(&pat).unwrap());
    map.compute();
    ensure!(cfg.roots().len() == 1, "{} roots", cfg.roots().len());
    let root = cfg.roots()[0].usize();
    let g = Gram::of(&cfg);
    let syms: BTreeSet<usize> = map.classes.values().map(|x| x.usize()).collect();
    ensure!(syms.len() == map.classes.len(), "classes share a symbol");
    // characters worth trying
    let mut al: BTreeSet<char> = BTreeSet::new();
    fn chars(r: &Re, o: &mut BTreeSet<char>) {
        match r {
            Re::Lit(c) => {
                o.insert(*c);
            }
            Re::Class(_, rs) => rs.iter().for_each(|x| {
                o.insert(x.0);
                o.insert(x.1);
            }),
            Re::Cat(v) | Re::Alt(v) => v.iter().for_each(|x| chars(x, o)),
            Re::Rep(x, ..) | Re::Group(x) => chars(x, o),
            _ => {}
        }
    }
    chars(&r, &mut al);
    let mut al: Vec<char> = al.into_iter().collect();
    if src.small() {
        al = vec!['a', 'b', 'c', 'd'];
    } else {
        let more: Vec<char> = al.iter().flat_map(|&c| near(c)).collect();
        while al.len() > 3 {
            al.remove(src.pick(al.len() as u32) as usize);
        }
        if !more.is_empty() {
            al.push(more[src.pick(more.len() as u32) as usize]);
        }
        al.push(CH[src.pick(CH.len() as u32) as usize]);
        al.push('\n');
    }
    let max = 3;
    let mut words: Vec<Vec<char>> = vec![vec![]];
    let mut last = words.clone();
    for _ in 0..max {
        let mut nx = vec![];
        for w in &last {
            for &c in &al {
                let mut v = w.clone();
                v.push(c);
                nx.push(v);
            }
        }
        words.extend(nx.iter().cloned());
        last = nx;
    }
    for _ in 0..if src.small() { 0 } else { 40 } {
        let n = src.range(4, 9);
        words.push((0..n).map(|_| al[src.pick(al.len() as u32) as usize]).collect());
    }
    let from: BTreeSet<usize> = [0].into_iter().collect();
    for w in words {
        let want = ends(&hir, &w, &from, true).contains(&w.len());
        ensure!(want || !ends(&r, &w, &from, false).contains(&w.len()), "{:?} is not matched by the parsed regexp", w);
        let toks: Vec<BTreeSet<usize>> = w.iter().map(|&c| map.get(c).iter().map(|x| x.usize()).collect()).collect();
        let got = derives(&g, root, &toks);
        ensure!(want == got, "{:?} is {} by the regexp, {} by the grammar\n{}", w, if want { "matched" } else { "not matched" }, if got { "derived" } else { "not derived" }, g.text());
    }
    Ok(Outcome::Ok)
}
