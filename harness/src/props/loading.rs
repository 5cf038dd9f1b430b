//! G23: grammars from BNF texts.
use super::*;
use cfg_load::CfgLoadExt;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Is,
    Semi,
    Pipe,
    Plus,
    Star,
    Open,
    Close,
}

/// The tokens of a text, if it has no other characters than those of tokens and blanks.
fn tokens(t: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = t.chars().collect();
    let first = |x: char| x.is_ascii_alphabetic() || x == '_';
    let (mut v, mut i) = (vec![], 0);
    while i < c.len() {
        let mut n = 1;
        match c[i] {
            ' ' | '\n' | '\t' => {}
            ';' => v.push(Tok::Semi),
            '|' => v.push(Tok::Pipe),
            '+' => v.push(Tok::Plus),
            '*' => v.push(Tok::Star),
            '(' => v.push(Tok::Open),
            ')' => v.push(Tok::Close),
            ':' => {
                if c.get(i + 1) != Some(&':') || c.get(i + 2) != Some(&'=') {
                    return None;
                }
                n = 3;
                v.push(Tok::Is);
            }
            x if first(x) => {
                while i + n < c.len() && (first(c[i + n]) || c[i + n].is_ascii_digit()) {
                    n += 1;
                }
                v.push(Tok::Id(c[i..i + n].iter().collect()));
            }
            _ => return None,
        }
        i += n;
    }
    Some(v)
}

/// A name and how it repeats: 0 is once, 1 is `+`, 2 is `*`.
type Frag = (String, u8);
type Lines = Vec<(String, Vec<Frag>)>;

/// The rules of a text.
fn parse(t: &[Tok]) -> Option<Lines> {
    let (mut out, mut i) = (vec![], 0);
    if t.is_empty() {
        return None;
    }
    while i < t.len() {
        let Tok::Id(l) = &t[i] else { return None };
        if t.get(i + 1) != Some(&Tok::Is) {
            return None;
        }
        i += 2;
        if t.get(i) == Some(&Tok::Semi) {
            out.push((l.clone(), vec![]));
            i += 1;
            continue;
        }
        loop {
            let mut alt = vec![];
            let mut k = 0;
            loop {
                match t.get(i) {
                    Some(Tok::Id(x)) => {
                        i += 1;
                        let rep = match t.get(i) {
                            Some(Tok::Plus) => 1,
                            Some(Tok::Star) => 2,
                            _ => 0,
                        };
                        if rep > 0 {
                            i += 1;
                        }
                        alt.push((x.clone(), rep));
                    }
                    Some(Tok::Open) if t.get(i + 1) == Some(&Tok::Close) => i += 2,
                    _ => break,
                }
                k += 1;
            }
            if k == 0 {
                return None;
            }
            out.push((l.clone(), alt));
            match t.get(i) {
                Some(Tok::Pipe) => i += 1,
                Some(Tok::Semi) => {
                    i += 1;
                    break;
                }
                _ => return None,
            }
        }
    }
    Some(out)
}

const NAMES: [&str; 9] = ["a", "b", "S", "_", "x1", "Expr", "a1", "B_2", "abc"];

fn name(src: &mut Src) -> String {
    let n = if src.small() { 2 } else { NAMES.len() as u32 };
    NAMES[src.pick(n) as usize].to_string()
}

fn blank(src: &mut Src, must: bool) -> String {
    if src.small() {
        return " ".to_string();
    }
    match src.pick(6) {
        0 if !must => String::new(),
        1 => "\n".to_string(),
        2 => "\t  ".to_string(),
        _ => " ".to_string(),
    }
}

fn text(src: &mut Src) -> String {
    let mut t = String::new();
    let n = src.range(1, if src.small() { 2 } else { 5 });
    for _ in 0..n {
        t += &blank(src, false);
        t += &name(src);
        t += &blank(src, false);
        t += "::=";
        let alts = src.range(0, if src.small() { 2 } else { 3 });
        for a in 0..alts {
            if a > 0 {
                t += &blank(src, false);
                t.push('|');
            }
            let m = src.range(1, if src.small() { 2 } else { 4 });
            for k in 0..m {
                t += &blank(src, k > 0);
                let f = src.pick(5);
                if f == 4 {
                    t += "(";
                    t += &blank(src, false);
                    t += ")";
                } else {
                    t += &name(src);
                    if f > 1 {
                        t += &blank(src, false);
                        t.push(if f == 2 { '+' } else { '*' });
                    }
                }
            }
        }
        t += &blank(src, false);
        t.push(';');
    }
    t += &blank(src, false);
    if !src.small() && src.pick(4) == 0 {
        // spoil it
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..1 + src.pick(2) {
            let i = src.pick(c.len().max(1) as u32) as usize;
            let x = [':', '=', ';', '|', '+', '*', '(', ')', 'a', '0', ' ', '"', 'é', '~', '\r'][src.pick(15) as usize];
            match src.pick(3) {
                0 if !c.is_empty() => {
                    c.remove(i);
                }
                1 if !c.is_empty() => c[i] = x,
                _ => c.insert(i.min(c.len()), x),
            }
        }
        t = c.into_iter().collect();
    }
    t
}

/// The numbers of copies of `x` that `l` derives, up to 5, if it derives nothing else.
fn copies(g: &Gram, l: usize, x: usize) -> Option<Vec<bool>> {
    let mut know: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    know.insert(x, [1].into_iter().collect());
    loop {
        let mut change = false;
        for (h, r) in &g.rules {
            // `x` may have rules of its own: it stands for itself here
            if *h == x {
                continue;
            }
            let mut n: BTreeSet<usize> = [0].into_iter().collect();
            for y in r {
                let k = know.get(y).cloned().unwrap_or_default();
                n = n.iter().flat_map(|a| k.iter().map(move |b| a + b)).filter(|&z| z <= 5).collect();
            }
            let e = know.entry(*h).or_default();
            let before = e.len();
            e.extend(n);
            change |= e.len() != before;
        }
        if !change {
            break;
        }
    }
    let k = know.get(&l)?;
    Some((0..=5).map(|i| k.contains(&i)).collect())
}

/// The loaded grammar is the one that is written.
pub fn load(src: &mut Src) -> Res {
    let t = text(src);
    note(format!("text {:?}", t));
    let want = tokens(&t).and_then(|x| parse(&x));
    let got = Cfg::load(&t);
    let (lines, cfg) = match (want, got) {
        (None, Err(_)) => return Ok(Outcome::Ok),
        (None, Ok(_)) => return Err("loaded, though it is not in the format".to_string()),
        (Some(_), Err(e)) => return Err(format!("refused: {}", e)),
        (Some(a), Ok(b)) => (a, b),
    };
    let mut sym: BTreeMap<String, usize> = BTreeMap::new();
    for i in 0..cfg.num_syms() {
        if let Some(x) = cfg.sym_source().original_name_of(s(i)) {
            ensure!(sym.insert(x.to_string(), i).is_none(), "two symbols are named {}", x);
        }
    }
    let used: BTreeSet<String> = lines.iter().flat_map(|l| l.1.iter().map(|f| f.0.clone()).chain([l.0.clone()])).collect();
    ensure!(used == sym.keys().cloned().collect(), "named symbols {:?}, expected {:?}", sym.keys(), used);
    let g = Gram::of(&cfg);
    ensure!(g.roots == vec![sym[&lines[0].0]], "roots {:?}", g.roots);
    let named: BTreeSet<usize> = sym.values().copied().collect();
    let rules: Vec<&Rule> = g.rules.iter().filter(|r| named.contains(&r.0)).collect();
    ensure!(rules.len() == lines.len(), "{} rules of named symbols, expected {}", rules.len(), lines.len());
    let mut reps: BTreeSet<usize> = BTreeSet::new();
    for (r, l) in rules.iter().zip(&lines) {
        ensure!(r.0 == sym[&l.0] && r.1.len() == l.1.len(), "rule {:?} for {:?}", r, l);
        for (&x, f) in r.1.iter().zip(&l.1) {
            let y = sym[&f.0];
            if f.1 == 0 {
                ensure!(x == y, "symbol {} for {:?}", x, f);
            } else {
                ensure!(!named.contains(&x) && reps.insert(x), "symbol {} for {:?}", x, f);
                let k = copies(&g, x, y).unwrap_or_default();
                let w: Vec<bool> = (0..=5).map(|i| f.1 == 2 || i > 0).collect();
                ensure!(k == w, "{} derives {:?} for {:?}", x, k, f);
            }
        }
    }
    Ok(Outcome::Ok)
}

/// A printed grammar loads as itself.
pub fn print_load(src: &mut Src) -> Res {
    let mut c = Cfg::new();
    let n = src.range(1, if src.small() { 2 } else { 6 }) as usize;
    let unnamed = src.pick(3);
    let names: Vec<&str> = NAMES[..n].to_vec();
    for x in &names {
        c.next_sym(if unnamed > 0 { Some(x.to_string().into()) } else { None });
    }
    let m = src.range(1, if src.small() { 2 } else { 6 });
    let mut rules: Vec<Rule> = vec![];
    for _ in 0..m {
        let l = src.pick(n as u32) as usize;
        let k = src.range(0, if src.small() { 2 } else { 4 });
        let r: Vec<usize> = (0..k).map(|_| src.pick(n as u32) as usize).collect();
        c.rule(s(l)).rhs(syms(&r));
        rules.push((l, r));
    }
    let t = c.to_bnf();
    note(format!("rules {:?}, text {:?}", rules, t));
    let d = Cfg::load(&t).map_err(|e| format!("refused: {}", e))?;
    let nm = |i: usize| if unnamed > 0 { names[i].to_string() } else { format!("g{}", i) };
    let want: Vec<(String, Vec<String>)> = rules.iter().map(|r| (nm(r.0), r.1.iter().map(|&x| nm(x)).collect())).collect();
    let got: Vec<(String, Vec<String>)> = d
        .rules()
        .map(|r| (d.sym_source().name_of(r.lhs).to_string(), r.rhs.iter().map(|&x| d.sym_source().name_of(x).to_string()).collect()))
        .collect();
    ensure!(want == got, "loaded {:?}, expected {:?}", got, want);
    Ok(Outcome::Ok)
}
