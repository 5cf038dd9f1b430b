//! Plain grammars, their generator, and reference (oracle) definitions written
//! directly from the textbook definitions, independent of the code under test.

use crate::core::Src;
use cfg_grammar::Cfg;
use cfg_symbol::{Symbol, SymbolSource};
use std::collections::{BTreeMap, BTreeSet};

pub type Rule = (usize, Vec<usize>);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Gram {
    pub n: usize,
    pub rules: Vec<Rule>,
    pub roots: Vec<usize>,
}

pub fn s(i: usize) -> Symbol {
    SymbolSource::generate_fresh().nth(i).unwrap()
}

pub fn syms(v: &[usize]) -> Vec<Symbol> {
    v.iter().map(|&i| s(i)).collect()
}

impl Gram {
    pub fn text(&self) -> String {
        let mut out = format!("symbols 0..{}; roots {:?}; rules:", self.n, self.roots);
        for (l, r) in &self.rules {
            out += &format!(" {} ::= {:?};", l, r);
        }
        out
    }

    pub fn cfg(&self) -> Cfg {
        let mut c = Cfg::new();
        for _ in 0..self.n {
            c.next_sym(None);
        }
        for (l, r) in &self.rules {
            c.rule(s(*l)).rhs(syms(r));
        }
        c.set_roots(syms(&self.roots));
        c
    }

    pub fn of(c: &Cfg) -> Gram {
        Gram {
            n: c.num_syms(),
            rules: c.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|x| x.usize()).collect())).collect(),
            roots: c.roots().iter().map(|x| x.usize()).collect(),
        }
    }

    pub fn sorted_rules(&self) -> Vec<Rule> {
        let mut v = self.rules.clone();
        v.sort();
        v
    }

    pub fn terminal(&self) -> Vec<bool> {
        let mut t = vec![true; self.n];
        for (l, _) in &self.rules {
            t[*l] = false;
        }
        t
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut nul = vec![false; self.n];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !nul[*l] && r.iter().all(|x| nul[*x]) {
                    nul[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return nul;
            }
        }
    }

    pub fn productive(&self) -> Vec<bool> {
        let mut p = self.terminal();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !p[*l] && r.iter().all(|x| p[*x]) {
                    p[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }

    /// Reachable in one or more rule steps.
    pub fn reach_plus(&self) -> Vec<Vec<bool>> {
        let mut m = vec![vec![false; self.n]; self.n];
        for (l, r) in &self.rules {
            for x in r {
                m[*l][*x] = true;
            }
        }
        close(&mut m);
        m
    }

    pub fn unit_plus(&self) -> Vec<Vec<bool>> {
        let mut m = vec![vec![false; self.n]; self.n];
        for (l, r) in &self.rules {
            if r.len() == 1 && r[0] != *l {
                m[*l][r[0]] = true;
            }
        }
        close(&mut m);
        m
    }

    /// FIRST sets over sentential forms: map nonterminal -> set of terminals.
    pub fn first(&self) -> BTreeMap<usize, BTreeSet<usize>> {
        let t = self.terminal();
        let nul = self.nullable();
        let mut f: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (l, _) in &self.rules {
            f.entry(*l).or_default();
        }
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let set = first_of(&f, &t, &nul, r).0;
                let e = f.get_mut(l).unwrap();
                for x in set {
                    ch |= e.insert(x);
                }
            }
            if !ch {
                return f;
            }
        }
    }

    /// FOLLOW sets; `usize::MAX` stands for the end of input.
    pub fn follow(&self) -> BTreeMap<usize, BTreeSet<usize>> {
        let t = self.terminal();
        let nul = self.nullable();
        let first = self.first();
        let mut f: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (l, _) in &self.rules {
            f.entry(*l).or_default();
        }
        for r in &self.roots {
            if let Some(e) = f.get_mut(r) {
                e.insert(usize::MAX);
            }
        }
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                for i in 0..r.len() {
                    if t[r[i]] {
                        continue;
                    }
                    let (mut set, n) = first_of(&first, &t, &nul, &r[i + 1..]);
                    if n {
                        set.extend(f[l].iter().copied());
                    }
                    let e = f.get_mut(&r[i]).unwrap();
                    for x in set {
                        ch |= e.insert(x);
                    }
                }
            }
            if !ch {
                return f;
            }
        }
    }

    /// All strings of at most `max` terminals derivable from each symbol.
    /// `term[i]` says which symbols stand for themselves; other symbols derive
    /// only what their rules give. Returns None if the sets get too big.
    pub fn lang(&self, max: usize, term: &[bool], cap: usize) -> Option<Vec<BTreeSet<Vec<usize>>>> {
        let mut l: Vec<BTreeSet<Vec<usize>>> = vec![BTreeSet::new(); self.n];
        for i in 0..self.n {
            if i < term.len() && term[i] {
                l[i].insert(vec![i]);
            }
        }
        loop {
            let mut ch = false;
            let mut total = 0usize;
            for (lhs, r) in &self.rules {
                let mut acc: BTreeSet<Vec<usize>> = BTreeSet::new();
                acc.insert(vec![]);
                for x in r {
                    let mut nxt = BTreeSet::new();
                    for a in &acc {
                        for b in &l[*x] {
                            if a.len() + b.len() <= max {
                                let mut c = a.clone();
                                c.extend(b.iter().copied());
                                nxt.insert(c);
                            }
                        }
                    }
                    acc = nxt;
                    if acc.is_empty() {
                        break;
                    }
                    total += acc.len();
                    if total > cap {
                        return None;
                    }
                }
                for a in acc {
                    ch |= l[*lhs].insert(a);
                }
            }
            if !ch {
                return Some(l);
            }
        }
    }
}

pub fn first_of(
    f: &BTreeMap<usize, BTreeSet<usize>>,
    t: &[bool],
    nul: &[bool],
    w: &[usize],
) -> (BTreeSet<usize>, bool) {
    let mut out = BTreeSet::new();
    for &x in w {
        if t[x] {
            out.insert(x);
            return (out, false);
        }
        out.extend(f[&x].iter().copied());
        if !nul[x] {
            return (out, false);
        }
    }
    (out, true)
}

pub fn close(m: &mut [Vec<bool>]) {
    let n = m.len();
    for k in 0..n {
        for i in 0..n {
            if m[i][k] {
                for j in 0..n {
                    if m[k][j] {
                        m[i][j] = true;
                    }
                }
            }
        }
    }
}

pub struct Size {
    pub n: u32,
    pub lhs: u32,
    pub rules: u32,
    pub rhs: u32,
}

/// Small profile: up to `sz` with uniform choices (used for exhaustive enumeration).
pub fn small_gram(src: &mut Src, sz: &Size) -> Gram {
    let n = sz.n as usize;
    let k = src.range(1, sz.rules);
    let mut rules = vec![];
    for _ in 0..k {
        let l = src.pick(sz.lhs) as usize;
        let len = src.pick(sz.rhs + 1);
        let r = (0..len).map(|_| src.pick(sz.n) as usize).collect();
        rules.push((l, r));
    }
    let roots = vec![src.pick(sz.lhs) as usize];
    Gram { n, rules, roots }
}

/// Random profile: a mix of shapes (sparse, dense, chains, cycles, nulling-heavy, unused symbols).
pub fn rand_gram(src: &mut Src, max_n: u32, max_rules: u32, max_rhs: u32) -> Gram {
    let n = src.range(1, max_n);
    let nts = src.range(1, n);
    let k = src.pick(max_rules + 1);
    let style = src.pick(6);
    let mut rules: Vec<Rule> = vec![];
    for i in 0..k {
        if !rules.is_empty() && src.pick(12) == 0 {
            let j = src.pick(rules.len() as u32) as usize;
            rules.push(rules[j].clone());
            continue;
        }
        let l = match style {
            0 => i % nts,
            _ => src.pick(nts),
        } as usize;
        let len = match style {
            1 => src.pick(2),
            2 => 1,
            3 => src.pick(3),
            _ => {
                let a = src.pick(max_rhs + 1);
                let b = src.pick(max_rhs + 1);
                if src.flag() { a.min(b) } else { a }
            }
        };
        let mut r = vec![];
        for _ in 0..len {
            let x = match src.pick(4) {
                0 if nts < n => nts + src.pick(n - nts),
                1 => src.pick(nts),
                2 if style == 4 => l as u32,
                _ => src.pick(n),
            };
            r.push(x as usize);
        }
        rules.push((l, r));
    }
    let nr = src.pick(3);
    let mut roots: Vec<usize> = vec![];
    for _ in 0..nr {
        let x = if src.flag() { src.pick(nts) } else { src.pick(n) } as usize;
        if !roots.contains(&x) {
            roots.push(x);
        }
    }
    // Shift nonterminal numbering sometimes, so that terminals do not always come last.
    if src.flag() && n > 1 {
        let sh = src.range(1, n - 1) as usize;
        let m = |x: usize| (x + sh) % n as usize;
        for (l, r) in rules.iter_mut() {
            *l = m(*l);
            for x in r.iter_mut() {
                *x = m(*x);
            }
        }
        for x in roots.iter_mut() {
            *x = m(*x);
        }
    }
    Gram { n: n as usize, rules, roots }
}

pub fn gram(src: &mut Src) -> Gram {
    if src.small() {
        small_gram(src, &Size { n: 3, lhs: 2, rules: 3, rhs: 2 })
    } else {
        rand_gram(src, 8, 12, 5)
    }
}

/// A grammar value with a past: other operations of the library ran on it (or on
/// clones of it) first, so leftover internal state is part of the input space.
pub fn cfg_with_past(src: &mut Src, g: &Gram) -> Cfg {
    let mut c = g.cfg();
    if src.small() {
        return c;
    }
    for _ in 0..src.pick(4) {
        match src.pick(6) {
            0 => {
                let mut p = c.nulling_symbols();
                c.rhs_closure_for_all(&mut p);
            }
            1 => {
                let mut p = c.terminal_symbols();
                c.rhs_closure_for_any(&mut p);
            }
            2 => {
                let mut v: Vec<Option<u32>> = (0..c.num_syms()).map(|i| if i % 2 == 0 { Some(1) } else { None }).collect();
                c.rhs_closure_with_values(&mut v);
            }
            3 => c.sort(),
            4 => c = c.clone(),
            _ => {
                let r = c.roots().to_vec();
                c.set_roots(r);
            }
        }
    }
    c
}
