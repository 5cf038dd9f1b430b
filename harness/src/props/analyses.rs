use super::*;
use cfg_classify::ll::LlNonterminalClass;
use cfg_classify::CfgClassifyExt;
use cfg_generate::weighted::random::{GenRange, Limits, RandomGenError};
use cfg_generate::weighted::Random;
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use cfg_predict_sets::{CfgSetsExt, LastSets, PerSymbolSets, PredictSets};
use cfg_symbol_bit_matrix::CfgSymbolBitMatrixExt;

fn seeds(src: &mut Src, n: usize) -> Vec<bool> {
    (0..n).map(|_| src.flag()).collect()
}

/// G03: closure over right-hand sides.
pub fn closure(src: &mut Src) -> Res {
    let g = gram(src);
    let mut c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    let seed = seeds(src, g.n);
    note(format!("{} seed {:?}", g.text(), of_bools(&seed)));
    for round in 0..2 {
        for all in [true, false] {
            let mut want = seed.clone();
            loop {
                let mut ch = false;
                for (l, r) in &g.rules {
                    let sat = !r.is_empty() && if all { r.iter().all(|x| want[*x]) } else { r.iter().any(|x| want[*x]) };
                    if sat && !want[*l] {
                        want[*l] = true;
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
            let mut p = bitset(&c, &seed);
            if all {
                c.rhs_closure_for_all(&mut p);
            } else {
                c.rhs_closure_for_any(&mut p);
            }
            ensure!(set_of(&p) == of_bools(&want), "closure ({}, call {}) = {:?}, expected {:?}", if all { "all" } else { "any" }, round, set_of(&p), of_bools(&want));
            ensure!(p.space() == g.n, "space changed");
        }
        ensure!(Gram::of(&c) == g, "closure changed the grammar");
        c = c.clone();
    }
    Ok(Outcome::Ok)
}

/// G04: minimal values over right-hand sides.
fn value(src: &mut Src) -> u32 {
    if src.small() {
        return src.pick(3);
    }
    let v = src.pick(9);
    if src.pick(6) == 0 { u32::MAX - v } else { v }
}

pub fn values(src: &mut Src) -> Res {
    let g = gram(src);
    let mut c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    let seed: Vec<Option<u32>> = (0..g.n).map(|_| if src.flag() { Some(value(src)) } else { None }).collect();
    note(format!("{} values {:?}", g.text(), seed));
    let mut want: Vec<Option<u64>> = seed.iter().map(|x| x.map(|y| y as u64)).collect();
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            if r.is_empty() {
                continue;
            }
            let sum: Option<u64> = r.iter().map(|x| want[*x]).sum();
            if let Some(v) = sum.filter(|v| *v <= u32::MAX as u64) {
                if want[*l].map_or(true, |w| v < w) {
                    want[*l] = Some(v);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    for round in 0..2 {
        let mut v = seed.clone();
        c.rhs_closure_with_values(&mut v[..]);
        let got: Vec<Option<u64>> = v.iter().map(|x| x.map(|y| y as u64)).collect();
        ensure!(got == want, "values (call {}) = {:?}, expected {:?}", round, got, want);
    }
    ensure!(Gram::of(&c) == g, "closure changed the grammar");
    Ok(Outcome::Ok)
}

fn check_sets(what: &str, sets: &PerSymbolSets, want: &BTreeMap<usize, BTreeSet<usize>>, none: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let keys: Vec<usize> = sets.keys().map(|x| x.usize()).collect();
    let wk: Vec<usize> = want.keys().copied().collect();
    ensure!(keys == wk, "{}: sets for {:?}, expected for {:?}", what, keys, wk);
    for (k, v) in sets {
        let got: Vec<usize> = v.list.iter().map(|x| x.usize()).collect();
        let w: Vec<usize> = want[&k.usize()].iter().copied().collect();
        ensure!(got == w, "{}({}) = {:?}, expected {:?}", what, k.usize(), got, w);
        ensure!(v.has_none() == none(k.usize()), "{}({}) has_none = {}", what, k.usize(), v.has_none());
    }
    Ok(())
}

/// G08: FIRST and LAST.
pub fn first_last(src: &mut Src) -> Res {
    let g = gram(src);
    let c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    let w: Vec<usize> = (0..src.pick(if src.small() { 3 } else { 6 })).map(|_| src.pick(g.n as u32) as usize).collect();
    note(format!("{} string {:?}", g.text(), w));
    let nul = g.nullable();
    let f = c.first_sets();
    check_sets("FIRST", f.predict_sets(), &g.first(), &|x| nul[x])?;
    let rev = Gram { rules: g.rules.iter().map(|(l, r)| (*l, r.iter().rev().copied().collect())).collect(), ..g.clone() };
    let l = LastSets::new(&c);
    check_sets("LAST", l.predict_sets(), &rev.first(), &|x| nul[x])?;
    let got = f.first_set_for_string(&syms(&w));
    let (ws, wn) = first_of(&g.first(), &g.terminal(), &nul, &w);
    let gs: BTreeSet<usize> = got.list.iter().map(|x| x.usize()).collect();
    ensure!(gs == ws && got.has_none() == wn, "FIRST of {:?} = {:?} nullable {}, expected {:?} nullable {}", w, gs, got.has_none(), ws, wn);
    ensure!(Gram::of(&c) == g, "the grammar changed");
    Ok(Outcome::Ok)
}

/// G09: FOLLOW.
pub fn follow(src: &mut Src) -> Res {
    let g = gram(src);
    let c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    note(g.text());
    let want = g.follow();
    let mut list: BTreeMap<usize, BTreeSet<usize>> = want.clone();
    for v in list.values_mut() {
        v.remove(&usize::MAX);
    }
    let f = c.follow_sets();
    check_sets("FOLLOW", f.predict_sets(), &list, &|x| want[&x].contains(&usize::MAX))?;
    let f = c.follow_sets_with_first(&c.first_sets());
    check_sets("FOLLOW", f.predict_sets(), &list, &|x| want[&x].contains(&usize::MAX))?;
    Ok(Outcome::Ok)
}

/// G10: LL(1) classes.
pub fn ll1(src: &mut Src) -> Res {
    let g = gram(src);
    let c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    note(g.text());
    let (f, fo, t, nul) = (g.first(), g.follow(), g.terminal(), g.nullable());
    let mut table: BTreeMap<(usize, usize), BTreeSet<usize>> = BTreeMap::new();
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let (mut set, n) = first_of(&f, &t, &nul, r);
        if n {
            set.extend(fo[l].iter().copied().filter(|x| *x != usize::MAX));
        }
        for x in set {
            table.entry((*l, x)).or_default().insert(i);
        }
    }
    let mut bad = vec![false; g.n];
    let mut listed = BTreeSet::new();
    for ((l, _), v) in &table {
        listed.insert(*l);
        if v.len() > 1 {
            bad[*l] = true;
        }
    }
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            if !bad[*l] && r.iter().any(|x| bad[*x]) {
                bad[*l] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let cl = c.ll_parse_table().classify();
    let got: BTreeMap<usize, bool> = cl.classes().iter().map(|(k, v)| (k.usize(), *v == LlNonterminalClass::ContextFree)).collect();
    let want: BTreeMap<usize, bool> = listed.iter().map(|x| (*x, bad[*x])).collect();
    ensure!(got == want, "classes (true = not LL(1)) {:?}, expected {:?}", got, want);
    Ok(Outcome::Ok)
}

/// G11: usefulness.
pub fn useful(src: &mut Src) -> Res {
    let g = gram(src);
    let c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    let given: Vec<usize> = if src.small() { vec![] } else { (0..src.pick(3)).map(|_| src.pick(g.n as u32) as usize).collect() };
    note(format!("{} other roots {:?}", g.text(), given));
    let p = g.productive();
    let rp = g.reach_plus();
    let mut used = vec![false; g.n];
    for (l, r) in &g.rules {
        used[*l] = true;
        for x in r {
            used[*x] = true;
        }
    }
    for which in 0..2 {
        let roots = if which == 0 { &g.roots } else { &given };
        let reach: Vec<bool> = (0..g.n).map(|i| roots.iter().any(|r| *r == i || rp[*r][i])).collect();
        let useful = |r: &Rule| reach[r.0] && r.1.iter().all(|x| p[*x]);
        let mut c1 = c.clone();
        let u = if which == 0 { c1.usefulness() } else { c1.usefulness_with_roots(&syms(&given)) };
        for i in 0..g.n {
            ensure!(u.productivity(s(i)) == p[i], "productivity({}) = {}", i, u.productivity(s(i)));
        }
        ensure!(u.all_productive() == p.iter().all(|x| *x), "all_productive() = {}", u.all_productive());
        let ar = (0..g.n).all(|i| reach[i] || !used[i]);
        ensure!(u.all_reachable() == ar, "all_reachable() = {}", u.all_reachable());
        let au = g.rules.iter().all(|r| useful(r));
        ensure!(u.all_useful() == au, "all_useful() = {}, expected {}", u.all_useful(), au);
        for (x, r) in c.rules().zip(&g.rules) {
            let got = u.usefulness(x);
            let w = (reach[r.0], r.1.iter().all(|y| p[*y]));
            ensure!((got.usefulness().reachable, got.usefulness().productive) == w, "usefulness of {:?} (reachable, productive) = {:?}, expected {:?}", r, got.usefulness(), w);
        }
        let got: Vec<Rule> = u.useless_rules(&c).map(|x| (x.rule().lhs.usize(), x.rule().rhs.iter().map(|y| y.usize()).collect())).collect();
        let want: Vec<Rule> = g.rules.iter().filter(|r| !useful(r)).cloned().collect();
        ensure!(got == want, "useless rules {:?}, expected {:?}", got, want);
        let kept: Vec<Rule> = g.rules.iter().filter(|r| useful(r)).cloned().collect();
        let mut c2 = c.clone();
        u.remove_useless_rules(&mut c2);
        let g2 = Gram::of(&c2);
        ensure!(g2.rules == kept, "after removal {:?}, expected {:?}", g2.rules, kept);
        if which == 0 {
            let mut c3 = c.clone();
            let was_proper = c3.make_proper();
            ensure!(was_proper == au, "make_proper() = {}, expected {}", was_proper, au);
            ensure!(Gram::of(&c3).rules == kept, "after make_proper() {:?}, expected {:?}", Gram::of(&c3).rules, kept);
            ensure!(c3.roots() == c.roots(), "roots changed");
        }
        let t = g.terminal();
        if let (Some(a), Some(b)) = (g.lang(3, &t, 3000), g2.lang(3, &t, 3000)) {
            for r in roots {
                ensure!(a[*r] == b[*r], "the language of root {} changed", r);
            }
        }
    }
    Ok(Outcome::Ok)
}

/// G13: reachability and recursion.
pub fn recursion(src: &mut Src) -> Res {
    let g = gram(src);
    let c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    note(g.text());
    let rp = g.reach_plus();
    let up = g.unit_plus();
    let (m, u, d) = (c.reachability_matrix(), c.unit_derivation_matrix(), c.direct_derivation_matrix());
    let e = c.empty_matrix();
    ensure!(m.size() == (g.n, g.n) && u.size() == (g.n, g.n) && e.size() == (g.n, g.n), "matrix size");
    let mrefl = c.reachability_matrix().reflexive();
    for i in 0..g.n {
        for j in 0..g.n {
            ensure!(m[(s(i), s(j))] == rp[i][j], "reachability ({}, {}) = {}", i, j, m[(s(i), s(j))]);
            ensure!(mrefl[(s(i), s(j))] == (rp[i][j] || i == j), "reflexive reachability ({}, {})", i, j);
            ensure!(u[(s(i), s(j))] == up[i][j], "unit derivation ({}, {}) = {}", i, j, u[(s(i), s(j))]);
            let direct = g.rules.iter().any(|(l, r)| *l == i && r.contains(&j));
            ensure!(d[(s(i), s(j))] == direct, "direct derivation ({}, {}) = {}", i, j, d[(s(i), s(j))]);
            ensure!(!e[(s(i), s(j))], "empty matrix has ({}, {})", i, j);
        }
        let row: Vec<usize> = m.iter_row_syms(s(i)).map(|x| x.usize()).collect();
        ensure!(row == of_bools(&rp[i]).into_iter().collect::<Vec<_>>(), "row {} is {:?}", i, row);
    }
    let rec = c.recursion();
    let got: Vec<(Rule, [bool; 3])> = rec
        .recursive_rules()
        .map(|x| ((x.rule.lhs.usize(), x.rule.rhs.iter().map(|y| y.usize()).collect()), [x.recursion.left, x.recursion.middle, x.recursion.right]))
        .collect();
    let mut want = vec![];
    for r in &g.rules {
        let n = r.1.len();
        if n == 0 {
            continue;
        }
        let rc: Vec<bool> = r.1.iter().map(|x| rp[*x][r.0]).collect();
        let k = [rc[0], rc.iter().enumerate().any(|(i, x)| *x && i > 0 && i + 1 < n), rc[n - 1]];
        if k.iter().any(|x| *x) {
            want.push((r.clone(), k));
        }
    }
    ensure!(got == want, "recursive rules (left, middle, right) {:?}, expected {:?}", got, want);
    Ok(Outcome::Ok)
}

#[derive(Clone)]
struct Cut {
    rng: Rng,
    left: u32,
    mode: u32,
}
impl GenRange for Cut {
    fn generate(&mut self, limit: f64) -> f64 {
        if self.left == 0 {
            std::panic::panic_any("cut".to_string());
        }
        self.left -= 1;
        let x = (self.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
        match self.mode {
            0 => 0.0,
            1 => limit,
            2 => ((x * 8.0).floor() / 8.0) * limit,
            _ => x * limit,
        }
    }
    fn mutate_start(&mut self, _: u64) {}
}

/// G18: generated strings are sentences.
pub fn random(src: &mut Src) -> Res {
    let g = if src.small() { small_gram(src, &Size { n: 3, lhs: 2, rules: 3, rhs: 2 }) } else { rand_gram(src, 6, 9, 4) };
    let mut c = Cfg::new();
    for _ in 0..g.n {
        c.next_sym(None);
    }
    for (l, r) in &g.rules {
        let w = if src.small() { 9 } else { src.pick(6) };
        let h: cfg_history::earley::History = cfg_history::RootHistoryNode::Rule { lhs: s(*l) }.into();
        let h = match w {
            0 => cfg_history::HistoryNodeWeight { prev: h, weight: 0.5 }.into(),
            1 => cfg_history::HistoryNodeWeight { prev: h, weight: 3.0 }.into(),
            2 => cfg_history::HistoryNodeWeight { prev: h, weight: 0.001 }.into(),
            _ => h,
        };
        c.rule(s(*l)).rhs_with_history(syms(r), h);
    }
    let p = g.productive();
    if !p.iter().all(|x| *x) {
        return Ok(Outcome::Discard);
    }
    // Nonterminals with a single rule never consult the random source; they must not loop by themselves.
    let single: Vec<bool> = (0..g.n).map(|i| g.rules.iter().filter(|r| r.0 == i).count() == 1).collect();
    let mut m = vec![vec![false; g.n]; g.n];
    for (l, r) in &g.rules {
        if single[*l] {
            for x in r {
                m[*l][*x] = true;
            }
        }
    }
    close(&mut m);
    if (0..g.n).any(|i| m[i][i]) {
        return Ok(Outcome::Discard);
    }
    let start = src.pick(g.n as u32) as usize;
    let lim = match src.pick(3) {
        0 => None,
        1 => Some(src.pick(4) as u64),
        _ => Some(src.pick(9) as u64),
    };
    let mode = src.pick(4);
    let seed = if src.small() { 1 } else { src.pick(1 << 16) as u64 };
    note(format!("{} start {} limit {:?} mode {} seed {}", g.text(), start, lim, mode, seed));
    let t = g.terminal();
    let mut cut = Cut { rng: Rng::new(seed), left: 60, mode };
    let to_char = |x: Symbol, _: &mut Cut| if x.usize() % 3 == 2 { None } else { Some((b'a' + x.usize() as u8) as char) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        c.random(s(start), lim.map(|x| Limits { terminals: x, negative_rule_attempts: 0 }), &mut cut, &[], to_char)
    }));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            if e.downcast_ref::<String>().map_or(false, |x| x == "cut") {
                return Ok(Outcome::Discard);
            }
            std::panic::resume_unwind(e)
        }
    };
    match r {
        Ok((v, ch)) => {
            let v: Vec<usize> = v.iter().map(|x| x.usize()).collect();
            ensure!(v.iter().all(|x| t[*x]), "{:?} contains nonterminals", v);
            if let Some(l) = lim {
                ensure!(v.len() as u64 <= l, "{} terminals generated with limit {}", v.len(), l);
            }
            ensure!(member(&g, start, &v), "{:?} is not a sentence", v);
            let want: Vec<char> = v.iter().filter(|x| **x % 3 != 2).map(|x| (b'a' + *x as u8) as char).collect();
            ensure!(ch == want, "characters {:?}, expected {:?}", ch, want);
        }
        Err(RandomGenError::LimitExceeded) => {
            let l = match lim {
                Some(l) => l,
                None => return Err("limit exceeded without a limit".into()),
            };
            // Some sentence must be longer than the limit.
            let mut len = longest_capped(&g, start, l as usize + 1);
            if t[start] {
                len = 1;
            }
            ensure!(len > l as usize, "limit {} reported as exceeded, but all sentences are shorter", l);
        }
        Err(e) => return Err(format!("unexpected error {:?}", e)),
    }
    Ok(Outcome::Ok)
}

#[derive(Clone)]
struct Even(f64);
impl GenRange for Even {
    fn generate(&mut self, limit: f64) -> f64 {
        self.0 * limit
    }
    fn mutate_start(&mut self, _: u64) {}
}

/// G18: each alternative gets its share of the draws.
pub fn shares(src: &mut Src) -> Res {
    let small = src.small();
    let k = src.range(2, if small { 3 } else { 5 }) as usize;
    let weights: Vec<Option<f64>> = (0..k).map(|_| match src.pick(if small { 3 } else { 6 }) { 0 => None, 1 => Some(0.5), 2 => Some(3.0), 3 => Some(0.25), 4 => Some(1.0), _ => Some(0.0) }).collect();
    let other = if small { 0 } else { src.pick(3) as usize };
    let mut c = Cfg::new();
    for _ in 0..k + 2 {
        c.next_sym(None);
    }
    for (i, w) in weights.iter().enumerate() {
        if i < other {
            c.rule(s(k + 1)).rhs([s(i)]);
        }
        let h: cfg_history::earley::History = cfg_history::RootHistoryNode::Rule { lhs: s(k) }.into();
        let h = match w {
            Some(w) => cfg_history::HistoryNodeWeight { prev: h, weight: *w }.into(),
            None => h,
        };
        c.rule(s(k)).rhs_with_history([s(i)], h);
    }
    note(format!("alternatives with weights {:?} (none = 1)", weights));
    let total: f64 = weights.iter().map(|w| w.unwrap_or(1.0)).sum();
    if total == 0.0 {
        return Ok(Outcome::Discard);
    }
    let n = 100;
    let mut count = vec![0usize; k];
    for j in 0..n {
        let mut e = Even((j as f64 + 0.5) / n as f64);
        match c.random(s(k), None, &mut e, &[], |_, _| None) {
            Ok((v, _)) => {
                ensure!(v.len() == 1 && v[0].usize() < k, "generated {:?}", v);
                count[v[0].usize()] += 1;
            }
            Err(e) => return Err(format!("unexpected error {:?}", e)),
        }
    }
    for i in 0..k {
        let want = n as f64 * weights[i].unwrap_or(1.0) / total;
        ensure!((count[i] as f64 - want).abs() <= 1.5, "alternative {} got {} of {} evenly spaced draws, its share is {:.1}", i, count[i], n, want);
    }
    Ok(Outcome::Ok)
}

fn longest_capped(g: &Gram, start: usize, cap: usize) -> usize {
    let t = g.terminal();
    let mut len: Vec<Option<usize>> = t.iter().map(|x| if *x { Some(1) } else { None }).collect();
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            if r.iter().all(|x| len[*x].is_some()) {
                let v = r.iter().map(|x| len[*x].unwrap()).sum::<usize>().min(cap);
                if len[*l].map_or(true, |w| v > w) {
                    len[*l] = Some(v);
                    ch = true;
                }
            }
        }
        if !ch {
            return len[start].unwrap_or(0);
        }
    }
}

/// Membership by dynamic programming over spans (any grammar).
fn member(g: &Gram, start: usize, w: &[usize]) -> bool {
    let n = w.len();
    let t = g.terminal();
    let idx = |i: usize, j: usize| i * (n + 1) + j;
    let mut d = vec![vec![false; (n + 1) * (n + 1)]; g.n];
    for x in 0..g.n {
        if t[x] {
            for i in 0..n {
                d[x][idx(i, i + 1)] = w[i] == x;
            }
        }
    }
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            for i in 0..=n {
                let mut cur = vec![false; n + 1];
                cur[i] = true;
                for x in r {
                    let mut nx = vec![false; n + 1];
                    for j in i..=n {
                        if cur[j] {
                            for k in j..=n {
                                if d[*x][idx(j, k)] {
                                    nx[k] = true;
                                }
                            }
                        }
                    }
                    cur = nx;
                }
                for k in i..=n {
                    if cur[k] && !d[*l][idx(i, k)] {
                        d[*l][idx(i, k)] = true;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            return d[start][idx(0, n)];
        }
    }
}

/// G19: minimal distances.
pub fn distances(src: &mut Src) -> Res {
    let g = if src.small() { small_gram(src, &Size { n: 3, lhs: 2, rules: 2, rhs: 3 }) } else { rand_gram(src, 6, 7, 4) };
    let c = g.cfg();
    if !g.productive().iter().all(|x| *x) || g.rules.is_empty() {
        return Ok(Outcome::Discard);
    }
    let nd = if src.small() { 1 } else { src.pick(4) };
    let mut dots: Vec<(usize, usize)> = vec![];
    for _ in 0..nd {
        let i = src.pick(g.rules.len() as u32) as usize;
        dots.push((i, src.pick(g.rules[i].1.len() as u32 + 1) as usize));
    }
    let dir = src.pick(3);
    note(format!("{} dots {:?} direction {} (0=forward 1=backward 2=symmetric)", g.text(), dots, ["forward", "backward", "symmetric"][dir as usize]));
    // Minimal lengths.
    let t = g.terminal();
    let mut ml: Vec<Option<u64>> = t.iter().map(|x| if *x { Some(1) } else { None }).collect();
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            let sum: Option<u64> = r.iter().map(|x| ml[*x]).sum();
            if let Some(v) = sum {
                if ml[*l].map_or(true, |w| v < w) {
                    ml[*l] = Some(v);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    let ml: Vec<u64> = ml.into_iter().map(|x| x.unwrap()).collect();
    // Within one rule (upper bound) and over the whole grammar (lower bound).
    let inf = u64::MAX / 4;
    let fwd_in = |i: usize, p: usize| -> u64 {
        dots.iter().filter(|d| d.0 == i && d.1 >= p).map(|d| g.rules[i].1[p..d.1].iter().map(|x| ml[*x]).sum::<u64>()).min().unwrap_or(inf)
    };
    let bwd_in = |i: usize, p: usize| -> u64 {
        dots.iter().filter(|d| d.0 == i && d.1 <= p).map(|d| g.rules[i].1[d.1..p].iter().map(|x| ml[*x]).sum::<u64>()).min().unwrap_or(inf)
    };
    let mut fwd: Vec<Vec<u64>> = g.rules.iter().map(|r| vec![inf; r.1.len() + 1]).collect();
    let mut bwd = fwd.clone();
    for d in &dots {
        fwd[d.0][d.1] = 0;
        bwd[d.0][d.1] = 0;
    }
    loop {
        let mut ch = false;
        for i in 0..g.rules.len() {
            let r = &g.rules[i];
            let n = r.1.len();
            for p in 0..=n {
                let mut best = fwd[i][p];
                if p < n {
                    best = best.min(fwd[i][p + 1].saturating_add(ml[r.1[p]]));
                    for (k, q) in g.rules.iter().enumerate() {
                        if q.0 == r.1[p] {
                            best = best.min(fwd[k][0]);
                        }
                    }
                } else {
                    for (k, q) in g.rules.iter().enumerate() {
                        for (z, x) in q.1.iter().enumerate() {
                            if *x == r.0 {
                                best = best.min(fwd[k][z + 1]);
                            }
                        }
                    }
                }
                if best < fwd[i][p] {
                    fwd[i][p] = best;
                    ch = true;
                }
                let mut best = bwd[i][p];
                if p > 0 {
                    best = best.min(bwd[i][p - 1].saturating_add(ml[r.1[p - 1]]));
                    for (k, q) in g.rules.iter().enumerate() {
                        if q.0 == r.1[p - 1] {
                            best = best.min(bwd[k][q.1.len()]);
                        }
                    }
                } else {
                    for (k, q) in g.rules.iter().enumerate() {
                        for (z, x) in q.1.iter().enumerate() {
                            if *x == r.0 {
                                best = best.min(bwd[k][z]);
                            }
                        }
                    }
                }
                if best < bwd[i][p] {
                    bwd[i][p] = best;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    let mut md = MinimalDistance::new(&c);
    let direction = match dir {
        0 => DistanceDirection::Forward,
        1 => DistanceDirection::Backward,
        _ => DistanceDirection::Symmetric,
    };
    let got = md.minimal_distances(&dots, direction).to_vec();
    ensure!(got.len() == g.rules.len(), "{} rows", got.len());
    for (i, r) in g.rules.iter().enumerate() {
        ensure!(got[i].len() == r.1.len() + 1, "row {} has {} entries", i, got[i].len());
        for p in 0..=r.1.len() {
            let v = got[i][p].map_or(inf, |x| x as u64);
            let (lo, hi) = match dir {
                0 => (fwd[i][p], fwd_in(i, p)),
                1 => (bwd[i][p], bwd_in(i, p)),
                _ => (fwd[i][p].min(bwd[i][p]), fwd_in(i, p).min(bwd_in(i, p))),
            };
            ensure!(lo <= v && v <= hi, "distance at rule {} position {} is {:?}, but the shortest path is {} and the shortest path within the rule is {}", i, p, got[i][p], lo, hi);
        }
    }
    // A reported distance is carried over each symbol of the rule, and into the rules of the
    // symbol before (after) it.
    if dir < 2 {
        for (i, r) in g.rules.iter().enumerate() {
            let n = r.1.len();
            for p in 0..n {
                let (from, to) = if dir == 0 { (p + 1, p) } else { (p, p + 1) };
                let Some(d) = got[i][from] else { continue };
                let d = d as u64;
                let lim = d + ml[r.1[p]];
                ensure!(got[i][to].map_or(false, |x| x as u64 <= lim), "distance at rule {} position {} is {:?}, but position {} is at {} and the symbol between takes {}", i, to, got[i][to], from, d, ml[r.1[p]]);
                for (k, q) in g.rules.iter().enumerate() {
                    if q.0 == r.1[p] {
                        let e = if dir == 0 { q.1.len() } else { 0 };
                        ensure!(got[k][e].map_or(false, |x| x as u64 <= d), "distance at the end of rule {} is {:?}, but rule {} goes on from there at {}", k, got[k][e], i, d);
                    }
                }
            }
        }
    }
    Ok(Outcome::Ok)
}
