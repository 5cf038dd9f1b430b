use super::*;
use cfg_classify::cyclical::Cycles;
use cfg_grammar::precedenced_rule::Associativity;
use cfg_history::earley::{rule_dot::RuleDot, ExternalOrigin, History};
use cfg_history::{
    BinarizedRhsRange, HistoryNodeAssignPrecedence, HistoryNodeBinarize, HistoryNodeEliminateNulling,
    HistoryNodeWeight, RootHistoryNode,
};
use cfg_symbol::intern::Mapping;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;

fn diff(what: &str, sym: usize, got: &BTreeSet<Vec<usize>>, want: &BTreeSet<Vec<usize>>) -> Result<(), String> {
    if let Some(x) = got.difference(want).next() {
        return Err(format!("{}: {} now derives {:?}, which it did not before", what, sym, x));
    }
    if let Some(x) = want.difference(got).next() {
        return Err(format!("{}: {} no longer derives {:?}", what, sym, x));
    }
    Ok(())
}

/// G05: limiting RHS length keeps every symbol's language.
pub fn limit(src: &mut Src) -> Res {
    let g = if src.small() { small_gram(src, &Size { n: 3, lhs: 1, rules: 2, rhs: 4 }) } else { rand_gram(src, 6, 7, 9) };
    let mut c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    let lim = src.range(2, if src.small() { 3 } else { 5 }) as usize;
    let again = if src.small() { 0 } else { src.pick(3) };
    let lim2 = if again == 1 { src.range(2, 5) as usize } else { lim };
    note(format!("limit {} then {:?}; {}", lim, if again > 0 { Some(lim2) } else { None }, g.text()));
    c.limit_rhs_len(Some(lim));
    check_limited(&g, &c, lim)?;
    let g1 = Gram::of(&c);
    if again > 0 {
        c.limit_rhs_len(Some(lim2));
        let g2 = Gram::of(&c);
        if lim2 >= lim {
            ensure!(g2.n == g1.n && g2.sorted_rules() == g1.sorted_rules(), "limiting an already limited grammar changed it to {}", g2.text());
        }
        check_limited(&g, &c, lim2.min(lim))?;
    }
    ensure!(g1.roots == g.roots, "roots changed");
    let mut c3 = c.clone();
    c3.limit_rhs_len(None);
    ensure!(Gram::of(&c3) == Gram::of(&c), "lifting the limit changed the rules");
    Ok(Outcome::Ok)
}

fn check_limited(g: &Gram, c: &Cfg, lim: usize) -> Result<(), String> {
    let g2 = Gram::of(c);
    ensure!(g2.n >= g.n, "symbols were lost");
    for (l, r) in &g2.rules {
        ensure!(r.len() <= lim, "rule {} ::= {:?} is longer than {}", l, r, lim);
        ensure!(*l < g2.n && r.iter().all(|x| *x < g2.n), "rule {} ::= {:?} uses a symbol which does not exist", l, r);
    }
    // A rule that was short enough stays as it is.
    for r in &g.rules {
        if r.1.len() <= lim {
            ensure!(g2.rules.contains(r), "rule {:?} was short enough but is gone", r);
        }
    }
    // Expanding the symbols introduced by splitting gives back exactly the original rules.
    let mut defs: BTreeMap<usize, Vec<Vec<usize>>> = BTreeMap::new();
    for (l, r) in &g2.rules {
        if *l >= g.n {
            defs.entry(*l).or_default().push(r.clone());
        }
    }
    let mut back = vec![];
    for (l, r) in &g2.rules {
        if *l < g.n {
            let mut cur = r.clone();
            let mut fuel = 10_000;
            while let Some(p) = cur.iter().position(|x| *x >= g.n) {
                let d = defs.get(&cur[p]);
                ensure!(d.map_or(0, |d| d.len()) == 1, "introduced symbol {} has {} rules", cur[p], d.map_or(0, |d| d.len()));
                let d = d.unwrap()[0].clone();
                cur.splice(p..p + 1, d);
                fuel -= 1;
                ensure!(fuel > 0, "introduced symbols are recursive");
            }
            back.push((*l, cur));
        }
    }
    back.sort();
    ensure!(back == g.sorted_rules(), "split rules stand for {:?}, not for the original rules", back);
    // And the languages agree.
    let t = g.terminal();
    let (a, b) = (g.lang(4, &t, 4000), g2.lang(4, &t, 6000));
    if let (Some(a), Some(b)) = (a, b) {
        for i in 0..g.n {
            diff("limit", i, &b[i], &a[i])?;
        }
    }
    Ok(())
}

/// G05: adding rules to a grammar which has a limit.
pub fn add_rule(src: &mut Src) -> Res {
    let n = 4usize;
    let lim = src.range(2, if src.small() { 4 } else { 6 }) as usize;
    let k = if src.small() { 1 } else { src.range(1, 5) };
    let mut c = Cfg::new();
    for _ in 0..n {
        c.next_sym(None);
    }
    c.limit_rhs_len(Some(lim));
    let mut g = Gram { n, rules: vec![], roots: vec![] };
    let mut log = format!("limit {}; add", lim);
    for _ in 0..k {
        let l = src.pick(if src.small() { 1 } else { n as u32 }) as usize;
        let len = src.pick(if src.small() { 5 } else { 14 });
        let r: Vec<usize> = (0..len).map(|_| src.pick(if src.small() { 3 } else { n as u32 }) as usize).collect();
        log += &format!(" {} ::= {:?};", l, r);
        note(log.clone());
        let before = c.rules().count();
        let via_builder = !src.small() && src.flag();
        if via_builder {
            c.rule(s(l)).rhs(syms(&r));
        } else {
            let parts = c.add_rule(CfgRule::new(s(l), syms(&r), RootHistoryNode::Rule { lhs: s(l) }.into()));
            ensure!(parts as usize == c.rules().count() - before, "returned {} parts, but {} rules were added", parts, c.rules().count() - before);
        }
        let want = if r.len() <= lim { 1 } else { (r.len() - 1 + lim - 2) / (lim - 1) };
        ensure!(c.rules().count() - before == want, "{} rules added, expected {}", c.rules().count() - before, want);
        g.rules.push((l, r));
        check_limited(&g, &c, lim)?;
    }
    Ok(Outcome::Ok)
}

/// G06: nulling elimination.
pub fn nulling(src: &mut Src) -> Res {
    let g = if src.small() { small_gram(src, &Size { n: 3, lhs: 2, rules: 3, rhs: 2 }) } else { rand_gram(src, 6, 9, 4) };
    let mut c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    note(g.text());
    let twice = !src.small() && src.pick(4) == 0;
    let mut nulls = c.binarize_and_eliminate_nulling_rules();
    let t = g.terminal();
    let max = 4;
    let before = match g.lang(max, &t, 20_000) {
        Some(x) => x,
        None => return Ok(Outcome::Discard),
    };
    let nullable = g.nullable();
    let mut rounds = if twice { 2 } else { 1 };
    loop {
        let g2 = Gram::of(&c);
        if g.rules.iter().any(|r| r.1.is_empty()) {
            // a symbol keeps rules only if it derives a non-empty string of the terminals there were
            let mut live: Vec<bool> = (0..g2.n).map(|i| i < g.n && t[i]).collect();
            loop {
                let more: Vec<usize> = g2.rules.iter().filter(|(l, r)| !live[*l] && r.iter().all(|&x| live[x])).map(|r| r.0).collect();
                if more.is_empty() {
                    break;
                }
                more.into_iter().for_each(|l| live[l] = true);
            }
            for (l, _) in &g2.rules {
                ensure!(live[*l], "rules of {} are left, though it derives no string of terminals", l);
            }
        }
        for (l, r) in &g2.rules {
            ensure!(!r.is_empty(), "empty rule {} ::= [] is left", l);
            ensure!(r.len() <= 2, "rule {} ::= {:?} is not binarized", l, r);
        }
        let after = match g2.lang(max, &t, 60_000) {
            Some(x) => x,
            None => return Ok(Outcome::Discard),
        };
        for i in 0..g.n {
            let mut want = before[i].clone();
            want.remove(&vec![]);
            diff("nulling elimination", i, &after[i], &want)?;
        }
        rounds -= 1;
        if rounds == 0 {
            break;
        }
        let nulls2 = c.binarize_and_eliminate_nulling_rules();
        ensure!(nulls2.rules().count() == 0, "a second elimination found nulling rules: {}", Gram::of(&nulls2).text());
    }
    // The split-off part derives exactly the empty strings.
    let gn = Gram::of(&nulls);
    let none = vec![false; gn.n];
    let ln = gn.lang(1, &none, 10_000);
    if let Some(ln) = ln {
        for i in 0..g.n {
            let has = i < gn.n && ln[i].contains(&vec![]);
            ensure!(has == nullable[i], "nulling part: {} {} the empty string, but before {}", i, if has { "derives" } else { "does not derive" }, nullable[i]);
        }
    }
    let _ = &mut nulls;
    Ok(Outcome::Ok)
}

/// G12: cycles.
pub fn cycles(src: &mut Src) -> Res {
    let g = if src.small() {
        small_gram(src, &Size { n: 3, lhs: 3, rules: 4, rhs: 1 })
    } else if src.flag() {
        rand_gram(src, 7, 10, 1)
    } else {
        rand_gram(src, 6, 9, 3)
    };
    let c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    let wrap = !src.small() && src.pick(4) == 0;
    let mut c = c;
    if wrap {
        c.wrap_input();
    }
    let g = if wrap { Gram::of(&c) } else { g };
    note(format!("wrapped {}; {}", wrap, g.text()));
    let u = g.unit_plus();
    let free = (0..g.n).all(|i| !u[i][i]);
    let part = |r: &Rule| r.1.len() == 1 && u[r.1[0]][r.0];
    let mut cy = Cycles::new(&c);
    ensure!(cy.cycle_free() == free, "cycle_free() = {}, expected {}", cy.cycle_free(), free);
    let cls: Vec<bool> = cy.classify().map(|x| x.1).collect();
    let want: Vec<bool> = g.rules.iter().map(|r| part(r)).collect();
    ensure!(cls == want, "classify() = {:?}, expected {:?}", cls, want);
    for flag in [true, false] {
        let got: Vec<Rule> = cy.cycle_participants(flag).map(|r| (r.lhs.usize(), r.rhs.iter().map(|x| x.usize()).collect())).collect();
        let w: Vec<Rule> = g.rules.iter().filter(|r| part(r) == flag).cloned().collect();
        ensure!(got == w, "cycle_participants({}) = {:?}, expected {:?}", flag, got, w);
    }
    // Removal.
    let mut c1 = c.clone();
    {
        let mut cy = Cycles::new(&mut c1);
        if src.flag() {
            cy.cycle_free();
        }
        cy.remove_cycles();
    }
    let g1 = Gram::of(&c1);
    let w: Vec<Rule> = g.rules.iter().filter(|r| !part(r)).cloned().collect();
    ensure!(g1.sorted_rules() == { let mut w = w.clone(); w.sort(); w }, "after removal: {:?}, expected {:?}", g1.rules, w);
    ensure!(Cycles::new(&c1).cycle_free(), "cycles are left after removal");
    // Rewriting.
    let mut c2 = c.clone();
    Cycles::new(&mut c2).rewrite_cycles();
    let g2 = Gram::of(&c2);
    ensure!(Cycles::new(&c2).cycle_free(), "cycles are left after rewriting: {}", g2.text());
    let u2 = g2.unit_plus();
    ensure!((0..g2.n).all(|i| !u2[i][i]), "cycles are left after rewriting: {}", g2.text());
    ensure!(g2.roots.len() == g.roots.len(), "number of roots changed");
    ensure!(g2.n == g.n, "rewriting changed the symbols");
    let t = g.terminal();
    if let (Some(a), Some(b)) = (g.lang(4, &t, 20_000), g2.lang(4, &t, 20_000)) {
        for i in 0..g.roots.len() {
            diff("cycle rewrite (root)", g.roots[i], &b[g2.roots[i]], &a[g.roots[i]])?;
        }
        for i in 0..g.n {
            if !u[i][i] {
                diff("cycle rewrite", i, &b[i], &a[i])?;
            }
        }
        // Every class of mutually unit-derivable symbols keeps a representative.
        for i in 0..g.n {
            if u[i][i] {
                ensure!((0..g.n).any(|j| (j == i || (u[i][j] && u[j][i])) && b[j] == a[i]), "no symbol of the cycle through {} keeps its language", i);
            }
        }
    }
    if wrap {
        let (w0, w1) = (c.wrapped_roots(), c2.wrapped_roots());
        ensure!(w0.len() == w1.len(), "wrapped roots lost");
        for (i, x) in w1.iter().enumerate() {
            ensure!(c2.rules().any(|r| r.lhs == x.root && r.rhs[..] == [x.start_of_input, x.inner_root, x.end_of_input]), "wrapped root {} is not described by its rule after rewriting", i);
        }
    }
    if free {
        ensure!(g1 == g && g2 == g, "a cycle-free grammar was changed");
    }
    Ok(Outcome::Ok)
}

fn perm(src: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = src.pick(i as u32 + 1) as usize;
        v.swap(i, j);
    }
    v
}

/// G14: remapping symbols.
pub fn remap(src: &mut Src) -> Res {
    let g = if src.small() { small_gram(src, &Size { n: 4, lhs: 2, rules: 2, rhs: 1 }) } else { rand_gram(src, 7, 8, 4) };
    let mut c = Cfg::new();
    for i in 0..g.n {
        let named = if src.small() { i % 2 == 0 } else { src.flag() };
        c.next_sym(if named { Some(format!("s{}", i).into()) } else { None });
    }
    for (l, r) in &g.rules {
        c.rule(s(*l)).rhs(syms(r));
    }
    c.set_roots(syms(&g.roots));
    let wrap = if src.small() { false } else { src.flag() };
    if wrap {
        c.wrap_input();
    }
    let g = Gram::of(&c);
    let names: Vec<Option<String>> = c.sym_source().names().iter().map(|x| x.as_deref().map(|y| y.to_string())).collect();
    let wr: Vec<[usize; 4]> = c.wrapped_roots().iter().map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()]).collect();
    let nops = if src.small() { 1 } else { src.range(1, 3) };
    let mut used = vec![false; g.n];
    for (l, r) in &g.rules {
        used[*l] = true;
        for x in r {
            used[*x] = true;
        }
    }
    for r in &g.roots {
        // A root must be in use: otherwise there is nothing to keep.
        if !used[*r] {
            return Ok(Outcome::Discard);
        }
    }
    if !used.iter().any(|x| *x) {
        return Ok(Outcome::Discard);
    }
    let mut log = format!("wrapped {}; {}", wrap, g.text());
    // internal[i] = where original symbol i is now.
    let mut internal: Vec<Option<usize>> = (0..g.n).map(Some).collect();
    let mut dropped = false;
    let c_ptr = &mut c;
    let mapping: Mapping = {
        let mut rm = c_ptr.remap();
        let mut cur_n = g.n;
        for _ in 0..nops {
            match src.pick(2) {
                0 => {
                    let p = if src.small() { let k = src.pick(3) as usize; (0..cur_n).map(|i| (i * 3 + k) % cur_n).collect::<Vec<_>>() } else { let mut p = perm(src, cur_n); if src.flag() { for x in p.iter_mut() { *x /= 2; } } p };
                    log += &format!(" reorder by key {:?};", p);
                    note(log.clone());
                    rm.reorder_symbols(|a, b| p[a.usize()].cmp(&p[b.usize()]));
                    // Stable sort by the key.
                    let mut order: Vec<usize> = (0..cur_n).collect();
                    order.sort_by_key(|i| p[*i]);
                    let mut pos = vec![0; cur_n];
                    for (new, old) in order.iter().enumerate() {
                        pos[*old] = new;
                    }
                    if !dropped {
                        for x in internal.iter_mut() {
                            *x = x.map(|x| pos[x]);
                        }
                    } else {
                        for x in internal.iter_mut() {
                            *x = x.and_then(|x| pos.get(x).copied());
                        }
                    }
                }
                _ => {
                    if dropped {
                        continue;
                    }
                    log += " remove unused;";
                    note(log.clone());
                    rm.remove_unused_symbols();
                    let live: Vec<usize> = {
                        let mut v: Vec<usize> = (0..g.n).filter(|i| used[*i]).collect();
                        v.sort_by_key(|i| internal[*i]);
                        v
                    };
                    let dead: Vec<usize> = {
                        let mut v: Vec<usize> = (0..g.n).filter(|i| !used[*i]).collect();
                        v.sort_by_key(|i| internal[*i]);
                        v
                    };
                    for (k, i) in live.iter().chain(dead.iter()).enumerate() {
                        internal[*i] = Some(k);
                    }
                    cur_n = live.len();
                    dropped = live.len() < g.n;
                    if dropped {
                        break;
                    }
                }
            }
        }
        rm.get_mapping()
    };
    note(log.clone());
    let n_live = if dropped { used.iter().filter(|x| **x).count() } else { g.n };
    ensure!(c.num_syms() == n_live, "{} symbols are left, expected {}", c.num_syms(), n_live);
    // The mapping: a bijection, its two halves are inverse.
    ensure!(mapping.to_internal.len() == g.n, "to_internal has {} entries", mapping.to_internal.len());
    ensure!(mapping.to_external.len() >= n_live, "to_external has {} entries", mapping.to_external.len());
    for i in 0..g.n {
        if used[i] || !dropped {
            let got = mapping.to_internal[i].map(|x| x.usize());
            ensure!(got == internal[i], "to_internal[{}] = {:?}, expected {:?}", i, got, internal[i]);
            ensure!(mapping.to_external[internal[i].unwrap()].usize() == i, "to_external[{}] = {}, expected {}", internal[i].unwrap(), mapping.to_external[internal[i].unwrap()].usize(), i);
        }
    }
    let m = |x: usize| internal[x].unwrap();
    let mut want: Vec<Rule> = g.rules.iter().map(|(l, r)| (m(*l), r.iter().map(|x| m(*x)).collect())).collect();
    want.sort();
    let g2 = Gram::of(&c);
    ensure!(g2.sorted_rules() == want, "rules {:?}, expected {:?}", g2.rules, want);
    let wroots: Vec<usize> = g.roots.iter().map(|x| m(*x)).collect();
    ensure!(g2.roots == wroots, "roots {:?}, expected {:?}", g2.roots, wroots);
    let wr2: Vec<[usize; 4]> = c.wrapped_roots().iter().map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()]).collect();
    let want_wr: Vec<[usize; 4]> = wr.iter().map(|w| [m(w[0]), m(w[1]), m(w[2]), m(w[3])]).collect();
    ensure!(wr2 == want_wr, "wrapped roots {:?}, expected {:?}", wr2, want_wr);
    for i in 0..g.n {
        if used[i] || !dropped {
            let got = c.sym_source().original_name_of(s(m(i))).map(|x| x.to_string());
            ensure!(got == names[i], "symbol {} (was {}) is named {:?}, expected {:?}", m(i), i, got, names[i]);
        }
    }
    let f = c.next_sym(None);
    ensure!(f.usize() == n_live, "next symbol after remapping has id {}", f.usize());
    Ok(Outcome::Ok)
}

/// G14: replacing symbols by any function.
pub fn remap_any(src: &mut Src) -> Res {
    let small = src.small();
    let g = if small { small_gram(src, &Size { n: 3, lhs: 2, rules: 2, rhs: 1 }) } else { rand_gram(src, 6, 7, 4) };
    let mut c = Cfg::new();
    for i in 0..g.n {
        let named = if small { i % 2 == 0 } else { src.flag() };
        c.next_sym(if named { Some(format!("s{}", i).into()) } else { None });
    }
    // Rules with a history of their own: histories move along.
    for (k, (l, r)) in g.rules.iter().enumerate() {
        c.rule(s(*l)).history(RootHistoryNode::Origin { origin: k + 1 }.into()).rhs(syms(r));
    }
    c.set_roots(syms(&g.roots));
    if !small && src.flag() {
        c.wrap_input();
    }
    let g = Gram::of(&c);
    let hists: Vec<_> = c.rules().map(|r| format!("{:?}", r.history)).collect();
    let names: Vec<Option<String>> = (0..g.n).map(|i| c.sym_source().original_name_of(s(i)).map(|y| y.to_string())).collect();
    let wr: Vec<[usize; 4]> = c.wrapped_roots().iter().map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()]).collect();
    let m: Vec<usize> = match src.pick(3) {
        0 => (0..g.n).map(|_| src.pick(if small { 3 } else { g.n as u32 }) as usize).collect(),
        1 => perm(src, g.n),
        // As symbols are moved into another grammar: one to one, to others that are higher.
        _ => { let k = src.pick(4) as usize; perm(src, g.n).into_iter().map(|x| x + k).collect() }
    };
    note(format!("by {:?}; {}", m, g.text()));
    let mut calls = 0usize;
    c.remap().remap_symbols(|x| { calls += 1; s(m[x.usize()]) });
    let mut want: Vec<(Rule, String)> = g.rules.iter().zip(hists).map(|((l, r), h)| ((m[*l], r.iter().map(|x| m[*x]).collect()), h)).collect();
    want.sort();
    let mut got: Vec<(Rule, String)> = c.rules().map(|r| ((r.lhs.usize(), r.rhs.iter().map(|x| x.usize()).collect()), format!("{:?}", r.history))).collect();
    got.sort();
    ensure!(got == want, "rules {:?}, expected {:?}", got, want);
    let roots: Vec<usize> = c.roots().iter().map(|x| x.usize()).collect();
    ensure!(roots == g.roots.iter().map(|x| m[*x]).collect::<Vec<_>>(), "roots {:?} from {:?}", roots, g.roots);
    let wr2: Vec<[usize; 4]> = c.wrapped_roots().iter().map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()]).collect();
    ensure!(wr2 == wr.iter().map(|w| [m[w[0]], m[w[1]], m[w[2]], m[w[3]]]).collect::<Vec<_>>(), "wrapped roots {:?} from {:?}", wr2, wr);
    let mut seen = m.clone();
    seen.sort();
    seen.dedup();
    if seen.len() == g.n {
        for i in 0..g.n {
            let name = c.sym_source().names().get(m[i]).and_then(|x| x.as_deref()).map(|x| x.to_string());
            ensure!(name == names[i], "symbol {} (was {}) is named {:?}, expected {:?}", m[i], i, name, names[i]);
        }
    }
    ensure!(c.num_syms() == g.n, "{} symbols after, {} before", c.num_syms(), g.n);
    Ok(Outcome::Ok)
}

/// G14: composition of mappings.
pub fn mapping(src: &mut Src) -> Res {
    let n = src.range(1, if src.small() { 3 } else { 7 }) as usize;
    let (p, q) = (perm(src, n), perm(src, n));
    let drop_from = src.range(0, n as u32) as usize;
    note(format!("mappings {:?} then {:?}, the second keeps {} symbols", p, q, drop_from));
    let mk = |p: &[usize], keep: usize| {
        let mut m = Mapping::new(p.len());
        let mut ext = vec![s(0); p.len()];
        for (i, &x) in p.iter().enumerate() {
            m.to_internal[i] = if x < keep { Some(s(x)) } else { None };
            ext[x] = s(i);
        }
        ext.truncate(keep);
        m.to_external = ext;
        m
    };
    let mut a = mk(&p, n);
    let b = mk(&q, drop_from);
    a.translate(&b);
    ensure!(a.to_internal.len() == n && a.to_external.len() == drop_from, "sizes changed");
    for i in 0..n {
        let w = q[p[i]];
        let want = if w < drop_from { Some(w) } else { None };
        ensure!(a.to_internal[i].map(|x| x.usize()) == want, "to_internal[{}] = {:?}, expected {:?}", i, a.to_internal[i], want);
        if w < drop_from {
            ensure!(a.to_external[w].usize() == i, "to_external[{}] = {:?}, expected {}", w, a.to_external[w], i);
        }
    }
    Ok(Outcome::Ok)
}

/// G15: precedenced rules.
pub fn precedence(src: &mut Src) -> Res {
    let small = src.small();
    let n = 5usize; // 0 = the operator symbol, 1.. = others
    let mut c = Cfg::new();
    for _ in 0..n {
        c.next_sym(None);
    }
    let lim = if small { 0 } else { src.pick(4) };
    if lim > 0 {
        c.limit_rhs_len(Some(1 + lim as usize));
    }
    // levels[i] = list of (assoc, rhs), tightest first
    let nl = src.range(1, if small { 2 } else { 4 });
    let mut levels: Vec<Vec<(u32, Vec<usize>)>> = vec![];
    for _ in 0..nl {
        let na = if small { 1 } else { src.pick(4) };
        let mut lv = vec![];
        for _ in 0..na {
            let a = src.pick(4); // 0 = default, 1 = left, 2 = right, 3 = group
            let len = src.pick(if small { 4 } else { 6 });
            let r: Vec<usize> = (0..len).map(|_| if src.flag() { 0 } else { 1 + src.pick(if small { 1 } else { 4 }) as usize }).collect();
            lv.push((a, r));
        }
        levels.push(lv);
    }
    note(format!("limit {:?}; levels, tightest first (associativity 0/1=left 2=right 3=group, rhs with 0 = operand): {:?}", lim, levels));
    let first = c.num_syms();
    {
        let mut b = c.precedenced_rule(s(0));
        for (i, lv) in levels.iter().enumerate() {
            if i > 0 {
                b = b.lower_precedence();
            }
            for (a, r) in lv {
                b = match a {
                    1 => b.associativity(Associativity::Left),
                    2 => b.associativity(Associativity::Right),
                    3 => b.associativity(Associativity::Group),
                    _ => b,
                };
                b = b.rhs(syms(r));
            }
        }
        b.finalize();
    }
    let g2 = Gram::of(&c);
    // Undo length limiting, by expanding symbols that were not introduced as levels:
    // the level symbols are those on the RHS of the unit chain from the operator symbol.
    let mut unit: BTreeMap<usize, Vec<Vec<usize>>> = BTreeMap::new();
    for (l, r) in &g2.rules {
        unit.entry(*l).or_default().push(r.clone());
    }
    // Walk down from the operator symbol: it has exactly one rule, 0 ::= loosest.
    let top = unit.get(&0).cloned().unwrap_or_default();
    ensure!(top.len() == 1 && top[0].len() == 1 && top[0][0] >= first, "operator symbol has rules {:?}", top);
    // Identify the level symbols from loosest to tightest. A level symbol other than the
    // tightest has a unit rule to the next tighter level symbol, added before its other rules.
    let mut lv = vec![top[0][0]];
    for _ in 1..levels.len() {
        let cur = *lv.last().unwrap();
        let cand: Vec<usize> = unit
            .get(&cur)
            .map(|v| v.iter().filter(|r| r.len() == 1 && r[0] >= first && !lv.contains(&r[0])).map(|r| r[0]).collect())
            .unwrap_or_default();
        let cand: BTreeSet<usize> = cand.into_iter().collect();
        ensure!(cand.len() == 1, "level symbol {} leads to tighter levels {:?}", cur, cand);
        lv.push(*cand.iter().next().unwrap());
    }
    lv.reverse(); // tightest first
    let is_level = |x: usize| lv.contains(&x);
    let mut got: Vec<Rule> = vec![];
    for (l, r) in &g2.rules {
        if *l < first || is_level(*l) {
            let mut cur = r.clone();
            let mut fuel = 1000;
            while let Some(p) = cur.iter().position(|x| *x >= first && !is_level(*x)) {
                let d = unit.get(&cur[p]).cloned().unwrap_or_default();
                ensure!(d.len() == 1, "introduced symbol {} has {} rules", cur[p], d.len());
                cur.splice(p..p + 1, d[0].clone());
                fuel -= 1;
                ensure!(fuel > 0, "introduced symbols are recursive");
            }
            got.push((*l, cur));
        }
        if lim > 0 {
            ensure!(r.len() <= 1 + lim as usize, "rule {} ::= {:?} is longer than the limit", l, r);
        }
    }
    let mut want: Vec<Rule> = vec![(0, vec![*lv.last().unwrap()])];
    for (i, alts) in levels.iter().enumerate() {
        let cur = lv[i];
        let tighter = if i == 0 { lv[0] } else { lv[i - 1] };
        if i > 0 {
            want.push((cur, vec![tighter]));
        }
        for (a, r) in alts {
            let mut r = r.clone();
            let occ: Vec<usize> = (0..r.len()).filter(|k| r[*k] == 0).collect();
            for (j, k) in occ.iter().enumerate() {
                r[*k] = match a {
                    3 => *lv.last().unwrap(),
                    2 => if j + 1 == occ.len() { cur } else { tighter },
                    _ => if j == 0 { cur } else { tighter },
                };
            }
            want.push((cur, r));
        }
    }
    got.sort();
    want.sort();
    ensure!(got == want, "rules {:?}, expected {:?} (levels, tightest first: {:?})", got, want, lv);
    Ok(Outcome::Ok)
}

/// G16: wrapping the roots.
pub fn wrap(src: &mut Src) -> Res {
    let mut g = gram(src);
    if !src.small() && src.flag() && g.n > 2 {
        g.roots = (0..g.n.min(3)).collect();
    }
    let mut c = g.cfg();
    let lim = if src.small() { 0 } else { src.pick(3) };
    if lim > 0 {
        c.limit_rhs_len(Some(1 + lim as usize));
    }
    let g = Gram::of(&c);
    let twice = !src.small() && src.pick(3) == 0;
    note(format!("limit {}; wrapped twice {}; {}", lim, twice, g.text()));
    let rounds = if twice { 2 } else { 1 };
    let mut before = g.clone();
    for _ in 0..rounds {
        c.wrap_input();
        let after = Gram::of(&c);
        let w = c.wrapped_roots();
        ensure!(w.len() == before.roots.len(), "{} wrapped roots for {} roots", w.len(), before.roots.len());
        ensure!(after.roots == w.iter().map(|x| x.root.usize()).collect::<Vec<_>>(), "roots are not the wrapped roots");
        let mut seen = BTreeSet::new();
        for (i, x) in w.iter().enumerate() {
            ensure!(x.inner_root.usize() == before.roots[i], "wrapped root {} wraps {}", i, x.inner_root.usize());
            for y in [x.root, x.start_of_input, x.end_of_input] {
                ensure!(y.usize() >= before.n && y.usize() < after.n && seen.insert(y.usize()), "symbol {} of a wrapped root is not fresh", y.usize());
            }
            let t = after.terminal();
            ensure!(t[x.start_of_input.usize()] && t[x.end_of_input.usize()], "input delimiters are not terminal");
        }
        // Languages: each new root derives start, a sentence of the old root, end.
        ensure!(after.rules[..before.rules.len()] == before.rules[..], "existing rules changed");
        let t = after.terminal();
        if let (Some(a), Some(b)) = (before.lang(3, &before.terminal(), 5000), after.lang(5, &t, 30_000)) {
            for x in w {
                let (st, en) = (x.start_of_input.usize(), x.end_of_input.usize());
                let want: BTreeSet<Vec<usize>> = a[x.inner_root.usize()].iter().map(|v| {
                    let mut o = vec![st];
                    o.extend(v.iter().copied());
                    o.push(en);
                    o
                }).collect();
                diff("wrapping", x.root.usize(), &b[x.root.usize()], &want)?;
            }
            for i in 0..before.n {
                let short: BTreeSet<Vec<usize>> = b[i].iter().filter(|v| v.len() <= 3).cloned().collect();
                diff("wrapping", i, &short, &a[i])?;
            }
        }
        let empty = before_empty(&c);
        ensure!(c.is_empty() == empty, "is_empty() = {}, expected {}", c.is_empty(), empty);
        before = Gram::of(&c);
    }
    Ok(Outcome::Ok)
}

fn before_empty(c: &Cfg) -> bool {
    if c.wrapped_roots().is_empty() {
        c.rules().count() == 0
    } else {
        c.rules().all(|r| c.roots().contains(&r.lhs))
    }
}

/// G17: rule histories keep the origin and the original dot positions.
pub fn history(src: &mut Src) -> Res {
    let n = 4usize;
    let mut c = Cfg::new();
    for _ in 0..n {
        c.next_sym(None);
    }
    let k = if src.small() { 1 } else { src.range(1, 4) };
    let mut rules = vec![];
    for i in 0..k {
        let l = src.pick(2) as usize;
        let len = src.pick(if src.small() { 5 } else { 8 });
        let r: Vec<usize> = (0..len).map(|_| src.pick(n as u32) as usize).collect();
        let origin = 10 + 7 * i as usize;
        rules.push((l, r, origin));
    }
    let weight = if src.flag() { Some(src.pick(50) as f64 / 8.0) } else { None };
    note(format!("rules (lhs, rhs, origin) {:?}, weight {:?}, binarized", rules, weight));
    let mk = |o: usize| -> History {
        let h: History = RootHistoryNode::Origin { origin: o }.into();
        match weight {
            Some(w) => HistoryNodeWeight { prev: h, weight: w }.into(),
            None => h,
        }
    };
    ensure!(History::from(RootHistoryNode::NoOp).origin().is_null(), "NoOp has an origin");
    for (_, _, o) in &rules {
        let h = mk(*o);
        ensure!(h.origin() == ExternalOrigin { id: *o as u32 }, "origin {:?}, expected {}", h.origin(), o);
        ensure!(h.weight == weight.map(|w| (w * 1000.0) as u32), "weight {:?}", h.weight);
        let p: History = HistoryNodeAssignPrecedence { prev: h, looseness: 3 }.into();
        ensure!(p == h, "precedence changed the history");
    }
    for (l, r, o) in &rules {
        c.rule(s(*l)).history(mk(*o)).rhs(syms(r));
    }
    for (i, r) in c.rules().enumerate() {
        ensure!(r.history == mk(rules[i].2), "history of rule {} was not stored", i);
    }
    c.limit_rhs_len(Some(2));
    let mut it = c.rules();
    for (l, r, o) in &rules {
        let len = r.len();
        if len <= 2 {
            let x = it.next().ok_or("rule lost")?;
            ensure!(x.lhs.usize() == *l && x.history == mk(*o), "history of a short rule changed: {:?}", x.history);
            continue;
        }
        for h in 0..len - 1 {
            let x = it.next().ok_or("rule lost")?;
            let top = h == len - 2;
            let ox = if top { ExternalOrigin { id: *o as u32 } } else { ExternalOrigin::null() };
            ensure!(x.history.origin() == ox, "part {} of {} has origin {:?}, expected {:?}", h, len - 1, x.history.origin(), ox);
            let d = |p: usize| RuleDot::new(*o as u32, p as u32);
            let none = RuleDot::none();
            let want = if top { [d(0), d(len - 1), d(len)] } else { [none, d(h + 1), none] };
            for q in 0..3 {
                ensure!(x.history.dot(q) == want[q], "part {} of a rule with {} symbols: dot {} is {:?}, expected {:?}", h, len, q, x.history.dot(q), want[q]);
            }
            ensure!(x.history.dot(3) == none, "dot past the end");
            ensure!(x.history.weight == mk(*o).weight, "weight lost");
        }
    }
    // Nulling elimination keeps track of what was eliminated.
    let h = mk(5);
    let e = |which| -> History { HistoryNodeEliminateNulling { prev: h, rhs0: Some(s(1)), rhs1: Some(s(2)), which }.into() };
    let lft = e(BinarizedRhsRange::Left);
    ensure!(lft.nullable() == Some((s(1), false)) && lft.origin() == h.origin() && lft.dots == h.dots && lft.weight == h.weight, "left elimination {:?}", lft);
    let rgt = e(BinarizedRhsRange::Right);
    ensure!(rgt.nullable() == Some((s(2), true)) && rgt.origin() == h.origin() && rgt.dots == h.dots && rgt.weight == h.weight, "right elimination {:?}", rgt);
    for m in 0..3 {
        let all = e(BinarizedRhsRange::All(m));
        ensure!(all.origin() == h.origin() && all.nullable().is_none(), "full elimination {:?}", all);
        ensure!(BinarizedRhsRange::All(m).as_range() == (0..m), "as_range");
    }
    ensure!(BinarizedRhsRange::Left.as_range() == (0..1) && BinarizedRhsRange::Right.as_range() == (1..2), "as_range");
    ensure!(BinarizedRhsRange::Left.negate() == BinarizedRhsRange::Right && BinarizedRhsRange::Right.negate() == BinarizedRhsRange::Left, "negate");
    // The same, through the grammar.
    let mut d = Cfg::new();
    for _ in 0..n {
        d.next_sym(None);
    }
    for (l, r, o) in &rules {
        d.rule(s(*l)).history(mk(*o)).rhs(syms(r));
    }
    if rules.len() > 1 || src.flag() {
        d.rule(s(2)).history(mk(3)).rhs(syms(&[]));
    }
    d.limit_rhs_len(Some(2));
    let split: Vec<(Rule, History)> = d.rules().map(|r| ((r.lhs.usize(), r.rhs.iter().map(|x| x.usize()).collect()), r.history)).collect();
    let gd = Gram::of(&d);
    let nl = gd.nullable();
    let part = d.binarize_and_eliminate_nulling_rules();
    let key = |l: usize, r: &[usize], h: &History| (l, r.to_vec(), h.origin(), h.dots, h.nullable(), h.weight);
    let (mut may, mut nulls) = (vec![], vec![]);
    for ((l, r), h) in &split {
        may.push(key(*l, r, h));
        let none: Vec<bool> = r.iter().map(|&x| nl[x]).collect();
        let e = |which| -> History { HistoryNodeEliminateNulling { prev: *h, rhs0: r.first().map(|&x| s(x)), rhs1: r.get(1).map(|&x| s(x)), which }.into() };
        let with = |nul: Option<(Symbol, bool)>, r: &[usize]| (*l, r.to_vec(), h.origin(), h.dots, nul, h.weight);
        match &none[..] {
            [true, false] => may.push(with(Some((s(r[0]), false)), &r[1..])),
            [false, true] => may.push(with(Some((s(r[1]), true)), &r[..1])),
            _ if none.iter().all(|x| *x) => {
                let h2 = e(BinarizedRhsRange::All(r.len()));
                if r.len() == 2 {
                    may.push(key(*l, &r[..1], &h2));
                    may.push(key(*l, &r[1..], &h2));
                }
                nulls.push((*l, h.origin()));
            }
            _ => {}
        }
    }
    if nulls.is_empty() {
        ensure!(part.rules().count() == 0, "a nulling part without nullable symbols");
    } else {
        for x in d.rules() {
            let r: Vec<usize> = x.rhs.iter().map(|y| y.usize()).collect();
            let k = key(x.lhs.usize(), &r, &x.history);
            ensure!(may.contains(&k), "after nulling elimination: {:?} is not what is left of a rule", k);
        }
        let got: Vec<_> = part.rules().map(|x| (x.lhs.usize(), x.history.origin())).collect();
        ensure!(got == nulls, "the nulling part has left-hand sides and origins {:?}, expected {:?}", got, nulls);
    }
    let (ht, full) = (src.pick(6), src.range(3, 9) as usize);
    if (ht as usize) < full - 1 {
        let top = ht as usize == full - 2;
        let b: History = HistoryNodeBinarize { prev: lft, height: ht, full_len: full, is_top: top }.into();
        ensure!(b.nullable() == lft.nullable() && b.weight == lft.weight, "binarization lost information");
    }
    Ok(Outcome::Ok)
}

/// G20: operations on the list of rules.
pub fn rule_list(src: &mut Src) -> Res {
    let g = if src.small() { small_gram(src, &Size { n: 2, lhs: 2, rules: 3, rhs: 2 }) } else { rand_gram(src, 6, 10, 5) };
    let c = cfg_with_past(src, &g);
    let g = Gram::of(&c);
    note(g.text());
    let rules = &g.rules;
    // reverse
    let mut d = c.clone();
    d.reverse();
    let rev: Vec<Rule> = rules.iter().map(|(l, r)| (*l, r.iter().rev().copied().collect())).collect();
    ensure!(Gram::of(&d).rules == rev, "reverse() gives {:?}", Gram::of(&d).rules);
    ensure!(d.roots() == c.roots() && d.num_syms() == c.num_syms(), "reverse() changed roots or symbols");
    // sort, dedup
    let mut d = c.clone();
    d.sort();
    ensure!(Gram::of(&d).rules == g.sorted_rules(), "sort() gives {:?}", Gram::of(&d).rules);
    d.dedup();
    let mut dd = g.sorted_rules();
    dd.dedup();
    ensure!(Gram::of(&d).rules == dd, "sort() and dedup() give {:?}", Gram::of(&d).rules);
    let mut d = c.clone();
    d.dedup();
    let mut dd = rules.clone();
    dd.dedup();
    ensure!(Gram::of(&d).rules == dd, "dedup() gives {:?}", Gram::of(&d).rules);
    let mut d = c.clone();
    d.sort_by(|a, b| b.lhs.cmp(&a.lhs));
    let mut dd = rules.clone();
    dd.sort_by(|a, b| b.0.cmp(&a.0));
    ensure!(Gram::of(&d).rules == dd, "sort_by() gives {:?}", Gram::of(&d).rules);
    // retain
    let mask = if src.small() { 5 } else { src.pick(1 << 10) };
    let mut i = 0;
    let mut d = c.clone();
    d.retain(|_| {
        i += 1;
        mask >> ((i - 1) % 10) & 1 == 1
    });
    let kept: Vec<Rule> = rules.iter().enumerate().filter(|(k, _)| mask >> (k % 10) & 1 == 1).map(|x| x.1.clone()).collect();
    ensure!(Gram::of(&d).rules == kept, "retain() keeps {:?}, expected {:?}", Gram::of(&d).rules, kept);
    // equivalence
    ensure!(c.equivalent(&c.clone()), "a grammar is not equivalent to its clone");
    ensure!(c.equivalent(&d) == (kept == *rules), "equivalent() = {} for rules {:?} and {:?}", c.equivalent(&d), rules, kept);
    ensure!(d.equivalent(&c) == (kept == *rules), "equivalent() = {} for rules {:?} and {:?}", d.equivalent(&c), kept, rules);
    if !rules.is_empty() {
        let j = src.pick(rules.len() as u32) as usize;
        let mut other = g.clone();
        match src.pick(3) {
            0 => other.rules[j].1.push(0),
            1 => other.rules[j].0 = (other.rules[j].0 + 1) % g.n,
            _ => {
                if !other.rules[j].1.is_empty() {
                    let q = other.rules[j].1.len() - 1;
                    other.rules[j].1[q] = (other.rules[j].1[q] + 1) % g.n;
                }
            }
        }
        let oc = other.cfg();
        ensure!(c.equivalent(&oc) == (other.rules == *rules), "equivalent() = {} for rules {:?} and {:?}", c.equivalent(&oc), rules, other.rules);
        ensure!(oc.equivalent(&c) == (other.rules == *rules), "equivalent() = {} for rules {:?} and {:?}", oc.equivalent(&c), other.rules, rules);
    }
    // extend, clear
    let mut d2 = c.clone();
    d2.extend(&d);
    let mut ext = rules.clone();
    ext.extend(kept);
    ensure!(Gram::of(&d2).rules == ext, "extend() gives {:?}", Gram::of(&d2).rules);
    d2.clear_rules();
    ensure!(d2.rules().count() == 0 && d2.is_empty(), "clear_rules() leaves rules");
    ensure!(c.is_empty() == rules.is_empty(), "is_empty()");
    // columns
    for col in 0..7 {
        let v: Vec<_> = c.column(col).collect();
        ensure!(v.len() == rules.len(), "column {} has {} rows", col, v.len());
        for (row, (l, r)) in v.iter().zip(rules.iter()) {
            let pre = if col == 0 { None } else { r.get(col - 1).copied() };
            let post = r.get(col).copied();
            ensure!(row.lhs.usize() == *l && row.predot.map(|x| x.usize()) == pre && row.postdot.map(|x| x.usize()) == post, "column {}: {:?} for rule {} ::= {:?}", col, row, l, r);
        }
        for (row, rule) in v.iter().zip(c.rules()) {
            ensure!(row.earley == Some(rule.history.dot(col)), "column {}: dot semantics", col);
        }
    }
    Ok(Outcome::Ok)
}
