use super::*;
use cfg_sequence::builder::SequenceRuleBuilder;
use cfg_sequence::rewrite::SequencesToProductions;
use cfg_sequence::{CfgSequenceExt, Separator, Sequence};

fn sep_of(k: u32, sym: Symbol) -> Separator {
    match k {
        0 => Separator::Null,
        1 => Separator::Proper(sym),
        2 => Separator::Trailing(sym),
        _ => Separator::Liberal(sym),
    }
}

/// The strings a sequence stands for, straight from the definition.
fn expected(k: u32, item: usize, sep: usize, start: u32, end: Option<u32>, max: usize) -> BTreeSet<Vec<usize>> {
    let mut out = BTreeSet::new();
    let hi = end.unwrap_or(max as u32 + 1).min(max as u32 + 1);
    for n in start..=hi {
        let proper = || {
            let mut v = vec![];
            for i in 0..n {
                if i > 0 && k != 0 {
                    v.push(sep);
                }
                v.push(item);
            }
            v
        };
        if n == 0 {
            out.insert(vec![]);
            continue;
        }
        if k == 0 || k == 1 || k == 3 {
            out.insert(proper());
        }
        if k == 2 || k == 3 {
            let mut v = proper();
            v.push(sep);
            out.insert(v);
        }
    }
    out.into_iter().filter(|v| v.len() <= max).collect()
}

/// G07: language of one or two sequence rules in one grammar.
pub fn language(src: &mut Src) -> Res {
    let mut c = Cfg::new();
    let [lhs, item, sep, lhs2, item2, sep2] = c.sym();
    let small = src.small();
    let lim = if small { 0 } else { src.pick(4) };
    if lim > 0 {
        c.limit_rhs_len(Some(1 + lim as usize));
    }
    let two = !small && src.flag();
    let same_builder = !small && src.flag();
    let mut specs = vec![];
    for i in 0..(1 + two as usize) {
        let k = src.pick(4);
        let start = src.pick(if small { 6 } else { 20 });
        let end = if src.flag() { None } else { Some(start + src.pick(if small { 6 } else { 20 })) };
        // Sometimes both sequences share item and separator.
        let share = i == 1 && src.flag();
        // Sometimes the separator is the item itself.
        let sep_is_item = !small && src.pick(6) == 0;
        let (l, it, mut sp) = if i == 0 { (lhs, item, sep) } else if share { (lhs2, specs_item(&specs), sep) } else { (lhs2, item2, sep2) };
        if sep_is_item {
            sp = it;
        }
        specs.push((k, l, it, sp, start, end));
    }
    note(format!("limit {:?}; sequences (separator kind 0=none 1=proper 2=trailing 3=liberal, lhs, item, separator, min, max): {:?}", if lim > 0 { Some(1 + lim) } else { None }, specs));
    if same_builder {
        let mut stp = SequencesToProductions::new(&mut c);
        for &(k, l, it, sp, start, end) in &specs {
            stp.rewrite(Sequence { lhs: l, rhs: it, start, end, separator: sep_of(k, sp), history: None });
        }
    } else {
        for &(k, l, it, sp, start, end) in &specs {
            let b = c.sequence(l).separator(sep_of(k, sp));
            let _ = b.inclusive(start, end).rhs(it);
        }
    }
    let g = Gram::of(&c);
    if lim > 0 {
        for (l, r) in &g.rules {
            ensure!(r.len() <= 1 + lim as usize, "rule {} ::= {:?} is longer than the limit", l, r);
        }
    }
    let mut term = vec![false; g.n];
    for x in [item, sep, item2, sep2] {
        term[x.usize()] = true;
    }
    for &(k, l, it, sp, start, end) in &specs {
        let max = (2 * end.unwrap_or(start + 6) as usize + 3).min(if small { 24 } else { 90 });
        let lang = match g.lang(max, &term, 2_000_000) {
            Some(x) => x,
            None => return Ok(Outcome::Discard),
        };
        let want = expected(k, it.usize(), sp.usize(), start, end, max);
        let got = &lang[l.usize()];
        if let Some(x) = got.difference(&want).next() {
            return Err(format!("{} derives {:?}, which the sequence does not allow", l.usize(), x));
        }
        if let Some(x) = want.difference(got).next() {
            return Err(format!("{} does not derive {:?}, which the sequence allows", l.usize(), x));
        }
    }
    Ok(Outcome::Ok)
}

fn specs_item(specs: &[(u32, Symbol, Symbol, Symbol, u32, Option<u32>)]) -> Symbol {
    specs[0].2
}

/// G07: large repetition counts, by exact interval arithmetic over the number of items.
pub fn large(src: &mut Src) -> Res {
    let mut c = Cfg::new();
    let [lhs, item, sep] = c.sym();
    let k = src.pick(4);
    let big = |src: &mut Src| -> u32 {
        let e = src.pick(32);
        let base = 1u64 << e;
        let d = src.pick(5) as i64 - 2;
        (base as i64 + d).clamp(0, u32::MAX as i64) as u32
    };
    let a = big(src);
    let end = match src.pick(3) {
        0 => None,
        1 => Some(a),
        _ => {
            let b = if src.pick(8) == 0 { u32::MAX } else { big(src) };
            if b < a {
                return Ok(Outcome::Discard);
            }
            Some(b)
        }
    };
    note(format!("sequence separator kind {} min {} max {:?}", k, a, end));
    let _ = c.sequence(lhs).separator(sep_of(k, sep)).inclusive(a, end).rhs(item);
    let g = Gram::of(&c);
    ensure!(g.rules.len() < 10_000, "{} rules for one sequence", g.rules.len());
    // Every symbol derives strings with a set of item counts that is a union of intervals;
    // u64::MAX as upper bound means unbounded. Left recursion lhs ::= lhs [sep] item means +1.
    type Iv = Vec<(u64, u64)>;
    fn norm(mut v: Iv) -> Iv {
        v.sort();
        let mut o: Iv = vec![];
        for (a, b) in v {
            if let Some(l) = o.last_mut() {
                if l.1 == u64::MAX || a <= l.1 + 1 {
                    l.1 = l.1.max(b);
                    continue;
                }
            }
            o.push((a, b));
        }
        o
    }
    fn eval(g: &Gram, x: usize, memo: &mut BTreeMap<usize, Iv>, depth: u32) -> Result<Iv, String> {
        if x == 1 {
            return Ok(vec![(1, 1)]);
        }
        if x == 2 {
            return Ok(vec![(0, 0)]);
        }
        if let Some(v) = memo.get(&x) {
            return Ok(v.clone());
        }
        if depth > 5000 {
            return Err("recursive rules other than left recursion".into());
        }
        let mut acc: Iv = vec![];
        let mut rec = false;
        for (l, r) in &g.rules {
            if *l != x {
                continue;
            }
            if r.first() == Some(&x) {
                rec = true;
                continue;
            }
            let mut cur: Iv = vec![(0, 0)];
            for y in r {
                let v = eval(g, *y, memo, depth + 1)?;
                let mut n = vec![];
                for (a, b) in &cur {
                    for (p, q) in &v {
                        n.push((a + p, if *b == u64::MAX || *q == u64::MAX { u64::MAX } else { b + q }));
                    }
                }
                cur = norm(n);
            }
            acc.extend(cur);
        }
        if rec {
            let lo = acc.iter().map(|x| x.0).min().unwrap_or(0);
            acc = vec![(lo, u64::MAX)];
        }
        let v = norm(acc);
        memo.insert(x, v.clone());
        Ok(v)
    }
    let got = eval(&g, lhs.usize(), &mut BTreeMap::new(), 0)?;
    let want = vec![(a as u64, end.map_or(u64::MAX, |x| x as u64))];
    ensure!(got == want, "derives item counts {:?}, expected {:?}", got, want);
    Ok(Outcome::Ok)
}

/// G07: repetition bounds given as ranges.
pub fn ranges(src: &mut Src) -> Res {
    let mut v: Vec<Sequence> = vec![];
    let [lhs, item] = [s(0), s(1)];
    let a = if src.small() { src.pick(4) } else { src.pick(1000) };
    let b = a + src.pick(if src.small() { 4 } else { 1000 });
    let kind = src.pick(7);
    note(format!("range kind {} from {} to {}", kind, a, b));
    let (got, want): (_, (u32, Option<u32>)) = {
        let mk = |v: &mut Vec<Sequence>, f: &dyn Fn(SequenceRuleBuilder<&mut Vec<Sequence>>) -> ()| {
            f(SequenceRuleBuilder::new(v).sequence(lhs));
        };
        use std::ops::Bound::*;
        let want = match kind {
            0 => (a, Some(b)),
            1 => (a, Some(b)),
            2 => (a, None),
            3 => (0, Some(b)),
            4 => (0, None),
            5 => (a + 1, None),
            _ => (a, Some(b)),
        };
        match kind {
            0 => mk(&mut v, &|x| drop(x.rhs_with_range(item, a..=b))),
            1 => mk(&mut v, &|x| drop(x.rhs_with_range(item, a..b + 1))),
            2 => mk(&mut v, &|x| drop(x.rhs_with_range(item, a..))),
            3 => mk(&mut v, &|x| drop(x.rhs_with_range(item, ..=b))),
            4 => mk(&mut v, &|x| drop(x.range(..).rhs(item))),
            5 => mk(&mut v, &|x| drop(x.range((Excluded(a), Unbounded)).rhs(item))),
            _ => mk(&mut v, &|x| drop(x.inclusive(a, Some(b)).rhs(item))),
        }
        ((v[0].start, v[0].end), want)
    };
    ensure!(v.len() == 1 && v[0].lhs == lhs && v[0].rhs == item && v[0].separator == Separator::Null, "sequence {:?}", v);
    ensure!(got == want, "bounds {:?}, expected {:?}", got, want);
    let q = v[0].range(a..b + 1);
    ensure!((q.start, q.end) == (a, Some(b)), "Sequence::range gives {:?}", (q.start, q.end));
    let q = v[0].inclusive(b, None);
    ensure!((q.start, q.end) == (b, None), "Sequence::inclusive gives {:?}", (q.start, q.end));
    Ok(Outcome::Ok)
}
