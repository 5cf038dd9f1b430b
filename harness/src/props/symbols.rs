use super::*;
use std::borrow::Cow;
use std::num::{NonZeroU16, NonZeroU8};

/// G01: a history of operations on a symbol source against a list model.
pub fn source(src: &mut Src) -> Res {
    let mut ss: SymbolSource = SymbolSource::new();
    let mut model: Vec<Option<String>> = vec![];
    let steps = if src.small() { src.range(1, 4) } else { src.range(1, 14) };
    let mut log = String::new();
    for step in 0..steps {
        let op = src.pick(if src.small() { 4 } else { 8 });
        match op {
            0 => {
                let named = src.flag();
                let name = format!("n{}", if src.small() { step } else { src.pick(6) });
                log += &format!("next_sym({}); ", if named { &name } else { "None" });
                note(log.clone());
                let r = ss.next_sym(if named { Some(Cow::Owned(name.clone())) } else { None });
                ensure!(r.usize() == model.len(), "fresh symbol has id {} but {} symbols exist", r.usize(), model.len());
                model.push(if named { Some(name) } else { None });
            }
            1 => {
                log += "sym::<3>(); ";
                note(log.clone());
                let r: [Symbol; 3] = ss.sym();
                for x in r {
                    ensure!(x.usize() == model.len(), "fresh symbol has id {} but {} symbols exist", x.usize(), model.len());
                    model.push(None);
                }
            }
            2 => {
                if model.is_empty() {
                    continue;
                }
                let k = src.range(1, model.len() as u32) as usize;
                log += &format!("truncate({}); ", k);
                note(log.clone());
                ss.truncate(k);
                model.truncate(k);
            }
            3 => {
                let k = src.pick(3) as usize;
                log += &format!("generate().take({}); ", k);
                note(log.clone());
                let v: Vec<Symbol> = ss.generate().take(k).collect();
                ensure!(v.len() == k, "generate() ended early");
                for x in v {
                    ensure!(x.usize() == model.len(), "generated symbol has id {} but {} symbols exist", x.usize(), model.len());
                    model.push(None);
                }
            }
            4 => {
                log += "with_names([a,None,b]); ";
                note(log.clone());
                let r = ss.with_names([Some("a"), None, Some("b")]);
                for (x, nm) in r.into_iter().zip([Some("a"), None, Some("b")]) {
                    ensure!(x.usize() == model.len(), "fresh symbol has id {} but {} symbols exist", x.usize(), model.len());
                    model.push(nm.map(|x| x.to_string()));
                }
            }
            5 => {
                log += "clone(); ";
                ss = ss.clone();
            }
            _ => {
                let n = src.pick(40) as usize;
                for _ in 0..n {
                    ss.next_sym(None);
                    model.push(None);
                }
                log += &format!("{} x next_sym(None); ", n);
            }
        }
        note(log.clone());
        ensure!(ss.num_syms() == model.len(), "num_syms() = {} but {} symbols exist", ss.num_syms(), model.len());
        let names = ss.names();
        ensure!(names.len() == model.len(), "names() has {} entries for {} symbols", names.len(), model.len());
        let mut last: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for (i, m) in model.iter().enumerate() {
            ensure!(names[i].as_deref() == m.as_deref(), "names()[{}] = {:?}, expected {:?}", i, names[i], m);
            ensure!(ss.original_name_of(s(i)) == m.as_deref(), "original_name_of({}) = {:?}, expected {:?}", i, ss.original_name_of(s(i)), m);
            let want = m.clone().unwrap_or(format!("g{}", i));
            ensure!(ss.name_of(s(i)) == want, "name_of({}) = {:?}, expected {:?}", i, ss.name_of(s(i)), want);
            if let Some(m) = m {
                last.entry(m.clone()).or_default().insert(i);
            }
        }
        ensure!(ss.original_name_of(s(model.len())).is_none(), "a symbol past the end has a name");
        let nm = ss.name_map();
        ensure!(nm.len() == last.len(), "name_map() has {} names, expected {}", nm.len(), last.len());
        for (k, v) in nm.iter() {
            ensure!(last.get(&k[..]).map_or(false, |x| x.contains(&v.usize())), "name_map()[{:?}] = {:?}", &k[..], v);
        }
    }
    Ok(Outcome::Ok)
}

/// G01: symbol sources of every width, up to the end of their symbol space.
pub fn widths(src: &mut Src) -> Res {
    let k = src.pick(if src.small() { 300 } else { 600 }) as usize;
    note(format!("take {} symbols from 8-bit and 16-bit sources", k));
    let mut ss8: SymbolSource<NonZeroU8> = SymbolSource::new();
    for i in 0..k.min(253) {
        let x = ss8.next_sym(None);
        ensure!(x.usize() == i, "8-bit symbol {} has id {}", i, x.usize());
        ensure!(ss8.num_syms() == i + 1, "8-bit num_syms");
    }
    let v: Vec<usize> = SymbolSource::<NonZeroU8>::generate_fresh().take(k.min(253)).map(|x| x.usize()).collect();
    ensure!(v == (0..k.min(253)).collect::<Vec<_>>(), "8-bit generate_fresh");
    let mut ss16: SymbolSource<NonZeroU16> = SymbolSource::new();
    for i in 0..k {
        let x = ss16.next_sym(None);
        ensure!(x.usize() == i, "16-bit symbol {} has id {}", i, x.usize());
    }
    if k > 0 {
        ss16.truncate((k + 1) / 2);
        ensure!(ss16.num_syms() == (k + 1) / 2, "16-bit truncate");
        ensure!(ss16.next_sym(None).usize() == (k + 1) / 2, "16-bit symbol after truncate");
    }
    Ok(Outcome::Ok)
}

/// G01: symbols survive serialization, and compare as their numeric values do.
pub fn round_trip(src: &mut Src) -> Res {
    let i = src.pick(if src.small() { 300 } else { 5000 }) as usize;
    let j = if src.small() { i / 2 } else { src.pick(5000) as usize };
    note(format!("symbols {} and {}", i, j));
    let (a, b) = (s(i), s(j));
    ensure!(a.usize() == i, "usize");
    let n: u32 = a.into();
    ensure!(n as usize == i, "into u32");
    ensure!((a == b) == (i == j) && (a < b) == (i < j), "comparison of {} and {}", i, j);
    let t = miniserde::json::to_string(&a);
    let r: Symbol = miniserde::json::from_str(&t).map_err(|_| "does not deserialize".to_string())?;
    ensure!(r == a, "symbol {} deserializes to {}", i, r.usize());
    Ok(Outcome::Ok)
}

/// G02: symbol sets are exactly what their definitions say.
pub fn sets(src: &mut Src) -> Res {
    let g = gram(src);
    let c = cfg_with_past(src, &g);
    note(g.text());
    let t = g.terminal();
    let mut used = vec![false; g.n];
    let mut lhs = vec![false; g.n];
    let mut nulling = vec![false; g.n];
    for (l, r) in &g.rules {
        used[*l] = true;
        lhs[*l] = true;
        if r.is_empty() {
            nulling[*l] = true;
        }
        for x in r {
            used[*x] = true;
        }
    }
    let not = |v: &[bool]| v.iter().map(|x| !x).collect::<Vec<bool>>();
    let chk = |what: &str, b: &SymbolBitSet, want: &[bool]| -> Result<(), String> {
        ensure!(b.space() == want.len(), "{}: space {} for {} symbols", what, b.space(), want.len());
        for i in 0..want.len() {
            ensure!(b[s(i)] == want[i], "{}: membership of {} is {}, expected {}", what, i, b[s(i)], want[i]);
        }
        let it: Vec<usize> = b.iter().map(|x| x.usize()).collect();
        let w: Vec<usize> = of_bools(want).into_iter().collect();
        ensure!(it == w, "{}: iterates {:?}, expected {:?}", what, it, w);
        ensure!(b.all() == want.iter().all(|x| *x), "{}: all() = {}", what, b.all());
        ensure!(b.is_empty() == !want.iter().any(|x| *x), "{}: is_empty() = {} for members {:?}", what, b.is_empty(), w);
        ensure!(b.bit_vec().iter().collect::<Vec<bool>>() == want, "{}: bit_vec", what);
        Ok(())
    };
    chk("terminal_symbols", &c.terminal_symbols(), &t)?;
    chk("nulling_symbols", &c.nulling_symbols(), &nulling)?;
    chk("unused_symbols", &c.unused_symbols(), &not(&used))?;
    // A pre-filled set, reused.
    let fill: Vec<bool> = (0..g.n).map(|_| if src.small() { false } else { src.flag() }).collect();
    let other: Vec<bool> = (0..g.n).map(|_| if src.small() { true } else { src.flag() }).collect();
    let mut b = bitset(&c, &fill);
    chk("set", &b, &fill)?;
    b.productive(&c);
    chk("productive on a filled set", &b, &(0..g.n).map(|i| fill[i] || lhs[i]).collect::<Vec<_>>())?;
    let mut b = bitset(&c, &fill);
    b.nulling(&c);
    chk("nulling on a filled set", &b, &(0..g.n).map(|i| fill[i] || nulling[i]).collect::<Vec<_>>())?;
    let mut b = bitset(&c, &fill);
    b.subtract_productive(&c);
    chk("subtract_productive", &b, &(0..g.n).map(|i| fill[i] && !lhs[i]).collect::<Vec<_>>())?;
    let mut b = bitset(&c, &fill);
    b.union(&bitset(&c, &other));
    chk("union", &b, &(0..g.n).map(|i| fill[i] || other[i]).collect::<Vec<_>>())?;
    b.negate();
    chk("negate", &b, &(0..g.n).map(|i| !(fill[i] || other[i])).collect::<Vec<_>>())?;
    for i in 0..g.n {
        let mut b = bitset(&c, &fill);
        b.set(s(i), !fill[i]);
        let mut w = fill.clone();
        w[i] = !fill[i];
        chk("set one", &b, &w)?;
    }
    let mut b = bitset(&c, &fill);
    b.used(&c);
    chk("used", &b, &used)?;
    b.unused(&c);
    chk("unused", &b, &not(&used))?;
    b.terminal(&c);
    chk("terminal", &b, &t)?;
    b.reset(c.sym_source());
    chk("reset", &b, &vec![false; g.n])?;
    b.set_all(c.sym_source());
    chk("set_all", &b, &vec![true; g.n])?;
    let extra = src.pick(4) as usize;
    let mut b = bitset(&c, &fill);
    b.reserve(g.n + extra);
    let mut w = fill.clone();
    w.extend(vec![false; extra]);
    chk("reserve", &b, &w)?;
    let mut b = SymbolBitSet::new();
    chk("new", &b, &[])?;
    b.productive(&c);
    chk("productive on an empty set", &b, &lhs)?;
    let mut b = SymbolBitSet::new();
    b.nulling(&c);
    chk("nulling on an empty set", &b, &nulling)?;
    let mut b = SymbolBitSet::new();
    b.subtract_productive(&c);
    chk("subtract_productive on an empty set", &b, &not(&lhs))?;
    chk("from_elem", &SymbolBitSet::from_elem(&c, true), &vec![true; g.n])?;
    Ok(Outcome::Ok)
}
