// G24: the loader.
/// What is found out while the tokens are read.
pub proof fn lemma_not_viable(ts: Seq<Tok>, y: Seq<Sc>, k: int)
    requires 0 < k <= ts.len(), y == scan_of(ts).take(k), forall|z: Seq<Sc>| #[trigger] begins(y, z) ==> !sentence(z),
    ensures !viable(ts.take(k)),
{
    if viable(ts.take(k)) {
        let d = choose|d: Seq<Decl>| #[trigger] doc_begins(d, ts.take(k));
        let w = pr_doc(d);
        lemma_sentence(w);
        assert(written(d, w));
        assert(sentence(scan_of(w)));
        assert(scan_of(w).take(k) =~= y) by {
            assert forall|i: int| 0 <= i < k implies scan_of(w)[i] == y[i] by { assert(w.take(k)[i] == ts.take(k)[i]); }
        }
        assert(begins(y, scan_of(w)));
    }
}
pub proof fn lemma_doc_some(d: Seq<Decl>)
    requires doc_ok(d),
    ensures all_rules(d).len() > 0,
    decreases d.len(),
{
    let l = d.last();
    assert(decl_ok(d[d.len() - 1]));
    match l {
        Decl::Rule(x) => { assert(fl_line(x).len() > 0); }
        Decl::Lexer(ls) => { assert(fl_lines(ls) == fl_lines(ls.drop_last()) + fl_line(ls.last())); assert(fl_line(ls.last()).len() > 0); }
    }
}
pub proof fn lemma_marked(v: Seq<(Rule, bool)>, a: Seq<Rule>, b: Seq<Rule>, d: Seq<Decl>)
    requires marked(v, a, false, b, true), rus(a) == fl_doc(d, false), rus(b) == fl_doc(d, true),
    ensures v.len() == all_rules(d).len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.v() == all_rules(d)[i] && v[i].1 == (i >= outer(d)),
{
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).0.v() == all_rules(d)[i] && v[i].1 == (i >= outer(d)) by {
        if i < a.len() { assert(v[i] == (a[i], false)); assert(rus(a)[i] == a[i].v()); }
        else { assert(v[i] == (b[i - a.len()], true)); assert(rus(b)[i - a.len()] == b[i - a.len()].v()); }
    }
}
pub proof fn lemma_not_flawed(l: Lay, rs: Seq<CfgRule>, n: int, d: Seq<Decl>)
    requires laid(l, rs, n, all_rules(d)),
    ensures forall|i: int, k: int| !#[trigger] bad_at(d, i, k),
{
    assert forall|i: int, k: int| !#[trigger] bad_at(d, i, k) by {
        if bad_at(d, i, k) {
            assert(main_fact(l, rs, all_rules(d), i));
            let u = rs[l.at[i]].rhs@;
            let f = all_rules(d)[i].rhs[k];
            assert(frag_is(l, f, u[k]));
            if let Pt::Call(c, t) = f {
                let j = choose|j: int| #[trigger] is_rx(l, j, u[k], t);
                assert(rx_fact(l, rs, n, j));
                assert(rx_of(t, l.rxs[j].of));
            }
        }
    }
}
/// The ids of the left-hand sides outside lexers.
pub open spec fn outer_ids(s: VxIds, it: StringInterner, d: Seq<Decl>, n: int) -> bool {
    forall|k: usize| #[trigger] s.has(k) <==> exists|i: int| #[trigger] id_at(it, d, n, i, k)
}
pub open spec fn id_at(it: StringInterner, d: Seq<Decl>, n: int, i: int, k: usize) -> bool { 0 <= i < n && i < outer(d) && it.id(all_rules(d)[i].lhs) == k }
pub open spec fn not_shared(d: Seq<Decl>, n: int) -> bool { forall|i: int, j: int| j < n ==> !#[trigger] shared_at(d, i, j) }
pub open spec fn lhs_named(l: Lay, ds: Seq<Ru>, n: int) -> bool { forall|j: int| 0 <= j < n ==> l.names.contains_key((#[trigger] ds[j]).lhs) }
pub open spec fn set_is(s: SymSet, l: Lay, ds: Seq<Ru>, a: int, b: int) -> bool { forall|x: Symbol| #[trigger] s.has(x) == lexical(l, ds, a, b, x) }
pub open spec fn root_is(g: Cfg, l: Lay, ds: Seq<Ru>) -> bool { l.names.contains_key(ds[0].lhs) && g.roots@ == seq![l.names[ds[0].lhs]] }
/// Classes of an expression have symbols, up to the i-th entry.
pub open spec fn ren_mid(m: RM, es: Entries, i: int, cm: CM) -> bool {
    &&& forall|a: int| 0 <= a < i ==> cm.contains_key((#[trigger] es[a]).0.set@) && m.contains_key(es[a].1) && m[es[a].1] == cm[es[a].0.set@]
    &&& forall|s: Symbol| #[trigger] m.contains_key(s) ==> exists|a: int| 0 <= a < i && (#[trigger] es[a]).1 == s
}
pub proof fn lemma_moves_start(m: RM, es: Entries, x: RxG, cm: CM, first: int)
    requires ren_mid(m, es, es.len() as int, cm), all_entries(x.cm, es),
    ensures moves(m, x, cm, first, first),
{
    assert forall|k: Seq<(char, char)>| #[trigger] x.cm.contains_key(k) implies cm.contains_key(k) && m.contains_key(x.cm[k]) && m[x.cm[k]] == cm[k] by {
        let a = choose|a: int| 0 <= a < es.len() && (#[trigger] es[a]).0.set@ == k;
        assert(es[a].1 == x.cm[k]);
    }
    assert forall|s: Symbol| #[trigger] m.contains_key(s) implies rx_class(x.cm, s) by {
        let a = choose|a: int| 0 <= a < es.len() && (#[trigger] es[a]).1 == s;
        assert(x.cm.contains_key(es[a].0.set@));
    }
}
pub proof fn lemma_moves_next(m: RM, x: RxG, cm: CM, first: int, end: int, s: Symbol, t: Symbol)
    requires moves(m, x, cm, first, end), !m.contains_key(s), t.raw == end, first <= end,
    ensures moves(m.insert(s, t), x, cm, first, end + 1),
{
    let q = m.insert(s, t);
    assert forall|k: Seq<(char, char)>| #[trigger] x.cm.contains_key(k) implies cm.contains_key(k) && q.contains_key(x.cm[k]) && q[x.cm[k]] == cm[k] by { assert(m.contains_key(x.cm[k])); }
    assert forall|a: Symbol| #[trigger] q.contains_key(a) implies rx_class(x.cm, a) || first <= q[a].raw < end + 1 by { if a != s { assert(m.contains_key(a)); } }
    assert forall|a: Symbol, b: Symbol| #[trigger] q.contains_key(a) && #[trigger] q.contains_key(b) && q[a] == q[b] && !rx_class(x.cm, a) && !rx_class(x.cm, b) implies a == b by {
        if a != s { assert(m.contains_key(a)); }
        if b != s { assert(m.contains_key(b)); }
    }
}
/// The answers so far are what the map holds.
pub open spec fn answered(m: RM, v: Seq<Symbol>, i: int) -> bool { forall|a: int| 0 <= a < i ==> m.contains_key(#[trigger] v[a]) }
pub open spec fn same_on(a: RM, b: RM) -> bool { forall|s: Symbol| #[trigger] a.contains_key(s) ==> b.contains_key(s) && b[s] == a[s] }
pub proof fn lemma_answered(m: RM, v: Seq<Symbol>, g: Cfg)
    requires answered(m, v, v.len() as int), names_all(v, g), g.roots@.len() == 1,
    ensures dom_ok(m, rxg(g, Map::empty())),
{
    assert forall|s: Symbol| v.contains(s) implies m.contains_key(s) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == s; assert(m.contains_key(v[i])); }
    assert(v.contains(g.roots@[0]));
}
pub open spec fn dom_has(p: RxG, q: RxG) -> bool { p.ps == q.ps && p.root == q.root }
/// The names in the list so far are in the map, and nothing else.
pub open spec fn names_mid(m: Map<Seq<char>, Symbol>, es: Seq<(usize, Symbol)>, i: int, it: StringInterner) -> bool {
    &&& forall|a: int| 0 <= a < i ==> m.contains_key(#[trigger] it.back(es[a].0)) && m[it.back(es[a].0)] == es[a].1
    &&& forall|s: Seq<char>| #[trigger] m.contains_key(s) ==> exists|a: int| 0 <= a < i && #[trigger] it.back(es[a].0) == s
}
pub proof fn lemma_names(m: Map<Seq<char>, Symbol>, es: Seq<(usize, Symbol)>, it: StringInterner, q: Map<usize, Symbol>, l: Lay)
    requires names_mid(m, es, es.len() as int, it), entries_are(q, es), known(l, it, q),
    ensures m =~= l.names,
{
    assert forall|s: Seq<char>| #[trigger] m.contains_key(s) == l.names.contains_key(s) && (m.contains_key(s) ==> m[s] == l.names[s]) by {
        if m.contains_key(s) {
            let a = choose|a: int| 0 <= a < es.len() && #[trigger] it.back(es[a].0) == s;
            assert(q.contains_key(es[a].0));
        }
        if l.names.contains_key(s) {
            let a = choose|a: int| 0 <= a < es.len() && (#[trigger] es[a]).0 == it.id(s);
            assert(m.contains_key(it.back(es[a].0)));
        }
    }
}
pub proof fn lemma_lexical_start(l: Lay, ds: Seq<Ru>, a: int)
    requires l.lits == Map::<Seq<char>, Seq<char>>::empty(), a >= 0,
    ensures forall|s: Symbol| !#[trigger] lexical(l, ds, a, 0, s),
{
    assert forall|s: Symbol| !#[trigger] lexical(l, ds, a, 0, s) by {
        assert forall|j: int| !#[trigger] lexical_lhs(l, ds, a, 0, j, s) by { }
        assert forall|t: Seq<char>| !#[trigger] lexical_lit(l, t, s) by { }
    }
}
pub proof fn lemma_lexical_below(l: Lay, rs: Seq<CfgRule>, n: int, ds: Seq<Ru>, a: int, s: Symbol)
    requires laid(l, rs, n, ds), lhs_named(l, ds, ds.len() as int), lexical(l, ds, a, ds.len() as int, s), a >= 0,
    ensures s.raw < n,
{
    if exists|j: int| #[trigger] lexical_lhs(l, ds, a, ds.len() as int, j, s) {
        let j = choose|j: int| #[trigger] lexical_lhs(l, ds, a, ds.len() as int, j, s);
        assert(l.names.contains_key(ds[j].lhs));
        assert(name_fact(l, n, ds[j].lhs));
    } else {
        let t = choose|t: Seq<char>| #[trigger] lexical_lit(l, t, s);
        assert(lit_fact(l, t));
        assert(name_fact(l, n, l.lits[t]));
    }
}
pub proof fn lemma_outer_next(a: VxIds, b: VxIds, it: StringInterner, d: Seq<Decl>, n: int, k: usize)
    requires
        outer_ids(a, it, d, n), 0 <= n < all_rules(d).len(), it.id(all_rules(d)[n].lhs) == k,
        if n < outer(d) { forall|x: usize| #[trigger] b.has(x) == (x == k || a.has(x)) } else { a == b },
    ensures outer_ids(b, it, d, n + 1),
{
    let n1 = n + 1;
    assert forall|x: usize| #[trigger] b.has(x) <==> exists|i: int| #[trigger] id_at(it, d, n1, i, x) by {
        if b.has(x) {
            if a.has(x) { let i = choose|i: int| #[trigger] id_at(it, d, n, i, x); assert(id_at(it, d, n1, i, x)); }
            else { assert(id_at(it, d, n1, n, x)); }
        }
        if exists|i: int| #[trigger] id_at(it, d, n1, i, x) {
            let i = choose|i: int| #[trigger] id_at(it, d, n1, i, x);
            if i < n { assert(id_at(it, d, n, i, x)); }
        }
    }
}
pub proof fn lemma_shared_next(a: VxIds, it: StringInterner, d: Seq<Decl>, n: int, k: usize)
    requires outer_ids(a, it, d, n), not_shared(d, n), 0 <= n < all_rules(d).len(), it.id(all_rules(d)[n].lhs) == k, n >= outer(d) ==> !a.has(k),
    ensures not_shared(d, n + 1),
{
    assert forall|i: int, j: int| j < n + 1 implies !#[trigger] shared_at(d, i, j) by {
        if shared_at(d, i, j) && j == n { assert(id_at(it, d, n, i, k)); }
    }
}
pub proof fn lemma_shared_found(a: VxIds, it: StringInterner, d: Seq<Decl>, n: int, k: usize, l: Lay, m: Map<usize, Symbol>)
    requires
        outer_ids(a, it, d, n), outer(d) <= n < all_rules(d).len(), it.id(all_rules(d)[n].lhs) == k, it.back(k) == all_rules(d)[n].lhs, a.has(k),
        lhs_named(l, all_rules(d), n), known(l, it, m),
    ensures flawed(d),
{
    let i = choose|i: int| #[trigger] id_at(it, d, n, i, k);
    assert(l.names.contains_key(all_rules(d)[i].lhs));
    assert(shared_at(d, i, n));
}
pub proof fn lemma_ren_next(m: RM, es: Entries, i: int, a: CM, b: CM, x: CM, s: Symbol)
    requires
        ren_mid(m, es, i, a), 0 <= i < es.len(), all_entries(x, es), own_classes(x), b.contains_key(es[i].0.set@), b[es[i].0.set@] == s,
        forall|k: Seq<(char, char)>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k],
    ensures ren_mid(m.insert(es[i].1, s), es, i + 1, b),
{
    let q = m.insert(es[i].1, s);
    assert forall|c: int| 0 <= c < i + 1 implies b.contains_key((#[trigger] es[c]).0.set@) && q.contains_key(es[c].1) && q[es[c].1] == b[es[c].0.set@] by {
        assert(x.contains_key(es[c].0.set@) && x.contains_key(es[i].0.set@));
        if c < i { assert(a.contains_key(es[c].0.set@)); }
    }
    assert forall|y: Symbol| #[trigger] q.contains_key(y) implies exists|c: int| 0 <= c < i + 1 && (#[trigger] es[c]).1 == y by {
        if y == es[i].1 { } else { assert(m.contains_key(y)); let c = choose|c: int| 0 <= c < i && (#[trigger] es[c]).1 == y; assert(es[c].1 == y); }
    }
}
pub proof fn lemma_spells_next(cm: CM, dm: CM, t: Seq<char>, i: int, u: Seq<Symbol>, x: Symbol)
    requires
        0 <= i < t.len(), spells(cm, t.take(i), u), dm.contains_key(char_key(t[i])), dm[char_key(t[i])] == x,
        forall|k: Seq<(char, char)>| #[trigger] cm.contains_key(k) ==> dm.contains_key(k) && dm[k] == cm[k],
    ensures spells(dm, t.take(i + 1), u.push(x)),
{
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] spell_at(dm, t.take(i + 1), u.push(x), j) by {
        if j < i { assert(spell_at(cm, t.take(i), u, j)); }
    }
}
pub open spec fn set_mid(s: SymbolBitSet, v: Seq<Symbol>, i: int) -> bool { forall|x: Symbol| #[trigger] s.has(x) <==> v.take(i).contains(x) }
pub proof fn lemma_set_next(a: SymbolBitSet, b: SymbolBitSet, v: Seq<Symbol>, i: int)
    requires set_mid(a, v, i), 0 <= i < v.len(), forall|x: Symbol| #[trigger] b.has(x) == (x == v[i] || a.has(x)),
    ensures set_mid(b, v, i + 1),
{
    assert(v.take(i + 1) =~= v.take(i).push(v[i]));
    assert forall|x: Symbol| #[trigger] b.has(x) <==> v.take(i + 1).contains(x) by {
        if x == v[i] { assert(v.take(i + 1)[i] == x); }
        if a.has(x) { let w = v.take(i); let j = choose|j: int| 0 <= j < i && #[trigger] w[j] == x; assert(v.take(i + 1)[j] == x); }
        if v.take(i + 1).contains(x) && x != v[i] { let w = v.take(i + 1); let j = choose|j: int| 0 <= j < i + 1 && #[trigger] w[j] == x; assert(v.take(i)[j] == x); }
    }
}
pub proof fn lemma_names_next(m: Map<Seq<char>, Symbol>, es: Seq<(usize, Symbol)>, i: int, it: StringInterner, q: Map<usize, Symbol>, l: Lay)
    requires names_mid(m, es, i, it), 0 <= i < es.len(), entries_are(q, es), known(l, it, q),
    ensures names_mid(m.insert(it.back(es[i].0), es[i].1), es, i + 1, it),
{
    let p = m.insert(it.back(es[i].0), es[i].1);
    assert(q.contains_key(es[i].0));
    assert forall|a: int| 0 <= a < i + 1 implies p.contains_key(#[trigger] it.back(es[a].0)) && p[it.back(es[a].0)] == es[a].1 by {
        assert(q.contains_key(es[a].0));
        if it.back(es[a].0) == it.back(es[i].0) { assert(es[a].0 == es[i].0); }
    }
    assert forall|s: Seq<char>| #[trigger] p.contains_key(s) implies exists|a: int| 0 <= a < i + 1 && #[trigger] it.back(es[a].0) == s by {
        if s == it.back(es[i].0) { } else { assert(m.contains_key(s)); let a = choose|a: int| 0 <= a < i && #[trigger] it.back(es[a].0) == s; assert(it.back(es[a].0) == s); }
    }
}
//@fn cfg-load/src/advanced.rs CfgLoadAdvancedExt for Cfg::load_advanced
//@name vx_load_advanced
//@free
//@rewrite_opt use tiny_earley::Grammar; =>
//@rewrite_opt grammar! { $$g } => vx_bnf_grammar()
//@rewrite_opt let [$$n] = bnf_grammar.symbols(); => let ($$n) = vx_syms(&bnf_grammar.symbols());
//@rewrite_opt for ($i, &(ref $c, $l, $k)) in tokens.iter().enumerate() { $$b } ==>> for ($i, vx_t) in tokens.iter().enumerate() { let $c = &vx_t.0; let $l = vx_t.1; let $k = vx_t.2; $$b }
//@rewrite_opt &Token::Error($a, $b) => { $$body } ==>> Token::Error(vx_a, vx_b) => { let $a = *vx_a; let $b = *vx_b; $$body }
//@rewrite_opt ch.clone() => vx_clone_token(ch)
//@rewrite_opt reason: $$s.to_string() => reason: vx_text()
//@rewrite_opt reason: format!($$f) => reason: vx_text()
//@rewrite_opt recognizer.forest.evaluator($$e).evaluate($$n) => { let vx_e = $$e; proof { lemma_acts_typed(); } let vx_r = vx_evaluate(&recognizer, vx_e, $$n); proof { t = choose|t: Tree| #[trigger] t_wf(t) && t_sym(t) == s_start() && t_yield(t) == recognizer.scanned@ && vx_r.v() == t_val(t, ts); lemma_tree(t, ts); } vx_r }
//@rewrite_opt let mut set_of_lexical: BTreeSet<_> = BTreeSet::new(); => let mut set_of_lexical = SymSet::new();
//@rewrite_opt let mut lhs_in_parser = HashSet::new(); => let mut lhs_in_parser = VxIds::new();
//@rewrite_opt let mut actions = BTreeMap::new(); => let mut actions = VxActions::new();
//@rewrite_opt let mut remap = Remap::new(&mut regexp_cfg); let mut sym_map = HashMap::new(); => let ghost x0 = rxg(regexp_cfg, classes.classes@); let mut sym_map = VxRen::new();
//@rewrite_opt HashMap::new() => VxSymMap::new()
//@rewrite_opt rules.into_iter().zip(iter::repeat($a)).chain($$l.into_iter().zip(iter::repeat($b)),).enumerate() => vx_both(rules, $a, $$l, $b).enumerate()
//@rewrite_opt LexerVal(vec![]) => LexerVal(Vec::new())
//@rewrite_opt for (class, sym) in classes.classes { $$b } => let vx_es = classes.classes.entries(); for vx_x in vx_es { let (class, sym) = vx_x; $$b }
//@rewrite_opt remap.remap_symbols(|sym| { $$b }); => let vx_l = vx_calls(&regexp_cfg); for vx_x in vx_l { let sym = vx_x; let vx_a = { $$b }; proof { assert(sym_map@.contains_key(sym) && sym_map@[sym] == vx_a && same_on(m0, sym_map@)); } } proof { lemma_answered(sym_map@, vx_l@, regexp_cfg); } vx_renamed(&mut regexp_cfg, Ghost(sym_map@));
//@rewrite_opt *sym_map.entry(sym).or_insert_with(|| $$b) => { let vx_k = sym; match sym_map.at(vx_k) { Some(vx_s) => vx_s, None => { let ghost gx = cfg; let vx_s = $$b; proof { lemma_moves_next(sym_map@, x0, lay.cm, ga.n(), gx.n(), vx_k, vx_s); lemma_more_syms(gx, cfg); } sym_map.insert(vx_k, vx_s); vx_s } } }
//@rewrite_opt *sym_map.entry($$k).or_insert_with(|| $$b) => { let vx_k = $$k; let vx_r = match sym_map.at(vx_k) { Some(vx_s) => vx_s, None => { let ghost gx = cfg; let ghost lx = lay; let vx_s = { $$b }; proof { lay = lemma_named(lx, gx, cfg, done, intern, sym_map@, lex_string_intern, vx_k, vx_s); lemma_extends(lay0, lx, lay); } sym_map.put(vx_k, vx_s); proof { out_map = sym_map@; } vx_s } }; proof { assert(lay.names.contains_key(intern.back(vx_k)) && lay.names[intern.back(vx_k)] == vx_r); } vx_r }
//@rewrite_opt *lexer_classes.classes.entry(ch.into()).or_insert_with(|| $$b) => *lexer_classes.classes.entry(LexerClasses::from_char(ch)).or_insert_with(|| $$b)
//@rewrite_opt *lexer_classes.classes.entry($$k).or_insert_with(|| $$b) => { let vx_k = $$k; match lexer_classes.classes.get(&vx_k) { Some(vx_s) => vx_s, None => { let ghost gx = cfg; let ghost lx = lay; let vx_s = $$b; proof { lay = lemma_classed(lx, gx, cfg, done, intern, out_map, lex_string_intern, vx_k.set@, vx_s); lemma_extends(lay0, lx, lay); } lexer_classes.classes.insert(vx_k, vx_s); vx_s } } }
//@rewrite_opt cfg.sym_source_mut().next_sym(Some($x.$f[..].into())) => vx_named(&mut cfg, &$x.$f)
//@rewrite_opt cfg.sym_source_mut().next_sym(Some($x[..].into())) => vx_named(&mut cfg, &$x)
//@rewrite_opt cfg.sym_source_mut().next_sym(Some($x.clone().into())) => vx_named(&mut cfg, &$x)
//@rewrite_opt cfg.set_roots([$$s]) => cfg.set_roots(vx_sym($$s).as_slice())
//@rewrite_opt Cfg::from_regexp($$s).map_err(|err| $$e)? => match vx_from_regexp(&$$s) { Ok(vx_v) => vx_v, Err(err) => { proof { assert(bad_at(d, __i1 - 1, __i2 - 1)); } return Err($$e); } }
//@rewrite_opt string.chars().map(|ch| { $$b }).collect() => { let mut vx_c: Vec<Symbol> = Vec::new(); let ghost names5 = lay.names; let vx_chs = vx_chars(&string); for vx_x in vx_chs { let ch = vx_x; let vx_y = { $$b }; vx_c.push(vx_y); } vx_c }
//@rewrite_opt let rhs_syms: Result<Vec<_>, LoadError> = rule.rhs.into_iter().map(|fragment| match fragment { $$b }).collect(); => let rhs_syms: Vec<Symbol> = { let mut vx_v: Vec<Symbol> = Vec::new(); for vx_f in rule.rhs { let fragment = vx_f; let vx_s: Result<Symbol, LoadError> = match fragment { $$b }; match vx_s { Ok(vx_o) => { vx_v.push(vx_o); } Err(vx_e) => { return Err(vx_e); } } } vx_v };
//@rewrite_opt rhs_syms? => rhs_syms
//@rewrite_opt match &*arg { $$b } => match *arg { $$b }
//@rewrite_opt &Fragment::$v { $$b } => Fragment::$v { $$b }
//@rewrite_opt ref $x => $x
//@rewrite_opt func != $$s { $$b } => !vx_same(&func, $$s) { $$b }
//@rewrite_opt assert_eq!($$a, $$b); => vx_must($$a == $$b);
//@rewrite_opt format!("__lex{}", $i) => vx_lex_name($i)
//@rewrite_opt get_or_intern(&$x.$f[..]) => get_or_intern(&$x.$f)
//@rewrite_opt get_or_intern(&$x[..]) => get_or_intern(&$x)
//@rewrite_opt let [$v] = cfg.sym(); => let ghost g0 = cfg; let $v = cfg.next_sym(None);
//@rewrite_opt cfg.sequence($$l).inclusive($$a, $$b).rhs($$r); => let ghost g1 = cfg; let ghost lx = lay; proof { assert(lay.names.contains_key(intern.back(id))); assert(is_named(lay, $$r)); assert(name_fact(lay, g0.n(), intern.back(id))); lemma_before_seq(g0, g1, $$l, $$r, $$a); } vx_sequence(&mut cfg, $$l, $$a, $$b, $$r); proof { lay = lemma_after_seq(lay, g0, g1, cfg, $$l, $$r, $$a, done); lemma_extends(lay0, lx, lay); }
//@rewrite_opt cfg.sequence($$l).range($a..).rhs($$r); => let ghost g1 = cfg; let ghost lx = lay; proof { assert(lay.names.contains_key(intern.back(id))); assert(is_named(lay, $$r)); assert(name_fact(lay, g0.n(), intern.back(id))); lemma_before_seq(g0, g1, $$l, $$r, $a); } vx_sequence(&mut cfg, $$l, $a, None, $$r); proof { lay = lemma_after_seq(lay, g0, g1, cfg, $$l, $$r, $a, done); lemma_extends(lay0, lx, lay); }
//@rewrite_opt cfg.rule(rhs_sym).rhs(&child[..]); => let ghost g2 = cfg; let ghost lx = lay; RuleBuilder::new(&mut cfg).rule(rhs_sym).rhs(child.as_slice()); proof { lay = lemma_after_str(lx, g2, cfg, done, intern, sym_map@, lex_string_intern, string@, rhs_sym, child@); lemma_extends(lay0, lx, lay); }
//@rewrite_opt cfg.rule($$l).history(RootHistoryNode::Origin { $$f }.into()).rhs($$r); => let ghost g2 = cfg; let ghost lx = lay; RuleBuilder::new(&mut cfg).rule($$l).history(History::from_root(RootHistoryNode::Origin { $$f })).rhs($$r.as_slice()); proof { lay = lemma_after_rule(lx, g2, cfg, done, ds.take(__i1 as int), r, $$l, $$r@); lemma_lexical(lx, lay, ds, outer(d), __i1 - 1, g2.rules@, g2.n(), done); if __i1 - 1 < outer(d) { lemma_lexical_none(lay, ds, outer(d), __i1 - 1); } else { lemma_lexical_next(lay, ds, outer(d), __i1 - 1); } }
//@rewrite_opt cfg.extend(&regexp_cfg); => let ghost gb = cfg; let ghost lx = lay; cfg.extend(&regexp_cfg); proof { lay = lemma_after_rx(lx, ga, gb, cfg, regexp_cfg.rules@, done, x0, sym_map@, string@); lemma_extends(lay0, lx, lay); assert(is_rx(lay, lx.rxs.len() as int, sym_map@[x0.root], string@)); assert(f == Pt::Call(func@, string@)); assert(frag_is(lay, f, sym_map@[x0.root])); assert(regexp_cfg.roots@[0] == sym_map@[x0.root]); }
//@rewrite_opt in set_of_lexical { $$b } => in set_of_lexical.list() { $$b }
//@rewrite_opt sym_map.into_iter().map(|(id, sym)| { $$b }).collect() => { let mut vx_n = VxNames::new(); let vx_l = sym_map.list(); for vx_x in vx_l { let (id, sym) = vx_x; proof { assert(sym_map@.contains_key(id)); } let vx_y = { $$b }; vx_n.put(vx_y.0, vx_y.1); } vx_n }
//@rewrite_opt intern.resolve(id).expect($$m).to_string() => vx_text_of(intern.resolve(id))
//@rewrite_opt Ok(AdvancedGrammar { $$f }) => { let vx_g = AdvancedGrammar { $$f }; proof { assert(loaded(lay, d, vx_g)); } Ok(vx_g) }
//@loops for for for for for for for for
//@for 1 value
//@for 2 value
//@for 3 value
//@for 4 value
//@for 5 value
//@for 6 value
//@for 7 value
//@attr #[verifier::rlimit(80)]
    requires
        grammar@.len() < u32::MAX, forall|d: Seq<Decl>| #[trigger] written(d, tks(lex(grammar@, 0))) ==> calls_plain(d),
    ensures
        match ret {
            Ok(g) => stuck(grammar@, 0) is None && exists|l: Lay, d: Seq<Decl>| written(d, tks(lex(grammar@, 0))) && !flawed(d) && #[trigger] loaded(l, d, g),
            Err(e) => refused(grammar@, e),
        },
//@at loop0.pre
    let ghost s = grammar@;
    let ghost w = lex(s, 0);
    let ghost ts = tks(w);
    proof { lemma_lex_len(s, 0); lemma_sentence(ts); lemma_scan(ts); assert(recognizer.scanned@ =~= scan_of(ts).take(0)); }
//@loop 0
    invariant
        s == grammar@, w == lex(s, 0), ts == tks(w), tokenized(s, tokens@), w.len() <= s.len() < u32::MAX, __s0 == &tokens, scan_of(ts).len() == ts.len(), stuck(s, 0) is Some ==> stuck(s, 0).unwrap() <= s.len(),
        ident.n == s_ident(), bnf_op.n == s_bnf_op(), semicolon.n == s_semicolon(), pipe.n == s_pipe(), op_plus.n == s_op_plus(), op_mul.n == s_op_mul(), lparen.n == s_lparen(), rparen.n == s_rparen(),
        string.n == s_string(), lexer_keyword.n == s_lexer_keyword(), lbrace.n == s_lbrace(), rbrace.n == s_rbrace(), gt_op.n == s_gt_op(), tilde_op.n == s_tilde_op(),
        __i0 <= w.len(), recognizer.ready(), recognizer.scanned@ == scan_of(ts).take(__i0 as int),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    proof {
        let k = __i0 - 1;
        if k < w.len() {
            if stuck(s, 0) is Some { assert(tokens@.drop_last()[k] == tokens@[k]); }
            assert(at_place(s, tokens@[k], w[k]));
            lemma_lines(s.take(w[k].1 as int));
            assert(scan_of(ts).take(__i0 as int) =~= scan_of(ts).take(__i0 - 1).push(scan_of(ts)[__i0 - 1]));
        } else {
            assert(error_at(s, tokens@[k], stuck(s, 0).unwrap()));
            lemma_lines(s.take(stuck(s, 0).unwrap() as int));
        }
    }
//@at if0.then
    proof { lemma_not_viable(ts, recognizer.scanned@, __i0 as int); assert(dead_at(s, __i0 - 1)); }
//@at loop0.post
    let ghost mut t: Tree = arbitrary();
    proof {
        assert(scan_of(ts).take(ts.len() as int) =~= scan_of(ts));
        assert(toks(tokens@) =~= ts) by { assert forall|i: int| 0 <= i < tokens@.len() implies toks(tokens@)[i] == ts[i] by { assert(at_place(s, tokens@[i], w[i])); } }
        assert forall|i: int| 0 <= i < tokens@.len() implies (#[trigger] tokens@[i]).0.v() is Some by { assert(at_place(s, tokens@[i], w[i])); }
    }
//@at if2.then
    let ghost lex0 = lexer;
    let ghost d = d_doc(t, ts);
    let ghost ds = all_rules(d);
    let ghost mut lay = no_lay();
    let ghost mut lay0 = lay;
    proof {
        assert(written(d, ts));
        lemma_fits(d, s);
        lemma_doc_some(d);
        assert(rus(rules@) == fl_doc(d, false) && inner_of(lexer) == fl_doc(d, true));
        assert(ds.take(0) =~= Seq::<Ru>::empty());
        assert(rus(Seq::<Rule>::empty()) =~= seq![]);
    }
//@at loop1.pre
    proof {
        assert(laid(lay, cfg.rules@, cfg.n(), ds.take(0)));
        lemma_marked(__s1@, rules@, match lex0 { Some(x) => x.0@, None => Seq::empty() }, d);
        lemma_lexical_start(lay, ds, outer(d));
    }
//@loop 1
    invariant
        s == grammar@, w == lex(s, 0), ts == tks(w), stuck(s, 0) is None, written(d, ts), doc_fits(d), ds == all_rules(d), ds.len() > 0,
        __s1@.len() == ds.len(), forall|i: int| 0 <= i < __s1@.len() ==> (#[trigger] __s1@[i]).0.v() == ds[i] && __s1@[i].1 == (i >= outer(d)),
        __i1 <= __s1@.len(), mind(lay, cfg, ds.take(__i1 as int), intern, sym_map@, lex_string_intern, lexer_classes.classes@), lhs_named(lay, ds, __i1 as int),
        intern_empty <==> __i1 == 0, __i1 > 0 ==> root_is(cfg, lay, ds),
        set_is(set_of_lexical, lay, ds, outer(d), __i1 as int), actions_ok(actions@, ds, __i1 as int),
        outer_ids(lhs_in_parser, intern, d, __i1 as int), not_shared(d, __i1 as int),
    decreases __s1@.len() - __i1,
//@at loop1.begin
    let ghost done = ds.take(__i1 - 1);
    let ghost r = rule.v();
    let ghost lay1 = lay;
    let ghost ids0 = lhs_in_parser;
    let ghost cg1 = cfg;
    let ghost mut out_map = sym_map@;
    proof { lay0 = lay; assert(r == ds[__i1 - 1]); assert(ru_fits(r)); assert(ds.take(__i1 as int) =~= done.push(r)); assert(r.rhs == frs(rule.rhs@)); }
//@at if4.then
    proof { lemma_shared_found(ids0, intern, d, __i1 - 1, lhs, lay1, sym_map@); }
//@at loop2.pre
    proof {
        assert(extends(lay1, lay) && lay.lits == lay1.lits);
        lemma_outer_next(ids0, lhs_in_parser, intern, d, __i1 - 1, lhs);
        lemma_shared_next(ids0, intern, d, __i1 - 1, lhs);
        lemma_lexical(lay1, lay, ds, outer(d), __i1 - 1, cg1.rules@, cg1.n(), done);
        assert(r.rhs.take(0) =~= Seq::<Pt>::empty());
        assert(lhs_named(lay, ds, __i1 as int)) by { assert forall|j: int| 0 <= j < __i1 implies lay.names.contains_key((#[trigger] ds[j]).lhs) by { if j < __i1 - 1 { assert(lay1.names.contains_key(ds[j].lhs)); } } }
    }
//@loop 2
    invariant
        s == grammar@, w == lex(s, 0), ts == tks(w), stuck(s, 0) is None, written(d, ts), doc_fits(d), ds == all_rules(d),
        1 <= __i1 <= ds.len(), intern_empty <==> false, r == ds[__i1 - 1], ru_fits(r), done == ds.take(__i1 - 1),
        __i2 <= __s2@.len(), frs(__s2@) == r.rhs, mind(lay, cfg, done, intern, sym_map@, lex_string_intern, lexer_classes.classes@), lhs_named(lay, ds, __i1 as int),
        lay.names.contains_key(r.lhs), lay.names[r.lhs] == lhs_sym, frags_are(lay, r.rhs.take(__i2 as int), vx_v@),
        root_is(cfg, lay, ds), set_is(set_of_lexical, lay, ds, outer(d), __i1 - 1),
    decreases __s2@.len() - __i2,
//@at loop2.begin
    let ghost v0 = vx_v@;
    let ghost sl0 = set_of_lexical;
    let ghost f = vx_f.v();
    let ghost cg0 = cfg;
    proof {
        lay0 = lay; out_map = sym_map@;
        assert(f == frs(__s2@)[__i2 - 1]); assert(frag_fits(f));
        assert(bad_frag(f) ==> flawed(d)) by { if bad_frag(f) { assert(bad_at(d, __i1 - 1, __i2 - 1)); } }
    }
//@at loop2.end
    proof {
        assert(extends(lay0, lay));
        lemma_frags_ext(lay0, lay, r.rhs.take(__i2 - 1), v0);
        match f {
            Pt::Str(t) => { assert(frag_is(lay, f, vx_v@.last())); }
            Pt::Call(c, t) => { assert(frag_is(lay, f, vx_v@.last())); }
            Pt::Name(n, Rp::Once) => { assert(frag_is(lay, f, vx_v@.last())); }
            Pt::Name(n, Rp::Plus) => { assert(frag_is(lay, f, vx_v@.last())); }
            Pt::Name(n, Rp::Star) => { assert(frag_is(lay, f, vx_v@.last())); }
            Pt::Odd => { assert(false); }
        }
        assert(r.rhs.take(__i2 as int) =~= r.rhs.take(__i2 - 1).push(f));
        assert(vx_v@ =~= v0.push(vx_v@.last()));
        lemma_lexical(lay0, lay, ds, outer(d), __i1 - 1, cg0.rules@, cg0.n(), done);
        match f { Pt::Str(t) => { assert(lay.lits == lay0.lits.insert(t, lay.lits[t])); } _ => { assert(lay.lits == lay0.lits); } }
    }
//@at loop2.post
    proof { assert(r.rhs.take(__i2 as int) =~= r.rhs); }
    let ghost sl1 = set_of_lexical;
//@at loop3.begin
    let ghost cm3 = lay.cm;
    let ghost ren3 = sym_map@;
//@at loop3.end
    proof { lemma_ren_next(ren3, __s3@, __i3 - 1, cm3, lay.cm, x0.cm, new_sym); }
//@at loop5.begin
    let ghost cm5 = lay.cm;
    let ghost c5 = vx_c@;
//@at loop5.end
    proof { lemma_spells_next(cm5, lay.cm, __s5@, __i5 - 1, c5, vx_y); }
//@at loop5.post
    proof { assert(__s5@.take(__i5 as int) =~= __s5@); }
//@at loop3.pre
    proof { assert(all_entries(x0.cm, __s3@)); }
//@loop 3
    invariant
        __i3 <= __s3@.len(), all_entries(x0.cm, __s3@), own_classes(x0.cm),
        mind(lay, cfg, done, intern, out_map, lex_string_intern, lexer_classes.classes@), extends(lay0, lay), lay.lits == lay0.lits, lay.names == lay0.names, cfg.roots == cg0.roots,
        ren_mid(sym_map@, __s3@, __i3 as int, lay.cm),
    decreases __s3@.len() - __i3,
//@at loop3.post
    let ghost ga = cfg;
    proof { lemma_moves_start(sym_map@, __s3@, x0, lay.cm, cfg.n()); }
//@loop 4
    invariant
        __i4 <= __s4@.len(), __s4@ == vx_l@, answered(sym_map@, __s4@, __i4 as int), moves(sym_map@, x0, lay.cm, ga.n(), cfg.n()),
        plain(cfg), cfg.rules == ga.rules, cfg.same_rest(ga), cfg.n() >= ga.n(),
    decreases __s4@.len() - __i4,
//@at loop4.begin
    let ghost m0 = sym_map@;
//@loop 5
    invariant
        __i5 <= __s5@.len(), __s5@ == string@, sym_map@ == out_map, mind(lay, cfg, done, intern, out_map, lex_string_intern, lexer_classes.classes@), extends(lay0, lay), lay.lits == lay0.lits, lay.names == names5, cfg.roots == cg0.roots,
        spells(lay.cm, __s5@.take(__i5 as int), vx_c@),
    decreases __s5@.len() - __i5,
//@loop 6
    invariant
        __i6 <= __s6@.len(), set_mid(sbs, __s6@, __i6 as int), sbs@.len() == cfg.n(),
        forall|i: int| 0 <= i < __s6@.len() ==> (#[trigger] __s6@[i]).raw < cfg.n(),
    decreases __s6@.len() - __i6,
//@at loop6.pre
    proof {
        assert forall|i: int| 0 <= i < __s6@.len() implies (#[trigger] __s6@[i]).raw < cfg.n() by {
            assert(__s6@.contains(__s6@[i]));
            lemma_lexical_below(lay, cfg.rules@, cfg.n(), ds, outer(d), __s6@[i]);
        }
    }
//@at loop6.begin
    let ghost sb0 = sbs;
//@at loop6.end
    proof { lemma_set_next(sb0, sbs, __s6@, __i6 - 1); }
//@at loop6.post
    proof {
        assert(__s6@.take(__i6 as int) =~= __s6@);
    }
//@loop 7
    invariant
        __i7 <= __s7@.len(), names_mid(vx_n@, __s7@, __i7 as int, intern), entries_are(sym_map@, __s7@), known(lay, intern, sym_map@),
    decreases __s7@.len() - __i7,
//@at loop7.begin
    let ghost n7 = vx_n@;
//@at loop7.end
    proof { lemma_names_next(n7, __s7@, __i7 - 1, intern, sym_map@, lay); }
//@at loop7.post
    proof { lemma_names(vx_n@, __s7@, intern, sym_map@, lay); }
//@at loop1.post
    proof { assert(ds.take(__i1 as int) =~= ds); lemma_not_flawed(lay, cfg.rules@, cfg.n(), d); lemma_classes_bare(lay, cfg.rules@, cfg.n(), ds); assert(!flawed(d)); }
//@end
