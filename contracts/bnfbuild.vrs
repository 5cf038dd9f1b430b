// G23: loading.
pub open spec fn bound_to(s: Seq<char>) -> bool { s.len() < u32::MAX }
pub proof fn lemma_lines(s: Seq<char>)
    ensures 1 <= line_of(s) <= s.len() + 1, 1 <= col_of(s) <= s.len() + 1,
    decreases s.len(),
{
    if s.len() > 0 { lemma_lines(s.drop_last()); }
}
pub proof fn lemma_where(s: Seq<char>)
    ensures 0 <= stuck(s) <= s.len() ==> line_of(s.take(stuck(s))) <= s.len() + 1 && col_of(s.take(stuck(s))) <= s.len() + 1,
{
    if 0 <= stuck(s) <= s.len() { lemma_lines(s.take(stuck(s))); }
}
//@fn cfg-load/src/basic.rs CfgLoadExt for Cfg::load
//@name vx_load
//@free
//@rewrite_opt use tiny_earley::Grammar; =>
//@rewrite_opt grammar! { $$g } => vx_bnf_grammar()
//@rewrite_opt let [$$n] = bnf_grammar.symbols(); => let ($$n) = vx_syms(&bnf_grammar.symbols());
//@rewrite_opt Lexer::tokenize($$a).map_err(|$$p| $$e)? ==>> match Lexer::tokenize($$a) { Ok(vx_v) => vx_v, Err($$p) => { proof { lemma_where(bnf@); } return Err($$e); } }
//@rewrite_opt reason: $$s.to_string() => reason: vx_text()
//@rewrite_opt reason: format!($$f) => reason: vx_text()
//@rewrite_opt recognizer.forest.evaluator($$e).evaluate($$n) => { let vx_e = $$e; proof { lemma_acts_typed(); } vx_evaluate(&recognizer, vx_e, $$n) }
//@rewrite_opt HashMap::new() => VxSymMap::new()
//@rewrite_opt rules.into_iter().enumerate() => rules.enumerate()
//@rewrite_opt &$x.$f[..] => &$x.$f
//@rewrite_opt *sym_map.entry($$k).or_insert_with(|| $$b) => { let vx_k = $$k; match sym_map.at(vx_k) { Some(vx_s) => vx_s, None => { let vx_s = $$b; proof { lemma_known(lay, intern, sym_map@, vx_k, vx_s); lemma_name_laid(lay, cfg.rules@, cfg.n() - 1, done, intern.back(vx_k), vx_s); lay = with_name(lay, intern.back(vx_k), vx_s); } sym_map.put(vx_k, vx_s); vx_s } } }
//@rewrite_opt cfg.sym_source_mut().next_sym(Some($x.$f[..].into())) => vx_named(&mut cfg, &$x.$f)
//@rewrite_opt cfg.set_roots([$$s]) => cfg.set_roots(vx_sym($$s).as_slice())
//@rewrite_opt rule.rhs.into_iter().map(|fragment| { $$b }).collect() => { let mut vx_v: Vec<Symbol> = Vec::new(); for vx_f in rule.rhs { let fragment = vx_f; let vx_s = { $$b }; vx_v.push(vx_s); } vx_v }
//@rewrite_opt let [$v] = cfg.sym(); => let ghost g0 = cfg; let $v = cfg.next_sym(None);
//@rewrite_opt cfg.sequence($$l).inclusive($$a, $$b).rhs($$r); => let ghost g1 = cfg; proof { lemma_before_seq(g0, g1, $$l, $$r, $$a); } vx_sequence(&mut cfg, $$l, $$a, $$b, $$r); proof { assert(lay.names.contains_key(f.name) && lay.names[f.name] == $$r); assert(is_named(lay, $$r)); lay = lemma_after_seq(lay, g0, g1, cfg, $$l, $$r, $$a, done); }
//@rewrite_opt cfg.sequence($$l).range($a..).rhs($$r); => let ghost g1 = cfg; proof { lemma_before_seq(g0, g1, $$l, $$r, $a); } vx_sequence(&mut cfg, $$l, $a, None, $$r); proof { assert(lay.names.contains_key(f.name) && lay.names[f.name] == $$r); assert(is_named(lay, $$r)); lay = lemma_after_seq(lay, g0, g1, cfg, $$l, $$r, $a, done); }
//@rewrite_opt cfg.rule($$l).history(RootHistoryNode::Origin { $$f }.into()).rhs($$r); => let ghost g2 = cfg; RuleBuilder::new(&mut cfg).rule($$l).history(History::from_root(RootHistoryNode::Origin { $$f })).rhs($$r.as_slice()); proof { let lx = lay; lay = lemma_after_rule(lx, g2, cfg, done, ds.take(__i1 as int), r, $$l, $$r@); lemma_owned_rule(lx, lay, who, g2.rules@, cfg.rules@, done, r, $$r@, g2.n()); }
//@rewrite_opt &Token::Error($a, $b) => { $$body } ==>> Token::Error(vx_a, vx_b) => { let $a = *vx_a; let $b = *vx_b; $$body }
//@loops for for for
//@for 1 value
//@for 2 value
//@attr #[verifier::rlimit(100)]
    requires bound_to(bnf@),
    ensures
        match ret {
            Ok(g) => lex(bnf@) is Some && exists|d: Seq<Line>| #[trigger] written(d, lex(bnf@).unwrap()) && loaded(fl_doc(d), g),
            Err(e) => match lex(bnf@) {
                None => e.line == line_of(bnf@.take(stuck(bnf@))) && e.col == col_of(bnf@.take(stuck(bnf@))),
                Some(ts) => forall|d: Seq<Line>| !#[trigger] written(d, ts),
            },
        },
//@at loop0.pre
    let ghost ts = toks(tokens@);
    proof { lemma_lex_len(bnf@); lemma_sentence(ts); lemma_scan(ts); assert(recognizer.scanned@ =~= scan_of(ts).take(0)); }
//@loop 0
    invariant
        lex(bnf@) == Some(ts), ts == toks(tokens@), all_toks(tokens@), tokens@.len() < u32::MAX, __s0 == &tokens, sentence(scan_of(ts)) <==> exists|d: Seq<Line>| written(d, ts), scan_of(ts).len() == ts.len(),
        ident.n == s_ident(), bnf_op.n == s_bnf_op(), semicolon.n == s_semicolon(), pipe.n == s_pipe(), op_plus.n == s_op_plus(), op_mul.n == s_op_mul(), lparen.n == s_lparen(), rparen.n == s_rparen(),
        __i0 <= __s0@.len(), recognizer.ready(), recognizer.scanned@ == scan_of(ts).take(__i0 as int),
    decreases __s0@.len() - __i0,
//@at loop0.begin
    proof { assert(ch.v() is Some); assert(scan_of(ts).take(__i0 as int) =~= scan_of(ts).take(__i0 - 1).push(scan_of(ts)[__i0 - 1])); }
//@at if0.then
    proof { assert(begins(recognizer.scanned@, scan_of(ts))); }
//@at loop0.post
    proof { assert(scan_of(ts).take(ts.len() as int) =~= scan_of(ts)); }
//@at if2.then
    let ghost t = choose|t: Tree| #[trigger] t_wf(t) && t_sym(t) == s_start() && t_yield(t) == recognizer.scanned@ && Va::Rules(rus(rules@)) == t_val(t, ts);
    let ghost d = d_doc(t, ts);
    let ghost ds = fl_doc(d);
    let ghost mut lay = Lay { names: Map::empty(), at: Seq::empty(), grps: Seq::empty() };
    let ghost mut who: Who = Seq::empty();
    proof {
        lemma_tree(t, ts);
        lemma_doc_len(d);
        assert(written(d, ts));
        assert(rus(rules@) == ds);
        assert(ds.take(0) =~= Seq::<Ru>::empty());
    }
//@at loop1.pre
    proof { assert(laid(lay, cfg.rules@, cfg.n(), ds.take(0))); assert(owned(lay, who, cfg.rules@, ds.take(0), Seq::empty(), Seq::empty())); }
//@loop 1
    invariant
        rhs_within(ds, (u32::MAX - 1) as nat), ds.len() < u32::MAX,
        __i1 <= __s1@.len(), rus(__s1@) == ds, plain(cfg), laid(lay, cfg.rules@, cfg.n(), ds.take(__i1 as int)), known(lay, intern, sym_map@),
        owned(lay, who, cfg.rules@, ds.take(__i1 as int), Seq::empty(), Seq::empty()),
        intern_empty <==> __i1 == 0,
        __i1 > 0 ==> lay.names.contains_key(ds[0].lhs) && cfg.roots@ == seq![lay.names[ds[0].lhs]],
    decreases __s1@.len() - __i1,
//@at loop1.begin
    let ghost done = ds.take(__i1 - 1);
    let ghost lay1 = lay;
    let ghost r = rule.v();
    proof { assert(r == rus(__s1@)[__i1 - 1]); assert(ds.take(__i1 as int) =~= done.push(r)); assert(r.rhs == frs(rule.rhs@)); }
//@at loop2.pre
    proof { lemma_owned_same(lay1, lay, who, cfg.rules@, done, r.rhs.take(0), vx_v@); }
//@loop 2
    invariant
        1 <= __i1 <= ds.len(), intern_empty <==> false, r == ds[__i1 - 1],
        __i2 <= __s2@.len(), frs(__s2@) == r.rhs, plain(cfg), laid(lay, cfg.rules@, cfg.n(), done), known(lay, intern, sym_map@), done.len() == __i1 - 1,
        owned(lay, who, cfg.rules@, done, r.rhs.take(__i2 as int), vx_v@),
        lay.names.contains_key(r.lhs), lay.names[r.lhs] == lhs_sym, frags_are(lay, r.rhs.take(__i2 as int), vx_v@),
        lay.names.contains_key(ds[0].lhs) && cfg.roots@ == seq![lay.names[ds[0].lhs]],
    decreases __s2@.len() - __i2,
//@at loop2.begin
    let ghost lay0 = lay;
    let ghost c0 = cfg;
    let ghost v0 = vx_v@;
    let ghost f = vx_f.v();
    proof { assert(f == frs(__s2@)[__i2 - 1]); }
//@at loop2.end
    proof {
        assert(extends(lay0, lay));
        lemma_frags_ext(lay0, lay, r.rhs.take(__i2 - 1), v0);
        assert(frag_is(lay, f, vx_v@.last()));
        assert(r.rhs.take(__i2 as int) =~= r.rhs.take(__i2 - 1).push(f));
        assert(vx_v@ =~= v0.push(vx_v@.last()));
        assert(r.rhs.take(__i2 - 1).len() == v0.len());
        lemma_owned_item(lay0, lay, who, c0.rules@, cfg.rules@, done, r.rhs.take(__i2 - 1), v0, f, vx_v@.last(), c0.n(), cfg.n());
        who = who_next(lay0, lay, who, done.len() as int, v0.len() as int);
    }
//@at loop2.post
    proof { assert(r.rhs.take(__i2 as int) =~= r.rhs); assert(r.rhs == ds[__i1 - 1].rhs); }
//@at loop1.post
    proof { assert(ds.take(__i1 as int) =~= ds); assert(as_written(ds, cfg, lay, who)); assert(loaded(ds, cfg)); }
//@end
