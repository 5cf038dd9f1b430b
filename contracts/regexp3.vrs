// G22: the whole translation.
//@contains cfg-regexp-logic/src/ext.rs Parser::new().parse(regexp).map(Translator::cfg_from_hir)
//@include newcfg.vrs
pub open spec fn translated(g: Cfg, m: LexerMap, h: Hir) -> bool {
    let t = St { ps: prods(g.rules@), n: g.n(), cm: m.classes@ };
    good(t) && g.roots@.len() == 1 && g.roots@[0].raw < g.n() && sem1(t, g.roots@, h)
}
//@fn cfg-regexp-logic/src/lib.rs Translator::cfg_from_hir
//@rewrite_opt let x = this.walk_hir($$a); => proof { lemma_start(this); } let ghost ta = this.st(); let x = this.walk_hir($$a); let ghost tb = this.st(); let ghost xs = x@;
//@rewrite_opt x.get(0).map_or(0, |y| $$b) => (if x.len() > 0 { let y = &x[0]; $$b } else { 0 })
//@rewrite_opt let [$v] = this.cfg.sym(); => let ghost vx_t = this.st(); let $v = this.cfg.next_sym(None); proof { lemma_more(vx_t, this.st()); }
//@rewrite_opt this.cfg.rule($$l).rhs([]); => vx_rule(&mut this.cfg, $$l, &[]);
//@rewrite_opt this.cfg.rule($$l).rhs($$r); => vx_rule(&mut this.cfg, $$l, $$r);
//@rewrite_opt &x[0][..] => x[0].as_slice()
//@rewrite_opt &*rule => rule.as_slice()
//@rewrite_opt this.cfg.set_roots([$$s]); => this.cfg.set_roots(vx_sym($$s).as_slice());
//@rewrite_opt let lhs = match $$m; => let lhs = match $$m; proof { if xs.len() == 1 && xs[0]@.len() == 1 { assert(xs[0]@ =~= seq![lhs]); lemma_single(tb, xs, hir, seq![lhs]); } else { if xs.len() == 1 { lemma_with_alts(tb.ps, lhs, xs, 0); } lemma_inner(ta, tb, xs, hir, this.st(), lhs); } }
//@for 0 value
//@loops for
//@attr #[verifier::loop_isolation(false)]
    requires hir_ok(hir), hsize(hir) < u32::MAX,
    ensures translated(ret.0, ret.1, hir),
//@at loop0.pre
    proof { lemma_with_alts(tb.ps, inner, xs, 0); }
//@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == xs, this.cfg.limit() == usize::MAX, !this.cfg.eliminate_nulling,
        this.st() == (St { ps: with_alts(tb.ps, inner, xs, __i0 as int), n: tb.n + 1, cm: tb.cm }),
    decreases __s0@.len() - __i0,
//@at loop0.end
    proof { lemma_with_alts(tb.ps, inner, xs, __i0 - 1); }
//@end
pub proof fn lemma_start(x: Translator)
    requires x.cfg.n() == 0, x.cfg.rules@.len() == 0, x.class_map.classes@ == Map::<Seq<(char, char)>, Symbol>::empty(),
    ensures good(x.st()),
{
    assert forall|y: Prod| !#[trigger] prods(x.cfg.rules@).contains(y) by { }
}
