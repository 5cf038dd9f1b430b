// ---- the functions
pub proof fn lemma_more(t: St, u: St)
    requires good(t), u == (St { n: t.n + 1, ..t }),
    ensures good(u), grows(t, u),
{
    assert forall|x: Prod| #[trigger] u.ps.contains(x) implies x.l.raw < u.n && below(x.r, u.n) by { assert(t.ps.contains(x)); }
}
pub proof fn lemma_seg_leaves(t: St, lo: int, u: Seq<Symbol>)
    requires forall|i: int| 0 <= i < u.len() ==> term(t.cm, #[trigger] u[i]),
    ensures all_in(seg(t, lo), u),
{
}
pub proof fn lemma_literal(t: St, u: Vec<Symbol>, h: Hir, l: Literal)
    requires good(t), lit_word(l.chars(), t.cm, u@), h.kind == HirKind::Literal(l),
    ensures sem(t, seq![u], h), forall|i: int| 0 <= i < u@.len() ==> term(t.cm, #[trigger] u@[i]),
{
    let cs = l.chars();
    assert forall|i: int| 0 <= i < u@.len() implies term(t.cm, #[trigger] u@[i]) by { assert(t.cm.contains_key(char_key(cs[i]))); }
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) implies (w == u@) == means(h, cm, w) by {
        assert forall|i: int| 0 <= i < cs.len() implies cm.contains_key(char_key(#[trigger] cs[i])) && cm[char_key(cs[i])] == u@[i] by { assert(t.cm.contains_key(char_key(cs[i]))); }
        if means(h, cm, w) { assert forall|i: int| 0 <= i < w.len() implies w[i] == u@[i] by { assert(cm.contains_key(char_key(cs[i])) && w[i] == cm[char_key(cs[i])]); } assert(w =~= u@); }
    }
    lemma_leaves(t, u, h);
}
pub proof fn lemma_class(t: St, u: Vec<Symbol>, h: Hir, c: Class)
    requires good(t), t.cm.contains_key(class_key(c)), u@ == seq![t.cm[class_key(c)]], h.kind == HirKind::Class(c),
    ensures sem(t, seq![u], h), forall|i: int| 0 <= i < u@.len() ==> term(t.cm, #[trigger] u@[i]),
{
    lemma_leaves(t, u, h);
}
pub proof fn lemma_concat_start(t: St, es: Vec<Hir>)
    requires good(t),
    ensures partial(t, t, es, 0), cat_sem(t, Seq::empty(), es, 0), hsum(es, 0) == 0,
{
    lemma_closed_start(t);
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) implies der(t.ps, Seq::empty(), w) == cat(fam_of(es, cm), 0, w) by {
        lemma_final(t.ps, Seq::empty(), w);
        if w.len() == 0 { assert(w =~= Seq::<Symbol>::empty()); }
    }
}
pub proof fn lemma_closed_start(t: St)
    requires good(t),
    ensures closed_in(t, t.n),
{
    assert forall|x: Prod| #[trigger] t.ps.contains(x) && x.l.raw >= t.n implies all_in(seg(t, t.n), x.r) by { assert(x.l.raw < t.n); }
}
pub proof fn lemma_alt_start(t: St, es: Vec<Hir>)
    requires good(t),
    ensures partial(t, t, es, 0), alt_sem(t, Seq::empty(), es, 0),
{
    lemma_closed_start(t);
}
pub proof fn lemma_concat(t: St, u: Vec<Symbol>, h: Hir, es: Vec<Hir>)
    requires cat_sem(t, u@, es, es@.len()), h.kind == HirKind::Concat(es),
    ensures sem(t, seq![u], h),
{
    assert(sem1(t, u@, h));
    lemma_double(t, u, h);
}
pub proof fn lemma_alternation(t: St, xs: Seq<Vec<Symbol>>, h: Hir, es: Vec<Hir>)
    requires alt_sem(t, xs, es, es@.len()), h.kind == HirKind::Alternation(es),
    ensures sem(t, xs, h),
{
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) implies alts(t.ps, xs, w) == means(h, cm, w) by {
        assert(alts(t.ps, xs, w) == alt_of(es, cm, es@.len(), w));
        let f = fam_of(es, cm);
        if alt_of(es, cm, es@.len(), w) { let i = choose|i: int| 0 <= i < es@.len() && means(#[trigger] es@[i], cm, w); assert(f(i, w)); assert(any(f, es@.len(), w)); }
        if any(f, es@.len(), w) { let i = choose|i: int| 0 <= i < es@.len() && #[trigger] f(i, w); assert(means(es@[i], cm, w)); assert(alt_of(es, cm, es@.len(), w)); }
        assert(means(h, cm, w) == any(f, es@.len(), w));
    }
}
pub proof fn lemma_empty(t: St, u: Vec<Symbol>, h: Hir)
    requires good(t), u@.len() == 0, h.kind == HirKind::Empty,
    ensures sem(t, seq![u], h),
{
    assert forall|cm: CM, w: Seq<Symbol>| #[trigger] asked_word(t, cm, w) implies (w == u@) == means(h, cm, w) by {
        if w.len() == 0 { assert(w =~= u@); }
    }
    lemma_leaves(t, u, h);
}
//@fn cfg-regexp-logic/src/lib.rs Translator::walk_hir
//@rewrite_opt let indent = $$x; =>
//@rewrite_opt println!($$x); =>
//@rewrite_opt for ch in String::from_utf8_lossy(&lit.0).chars() {$$b} => let vx_cs = vx_chars(lit); for vx_c in 0..vx_cs.len() { let ch = vx_cs[vx_c]; $$b }
//@rewrite_opt *self.class_map.classes.entry($$k).or_insert_with(|| $$b) => { let vx_k: LexerClasses = $$k; match self.class_map.classes.get(&vx_k) { Some(vx_s) => vx_s, None => { let ghost vx_t = self.st(); let vx_s = $$b; self.class_map.classes.insert(vx_k, vx_s); proof { lemma_new_class(vx_t, self.st(), t0.n, vx_k.set@, vx_s); lemma_grows_trans(t0, vx_t, self.st()); } vx_s } } }
//@rewrite_opt ch.into() => LexerClasses::from_char(ch)
//@rewrite_opt class.clone().into() => LexerClasses::from_class(vx_clone_class(class))
//@rewrite_opt Some(format!($$f).into()) => vx_some_name()
//@rewrite_opt let [$v] = self.cfg.sym(); => let ghost vx_t = self.st(); let $v = self.cfg.next_sym(None); proof { lemma_more(vx_t, self.st()); }
//@rewrite_opt let x = self.walk_hir($$a); => let ghost ta = self.st(); let x = self.walk_hir($$a); let ghost tb = self.st(); let ghost xs = x@;
//@rewrite_opt let rhs = match $$m; => let rhs = match $$m; proof { if xs.len() == 1 && xs[0]@.len() == 1 { assert(xs[0]@ =~= seq![rhs]); lemma_single(tb, xs, *rep.sub, seq![rhs]); } else { if xs.len() == 1 { lemma_with_alts(tb.ps, rhs, xs, 0); } lemma_inner(ta, tb, xs, *rep.sub, self.st(), rhs); } lemma_before_rep(t0, self.st(), lhs, rhs, *rep); lemma_wf(self.cfg); } let ghost tc = self.st();
//@rewrite_opt x.get(0).map_or(0, |y| $$b) => (if x.len() > 0 { let y = &x[0]; $$b } else { 0 })
//@rewrite_opt &rep.sub => &*rep.sub
//@rewrite_opt &group.sub => &*group.sub
//@rewrite_opt &x[0][..] => x[0].as_slice()
//@rewrite_opt &*rule => rule.as_slice()
//@rewrite_opt self.cfg.rule($$l).rhs($$r); => vx_rule(&mut self.cfg, $$l, $$r);
//@rewrite_opt self.cfg.sequence($$l).inclusive($$a, $$b).rhs($$r); => vx_sequence(&mut self.cfg, $$l, $$a, $$b, $$r); proof { assert(after_rep(tc, self.st(), rep_seq(lhs, rhs, rep.min, rep.max))); lemma_after_rep(t0, tc, self.st(), lhs, rhs, *rep, *hir); }
//@rewrite_opt let mut syms = vec![]; => let mut syms: Vec<Symbol> = Vec::new();
//@rewrite_opt let mut result = vec![]; => let mut result: Vec<Symbol> = Vec::new();
//@rewrite_opt let mut alternatives = vec![]; => let mut alternatives: Vec<Vec<Symbol>> = Vec::new();
//@rewrite_opt vec![syms] => ({ proof { lemma_literal(self.st(), syms, *hir, *lit); lemma_seg_leaves(self.st(), t0.n, syms@); } vx_one(syms) })
//@rewrite_opt vec![result] => ({ proof { lemma_concat(self.st(), result, *hir, *exprs); } vx_one(result) })
//@rewrite_opt vec![vec![]] => ({ let vx_v: Vec<Symbol> = Vec::new(); proof { lemma_empty(self.st(), vx_v, *hir); } vx_one(vx_v) })
//@rewrite_opt vec![vec![lhs]] => ({ let vx_v = vx_sym(lhs); proof { lemma_double(self.st(), vx_v, *hir); } vx_one(vx_v) })
//@rewrite_opt vec![vec![sym]] => ({ let vx_v = vx_sym(sym); proof { lemma_class(self.st(), vx_v, *hir, *class); lemma_seg_leaves(self.st(), t0.n, vx_v@); } vx_one(vx_v) })
//@rewrite_opt result.extend(x.into_iter().next().unwrap()); => vx_extend(&mut result, &x[0]);
//@rewrite_opt alternatives.extend($$x); => let ghost ta = self.st(); let ghost ys = alternatives@; let mut vx_x = $$x; let ghost tb = self.st(); let ghost xs = vx_x@; alternatives.append(&mut vx_x); proof { lemma_alt_step(t0, ta, tb, ys, xs, *exprs, (__i4 - 1) as nat, hsize(*hir)); }
//@rewrite_opt unimplemented!() => vx_unreachable()
//@rewrite_opt unreachable!() => vx_unreachable()
//@for 1 value
//@for 2 ref
//@for 3 value
//@for 4 ref
//@loops for for for for for
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::rlimit(60)]
    requires old(self).fine(), hir_ok(*hir), depth + hsize(*hir) < u32::MAX,
    ensures final(self).fine(), walked(old(self).st(), final(self).st(), ret@, *hir), final(self).cfg.same_rest(old(self).cfg),
    decreases hir,
//@at begin
    let ghost t0 = self.st();
    let ghost g0 = *self;
//@loop 0
    invariant
        __i0 <= __e0, self.fine(), grows(t0, self.st()), closed_in(self.st(), t0.n), self.cfg.same_rest(g0.cfg), syms@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> self.st().cm.contains_key(char_key(#[trigger] vx_cs@[i])) && syms@[i] == self.st().cm[char_key(vx_cs@[i])],
    decreases __e0 - __i0,
//@loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == xs, self.cfg.limit() == usize::MAX, !self.cfg.eliminate_nulling, self.cfg.same_rest(g0.cfg),
        self.st() == (St { ps: with_alts(tb.ps, inner, xs, __i1 as int), n: tb.n + 1, cm: tb.cm }),
    decreases __s1@.len() - __i1,
//@at loop1.pre
    proof { lemma_with_alts(tb.ps, inner, xs, 0); }
//@at loop1.end
    proof { lemma_with_alts(tb.ps, inner, xs, __i1 - 1); }
//@at loop2.pre
    proof { lemma_concat_start(t0, *exprs); }
//@loop 2
    invariant
        __i2 <= __s2@.len(), self.fine(), self.cfg.same_rest(g0.cfg), partial(t0, self.st(), *exprs, __i2 as nat), cat_sem(self.st(), result@, *exprs, __i2 as nat),
        all_in(seg(self.st(), t0.n), result@), result@.len() <= hsum(*exprs, __i2 as nat),
    decreases __s2@.len() - __i2,
//@at loop2.begin
    proof { lemma_hsum(*exprs, (__i2 - 1) as nat, exprs@.len()); }
    let ghost u0 = result@;
//@at loop2.end
    proof {
        let h = exprs@[__i2 - 1];
        if xs.len() == 1 {
            lemma_single(tb, xs, h, xs[0]@);
            lemma_cat_step(t0, ta, tb, u0, xs[0]@, *exprs, (__i2 - 1) as nat);
        } else {
            let l = result@.last();
            lemma_inner(ta, tb, xs, h, self.st(), l);
            lemma_cat_step(t0, ta, self.st(), u0, seq![l], *exprs, (__i2 - 1) as nat);
            assert(result@ =~= u0 + seq![l]);
        }
    }
//@loop 3
    invariant
        __i3 <= __s3@.len(), __s3@ == xs, self.cfg.limit() == usize::MAX, !self.cfg.eliminate_nulling, self.cfg.same_rest(g0.cfg),
        self.st() == (St { ps: with_alts(tb.ps, lhs, xs, __i3 as int), n: tb.n + 1, cm: tb.cm }),
    decreases __s3@.len() - __i3,
//@at loop3.pre
    proof { lemma_with_alts(tb.ps, lhs, xs, 0); }
//@at loop3.end
    proof { lemma_with_alts(tb.ps, lhs, xs, __i3 - 1); }
//@at loop4.pre
    proof { lemma_alt_start(t0, *exprs); }
//@loop 4
    invariant
        __i4 <= __s4@.len(), self.fine(), self.cfg.same_rest(g0.cfg), partial(t0, self.st(), *exprs, __i4 as nat), alt_sem(self.st(), alternatives@, *exprs, __i4 as nat),
        all_seg(self.st(), t0.n, alternatives@, hsize(*hir)), __i4 > 0 ==> alternatives@.len() > 0,
    decreases __s4@.len() - __i4,
//@at loop4.begin
    proof { lemma_hsum(*exprs, (__i4 - 1) as nat, exprs@.len()); }
//@at loop4.post
    proof { lemma_alternation(self.st(), alternatives@, *hir, *exprs); }
//@end
