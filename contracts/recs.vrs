// What a rule says, with its right-hand side as a sequence.
pub ghost struct Rec { pub l: Symbol, pub r: Seq<Symbol>, pub h: History }
pub open spec fn rec(r: CfgRule) -> Rec { Rec { l: r.lhs, r: r.rhs@, h: r.history } }
pub open spec fn recs(rs: Seq<CfgRule>) -> Seq<Rec> { Seq::new(rs.len(), |i: int| rec(rs[i])) }
pub proof fn lemma_selected_in(s: Seq<CfgRule>, keep: Seq<bool>)
    requires s.len() <= keep.len(),
    ensures forall|i: int| 0 <= i < selected(s, keep).len() ==> s.contains(#[trigger] selected(s, keep)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_selected_in(d, keep);
        assert forall|i: int| 0 <= i < selected(s, keep).len() implies s.contains(#[trigger] selected(s, keep)[i]) by {
            if i < selected(d, keep).len() {
                assert(d.contains(selected(d, keep)[i]));
                let j = choose|j: int| 0 <= j < d.len() && d[j] == selected(d, keep)[i];
                assert(s[j] == d[j]);
            } else { assert(s[s.len() - 1] == s.last()); }
        }
    }
}
