// G21: the map from characters to the symbols of their classes (cfg-regexp-logic).
// TRUSTED: BTreeSet<(char, char)> as the sorted sequence of its elements.
#[verifier::external_body]
pub struct RangeSet { x: Vec<(char, char)> }
impl View for RangeSet {
    type V = Seq<(char, char)>;
    uninterp spec fn view(&self) -> Seq<(char, char)>;
}
pub open spec fn listed_in(s: Seq<(char, char)>, rs: RangeSet) -> bool { forall|x: (char, char)| #[trigger] rs@.contains(x) <==> s.contains(x) }
impl RangeSet {
    #[verifier::external_body]
    pub fn once(x: (char, char)) -> (r: Self)
        ensures r@ == seq![x],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn of(v: Vec<(char, char)>) -> (r: Self)
        ensures listed_in(v@, r), range_order(r@), r@ == range_sort(v@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn list(&self) -> (r: Vec<(char, char)>)
        ensures r@ == self@, range_order(r@),
    { unimplemented!() }
}
/// The sorted sequence of the elements of `s`.
pub uninterp spec fn range_sort(s: Seq<(char, char)>) -> Seq<(char, char)>;
pub open spec fn le_range(a: (char, char), b: (char, char)) -> bool { (a.0 as u32) < (b.0 as u32) || a.0 == b.0 && (a.1 as u32) < (b.1 as u32) }
pub open spec fn range_order(s: Seq<(char, char)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le_range(#[trigger] s[i], #[trigger] s[j]) }
// TRUSTED: the classes of regex-syntax, as lists of ranges.
#[verifier::external_body]
pub struct ByteRange { x: u8 }
#[verifier::external_body]
pub struct CharRange { x: u8 }
impl ByteRange {
    pub uninterp spec fn v(self) -> (u8, u8);
    #[verifier::external_body]
    pub fn start(&self) -> (r: u8)
        ensures r == self.v().0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: u8)
        ensures r == self.v().1,
    { unimplemented!() }
}
impl CharRange {
    pub uninterp spec fn v(self) -> (char, char);
    #[verifier::external_body]
    pub fn start(&self) -> (r: char)
        ensures r == self.v().0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: char)
        ensures r == self.v().1,
    { unimplemented!() }
}
pub struct ClassBytes { pub set: Vec<ByteRange> }
pub struct ClassUnicode { pub set: Vec<CharRange> }
impl ClassBytes {
    pub fn ranges(&self) -> (r: &[ByteRange])
        ensures r@ == self.set@,
    { self.set.as_slice() }
}
impl ClassUnicode {
    pub fn ranges(&self) -> (r: &[CharRange])
        ensures r@ == self.set@,
    { self.set.as_slice() }
}
pub enum Class { Bytes(ClassBytes), Unicode(ClassUnicode) }
pub open spec fn byte_char(b: u8) -> char { b as char }
impl Class {
    /// The class has a range from `x.0` to `x.1`.
    pub open spec fn has_range(self, x: (char, char)) -> bool {
        match self {
            Class::Bytes(b) => exists|i: int| 0 <= i < b.set@.len() && x == (((#[trigger] b.set@[i]).v().0) as char, (b.set@[i].v().1) as char),
            Class::Unicode(u) => exists|i: int| 0 <= i < u.set@.len() && x == (#[trigger] u.set@[i]).v(),
        }
    }
}
pub open spec fn byte_ranges(b: ClassBytes) -> Seq<(char, char)> { Seq::new(b.set@.len(), |i: int| (b.set@[i].v().0 as char, b.set@[i].v().1 as char)) }
pub open spec fn char_ranges(u: ClassUnicode) -> Seq<(char, char)> { Seq::new(u.set@.len(), |i: int| u.set@[i].v()) }
/// The ranges of a class, as a key of the map.
pub open spec fn class_key(c: Class) -> Seq<(char, char)> { range_sort(match c { Class::Bytes(b) => byte_ranges(b), Class::Unicode(u) => char_ranges(u) }) }
//@struct cfg-regexp-logic/src/lib.rs LexerClasses
//@ty BTreeSet<(char, char)> => RangeSet
impl LexerClasses {
    /// The character is in the class.
    pub open spec fn has(self, c: char) -> bool { exists|i: int| 0 <= i < self.set@.len() && inside(#[trigger] self.set@[i], c as u32 as int) }
}
pub open spec fn inside(x: (char, char), u: int) -> bool { (x.0 as u32) <= u <= (x.1 as u32) }
/// `d` is the character after `c`.
pub open spec fn is_next(c: char, d: char) -> bool { (c as u32) < (d as u32) && forall|e: char| (c as u32) < (e as u32) ==> (d as u32) <= #[trigger] (e as u32) }
// TRUSTED: `(c..=char::MAX).nth(1)`.
#[verifier::external_body]
pub fn vx_next_char(c: char) -> (r: Option<char>)
    ensures match r { Some(d) => is_next(c, d), None => forall|e: char| #[trigger] (e as u32) <= (c as u32) },
{ unimplemented!() }
pub open spec fn after_is(c: char, d: char) -> bool { is_next(c, d) || d == c && forall|e: char| #[trigger] (e as u32) <= (c as u32) }
/// The character after `c`, or `c` itself if it is the last one.
pub open spec fn after(c: char) -> char { choose|d: char| after_is(c, d) }
pub proof fn lemma_after(c: char)
    ensures forall|d: char| #[trigger] after_is(c, d) ==> after(c) == d && proper((c, d)),
{
    assert forall|d: char| #[trigger] after_is(c, d) implies after(c) == d && proper((c, d)) by {
        let e = after(c);
        assert(after_is(c, e));
        assert((e as u32) <= (d as u32) && (d as u32) <= (e as u32));
    }
}
/// The class made of one character. KNOWN FINDING: it also holds the next character (tests of cfg-load pin the pair).
pub open spec fn char_key(c: char) -> Seq<(char, char)> { seq![(c, after(c))] }
pub fn vx_unwrap_or(o: Option<char>, d: char) -> (r: char)
    ensures r == (match o { Some(x) => x, None => d }),
{ match o { Some(x) => x, None => d } }
//@fn cfg-regexp-logic/src/lib.rs From<u8> for LexerClasses::from
//@name from_byte
//@impl impl LexerClasses
//@rewrite_opt (value as char).into() => LexerClasses::from_char(value as char)
//@rewrite_opt LexerClasses::from(value as char) => LexerClasses::from_char(value as char)
//@rewrite_opt char::from(value).into() => LexerClasses::from_char(value as char)
    ensures ret.set@ == char_key(value as char), ret.has(value as char),
//@end
//@fn cfg-regexp-logic/src/lib.rs From<char> for LexerClasses::from
//@name from_char
//@impl impl LexerClasses
//@rewrite_opt ($a..=char::MAX).nth(1).unwrap_or($b) => vx_unwrap_or(vx_next_char($a), $b)
//@rewrite_opt iter::once($$x).collect() => RangeSet::once($$x)
//@rewrite_opt BTreeSet::from([$$x]) => RangeSet::once($$x)
    ensures ret.set@ == char_key(value), ret.has(value), own_ranges(ret.set@),
//@at end
    proof {
        lemma_after(value);
        assert(after_is(value, __tail.set@[0].1));
        assert(inside(__tail.set@[0], value as u32 as int));
    }
//@end
//@fn cfg-regexp-logic/src/lib.rs From<Class> for LexerClasses::from
//@name from_class
//@impl impl LexerClasses
//@rewrite_opt let set: BTreeSet<(char, char)> = $$x; => let set: RangeSet = $$x;
//@rewrite_opt bytes.ranges().iter().map(|$r| $$b).collect() => { let vx_s = bytes.ranges(); let mut vx_v: Vec<(char, char)> = Vec::new(); for vx_i in 0..vx_s.len() { let $r = &vx_s[vx_i]; vx_v.push($$b); } RangeSet::of(vx_v) }
//@rewrite_opt unicode.ranges().iter().map(|$r| $$b).collect() => { let vx_s = unicode.ranges(); let mut vx_v: Vec<(char, char)> = Vec::new(); for vx_i in 0..vx_s.len() { let $r = &vx_s[vx_i]; vx_v.push($$b); } RangeSet::of(vx_v) }
//@loops for for
    ensures forall|x: (char, char)| #[trigger] ret.set@.contains(x) <==> value.has_range(x), ret.set@ == class_key(value),
//@loop 0
    invariant
        __i0 <= __e0, __e0 == vx_s@.len(), vx_v@.len() == __i0,
        forall|k: int| 0 <= k < __i0 ==> #[trigger] vx_v@[k] == (((#[trigger] vx_s@[k]).v().0) as char, (vx_s@[k].v().1) as char),
    decreases __e0 - __i0,
//@at loop0.post
    proof {
        assert(vx_v@ =~= byte_ranges(bytes));
        assert forall|x: (char, char)| #[trigger] vx_v@.contains(x) <==> value.has_range(x) by {
            if vx_v@.contains(x) { let k = choose|k: int| 0 <= k < vx_v@.len() && vx_v@[k] == x; assert(value.has_range(x)) by { let y = vx_s@[k]; } }
            if value.has_range(x) { let k = choose|k: int| 0 <= k < bytes.set@.len() && x == (((#[trigger] bytes.set@[k]).v().0) as char, (bytes.set@[k].v().1) as char); assert(vx_v@[k] == x) by { let y = vx_s@[k]; } }
        }
    }
//@loop 1
    invariant
        __i1 <= __e1, __e1 == vx_s@.len(), vx_v@.len() == __i1,
        forall|k: int| 0 <= k < __i1 ==> #[trigger] vx_v@[k] == vx_s@[k].v(),
    decreases __e1 - __i1,
//@at loop1.post
    proof {
        assert(vx_v@ =~= char_ranges(unicode));
        assert forall|x: (char, char)| #[trigger] vx_v@.contains(x) <==> value.has_range(x) by {
            if vx_v@.contains(x) { let k = choose|k: int| 0 <= k < vx_v@.len() && vx_v@[k] == x; assert(x == vx_s@[k].v()); }
            if value.has_range(x) { let k = choose|k: int| 0 <= k < unicode.set@.len() && x == (#[trigger] unicode.set@[k]).v(); assert(vx_v@[k] == x); }
        }
    }
//@end

// ---- containers
// TRUSTED: BTreeMap<LexerClasses, Symbol>; keys are equal if they have the same ranges.
#[verifier::external_body]
pub struct ClassMap { x: u8 }
impl View for ClassMap {
    type V = Map<Seq<(char, char)>, Symbol>;
    uninterp spec fn view(&self) -> Map<Seq<(char, char)>, Symbol>;
}
pub type Entries = Seq<(LexerClasses, Symbol)>;
pub open spec fn all_entries(m: Map<Seq<(char, char)>, Symbol>, es: Entries) -> bool {
    &&& forall|a: int| 0 <= a < es.len() ==> m.contains_key((#[trigger] es[a]).0.set@) && m[es[a].0.set@] == es[a].1
    &&& forall|k: Seq<(char, char)>| #[trigger] m.contains_key(k) ==> exists|a: int| 0 <= a < es.len() && (#[trigger] es[a]).0.set@ == k
    &&& forall|a: int, b: int| 0 <= a < b < es.len() ==> (#[trigger] es[a]).0.set@ != (#[trigger] es[b]).0.set@
}
impl ClassMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<(char, char)>, Symbol>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(LexerClasses, Symbol)>)
        ensures all_entries(self@, r@), forall|a: int| 0 <= a < r@.len() ==> range_order((#[trigger] r@[a]).0.set@),
    { unimplemented!() }
}
// TRUSTED: BTreeMap<char, Vec<(bool, Symbol)>>.
pub type Evs = Seq<(bool, Symbol)>;
#[verifier::external_body]
pub struct EvMap { x: u8 }
impl View for EvMap {
    type V = Map<char, Evs>;
    uninterp spec fn view(&self) -> Map<char, Evs>;
}
pub open spec fn evs_at(m: Map<char, Evs>, c: char) -> Evs { if m.contains_key(c) { m[c] } else { Seq::empty() } }
impl EvMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<char, Evs>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_at(&mut self, c: char, x: (bool, Symbol))
        ensures final(self)@ == old(self)@.insert(c, evs_at(old(self)@, c).push(x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_entries(self) -> (r: Vec<(char, Vec<(bool, Symbol)>)>)
        ensures sorted_evs(self@, r@),
    { unimplemented!() }
}
// TRUSTED: BTreeMap<char, Vec<Symbol>>.
#[verifier::external_body]
pub struct CharMap { x: u8 }
impl View for CharMap {
    type V = Map<char, Seq<Symbol>>;
    uninterp spec fn view(&self) -> Map<char, Seq<Symbol>>;
}
/// The greatest key that is not above `c`.
pub open spec fn is_floor(m: Map<char, Seq<Symbol>>, k: char, c: char) -> bool {
    m.contains_key(k) && k as u32 <= c as u32 && forall|d: char| #[trigger] m.contains_key(d) && d as u32 <= c as u32 ==> d as u32 <= k as u32
}
pub open spec fn no_floor(m: Map<char, Seq<Symbol>>, c: char) -> bool { forall|d: char| #[trigger] m.contains_key(d) ==> d as u32 > c as u32 }
impl CharMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<char, Seq<Symbol>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_at(&mut self, c: char, v: Vec<Symbol>)
        ensures final(self)@ == old(self)@.insert(c, (if old(self)@.contains_key(c) { old(self)@[c] } else { Seq::empty() }) + v@),
    { unimplemented!() }
    /// `range(..=c).next_back()`
    #[verifier::external_body]
    pub fn floor(&self, c: char) -> (r: Option<(&char, &Vec<Symbol>)>)
        ensures
            match r {
                Some(p) => is_floor(self@, *p.0, c) && p.1@ == self@[*p.0],
                None => no_floor(self@, c),
            },
    { unimplemented!() }
}
// TRUSTED: BTreeSet<Symbol>.
#[verifier::external_body]
pub struct SymSet { x: u8 }
impl SymSet {
    pub uninterp spec fn has(self, s: Symbol) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures forall|s: Symbol| !#[trigger] r.has(s),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: Symbol) -> (r: bool)
        ensures forall|s: Symbol| #[trigger] final(self).has(s) == (s == x || old(self).has(s)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &Symbol) -> (r: bool)
        ensures forall|s: Symbol| #[trigger] final(self).has(s) == (s != *x && old(self).has(s)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn list(&self) -> (r: Vec<Symbol>)
        ensures forall|s: Symbol| #[trigger] r@.contains(s) <==> self.has(s), r@.no_duplicates(),
    { unimplemented!() }
}
pub fn vx_is_ascii(c: char) -> (r: bool)
    ensures r == ((c as u32) < 128),
{ (c as u32) < 128 }
pub fn vx_min(a: u32, b: u32) -> (r: u32)
    ensures r == (if a < b { a } else { b }),
{ if a < b { a } else { b } }
pub fn vx_none() -> (r: &'static [Symbol])
    ensures r@.len() == 0,
{ &[] }
pub fn vx_empties(n: usize) -> (r: Vec<Vec<Symbol>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0,
{
    let mut r: Vec<Vec<Symbol>> = Vec::new();
    let mut k: usize = 0;
    while k < n
        invariant k <= n, r@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] r@[i])@.len() == 0,
        decreases n - k,
    {
        r.push(Vec::new());
        k = k + 1;
    }
    r
}

// ---- the ranges of a symbol
/// Range `b` of entry `a` is among those before `(i, j)`, and belongs to `s`.
pub open spec fn item(es: Entries, i: int, j: int, a: int, b: int, s: Symbol) -> bool {
    0 <= a < es.len() && 0 <= b < es[a].0.set@.len() && (a < i || a == i && b < j) && es[a].1 == s
}
pub open spec fn rng(es: Entries, a: int, b: int) -> (char, char) { es[a].0.set@[b] }
/// The character with number `u` is in a range of `s`.
pub open spec fn at(es: Entries, i: int, j: int, s: Symbol, u: int) -> bool { exists|a: int, b: int| #[trigger] item(es, i, j, a, b, s) && inside(rng(es, a, b), u) }
pub open spec fn starts(es: Entries, i: int, j: int, s: Symbol, c: char) -> bool { exists|a: int, b: int| #[trigger] item(es, i, j, a, b, s) && rng(es, a, b).0 == c }
pub open spec fn stops(es: Entries, i: int, j: int, s: Symbol, c: char) -> bool { exists|a: int, b: int| #[trigger] item(es, i, j, a, b, s) && is_next(rng(es, a, b).1, c) }
pub open spec fn proper(x: (char, char)) -> bool { (x.0 as u32) <= (x.1 as u32) }
pub open spec fn apart(x: (char, char), y: (char, char)) -> bool { (x.1 as u32) < (y.0 as u32) }
/// Every class has its own symbol, and its ranges are proper, in order and do not overlap.
pub open spec fn own_ranges(k: Seq<(char, char)>) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> proper(#[trigger] k[i])
    &&& forall|i: int, j: int| 0 <= i < j < k.len() ==> apart(#[trigger] k[i], #[trigger] k[j])
}
pub open spec fn own_classes(m: Map<Seq<(char, char)>, Symbol>) -> bool {
    &&& forall|k: Seq<(char, char)>| #[trigger] m.contains_key(k) ==> own_ranges(k)
    &&& forall|k: Seq<(char, char)>, l: Seq<(char, char)>| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(l) && m[k] == m[l] ==> k == l
}
pub open spec fn own_entries(es: Entries) -> bool {
    &&& forall|a: int| 0 <= a < es.len() ==> own_ranges((#[trigger] es[a]).0.set@)
    &&& forall|a: int, b: int| 0 <= a < es.len() && 0 <= b < es.len() && (#[trigger] es[a]).1 == (#[trigger] es[b]).1 ==> a == b
}
/// A class of `s` has the character.
pub open spec fn classified(m: Map<Seq<(char, char)>, Symbol>, s: Symbol, u: int) -> bool {
    exists|k: Seq<(char, char)>| #[trigger] m.contains_key(k) && m[k] == s && exists|b: int| 0 <= b < k.len() && inside(#[trigger] k[b], u)
}
pub proof fn lemma_entries(m: Map<Seq<(char, char)>, Symbol>, es: Entries)
    requires all_entries(m, es), own_classes(m),
    ensures own_entries(es), forall|s: Symbol, u: int| #[trigger] at(es, es.len() as int, 0, s, u) == classified(m, s, u),
{
    assert forall|a: int| 0 <= a < es.len() implies own_ranges((#[trigger] es[a]).0.set@) by { assert(m.contains_key(es[a].0.set@)); }
    assert forall|a: int, b: int| 0 <= a < es.len() && 0 <= b < es.len() && (#[trigger] es[a]).1 == (#[trigger] es[b]).1 implies a == b by {
        assert(m.contains_key(es[a].0.set@) && m.contains_key(es[b].0.set@));
        assert(es[a].0.set@ == es[b].0.set@);
        if a < b { assert(false); }
        if b < a { assert(false); }
    }
    assert forall|s: Symbol, u: int| #[trigger] at(es, es.len() as int, 0, s, u) == classified(m, s, u) by {
        if at(es, es.len() as int, 0, s, u) {
            let (a, b) = choose|a: int, b: int| #[trigger] item(es, es.len() as int, 0, a, b, s) && inside(rng(es, a, b), u);
            let k = es[a].0.set@;
            assert(m.contains_key(k) && m[k] == s);
            assert(inside(k[b], u));
        }
        if classified(m, s, u) {
            let k = choose|k: Seq<(char, char)>| #[trigger] m.contains_key(k) && m[k] == s && exists|b: int| 0 <= b < k.len() && inside(#[trigger] k[b], u);
            let b = choose|b: int| 0 <= b < k.len() && inside(#[trigger] k[b], u);
            let a = choose|a: int| 0 <= a < es.len() && (#[trigger] es[a]).0.set@ == k;
            assert(item(es, es.len() as int, 0, a, b, s));
        }
    }
}
/// The last event for a symbol.
pub open spec fn last_ev(e: Evs, s: Symbol) -> Option<bool>
    decreases e.len(),
{
    if e.len() == 0 { None } else if e.last().1 == s { Some(e.last().0) } else { last_ev(e.drop_last(), s) }
}
pub proof fn lemma_last_push(e: Evs, x: (bool, Symbol), s: Symbol)
    ensures last_ev(e.push(x), s) == (if x.1 == s { Some(x.0) } else { last_ev(e, s) }),
{
    assert(e.push(x).drop_last() =~= e);
}
pub open spec fn want(es: Entries, i: int, j: int, s: Symbol, c: char) -> Option<bool> {
    if starts(es, i, j, s, c) { Some(true) } else if stops(es, i, j, s, c) { Some(false) } else { None }
}
pub open spec fn ev_sym(m: Map<char, Evs>, es: Entries, i: int, j: int, s: Symbol, c: char) -> bool { last_ev(evs_at(m, c), s) == want(es, i, j, s, c) }
/// The events are those of the ranges so far.
pub open spec fn ev_ok(m: Map<char, Evs>, es: Entries, i: int, j: int) -> bool { forall|s: Symbol, c: char| #[trigger] ev_sym(m, es, i, j, s, c) }
pub open spec fn put(m: Map<char, Evs>, c: char, x: (bool, Symbol)) -> Map<char, Evs> { m.insert(c, evs_at(m, c).push(x)) }
pub open spec fn put2(m: Map<char, Evs>, x: (char, char), s: Symbol, m2: Map<char, Evs>) -> bool {
    let m1 = put(m, x.0, (true, s));
    if exists|d: char| is_next(x.1, d) { exists|d: char| is_next(x.1, d) && m2 == put(m1, d, (false, s)) } else { m2 == m1 }
}
pub proof fn lemma_ev_step(m: Map<char, Evs>, es: Entries, i: int, j: int, m2: Map<char, Evs>)
    requires
        own_entries(es), 0 <= i < es.len(), 0 <= j < es[i].0.set@.len(), ev_ok(m, es, i, j), put2(m, rng(es, i, j), es[i].1, m2),
    ensures ev_ok(m2, es, i, j + 1),
{
    let s0 = es[i].1;
    let x = rng(es, i, j);
    let m1 = put(m, x.0, (true, s0));
    assert(own_ranges(es[i].0.set@));
    assert(proper(es[i].0.set@[j]));
    assert forall|s: Symbol, c: char| #[trigger] ev_sym(m2, es, i, j + 1, s, c) by {
        assert(ev_sym(m, es, i, j, s, c));
        lemma_last_push(evs_at(m, c), (true, s0), s);
        lemma_last_push(evs_at(m1, c), (false, s0), s);
        lemma_item_step(es, i, j, s, c);
        if s == s0 {
            // no earlier range of the symbol starts where this one stops
            if is_next(x.1, c) {
                assert(!starts(es, i, j + 1, s, c)) by {
                    if starts(es, i, j + 1, s, c) {
                        let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, j + 1, a, b, s) && rng(es, a, b).0 == c;
                        assert(es[a].1 == es[i].1);
                        assert(a == i);
                        if b < j { assert(apart(es[i].0.set@[b], es[i].0.set@[j])); assert(proper(es[i].0.set@[b])); }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_item_step(es: Entries, i: int, j: int, s: Symbol, c: char)
    requires 0 <= i < es.len(), 0 <= j < es[i].0.set@.len(),
    ensures
        starts(es, i, j + 1, s, c) == (starts(es, i, j, s, c) || s == es[i].1 && rng(es, i, j).0 == c),
        stops(es, i, j + 1, s, c) == (stops(es, i, j, s, c) || s == es[i].1 && is_next(rng(es, i, j).1, c)),
{
    if starts(es, i, j, s, c) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, j, a, b, s) && rng(es, a, b).0 == c;
        assert(item(es, i, j + 1, a, b, s));
    }
    if stops(es, i, j, s, c) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, j, a, b, s) && is_next(rng(es, a, b).1, c);
        assert(item(es, i, j + 1, a, b, s));
    }
    if s == es[i].1 { assert(item(es, i, j + 1, i, j, s)); }
    if starts(es, i, j + 1, s, c) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, j + 1, a, b, s) && rng(es, a, b).0 == c;
        if !(a == i && b == j) { assert(item(es, i, j, a, b, s)); }
    }
    if stops(es, i, j + 1, s, c) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, j + 1, a, b, s) && is_next(rng(es, a, b).1, c);
        if !(a == i && b == j) { assert(item(es, i, j, a, b, s)); }
    }
}
pub proof fn lemma_item_row(es: Entries, i: int)
    requires 0 <= i < es.len(),
    ensures forall|a: int, b: int, s: Symbol| #[trigger] item(es, i, es[i].0.set@.len() as int, a, b, s) == item(es, i + 1, 0, a, b, s),
{
}
pub proof fn lemma_ev_row(m: Map<char, Evs>, es: Entries, i: int)
    requires 0 <= i < es.len(), ev_ok(m, es, i, es[i].0.set@.len() as int),
    ensures ev_ok(m, es, i + 1, 0),
{
    let n = es[i].0.set@.len() as int;
    assert forall|s: Symbol, c: char| #[trigger] ev_sym(m, es, i + 1, 0, s, c) by {
        assert(ev_sym(m, es, i, n, s, c));
        if starts(es, i, n, s, c) { let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, n, a, b, s) && rng(es, a, b).0 == c; assert(item(es, i + 1, 0, a, b, s)); }
        if stops(es, i, n, s, c) { let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, n, a, b, s) && is_next(rng(es, a, b).1, c); assert(item(es, i + 1, 0, a, b, s)); }
        if starts(es, i + 1, 0, s, c) { let (a, b) = choose|a: int, b: int| #[trigger] item(es, i + 1, 0, a, b, s) && rng(es, a, b).0 == c; assert(item(es, i, n, a, b, s)); }
        if stops(es, i + 1, 0, s, c) { let (a, b) = choose|a: int, b: int| #[trigger] item(es, i + 1, 0, a, b, s) && is_next(rng(es, a, b).1, c); assert(item(es, i, n, a, b, s)); }
    }
}
/// No event of `s` lies above `k` and up to `c`.
pub open spec fn gap(m: Map<char, Evs>, s: Symbol, k: int, c: int) -> bool { forall|d: char| #[trigger] m.contains_key(d) && last_ev(m[d], s) is Some ==> d as u32 <= k || d as u32 > c }
/// Where there is no event, nothing changes.
pub proof fn lemma_quiet(m: Map<char, Evs>, es: Entries, s: Symbol, k: int, c: char)
    requires own_entries(es), ev_ok(m, es, es.len() as int, 0), gap(m, s, k, c as u32 as int), k <= c as u32,
    ensures k >= 0 ==> at(es, es.len() as int, 0, s, c as u32 as int) == at(es, es.len() as int, 0, s, k), k < 0 ==> !at(es, es.len() as int, 0, s, c as u32 as int),
{
    let n = es.len() as int;
    let u = c as u32 as int;
    if at(es, n, 0, s, u) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, n, 0, a, b, s) && inside(rng(es, a, b), u);
        let x = rng(es, a, b);
        assert(starts(es, n, 0, s, x.0));
        assert(ev_sym(m, es, n, 0, s, x.0));
        assert(m.contains_key(x.0));
        assert(inside(x, k));
    }
    if k >= 0 && at(es, n, 0, s, k) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, n, 0, a, b, s) && inside(rng(es, a, b), k);
        let x = rng(es, a, b);
        if (x.1 as u32) < u {
            let d = lemma_next(x.1, c);
            assert(stops(es, n, 0, s, d));
            assert(ev_sym(m, es, n, 0, s, d));
            assert(m.contains_key(d));
            assert(false);
        }
        assert(inside(x, u));
    }
}
// TRUSTED: a character that is not the last has a next one.
pub axiom fn axiom_next(c: char, e: char) -> (d: char)
    requires (c as u32) < (e as u32),
    ensures is_next(c, d);
pub proof fn lemma_next(c: char, e: char) -> (d: char)
    requires (c as u32) < (e as u32),
    ensures is_next(c, d), d as u32 <= e as u32,
{
    axiom_next(c, e)
}
/// What an event says is true.
pub proof fn lemma_event(m: Map<char, Evs>, es: Entries, s: Symbol, c: char)
    requires own_entries(es), ev_ok(m, es, es.len() as int, 0),
    ensures
        last_ev(evs_at(m, c), s) == Some(true) ==> at(es, es.len() as int, 0, s, c as u32 as int),
        last_ev(evs_at(m, c), s) == Some(false) ==> !at(es, es.len() as int, 0, s, c as u32 as int),
{
    let n = es.len() as int;
    let u = c as u32 as int;
    assert(ev_sym(m, es, n, 0, s, c));
    if starts(es, n, 0, s, c) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, n, 0, a, b, s) && rng(es, a, b).0 == c;
        assert(own_ranges(es[a].0.set@));
        assert(proper(es[a].0.set@[b]));
        assert(inside(rng(es, a, b), u));
    } else if stops(es, n, 0, s, c) && at(es, n, 0, s, u) {
        let (a, b) = choose|a: int, b: int| #[trigger] item(es, n, 0, a, b, s) && is_next(rng(es, a, b).1, c);
        let (a2, b2) = choose|a2: int, b2: int| #[trigger] item(es, n, 0, a2, b2, s) && inside(rng(es, a2, b2), u);
        assert(es[a].1 == es[a2].1);
        assert(a == a2);
        assert(own_ranges(es[a].0.set@));
        assert(proper(es[a].0.set@[b]) && proper(es[a].0.set@[b2]));
        let y = es[a].0.set@[b2];
        if b2 < b { assert(apart(es[a].0.set@[b2], es[a].0.set@[b])); }
        if b < b2 {
            assert(apart(es[a].0.set@[b], es[a].0.set@[b2]));
            assert(c as u32 <= y.0 as u32);
            assert(y.0 == c);
            assert(starts(es, n, 0, s, c));
        }
    }
}

// ---- the map
//@struct cfg-regexp-logic/src/lib.rs LexerMap
//@ty BTreeMap<LexerClasses, Symbol> => ClassMap
//@ty BTreeMap<char, Vec<Symbol>> => CharMap
/// The table gives the symbols of the classes that have the character.
pub open spec fn ascii_ok(t: Seq<Vec<Symbol>>, es: Entries, i: int, j: int) -> bool {
    t.len() == 256 && forall|u: int, s: Symbol| 0 <= u < 128 ==> (#[trigger] t[u]@.contains(s) <==> at(es, i, j, s, u))
}
pub open spec fn ascii_mid(t: Seq<Vec<Symbol>>, es: Entries, i: int, j: int, w: int) -> bool {
    t.len() == 256 && forall|u: int, s: Symbol| 0 <= u < 128 ==> (#[trigger] t[u]@.contains(s) <==> at(es, i, j, s, u) || s == es[i].1 && inside(rng(es, i, j), u) && u < w)
}
pub proof fn lemma_at_step(es: Entries, i: int, j: int)
    requires 0 <= i < es.len(), 0 <= j < es[i].0.set@.len(),
    ensures forall|s: Symbol, u: int| #[trigger] at(es, i, j + 1, s, u) == (at(es, i, j, s, u) || s == es[i].1 && inside(rng(es, i, j), u)),
{
    assert forall|s: Symbol, u: int| #[trigger] at(es, i, j + 1, s, u) == (at(es, i, j, s, u) || s == es[i].1 && inside(rng(es, i, j), u)) by {
        if at(es, i, j, s, u) {
            let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, j, a, b, s) && inside(rng(es, a, b), u);
            assert(item(es, i, j + 1, a, b, s));
        }
        if s == es[i].1 && inside(rng(es, i, j), u) { assert(item(es, i, j + 1, i, j, s)); }
        if at(es, i, j + 1, s, u) {
            let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, j + 1, a, b, s) && inside(rng(es, a, b), u);
            if !(a == i && b == j) { assert(item(es, i, j, a, b, s)); }
        }
    }
}
pub proof fn lemma_at_row(es: Entries, i: int)
    requires 0 <= i < es.len(),
    ensures forall|s: Symbol, u: int| #[trigger] at(es, i + 1, 0, s, u) == at(es, i, es[i].0.set@.len() as int, s, u),
{
    let n = es[i].0.set@.len() as int;
    assert forall|s: Symbol, u: int| #[trigger] at(es, i + 1, 0, s, u) == at(es, i, n, s, u) by {
        if at(es, i, n, s, u) {
            let (a, b) = choose|a: int, b: int| #[trigger] item(es, i, n, a, b, s) && inside(rng(es, a, b), u);
            assert(item(es, i + 1, 0, a, b, s));
        }
        if at(es, i + 1, 0, s, u) {
            let (a, b) = choose|a: int, b: int| #[trigger] item(es, i + 1, 0, a, b, s) && inside(rng(es, a, b), u);
            assert(item(es, i, n, a, b, s));
        }
    }
}
pub open spec fn key_before(evs: Seq<(char, Vec<(bool, Symbol)>)>, i: int) -> int { if i <= 0 { -1 } else { evs[i - 1].0 as u32 as int } }
pub open spec fn at_key(es: Entries, s: Symbol, p: int) -> bool { p >= 0 && at(es, es.len() as int, 0, s, p) }
pub open spec fn sorted_evs(m: Map<char, Evs>, r: Seq<(char, Vec<(bool, Symbol)>)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (((#[trigger] r[i]).0) as u32) < (((#[trigger] r[j]).0) as u32)
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0) && m[r[i].0] == r[i].1@
    &&& forall|c: char| #[trigger] m.contains_key(c) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == c
}
pub open spec fn swept(m: Map<char, Seq<Symbol>>, es: Entries, evs: Seq<(char, Vec<(bool, Symbol)>)>, n: int) -> bool {
    &&& forall|c: char| #[trigger] m.contains_key(c) ==> exists|i: int| 0 <= i < n && (#[trigger] evs[i]).0 == c
    &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] evs[i]).0)
    &&& forall|c: char, s: Symbol| m.contains_key(c) ==> (#[trigger] m[c].contains(s) <==> at(es, es.len() as int, 0, s, c as u32 as int))
}
/// The symbols at a key are those at the one before, with the events of the key.
pub proof fn lemma_sweep(m: Map<char, Evs>, es: Entries, evs: Seq<(char, Vec<(bool, Symbol)>)>, i: int, s: Symbol)
    requires own_entries(es), ev_ok(m, es, es.len() as int, 0), sorted_evs(m, evs), 0 <= i < evs.len(),
    ensures
        at(es, es.len() as int, 0, s, evs[i].0 as u32 as int) == (match last_ev(evs[i].1@, s) { Some(b) => b, None => at_key(es, s, key_before(evs, i)) }),
{
    let c = evs[i].0;
    assert(m.contains_key(c) && m[c] == evs[i].1@);
    lemma_event(m, es, s, c);
    if last_ev(evs[i].1@, s) is None {
        let k = key_before(evs, i);
        assert(k <= c as u32) by { if i > 0 { assert((evs[i - 1].0 as u32) < (evs[i].0 as u32)); } }
        assert forall|d: char| #[trigger] m.contains_key(d) && last_ev(m[d], s) is Some implies d as u32 <= k || d as u32 > c as u32 by {
            let b = choose|b: int| 0 <= b < evs.len() && (#[trigger] evs[b]).0 == d;
            if b < i - 1 { assert((evs[b].0 as u32) < (evs[i - 1].0 as u32)); }
            if b > i { assert((evs[i].0 as u32) < (evs[b].0 as u32)); }
        }
        lemma_quiet(m, es, s, k, c);
    }
}
pub proof fn lemma_swept(m: Map<char, Evs>, es: Entries, evs: Seq<(char, Vec<(bool, Symbol)>)>, r: Map<char, Seq<Symbol>>)
    requires own_entries(es), ev_ok(m, es, es.len() as int, 0), sorted_evs(m, evs), swept(r, es, evs, evs.len() as int),
    ensures
        forall|k: char, c: char, s: Symbol| #[trigger] is_floor(r, k, c) ==> (#[trigger] r[k].contains(s) <==> at(es, es.len() as int, 0, s, c as u32 as int)),
        forall|c: char, s: Symbol| #[trigger] no_floor(r, c) ==> !#[trigger] at(es, es.len() as int, 0, s, c as u32 as int),
{
    assert forall|d: char| #[trigger] m.contains_key(d) implies r.contains_key(d) by {
        let b = choose|b: int| 0 <= b < evs.len() && (#[trigger] evs[b]).0 == d;
    }
    assert forall|k: char, c: char, s: Symbol| #[trigger] is_floor(r, k, c) implies (#[trigger] r[k].contains(s) <==> at(es, es.len() as int, 0, s, c as u32 as int)) by {
        lemma_quiet(m, es, s, k as u32 as int, c);
    }
    assert forall|c: char, s: Symbol| #[trigger] no_floor(r, c) implies !#[trigger] at(es, es.len() as int, 0, s, c as u32 as int) by {
        lemma_quiet(m, es, s, -1, c);
    }
}
impl LexerMap {
    pub open spec fn answers(self, c: char, s: Symbol) -> bool { classified(self.classes@, s, c as u32 as int) }
    /// `compute` was called after the last change of the classes.
    pub open spec fn computed(self) -> bool {
        &&& self.ascii@.len() == 256
        &&& forall|c: char, s: Symbol| (c as u32) < 128 ==> (#[trigger] self.ascii@[c as u32 as int]@.contains(s) <==> self.answers(c, s))
        &&& forall|k: char, c: char, s: Symbol| #[trigger] is_floor(self.ranges@, k, c) ==> (#[trigger] self.ranges@[k].contains(s) <==> self.answers(c, s))
        &&& forall|c: char, s: Symbol| #[trigger] no_floor(self.ranges@, c) ==> !#[trigger] self.answers(c, s)
    }
}
//@fn cfg-regexp-logic/src/lib.rs LexerMap::new
//@rewrite_opt classes: BTreeMap::new() => classes: ClassMap::new()
//@rewrite_opt ranges: BTreeMap::new() => ranges: CharMap::new()
    ensures ret.classes@ == Map::<Seq<(char, char)>, Symbol>::empty(),
//@end
//@fn cfg-regexp-logic/src/lib.rs LexerMap::compute
//@rewrite_opt vec![vec![]; 256] => vx_empties(256)
//@rewrite_opt for ($lc, &$s) in &self.classes {$$b} => let vx_es = self.classes.entries(); proof { lemma_entries(self.classes@, vx_es@); } for vx_i in 0..vx_es.len() { let $lc = &vx_es[vx_i].0; let $s = vx_es[vx_i].1; $$b }
//@rewrite_opt for &$c in &lexer_classes.set {$$b} => let vx_rs = lexer_classes.set.list(); for vx_j in 0..vx_rs.len() { let $c = vx_rs[vx_j]; $$b }
//@rewrite_opt class.0.is_ascii() => vx_is_ascii(class.0)
//@rewrite_opt ($$x).min($$y) => vx_min($$x, $$y)
//@rewrite_opt for $v in $$x..=$$y {$$b} => for $v in $$x..($$y) + 1 {$$b}
//@rewrite_opt let mut ranges = BTreeMap::new(); => let mut ranges = EvMap::new();
//@rewrite_opt let mut result = BTreeMap::new(); => let mut result = CharMap::new();
//@rewrite_opt let mut work = BTreeSet::new(); => let mut work = SymSet::new();
//@rewrite_opt ranges.entry($$k).or_insert(vec![]).push($$v); => ranges.push_at($$k, $$v);
//@rewrite_opt (class.1..=char::MAX).nth(1) => vx_next_char(class.1)
//@rewrite_opt for (ch, changes) in ranges {$$b} => let vx_evs = ranges.into_entries(); for vx_k in 0..vx_evs.len() { let ch = vx_evs[vx_k].0; let changes = &vx_evs[vx_k].1; $$b }
//@rewrite_opt for ($a, $s) in changes {$$b} => for vx_l in 0..changes.len() { let ($a, $s) = changes[vx_l]; $$b }
//@rewrite_opt result.entry(ch).or_insert(vec![]).extend(work.iter().copied()); => result.extend_at(ch, work.list());
//@loops for for for for for for for
    requires own_classes(old(self).classes@),
    ensures final(self).classes == old(self).classes, final(self).computed(),
//@at begin
    let ghost mut es = Seq::<(LexerClasses, Symbol)>::empty();
    let ghost mut evm = Map::<char, Evs>::empty();
//@at loop0.pre
    proof { assert(ascii_ok(result@, vx_es@, 0, 0)) by { assert forall|s: Symbol, u: int| !#[trigger] at(vx_es@, 0, 0, s, u) by { } } }
//@loop 0
    invariant
        __i0 <= __e0, __e0 == vx_es@.len(), self.classes == old(self).classes, own_classes(self.classes@), all_entries(self.classes@, vx_es@), own_entries(vx_es@),
        ascii_ok(result@, vx_es@, __i0 as int, 0),
    decreases __e0 - __i0,
//@at loop0.end
    proof { lemma_at_row(vx_es@, vx_i as int); }
//@at loop0.post
    proof {
        let n = vx_es@.len() as int;
        assert forall|c: char, s: Symbol| (c as u32) < 128 implies (#[trigger] result@[c as u32 as int]@.contains(s) <==> classified(self.classes@, s, c as u32 as int)) by {
            assert(at(vx_es@, n, 0, s, c as u32 as int) == classified(self.classes@, s, c as u32 as int)) by { lemma_entries(self.classes@, vx_es@); }
        }
    }
//@loop 1
    invariant
        __i1 <= __e1, __e1 == vx_rs@.len(), vx_i < vx_es@.len(), vx_rs@ == vx_es@[vx_i as int].0.set@, symbol == vx_es@[vx_i as int].1,
        self.classes == old(self).classes, own_entries(vx_es@),
        ascii_ok(result@, vx_es@, vx_i as int, __i1 as int),
    decreases __e1 - __i1,
//@at loop1.begin
    proof {
        assert(own_ranges(vx_es@[vx_i as int].0.set@));
        assert(proper(vx_es@[vx_i as int].0.set@[vx_j as int]));
        lemma_at_step(vx_es@, vx_i as int, vx_j as int);
    }
//@loop 2
    invariant
        __i2 <= __e2, __e2 <= 256, result@.len() == 256, vx_i < vx_es@.len(), vx_j < vx_rs@.len(), class == vx_rs@[vx_j as int],
        vx_rs@ == vx_es@[vx_i as int].0.set@, symbol == vx_es@[vx_i as int].1, __i2 >= class.0 as u32, __e2 > class.1 as u32 || __e2 >= 128,
        __e2 <= class.1 as u32 + 1,
        ascii_mid(result@, vx_es@, vx_i as int, vx_j as int, __i2 as int),
    decreases __e2 - __i2,
//@at loop2.begin
    let ghost old_r = result@;
//@at loop2.end
    proof {
        let a = ascii as int;
        assert(result@[a]@ == old_r[a]@.push(symbol));
        assert forall|u: int, s: Symbol| 0 <= u < 128 implies (#[trigger] result@[u]@.contains(s) <==> at(vx_es@, vx_i as int, vx_j as int, s, u) || s == symbol && inside(class, u) && u < a + 1) by {
            assert(old_r[u]@.contains(s) <==> at(vx_es@, vx_i as int, vx_j as int, s, u) || s == symbol && inside(class, u) && u < a);
            if u == a {
                lemma_push_has(old_r[a]@, symbol, s);
            } else {
                assert(result@[u] == old_r[u]);
            }
        }
    }
//@at loop3.pre
    proof {
        es = vx_es@;
        assert forall|s: Symbol, c: char| #[trigger] ev_sym(ranges@, vx_es@, 0, 0, s, c) by { }
    }
//@loop 3
    invariant
        __i3 <= __e3, __e3 == vx_es@.len(), self.classes == old(self).classes, own_classes(self.classes@), all_entries(self.classes@, vx_es@), own_entries(vx_es@), es == vx_es@,
        ev_ok(ranges@, vx_es@, __i3 as int, 0),
    decreases __e3 - __i3,
//@at loop3.end
    proof { lemma_ev_row(ranges@, vx_es@, vx_i as int); }
//@at loop3.post
    proof { evm = ranges@; }
//@loop 4
    invariant
        __i4 <= __e4, __e4 == vx_rs@.len(), vx_i < vx_es@.len(), vx_rs@ == vx_es@[vx_i as int].0.set@, symbol == vx_es@[vx_i as int].1,
        self.classes == old(self).classes, own_entries(vx_es@),
        ev_ok(ranges@, vx_es@, vx_i as int, __i4 as int),
    decreases __e4 - __i4,
//@at loop4.begin
    let ghost old_m = ranges@;
//@at loop4.end
    proof {
        assert(put2(old_m, rng(vx_es@, vx_i as int, vx_j as int), symbol, ranges@));
        lemma_ev_step(old_m, vx_es@, vx_i as int, vx_j as int, ranges@);
    }
//@loop 5
    invariant
        __i5 <= __e5, __e5 == vx_evs@.len(), sorted_evs(evm, vx_evs@), own_entries(es), ev_ok(evm, es, es.len() as int, 0),
        self.classes == old(self).classes,
        swept(result@, es, vx_evs@, __i5 as int),
        forall|s: Symbol| #[trigger] work.has(s) == at_key(es, s, key_before(vx_evs@, __i5 as int)),
    decreases __e5 - __i5,
//@at loop5.begin
    let ghost old_w = work;
    let ghost old_r = result@;
//@at loop5.end
    proof {
        assert forall|s: Symbol| #[trigger] work.has(s) == at_key(es, s, key_before(vx_evs@, __i5 as int)) by {
            lemma_sweep(evm, es, vx_evs@, vx_k as int, s);
            assert(changes@.take(changes@.len() as int) =~= changes@);
        }
        assert(!old_r.contains_key(ch));
        assert forall|c: char, s: Symbol| result@.contains_key(c) implies (#[trigger] result@[c].contains(s) <==> at(es, es.len() as int, 0, s, c as u32 as int)) by {
            if c == ch {
                assert(work.has(s) == at_key(es, s, key_before(vx_evs@, __i5 as int)));
            } else {
                assert(old_r.contains_key(c) && result@[c] == old_r[c]);
            }
        }
        assert forall|c: char| #[trigger] result@.contains_key(c) implies exists|i: int| 0 <= i < __i5 && (#[trigger] vx_evs@[i]).0 == c by {
            if c == ch { assert(vx_evs@[vx_k as int].0 == c); }
            else { assert(old_r.contains_key(c)); let b = choose|b: int| 0 <= b < vx_k && (#[trigger] vx_evs@[b]).0 == c; assert(vx_evs@[b].0 == c); }
        }
    }
//@at loop5.post
    proof {
        lemma_swept(evm, es, vx_evs@, result@);
        lemma_entries(self.classes@, es);
        let n = es.len() as int;
        assert forall|k: char, c: char, s: Symbol| #[trigger] is_floor(result@, k, c) implies (#[trigger] result@[k].contains(s) <==> classified(self.classes@, s, c as u32 as int)) by {
            assert(at(es, n, 0, s, c as u32 as int) == classified(self.classes@, s, c as u32 as int));
        }
        assert forall|c: char, s: Symbol| #[trigger] no_floor(result@, c) implies !#[trigger] classified(self.classes@, s, c as u32 as int) by {
            assert(at(es, n, 0, s, c as u32 as int) == classified(self.classes@, s, c as u32 as int));
        }
    }
//@loop 6
    invariant
        __i6 <= __e6, __e6 == changes@.len(),
        forall|s: Symbol| #[trigger] work.has(s) == (match last_ev(changes@.take(__i6 as int), s) { Some(b) => b, None => old_w.has(s) }),
    decreases __e6 - __i6,
//@at loop6.begin
    let ghost mid_w = work;
//@at loop6.end
    proof {
        assert(changes@.take(__i6 as int) =~= changes@.take(vx_l as int).push(changes@[vx_l as int]));
        assert forall|s: Symbol| #[trigger] work.has(s) == (match last_ev(changes@.take(__i6 as int), s) { Some(b) => b, None => old_w.has(s) }) by {
            lemma_last_push(changes@.take(vx_l as int), changes@[vx_l as int], s);
            assert(mid_w.has(s) == (match last_ev(changes@.take(vx_l as int), s) { Some(b) => b, None => old_w.has(s) }));
        }
    }
//@end
pub proof fn lemma_push_has(v: Seq<Symbol>, x: Symbol, s: Symbol)
    ensures v.push(x).contains(s) == (v.contains(s) || s == x),
{
    if v.contains(s) { let i = choose|i: int| 0 <= i < v.len() && v[i] == s; assert(v.push(x)[i] == s); }
    if s == x { assert(v.push(x)[v.len() as int] == s); }
    if v.push(x).contains(s) { let i = choose|i: int| 0 <= i < v.len() + 1 && v.push(x)[i] == s; if i < v.len() { assert(v[i] == s); } }
}
//@fn cfg-regexp-logic/src/lib.rs LexerMap::get
//@rewrite_opt ch.is_ascii() => vx_is_ascii(ch)
//@rewrite_opt self.ranges.range(..=ch).next_back().map(|(_, $v)| $$b).unwrap_or(&[]) => match self.ranges.floor(ch) { Some((_, $v)) => $$b, None => vx_none() }
//@rewrite_opt &self.ascii[ch as usize][..] => self.ascii[ch as usize].as_slice()
//@rewrite_opt &v[..] => v.as_slice()
    requires self.computed(),
    ensures forall|s: Symbol| #[trigger] ret@.contains(s) <==> self.answers(ch, s),
//@end
