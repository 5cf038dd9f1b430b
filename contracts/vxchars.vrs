// The characters of a text (cfg-load).
use std::marker::PhantomData;
// TRUSTED: Chars as the characters of the text from a position on.
pub struct VxChars<'a> { pub all: Vec<char>, pub at: usize, pub text: PhantomData<&'a u8> }
impl<'a> VxChars<'a> {
    pub open spec fn rest(self) -> Seq<char> { self.all@.skip(self.at as int) }
    pub open spec fn read(self) -> Seq<char> { self.all@.take(self.at as int) }
    pub open spec fn fits(self) -> bool { self.at <= self.all@.len() && self.all@.len() < usize::MAX }
    #[verifier::external_body]
    pub fn of(s: &'a str) -> (r: Self)
        ensures r.all@ == s@, r.at == 0,
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<char>)
        requires old(self).fits(),
        ensures
            final(self).all == old(self).all, final(self).fits(),
            match r { Some(c) => old(self).at < old(self).all@.len() && c == old(self).all@[old(self).at as int] && final(self).at == old(self).at + 1, None => old(self).at == old(self).all@.len() && final(self).at == old(self).at },
    {
        if self.at < self.all.len() { let c = self.all[self.at]; self.at = self.at + 1; Some(c) } else { None }
    }
    /// `as_str().chars().next()`
    pub fn first(&self) -> (r: Option<char>)
        requires self.fits(),
        ensures r == (if self.rest().len() > 0 { Some(self.rest()[0]) } else { None }), self.rest().len() == self.all@.len() - self.at,
    {
        if self.at < self.all.len() { Some(self.all[self.at]) } else { None }
    }
    #[verifier::external_body]
    pub fn starts_with(&self, s: &str) -> (r: bool)
        ensures r == (s@.len() <= self.rest().len() && self.rest().take(s@.len() as int) == s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
    /// `from[..from.len() - self.as_str().len()].to_string()`
    #[verifier::external_body]
    pub fn since(&self, from: &VxChars<'a>) -> (r: String)
        requires from.all@ == self.all@, from.at <= self.at, self.fits(),
        ensures r@ == self.all@.subrange(from.at as int, self.at as int),
    { unimplemented!() }
}
