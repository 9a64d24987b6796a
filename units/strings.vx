// Owned strings as sequences of characters.
//@ map String => VxString
//@ library
#[verifier::external_body]
struct VxString { x: String }
impl VxString {
    uninterp spec fn chars(&self) -> Seq<char>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.chars() == Seq::<char>::empty() { unimplemented!() }
    fn with_capacity(n: usize) -> (r: Self) ensures r.chars() == Seq::<char>::empty() { Self::new() }
    #[verifier::external_body]
    fn push(&mut self, c: char) ensures final(self).chars() == old(self).chars().push(c) { unimplemented!() }
    fn vx_extend_one(&mut self, c: char) ensures final(self).chars() == old(self).chars().push(c) { self.push(c); }
    #[verifier::external_body]
    fn push_str(&mut self, s: &VxString) ensures final(self).chars() == old(self).chars() + s.chars() { unimplemented!() }
    /// Number of bytes.
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.chars().len() == 0) { unimplemented!() }
    fn clear(&mut self) ensures final(self).chars().len() == 0 { *self = Self::new(); }
}
