// Iterators of the pattern reader: the standard library's part, which is
// trusted, and the crate's own adapters, which are extracted.
//@ scope pango-lexer/src/regex/ pango-lexer/src/iter/
//@ map Peekable => VxPeekable
//@ map .peekable => vx_peekable
//@ map .clone => vx_clone
//@ bound I: VxIter
//@ rewrite-all Enumerate<Chars<'a>> =>> VxCharIndices<'a>
//@ scope
//@ include mem.vx
//@ library
/// An iterator. `items` is what it is still going to yield, as far as the
/// contracts care about the items.
trait VxIter: Sized {
    type Item: VxC;
    type V;
    spec fn view_item(x: Self::Item) -> Self::V;
    spec fn ok_item(x: Self::Item) -> bool;
    spec fn items(&self) -> Seq<Self::V>;
    spec fn wf(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).items().len() == 0 ==> r.is_none() && final(self).items().len() == 0,
            old(self).items().len() > 0 ==> r.is_some() && Self::view_item(r.unwrap()) == old(self).items()[0]
                && Self::ok_item(r.unwrap()) && final(self).items() == old(self).items().skip(1);
}
/// `Enumerate<Chars>`
#[verifier::external_body]
struct VxCharIndices<'a> { x: &'a str }
impl<'a> VxCharIndices<'a> {
    uninterp spec fn chars(&self) -> Seq<char>;
}
impl<'a> VxIter for VxCharIndices<'a> {
    type Item = (usize, char);
    type V = char;
    spec fn view_item(x: (usize, char)) -> char { x.1 }
    spec fn ok_item(x: (usize, char)) -> bool { x.0 < usize::MAX }
    spec fn items(&self) -> Seq<char> { self.chars() }
    spec fn wf(&self) -> bool { true }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, char)>) { unimplemented!() }
}
#[verifier::external_body]
fn vx_char_indices<'a>(x: &'a str) -> (r: VxCharIndices<'a>) ensures r.items() == x@ { unimplemented!() }
/// `Peekable`
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
struct VxPeekable<I: VxIter> { i: I }
impl<I: VxIter> VxPeekable<I> {
    uninterp spec fn items(&self) -> Seq<I::V>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<I::Item>)
        ensures
            old(self).items().len() == 0 ==> r.is_none() && final(self).items().len() == 0,
            old(self).items().len() > 0 ==> r.is_some() && I::view_item(r.unwrap()) == old(self).items()[0]
                && I::ok_item(r.unwrap()) && final(self).items() == old(self).items().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&I::Item>)
        ensures final(self).items() == old(self).items(),
            old(self).items().len() == 0 ==> r.is_none(),
            old(self).items().len() > 0 ==> r.is_some() && I::view_item(*r.unwrap()) == old(self).items()[0] && I::ok_item(*r.unwrap())
    { unimplemented!() }
}
trait VxPeek: VxIter {
    fn vx_peekable(self) -> (r: VxPeekable<Self>) requires self.wf() ensures r.items() == self.items();
}
impl<I: VxIter> VxPeek for I {
    #[verifier::external_body]
    fn vx_peekable(self) -> (r: VxPeekable<Self>) { unimplemented!() }
}
/// Cloning gives an equal value.
trait VxC {}
impl VxC for (usize, char) {}
impl<T: VxC> VxC for Option<T> {}
trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: VxC> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
trait Peekableable: Sized {
    type Item: VxC;
    type V;
    spec fn view_item(x: Self::Item) -> Self::V;
    spec fn ok_item(x: Self::Item) -> bool;
    spec fn items(&self) -> Seq<Self::V>;
    spec fn wf(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).items().len() == 0 ==> r.is_none() && final(self).items().len() == 0,
            old(self).items().len() > 0 ==> r.is_some() && Self::view_item(r.unwrap()) == old(self).items()[0]
                && Self::ok_item(r.unwrap()) && final(self).items() == old(self).items().skip(1);
    fn peek(&mut self) -> (r: Option<&Self::Item>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).items() == old(self).items(),
            old(self).items().len() == 0 ==> r.is_none(),
            old(self).items().len() > 0 ==> r.is_some() && Self::view_item(*r.unwrap()) == old(self).items()[0] && Self::ok_item(*r.unwrap());
}
//@ file pango-lexer/src/iter/peekable.rs
//@ item CachedPeekable verifier::reject_recursive_types(I)
//@ prelude
trait CachedPeekableable: VxIter {
    fn cached_peekable(self) -> (r: CachedPeekable<Self>) requires self.wf() ensures r.wf(), r.items() == self.items();
}
//@ impl<I: VxIter> Peekableable for CachedPeekable<I>
    type Item = I::Item;
    type V = I::V;
    closed spec fn view_item(x: I::Item) -> I::V { I::view_item(x) }
    closed spec fn ok_item(x: I::Item) -> bool { I::ok_item(x) }
    closed spec fn items(&self) -> Seq<I::V> { self.iter.items() }
    closed spec fn wf(&self) -> bool { match self.current { Some(Some(x)) => I::ok_item(x), _ => true } }
//@ fn Iterator for CachedPeekable::next
//@ fn Peekableable for CachedPeekable::peek
//@ end
//@ impl<I: VxIter> CachedPeekable<I>
//@ fn CachedPeekable::current
requires self.wf(),
ensures match r { Some(x) => I::ok_item(x), None => true },
//@ end
//@ impl<I: VxIter> CachedPeekableable for I
//@ fn CachedPeekableable<I> for I::cached_peekable
//@ end
