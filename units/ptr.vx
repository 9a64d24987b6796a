// Pointers into pinned values. That what they point to stays where it is and
// keeps its value is an assumption.
//@ map NonNull => VxPtr
//@ map .as_ref => vx_as_ref
//@ map .as_mut => vx_as_mut
//@ map .get_ref => vx_get_ref
//@ map .get_unchecked_mut => vx_get_mut
//@ rewrite-all Box::pin =>> Box::new
//@ library
#[verifier::external_body]
#[verifier::accept_recursive_types(X)]
struct VxPtr<X> { x: std::marker::PhantomData<X> }
impl<X> VxPtr<X> {
    uninterp spec fn at(&self) -> X;
    #[verifier::external_body]
    fn from(x: &X) -> (r: Self) ensures r.at() == *x { unimplemented!() }
}
impl<X> Clone for VxPtr<X> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<X> Copy for VxPtr<X> {}
trait VxAsRef<X> {
    spec fn vx_target(&self) -> X;
    fn vx_as_ref(&self) -> (r: &X) ensures *r == self.vx_target();
}
impl<X> VxAsRef<X> for VxPtr<X> {
    spec fn vx_target(&self) -> X { self.at() }
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &X) { unimplemented!() }
}
/// `Pin<Box<X>>`, of which only the box is kept.
impl<X> VxAsRef<X> for Box<X> {
    spec fn vx_target(&self) -> X { **self }
    fn vx_as_ref(&self) -> (r: &X) { &**self }
}
trait VxPinned<X> {
    spec fn vx_pinned(&self) -> X;
    fn vx_as_mut(&mut self) -> (r: &mut X) ensures *r == old(self).vx_pinned(), *final(r) == final(self).vx_pinned();
}
impl<X> VxPinned<X> for Box<X> {
    spec fn vx_pinned(&self) -> X { **self }
    fn vx_as_mut(&mut self) -> (r: &mut X) { &mut **self }
}
trait VxPinRef: Sized {
    fn vx_get_ref(&self) -> (r: &Self) ensures *r == *self;
    fn vx_get_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
}
impl<X> VxPinRef for X {
    fn vx_get_ref(&self) -> (r: &Self) { self }
    fn vx_get_mut(&mut self) -> (r: &mut Self) { self }
}
struct PhantomPinned;
