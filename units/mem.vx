// `std::mem` and `Default`.
//@ library
trait VxDefault: Sized {
    spec fn is_default(self) -> bool;
    fn vx_made() -> (r: Self) ensures r.is_default();
}
impl<T> VxDefault for Vec<T> {
    spec fn is_default(self) -> bool { self@.len() == 0 }
    fn vx_made() -> (r: Self) { Vec::new() }
}
impl<T> VxDefault for Option<T> {
    spec fn is_default(self) -> bool { self.is_none() }
    fn vx_made() -> (r: Self) { None }
}
fn vx_mem_take<T: VxDefault>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_default() { vx_mem_replace(x, vx_default()) }
fn vx_mem_replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y {
    let mut z = y;
    std::mem::swap(x, &mut z);
    z
}
fn vx_default<T: VxDefault>() -> (r: T) ensures r.is_default() { T::vx_made() }
