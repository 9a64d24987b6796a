// Cursor over the elements an iterator yields, and the panicking calls.
//@ library
global size_of usize == 8;

/// The elements of an iterator in the order in which it yields them, and how
/// many of them have been taken.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxIt<T> { v: std::marker::PhantomData<T> }

impl<T> VxIt<T> {
    uninterp spec fn seq(&self) -> Seq<T>;
    uninterp spec fn pos(&self) -> int;
    spec fn rest(&self) -> Seq<T> { self.seq().skip(self.pos()) }
    #[verifier::external_body]
    fn vx_empty() -> (r: Self) ensures r.seq() == Seq::<T>::empty(), r.pos() == 0 { unimplemented!() }
    fn vx_once(x: T) -> (r: Self) ensures r.seq() == seq![x], r.pos() == 0 {
        let mut r = Self::vx_empty();
        r.vx_push(x);
        assert(r.seq() =~= seq![x]);
        r
    }
    #[verifier::external_body]
    fn vx_push(&mut self, x: T) ensures final(self).seq() == old(self).seq().push(x), final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    fn vx_has(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()), self.pos() >= 0, self.seq().len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    fn vx_take(&mut self) -> (r: T) requires 0 <= old(self).pos() < old(self).seq().len()
        ensures final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1, r == old(self).seq()[old(self).pos()] { unimplemented!() }
    #[verifier::external_body]
    fn vx_index(&self) -> (r: usize) ensures r == self.pos() { unimplemented!() }
    fn next(&mut self) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(), 0 <= old(self).pos(),
            old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).seq().len() ==> r.is_none() && final(self).pos() == old(self).pos()
    { if self.vx_has() { Some(self.vx_take()) } else { None } }
    fn vx_rev(self) -> (r: Self) requires self.pos() == 0 ensures r.seq() == self.seq().reverse(), r.pos() == 0 {
        let ghost s = self.seq();
        let mut it = self;
        let mut v = Vec::new();
        while it.vx_has() invariant it.seq() == s, v@ == s.take(it.pos()), 0 <= it.pos() <= s.len() decreases s.len() - it.pos() {
            v.push(it.vx_take());
            assert(s.take(it.pos()) =~= s.take(it.pos() - 1).push(s[it.pos() - 1]));
        }
        assert(s.take(it.pos()) =~= s);
        let mut r = Self::vx_empty();
        while v.len() > 0 invariant r.pos() == 0, v@.len() <= s.len(), v@ == s.take(v@.len() as int), r.seq() == s.skip(v@.len() as int).reverse() decreases v@.len() {
            let ghost n = v@.len();
            match v.pop() { Some(x) => r.vx_push(x), None => vx_unreachable() }
            assert(v@ =~= s.take(n - 1));
            assert(r.seq() =~= s.skip(n - 1).reverse());
        }
        assert(r.seq() =~= s.reverse());
        r
    }
    fn vx_skip(self, n: usize) -> (r: Self) requires self.pos() == 0
        ensures r.seq() == self.seq().skip(if n <= self.seq().len() { n as int } else { self.seq().len() as int }), r.pos() == 0
    {
        let ghost s = self.seq();
        let ghost m = if n <= s.len() { n as int } else { s.len() as int };
        let mut it = self;
        let mut k = 0;
        while k < n && it.vx_has() invariant it.seq() == s, it.pos() == k, k <= m, m == (if n <= s.len() { n as int } else { s.len() as int }) decreases n - k {
            it.vx_take();
            k += 1;
        }
        let mut r = Self::vx_empty();
        while it.vx_has() invariant it.seq() == s, r.pos() == 0, 0 <= m <= it.pos() <= s.len(), r.seq() == s.subrange(m, it.pos()) decreases s.len() - it.pos() {
            r.vx_push(it.vx_take());
            assert(r.seq() =~= s.subrange(m, it.pos()));
        }
        assert(r.seq() =~= s.skip(m));
        r
    }
    fn vx_take_n(self, n: usize) -> (r: Self) requires self.pos() == 0
        ensures r.seq() == self.seq().take(if n <= self.seq().len() { n as int } else { self.seq().len() as int }), r.pos() == 0
    {
        let ghost s = self.seq();
        let mut it = self;
        let mut r = Self::vx_empty();
        let mut k = 0;
        while k < n && it.vx_has() invariant it.seq() == s, it.pos() == k, k <= n, k <= s.len(), r.pos() == 0, r.seq() == s.take(k as int) decreases n - k {
            r.vx_push(it.vx_take());
            k += 1;
            assert(r.seq() =~= s.take(k as int));
        }
        r
    }
    fn vx_chain(self, other: Self) -> (r: Self) requires self.pos() == 0, other.pos() == 0
        ensures r.seq() == self.seq() + other.seq(), r.pos() == 0
    {
        let ghost s = self.seq();
        let ghost t = other.seq();
        let mut r = self;
        let mut it = other;
        while it.vx_has() invariant it.seq() == t, 0 <= it.pos() <= t.len(), r.pos() == 0, r.seq() == s + t.take(it.pos()) decreases t.len() - it.pos() {
            r.vx_push(it.vx_take());
            assert(r.seq() =~= s + t.take(it.pos()));
        }
        assert(t.take(it.pos()) =~= t);
        r
    }
    fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}

broadcast axiom fn vx_it_bounds<T>(it: VxIt<T>)
    ensures 0 <= #[trigger] it.pos() <= it.seq().len(), it.seq().len() <= usize::MAX;
broadcast use vx_it_bounds;

trait VxVec<T>: Sized {
    spec fn vx_view(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r.pos() == 0, r.seq().len() == self.vx_view().len(),
        forall|i: int| 0 <= i < self.vx_view().len() ==> *#[trigger] r.seq()[i] == self.vx_view()[i];
    fn vx_into_iter(self) -> (r: VxIt<T>) ensures r.pos() == 0, r.seq() == self.vx_view();
    fn vx_extend_one(&mut self, x: T) ensures final(self).vx_view() == old(self).vx_view().push(x);
}
impl<T> VxVec<T> for Vec<T> {
    spec fn vx_view(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: VxIt<&T>) {
        let mut r: VxIt<&T> = VxIt::vx_empty();
        let mut i = 0;
        while i < self.len() invariant i <= self@.len(), r.pos() == 0, r.seq().len() == i, forall|k: int| 0 <= k < i ==> *#[trigger] r.seq()[k] == self@[k] decreases self@.len() - i {
            r.vx_push(&self[i]);
            i += 1;
        }
        r
    }
    fn vx_into_iter(self) -> (r: VxIt<T>) {
        let ghost s = self@;
        let mut v = self;
        let mut r = VxIt::vx_empty();
        while v.len() > 0 invariant r.pos() == 0, v@.len() <= s.len(), v@ == s.take(v@.len() as int), r.seq() == s.skip(v@.len() as int).reverse() decreases v@.len() {
            let ghost n = v@.len();
            match v.pop() { Some(x) => r.vx_push(x), None => vx_unreachable() }
            assert(v@ =~= s.take(n - 1));
            assert(r.seq() =~= s.skip(n - 1).reverse());
        }
        assert(r.seq().reverse() =~= s);
        r.vx_rev()
    }
    fn vx_extend_one(&mut self, x: T) { self.push(x); }
}

// A panic is an obligation, except in functions extracted with `panic=ret`,
// which may end that way.
fn vx_unreachable<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
fn vx_assert(c: bool) requires c {}
#[verifier::external_body]
fn vx_unreachable_or_panic<T>() -> (r: T) ensures false opens_invariants none { unimplemented!() }
fn vx_assert_or_panic(c: bool) ensures c { if !c { vx_unreachable_or_panic::<()>(); } }
trait VxOption<T> {
    spec fn vx_get(self) -> Option<T>;
    fn vx_expect(self) -> (r: T) requires self.vx_get().is_some() ensures self.vx_get() == Some(r);
    fn vx_expect_or_panic(self) -> (r: T) ensures self.vx_get() == Some(r);
}
impl<T> VxOption<T> for Option<T> {
    spec fn vx_get(self) -> Option<T> { self }
    fn vx_expect(self) -> (r: T) { match self { Some(x) => x, None => vx_unreachable() } }
    fn vx_expect_or_panic(self) -> (r: T) { match self { Some(x) => x, None => vx_unreachable_or_panic() } }
}
impl<T, E> VxOption<T> for Result<T, E> {
    spec fn vx_get(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vx_expect(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_unreachable() } }
    fn vx_expect_or_panic(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_unreachable_or_panic() } }
}
/// The body of a function of which only the contract is used.
#[verifier::external_body]
fn vx_unchecked<T>() -> T { unimplemented!() }
fn vx_at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T) requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { &mut v[i] }
pub assume_specification<T>[ std::mem::drop::<T> ](x: T);
fn vx_mem_drop<T>(x: T) {}
fn vx_hint_black_box<T>(x: T) -> (r: T) ensures r == x { x }
