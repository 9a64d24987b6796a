// Items and sets of items.
//@ include gram.vx
//@ include ptr.vx
//@ include eqs.vx
//@ include sums.vx
//@ rewrite-all ItemSet::from =>> ItemSet::vx_from
//@ file pango-parser/src/cfsm/item.rs
//@ item ItemBodies
//@ item ItemBody noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ item ItemSet noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ library
impl<V: VxVar, T: VxAtom> VxKey for ItemBody<V, T> {
    type K = (Seq<Symbol<V, T>>, int);
    spec fn key(&self) -> (Seq<Symbol<V, T>>, int) { (self.body.at()@, self.cursor as int) }
}
//@ prelude
/// The first position from `i` on that does not hold the empty string.
spec fn skip_eps<V, T>(b: VBody<V, T>, i: int) -> int
    decreases b.len() - i
{
    if i >= b.len() { b.len() as int } else if i >= 0 && b[i] is Epsilon { skip_eps(b, i + 1) } else { i }
}
proof fn skip_eps_range<V, T>(b: VBody<V, T>, i: int)
    requires 0 <= i <= b.len()
    ensures i <= skip_eps(b, i) <= b.len(), skip_eps(b, i) < b.len() ==> !(b[skip_eps(b, i)] is Epsilon),
        forall|j: int| i <= j < skip_eps(b, i) ==> #[trigger] b[j] is Epsilon,
    decreases b.len() - i
{ if i < b.len() && b[i] is Epsilon { skip_eps_range(b, i + 1); } }
/// The empty strings from `i` to `j` are passed over.
proof fn skip_eps_over<V, T>(b: VBody<V, T>, i: int, j: int)
    requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> #[trigger] b[k] is Epsilon,
    ensures skip_eps(b, i) == skip_eps(b, j),
    decreases j - i
{ if i < j { assert(b[i] is Epsilon); skip_eps_over(b, i + 1, j); } }

/// A rule and how much of it has been read.
struct VItem<V, T> { head: V, body: VBody<V, T>, dot: int }
type VItems<V, T> = ISet<VItem<V, T>>;
spec fn reads<V, T>(i: VItem<V, T>) -> Option<Symbol<V, T>> {
    if 0 <= i.dot < i.body.len() { Some(i.body[i.dot]) } else { None }
}
spec fn fresh<V, T>(v: V, b: VBody<V, T>) -> VItem<V, T> { VItem { head: v, body: b, dot: skip_eps(b, 0) } }
spec fn read<V, T>(i: VItem<V, T>) -> VItem<V, T> { VItem { head: i.head, body: i.body, dot: skip_eps(i.body, i.dot + 1) } }
spec fn has_item<V: VxVar, T: VxAtom>(m: VxMap<V, ItemBodies<V, T>>, i: VItem<V, T>) -> bool {
    m.map().dom().contains(i.head) && m.map()[i.head].set().contains((i.body, i.dot))
}
spec fn items_of<V: VxVar, T: VxAtom>(m: VxMap<V, ItemBodies<V, T>>) -> VItems<V, T> { ISet::new(|i: VItem<V, T>| has_item(m, i)) }
/// There is no variable without an item.
spec fn full<V: VxVar, T: VxAtom>(m: VxMap<V, ItemBodies<V, T>>) -> bool {
    forall|v: V| #[trigger] m.map().dom().contains(v) ==> exists|b: VBody<V, T>, d: int| #[trigger] has_item(m, VItem { head: v, body: b, dot: d })
}
spec fn tidy<V: VxVar, T: VxAtom>(m: VxMap<V, ItemBodies<V, T>>) -> bool { full(m) || forall|i: VItem<V, T>| !#[trigger] has_item(m, i) }
/// An item of the grammar that does not stand at the empty string.
spec fn proper<V: VxVar, T: VxAtom>(g: Grammar<V, T>, i: VItem<V, T>) -> bool {
    &&& rule(g.rules, i.head, i.body)
    &&& 0 <= i.dot <= i.body.len()
    &&& i.dot < i.body.len() ==> !(i.body[i.dot] is Epsilon)
}
spec fn all_proper<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>) -> bool { forall|i: VItem<V, T>| #[trigger] k.contains(i) ==> proper(g, i) }
/// `i` starts a rule of a variable that an item of `k` reads next.
spec fn calls<V: VxVar, T: VxAtom>(k: VItems<V, T>, v: V) -> bool {
    exists|j: VItem<V, T>| #[trigger] k.contains(j) && reads(j) == Some(Symbol::<V, T>::Variable(v))
}
spec fn clo<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, n: nat) -> VItems<V, T>
    decreases n
{
    if n == 0 { k } else {
        ISet::new(|i: VItem<V, T>| clo(g, k, (n - 1) as nat).contains(i)
            || rule(g.rules, i.head, i.body) && i == fresh(i.head, i.body) && calls(clo(g, k, (n - 1) as nat), i.head))
    }
}
/// The closure of a set of items.
spec fn closure<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>) -> VItems<V, T> {
    ISet::new(|i: VItem<V, T>| exists|n: nat| #[trigger] clo(g, k, n).contains(i))
}
/// A set with everything the closure adds.
spec fn closed_under<V: VxVar, T: VxAtom>(g: Grammar<V, T>, s: VItems<V, T>) -> bool {
    forall|v: V, b: VBody<V, T>| calls(s, v) && #[trigger] rule(g.rules, v, b) ==> s.contains(fresh(v, b))
}
proof fn closure_least<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, s: VItems<V, T>)
    requires closed_under(g, s), k.subset_of(s), s.subset_of(closure(g, k))
    ensures s == closure(g, k)
{
    assert forall|i: VItem<V, T>| closure(g, k).contains(i) implies #[trigger] s.contains(i) by {
        let n = choose|n: nat| #[trigger] clo(g, k, n).contains(i);
        clo_inside(g, k, s, n);
    }
    assert(s =~= closure(g, k));
}
proof fn clo_inside<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, s: VItems<V, T>, n: nat)
    requires closed_under(g, s), k.subset_of(s)
    ensures clo(g, k, n).subset_of(s)
    decreases n
{
    if n > 0 {
        clo_inside(g, k, s, (n - 1) as nat);
        let p = clo(g, k, (n - 1) as nat);
        assert forall|i: VItem<V, T>| clo(g, k, n).contains(i) implies #[trigger] s.contains(i) by {
            if !p.contains(i) {
                let j = choose|j: VItem<V, T>| #[trigger] p.contains(j) && reads(j) == Some(Symbol::<V, T>::Variable(i.head));
                assert(s.contains(j));
            }
        }
    }
}
proof fn clo_grows<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, v: V, b: VBody<V, T>)
    requires calls(closure(g, k), v), rule(g.rules, v, b)
    ensures closure(g, k).contains(fresh(v, b))
{
    let j = choose|j: VItem<V, T>| #[trigger] closure(g, k).contains(j) && reads(j) == Some(Symbol::<V, T>::Variable(v));
    let n = choose|n: nat| #[trigger] clo(g, k, n).contains(j);
    assert(clo(g, k, n + 1).contains(fresh(v, b)));
}
proof fn clo_start<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>)
    ensures k.subset_of(closure(g, k))
{
    assert forall|i: VItem<V, T>| k.contains(i) implies #[trigger] closure(g, k).contains(i) by { assert(clo(g, k, 0).contains(i)); }
}
proof fn fresh_proper<V: VxVar, T: VxAtom>(g: Grammar<V, T>, v: V, b: VBody<V, T>)
    requires rule(g.rules, v, b)
    ensures proper(g, fresh(v, b))
{ skip_eps_range(b, 0); }

impl<V: VxVar, T: VxAtom> Copy for ItemBody<V, T> {}
//@ impl<V: VxVar, T: VxAtom> Clone for ItemBody<V, T>
//@ fn Clone for ItemBody::clone
ensures r == *self,
//@ end
//@ prelude
/// What is hashed depends on the key only: any of its parts in any order.
spec fn item_hashed<V: VxVar, T: VxAtom>(k: (Seq<Symbol<V, T>>, int), s: Seq<int>, t: Seq<int>) -> bool {
    let b = <Vec<Symbol<V, T>> as VxHash>::vx_hashed(k.0);
    let c = <usize as VxHash>::vx_hashed(k.1 as usize);
    t =~= s || t =~= s + b || t =~= s + c || t =~= s + b + c || t =~= s + c + b
}
//@ impl<V: VxVar, T: VxAtom> ItemBody<V, T>
//@ fn Hash for ItemBody::hash as=item_hash
//@ sig fn item_hash(&self, state: &mut VxHasher)
ensures item_hashed(self.key(), old(state).fed(), final(state).fed()),
//@ end
//@ impl<V: VxVar, T: VxAtom> ItemBody<V, T>
//@ fn ItemBody::get_body
ensures *r == self.body.at(),
//@ fn ItemBody::get_cursor_symbol
ensures self.cursor < self.body.at()@.len() ==> r == Some(&self.body.at()@[self.cursor as int]),
    self.cursor >= self.body.at()@.len() ==> r.is_none(),
//@ fn ItemBody::get_cursor_variable
requires self.cursor < self.body.at()@.len() ==> !(self.body.at()@[self.cursor as int] is Epsilon),
ensures match r {
    Some(v) => self.cursor < self.body.at()@.len() && self.body.at()@[self.cursor as int] == Symbol::<V, T>::Variable(*v),
    None => self.cursor < self.body.at()@.len() ==> !(self.body.at()@[self.cursor as int] is Variable),
},
//@ fn ItemBody::get_cursor_terminal
requires self.cursor < self.body.at()@.len() ==> !(self.body.at()@[self.cursor as int] is Epsilon),
ensures match r {
    Some(t) => self.cursor < self.body.at()@.len() && self.body.at()@[self.cursor as int] == Symbol::<V, T>::Terminal(*t),
    None => self.cursor < self.body.at()@.len() ==> !(self.body.at()@[self.cursor as int] is Terminal),
},
//@ fn ItemBody::advance
//@ attr #[verifier::loop_isolation(true)]
requires self.cursor < self.body.at()@.len(),
ensures r.body == self.body, r.cursor == skip_eps(self.body.at()@, self.cursor + 1),
//@ loop 0
invariant_except_break vx_r1 == vx_it0.pos(),
invariant vx_self == self, vx_s0.len() == self.body.at()@.len() - self.cursor - 1, vx_r1 <= vx_s0.len(),
    forall|k: int| 0 <= k < vx_s0.len() ==> *#[trigger] vx_s0[k] == self.body.at()@[self.cursor + 1 + k],
    forall|k: int| self.cursor < k < self.cursor + 1 + vx_r1 ==> #[trigger] self.body.at()@[k] is Epsilon,
ensures vx_r1 < vx_s0.len() ==> !(self.body.at()@[self.cursor + 1 + vx_r1] is Epsilon),
//@ at loop 0 end
proof { assert(*vx_s0[vx_r1 - 1] == self.body.at()@[(self.cursor + vx_r1) as int]); }
//@ at end
proof { skip_eps_over(self.body.at()@, self.cursor + 1, vx_self.cursor as int); }
//@ fn From<&Body<V, T>> for ItemBody::from
//@ attr #[verifier::loop_isolation(true)]
ensures r.body.at() == *body, r.cursor == skip_eps(body@, 0),
//@ loop 0
invariant_except_break vx_r1 == vx_it0.pos(),
invariant vx_s0.len() == body@.len(), vx_r1 <= vx_s0.len(),
    forall|k: int| 0 <= k < vx_s0.len() ==> *#[trigger] vx_s0[k] == body@[k],
    forall|k: int| 0 <= k < vx_r1 ==> #[trigger] body@[k] is Epsilon,
ensures vx_r1 < vx_s0.len() ==> !(body@[vx_r1 as int] is Epsilon),
//@ at loop 0 end
proof { assert(*vx_s0[vx_r1 - 1] == body@[vx_r1 - 1]); }
//@ at end
proof { skip_eps_over(body@, 0, cursor as int); }
//@ end
//@ prelude
spec fn item_at<V: VxVar, T: VxAtom>(s: Seq<(V, ItemBody<V, T>)>, k: int) -> VItem<V, T> {
    VItem { head: s[k].0, body: s[k].1.body.at()@, dot: s[k].1.cursor as int }
}
spec fn listed<V: VxVar, T: VxAtom>(s: Seq<(V, ItemBody<V, T>)>, i: VItem<V, T>) -> bool {
    exists|k: int| 0 <= k < s.len() && #[trigger] item_at(s, k) == i
}
/// The items of one of the groups `iter_by_cursor_symbol` makes.
spec fn has_ref<'a, V: VxVar, T: VxAtom>(m: VxMap<V, VxSet<&'a ItemBody<V, T>>>, i: VItem<V, T>) -> bool {
    m.map().dom().contains(i.head) && m.map()[i.head].set().contains((i.body, i.dot))
}
spec fn full_ref<'a, V: VxVar, T: VxAtom>(m: VxMap<V, VxSet<&'a ItemBody<V, T>>>) -> bool {
    forall|v: V| #[trigger] m.map().dom().contains(v) ==> exists|b: VBody<V, T>, d: int| #[trigger] has_ref(m, VItem { head: v, body: b, dot: d })
}
/// One of the first `n` variables has the item.
spec fn among<'a, V: VxVar, T: VxAtom>(s: Seq<(&'a V, &'a ItemBodies<V, T>)>, n: int, i: VItem<V, T>) -> bool {
    exists|k: int| 0 <= k < n && *(#[trigger] s[k]).0 == i.head && s[k].1.set().contains((i.body, i.dot))
}
/// One of the first `n` bodies is the one of the item.
spec fn among_bodies<'a, V: VxVar, T: VxAtom>(s: Seq<&'a ItemBody<V, T>>, n: int, i: VItem<V, T>) -> bool {
    exists|k: int| 0 <= k < n && (*#[trigger] s[k]).key() == (i.body, i.dot)
}
proof fn among_all<'a, V: VxVar, T: VxAtom>(m: VxMap<V, ItemBodies<V, T>>, s: Seq<(&'a V, &'a ItemBodies<V, T>)>)
    requires vx_lists_map(s, m.map())
    ensures forall|i: VItem<V, T>| #[trigger] among(s, s.len() as int, i) <==> has_item(m, i)
{
    assert forall|i: VItem<V, T>| #[trigger] among(s, s.len() as int, i) <==> has_item(m, i) by {
        if has_item(m, i) {
            let k = choose|k: int| 0 <= k < s.len() && (*(#[trigger] s[k]).0).key() == i.head;
            assert(*s[k].0 == i.head);
        }
    }
}
spec fn grouped<'a, V: VxVar, T: VxAtom>(g: VxMap<&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>>, x: Symbol<V, T>, i: VItem<V, T>) -> bool {
    g.map().dom().contains(x) && has_ref(g.map()[x], i)
}
spec fn groups_ok<'a, V: VxVar, T: VxAtom>(g: VxMap<&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>>) -> bool {
    &&& forall|x: Symbol<V, T>| #[trigger] g.map().dom().contains(x) ==> full_ref(g.map()[x]) && exists|i: VItem<V, T>| #[trigger] grouped(g, x, i)
}
proof fn among_step<'a, V: VxVar, T: VxAtom>(s: Seq<(&'a V, &'a ItemBodies<V, T>)>, n: int)
    requires 0 <= n < s.len()
    ensures forall|i: VItem<V, T>| #[trigger] among(s, n + 1, i) <==> among(s, n, i) || *s[n].0 == i.head && s[n].1.set().contains((i.body, i.dot))
{
    assert forall|i: VItem<V, T>| #[trigger] among(s, n + 1, i) <==> among(s, n, i) || *s[n].0 == i.head && s[n].1.set().contains((i.body, i.dot)) by {
        if among(s, n, i) {
            let k = choose|k: int| 0 <= k < n && *(#[trigger] s[k]).0 == i.head && s[k].1.set().contains((i.body, i.dot));
            assert(0 <= k < n + 1 && *s[k].0 == i.head);
        }
        if *s[n].0 == i.head && s[n].1.set().contains((i.body, i.dot)) { assert(0 <= n < n + 1 && *s[n].0 == i.head); }
    }
}
proof fn among_bodies_step<'a, V: VxVar, T: VxAtom>(s: Seq<&'a ItemBody<V, T>>, n: int)
    requires 0 <= n < s.len()
    ensures forall|i: VItem<V, T>| #[trigger] among_bodies(s, n + 1, i) <==> among_bodies(s, n, i) || (*s[n]).key() == (i.body, i.dot)
{
    assert forall|i: VItem<V, T>| #[trigger] among_bodies(s, n + 1, i) <==> among_bodies(s, n, i) || (*s[n]).key() == (i.body, i.dot) by {
        if among_bodies(s, n, i) {
            let k = choose|k: int| 0 <= k < n && (*#[trigger] s[k]).key() == (i.body, i.dot);
            assert(0 <= k < n + 1 && (*s[k]).key() == (i.body, i.dot));
        }
        if (*s[n]).key() == (i.body, i.dot) { assert(0 <= n < n + 1 && (*s[n]).key() == (i.body, i.dot)); }
    }
}
proof fn among_bodies_all<'a, V: VxVar, T: VxAtom>(s: Seq<&'a ItemBody<V, T>>, set: ItemBodies<V, T>)
    requires vx_lists_ref(s, set.set())
    ensures forall|i: VItem<V, T>| #[trigger] among_bodies(s, s.len() as int, i) <==> set.set().contains((i.body, i.dot))
{
    assert forall|i: VItem<V, T>| #[trigger] among_bodies(s, s.len() as int, i) <==> set.set().contains((i.body, i.dot)) by {
        if set.set().contains((i.body, i.dot)) {
            let k = choose|k: int| 0 <= k < s.len() && (*#[trigger] s[k]).key() == (i.body, i.dot);
            assert((*s[k]).key() == (i.body, i.dot));
        }
    }
}
proof fn group_insert<'a, V: VxVar, T: VxAtom>(g0: VxMap<&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>>, g1: VxMap<&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>>, x: Symbol<V, T>, i0: VItem<V, T>)
    requires groups_ok(g0),
        g1.map() == g0.map().insert(x, g1.map()[x]),
        g1.map()[x].map() == (if g0.map().dom().contains(x) { g0.map()[x].map() } else { Map::empty() }).insert(i0.head, g1.map()[x].map()[i0.head]),
        g1.map()[x].map()[i0.head].set() == (if g0.map().dom().contains(x) && g0.map()[x].map().dom().contains(i0.head) { g0.map()[x].map()[i0.head].set() } else { Set::empty() }).insert((i0.body, i0.dot)),
    ensures groups_ok(g1),
        forall|y: Symbol<V, T>, i: VItem<V, T>| #[trigger] grouped(g1, y, i) <==> grouped(g0, y, i) || y == x && i == i0,
{
    assert forall|y: Symbol<V, T>, i: VItem<V, T>| #[trigger] grouped(g1, y, i) <==> grouped(g0, y, i) || y == x && i == i0 by {
        if y == x && i.head == i0.head && i.body == i0.body && i.dot == i0.dot { assert(i == i0); }
    }
    assert forall|y: Symbol<V, T>| #[trigger] g1.map().dom().contains(y) implies full_ref(g1.map()[y]) && exists|i: VItem<V, T>| #[trigger] grouped(g1, y, i) by {
        if y == x { assert(grouped(g1, y, i0)); } else {
            assert(g0.map().dom().contains(y));
            let i = choose|i: VItem<V, T>| #[trigger] grouped(g0, y, i);
            assert(grouped(g1, y, i));
        }
        let m = g1.map()[y];
        assert forall|v: V| #[trigger] m.map().dom().contains(v) implies exists|b: VBody<V, T>, d: int| #[trigger] has_ref(m, VItem { head: v, body: b, dot: d }) by {
            if y == x && v == i0.head {
                assert(has_ref(m, VItem { head: v, body: i0.body, dot: i0.dot }));
            } else {
                let m0 = g0.map()[y];
                assert(m0.map().dom().contains(v));
                let (b, d) = choose|b: VBody<V, T>, d: int| #[trigger] has_ref(m0, VItem { head: v, body: b, dot: d });
                assert(has_ref(m, VItem { head: v, body: b, dot: d }));
            }
        }
    }
}
spec fn settled<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, i: VItem<V, T>) -> bool {
    match reads(i) {
        Some(Symbol::Variable(w)) => forall|b: VBody<V, T>| #[trigger] rule(g.rules, w, b) ==> k.contains(fresh(w, b)),
        _ => true,
    }
}
spec fn waits<V: VxVar, T: VxAtom>(p: Seq<ItemBody<V, T>>, i: VItem<V, T>) -> bool {
    exists|k: int| 0 <= k < p.len() && (#[trigger] p[k]).key() == (i.body, i.dot)
}
spec fn at_value<'a, V: VxVar, T: VxAtom>(s: Seq<&'a ItemBodies<V, T>>, j: int, i: VItem<V, T>) -> bool { s[j].set().contains((i.body, i.dot)) }
spec fn at_key<V: VxVar, T: VxAtom>(k: (VBody<V, T>, int), i: VItem<V, T>) -> bool { k == (i.body, i.dot) }
spec fn fresh_items<'a, V: VxVar, T: VxAtom>(o: Seq<ItemBody<V, T>>, s: Seq<&'a Body<V, T>>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> (#[trigger] o[k]).body.at() == *s[k] && o[k].cursor == skip_eps(s[k]@, 0)
}
/// The bodies of `c`, each with the position where reading starts.
spec fn starts<V: VxVar, T: VxAtom>(o: Seq<ItemBody<V, T>>, c: Set<VBody<V, T>>) -> bool {
    &&& forall|k: int| 0 <= k < o.len() ==> c.contains((#[trigger] o[k]).body.at()@) && o[k].cursor == skip_eps(o[k].body.at()@, 0)
    &&& forall|b: VBody<V, T>| #[trigger] c.contains(b) ==> exists|k: int| 0 <= k < o.len() && (#[trigger] o[k]).body.at()@ == b
}
spec fn owned<V: VxVar, T: VxAtom>(m: VxMap<V, ItemBodies<V, T>>, x: ItemBody<V, T>) -> bool {
    exists|v: V| #[trigger] has_item(m, VItem { head: v, body: x.body.at()@, dot: x.cursor as int })
}
proof fn item_insert<V: VxVar, T: VxAtom>(m0: VxMap<V, ItemBodies<V, T>>, m1: VxMap<V, ItemBodies<V, T>>, i0: VItem<V, T>)
    requires full(m0),
        m1.map() == m0.map().insert(i0.head, m1.map()[i0.head]),
        m1.map()[i0.head].set() == (if m0.map().dom().contains(i0.head) { m0.map()[i0.head].set() } else { Set::empty() }).insert((i0.body, i0.dot)),
    ensures full(m1), forall|i: VItem<V, T>| #[trigger] has_item(m1, i) <==> has_item(m0, i) || i == i0,
{
    assert forall|i: VItem<V, T>| #[trigger] has_item(m1, i) <==> has_item(m0, i) || i == i0 by {
        if i.head == i0.head && i.body == i0.body && i.dot == i0.dot { assert(i == i0); }
    }
    assert forall|v: V| #[trigger] m1.map().dom().contains(v) implies exists|b: VBody<V, T>, d: int| #[trigger] has_item(m1, VItem { head: v, body: b, dot: d }) by {
        if v == i0.head {
            assert(has_item(m1, VItem { head: v, body: i0.body, dot: i0.dot }));
        } else {
            assert(m0.map().dom().contains(v));
            let (b, d) = choose|b: VBody<V, T>, d: int| #[trigger] has_item(m0, VItem { head: v, body: b, dot: d });
            assert(has_item(m1, VItem { head: v, body: b, dot: d }));
        }
    }
}
#[verifier::opaque]
spec fn unsettled<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: VxMap<V, ItemBodies<V, T>>, p: Seq<ItemBody<V, T>>, i: VItem<V, T>) -> bool {
    has_item(m, i) && !waits(p, i) && !settled(g, items_of(m), i)
}
/// The rules whose start has not been added.
spec fn not_begun<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: VxMap<V, ItemBodies<V, T>>, v: V) -> Set<VBody<V, T>> {
    g.rules.map()[v].set().filter(|b: VBody<V, T>| !has_item(m, fresh(v, b)))
}
spec fn left_over<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: VxMap<V, ItemBodies<V, T>>) -> nat {
    sum_set(|v: V| not_begun(g, m, v).len(), g.rules.map().dom())
}
proof fn left_over_less<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m0: VxMap<V, ItemBodies<V, T>>, m1: VxMap<V, ItemBodies<V, T>>, v: V, b: VBody<V, T>)
    requires rule(g.rules, v, b), forall|i: VItem<V, T>| has_item(m0, i) ==> #[trigger] has_item(m1, i), has_item(m1, fresh(v, b)),
    ensures left_over(g, m1) <= left_over(g, m0), !has_item(m0, fresh(v, b)) ==> left_over(g, m1) < left_over(g, m0),
{
    let f0 = |v: V| not_begun(g, m0, v).len();
    let f1 = |v: V| not_begun(g, m1, v).len();
    assert forall|w: V| #[trigger] g.rules.map().dom().contains(w) implies f1(w) <= f0(w) by {
        assert(not_begun(g, m1, w).subset_of(not_begun(g, m0, w)));
        vstd::set_lib::lemma_len_subset(not_begun(g, m1, w), not_begun(g, m0, w));
    }
    if !has_item(m0, fresh(v, b)) {
        let (n0, n1) = (not_begun(g, m0, v), not_begun(g, m1, v));
        assert(n0.contains(b) && !n1.contains(b));
        assert(n1.subset_of(n0.remove(b)));
        vstd::set_lib::lemma_len_subset(n1, n0.remove(b));
    }
    sum_less(f0, f1, g.rules.map().dom(), v);
}
/// Adding the start of a rule of a variable that an item reads next.
proof fn closing_add<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k0: VItems<V, T>, m0: VxMap<V, ItemBodies<V, T>>, m1: VxMap<V, ItemBodies<V, T>>,
        p0: Seq<ItemBody<V, T>>, p1: Seq<ItemBody<V, T>>, x: ItemBody<V, T>, by: VItem<V, T>, v: V, b: VBody<V, T>, it: (VBody<V, T>, int))
    requires closing(g, k0, m0, p0), has_item(m0, by), reads(by) == Some(Symbol::<V, T>::Variable(v)), rule(g.rules, v, b),
        x.key() == (b, skip_eps(b, 0)),
        m1.map() == m0.map().insert(v, m1.map()[v]),
        m1.map()[v].set() == (if m0.map().dom().contains(v) { m0.map()[v].set() } else { Set::empty() }).insert((b, skip_eps(b, 0))),
        p1 == (if has_item(m0, fresh(v, b)) { p0 } else { p0.push(x) }),
        forall|i: VItem<V, T>| #[trigger] unsettled(g, m0, p0, i) ==> at_key(it, i),
    ensures closing(g, k0, m1, p1), has_item(m1, fresh(v, b)), forall|i: VItem<V, T>| has_item(m0, i) ==> #[trigger] has_item(m1, i),
        forall|i: VItem<V, T>| #[trigger] unsettled(g, m1, p1, i) ==> at_key(it, i),
{
    reveal(closing);
    reveal(unsettled);
    let i0 = fresh(v, b);
    item_insert(m0, m1, i0);
    let (s0, s1) = (items_of(m0), items_of(m1));
    assert(closure(g, k0).contains(by)) by { assert(s0.contains(by)); }
    clo_grows(g, k0, v, b);
    fresh_proper(g, v, b);
    assert forall|i: VItem<V, T>| #[trigger] s1.contains(i) implies closure(g, k0).contains(i) && proper(g, i) by {
        assert(has_item(m1, i));
        if i != i0 { assert(s0.contains(i)); }
    }
    assert forall|i: VItem<V, T>| #[trigger] k0.contains(i) implies s1.contains(i) by { assert(s0.contains(i)); assert(has_item(m1, i)); }
    assert forall|k: int| 0 <= k < p1.len() implies owned(m1, #[trigger] p1[k]) by {
        if k < p0.len() {
            assert(owned(m0, p0[k]));
            let w = choose|w: V| #[trigger] has_item(m0, VItem { head: w, body: p0[k].body.at()@, dot: p0[k].cursor as int });
            assert(has_item(m1, VItem { head: w, body: p0[k].body.at()@, dot: p0[k].cursor as int }));
        } else {
            assert(has_item(m1, VItem { head: v, body: x.body.at()@, dot: x.cursor as int }));
        }
    }
    assert forall|i: VItem<V, T>| #[trigger] unsettled(g, m1, p1, i) implies at_key(it, i) by {
        assert(has_item(m1, i));
        if i == i0 && !has_item(m0, i0) {
            assert(p1[p0.len() as int].key() == (i.body, i.dot));
            assert(waits(p1, i));
        } else {
            if waits(p0, i) {
                let k = choose|k: int| 0 <= k < p0.len() && (#[trigger] p0[k]).key() == (i.body, i.dot);
                assert(p1[k].key() == (i.body, i.dot));
                assert(waits(p1, i));
            }
            if settled(g, s0, i) {
                match reads(i) {
                    Some(Symbol::Variable(w)) => {
                        assert forall|c: VBody<V, T>| #[trigger] rule(g.rules, w, c) implies s1.contains(fresh(w, c)) by { assert(s0.contains(fresh(w, c))); assert(has_item(m1, fresh(w, c))); }
                    }
                    _ => {}
                }
                assert(settled(g, s1, i));
            }
            assert(unsettled(g, m0, p0, i));
        }
    }
}
proof fn closing_end<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k0: VItems<V, T>, m: VxMap<V, ItemBodies<V, T>>, p: Seq<ItemBody<V, T>>)
    requires closing(g, k0, m, p), p.len() == 0, forall|i: VItem<V, T>| !#[trigger] unsettled(g, m, p, i),
    ensures items_of(m) == closure(g, k0), tidy(m), all_proper(g, items_of(m)),
{
    reveal(closing);
    reveal(unsettled);
    let s = items_of(m);
    assert forall|v: V, b: VBody<V, T>| calls(s, v) && #[trigger] rule(g.rules, v, b) implies s.contains(fresh(v, b)) by {
        let j = choose|j: VItem<V, T>| #[trigger] s.contains(j) && reads(j) == Some(Symbol::<V, T>::Variable(v));
        assert(has_item(m, j));
        assert(!unsettled(g, m, p, j));
        assert(!waits(p, j));
        assert(settled(g, s, j));
        assert(match reads(j) { Some(Symbol::Variable(w)) => w == v, _ => false });
    }
    closure_least(g, k0, s);
}
/// The next thing that waits is taken up.
proof fn closing_take<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k0: VItems<V, T>, m: VxMap<V, ItemBodies<V, T>>, pp: Seq<ItemBody<V, T>>, p: Seq<ItemBody<V, T>>, x: ItemBody<V, T>) -> (by: VItem<V, T>)
    requires closing(g, k0, m, pp), took(pp, p, x), forall|i: VItem<V, T>| !#[trigger] unsettled(g, m, pp, i),
    ensures closing(g, k0, m, p), has_item(m, by), x.key() == (by.body, by.dot), proper(g, by),
        forall|i: VItem<V, T>| #[trigger] unsettled(g, m, p, i) ==> at_key(x.key(), i),
{
    reveal(closing);
    reveal(unsettled);
    let d = took_by(pp, p, x);
    assert forall|k: int| 0 <= k < p.len() implies owned(m, #[trigger] p[k]) by { assert(owned(m, pp[k + d])); }
    assert forall|i: VItem<V, T>| #[trigger] unsettled(g, m, p, i) implies at_key(x.key(), i) by {
        assert(!unsettled(g, m, pp, i));
        let k = choose|k: int| 0 <= k < pp.len() && (#[trigger] pp[k]).key() == (i.body, i.dot);
        if 0 <= k - d < p.len() { assert(p[k - d].key() == (i.body, i.dot)); }
    }
    assert(owned(m, pp[took_at(pp, p, x)]));
    let v = choose|v: V| #[trigger] has_item(m, VItem { head: v, body: x.body.at()@, dot: x.cursor as int });
    let by = VItem { head: v, body: x.body.at()@, dot: x.cursor as int };
    assert(items_of(m).contains(by));
    by
}
/// All items with this body and position are settled.
proof fn closing_settle<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: VxMap<V, ItemBodies<V, T>>, p: Seq<ItemBody<V, T>>, by: VItem<V, T>)
    requires settled(g, items_of(m), by), forall|i: VItem<V, T>| #[trigger] unsettled(g, m, p, i) ==> at_key((by.body, by.dot), i),
    ensures forall|i: VItem<V, T>| !#[trigger] unsettled(g, m, p, i),
{
    reveal(closing);
    reveal(unsettled);
    assert forall|i: VItem<V, T>| !#[trigger] unsettled(g, m, p, i) by {
        if unsettled(g, m, p, i) { assert(at_key((by.body, by.dot), i)); assert(reads(i) == reads(by)); }
    }
}
proof fn closing_start<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: VxMap<V, ItemBodies<V, T>>, p: Seq<ItemBody<V, T>>)
    requires tidy(m), all_proper(g, items_of(m)), forall|k: int| 0 <= k < p.len() ==> owned(m, #[trigger] p[k]),
        forall|i: VItem<V, T>| #[trigger] has_item(m, i) ==> waits(p, i),
    ensures closing(g, items_of(m), m, p), forall|i: VItem<V, T>| !#[trigger] unsettled(g, m, p, i),
{
    reveal(closing);
    reveal(unsettled);
    clo_start(g, items_of(m));
}
/// What holds while the closure is being made.
#[verifier::opaque]
spec fn closing<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k0: VItems<V, T>, m: VxMap<V, ItemBodies<V, T>>, p: Seq<ItemBody<V, T>>) -> bool {
    &&& tidy(m)
    &&& k0.subset_of(items_of(m))
    &&& items_of(m).subset_of(closure(g, k0))
    &&& all_proper(g, items_of(m))
    &&& forall|k: int| 0 <= k < p.len() ==> owned(m, #[trigger] p[k])
}
spec fn some_ref<'a, V: VxVar, T: VxAtom>(m: VxMap<V, VxSet<&'a ItemBody<V, T>>>) -> bool { full_ref(m) && exists|i: VItem<V, T>| #[trigger] has_ref(m, i) }
spec fn has_group<'a, V: VxVar, T: VxAtom>(s: Seq<(&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>)>, x: Symbol<V, T>) -> bool {
    exists|k: int| 0 <= k < s.len() && *(#[trigger] s[k]).0 == x
}
/// Every group has the items that read its symbol.
spec fn groups<'a, V: VxVar, T: VxAtom>(s: Seq<(&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>)>, c: VItems<V, T>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> some_ref((#[trigger] s[k]).1)
    &&& forall|k: int, i: VItem<V, T>| 0 <= k < s.len() ==> (#[trigger] has_ref(s[k].1, i) <==> c.contains(i) && reads(i) == Some(*s[k].0))
    &&& forall|i: VItem<V, T>, x: Symbol<V, T>| #![trigger c.contains(i), has_group(s, x)] c.contains(i) && reads(i) == Some(x) ==> has_group(s, x)
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> *(#[trigger] s[k]).0 != *(#[trigger] s[l]).0
}
//@ impl<V: VxVar, T: VxAtom> ItemSet<V, T>
//@ fn ItemSet::iter_by_cursor_symbol
ensures r.pos() == 0, groups(r.seq(), items_of(self.items)),
//@ at start
let ghost mut gg: VxMap<&Symbol<V, T>, VxMap<V, VxSet<&ItemBody<V, T>>>> = arbitrary();
//@ loop 0
invariant groups_ok(vx_r1), vx_lists_map(vx_s0, self.items.map()),
    forall|x: Symbol<V, T>, i: VItem<V, T>| #[trigger] grouped(vx_r1, x, i) <==> reads(i) == Some(x) && among(vx_s0, vx_it0.pos(), i),
//@ at loop 0 start
proof { among_step(vx_s0, vx_it0.pos() - 1); }
//@ loop 1
invariant groups_ok(group_by_symbol),
    forall|x: Symbol<V, T>, i: VItem<V, T>| #[trigger] grouped(group_by_symbol, x, i) <==> reads(i) == Some(x)
        && (among(vx_s0, vx_it0.pos() - 1, i) || i.head == *head && among_bodies(vx_s1, vx_it1.pos(), i)),
//@ at loop 1 start
let ghost g0 = group_by_symbol;
proof { among_bodies_step(vx_s1, vx_it1.pos() - 1); }
//@ at call insert 0 after
proof { group_insert(g0, group_by_symbol, *symbol, VItem { head: *head, body: item_body.body.at()@, dot: item_body.cursor as int }); }
//@ at loop 1 after
proof { among_bodies_all(vx_s1, *item_bodies); }
//@ at loop 0 after
proof { among_all(self.items, vx_s0); gg = vx_r1; }
//@ at end
proof {
    let s = vx_tail.seq();
    let g = gg;
    assert forall|k: int, i: VItem<V, T>| 0 <= k < s.len() implies (#[trigger] has_ref(s[k].1, i) <==> has_item(self.items, i) && reads(i) == Some(*s[k].0)) by {
        assert(g.map().dom().contains(s[k].0.key()));
        assert(grouped(g, *s[k].0, i) <==> has_ref(s[k].1, i));
    }
    assert forall|k: int| 0 <= k < s.len() implies full_ref((#[trigger] s[k]).1) && exists|i: VItem<V, T>| #[trigger] has_ref(s[k].1, i) by {
        assert(g.map().dom().contains(s[k].0.key()));
        let i = choose|i: VItem<V, T>| #[trigger] grouped(g, *s[k].0, i);
        assert(has_ref(s[k].1, i));
    }
    assert forall|i: VItem<V, T>| #[trigger] has_item(self.items, i) && reads(i).is_some() implies exists|k: int| 0 <= k < s.len() && *(#[trigger] s[k]).0 == reads(i).unwrap() by {
        assert(grouped(g, reads(i).unwrap(), i));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.key() == reads(i).unwrap();
        assert(*s[k].0 == reads(i).unwrap());
    }
}
//@ fn ItemSet::iter
ensures r.pos() == 0,
    forall|k: int| 0 <= k < r.seq().len() ==> has_item(self.items, #[trigger] item_at(r.seq(), k)),
    forall|i: VItem<V, T>| #[trigger] has_item(self.items, i) ==> exists|k: int| 0 <= k < r.seq().len() && #[trigger] item_at(r.seq(), k) == i,
//@ loop 0
invariant vx_lists_map(vx_s0, self.items.map()), vx_out1.pos() == 0,
    forall|k: int| 0 <= k < vx_out1.seq().len() ==> among(vx_s0, vx_it0.pos(), #[trigger] item_at(vx_out1.seq(), k)),
    forall|i: VItem<V, T>| #[trigger] among(vx_s0, vx_it0.pos(), i) ==> exists|k: int| 0 <= k < vx_out1.seq().len() && #[trigger] item_at(vx_out1.seq(), k) == i,
//@ at loop 0 start
proof { among_step(vx_s0, vx_it0.pos() - 1); }
//@ loop 1
invariant vx_out1.pos() == 0, vx_lists_ref(vx_s1, bodies.set()),
    forall|k: int| 0 <= k < vx_out1.seq().len() ==> among(vx_s0, vx_it0.pos(), #[trigger] item_at(vx_out1.seq(), k)),
    forall|i: VItem<V, T>| among(vx_s0, vx_it0.pos() - 1, i) || i.head == *head && among_bodies(vx_s1, vx_it1.pos(), i) ==> #[trigger] listed(vx_out1.seq(), i),
//@ at loop 1 start
let ghost o0 = vx_out1.seq();
proof { among_bodies_step(vx_s1, vx_it1.pos() - 1); }
//@ at loop 1 end
proof {
    let o1 = vx_out1.seq();
    assert forall|k: int| 0 <= k < o1.len() implies among(vx_s0, vx_it0.pos(), #[trigger] item_at(o1, k)) by {
        if k < o0.len() { assert(item_at(o1, k) == item_at(o0, k)); } else {
            assert(bodies.set().contains((*vx_x1).key()));
        }
    }
    assert forall|i: VItem<V, T>| among(vx_s0, vx_it0.pos() - 1, i) || i.head == *head && among_bodies(vx_s1, vx_it1.pos(), i) implies #[trigger] listed(o1, i) by {
        if listed(o0, i) {
            let k = choose|k: int| 0 <= k < o0.len() && #[trigger] item_at(o0, k) == i;
            assert(item_at(o1, k) == i);
        } else {
            assert(item_at(o1, o0.len() as int) == i);
        }
    }
}
//@ at loop 1 after
proof { among_bodies_all(vx_s1, *bodies);
    assert forall|i: VItem<V, T>| #[trigger] among(vx_s0, vx_it0.pos(), i) implies exists|k: int| 0 <= k < vx_out1.seq().len() && #[trigger] item_at(vx_out1.seq(), k) == i by {
        assert(listed(vx_out1.seq(), i));
    }
}
//@ at loop 0 after
proof {
    among_all(self.items, vx_s0);
    assert forall|i: VItem<V, T>| #[trigger] has_item(self.items, i) implies listed(vx_out1.seq(), i) by { assert(among(vx_s0, vx_s0.len() as int, i)); }
}
//@ fn ItemSet::from_incomplete_map
requires whole(*grammar), all_proper(*grammar, items_of(items)), tidy(items),
ensures items_of(r.items) == closure(*grammar, items_of(items)), tidy(r.items), all_proper(*grammar, items_of(r.items)),
//@ at start
let ghost k0 = items_of(items);
let ghost g = *grammar;
//@ loop 0
invariant
    forall|k: int| 0 <= k < vx_col1.seq().len() ==> owned(items, #[trigger] vx_col1.seq()[k]),
    forall|j: int, i: VItem<V, T>| 0 <= j < vx_it0.pos() && #[trigger] at_value(vx_s0, j, i) ==> waits(vx_col1.seq(), i),
//@ loop 1
invariant vx_lists_ref(vx_s1, bodies.set()),
    forall|k: int| 0 <= k < vx_col1.seq().len() ==> owned(items, #[trigger] vx_col1.seq()[k]),
    forall|j: int, i: VItem<V, T>| 0 <= j < vx_it0.pos() - 1 && #[trigger] at_value(vx_s0, j, i) ==> waits(vx_col1.seq(), i),
    forall|i: VItem<V, T>| #[trigger] among_bodies(vx_s1, vx_it1.pos(), i) ==> waits(vx_col1.seq(), i),
//@ at loop 1 start
let ghost c0 = vx_col1.seq();
proof { among_bodies_step(vx_s1, vx_it1.pos() - 1); }
//@ at loop 1 end
proof {
    let c1 = vx_col1.seq();
    let v = choose|v: V| #[trigger] items.map().dom().contains(v) && items.map()[v] == *vx_s0[vx_it0.pos() - 1];
    assert(has_item(items, VItem { head: v, body: vx_x1.body.at()@, dot: vx_x1.cursor as int }));
    assert(owned(items, *vx_x1));
    assert forall|i: VItem<V, T>| waits(c0, i) || (*vx_x1).key() == (i.body, i.dot) implies #[trigger] waits(c1, i) by {
        if waits(c0, i) {
            let k = choose|k: int| 0 <= k < c0.len() && (#[trigger] c0[k]).key() == (i.body, i.dot);
            assert(c1[k].key() == (i.body, i.dot));
        } else { assert(c1[c0.len() as int].key() == (i.body, i.dot)); }
    }
}
//@ at loop 1 after
proof {
    among_bodies_all(vx_s1, *bodies);
    assert forall|j: int, i: VItem<V, T>| 0 <= j < vx_it0.pos() && #[trigger] at_value(vx_s0, j, i) implies waits(vx_col1.seq(), i) by {
        if j == vx_it0.pos() - 1 { assert(among_bodies(vx_s1, vx_s1.len() as int, i)); }
    }
}
//@ at loop 0 after
proof {
    assert forall|i: VItem<V, T>| #[trigger] has_item(items, i) implies waits(vx_col1.seq(), i) by {
        let j = choose|j: int| 0 <= j < vx_s0.len() && *#[trigger] vx_s0[j] == items.map()[i.head];
        assert(at_value(vx_s0, j, i));
    }
    closing_start(g, items, vx_col1.seq());
}
//@ loop 2
invariant closing(g, k0, items, pending_bodies.seq()), g == *grammar,
    forall|i: VItem<V, T>| !#[trigger] unsettled(g, items, pending_bodies.seq(), i),
ensures pending_bodies.seq().len() == 0,
decreases left_over(g, items), pending_bodies.seq().len(),
//@ at loop 2 top
let ghost pp = pending_bodies.seq();
let ghost l2 = left_over(g, items);
//@ at loop 2 start
let ghost by = closing_take(g, k0, items, pp, pending_bodies.seq(), item_body);
//@ at call continue 0 before
proof { closing_settle(g, items, pending_bodies.seq(), by); }
//@ loop 3
invariant fresh_items(vx_out1.seq(), vx_s3, vx_it3.pos()), vx_out1.pos() == 0, vx_out1.seq().len() == vx_it3.pos(), vx_lists_ref(vx_s3, bodies.set()),
//@ at loop 3 after
proof {
    assert forall|b: VBody<V, T>| #[trigger] bodies.set().contains(b) implies exists|k: int| 0 <= k < vx_out1.seq().len() && (#[trigger] vx_out1.seq()[k]).body.at()@ == b by {
        let k = choose|k: int| 0 <= k < vx_s3.len() && (#[trigger] vx_s3[k])@ == b;
        assert(vx_out1.seq()[k].body.at()@ == b);
    }
    assert(starts(vx_out1.seq(), bodies.set()));
}
//@ loop 4
invariant closing(g, k0, items, pending_bodies.seq()), g == *grammar, has_item(items, by), starts(vx_s4, g.rules.map()[head].set()), g.rules.map().dom().contains(head),
    forall|i: VItem<V, T>| #[trigger] unsettled(g, items, pending_bodies.seq(), i) ==> at_key((by.body, by.dot), i),
    left_over(g, items) < l2 || left_over(g, items) == l2 && pending_bodies.seq().len() < pp.len(),
    forall|k: int| 0 <= k < vx_it4.pos() ==> has_item(items, fresh(head, (#[trigger] vx_s4[k]).body.at()@)),
//@ at loop 4 start
let ghost (m0, p0) = (items, pending_bodies.seq());
//@ at loop 4 end
proof { closing_add(g, k0, m0, items, p0, pending_bodies.seq(), new_item_body, by, head, new_item_body.body.at()@, (by.body, by.dot));
    left_over_less(g, m0, items, head, new_item_body.body.at()@);
}
//@ at loop 2 end
proof {
    assert(settled(g, items_of(items), by));
    closing_settle(g, items, pending_bodies.seq(), by);
}
//@ at loop 2 after
proof { closing_end(g, k0, items, pending_bodies.seq()); }
//@ end
//@ library
trait VxFrom<X>: Sized {
    spec fn vx_from_pre(x: X) -> bool;
    spec fn vx_from_post(x: X, r: Self) -> bool;
    fn vx_from(x: X) -> (r: Self) requires Self::vx_from_pre(x) ensures Self::vx_from_post(x, r);
}
//@ prelude
spec fn starts_in<V: VxVar, T: VxAtom>(s: Set<(VBody<V, T>, int)>, c: Set<VBody<V, T>>) -> bool {
    forall|b: VBody<V, T>, d: int| #[trigger] s.contains((b, d)) ==> c.contains(b) && d == skip_eps(b, 0)
}
/// The rules of a variable before anything has been read.
spec fn kernel<V: VxVar, T: VxAtom>(v: V, c: Set<VBody<V, T>>) -> VItems<V, T> {
    ISet::new(|i: VItem<V, T>| i.head == v && c.contains(i.body) && i == fresh(v, i.body))
}
//@ impl<'a, V: VxVar, T: VxAtom> VxFrom<((V, &'a VxSet<Body<V, T>>), &'a Grammar<V, T>)> for ItemSet<V, T>
closed spec fn vx_from_pre(x: ((V, &'a VxSet<Body<V, T>>), &'a Grammar<V, T>)) -> bool {
    whole(*x.1) && x.1.rules.map().dom().contains(x.0.0) && *x.0.1 == x.1.rules.map()[x.0.0]
}
closed spec fn vx_from_post(x: ((V, &'a VxSet<Body<V, T>>), &'a Grammar<V, T>), r: Self) -> bool {
    items_of(r.items) == closure(*x.1, kernel(x.0.0, x.0.1.set())) && tidy(r.items) && all_proper(*x.1, items_of(r.items))
}
//@ fn From<((V,&HashSet<Body<V,T>>),&Grammar<V,T>)> for ItemSet::from as=vx_from
//@ collect 0 ItemBodies<V, T>
//@ loop 0
invariant vx_lists_ref(vx_s0, bodies.set()), starts_in(vx_col2.set(), bodies.set()),
    forall|k: int| 0 <= k < vx_it0.pos() ==> vx_col2.set().contains(((#[trigger] vx_s0[k])@, skip_eps(vx_s0[k]@, 0))),
//@ at loop 0 after
proof {
    assert forall|b: VBody<V, T>| #[trigger] bodies.set().contains(b) implies vx_col2.set().contains((b, skip_eps(b, 0))) by {
        let k = choose|k: int| 0 <= k < vx_s0.len() && (#[trigger] vx_s0[k])@ == b;
        assert(vx_col2.set().contains((vx_s0[k]@, skip_eps(vx_s0[k]@, 0))));
    }
}
//@ at call from_incomplete_map 0 before
proof {
    assert forall|i: VItem<V, T>| #[trigger] items_of(items).contains(i) <==> kernel(head, bodies.set()).contains(i) by {
        assert(has_item(items, i) ==> items.map()[head].set().contains((i.body, i.dot)));
    }
    assert(items_of(items) =~= kernel(head, bodies.set()));
    assert forall|i: VItem<V, T>| #[trigger] items_of(items).contains(i) implies proper(*grammar, i) by {
        assert(kernel(head, bodies.set()).contains(i));
        fresh_proper(*grammar, head, i.body);
    }
    if exists|i: VItem<V, T>| #[trigger] has_item(items, i) {
        let i = choose|i: VItem<V, T>| #[trigger] has_item(items, i);
        assert forall|v: V| #[trigger] items.map().dom().contains(v) implies exists|b: VBody<V, T>, d: int| #[trigger] has_item(items, VItem { head: v, body: b, dot: d }) by {
            assert(has_item(items, VItem { head: v, body: i.body, dot: i.dot }));
        }
    }
}
//@ end
//@ impl<'a, V: VxVar, T: VxAtom> VxFrom<(VxMap<V, ItemBodies<V, T>>, &'a Grammar<V, T>)> for ItemSet<V, T>
closed spec fn vx_from_pre(x: (VxMap<V, ItemBodies<V, T>>, &'a Grammar<V, T>)) -> bool {
    whole(*x.1) && all_proper(*x.1, items_of(x.0)) && tidy(x.0)
}
closed spec fn vx_from_post(x: (VxMap<V, ItemBodies<V, T>>, &'a Grammar<V, T>), r: Self) -> bool {
    items_of(r.items) == closure(*x.1, items_of(x.0)) && tidy(r.items) && all_proper(*x.1, items_of(r.items))
}
//@ fn From<(HashMap<V,ItemBodies<V,T>>,&Grammar<V,T>)> for ItemSet::from as=vx_from
//@ end
//@ prelude
impl<V: VxVar, T: VxAtom> PartialEqSpecImpl for Symbol<V, T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Symbol<V, T>) -> bool { *self == *o }
}
/// The derived equality.
impl<V: VxVar, T: VxAtom> PartialEq for Symbol<V, T> {
    #[verifier::external_body]
    fn eq(&self, o: &Symbol<V, T>) -> bool { unimplemented!() }
}
broadcast axiom fn vx_body_eq<V: VxVar, T: VxAtom>(a: Vec<Symbol<V, T>>, b: Vec<Symbol<V, T>>)
    ensures <Vec<Symbol<V, T>> as PartialEqSpec>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
impl<V: VxVar, T: VxAtom> PartialEqSpecImpl for ItemBody<V, T> {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &ItemBody<V, T>) -> bool { self.body.at()@ == o.body.at()@ && self.cursor == o.cursor }
}
impl<V: VxVar, T: VxAtom> PartialEqSpecImpl for ItemSet<V, T> {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &ItemSet<V, T>) -> bool {
        &&& self.items.map().dom() == o.items.map().dom()
        &&& forall|v: V| #[trigger] self.items.map().dom().contains(v) ==> self.items.map()[v].set() == o.items.map()[v].set()
    }
}
/// Equal sets have the same items.
proof fn same_items<V: VxVar, T: VxAtom>(a: ItemSet<V, T>, b: ItemSet<V, T>)
    requires full(a.items), tidy(b.items), exists|i: VItem<V, T>| #[trigger] has_item(a.items, i),
    ensures PartialEqSpec::eq_spec(&a, &b) == (items_of(a.items) == items_of(b.items)),
        PartialEqSpec::eq_spec(&b, &a) == (items_of(a.items) == items_of(b.items)),
{
    let (ma, mb) = (a.items, b.items);
    if PartialEqSpec::eq_spec(&a, &b) || PartialEqSpec::eq_spec(&b, &a) {
        assert forall|i: VItem<V, T>| #[trigger] items_of(ma).contains(i) <==> items_of(mb).contains(i) by {
            assert(ma.map().dom().contains(i.head) == mb.map().dom().contains(i.head));
            assert(has_item(ma, i) == has_item(mb, i));
        }
        assert(items_of(ma) =~= items_of(mb));
    }
    if items_of(ma) == items_of(mb) {
        assert forall|i: VItem<V, T>| #[trigger] has_item(ma, i) <==> has_item(mb, i) by { assert(items_of(ma).contains(i) == items_of(mb).contains(i)); }
        let i0 = choose|i: VItem<V, T>| #[trigger] has_item(ma, i);
        assert(has_item(mb, i0));
        assert(full(mb));
        assert forall|v: V| #[trigger] ma.map().dom().contains(v) <==> mb.map().dom().contains(v) by {
            if ma.map().dom().contains(v) {
                let (b, d) = choose|b: VBody<V, T>, d: int| #[trigger] has_item(ma, VItem { head: v, body: b, dot: d });
                assert(has_item(mb, VItem { head: v, body: b, dot: d }));
            }
            if mb.map().dom().contains(v) {
                let (b, d) = choose|b: VBody<V, T>, d: int| #[trigger] has_item(mb, VItem { head: v, body: b, dot: d });
                assert(has_item(ma, VItem { head: v, body: b, dot: d }));
            }
        }
        assert(ma.map().dom() =~= mb.map().dom());
        assert forall|v: V| #[trigger] ma.map().dom().contains(v) implies ma.map()[v].set() == mb.map()[v].set() by {
            assert forall|k: (VBody<V, T>, int)| #[trigger] ma.map()[v].set().contains(k) <==> mb.map()[v].set().contains(k) by {
                let i = VItem { head: v, body: k.0, dot: k.1 };
                assert(has_item(ma, i) == has_item(mb, i));
            }
            assert(ma.map()[v].set() =~= mb.map()[v].set());
        }
    }
}
//@ impl<V: VxVar, T: VxAtom> PartialEq for ItemBody<V, T>
//@ fn PartialEq for ItemBody::eq
//@ at start
broadcast use vx_body_eq;
//@ end
//@ impl<V: VxVar, T: VxAtom> PartialEq for ItemSet<V, T>
//@ fn PartialEq for ItemSet::eq
//@ end
