verus! {
//@@ giter indices_and_ids
//@@ struct fem_domain/domain/mesh/elem.rs ElemUninit
// ------------------------------------------------------------------ specification: h-refinement kinds
/// what two requests for the same cell amount to
pub open spec fn comb(a: HRef, b: HRef) -> HRef {
    match (a, b) {
        (HRef::U(None), HRef::U(_)) => b,
        (HRef::U(_), HRef::U(None)) => a,
        (HRef::U(Some(i)), HRef::U(Some(j))) => if i == j { a } else { HRef::T },
        (HRef::V(None), HRef::V(_)) => b,
        (HRef::V(_), HRef::V(None)) => a,
        (HRef::V(Some(i)), HRef::V(Some(j))) => if i == j { a } else { HRef::T },
        _ => HRef::T,
    }
}
/// requests for one cell, combined in the order of the batch
pub open spec fn comb_all(s: Seq<HRef>) -> HRef decreases s.len() {
    if s.len() <= 1 { s[0] } else { comb(comb_all(s.drop_last()), s.last()) }
}
pub open spec fn some_t(s: Seq<HRef>) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is T }
pub open spec fn some_u(s: Seq<HRef>) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is U }
pub open spec fn some_v(s: Seq<HRef>) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is V }
/// an extension of child i is requested
pub open spec fn some_ext(s: Seq<HRef>, i: usize) -> bool { exists|k: int| 0 <= k < s.len() && ((#[trigger] s[k]) == HRef::U(Some(i)) || s[k] == HRef::V(Some(i))) }
pub open spec fn two_ext(s: Seq<HRef>) -> bool { exists|i: usize, j: usize| i != j && #[trigger] some_ext(s, i) && #[trigger] some_ext(s, j) }
/// P04: the combined refinement, in terms of which requests occur (their order and number do not matter)
pub proof fn theorem_combination(s: Seq<HRef>)
    requires s.len() >= 1
    ensures
        comb_all(s) is T <==> some_t(s) || (some_u(s) && some_v(s)) || two_ext(s),
        comb_all(s) is U ==> !some_t(s) && !some_v(s),
        comb_all(s) is V ==> !some_t(s) && !some_u(s),
        forall|i: usize| comb_all(s) == HRef::U(Some(i)) || comb_all(s) == HRef::V(Some(i)) ==> #[trigger] some_ext(s, i),
        forall|i: usize| #[trigger] some_ext(s, i) ==> comb_all(s) is T || comb_all(s) == HRef::U(Some(i)) || comb_all(s) == HRef::V(Some(i)),
    decreases s.len()
{
    let n = s.len() as int;
    if n == 1 {
        assert(s[0] == comb_all(s));
        assert(comb_all(s) is T ==> some_t(s));
        match s[0] { HRef::U(Some(i)) => { assert(some_ext(s, i)); }, HRef::V(Some(i)) => { assert(some_ext(s, i)); }, _ => {} }
    } else {
        let d = s.drop_last();
        theorem_combination(d);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] s[k] == d[k] by {}
        let (x, y) = (comb_all(d), s[n - 1]);
        assert(comb_all(s) == comb(x, y));
        assert(some_t(s) <==> some_t(d) || y is T) by { if some_t(d) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]) is T; assert(s[k] is T); } if some_t(s) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is T; if k < n - 1 { assert(d[k] is T); } } }
        assert(some_u(s) <==> some_u(d) || y is U) by { if some_u(d) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]) is U; assert(s[k] is U); } if some_u(s) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is U; if k < n - 1 { assert(d[k] is U); } } }
        assert(some_v(s) <==> some_v(d) || y is V) by { if some_v(d) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]) is V; assert(s[k] is V); } if some_v(s) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is V; if k < n - 1 { assert(d[k] is V); } } }
        assert forall|i: usize| #[trigger] some_ext(s, i) <==> some_ext(d, i) || y == HRef::U(Some(i)) || y == HRef::V(Some(i)) by {
            if some_ext(d, i) { let k = choose|k: int| 0 <= k < d.len() && ((#[trigger] d[k]) == HRef::U(Some(i)) || d[k] == HRef::V(Some(i))); assert(s[k] == d[k]); }
            if some_ext(s, i) { let k = choose|k: int| 0 <= k < s.len() && ((#[trigger] s[k]) == HRef::U(Some(i)) || s[k] == HRef::V(Some(i))); if k < n - 1 { assert(d[k] == s[k]); } }
        }
        kinds(d);
        if two_ext(d) { let (i, j) = choose|i: usize, j: usize| i != j && #[trigger] some_ext(d, i) && #[trigger] some_ext(d, j); assert(some_ext(s, i) && some_ext(s, j)); }
        if two_ext(s) { let (i, j) = choose|i: usize, j: usize| i != j && #[trigger] some_ext(s, i) && #[trigger] some_ext(s, j);
            if some_ext(d, i) && some_ext(d, j) { assert(two_ext(d)); }
        }
        match (x, y) {
            (HRef::U(Some(i)), HRef::U(Some(j))) => { assert(some_ext(s, i) && some_ext(s, j)); if i != j { assert(two_ext(s)); } }
            (HRef::V(Some(i)), HRef::V(Some(j))) => { assert(some_ext(s, i) && some_ext(s, j)); if i != j { assert(two_ext(s)); } }
            _ => {}
        }
    }
}
/// some kind occurs
pub proof fn kinds(s: Seq<HRef>)
    requires s.len() >= 1
    ensures some_t(s) || some_u(s) || some_v(s)
{ match s[0] { HRef::T => { assert(s[0] is T); } HRef::U(_) => { assert(s[0] is U); } HRef::V(_) => { assert(s[0] is V); } } }

impl HRef {
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRef::t
        ensures r is T
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRef::u
        ensures r == HRef::U(None)
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRef::v
        ensures r == HRef::V(None)
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRef::u_extened
//@@ params child_idx
        ensures match r { Ok(h) => child_idx <= 1 && h == HRef::U(Some(child_idx as usize)), Err(_) => child_idx > 1 }
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRef::v_extened
//@@ params child_idx
        ensures match r { Ok(h) => child_idx <= 1 && h == HRef::V(Some(child_idx as usize)), Err(_) => child_idx > 1 }
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs AddAssign for HRef::add_assign
//@@ params rhs
        ensures *final(self) == comb(*old(self), rhs)
//@@ endfn
    /// number of children
    pub open spec fn n(self) -> int { if self is T { 4 } else { 2 } }
    pub open spec fn loc_of(self, k: int) -> HRefLoc {
        match self {
            HRef::T => if k == 0 { HRefLoc::SW } else if k == 1 { HRefLoc::SE } else if k == 2 { HRefLoc::NW } else { HRefLoc::NE },
            HRef::U(_) => if k == 0 { HRefLoc::W } else { HRefLoc::E },
            HRef::V(_) => if k == 0 { HRefLoc::S } else { HRefLoc::N },
        }
    }
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRef::loc
//@@ params idx
        requires idx < self.n()
        ensures r == self.loc_of(idx as int)
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRef::indices_and_ids
//@@ params id_counter
        requires *old(id_counter) + 4 <= usize::MAX
        ensures *final(id_counter) == *old(id_counter) + self.n(), r@.len() == self.n(),
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == k && r@[k].1 == *old(id_counter) + k,
//@@ acc 0 Vec<(usize, usize)>
//@@ acc 1 Vec<(usize, usize)>
//@@ loop 0
        __a0@.len() == __i0, __i0 <= 4, starting_id + 4 <= usize::MAX,
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] __a0@[k]).0 == k && __a0@[k].1 == starting_id + k,
//@@ loop 1
        __a1@.len() == __i1, __i1 <= 2, starting_id + 4 <= usize::MAX,
        forall|k: int| 0 <= k < __i1 ==> (#[trigger] __a1@[k]).0 == k && __a1@[k].1 == starting_id + k,
//@@ endfn
}
impl PolyOrders {
//@@ fn fem_domain/domain/mesh/p_refinement.rs Default for PolyOrders::default
        ensures r.ni == 1, r.nj == 1
//@@ endfn
}
impl HLevels {
    pub open spec fn grown(self, h: HRef) -> HLevels {
        HLevels { u: (if h is V { self.u } else { (self.u + 1) as u8 }), v: (if h is U { self.v } else { (self.v + 1) as u8 }) }
    }
//@@ fn fem_domain/domain/mesh/h_refinement.rs HLevels::from
//@@ params u, v
        ensures r.u == u, r.v == v
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HLevels::refined
//@@ params refinement
        requires self.u < 255, self.v < 255
        ensures r == self.grown(refinement), r.u == self.u + (if refinement is V { 0int } else { 1 }), r.v == self.v + (if refinement is U { 0int } else { 1 })
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HLevels::edge_ranking
//@@ params edge_dir
        ensures r@ == (if edge_dir is U { seq![self.v, self.u] } else { seq![self.u, self.v] })
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HLevels::node_ranking
        ensures r@ == seq![self.u, self.v]
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs Default for HLevels::default
        ensures r.u == 0, r.v == 0
//@@ endfn
}
// ------------------------------------------------------------------ parametric ranges
pub struct Rg { pub a: real, pub b: real }
pub struct Box2 { pub u: Rg, pub v: Rg }
pub open spec fn mid(r: Rg) -> real { (r.a + r.b) / 2real }
pub open spec fn half(r: Rg, upper: bool) -> Rg { if upper { Rg { a: mid(r), b: r.b } } else { Rg { a: r.a, b: mid(r) } } }
impl HRefLoc {
    /// the part of the parent along u (None: all of it)
    pub open spec fn u_half(self) -> Option<bool> { match self { HRefLoc::SW | HRefLoc::NW | HRefLoc::W => Some(false), HRefLoc::SE | HRefLoc::NE | HRefLoc::E => Some(true), _ => None } }
    pub open spec fn v_half(self) -> Option<bool> { match self { HRefLoc::SW | HRefLoc::SE | HRefLoc::S => Some(false), HRefLoc::NW | HRefLoc::NE | HRefLoc::N => Some(true), _ => None } }
}
pub open spec fn part(r: Rg, h: Option<bool>) -> Rg { match h { None => r, Some(up) => half(r, up) } }
pub open spec fn sub(l: HRefLoc, b: Box2) -> Box2 { Box2 { u: part(b.u, l.u_half()), v: part(b.v, l.v_half()) } }
pub open spec fn rg(x: [F; 2]) -> Rg { Rg { a: x@[0]@, b: x@[1]@ } }
pub open spec fn bx(x: [[F; 2]; 2]) -> Box2 { Box2 { u: rg(x@[0]), v: rg(x@[1]) } }
pub open spec fn unit_box() -> Box2 { Box2 { u: Rg { a: -1real, b: 1real }, v: Rg { a: -1real, b: 1real } } }
/// composition of the splits on a path
pub open spec fn walk(s: Seq<(usize, HRefLoc)>, b: Box2) -> Box2 decreases s.len() {
    if s.len() == 0 { b } else { sub(s.last().1, walk(s.drop_last(), b)) }
}
/// the image of q under the map that takes [-1,1]^2 to b
pub open spec fn aff(r: Rg, x: real) -> real { (r.a + r.b) / 2real + x * ((r.b - r.a) / 2real) }
pub open spec fn place(b: Box2, q: Box2) -> Box2 {
    Box2 { u: Rg { a: aff(b.u, q.u.a), b: aff(b.u, q.u.b) }, v: Rg { a: aff(b.v, q.v.a), b: aff(b.v, q.v.b) } }
}
pub open spec fn in_rg(r: Rg, x: real) -> bool { r.a <= x <= r.b }
pub open spec fn inside_rg(r: Rg, x: real) -> bool { r.a < x < r.b }
pub open spec fn in_box(b: Box2, x: real, y: real) -> bool { in_rg(b.u, x) && in_rg(b.v, y) }
pub open spec fn inside(b: Box2, x: real, y: real) -> bool { inside_rg(b.u, x) && inside_rg(b.v, y) }
/// P01: the children tile the parent
pub proof fn theorem_tiling(h: HRef, b: Box2)
    requires b.u.a < b.u.b, b.v.a < b.v.b
    ensures
        forall|k: int, x: real, y: real| 0 <= k < h.n() && #[trigger] in_box(sub(h.loc_of(k), b), x, y) ==> in_box(b, x, y),
        forall|x: real, y: real| in_box(b, x, y) ==> exists|k: int| 0 <= k < h.n() && #[trigger] in_box(sub(h.loc_of(k), b), x, y),
        forall|j: int, k: int, x: real, y: real| 0 <= j < k < h.n() && #[trigger] inside(sub(h.loc_of(j), b), x, y) ==> !#[trigger] inside(sub(h.loc_of(k), b), x, y),
        forall|k: int| 0 <= k < h.n() ==> (#[trigger] sub(h.loc_of(k), b)).u.a < sub(h.loc_of(k), b).u.b && sub(h.loc_of(k), b).v.a < sub(h.loc_of(k), b).v.b,
        forall|k: int| 0 <= k < h.n() ==> (#[trigger] sub(h.loc_of(k), b)).u.b - sub(h.loc_of(k), b).u.a == (if h is V { b.u.b - b.u.a } else { (b.u.b - b.u.a) / 2real }),
        forall|k: int| 0 <= k < h.n() ==> (#[trigger] sub(h.loc_of(k), b)).v.b - sub(h.loc_of(k), b).v.a == (if h is U { b.v.b - b.v.a } else { (b.v.b - b.v.a) / 2real }),
{
    assert forall|x: real, y: real| in_box(b, x, y) implies exists|k: int| 0 <= k < h.n() && #[trigger] in_box(sub(h.loc_of(k), b), x, y) by {
        let east = x > mid(b.u);
        let north = y > mid(b.v);
        let k = match h { HRef::T => (if east { 1int } else { 0 }) + (if north { 2int } else { 0 }), HRef::U(_) => if east { 1 } else { 0 }, HRef::V(_) => if north { 1 } else { 0 } };
        assert(in_box(sub(h.loc_of(k), b), x, y));
    }
}
pub proof fn aff_mid(r: Rg, x: real, y: real)
    ensures (aff(r, x) + aff(r, y)) / 2real == aff(r, (x + y) / 2real)
{
    let (m, h) = ((r.a + r.b) / 2real, (r.b - r.a) / 2real);
    assert((m + x * h + (m + y * h)) / 2real == m + ((x + y) / 2real) * h) by (nonlinear_arith);
}
pub proof fn place_sub(l: HRefLoc, b: Box2, q: Box2)
    ensures sub(l, place(b, q)) == place(b, sub(l, q))
{ aff_mid(b.u, q.u.a, q.u.b); aff_mid(b.v, q.v.a, q.v.b); }
pub proof fn place_unit(b: Box2)
    ensures place(b, unit_box()) == b
{
    unit_ends(b.u.a, b.u.b); unit_ends(b.v.a, b.v.b);
}
proof fn unit_ends(a: real, c: real)
    ensures (a + c) / 2real + (-1real) * ((c - a) / 2real) == a, (a + c) / 2real + 1real * ((c - a) / 2real) == c
{
    assert((a + c) / 2real + (-1real) * ((c - a) / 2real) == a) by (nonlinear_arith);
    assert((a + c) / 2real + 1real * ((c - a) / 2real) == c) by (nonlinear_arith);
}
pub proof fn walk_append(s: Seq<(usize, HRefLoc)>, t: Seq<(usize, HRefLoc)>, b: Box2)
    ensures walk(s + t, b) == walk(t, walk(s, b))
    decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); walk_append(s, t.drop_last(), b); } }
/// P01: ranges compose; the range over a whole path is the range of its end placed inside the range of its beginning
pub proof fn theorem_composition(s: Seq<(usize, HRefLoc)>, t: Seq<(usize, HRefLoc)>)
    ensures walk(s + t, unit_box()) == place(walk(s, unit_box()), walk(t, unit_box()))
    decreases t.len()
{
    walk_append(s, t, unit_box());
    walk_place(t, walk(s, unit_box()));
}
pub proof fn walk_place(t: Seq<(usize, HRefLoc)>, b: Box2)
    ensures walk(t, b) == place(b, walk(t, unit_box()))
    decreases t.len()
{ if t.len() == 0 { place_unit(b); } else { walk_place(t.drop_last(), b); place_sub(t.last().1, b, walk(t.drop_last(), unit_box())); } }
impl HRefLoc {
    pub open spec fn idx(self) -> int { match self { HRefLoc::SW | HRefLoc::W | HRefLoc::S => 0, HRefLoc::SE | HRefLoc::E | HRefLoc::N => 1, HRefLoc::NW => 2, HRefLoc::NE => 3 } }
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRefLoc::index
        ensures r == self.idx()
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRefLoc::sub_u_range
//@@ params range
        ensures rg(r) == part(rg(range), self.u_half())
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRefLoc::sub_v_range
//@@ params range
        ensures rg(r) == part(rg(range), self.v_half())
//@@ endfn
//@@ fn fem_domain/domain/mesh/h_refinement.rs HRefLoc::sub_range
//@@ params range
        ensures bx(r) == sub(*self, bx(range))
//@@ endfn
}
/// a child's location carries its index
pub proof fn theorem_index(h: HRef, k: int)
    requires 0 <= k < h.n()
    ensures h.loc_of(k).idx() == k
{}
// ------------------------------------------------------------------ elem.rs
/// the position of an ancestor in the stack (the stack names each ancestor once)
pub open spec fn on_path(s: Seq<(usize, HRefLoc)>, a: usize) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == a }
pub open spec fn first_at(s: Seq<(usize, HRefLoc)>, a: usize, k: int) -> bool { 0 <= k < s.len() && s[k].0 == a && forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).0 != a }
pub open spec fn child_of(c: ElemUninit, p: Elem, h: HRef, k: int, id: int) -> bool {
    &&& c.id == id
    &&& c.ancestors@ == p.ancestors@.push((p.id, h.loc_of(k)))
    &&& c.h_levels == p.h_levels.grown(h)
    &&& c.poly_orders == p.poly_orders
    &&& c.element == p.element
    &&& forall|j: int| 0 <= j < 4 ==> #[trigger] c.nodes@[j] is None && #[trigger] c.edges@[j] is None
}
impl ElemUninit {
//@@ fn fem_domain/domain/mesh/elem.rs ElemUninit::new
//@@ params idx_id, refinement, element, parent_id, parents_ancestors, parent_h_levels, poly_orders
        requires idx_id.0 < refinement.n(), parent_h_levels.u < 255, parent_h_levels.v < 255
        ensures r.id == idx_id.1, r.ancestors@ == parents_ancestors@.push((parent_id, refinement.loc_of(idx_id.0 as int))),
            r.h_levels == parent_h_levels.grown(refinement), r.poly_orders == poly_orders, r.element == element,
            forall|j: int| 0 <= j < 4 ==> #[trigger] r.nodes@[j] is None && #[trigger] r.edges@[j] is None,
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs ElemUninit::set_node
//@@ params node_idx, node_id
        requires node_idx < 4, old(self).nodes@[node_idx as int] is Some ==> old(self).nodes@[node_idx as int] == Some(node_id)
        ensures *final(self) == (ElemUninit { nodes: final(self).nodes, ..*old(self) }), final(self).nodes@ == old(self).nodes@.update(node_idx as int, Some(node_id))
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs ElemUninit::set_edge
//@@ params edge_idx, edge_id
        requires edge_idx < 4, old(self).edges@[edge_idx as int] is None
        ensures *final(self) == (ElemUninit { edges: final(self).edges, ..*old(self) }), final(self).edges@ == old(self).edges@.update(edge_idx as int, Some(edge_id))
//@@ endfn
}
impl Elem {
//@@ fn fem_domain/domain/mesh/elem.rs Elem::new
//@@ params id, nodes, edges, element
        ensures r.id == id, r.nodes == nodes, r.edges == edges, r.element == element, r.children is None, r.ancestors@.len() == 0, r.h_levels.u == 0, r.h_levels.v == 0, r.poly_orders.ni == 1, r.poly_orders.nj == 1
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs Elem::parent_id
        ensures r == (if self.ancestors@.len() == 0 { None } else { Some(self.ancestors@.last().0) })
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs Elem::loc_stack
        ensures r@ == self.ancestors@
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs Elem::has_children
        ensures r == (self.children is Some)
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs Elem::child_ids
        ensures match self.children { Some(v) => r is Some && r->0@ == v@, None => r is None }
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs Elem::parametric_range
        ensures bx(r) == walk(self.ancestors@, unit_box())
//@@ loop 0
        bx(__a0) == walk(self.ancestors@.take(__i0 as int), unit_box()),
//@@ loopend 0
        proof { assert(self.ancestors@.take(__i0 as int).drop_last() =~= self.ancestors@.take(__i0 - 1)); }
//@@ loopafter 0
        proof { assert(self.ancestors@.take(__i0 as int) =~= self.ancestors@); }
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs Elem::relative_parametric_range
//@@ params from_ancestor
//@@ abort !on_path(self.ancestors@, from_ancestor)
        ensures exists|k: int| first_at(self.ancestors@, from_ancestor, k) && bx(r) == walk(#[trigger] self.ancestors@.skip(k), unit_box())
//@@ loop 0
        forall|j: int| 0 <= j < __i0 && __a0 is None ==> (#[trigger] self.ancestors@[j]).0 != from_ancestor,
        __a0 is Some ==> first_at(self.ancestors@, from_ancestor, __a0->0 as int),
//@@ loop 1
        bx(__a1) == walk(self.ancestors@.subrange(starting_index as int, __i1 as int), unit_box()),
//@@ loopend 1
        proof { assert(self.ancestors@.subrange(starting_index as int, __i1 as int).drop_last() =~= self.ancestors@.subrange(starting_index as int, __i1 - 1)); }
//@@ loopafter 1
        proof { assert(self.ancestors@.subrange(starting_index as int, __i1 as int) =~= self.ancestors@.skip(starting_index as int)); }
//@@ endfn
//@@ fn fem_domain/domain/mesh/elem.rs Elem::h_refine
//@@ params refinement, id_counter
        requires old(self).h_levels.u < 255, old(self).h_levels.v < 255, *old(id_counter) + 4 <= usize::MAX
        ensures match r {
            Err(_) => old(self).children is Some && *final(self) == *old(self) && *final(id_counter) == *old(id_counter),
            Ok(v) => old(self).children is None && v@.len() == refinement.n() && *final(id_counter) == *old(id_counter) + refinement.n()
                && (forall|k: int| 0 <= k < v@.len() ==> child_of(#[trigger] v@[k], *old(self), refinement, k, *old(id_counter) + k))
                && *final(self) == (Elem { children: final(self).children, ..*old(self) })
                && final(self).children is Some && final(self).children->0@ == Seq::new(refinement.n() as nat, |k: int| (*old(id_counter) + k) as usize),
        }
//@@ loop 0
        *self == *old(self), self.h_levels.u < 255, self.h_levels.v < 255, self.children is None,
        __a0@.len() == __i0, __hi0 == refinement.n(),
        forall|k: int| 0 <= k < __i0 ==> child_of(#[trigger] __a0@[k], *self, refinement, k, *old(id_counter) + k),
//@@ loopstart 0
        proof { assert(__s0@[__i0 as int].0 == __i0); }
//@@ loop 1
        __a1@.len() == __i1, __hi1 == refinement.n(),
        forall|k: int| 0 <= k < __i1 ==> (#[trigger] __a1@[k]) == *old(id_counter) + k,
//@@ loopstart 1
        proof { assert(child_of(children@[__i1 as int], *self, refinement, __i1 as int, *old(id_counter) + __i1)); }
//@@ loopafter 1
        proof { assert(__a1@ =~= Seq::new(refinement.n() as nat, |k: int| (*old(id_counter) + k) as usize)); }
//@@ endfn
}
}
