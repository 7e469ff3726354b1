verus! {
//@@ enum fem_domain/domain.rs ContinuityCondition derive=Clone,Copy,PartialEq,Eq,Structural
//@@ enum fem_domain/domain/dof/basis_spec.rs BasisDir derive=Clone,Copy,PartialEq,Eq,Structural
//@@ enum fem_domain/domain/dof/basis_spec.rs BasisLoc derive=Clone,Copy,PartialEq,Eq,Structural
//@@ struct fem_domain/domain/dof/basis_spec.rs BSAddress derive=Clone,Copy
//@@ struct fem_domain/domain/dof/basis_spec.rs BasisSpec derive=Clone,+Copy
//@@ enum fem_domain/domain/dof.rs BasisSpecGroup
//@@ struct fem_domain/domain/dof.rs DoF
//@@ struct fem_domain/domain.rs Domain
// ------------------------------------------------------------------ specification: functions and where they live
/// one basis function: cell, direction, orders along u and v
pub ghost struct Fk { pub e: int, pub dir: BasisDir, pub i: u8, pub j: u8 }
pub open spec fn fk(s: BasisSpec) -> Fk { Fk { e: s.elem_id as int, dir: s.dir, i: s.i, j: s.j } }
/// documented: u-directed functions belong to the bottom/top edge, v-directed ones to the left/right edge by their order
/// across that edge; everything else (but w-directed ones) is interior
pub open spec fn loc_of(c: Elem, dir: BasisDir, i: u8, j: u8) -> BasisLoc {
    match dir {
        BasisDir::U => if j <= 1 { BasisLoc::EdgeBs(j, c.edges@[j as int]) } else { BasisLoc::ElemBs },
        BasisDir::V => if i <= 1 { BasisLoc::EdgeBs((i + 2) as u8, c.edges@[i + 2]) } else { BasisLoc::ElemBs },
        BasisDir::W => if i < 2 && j < 2 { BasisLoc::NodeBs((i + 2 * j) as u8, c.nodes@[i + 2 * j]) }
            else if i < 2 { BasisLoc::EdgeBs((i + 2) as u8, c.edges@[i + 2]) }
            else if j < 2 { BasisLoc::EdgeBs(j, c.edges@[j as int]) } else { BasisLoc::ElemBs },
    }
}
pub open spec fn ords(o: PolyOrders, dir: BasisDir, i: u8, j: u8) -> bool {
    match dir { BasisDir::U => i < o.ni && j <= o.nj, BasisDir::V => i <= o.ni && j < o.nj, BasisDir::W => i <= o.ni && j <= o.nj }
}
pub open spec fn in_range(m: Mesh, q: Fk) -> bool { 0 <= q.e < m.elems@.len() && ords(m.elems@[q.e].poly_orders, q.dir, q.i, q.j) }
pub open spec fn qloc(m: Mesh, q: Fk) -> BasisLoc { loc_of(m.elems@[q.e], q.dir, q.i, q.j) }
pub open spec fn kind(l: BasisLoc) -> int { match l { BasisLoc::ElemBs => 0, BasisLoc::EdgeBs(_, _) => 1, BasisLoc::NodeBs(_, _) => 2 } }
pub open spec fn spot(l: BasisLoc, e: int) -> int { match l { BasisLoc::ElemBs => e, BasisLoc::EdgeBs(_, x) => x as int, BasisLoc::NodeBs(_, x) => x as int } }
/// the description of a function of the mesh
pub open spec fn valid(m: Mesh, s: BasisSpec) -> bool { in_range(m, fk(s)) && s.loc == qloc(m, fk(s)) }
/// order along the edge / across it
pub open spec fn along(q: Fk) -> u8 { if q.dir is U { q.i } else { q.j } }
pub open spec fn across(q: Fk) -> u8 { if q.dir is U { q.j } else { q.i } }
pub open spec fn ord_along(m: Mesh, e: int, dir: BasisDir) -> u8 { if dir is U { m.elems@[e].poly_orders.ni } else { m.elems@[e].poly_orders.nj } }


impl BasisLoc {
//@@ fn fem_domain/domain/dof/basis_spec.rs BasisLoc::edge_bs
//@@ params elem, idx
        requires idx < 4
        ensures r == BasisLoc::EdgeBs(idx, elem.edges@[idx as int])
//@@ endfn
//@@ fn fem_domain/domain/dof/basis_spec.rs BasisLoc::node_bs
//@@ params elem, idx
        requires idx < 4
        ensures r == BasisLoc::NodeBs(idx, elem.nodes@[idx as int])
//@@ endfn
}
impl BSAddress {
//@@ fn fem_domain/domain/dof/basis_spec.rs BSAddress::new
//@@ params elem_id, elem_idx
        ensures r.elem_id == elem_id, r.elem_idx == elem_idx
//@@ endfn
}
/// two functions of the same edge are one: same direction, same order along the edge, from the two sides of it
pub open spec fn mates(a: BasisSpec, b: BasisSpec) -> bool {
    match (a.loc, b.loc) {
        (BasisLoc::EdgeBs(p, _), BasisLoc::EdgeBs(q, _)) => a.dir == b.dir && match a.dir {
            BasisDir::U => a.i == b.i && a.j + b.j == 1 && p + q == 1,
            BasisDir::V => a.j == b.j && a.i + b.i == 1 && p + q == 5,
            BasisDir::W => if a.i >= 2 && b.i >= 2 { a.i == b.i && a.j + b.j == 1 && p + q == 1 } else { a.j >= 2 && b.j >= 2 && a.j == b.j && a.i + b.i == 1 && p + q == 5 },
        },
        _ => false,
    }
}
pub open spec fn same_edge(a: BasisLoc, b: BasisLoc) -> bool { match (a, b) { (BasisLoc::EdgeBs(_, x), BasisLoc::EdgeBs(_, y)) => x == y, _ => false } }
/// P10: matching is symmetric
pub proof fn theorem_mates_symmetric(a: BasisSpec, b: BasisSpec) ensures mates(a, b) == mates(b, a) { }
pub open spec fn ord2(s: BasisSpec) -> [usize; 2] { [s.i as usize, s.j as usize] }
impl BasisSpec {
//@@ fn fem_domain/domain/dof/basis_spec.rs BasisSpec::new
//@@ params id, ij, dir, elem, cc
//@@ abort cc != ContinuityCondition::HCurl
        ensures r.id == id, r.i == ij@[0], r.j == ij@[1], r.dir == dir, r.elem_id == elem.id, r.elem_idx is None, r.dof_id is None,
            r.loc == loc_of(*elem, dir, ij@[0], ij@[1]), cc == ContinuityCondition::HCurl,
//@@ endfn
//@@ fn fem_domain/domain/dof/basis_spec.rs BasisSpec::matches_with_edge
//@@ params other
//@@ abort !same_edge(self.loc, other.loc)
        requires self.i <= 100, self.j <= 100, other.i <= 100, other.j <= 100,
            match self.loc { BasisLoc::EdgeBs(p, _) => p < 4, _ => true }, match other.loc { BasisLoc::EdgeBs(p, _) => p < 4, _ => true },
        ensures r == mates(*self, *other), same_edge(self.loc, other.loc)
//@@ endfn
//@@ fn fem_domain/domain/dof/basis_spec.rs BasisSpec::set_dof_and_idx
//@@ params dof_id, elem_idx
        requires old(self).dof_id is None, old(self).elem_idx is None
        ensures *final(self) == (BasisSpec { dof_id: Some(dof_id), elem_idx: Some(elem_idx), ..*old(self) })
//@@ endfn
//@@ fn fem_domain/domain/dof/basis_spec.rs BasisSpec::integration_data
        requires self.dof_id is Some
        ensures r.0 == ord2(*self), r.1 == self.dir, r.2 == self.dof_id->0
//@@ tail
        proof { assert(__r.0@ =~= ord2(*self)@); assert(__r.0 =~= ord2(*self)); }
//@@ endfn
}
impl DoF {
    pub open spec fn adr(self) -> Seq<BSAddress> { match self.basis_specs { BasisSpecGroup::ElemGroup(a) => seq![a], BasisSpecGroup::EdgeGroup(a) => a@, BasisSpecGroup::NodeGroup(a) => a@ } }
//@@ fn fem_domain/domain/dof.rs DoF::new
//@@ params id, bs_addresses
//@@ abort bs_addresses@.len() != 1 && bs_addresses@.len() != 2 && bs_addresses@.len() != 4
        ensures r.id == id, r.adr() == bs_addresses@
//@@ tail
        proof { assert(__r.adr() =~= bs_addresses@); }
//@@ endfn
//@@ fn fem_domain/domain/dof.rs DoF::get_basis_specs
        ensures r@ == self.adr()
//@@ tail
        proof { assert(__r@ =~= self.adr()); }
//@@ endfn
}
pub open spec fn two(x: u8, y: u8) -> Seq<u8> { seq![x, y] }
pub open spec fn hit(a: Seq<[u8; 2]>, x: u8, y: u8) -> bool { exists|k: int| 0 <= k < a.len() && (#[trigger] a[k])@ == two(x, y) }
/// the first i rows of a grid of width w, and j items of the next row
pub open spec fn rows_of(a: Seq<[u8; 2]>, w: int, i: int, j: int) -> bool {
    &&& a.len() == i * w + j
    &&& forall|k: int| 0 <= k < a.len() ==> ((#[trigger] a[k])@[0] < i && a[k]@[1] < w) || (a[k]@[0] == i && a[k]@[1] < j)
    &&& forall|k: int, l: int| 0 <= k < l < a.len() ==> (#[trigger] a[k])@ != (#[trigger] a[l])@
    &&& forall|x: u8, y: u8| (x < i && y < w) || (x == i && y < j) ==> #[trigger] hit(a, x, y)
}
pub proof fn rows_push(a: Seq<[u8; 2]>, b: Seq<[u8; 2]>, w: int, i: int, j: int)
    requires rows_of(a, w, i, j), b.len() == a.len() + 1, b.take(a.len() as int) =~= a, b.last()@[0] == i, b.last()@[1] == j, 0 <= i < 256, 0 <= j < w
    ensures rows_of(b, w, i, j + 1)
{
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] b[k] == a[k] by { assert(b[k] == b.take(a.len() as int)[k]); }
    assert forall|x: u8, y: u8| (x < i && y < w) || (x == i && y < j + 1) implies #[trigger] hit(b, x, y) by {
        if x == i && y == j { assert(b[a.len() as int]@ =~= two(x, y)); }
        else { assert(hit(a, x, y)); let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k])@ == two(x, y); assert(b[k]@ == two(x, y)); }
    }
}
pub proof fn rows_row(a: Seq<[u8; 2]>, w: int, i: int)
    requires rows_of(a, w, i, w)
    ensures rows_of(a, w, i + 1, 0)
{
    assert((i + 1) * w == i * w + w) by(nonlinear_arith);
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k])@[0] < i + 1 && a[k]@[1] < w by { }
    assert forall|x: u8, y: u8| (x < i + 1 && y < w) || (x == i + 1 && y < 0) implies #[trigger] hit(a, x, y) by { assert(hit(a, x, y)); }
}
impl PolyOrders {
//@@ fn fem_domain/domain/mesh/p_refinement.rs PolyOrders::permutations
//@@ params dir
        requires self.ni <= 100, self.nj <= 100
        ensures r@.len() <= (self.ni + 1) * (self.nj + 1), forall|k: int| 0 <= k < r@.len() ==> ords(*self, dir, (#[trigger] r@[k])@[0], r@[k]@[1]),
            forall|j: int, k: int| 0 <= j < k < r@.len() ==> (#[trigger] r@[j])@ != (#[trigger] r@[k])@,
            forall|i: u8, j: u8| ords(*self, dir, i, j) ==> #[trigger] hit(r@, i, j),
//@@ acc 0 Vec<[u8; 2]>
//@@ loop 0
        rows_of(__a0@, self.nj + 1, __i0 as int, 0),
//@@ loopend 0
        proof { rows_row(__a0@, self.nj + 1, __i0 - 1); }
//@@ loop 1
        rows_of(__a0@, self.nj + 1, __i0 - 1, __i1 as int),
//@@ loopstart 1
        let ghost __d = __a0@;
//@@ loopend 1
        proof { rows_push(__d, __a0@, self.nj + 1, __i0 - 1, __i1 - 1); }
//@@ acc 2 Vec<[u8; 2]>
//@@ loop 2
        rows_of(__a2@, self.nj as int, __i2 as int, 0),
//@@ loopend 2
        proof { rows_row(__a2@, self.nj as int, __i2 - 1); }
//@@ loop 3
        rows_of(__a2@, self.nj as int, __i2 - 1, __i3 as int),
//@@ loopstart 3
        let ghost __d = __a2@;
//@@ loopend 3
        proof { rows_push(__d, __a2@, self.nj as int, __i2 - 1, __i3 - 1); }
//@@ acc 4 Vec<[u8; 2]>
//@@ loop 4
        rows_of(__a4@, self.nj + 1, __i4 as int, 0),
//@@ loopend 4
        proof { rows_row(__a4@, self.nj + 1, __i4 - 1); }
//@@ loop 5
        rows_of(__a4@, self.nj + 1, __i4 - 1, __i5 as int),
//@@ loopstart 5
        let ghost __d = __a4@;
//@@ loopend 5
        proof { rows_push(__d, __a4@, self.nj + 1, __i4 - 1, __i5 - 1); }
//@@ tail
        proof {
            assert(rows_of(__r@, if dir is V { self.nj as int } else { self.nj + 1 }, if dir is U { self.ni as int } else { self.ni + 1 }, 0));
            assert forall|i: u8, j: u8| ords(*self, dir, i, j) implies #[trigger] hit(__r@, i, j) by { }
            let (x, y) = (self.ni as int, self.nj as int);
            assert(x * (y + 1) <= (x + 1) * (y + 1) && (x + 1) * y <= (x + 1) * (y + 1)) by(nonlinear_arith) requires x >= 0, y >= 0;
            assert((x + 1) * (y + 1) + 0 == (x + 1) * (y + 1));
        }
//@@ endfn
}
}
