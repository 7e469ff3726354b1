verus! {
// ------------------------------------------------------------------ which refinements fit
/// between the middles of two edges
pub open spec fn mid_dx(m: Mesh, e: int, f: int) -> real { (px(m, m.edges@[f].nodes@[0] as int) + px(m, m.edges@[f].nodes@[1] as int)) / 2real - (px(m, m.edges@[e].nodes@[0] as int) + px(m, m.edges@[e].nodes@[1] as int)) / 2real }
pub open spec fn mid_dy(m: Mesh, e: int, f: int) -> real { (py(m, m.edges@[f].nodes@[0] as int) + py(m, m.edges@[f].nodes@[1] as int)) / 2real - (py(m, m.edges@[e].nodes@[0] as int) + py(m, m.edges@[e].nodes@[1] as int)) / 2real }
/// the distance between the middles can be halved
pub open spec fn broad(m: Mesh, e: int, f: int) -> bool { mid_dx(m, e, f) * mid_dx(m, e, f) + mid_dy(m, e, f) * mid_dy(m, e, f) >= 4real * (MIN_EDGE_LENGTH_real() * MIN_EDGE_LENGTH_real()) }
/// child i of a cell bisected over edges e and f can be refined the other way, across edge x
pub open spec fn fits_ext(m: Mesh, e: int, f: int, x: int, i: int) -> bool {
    i <= 1 && m.edges@[e].length@ / 2real > MIN_EDGE_LENGTH_real() && m.edges@[f].length@ / 2real > MIN_EDGE_LENGTH_real() && halvable(m, x) && broad(m, e, f)
}
pub open spec fn fits(m: Mesh, c: int, h: HRef) -> bool {
    match h {
        HRef::T => halvable(m, rim(m, c, 0)) && halvable(m, rim(m, c, 1)) && halvable(m, rim(m, c, 2)) && halvable(m, rim(m, c, 3)),
        HRef::U(x) => halvable(m, rim(m, c, 0)) && halvable(m, rim(m, c, 1)) && match x { None => true, Some(i) => fits_ext(m, rim(m, c, 0), rim(m, c, 1), rim(m, c, if i == 0 { 2 } else { 3 }), i as int) },
        HRef::V(x) => halvable(m, rim(m, c, 2)) && halvable(m, rim(m, c, 3)) && match x { None => true, Some(i) => fits_ext(m, rim(m, c, 2), rim(m, c, 3), rim(m, c, if i == 0 { 0 } else { 1 }), i as int) },
    }
}
/// half of l is at least a, in terms of squares
pub proof fn half_least(l: real, a: real, s: real)
    requires l >= 0real, a > 0real, l * l == s
    ensures l / 2real >= a <==> s >= 4real * (a * a)
{
    if l / 2real >= a { assert(l * l >= (2real * a) * (2real * a)) by (nonlinear_arith) requires l >= 2real * a, a > 0real; assert((2real * a) * (2real * a) == 4real * (a * a)) by (nonlinear_arith); }
    else { assert(l * l < (2real * a) * (2real * a)) by (nonlinear_arith) requires l >= 0real, l < 2real * a, a > 0real; assert((2real * a) * (2real * a) == 4real * (a * a)) by (nonlinear_arith); }
}
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::check_h_refinement_extension
//@@ params bisected_edge_ids, crossing_edge_ids, child_idx
        requires net_ok(*self), bisected_edge_ids@[0] < self.edges@.len(), bisected_edge_ids@[1] < self.edges@.len(), crossing_edge_ids@[0] < self.edges@.len(), crossing_edge_ids@[1] < self.edges@.len()
        ensures ({
            let ok = fits_ext(*self, bisected_edge_ids@[0] as int, bisected_edge_ids@[1] as int, crossing_edge_ids@[if child_idx == 0 { 0 } else { 1 }] as int, child_idx as int);
            match r { Ok(_) => ok, Err(x) => !ok && (if child_idx > 1 { x == HRefError::BisectionIdxExceeded } else { x is MinEdgeLength }) } })
//@@ start
        proof { min_facts(); assert(edge_ok(*self, bisected_edge_ids@[0] as int)); assert(edge_ok(*self, bisected_edge_ids@[1] as int)); assert(ends_in(*self, bisected_edge_ids@[0] as int)); assert(ends_in(*self, bisected_edge_ids@[1] as int)); }
//@@ loop 0
        __hi0 == 2, __s0 == bisected_edge_ids, forall|k: int| 0 <= k < __i0 ==> (self.edges@[#[trigger] bisected_edge_ids@[k] as int]).length@ / 2real > MIN_EDGE_LENGTH_real(),
//@@ before `if new_edge_length`
        proof { let (e, f) = (bisected_edge_ids@[0] as int, bisected_edge_ids@[1] as int);
            assert(*p0 == self.nodes@[self.edges@[e].nodes@[0] as int].coords && *p1 == self.nodes@[self.edges@[e].nodes@[1] as int].coords);
            assert(*q0 == self.nodes@[self.edges@[f].nodes@[0] as int].coords && *q1 == self.nodes@[self.edges@[f].nodes@[1] as int].coords);
            half_least(new_edge_length@, MIN_EDGE_LENGTH_real(), mid_dx(*self, e, f) * mid_dx(*self, e, f) + mid_dy(*self, e, f) * mid_dy(*self, e, f)); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::check_h_refinement
//@@ params elem_id, refinement
        requires net_ok(*self), elem_id < self.elems@.len(), forall|k: int| 0 <= k < 4 ==> (#[trigger] self.elems@[elem_id as int].edges@[k]) < self.edges@.len()
        ensures match r { Ok(_) => fits(*self, elem_id as int, refinement), Err(x) => !fits(*self, elem_id as int, refinement) && (x is BisectionIdxExceeded || x is MinEdgeLength) }
//@@ endfn
}
/// a refineable cell whose request fits can be cut
pub proof fn fits_cuts(m: Mesh, c: int, h: HRef)
    requires fits(m, c, h)
    ensures cuttable(m, c, h)
{ }
/// what fits stays so while the mesh grows
pub proof fn fits_stays(a: Mesh, b: Mesh, c: int, h: HRef)
    requires net_ok(a), cell_ok(a, c), cell_ok(b, c), fits(a, c, h), wide(a, c), forall|k: int| 0 <= k < 4 ==> rim(b, c, k) == #[trigger] rim(a, c, k),
        forall|n: int| 0 <= n < a.nodes@.len() ==> (#[trigger] b.nodes@[n]).coords == a.nodes@[n].coords,
        forall|e: int| 0 <= e < a.edges@.len() ==> (#[trigger] b.edges@[e]).nodes == a.edges@[e].nodes && b.edges@[e].length == a.edges@[e].length && (a.edges@[e].children is Some ==> b.edges@[e].children is Some),
    ensures fits(b, c, h), wide(b, c)
{
    assert(rim(a, c, 0) == rim(b, c, 0) && rim(a, c, 1) == rim(b, c, 1) && rim(a, c, 2) == rim(b, c, 2) && rim(a, c, 3) == rim(b, c, 3));
    assert(edge_ok(a, rim(a, c, 0)) && edge_ok(a, rim(a, c, 1)) && edge_ok(a, rim(a, c, 2)) && edge_ok(a, rim(a, c, 3)));
    assert forall|k: int| 0 <= k < 4 implies (b.edges@[#[trigger] rim(b, c, k)]).length@ > MIN_EDGE_LENGTH_real() by { assert(rim(a, c, k) == rim(b, c, k)); }
}
}
