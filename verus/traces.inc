verus! {
// ------------------------------------------------------------------ P10: tangential traces
/// the end of the parametric range at which a local edge lies (bottom, top, left, right)
pub open spec fn end_of(k: int) -> real { if k == 0 || k == 2 { -1real } else { 1real } }
/// the component along local edge k, at place t of it, of the function of a cell with inverse Jacobian inv.  This is what
/// HierCurlBasisFn::f_u / f_v compute (u9): f_u = (inv.a, inv.b) * nn(u, i) * tt(v, j), f_v = (inv.c, inv.d) * tt(u, i) * nn(v, j)
pub open spec fn trace(inv: Mat, dir: BasisDir, i: int, j: int, k: int, t: real) -> real {
    match dir {
        BasisDir::U => if k < 2 { inv.a * HierPoly::nn(t, i) * HierPoly::tt(end_of(k), j) } else { inv.b * HierPoly::nn(end_of(k), i) * HierPoly::tt(t, j) },
        BasisDir::V => if k < 2 { inv.c * HierPoly::tt(t, i) * HierPoly::nn(end_of(k), j) } else { inv.d * HierPoly::tt(end_of(k), i) * HierPoly::nn(t, j) },
        BasisDir::W => 0real,
    }
}
pub open spec fn is_on(l: BasisLoc, k: int) -> bool { match l { BasisLoc::EdgeBs(p, _) => p == k, _ => false } }
/// the inverse Jacobian of an axis-aligned cell of some size
pub open spec fn aligned(inv: Mat) -> bool { inv.b == 0real && inv.c == 0real && inv.a != 0real && inv.d != 0real }
/// every cell of a rectangle element is axis-aligned
pub proof fn theorem_aligned(j: Mat)
    requires j.b == 0real, j.c == 0real, j.a != 0real, j.d != 0real
    ensures aligned(j.adj().over(j.det())), j.adj().over(j.det()).a == 1real / j.a, j.adj().over(j.det()).d == 1real / j.d
{
    let (a, d) = (j.a, j.d);
    assert(j.b * j.c == 0real) by (nonlinear_arith) requires j.b == 0real;
    assert(j.det() == a * d);
    recip(a, d);
    recip(d, a);
    assert(a * d == d * a) by (nonlinear_arith);
    let z = a * d;
    assert(z != 0real);
    assert(0real / z == 0real) by (nonlinear_arith) requires z != 0real;
}
proof fn recip(a: real, d: real)
    requires a != 0real, d != 0real
    ensures a * d != 0real, d / (a * d) == 1real / a, 1real / a != 0real
{
    assert(a * d != 0real) by (nonlinear_arith) requires a != 0real, d != 0real;
    let z = a * d;
    let q = d / z;
    assert(q * z == d) by (nonlinear_arith) requires z != 0real, q == d / z;
    assert(q * a * d == d) by (nonlinear_arith) requires q * z == d, z == a * d;
    assert(q * a == 1real) by (nonlinear_arith) requires q * a * d == d, d != 0real;
    let r = 1real / a;
    assert(r * a == 1real) by (nonlinear_arith) requires r == 1real / a, a != 0real;
    assert(q == r) by (nonlinear_arith) requires q * a == 1real, r * a == 1real, a != 0real;
    if r == 0real { assert(r * a == 0real) by (nonlinear_arith) requires r == 0real; }
}
proof fn zero3(a: real, b: real, c: real)
    requires a == 0real || b == 0real || c == 0real
    ensures a * b * c == 0real
{
    if a == 0real { assert(a * b == 0real) by (nonlinear_arith) requires a == 0real; assert(0real * c == 0real) by (nonlinear_arith); }
    else if b == 0real { assert(a * b == 0real) by (nonlinear_arith) requires b == 0real; assert(0real * c == 0real) by (nonlinear_arith); }
    else { let x = a * b; assert(x * c == 0real) by (nonlinear_arith) requires c == 0real; }
}
/// THEOREM (P10): a function that is not attached to an edge of its cell has no tangential component anywhere on it
pub proof fn theorem_trace_vanishes(inv: Mat, cell: Elem, dir: BasisDir, i: u8, j: u8, k: int, t: real)
    requires aligned(inv), 0 <= k < 4, !(dir is W), !is_on(loc_of(cell, dir, i, j), k)
    ensures trace(inv, dir, i as int, j as int, k, t) == 0real
{
    theorem_ends(i as int); theorem_ends(j as int);
    match dir {
        BasisDir::U => if k < 2 { zero3(inv.a, HierPoly::nn(t, i as int), HierPoly::tt(end_of(k), j as int)); } else { zero3(inv.b, HierPoly::nn(end_of(k), i as int), HierPoly::tt(t, j as int)); },
        BasisDir::V => if k < 2 { zero3(inv.c, HierPoly::tt(t, i as int), HierPoly::nn(end_of(k), j as int)); } else { zero3(inv.d, HierPoly::tt(end_of(k), i as int), HierPoly::nn(t, j as int)); },
        BasisDir::W => {},
    }
}
/// THEOREM (P10): a function attached to an edge has a tangential component there that does not vanish identically
pub proof fn theorem_trace_attached(inv: Mat, cell: Elem, dir: BasisDir, i: u8, j: u8, k: int, t: real)
    requires aligned(inv), 0 <= k < 4, !(dir is W), is_on(loc_of(cell, dir, i, j), k)
    ensures trace(inv, dir, i as int, j as int, k, t) == (if dir is U { inv.a * pw(t, i as int) * 2real } else { inv.d * 2real * pw(t, j as int) }),
        trace(inv, dir, i as int, j as int, k, 1real) != 0real, loc_of(cell, dir, i, j) == BasisLoc::EdgeBs(k as u8, cell.edges@[k])
{
    theorem_ends(i as int); theorem_ends(j as int);
    ends(i as int); ends(j as int);
    let (a, d) = (inv.a, inv.d);
    assert(a * 1real * 2real != 0real) by (nonlinear_arith) requires a != 0real;
    assert(d * 2real * 1real != 0real) by (nonlinear_arith) requires d != 0real;
}
/// THEOREM (P10): the traces of matched functions agree at every point of the edge, when the two cells have the same extent along it
pub proof fn theorem_traces_agree(inv: Mat, inw: Mat, m: Mesh, a: BasisSpec, b: BasisSpec, t: real)
    requires aligned(inv), aligned(inw), inv.a == inw.a || !(a.dir is U), inv.d == inw.d || a.dir is U, mates(a, b), valid(m, a), valid(m, b), !(a.dir is W)
    ensures trace(inv, a.dir, a.i as int, a.j as int, a.loc->EdgeBs_0 as int, t) == trace(inw, b.dir, b.i as int, b.j as int, b.loc->EdgeBs_0 as int, t)
{
    theorem_trace_attached(inv, m.elems@[a.elem_id as int], a.dir, a.i, a.j, a.loc->EdgeBs_0 as int, t);
    theorem_trace_attached(inw, m.elems@[b.elem_id as int], b.dir, b.i, b.j, b.loc->EdgeBs_0 as int, t);
}
/// THEOREM (P10): in any domain, the two functions of a degree of freedom on an edge have traces that agree, and no
/// other degree of freedom ties one of them to anything else
pub proof fn theorem_merged(m: Mesh, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, d: int, inv: Mat, inw: Mat, t: real)
    requires dom(m, specs, dofs, seq![], wanted(m)), 0 <= d < dofs.len(), dofs[d].adr().len() == 2, aligned(inv), aligned(inw),
        inv.a == inw.a, inv.d == inw.d,
    ensures ({ let (a, b) = (at(specs, dofs[d].adr()[0]), at(specs, dofs[d].adr()[1]));
        &&& a.loc is EdgeBs && b.loc is EdgeBs && same_edge(a.loc, b.loc)
        &&& trace(inv, a.dir, a.i as int, a.j as int, a.loc->EdgeBs_0 as int, t) == trace(inw, b.dir, b.i as int, b.j as int, b.loc->EdgeBs_0 as int, t) }),
{
    let g = dofs[d].adr();
    assert(shape(m, specs, g));
    assert(grp(dofs, seq![], d) == g);
    assert(names(specs, grp(dofs, seq![], d)[0], d) && names(specs, grp(dofs, seq![], d)[1], d));
    assert(slot_ok(m, specs, dofs, seq![], wanted(m), g[0]) && slot_ok(m, specs, dofs, seq![], wanted(m), g[1]));
    theorem_traces_agree(inv, inw, m, at(specs, g[0]), at(specs, g[1]), t);
}
/// THEOREM (P09): in any domain every stored function belongs to exactly one degree of freedom: the one it names
pub proof fn theorem_one_dof(m: Mesh, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, t: BSAddress, d: int)
    requires dom(m, specs, dofs, seq![], wanted(m)), held(specs, t), 0 <= d < dofs.len()
    ensures dofs[d].adr().contains(t) <==> at(specs, t).dof_id == Some(d as usize)
{
    assert(slot_ok(m, specs, dofs, seq![], wanted(m), t));
    assert(grp(dofs, seq![], d) == dofs[d].adr());
    let n = at(specs, t).dof_id->0 as int;
    if dofs[d].adr().contains(t) { let i = dofs[d].adr().index_of(t); assert(names(specs, grp(dofs, seq![], d)[i], d)); }
    if n == d { assert(grp(dofs, seq![], d).contains(t)); }
}
/// THEOREM (P09): exactly the wanted functions are stored
pub proof fn theorem_stored(m: Mesh, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, q: Fk)
    requires dom(m, specs, dofs, seq![], wanted(m))
    ensures stored(specs, q) <==> want(m, q)
{
    if stored(specs, q) { let t = choose|t: BSAddress| #[trigger] held(specs, t) && fk(at(specs, t)) == q; assert(slot_ok(m, specs, dofs, seq![], wanted(m), t)); }
    if want(m, q) { assert((wanted(m))(q)); }
}
/// THEOREM (P09): at an active edge a function takes part exactly when its order along the edge is within both cells' orders
pub proof fn theorem_edge_orders(m: Mesh, x: int, p: [usize; 2], q: Fk)
    requires cells_ok(m), orders_in(m), sides(m, x, p), on_edge(m, q, x, p), m.edges@[x].active_elems == Some(p)
    ensures want1(m, q) <==> along(q) < ord_along(m, p@[0] as int, q.dir) && along(q) < ord_along(m, p@[1] as int, q.dir)
{
    where_on(m, x, p, q);
    assert(1 <= m.elems@[p@[0] as int].poly_orders.ni && 1 <= m.elems@[p@[1] as int].poly_orders.ni);
}
/// THEOREM (P09): which interior functions an unrefined cell has: ni * (nj - 1) along u and (ni - 1) * nj along v
pub proof fn theorem_interior(m: Mesh, q: Fk)
    requires 0 <= q.e < m.elems@.len(), m.elems@[q.e].children is None
    ensures want0(m, q) <==> match q.dir { BasisDir::U => q.i < m.elems@[q.e].poly_orders.ni && 2 <= q.j <= m.elems@[q.e].poly_orders.nj,
        BasisDir::V => 2 <= q.i <= m.elems@[q.e].poly_orders.ni && q.j < m.elems@[q.e].poly_orders.nj, BasisDir::W => false }
{ }
}
