verus! {
/// a child continues the path of its parent, in the same element
pub open spec fn lineage(m: Mesh, c: int) -> bool {
    let a = m.elems@[c].ancestors@;
    a.len() > 0 ==> { let p = a.last().0 as int; p < c && m.elems@[p].ancestors@ == a.drop_last() && m.elems@[c].element == m.elems@[p].element }
}
pub open spec fn el_of(c: Elem) -> Element { *c.element }
pub open spec fn ssum(lo: int, hi: int, f: spec_fn(int) -> real) -> real decreases hi - lo { if hi <= lo { 0real } else { ssum(lo, hi - 1, f) + f(hi - 1) } }
// ------------------------------------------------------------------ ranges and Jacobians of nested cells
pub open spec fn proper(b: Box2) -> bool { -1real <= b.u.a < b.u.b <= 1real && -1real <= b.v.a < b.v.b <= 1real }
pub proof fn walk_proper(s: Seq<(usize, HRefLoc)>)
    ensures proper(walk(s, unit_box()))
    decreases s.len()
{ if s.len() > 0 { walk_proper(s.drop_last()); } }
pub proof fn phys_gap(p: real, q: real, a: real, b: real)
    ensures phys(p, q, b) - phys(p, q, a) == (b - a) * ((q - p) / 2real)
{
    let w = q - p;
    assert((b + 1real) * w / 2real == (b + 1real) * (w / 2real)) by (nonlinear_arith);
    assert((a + 1real) * w / 2real == (a + 1real) * (w / 2real)) by (nonlinear_arith);
    let h = w / 2real;
    assert((b + 1real) * h - (a + 1real) * h == (b - a) * h) by (nonlinear_arith);
}
pub proof fn jac_pos(x: Element, b: Box2)
    requires proper(b), x.points@[0].x@ < x.points@[3].x@, x.points@[0].y@ < x.points@[3].y@
    ensures ({ let j = x.jac(b.u.a, b.u.b, b.v.a, b.v.b); j.a > 0real && j.d > 0real && j.b == 0real && j.c == 0real && j.det() != 0real })
{
    let (p, q) = (x.points@[0], x.points@[3]);
    phys_gap(p.x@, q.x@, b.u.a, b.u.b); phys_gap(p.y@, q.y@, b.v.a, b.v.b);
    pos_mul(b.u.b - b.u.a, (q.x@ - p.x@) / 2real); pos_mul(b.v.b - b.v.a, (q.y@ - p.y@) / 2real);
    let j = x.jac(b.u.a, b.u.b, b.v.a, b.v.b);
    pos_mul(j.a, j.d);
    assert(0real * 0real == 0real);
}
pub proof fn pos_mul(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn gap_scale(r: Rg, x: real, y: real)
    ensures aff(r, y) - aff(r, x) == (y - x) * ((r.b - r.a) / 2real)
{ let h = (r.b - r.a) / 2real; assert(y * h - x * h == (y - x) * h) by (nonlinear_arith); }
pub proof fn side_scale(p: real, q: real, r: Rg, x: real, y: real)
    ensures (phys(p, q, aff(r, y)) - phys(p, q, aff(r, x))) / 2real == ((y - x) / 2real) * ((phys(p, q, r.b) - phys(p, q, r.a)) / 2real)
{
    phys_gap(p, q, aff(r, x), aff(r, y)); phys_gap(p, q, r.a, r.b); gap_scale(r, x, y);
    let (h, k, z) = ((q - p) / 2real, r.b - r.a, y - x);
    assert((z * (k / 2real)) * h / 2real == (z / 2real) * ((k * h) / 2real)) by (nonlinear_arith);
}
pub proof fn jac_within(x: Element, b: Box2, r: Box2)
    ensures ({ let (c, j) = (place(b, r), x.jac(b.u.a, b.u.b, b.v.a, b.v.b)); let i = x.jac(c.u.a, c.u.b, c.v.a, c.v.b);
        i.a == ((r.u.b - r.u.a) / 2real) * j.a && i.d == ((r.v.b - r.v.a) / 2real) * j.d })
{
    let (p, q) = (x.points@[0], x.points@[3]);
    side_scale(p.x@, q.x@, b.u, r.u.a, r.u.b); side_scale(p.y@, q.y@, b.v, r.v.a, r.v.b);
}
/// all cells on the path come before the cell
pub proof fn path_before(m: Mesh, c: int, j: int)
    requires 0 <= c < m.elems@.len(), forall|e: int| 0 <= e < m.elems@.len() ==> #[trigger] lineage(m, e), 0 <= j < m.elems@[c].ancestors@.len()
    ensures m.elems@[c].ancestors@[j].0 < c
    decreases c
{
    assert(lineage(m, c));
    let a = m.elems@[c].ancestors@;
    let p = a.last().0 as int;
    if j < a.len() - 1 { path_before(m, p, j); assert(m.elems@[p].ancestors@[j] == a[j]); }
}
/// the path of a descendant continues that of the cell
pub proof fn path_below(m: Mesh, e: int, q: int)
    requires elem_tree(m).ok(), forall|e: int| 0 <= e < m.elems@.len() ==> #[trigger] lineage(m, e), elem_tree(m).under(e, q), 0 <= e < m.elems@.len()
    ensures ({ let (a, b) = (m.elems@[e].ancestors@, m.elems@[q].ancestors@); e < q && q < m.elems@.len() && b.len() > a.len() && b.take(a.len() as int) == a && b[a.len() as int].0 == e && m.elems@[q].element == m.elems@[e].element })
    decreases q
{
    elem_tree(m).above(e, q);
    assert(lineage(m, q));
    let (a, b) = (m.elems@[e].ancestors@, m.elems@[q].ancestors@);
    let p = b.last().0 as int;
    assert((elem_tree(m).par)(q) == Some(p));
    if p == e {
        assert(b.take(a.len() as int) =~= a);
    } else {
        path_below(m, e, p);
        assert(b.take(a.len() as int) =~= m.elems@[p].ancestors@.take(a.len() as int));
        assert(b[a.len() as int] == m.elems@[p].ancestors@[a.len() as int]);
    }
}
/// where e occurs on the path of its descendant
pub proof fn path_place(m: Mesh, e: int, q: int, k: int)
    requires elem_tree(m).ok(), forall|e: int| 0 <= e < m.elems@.len() ==> #[trigger] lineage(m, e), elem_tree(m).under(e, q), 0 <= e < m.elems@.len(), first_at(m.elems@[q].ancestors@, e as usize, k)
    ensures k == m.elems@[e].ancestors@.len()
{
    path_below(m, e, q);
    let (a, b) = (m.elems@[e].ancestors@, m.elems@[q].ancestors@);
    if k < a.len() { path_before(m, e, k); assert(b.take(a.len() as int)[k] == a[k]); }
}
pub proof fn aff_unit(x: real) ensures aff(unit_box().u, x) == x, aff(unit_box().v, x) == x
{ assert((-1real + 1real) / 2real == 0real && (1real - (-1real)) / 2real == 1real); assert(x * 1real == x); }
}
