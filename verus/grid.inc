verus! {
// ------------------------------------------------------------------ how the children of a cell lie in it
pub open spec fn joined(m: Mesh, e: int, p: int, q: int, u: bool) -> bool { 0 <= e < m.edges@.len() && m.edges@[e].nodes@[0] == p && m.edges@[e].nodes@[1] == q && (m.edges@[e].dir is U <==> u) }
/// bottom, top, left and right edge join the corners SW, SE, NW, NE they should
pub open spec fn framed(m: Mesh, n: Seq<usize>, e: Seq<usize>) -> bool {
    n[0] < m.nodes@.len() && n[1] < m.nodes@.len() && n[2] < m.nodes@.len() && n[3] < m.nodes@.len()
        && joined(m, e[0] as int, n[0] as int, n[1] as int, true) && joined(m, e[1] as int, n[2] as int, n[3] as int, true) && joined(m, e[2] as int, n[0] as int, n[2] as int, false) && joined(m, e[3] as int, n[1] as int, n[3] as int, false)
}
pub open spec fn cell_ok(m: Mesh, c: int) -> bool { framed(m, m.elems@[c].nodes@, m.elems@[c].edges@) }
/// edges and corners of a cell are different
pub proof fn apart(m: Mesh, n: Seq<usize>, e: Seq<usize>)
    requires net_ok(m), framed(m, n, e)
    ensures e[0] != e[1], e[0] != e[2], e[0] != e[3], e[1] != e[2], e[1] != e[3], e[2] != e[3], n[0] != n[1], n[0] != n[2], n[0] != n[3], n[1] != n[2], n[1] != n[3], n[2] != n[3],
        forall|k: int| 0 <= k < 4 ==> ix(e, #[trigger] e[k] as int) == k, forall|k: int| 0 <= k < 4 ==> ix(n, #[trigger] n[k] as int) == k,
        leads(m, n[0] as int, n[1] as int, true), leads(m, n[2] as int, n[3] as int, true), leads(m, n[0] as int, n[2] as int, false), leads(m, n[1] as int, n[3] as int, false),
        spans(m, n[0] as int, n[1] as int, m.edges@[e[0] as int].length@), spans(m, n[2] as int, n[3] as int, m.edges@[e[1] as int].length@), spans(m, n[0] as int, n[2] as int, m.edges@[e[2] as int].length@), spans(m, n[1] as int, n[3] as int, m.edges@[e[3] as int].length@),
{ assert(edge_ok(m, e[0] as int) && edge_ok(m, e[1] as int) && edge_ok(m, e[2] as int) && edge_ok(m, e[3] as int)); }
pub ghost struct Grid { pub ctr: int, pub v0: int, pub v1: int, pub h0: int, pub h1: int }
/// split along u, along v
pub open spec fn du(h: HRef) -> bool { !(h is V) }
pub open spec fn dv(h: HRef) -> bool { !(h is U) }
/// column and row of child i
pub open spec fn cu(h: HRef, i: int) -> int { if h is T { if i == 1 || i == 3 { 1 } else { 0 } } else if h is U { i } else { 0 } }
pub open spec fn cv(h: HRef, i: int) -> int { if h is T { if i >= 2 { 1 } else { 0 } } else if h is V { i } else { 0 } }
pub open spec fn corner(m: Mesh, c: int, k: int) -> int { m.elems@[c].nodes@[k] as int }
pub open spec fn rim(m: Mesh, c: int, k: int) -> int { m.elems@[c].edges@[k] as int }
pub open spec fn mid_at(m: Mesh, c: int, k: int) -> int { m.edges@[rim(m, c, k)].child_node->0 as int }
pub open spec fn half_at(m: Mesh, c: int, k: int, j: int) -> int { m.edges@[rim(m, c, k)].children->0@[j] as int }
/// the node at column x and row y of the 3 by 3 nodes
pub open spec fn grid_spot(m: Mesh, c: int, g: Grid, x: int, y: int) -> int {
    if x == 1 { if y == 0 { mid_at(m, c, 0) } else if y == 2 { mid_at(m, c, 1) } else { g.ctr } }
    else if y == 1 { if x == 0 { mid_at(m, c, 2) } else { mid_at(m, c, 3) } }
    else if y == 0 { if x == 0 { corner(m, c, 0) } else { corner(m, c, 1) } } else { if x == 0 { corner(m, c, 2) } else { corner(m, c, 3) } }
}
pub open spec fn stop(split: bool, i: int, k: int) -> int { if split { i + k } else { 2 * k } }
pub open spec fn east(k: int) -> int { if k == 1 || k == 3 { 1 } else { 0 } }
pub open spec fn north(k: int) -> int { if k >= 2 { 1 } else { 0 } }
pub open spec fn kid_node(m: Mesh, c: int, h: HRef, g: Grid, i: int, k: int) -> int { grid_spot(m, c, g, stop(du(h), cu(h, i), east(k)), stop(dv(h), cv(h, i), north(k))) }
pub open spec fn kid_edge(m: Mesh, c: int, h: HRef, g: Grid, i: int, k: int) -> int {
    if k < 2 { if dv(h) && cv(h, i) != k { if cu(h, i) == 0 { g.h0 } else { g.h1 } } else if du(h) { half_at(m, c, k, cu(h, i)) } else { rim(m, c, k) } }
    else { if du(h) && cu(h, i) != k - 2 { if cv(h, i) == 0 { g.v0 } else { g.v1 } } else if dv(h) { half_at(m, c, k, cv(h, i)) } else { rim(m, c, k) } }
}
pub open spec fn kid_is(m: Mesh, c: int, h: HRef, g: Grid, i: int, x: Elem) -> bool {
    &&& x.nodes@[0] == kid_node(m, c, h, g, i, 0) && x.nodes@[1] == kid_node(m, c, h, g, i, 1) && x.nodes@[2] == kid_node(m, c, h, g, i, 2) && x.nodes@[3] == kid_node(m, c, h, g, i, 3)
    &&& x.edges@[0] == kid_edge(m, c, h, g, i, 0) && x.edges@[1] == kid_edge(m, c, h, g, i, 1) && x.edges@[2] == kid_edge(m, c, h, g, i, 2) && x.edges@[3] == kid_edge(m, c, h, g, i, 3)
}
/// an inner edge: none of the parent's edges or their halves
pub open spec fn string_at(m: Mesh, e: int, p: int, q: int, u: bool) -> bool { joined(m, e, p, q, u) && m.edges@[e].parent is None && !m.edges@[e].boundary }
pub open spec fn center_at(m: Mesh, c: int, n: int) -> bool {
    0 <= n < m.nodes@.len() && !m.nodes@[n].boundary && px(m, n) * 2real == px(m, corner(m, c, 0)) + px(m, corner(m, c, 3)) && py(m, n) * 2real == py(m, corner(m, c, 0)) + py(m, corner(m, c, 3))
}
pub open spec fn inner_ok(m: Mesh, c: int, h: HRef, g: Grid) -> bool {
    match h {
        HRef::T => center_at(m, c, g.ctr) && string_at(m, g.v0, mid_at(m, c, 0), g.ctr, false) && string_at(m, g.v1, g.ctr, mid_at(m, c, 1), false) && string_at(m, g.h0, mid_at(m, c, 2), g.ctr, true) && string_at(m, g.h1, g.ctr, mid_at(m, c, 3), true),
        HRef::U(_) => string_at(m, g.v0, mid_at(m, c, 0), mid_at(m, c, 1), false),
        HRef::V(_) => string_at(m, g.h0, mid_at(m, c, 2), mid_at(m, c, 3), true),
    }
}
pub open spec fn cleft(m: Mesh, c: int, k: int) -> bool { m.edges@[rim(m, c, k)].children is Some }
pub open spec fn rims_cleft(m: Mesh, c: int, h: HRef) -> bool { (du(h) ==> cleft(m, c, 0) && cleft(m, c, 1)) && (dv(h) ==> cleft(m, c, 2) && cleft(m, c, 3)) }
/// the children of a cell that has been refined
pub open spec fn cut_table(m: Mesh, c: int, h: HRef, g: Grid, z: Seq<Elem>) -> bool {
    z.len() == h.n() && rims_cleft(m, c, h) && inner_ok(m, c, h, g) && forall|i: int| 0 <= i < z.len() ==> kid_is(m, c, h, g, i, #[trigger] z[i])
}
/// the halves of the edges of a cell
pub proof fn rim_facts(m: Mesh, c: int, k: int)
    requires net_ok(m), cell_ok(m, c), 0 <= k < 4, cleft(m, c, k)
    ensures half_ok(m, rim(m, c, k), half_at(m, c, k, 0), m.edges@[rim(m, c, k)].nodes@[0] as int, mid_at(m, c, k)), half_ok(m, rim(m, c, k), half_at(m, c, k, 1), mid_at(m, c, k), m.edges@[rim(m, c, k)].nodes@[1] as int),
        rim(m, c, k) < half_at(m, c, k, 0) < m.edges@.len(), rim(m, c, k) < half_at(m, c, k, 1) < m.edges@.len(), half_at(m, c, k, 0) != half_at(m, c, k, 1), mid_at(m, c, k) < m.nodes@.len(), split_ok(m, rim(m, c, k)),
{ assert(split_ok(m, rim(m, c, k))); }
/// THEOREM (P02): the corners and edges of the children fit together as those of their parent do
pub proof fn theorem_children(m: Mesh, c: int, h: HRef, g: Grid, z: Seq<Elem>)
    requires net_ok(m), cell_ok(m, c), cut_table(m, c, h, g, z)
    ensures forall|i: int| 0 <= i < z.len() ==> framed(m, (#[trigger] z[i]).nodes@, z[i].edges@)
{
    apart(m, m.elems@[c].nodes@, m.elems@[c].edges@);
    if du(h) { rim_facts(m, c, 0); rim_facts(m, c, 1); }
    if dv(h) { rim_facts(m, c, 2); rim_facts(m, c, 3); }
    assert forall|i: int| 0 <= i < z.len() implies framed(m, (#[trigger] z[i]).nodes@, z[i].edges@) by {
        assert(kid_is(m, c, h, g, i, z[i]));
        match h { HRef::T => { assert(i == 0 || i == 1 || i == 2 || i == 3); } HRef::U(_) => { assert(i == 0 || i == 1); } HRef::V(_) => { assert(i == 0 || i == 1); } }
    }
}
/// children never claim the same corner of a node, or the same side of an edge
#[verifier::spinoff_prover]
pub proof fn no_clash(m: Mesh, c: int, h: HRef, g: Grid, z: Seq<Elem>)
    requires net_ok(m), cell_ok(m, c), cut_table(m, c, h, g, z)
    ensures forall|i: int, j: int, k: int| 0 <= i < j < z.len() && 0 <= k < 4 ==> #[trigger] z[i].nodes@[k] != #[trigger] z[j].nodes@[k],
        forall|i: int, j: int, k: int, l: int| 0 <= i < j < z.len() && 0 <= k < 4 && 0 <= l < 4 && side(k) == side(l) ==> #[trigger] z[i].edges@[k] != #[trigger] z[j].edges@[l],
{
    theorem_children(m, c, h, g, z);
    apart(m, m.elems@[c].nodes@, m.elems@[c].edges@);
    if du(h) { rim_facts(m, c, 0); rim_facts(m, c, 1); }
    if dv(h) { rim_facts(m, c, 2); rim_facts(m, c, 3); }
    assert forall|i: int| 0 <= i < z.len() implies kid_is(m, c, h, g, i, #[trigger] z[i]) by { }
    apart(m, z[0].nodes@, z[0].edges@); apart(m, z[1].nodes@, z[1].edges@);
    if h is T { apart(m, z[2].nodes@, z[2].edges@); apart(m, z[3].nodes@, z[3].edges@); }
    assert forall|i: int, j: int, k: int| 0 <= i < j < z.len() && 0 <= k < 4 implies #[trigger] z[i].nodes@[k] != #[trigger] z[j].nodes@[k] by {
        assert(kid_is(m, c, h, g, i, z[i])); assert(kid_is(m, c, h, g, j, z[j]));
        if h is T { assert(z[i].nodes@[k] == z[k].nodes@[i] && z[j].nodes@[k] == z[k].nodes@[j]) by { assert(kid_is(m, c, h, g, k, z[k])); } }
    }
    assert forall|i: int, j: int, k: int, l: int| 0 <= i < j < z.len() && 0 <= k < 4 && 0 <= l < 4 && side(k) == side(l) implies #[trigger] z[i].edges@[k] != #[trigger] z[j].edges@[l] by {
        assert(kid_is(m, c, h, g, i, z[i])); assert(kid_is(m, c, h, g, j, z[j]));
    }
}

// ------------------------------------------------------------------ building the children of a cell
pub open spec fn string_new(m: Mesh, e: int, p: int, q: int, u: bool) -> bool { string_at(m, e, p, q, u) }
pub open spec fn is_rim(a: Mesh, c: int, d: Seq<bool>, e: int) -> bool { (d[0] && e == rim(a, c, 0)) || (d[1] && e == rim(a, c, 1)) || (d[2] && e == rim(a, c, 2)) || (d[3] && e == rim(a, c, 3)) }
/// those edges of the cell have been split, those inner edges added, and nothing else happened
pub open spec fn work(a: Mesh, m: Mesh, c: int, d: Seq<bool>, inn: Seq<int>) -> bool {
    &&& net_ok(m) && grew(a, m)
    &&& forall|k: int| 0 <= k < 4 && #[trigger] d[k] ==> m.edges@[rim(a, c, k)].children is Some
    &&& forall|e: int| 0 <= e < a.edges@.len() && !is_rim(a, c, d, e) ==> #[trigger] m.edges@[e] == a.edges@[e]
    &&& forall|e: int| a.edges@.len() <= e < m.edges@.len() ==> bare(#[trigger] m.edges@[e]) && (m.edges@[e].parent is None ==> !m.edges@[e].boundary && inn.contains(e))
}
pub open spec fn no_edges() -> Seq<bool> { seq![false, false, false, false] }
pub proof fn work_none(a: Mesh, c: int)
    requires net_ok(a)
    ensures work(a, a, c, no_edges(), seq![])
{ grew_none(a); }
pub proof fn work_center(a: Mesh, b: Mesh, c: int)
    requires net_ok(a), a.elements == b.elements, a.elems == b.elems, a.edges == b.edges, b.nodes@.len() == a.nodes@.len() + 1, b.nodes@.take(a.nodes@.len() as int) == a.nodes@, lone_node(b.nodes@.last()), b.nodes@.last().id == a.nodes@.len(), b.nodes@.last().coords.wf()
    ensures work(a, b, c, no_edges(), seq![])
{
    assert forall|n: int| 0 <= n < a.nodes@.len() implies #[trigger] b.nodes@[n] == a.nodes@[n] by { assert(b.nodes@.take(a.nodes@.len() as int)[n] == b.nodes@[n]); }
    assert forall|n: int| 0 <= n < b.nodes@.len() implies #[trigger] node_ok(b, n) by { if n < a.nodes@.len() { assert(node_ok(a, n)); } }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] edge_ok(b, d) by { assert(edge_ok(a, d)); }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] split_ok(b, d) by {
        assert(split_ok(a, d)); assert(edge_ok(a, d)); if a.edges@[d].children is Some { let k = a.edges@[d].children->0; let (i, j) = (k@[0] as int, k@[1] as int);
            let (n, p, q) = (a.edges@[d].child_node->0 as int, a.edges@[d].nodes@[0] as int, a.edges@[d].nodes@[1] as int);
            assert(b.nodes@[n] == a.nodes@[n] && b.nodes@[p] == a.nodes@[p] && b.nodes@[q] == a.nodes@[q]);
            assert(half_ok(b, d, i, a.edges@[d].nodes@[0] as int, a.edges@[d].child_node->0 as int)); assert(half_ok(b, d, j, a.edges@[d].child_node->0 as int, a.edges@[d].nodes@[1] as int)); }
    }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] parent_ok(b, d) by { assert(parent_ok(a, d)); }
}
pub proof fn work_split(a: Mesh, m: Mesh, b: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, k: int)
    requires work(a, m, c, d, inn), d.len() == 4, 0 <= k < 4, forall|j: int| 0 <= j < 4 ==> 0 <= #[trigger] rim(a, c, j) < a.edges@.len(), net_ok(b), b.edges@.len() <= usize::MAX, b.nodes@.len() <= usize::MAX,
        m.edges@[rim(a, c, k)].children is Some && b == m || m.edges@[rim(a, c, k)].children is None && splits(m, b, rim(a, c, k)), grew(m, b),
    ensures work(a, b, c, d.update(k, true), inn), grew(m, b)
{
    grew_on(a, m, b);
    let d2 = d.update(k, true);
    let r = rim(a, c, k);
    assert(kept_edge(a.edges@[r], m.edges@[r]));
    assert forall|j: int| 0 <= j < 4 && #[trigger] d2[j] implies b.edges@[rim(a, c, j)].children is Some by { if j != k { assert(d[j]); assert(kept_edge(m.edges@[rim(a, c, j)], b.edges@[rim(a, c, j)])); } }
    assert forall|e: int| 0 <= e < a.edges@.len() && !is_rim(a, c, d2, e) implies #[trigger] b.edges@[e] == a.edges@[e] by { assert(d2[k]); assert(e != r); assert(!is_rim(a, c, d, e)); assert(m.edges@[e] == a.edges@[e]); }
    assert forall|e: int| a.edges@.len() <= e < b.edges@.len() implies bare(#[trigger] b.edges@[e]) && (b.edges@[e].parent is None ==> !b.edges@[e].boundary && inn.contains(e)) by { if e < m.edges@.len() { assert(b.edges@[e] == m.edges@[e]); } }
}
pub proof fn work_string(a: Mesh, m: Mesh, b: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, p: int, q: int, u: bool)
    requires work(a, m, c, d, inn), strings(m, b, p, q, u), net_ok(b), grew(m, b), d.len() == 4, forall|k: int| 0 <= k < 4 ==> 0 <= #[trigger] rim(a, c, k) < a.edges@.len()
    ensures work(a, b, c, d, inn.push(m.edges@.len() as int)), string_at(b, m.edges@.len() as int, p, q, u)
{
    grew_on(a, m, b);
    let f = m.edges@.len() as int;
    assert forall|e: int| 0 <= e < f implies #[trigger] b.edges@[e] == m.edges@[e] by { assert(b.edges@.take(f)[e] == b.edges@[e]); }
    assert(inn.push(f).last() == f);
    assert(inn.push(f).contains(f));
    assert forall|e: int| 0 <= e < a.edges@.len() && !is_rim(a, c, d, e) implies #[trigger] b.edges@[e] == a.edges@[e] by { assert(m.edges@[e] == a.edges@[e]); }
    assert forall|e: int| a.edges@.len() <= e < b.edges@.len() implies bare(#[trigger] b.edges@[e]) && (b.edges@[e].parent is None ==> !b.edges@[e].boundary && inn.push(f).contains(e)) by {
        if e < f { assert(b.edges@[e] == m.edges@[e]); if m.edges@[e].parent is None { let i = inn.index_of(e); assert(inn.push(f)[i] == e); } }
    }
}
/// what is in place stays
pub proof fn grew_keeps(m: Mesh, b: Mesh, c: int)
    requires grew(m, b), cell_ok(m, c)
    ensures cell_ok(b, c), forall|k: int| 0 <= k < 4 ==> #[trigger] rim(b, c, k) == rim(m, c, k) && corner(b, c, k) == corner(m, c, k), 
        forall|k: int| 0 <= k < 4 && #[trigger] cleft(m, c, k) ==> cleft(b, c, k) && mid_at(b, c, k) == mid_at(m, c, k) && half_at(b, c, k, 0) == half_at(m, c, k, 0) && half_at(b, c, k, 1) == half_at(m, c, k, 1),
        forall|e: int, p: int, q: int, u: bool| #[trigger] string_at(m, e, p, q, u) ==> string_at(b, e, p, q, u),
        forall|n: int| #[trigger] center_at(m, c, n) ==> center_at(b, c, n),
        forall|n: int| 0 <= n < m.nodes@.len() ==> px(b, n) == px(m, n) && #[trigger] py(b, n) == py(m, n),
{
    assert forall|n: int| 0 <= n < m.nodes@.len() implies px(b, n) == px(m, n) && #[trigger] py(b, n) == py(m, n) by { assert(b.nodes@[n] == m.nodes@[n]); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] b.edges@[e] == (Edge { children: b.edges@[e].children, child_node: b.edges@[e].child_node, ..m.edges@[e] }) by { assert(kept_edge(m.edges@[e], b.edges@[e])); }
    assert forall|k: int| 0 <= k < 4 && #[trigger] cleft(m, c, k) implies cleft(b, c, k) && mid_at(b, c, k) == mid_at(m, c, k) && half_at(b, c, k, 0) == half_at(m, c, k, 0) && half_at(b, c, k, 1) == half_at(m, c, k, 1) by { assert(kept_edge(m.edges@[rim(m, c, k)], b.edges@[rim(m, c, k)])); }
    assert forall|n: int| #[trigger] center_at(m, c, n) implies center_at(b, c, n) by { assert(b.nodes@[n] == m.nodes@[n]); assert(py(b, corner(m, c, 0)) == py(m, corner(m, c, 0))); assert(py(b, corner(m, c, 3)) == py(m, corner(m, c, 3))); }
}
// the inner edges are long enough to have a direction
pub open spec fn wide(m: Mesh, c: int) -> bool { forall|k: int| 0 <= k < 4 ==> (m.edges@[#[trigger] rim(m, c, k)]).length@ > MIN_EDGE_LENGTH_real() }
proof fn min_facts()
    ensures tick() * 8real < MIN_EDGE_LENGTH_real(), MIN_EDGE_LENGTH_real() > 0real
{ tick_facts();
    let (a, b) = (MIN_EDGE_LENGTH_real(), tick());
}
proof fn long_enough(dx: real, dy: real, l: real, u: bool)
    requires measures(dx, dy, l), l > MIN_EDGE_LENGTH_real(), runs(dx, dy, u)
    ensures (if u { dx } else { dy }) * 2real > MIN_EDGE_LENGTH_real()
{
    min_facts();
    let (m, x, y) = (MIN_EDGE_LENGTH_real(), rabs(dx), rabs(dy));
    assert(x * x == dx * dx && y * y == dy * dy) by (nonlinear_arith) requires x == dx || x == 0real - dx, y == dy || y == 0real - dy;
    let z = if u { dx } else { dy };
    assert(z > 0real && x <= z && y <= z);
    assert(l * l > m * m) by (nonlinear_arith) requires l > m, m > 0real;
    assert(x * x <= z * z && y * y <= z * z) by (nonlinear_arith) requires 0real <= x <= z, 0real <= y <= z;
    if z * 2real <= m { assert(4real * (z * z) <= m * m) by (nonlinear_arith) requires 0real < z, z * 2real <= m; assert(z * z > 0real) by (nonlinear_arith) requires z > 0real; }
}
/// from the middle of one edge to the middle of the opposite one; from the middles of the edges to the centre
pub proof fn mids_far(m: Mesh, c: int, n: int)
    requires net_ok(m), cell_ok(m, c), wide(m, c)
    ensures
        cleft(m, c, 0) && cleft(m, c, 1) ==> far(m, mid_at(m, c, 0), mid_at(m, c, 1), false),
        cleft(m, c, 2) && cleft(m, c, 3) ==> far(m, mid_at(m, c, 2), mid_at(m, c, 3), true),
        center_at(m, c, n) && cleft(m, c, 0) ==> far(m, mid_at(m, c, 0), n, false),
        center_at(m, c, n) && cleft(m, c, 1) ==> far(m, n, mid_at(m, c, 1), false),
        center_at(m, c, n) && cleft(m, c, 2) ==> far(m, mid_at(m, c, 2), n, true),
        center_at(m, c, n) && cleft(m, c, 3) ==> far(m, n, mid_at(m, c, 3), true),
{
    min_facts();
    apart(m, m.elems@[c].nodes@, m.elems@[c].edges@);
    let (p0, p1, p2, p3) = (corner(m, c, 0), corner(m, c, 1), corner(m, c, 2), corner(m, c, 3));
    assert(rim(m, c, 0) == rim(m, c, 0)); assert(rim(m, c, 1) == rim(m, c, 1)); assert(rim(m, c, 2) == rim(m, c, 2)); assert(rim(m, c, 3) == rim(m, c, 3));
    long_enough(px(m, p1) - px(m, p0), py(m, p1) - py(m, p0), m.edges@[rim(m, c, 0)].length@, true);
    long_enough(px(m, p3) - px(m, p2), py(m, p3) - py(m, p2), m.edges@[rim(m, c, 1)].length@, true);
    long_enough(px(m, p2) - px(m, p0), py(m, p2) - py(m, p0), m.edges@[rim(m, c, 2)].length@, false);
    long_enough(px(m, p3) - px(m, p1), py(m, p3) - py(m, p1), m.edges@[rim(m, c, 3)].length@, false);
    if cleft(m, c, 0) { rim_facts(m, c, 0); }
    if cleft(m, c, 1) { rim_facts(m, c, 1); }
    if cleft(m, c, 2) { rim_facts(m, c, 2); }
    if cleft(m, c, 3) { rim_facts(m, c, 3); }
}
}
