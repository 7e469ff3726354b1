verus! {
// ------------------------------------------------------------------ the mesh described by a file
pub open spec fn z0() -> [u8; 2] { [0u8, 0u8] }
/// the corners joined by the k-th edge of a cell
pub open spec fn from_corner(k: int) -> int { if k == 1 { 2 } else if k == 3 { 1 } else { 0 } }
pub open spec fn to_corner(k: int) -> int { if k == 0 { 1 } else if k == 2 { 2 } else { 3 } }
pub open spec fn lies_u(k: int) -> bool { k < 2 }
pub open spec fn pair_of(ids: Seq<[usize; 4]>, c: int, k: int) -> [usize; 2] { [ids[c]@[from_corner(k)], ids[c]@[to_corner(k)]] }
pub open spec fn near_x(pts: Seq<Point>, a: int, b: int, u: bool) -> bool { runs(pts[b].coord(true) - pts[a].coord(true), pts[b].coord(false) - pts[a].coord(false), u) }
impl Point { pub open spec fn coord(self, x: bool) -> real { if x { self.x@ } else { self.y@ } } }
/// corners that are points, the bottom and top edge along x, the left and right one along y
pub open spec fn upright(pts: Seq<Point>, ids: Seq<[usize; 4]>, c: int) -> bool {
    let n = ids[c]@;
    n[0] < pts.len() && n[1] < pts.len() && n[2] < pts.len() && n[3] < pts.len() && near_x(pts, n[0] as int, n[1] as int, true) && near_x(pts, n[2] as int, n[3] as int, true) && near_x(pts, n[0] as int, n[2] as int, false) && near_x(pts, n[1] as int, n[3] as int, false)
}
pub open spec fn one_side(ids: Seq<[usize; 4]>, c: int, k: int, d: int, l: int) -> bool { pair_of(ids, c, k) == pair_of(ids, d, l) ==> side(k) != side(l) }
pub open spec fn one_corner(ids: Seq<[usize; 4]>, c: int, d: int, q: int) -> bool { ids[c]@[q] != ids[d]@[q] }
/// a planar arrangement of cells: distinct points, upright cells, no two of them at one corner of a node
pub open spec fn flat(pts: Seq<Point>, ids: Seq<[usize; 4]>) -> bool {
    &&& forall|n: int| 0 <= n < pts.len() ==> (#[trigger] pts[n]).wf()
    &&& forall|n: int, m: int| 0 <= n < m < pts.len() ==> !(#[trigger] pts[n]).same(#[trigger] pts[m])
    &&& forall|c: int| 0 <= c < ids.len() ==> #[trigger] upright(pts, ids, c)
    &&& forall|c: int, d: int, q: int| 0 <= c < d < ids.len() && 0 <= q < 4 ==> #[trigger] one_corner(ids, c, d, q)
}
/// no two cells on one side of an edge
pub open spec fn one_sided(ids: Seq<[usize; 4]>) -> bool { forall|c: int, k: int, d: int, l: int| 0 <= c < ids.len() && 0 <= d < ids.len() && 0 <= k < 4 && 0 <= l < 4 && (c != d || k != l) ==> #[trigger] one_side(ids, c, k, d, l) }
pub open spec fn laid(pts: Seq<Point>, ids: Seq<[usize; 4]>) -> bool { flat(pts, ids) && one_sided(ids) }
/// the c-th cell, between its corners
pub open spec fn start_cell(m: Mesh, ids: Seq<[usize; 4]>, x: Elem, c: int) -> bool {
    x.id == c && x.nodes == ids[c] && x.children is None && x.ancestors@.len() == 0 && x.h_levels.u == 0 && x.h_levels.v == 0 && forall|k: int| 0 <= k < 4 ==> (#[trigger] x.edges@[k]) < m.edges@.len() && m.edges@[x.edges@[k] as int].nodes == pair_of(ids, c, k)
}
pub open spec fn start_node(m: Mesh, pts: Seq<Point>, x: int) -> bool { m.nodes@[x].id == x && m.nodes@[x].coords == pts[x] }
pub open spec fn start_edge(m: Mesh, e: int) -> bool {
    let y = m.edges@[e]; let (p, q) = (y.nodes@[0] as int, y.nodes@[1] as int);
    y.id == e && y.parent is None && y.children is None && y.child_node is None && p < m.nodes@.len() && q < m.nodes@.len() && leads(m, p, q, y.dir is U) && spans(m, p, q, y.length@)
}
pub open spec fn at_edge(v: Seq<Elem>, c: int, e: int, s: int) -> bool { 0 <= c < v.len() && ix(v[c].edges@, e) >= 0 && side(ix(v[c].edges@, e)) == s }
pub open spec fn at_node(v: Seq<Elem>, c: int, x: int, q: int) -> bool { 0 <= c < v.len() && ix(v[c].nodes@, x) == q }
/// who stands on that side of that edge, at that corner of that node: exactly the cell that has it there
pub open spec fn held_e(x: Map<[u8; 2], usize>, v: Seq<Elem>, n: int, e: int, s: int) -> bool {
    &&& forall|c: int| 0 <= c < n && #[trigger] at_edge(v, c, e, s) ==> x.dom().contains(z0()) && x[z0()] == c
    &&& forall|key: [u8; 2]| #[trigger] x.dom().contains(key) ==> key == z0() && x[key] < n && at_edge(v, x[key] as int, e, s)
}
pub open spec fn held_n(x: Map<[u8; 2], usize>, v: Seq<Elem>, n: int, y: int, q: int) -> bool {
    &&& forall|c: int| 0 <= c < n && #[trigger] at_node(v, c, y, q) ==> x.dom().contains(z0()) && x[z0()] == c
    &&& forall|key: [u8; 2]| #[trigger] x.dom().contains(key) ==> key == z0() && x[key] < n && at_node(v, x[key] as int, y, q)
}
pub open spec fn holds_e(m: Mesh, v: Seq<Elem>, n: int, e: int, s: int) -> bool { held_e(reg(m, e, s), v, n, e, s) }
pub open spec fn holds_n(m: Mesh, v: Seq<Elem>, n: int, x: int, q: int) -> bool { held_n(cor(m, x, q), v, n, x, q) }
pub open spec fn on_rim(m: Mesh, e: int) -> bool { m.edges@[e].boundary == (vacant(reg(m, e, 0)) || vacant(reg(m, e, 1))) }
pub open spec fn on_rim_n(m: Mesh, x: int) -> bool { m.nodes@[x].boundary == (vacant(cor(m, x, 0)) || vacant(cor(m, x, 1)) || vacant(cor(m, x, 2)) || vacant(cor(m, x, 3))) }
/// nodes at the points, one edge between any two corners that are neighbours, one cell per element
pub open spec fn start_mesh(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>) -> bool {
    &&& m.elems@.len() == ids.len() && m.nodes@.len() == pts.len()
    &&& forall|c: int| 0 <= c < ids.len() ==> start_cell(m, ids, #[trigger] m.elems@[c], c)
    &&& forall|x: int| 0 <= x < pts.len() ==> #[trigger] start_node(m, pts, x)
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] start_edge(m, e)
    &&& forall|e: int, f: int| 0 <= e < f < m.edges@.len() ==> (#[trigger] m.edges@[e]).nodes != (#[trigger] m.edges@[f]).nodes
    &&& forall|e: int, s: int| 0 <= e < m.edges@.len() && 0 <= s < 2 ==> #[trigger] holds_e(m, m.elems@, ids.len() as int, e, s)
    &&& forall|x: int, q: int| 0 <= x < pts.len() && 0 <= q < 4 ==> #[trigger] holds_n(m, m.elems@, ids.len() as int, x, q)
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] on_rim(m, e)
    &&& forall|x: int| 0 <= x < pts.len() ==> #[trigger] on_rim_n(m, x)
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> !(vacant(#[trigger] reg(m, e, 0)) && vacant(reg(m, e, 1)))
}
pub proof fn start_framed(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>, x: Elem, c: int)
    requires 0 <= c < ids.len(), m.nodes@.len() == pts.len(), start_cell(m, ids, x, c), laid(pts, ids),
        forall|x: int| 0 <= x < pts.len() ==> #[trigger] start_node(m, pts, x), forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] start_edge(m, e)
    ensures framed(m, x.nodes@, x.edges@), forall|k: int| 0 <= k < 4 ==> ix(x.edges@, #[trigger] x.edges@[k] as int) == k, forall|k: int| 0 <= k < 4 ==> ix(x.nodes@, #[trigger] x.nodes@[k] as int) == k
{
    assert(upright(pts, ids, c));
    let n = x.nodes@;
    assert(start_node(m, pts, n[0] as int) && start_node(m, pts, n[1] as int) && start_node(m, pts, n[2] as int) && start_node(m, pts, n[3] as int));
    assert forall|k: int| 0 <= k < 4 implies #[trigger] joined(m, x.edges@[k] as int, n[from_corner(k)] as int, n[to_corner(k)] as int, lies_u(k)) by {
        assert(m.edges@[x.edges@[k] as int].nodes@ == pair_of(ids, c, k)@);
        assert(start_edge(m, x.edges@[k] as int));
    }
    assert(joined(m, x.edges@[0] as int, n[0] as int, n[1] as int, true)) by { assert(joined(m, x.edges@[0] as int, n[from_corner(0)] as int, n[to_corner(0)] as int, lies_u(0))); }
    assert(joined(m, x.edges@[1] as int, n[2] as int, n[3] as int, true)) by { assert(joined(m, x.edges@[1] as int, n[from_corner(1)] as int, n[to_corner(1)] as int, lies_u(1))); }
    assert(joined(m, x.edges@[2] as int, n[0] as int, n[2] as int, false)) by { assert(joined(m, x.edges@[2] as int, n[from_corner(2)] as int, n[to_corner(2)] as int, lies_u(2))); }
    assert(joined(m, x.edges@[3] as int, n[1] as int, n[3] as int, false)) by { assert(joined(m, x.edges@[3] as int, n[from_corner(3)] as int, n[to_corner(3)] as int, lies_u(3))); }
    let e = x.edges@;
    assert(e[0] != e[1] && e[0] != e[2] && e[0] != e[3] && e[1] != e[2] && e[1] != e[3] && e[2] != e[3] && n[0] != n[1] && n[0] != n[2] && n[0] != n[3] && n[1] != n[2] && n[1] != n[3] && n[2] != n[3]);
}
/// such a mesh fits together
#[verifier::spinoff_prover]
pub proof fn start_whole(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>)
    requires start_mesh(m, pts, ids), laid(pts, ids), m.elems@.len() <= usize::MAX
    ensures whole(m)
{
    let v = m.elems@;
    assert forall|n: int| 0 <= n < m.nodes@.len() implies #[trigger] node_ok(m, n) by { assert(start_node(m, pts, n)); assert(pts[n].wf()); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] edge_ok(m, e) && split_ok(m, e) && parent_ok(m, e) by { assert(start_edge(m, e)); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] split_ok(m, e) by { assert(edge_ok(m, e)); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] parent_ok(m, e) by { assert(edge_ok(m, e)); }
    assert forall|e: int, f: int| 0 <= e < m.edges@.len() && 0 <= f < m.edges@.len() && (#[trigger] m.edges@[e]).child_node is Some && (#[trigger] m.edges@[f]).child_node == m.edges@[e].child_node implies e == f by { assert(start_edge(m, e)); }
    assert forall|c: int| 0 <= c < v.len() implies #[trigger] cell_all(m, -1, c) by {
        let x = v[c];
        assert(start_cell(m, ids, m.elems@[c], c));
        start_framed(m, pts, ids, x, c);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] secured(m, c, k) && tops(m, c, k) by {
            let (e, n) = (rim(m, c, k), corner(m, c, k));
            assert(ix(x.edges@, x.edges@[k] as int) == k && ix(x.nodes@, x.nodes@[k] as int) == k);
            assert(holds_e(m, v, ids.len() as int, e, side(k))); assert(at_edge(v, c, e, side(k)));
            assert(start_node(m, pts, n) && holds_n(m, v, ids.len() as int, n, k)); assert(at_node(v, c, n, k));
            assert(ekey(m, c, k)@ =~= z0()@); assert(ekey(m, c, k) =~= z0());
            assert(nkey(m, c)@ =~= z0()@); assert(nkey(m, c) =~= z0());
            assert(start_edge(m, e));
        }
        assert(secured(m, c, 0) && secured(m, c, 1) && secured(m, c, 2) && secured(m, c, 3));
    }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] edge_all(m, e) by {
        assert(start_edge(m, e)); assert(on_rim(m, e));
        assert forall|s: int| 0 <= s < 2 implies #[trigger] true_e(m, e, s) by {
            assert(holds_e(m, v, ids.len() as int, e, s));
            assert forall|key: [u8; 2]| #[trigger] reg(m, e, s).dom().contains(key) implies lies_some(m, reg(m, e, s)[key] as int, e, s, key) by {
                let d = reg(m, e, s)[key] as int;
                assert(start_cell(m, ids, m.elems@[d], d));
                let k = ix(v[d].edges@, e);
                assert(at_edge(v, d, e, s));
                assert(ekey(m, d, k)@ =~= z0()@); assert(ekey(m, d, k) =~= z0());
                assert(lies(m, d, e, s, k, key));
            }
        }
        assert(true_e(m, e, 0) && true_e(m, e, 1));
    }
    assert forall|x: int| 0 <= x < m.nodes@.len() implies #[trigger] node_all(m, x) by {
        assert forall|q: int| 0 <= q < 4 implies #[trigger] true_n(m, x, q) by {
            assert(holds_n(m, v, ids.len() as int, x, q));
            assert forall|key: [u8; 2]| #[trigger] cor(m, x, q).dom().contains(key) implies ({ let d = cor(m, x, q)[key] as int; d < m.elems@.len() && corner(m, d, q) == x && key == nkey(m, d) }) by {
                let d = cor(m, x, q)[key] as int;
                assert(at_node(v, d, x, q)); assert(start_cell(m, ids, m.elems@[d], d));
                assert(nkey(m, d)@ =~= z0()@); assert(nkey(m, d) =~= z0());
            }
        }
        assert(true_n(m, x, 0) && true_n(m, x, 1) && true_n(m, x, 2) && true_n(m, x, 3));
    }
}

/// the mesh before any cell is registered
pub open spec fn bare_mesh(m: Mesh, pts: Seq<Point>) -> bool {
    &&& m.nodes@.len() == pts.len()
    &&& forall|x: int| 0 <= x < pts.len() ==> #[trigger] start_node(m, pts, x) && lone_node(m.nodes@[x])
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] start_edge(m, e) && bare(m.edges@[e])
    &&& forall|e: int, f: int| 0 <= e < f < m.edges@.len() ==> (#[trigger] m.edges@[e]).nodes != (#[trigger] m.edges@[f]).nodes
}
pub open spec fn cells_upto(m: Mesh, ids: Seq<[usize; 4]>, v: Seq<Elem>, n: int) -> bool { n <= v.len() && n <= ids.len() && forall|c: int| 0 <= c < n ==> start_cell(m, ids, #[trigger] v[c], c) }
pub proof fn lone_edge_side(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>, v: Seq<Elem>, n: int, c: int, d: int, e: int, s: int)
    requires laid(pts, ids), cells_upto(m, ids, v, n), 0 <= c < n, 0 <= d < n, at_edge(v, c, e, s), at_edge(v, d, e, s)
    ensures c == d
{
    let (k, l) = (ix(v[c].edges@, e), ix(v[d].edges@, e));
    assert(start_cell(m, ids, v[c], c) && start_cell(m, ids, v[d], d));
    assert(v[c].edges@[k] == e && v[d].edges@[l] == e);
    if c != d { assert(one_side(ids, c, k, d, l)); }
}
pub proof fn lone_corner(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>, v: Seq<Elem>, n: int, c: int, d: int, x: int, q: int)
    requires laid(pts, ids), cells_upto(m, ids, v, n), 0 <= c < n, 0 <= d < n, 0 <= q < 4, at_node(v, c, x, q), at_node(v, d, x, q)
    ensures c == d
{
    assert(start_cell(m, ids, v[c], c) && start_cell(m, ids, v[d], d));
    assert(v[c].nodes@[q] == x && v[d].nodes@[q] == x);
    if c < d { assert(one_corner(ids, c, d, q)); }
    if d < c { assert(one_corner(ids, d, c, q)); }
}
pub proof fn z0_keys(h: HLevels, u: bool)
    requires h.u == 0, h.v == 0
    ensures edge_key(h, u) == z0(), node_key(h) == z0()
{
    assert(edge_key(h, u)@ =~= z0()@); assert(edge_key(h, u) =~= z0()); assert(node_key(h)@ =~= z0()@); assert(node_key(h) =~= z0());
}
pub proof fn emap_held(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>, v: Seq<Elem>, n: int, e: int, s: int)
    requires laid(pts, ids), bare_mesh(m, pts), cells_upto(m, ids, v, n), 0 <= n, 0 <= e < m.edges@.len(), 0 <= s < 2
    ensures held_e(emap(m, v, n, e, s), v, n, e, s)
    decreases n
{
    assert(start_edge(m, e));
    if n > 0 {
        emap_held(m, pts, ids, v, n - 1, e, s);
        let x = v[n - 1];
        assert(start_cell(m, ids, v[n - 1], n - 1));
        z0_keys(x.h_levels, m.edges@[e].dir is U);
        if at_edge(v, n - 1, e, s) {
            assert(emap(m, v, n, e, s) == emap(m, v, n - 1, e, s).insert(z0(), x.id));
            assert forall|c: int| 0 <= c < n && #[trigger] at_edge(v, c, e, s) implies c == n - 1 by { lone_edge_side(m, pts, ids, v, n, c, n - 1, e, s); }
        } else { assert(emap(m, v, n, e, s) == emap(m, v, n - 1, e, s)); }
    }
}
pub proof fn nmap_held(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>, v: Seq<Elem>, n: int, x: int, q: int)
    requires laid(pts, ids), bare_mesh(m, pts), cells_upto(m, ids, v, n), 0 <= n, 0 <= x < m.nodes@.len(), 0 <= q < 4
    ensures held_n(nmap(m, v, n, x, q), v, n, x, q)
    decreases n
{
    assert(start_node(m, pts, x));
    if n > 0 {
        nmap_held(m, pts, ids, v, n - 1, x, q);
        let y = v[n - 1];
        assert(start_cell(m, ids, v[n - 1], n - 1));
        z0_keys(y.h_levels, true);
        if at_node(v, n - 1, x, q) {
            assert(nmap(m, v, n, x, q) == nmap(m, v, n - 1, x, q).insert(z0(), y.id));
            assert forall|c: int| 0 <= c < n && #[trigger] at_node(v, c, x, q) implies c == n - 1 by { lone_corner(m, pts, ids, v, n, c, n - 1, x, q); }
        } else { assert(nmap(m, v, n, x, q) == nmap(m, v, n - 1, x, q)); }
    }
}
/// the places of the next cell are free
pub proof fn start_free(m: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>, v: Seq<Elem>, n: int, k: int)
    requires laid(pts, ids), bare_mesh(m, pts), cells_upto(m, ids, v, n + 1), 0 <= n, 0 <= k < 4
    ensures efree(m, v, n, k), nfree(m, v, n, k), ix(v[n].edges@, v[n].edges@[k] as int) == k, ix(v[n].nodes@, v[n].nodes@[k] as int) == k
{
    assert(start_cell(m, ids, v[n], n));
    assert forall|x: int| 0 <= x < pts.len() implies #[trigger] start_node(m, pts, x) by { assert(start_node(m, pts, x) && lone_node(m.nodes@[x])); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] start_edge(m, e) by { assert(start_edge(m, e) && bare(m.edges@[e])); }
    start_framed(m, pts, ids, v[n], n);
    let (e, x) = (v[n].edges@[k] as int, v[n].nodes@[k] as int);
    assert(start_edge(m, e) && start_node(m, pts, x));
    assert(ix(v[n].edges@, v[n].edges@[k] as int) == k && ix(v[n].nodes@, v[n].nodes@[k] as int) == k);
    z0_keys(v[n].h_levels, m.edges@[e].dir is U);
    assert(cells_upto(m, ids, v, n)) by { assert forall|c: int| 0 <= c < n implies start_cell(m, ids, #[trigger] v[c], c) by { } }
    emap_held(m, pts, ids, v, n, e, side(k));
    nmap_held(m, pts, ids, v, n, x, k);
    let (a, b) = (emap(m, v, n, e, side(k)), nmap(m, v, n, x, k));
    assert(at_edge(v, n, e, side(k)) && at_node(v, n, x, k));
    if a.dom().contains(z0()) { lone_edge_side(m, pts, ids, v, n + 1, a[z0()] as int, n, e, side(k)); }
    if b.dom().contains(z0()) { lone_corner(m, pts, ids, v, n + 1, b[z0()] as int, n, x, k); }
}
pub proof fn emap_more(m: Mesh, v: Seq<Elem>, y: Elem, n: int, e: int, s: int)
    requires n <= v.len()
    ensures emap(m, v.push(y), n, e, s) == emap(m, v, n, e, s)
    decreases n
{ if n > 0 { emap_more(m, v, y, n - 1, e, s); } }
pub proof fn nmap_more(m: Mesh, v: Seq<Elem>, y: Elem, n: int, x: int, q: int)
    requires n <= v.len()
    ensures nmap(m, v.push(y), n, x, q) == nmap(m, v, n, x, q)
    decreases n
{ if n > 0 { nmap_more(m, v, y, n - 1, x, q); } }
pub proof fn enrol_push(a: Mesh, b: Mesh, v: Seq<Elem>, y: Elem)
    requires enrolled(a, b, v, v.len() as int, 0, 0)
    ensures enrolled(a, b, v.push(y), v.len() as int, 0, 0)
{
    let n = v.len() as int;
    assert forall|e: int, s: int| 0 <= e < a.edges@.len() && 0 <= s < 2 implies (#[trigger] b.edges@[e].elems@[s])@ == emap(a, v.push(y), n, e, s) by { emap_more(a, v, y, n, e, s); }
    assert forall|x: int, c: int| 0 <= x < a.nodes@.len() && 0 <= c < 4 implies (#[trigger] b.nodes@[x].elems@[c])@ == nmap(a, v.push(y), n, x, c) by { nmap_more(a, v, y, n, x, c); }
}
// ------------------------------------------------------------------ counting the cells at a node
pub open spec fn had(ids: Seq<[usize; 4]>, x: int, q: int, n: int) -> bool { exists|c: int| 0 <= c < n && (#[trigger] ids[c])@[q] == x }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn hit_at(ids: Seq<[usize; 4]>, x: int, q: int, n: int, j: int) -> int { b2i(had(ids, x, q, if q < j { n + 1 } else { n })) }
/// by the first n cells and the first j corners of the next
pub open spec fn hits(ids: Seq<[usize; 4]>, x: int, n: int, j: int) -> int { hit_at(ids, x, 0, n, j) + hit_at(ids, x, 1, n, j) + hit_at(ids, x, 2, n, j) + hit_at(ids, x, 3, n, j) }
pub proof fn hits_step(pts: Seq<Point>, ids: Seq<[usize; 4]>, n: int, j: int)
    requires flat(pts, ids), 0 <= n < ids.len(), 0 <= j < 4
    ensures forall|x: int| #[trigger] hits(ids, x, n, j + 1) == hits(ids, x, n, j) + b2i(ids[n]@[j] == x)
{
    assert forall|x: int| #[trigger] hits(ids, x, n, j + 1) == hits(ids, x, n, j) + b2i(ids[n]@[j] == x) by {
        if ids[n]@[j] == x {
            assert(had(ids, x, j, n + 1)) by { assert(ids[n]@[j] == x); }
            if had(ids, x, j, n) { let c = choose|c: int| 0 <= c < n && (#[trigger] ids[c])@[j] == x; assert(one_corner(ids, c, n, j)); }
        } else {
            if had(ids, x, j, n + 1) { let c = choose|c: int| 0 <= c < n + 1 && (#[trigger] ids[c])@[j] == x; assert(c < n); assert(had(ids, x, j, n)); }
            if had(ids, x, j, n) { let c = choose|c: int| 0 <= c < n && (#[trigger] ids[c])@[j] == x; assert(0 <= c < n + 1 && ids[c]@[j] == x); assert(had(ids, x, j, n + 1)); }
        }
        assert(j == 0 || j == 1 || j == 2 || j == 3);
    }
}
pub proof fn hits_next(ids: Seq<[usize; 4]>, n: int)
    ensures forall|x: int| #[trigger] hits(ids, x, n, 4) == hits(ids, x, n + 1, 0)
{ }
pub proof fn hits_none(ids: Seq<[usize; 4]>)
    ensures forall|x: int| #[trigger] hits(ids, x, 0, 0) == 0
{ }
// ------------------------------------------------------------------ the table of edges
pub open spec fn past(c: int, k: int, n: int, j: int) -> bool { c < n || (c == n && k < j) }
pub type Tab = Map<[usize; 2], [Option<usize>; 2]>;
pub open spec fn filed(p: Tab, ids: Seq<[usize; 4]>, c: int, k: int) -> bool { p.dom().contains(pair_of(ids, c, k)) && p[pair_of(ids, c, k)]@[side(k)] == Some(c as usize) }
pub open spec fn backs(ids: Seq<[usize; 4]>, c: int, k: int, key: [usize; 2], s: int, n: int, j: int) -> bool { pair_of(ids, c, k) == key && side(k) == s && past(c, k, n, j) }
pub open spec fn backed(ids: Seq<[usize; 4]>, c: int, key: [usize; 2], s: int, n: int, j: int) -> bool { 0 <= c < ids.len() && (backs(ids, c, 0, key, s, n, j) || backs(ids, c, 1, key, s, n, j) || backs(ids, c, 2, key, s, n, j) || backs(ids, c, 3, key, s, n, j)) }
pub open spec fn true_entry(p: Tab, ids: Seq<[usize; 4]>, key: [usize; 2], n: int, j: int) -> bool {
    let x = p[key]@;
    (x[0] is Some || x[1] is Some) && (x[0] is Some ==> backed(ids, x[0]->0 as int, key, 0, n, j)) && (x[1] is Some ==> backed(ids, x[1]->0 as int, key, 1, n, j))
}
pub open spec fn tab_ok(p: Tab, ids: Seq<[usize; 4]>, n: int, j: int) -> bool {
    &&& forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 && past(c, k, n, j) ==> #[trigger] filed(p, ids, c, k)
    &&& forall|key: [usize; 2]| #[trigger] p.dom().contains(key) ==> true_entry(p, ids, key, n, j)
}
pub open spec fn entry_of(s: int, c: usize) -> [Option<usize>; 2] { if s == 0 { [Some(c), None] } else { [None, Some(c)] } }
pub proof fn tab_free(p: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>, n: int, j: int)
    requires tab_ok(p, ids, n, j), 0 <= n < ids.len(), 0 <= j < 4
    ensures one_sided(ids) && p.dom().contains(pair_of(ids, n, j)) ==> p[pair_of(ids, n, j)]@[side(j)] is None
{
    let key = pair_of(ids, n, j);
    if one_sided(ids) && p.dom().contains(key) && p[key]@[side(j)] is Some {
        assert(true_entry(p, ids, key, n, j));
        let c = p[key]@[side(j)]->0 as int;
        assert(backed(ids, c, key, side(j), n, j));
        assert(one_side(ids, c, 0, n, j) || (c == n && j == 0)); assert(one_side(ids, c, 1, n, j) || (c == n && j == 1)); assert(one_side(ids, c, 2, n, j) || (c == n && j == 2)); assert(one_side(ids, c, 3, n, j) || (c == n && j == 3));
    }
}
pub proof fn tab_step(p: Tab, q: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>, n: int, j: int)
    requires tab_ok(p, ids, n, j), 0 <= n < ids.len(), 0 <= j < 4, ids.len() <= usize::MAX,
        p.dom().contains(pair_of(ids, n, j)) ==> p[pair_of(ids, n, j)]@[side(j)] is None,
        ({ let key = pair_of(ids, n, j); let s = side(j);
        &&& q == p.insert(key, q[key])
        &&& q[key]@[s] == Some(n as usize)
        &&& q[key]@[1 - s] == (if p.dom().contains(key) { p[key]@[1 - s] } else { None }) })
    ensures tab_ok(q, ids, n, j + 1)
{
    let key = pair_of(ids, n, j); let s = side(j);
    assert forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 && past(c, k, n, j + 1) implies #[trigger] filed(q, ids, c, k) by {
        if c == n && k == j { } else {
            assert(filed(p, ids, c, k));
            if pair_of(ids, c, k) == key { assert(side(k) == 1 - s); }
        }
    }
    assert forall|y: [usize; 2]| #[trigger] q.dom().contains(y) implies true_entry(q, ids, y, n, j + 1) by {
        if p.dom().contains(y) { assert(true_entry(p, ids, y, n, j)); }
        if y == key { assert(backs(ids, n, j, key, s, n, j + 1)); assert(backed(ids, n, key, s, n, j + 1)); }
    }
}
pub proof fn tab_next(p: Tab, ids: Seq<[usize; 4]>, n: int)
    requires tab_ok(p, ids, n, 4)
    ensures tab_ok(p, ids, n + 1, 0)
{
    assert forall|y: [usize; 2]| #[trigger] p.dom().contains(y) implies true_entry(p, ids, y, n + 1, 0) by { assert(true_entry(p, ids, y, n, 4)); }
}
/// a full table leaves no room for two cells on one side of an edge
pub proof fn tab_done(p: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>)
    requires flat(pts, ids), tab_ok(p, ids, ids.len() as int, 0), ids.len() <= usize::MAX
    ensures laid(pts, ids)
{
    assert forall|c: int, k: int, d: int, l: int| 0 <= c < ids.len() && 0 <= d < ids.len() && 0 <= k < 4 && 0 <= l < 4 && (c != d || k != l) implies #[trigger] one_side(ids, c, k, d, l) by {
        assert(filed(p, ids, c, k) && filed(p, ids, d, l));
        if pair_of(ids, c, k) == pair_of(ids, d, l) && side(k) == side(l) {
            assert(c == d);
            assert(upright(pts, ids, c));
            assert(pair_of(ids, c, k)@ == pair_of(ids, c, l)@);
            assert(pair_of(ids, c, k)@[0] == pair_of(ids, c, l)@[0] && pair_of(ids, c, k)@[1] == pair_of(ids, c, l)@[1]);
            assert(k == 0 || k == 1 || k == 2 || k == 3); assert(l == 0 || l == 1 || l == 2 || l == 3);
        }
    }
}
/// the two corners of an edge in the table
pub proof fn key_runs(p: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>, key: [usize; 2])
    requires laid(pts, ids), tab_ok(p, ids, ids.len() as int, 0), p.dom().contains(key)
    ensures key@[0] < pts.len(), key@[1] < pts.len(), !pts[key@[0] as int].same(pts[key@[1] as int]),
        near_x(pts, key@[0] as int, key@[1] as int, true) || near_x(pts, key@[0] as int, key@[1] as int, false)
{
    assert(true_entry(p, ids, key, ids.len() as int, 0));
    let x = p[key]@;
    let s = if x[0] is Some { 0int } else { 1 };
    let c = x[s]->0 as int;
    assert(backed(ids, c, key, s, ids.len() as int, 0));
    assert(upright(pts, ids, c));
    let (a, b) = (key@[0] as int, key@[1] as int);
    assert(a != b);
    assert(a < pts.len() && b < pts.len());
    assert(pts[a].same(pts[b]) <==> pts[b].same(pts[a]));
    if a < b { assert(!pts[a].same(pts[b])); } else { assert(!pts[b].same(pts[a])); }
}
/// which edge of the cell it is
pub proof fn key_place(p: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>, key: [usize; 2], s: int) -> (k: int)
    requires laid(pts, ids), tab_ok(p, ids, ids.len() as int, 0), p.dom().contains(key), 0 <= s < 2, p[key]@[s] is Some
    ensures p[key]@[s]->0 < ids.len(), 0 <= k < 4, pair_of(ids, p[key]@[s]->0 as int, k) == key, side(k) == s, near_x(pts, key@[0] as int, key@[1] as int, k < 2)
{
    assert(true_entry(p, ids, key, ids.len() as int, 0));
    let c = p[key]@[s]->0 as int;
    assert(backed(ids, c, key, s, ids.len() as int, 0));
    assert(upright(pts, ids, c));
    if backs(ids, c, 0, key, s, ids.len() as int, 0) { 0 } else if backs(ids, c, 1, key, s, ids.len() as int, 0) { 1 } else if backs(ids, c, 2, key, s, ids.len() as int, 0) { 2 } else { 3 }
}
// ------------------------------------------------------------------ the edges of every cell
pub type Rows<'a> = Seq<([usize; 2], &'a [Option<usize>; 2])>;
pub open spec fn turned(t: Seq<[Option<usize>; 4]>, l: Rows, ids: Seq<[usize; 4]>, c: int, k: int, e: int, s: int) -> bool {
    &&& t[c]@[k] is Some ==> t[c]@[k]->0 < l.len() && l[t[c]@[k]->0 as int].0 == pair_of(ids, c, k) && past(t[c]@[k]->0 as int, side(k), e, s)
    &&& forall|f: int| 0 <= f < l.len() && past(f, side(k), e, s) && (#[trigger] l[f]).0 == pair_of(ids, c, k) ==> t[c]@[k] == Some(f as usize)
}
pub open spec fn turns(t: Seq<[Option<usize>; 4]>, l: Rows, ids: Seq<[usize; 4]>, e: int, s: int) -> bool {
    t.len() == ids.len() && forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 ==> #[trigger] turned(t, l, ids, c, k, e, s)
}
/// one more side of one more edge
pub proof fn turn_step(t: Seq<[Option<usize>; 4]>, u: Seq<[Option<usize>; 4]>, l: Rows, p: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>, e: int, s: int)
    requires laid(pts, ids), tab_ok(p, ids, ids.len() as int, 0), rows_of(l, p), 0 <= e < l.len(), 0 <= s < 2, turns(t, l, ids, e, s), l.len() <= usize::MAX, ids.len() <= usize::MAX,
        match l[e].1@[s] {
            None => u == t,
            Some(c) => exists|k: int| #[trigger] noted(t, u, ids, c as int, k, l[e].0, s, e),
        }
    ensures turns(u, l, ids, e, s + 1)
{
    let key = l[e].0;
    assert(p.dom().contains(key) && p[key] == *l[e].1);
    assert forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 implies #[trigger] turned(u, l, ids, c, k, e, s + 1) by {
        assert(turned(t, l, ids, c, k, e, s));
        assert(filed(p, ids, c, k));
        assert forall|f: int| 0 <= f < l.len() && past(f, side(k), e, s + 1) && (#[trigger] l[f]).0 == pair_of(ids, c, k) implies u[c]@[k] == Some(f as usize) by {
            if f == e && side(k) == s {
                assert(p[key]@[s] == Some(c as usize));
                let k2 = choose|k2: int| #[trigger] noted(t, u, ids, c, k2, l[e].0, s, e);
                assert(noted(t, u, ids, c, k2, l[e].0, s, e));
                if k2 != k { assert(one_side(ids, c, k, c, k2)); }
            } else {
                assert(past(f, side(k), e, s));
                assert(t[c]@[k] == Some(f as usize));
                if l[e].1@[s] is Some {
                    let d = l[e].1@[s]->0 as int;
                    let k2 = choose|k2: int| #[trigger] noted(t, u, ids, d, k2, l[e].0, s, e);
                    assert(noted(t, u, ids, d, k2, l[e].0, s, e));
                    if d == c && k2 == k { assert(l[f].0 == l[e].0); rows_differ(l, p, e, f); }
                }
            }
        }
        if l[e].1@[s] is Some {
            let d = l[e].1@[s]->0 as int;
            let k2 = choose|k2: int| #[trigger] noted(t, u, ids, d, k2, l[e].0, s, e);
            assert(noted(t, u, ids, d, k2, l[e].0, s, e));
        }
    }
}
pub open spec fn noted(t: Seq<[Option<usize>; 4]>, u: Seq<[Option<usize>; 4]>, ids: Seq<[usize; 4]>, c: int, k: int, key: [usize; 2], s: int, e: int) -> bool {
    0 <= c < ids.len() && 0 <= k < 4 && pair_of(ids, c, k) == key && side(k) == s && u.len() == t.len() && (forall|d: int| 0 <= d < t.len() && d != c ==> #[trigger] u[d] == t[d]) && u[c]@ == t[c]@.update(k, Some(e as usize))
}
/// every entry once
pub open spec fn rows_of(l: Rows, p: Tab) -> bool {
    &&& l.len() == p.len()
    &&& forall|i: int| 0 <= i < l.len() ==> p.dom().contains((#[trigger] l[i]).0) && p[l[i].0] == *l[i].1
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0
    &&& forall|k: [usize; 2]| #[trigger] p.dom().contains(k) ==> row_for(l, k)
}
pub open spec fn row_for(l: Rows, k: [usize; 2]) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k }
pub proof fn rows_listed(l: Rows, p: Tab)
    requires listing_ref(l, p)
    ensures rows_of(l, p)
{
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[j]).0 by { assert(<[usize; 2]>::klt(l[i].0, l[j].0)); }
    assert forall|k: [usize; 2]| #[trigger] p.dom().contains(k) implies row_for(l, k) by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k; assert(l[i].0 == k); }
}
pub proof fn rows_differ(l: Rows, p: Tab, e: int, f: int)
    requires rows_of(l, p), 0 <= e < l.len(), 0 <= f < l.len(), l[e].0 == l[f].0
    ensures e == f
{ if e < f { assert(l[e].0 != l[f].0); } if f < e { assert(l[f].0 != l[e].0); } }
pub proof fn turn_none(t: Seq<[Option<usize>; 4]>, l: Rows, ids: Seq<[usize; 4]>)
    requires t.len() == ids.len(), forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 ==> (#[trigger] t[c]@[k]) is None
    ensures turns(t, l, ids, 0, 0)
{
    assert forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 implies #[trigger] turned(t, l, ids, c, k, 0, 0) by { assert(t[c]@[k] is None); assert(side(k) == 0 || side(k) == 1); }
}
pub proof fn turn_next(t: Seq<[Option<usize>; 4]>, l: Rows, ids: Seq<[usize; 4]>, e: int)
    requires turns(t, l, ids, e, 2)
    ensures turns(t, l, ids, e + 1, 0)
{
    assert forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 implies #[trigger] turned(t, l, ids, c, k, e + 1, 0) by { assert(turned(t, l, ids, c, k, e, 2)); assert(side(k) == 0 || side(k) == 1); }
}
/// every edge of every cell is found
pub proof fn turn_full(t: Seq<[Option<usize>; 4]>, l: Rows, p: Tab, ids: Seq<[usize; 4]>, c: int)
    requires turns(t, l, ids, l.len() as int, 0), rows_of(l, p), tab_ok(p, ids, ids.len() as int, 0), 0 <= c < ids.len(), l.len() <= usize::MAX
    ensures all_set(t[c]@), forall|k: int| 0 <= k < 4 ==> (#[trigger] t[c]@[k])->0 < l.len() && l[t[c]@[k]->0 as int].0 == pair_of(ids, c, k)
{
    assert forall|k: int| 0 <= k < 4 implies (#[trigger] t[c]@[k]) is Some && t[c]@[k]->0 < l.len() && l[t[c]@[k]->0 as int].0 == pair_of(ids, c, k) by {
        assert(turned(t, l, ids, c, k, l.len() as int, 0));
        assert(filed(p, ids, c, k));
        let f = choose|f: int| 0 <= f < l.len() && (#[trigger] l[f]).0 == pair_of(ids, c, k);
        assert(past(f, side(k), l.len() as int, 0));
    }
    assert(t[c]@[0] is Some && t[c]@[1] is Some && t[c]@[2] is Some && t[c]@[3] is Some);
}
}
verus! {
// ------------------------------------------------------------------ put together
/// the only thing from_file does not look at while it builds: what the cells will be
pub uninterp spec fn no_elems() -> Vec<Elem>;
pub open spec fn parts(elements: Vec<Arc<Element>>, nodes: Vec<Node>, edges: Vec<Edge>) -> Mesh { Mesh { elements, elems: no_elems(), nodes, edges } }
pub open spec fn made_of(a: Arc<Element>, c: int, pts: Seq<Point>, ids: Seq<[usize; 4]>, mats: Seq<Materials>) -> bool {
    a.id == c && a.materials == mats[c] && forall|k: int| 0 <= k < 4 ==> (#[trigger] a.points@[k]) == pts[ids[c]@[k] as int]
}
pub open spec fn one_none(x: [Option<usize>; 2]) -> bool { x@[0] is None || x@[1] is None }
/// a new node, a new edge
pub open spec fn placed(x: Node, n: int, pts: Seq<Point>, b: bool) -> bool { x.id == n && x.coords == pts[n] && x.boundary == b && lone_node(x) }
pub open spec fn drawn(y: Edge, e: int, key: [usize; 2], pts: Seq<Point>, b: bool) -> bool {
    let (p, q) = (key@[0] as int, key@[1] as int);
    let (dx, dy) = (pts[q].x@ - pts[p].x@, pts[q].y@ - pts[p].y@);
    y.id == e && y.nodes == key && y.boundary == b && y.parent is None && bare(y) && p < pts.len() && q < pts.len() && runs(dx, dy, y.dir is U) && measures(dx, dy, y.length@)
}
pub open spec fn all_placed(v: Seq<Node>, pts: Seq<Point>, ids: Seq<[usize; 4]>) -> bool { v.len() == pts.len() && forall|n: int| 0 <= n < v.len() ==> placed(#[trigger] v[n], n, pts, hits(ids, n, ids.len() as int, 0) < 4) }
pub open spec fn all_drawn(v: Seq<Edge>, l: Rows, pts: Seq<Point>) -> bool { v.len() == l.len() && forall|e: int| 0 <= e < v.len() ==> drawn(#[trigger] v[e], e, l[e].0, pts, one_none(*l[e].1)) }
pub proof fn parts_bare(m: Mesh, l: Rows, p: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>)
    requires all_placed(m.nodes@, pts, ids), all_drawn(m.edges@, l, pts), rows_of(l, p)
    ensures bare_mesh(m, pts)
{
    assert forall|x: int| 0 <= x < pts.len() implies #[trigger] start_node(m, pts, x) && lone_node(m.nodes@[x]) by { assert(placed(m.nodes@[x], x, pts, hits(ids, x, ids.len() as int, 0) < 4)); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] start_edge(m, e) && bare(m.edges@[e]) by {
        let y = m.edges@[e];
        assert(drawn(m.edges@[e], e, l[e].0, pts, one_none(*l[e].1)));
        assert(start_node(m, pts, y.nodes@[0] as int) && start_node(m, pts, y.nodes@[1] as int));
    }
    assert forall|e: int, f: int| 0 <= e < f < m.edges@.len() implies (#[trigger] m.edges@[e]).nodes != (#[trigger] m.edges@[f]).nodes by {
        assert(drawn(m.edges@[e], e, l[e].0, pts, one_none(*l[e].1))); assert(drawn(m.edges@[f], f, l[f].0, pts, one_none(*l[f].1)));
        if l[e].0 == l[f].0 { rows_differ(l, p, e, f); }
    }
}
/// all cells registered: the mesh the file describes
#[verifier::spinoff_prover]
pub proof fn parts_done(m0: Mesh, b: Mesh, m: Mesh, l: Rows, p: Tab, pts: Seq<Point>, ids: Seq<[usize; 4]>)
    requires laid(pts, ids), all_placed(m0.nodes@, pts, ids), all_drawn(m0.edges@, l, pts), rows_of(l, p), tab_ok(p, ids, ids.len() as int, 0), ids.len() <= usize::MAX,
        m.elems@.len() == ids.len(), cells_upto(m0, ids, m.elems@, ids.len() as int), enrolled(m0, b, m.elems@, ids.len() as int, 0, 0), m.nodes == b.nodes, m.edges == b.edges
    ensures start_mesh(m, pts, ids)
{
    let v = m.elems@; let n = ids.len() as int;
    parts_bare(m0, l, p, pts, ids);
    assert forall|c: int| 0 <= c < ids.len() implies start_cell(m, ids, #[trigger] m.elems@[c], c) by {
        assert(start_cell(m0, ids, v[c], c));
        assert forall|k: int| 0 <= k < 4 implies (#[trigger] v[c].edges@[k]) < m.edges@.len() && m.edges@[v[c].edges@[k] as int].nodes == pair_of(ids, c, k) by {
            let e = v[c].edges@[k] as int;
            assert(b.edges@[e] == (Edge { elems: b.edges@[e].elems, ..m0.edges@[e] })); }
    }
    assert forall|x: int| 0 <= x < pts.len() implies #[trigger] start_node(m, pts, x) by { assert(start_node(m0, pts, x)); assert(b.nodes@[x] == (Node { elems: b.nodes@[x].elems, ..m0.nodes@[x] })); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] start_edge(m, e) by {
        assert(start_edge(m0, e)); assert(b.edges@[e] == (Edge { elems: b.edges@[e].elems, ..m0.edges@[e] }));
        let y = m0.edges@[e];
        assert(start_node(m, pts, y.nodes@[0] as int) && start_node(m, pts, y.nodes@[1] as int) && start_node(m0, pts, y.nodes@[0] as int) && start_node(m0, pts, y.nodes@[1] as int));
    }
    assert forall|e: int, f: int| 0 <= e < f < m.edges@.len() implies (#[trigger] m.edges@[e]).nodes != (#[trigger] m.edges@[f]).nodes by {
        assert(b.edges@[e] == (Edge { elems: b.edges@[e].elems, ..m0.edges@[e] })); assert(b.edges@[f] == (Edge { elems: b.edges@[f].elems, ..m0.edges@[f] }));
        assert(m0.edges@[e].nodes != m0.edges@[f].nodes);
    }
    assert forall|e: int, s: int| 0 <= e < m.edges@.len() && 0 <= s < 2 implies #[trigger] holds_e(m, v, n, e, s) by {
        emap_held(m0, pts, ids, v, n, e, s); assert(b.edges@[e].elems@[s]@ == emap(m0, v, n, e, s)); }
    assert forall|x: int, q: int| 0 <= x < pts.len() && 0 <= q < 4 implies #[trigger] holds_n(m, v, n, x, q) by {
        nmap_held(m0, pts, ids, v, n, x, q); assert(b.nodes@[x].elems@[q]@ == nmap(m0, v, n, x, q)); }
    assert forall|e: int, s: int| 0 <= e < m.edges@.len() && 0 <= s < 2 implies #[trigger] vacant(reg(m, e, s)) == (l[e].1@[s] is None) by {
        let key = l[e].0;
        assert(drawn(m0.edges@[e], e, l[e].0, pts, one_none(*l[e].1)));
        assert(p.dom().contains(key) && p[key] == *l[e].1);
        assert(b.edges@[e] == (Edge { elems: b.edges@[e].elems, ..m0.edges@[e] }));
        assert(holds_e(m, v, n, e, s));
        if l[e].1@[s] is Some {
            let k = key_place(p, pts, ids, key, s); let c = p[key]@[s]->0 as int;
            assert(start_cell(m, ids, m.elems@[c], c));
            let f = v[c].edges@[k] as int;
            assert(m.edges@[f].nodes == key);
            if f < e { assert(m.edges@[f].nodes != m.edges@[e].nodes); } if e < f { assert(m.edges@[e].nodes != m.edges@[f].nodes); }
            start_framed(m, pts, ids, v[c], c);
            assert(ix(v[c].edges@, v[c].edges@[k] as int) == k);
            assert(at_edge(v, c, e, s));
        } else if !vacant(reg(m, e, s)) {
            let y = choose|y: [u8; 2]| #[trigger] reg(m, e, s).dom().contains(y);
            assert(reg(m, e, s).dom().contains(y)) by { if forall|y: [u8; 2]| !#[trigger] reg(m, e, s).dom().contains(y) { assert(reg(m, e, s) =~= Map::<[u8; 2], usize>::empty()); } }
            let c = reg(m, e, s)[y] as int;
            assert(at_edge(v, c, e, s));
            assert(start_cell(m, ids, m.elems@[c], c));
            let k = ix(v[c].edges@, e);
            assert(v[c].edges@[k] == e);
            assert(filed(p, ids, c, k));
        }
    }
    assert forall|x: int, q: int| 0 <= x < pts.len() && 0 <= q < 4 implies #[trigger] vacant(cor(m, x, q)) == !had(ids, x, q, n) by {
        assert(holds_n(m, v, n, x, q));
        if had(ids, x, q, n) {
            let c = choose|c: int| 0 <= c < n && (#[trigger] ids[c])@[q] == x;
            assert(start_cell(m, ids, m.elems@[c], c));
            start_framed(m, pts, ids, v[c], c);
            assert(ix(v[c].nodes@, v[c].nodes@[q] as int) == q);
            assert(at_node(v, c, x, q));
        } else if !vacant(cor(m, x, q)) {
            let y = choose|y: [u8; 2]| #[trigger] cor(m, x, q).dom().contains(y);
            assert(cor(m, x, q).dom().contains(y)) by { if forall|y: [u8; 2]| !#[trigger] cor(m, x, q).dom().contains(y) { assert(cor(m, x, q) =~= Map::<[u8; 2], usize>::empty()); } }
            let c = cor(m, x, q)[y] as int;
            assert(at_node(v, c, x, q));
            assert(start_cell(m, ids, m.elems@[c], c));
            assert(ids[c]@[q] == x);
        }
    }
    assert forall|e: int| 0 <= e < m.edges@.len() implies #[trigger] on_rim(m, e) by {
        assert(drawn(m0.edges@[e], e, l[e].0, pts, one_none(*l[e].1))); assert(b.edges@[e] == (Edge { elems: b.edges@[e].elems, ..m0.edges@[e] }));
        assert(vacant(reg(m, e, 0)) == (l[e].1@[0] is None)); assert(vacant(reg(m, e, 1)) == (l[e].1@[1] is None)); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies !(vacant(#[trigger] reg(m, e, 0)) && vacant(reg(m, e, 1))) by {
        assert(vacant(reg(m, e, 0)) == (l[e].1@[0] is None)); assert(vacant(reg(m, e, 1)) == (l[e].1@[1] is None));
        assert(p.dom().contains(l[e].0) && p[l[e].0] == *l[e].1); assert(true_entry(p, ids, l[e].0, n, 0)); }
    assert forall|x: int| 0 <= x < pts.len() implies #[trigger] on_rim_n(m, x) by {
        assert(placed(m0.nodes@[x], x, pts, hits(ids, x, n, 0) < 4)); assert(b.nodes@[x] == (Node { elems: b.nodes@[x].elems, ..m0.nodes@[x] }));
        assert(vacant(cor(m, x, 0)) == !had(ids, x, 0, n)); assert(vacant(cor(m, x, 1)) == !had(ids, x, 1, n)); assert(vacant(cor(m, x, 2)) == !had(ids, x, 2, n)); assert(vacant(cor(m, x, 3)) == !had(ids, x, 3, n)); }
}
/// the activation of edges changes nothing of it
pub proof fn start_active(a: Mesh, b: Mesh, pts: Seq<Point>, ids: Seq<[usize; 4]>)
    requires start_mesh(a, pts, ids), same_but_activation(a, b)
    ensures start_mesh(b, pts, ids)
{
    let n = ids.len() as int;
    assert forall|e: int| 0 <= e < a.edges@.len() implies #[trigger] b.edges@[e] == (Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] }) by { }
    assert forall|c: int| 0 <= c < ids.len() implies start_cell(b, ids, #[trigger] b.elems@[c], c) by { assert(start_cell(a, ids, a.elems@[c], c));
        assert forall|k: int| 0 <= k < 4 implies (#[trigger] b.elems@[c].edges@[k]) < b.edges@.len() && b.edges@[b.elems@[c].edges@[k] as int].nodes == pair_of(ids, c, k) by { let e = a.elems@[c].edges@[k] as int; assert(b.edges@[e] == (Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] })); } }
    assert forall|x: int| 0 <= x < pts.len() implies #[trigger] start_node(b, pts, x) by { assert(start_node(a, pts, x)); }
    assert forall|e: int| 0 <= e < b.edges@.len() implies #[trigger] start_edge(b, e) by { assert(start_edge(a, e)); assert(b.edges@[e] == (Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] })); }
    assert forall|e: int, f: int| 0 <= e < f < b.edges@.len() implies (#[trigger] b.edges@[e]).nodes != (#[trigger] b.edges@[f]).nodes by { assert(a.edges@[e].nodes != a.edges@[f].nodes); }
    assert forall|e: int, s: int| 0 <= e < b.edges@.len() && 0 <= s < 2 implies #[trigger] holds_e(b, b.elems@, n, e, s) by { assert(holds_e(a, a.elems@, n, e, s)); assert(b.edges@[e] == (Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] })); }
    assert forall|x: int, q: int| 0 <= x < pts.len() && 0 <= q < 4 implies #[trigger] holds_n(b, b.elems@, n, x, q) by { assert(holds_n(a, a.elems@, n, x, q)); }
    assert forall|e: int| 0 <= e < b.edges@.len() implies #[trigger] on_rim(b, e) by { assert(on_rim(a, e)); assert(b.edges@[e] == (Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] })); }
    assert forall|x: int| 0 <= x < pts.len() implies #[trigger] on_rim_n(b, x) by { assert(on_rim_n(a, x)); }
    assert forall|e: int| 0 <= e < b.edges@.len() implies !(vacant(#[trigger] reg(b, e, 0)) && vacant(reg(b, e, 1))) by { assert(!(vacant(reg(a, e, 0)) && vacant(reg(a, e, 1)))); assert(b.edges@[e] == (Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] })); }
}
}
