verus! {
// ------------------------------------------------------------------ nodes and edges
pub open spec fn px(m: Mesh, n: int) -> real { m.nodes@[n].coords.x@ }
pub open spec fn py(m: Mesh, n: int) -> real { m.nodes@[n].coords.y@ }
/// what leads from (x0, y0) to (x1, y1) is nearer to the x axis (u), or not (v), and points right (up)
pub open spec fn runs(dx: real, dy: real, u: bool) -> bool { if u { dx > rabs(dy) } else { dy >= rabs(dx) && dy > 0real } }
pub open spec fn leads(m: Mesh, p: int, q: int, u: bool) -> bool { runs(px(m, q) - px(m, p), py(m, q) - py(m, p), u) }
pub open spec fn measures(dx: real, dy: real, l: real) -> bool { l >= 0real && l * l == dx * dx + dy * dy }
pub open spec fn spans(m: Mesh, p: int, q: int, l: real) -> bool { measures(px(m, q) - px(m, p), py(m, q) - py(m, p), l) }
pub open spec fn bare(x: Edge) -> bool { x.children is None && x.child_node is None && x.active_elems is None && x.elems@[0]@ == Map::<[u8; 2], usize>::empty() && x.elems@[1]@ == Map::<[u8; 2], usize>::empty() }
pub open spec fn lone_node(x: Node) -> bool { forall|k: int| 0 <= k < 4 ==> (#[trigger] x.elems@[k])@ == Map::<[u8; 2], usize>::empty() }
pub open spec fn node_ok(m: Mesh, n: int) -> bool { m.nodes@[n].id == n && m.nodes@[n].coords.wf() }
/// the nodes of an edge, its direction and length
pub open spec fn edge_ok(m: Mesh, e: int) -> bool {
    let x = m.edges@[e];
    let (p, q) = (x.nodes@[0] as int, x.nodes@[1] as int);
    x.id == e && p < m.nodes@.len() && q < m.nodes@.len() && leads(m, p, q, x.dir is U) && spans(m, p, q, x.length@) && (x.children is None <==> x.child_node is None)
}
/// c is one half of e, from node p to node q
pub open spec fn half_ok(m: Mesh, e: int, c: int, p: int, q: int) -> bool {
    let (x, y) = (m.edges@[e], m.edges@[c]);
    y.parent == Some(e as usize) && y.nodes@[0] == p && y.nodes@[1] == q && y.dir == x.dir && y.boundary == x.boundary && y.length@ * 2real == x.length@ && y.length@ >= MIN_EDGE_LENGTH_real()
}
/// the two halves of a split edge meet in the node at its middle
pub open spec fn split_ok(m: Mesh, e: int) -> bool {
    let x = m.edges@[e];
    x.children is Some ==> x.child_node is Some && {
        let (a, b, n) = (x.children->0@[0] as int, x.children->0@[1] as int, x.child_node->0 as int);
        let (p, q) = (x.nodes@[0] as int, x.nodes@[1] as int);
        &&& e < a < m.edges@.len() && e < b < m.edges@.len() && a != b && n < m.nodes@.len()
        &&& half_ok(m, e, a, p, n) && half_ok(m, e, b, n, q)
        &&& px(m, n) * 2real == px(m, p) + px(m, q) && py(m, n) * 2real == py(m, p) + py(m, q)
        &&& m.nodes@[n].boundary == x.boundary
    }
}
pub open spec fn parent_ok(m: Mesh, c: int) -> bool {
    m.edges@[c].parent is Some ==> { let p = m.edges@[c].parent->0 as int; p < c && m.edges@[p].children is Some && (m.edges@[p].children->0@[0] == c || m.edges@[p].children->0@[1] == c) }
}
pub open spec fn net_ok(m: Mesh) -> bool {
    &&& forall|n: int| 0 <= n < m.nodes@.len() ==> #[trigger] node_ok(m, n)
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] edge_ok(m, e)
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] split_ok(m, e)
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] parent_ok(m, e)
    &&& forall|e: int, f: int| 0 <= e < m.edges@.len() && 0 <= f < m.edges@.len() && (#[trigger] m.edges@[e]).child_node is Some && (#[trigger] m.edges@[f]).child_node == m.edges@[e].child_node ==> e == f
}
/// nothing but new bare nodes and edges, and halves for edges that had none
pub open spec fn grew(a: Mesh, b: Mesh) -> bool {
    &&& a.elements == b.elements && a.elems == b.elems && a.nodes@.len() <= b.nodes@.len() && a.edges@.len() <= b.edges@.len()
    &&& forall|n: int| 0 <= n < a.nodes@.len() ==> #[trigger] b.nodes@[n] == a.nodes@[n]
    &&& forall|n: int| a.nodes@.len() <= n < b.nodes@.len() ==> lone_node(#[trigger] b.nodes@[n])
    &&& forall|e: int| 0 <= e < a.edges@.len() ==> kept_edge(a.edges@[e], #[trigger] b.edges@[e])
    &&& forall|e: int| a.edges@.len() <= e < b.edges@.len() ==> fresh(a, #[trigger] b.edges@[e])
    &&& forall|e: int| 0 <= e < a.edges@.len() && a.edges@[e].children is None && (#[trigger] b.edges@[e]).children is Some ==> {
        let c = b.edges@[e].children->0; c@[0] >= a.edges@.len() && c@[1] >= a.edges@.len() && b.edges@[e].child_node is Some && b.edges@[e].child_node->0 >= a.nodes@.len() }
}
pub open spec fn kept_edge(x: Edge, y: Edge) -> bool {
    y == (Edge { children: y.children, child_node: y.child_node, ..x }) && (x.children is Some ==> y.children == x.children && y.child_node == x.child_node)
}
/// carries no cells yet
pub open spec fn fresh(a: Mesh, y: Edge) -> bool { y.active_elems is None && y.elems@[0]@ == Map::<[u8; 2], usize>::empty() && y.elems@[1]@ == Map::<[u8; 2], usize>::empty() }
pub proof fn grew_on(a: Mesh, b: Mesh, c: Mesh)
    requires grew(a, b), grew(b, c)
    ensures grew(a, c)
{
    assert forall|n: int| 0 <= n < a.nodes@.len() implies #[trigger] c.nodes@[n] == a.nodes@[n] by { assert(b.nodes@[n] == a.nodes@[n]); }
    assert forall|n: int| a.nodes@.len() <= n < c.nodes@.len() implies lone_node(#[trigger] c.nodes@[n]) by { if n < b.nodes@.len() { assert(c.nodes@[n] == b.nodes@[n]); } }
    assert forall|e: int| 0 <= e < a.edges@.len() implies kept_edge(a.edges@[e], #[trigger] c.edges@[e]) by { assert(kept_edge(a.edges@[e], b.edges@[e])); assert(kept_edge(b.edges@[e], c.edges@[e])); }
    assert forall|e: int| a.edges@.len() <= e < c.edges@.len() implies fresh(a, #[trigger] c.edges@[e]) by { if e < b.edges@.len() { assert(kept_edge(b.edges@[e], c.edges@[e])); assert(fresh(a, b.edges@[e])); } else { assert(fresh(b, c.edges@[e])); } }
    assert forall|e: int| 0 <= e < a.edges@.len() && a.edges@[e].children is None && (#[trigger] c.edges@[e]).children is Some implies {
        let k = c.edges@[e].children->0; k@[0] >= a.edges@.len() && k@[1] >= a.edges@.len() && c.edges@[e].child_node is Some && c.edges@[e].child_node->0 >= a.nodes@.len() } by {
        assert(kept_edge(b.edges@[e], c.edges@[e]));
        if b.edges@[e].children is Some { } else { }
    }
}
pub proof fn grew_none(a: Mesh) ensures grew(a, a) { }
/// the tree of edges is a tree
pub proof fn net_tree(m: Mesh)
    requires net_ok(m)
    ensures edge_tree(m).ok()
{
    let t = edge_tree(m);
    assert(m.edges.len() == m.edges@.len());
    assert forall|e: int, k: int| 0 <= e < t.n && 0 <= k < (t.kids)(e).len() implies e < #[trigger] (t.kids)(e)[k] < t.n && (t.par)((t.kids)(e)[k] as int) == Some(e) by { assert(split_ok(m, e)); let c = m.edges@[e].children->0; assert((t.kids)(e) == c@); assert(k == 0 || k == 1); }
    assert forall|e: int, j: int, k: int| 0 <= e < t.n && 0 <= j < k < (t.kids)(e).len() implies #[trigger] (t.kids)(e)[j] != #[trigger] (t.kids)(e)[k] by { assert(split_ok(m, e)); let c = m.edges@[e].children->0; assert((t.kids)(e) == c@); assert(j == 0 && k == 1); }
    assert forall|c: int| 0 <= c < t.n && #[trigger] (t.par)(c) is Some implies 0 <= (t.par)(c)->0 < c && (t.kids)((t.par)(c)->0).contains(c as usize) by {
        assert(parent_ok(m, c)); let p = m.edges@[c].parent->0 as int; let k = m.edges@[p].children->0; assert((t.kids)(p) == k@);
        if k@[0] == c { assert((t.kids)(p)[0] == c as usize); } else { assert((t.kids)(p)[1] == c as usize); }
    }
}
impl Node {
//@@ fn fem_domain/domain/mesh/node.rs Node::new
//@@ params id, coords, boundary
        ensures r.id == id, r.coords == coords, r.boundary == boundary, lone_node(r)
//@@ endfn
}
impl Edge {
//@@ fn fem_domain/domain/mesh/edge.rs Edge::new
//@@ params id, nodes, boundary
//@@ abort nodes@[0].coords.same(nodes@[1].coords)
        requires nodes@[0].coords.wf(), nodes@[1].coords.wf()
        ensures r.id == id, r.nodes@[0] == nodes@[0].id, r.nodes@[1] == nodes@[1].id, r.boundary == boundary, r.parent is None, bare(r),
            ({ let (dx, dy) = (nodes@[1].coords.x@ - nodes@[0].coords.x@, nodes@[1].coords.y@ - nodes@[0].coords.y@); measures(dx, dy, r.length@) && (r.dir is U <==> rabs(dx) > rabs(dy)) })
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::h_refine
//@@ params new_ids, new_node_id
        ensures match r {
            Err(_) => *final(self) == *old(self) && (old(self).children is Some || old(self).length@ / 2real < MIN_EDGE_LENGTH_real()),
            Ok(v) => old(self).children is None && old(self).length@ / 2real >= MIN_EDGE_LENGTH_real()
                && *final(self) == (Edge { children: Some(new_ids), child_node: Some(new_node_id), ..*old(self) })
                && v@.len() == 2 && bare(v@[0]) && bare(v@[1]) && v@[0].id == new_ids@[0] && v@[1].id == new_ids@[1]
                && v@[0].nodes@ == seq![old(self).nodes@[0], new_node_id] && v@[1].nodes@ == seq![new_node_id, old(self).nodes@[1]]
                && v@[0].parent == Some(old(self).id) && v@[1].parent == Some(old(self).id) && v@[0].dir == old(self).dir && v@[1].dir == old(self).dir
                && v@[0].boundary == old(self).boundary && v@[1].boundary == old(self).boundary
                && v@[0].length@ == old(self).length@ / 2real && v@[1].length@ == old(self).length@ / 2real,
        }
//@@ endfn
}

/// from a to b in that direction, by more than the resolution of points
pub open spec fn far(m: Mesh, a: int, b: int, u: bool) -> bool { leads(m, a, b, u) && (if u { px(m, b) - px(m, a) } else { py(m, b) - py(m, a) }) > tick() }
pub open spec fn clear(m: Mesh, a: int, b: int) -> bool { far(m, a, b, true) || far(m, a, b, false) || far(m, b, a, true) || far(m, b, a, false) }
proof fn half_measure(dx: real, dy: real, l: real)
    requires measures(dx, dy, l)
    ensures measures(dx / 2real, dy / 2real, l / 2real)
{
    assert((l / 2real) * (l / 2real) == (l * l) / 4real) by (nonlinear_arith);
    assert((dx / 2real) * (dx / 2real) == (dx * dx) / 4real) by (nonlinear_arith);
    assert((dy / 2real) * (dy / 2real) == (dy * dy) / 4real) by (nonlinear_arith);
}
/// an edge is split
pub open spec fn splits(a: Mesh, b: Mesh, e: int) -> bool {
    let (x, n, f) = (a.edges@[e], a.nodes@.len() as int, a.edges@.len() as int);
    &&& a.elements == b.elements && a.elems == b.elems && b.nodes@.len() == n + 1 && b.edges@.len() == f + 2
    &&& b.nodes@.take(n as int) == a.nodes@ && lone_node(b.nodes@[n as int]) && b.nodes@[n as int].id == n && b.nodes@[n as int].coords.wf() && b.nodes@[n as int].boundary == x.boundary
    &&& px(b, n as int) == (px(a, x.nodes@[0] as int) + px(a, x.nodes@[1] as int)) / 2real && py(b, n as int) == (py(a, x.nodes@[0] as int) + py(a, x.nodes@[1] as int)) / 2real
    &&& forall|d: int| 0 <= d < f && d != e ==> #[trigger] b.edges@[d] == a.edges@[d]
    &&& b.edges@[e] == (Edge { children: b.edges@[e].children, child_node: Some(n as usize), ..x })
    &&& b.edges@[e].children is Some && b.edges@[e].children->0@ == seq![f as usize, (f + 1) as usize]
    &&& bare(b.edges@[f as int]) && bare(b.edges@[f + 1]) && b.edges@[f as int].id == f && b.edges@[f + 1].id == f + 1
    &&& half_ok(b, e, f as int, x.nodes@[0] as int, n as int) && half_ok(b, e, f + 1, n as int, x.nodes@[1] as int)
}
#[verifier::spinoff_prover]
pub proof fn split_net(a: Mesh, b: Mesh, e: int)
    requires net_ok(a), 0 <= e < a.edges@.len(), a.edges@[e].children is None, splits(a, b, e), b.edges@.len() <= usize::MAX, b.nodes@.len() <= usize::MAX
    ensures net_ok(b), grew(a, b)
{
    let (x, n, f) = (a.edges@[e], a.nodes@.len() as int, a.edges@.len() as int);
    assert(edge_ok(a, e));
    let (p, q) = (x.nodes@[0] as int, x.nodes@[1] as int);
    assert forall|k: int| 0 <= k < n implies #[trigger] b.nodes@[k] == a.nodes@[k] by { assert(b.nodes@.take(n)[k] == b.nodes@[k]); }
    assert forall|k: int| 0 <= k < b.nodes@.len() implies #[trigger] node_ok(b, k) by { if k < n { assert(node_ok(a, k)); } }
    half_measure(px(a, q) - px(a, p), py(a, q) - py(a, p), x.length@);
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] edge_ok(b, d) by {
        if d < f { assert(edge_ok(a, d)); }
        else if d == f { assert((px(a, q) - px(a, p)) / 2real == px(b, n) - px(b, p)); assert((py(a, q) - py(a, p)) / 2real == py(b, n) - py(b, p)); }
        else { assert((px(a, q) - px(a, p)) / 2real == px(b, q) - px(b, n)); assert((py(a, q) - py(a, p)) / 2real == py(b, q) - py(b, n)); }
    }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] split_ok(b, d) by {
        if d < f { assert(edge_ok(a, d)); assert(split_ok(a, d)); if d != e && a.edges@[d].children is Some { let c = a.edges@[d].children->0; let (i, j) = (c@[0] as int, c@[1] as int);
            assert(b.edges@[i].nodes == a.edges@[i].nodes && b.edges@[j].nodes == a.edges@[j].nodes); assert(half_ok(b, d, i, a.edges@[d].nodes@[0] as int, a.edges@[d].child_node->0 as int)); assert(half_ok(b, d, j, a.edges@[d].child_node->0 as int, a.edges@[d].nodes@[1] as int)); } }
    }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] parent_ok(b, d) by { if d < f { assert(parent_ok(a, d)); } }
    assert forall|d: int, g: int| 0 <= d < b.edges@.len() && 0 <= g < b.edges@.len() && (#[trigger] b.edges@[d]).child_node is Some && (#[trigger] b.edges@[g]).child_node == b.edges@[d].child_node implies d == g by {
        if d < f { assert(split_ok(a, d)); assert(edge_ok(a, d)); } if g < f { assert(split_ok(a, g)); assert(edge_ok(a, g)); }
        if d < f && g < f && d != e && g != e { assert(a.edges@[d].child_node is Some); assert(a.edges@[g].child_node == a.edges@[d].child_node); }
    }
}
/// a bare inner edge is added
pub open spec fn strings(a: Mesh, b: Mesh, p: int, q: int, u: bool) -> bool {
    let f = a.edges@.len();
    &&& a.elements == b.elements && a.elems == b.elems && a.nodes == b.nodes && b.edges@.len() == f + 1 && b.edges@.take(f as int) == a.edges@
    &&& bare(b.edges@[f as int]) && b.edges@[f as int].id == f && b.edges@[f as int].parent is None && !b.edges@[f as int].boundary
    &&& b.edges@[f as int].nodes@[0] == p && b.edges@[f as int].nodes@[1] == q && (b.edges@[f as int].dir is U <==> u) && spans(b, p, q, b.edges@[f as int].length@)
}
pub proof fn string_net(a: Mesh, b: Mesh, p: int, q: int, u: bool)
    requires net_ok(a), strings(a, b, p, q, u), leads(a, p, q, u), 0 <= p < a.nodes@.len(), 0 <= q < a.nodes@.len()
    ensures net_ok(b), grew(a, b)
{
    let f = a.edges@.len() as int;
    assert forall|d: int| 0 <= d < f implies #[trigger] b.edges@[d] == a.edges@[d] by { assert(b.edges@.take(f)[d] == b.edges@[d]); }
    assert forall|k: int| 0 <= k < b.nodes@.len() implies #[trigger] node_ok(b, k) by { assert(node_ok(a, k)); }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] edge_ok(b, d) by { if d < f { assert(edge_ok(a, d)); } }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] split_ok(b, d) by {
        if d < f { assert(split_ok(a, d)); if a.edges@[d].children is Some { let c = a.edges@[d].children->0; let (i, j) = (c@[0] as int, c@[1] as int);
            assert(half_ok(b, d, i, a.edges@[d].nodes@[0] as int, a.edges@[d].child_node->0 as int)); assert(half_ok(b, d, j, a.edges@[d].child_node->0 as int, a.edges@[d].nodes@[1] as int)); } }
    }
    assert forall|d: int| 0 <= d < b.edges@.len() implies #[trigger] parent_ok(b, d) by { if d < f { assert(parent_ok(a, d)); } }
}
impl VFrom<HRefError> for HRefError {
    open spec fn vfrom_req(e: HRefError) -> bool { true }
    open spec fn vfrom_spec(e: HRefError) -> HRefError { e }
    fn vfrom(e: HRefError) -> (r: HRefError) { e }
}
impl VFrom<MeshAccessError> for HRefError {
    open spec fn vfrom_req(e: MeshAccessError) -> bool { e is ElemDoesNotExist }
    open spec fn vfrom_spec(e: MeshAccessError) -> HRefError { HRefError::ElemDoesNotExist(e->ElemDoesNotExist_0) }
//@@ fn fem_domain/domain/mesh/h_refinement.rs From<MeshAccessError> for HRefError::from name=vfrom nopub
//@@ params err
//@@ endfn
}
/// can be halved, or is already
pub open spec fn halvable(m: Mesh, e: int) -> bool { m.edges@[e].children is Some || m.edges@[e].length@ / 2real >= MIN_EDGE_LENGTH_real() }
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::h_refine_edge_if_needed
//@@ params parent_edge_id, node_id_tracker, edge_id_tracker
        requires net_ok(*old(self)), parent_edge_id < old(self).edges@.len(), halvable(*old(self), parent_edge_id as int),
            old(node_id_tracker).next_id == old(self).nodes@.len(), old(edge_id_tracker).next_id == old(self).edges@.len(), old(self).nodes@.len() < usize::MAX, old(self).edges@.len() + 2 <= usize::MAX,
        ensures net_ok(*final(self)), grew(*old(self), *final(self)), r is Ok,
            final(node_id_tracker).next_id == final(self).nodes@.len(), final(edge_id_tracker).next_id == final(self).edges@.len(),
            ({ let x = final(self).edges@[parent_edge_id as int]; x.children is Some && r->Ok_0.0@ == x.children->0@ && x.child_node == Some(r->Ok_0.1) }),
            if old(self).edges@[parent_edge_id as int].children is Some { *final(self) == *old(self) } else { splits(*old(self), *final(self), parent_edge_id as int) },
//@@ start
        let ghost m0 = *self; let ghost e = parent_edge_id as int; let ghost f = m0.edges@.len() as int;
        proof { assert(edge_ok(m0, e)); assert(split_ok(m0, e)); grew_none(m0); }
//@@ before `self.edges.extend`
        let ghost v = new_edges@; let ghost m1 = *self;
//@@ loop 0 take
        __hi0 == 2, v.len() == 2, __s0@ == v.skip(__i0 as int), self.edges@ == m1.edges@ + v.take(__i0 as int), *self == (Mesh { edges: self.edges, ..m1 }),
//@@ loopend 0
        proof { assert(v.skip(__i0 - 1).remove(0) =~= v.skip(__i0 as int)); assert(v.take(__i0 as int) =~= v.take(__i0 - 1).push(v[__i0 - 1])); assert(m1.edges@ + v.take(__i0 as int) =~= (m1.edges@ + v.take(__i0 - 1)).push(v[__i0 - 1])); }
//@@ before `let parent_edge_points`
        proof { assert(v.take(2) =~= v); assert(self.edges@ == m1.edges@ + v); assert(self.edges@[e] == m1.edges@[e]); assert(self.edges@[f] == v[0]); assert(self.edges@[f + 1] == v[1]); }
//@@ before `(SmallVec::from(new_edge_ids), new_node_id)`
        proof {
            assert(self.nodes@.take(m0.nodes@.len() as int) =~= m0.nodes@);
            assert(self.edges@[e].children->0@ =~= seq![f as usize, (f + 1) as usize]);
            assert(splits(m0, *self, e));
            assert(self.nodes.len() == self.nodes@.len() && self.edges.len() == self.edges@.len());
            split_net(m0, *self, e);
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::new_edge_between_nodes
//@@ params node_ids, edge_id_tracker, parent_elem_id
        requires net_ok(*old(self)), node_ids@[0] < old(self).nodes@.len(), node_ids@[1] < old(self).nodes@.len(), parent_elem_id < old(self).elems@.len(), node_ids@[0] != node_ids@[1],
            clear(*old(self), node_ids@[0] as int, node_ids@[1] as int), old(edge_id_tracker).next_id == old(self).edges@.len(), old(self).edges@.len() < usize::MAX,
        ensures net_ok(*final(self)), grew(*old(self), *final(self)), r is Ok, r->Ok_0 == old(self).edges@.len(), final(edge_id_tracker).next_id == final(self).edges@.len(),
            forall|u: bool| #[trigger] far(*old(self), node_ids@[0] as int, node_ids@[1] as int, u) ==> strings(*old(self), *final(self), node_ids@[0] as int, node_ids@[1] as int, u),
            forall|u: bool| #[trigger] far(*old(self), node_ids@[1] as int, node_ids@[0] as int, u) ==> strings(*old(self), *final(self), node_ids@[1] as int, node_ids@[0] as int, u),
//@@ start
        let ghost m0 = *self; let ghost (a, b) = (node_ids@[0] as int, node_ids@[1] as int); let ghost f = m0.edges@.len() as int;
        proof {
            assert(node_ok(m0, a)); assert(node_ok(m0, b)); tick_facts();
            theorem_rounding(px(m0, a), px(m0, b)); theorem_rounding(py(m0, a), py(m0, b)); theorem_rounding(px(m0, b), px(m0, a)); theorem_rounding(py(m0, b), py(m0, a));
            assert(!m0.nodes@[a].coords.same(m0.nodes@[b].coords) && !m0.nodes@[b].coords.same(m0.nodes@[a].coords));
        }
//@@ tail
        proof {
            assert(self.edges@.take(f) =~= m0.edges@);
            assert forall|u: bool| #[trigger] far(m0, a, b, u) implies strings(m0, *self, a, b, u) by { }
            assert forall|u: bool| #[trigger] far(m0, b, a, u) implies strings(m0, *self, b, a, u) by { }
            if far(m0, a, b, true) { string_net(m0, *self, a, b, true); } else if far(m0, a, b, false) { string_net(m0, *self, a, b, false); }
            else if far(m0, b, a, true) { string_net(m0, *self, b, a, true); } else { string_net(m0, *self, b, a, false); }
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::elem_is_h_refineable
//@@ params elem_id
        requires elem_id < self.elems@.len() ==> forall|k: int| 0 <= k < 4 ==> (#[trigger] self.elems@[elem_id as int].edges@[k]) < self.edges@.len()
        ensures match r {
            Ok(b) => elem_id < self.elems@.len() && (b <==> refineable(*self, elem_id as int)),
            Err(x) => elem_id >= self.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ loop 0
        elem_id < self.elems@.len(), *elem == self.elems@[elem_id as int], __hi0 == 4,
        __a0 <==> forall|k: int| 0 <= k < __i0 ==> (self.edges@[#[trigger] self.elems@[elem_id as int].edges@[k] as int]).length@ > MIN_EDGE_LENGTH_real(),
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::check_edge_bisection
//@@ params edge_id
        requires edge_id < self.edges@.len()
        ensures match r { Ok(_) => halvable(*self, edge_id as int), Err(x) => !halvable(*self, edge_id as int) && x == HRefError::MinEdgeLength(edge_id) }
//@@ endfn
}
/// no children, and every edge longer than the minimum
pub open spec fn refineable(m: Mesh, c: int) -> bool { m.elems@[c].children is None && forall|k: int| 0 <= k < 4 ==> (m.edges@[#[trigger] m.elems@[c].edges@[k] as int]).length@ > MIN_EDGE_LENGTH_real() }
}
