verus! {
// ------------------------------------------------------------------ registration of cells
pub open spec fn node_key(h: HLevels) -> [u8; 2] { [h.u, h.v] }
/// ranked by the level across the edge, then by the level along it
pub open spec fn edge_key(h: HLevels, u: bool) -> [u8; 2] { if u { [h.v, h.u] } else { [h.u, h.v] } }
/// the side of its k-th edge on which a cell lies
pub open spec fn side(k: int) -> int { if k == 0 || k == 2 { 1 } else { 0 } }
pub open spec fn all_set(x: Seq<Option<usize>>) -> bool { x.len() == 4 && x[0] is Some && x[1] is Some && x[2] is Some && x[3] is Some }
pub open spec fn four(x: Seq<Option<usize>>) -> Seq<usize> { seq![x[0]->0, x[1]->0, x[2]->0, x[3]->0] }
/// how many of the first n are set
pub open spec fn set_upto(x: Seq<Option<usize>>, n: int) -> int decreases n { if n <= 0 { 0 } else { set_upto(x, n - 1) + (if x[n - 1] is Some { 1int } else { 0 }) } }
pub proof fn set_four(x: Seq<Option<usize>>)
    requires x.len() == 4
    ensures set_upto(x, 4) == 4 <==> all_set(x)
{ reveal_with_fuel(set_upto, 5); }
/// where it stands first (-1: nowhere)
pub open spec fn ix(s: Seq<usize>, v: int) -> int { if s[0] == v { 0 } else if s[1] == v { 1 } else if s[2] == v { 2 } else if s[3] == v { 3 } else { -1 } }
pub open spec fn made(u: ElemUninit) -> Elem {
    Elem { id: u.id, nodes: [u.nodes@[0]->0, u.nodes@[1]->0, u.nodes@[2]->0, u.nodes@[3]->0], edges: [u.edges@[0]->0, u.edges@[1]->0, u.edges@[2]->0, u.edges@[3]->0],
        element: u.element, h_levels: u.h_levels, poly_orders: u.poly_orders, children: None, ancestors: u.ancestors }
}
pub open spec fn made_all(v: Seq<ElemUninit>) -> Seq<Elem> { Seq::new(v.len(), |i: int| made(v[i])) }
/// what is registered on a side of an edge, at a corner of a node, once the first n of these cells are
pub open spec fn emap(m: Mesh, v: Seq<Elem>, n: int, e: int, s: int) -> Map<[u8; 2], usize> decreases n {
    if n <= 0 { m.edges@[e].elems@[s]@ } else { let p = emap(m, v, n - 1, e, s); let k = ix(v[n - 1].edges@, e); if k >= 0 && side(k) == s { p.insert(edge_key(v[n - 1].h_levels, m.edges@[e].dir is U), v[n - 1].id) } else { p } }
}
pub open spec fn nmap(m: Mesh, v: Seq<Elem>, n: int, x: int, c: int) -> Map<[u8; 2], usize> decreases n {
    if n <= 0 { m.nodes@[x].elems@[c]@ } else { let p = nmap(m, v, n - 1, x, c); if ix(v[n - 1].nodes@, x) == c { p.insert(node_key(v[n - 1].h_levels), v[n - 1].id) } else { p } }
}
pub open spec fn efree(m: Mesh, v: Seq<Elem>, n: int, k: int) -> bool {
    let (e, j) = (v[n].edges@[k] as int, ix(v[n].edges@, v[n].edges@[k] as int));
    e < m.edges@.len() && m.edges@[e].id == e && !emap(m, v, n, e, side(j)).dom().contains(edge_key(v[n].h_levels, m.edges@[e].dir is U))
}
pub open spec fn nfree(m: Mesh, v: Seq<Elem>, n: int, k: int) -> bool {
    let x = v[n].nodes@[k] as int;
    x < m.nodes@.len() && m.nodes@[x].id == x && !nmap(m, v, n, x, ix(v[n].nodes@, x)).dom().contains(node_key(v[n].h_levels))
}
/// no two cells claim the same place
pub open spec fn reg_free(m: Mesh, v: Seq<Elem>) -> bool { (forall|n: int, k: int| 0 <= n < v.len() && 0 <= k < 4 ==> #[trigger] efree(m, v, n, k)) && (forall|n: int, k: int| 0 <= n < v.len() && 0 <= k < 4 ==> #[trigger] nfree(m, v, n, k)) }
pub open spec fn all_made(v: Seq<ElemUninit>) -> bool { forall|i: int| 0 <= i < v.len() ==> all_set((#[trigger] v[i]).nodes@) && all_set(v[i].edges@) }
/// only registrations differ
pub open spec fn same_but_links(a: Mesh, b: Mesh) -> bool {
    &&& a.elements == b.elements && a.elems == b.elems && a.nodes@.len() == b.nodes@.len() && a.edges@.len() == b.edges@.len()
    &&& forall|e: int| 0 <= e < a.edges@.len() ==> (#[trigger] b.edges@[e]) == (Edge { elems: b.edges@[e].elems, ..a.edges@[e] })
    &&& forall|x: int| 0 <= x < a.nodes@.len() ==> (#[trigger] b.nodes@[x]) == (Node { elems: b.nodes@[x].elems, ..a.nodes@[x] })
}
/// the first n are registered, the next with its first i edges and j nodes
pub open spec fn enrolled(a: Mesh, b: Mesh, v: Seq<Elem>, n: int, i: int, j: int) -> bool {
    &&& same_but_links(a, b)
    &&& forall|e: int, s: int| 0 <= e < a.edges@.len() && 0 <= s < 2 ==> (#[trigger] b.edges@[e].elems@[s])@ == emap(a, v, (if 0 <= n < v.len() && 0 <= ix(v[n].edges@, e) < i { n + 1 } else { n }), e, s)
    &&& forall|x: int, c: int| 0 <= x < a.nodes@.len() && 0 <= c < 4 ==> (#[trigger] b.nodes@[x].elems@[c])@ == nmap(a, v, (if 0 <= n < v.len() && 0 <= ix(v[n].nodes@, x) < j { n + 1 } else { n }), x, c)
}
pub open spec fn registered(a: Mesh, b: Mesh, v: Seq<Elem>) -> bool { enrolled(a, b, v, v.len() as int, 0, 0) }
impl ElemUninit {
//@@ fn fem_domain/domain/mesh/elem.rs ElemUninit::into_elem
        ensures match r { Ok(e) => all_set(self.nodes@) && all_set(self.edges@) && e == made(self), Err(x) => !(all_set(self.nodes@) && all_set(self.edges@)) && x == HRefError::UninitializedElem(self.id) }
//@@ loop 0
        __hi0 == 4, __a0 == set_upto(self.nodes@, __i0 as int), __a0 <= __i0,
//@@ loopafter 0
        proof { set_four(self.nodes@); }
//@@ loop 1
        __hi1 == 4, __a1 == set_upto(self.edges@, __i1 as int), __a1 <= __i1,
//@@ loopafter 1
        proof { set_four(self.edges@); }
//@@ loop 2
        __hi2 == 4, all_set(self.nodes@), __a2@ == four(self.nodes@).take(__i2 as int),
//@@ loopend 2
        proof { let t = four(self.nodes@); assert(t.take(__i2 as int) =~= t.take(__i2 - 1).push(t[__i2 - 1])); }
//@@ loopafter 2
        proof { assert(__a2@ =~= four(self.nodes@)); }
//@@ loop 3
        __hi3 == 4, all_set(self.edges@), __a3@ == four(self.edges@).take(__i3 as int),
//@@ loopend 3
        proof { let t = four(self.edges@); assert(t.take(__i3 as int) =~= t.take(__i3 - 1).push(t[__i3 - 1])); }
//@@ loopafter 3
        proof { assert(__a3@ =~= four(self.edges@)); }
//@@ tail
        proof { if let Ok(ref e) = __r { let z = made(self); assert(e.nodes@ =~= z.nodes@); assert(e.edges@ =~= z.edges@); assert(e.nodes =~= z.nodes); assert(e.edges =~= z.edges); assert(e.children == z.children); } }
//@@ endfn
}
impl Node {
//@@ fn fem_domain/domain/mesh/node.rs Node::connect_elem
//@@ params elem
        requires ({ let k = ix(elem.nodes@, old(self).id as int); k >= 0 && (old(self).elems@[k]@.dom().contains(node_key(elem.h_levels)) ==> old(self).elems@[k]@[node_key(elem.h_levels)] == elem.id) })
        ensures *final(self) == (Node { elems: final(self).elems, ..*old(self) }),
            forall|k: int| 0 <= k < 4 ==> (#[trigger] final(self).elems@[k])@ == (if ix(elem.nodes@, old(self).id as int) == k { old(self).elems@[k]@.insert(node_key(elem.h_levels), elem.id) } else { old(self).elems@[k]@ })
//@@ loop 0
        *self == *old(self), __hi0 == 4, match __a0 { None => forall|j: int| 0 <= j < __i0 ==> #[trigger] elem.nodes@[j] != self.id, Some(k) => ix(elem.nodes@, self.id as int) == k },
//@@ after `let address`
        proof { assert(address@ =~= node_key(elem.h_levels)@); assert(address =~= node_key(elem.h_levels)); }
//@@ endfn
}
impl Edge {
//@@ fn fem_domain/domain/mesh/edge.rs Edge::connect_elem
//@@ params elem
        requires ({ let k = ix(elem.edges@, old(self).id as int); let key = edge_key(elem.h_levels, old(self).dir is U); k >= 0 && (old(self).elems@[side(k)]@.dom().contains(key) ==> old(self).elems@[side(k)]@[key] == elem.id) })
        ensures *final(self) == (Edge { elems: final(self).elems, ..*old(self) }),
            forall|s: int| 0 <= s < 2 ==> (#[trigger] final(self).elems@[s])@ == (if side(ix(elem.edges@, old(self).id as int)) == s { old(self).elems@[s]@.insert(edge_key(elem.h_levels, old(self).dir is U), elem.id) } else { old(self).elems@[s]@ })
//@@ loop 0
        *self == *old(self), __hi0 == 4, match __a0 { None => forall|j: int| 0 <= j < __i0 ==> #[trigger] elem.edges@[j] != self.id, Some(k) => ix(elem.edges@, self.id as int) == k },
//@@ after `let address`
        proof { let k = edge_key(elem.h_levels, self.dir is U); assert(address@ =~= k@); assert(address =~= k); }
//@@ endfn
}
/// one more edge, or node, of a cell
proof fn enrol_edge(m0: Mesh, a: Mesh, b: Mesh, v: Seq<Elem>, n: int, i: int)
    requires 0 <= n < v.len(), 0 <= i < 4, enrolled(m0, a, v, n, i, 0), efree(m0, v, n, i),
        ({ let e = v[n].edges@[i] as int; let k = ix(v[n].edges@, e);
        &&& a.elements == b.elements && a.elems == b.elems && a.nodes == b.nodes && b.edges@.len() == a.edges@.len() && forall|d: int| 0 <= d < a.edges@.len() && d != e ==> #[trigger] b.edges@[d] == a.edges@[d]
        &&& b.edges@[e] == (Edge { elems: b.edges@[e].elems, ..a.edges@[e] })
        &&& forall|s: int| 0 <= s < 2 ==> (#[trigger] b.edges@[e].elems@[s])@ == (if side(k) == s { a.edges@[e].elems@[s]@.insert(edge_key(v[n].h_levels, a.edges@[e].dir is U), v[n].id) } else { a.edges@[e].elems@[s]@ }) })
    ensures enrolled(m0, b, v, n, i + 1, 0)
{
    let e0 = v[n].edges@[i] as int;
    let k = ix(v[n].edges@, e0);
    assert(a.edges@[e0] == (Edge { elems: a.edges@[e0].elems, ..m0.edges@[e0] }));
    assert forall|e: int, s: int| 0 <= e < m0.edges@.len() && 0 <= s < 2 implies (#[trigger] b.edges@[e].elems@[s])@ == emap(m0, v, (if 0 <= ix(v[n].edges@, e) < i + 1 { n + 1 } else { n }), e, s) by {
        assert(a.edges@[e].elems@[s]@ == a.edges@[e].elems@[s]@);
        if e == e0 {
            let key = edge_key(v[n].h_levels, m0.edges@[e].dir is U);
            assert(0 <= k <= i);
            if side(k) == s { assert(emap(m0, v, n + 1, e, s) == emap(m0, v, n, e, s).insert(key, v[n].id)); assert(b.edges@[e].elems@[s]@ =~= emap(m0, v, n + 1, e, s)); }
            else { assert(emap(m0, v, n + 1, e, s) == emap(m0, v, n, e, s)); }
        }
    }
}
proof fn enrol_node(m0: Mesh, a: Mesh, b: Mesh, v: Seq<Elem>, n: int, j: int)
    requires 0 <= n < v.len(), 0 <= j < 4, enrolled(m0, a, v, n, 4, j), nfree(m0, v, n, j),
        ({ let x = v[n].nodes@[j] as int; let k = ix(v[n].nodes@, x);
        &&& a.elements == b.elements && a.elems == b.elems && a.edges == b.edges && b.nodes@.len() == a.nodes@.len() && forall|d: int| 0 <= d < a.nodes@.len() && d != x ==> #[trigger] b.nodes@[d] == a.nodes@[d]
        &&& b.nodes@[x] == (Node { elems: b.nodes@[x].elems, ..a.nodes@[x] })
        &&& forall|c: int| 0 <= c < 4 ==> (#[trigger] b.nodes@[x].elems@[c])@ == (if k == c { a.nodes@[x].elems@[c]@.insert(node_key(v[n].h_levels), v[n].id) } else { a.nodes@[x].elems@[c]@ }) })
    ensures enrolled(m0, b, v, n, 4, j + 1)
{
    let x0 = v[n].nodes@[j] as int;
    let k = ix(v[n].nodes@, x0);
    assert forall|x: int, c: int| 0 <= x < m0.nodes@.len() && 0 <= c < 4 implies (#[trigger] b.nodes@[x].elems@[c])@ == nmap(m0, v, (if 0 <= ix(v[n].nodes@, x) < j + 1 { n + 1 } else { n }), x, c) by {
        assert(a.nodes@[x].elems@[c]@ == a.nodes@[x].elems@[c]@);
        if x == x0 {
            assert(0 <= k <= j);
            if k == c { assert(nmap(m0, v, n + 1, x, c) == nmap(m0, v, n, x, c).insert(node_key(v[n].h_levels), v[n].id)); assert(b.nodes@[x].elems@[c]@ =~= nmap(m0, v, n + 1, x, c)); }
            else { assert(nmap(m0, v, n + 1, x, c) == nmap(m0, v, n, x, c)); }
        }
    }
    assert forall|e: int, s: int| 0 <= e < m0.edges@.len() && 0 <= s < 2 implies (#[trigger] b.edges@[e].elems@[s])@ == emap(m0, v, (if 0 <= ix(v[n].edges@, e) < 4 { n + 1 } else { n }), e, s) by { assert(a.edges@[e].elems@[s]@ == a.edges@[e].elems@[s]@); }
}
proof fn enrol_next(m0: Mesh, b: Mesh, v: Seq<Elem>, n: int)
    requires 0 <= n < v.len(), enrolled(m0, b, v, n, 4, 4)
    ensures enrolled(m0, b, v, n + 1, 0, 0)
{
    assert forall|e: int, s: int| 0 <= e < m0.edges@.len() && 0 <= s < 2 implies (#[trigger] b.edges@[e].elems@[s])@ == emap(m0, v, n + 1, e, s) by { }
    assert forall|x: int, c: int| 0 <= x < m0.nodes@.len() && 0 <= c < 4 implies (#[trigger] b.nodes@[x].elems@[c])@ == nmap(m0, v, n + 1, x, c) by { }
}
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::upgrade_uninit_elems
//@@ params elems_uninit
        requires all_made(elems_uninit@), reg_free(*old(self), made_all(elems_uninit@))
        ensures r is Ok, r->Ok_0@ == made_all(elems_uninit@), registered(*old(self), *final(self), made_all(elems_uninit@))
//@@ start
        let ghost m0 = *self; let ghost v = elems_uninit@; let ghost z = made_all(v);
//@@ loop 0 take
        *self == m0, __hi0 == v.len(), __s0@ == v.skip(__i0 as int), elems@ == z.take(__i0 as int),
//@@ loopend 0
        proof { assert(v.skip(__i0 - 1).remove(0) =~= v.skip(__i0 as int)); assert(z.take(__i0 as int) =~= z.take(__i0 - 1).push(z[__i0 - 1])); }
//@@ loopafter 0
        proof { assert(elems@ =~= z); assert(enrolled(m0, *self, z, 0, 0, 0)); }
//@@ loop 1
        elems@ == z, __hi1 == z.len(), enrolled(m0, *self, z, __i1 as int, 0, 0), reg_free(m0, z),
//@@ loop 2
        0 < __i1 <= z.len(), *elem == z[__i1 - 1], elems@ == z, __hi2 == 4, __s2 == elem.edges, enrolled(m0, *self, z, __i1 - 1, __i2 as int, 0), reg_free(m0, z),
//@@ loopstart 2
        let ghost a = *self; let ghost n = __i1 - 1; let ghost e0 = elem.edges@[__i2 as int] as int;
        proof {
            assert(efree(m0, z, n, __i2 as int));
            assert(a.edges@[e0] == (Edge { elems: a.edges@[e0].elems, ..m0.edges@[e0] }));
            let k = ix(elem.edges@, e0); assert(0 <= k <= __i2);
            assert(a.edges@[e0].elems@[side(k)]@ == emap(m0, z, (if k < __i2 { n + 1 } else { n }), e0, side(k)));
        }
//@@ loopend 2
        proof { enrol_edge(m0, a, *self, z, n, __i2 - 1); }
//@@ loop 3
        0 < __i1 <= z.len(), *elem == z[__i1 - 1], elems@ == z, __hi3 == 4, __s3 == elem.nodes, enrolled(m0, *self, z, __i1 - 1, 4, __i3 as int), reg_free(m0, z),
//@@ loopstart 3
        let ghost a = *self; let ghost n = __i1 - 1; let ghost x0 = elem.nodes@[__i3 as int] as int;
        proof {
            assert(nfree(m0, z, n, __i3 as int));
            assert(a.nodes@[x0] == (Node { elems: a.nodes@[x0].elems, ..m0.nodes@[x0] }));
            let k = ix(elem.nodes@, x0); assert(0 <= k <= __i3);
            assert(a.nodes@[x0].elems@[k]@ == nmap(m0, z, (if k < __i3 { n + 1 } else { n }), x0, k));
        }
//@@ loopend 3
        proof { enrol_node(m0, a, *self, z, n, __i3 - 1); }
//@@ loopend 1
        proof { enrol_next(m0, *self, z, __i1 - 1); }
//@@ endfn
}
}
