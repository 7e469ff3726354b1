verus! {
// ------------------------------------------------------------------ the whole mesh
pub open spec fn reg(m: Mesh, e: int, s: int) -> Map<[u8; 2], usize> { m.edges@[e].elems@[s]@ }
pub open spec fn cor(m: Mesh, n: int, q: int) -> Map<[u8; 2], usize> { m.nodes@[n].elems@[q]@ }
pub open spec fn vacant(x: Map<[u8; 2], usize>) -> bool { x == Map::<[u8; 2], usize>::empty() }
pub open spec fn ekey(m: Mesh, c: int, k: int) -> [u8; 2] { edge_key(lv(m, c), k < 2) }
pub open spec fn nkey(m: Mesh, c: int) -> [u8; 2] { node_key(lv(m, c)) }
/// cell c is registered with its k-th edge and its k-th corner
pub open spec fn secured(m: Mesh, c: int, k: int) -> bool {
    &&& reg(m, rim(m, c, k), side(k)).dom().contains(ekey(m, c, k)) && reg(m, rim(m, c, k), side(k))[ekey(m, c, k)] == c
    &&& cor(m, corner(m, c, k), k).dom().contains(nkey(m, c)) && cor(m, corner(m, c, k), k)[nkey(m, c)] == c
}
/// nothing finer is registered there
pub open spec fn top_e(m: Mesh, c: int, k: int) -> bool { forall|key: [u8; 2]| <[u8; 2]>::klt(ekey(m, c, k), key) ==> !#[trigger] reg(m, rim(m, c, k), side(k)).dom().contains(key) }
pub open spec fn top_n(m: Mesh, c: int, k: int) -> bool { forall|key: [u8; 2]| <[u8; 2]>::klt(nkey(m, c), key) ==> !#[trigger] cor(m, corner(m, c, k), k).dom().contains(key) }
pub open spec fn open_halves(m: Mesh, c: int, k: int) -> bool { cleft(m, c, k) ==> vacant(reg(m, half_at(m, c, k, 0), side(k))) && vacant(reg(m, half_at(m, c, k, 1), side(k))) }
pub open spec fn tops(m: Mesh, c: int, k: int) -> bool { top_e(m, c, k) && top_n(m, c, k) && open_halves(m, c, k) }
/// whatever is registered on this side of this edge: a cell that has it there
pub open spec fn lies(m: Mesh, d: int, e: int, s: int, k: int, key: [u8; 2]) -> bool { 0 <= d < m.elems@.len() && 0 <= k < 4 && rim(m, d, k) == e && side(k) == s && key == ekey(m, d, k) }
pub open spec fn lies_some(m: Mesh, d: int, e: int, s: int, key: [u8; 2]) -> bool { lies(m, d, e, s, 0, key) || lies(m, d, e, s, 1, key) || lies(m, d, e, s, 2, key) || lies(m, d, e, s, 3, key) }
pub open spec fn true_e(m: Mesh, e: int, s: int) -> bool { forall|key: [u8; 2]| #[trigger] reg(m, e, s).dom().contains(key) ==> lies_some(m, reg(m, e, s)[key] as int, e, s, key) }
pub open spec fn true_n(m: Mesh, n: int, q: int) -> bool { forall|key: [u8; 2]| #[trigger] cor(m, n, q).dom().contains(key) ==> { let d = cor(m, n, q)[key] as int; d < m.elems@.len() && corner(m, d, q) == n && key == nkey(m, d) } }
pub open spec fn hf(m: Mesh, e: int, j: int) -> int { m.edges@[e].children->0@[j] as int }
/// the halves are taken together, and only after the edge itself
pub open spec fn even(m: Mesh, e: int, s: int) -> bool { m.edges@[e].children is Some ==> (vacant(reg(m, hf(m, e, 0), s)) == vacant(reg(m, hf(m, e, 1), s))) && (vacant(reg(m, e, s)) ==> vacant(reg(m, hf(m, e, 0), s))) }
/// of an edge in that direction: the half, and its side, on which a cell lies that has the middle as its corner q
pub open spec fn q_half(u: bool, q: int) -> int { if u { if q == 1 || q == 3 { 0 } else { 1 } } else { if q >= 2 { 0 } else { 1 } } }
pub open spec fn q_side(u: bool, q: int) -> int { if u { if q < 2 { 1 } else { 0 } } else { if q == 0 || q == 2 { 1 } else { 0 } } }
pub open spec fn touch(m: Mesh, e: int, q: int) -> bool { m.edges@[e].children is Some ==> vacant(reg(m, hf(m, e, q_half(m.edges@[e].dir is U, q)), q_side(m.edges@[e].dir is U, q))) ==> vacant(cor(m, m.edges@[e].child_node->0 as int, q)) }
/// the children of a cell
pub open spec fn kids_of(m: Mesh, c: int) -> Seq<Elem> { Seq::new(m.elems@[c].children->0@.len(), |i: int| m.elems@[m.elems@[c].children->0@[i] as int]) }
pub open spec fn kid_at(m: Mesh, c: int, h: HRef, i: int) -> bool {
    let d = m.elems@[c].children->0@[i] as int;
    c < d < m.elems@.len() && m.elems@[d].ancestors@ == m.elems@[c].ancestors@.push((c as usize, h.loc_of(i))) && lv(m, d) == lv(m, c).grown(h) && m.elems@[d].element == m.elems@[c].element
}
pub open spec fn cut_as(m: Mesh, c: int, h: HRef, g: Grid) -> bool {
    let k = m.elems@[c].children->0@;
    k.len() == h.n() && cut_table(m, c, h, g, kids_of(m, c)) && (forall|i: int| 0 <= i < k.len() ==> #[trigger] kid_at(m, c, h, i)) && forall|i: int, j: int| 0 <= i < j < k.len() ==> k[i] != k[j]
}
pub open spec fn kin(m: Mesh, c: int) -> bool { m.elems@[c].children is Some ==> exists|h: HRef, g: Grid| #[trigger] cut_as(m, c, h, g) }
pub open spec fn born(m: Mesh, c: int) -> bool { let a = m.elems@[c].ancestors@; a.len() > 0 ==> { let p = a.last().0 as int; p < c && m.elems@[p].children is Some && m.elems@[p].children->0@.contains(c as usize) } }
pub open spec fn leaf(m: Mesh, x: int, c: int) -> bool { c == x || m.elems@[c].children is None }
pub open spec fn cell_all(m: Mesh, x: int, c: int) -> bool {
    &&& m.elems@[c].id == c && cell_ok(m, c) && secured(m, c, 0) && secured(m, c, 1) && secured(m, c, 2) && secured(m, c, 3)
    &&& c != x ==> kin(m, c)
    &&& leaf(m, x, c) ==> tops(m, c, 0) && tops(m, c, 1) && tops(m, c, 2) && tops(m, c, 3)
    &&& born(m, c)
}
pub open spec fn edge_all(m: Mesh, e: int) -> bool {
    &&& true_e(m, e, 0) && true_e(m, e, 1) && even(m, e, 0) && even(m, e, 1) && touch(m, e, 0) && touch(m, e, 1) && touch(m, e, 2) && touch(m, e, 3)
    &&& m.edges@[e].parent is None ==> m.edges@[e].boundary == (vacant(reg(m, e, 0)) || vacant(reg(m, e, 1)))
}
pub open spec fn node_all(m: Mesh, n: int) -> bool { true_n(m, n, 0) && true_n(m, n, 1) && true_n(m, n, 2) && true_n(m, n, 3) }
/// everything fits together; the children of cell x (none: -1) are not there yet
pub open spec fn whole_but(m: Mesh, x: int) -> bool {
    &&& net_ok(m) && m.elems@.len() <= usize::MAX
    &&& forall|c: int| 0 <= c < m.elems@.len() ==> #[trigger] cell_all(m, x, c)
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> #[trigger] edge_all(m, e)
    &&& forall|n: int| 0 <= n < m.nodes@.len() ==> #[trigger] node_all(m, n)
}
pub open spec fn whole(m: Mesh) -> bool { whole_but(m, -1) }
/// no finer cell, no child, no node in between: where a cell without children lies is free for its children
pub proof fn whole_open(m: Mesh, x: int, c: int)
    requires whole_but(m, x), 0 <= c < m.elems@.len(), leaf(m, x, c)
    ensures open_place(m, c), cell_ok(m, c)
{
    assert(cell_all(m, x, c));
    assert forall|k: int| 0 <= k < 4 implies #[trigger] open_rim(m, c, k) by {
        assert(tops(m, c, k) && top_e(m, c, k) && top_n(m, c, k));
        let e = rim(m, c, k);
        assert forall|key: [u8; 2]| <[u8; 2]>::klt(edge_key(lv(m, c), k < 2), key) implies !#[trigger] m.edges@[e].elems@[side(k)]@.dom().contains(key) by { assert(!reg(m, e, side(k)).dom().contains(key)); }
        assert forall|key: [u8; 2]| <[u8; 2]>::klt(node_key(lv(m, c)), key) implies !#[trigger] m.nodes@[corner(m, c, k)].elems@[k]@.dom().contains(key) by { assert(!cor(m, corner(m, c, k), k).dom().contains(key)); }
        if cleft(m, c, k) {
            assert forall|j: int| 0 <= j < 2 implies m.edges@[#[trigger] half_at(m, c, k, j)].elems@[side(k)]@ == Map::<[u8; 2], usize>::empty() by { assert(vacant(reg(m, half_at(m, c, k, j), side(k)))); }
            assert(edge_all(m, e));
            assert forall|q: int| 0 <= q < 4 && beside(k, q) implies m.nodes@[mid_at(m, c, k)].elems@[q]@ == #[trigger] none_at(q) by {
                assert(touch(m, e, q));
                assert(vacant(cor(m, mid_at(m, c, k), q)));
            }
        }
    }
}
/// what the rest of the program relies on
#[verifier::spinoff_prover]
pub proof fn theorem_whole(m: Mesh)
    requires whole(m)
    ensures links_ok(m), live_ok(m), edge_tree(m).ok(), elem_tree(m).ok(), refs_ok(m)
{
    net_tree(m);
    assert forall|e: int, s: int, key: [u8; 2]| 0 <= e < m.edges@.len() && 0 <= s < 2 && #[trigger] m.edges@[e].elems@[s]@.dom().contains(key) implies along_edge(m, e, s, m.edges@[e].elems@[s]@[key] as int) by {
        assert(edge_all(m, e)); assert(true_e(m, e, s)); assert(reg(m, e, s).dom().contains(key));
        let d = reg(m, e, s)[key] as int;
        assert(lies_some(m, d, e, s, key));
        let k = if lies(m, d, e, s, 0, key) { 0int } else if lies(m, d, e, s, 1, key) { 1 } else if lies(m, d, e, s, 2, key) { 2 } else { 3 };
        assert(lies(m, d, e, s, k, key)); assert(cell_all(m, -1, d)); assert(m.elems@[d].edges@[k] == e);
    }
    assert forall|e: int| 0 <= e < m.edges@.len() && (#[trigger] m.edges@[e]).parent is None implies m.edges@[e].boundary == !usable(m, e) by { assert(edge_all(m, e)); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies (#[trigger] m.edges@[e]).id == e by { assert(edge_ok(m, e)); }
    assert forall|e: int| 0 <= e < m.edges@.len() && (#[trigger] m.edges@[e]).children is Some implies {
        let c = m.edges@[e].children->0;
        c@[0] < m.edges@.len() && c@[1] < m.edges@.len() && usable(m, c@[0] as int) == usable(m, c@[1] as int) && (usable(m, c@[0] as int) ==> usable(m, e)) } by { assert(edge_all(m, e)); assert(split_ok(m, e)); assert(even(m, e, 0) && even(m, e, 1)); }
    let t = elem_tree(m);
    assert forall|e: int, k: int| 0 <= e < t.n && 0 <= k < (t.kids)(e).len() implies e < #[trigger] (t.kids)(e)[k] < t.n && (t.par)((t.kids)(e)[k] as int) == Some(e) by {
        assert(cell_all(m, -1, e)); let (h, g) = choose|h: HRef, g: Grid| #[trigger] cut_as(m, e, h, g); assert(kid_at(m, e, h, k)); let d = (t.kids)(e)[k] as int; assert(m.elems@[d].ancestors@.last().0 == e as usize); }
    assert forall|e: int, j: int, k: int| 0 <= e < t.n && 0 <= j < k < (t.kids)(e).len() implies #[trigger] (t.kids)(e)[j] != #[trigger] (t.kids)(e)[k] by {
        assert(cell_all(m, -1, e)); let (h, g) = choose|h: HRef, g: Grid| #[trigger] cut_as(m, e, h, g); assert(cut_as(m, e, h, g)); }
    assert forall|c: int| 0 <= c < t.n && #[trigger] (t.par)(c) is Some implies 0 <= (t.par)(c)->0 < c && (t.kids)((t.par)(c)->0).contains(c as usize) by { assert(cell_all(m, -1, c)); assert(born(m, c)); }
    assert forall|e: int, k: int| 0 <= e < m.elems@.len() && 0 <= k < 4 implies #[trigger] m.elems@[e].nodes@[k] < m.nodes@.len() by { assert(cell_all(m, -1, e)); }
    assert forall|e: int, k: int| 0 <= e < m.edges@.len() && 0 <= k < 2 implies #[trigger] m.edges@[e].nodes@[k] < m.nodes@.len() by { assert(edge_ok(m, e)); }
}
}
