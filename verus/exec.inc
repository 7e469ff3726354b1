verus! {
// ------------------------------------------------------------------ room for the children
pub open spec fn lv(m: Mesh, c: int) -> HLevels { m.elems@[c].h_levels }
/// nothing finer than the cell itself is registered where it is, nor anything where its children go
pub open spec fn open_rim(m: Mesh, c: int, k: int) -> bool {
    &&& forall|key: [u8; 2]| <[u8; 2]>::klt(edge_key(lv(m, c), k < 2), key) ==> !#[trigger] m.edges@[rim(m, c, k)].elems@[side(k)]@.dom().contains(key)
    &&& forall|key: [u8; 2]| <[u8; 2]>::klt(node_key(lv(m, c)), key) ==> !#[trigger] m.nodes@[corner(m, c, k)].elems@[k]@.dom().contains(key)
    &&& cleft(m, c, k) ==> (forall|j: int| 0 <= j < 2 ==> m.edges@[#[trigger] half_at(m, c, k, j)].elems@[side(k)]@ == Map::<[u8; 2], usize>::empty())
        && forall|q: int| 0 <= q < 4 && beside(k, q) ==> m.nodes@[mid_at(m, c, k)].elems@[q]@ == #[trigger] none_at(q)
}
pub open spec fn none_at(q: int) -> Map<[u8; 2], usize> { Map::<[u8; 2], usize>::empty() }
/// the corners by which the children along edge k touch its middle
pub open spec fn beside(k: int, q: int) -> bool { if k == 0 { q == 0 || q == 1 } else if k == 1 { q == 2 || q == 3 } else if k == 2 { q == 0 || q == 2 } else { q == 1 || q == 3 } }
pub open spec fn open_place(m: Mesh, c: int) -> bool { forall|k: int| 0 <= k < 4 ==> #[trigger] open_rim(m, c, k) }
pub open spec fn kid_mask(h: HRef) -> Seq<bool> { seq![du(h), du(h), dv(h), dv(h)] }
pub open spec fn inner_edges(h: HRef, g: Grid) -> Seq<int> { match h { HRef::T => seq![g.v0, g.v1, g.h0, g.h1], HRef::U(_) => seq![g.v0], HRef::V(_) => seq![g.h0] } }
/// fresh inner edges, fresh centre
pub open spec fn grid_new(a: Mesh, g: Grid, h: HRef) -> bool {
    (h is T ==> g.ctr >= a.nodes@.len()) && forall|i: int| 0 <= i < inner_edges(h, g).len() ==> #[trigger] inner_edges(h, g)[i] >= a.edges@.len()
}
/// the children's registrations: none of the others is registered there
pub proof fn emap_skip(m: Mesh, v: Seq<Elem>, n: int, e: int, s: int)
    requires 0 <= n <= v.len(), forall|i: int| 0 <= i < n ==> !(ix((#[trigger] v[i]).edges@, e) >= 0 && side(ix(v[i].edges@, e)) == s)
    ensures emap(m, v, n, e, s) == m.edges@[e].elems@[s]@
    decreases n
{ if n > 0 { emap_skip(m, v, n - 1, e, s); assert(!(ix(v[n - 1].edges@, e) >= 0 && side(ix(v[n - 1].edges@, e)) == s)); } }
pub proof fn nmap_skip(m: Mesh, v: Seq<Elem>, n: int, x: int, c: int)
    requires 0 <= n <= v.len(), forall|i: int| 0 <= i < n ==> ix((#[trigger] v[i]).nodes@, x) != c
    ensures nmap(m, v, n, x, c) == m.nodes@[x].elems@[c]@
    decreases n
{ if n > 0 { nmap_skip(m, v, n - 1, x, c); assert(ix(v[n - 1].nodes@, x) != c); } }
pub proof fn key_up(l: HLevels, h: HRef, k: int)
    requires l.u < 255, l.v < 255, 0 <= k < 4
    ensures <[u8; 2]>::klt(node_key(l), node_key(l.grown(h))),
        <[u8; 2]>::klt(edge_key(l, true), edge_key(l.grown(h), true)), <[u8; 2]>::klt(edge_key(l, false), edge_key(l.grown(h), false)),
{ }
/// where a child goes, nothing is registered with its key yet
#[verifier::spinoff_prover]
pub proof fn place_free(a: Mesh, gm: Mesh, c: int, h: HRef, g: Grid, z: Seq<Elem>, i: int, k: int)
    requires net_ok(a), cell_ok(a, c), open_place(a, c), work(a, gm, c, kid_mask(h), inner_edges(h, g)), cut_table(gm, c, h, g, z), grid_new(a, g, h), 0 <= i < z.len(), 0 <= k < 4, gm.elems == a.elems,
        lv(a, c).u < 255, lv(a, c).v < 255, z[i].h_levels == lv(a, c).grown(h),
    ensures !gm.edges@[z[i].edges@[k] as int].elems@[side(k)]@.dom().contains(edge_key(lv(a, c).grown(h), k < 2)), !gm.nodes@[z[i].nodes@[k] as int].elems@[k]@.dom().contains(node_key(lv(a, c).grown(h))),
        gm.edges@[z[i].edges@[k] as int].dir is U <==> k < 2,
{
    grew_keeps(a, gm, c);
    theorem_children(gm, c, h, g, z);
    assert(framed(gm, z[i].nodes@, z[i].edges@));
    key_up(lv(a, c), h, k);
    let l = lv(a, c).grown(h);
    assert forall|j: int| 0 <= j < 4 implies #[trigger] open_rim(a, c, j) by { }
    assert forall|e: int| 0 <= e < a.edges@.len() implies #[trigger] gm.edges@[e].elems == a.edges@[e].elems by { assert(kept_edge(a.edges@[e], gm.edges@[e])); }
    assert forall|n: int| 0 <= n < a.nodes@.len() implies #[trigger] gm.nodes@[n] == a.nodes@[n] by { }
    assert forall|j: int, y: int| 0 <= j < 4 && cleft(gm, c, j) && kid_mask(h)[j] && 0 <= y < 2 implies gm.edges@[#[trigger] half_at(gm, c, j, y)].elems@[side(j)]@ == Map::<[u8; 2], usize>::empty() by {
        let r = rim(a, c, j);
        rim_facts(gm, c, j);
        assert(kept_edge(a.edges@[r], gm.edges@[r]));
        assert(open_rim(a, c, j));
        if cleft(a, c, j) { rim_facts(a, c, j); assert(half_at(a, c, j, y) == half_at(gm, c, j, y)); }
        else { assert(half_at(gm, c, j, y) >= a.edges@.len()); assert(fresh(a, gm.edges@[half_at(gm, c, j, y)])); assert(side(j) == 0 || side(j) == 1); }
    }
    assert forall|j: int, q: int| 0 <= j < 4 && cleft(gm, c, j) && 0 <= q < 4 && beside(j, q) implies gm.nodes@[#[trigger] mid_at(gm, c, j)].elems@[q]@ == #[trigger] none_at(q) by {
        let r = rim(a, c, j);
        rim_facts(gm, c, j);
        assert(kept_edge(a.edges@[r], gm.edges@[r]));
        assert(open_rim(a, c, j));
        if cleft(a, c, j) { rim_facts(a, c, j); } else { assert(lone_node(gm.nodes@[mid_at(gm, c, j)])); }
    }
    assert(kid_is(gm, c, h, g, i, z[i]));
    assert(open_rim(a, c, k));
    if h is T { assert(lone_node(gm.nodes@[g.ctr])); }
    assert forall|n: int| 0 <= n < inner_edges(h, g).len() implies bare(gm.edges@[#[trigger] inner_edges(h, g)[n]]) by { }
    match h {
        HRef::T => { assert(inner_edges(h, g)[0] == g.v0 && inner_edges(h, g)[1] == g.v1 && inner_edges(h, g)[2] == g.h0 && inner_edges(h, g)[3] == g.h1); assert(i == 0 || i == 1 || i == 2 || i == 3); }
        HRef::U(_) => { assert(inner_edges(h, g)[0] == g.v0); assert(i == 0 || i == 1); }
        HRef::V(_) => { assert(inner_edges(h, g)[0] == g.h0); assert(i == 0 || i == 1); }
    }
    assert(none_at(k) == Map::<[u8; 2], usize>::empty());
    let x = z[i].nodes@[k] as int;
    let e = z[i].edges@[k] as int;
    assert(gm.edges@[e].elems@[side(k)]@.dom().contains(edge_key(l, k < 2)) ==> false) by {
        if k < 2 { if dv(h) && cv(h, i) != k { assert(bare(gm.edges@[e])); } else if du(h) { assert(kid_mask(h)[k]); assert(e == half_at(gm, c, k, cu(h, i))); } else { assert(e == rim(a, c, k)); } }
        else { if du(h) && cu(h, i) != k - 2 { assert(bare(gm.edges@[e])); } else if dv(h) { assert(kid_mask(h)[k]); assert(e == half_at(gm, c, k, cv(h, i))); } else { assert(e == rim(a, c, k)); } }
    }
    assert(gm.nodes@[x].elems@[k]@.dom().contains(node_key(l)) ==> false) by {
        let (sx, sy) = (stop(du(h), cu(h, i), east(k)), stop(dv(h), cv(h, i), north(k)));
        if sx == 1 && sy == 1 { assert(x == g.ctr); }
        else if sx == 1 { let j = if sy == 0 { 0int } else { 1 }; assert(x == mid_at(gm, c, j)); assert(beside(j, k)); assert(cleft(gm, c, j)); }
        else if sy == 1 { let j = if sx == 0 { 2int } else { 3 }; assert(x == mid_at(gm, c, j)); assert(beside(j, k)); assert(cleft(gm, c, j)); }
        else { assert(x == corner(a, c, k)); }
    }
}
#[verifier::spinoff_prover]
pub proof fn kids_free(a: Mesh, gm: Mesh, c: int, h: HRef, g: Grid, z: Seq<Elem>)
    requires net_ok(a), cell_ok(a, c), open_place(a, c), work(a, gm, c, kid_mask(h), inner_edges(h, g)), cut_table(gm, c, h, g, z), grid_new(a, g, h), gm.elems == a.elems,
        lv(a, c).u < 255, lv(a, c).v < 255, forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]).h_levels == lv(a, c).grown(h),
    ensures reg_free(gm, z)
{
    grew_keeps(a, gm, c);
    theorem_children(gm, c, h, g, z);
    no_clash(gm, c, h, g, z);
    assert forall|n: int, k: int| 0 <= n < z.len() && 0 <= k < 4 implies #[trigger] efree(gm, z, n, k) by {
        assert(framed(gm, z[n].nodes@, z[n].edges@));
        apart(gm, z[n].nodes@, z[n].edges@);
        let e = z[n].edges@[k] as int;
        assert(ix(z[n].edges@, e) == k);
        assert(edge_ok(gm, e));
        place_free(a, gm, c, h, g, z, n, k);
        assert forall|i: int| 0 <= i < n implies !(ix((#[trigger] z[i]).edges@, e) >= 0 && side(ix(z[i].edges@, e)) == side(k)) by {
            let l = ix(z[i].edges@, e);
            if l >= 0 && side(l) == side(k) { assert(z[i].edges@[l] == e); assert(z[i].edges@[l] != z[n].edges@[k]); }
        }
        emap_skip(gm, z, n, e, side(k));
    }
    assert forall|n: int, k: int| 0 <= n < z.len() && 0 <= k < 4 implies #[trigger] nfree(gm, z, n, k) by {
        assert(framed(gm, z[n].nodes@, z[n].edges@));
        apart(gm, z[n].nodes@, z[n].edges@);
        let x = z[n].nodes@[k] as int;
        assert(ix(z[n].nodes@, x) == k);
        assert(node_ok(gm, x));
        place_free(a, gm, c, h, g, z, n, k);
        assert forall|i: int| 0 <= i < n implies ix((#[trigger] z[i]).nodes@, x) != k by {
            if ix(z[i].nodes@, x) == k { assert(z[i].nodes@[k] == x); assert(z[i].nodes@[k] != z[n].nodes@[k]); }
        }
        nmap_skip(gm, z, n, x, k);
    }
}

// ------------------------------------------------------------------ execution
pub open spec fn in_step(m: Mesh, n: IdTracker, e: IdTracker) -> bool { n.next_id == m.nodes@.len() && e.next_id == m.edges@.len() }
pub open spec fn spare(m: Mesh) -> bool { m.nodes@.len() + 16 <= usize::MAX && m.edges@.len() + 16 <= usize::MAX }
pub open spec fn cuttable(m: Mesh, c: int, h: HRef) -> bool { (du(h) ==> halvable(m, rim(m, c, 0)) && halvable(m, rim(m, c, 1))) && (dv(h) ==> halvable(m, rim(m, c, 2)) && halvable(m, rim(m, c, 3))) }
pub open spec fn exec_pre(m: Mesh, c: int, h: HRef) -> bool {
    &&& net_ok(m) && 0 <= c < m.elems@.len() && cell_ok(m, c) && wide(m, c) && cuttable(m, c, h) && open_place(m, c) && spare(m) && lv(m, c).u < 255 && lv(m, c).v < 255
}
pub open spec fn blank(u: ElemUninit) -> bool { u.nodes@[0] is None && u.nodes@[1] is None && u.nodes@[2] is None && u.nodes@[3] is None && u.edges@[0] is None && u.edges@[1] is None && u.edges@[2] is None && u.edges@[3] is None }
pub open spec fn kids_in(m: Mesh, c: int, h: HRef, v: Seq<ElemUninit>) -> bool { v.len() == h.n() && forall|i: int| 0 <= i < v.len() ==> blank(#[trigger] v[i]) && v[i].h_levels == lv(m, c).grown(h) }
pub open spec fn kid_out(u: ElemUninit, x: Elem) -> bool { x.id == u.id && x.element == u.element && x.h_levels == u.h_levels && x.poly_orders == u.poly_orders && x.children is None && x.ancestors == u.ancestors }
pub open spec fn kids_out(v: Seq<ElemUninit>, z: Seq<Elem>) -> bool { z.len() == v.len() && forall|i: int| 0 <= i < z.len() ==> kid_out(v[i], #[trigger] z[i]) }
/// in the middle of no edge
pub open spec fn hub(m: Mesh, n: int) -> bool { forall|e: int| 0 <= e < m.edges@.len() ==> (#[trigger] m.edges@[e]).child_node != Some(n as usize) }
/// the whole step: gm has the new nodes and edges, b the registrations of the children as well
pub open spec fn wired(a: Mesh, gm: Mesh, b: Mesh, c: int, h: HRef, g: Grid, z: Seq<Elem>) -> bool {
    work(a, gm, c, kid_mask(h), inner_edges(h, g)) && cut_table(gm, c, h, g, z) && grid_new(a, g, h) && registered(gm, b, z) && (h is T ==> hub(gm, g.ctr)) && gm.nodes@.len() <= a.nodes@.len() + 5 && gm.edges@.len() <= a.edges@.len() + 12
}
/// the slots of a child in the making
pub open spec fn slot(u: ElemUninit, k: int, x: int) -> bool { u.nodes@[k] == Some(x as usize) && 0 <= x <= usize::MAX }
pub open spec fn eslot(u: ElemUninit, k: int, x: int) -> bool { u.edges@[k] == Some(x as usize) && 0 <= x <= usize::MAX }
pub proof fn wrap_up(a: Mesh, gm: Mesh, c: int, h: HRef, g: Grid, v: Seq<ElemUninit>, w: Seq<ElemUninit>)
    requires exec_pre(a, c, h), kids_in(a, c, h, v), work(a, gm, c, kid_mask(h), inner_edges(h, g)), grid_new(a, g, h), rims_cleft(gm, c, h), inner_ok(gm, c, h, g), w.len() == v.len(),
        forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == (ElemUninit { nodes: w[i].nodes, edges: w[i].edges, ..v[i] }),
        forall|i: int, k: int| 0 <= i < w.len() && 0 <= k < 4 ==> #[trigger] w[i].nodes@[k] == Some(kid_node(gm, c, h, g, i, k) as usize) && 0 <= kid_node(gm, c, h, g, i, k) <= usize::MAX,
        forall|i: int, k: int| 0 <= i < w.len() && 0 <= k < 4 ==> #[trigger] w[i].edges@[k] == Some(kid_edge(gm, c, h, g, i, k) as usize) && 0 <= kid_edge(gm, c, h, g, i, k) <= usize::MAX,
    ensures all_made(w), reg_free(gm, made_all(w)), kids_out(v, made_all(w)), cut_table(gm, c, h, g, made_all(w))
{
    let z = made_all(w);
    assert forall|i: int| 0 <= i < w.len() implies all_set((#[trigger] w[i]).nodes@) && all_set(w[i].edges@) by { assert(w[i].nodes@[0] is Some && w[i].nodes@[1] is Some && w[i].nodes@[2] is Some && w[i].nodes@[3] is Some); assert(w[i].edges@[0] is Some && w[i].edges@[1] is Some && w[i].edges@[2] is Some && w[i].edges@[3] is Some); }
    assert forall|i: int| 0 <= i < z.len() implies kid_is(gm, c, h, g, i, #[trigger] z[i]) && z[i].h_levels == lv(a, c).grown(h) && kid_out(v[i], z[i]) by {
        assert(z[i] == made(w[i]));
        assert(w[i] == (ElemUninit { nodes: w[i].nodes, edges: w[i].edges, ..v[i] }));
        assert(w[i].nodes@[0] is Some && w[i].nodes@[1] is Some && w[i].nodes@[2] is Some && w[i].nodes@[3] is Some);
        assert(w[i].edges@[0] is Some && w[i].edges@[1] is Some && w[i].edges@[2] is Some && w[i].edges@[3] is Some);
        assert(blank(v[i]));
    }
    kids_free(a, gm, c, h, g, z);
}
/// where the middle and the halves of an edge of the cell are
pub open spec fn cut_at(m: Mesh, c: int, k: int, n: int, x: int, y: int) -> bool { cleft(m, c, k) && mid_at(m, c, k) == n && half_at(m, c, k, 0) == x && half_at(m, c, k, 1) == y }
/// under way: those edges split, those inner edges added, at most so many nodes and edges more
pub open spec fn stage(a: Mesh, m: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, nn: int, ne: int) -> bool {
    work(a, m, c, d, inn) && d.len() == 4 && cell_ok(m, c) && wide(m, c) && c < m.elems@.len() && m.elems == a.elems && m.nodes@.len() <= a.nodes@.len() + nn && m.edges@.len() <= a.edges@.len() + ne
        && m.nodes@.len() >= a.nodes@.len() && m.edges@.len() >= a.edges@.len()
}
pub proof fn stage_none(a: Mesh, c: int, h: HRef)
    requires exec_pre(a, c, h)
    ensures stage(a, a, c, no_edges(), seq![], 0, 0)
{ work_none(a, c); }
pub proof fn stage_wide(a: Mesh, b: Mesh, c: int)
    requires cell_ok(a, c), wide(a, c), grew(a, b), 0 <= c < a.elems@.len()
    ensures cell_ok(b, c), wide(b, c)
{
    grew_keeps(a, b, c);
    assert forall|k: int| 0 <= k < 4 implies (b.edges@[#[trigger] rim(b, c, k)]).length@ > MIN_EDGE_LENGTH_real() by { assert(rim(a, c, k) == rim(b, c, k)); assert(kept_edge(a.edges@[rim(a, c, k)], b.edges@[rim(a, c, k)])); }
}
/// before an edge of the cell is split
pub proof fn stage_ready(a: Mesh, m: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, nn: int, ne: int, h: HRef, k: int)
    requires exec_pre(a, c, h), stage(a, m, c, d, inn, nn, ne), 0 <= k < 4, if k < 2 { du(h) } else { dv(h) }
    ensures net_ok(m), halvable(m, rim(m, c, k)), rim(m, c, k) < m.edges@.len(), rim(m, c, k) == rim(a, c, k)
{ assert(kept_edge(a.edges@[rim(a, c, k)], m.edges@[rim(a, c, k)])); }
pub proof fn stage_split(a: Mesh, m: Mesh, b: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, nn: int, ne: int, h: HRef, k: int)
    requires exec_pre(a, c, h), stage(a, m, c, d, inn, nn, ne), 0 <= k < 4, net_ok(b), grew(m, b), if m.edges@[rim(a, c, k)].children is Some { b == m } else { splits(m, b, rim(a, c, k)) },
    ensures stage(a, b, c, d.update(k, true), inn, nn + 1, ne + 2), forall|n: int| 0 <= n < m.nodes@.len() && #[trigger] hub(m, n) ==> hub(b, n), forall|j: int, n: int, x: int, y: int| 0 <= j < 4 && #[trigger] cut_at(m, c, j, n, x, y) ==> cut_at(b, c, j, n, x, y),
        forall|e: int, p: int, q: int, u: bool| #[trigger] string_at(m, e, p, q, u) ==> string_at(b, e, p, q, u), forall|n: int| #[trigger] center_at(m, c, n) ==> center_at(b, c, n),
{
    assert(b.edges.len() == b.edges@.len() && b.nodes.len() == b.nodes@.len());
    assert forall|j: int| 0 <= j < 4 implies 0 <= #[trigger] rim(a, c, j) < a.edges@.len() by { }
    work_split(a, m, b, c, d, inn, k);
    grew_keeps(m, b, c);
    assert forall|n: int| 0 <= n < m.nodes@.len() && #[trigger] hub(m, n) implies hub(b, n) by {
        assert forall|e: int| 0 <= e < b.edges@.len() implies (#[trigger] b.edges@[e]).child_node != Some(n as usize) by { if e < m.edges@.len() { assert(m.edges@[e].child_node != Some(n as usize)); assert(kept_edge(m.edges@[e], b.edges@[e])); } } }
    stage_wide(m, b, c);
    assert forall|j: int, n: int, x: int, y: int| 0 <= j < 4 && #[trigger] cut_at(m, c, j, n, x, y) implies cut_at(b, c, j, n, x, y) by { assert(cleft(m, c, j)); }
}
pub proof fn stage_string(a: Mesh, m: Mesh, b: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, nn: int, ne: int, h: HRef, p: int, q: int, u: bool)
    requires exec_pre(a, c, h), stage(a, m, c, d, inn, nn, ne), strings(m, b, p, q, u), net_ok(b), grew(m, b)
    ensures stage(a, b, c, d, inn.push(m.edges@.len() as int), nn, ne + 1), forall|n: int| 0 <= n < m.nodes@.len() && #[trigger] hub(m, n) ==> hub(b, n), string_at(b, m.edges@.len() as int, p, q, u), forall|j: int, n: int, x: int, y: int| 0 <= j < 4 && #[trigger] cut_at(m, c, j, n, x, y) ==> cut_at(b, c, j, n, x, y),
        forall|e: int, p: int, q: int, u: bool| #[trigger] string_at(m, e, p, q, u) ==> string_at(b, e, p, q, u), forall|n: int| #[trigger] center_at(m, c, n) ==> center_at(b, c, n),
{
    assert forall|j: int| 0 <= j < 4 implies 0 <= #[trigger] rim(a, c, j) < a.edges@.len() by { }
    work_string(a, m, b, c, d, inn, p, q, u);
    grew_keeps(m, b, c);
    assert forall|n: int| 0 <= n < m.nodes@.len() && #[trigger] hub(m, n) implies hub(b, n) by {
        assert forall|e: int| 0 <= e < b.edges@.len() implies (#[trigger] b.edges@[e]).child_node != Some(n as usize) by { if e < m.edges@.len() { assert(m.edges@[e].child_node != Some(n as usize)); assert(b.edges@.take(m.edges@.len() as int)[e] == b.edges@[e]); } } }
    stage_wide(m, b, c);
    assert forall|j: int, n: int, x: int, y: int| 0 <= j < 4 && #[trigger] cut_at(m, c, j, n, x, y) implies cut_at(b, c, j, n, x, y) by { assert(cleft(m, c, j)); }
}
pub proof fn stage_far(a: Mesh, m: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, nn: int, ne: int, n: int)
    requires stage(a, m, c, d, inn, nn, ne)
    ensures
        forall|k: int, n: int, x: int, y: int| 0 <= k < 4 && #[trigger] cut_at(m, c, k, n, x, y) ==> n < m.nodes@.len(),
        forall|n0: int, x0: int, y0: int, n1: int, x1: int, y1: int| #[trigger] cut_at(m, c, 0, n0, x0, y0) && #[trigger] cut_at(m, c, 1, n1, x1, y1) ==> far(m, n0, n1, false) && n0 != n1,
        forall|n0: int, x0: int, y0: int, n1: int, x1: int, y1: int| #[trigger] cut_at(m, c, 2, n0, x0, y0) && #[trigger] cut_at(m, c, 3, n1, x1, y1) ==> far(m, n0, n1, true) && n0 != n1,
        center_at(m, c, n) ==> 0 <= n < m.nodes@.len() && (forall|k: int, n0: int, x0: int, y0: int| 0 <= k < 4 && #[trigger] cut_at(m, c, k, n0, x0, y0) ==> n0 != n && (if k == 0 || k == 2 { far(m, n0, n, k == 2) } else { far(m, n, n0, k == 3) })),
{
    mids_far(m, c, n);
    if cleft(m, c, 0) { rim_facts(m, c, 0); }
    if cleft(m, c, 1) { rim_facts(m, c, 1); }
    if cleft(m, c, 2) { rim_facts(m, c, 2); }
    if cleft(m, c, 3) { rim_facts(m, c, 3); }
    assert forall|k: int, n: int, x: int, y: int| 0 <= k < 4 && #[trigger] cut_at(m, c, k, n, x, y) implies n < m.nodes@.len() by { assert(k == 0 || k == 1 || k == 2 || k == 3); }
}
pub proof fn stage_new(a: Mesh, m: Mesh, c: int, d: Seq<bool>, inn: Seq<int>, nn: int, ne: int)
    requires stage(a, m, c, d, inn, nn, ne)
    ensures net_ok(m)
{ }
proof fn reg_len(a: Mesh, b: Mesh, v: Seq<Elem>)
    requires registered(a, b, v)
    ensures b.nodes@.len() == a.nodes@.len(), b.edges@.len() == a.edges@.len()
{ }
/// the sizes needed for the next id
pub open spec fn roomy(a: Mesh, m: Mesh, n: IdTracker, e: IdTracker, nn: int, ne: int) -> bool { in_step(m, n, e) && m.nodes@.len() <= a.nodes@.len() + nn && m.edges@.len() <= a.edges@.len() + ne }
pub proof fn center_pre(a: Mesh, c: int, h: HRef)
    requires exec_pre(a, c, h)
    ensures corners_in(a, c), node_ok(a, corner(a, c, 0)), node_ok(a, corner(a, c, 3))
{ }
pub proof fn stage_center(a: Mesh, b: Mesh, c: int, h: HRef)
    requires exec_pre(a, c, h), a.elements == b.elements, a.elems == b.elems, a.edges == b.edges, b.nodes@ == a.nodes@.push(b.nodes@.last()), lone_node(b.nodes@.last()), b.nodes@.last().id == a.nodes@.len(), b.nodes@.last().coords.wf(), !b.nodes@.last().boundary,
        b.nodes@.last().coords.x@ * 2real == px(a, corner(a, c, 0)) + px(a, corner(a, c, 3)), b.nodes@.last().coords.y@ * 2real == py(a, corner(a, c, 0)) + py(a, corner(a, c, 3)),
    ensures stage(a, b, c, no_edges(), seq![], 1, 0), center_at(b, c, a.nodes@.len() as int), hub(b, a.nodes@.len() as int)
{
    assert(b.nodes@.take(a.nodes@.len() as int) =~= a.nodes@);
    work_center(a, b, c);
    stage_wide(a, b, c);
    assert forall|e: int| 0 <= e < b.edges@.len() implies (#[trigger] b.edges@[e]).child_node != Some(a.nodes@.len() as usize) by { assert(split_ok(a, e)); assert(edge_ok(a, e)); }
}
pub open spec fn seated(u: ElemUninit, v: ElemUninit, done: bool, i: int, ctr: usize, cor: usize) -> bool {
    u == (ElemUninit { nodes: u.nodes, ..v }) && u.nodes@ =~= (if done { v.nodes@.update(3 - i, Some(ctr)).update(i, Some(cor)) } else { v.nodes@ })
        && forall|k: int| 0 <= k < 4 ==> v.nodes@[k] is None
}
spec fn r_out(r: Result<Vec<Elem>, HRefError>) -> Seq<Elem> { r->Ok_0@ }
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::execute_u_refinement
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@@ params new_elems, parent_elem_id, node_id_tracker, edge_id_tracker
        requires exec_pre(*old(self), parent_elem_id as int, HRef::U(None)), kids_in(*old(self), parent_elem_id as int, HRef::U(None), new_elems@), in_step(*old(self), *old(node_id_tracker), *old(edge_id_tracker)),
        ensures r is Ok, kids_out(new_elems@, r->Ok_0@), in_step(*final(self), *final(node_id_tracker), *final(edge_id_tracker)),
            exists|gm: Mesh, g: Grid| #[trigger] wired(*old(self), gm, *final(self), parent_elem_id as int, HRef::U(None), g, r->Ok_0@),
//@@ start
        hide(net_ok); hide(grew); hide(work); hide(open_place); hide(wide); hide(string_at); hide(center_at); hide(registered); hide(halvable); hide(splits); hide(clear); hide(far); hide(framed);
        let ghost m0 = *self; let ghost c = parent_elem_id as int; let ghost h = HRef::U(None); let ghost v = new_elems@;
        let ghost mut d = no_edges(); let ghost mut inn = Seq::<int>::empty(); let ghost mut nn = 0int; let ghost mut ne = 0int; 
        proof { stage_none(m0, c, h); assert(v[0] == v[0] && v[1] == v[1]); assert(blank(v[0]) && blank(v[1])); }
//@@ before `let (child_edge_ids, shared_node_id)`
        let ghost a = *self;
        proof { stage_ready(m0, a, c, d, inn, nn, ne, h, edge_index as int); }
//@@ after `let (child_edge_ids, shared_node_id)`
        proof {
            stage_split(m0, a, *self, c, d, inn, nn, ne, h, edge_index as int);
            d = d.update(edge_index as int, true); nn = nn + 1; ne = ne + 2;
            assert(cut_at(*self, c, edge_index as int, shared_node_id as int, child_edge_ids@[0] as int, child_edge_ids@[1] as int));
        }
//@@ before `let new_edge_id`
        let ghost a = *self; let ghost (n0, n1) = (outer_node_ids@[0] as int, outer_node_ids@[1] as int);
        proof { stage_new(m0, a, c, d, inn, nn, ne); stage_far(m0, a, c, d, inn, nn, ne, 0); assert(far(a, n0, n1, false)); assert(clear(a, n0, n1)) by { reveal(clear); } }
//@@ after `let new_edge_id`
        proof {
            stage_string(m0, a, *self, c, d, inn, nn, ne, h, n0, n1, false);
            inn = inn.push(a.edges@.len() as int); ne = ne + 1;
        }
//@@ before `self.upgrade_uninit_elems(new_elems)`
        let ghost gm = *self; let ghost g = Grid { ctr: 0, v0: new_edge_id as int, v1: 0, h0: new_edge_id as int, h1: 0 };
        proof {
            assert(d =~= kid_mask(h)); assert(inn =~= inner_edges(h, g));
            assert(work(m0, gm, c, kid_mask(h), inner_edges(h, g)));
            assert(string_at(gm, g.v0, mid_at(gm, c, 0), mid_at(gm, c, 1), false));
            let w = new_elems@;
            assert(w[0] == (ElemUninit { nodes: w[0].nodes, edges: w[0].edges, ..v[0] }) && w[1] == (ElemUninit { nodes: w[1].nodes, edges: w[1].edges, ..v[1] }));
            wrap_up(m0, gm, c, h, g, v, w);
        }
//@@ tail
        proof { reg_len(gm, *self, r_out(__r)); assert(wired(m0, gm, *self, c, h, g, r_out(__r))); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::execute_v_refinement
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@@ params new_elems, parent_elem_id, node_id_tracker, edge_id_tracker
        requires exec_pre(*old(self), parent_elem_id as int, HRef::V(None)), kids_in(*old(self), parent_elem_id as int, HRef::V(None), new_elems@), in_step(*old(self), *old(node_id_tracker), *old(edge_id_tracker)),
        ensures r is Ok, kids_out(new_elems@, r->Ok_0@), in_step(*final(self), *final(node_id_tracker), *final(edge_id_tracker)),
            exists|gm: Mesh, g: Grid| #[trigger] wired(*old(self), gm, *final(self), parent_elem_id as int, HRef::V(None), g, r->Ok_0@),
//@@ start
        hide(net_ok); hide(grew); hide(work); hide(open_place); hide(wide); hide(string_at); hide(center_at); hide(registered); hide(halvable); hide(splits); hide(clear); hide(far); hide(framed);
        let ghost m0 = *self; let ghost c = parent_elem_id as int; let ghost h = HRef::V(None); let ghost v = new_elems@;
        let ghost mut d = no_edges(); let ghost mut inn = Seq::<int>::empty(); let ghost mut nn = 0int; let ghost mut ne = 0int; 
        proof { stage_none(m0, c, h); assert(v[0] == v[0] && v[1] == v[1]); assert(blank(v[0]) && blank(v[1])); }
//@@ before `let (child_edge_ids, shared_node_id)`
        let ghost a = *self;
        proof { stage_ready(m0, a, c, d, inn, nn, ne, h, edge_index as int); }
//@@ after `let (child_edge_ids, shared_node_id)`
        proof {
            stage_split(m0, a, *self, c, d, inn, nn, ne, h, edge_index as int);
            d = d.update(edge_index as int, true); nn = nn + 1; ne = ne + 2;
            assert(cut_at(*self, c, edge_index as int, shared_node_id as int, child_edge_ids@[0] as int, child_edge_ids@[1] as int));
        }
//@@ before `let new_edge_id`
        let ghost a = *self; let ghost (n0, n1) = (outer_node_ids@[0] as int, outer_node_ids@[1] as int);
        proof { stage_new(m0, a, c, d, inn, nn, ne); stage_far(m0, a, c, d, inn, nn, ne, 0); assert(far(a, n0, n1, true)); assert(clear(a, n0, n1)) by { reveal(clear); } }
//@@ after `let new_edge_id`
        proof {
            stage_string(m0, a, *self, c, d, inn, nn, ne, h, n0, n1, true);
            inn = inn.push(a.edges@.len() as int); ne = ne + 1;
        }
//@@ before `self.upgrade_uninit_elems(new_elems)`
        let ghost gm = *self; let ghost g = Grid { ctr: 0, v0: new_edge_id as int, v1: 0, h0: new_edge_id as int, h1: 0 };
        proof {
            assert(d =~= kid_mask(h)); assert(inn =~= inner_edges(h, g));
            assert(work(m0, gm, c, kid_mask(h), inner_edges(h, g)));
            assert(string_at(gm, g.h0, mid_at(gm, c, 2), mid_at(gm, c, 3), true));
            let w = new_elems@;
            assert(w[0] == (ElemUninit { nodes: w[0].nodes, edges: w[0].edges, ..v[0] }) && w[1] == (ElemUninit { nodes: w[1].nodes, edges: w[1].edges, ..v[1] }));
            wrap_up(m0, gm, c, h, g, v, w);
        }
//@@ tail
        proof { reg_len(gm, *self, r_out(__r)); assert(wired(m0, gm, *self, c, h, g, r_out(__r))); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::execute_t_refinement
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@@ params new_elems, parent_elem_id, node_id_tracker, edge_id_tracker
        requires exec_pre(*old(self), parent_elem_id as int, HRef::T), kids_in(*old(self), parent_elem_id as int, HRef::T, new_elems@), in_step(*old(self), *old(node_id_tracker), *old(edge_id_tracker)),
        ensures r is Ok, kids_out(new_elems@, r->Ok_0@), in_step(*final(self), *final(node_id_tracker), *final(edge_id_tracker)),
            exists|gm: Mesh, g: Grid| #[trigger] wired(*old(self), gm, *final(self), parent_elem_id as int, HRef::T, g, r->Ok_0@),
//@@ start
        hide(net_ok); hide(grew); hide(work); hide(open_place); hide(wide); hide(string_at); hide(center_at); hide(registered); hide(halvable); hide(splits); hide(clear); hide(far); hide(framed); hide(hub);
        let ghost m0 = *self; let ghost c = parent_elem_id as int; let ghost h = HRef::T; let ghost v = new_elems@;
        let ghost mut d = no_edges(); let ghost mut inn = Seq::<int>::empty(); let ghost mut nn = 1int; let ghost mut ne = 0int;
        proof { assert(blank(v[0]) && blank(v[1]) && blank(v[2]) && blank(v[3])); center_pre(m0, c, h); }
//@@ after `self.nodes.push(`
        let ghost ctr = center_node_id as int;
        proof { stage_center(m0, *self, c, h); }
//@@ loop 0
        __hi0 == 4, new_elems@.len() == 4, v.len() == 4, cell_ok(*self, c), c == parent_elem_id, c < self.elems@.len(),
        forall|i: int| 0 <= i < 4 ==> seated(#[trigger] new_elems@[i], v[i], i < __i0, i, center_node_id, self.elems@[c].nodes@[i]),
//@@ loopstart 0
        proof { assert(seated(new_elems@[__i0 as int], v[__i0 as int], false, __i0 as int, center_node_id, self.elems@[c].nodes@[__i0 as int])); }
//@@ loopafter 0
        proof { let w = new_elems@; assert(w[0] == w[0] && w[1] == w[1] && w[2] == w[2] && w[3] == w[3]); }
//@@ before `let (child_edge_ids, shared_node_id)`
        let ghost a = *self;
        proof { stage_ready(m0, a, c, d, inn, nn, ne, h, edge_index as int); }
//@@ after `let (child_edge_ids, shared_node_id)`
        proof {
            stage_split(m0, a, *self, c, d, inn, nn, ne, h, edge_index as int);
            d = d.update(edge_index as int, true); nn = nn + 1; ne = ne + 2;
            assert(cut_at(*self, c, edge_index as int, shared_node_id as int, child_edge_ids@[0] as int, child_edge_ids@[1] as int));
        }
//@@ before `let new_edge_id`
        let ghost a = *self; let ghost sn = shared_node_id as int; let ghost up = edge_index == 0 || edge_index == 2; let ghost dir = edge_index >= 2;
        proof { stage_new(m0, a, c, d, inn, nn, ne); stage_far(m0, a, c, d, inn, nn, ne, ctr); assert(if up { far(a, sn, ctr, dir) } else { far(a, ctr, sn, dir) }); assert(clear(a, sn, ctr)) by { reveal(clear); } }
//@@ after `let new_edge_id`
        proof {
            if up { stage_string(m0, a, *self, c, d, inn, nn, ne, h, sn, ctr, dir); } else { stage_string(m0, a, *self, c, d, inn, nn, ne, h, ctr, sn, dir); }
            inn = inn.push(a.edges@.len() as int); ne = ne + 1;
        }
//@@ before `self.upgrade_uninit_elems(new_elems)`
        let ghost gm = *self; let ghost g = Grid { ctr: ctr, v0: inn[0], v1: inn[1], h0: inn[2], h1: inn[3] };
        proof {
            assert(d =~= kid_mask(h)); assert(inn =~= inner_edges(h, g));
            assert(work(m0, gm, c, kid_mask(h), inner_edges(h, g)));
            assert(hub(gm, ctr));
            assert(string_at(gm, g.v0, mid_at(gm, c, 0), ctr, false));
            assert(string_at(gm, g.v1, ctr, mid_at(gm, c, 1), false));
            assert(string_at(gm, g.h0, mid_at(gm, c, 2), ctr, true));
            assert(string_at(gm, g.h1, ctr, mid_at(gm, c, 3), true));
            let w = new_elems@;
            assert(w[0] == (ElemUninit { nodes: w[0].nodes, edges: w[0].edges, ..v[0] }) && w[1] == (ElemUninit { nodes: w[1].nodes, edges: w[1].edges, ..v[1] }) && w[2] == (ElemUninit { nodes: w[2].nodes, edges: w[2].edges, ..v[2] }) && w[3] == (ElemUninit { nodes: w[3].nodes, edges: w[3].edges, ..v[3] }));
            wrap_up(m0, gm, c, h, g, v, w);
        }
//@@ tail
        proof { reg_len(gm, *self, r_out(__r)); assert(wired(m0, gm, *self, c, h, g, r_out(__r))); }
//@@ endfn
}
}
