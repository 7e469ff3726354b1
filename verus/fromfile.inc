verus! {
//@@ const fem_domain/domain/mesh.rs EDGE_IDX_DEFS
impl Element {
//@@ fn fem_domain/domain/mesh/element.rs Element::new
//@@ params id, points, materials
        ensures r.id == id, r.points == points, r.materials == materials
//@@ endfn
}
// ------------------------------------------------------------------ trusted shim: files and JSON
#[verifier::external_body]
pub struct IoError { x: std::io::Error }
impl VFrom<IoError> for IoError {
    open spec fn vfrom_req(e: IoError) -> bool { true }
    open spec fn vfrom_spec(e: IoError) -> IoError { e }
    fn vfrom(e: IoError) -> (r: IoError) { e }
}
/// a path
#[verifier::external_body]
pub struct FPath { s: String }
impl View for FPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl FPath {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { &self.s }
}
/// what the file holds while it is read, and what that says as JSON
pub uninterp spec fn content(path: Seq<char>) -> Seq<char>;
pub uninterp spec fn json_of(text: Seq<char>) -> Option<JsonValue>;
#[verifier::external_body]
pub fn read_to_string(p: &str) -> (r: Result<String, IoError>) ensures r is Ok ==> r->Ok_0@ == content(p@) { panic!() }
pub mod json {
    use super::*;
    #[derive(Debug)]
    pub struct JsonError;
    #[verifier::external_body]
    pub fn parse(s: &String) -> (r: Result<JsonValue, JsonError>) ensures r is Ok <==> json_of(s@) is Some, r is Ok ==> r->Ok_0 == json_of(s@)->0 { panic!() }
}
/// the mesh such elements and points describe
pub open spec fn as_described(m: Mesh, pts: Seq<Point>, j: JsonValue) -> bool {
    &&& start_mesh(m, pts, ids_of(j))
    &&& m.elements@.len() == ids_of(j).len()
    &&& forall|c: int| 0 <= c < m.elems@.len() ==> made_of(#[trigger] m.elems@[c].element, c, pts, ids_of(j), mats_of(j)) && m.elems@[c].element == m.elements@[c]
    &&& forall|c: int| 0 <= c < m.elems@.len() ==> (#[trigger] m.elems@[c]).poly_orders.ni == 1 && m.elems@[c].poly_orders.nj == 1
}
pub open spec fn loaded(m: Mesh, j: JsonValue) -> bool { exists|pts: Seq<Point>| #[trigger] pts_read(pts, j) && as_described(m, pts, j) }
/// well-formed: JSON, elements, nodes, and no two cells on one side of an edge
pub open spec fn proper(text: Seq<char>) -> bool { json_of(text) is Some && elems_json(json_of(text)->0) && nodes_json(json_of(text)->0) && one_sided(ids_of(json_of(text)->0)) }
pub open spec fn proper_json(text: Seq<char>) -> bool { json_of(text) is Some && elems_json(json_of(text)->0) && nodes_json(json_of(text)->0) }
/// axis-aligned cells, not two at one corner of a node
pub open spec fn planar(pts: Seq<Point>, ids: Seq<[usize; 4]>) -> bool { (forall|c: int| 0 <= c < ids.len() ==> #[trigger] upright(pts, ids, c)) && forall|c: int, d: int, q: int| 0 <= c < d < ids.len() && 0 <= q < 4 ==> #[trigger] one_corner(ids, c, d, q) }
pub open spec fn tiles(j: JsonValue) -> bool { forall|pts: Seq<Point>| #[trigger] pts_read(pts, j) ==> planar(pts, ids_of(j)) }
/// read points are distinct points
pub proof fn read_flat(pts: Seq<Point>, j: JsonValue)
    requires nodes_json(j), pts_read(pts, j), tiles(j)
    ensures flat(pts, ids_of(j))
{
    let ns = j_items(j_nodes(j));
    assert forall|n: int| 0 <= n < pts.len() implies (#[trigger] pts[n]).wf() by { assert(read_as(pts[n], ns[n])); }
    assert forall|n: int, m: int| 0 <= n < m < pts.len() implies !(#[trigger] pts[n]).same(#[trigger] pts[m]) by { assert(read_as(pts[n], ns[n]) && read_as(pts[m], ns[m])); assert(!coincide(ns[n], ns[m])); }
}
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::blank
        ensures whole(r)
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::from_file unwraps
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@@ ptype impl AsRef<str> => FPath
//@@ params path
//@@ maps edge_node_pairs
//@@ abort !proper(content(path@))
        requires proper_json(content(path@)) ==> tiles(json_of(content(path@))->0)
        ensures r is Ok ==> proper(content(path@)) && loaded(r->Ok_0, json_of(content(path@))->0) && whole(r->Ok_0) && activated(r->Ok_0) && pairs_ok(r->Ok_0)
//@@ start
        hide(laid); hide(flat); hide(one_sided); hide(elems_json); hide(nodes_json); hide(pts_read); hide(start_mesh); hide(whole_but); hide(enrolled); hide(tab_ok); hide(turns); hide(hits); hide(bare_mesh); hide(listing_ref); hide(rows_of); hide(all_drawn); hide(all_placed);
        let ghost mut m0: Mesh = arbitrary(); let ghost mut p: Tab = arbitrary(); let ghost mut l: Rows = arbitrary();
//@@ after `let points`
        let ghost j = json_of(content(path@))->0; let ghost pts = points@; let ghost ids = element_node_ids@; let ghost mats = element_materials@; let ghost n = ids.len() as int;
        proof { assert(ids == ids_of(j) && mats == mats_of(j)); read_flat(pts, j); assert(ids.len() == element_node_ids.len()); assert(pts.len() == points.len()); }
//@@ loop 0 take
        __lo0 == 0, __hi0 == n, element_node_ids@ == ids, __s0@ == mats.skip(__i0 as int), __a0@.len() == __i0, forall|c: int| 0 <= c < __i0 ==> made_of(#[trigger] __a0@[c], c, pts, ids, mats),
//@@ loopstart 0
        proof { reveal(flat); assert(upright(pts, ids, __i0 as int)); }
//@@ loopend 0
        proof { assert(mats.skip(__i0 - 1).remove(0) =~= mats.skip(__i0 as int)); assert(made_of(__a0@[__i0 - 1], __i0 - 1, pts, ids, mats)); }
//@@ after `let mut node_connection_counts`
        proof { hits_none(ids); assert forall|x: int| 0 <= x < pts.len() implies (#[trigger] node_connection_counts@[x]) == hits(ids, x, 0, 0) by { } }
//@@ loop 1
        __hi1 == n, node_connection_counts@.len() == pts.len(), forall|x: int| 0 <= x < pts.len() ==> (#[trigger] node_connection_counts@[x]) == hits(ids, x, __i1 as int, 0),
//@@ loop 2
        __hi2 == 4, 0 < __i1 <= n, *node_ids == ids[__i1 - 1], node_connection_counts@.len() == pts.len(), forall|x: int| 0 <= x < pts.len() ==> (#[trigger] node_connection_counts@[x]) == hits(ids, x, __i1 - 1, __i2 as int),
//@@ loopstart 2
        proof { hits_step(pts, ids, __i1 - 1, __i2 as int); assert(upright(pts, ids, __i1 - 1)) by { reveal(flat); } let x = ids[__i1 - 1]@[__i2 as int] as int; assert(__i2 == 0 || __i2 == 1 || __i2 == 2 || __i2 == 3); assert(x < pts.len()); assert(node_connection_counts@[x] <= 4) by { reveal(hits); } }
//@@ loopend 1
        proof { hits_next(ids, __i1 - 1); }
//@@ loop 3
        __hi3 == pts.len(), __a3@.len() == __i3, forall|x: int| 0 <= x < __i3 ==> (#[trigger] __a3@[x]) == (hits(ids, x, n, 0) < 4),
//@@ loopstart 3
        proof { assert(hits(ids, __i3 as int, n, 0) <= 4) by { reveal(hits); } assert(node_connection_counts@[__i3 as int] == hits(ids, __i3 as int, n, 0)); }
//@@ loop 4
        __hi4 == pts.len(), __a4@.len() == __i4, forall|x: int| 0 <= x < __i4 ==> placed(#[trigger] __a4@[x], x, pts, hits(ids, x, n, 0) < 4),
//@@ loopbefore 5
        proof { assert(tab_ok(edge_node_pairs@, ids, 0, 0)) by { reveal(tab_ok); } }
//@@ loop 5
        __hi5 == n, tab_ok(edge_node_pairs@, ids, __i5 as int, 0),
//@@ loop 6
        __hi6 == 4, __s6 == EDGE_IDX_DEFS, 0 < __i5 <= n, element_id == __i5 - 1, *element_node_ids == ids[__i5 - 1], tab_ok(edge_node_pairs@, ids, __i5 - 1, __i6 as int),
//@@ loopstart 6
        let ghost q = edge_node_pairs@; let ghost jj = __i6 as int;
        proof {
            assert(jj == 0 || jj == 1 || jj == 2 || jj == 3);
            assert(__s6@[jj].0@[0] == from_corner(jj) && __s6@[jj].0@[1] == to_corner(jj) && __s6@[jj].1 == side(jj));
            tab_free(q, pts, ids, element_id as int, jj); assert(one_sided(ids) == one_sided(ids_of(j)));
            let key = [ids[element_id as int]@[from_corner(jj)], ids[element_id as int]@[to_corner(jj)]]; assert(key@ =~= pair_of(ids, element_id as int, jj)@); assert(key =~= pair_of(ids, element_id as int, jj));
        }
//@@ loopend 6
        proof {
            let key = pair_of(ids, element_id as int, jj);
            assert(edge_node_pairs@ =~= q.insert(key, edge_node_pairs@[key]));
            tab_step(q, edge_node_pairs@, pts, ids, element_id as int, jj);
        }
//@@ loopend 5
        proof { tab_next(edge_node_pairs@, ids, __i5 - 1); }
//@@ loopafter 5
        proof { p = edge_node_pairs@; l = bm_refs(p); tab_done(p, pts, ids); assert(one_sided(ids)) by { reveal(laid); } }
//@@ loopbefore 7
        proof { rows_listed(l, p); }
//@@ loop 7
        __s7@ == l, __hi7 == l.len(), rows_of(l, p), __a7@.len() == __i7, forall|e: int| 0 <= e < __i7 ==> (#[trigger] __a7@[e]) == one_none(*l[e].1),
//@@ loopstart 7
        proof { reveal(rows_of); reveal(tab_ok); let key = l[__i7 as int].0; assert(p.dom().contains(key) && p[key] == *l[__i7 as int].1); assert(true_entry(p, ids, key, n, 0)); }
//@@ loop 8
        __hi8 == 2, __a8 <= __i8, __a8 == set_upto(adj_elem_ids@, __i8 as int),
//@@ loopafter 8
        proof { reveal_with_fuel(set_upto, 3); }
//@@ loop 9
        __s9@ == l, __hi9 == l.len(), rows_of(l, p), __a9@.len() == __i9, all_placed(nodes@, pts, ids), forall|e: int| 0 <= e < __i9 ==> drawn(#[trigger] __a9@[e], e, l[e].0, pts, one_none(*l[e].1)),
//@@ loopbefore 9
        proof { reveal(all_placed); }
//@@ loopstart 9
        proof { reveal(rows_of); let e = __i9 as int; let key = l[e].0; assert(p.dom().contains(key)); key_runs(p, pts, ids, key); reveal(all_placed); reveal(flat); reveal(laid);
            assert(placed(nodes@[key@[0] as int], key@[0] as int, pts, hits(ids, key@[0] as int, n, 0) < 4)); assert(placed(nodes@[key@[1] as int], key@[1] as int, pts, hits(ids, key@[1] as int, n, 0) < 4)); assert(pts[key@[0] as int].wf() && pts[key@[1] as int].wf()); }
//@@ loopend 9
        proof { let e = __i9 - 1; let y = __a9@[e]; let key = l[e].0; assert(y.nodes@ =~= key@); assert(y.nodes =~= key); assert(drawn(y, e, key, pts, one_none(*l[e].1))); }
//@@ loopafter 9
        proof { reveal(all_drawn); assert(all_drawn(__a9@, l, pts)); }
//@@ after `let mut elem_edges`
        proof { assert forall|c: int, k: int| 0 <= c < n && 0 <= k < 4 implies (#[trigger] elem_edges@[c]@[k]) is None by { } turn_none(elem_edges@, l, ids); }
//@@ loop 10
        __s10@ == l, __hi10 == l.len(), rows_of(l, p), turns(elem_edges@, l, ids, __i10 as int, 0),
//@@ loop 11
        __hi11 == 2, 0 < __i10 <= l.len(), edge_id == __i10 - 1, *adj_element_ids == *l[__i10 - 1].1, turns(elem_edges@, l, ids, edge_id as int, __i11 as int),
//@@ loopstart 11
        let ghost t = elem_edges@; let ghost ss = __i11 as int; let ghost e = edge_id as int; let ghost key = l[e].0; let ghost mut kk: int = 0;
        proof {
            reveal(rows_of); assert(p.dom().contains(key) && p[key] == *l[e].1);
            if p[key]@[ss] is Some {
                kk = key_place(p, pts, ids, key, ss);
                reveal(all_drawn); assert(drawn(edges@[e], e, key, pts, one_none(*l[e].1)));
                let c = p[key]@[ss]->0 as int;
                reveal(turns); assert(turned(t, l, ids, c, kk, e, ss));
                if t[c]@[kk] is Some { rows_differ(l, p, t[c]@[kk]->0 as int, e); }
                assert(t[c]@[kk] is None);
            }
        }
//@@ loopend 11
        proof {
            if p[key]@[ss] is Some { assert(noted(t, elem_edges@, ids, p[key]@[ss]->0 as int, kk, key, ss, e)); }
            turn_step(t, elem_edges@, l, p, pts, ids, e, ss);
        }
//@@ loopend 10
        proof { turn_next(elem_edges@, l, ids, __i10 - 1); }
//@@ loopafter 10
        proof { m0 = parts(elements, nodes, edges); parts_bare(m0, l, p, pts, ids); }
//@@ loopbefore 12
        proof { assert(enrolled(m0, parts(elements, nodes, edges), __a12@, 0, 0, 0)) by { reveal(enrolled); reveal(bare_mesh); } }
//@@ loop 12
        __hi12 == n, __s12@ == ids, __a12@.len() == __i12, cells_upto(m0, ids, __a12@, __i12 as int), enrolled(m0, parts(elements, nodes, edges), __a12@, __i12 as int, 0, 0),
        forall|c: int| 0 <= c < __i12 ==> (#[trigger] __a12@[c]).element == elements@[c] && __a12@[c].poly_orders.ni == 1 && __a12@[c].poly_orders.nj == 1,
//@@ loopstart 12
        let ghost c = __i12 as int; let ghost t = elem_edges@[c]@;
        proof { turn_full(elem_edges@, l, p, ids, c); assert(elem_edges@.len() == n) by { reveal(turns); } }
//@@ loop 13
        __hi13 == 4, __s13@ == t, all_set(t), __a13@ == four(t).take(__i13 as int),
//@@ loopend 13
        proof { assert(four(t).take(__i13 as int) =~= four(t).take(__i13 - 1).push(four(t)[__i13 - 1])); }
//@@ loopafter 13
        proof { assert(__a13@ =~= four(t)); }
//@@ after `let elem = `
        let ghost v1 = __a12@.push(elem);
        proof {
            assert(m0.edges@.len() == l.len()) by { reveal(all_drawn); }
            assert(start_cell(m0, ids, elem, c)) by { assert forall|k: int| 0 <= k < 4 implies (#[trigger] elem.edges@[k]) < m0.edges@.len() && m0.edges@[elem.edges@[k] as int].nodes == pair_of(ids, c, k) by { reveal(all_drawn); assert(four(t)[k] == t[k]->0); let e = t[k]->0 as int; assert(drawn(m0.edges@[e], e, l[e].0, pts, one_none(*l[e].1))); } }
            assert(cells_upto(m0, ids, v1, c + 1)) by { assert forall|d: int| 0 <= d < c + 1 implies start_cell(m0, ids, #[trigger] v1[d], d) by { if d < c { assert(v1[d] == __a12@[d]); } } }
            enrol_push(m0, parts(elements, nodes, edges), __a12@, elem);
        }
//@@ loop 14
        __hi14 == 4, v1.len() == c + 1, v1[c] == elem, enrolled(m0, parts(elements, nodes, edges), v1, c, __i14 as int, 0),
//@@ loopstart 14
        let ghost a = parts(elements, nodes, edges); let ghost k = __i14 as int; let ghost e0 = elem.edges@[k] as int;
        proof {
            reveal(enrolled);
            start_free(m0, pts, ids, v1, c, k);
            assert(a.edges@[e0] == (Edge { elems: a.edges@[e0].elems, ..m0.edges@[e0] }));
            assert(a.edges@[e0].elems@[side(k)]@ == emap(m0, v1, c, e0, side(k)));
        }
//@@ loopend 14
        proof { enrol_edge(m0, a, parts(elements, nodes, edges), v1, c, k); }
//@@ loop 15
        __hi15 == 4, v1.len() == c + 1, v1[c] == elem, enrolled(m0, parts(elements, nodes, edges), v1, c, 4, __i15 as int),
//@@ loopstart 15
        let ghost a = parts(elements, nodes, edges); let ghost k = __i15 as int; let ghost x0 = elem.nodes@[k] as int;
        proof {
            reveal(enrolled);
            start_free(m0, pts, ids, v1, c, k);
            assert(a.nodes@[x0] == (Node { elems: a.nodes@[x0].elems, ..m0.nodes@[x0] }));
            assert(a.nodes@[x0].elems@[k]@ == nmap(m0, v1, c, x0, k));
        }
//@@ loopend 15
        proof { enrol_node(m0, a, parts(elements, nodes, edges), v1, c, k); }
//@@ loopend 12
        proof { assert(__a12@ =~= v1); enrol_next(m0, parts(elements, nodes, edges), v1, c); }
//@@ before `mesh.set_edge_activation`
        let ghost m1 = mesh;
        proof {
            parts_done(m0, parts(mesh.elements, mesh.nodes, mesh.edges), mesh, l, p, pts, ids);
            assert(mesh.elems@.len() == mesh.elems.len());
            start_whole(mesh, pts, ids); theorem_whole(mesh);
        }
//@@ after `mesh.set_edge_activation`
        proof { start_active(m1, mesh, pts, ids); start_whole(mesh, pts, ids); }
//@@ endfn
}
}
