verus! {
impl Complex64 {
    #[verifier::external_body]
    pub fn from(re: F) -> (r: Complex64) ensures r.re == re, r.im@ == 0real { panic!() }
}
pub open spec fn unit_ids() -> Seq<[usize; 4]> { seq![[0usize, 1usize, 2usize, 3usize]] }
/// the corners of [-1, 1] x [-1, 1]
pub open spec fn unit_corner(p: Point, k: int) -> bool { p.wf() && p.x@ == (if k == 0 || k == 2 { 0real - 1real } else { 1real }) && p.y@ == (if k < 2 { 0real - 1real } else { 1real }) }
pub open spec fn unit_pts(pts: Seq<Point>) -> bool { pts.len() == 4 && unit_corner(pts[0], 0) && unit_corner(pts[1], 1) && unit_corner(pts[2], 2) && unit_corner(pts[3], 3) }
pub proof fn unit_laid(pts: Seq<Point>)
    requires unit_pts(pts)
    ensures laid(pts, unit_ids())
{
    theorem_rounding(0real - 1real, 1real); tick_facts();
    let ids = unit_ids();
    assert(ids[0]@[0] == 0 && ids[0]@[1] == 1 && ids[0]@[2] == 2 && ids[0]@[3] == 3);
    assert(upright(pts, ids, 0));
    assert forall|n: int, m: int| 0 <= n < m < pts.len() implies !(#[trigger] pts[n]).same(#[trigger] pts[m]) by { assert(n == 0 || n == 1 || n == 2); assert(m == 1 || m == 2 || m == 3); }
    assert forall|c: int, k: int, d: int, l: int| 0 <= c < ids.len() && 0 <= d < ids.len() && 0 <= k < 4 && 0 <= l < 4 && (c != d || k != l) implies #[trigger] one_side(ids, c, k, d, l) by {
        assert(k == 0 || k == 1 || k == 2 || k == 3); assert(l == 0 || l == 1 || l == 2 || l == 3);
        if pair_of(ids, c, k) == pair_of(ids, d, l) { assert(pair_of(ids, c, k)@[0] == pair_of(ids, d, l)@[0] && pair_of(ids, c, k)@[1] == pair_of(ids, d, l)@[1]); }
    }
}
pub open spec fn unit_entry(k: int) -> [Option<usize>; 2] { entry_of(side(k), 0) }
pub open spec fn unit_tab() -> Tab { Map::empty().insert(pair_of(unit_ids(), 0, 0), unit_entry(0)).insert(pair_of(unit_ids(), 0, 1), unit_entry(1)).insert(pair_of(unit_ids(), 0, 2), unit_entry(2)).insert(pair_of(unit_ids(), 0, 3), unit_entry(3)) }
/// its four edges, in the order of the cell
pub open spec fn unit_rows() -> Rows<'static> { Seq::new(4, |e: int| (pair_of(unit_ids(), 0, e), &unit_entry(e))) }
pub proof fn unit_pairs()
    ensures forall|j: int, k: int| 0 <= j < 4 && 0 <= k < 4 && j != k ==> #[trigger] pair_of(unit_ids(), 0, j) != #[trigger] pair_of(unit_ids(), 0, k)
{
    assert forall|j: int, k: int| 0 <= j < 4 && 0 <= k < 4 && j != k implies #[trigger] pair_of(unit_ids(), 0, j) != #[trigger] pair_of(unit_ids(), 0, k) by {
        let (a, b) = (pair_of(unit_ids(), 0, j), pair_of(unit_ids(), 0, k));
        assert(j == 0 || j == 1 || j == 2 || j == 3); assert(k == 0 || k == 1 || k == 2 || k == 3);
        if a == b { assert(a@[0] == b@[0] && a@[1] == b@[1]); }
    }
}
pub proof fn unit_table(pts: Seq<Point>)
    requires unit_pts(pts)
    ensures rows_of(unit_rows(), unit_tab()), tab_ok(unit_tab(), unit_ids(), 1, 0)
{
    let (p, l, ids) = (unit_tab(), unit_rows(), unit_ids());
    unit_pairs();
    assert forall|k: int| 0 <= k < 4 implies p.dom().contains(#[trigger] pair_of(ids, 0, k)) && p[pair_of(ids, 0, k)] == unit_entry(k) by { assert(k == 0 || k == 1 || k == 2 || k == 3); }
    assert(p.dom().len() == 4);
    assert forall|y: [usize; 2]| #[trigger] p.dom().contains(y) implies row_for(l, y) && true_entry(p, ids, y, 1, 0) by {
        assert(y == pair_of(ids, 0, 0) || y == pair_of(ids, 0, 1) || y == pair_of(ids, 0, 2) || y == pair_of(ids, 0, 3));
        let k = if y == pair_of(ids, 0, 0) { 0int } else if y == pair_of(ids, 0, 1) { 1 } else if y == pair_of(ids, 0, 2) { 2 } else { 3 };
        assert(l[k].0 == y);
        assert(p[y] == unit_entry(k));
        assert(backs(ids, 0, k, y, side(k), 1, 0)); assert(backed(ids, 0, y, side(k), 1, 0));
    }
    assert forall|c: int, k: int| 0 <= c < ids.len() && 0 <= k < 4 && past(c, k, 1, 0) implies #[trigger] filed(p, ids, c, k) by { assert(c == 0); assert(p[pair_of(ids, 0, k)] == unit_entry(k)); }
}
/// each corner has one cell
pub proof fn unit_placed(pts: Seq<Point>, v: Seq<Node>)
    requires pts.len() == 4, v.len() == 4, forall|x: int| 0 <= x < 4 ==> placed(#[trigger] v[x], x, pts, true)
    ensures all_placed(v, pts, unit_ids())
{
    let ids = unit_ids();
    assert(ids[0]@[0] == 0 && ids[0]@[1] == 1 && ids[0]@[2] == 2 && ids[0]@[3] == 3);
    assert forall|x: int| 0 <= x < 4 implies hits(ids, x, 1, 0) < 4 by { assert(!had(ids, x, if x == 0 { 1int } else { 0 }, 1)); }
}
pub proof fn unit_drawn(pts: Seq<Point>, v: Seq<Edge>)
    requires v.len() == 4, forall|e: int| 0 <= e < 4 ==> drawn(#[trigger] v[e], e, pair_of(unit_ids(), 0, e), pts, true)
    ensures all_drawn(v, unit_rows(), pts)
{ }
pub proof fn unit_cell(m: Mesh, pts: Seq<Point>, x: Elem)
    requires all_drawn(m.edges@, unit_rows(), pts), x.id == 0, x.nodes == unit_ids()[0], x.edges@ =~= seq![0usize, 1usize, 2usize, 3usize], x.children is None, x.ancestors@.len() == 0, x.h_levels.u == 0, x.h_levels.v == 0
    ensures cells_upto(m, unit_ids(), seq![x], 1)
{
    let l = unit_rows();
    assert forall|k: int| 0 <= k < 4 implies (#[trigger] x.edges@[k]) < m.edges@.len() && m.edges@[x.edges@[k] as int].nodes == pair_of(unit_ids(), 0, k) by {
        assert(x.edges@[k] == k); assert(drawn(m.edges@[k], k, l[k].0, pts, one_none(*l[k].1))); assert(l[k].0 == pair_of(unit_ids(), 0, k)); }
    assert(start_cell(m, unit_ids(), x, 0));
}
pub open spec fn as_unit(m: Mesh) -> bool { exists|pts: Seq<Point>| #[trigger] unit_pts(pts) && start_mesh(m, pts, unit_ids()) }
impl Materials {
//@@ fn fem_domain/domain/mesh/element.rs Default for Materials::default nopub
        ensures r.eps_rel.re@ == 1real, r.eps_rel.im@ == 0real, r.mu_rel.re@ == 1real, r.mu_rel.im@ == 0real
//@@ endfn
}
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::unit
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
        ensures as_unit(r), r.elements@.len() == 1, r.elems@[0].element == r.elements@[0], whole(r), activated(r), pairs_ok(r)
//@@ start
        hide(laid); hide(start_mesh); hide(enrolled); hide(tab_ok); hide(hits); hide(bare_mesh); hide(rows_of); hide(all_drawn); hide(all_placed); hide(whole);
        let ghost ids = unit_ids(); let ghost p = unit_tab(); let ghost l = unit_rows(); let ghost mut m0: Mesh = arbitrary(); let ghost mut v1: Seq<Elem> = arbitrary();
//@@ after `let points`
        let ghost pts = points@;
        proof { assert(unit_pts(pts)); unit_laid(pts); unit_table(pts); }
//@@ loop 0
        __hi0 == 4, __a0@.len() == __i0, forall|x: int| 0 <= x < __i0 ==> placed(#[trigger] __a0@[x], x, pts, true),
//@@ loopbefore 0
        proof { assert(unit_elem.nodes@ =~= ids[0]@); assert(unit_elem.nodes =~= ids[0]); }
//@@ loopafter 0
        proof { unit_placed(pts, __a0@); }
//@@ loopbefore 1
        proof {
            let el: Vec<Arc<Element>> = arbitrary();
            m0 = parts(el, nodes, edges); v1 = seq![unit_elem];
            assert forall|e: int| 0 <= e < 4 implies drawn(#[trigger] edges@[e], e, pair_of(ids, 0, e), pts, true) by {
                assert(e == 0 || e == 1 || e == 2 || e == 3);
                assert(ids[0]@[0] == 0 && ids[0]@[1] == 1 && ids[0]@[2] == 2 && ids[0]@[3] == 3);
                assert(placed(nodes@[0], 0, pts, true) && placed(nodes@[1], 1, pts, true) && placed(nodes@[2], 2, pts, true) && placed(nodes@[3], 3, pts, true));
                assert(edges@[e].nodes@ =~= pair_of(ids, 0, e)@); assert(edges@[e].nodes =~= pair_of(ids, 0, e));
            }
            unit_drawn(pts, edges@);
            parts_bare(m0, l, p, pts, ids);
            unit_cell(m0, pts, unit_elem);
            assert(enrolled(m0, parts(m0.elements, nodes, edges), v1, 0, 0, 0)) by { reveal(enrolled); reveal(bare_mesh); }
        }
//@@ loop 1
        __hi1 == 4, enrolled(m0, parts(m0.elements, nodes, edges), v1, 0, __i1 as int, 0), edges@.len() == 4, nodes@.len() == 4,
//@@ loopstart 1
        let ghost a = parts(m0.elements, nodes, edges); let ghost k = __i1 as int;
        proof {
            reveal(enrolled); start_free(m0, pts, ids, v1, 0, k);
            assert(a.edges@[k] == (Edge { elems: a.edges@[k].elems, ..m0.edges@[k] }));
            assert(a.edges@[k].elems@[side(k)]@ == emap(m0, v1, 0, k, side(k)));
        }
//@@ loopend 1
        proof { enrol_edge(m0, a, parts(m0.elements, nodes, edges), v1, 0, k); }
//@@ loop 2
        __hi2 == 4, enrolled(m0, parts(m0.elements, nodes, edges), v1, 0, 4, __i2 as int), edges@.len() == 4, nodes@.len() == 4,
//@@ loopstart 2
        let ghost a = parts(m0.elements, nodes, edges); let ghost k = __i2 as int;
        proof {
            reveal(enrolled); start_free(m0, pts, ids, v1, 0, k);
            assert(a.nodes@[k] == (Node { elems: a.nodes@[k].elems, ..m0.nodes@[k] }));
            assert(a.nodes@[k].elems@[k]@ == nmap(m0, v1, 0, k, k));
        }
//@@ loopend 2
        proof { enrol_node(m0, a, parts(m0.elements, nodes, edges), v1, 0, k); }
//@@ loopafter 2
        proof { enrol_next(m0, parts(m0.elements, nodes, edges), v1, 0); }
//@@ tail
        proof {
            assert(__r.elems@ =~= v1);
            parts_done(m0, parts(m0.elements, __r.nodes, __r.edges), __r, l, p, pts, ids);
            start_whole(__r, pts, ids); theorem_whole(__r);
            assert forall|e: int| 0 <= e < 4 implies (#[trigger] __r.edges@[e]).active_elems is None && __r.edges@[e].parent is None && __r.edges@[e].boundary by {
                reveal(enrolled); reveal(bare_mesh); reveal(all_drawn);
                assert(__r.edges@[e] == (Edge { elems: __r.edges@[e].elems, ..m0.edges@[e] })); assert(start_edge(m0, e)); assert(drawn(m0.edges@[e], e, l[e].0, pts, one_none(*l[e].1)));
            }
        }
//@@ endfn
}
}
