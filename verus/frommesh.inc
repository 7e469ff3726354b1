verus! {
pub open spec fn wanted(m: Mesh) -> spec_fn(Fk) -> bool { |q: Fk| want(m, q) }
/// an entry of the list of cells / of edges is about an existing cell / edge
pub proof fn key_in(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, kd: int, all: spec_fn(Fk) -> bool)
    requires listing(l, b), book(m, b, kd, all), 0 <= i < l.len(), edges_in(m), kd == 0 || kd == 1
    ensures b.dom().contains(l[i].0), b[l[i].0] == l[i].1, kd == 0 ==> l[i].0 < m.elems@.len(), kd == 1 ==> l[i].0 < m.edges@.len()
{
    let x = l[i].0;
    assert(b.dom().contains(x) && b[x] == l[i].1);
    assert(list_ok(m, b[x]@)); assert(valid(m, b[x]@[0]));
    assert(kind(b[x]@[0].loc) == kd && spot(b[x]@[0].loc, b[x]@[0].elem_id as int) == x);
}
pub proof fn dom_len(m: Mesh, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, pend: Seq<BSAddress>, done: spec_fn(Fk) -> bool)
    requires dom(m, specs, dofs, pend, done)
    ensures specs.len() == m.elems@.len()
{ }
// std: a vector never holds more than isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_dof_vec(v: Vec<DoF>) ensures v@.len() <= isize::MAX { }
pub proof fn same_mesh_facts(a: Mesh, m: Mesh)
    requires same_but_activation(a, m), orders_in(a), ids_ok(a), cells_ok(a), edges_in(a)
    ensures orders_in(m), ids_ok(m), cells_ok(m), edges_in(m), m.elems@.len() == a.elems@.len()
{ }
pub proof fn none_done(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>)
    ensures forall|q: Fk| !#[trigger] (done0(m, l, 0, seq![]))(q)
{ assert forall|q: Fk| !#[trigger] (done0(m, l, 0, seq![]))(q) by { none_listed(seq![], q); } }
pub proof fn cells_then_edges(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, g: Seq<(usize, Vec<BasisSpec>)>, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>)
    requires listing(l, b), book(m, b, 0, every(m)), m.elems@.len() <= usize::MAX, dom(m, specs, dofs, seq![], done0(m, l, l.len() as int, seq![]))
    ensures dom(m, specs, dofs, seq![], done1(m, g, 0, seq![], seq![], 0, 0))
{
    done0_all(m, b, l); no_pairs(m, g, 0, seq![], seq![]);
    assert forall|q: Fk| !edge_first(m, g, 0, q) by { }
    dom_same(m, specs, specs, dofs, seq![], done0(m, l, l.len() as int, seq![]), done1(m, g, 0, seq![], seq![], 0, 0));
}
pub proof fn pair_sides(m: Mesh, x: int, p: [usize; 2])
    requires pairs_ok(m), 0 <= x < m.edges@.len(), m.edges@[x].active_elems == Some(p)
    ensures sides(m, x, p), p@[0] < m.elems@.len(), p@[1] < m.elems@.len()
{ }
/// the function s is stored there
pub open spec fn placed(specs: Seq<Vec<BasisSpec>>, t: BSAddress, s: BasisSpec) -> bool { held(specs, t) && at(specs, t) == (BasisSpec { dof_id: at(specs, t).dof_id, elem_idx: at(specs, t).elem_idx, ..s }) }
pub proof fn pairs_none(r: Seq<BasisSpec>) ensures paired(r, seq![], 0) { }
pub proof fn alone_none(r: Seq<BasisSpec>, a: int, z: int) requires z <= a + 1 ensures alone(r, a, z) { }
pub proof fn alone_more(r: Seq<BasisSpec>, a: int, z: int) requires alone(r, a, z), !mates(r[a], r[z]) ensures alone(r, a, z + 1) { }
pub proof fn bound_pair(m: Mesh, x: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, p2: Seq<[usize; 2]>, a: int, b: int)
    requires cells_ok(m), sides(m, x, p), rel_all(m, x, p, r), paired(r, pp, a), 0 <= a < b < r.len(), mates(r[a], r[b]), p2 =~= pp.push(p2.last()), p2.len() > 0, p2.last()@[0] == a, p2.last()@[1] == b,
    ensures paired(r, p2, a + 1)
{ one_more(m, x, p, r, pp, p2, a, b); }
pub proof fn next_half(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, k: int, h: int)
    requires cells_ok(m), 0 <= i < l.len(), sides(m, l[i].0 as int, p), rel_all(m, l[i].0 as int, p, r), paired(r, pp, r.len() as int), 0 <= k < pp.len(), 0 <= h < 2, listing(l, b),
    ensures pp[k]@[h] < r.len(), r[pp[k]@[h] as int].elem_id < m.elems@.len(), fresh_spec(r[pp[k]@[h] as int])
{ assert(pp[k]@[0] < pp[k]@[1] < r.len()); assert(at_edge(m, r[pp[k]@[h] as int], l[i].0 as int, p)); }
/// one function of a pair
pub proof fn one_of_pair(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, k: int, h: int,
    specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, specs2: Seq<Vec<BasisSpec>>, pend: Seq<BSAddress>, pend2: Seq<BSAddress>)
    requires cells_ok(m), 0 <= i < l.len(), sides(m, l[i].0 as int, p), rel_all(m, l[i].0 as int, p, r), paired(r, pp, r.len() as int), 0 <= k < pp.len(), 0 <= h < 2, listing(l, b),
        dom(m, specs, dofs, pend, done1(m, l, i, r, pp, k, h)), pend2.len() == h + 1, pend.len() == h, pend2.take(h) =~= pend, dofs.len() <= usize::MAX,
        pushed(specs, specs2, r[pp[k]@[h] as int], dofs.len() as int, pend2.last()), forall|j: int| 0 <= j < h ==> placed(specs, #[trigger] pend[j], r[pp[k]@[j] as int])
    ensures dom(m, specs2, dofs, pend2, done1(m, l, i, r, pp, k, h + 1)), forall|j: int| 0 <= j < h + 1 ==> placed(specs2, #[trigger] pend2[j], r[pp[k]@[j] as int])
{
    done1_new(m, b, l, i, p, r, pp, r.len() as int, k, h);
    assert(pend2 =~= pend.push(pend2.last()));
    put(m, specs, specs2, dofs, pend, r[pp[k]@[h] as int], pend2.last(), done1(m, l, i, r, pp, k, h), done1(m, l, i, r, pp, k, h + 1));
    assert forall|j: int| 0 <= j < h + 1 implies placed(specs2, #[trigger] pend2[j], r[pp[k]@[j] as int]) by { if j < h { assert(pend2[j] == pend[j]); assert(placed(specs, pend[j], r[pp[k]@[j] as int])); assert(held(specs, pend[j])); } }
}
/// a pair
pub proof fn whole_pair(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, k: int, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, dofs2: Seq<DoF>, pend: Seq<BSAddress>)
    requires cells_ok(m), 0 <= i < l.len(), sides(m, l[i].0 as int, p), rel_all(m, l[i].0 as int, p, r), paired(r, pp, r.len() as int), 0 <= k < pp.len(), m.edges@[l[i].0 as int].active_elems == Some(p),
        dom(m, specs, dofs, pend, done1(m, l, i, r, pp, k, 2)), pend.len() == 2, forall|j: int| 0 <= j < 2 ==> placed(specs, #[trigger] pend[j], r[pp[k]@[j] as int]),
        dofs2.len() == dofs.len() + 1, dofs2.take(dofs.len() as int) =~= dofs, dofs2.last().id == dofs.len(), dofs2.last().adr() == pend,
    ensures dom(m, specs, dofs2, seq![], done1(m, l, i, r, pp, k + 1, 0))
{
    assert(placed(specs, pend[0], r[pp[k]@[0] as int]) && placed(specs, pend[1], r[pp[k]@[1] as int]));
    a_couple(m, l[i].0 as int, p, r, pp, r.len() as int, k, at(specs, pend[0]), at(specs, pend[1]));
    close(m, specs, dofs, pend, dofs2.last(), done1(m, l, i, r, pp, k, 2));
    assert(dofs2 =~= dofs.push(dofs2.last()));
    done1_pair(m, l, i, r, pp, k);
    dom_same(m, specs, specs, dofs2, seq![], done1(m, l, i, r, pp, k, 2), done1(m, l, i, r, pp, k + 1, 0));
}
pub proof fn pair_start(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, k: int)
    ensures forall|q: Fk| #[trigger] (done1(m, l, i, r, pp, k, 0))(q) <==> want0(m, q) || edge_first(m, l, i, q) || in_pairs(r, pp, k, q)
{ }
pub proof fn pairs_start(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>)
    requires dom(m, specs, dofs, seq![], done1(m, l, i, r, seq![], 0, 0))
    ensures dom(m, specs, dofs, seq![], done1(m, l, i, r, pp, 0, 0))
{ no_pairs(m, l, i, r, pp); no_pairs(m, l, i, r, seq![]); dom_same(m, specs, specs, dofs, seq![], done1(m, l, i, r, seq![], 0, 0), done1(m, l, i, r, pp, 0, 0)); }
pub proof fn edge_done(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>)
    requires cells_ok(m), 0 <= i < l.len(), sides(m, l[i].0 as int, p), rel_all(m, l[i].0 as int, p, r), paired(r, pp, r.len() as int), m.edges@[l[i].0 as int].active_elems == Some(p),
        dom(m, specs, dofs, seq![], done1(m, l, i, r, pp, pp.len() as int, 0))
    ensures dom(m, specs, dofs, seq![], done1(m, l, i + 1, seq![], seq![], 0, 0))
{ done1_edge(m, l, i, p, r, pp); dom_same(m, specs, specs, dofs, seq![], done1(m, l, i, r, pp, pp.len() as int, 0), done1(m, l, i + 1, seq![], seq![], 0, 0)); }
pub proof fn all_done(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>)
    requires listing(l, b), book(m, b, 1, every(m)), edges_in(m), m.edges@.len() <= usize::MAX, dom(m, specs, dofs, seq![], done1(m, l, l.len() as int, seq![], seq![], 0, 0))
    ensures dom(m, specs, dofs, seq![], wanted(m))
{ done1_all(m, b, l); dom_same(m, specs, specs, dofs, seq![], done1(m, l, l.len() as int, seq![], seq![], 0, 0), wanted(m)); }
pub proof fn next_interior(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, k: int)
    requires 0 <= i < l.len(), 0 <= k < r.len(), r == l[i].1@, listing(l, b), book(m, b, 0, every(m))
    ensures fresh_spec(r[k]), r[k].elem_id < m.elems@.len()
{ let x = l[i].0; assert(b.dom().contains(x) && b[x] == l[i].1); assert(list_ok(m, b[x]@)); assert(valid(m, r[k])); }
pub proof fn meet(m: Mesh, x: int, p: [usize; 2], r: Seq<BasisSpec>, a: int, b: int)
    requires cells_ok(m), sides(m, x, p), rel_all(m, x, p, r), 0 <= a < r.len(), 0 <= b < r.len(), orders_in(m)
    ensures same_edge(r[a].loc, r[b].loc), r[a].i <= 20, r[a].j <= 20, r[b].i <= 20, r[b].j <= 20,
        match r[a].loc { BasisLoc::EdgeBs(p, _) => p < 4, _ => true }, match r[b].loc { BasisLoc::EdgeBs(p, _) => p < 4, _ => true },
{ assert(at_edge(m, r[a], x, p) && at_edge(m, r[b], x, p)); mates_are(m, x, p, r[a], r[b]); assert(1 <= m.elems@[r[a].elem_id as int].poly_orders.ni <= 20); assert(1 <= m.elems@[r[b].elem_id as int].poly_orders.ni <= 20); }
/// one interior function
pub proof fn interior(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, k: int, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, specs2: Seq<Vec<BasisSpec>>, dofs2: Seq<DoF>, t: BSAddress)
    requires 0 <= i < l.len(), 0 <= k < r.len(), r == l[i].1@, listing(l, b), book(m, b, 0, every(m)), dom(m, specs, dofs, seq![], done0(m, l, i, r.take(k))), m.elems@[l[i].0 as int].children is None, dofs.len() <= usize::MAX,
        r[k].dir is W ==> specs2 == specs && dofs2 == dofs,
        !(r[k].dir is W) ==> pushed(specs, specs2, r[k], dofs.len() as int, t) && dofs2.len() == dofs.len() + 1 && dofs2.take(dofs.len() as int) =~= dofs && dofs2.last().id == dofs.len() && dofs2.last().adr() =~= seq![t],
    ensures dom(m, specs2, dofs2, seq![], done0(m, l, i, r.take(k + 1)))
{
    let (dn, nx) = (done0(m, l, i, r.take(k)), done0(m, l, i, r.take(k + 1)));
    if r[k].dir is W { done0_step(m, l, i, r, k); dom_same(m, specs, specs2, dofs, seq![], dn, nx); }
    else {
        done0_new(m, b, l, i, r, k, every(m));
        put(m, specs, specs2, dofs, seq![], r[k], t, dn, nx);
        assert(seq![].push(t) =~= dofs2.last().adr());
        close(m, specs2, dofs, seq![].push(t), dofs2.last(), nx);
        assert(dofs2 =~= dofs.push(dofs2.last()));
    }
}
impl Domain {
//@@ fn fem_domain/domain.rs Domain::from_mesh arrmove
//@@ attr #[verifier::allow_complex_invariants]
//@@ params mesh, cc
//@@ maps elem_bs, edge_bs
//@@ abort cc != ContinuityCondition::HCurl
        requires links_ok(mesh), edge_tree(mesh).ok(), live_ok(mesh), orders_in(mesh), ids_ok(mesh), cells_ok(mesh), edges_in(mesh), mesh.elems@.len() <= 1000000000000000
        ensures same_but_activation(mesh, r.mesh), pairs_ok(r.mesh), r.cc == cc, dom(r.mesh, r.basis_specs@, r.dofs@, seq![], wanted(r.mesh))
//@@ start
        hide(dom); hide(book); hide(listing); hide(done0); hide(done1); hide(rel_ok); hide(rel_all); hide(paired); hide(alone); hide(links_ok); hide(live_ok); hide(activated); hide(cells_ok); hide(edges_in); hide(want); hide(lone); hide(couple); hide(slot_ok); hide(sides);
        let ghost __m0 = mesh;
//@@ before `for (elem_id, mut elem_bs_list) in elem_bs`
        let ghost (__eb, __gb) = (elem_bs@, edge_bs@); let ghost (__el, __gl) = (bm_list(elem_bs@), bm_list(edge_bs@));
        proof {
            same_mesh_facts(__m0, mesh);
            none_done(mesh, __el);
            dom_empty(mesh, basis_specs@, done0(mesh, __el, 0, seq![]));
            assert(dofs@ =~= Seq::<DoF>::empty());
        }
//@@ loop 0 take
        __hi0 == __el.len(), listing(__el, __eb), __s0@ =~= __el.skip(__i0 as int), dof_id_tracker.next_id == dofs@.len(),
            dom(mesh, basis_specs@, dofs@, seq![], done0(mesh, __el, __i0 as int, seq![])),
//@@ loopstart 0
        proof { dom_len(mesh, basis_specs@, dofs@, seq![], done0(mesh, __el, __i0 as int, seq![])); key_in(mesh, __eb, __el, __i0 as int, 0, every(mesh)); not_yet(mesh, __eb, __el, __i0 as int, basis_specs@, dofs@, every(mesh)); done0_entry(mesh, __el, __i0 as int); }
        let ghost __sp0 = basis_specs@;
//@@ before `for elem_bs in elem_bs_list`
        proof {
            assert(basis_specs@[__el[__i0 - 1].0 as int]@ =~= __sp0[__el[__i0 - 1].0 as int]@);
            dom_same(mesh, __sp0, basis_specs@, dofs@, seq![], done0(mesh, __el, __i0 - 1, seq![]), done0(mesh, __el, __i0 - 1, __el[__i0 - 1].1@.take(0)));
        }
//@@ loopend 0
        proof {
            let r = __el[__i0 - 1].1@;
            if mesh.elems@[__el[__i0 - 1].0 as int].children is Some { dom_same(mesh, __sp0, basis_specs@, dofs@, seq![], done0(mesh, __el, __i0 - 1, seq![]), done0(mesh, __el, __i0 as int, seq![])); }
            else { dom_same(mesh, basis_specs@, basis_specs@, dofs@, seq![], done0(mesh, __el, __i0 - 1, r.take(r.len() as int)), done0(mesh, __el, __i0 as int, seq![])); }
        }
//@@ loopafter 0
        proof {
            cells_then_edges(mesh, __eb, __el, __gl, basis_specs@, dofs@);
        }
//@@ loop 1
        __hi1 == __s1@.len(), __s1@ == __el[__i0 - 1].1@, elem_id == __el[__i0 - 1].0, dof_id_tracker.next_id == dofs@.len(),
            dom(mesh, basis_specs@, dofs@, seq![], done0(mesh, __el, __i0 - 1, __s1@.take(__i1 as int))),
//@@ loopstart 1
        proof { next_interior(mesh, __eb, __el, __i0 - 1, __s1@, __i1 as int); dom_len(mesh, basis_specs@, dofs@, seq![], done0(mesh, __el, __i0 - 1, __s1@.take(__i1 as int))); }
        let ghost (__sp, __d) = (basis_specs@, dofs@);
        proof { axiom_dof_vec(dofs); }
//@@ loopend 1
        proof {
            interior(mesh, __eb, __el, __i0 - 1, __s1@, __i1 - 1, __sp, __d, basis_specs@, dofs@, if dofs@.len() > 0 && dofs@.last().adr().len() > 0 { dofs@.last().adr()[0] } else { arbitrary() });
        }
//@@ loop 2 take
        __hi2 == __gl.len(), listing(__gl, __gb), __s2@ =~= __gl.skip(__i2 as int), dof_id_tracker.next_id == dofs@.len(),
            dom(mesh, basis_specs@, dofs@, seq![], done1(mesh, __gl, __i2 as int, seq![], seq![], 0, 0)),
//@@ loopstart 2
        proof { key_in(mesh, __gb, __gl, __i2 as int, 1, every(mesh)); }
        let ghost (__sp2, __d2, __x, __l) = (basis_specs@, dofs@, __gl[__i2 as int].0, __gl[__i2 as int].1@);
//@@ loopend 2
        proof { if mesh.edges@[__x as int].active_elems is None { done1_idle(mesh, __gl, __i2 - 1); dom_same(mesh, __sp2, basis_specs@, dofs@, seq![], done1(mesh, __gl, __i2 - 1, seq![], seq![], 0, 0), done1(mesh, __gl, __i2 as int, seq![], seq![], 0, 0)); } }
//@@ before `let rel_basis_specs`
        proof {
            rel_none(mesh, __l, __x as int, active_elem_ids);
            dom_len(mesh, basis_specs@, dofs@, seq![], done1(mesh, __gl, __i2 - 1, seq![], seq![], 0, 0));
            pair_sides(mesh, __x as int, active_elem_ids);
        }
//@@ acc 3 Vec<BasisSpec>
//@@ loop 3
        __hi3 == __s3@.len(), __s3@ == __l, rel_ok(mesh, __l, __i3 as int, __x as int, active_elem_ids, __a3@),
//@@ loopstart 3
        let ghost __r3 = __a3@;
//@@ loopend 3
        proof { rel_step(mesh, __gb, __l, __i3 - 1, __x, active_elem_ids, __r3, __a3@, every(mesh)); }
//@@ loopafter 3
        proof { rel_done(mesh, __gb, __l, __x, active_elem_ids, __a3@); }
//@@ loop 4
        dofs@ == __d2, basis_specs@.len() == __sp2.len(), forall|y: int| 0 <= y < __sp2.len() ==> (#[trigger] basis_specs@[y])@ == __sp2[y]@,
//@@ before `let mut active_pairs`
        let ghost (__r, __p) = (rel_basis_specs@, active_elem_ids);
        proof {
            no_pairs(mesh, __gl, __i2 - 1, __r, seq![]);
            dom_same(mesh, __sp2, basis_specs@, dofs@, seq![], done1(mesh, __gl, __i2 - 1, seq![], seq![], 0, 0), done1(mesh, __gl, __i2 - 1, __r, seq![], 0, 0));
            pairs_none(__r);
        }
//@@ loop 5
        paired(__r, active_pairs@, __i5 as int),
//@@ loopstart 5
        let ghost __pp = active_pairs@;
        proof { alone_none(__r, __i5 as int, __i5 + 1); }
//@@ loop 6
        invariant_except_break
            active_pairs@ == __pp, alone(__r, __i5 - 1, __i6 as int), __i6 >= __i5,
        ensures
            paired(__r, active_pairs@, __i5 as int)
//@@ loopstart 6
        proof { meet(mesh, __x as int, __p, __r, __i5 - 1, __i6 as int); }
//@@ loopend 6
        proof { alone_more(__r, __i5 - 1, __i6 - 1); }
//@@ before `for pair in active_pairs`
        proof { pairs_start(mesh, __gl, __i2 - 1, __r, active_pairs@, basis_specs@, dofs@); }
//@@ loopafter 2
        proof { all_done(mesh, __gb, __gl, basis_specs@, dofs@); }
//@@ before `break`
        proof { bound_pair(mesh, __x as int, __p, __r, __pp, active_pairs@, __i5 - 1, __i6 - 1); }
//@@ loopafter 6
        proof { if active_pairs@ == __pp && alone(__r, __i5 - 1, __r.len() as int) { unpaired(__r, __pp, __i5 - 1); } }
//@@ loop 7
        dof_id_tracker.next_id == dofs@.len(), __hi7 == __s7@.len(), paired(__r, __s7@, __r.len() as int),
            dom(mesh, basis_specs@, dofs@, seq![], done1(mesh, __gl, __i2 - 1, __r, __s7@, __i7 as int, 0)),
//@@ loopstart 7
        let ghost __d7 = dofs@;
        proof { axiom_dof_vec(dofs); }
//@@ loopend 7
        proof { whole_pair(mesh, __gl, __i2 - 1, __p, __r, __s7@, __i7 - 1, basis_specs@, __d7, dofs@, dofs@.last().adr()); }
//@@ loopafter 7
        proof { edge_done(mesh, __gl, __i2 - 1, __p, __r, __s7@, basis_specs@, dofs@); }
//@@ acc 8 Vec<BSAddress>
//@@ loop 8
        dofs@ == __d7, __a8@.len() == __i8, __hi8 == 2,
            dom(mesh, basis_specs@, dofs@, __a8@, done1(mesh, __gl, __i2 - 1, __r, __s7@, __i7 - 1, __i8 as int)),
            forall|i: int| 0 <= i < __i8 ==> placed(basis_specs@, #[trigger] __a8@[i], __r[pair@[i] as int]),
//@@ loopstart 8
        let ghost (__sp8, __a) = (basis_specs@, __a8@);
        proof { next_half(mesh, __gb, __gl, __i2 - 1, __p, __r, __s7@, __i7 - 1, __i8 as int); dom_len(mesh, basis_specs@, dofs@, __a8@, done1(mesh, __gl, __i2 - 1, __r, __s7@, __i7 - 1, __i8 as int)); }
//@@ loopend 8
        proof { one_of_pair(mesh, __gb, __gl, __i2 - 1, __p, __r, __s7@, __i7 - 1, __i8 - 1, __sp8, dofs@, basis_specs@, __a, __a8@); }
//@@ endfn
}
}
