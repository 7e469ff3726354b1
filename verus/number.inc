verus! {
// ------------------------------------------------------------------ numbering: functions stored per cell, degrees of freedom
pub open spec fn held(specs: Seq<Vec<BasisSpec>>, t: BSAddress) -> bool { t.elem_id < specs.len() && t.elem_idx < specs[t.elem_id as int]@.len() }
pub open spec fn at(specs: Seq<Vec<BasisSpec>>, t: BSAddress) -> BasisSpec { specs[t.elem_id as int]@[t.elem_idx as int] }
/// the functions of degree of freedom d; those of the one being put together are pending
pub open spec fn grp(dofs: Seq<DoF>, pend: Seq<BSAddress>, d: int) -> Seq<BSAddress> { if d < dofs.len() { dofs[d].adr() } else { pend } }
pub open spec fn slot_ok(m: Mesh, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, pend: Seq<BSAddress>, done: spec_fn(Fk) -> bool, t: BSAddress) -> bool {
    let s = at(specs, t);
    valid(m, s) && s.elem_id == t.elem_id && s.elem_idx == Some(t.elem_idx) && s.dof_id is Some && s.dof_id->0 <= dofs.len()
        && grp(dofs, pend, s.dof_id->0 as int).contains(t) && done(fk(s))
}
pub open spec fn names(specs: Seq<Vec<BasisSpec>>, t: BSAddress, d: int) -> bool { held(specs, t) && at(specs, t).dof_id is Some && at(specs, t).dof_id->0 == d }
/// an interior function of an unrefined cell
pub open spec fn lone(m: Mesh, s: BasisSpec) -> bool { s.loc is ElemBs && !(s.dir is W) && m.elems@[s.elem_id as int].children is None }
/// the two functions of the two cells of an active edge
pub open spec fn couple(m: Mesh, a: BasisSpec, b: BasisSpec) -> bool {
    &&& mates(a, b) && same_edge(a.loc, b.loc) && !(a.dir is W)
    &&& match m.edges@[spot(a.loc, 0)].active_elems { None => false, Some(p) => (a.elem_id == p@[0] && b.elem_id == p@[1]) || (a.elem_id == p@[1] && b.elem_id == p@[0]) }
}
pub open spec fn shape(m: Mesh, specs: Seq<Vec<BasisSpec>>, g: Seq<BSAddress>) -> bool {
    (g.len() == 1 && lone(m, at(specs, g[0]))) || (g.len() == 2 && couple(m, at(specs, g[0]), at(specs, g[1])))
}
pub open spec fn stored(specs: Seq<Vec<BasisSpec>>, q: Fk) -> bool { exists|t: BSAddress| #[trigger] held(specs, t) && fk(at(specs, t)) == q }
pub open spec fn dom(m: Mesh, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, pend: Seq<BSAddress>, done: spec_fn(Fk) -> bool) -> bool {
    &&& specs.len() == m.elems@.len()
    // every stored function is a function of its cell, carries its own address and names a degree of freedom that lists it
    &&& forall|t: BSAddress| #[trigger] held(specs, t) ==> slot_ok(m, specs, dofs, pend, done, t)
    // no function is stored twice
    &&& forall|t: BSAddress, u: BSAddress| #[trigger] held(specs, t) && #[trigger] held(specs, u) && t != u ==> fk(at(specs, t)) != fk(at(specs, u))
    // numbered by position; whatever a degree of freedom lists names it; listed once
    &&& forall|d: int| 0 <= d < dofs.len() ==> (#[trigger] dofs[d]).id == d
    &&& forall|d: int, i: int| 0 <= d <= dofs.len() && 0 <= i < grp(dofs, pend, d).len() ==> names(specs, #[trigger] grp(dofs, pend, d)[i], d)
    &&& forall|d: int, i: int, j: int| 0 <= d <= dofs.len() && 0 <= i < j < grp(dofs, pend, d).len() ==> (#[trigger] grp(dofs, pend, d)[i]) != (#[trigger] grp(dofs, pend, d)[j])
    &&& forall|d: int| 0 <= d < dofs.len() ==> shape(m, specs, (#[trigger] dofs[d]).adr())
    // exactly the functions done are stored
    &&& forall|q: Fk| #[trigger] done(q) ==> stored(specs, q)
}
pub proof fn dom_same(m: Mesh, specs: Seq<Vec<BasisSpec>>, specs2: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, pend: Seq<BSAddress>, done: spec_fn(Fk) -> bool, next: spec_fn(Fk) -> bool)
    requires dom(m, specs, dofs, pend, done), specs2.len() == specs.len(), forall|x: int| 0 <= x < specs.len() ==> (#[trigger] specs2[x])@ == specs[x]@, forall|q: Fk| #[trigger] next(q) <==> done(q)
    ensures dom(m, specs2, dofs, pend, next)
{
    assert forall|t: BSAddress| (#[trigger] held(specs2, t)) == held(specs, t) && (held(specs, t) ==> at(specs2, t) == at(specs, t)) by { }
    assert forall|t: BSAddress| #[trigger] held(specs2, t) implies slot_ok(m, specs2, dofs, pend, next, t) by { assert(held(specs, t)); assert(slot_ok(m, specs, dofs, pend, done, t)); assert(done(fk(at(specs, t)))); assert(next(fk(at(specs, t)))); }
    assert forall|t: BSAddress, u: BSAddress| #[trigger] held(specs2, t) && #[trigger] held(specs2, u) && t != u implies fk(at(specs2, t)) != fk(at(specs2, u)) by { assert(held(specs, t) && held(specs, u)); }
    assert forall|d: int, i: int| 0 <= d <= dofs.len() && 0 <= i < grp(dofs, pend, d).len() implies names(specs2, #[trigger] grp(dofs, pend, d)[i], d) by { let t = grp(dofs, pend, d)[i]; assert(names(specs, t, d)); assert(held(specs2, t) == held(specs, t)); }
    assert forall|d: int| 0 <= d < dofs.len() implies shape(m, specs2, (#[trigger] dofs[d]).adr()) by {
        let g = dofs[d].adr(); assert(g == grp(dofs, pend, d)); assert(shape(m, specs, g));
        assert(names(specs, grp(dofs, pend, d)[0], d)); assert(held(specs2, g[0]) == held(specs, g[0]));
        if g.len() == 2 { assert(names(specs, grp(dofs, pend, d)[1], d)); assert(held(specs2, g[1]) == held(specs, g[1])); }
    }
    assert forall|q: Fk| #[trigger] next(q) implies stored(specs2, q) by { assert(done(q)); assert(stored(specs, q)); let t = choose|t: BSAddress| #[trigger] held(specs, t) && fk(at(specs, t)) == q; assert(held(specs2, t)); }
}
/// what push_basis_spec does
pub open spec fn pushed(specs: Seq<Vec<BasisSpec>>, specs2: Seq<Vec<BasisSpec>>, s: BasisSpec, d: int, t: BSAddress) -> bool {
    &&& s.elem_id < specs.len() && specs2.len() == specs.len() && t.elem_id == s.elem_id && t.elem_idx == specs[s.elem_id as int]@.len()
    &&& specs2[s.elem_id as int]@ == specs[s.elem_id as int]@.push(BasisSpec { dof_id: Some(d as usize), elem_idx: Some(t.elem_idx), ..s })
    &&& forall|x: int| 0 <= x < specs.len() && x != s.elem_id ==> (#[trigger] specs2[x])@ == specs[x]@
}
pub proof fn put(m: Mesh, specs: Seq<Vec<BasisSpec>>, specs2: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, pend: Seq<BSAddress>, s: BasisSpec, t: BSAddress, done: spec_fn(Fk) -> bool, next: spec_fn(Fk) -> bool)
    requires dom(m, specs, dofs, pend, done), pushed(specs, specs2, s, dofs.len() as int, t), dofs.len() <= usize::MAX, valid(m, s), !done(fk(s)), forall|q: Fk| #[trigger] next(q) <==> done(q) || q == fk(s)
    ensures dom(m, specs2, dofs, pend.push(t), next), held(specs2, t), at(specs2, t) == (BasisSpec { dof_id: Some(dofs.len() as usize), elem_idx: Some(t.elem_idx), ..s }),
        forall|u: BSAddress| #[trigger] held(specs, u) ==> held(specs2, u) && at(specs2, u) == at(specs, u),
{
    let p2 = pend.push(t);
    let n = dofs.len() as int;
    assert(held(specs2, t));
    assert forall|u: BSAddress| #[trigger] held(specs, u) implies held(specs2, u) && at(specs2, u) == at(specs, u) by { }
    assert forall|u: BSAddress| #[trigger] held(specs2, u) implies u == t || held(specs, u) by { }
    assert(!held(specs, t));
    assert forall|d: int, i: int| 0 <= d <= n && 0 <= i < grp(dofs, pend, d).len() implies #[trigger] grp(dofs, p2, d)[i] == grp(dofs, pend, d)[i] by { }
    assert forall|u: BSAddress| #[trigger] held(specs2, u) implies slot_ok(m, specs2, dofs, p2, next, u) by {
        if u == t { assert(next(fk(s))); assert(fk(at(specs2, t)) == fk(s)); assert(grp(dofs, p2, n)[pend.len() as int] == t); }
        else {
            assert(held(specs, u)); assert(slot_ok(m, specs, dofs, pend, done, u)); assert(done(fk(at(specs, u)))); assert(next(fk(at(specs, u))));
            let d = at(specs, u).dof_id->0 as int;
            let i = grp(dofs, pend, d).index_of(u); assert(grp(dofs, pend, d)[i] == u); assert(grp(dofs, p2, d)[i] == u);
        }
    }
    assert forall|u: BSAddress, v: BSAddress| #[trigger] held(specs2, u) && #[trigger] held(specs2, v) && u != v implies fk(at(specs2, u)) != fk(at(specs2, v)) by {
        if u == t { assert(held(specs, v)); assert(slot_ok(m, specs, dofs, pend, done, v)); } else if v == t { assert(held(specs, u)); assert(slot_ok(m, specs, dofs, pend, done, u)); } else { assert(held(specs, u) && held(specs, v)); }
    }
    assert forall|d: int, i: int| 0 <= d <= n && 0 <= i < grp(dofs, p2, d).len() implies names(specs2, #[trigger] grp(dofs, p2, d)[i], d) by {
        if d == n && i == pend.len() { } else { assert(grp(dofs, p2, d)[i] == grp(dofs, pend, d)[i]); assert(names(specs, grp(dofs, pend, d)[i], d)); assert(held(specs, grp(dofs, pend, d)[i])); }
    }
    assert forall|d: int, i: int, j: int| 0 <= d <= n && 0 <= i < j < grp(dofs, p2, d).len() implies (#[trigger] grp(dofs, p2, d)[i]) != (#[trigger] grp(dofs, p2, d)[j]) by {
        assert(grp(dofs, p2, d)[i] == grp(dofs, pend, d)[i]);
        if d == n && j == pend.len() { assert(names(specs, grp(dofs, pend, d)[i], d)); } else { assert(grp(dofs, p2, d)[j] == grp(dofs, pend, d)[j]); assert(grp(dofs, pend, d)[i] != grp(dofs, pend, d)[j]); }
    }
    assert forall|d: int| 0 <= d < n implies shape(m, specs2, (#[trigger] dofs[d]).adr()) by {
        let g = dofs[d].adr(); assert(g == grp(dofs, pend, d)); assert(shape(m, specs, g));
        assert(names(specs, grp(dofs, pend, d)[0], d)); assert(held(specs, g[0]));
        if g.len() == 2 { assert(names(specs, grp(dofs, pend, d)[1], d)); assert(held(specs, g[1])); }
    }
    assert forall|q: Fk| #[trigger] next(q) implies stored(specs2, q) by {
        if q == fk(s) { assert(held(specs2, t) && fk(at(specs2, t)) == q); }
        else { assert(done(q)); assert(stored(specs, q)); let u = choose|u: BSAddress| #[trigger] held(specs, u) && fk(at(specs, u)) == q; assert(held(specs2, u)); }
    }
}
pub proof fn close(m: Mesh, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, pend: Seq<BSAddress>, d: DoF, done: spec_fn(Fk) -> bool)
    requires dom(m, specs, dofs, pend, done), d.id == dofs.len(), d.adr() == pend, shape(m, specs, pend)
    ensures dom(m, specs, dofs.push(d), seq![], done)
{
    let d2 = dofs.push(d);
    let e = Seq::<BSAddress>::empty();
    let n = dofs.len() as int;
    assert forall|k: int| 0 <= k <= n implies #[trigger] grp(d2, e, k) == grp(dofs, pend, k) by { if k < n { assert(d2[k] == dofs[k]); } }
    assert(grp(d2, e, n + 1) == e);
    assert forall|u: BSAddress| #[trigger] held(specs, u) implies slot_ok(m, specs, d2, e, done, u) by { assert(slot_ok(m, specs, dofs, pend, done, u)); assert(grp(d2, e, at(specs, u).dof_id->0 as int) == grp(dofs, pend, at(specs, u).dof_id->0 as int)); }
    assert forall|k: int| 0 <= k < d2.len() implies (#[trigger] d2[k]).id == k by { if k < n { assert(d2[k] == dofs[k]); } }
    assert forall|k: int, i: int| 0 <= k <= d2.len() && 0 <= i < grp(d2, e, k).len() implies names(specs, #[trigger] grp(d2, e, k)[i], k) by { if k <= n { assert(grp(d2, e, k) == grp(dofs, pend, k)); assert(names(specs, grp(dofs, pend, k)[i], k)); } }
    assert forall|k: int, i: int, j: int| 0 <= k <= d2.len() && 0 <= i < j < grp(d2, e, k).len() implies (#[trigger] grp(d2, e, k)[i]) != (#[trigger] grp(d2, e, k)[j]) by { if k <= n { assert(grp(d2, e, k) == grp(dofs, pend, k)); assert(grp(dofs, pend, k)[i] != grp(dofs, pend, k)[j]); } }
    assert forall|k: int| 0 <= k < d2.len() implies shape(m, specs, (#[trigger] d2[k]).adr()) by { if k < n { assert(d2[k] == dofs[k]); } else { assert(d2[k] == d); } }
}
pub proof fn dom_empty(m: Mesh, specs: Seq<Vec<BasisSpec>>, done: spec_fn(Fk) -> bool)
    requires specs.len() == m.elems@.len(), forall|x: int| 0 <= x < specs.len() ==> (#[trigger] specs[x])@.len() == 0, forall|q: Fk| !#[trigger] done(q)
    ensures dom(m, specs, seq![], seq![], done)
{
    assert forall|t: BSAddress| !#[trigger] held(specs, t) by { }
    assert(grp(seq![], seq![], 0) == Seq::<BSAddress>::empty());
}
// ------------------------------------------------------------------ which functions take part
/// the four edges of every cell are different
pub open spec fn cells_ok(m: Mesh) -> bool {
    forall|e: int, j: int, k: int| 0 <= e < m.elems@.len() && 0 <= j < k < 4 ==> (#[trigger] m.elems@[e].edges@[j]) != (#[trigger] m.elems@[e].edges@[k])
}
pub open spec fn edges_in(m: Mesh) -> bool { forall|e: int, j: int| 0 <= e < m.elems@.len() && 0 <= j < 4 ==> (#[trigger] m.elems@[e].edges@[j]) < m.edges@.len() }
/// every interior function of an unrefined cell, along u or v
pub open spec fn want0(m: Mesh, q: Fk) -> bool { in_range(m, q) && !(q.dir is W) && qloc(m, q) is ElemBs && m.elems@[q.e].children is None }
pub open spec fn other(p: [usize; 2], e: int) -> int { if p@[0] == e { p@[1] as int } else { p@[0] as int } }
/// the function of the other cell of the pair that continues q across the edge
pub open spec fn mate(q: Fk, p: [usize; 2]) -> Fk {
    if q.dir is U { Fk { e: other(p, q.e), dir: q.dir, i: q.i, j: (1 - q.j) as u8 } } else { Fk { e: other(p, q.e), dir: q.dir, i: (1 - q.i) as u8, j: q.j } }
}
/// every function attached to an active edge that both cells of its pair have
pub open spec fn want1(m: Mesh, q: Fk) -> bool {
    in_range(m, q) && !(q.dir is W) && qloc(m, q) is EdgeBs && match m.edges@[spot(qloc(m, q), 0)].active_elems {
        None => false,
        Some(p) => (q.e == p@[0] || q.e == p@[1]) && in_range(m, mate(q, p)),
    }
}
pub open spec fn want(m: Mesh, q: Fk) -> bool { want0(m, q) || want1(m, q) }
/// a function of the pair at the edge, along u or v
pub open spec fn on_edge(m: Mesh, q: Fk, x: int, p: [usize; 2]) -> bool { in_range(m, q) && !(q.dir is W) && qloc(m, q) is EdgeBs && spot(qloc(m, q), 0) == x && (q.e == p@[0] || q.e == p@[1]) }
pub open spec fn sides(m: Mesh, x: int, p: [usize; 2]) -> bool { along_edge(m, x, 0, p@[0] as int) && along_edge(m, x, 1, p@[1] as int) }
pub proof fn where_on(m: Mesh, x: int, p: [usize; 2], q: Fk)
    requires cells_ok(m), sides(m, x, p), on_edge(m, q, x, p)
    ensures p@[0] != p@[1], q.dir is U <==> m.edges@[x].dir is U, across(q) == (if q.e == p@[0] { 1int } else { 0int })
{
    let k0 = choose|k: int| 0 <= k < 4 && faces(0, k) && (#[trigger] m.elems@[p@[0] as int].edges@[k]) == x && (k < 2 <==> m.edges@[x].dir is U);
    let k1 = choose|k: int| 0 <= k < 4 && faces(1, k) && (#[trigger] m.elems@[p@[1] as int].edges@[k]) == x && (k < 2 <==> m.edges@[x].dir is U);
    if p@[0] == p@[1] { if k0 < k1 { assert(m.elems@[p@[0] as int].edges@[k0] != m.elems@[p@[0] as int].edges@[k1]); } else { assert(m.elems@[p@[0] as int].edges@[k1] != m.elems@[p@[0] as int].edges@[k0]); } }
    let l: int = if q.dir is U { q.j as int } else { q.i + 2 };
    let k = if q.e == p@[0] { k0 } else { k1 };
    if l < k { assert(m.elems@[q.e].edges@[l] != m.elems@[q.e].edges@[k]); }
    if k < l { assert(m.elems@[q.e].edges@[k] != m.elems@[q.e].edges@[l]); }
}
/// the continuation, if the other cell has it, is attached to the same edge
pub proof fn mate_on(m: Mesh, x: int, p: [usize; 2], q: Fk)
    requires cells_ok(m), sides(m, x, p), on_edge(m, q, x, p), in_range(m, mate(q, p))
    ensures on_edge(m, mate(q, p), x, p), mate(mate(q, p), p) == q
{
    where_on(m, x, p, q);
    let k0 = choose|k: int| 0 <= k < 4 && faces(0, k) && (#[trigger] m.elems@[p@[0] as int].edges@[k]) == x && (k < 2 <==> m.edges@[x].dir is U);
    let k1 = choose|k: int| 0 <= k < 4 && faces(1, k) && (#[trigger] m.elems@[p@[1] as int].edges@[k]) == x && (k < 2 <==> m.edges@[x].dir is U);
    let n = mate(q, p);
    let l: int = if n.dir is U { n.j as int } else { n.i + 2 };
    assert(l == (if n.e == p@[0] { k0 } else { k1 }));
}
pub open spec fn at_edge(m: Mesh, s: BasisSpec, x: int, p: [usize; 2]) -> bool { valid(m, s) && on_edge(m, fk(s), x, p) }
/// of the functions at an edge, only the continuation matches
pub proof fn mates_are(m: Mesh, x: int, p: [usize; 2], a: BasisSpec, b: BasisSpec)
    requires cells_ok(m), sides(m, x, p), at_edge(m, a, x, p), at_edge(m, b, x, p)
    ensures mates(a, b) <==> fk(b) == mate(fk(a), p), same_edge(a.loc, b.loc)
{
    where_on(m, x, p, fk(a)); where_on(m, x, p, fk(b));
}

// ------------------------------------------------------------------ progress through the sorted lists
pub open spec fn in_first(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, q: Fk) -> bool { exists|t: int| 0 <= t < i && m.elems@[(#[trigger] l[t]).0 as int].children is None && listed(l[t].1@, q) }
/// the cells of the first i entries, and the first k functions of a list
pub open spec fn done0(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>) -> spec_fn(Fk) -> bool { |q: Fk| !(q.dir is W) && (in_first(m, l, i, q) || listed(r, q)) }
pub proof fn listed_next(r: Seq<BasisSpec>, k: int, q: Fk)
    requires 0 <= k < r.len()
    ensures listed(r.take(k + 1), q) <==> listed(r.take(k), q) || fk(r[k]) == q
{
    let (a, b) = (r.take(k), r.take(k + 1));
    if listed(b, q) { let i = choose|i: int| 0 <= i < b.len() && fk(#[trigger] b[i]) == q; if i < k { assert(a[i] == b[i]); } }
    if listed(a, q) { let i = choose|i: int| 0 <= i < a.len() && fk(#[trigger] a[i]) == q; assert(b[i] == a[i]); }
    if fk(r[k]) == q { assert(b[k] == r[k]); }
}
pub proof fn none_listed(r: Seq<BasisSpec>, q: Fk) requires r.len() == 0 ensures !listed(r, q) { }
pub proof fn done0_step(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, k: int)
    requires 0 <= k < r.len(), r[k].dir is W
    ensures forall|q: Fk| #[trigger] (done0(m, l, i, r.take(k + 1)))(q) <==> (done0(m, l, i, r.take(k)))(q)
{ assert forall|q: Fk| #[trigger] (done0(m, l, i, r.take(k + 1)))(q) <==> (done0(m, l, i, r.take(k)))(q) by { listed_next(r, k, q); } }
pub proof fn done0_new(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, k: int, all: spec_fn(Fk) -> bool)
    requires 0 <= i < l.len(), 0 <= k < r.len(), r == l[i].1@, !(r[k].dir is W), listing(l, b), book(m, b, 0, all)
    ensures forall|q: Fk| #[trigger] (done0(m, l, i, r.take(k + 1)))(q) <==> (done0(m, l, i, r.take(k)))(q) || q == fk(r[k]), !(done0(m, l, i, r.take(k)))(fk(r[k])),
        valid(m, r[k]), fresh_spec(r[k]), r[k].loc is ElemBs, r[k].elem_id == l[i].0
{
    assert forall|q: Fk| #[trigger] (done0(m, l, i, r.take(k + 1)))(q) <==> (done0(m, l, i, r.take(k)))(q) || q == fk(r[k]) by { listed_next(r, k, q); }
    let x = l[i].0;
    assert(b.dom().contains(x) && b[x] == l[i].1);
    assert(list_ok(m, b[x]@));
    assert(kind(b[x]@[k].loc) == 0 && spot(b[x]@[k].loc, b[x]@[k].elem_id as int) == x);
    let q = fk(r[k]);
    if in_first(m, l, i, q) {
        let t = choose|t: int| 0 <= t < i && m.elems@[(#[trigger] l[t]).0 as int].children is None && listed(l[t].1@, q);
        let y = l[t].0;
        assert(b.dom().contains(y) && b[y] == l[t].1);
        let n = choose|n: int| 0 <= n < l[t].1@.len() && fk(#[trigger] l[t].1@[n]) == q;
        assert(spot(b[y]@[n].loc, b[y]@[n].elem_id as int) == y);
        assert(kind(b[y]@[n].loc) == 0);
        assert(usize::klt(l[t].0, l[i].0));
    }
    if listed(r.take(k), q) { let n = choose|n: int| 0 <= n < k && fk(#[trigger] r.take(k)[n]) == q; assert(r[n] == r.take(k)[n]); assert(fk(b[x]@[n]) != fk(b[x]@[k])); }
}
/// an entry is complete
pub proof fn done0_entry(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int)
    requires 0 <= i < l.len()
    ensures m.elems@[l[i].0 as int].children is None ==> forall|q: Fk| #[trigger] (done0(m, l, i + 1, seq![]))(q) <==> (done0(m, l, i, l[i].1@.take(l[i].1@.len() as int)))(q),
        m.elems@[l[i].0 as int].children is Some ==> forall|q: Fk| #[trigger] (done0(m, l, i + 1, seq![]))(q) <==> (done0(m, l, i, seq![]))(q),
        forall|q: Fk| #[trigger] (done0(m, l, i, l[i].1@.take(0)))(q) <==> (done0(m, l, i, seq![]))(q),
{
    let r = l[i].1@;
    assert(r.take(r.len() as int) =~= r);
    assert(r.take(0) =~= Seq::<BasisSpec>::empty());
    assert forall|q: Fk| in_first(m, l, i + 1, q) <==> in_first(m, l, i, q) || (m.elems@[l[i].0 as int].children is None && listed(r, q)) by {
        if in_first(m, l, i + 1, q) { let t = choose|t: int| 0 <= t < i + 1 && m.elems@[(#[trigger] l[t]).0 as int].children is None && listed(l[t].1@, q); if t < i { assert(l[t] == l[t]); } }
        if in_first(m, l, i, q) { let t = choose|t: int| 0 <= t < i && m.elems@[(#[trigger] l[t]).0 as int].children is None && listed(l[t].1@, q); assert(l[t] == l[t]); }
        if m.elems@[l[i].0 as int].children is None && listed(r, q) { assert(l[i] == l[i]); }
    }
    assert forall|q: Fk| !listed(Seq::<BasisSpec>::empty(), q) by { }
}
/// a cell whose entry has not come yet holds nothing
pub proof fn not_yet(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, specs: Seq<Vec<BasisSpec>>, dofs: Seq<DoF>, all: spec_fn(Fk) -> bool)
    requires 0 <= i < l.len(), listing(l, b), book(m, b, 0, all), dom(m, specs, dofs, seq![], done0(m, l, i, seq![])), l[i].0 < specs.len(), m.elems@.len() <= usize::MAX
    ensures specs[l[i].0 as int]@.len() == 0
{
    if specs[l[i].0 as int]@.len() > 0 {
        let t = BSAddress { elem_id: l[i].0, elem_idx: 0 };
        assert(held(specs, t)); assert(slot_ok(m, specs, dofs, seq![], done0(m, l, i, seq![]), t));
        let q = fk(at(specs, t));
        assert((done0(m, l, i, seq![]))(q)); none_listed(seq![], q);
        let n = choose|n: int| 0 <= n < i && m.elems@[(#[trigger] l[n]).0 as int].children is None && listed(l[n].1@, q);
        let y = l[n].0;
        assert(b.dom().contains(y) && b[y] == l[n].1);
        let j = choose|j: int| 0 <= j < l[n].1@.len() && fk(#[trigger] l[n].1@[j]) == q;
        assert(spot(b[y]@[j].loc, b[y]@[j].elem_id as int) == y); assert(kind(b[y]@[j].loc) == 0);
        assert(usize::klt(l[n].0, l[i].0));
    }
}
pub proof fn done0_all(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>)
    requires listing(l, b), book(m, b, 0, every(m)), m.elems@.len() <= usize::MAX
    ensures forall|q: Fk| #[trigger] (done0(m, l, l.len() as int, seq![]))(q) <==> want0(m, q)
{
    assert forall|q: Fk| #[trigger] (done0(m, l, l.len() as int, seq![]))(q) <==> want0(m, q) by {
        none_listed(seq![], q);
        if in_first(m, l, l.len() as int, q) {
            let n = choose|n: int| 0 <= n < l.len() && m.elems@[(#[trigger] l[n]).0 as int].children is None && listed(l[n].1@, q);
            let y = l[n].0;
            assert(b.dom().contains(y) && b[y] == l[n].1);
            let j = choose|j: int| 0 <= j < l[n].1@.len() && fk(#[trigger] l[n].1@[j]) == q;
            assert(spot(b[y]@[j].loc, b[y]@[j].elem_id as int) == y); assert(kind(b[y]@[j].loc) == 0);
            assert(list_ok(m, b[y]@)); assert(valid(m, b[y]@[j]));
        }
        if want0(m, q) {
            assert((every(m))(q));
            let x = q.e as usize;
            assert(b.dom().contains(x) && listed(b[x]@, q));
            let n = choose|n: int| 0 <= n < l.len() && (#[trigger] l[n]).0 == x;
            assert(b[l[n].0] == l[n].1);
        }
    }
}
impl Domain {
//@@ fn fem_domain/domain.rs Domain::push_basis_spec
//@@ params basis_specs, bs, dof_id
        requires bs.elem_id < old(basis_specs)@.len(), fresh_spec(bs)
        ensures pushed(old(basis_specs)@, final(basis_specs)@, bs, dof_id as int, r)
//@@ endfn
}
}
