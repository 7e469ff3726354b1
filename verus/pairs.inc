verus! {
// ------------------------------------------------------------------ pairs at an edge
/// the functions of the pair's cells among the first n of a list, in r
pub open spec fn rel_ok(m: Mesh, l: Seq<BasisSpec>, n: int, x: int, p: [usize; 2], r: Seq<BasisSpec>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> at_edge(m, #[trigger] r[k], x, p) && fresh_spec(r[k]) && listed(l.take(n), fk(r[k]))
    &&& forall|j: int, k: int| 0 <= j < k < r.len() ==> fk(#[trigger] r[j]) != fk(#[trigger] r[k])
    &&& forall|q: Fk| #[trigger] listed(l.take(n), q) && !(q.dir is W) && (q.e == p@[0] || q.e == p@[1]) ==> listed(r, q)
}
pub proof fn rel_none(m: Mesh, l: Seq<BasisSpec>, x: int, p: [usize; 2])
    ensures rel_ok(m, l, 0, x, p, seq![])
{ assert(l.take(0) =~= seq![]); assert forall|q: Fk| !#[trigger] listed(l.take(0), q) by { none_listed(l.take(0), q); } }
pub proof fn rel_step(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<BasisSpec>, n: int, x: usize, p: [usize; 2], r: Seq<BasisSpec>, r2: Seq<BasisSpec>, all: spec_fn(Fk) -> bool)
    requires 0 <= n < l.len(), b.dom().contains(x), b[x]@ == l, book(m, b, 1, all), rel_ok(m, l, n, x as int, p, r),
        r2 == (if !(l[n].dir is W) && (l[n].elem_id == p@[0] || l[n].elem_id == p@[1]) { r.push(l[n]) } else { r })
    ensures rel_ok(m, l, n + 1, x as int, p, r2)
{
    assert(list_ok(m, l));
    assert(kind(b[x]@[n].loc) == 1 && spot(b[x]@[n].loc, b[x]@[n].elem_id as int) == x);
    assert(valid(m, l[n]));
    assert forall|k: int| 0 <= k < r2.len() implies at_edge(m, #[trigger] r2[k], x as int, p) && fresh_spec(r2[k]) && listed(l.take(n + 1), fk(r2[k])) by {
        listed_next(l, n, fk(r2[k]));
        if k < r.len() { assert(r2[k] == r[k]); } else { assert(r2[k] == l[n]); }
    }
    assert forall|j: int, k: int| 0 <= j < k < r2.len() implies fk(#[trigger] r2[j]) != fk(#[trigger] r2[k]) by {
        assert(r2[j] == r[j]);
        if k < r.len() { assert(r2[k] == r[k]); }
        else { let i = choose|i: int| 0 <= i < n && fk(#[trigger] l.take(n)[i]) == fk(r[j]); assert(l[i] == l.take(n)[i]); assert(fk(l[i]) != fk(l[n])); }
    }
    assert forall|q: Fk| #[trigger] listed(l.take(n + 1), q) && !(q.dir is W) && (q.e == p@[0] || q.e == p@[1]) implies listed(r2, q) by {
        listed_next(l, n, q);
        if listed(l.take(n), q) { let i = choose|i: int| 0 <= i < r.len() && fk(#[trigger] r[i]) == q; assert(r2[i] == r[i]); }
        else { assert(r2[r.len() as int] == l[n]); }
    }
}
/// all functions of the pair at the edge
pub open spec fn rel_all(m: Mesh, x: int, p: [usize; 2], r: Seq<BasisSpec>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> at_edge(m, #[trigger] r[k], x, p) && fresh_spec(r[k])
    &&& forall|j: int, k: int| 0 <= j < k < r.len() ==> fk(#[trigger] r[j]) != fk(#[trigger] r[k])
    &&& forall|q: Fk| #[trigger] on_edge(m, q, x, p) ==> listed(r, q)
}
pub proof fn rel_done(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<BasisSpec>, x: usize, p: [usize; 2], r: Seq<BasisSpec>)
    requires b.dom().contains(x), b[x]@ == l, book(m, b, 1, every(m)), rel_ok(m, l, l.len() as int, x as int, p, r)
    ensures rel_all(m, x as int, p, r)
{
    assert(l.take(l.len() as int) =~= l);
    assert forall|q: Fk| #[trigger] on_edge(m, q, x as int, p) implies listed(r, q) by { assert((every(m))(q)); assert(listed(l, q)); assert(listed(l.take(l.len() as int), q)); }
}
pub open spec fn got(pp: Seq<[usize; 2]>, a: int, b: int) -> bool { exists|k: int| 0 <= k < pp.len() && (#[trigger] pp[k])@[0] == a && pp[k]@[1] == b }
/// the pairs whose first function is among the first n
pub open spec fn paired(r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < pp.len() ==> (#[trigger] pp[k])@[0] < pp[k]@[1] < r.len() && pp[k]@[0] < n && mates(r[pp[k]@[0] as int], r[pp[k]@[1] as int])
    &&& forall|j: int, k: int| 0 <= j < k < pp.len() ==> (#[trigger] pp[j])@[0] != (#[trigger] pp[k])@[0]
    &&& forall|a: int, b: int| 0 <= a < n && a < b < r.len() && #[trigger] mates(r[a], r[b]) ==> got(pp, a, b)
}
/// none of those before z matches
pub open spec fn alone(r: Seq<BasisSpec>, a: int, z: int) -> bool { forall|b: int| a < b < z ==> !mates(r[a], #[trigger] r[b]) }
pub proof fn unpaired(r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, a: int)
    requires paired(r, pp, a), alone(r, a, r.len() as int)
    ensures paired(r, pp, a + 1)
{ assert forall|x: int, y: int| 0 <= x < a + 1 && x < y < r.len() && #[trigger] mates(r[x], r[y]) implies got(pp, x, y) by { if x == a { assert(!mates(r[a], r[y])); } } }
pub proof fn one_more(m: Mesh, x: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, p2: Seq<[usize; 2]>, a: int, b: int)
    requires cells_ok(m), sides(m, x, p), rel_all(m, x, p, r), paired(r, pp, a), 0 <= a < b < r.len(), mates(r[a], r[b]), p2.len() == pp.len() + 1, p2.take(pp.len() as int) =~= pp, p2.last()@[0] == a, p2.last()@[1] == b,
    ensures paired(r, p2, a + 1)
{
    assert forall|k: int| 0 <= k < pp.len() implies #[trigger] p2[k] == pp[k] by { assert(p2[k] == p2.take(pp.len() as int)[k]); }
    assert forall|y: int, z: int| 0 <= y < a + 1 && y < z < r.len() && #[trigger] mates(r[y], r[z]) implies got(p2, y, z) by {
        if y == a {
            assert(at_edge(m, r[a], x, p) && at_edge(m, r[b], x, p) && at_edge(m, r[z], x, p));
            mates_are(m, x, p, r[a], r[b]); mates_are(m, x, p, r[a], r[z]);
            if b < z { assert(fk(r[b]) != fk(r[z])); } else if z < b { assert(fk(r[z]) != fk(r[b])); }
            assert(p2[pp.len() as int] == p2.last());
        } else { assert(got(pp, y, z)); let k = choose|k: int| 0 <= k < pp.len() && (#[trigger] pp[k])@[0] == y && pp[k]@[1] == z; assert(p2[k] == pp[k]); }
    }
}
/// different pairs have no function in common
pub proof fn pairs_apart(m: Mesh, x: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, n: int, j: int, k: int)
    requires cells_ok(m), sides(m, x, p), rel_all(m, x, p, r), paired(r, pp, n), 0 <= j < k < pp.len()
    ensures pp[j]@[0] != pp[k]@[0], pp[j]@[0] != pp[k]@[1], pp[j]@[1] != pp[k]@[0], pp[j]@[1] != pp[k]@[1]
{
    let (a, b, c, d) = (pp[j]@[0] as int, pp[j]@[1] as int, pp[k]@[0] as int, pp[k]@[1] as int);
    assert(pp[j]@[0] < pp[j]@[1] < r.len() && pp[k]@[0] < pp[k]@[1] < r.len());
    assert(at_edge(m, r[a], x, p) && at_edge(m, r[b], x, p) && at_edge(m, r[c], x, p) && at_edge(m, r[d], x, p));
    mates_are(m, x, p, r[a], r[b]); mates_are(m, x, p, r[c], r[d]);
    mate_on(m, x, p, fk(r[a])); mate_on(m, x, p, fk(r[c]));
    if b == d { if a < c { assert(fk(r[a]) != fk(r[c])); } else { assert(fk(r[c]) != fk(r[a])); } }
    if b == c { if a < d { assert(fk(r[a]) != fk(r[d])); } }
    if a == d { if c < b { assert(fk(r[c]) != fk(r[b])); } }
}
pub open spec fn in_pair(r: Seq<BasisSpec>, p: [usize; 2], h: int, q: Fk) -> bool { (h >= 1 && fk(r[p@[0] as int]) == q) || (h >= 2 && fk(r[p@[1] as int]) == q) }
pub open spec fn in_pairs(r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, k: int, q: Fk) -> bool { exists|j: int| 0 <= j < k && in_pair(r, #[trigger] pp[j], 2, q) }
pub open spec fn edge_first(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, q: Fk) -> bool { want1(m, q) && exists|t: int| 0 <= t < i && (#[trigger] l[t]).0 == spot(qloc(m, q), 0) }
/// everything interior, the first i edges, the first k pairs of the next one, and h functions of the next pair
pub open spec fn done1(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, k: int, h: int) -> spec_fn(Fk) -> bool {
    |q: Fk| want0(m, q) || edge_first(m, l, i, q) || in_pairs(r, pp, k, q) || (h > 0 && in_pair(r, pp[k], h, q))
}
pub proof fn done1_new(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>, i: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, n: int, k: int, h: int)
    requires cells_ok(m), 0 <= i < l.len(), sides(m, l[i].0 as int, p), rel_all(m, l[i].0 as int, p, r), paired(r, pp, n), 0 <= k < pp.len(), 0 <= h < 2, listing(l, b),
    ensures ({ let s = r[pp[k]@[h] as int];
        &&& pp[k]@[h] < r.len()
        &&& forall|q: Fk| #[trigger] (done1(m, l, i, r, pp, k, h + 1))(q) <==> (done1(m, l, i, r, pp, k, h))(q) || q == fk(s)
        &&& !(done1(m, l, i, r, pp, k, h))(fk(s))
        &&& valid(m, s) && fresh_spec(s) }),
{
    let x = l[i].0;
    let s = r[pp[k]@[h] as int];
    assert(pp[k]@[0] < pp[k]@[1] < r.len());
    assert(at_edge(m, s, x as int, p));
    assert forall|q: Fk| #[trigger] (done1(m, l, i, r, pp, k, h + 1))(q) <==> (done1(m, l, i, r, pp, k, h))(q) || q == fk(s) by { }
    let q = fk(s);
    if edge_first(m, l, i, q) { let t = choose|t: int| 0 <= t < i && (#[trigger] l[t]).0 == spot(qloc(m, q), 0); assert(usize::klt(l[t].0, l[i].0)); }
    if in_pairs(r, pp, k, q) {
        let j = choose|j: int| 0 <= j < k && in_pair(r, #[trigger] pp[j], 2, q);
        pairs_apart(m, x as int, p, r, pp, n, j, k);
        assert(pp[j]@[0] < pp[j]@[1] < r.len());
        let (a, c) = (pp[k]@[h] as int, if fk(r[pp[j]@[0] as int]) == q { pp[j]@[0] as int } else { pp[j]@[1] as int });
        if a < c { assert(fk(r[a]) != fk(r[c])); } else { assert(fk(r[c]) != fk(r[a])); }
    }
    if h == 1 { let (a, c) = (pp[k]@[0] as int, pp[k]@[1] as int); assert(fk(r[a]) != fk(r[c])); }
}
/// the two functions of a pair make a couple
pub proof fn a_couple(m: Mesh, x: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, n: int, k: int, s: BasisSpec, t: BasisSpec)
    requires cells_ok(m), sides(m, x, p), rel_all(m, x, p, r), paired(r, pp, n), 0 <= k < pp.len(), m.edges@[x].active_elems == Some(p),
        s == (BasisSpec { dof_id: s.dof_id, elem_idx: s.elem_idx, ..r[pp[k]@[0] as int] }), t == (BasisSpec { dof_id: t.dof_id, elem_idx: t.elem_idx, ..r[pp[k]@[1] as int] }),
    ensures couple(m, s, t)
{
    let (a, b) = (pp[k]@[0] as int, pp[k]@[1] as int);
    assert(pp[k]@[0] < pp[k]@[1] < r.len());
    assert(at_edge(m, r[a], x, p) && at_edge(m, r[b], x, p));
    mates_are(m, x, p, r[a], r[b]); where_on(m, x, p, fk(r[a]));
}
pub proof fn done1_pair(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, pp: Seq<[usize; 2]>, k: int)
    requires 0 <= k < pp.len()
    ensures forall|q: Fk| #[trigger] (done1(m, l, i, r, pp, k + 1, 0))(q) <==> (done1(m, l, i, r, pp, k, 2))(q),
{
    assert forall|q: Fk| #[trigger] (done1(m, l, i, r, pp, k + 1, 0))(q) <==> (done1(m, l, i, r, pp, k, 2))(q) by {
        if in_pairs(r, pp, k + 1, q) { let j = choose|j: int| 0 <= j < k + 1 && in_pair(r, #[trigger] pp[j], 2, q); if j < k { assert(pp[j] == pp[j]); } }
        if in_pairs(r, pp, k, q) { let j = choose|j: int| 0 <= j < k && in_pair(r, #[trigger] pp[j], 2, q); assert(pp[j] == pp[j]); }
        if in_pair(r, pp[k], 2, q) { assert(pp[k] == pp[k]); }
    }
}
pub proof fn edge_next(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, q: Fk)
    requires 0 <= i < l.len()
    ensures edge_first(m, l, i + 1, q) <==> edge_first(m, l, i, q) || (want1(m, q) && l[i].0 == spot(qloc(m, q), 0))
{
    if edge_first(m, l, i + 1, q) { let t = choose|t: int| 0 <= t < i + 1 && (#[trigger] l[t]).0 == spot(qloc(m, q), 0); if t < i { assert(l[t] == l[t]); } }
    if edge_first(m, l, i, q) { let t = choose|t: int| 0 <= t < i && (#[trigger] l[t]).0 == spot(qloc(m, q), 0); assert(l[t] == l[t]); }
    if want1(m, q) && l[i].0 == spot(qloc(m, q), 0) { assert(l[i] == l[i]); }
}
pub proof fn no_pairs(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, r: Seq<BasisSpec>, pp: Seq<[usize; 2]>)
    ensures forall|q: Fk| #[trigger] (done1(m, l, i, r, pp, 0, 0))(q) <==> want0(m, q) || edge_first(m, l, i, q),
        forall|q: Fk| #[trigger] (done1(m, l, i, seq![], seq![], 0, 0))(q) <==> want0(m, q) || edge_first(m, l, i, q)
{ }
/// an inactive edge adds nothing
pub proof fn done1_idle(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int)
    requires 0 <= i < l.len(), m.edges@[l[i].0 as int].active_elems is None
    ensures forall|q: Fk| #[trigger] (done1(m, l, i + 1, seq![], seq![], 0, 0))(q) <==> (done1(m, l, i, seq![], seq![], 0, 0))(q)
{
    assert forall|q: Fk| #[trigger] (done1(m, l, i + 1, seq![], seq![], 0, 0))(q) <==> (done1(m, l, i, seq![], seq![], 0, 0))(q) by { edge_next(m, l, i, q); }
}
/// an active edge adds all it should
pub proof fn done1_edge(m: Mesh, l: Seq<(usize, Vec<BasisSpec>)>, i: int, p: [usize; 2], r: Seq<BasisSpec>, pp: Seq<[usize; 2]>)
    requires cells_ok(m), 0 <= i < l.len(), sides(m, l[i].0 as int, p), rel_all(m, l[i].0 as int, p, r), paired(r, pp, r.len() as int), m.edges@[l[i].0 as int].active_elems == Some(p),
    ensures forall|q: Fk| #[trigger] (done1(m, l, i + 1, seq![], seq![], 0, 0))(q) <==> (done1(m, l, i, r, pp, pp.len() as int, 0))(q)
{
    let x = l[i].0 as int;
    assert forall|q: Fk| #[trigger] (done1(m, l, i + 1, seq![], seq![], 0, 0))(q) <==> (done1(m, l, i, r, pp, pp.len() as int, 0))(q) by {
        edge_next(m, l, i, q);
        if in_pairs(r, pp, pp.len() as int, q) {
            let j = choose|j: int| 0 <= j < pp.len() && in_pair(r, #[trigger] pp[j], 2, q);
            let (a, b) = (pp[j]@[0] as int, pp[j]@[1] as int);
            assert(pp[j]@[0] < pp[j]@[1] < r.len());
            assert(at_edge(m, r[a], x, p) && at_edge(m, r[b], x, p));
            mates_are(m, x, p, r[a], r[b]); mate_on(m, x, p, fk(r[a]));
            assert(want1(m, q));
        }
        if want1(m, q) && l[i].0 == spot(qloc(m, q), 0) {
            mate_on(m, x, p, q); where_on(m, x, p, q);
            assert(on_edge(m, q, x, p)); assert(on_edge(m, mate(q, p), x, p));
            let a = choose|k: int| 0 <= k < r.len() && fk(#[trigger] r[k]) == q;
            let b = choose|k: int| 0 <= k < r.len() && fk(#[trigger] r[k]) == mate(q, p);
            mates_are(m, x, p, r[a], r[b]); mates_are(m, x, p, r[b], r[a]);
            let (c, d) = if a < b { (a, b) } else { (b, a) };
            assert(a != b);
            assert(mates(r[c], r[d]));
            assert(got(pp, c, d));
            let j = choose|j: int| 0 <= j < pp.len() && (#[trigger] pp[j])@[0] == c && pp[j]@[1] == d;
            assert(in_pair(r, pp[j], 2, q));
        }
    }
}
pub proof fn done1_all(m: Mesh, b: Map<usize, Vec<BasisSpec>>, l: Seq<(usize, Vec<BasisSpec>)>)
    requires listing(l, b), book(m, b, 1, every(m)), edges_in(m), m.edges@.len() <= usize::MAX
    ensures forall|q: Fk| #[trigger] (done1(m, l, l.len() as int, seq![], seq![], 0, 0))(q) <==> want(m, q)
{
    assert forall|q: Fk| #[trigger] (done1(m, l, l.len() as int, seq![], seq![], 0, 0))(q) <==> want(m, q) by {
        if want1(m, q) {
            assert((every(m))(q));
            let x = spot(qloc(m, q), q.e) as usize;
            assert(b.dom().contains(x));
            let t = choose|t: int| 0 <= t < l.len() && (#[trigger] l[t]).0 == x;
            assert(l[t].0 == spot(qloc(m, q), 0));
        }
    }
}
}
