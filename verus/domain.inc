verus! {
pub trait VContains { spec fn has(&self, x: usize) -> bool; fn contains(&self, x: &usize) -> (r: bool) ensures r == self.has(*x); }
impl VContains for [usize; 2] {
    open spec fn has(&self, x: usize) -> bool { self@[0] == x || self@[1] == x }
    fn contains(&self, x: &usize) -> (r: bool) { self[0] == *x || self[1] == *x }
}
// ------------------------------------------------------------------ lists of generated functions
pub open spec fn listed(l: Seq<BasisSpec>, q: Fk) -> bool { exists|k: int| 0 <= k < l.len() && fk(#[trigger] l[k]) == q }
pub open spec fn fresh_spec(s: BasisSpec) -> bool { s.elem_idx is None && s.dof_id is None }
pub open spec fn list_ok(m: Mesh, l: Seq<BasisSpec>) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> valid(m, #[trigger] l[k]) && fresh_spec(l[k])
    &&& forall|j: int, k: int| 0 <= j < k < l.len() ==> fk(#[trigger] l[j]) != fk(#[trigger] l[k])
}
/// the functions of one kind, sorted by where they live: exactly those done
pub open spec fn book(m: Mesh, b: Map<usize, Vec<BasisSpec>>, kd: int, done: spec_fn(Fk) -> bool) -> bool {
    &&& forall|x: usize| #[trigger] b.dom().contains(x) ==> list_ok(m, b[x]@) && b[x]@.len() > 0
    &&& forall|x: usize, k: int| b.dom().contains(x) && 0 <= k < b[x]@.len() ==> kind((#[trigger] b[x]@[k]).loc) == kd && spot(b[x]@[k].loc, b[x]@[k].elem_id as int) == x && done(fk(b[x]@[k]))
    &&& forall|q: Fk| #[trigger] done(q) && in_range(m, q) && kind(qloc(m, q)) == kd ==> b.dom().contains(spot(qloc(m, q), q.e) as usize) && listed(b[spot(qloc(m, q), q.e) as usize]@, q)
}
pub proof fn book_add(m: Mesh, b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, kd: int, s: BasisSpec, x: usize, v: Vec<BasisSpec>, done: spec_fn(Fk) -> bool, next: spec_fn(Fk) -> bool)
    requires book(m, b, kd, done), valid(m, s), fresh_spec(s), kind(s.loc) == kd, x == spot(s.loc, s.elem_id as int), !done(fk(s)),
        forall|q: Fk| #[trigger] next(q) <==> done(q) || q == fk(s),
        c =~= b.insert(x, v), v@ =~= (if b.dom().contains(x) { b[x]@ } else { seq![] }).push(s),
    ensures book(m, c, kd, next)
{
    let o: Seq<BasisSpec> = if b.dom().contains(x) { b[x]@ } else { seq![] };
    assert forall|y: usize| #[trigger] c.dom().contains(y) implies list_ok(m, c[y]@) && c[y]@.len() > 0 by {
        if y == x {
            let l = v@;
            assert forall|k: int| 0 <= k < l.len() implies valid(m, #[trigger] l[k]) && fresh_spec(l[k]) by { if k < o.len() { assert(l[k] == o[k]); assert(list_ok(m, o)); } }
            assert forall|j: int, k: int| 0 <= j < k < l.len() implies fk(#[trigger] l[j]) != fk(#[trigger] l[k]) by {
                assert(l[j] == o[j]);
                if k < o.len() { assert(l[k] == o[k]); assert(list_ok(m, o)); } else { assert(l[k] == s); assert(done(fk(b[x]@[j]))); }
            }
        } else { assert(b.dom().contains(y)); }
    }
    assert forall|y: usize, k: int| c.dom().contains(y) && 0 <= k < c[y]@.len() implies kind((#[trigger] c[y]@[k]).loc) == kd && spot(c[y]@[k].loc, c[y]@[k].elem_id as int) == y && next(fk(c[y]@[k])) by {
        if y == x { if k < o.len() { assert(c[y]@[k] == b[x]@[k]); } else { assert(c[y]@[k] == s); assert(next(fk(s))); } } else { assert(c[y]@[k] == b[y]@[k]); }
    }
    assert forall|q: Fk| #[trigger] next(q) && in_range(m, q) && kind(qloc(m, q)) == kd implies c.dom().contains(spot(qloc(m, q), q.e) as usize) && listed(c[spot(qloc(m, q), q.e) as usize]@, q) by {
        let y = spot(qloc(m, q), q.e) as usize;
        if q == fk(s) { assert(v@[o.len() as int] == s); assert(y == x); }
        else {
            assert(done(q));
            let k = choose|k: int| 0 <= k < b[y]@.len() && fk(#[trigger] b[y]@[k]) == q;
            assert(c[y]@[k] == b[y]@[k]);
        }
    }
}
pub proof fn book_other(m: Mesh, b: Map<usize, Vec<BasisSpec>>, kd: int, s: BasisSpec, done: spec_fn(Fk) -> bool, next: spec_fn(Fk) -> bool)
    requires book(m, b, kd, done), valid(m, s), kind(s.loc) != kd, forall|q: Fk| #[trigger] next(q) <==> done(q) || q == fk(s),
    ensures book(m, b, kd, next)
{
    assert forall|y: usize, k: int| b.dom().contains(y) && 0 <= k < b[y]@.len() implies kind((#[trigger] b[y]@[k]).loc) == kd && spot(b[y]@[k].loc, b[y]@[k].elem_id as int) == y && next(fk(b[y]@[k])) by { assert(done(fk(b[y]@[k]))); assert(next(fk(b[y]@[k]))); }
}
pub proof fn book_same(m: Mesh, b: Map<usize, Vec<BasisSpec>>, kd: int, done: spec_fn(Fk) -> bool, next: spec_fn(Fk) -> bool)
    requires book(m, b, kd, done), forall|q: Fk| #[trigger] next(q) <==> done(q),
    ensures book(m, b, kd, next)
{
    assert forall|y: usize, k: int| b.dom().contains(y) && 0 <= k < b[y]@.len() implies kind((#[trigger] b[y]@[k]).loc) == kd && spot(b[y]@[k].loc, b[y]@[k].elem_id as int) == y && next(fk(b[y]@[k])) by { assert(done(fk(b[y]@[k]))); assert(next(fk(b[y]@[k]))); }
}
pub open spec fn dirno(d: BasisDir) -> int { match d { BasisDir::U => 0, BasisDir::V => 1, BasisDir::W => 2 } }
/// all functions of the cells before e, those of e with direction before d, and the first k listed ones of direction d
pub open spec fn upto(m: Mesh, e: int, d: int, p: Seq<[u8; 2]>, k: int) -> spec_fn(Fk) -> bool {
    |q: Fk| in_range(m, q) && (q.e < e || (q.e == e && (dirno(q.dir) < d || (dirno(q.dir) == d && hit(p.take(k), q.i, q.j)))))
}
pub open spec fn every(m: Mesh) -> spec_fn(Fk) -> bool { |q: Fk| in_range(m, q) }
pub open spec fn orders_in(m: Mesh) -> bool { forall|e: int| 0 <= e < m.elems@.len() ==> 1 <= (#[trigger] m.elems@[e]).poly_orders.ni <= 20 && 1 <= m.elems@[e].poly_orders.nj <= 20 }
pub open spec fn ids_ok(m: Mesh) -> bool { forall|e: int| 0 <= e < m.elems@.len() ==> (#[trigger] m.elems@[e]).id == e }
pub proof fn hit_next(p: Seq<[u8; 2]>, k: int)
    requires 0 <= k < p.len(), forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i])@ != (#[trigger] p[j])@
    ensures forall|x: u8, y: u8| #[trigger] hit(p.take(k + 1), x, y) <==> hit(p.take(k), x, y) || (x == p[k]@[0] && y == p[k]@[1]),
        !hit(p.take(k), p[k]@[0], p[k]@[1]),
{
    let (a, b) = (p.take(k), p.take(k + 1));
    assert(p[k]@ =~= two(p[k]@[0], p[k]@[1]));
    assert forall|x: u8, y: u8| #[trigger] hit(b, x, y) <==> hit(a, x, y) || (x == p[k]@[0] && y == p[k]@[1]) by {
        if hit(b, x, y) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == two(x, y); if i < k { assert(a[i]@ == two(x, y)); } else { assert(two(x, y)[0] == x && two(x, y)[1] == y); } }
        if hit(a, x, y) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == two(x, y); assert(b[i]@ == two(x, y)); }
        if x == p[k]@[0] && y == p[k]@[1] { assert(b[k]@ == two(x, y)); }
    }
    if hit(a, p[k]@[0], p[k]@[1]) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == two(p[k]@[0], p[k]@[1]); assert(p[i]@ == p[k]@); }
}
pub proof fn none_yet(m: Mesh)
    ensures forall|kd: int| #[trigger] book(m, Map::<usize, Vec<BasisSpec>>::empty(), kd, upto(m, 0, 0, seq![], 0))
{
    assert forall|q: Fk| !#[trigger] (upto(m, 0, 0, seq![], 0))(q) by { assert(in_range(m, q) ==> q.e >= 0); assert(Seq::<[u8; 2]>::empty().take(0) =~= Seq::<[u8; 2]>::empty()); }
}
/// the three sorted lists
pub open spec fn books(m: Mesh, a: Map<usize, Vec<BasisSpec>>, b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, done: spec_fn(Fk) -> bool) -> bool {
    book(m, a, 0, done) && book(m, b, 1, done) && book(m, c, 2, done)
}
pub proof fn books_same(m: Mesh, a: Map<usize, Vec<BasisSpec>>, b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, done: spec_fn(Fk) -> bool, next: spec_fn(Fk) -> bool)
    requires books(m, a, b, c, done), forall|q: Fk| #[trigger] next(q) <==> done(q),
    ensures books(m, a, b, c, next)
{ book_same(m, a, 0, done, next); book_same(m, b, 1, done, next); book_same(m, c, 2, done, next); }
/// the entry of a list that has grown by s
pub open spec fn grown(b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, x: usize, s: BasisSpec) -> bool {
    c.dom().contains(x) && c =~= b.insert(x, c[x]) && c[x]@ =~= (if b.dom().contains(x) { b[x]@ } else { seq![] }).push(s)
}
pub proof fn books_add(m: Mesh, a: Map<usize, Vec<BasisSpec>>, b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, a1: Map<usize, Vec<BasisSpec>>, b1: Map<usize, Vec<BasisSpec>>, c1: Map<usize, Vec<BasisSpec>>,
    e: int, d: int, p: Seq<[u8; 2]>, k: int, s: BasisSpec)
    requires books(m, a, b, c, upto(m, e, d, p, k)), valid(m, s), fresh_spec(s), 0 <= k < p.len(),
        forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i])@ != (#[trigger] p[j])@,
        s.elem_id == e, dirno(s.dir) == d, s.i == p[k]@[0], s.j == p[k]@[1],
        match s.loc {
            BasisLoc::ElemBs => grown(a, a1, s.elem_id, s) && b1 == b && c1 == c,
            BasisLoc::EdgeBs(_, x) => a1 == a && grown(b, b1, x, s) && c1 == c,
            BasisLoc::NodeBs(_, x) => a1 == a && b1 == b && grown(c, c1, x, s),
        },
    ensures books(m, a1, b1, c1, upto(m, e, d, p, k + 1))
{
    hit_next(p, k);
    let (dn, nx) = (upto(m, e, d, p, k), upto(m, e, d, p, k + 1));
    assert forall|q: Fk| #[trigger] nx(q) <==> dn(q) || q == fk(s) by { }
    assert(!dn(fk(s)));
    match s.loc {
        BasisLoc::ElemBs => { book_add(m, a, a1, 0, s, s.elem_id, a1[s.elem_id], dn, nx); book_other(m, b, 1, s, dn, nx); book_other(m, c, 2, s, dn, nx); }
        BasisLoc::EdgeBs(_, x) => { book_other(m, a, 0, s, dn, nx); book_add(m, b, b1, 1, s, x, b1[x], dn, nx); book_other(m, c, 2, s, dn, nx); }
        BasisLoc::NodeBs(_, x) => { book_other(m, a, 0, s, dn, nx); book_other(m, b, 1, s, dn, nx); book_add(m, c, c1, 2, s, x, c1[x], dn, nx); }
    }
}
pub proof fn few(x: int, y: int) requires 0 <= x <= 20, 0 <= y <= 20 ensures (x + 1) * (y + 1) <= 441 { assert((x + 1) * (y + 1) <= 21 * 21) by(nonlinear_arith) requires 0 <= x <= 20, 0 <= y <= 20; }
/// a direction is complete
pub proof fn dir_done(m: Mesh, a: Map<usize, Vec<BasisSpec>>, b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, e: int, d: int, p: Seq<[u8; 2]>, dir: BasisDir)
    requires books(m, a, b, c, upto(m, e, d, p, p.len() as int)), 0 <= e < m.elems@.len(), dirno(dir) == d,
        forall|i: u8, j: u8| ords(m.elems@[e].poly_orders, dir, i, j) ==> #[trigger] hit(p, i, j),
    ensures books(m, a, b, c, upto(m, e, d + 1, seq![], 0))
{
    let (dn, nx) = (upto(m, e, d, p, p.len() as int), upto(m, e, d + 1, seq![], 0));
    assert(p.take(p.len() as int) =~= p);
    assert(Seq::<[u8; 2]>::empty().take(0) =~= Seq::<[u8; 2]>::empty());
    assert forall|q: Fk| #[trigger] nx(q) <==> dn(q) by { if in_range(m, q) && q.e == e && dirno(q.dir) == d { assert(q.dir == dir); assert(hit(p, q.i, q.j)); } }
    books_same(m, a, b, c, dn, nx);
}
pub proof fn cell_done(m: Mesh, a: Map<usize, Vec<BasisSpec>>, b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, e: int)
    requires books(m, a, b, c, upto(m, e, 3, seq![], 0))
    ensures books(m, a, b, c, upto(m, e + 1, 0, seq![], 0))
{
    let (dn, nx) = (upto(m, e, 3, seq![], 0), upto(m, e + 1, 0, seq![], 0));
    assert(Seq::<[u8; 2]>::empty().take(0) =~= Seq::<[u8; 2]>::empty());
    assert forall|q: Fk| #[trigger] nx(q) <==> dn(q) by { }
    books_same(m, a, b, c, dn, nx);
}
pub proof fn dir_start(m: Mesh, a: Map<usize, Vec<BasisSpec>>, b: Map<usize, Vec<BasisSpec>>, c: Map<usize, Vec<BasisSpec>>, e: int, d: int)
    requires books(m, a, b, c, upto(m, e, d, seq![], 0))
    ensures forall|p: Seq<[u8; 2]>| books(m, a, b, c, #[trigger] upto(m, e, d, p, 0))
{
    assert forall|p: Seq<[u8; 2]>| books(m, a, b, c, #[trigger] upto(m, e, d, p, 0)) by {
        let (dn, nx) = (upto(m, e, d, seq![], 0), upto(m, e, d, p, 0));
        assert(Seq::<[u8; 2]>::empty().take(0) =~= Seq::<[u8; 2]>::empty());
        assert(p.take(0) =~= Seq::<[u8; 2]>::empty());
        assert forall|q: Fk| #[trigger] nx(q) <==> dn(q) by { }
        books_same(m, a, b, c, dn, nx);
    }
}
impl Domain {
//@@ fn fem_domain/domain.rs Domain::gen_basis_specs keep_arrays
//@@ params mesh, cc
        requires orders_in(*mesh), ids_ok(*mesh), mesh.elems@.len() <= 1000000000000000
        ensures books(*mesh, r@[0]@, r@[1]@, r@[2]@, every(*mesh))
//@@ abort cc != ContinuityCondition::HCurl
//@@ before `for elem in`
        proof { none_yet(*mesh); }
//@@ loop 0
        bs_id_tracker.next_id <= __i0 * 1323, __hi0 == mesh.elems@.len(),
            books(*mesh, elem_bs@, edge_bs@, node_bs@, upto(*mesh, __i0 as int, 0, seq![], 0)),
//@@ loopend 0
        proof { cell_done(*mesh, elem_bs@, edge_bs@, node_bs@, __i0 - 1); }
//@@ loopafter 0
        proof {
            let (dn, nx) = (upto(*mesh, __i0 as int, 0, seq![], 0), every(*mesh));
            assert forall|q: Fk| #[trigger] nx(q) <==> dn(q) by { }
            books_same(*mesh, elem_bs@, edge_bs@, node_bs@, dn, nx);
        }
//@@ loop 1
        bs_id_tracker.next_id <= (__i0 - 1) * 1323 + __i1 * 441, __hi1 == 3, __s1@[0] == BasisDir::U, __s1@[1] == BasisDir::V, __s1@[2] == BasisDir::W,
            books(*mesh, elem_bs@, edge_bs@, node_bs@, upto(*mesh, __i0 - 1, __i1 as int, seq![], 0)),
//@@ loopstart 1
        proof { dir_start(*mesh, elem_bs@, edge_bs@, node_bs@, __i0 - 1, __i1 as int); few(mesh.elems@[__i0 - 1].poly_orders.ni as int, mesh.elems@[__i0 - 1].poly_orders.nj as int); }
//@@ loop 2
        bs_id_tracker.next_id <= (__i0 - 1) * 1323 + (__i1 - 1) * 441 + __i2, __hi2 == __s2@.len(), __hi2 <= 441,
            books(*mesh, elem_bs@, edge_bs@, node_bs@, upto(*mesh, __i0 - 1, __i1 - 1, __s2@, __i2 as int)),
//@@ loopafter 2
        proof { dir_done(*mesh, elem_bs@, edge_bs@, node_bs@, __i0 - 1, __i1 - 1, __s2@, dir); }
//@@ loopstart 2
        let ghost (__ge, __gd, __gn) = (elem_bs@, edge_bs@, node_bs@);
//@@ loopend 2
        proof { books_add(*mesh, __ge, __gd, __gn, elem_bs@, edge_bs@, node_bs@, __i0 - 1, __i1 - 1, __s2@, __i2 - 1, bs); }
//@@ endfn
}
}
