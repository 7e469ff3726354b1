verus! {
//@@ const fem_problem/galerkin.rs MIN_GLQ_ORDER
//@@ enum fem_problem/galerkin.rs GalerkinSamplingError
impl Elem {
//@@ fn fem_domain/domain/mesh/elem.rs Elem::get_materials
        ensures *r == self.element.materials
//@@ endfn
}
// ------------------------------------------------------------------ specification: the assembled system
pub open spec fn lsum(ids: Seq<usize>, n: int, f: spec_fn(int) -> real) -> real decreases n { if n <= 0 { 0real } else { lsum(ids, n - 1, f) + f(ids[n - 1] as int) } }
pub open spec fn ma_of(c: Elem) -> Materials { c.element.materials }
/// a domain and a quadrature rule for it
pub ghost struct Setup { pub d: Domain, pub gu: Seq<F>, pub gv: Seq<F>, pub w: (Seq<F>, Seq<F>) }
impl Setup {
    pub open spec fn n(self) -> int { self.d.mesh.elems@.len() as int }
    pub open spec fn cell(self, e: int) -> Elem { self.d.mesh.elems@[e] }
    pub open spec fn fns(self, e: int) -> Seq<BasisSpec> { self.d.basis_specs@[e]@ }
    pub open spec fn dof(self, e: int, i: int) -> int { self.fns(e)[i].dof_id->0 as int }
    /// q is a descendant of e
    pub open spec fn below(self, e: int, q: int) -> bool { elem_tree(self.d.mesh).under(e, q) }
    /// the part of cell e taken up by cell q
    pub open spec fn range(self, e: int, q: int) -> Box2 { if e == q { unit_box() } else { walk(self.cell(q).ancestors@.skip(self.cell(e).ancestors@.len() as int), unit_box()) } }
    /// the quadrature, over cell q, of the integrand for function i of cell e and function j of cell q
    pub open spec fn integrand<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, e: int, i: int, q: int, j: int) -> G {
        |m: int, n: int| I::density::<B>(self.cell(e).element.materials, cell_jac(self.cell(e)), cell_jac(self.cell(q)), self.fns(e)[i].dir, self.fns(q)[j].dir, ord2(self.fns(e)[i]), ord2(self.fns(q)[j]),
            aff(self.range(e, q).u, self.gu[m]@), aff(self.range(e, q).v, self.gv[n]@), self.gu[m]@, self.gv[n]@)
    }
    pub open spec fn term<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, e: int, i: int, q: int, j: int) -> real { whole_grid(self.w, self.integrand::<B, I>(e, i, q, j)) }
    /// what the pair adds to entry k
    pub open spec fn share<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key, e: int, i: int, q: int, j: int) -> real { if key(self.dof(e, i), self.dof(q, j)) == k { self.term::<B, I>(e, i, q, j) } else { 0real } }
    pub open spec fn share_f<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key, e: int, i: int, q: int) -> spec_fn(int) -> real { |j: int| self.share::<B, I>(k, e, i, q, j) }
    /// with the functions of the same cell, from i on: every unordered pair once
    pub open spec fn own_f<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key, e: int) -> spec_fn(int) -> real { |i: int| ssum(i, self.fns(e).len() as int, self.share_f::<B, I>(k, e, i, e)) }
    pub open spec fn per_f<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key, e: int, i: int) -> spec_fn(int) -> real { |q: int| ssum(0, self.fns(q).len() as int, self.share_f::<B, I>(k, e, i, q)) }
    /// with the functions of the descendants
    pub open spec fn below_f<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key, e: int, i: int) -> spec_fn(int) -> real { |q: int| if self.below(e, q) { (self.per_f::<B, I>(k, e, i))(q) } else { 0real } }
    pub open spec fn cross_f<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key, e: int) -> spec_fn(int) -> real { |i: int| ssum(0, self.n(), self.below_f::<B, I>(k, e, i)) }
    pub open spec fn cell_f<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key) -> spec_fn(int) -> real {
        |e: int| ssum(0, self.fns(e).len() as int, self.own_f::<B, I>(k, e)) + ssum(0, self.fns(e).len() as int, self.cross_f::<B, I>(k, e))
    }
    /// entry k of the system matrix
    pub open spec fn total<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(self, k: Key) -> real { ssum(0, self.n(), self.cell_f::<B, I>(k)) }
}
// ------------------------------------------------------------------ what the assembly relies on
pub open spec fn sound_cell<AI: HierCurlIntegral, BI: HierCurlIntegral>(c: Elem) -> bool {
    let x = c.element;
    x.points@[0].x@ < x.points@[3].x@ && x.points@[0].y@ < x.points@[3].y@ && AI::usable(x.materials) && BI::usable(x.materials)
}
pub open spec fn sound_fn(d: Domain, e: int, i: int) -> bool {
    let s = d.basis_specs@[e]@[i];
    flat(s.dir) && s.dof_id is Some && s.dof_id->0 < d.dofs@.len() && s.i <= d.mesh.elems@[e].poly_orders.ni && s.j <= d.mesh.elems@[e].poly_orders.nj
}
pub open spec fn ready<AI: HierCurlIntegral, BI: HierCurlIntegral>(d: Domain) -> bool {
    &&& d.basis_specs@.len() == d.mesh.elems@.len() && d.mesh.elems@.len() <= 1000000000000000 && d.dofs@.len() <= u32::MAX
    &&& elem_tree(d.mesh).ok() && numbered(d.mesh.elems@)
    &&& forall|e: int| 0 <= e < d.mesh.elems@.len() ==> #[trigger] lineage(d.mesh, e)
    &&& forall|e: int| 0 <= e < d.mesh.elems@.len() ==> sound_cell::<AI, BI>(#[trigger] d.mesh.elems@[e])
    &&& forall|e: int| 0 <= e < d.basis_specs@.len() ==> (#[trigger] d.basis_specs@[e])@.len() <= 1000
    &&& forall|e: int, i: int| 0 <= e < d.basis_specs@.len() && 0 <= i < d.basis_specs@[e]@.len() ==> #[trigger] sound_fn(d, e, i)
}
/// the largest orders of the mesh
pub open spec fn top_orders(m: Mesh, im: u8, jm: u8) -> bool {
    &&& forall|e: int| 0 <= e < m.elems@.len() ==> (#[trigger] m.elems@[e]).poly_orders.ni <= im && m.elems@[e].poly_orders.nj <= jm
    &&& im > 0 ==> exists|e: int| 0 <= e < m.elems@.len() && (#[trigger] m.elems@[e]).poly_orders.ni == im
    &&& jm > 0 ==> exists|e: int| 0 <= e < m.elems@.len() && (#[trigger] m.elems@[e]).poly_orders.nj == jm
}
/// the rules are of the sizes asked for, or of the default sizes for the largest orders
pub open spec fn ruled(s: Setup, q: Option<[usize; 2]>) -> bool {
    exists|im: u8, jm: u8| #[trigger] top_orders(s.d.mesh, im, jm)
        && gauss_rule(match q { Some(x) => x@[0] as int, None => default_size(im as int) }, false, s.gu, s.w.0)
        && gauss_rule(match q { Some(x) => x@[1] as int, None => default_size(jm as int) }, false, s.gv, s.w.1)
}
pub open spec fn assembled<B: HierCurlBasisFnSpace, AI: HierCurlIntegral, BI: HierCurlIntegral>(s: Setup, g: GEP) -> bool {
    &&& g.wf() && g.a.dimension == s.d.dofs@.len()
    &&& forall|k: Key| entry(g.a.entries@, k) == #[trigger] s.total::<B, AI>(k)
    &&& forall|k: Key| entry(g.b.entries@, k) == #[trigger] s.total::<B, BI>(k)
}
pub open spec fn too_small(q: Option<[usize; 2]>) -> bool { q is Some && (q->0@[0] < MIN_GLQ_ORDER || q->0@[1] < MIN_GLQ_ORDER) }
}
verus! {
// ------------------------------------------------------------------ one pair
pub open spec fn cell_of(s: Setup, e: int, q: int) -> Option<Elem> { if e == q { None } else { Some(s.cell(q)) } }
pub open spec fn rule_fits(s: Setup) -> bool { s.gu.len() == s.w.0.len() && s.gv.len() == s.w.1.len() }
pub open spec fn pair_in(s: Setup, e: int, i: int, q: int, j: int) -> bool { 0 <= e < s.n() && 0 <= i < s.fns(e).len() && 0 <= q < s.n() && 0 <= j < s.fns(q).len() && (q == e || s.below(e, q)) }
/// made for the functions of cell e, over cell q
pub open spec fn made_over<B: HierCurlBasisFnSpace>(s: Setup, p: HierCurlBasisFn<B>, e: int, q: int, im: int, jm: int) -> bool { p.made(s.cell(e), cell_of(s, e, q), s.gu, s.gv, im, jm, false) }
pub open spec fn tabs<B: HierCurlBasisFnSpace>(s: Setup, e: int, q: int, p: HierCurlBasisFn<B>, t: Tab, im: int, jm: int) -> bool {
    &&& p.on(t.up, t.vp, im + 1, jm + 1, false) && t.im == im + 1 && t.jm == jm + 1 && !t.d2 && moved(s.range(e, q).u, s.gu, t.up) && moved(s.range(e, q).v, s.gv, t.vp)
    &&& p.para_scale.at(0) == (s.range(e, q).u.b - s.range(e, q).u.a) / 2real && p.para_scale.at(1) == (s.range(e, q).v.b - s.range(e, q).v.a) / 2real
    &&& p.maps(cell_jac(s.cell(e)))
}
pub proof fn tabulated<B: HierCurlBasisFnSpace, AI: HierCurlIntegral, BI: HierCurlIntegral>(s: Setup, p: HierCurlBasisFn<B>, e: int, q: int, im: int, jm: int) -> (t: Tab)
    requires ready::<AI, BI>(s.d), 0 <= e < s.n(), 0 <= q < s.n(), q == e || s.below(e, q), made_over(s, p, e, q, im, jm)
    ensures tabs(s, e, q, p, t, im, jm)
{
    let (c, d) = (s.cell(e), s.cell(q));
    assert(c.id == e && d.id == q);
    if q == e {
        let t = Tab { up: s.gu, vp: s.gv, im: im + 1, jm: jm + 1, d2: false };
        assert forall|k: int| 0 <= k < s.gu.len() implies (#[trigger] t.up[k])@ == aff(unit_box().u, s.gu[k]@) by { aff_unit(s.gu[k]@); }
        assert forall|k: int| 0 <= k < s.gv.len() implies (#[trigger] t.vp[k])@ == aff(unit_box().v, s.gv[k]@) by { aff_unit(s.gv[k]@); }
        t
    } else {
        let (k, up, vp) = choose|k: int, up: Seq<F>, vp: Seq<F>| first_at(d.ancestors@, c.id, k)
            && #[trigger] p.placed(walk(#[trigger] d.ancestors@.skip(k), unit_box()), s.gu, s.gv, up, vp) && p.on(up, vp, im + 1, jm + 1, false);
        path_place(s.d.mesh, e, q, k);
        Tab { up, vp, im: im + 1, jm: jm + 1, d2: false }
    }
}
pub proof fn tab_of<B: HierCurlBasisFnSpace>(s: Setup, e: int, q: int, p: HierCurlBasisFn<B>, t: Tab, im: int, jm: int, ij: [usize; 2])
    requires tabs(s, e, q, p, t, im, jm), rule_fits(s), ij@[0] <= im, ij@[1] <= jm, cell_jac(s.cell(e)).a > 0real, cell_jac(s.cell(e)).d > 0real, cell_jac(s.cell(e)).det() > 0real
    ensures p.tab(t, ij, s.w.0.len() as int, s.w.1.len() as int)
{
    let (nu, nv) = (s.w.0.len() as int, s.w.1.len() as int);
    assert forall|m: int, n: int| 0 <= m < nu && 0 <= n < nv implies (#[trigger] p.det_jac@[m]@[n])@ > 0real by { }
    assert forall|m: int, n: int| 0 <= m < nu && 0 <= n < nv implies mat(#[trigger] p.jac@[m]@[n]).a != 0real && mat(p.jac@[m]@[n]).d != 0real by { }
}
pub proof fn jac_facts<AI: HierCurlIntegral, BI: HierCurlIntegral>(s: Setup, e: int, q: int)
    requires ready::<AI, BI>(s.d), 0 <= e < s.n(), 0 <= q < s.n(), q == e || s.below(e, q)
    ensures ({ let (i, j, r) = (cell_jac(s.cell(q)), cell_jac(s.cell(e)), s.range(e, q));
        j.a > 0real && j.d > 0real && j.b == 0real && j.c == 0real && j.det() > 0real && i.b == 0real && i.c == 0real && proper(r)
        && i.a == ((r.u.b - r.u.a) / 2real) * j.a && i.d == ((r.v.b - r.v.a) / 2real) * j.d && s.cell(q).element == s.cell(e).element })
{
    let (c, d) = (s.cell(e), s.cell(q));
    assert(sound_cell::<AI, BI>(c) && sound_cell::<AI, BI>(d));
    let (a, b) = (c.ancestors@, d.ancestors@);
    walk_proper(a); walk_proper(b);
    jac_pos(el_of(c), walk(a, unit_box())); jac_pos(el_of(d), walk(b, unit_box()));
    let j = cell_jac(c);
    inv_diag(j);
    if q == e {
        assert(1real * j.a == j.a && 1real * j.d == j.d);
        assert((1real - (-1real)) / 2real == 1real);
    } else {
        path_below(s.d.mesh, e, q);
        let t = b.skip(a.len() as int);
        assert(a + t =~= b);
        theorem_composition(a, t);
        walk_proper(t);
        jac_within(el_of(c), walk(a, unit_box()), walk(t, unit_box()));
    }
}
/// THE PAIR: its tables fit, and its integral is the term of the sum
pub proof fn pair_value<B: HierCurlBasisFnSpace, I: HierCurlIntegral, AI: HierCurlIntegral, BI: HierCurlIntegral>(s: Setup, e: int, i: int, q: int, j: int, p: HierCurlBasisFn<B>, r: HierCurlBasisFn<B>, im: int, jm: int) -> (t: (Tab, Tab))
    requires ready::<AI, BI>(s.d), rule_fits(s), pair_in(s, e, i, q, j), made_over(s, p, e, q, im, jm), made_over(s, r, q, q, im, jm),
        forall|e: int| 0 <= e < s.n() ==> (#[trigger] s.cell(e)).poly_orders.ni <= im && s.cell(e).poly_orders.nj <= jm
    ensures pair_ok(p, r, t.0, t.1, ord2(s.fns(e)[i]), ord2(s.fns(q)[j]), s.w),
        I::value(s.w, s.fns(e)[i].dir, s.fns(q)[j].dir, ord2(s.fns(e)[i]), ord2(s.fns(q)[j]), p, r, t.0, t.1, s.cell(e).element.materials) == s.term::<B, I>(e, i, q, j)
{
    let (tp, tq) = (tabulated::<B, AI, BI>(s, p, e, q, im, jm), tabulated::<B, AI, BI>(s, r, q, q, im, jm));
    let (x, y) = (s.fns(e)[i], s.fns(q)[j]);
    assert(sound_fn(s.d, e, i) && sound_fn(s.d, q, j));
    jac_facts::<AI, BI>(s, e, q); jac_facts::<AI, BI>(s, q, q);
    assert(s.cell(e).poly_orders.ni <= im && s.cell(q).poly_orders.ni <= im);
    tab_of(s, e, q, p, tp, im, jm, ord2(x)); tab_of(s, q, q, r, tq, im, jm, ord2(y));
    let (jp, jq) = (cell_jac(s.cell(e)), cell_jac(s.cell(q)));
    let b = s.range(e, q);
    assert((1real - (-1real)) / 2real == 1real);
    assert(nested(p, r, jp, jq));
    let g = s.integrand::<B, I>(e, i, q, j);
    assert forall|m: int, n: int| 0 <= m < s.w.0.len() && 0 <= n < s.w.1.len() implies
        #[trigger] g(m, n) == I::density::<B>(s.cell(e).element.materials, jp, jq, x.dir, y.dir, ord2(x), ord2(y), tp.up[m]@, tp.vp[n]@, tq.up[m]@, tq.vp[n]@) by {
        aff_unit(s.gu[m]@); aff_unit(s.gv[n]@);
        assert(tp.up[m]@ == aff(b.u, s.gu[m]@) && tp.vp[n]@ == aff(b.v, s.gv[n]@));
        assert(tq.up[m]@ == aff(unit_box().u, s.gu[m]@) && tq.vp[n]@ == aff(unit_box().v, s.gv[n]@));
    }
    I::meaning::<B>(s.w, x.dir, y.dir, ord2(x), ord2(y), p, r, tp, tq, jp, jq, ma_of(s.cell(e)), g);
    (tp, tq)
}
}
verus! {
// ------------------------------------------------------------------ sums
pub open spec fn gsum(g: Seq<([usize; 2], F)>, k: Key) -> real decreases g.len() {
    if g.len() == 0 { 0real } else { gsum(g.drop_last(), k) + (if key(g.last().0@[0] as int, g.last().0@[1] as int) == k { g.last().1@ } else { 0real }) }
}
pub proof fn added_entry(m: Map<Key, F>, g: Seq<([usize; 2], F)>, k: Key)
    ensures entry(added_all(m, g), k) == entry(m, k) + gsum(g, k)
    decreases g.len()
{
    if g.len() > 0 {
        added_entry(m, g.drop_last(), k);
        let n = added_all(m, g.drop_last());
        let l = key(g.last().0@[0] as int, g.last().0@[1] as int);
        let v = g.last().1;
        let a = added_all(m, g);
        assert(a == added(n, l, v));
        assert(gsum(g, k) == gsum(g.drop_last(), k) + (if l == k { v@ } else { 0real }));
        if l == k {
            if n.dom().contains(l) { fadd_real(n[l], v); assert(a[k] == n[l].fadd(v)); } else { assert(a[k] == v); }
            assert(a.dom().contains(k));
            assert(entry(a, k) == entry(n, k) + v@);
        } else {
            assert(a.dom().contains(k) == n.dom().contains(k));
            assert(entry(a, k) == entry(n, k));
        }
    }
}
/// a sum over a list without repetitions is a sum over all numbers, restricted to those listed
pub open spec fn on_list(ids: Seq<usize>, n: int, f: spec_fn(int) -> real) -> spec_fn(int) -> real { |q: int| if exists|t: int| 0 <= t < n && ids[t] == q { f(q) } else { 0real } }
pub proof fn ssum_point(lo: int, hi: int, f: spec_fn(int) -> real, g: spec_fn(int) -> real, x: int, c: real)
    requires lo <= hi, forall|q: int| lo <= q < hi && q != x ==> #[trigger] g(q) == f(q), lo <= x < hi ==> g(x) == f(x) + c
    ensures ssum(lo, hi, g) == ssum(lo, hi, f) + (if lo <= x < hi { c } else { 0real })
    decreases hi - lo
{ if lo < hi { ssum_point(lo, hi - 1, f, g, x, c); } }
pub proof fn list_sum(ids: Seq<usize>, n: int, f: spec_fn(int) -> real, hi: int)
    requires 0 <= n <= ids.len(), forall|i: int, j: int| 0 <= i < j < ids.len() ==> #[trigger] ids[i] != #[trigger] ids[j], forall|i: int| 0 <= i < ids.len() ==> #[trigger] ids[i] < hi, 0 <= hi
    ensures lsum(ids, n, f) == ssum(0, hi, on_list(ids, n, f))
    decreases n
{
    if n > 0 {
        list_sum(ids, n - 1, f, hi);
        let (a, b, x) = (on_list(ids, n - 1, f), on_list(ids, n, f), ids[n - 1] as int);
        assert forall|q: int| 0 <= q < hi && q != x implies #[trigger] b(q) == a(q) by {
            if exists|t: int| 0 <= t < n && ids[t] == q { let t = choose|t: int| 0 <= t < n && ids[t] == q; assert(t < n - 1); assert(ids[t] == q); }
        }
        assert(a(x) == 0real) by { if exists|t: int| 0 <= t < n - 1 && ids[t] == x { let t = choose|t: int| 0 <= t < n - 1 && ids[t] == x; assert(ids[t] != ids[n - 1]); } }
        assert(b(x) == f(x)) by { assert(ids[n - 1] == x); }
        ssum_point(0, hi, a, b, x, f(x));
    } else {
        let a = on_list(ids, 0, f);
        ssum_zero(0, hi, a);
    }
}
pub proof fn ssum_zero(lo: int, hi: int, f: spec_fn(int) -> real)
    requires forall|q: int| lo <= q < hi ==> #[trigger] f(q) == 0real
    ensures ssum(lo, hi, f) == 0real
    decreases hi - lo
{ if lo < hi { ssum_zero(lo, hi - 1, f); } }
pub proof fn ssum_same(lo: int, hi: int, f: spec_fn(int) -> real, g: spec_fn(int) -> real)
    requires forall|q: int| lo <= q < hi ==> #[trigger] f(q) == g(q)
    ensures ssum(lo, hi, f) == ssum(lo, hi, g)
    decreases hi - lo
{ if lo < hi { ssum_same(lo, hi - 1, f, g); } }
// ------------------------------------------------------------------ the state of the loops
/// pairs of the functions before i with those of the same cell, and of i with those before j
#[verifier::opaque]
pub open spec fn local2<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int, j: int) -> bool {
    forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i, s.own_f::<B, I>(k, e)) + ssum(i, j, s.share_f::<B, I>(k, e, i, e))
}
#[verifier::opaque]
pub open spec fn local1<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int) -> bool {
    forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i, s.own_f::<B, I>(k, e))
}
pub open spec fn item_of<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, x: ([usize; 2], F), e: int, i: int, q: int, j: int) -> bool {
    key(x.0@[0] as int, x.0@[1] as int) == key(s.dof(e, i), s.dof(q, j)) && x.1@ == s.term::<B, I>(e, i, q, j)
}
pub proof fn push_item<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, x: ([usize; 2], F), e: int, i: int, q: int, j: int, k: Key)
    requires item_of::<B, I>(s, x, e, i, q, j)
    ensures gsum(g.push(x), k) == gsum(g, k) + (s.share_f::<B, I>(k, e, i, q))(j)
{ assert(g.push(x).drop_last() =~= g); assert(g.push(x).last() == x); }
pub proof fn local_none<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, e: int)
    ensures local1::<B, I>(s, seq![], e, 0)
{ reveal(local1); assert forall|k: Key| #[trigger] gsum(seq![], k) == ssum(0, 0, s.own_f::<B, I>(k, e)) by {} }
pub proof fn local_row<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int)
    requires local1::<B, I>(s, g, e, i)
    ensures local2::<B, I>(s, g, e, i, i)
{ reveal(local1); reveal(local2); }
pub proof fn local_push<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, x: ([usize; 2], F), e: int, i: int, j: int)
    requires local2::<B, I>(s, g, e, i, j), i <= j, item_of::<B, I>(s, x, e, i, e, j)
    ensures local2::<B, I>(s, g.push(x), e, i, j + 1)
{
    reveal(local2);
    assert forall|k: Key| #[trigger] gsum(g.push(x), k) == ssum(0, i, s.own_f::<B, I>(k, e)) + ssum(i, j + 1, s.share_f::<B, I>(k, e, i, e)) by {
        push_item::<B, I>(s, g, x, e, i, e, j, k);
        assert(gsum(g, k) == ssum(0, i, s.own_f::<B, I>(k, e)) + ssum(i, j, s.share_f::<B, I>(k, e, i, e)));
    }
}
pub proof fn local_next<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int)
    requires local2::<B, I>(s, g, e, i, s.fns(e).len() as int), 0 <= i
    ensures local1::<B, I>(s, g, e, i + 1)
{
    reveal(local1); reveal(local2);
    assert forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i + 1, s.own_f::<B, I>(k, e)) by {
        let f = s.own_f::<B, I>(k, e);
        assert(f(i) == ssum(i, s.fns(e).len() as int, s.share_f::<B, I>(k, e, i, e)));
        assert(ssum(0, i + 1, f) == ssum(0, i, f) + f(i));
    }
}
/// the same for the pairs with descendants: functions before i; of i, descendants before t; of the t-th, functions before j
#[verifier::opaque]
pub open spec fn desc1<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int) -> bool {
    forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i, s.cross_f::<B, I>(k, e))
}
#[verifier::opaque]
pub open spec fn desc2<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int, ids: Seq<usize>, t: int) -> bool {
    forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i, s.cross_f::<B, I>(k, e)) + lsum(ids, t, s.per_f::<B, I>(k, e, i))
}
#[verifier::opaque]
pub open spec fn desc3<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int, ids: Seq<usize>, t: int, j: int) -> bool {
    forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i, s.cross_f::<B, I>(k, e)) + lsum(ids, t, s.per_f::<B, I>(k, e, i)) + ssum(0, j, s.share_f::<B, I>(k, e, i, ids[t] as int))
}
pub proof fn desc_none<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, e: int)
    ensures desc1::<B, I>(s, seq![], e, 0)
{ reveal(desc1); assert forall|k: Key| #[trigger] gsum(seq![], k) == ssum(0, 0, s.cross_f::<B, I>(k, e)) by {} }
pub proof fn desc_row<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int, ids: Seq<usize>)
    requires desc1::<B, I>(s, g, e, i)
    ensures desc2::<B, I>(s, g, e, i, ids, 0)
{ reveal(desc1); reveal(desc2); }
pub proof fn desc_cell<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int, ids: Seq<usize>, t: int)
    requires desc2::<B, I>(s, g, e, i, ids, t)
    ensures desc3::<B, I>(s, g, e, i, ids, t, 0)
{ reveal(desc2); reveal(desc3); }
pub proof fn desc_push<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, x: ([usize; 2], F), e: int, i: int, ids: Seq<usize>, t: int, j: int)
    requires desc3::<B, I>(s, g, e, i, ids, t, j), 0 <= j, item_of::<B, I>(s, x, e, i, ids[t] as int, j)
    ensures desc3::<B, I>(s, g.push(x), e, i, ids, t, j + 1)
{
    reveal(desc3);
    let q = ids[t] as int;
    assert forall|k: Key| #[trigger] gsum(g.push(x), k) == ssum(0, i, s.cross_f::<B, I>(k, e)) + lsum(ids, t, s.per_f::<B, I>(k, e, i)) + ssum(0, j + 1, s.share_f::<B, I>(k, e, i, q)) by {
        push_item::<B, I>(s, g, x, e, i, q, j, k);
        assert(gsum(g, k) == ssum(0, i, s.cross_f::<B, I>(k, e)) + lsum(ids, t, s.per_f::<B, I>(k, e, i)) + ssum(0, j, s.share_f::<B, I>(k, e, i, q)));
    }
}
pub proof fn desc_cell_done<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int, ids: Seq<usize>, t: int)
    requires desc3::<B, I>(s, g, e, i, ids, t, s.fns(ids[t] as int).len() as int), 0 <= t
    ensures desc2::<B, I>(s, g, e, i, ids, t + 1)
{
    reveal(desc2); reveal(desc3);
    assert forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i, s.cross_f::<B, I>(k, e)) + lsum(ids, t + 1, s.per_f::<B, I>(k, e, i)) by {
        let f = s.per_f::<B, I>(k, e, i);
        let q = ids[t] as int;
        assert(f(q) == ssum(0, s.fns(q).len() as int, s.share_f::<B, I>(k, e, i, q)));
        assert(lsum(ids, t + 1, f) == lsum(ids, t, f) + f(q));
    }
}
pub proof fn desc_next<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, g: Seq<([usize; 2], F)>, e: int, i: int, ids: Seq<usize>)
    requires desc2::<B, I>(s, g, e, i, ids, ids.len() as int), 0 <= i, 0 <= e < s.n(), adds(seq![], ids, subtree(elem_tree(s.d.mesh), e, false)), elem_tree(s.d.mesh).ok()
    ensures desc1::<B, I>(s, g, e, i + 1)
{
    reveal(desc1); reveal(desc2);
    let st = subtree(elem_tree(s.d.mesh), e, false);
    assert forall|t: int| 0 <= t < ids.len() implies #[trigger] ids[t] < s.n() by { assert(st(ids[t] as int)); elem_tree(s.d.mesh).above(e, ids[t] as int); }
    assert forall|k: Key| #[trigger] gsum(g, k) == ssum(0, i + 1, s.cross_f::<B, I>(k, e)) by {
        let f = s.per_f::<B, I>(k, e, i);
        list_sum(ids, ids.len() as int, f, s.n());
        let (a, b) = (on_list(ids, ids.len() as int, f), s.below_f::<B, I>(k, e, i));
        assert forall|q: int| 0 <= q < s.n() implies #[trigger] a(q) == b(q) by {
            if s.below(e, q) { assert(st(q)); let t = choose|t: int| 0 <= t < ids.len() && #[trigger] ids[t] == q; assert(ids[t] == q); }
            else if exists|t: int| 0 <= t < ids.len() && ids[t] == q { let t = choose|t: int| 0 <= t < ids.len() && ids[t] == q; assert(st(ids[t] as int)); }
        }
        ssum_same(0, s.n(), a, b);
        let c = s.cross_f::<B, I>(k, e);
        assert(c(i) == ssum(0, s.n(), b));
        assert(ssum(0, i + 1, c) == ssum(0, i, c) + c(i));
    }
}
/// the cells before e
#[verifier::opaque]
pub open spec fn cells_done<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, m: Seq<[SparseMatrix; 2]>, w: int, e: int) -> bool {
    forall|k: Key| #[trigger] entry_sum(m, w, k) == ssum(0, e, s.cell_f::<B, I>(k))
}
pub proof fn cells_none<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, w: int)
    ensures cells_done::<B, I>(s, seq![], w, 0)
{ reveal(cells_done); assert forall|k: Key| #[trigger] entry_sum(seq![], w, k) == ssum(0, 0, s.cell_f::<B, I>(k)) by {} }
pub proof fn cells_next<B: HierCurlBasisFnSpace, I: HierCurlIntegral>(s: Setup, m: Seq<[SparseMatrix; 2]>, w: int, e: int, x: [SparseMatrix; 2], g: Seq<([usize; 2], F)>, h: Seq<([usize; 2], F)>)
    requires cells_done::<B, I>(s, m, w, e), 0 <= e, local1::<B, I>(s, g, e, s.fns(e).len() as int), desc1::<B, I>(s, h, e, s.fns(e).len() as int),
        x@[w].entries@ == added_all(added_all(Map::<Key, F>::empty(), g), h)
    ensures cells_done::<B, I>(s, m.push(x), w, e + 1)
{
    reveal(cells_done); reveal(local1); reveal(desc1);
    assert forall|k: Key| #[trigger] entry_sum(m.push(x), w, k) == ssum(0, e + 1, s.cell_f::<B, I>(k)) by {
        assert(m.push(x).drop_last() =~= m); assert(m.push(x).last() == x);
        let z = Map::<Key, F>::empty();
        added_entry(z, g, k); added_entry(added_all(z, g), h, k);
        let f = s.cell_f::<B, I>(k);
        assert(gsum(g, k) == ssum(0, s.fns(e).len() as int, s.own_f::<B, I>(k, e)));
        assert(gsum(h, k) == ssum(0, s.fns(e).len() as int, s.cross_f::<B, I>(k, e)));
        assert(f(e) == gsum(g, k) + gsum(h, k));
        assert(entry_sum(m, w, k) == ssum(0, e, f));
        assert(ssum(0, e + 1, f) == ssum(0, e, f) + f(e));
    }
}
pub proof fn cells_all<B: HierCurlBasisFnSpace, AI: HierCurlIntegral, BI: HierCurlIntegral>(s: Setup, m: Seq<[SparseMatrix; 2]>, g: GEP, z: GEP)
    requires cells_done::<B, AI>(s, m, 0, s.n()), cells_done::<B, BI>(s, m, 1, s.n()), g.wf(), g.a.dimension == s.d.dofs@.len(),
        z.a.entries@ == Map::<Key, F>::empty(), z.b.entries@ == Map::<Key, F>::empty(),
        forall|w: int, k: Key| 0 <= w < 2 ==> entry(#[trigger] g.mat(w), k) == #[trigger] entry(z.mat(w), k) + entry_sum(m, w, k)
    ensures assembled::<B, AI, BI>(s, g)
{
    reveal(cells_done);
    assert forall|k: Key| entry(g.a.entries@, k) == #[trigger] s.total::<B, AI>(k) by {
        assert(entry(g.mat(0), k) == entry(z.mat(0), k) + entry_sum(m, 0, k));
        assert(entry_sum(m, 0, k) == ssum(0, s.n(), s.cell_f::<B, AI>(k)));
    }
    assert forall|k: Key| entry(g.b.entries@, k) == #[trigger] s.total::<B, BI>(k) by {
        assert(entry(g.mat(1), k) == entry(z.mat(1), k) + entry_sum(m, 1, k));
        assert(entry_sum(m, 1, k) == ssum(0, s.n(), s.cell_f::<B, BI>(k)));
    }
}
}
