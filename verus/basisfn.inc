verus! {
// ------------------------------------------------------------------ the trait of shape function spaces (contract of the six accessors)
pub trait HierCurlBasisFnSpace: Sized {
    /// the functions themselves: normal, tangential and their derivatives, by order
    spec fn nn(x: real, n: int) -> real;
    spec fn nn1(x: real, n: int) -> real;
    spec fn nn2(x: real, n: int) -> real;
    spec fn tt(x: real, n: int) -> real;
    spec fn tt1(x: real, n: int) -> real;
    spec fn tt2(x: real, n: int) -> real;
    /// tabulated for orders below m at the points (d2: with second derivatives)
    spec fn over(&self, pts: Seq<F>, m: int, d2: bool) -> bool;
    fn with(max_order: usize, points: &[F], compute_d2: bool) -> (r: Self)
        requires max_order < 1000000
        ensures r.over(points@, max_order + 1, compute_d2);
    fn norm(&self, n: usize, p: usize) -> (r: F)
        requires exists|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len()
        ensures forall|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len() ==> r@ == Self::nn(pts[p as int]@, n as int);
    fn norm_d1(&self, n: usize, p: usize) -> (r: F)
        requires exists|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len()
        ensures forall|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len() ==> r@ == Self::nn1(pts[p as int]@, n as int);
    fn norm_d2(&self, n: usize, p: usize) -> (r: F)
        requires exists|pts: Seq<F>, m: int| #[trigger] self.over(pts, m, true) && n < m && p < pts.len()
        ensures forall|pts: Seq<F>, m: int| #[trigger] self.over(pts, m, true) && n < m && p < pts.len() ==> r@ == Self::nn2(pts[p as int]@, n as int);
    fn tang(&self, n: usize, p: usize) -> (r: F)
        requires exists|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len()
        ensures forall|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len() ==> r@ == Self::tt(pts[p as int]@, n as int);
    fn tang_d1(&self, n: usize, p: usize) -> (r: F)
        requires exists|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len()
        ensures forall|pts: Seq<F>, m: int, d2: bool| #[trigger] self.over(pts, m, d2) && n < m && p < pts.len() ==> r@ == Self::tt1(pts[p as int]@, n as int);
    fn tang_d2(&self, n: usize, p: usize) -> (r: F)
        requires exists|pts: Seq<F>, m: int| #[trigger] self.over(pts, m, true) && n < m && p < pts.len()
        ensures forall|pts: Seq<F>, m: int| #[trigger] self.over(pts, m, true) && n < m && p < pts.len() ==> r@ == Self::tt2(pts[p as int]@, n as int);
}
impl HierCurlBasisFnSpace for HierPoly {
    open spec fn nn(x: real, n: int) -> real { pw(x, n) }
    open spec fn nn1(x: real, n: int) -> real { pw1(x, n) }
    open spec fn nn2(x: real, n: int) -> real { pw2(x, n) }
    open spec fn tt(x: real, n: int) -> real { tg(x, n) }
    open spec fn tt1(x: real, n: int) -> real { tg1(x, n) }
    open spec fn tt2(x: real, n: int) -> real { pw2(x, n) }
    open spec fn over(&self, pts: Seq<F>, m: int, d2: bool) -> bool { self.holds(pts, m, d2) }
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs HierCurlBasisFnSpace for poly::HierPoly::with nopub
//@@ params max_order, points, compute_d2
//@@ endfn
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs HierCurlBasisFnSpace for poly::HierPoly::norm nopub
//@@ params n, p
//@@ endfn
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs HierCurlBasisFnSpace for poly::HierPoly::norm_d1 nopub
//@@ params n, p
//@@ endfn
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs HierCurlBasisFnSpace for poly::HierPoly::norm_d2 nopub
//@@ params n, p
//@@ endfn
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs HierCurlBasisFnSpace for poly::HierPoly::tang nopub
//@@ params n, p
//@@ endfn
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs HierCurlBasisFnSpace for poly::HierPoly::tang_d1 nopub
//@@ params n, p
//@@ endfn
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs HierCurlBasisFnSpace for poly::HierPoly::tang_d2 nopub
//@@ params n, p
//@@ endfn
}
/// THEOREM (P14): the reported derivatives of the tangential functions are the derivatives
pub proof fn theorem_tangential(x: real, h: real, n: int)
    requires n >= 0
    ensures tg(x + h, n) == tg(x, n) + h * tg1(x, n) + (h * h) * (if n < 2 { 0real } else { rem(x, h, n) }),
        n >= 1 ==> tg1(x + h, n) == tg1(x, n) + h * pw2(x, n) + (h * h) * (if n < 2 { 0real } else { (n as real) * rem(x, h, n - 1) }),
{
    theorem_derivative(x, h, n);
    if n >= 1 { theorem_second_derivative(x, h, n); }
    assert((h * h) * 0real == 0real && h * 0real == 0real && h * 1real == h && h * (-1real) == 0real - h) by (nonlinear_arith);
    let d = pw1(x, n);
    assert(h * (d - 1real) == h * d - h) by (nonlinear_arith);
}
//@@ struct fem_domain/basis.rs HierCurlBasisFn
impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
    /// the basis functions of a cell tabulated at up x vp for orders below im, jm
    pub open spec fn on(self, up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool) -> bool {
        &&& self.u_shapes.over(up, im, d2) && self.v_shapes.over(vp, jm, d2)
        &&& self.jac@.len() == up.len() && self.jac_inv@.len() == up.len() && self.det_jac@.len() == up.len()
        &&& forall|m: int| 0 <= m < up.len() ==> (#[trigger] self.jac@[m])@.len() == vp.len()
        &&& forall|m: int| 0 <= m < up.len() ==> (#[trigger] self.jac_inv@[m])@.len() == vp.len()
        &&& forall|m: int| 0 <= m < up.len() ==> (#[trigger] self.det_jac@[m])@.len() == vp.len()
    }
    /// point mn and orders ij lie in the table
    pub open spec fn at(self, up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool, ij: [usize; 2], mn: [usize; 2]) -> bool {
        self.on(up, vp, im, jm, d2) && ij@[0] < im && ij@[1] < jm && mn@[0] < up.len() && mn@[1] < vp.len()
    }
    pub open spec fn has(self, ij: [usize; 2], mn: [usize; 2]) -> bool { exists|up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool| #[trigger] self.at(up, vp, im, jm, d2, ij, mn) }
    pub open spec fn has2(self, ij: [usize; 2], mn: [usize; 2]) -> bool { exists|up: Seq<F>, vp: Seq<F>, im: int, jm: int| #[trigger] self.at(up, vp, im, jm, true, ij, mn) }
    pub open spec fn inv_at(self, mn: [usize; 2]) -> Mat { mat(self.jac_inv@[mn@[0] as int]@[mn@[1] as int]) }
    pub open spec fn jac_at(self, mn: [usize; 2]) -> Mat { mat(self.jac@[mn@[0] as int]@[mn@[1] as int]) }
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_u
//@@ params ij, mn
        requires self.has(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool| #[trigger] self.at(up, vp, im, jm, d2, ij, mn) ==>
            r.at(0) == self.inv_at(mn).a * BSpace::nn(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt(vp[mn@[1] as int]@, ij@[1] as int)
            && r.at(1) == self.inv_at(mn).b * BSpace::nn(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt(vp[mn@[1] as int]@, ij@[1] as int)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_u_d1
//@@ params ij, mn, para_scale
        requires self.has(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool| #[trigger] self.at(up, vp, im, jm, d2, ij, mn) ==>
            r.at(0) == self.inv_at(mn).a * (BSpace::nn(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt1(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(0)
            && r.at(1) == self.inv_at(mn).b * (BSpace::nn1(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_u_d2
//@@ params ij, mn, para_scale
        requires self.has2(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int| #[trigger] self.at(up, vp, im, jm, true, ij, mn) ==>
            r.at(0) == self.inv_at(mn).a * (BSpace::nn(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt2(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(0) * para_scale.at(0)
            && r.at(1) == self.inv_at(mn).b * (BSpace::nn2(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(1) * para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_u_dd
//@@ params ij, mn, para_scale
        requires self.has(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool| #[trigger] self.at(up, vp, im, jm, d2, ij, mn) ==>
            r.at(0) == self.inv_at(mn).a * BSpace::nn1(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt1(vp[mn@[1] as int]@, ij@[1] as int) * para_scale.at(0) * para_scale.at(1)
            && r.at(1) == self.inv_at(mn).b * BSpace::nn1(up[mn@[0] as int]@, ij@[0] as int) * BSpace::tt1(vp[mn@[1] as int]@, ij@[1] as int) * para_scale.at(0) * para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_v
//@@ params ij, mn
        requires self.has(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool| #[trigger] self.at(up, vp, im, jm, d2, ij, mn) ==>
            r.at(0) == self.inv_at(mn).c * BSpace::tt(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn(vp[mn@[1] as int]@, ij@[1] as int)
            && r.at(1) == self.inv_at(mn).d * BSpace::tt(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn(vp[mn@[1] as int]@, ij@[1] as int)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_v_d1
//@@ params ij, mn, para_scale
        requires self.has(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool| #[trigger] self.at(up, vp, im, jm, d2, ij, mn) ==>
            r.at(0) == self.inv_at(mn).c * (BSpace::tt(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn1(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(0)
            && r.at(1) == self.inv_at(mn).d * (BSpace::tt1(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_v_d2
//@@ params ij, mn, para_scale
        requires self.has2(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int| #[trigger] self.at(up, vp, im, jm, true, ij, mn) ==>
            r.at(0) == self.inv_at(mn).c * (BSpace::tt(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn2(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(0) * para_scale.at(0)
            && r.at(1) == self.inv_at(mn).d * (BSpace::tt2(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn(vp[mn@[1] as int]@, ij@[1] as int)) * para_scale.at(1) * para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::f_v_dd
//@@ params ij, mn, para_scale
        requires self.has(ij, mn)
        ensures forall|up: Seq<F>, vp: Seq<F>, im: int, jm: int, d2: bool| #[trigger] self.at(up, vp, im, jm, d2, ij, mn) ==>
            r.at(0) == self.inv_at(mn).c * BSpace::tt1(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn1(vp[mn@[1] as int]@, ij@[1] as int) * para_scale.at(0) * para_scale.at(1)
            && r.at(1) == self.inv_at(mn).d * BSpace::tt1(up[mn@[0] as int]@, ij@[0] as int) * BSpace::nn1(vp[mn@[1] as int]@, ij@[1] as int) * para_scale.at(0) * para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::glq_scale
        ensures r@ == self.para_scale.at(0) * self.para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::edge_glq_scale
//@@ params edge_idx
//@@ abort edge_idx > 3
        ensures r@ == (if edge_idx < 2 { self.para_scale.at(0) } else { self.para_scale.at(1) })
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::u_glq_scale
        ensures r@ == self.para_scale.at(0)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::v_glq_scale
        ensures r@ == self.para_scale.at(1)
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::deriv_scale
        ensures *r == self.para_scale
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::sample_scale
//@@ params mn
        requires mn@[0] < self.det_jac@.len(), mn@[1] < self.det_jac@[mn@[0] as int]@.len()
        ensures r == self.det_jac@[mn@[0] as int]@[mn@[1] as int]
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::uv_ratio
//@@ params mn
        requires mn@[0] < self.jac@.len(), mn@[1] < self.jac@[mn@[0] as int]@.len(), self.jac_at(mn).a != 0real, self.jac_at(mn).d != 0real
        ensures r@ == self.jac_at(mn).a / self.jac_at(mn).d
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::vu_ratio
//@@ params mn
        requires mn@[0] < self.jac@.len(), mn@[1] < self.jac@[mn@[0] as int]@.len(), self.jac_at(mn).a != 0real, self.jac_at(mn).d != 0real
        ensures r@ == self.jac_at(mn).d / self.jac_at(mn).a
//@@ endfn
//@@ fn fem_domain/basis.rs HierCurlBasisFn::max_uv_ratio
//@@ params mn
        requires mn@[0] < self.jac@.len(), mn@[1] < self.jac@[mn@[0] as int]@.len(), self.jac_at(mn).a != 0real, self.jac_at(mn).d != 0real
        ensures r@ == (if self.jac_at(mn).a / self.jac_at(mn).d > self.jac_at(mn).d / self.jac_at(mn).a { self.jac_at(mn).a / self.jac_at(mn).d } else { self.jac_at(mn).d / self.jac_at(mn).a })
//@@ endfn
}
/// an optional cell
pub open spec fn cell_opt(o: Option<&Elem>) -> Option<Elem> { match o { Some(e) => Some(*e), None => None } }
pub trait HierBasisFn: Sized {
    /// made for the functions of a cell, over another cell (if any), at the points u x v up to the orders ij
    spec fn made(self, elem: Elem, over: Option<Elem>, u: Seq<F>, v: Seq<F>, im: int, jm: int, d2: bool) -> bool;
    spec fn makable(elem: Elem) -> bool;
    fn defined_over(elem: &Elem, desc_elem: Option<&Elem>, uv_points: [&[F]; 2], ij_orders: [usize; 2], compute_d2: bool) -> (r: Self)
        requires ij_orders@[0] < 1000000, ij_orders@[1] < 1000000, Self::makable(*elem)
        ensures r.made(*elem, cell_opt(desc_elem), uv_points@[0]@, uv_points@[1]@, ij_orders@[0] as int, ij_orders@[1] as int, compute_d2);
}
impl<BSpace: HierCurlBasisFnSpace> HierBasisFn for HierCurlBasisFn<BSpace> {
    open spec fn made(self, elem: Elem, over: Option<Elem>, u: Seq<F>, v: Seq<F>, im: int, jm: int, d2: bool) -> bool {
        &&& match over {
            Some(d) if d.id != elem.id => exists|k: int, up: Seq<F>, vp: Seq<F>| first_at(d.ancestors@, elem.id, k)
                && #[trigger] self.placed(walk(#[trigger] d.ancestors@.skip(k), unit_box()), u, v, up, vp) && self.on(up, vp, im + 1, jm + 1, d2),
            _ => self.on(u, v, im + 1, jm + 1, d2) && self.para_scale.at(0) == 1real && self.para_scale.at(1) == 1real,
        }
        &&& self.maps(cell_jac(elem))
    }
    open spec fn makable(elem: Elem) -> bool { cell_jac(elem).det() != 0real }
//@@ fn fem_domain/basis.rs HierBasisFn for HierCurlBasisFn::defined_over nopub
//@@ params elem, desc_elem, uv_points, ij_orders, compute_d2
//@@ tail
        proof {
            let (up, vp) = (u_points_scaled@, v_points_scaled@);
            let (u, v) = (uv_points@[0]@, uv_points@[1]@);
            if desc_elem is Some && desc_elem->0.id != elem.id {
                let d = desc_elem->0;
                assert(exists|k: int| first_at(d.ancestors@, elem.id, k) && __r.placed(walk(#[trigger] d.ancestors@.skip(k), unit_box()), u, v, up, vp));
                let k = choose|k: int| first_at(d.ancestors@, elem.id, k) && __r.placed(walk(#[trigger] d.ancestors@.skip(k), unit_box()), u, v, up, vp);
                assert(__r.placed(walk(d.ancestors@.skip(k), unit_box()), u, v, up, vp));
            } else {
                assert(up =~= u && vp =~= v);
            }
        }
//@@ acc 0 Vec<Vec<M2D>>
//@@ acc 1 Vec<M2D>
//@@ acc 2 Vec<Vec<M2D>>
//@@ acc 3 Vec<M2D>
//@@ acc 4 Vec<Vec<F>>
//@@ acc 5 Vec<F>
//@@ loop 0
        __a0@.len() == __i0, forall|m: int| 0 <= m < __i0 ==> (#[trigger] __a0@[m])@.len() == v_points_scaled@.len(),
        forall|m: int, n: int| 0 <= m < __i0 && 0 <= n < v_points_scaled@.len() ==> mat(#[trigger] __a0@[m]@[n]) == cell_jac(*elem),
//@@ loop 1
        __a1@.len() == __i1, forall|n: int| 0 <= n < __i1 ==> mat(#[trigger] __a1@[n]) == cell_jac(*elem),
//@@ loop 2
        __a2@.len() == __i2, forall|m: int| 0 <= m < __i2 ==> (#[trigger] __a2@[m])@.len() == v_points_scaled@.len(),
        forall|m: int, n: int| 0 <= m < __i2 && 0 <= n < v_points_scaled@.len() ==> mat(#[trigger] __a2@[m]@[n]) == cell_jac(*elem).adj().over(cell_jac(*elem).det()),
//@@ loop 3
        __a3@.len() == __i3, forall|n: int| 0 <= n < __i3 ==> mat(#[trigger] __a3@[n]) == cell_jac(*elem).adj().over(cell_jac(*elem).det()),
//@@ loopstart 3
        proof { assert(mat(t@[__i2 - 1]@[__i3 as int]) == cell_jac(*elem)); }
//@@ loop 4
        __a4@.len() == __i4, forall|m: int| 0 <= m < __i4 ==> (#[trigger] __a4@[m])@.len() == v_points_scaled@.len(),
        forall|m: int, n: int| 0 <= m < __i4 && 0 <= n < v_points_scaled@.len() ==> (#[trigger] __a4@[m]@[n])@ == cell_jac(*elem).det(),
//@@ loop 5
        __a5@.len() == __i5, forall|n: int| 0 <= n < __i5 ==> (#[trigger] __a5@[n])@ == cell_jac(*elem).det(),
//@@ loopstart 5
        proof { assert(mat(t@[__i4 - 1]@[__i5 as int]) == cell_jac(*elem)); }
//@@ endfn
}
/// the Jacobian of the cell's own range
pub open spec fn cell_jac(e: Elem) -> Mat {
    let b = walk(e.ancestors@, unit_box());
    e.element.jac(b.u.a, b.u.b, b.v.a, b.v.b)
}
impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
    pub open spec fn maps(self, j: Mat) -> bool {
        &&& forall|m: int, n: int| 0 <= m < self.jac@.len() && 0 <= n < self.jac@[m]@.len() ==> mat(#[trigger] self.jac@[m]@[n]) == j
        &&& forall|m: int, n: int| 0 <= m < self.jac_inv@.len() && 0 <= n < self.jac_inv@[m]@.len() ==> mat(#[trigger] self.jac_inv@[m]@[n]) == j.adj().over(j.det())
        &&& forall|m: int, n: int| 0 <= m < self.det_jac@.len() && 0 <= n < self.det_jac@[m]@.len() ==> (#[trigger] self.det_jac@[m]@[n])@ == j.det()
    }
    /// the points u x v moved affinely into the range b; the scale is half the size of the range
    pub open spec fn placed(self, b: Box2, u: Seq<F>, v: Seq<F>, up: Seq<F>, vp: Seq<F>) -> bool {
        &&& moved(b.u, u, up) && moved(b.v, v, vp)
        &&& self.para_scale.at(0) == (b.u.b - b.u.a) / 2real && self.para_scale.at(1) == (b.v.b - b.v.a) / 2real
    }
}
pub open spec fn moved(r: Rg, u: Seq<F>, up: Seq<F>) -> bool { up.len() == u.len() && forall|k: int| 0 <= k < u.len() ==> (#[trigger] up[k])@ == aff(r, u[k]@) }
}
verus! {
impl Elem {
//@@ fn fem_domain/domain/mesh/elem.rs Elem::parametric_mapping
//@@ params parametric_point, over_range
        ensures mat(r) == self.element.jac(over_range@[0]@[0]@, over_range@[0]@[1]@, over_range@[1]@[0]@, over_range@[1]@[1]@)
//@@ endfn
}
}
