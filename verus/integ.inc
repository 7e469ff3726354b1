verus! {
//@@ inline fem_problem/integration/integrals.rs CURL_OP
//@@ inline fem_problem/integration/integrals.rs EDGE_UNIT_VECTORS

//@@ enum fem_problem/integration.rs IntegralResult
// ------------------------------------------------------------------ specification: integrals of pairs of basis functions
impl IntegralResult {
    /// the whole integral: the face and the four edges, or all at once
    pub open spec fn total(self) -> real {
        match self { IntegralResult::Full(x) => x@, IntegralResult::ByParts(f, e) => f@ + (e@[0]@ + e@[1]@ + e@[2]@ + e@[3]@) }
    }
//@@ fn fem_problem/integration.rs IntegralResult::full_solution
        ensures r@ == self.total()
//@@ acc 0 F
//@@ loop 0
        __a0@ == esum(edges, __i0 as int),
//@@ loopafter 0
        proof { reveal_with_fuel(esum, 6); }
//@@ endfn
}
pub open spec fn esum(e: [F; 4], n: int) -> real decreases n { if n <= 0 { 0real } else { esum(e, n - 1) + e@[n - 1]@ } }
/// what a pair of functions is tabulated over: points, orders below im and jm
pub struct Tab { pub up: Seq<F>, pub vp: Seq<F>, pub im: int, pub jm: int, pub d2: bool }
impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
    pub open spec fn tab(self, t: Tab, ij: [usize; 2], nu: int, nv: int) -> bool {
        &&& self.on(t.up, t.vp, t.im, t.jm, t.d2) && ij@[0] < t.im && ij@[1] < t.jm && t.up.len() == nu && t.vp.len() == nv
        &&& forall|m: int, n: int| 0 <= m < nu && 0 <= n < nv ==> (#[trigger] self.det_jac@[m]@[n])@ > 0real
        &&& forall|m: int, n: int| 0 <= m < nu && 0 <= n < nv ==> mat(#[trigger] self.jac@[m]@[n]).a != 0real && mat(self.jac@[m]@[n]).d != 0real
    }
    pub open spec fn inv_mn(self, m: int, n: int) -> Mat { mat(self.jac_inv@[m]@[n]) }
    pub open spec fn jac_mn(self, m: int, n: int) -> Mat { mat(self.jac@[m]@[n]) }
    pub open spec fn det_mn(self, m: int, n: int) -> real { self.det_jac@[m]@[n]@ }
    /// the function of direction d and orders ij at the point m, n (in real space)
    pub open spec fn fld(self, t: Tab, d: BasisDir, ij: [usize; 2], m: int, n: int) -> (real, real) {
        let (x, y, i, j, k) = (t.up[m]@, t.vp[n]@, ij@[0] as int, ij@[1] as int, self.inv_mn(m, n));
        match d {
            BasisDir::U => (k.a * BSpace::nn(x, i) * BSpace::tt(y, j), k.b * BSpace::nn(x, i) * BSpace::tt(y, j)),
            BasisDir::V => (k.c * BSpace::tt(x, i) * BSpace::nn(y, j), k.d * BSpace::tt(x, i) * BSpace::nn(y, j)),
            BasisDir::W => (0real, 0real),
        }
    }
    /// its derivatives in the parametric directions (v, u) scaled by s
    pub open spec fn der(self, t: Tab, d: BasisDir, ij: [usize; 2], m: int, n: int, s: V2D) -> (real, real) {
        let (x, y, i, j, k) = (t.up[m]@, t.vp[n]@, ij@[0] as int, ij@[1] as int, self.inv_mn(m, n));
        match d {
            BasisDir::U => (k.a * (BSpace::nn(x, i) * BSpace::tt1(y, j)) * s.at(0), k.b * (BSpace::nn1(x, i) * BSpace::tt(y, j)) * s.at(1)),
            BasisDir::V => (k.c * (BSpace::tt(x, i) * BSpace::nn1(y, j)) * s.at(0), k.d * (BSpace::tt1(x, i) * BSpace::nn(y, j)) * s.at(1)),
            BasisDir::W => (0real, 0real),
        }
    }
}
pub open spec fn dot2(p: (real, real), q: (real, real)) -> real { p.0 * q.0 + p.1 * q.1 }
pub open spec fn rmax(a: real, b: real) -> real { if a > b { a } else { b } }
pub open spec fn flat(d: BasisDir) -> bool { d == BasisDir::U || d == BasisDir::V }
pub open spec fn mn(m: usize, n: usize) -> [usize; 2] { [m, n] }
/// the pair can be integrated: both tables cover the orders and the weights
pub open spec fn pair_ok<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, po: [usize; 2], qo: [usize; 2], w: (Seq<F>, Seq<F>)) -> bool {
    p.tab(tp, po, w.0.len() as int, w.1.len() as int) && q.tab(tq, qo, w.0.len() as int, w.1.len() as int)
}
/// a grid point
pub open spec fn pt(x: [usize; 2]) -> bool { true }
pub open spec fn covered<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, po: [usize; 2], qo: [usize; 2], w: (Seq<F>, Seq<F>)) -> bool {
    forall|tp: Tab, tq: Tab, x: [usize; 2]| #[trigger] pair_ok(p, q, tp, tq, po, qo, w) && #[trigger] pt(x) && x@[0] < w.0.len() && x@[1] < w.1.len() ==>
        p.at(tp.up, tp.vp, tp.im, tp.jm, tp.d2, po, x) && q.at(tq.up, tq.vp, tq.im, tq.jm, tq.d2, qo, x)
}
/// the sum over the grid
pub open spec fn whole_grid(w: (Seq<F>, Seq<F>), g: G) -> real { grid(w.0, w.1, g, 0, w.0.len() as int, 0, w.1.len() as int) }
/// q lives on a part of p's cell, p is evaluated on that part: the Jacobians are diagonal, q's is p's scaled by p's scale
pub open spec fn nested<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, jp: Mat, jq: Mat) -> bool {
    &&& p.maps(jp) && q.maps(jq)
    &&& jp.b == 0real && jp.c == 0real && jq.b == 0real && jq.c == 0real && jp.a > 0real && jp.d > 0real
    &&& 0real < p.para_scale.at(0) <= 1real && 0real < p.para_scale.at(1) <= 1real && q.para_scale.at(0) == 1real && q.para_scale.at(1) == 1real
    &&& jq.a == p.para_scale.at(0) * jp.a && jq.d == p.para_scale.at(1) * jp.d
}
/// the curl of a function in real space: the derivatives of its components divided by the extents
pub open spec fn curl_pt<B: HierCurlBasisFnSpace>(j: Mat, d: BasisDir, ij: [usize; 2], x: real, y: real) -> real {
    let (i, k) = (ij@[0] as int, ij@[1] as int);
    match d {
        BasisDir::U => 0real - B::nn(x, i) * B::tt1(y, k) / (j.a * j.d),
        BasisDir::V => B::tt1(x, i) * B::nn(y, k) / (j.a * j.d),
        BasisDir::W => 0real,
    }
}
/// a function in real space
pub open spec fn field_pt<B: HierCurlBasisFnSpace>(j: Mat, d: BasisDir, ij: [usize; 2], x: real, y: real) -> (real, real) {
    let (i, k) = (ij@[0] as int, ij@[1] as int);
    match d {
        BasisDir::U => (B::nn(x, i) * B::tt(y, k) / j.a, 0real),
        BasisDir::V => (0real, B::tt(x, i) * B::nn(y, k) / j.d),
        BasisDir::W => (0real, 0real),
    }
}
pub open spec fn curl_of<B: HierCurlBasisFnSpace>(t: Tab, j: Mat, d: BasisDir, ij: [usize; 2], m: int, n: int) -> real { curl_pt::<B>(j, d, ij, t.up[m]@, t.vp[n]@) }
pub open spec fn field_of<B: HierCurlBasisFnSpace>(t: Tab, j: Mat, d: BasisDir, ij: [usize; 2], m: int, n: int) -> (real, real) { field_pt::<B>(j, d, ij, t.up[m]@, t.vp[n]@) }
/// the contract of an integrator
pub trait HierCurlIntegral: Sized {
    spec fn weights(&self) -> (Seq<F>, Seq<F>);
    /// the integral of a pair of tabulated functions
    spec fn value<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), p_dir: BasisDir, q_dir: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, ma: Materials) -> real;
    spec fn usable(ma: Materials) -> bool;
    /// what is integrated: at the point (xp, yp) of p's cell, which is the point (xq, yq) of q's
    spec fn density<B: HierCurlBasisFnSpace>(ma: Materials, jp: Mat, jq: Mat, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], xp: real, yp: real, xq: real, yq: real) -> real;
    /// the integral is the quadrature of that
    proof /* of each implementation */ fn meaning<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, jp: Mat, jq: Mat, ma: Materials, g: G)
        requires pair_ok(p, q, tp, tq, po, qo, w), nested(p, q, jp, jq), flat(pd), flat(qd),
            forall|m: int, n: int| 0 <= m < w.0.len() && 0 <= n < w.1.len() ==> #[trigger] g(m, n) == Self::density::<B>(ma, jp, jq, pd, qd, po, qo, tp.up[m]@, tp.vp[n]@, tq.up[m]@, tq.vp[n]@)
        ensures Self::value(w, pd, qd, po, qo, p, q, tp, tq, ma) == whole_grid(w, g);
    fn with_weights(u_weights: &[F], v_weights: &[F]) -> (r: Self)
        ensures r.weights() == (u_weights@, v_weights@);
    fn integrate<BSpace: HierCurlBasisFnSpace>(&self, p_dir: BasisDir, q_dir: BasisDir, p_orders: [usize; 2], q_orders: [usize; 2], p_basis: &HierCurlBasisFn<BSpace>, q_basis: &HierCurlBasisFn<BSpace>, materials: &Materials) -> (r: IntegralResult)
        requires exists|tp: Tab, tq: Tab| #[trigger] pair_ok(*p_basis, *q_basis, tp, tq, p_orders, q_orders, self.weights()), Self::usable(*materials)
        ensures forall|tp: Tab, tq: Tab| #[trigger] pair_ok(*p_basis, *q_basis, tp, tq, p_orders, q_orders, self.weights()) ==>
            r.total() == Self::value(self.weights(), p_dir, q_dir, p_orders, q_orders, *p_basis, *q_basis, tp, tq, *materials);
}
/// the integrand of the mass integral
pub open spec fn mass_at<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], m: int, n: int) -> real {
    dot2(p.fld(tp, pd, po, m, n), q.fld(tq, qd, qo, m, n)) * rmax(p.det_mn(m, n), q.det_mn(m, n))
}
pub open spec fn mass_fn<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2]) -> G { |m: int, n: int| mass_at(p, q, tp, tq, pd, qd, po, qo, m, n) }
//@@ struct fem_problem/integration/integrals.rs L2Inner
impl HierCurlIntegral for L2Inner {
    open spec fn weights(&self) -> (Seq<F>, Seq<F>) { (self.u_weights@, self.v_weights@) }
    open spec fn value<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), p_dir: BasisDir, q_dir: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, ma: Materials) -> real {
        ma.eps_rel.re@ * (p.para_scale.at(0) * p.para_scale.at(1)) * (q.para_scale.at(0) * q.para_scale.at(1))
            * (if flat(p_dir) && flat(q_dir) { whole_grid(w, mass_fn(p, q, tp, tq, p_dir, q_dir, po, qo)) } else { 0real })
    }
    open spec fn usable(ma: Materials) -> bool { true }
    open spec fn density<B: HierCurlBasisFnSpace>(ma: Materials, jp: Mat, jq: Mat, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], xp: real, yp: real, xq: real, yq: real) -> real {
        ma.eps_rel.re@ * (dot2(field_pt::<B>(jp, pd, po, xp, yp), field_pt::<B>(jq, qd, qo, xq, yq)) * (jq.a * jq.d))
    }
    proof fn meaning<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, jp: Mat, jq: Mat, ma: Materials, g: G)
    {
        theorem_mass(w, pd, qd, po, qo, p, q, tp, tq, jp, jq, ma);
        grid_scale(w.0, w.1, true_mass::<B>(tp, tq, jp, jq, pd, qd, po, qo), g, ma.eps_rel.re@, w.0.len() as int, w.1.len() as int);
    }
//@@ fn fem_problem/integration/integrals.rs HierCurlIntegral for inner::L2Inner::with_weights nopub
//@@ params u_weights, v_weights
//@@ endfn
//@@ fn fem_problem/integration/integrals.rs HierCurlIntegral for inner::L2Inner::integrate nopub
//@@ params p_dir, q_dir, p_orders, q_orders, p_basis, q_basis, materials
//@@ start
        assert(covered(*p_basis, *q_basis, p_orders, q_orders, self.weights()));
//@@ closure * m: usize, n: usize -> r: F
        requires m < self.u_weights@.len(), n < self.v_weights@.len(), pt(mn(m, n))
        ensures forall|tp: Tab, tq: Tab| #[trigger] pair_ok(*p_basis, *q_basis, tp, tq, p_orders, q_orders, self.weights()) ==>
            r@ == mass_at(*p_basis, *q_basis, tp, tq, p_dir, q_dir, p_orders, q_orders, m as int, n as int)
//@@ closureafter *
        proof {
            assert forall|tp: Tab, tq: Tab| #[trigger] pair_ok(*p_basis, *q_basis, tp, tq, p_orders, q_orders, self.weights()) implies
                computes(__c, mass_fn(*p_basis, *q_basis, tp, tq, p_dir, q_dir, p_orders, q_orders)) by {}
        }
//@@ endfn
}
//@@ fn fem_problem/integration/integrals.rs inner::partial_max
//@@ params v1, v2
        ensures r@ == rmax(v1@, v2@)
//@@ endfn
}
verus! {
// ------------------------------------------------------------------ the curl integral
pub open spec fn rot(d: (real, real)) -> real { d.0 * (0real - 1real) + d.1 * 1real }
pub proof fn select(x: real, y: real) ensures 1real * x == x, 0real * x == 0real, 1real * y == y, 0real * y == 0real {}
pub open spec fn ratio<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, d: BasisDir, m: int, n: int) -> real {
    let j = if p.det_mn(m, n) >= q.det_mn(m, n) { p.jac_mn(m, n) } else { q.jac_mn(m, n) };
    if d == BasisDir::U { j.a / j.d } else { j.d / j.a }
}
pub open spec fn curl_at<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], m: int, n: int) -> real {
    let x = rot(p.der(tp, pd, po, m, n, q.para_scale)) * rot(q.der(tq, qd, qo, m, n, p.para_scale));
    if pd == qd { x * ratio(p, q, pd, m, n) } else { x }
}
pub open spec fn curl_fn<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2]) -> G { |m: int, n: int| curl_at(p, q, tp, tq, pd, qd, po, qo, m, n) }
//@@ struct fem_problem/integration/integrals.rs CurlCurl
impl HierCurlIntegral for CurlCurl {
    open spec fn weights(&self) -> (Seq<F>, Seq<F>) { (self.u_weights@, self.v_weights@) }
    open spec fn value<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), p_dir: BasisDir, q_dir: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, ma: Materials) -> real {
        (1real / ma.mu_rel.re@) * (if flat(p_dir) && flat(q_dir) { whole_grid(w, curl_fn(p, q, tp, tq, p_dir, q_dir, po, qo)) } else { 0real })
    }
    open spec fn usable(ma: Materials) -> bool { ma.mu_rel.re@ != 0real }
    open spec fn density<B: HierCurlBasisFnSpace>(ma: Materials, jp: Mat, jq: Mat, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], xp: real, yp: real, xq: real, yq: real) -> real {
        (1real / ma.mu_rel.re@) * (curl_pt::<B>(jp, pd, po, xp, yp) * curl_pt::<B>(jq, qd, qo, xq, yq) * (jq.a * jq.d))
    }
    proof fn meaning<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, jp: Mat, jq: Mat, ma: Materials, g: G)
    {
        theorem_curl(w, pd, qd, po, qo, p, q, tp, tq, jp, jq, ma);
        grid_scale(w.0, w.1, true_curl::<B>(tp, tq, jp, jq, pd, qd, po, qo), g, 1real / ma.mu_rel.re@, w.0.len() as int, w.1.len() as int);
    }
//@@ fn fem_problem/integration/integrals.rs HierCurlIntegral for curl_curl::CurlCurl::with_weights nopub
//@@ params u_weights, v_weights
//@@ endfn
//@@ fn fem_problem/integration/integrals.rs HierCurlIntegral for curl_curl::CurlCurl::integrate nopub
//@@ params p_dir, q_dir, p_orders, q_orders, p_basis, q_basis, materials
//@@ start
        assert(covered(*p_basis, *q_basis, p_orders, q_orders, self.weights()));
//@@ closure * m: usize, n: usize -> r: F
        requires m < self.u_weights@.len(), n < self.v_weights@.len(), pt(mn(m, n))
        ensures forall|tp: Tab, tq: Tab| #[trigger] pair_ok(*p_basis, *q_basis, tp, tq, p_orders, q_orders, self.weights()) ==>
            r@ == curl_at(*p_basis, *q_basis, tp, tq, p_dir, q_dir, p_orders, q_orders, m as int, n as int)
//@@ closureafter *
        proof {
            assert forall|tp: Tab, tq: Tab| #[trigger] pair_ok(*p_basis, *q_basis, tp, tq, p_orders, q_orders, self.weights()) implies
                computes(__c, curl_fn(*p_basis, *q_basis, tp, tq, p_dir, q_dir, p_orders, q_orders)) by {}
        }
//@@ endfn
}
//@@ fn fem_problem/integration/integrals.rs curl_curl::max_uv_ratios
//@@ params p_basis, q_basis, mn
        requires mn@[0] < p_basis.jac@.len(), mn@[1] < p_basis.jac@[mn@[0] as int]@.len(), p_basis.jac_at(mn).a != 0real, p_basis.jac_at(mn).d != 0real,
            mn@[0] < q_basis.jac@.len(), mn@[1] < q_basis.jac@[mn@[0] as int]@.len(), q_basis.jac_at(mn).a != 0real, q_basis.jac_at(mn).d != 0real,
            mn@[0] < p_basis.det_jac@.len(), mn@[1] < p_basis.det_jac@[mn@[0] as int]@.len(), mn@[0] < q_basis.det_jac@.len(), mn@[1] < q_basis.det_jac@[mn@[0] as int]@.len()
        ensures r@ == ratio(*p_basis, *q_basis, BasisDir::U, mn@[0] as int, mn@[1] as int)
//@@ start
        proof { select(p_basis.jac_at(mn).a / p_basis.jac_at(mn).d, q_basis.jac_at(mn).a / q_basis.jac_at(mn).d); }
//@@ endfn
//@@ fn fem_problem/integration/integrals.rs curl_curl::max_vu_ratios
//@@ params p_basis, q_basis, mn
        requires mn@[0] < p_basis.jac@.len(), mn@[1] < p_basis.jac@[mn@[0] as int]@.len(), p_basis.jac_at(mn).a != 0real, p_basis.jac_at(mn).d != 0real,
            mn@[0] < q_basis.jac@.len(), mn@[1] < q_basis.jac@[mn@[0] as int]@.len(), q_basis.jac_at(mn).a != 0real, q_basis.jac_at(mn).d != 0real,
            mn@[0] < p_basis.det_jac@.len(), mn@[1] < p_basis.det_jac@[mn@[0] as int]@.len(), mn@[0] < q_basis.det_jac@.len(), mn@[1] < q_basis.det_jac@[mn@[0] as int]@.len()
        ensures r@ == ratio(*p_basis, *q_basis, BasisDir::V, mn@[0] as int, mn@[1] as int)
//@@ start
        proof { select(p_basis.jac_at(mn).d / p_basis.jac_at(mn).a, q_basis.jac_at(mn).d / q_basis.jac_at(mn).a); }
//@@ endfn
}
verus! {
// ------------------------------------------------------------------ what the integrals mean
/// quadrature of the physical inner product over q's cell
pub open spec fn true_mass<B: HierCurlBasisFnSpace>(tp: Tab, tq: Tab, jp: Mat, jq: Mat, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2]) -> G {
    |m: int, n: int| dot2(field_of::<B>(tp, jp, pd, po, m, n), field_of::<B>(tq, jq, qd, qo, m, n)) * (jq.a * jq.d)
}
/// quadrature of the inner product of the curls over q's cell
pub open spec fn true_curl<B: HierCurlBasisFnSpace>(tp: Tab, tq: Tab, jp: Mat, jq: Mat, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2]) -> G {
    |m: int, n: int| curl_of::<B>(tp, jp, pd, po, m, n) * curl_of::<B>(tq, jq, qd, qo, m, n) * (jq.a * jq.d)
}
pub proof fn grid_scale(u: Seq<F>, v: Seq<F>, g: G, h: G, c: real, hi: int, vhi: int)
    requires 0 <= hi <= u.len(), 0 <= vhi <= v.len(), forall|m: int, n: int| 0 <= m < u.len() && 0 <= n < v.len() ==> #[trigger] h(m, n) == c * g(m, n)
    ensures grid(u, v, h, 0, hi, 0, vhi) == c * grid(u, v, g, 0, hi, 0, vhi)
    decreases hi
{
    if hi > 0 {
        grid_scale(u, v, g, h, c, hi - 1, vhi);
        row_scale(v, g, h, c, hi - 1, vhi);
        let (x, y, w) = (grid(u, v, g, 0, hi - 1, 0, vhi), row(v, g, hi - 1, 0, vhi), u[hi - 1]@);
        assert((c * y) * w == c * (y * w)) by (nonlinear_arith);
        let z = y * w;
        assert(c * (x + z) == c * x + c * z) by (nonlinear_arith);
    } else { assert(c * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn row_scale(v: Seq<F>, g: G, h: G, c: real, m: int, hi: int)
    requires 0 <= hi <= v.len(), forall|n: int| 0 <= n < v.len() ==> #[trigger] h(m, n) == c * g(m, n)
    ensures row(v, h, m, 0, hi) == c * row(v, g, m, 0, hi)
    decreases hi
{
    if hi > 0 {
        row_scale(v, g, h, c, m, hi - 1);
        let (x, y, w) = (row(v, g, m, 0, hi - 1), g(m, hi - 1), v[hi - 1]@);
        assert(h(m, hi - 1) == c * y);
        assert((c * y) * w == c * (y * w)) by (nonlinear_arith);
        let z = y * w;
        assert(c * (x + z) == c * x + c * z) by (nonlinear_arith);
    } else { assert(c * 0real == 0real) by (nonlinear_arith); }
}
/// the inverse of a diagonal Jacobian
pub proof fn inv_diag(j: Mat)
    requires j.b == 0real, j.c == 0real, j.a > 0real, j.d > 0real
    ensures j.adj().over(j.det()).a == 1real / j.a, j.adj().over(j.det()).b == 0real, j.adj().over(j.det()).c == 0real, j.adj().over(j.det()).d == 1real / j.d,
        j.det() == j.a * j.d, j.det() > 0real
{
    let (a, d) = (j.a, j.d);
    assert(j.det() == a * d) by { assert(0real * 0real == 0real) by (nonlinear_arith); }
    assert(a * d > 0real) by (nonlinear_arith) requires a > 0real, d > 0real;
    assert(d / (a * d) == 1real / a) by (nonlinear_arith) requires a > 0real, d > 0real, a * d > 0real;
    assert(a / (a * d) == 1real / d) by (nonlinear_arith) requires a > 0real, d > 0real, a * d > 0real;
    let x = a * d;
    assert(0real / x == 0real) by (nonlinear_arith) requires x > 0real;
    assert((0real - 0real) / x == 0real);
}
}
verus! {
pub proof fn fpart(i: real, x: real, y: real, a: real)
    requires a > 0real, i == 1real / a
    ensures i * x * y == x * y / a, 0real * x * y == 0real
{
    let z = x * y;
    assert(i * x * y == i * z) by (nonlinear_arith) requires z == x * y;
    assert(i * z == z / a) by (nonlinear_arith) requires a > 0real, i == 1real / a;
    assert(0real * x * y == 0real) by (nonlinear_arith);
}
pub proof fn fld_is<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, t: Tab, j: Mat, d: BasisDir, ij: [usize; 2], nu: int, nv: int, m: int, n: int)
    requires p.tab(t, ij, nu, nv), p.maps(j), j.b == 0real, j.c == 0real, j.a > 0real, j.d > 0real, 0 <= m < nu, 0 <= n < nv
    ensures p.fld(t, d, ij, m, n) == field_of::<B>(t, j, d, ij, m, n), p.det_mn(m, n) == j.a * j.d, p.jac_mn(m, n) == j
{
    inv_diag(j);
    let (x, y, i, k) = (t.up[m]@, t.vp[n]@, ij@[0] as int, ij@[1] as int);
    assert(mat(p.jac_inv@[m]@[n]) == j.adj().over(j.det()));
    assert(mat(p.jac@[m]@[n]) == j);
    assert(p.det_jac@[m]@[n]@ == j.det());
    fpart(1real / j.a, B::nn(x, i), B::tt(y, k), j.a);
    fpart(1real / j.d, B::tt(x, i), B::nn(y, k), j.d);
    fpart(1real / j.d, B::nn(x, i), B::tt(y, k), j.d);
    fpart(1real / j.a, B::tt(x, i), B::nn(y, k), j.a);
}
pub proof fn shrink(s: real, t: real, a: real, d: real)
    requires 0real < s <= 1real, 0real < t <= 1real, a > 0real, d > 0real
    ensures (s * a) * (t * d) == (s * t) * (a * d), (s * a) * (t * d) <= a * d, s * a > 0real, t * d > 0real
{
    assert((s * a) * (t * d) == (s * t) * (a * d)) by (nonlinear_arith);
    assert(a * d > 0real) by (nonlinear_arith) requires a > 0real, d > 0real;
    assert(s * t <= 1real) by (nonlinear_arith) requires 0real < s <= 1real, 0real < t <= 1real;
    let (c, x) = (s * t, a * d);
    assert(c * x <= x) by (nonlinear_arith) requires c <= 1real, x > 0real;
    assert(s * a > 0real) by (nonlinear_arith) requires s > 0real, a > 0real;
    assert(t * d > 0real) by (nonlinear_arith) requires t > 0real, d > 0real;
}
/// THEOREM (P17): the mass integral is the quadrature, over the smaller cell, of the inner product of the two functions in real space
pub proof fn theorem_mass<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, jp: Mat, jq: Mat, ma: Materials)
    requires pair_ok(p, q, tp, tq, po, qo, w), nested(p, q, jp, jq), flat(pd), flat(qd)
    ensures L2Inner::value(w, pd, qd, po, qo, p, q, tp, tq, ma) == ma.eps_rel.re@ * whole_grid(w, true_mass::<B>(tp, tq, jp, jq, pd, qd, po, qo))
{
    let (s, t, nu, nv) = (p.para_scale.at(0), p.para_scale.at(1), w.0.len() as int, w.1.len() as int);
    shrink(s, t, jp.a, jp.d);
    let c = s * t;
    let (g, h) = (mass_fn(p, q, tp, tq, pd, qd, po, qo), true_mass::<B>(tp, tq, jp, jq, pd, qd, po, qo));
    assert forall|m: int, n: int| 0 <= m < nu && 0 <= n < nv implies #[trigger] h(m, n) == c * g(m, n) by {
        fld_is(p, tp, jp, pd, po, nu, nv, m, n);
        fld_is(q, tq, jq, qd, qo, nu, nv, m, n);
        let (e, x) = (dot2(p.fld(tp, pd, po, m, n), q.fld(tq, qd, qo, m, n)), jp.a * jp.d);
        assert(g(m, n) == e * x);
        assert(h(m, n) == e * (c * x));
        assert(e * (c * x) == c * (e * x)) by (nonlinear_arith);
    }
    grid_scale(w.0, w.1, g, h, c, nu, nv);
    let (e, x) = (ma.eps_rel.re@, whole_grid(w, g));
    assert(1real * 1real == 1real);
    assert(e * c * 1real * x == e * (c * x)) by (nonlinear_arith);
}
pub proof fn pull(k: real, x: real, y: real, s: real) ensures k * (x * y) * s == (k * s) * (x * y), 0real * (x * y) * s == 0real
{ let z = x * y; assert(k * z * s == (k * s) * z) by (nonlinear_arith); assert(0real * z * s == 0real) by (nonlinear_arith); }
pub proof fn recip(a: real) requires a > 0real ensures (1real / a) * a == 1real
{
    let u = 1real / a;
    assert(u * a == 1real) by (nonlinear_arith) requires a > 0real, u == 1real / a;
}
pub proof fn quot(z: real, a: real, u: real) requires a > 0real, u * a == 1real ensures z / a == z * u
{
    let q = z / a;
    assert(q * a == z) by (nonlinear_arith) requires q == z / a, a > 0real;
    assert(z * u == (q * a) * u);
    assert((q * a) * u == q * (u * a)) by (nonlinear_arith);
}
pub proof fn three(a: real, b: real, c: real) ensures a * b * c == a * (b * c), a * b == b * a, (a * b) * c == (a * c) * b
{ assert(a * b * c == a * (b * c)) by (nonlinear_arith); assert((a * b) * c == (a * c) * b) by (nonlinear_arith); }
/// 1/(s a) * s == 1/a
pub proof fn unscale(s: real, a: real) requires s > 0real, a > 0real, s * a > 0real ensures (1real / (s * a)) * s == 1real / a
{
    let (as_, u) = (s * a, 1real / a);
    let r = 1real / as_;
    recip(as_); recip(a);
    three(r, s, a);
    assert((r * s) * a == 1real);
    let k = r * s;
    quot(1real, a, u); quot(1real, a, k);
}
pub proof fn prod4(u: real, x: real, v: real, y: real) ensures (u * x) * (v * y) == (u * v) * (x * y)
{ assert((u * x) * (v * y) == (u * v) * (x * y)) by (nonlinear_arith); }
/// the factors of the curl integrand, and the four ways they combine
pub proof fn curl_factors(x: real, y: real, a: real, d: real, s: real, t: real)
    requires a > 0real, d > 0real, s > 0real, t > 0real, s * a > 0real, t * d > 0real, a * d > 0real
    ensures
        ((1real / a) * x) * (((1real / (s * a)) * s) * y) * (a / d) == x * y / (a * d),
        ((1real / d) * x) * (((1real / (t * d)) * t) * y) * (d / a) == x * y / (a * d),
        ((1real / a) * x) * (((1real / (t * d)) * t) * y) == x * y / (a * d),
        ((1real / d) * x) * (((1real / (s * a)) * s) * y) == x * y / (a * d),
        (x / (a * d)) * (y / ((s * a) * (t * d))) * ((s * a) * (t * d)) == x * y / (a * d),
{
    let (u, v, as_, dt, ad, z) = (1real / a, 1real / d, s * a, t * d, a * d, x * y);
    let k = u * v;
    recip(a); recip(d);
    unscale(s, a); unscale(t, d);
    // 1 / (a d) == u v
    prod4(u, v, a, d);
    prod4(u, a, v, d);
    assert(k * ad == 1real) by { assert((u * a) * (v * d) == 1real * 1real); assert((u * v) * (a * d) == (u * a) * (v * d)) by { prod4(u, v, a, d); prod4(u, a, v, d); } }
    quot(z, ad, k);
    three(z, k, 1real);
    prod4(u, x, u, y); prod4(v, x, v, y); prod4(u, x, v, y); prod4(v, x, u, y);
    three(u, v, 1real);
    quot(a, d, v); quot(d, a, u);
    // (u u) z (a v) == (u a) (u v) z
    three(u * u, z, a * v); prod4(u, u, a, v);
    assert((u * u) * (a * v) == (u * a) * (u * v));
    three(v * v, z, d * u); prod4(v, v, d, u);
    assert((v * v) * (d * u) == (v * d) * (v * u));
    three(k, z, 1real);
    let e = as_ * dt;
    assert(e > 0real) by (nonlinear_arith) requires e == as_ * dt, as_ > 0real, dt > 0real;
    let (f, q) = (x / ad, y / e);
    recip(e);
    let r = 1real / e;
    quot(y, e, r);
    three(y, r, e);
    assert(q * e == y);
    three(f, q, e);
    quot(x, ad, k);
    three(x, k, y);
}
pub proof fn der_is<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, t: Tab, j: Mat, d: BasisDir, ij: [usize; 2], nu: int, nv: int, m: int, n: int, s: V2D)
    requires p.tab(t, ij, nu, nv), p.maps(j), j.b == 0real, j.c == 0real, j.a > 0real, j.d > 0real, 0 <= m < nu, 0 <= n < nv, flat(d)
    ensures rot(p.der(t, d, ij, m, n, s)) == (if d == BasisDir::U { 0real - ((1real / j.a) * s.at(0)) * (B::nn(t.up[m]@, ij@[0] as int) * B::tt1(t.vp[n]@, ij@[1] as int)) }
        else { ((1real / j.d) * s.at(1)) * (B::tt1(t.up[m]@, ij@[0] as int) * B::nn(t.vp[n]@, ij@[1] as int)) })
{
    inv_diag(j);
    let (x, y, i, k) = (t.up[m]@, t.vp[n]@, ij@[0] as int, ij@[1] as int);
    assert(mat(p.jac_inv@[m]@[n]) == j.adj().over(j.det()));
    pull(1real / j.a, B::nn(x, i), B::tt1(y, k), s.at(0));
    pull(1real / j.a, B::nn1(x, i), B::tt(y, k), s.at(1));
    pull(1real / j.d, B::tt(x, i), B::nn1(y, k), s.at(0));
    pull(1real / j.d, B::tt1(x, i), B::nn(y, k), s.at(1));
}
}
verus! {
pub proof fn curl_point<B: HierCurlBasisFnSpace>(p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, jp: Mat, jq: Mat, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], w: (Seq<F>, Seq<F>), m: int, n: int)
    requires pair_ok(p, q, tp, tq, po, qo, w), nested(p, q, jp, jq), flat(pd), flat(qd), 0 <= m < w.0.len(), 0 <= n < w.1.len()
    ensures curl_at(p, q, tp, tq, pd, qd, po, qo, m, n) == curl_of::<B>(tp, jp, pd, po, m, n) * curl_of::<B>(tq, jq, qd, qo, m, n) * (jq.a * jq.d)
{
    let (s, t, nu, nv, a, d) = (p.para_scale.at(0), p.para_scale.at(1), w.0.len() as int, w.1.len() as int, jp.a, jp.d);
    shrink(s, t, a, d);
    assert(a * d > 0real) by (nonlinear_arith) requires a > 0real, d > 0real;
    fld_is(p, tp, jp, pd, po, nu, nv, m, n);
    fld_is(q, tq, jq, qd, qo, nu, nv, m, n);
    der_is(p, tp, jp, pd, po, nu, nv, m, n, q.para_scale);
    der_is(q, tq, jq, qd, qo, nu, nv, m, n, p.para_scale);
    let x = if pd == BasisDir::U { B::nn(tp.up[m]@, po@[0] as int) * B::tt1(tp.vp[n]@, po@[1] as int) } else { B::tt1(tp.up[m]@, po@[0] as int) * B::nn(tp.vp[n]@, po@[1] as int) };
    let y = if qd == BasisDir::U { B::nn(tq.up[m]@, qo@[0] as int) * B::tt1(tq.vp[n]@, qo@[1] as int) } else { B::tt1(tq.up[m]@, qo@[0] as int) * B::nn(tq.vp[n]@, qo@[1] as int) };
    curl_factors(x, y, a, d, s, t);
    let (rp, rq, k) = (rot(p.der(tp, pd, po, m, n, q.para_scale)), rot(q.der(tq, qd, qo, m, n, p.para_scale)), ratio(p, q, pd, m, n));
    let (fp, fq, e) = (x / (a * d), y / (jq.a * jq.d), jq.a * jq.d);
    if pd == BasisDir::U {
        let xp = (1real / a) * x;
        assert((1real / a) * 1real == 1real / a);
        assert(rp == 0real - xp);
        if qd == BasisDir::U {
            let xq = ((1real / (s * a)) * s) * y;
            assert(rq == 0real - xq);
            signs(xp, xq, k); signs(fp, fq, e);
        } else {
            let xq = ((1real / (t * d)) * t) * y;
            assert(rq == xq);
            signs(xp, xq, k); signs(fp, fq, e);
        }
    } else {
        let xp = (1real / d) * x;
        assert((1real / d) * 1real == 1real / d);
        assert(rp == xp);
        if qd == BasisDir::U {
            let xq = ((1real / (s * a)) * s) * y;
            assert(rq == 0real - xq);
            signs(xp, xq, k); signs(fp, fq, e);
        } else {
            assert(rq == ((1real / (t * d)) * t) * y);
        }
    }
}
pub proof fn signs(x: real, y: real, k: real)
    ensures (0real - x) * (0real - y) * k == x * y * k, (0real - x) * y * k == 0real - x * y * k, x * (0real - y) * k == 0real - x * y * k,
        (0real - x) * y == 0real - x * y, x * (0real - y) == 0real - x * y
{
    assert((0real - x) * (0real - y) == x * y) by (nonlinear_arith);
    let z = x * y;
    assert((0real - x) * y == 0real - z) by (nonlinear_arith) requires z == x * y;
    assert(x * (0real - y) == 0real - z) by (nonlinear_arith) requires z == x * y;
    assert((0real - z) * k == 0real - z * k) by (nonlinear_arith);
}
/// THEOREM (P17): the curl integral is the quadrature, over the smaller cell, of the product of the curls of the two functions in real space
pub proof fn theorem_curl<B: HierCurlBasisFnSpace>(w: (Seq<F>, Seq<F>), pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2], p: HierCurlBasisFn<B>, q: HierCurlBasisFn<B>, tp: Tab, tq: Tab, jp: Mat, jq: Mat, ma: Materials)
    requires pair_ok(p, q, tp, tq, po, qo, w), nested(p, q, jp, jq), flat(pd), flat(qd)
    ensures CurlCurl::value(w, pd, qd, po, qo, p, q, tp, tq, ma) == (1real / ma.mu_rel.re@) * whole_grid(w, true_curl::<B>(tp, tq, jp, jq, pd, qd, po, qo))
{
    let (nu, nv) = (w.0.len() as int, w.1.len() as int);
    let (g, h) = (curl_fn(p, q, tp, tq, pd, qd, po, qo), true_curl::<B>(tp, tq, jp, jq, pd, qd, po, qo));
    assert forall|m: int, n: int| 0 <= m < nu && 0 <= n < nv implies #[trigger] h(m, n) == 1real * g(m, n) by { curl_point(p, q, tp, tq, jp, jq, pd, qd, po, qo, w, m, n); }
    grid_scale(w.0, w.1, g, h, 1real, nu, nv);
}
}
