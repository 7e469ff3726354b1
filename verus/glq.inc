verus! {
// ------------------------------------------------------------------ specification: sums
pub type G = spec_fn(int, int) -> real;
/// along v: the sum over lo <= n < hi of weight n times g(m, n)
pub open spec fn row(v: Seq<F>, g: G, m: int, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 0real } else { row(v, g, m, lo, hi - 1) + g(m, hi - 1) * v[hi - 1]@ } }
/// along u
pub open spec fn col(u: Seq<F>, g: G, n: int, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 0real } else { col(u, g, n, lo, hi - 1) + g(hi - 1, n) * u[hi - 1]@ } }
/// over the grid points lo <= m < hi, vlo <= n < vhi
pub open spec fn grid(u: Seq<F>, v: Seq<F>, g: G, lo: int, hi: int, vlo: int, vhi: int) -> real decreases hi - lo {
    if hi <= lo { 0real } else { grid(u, v, g, lo, hi - 1, vlo, vhi) + row(v, g, hi - 1, vlo, vhi) * u[hi - 1]@ }
}
pub proof fn row_front(v: Seq<F>, g: G, m: int, lo: int, hi: int)
    requires lo < hi
    ensures row(v, g, m, lo, hi) == g(m, lo) * v[lo]@ + row(v, g, m, lo + 1, hi)
    decreases hi - lo
{ reveal_with_fuel(row, 3); if lo + 1 < hi { row_front(v, g, m, lo, hi - 1); } }
pub proof fn col_front(v: Seq<F>, g: G, m: int, lo: int, hi: int)
    requires lo < hi
    ensures col(v, g, m, lo, hi) == g(lo, m) * v[lo]@ + col(v, g, m, lo + 1, hi)
    decreases hi - lo
{ reveal_with_fuel(col, 3); if lo + 1 < hi { col_front(v, g, m, lo, hi - 1); } }
/// THEOREM (P13): a rule is linear in the integrand
pub proof fn theorem_linear(u: Seq<F>, v: Seq<F>, f: G, g: G, h: G, a: real, lo: int, hi: int, vlo: int, vhi: int)
    requires forall|m: int, n: int| #[trigger] h(m, n) == f(m, n) + a * g(m, n)
    ensures grid(u, v, h, lo, hi, vlo, vhi) == grid(u, v, f, lo, hi, vlo, vhi) + a * grid(u, v, g, lo, hi, vlo, vhi)
    decreases hi - lo
{
    if hi > lo {
        theorem_linear(u, v, f, g, h, a, lo, hi - 1, vlo, vhi);
        row_linear(v, f, g, h, a, hi - 1, vlo, vhi);
        let (x, y, w) = (row(v, f, hi - 1, vlo, vhi), row(v, g, hi - 1, vlo, vhi), u[hi - 1]@);
        assert((x + a * y) * w == x * w + a * (y * w)) by (nonlinear_arith);
        let (p, q) = (grid(u, v, g, lo, hi - 1, vlo, vhi), y * w);
        assert(a * (p + q) == a * p + a * q) by (nonlinear_arith);
    } else { assert(a * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn row_linear(v: Seq<F>, f: G, g: G, h: G, a: real, m: int, lo: int, hi: int)
    requires forall|m: int, n: int| #[trigger] h(m, n) == f(m, n) + a * g(m, n)
    ensures row(v, h, m, lo, hi) == row(v, f, m, lo, hi) + a * row(v, g, m, lo, hi)
    decreases hi - lo
{
    if hi > lo {
        row_linear(v, f, g, h, a, m, lo, hi - 1);
        let (x, y, w) = (f(m, hi - 1), g(m, hi - 1), v[hi - 1]@);
        assert((x + a * y) * w == x * w + a * (y * w)) by (nonlinear_arith);
        let (p, q) = (row(v, g, m, lo, hi - 1), y * w);
        assert(a * (p + q) == a * p + a * q) by (nonlinear_arith);
    } else { assert(a * 0real == 0real) by (nonlinear_arith); }
}
/// g is what the integrand computes
pub open spec fn computes<I: Fn(usize, usize) -> F>(integrand: I, g: G) -> bool {
    forall|m: usize, n: usize, r: F| #[trigger] integrand.ensures((m, n), r) ==> r@ == g(m as int, n as int)
}
pub open spec fn defined<I: Fn(usize, usize) -> F>(integrand: I, lu: int, lv: int) -> bool {
    forall|m: usize, n: usize| m < lu && n < lv ==> #[trigger] integrand.requires((m, n))
}
//@@ fn fem_problem/integration/glq.rs real_gauss_quad opassign
//@@ params u_weights, v_weights, integrand
        requires defined(integrand, u_weights@.len() as int, v_weights@.len() as int)
        ensures forall|g: G| #[trigger] computes(integrand, g) ==> r@ == grid(u_weights@, v_weights@, g, 0, u_weights@.len() as int, 0, v_weights@.len() as int)
//@@ loop 0
        forall|g: G| #[trigger] computes(integrand, g) ==> solution@ == grid(u_weights@, v_weights@, g, 0, __i0 as int, 0, v_weights@.len() as int),
//@@ loop 1
        forall|g: G| #[trigger] computes(integrand, g) ==> inner_solution@ == row(v_weights@, g, m as int, 0, __i1 as int),
//@@ endfn
//@@ fn fem_problem/integration/glq.rs real_gauss_quad_inner opassign
//@@ params u_weights, v_weights, integrand
        requires defined(integrand, u_weights@.len() as int, v_weights@.len() as int), u_weights@.len() >= 2, v_weights@.len() >= 2
        ensures forall|g: G| #[trigger] computes(integrand, g) ==> r@ == grid(u_weights@, v_weights@, g, 1, u_weights@.len() - 1, 1, v_weights@.len() - 1)
//@@ loop 0
        forall|g: G| #[trigger] computes(integrand, g) ==> solution@ == grid(u_weights@, v_weights@, g, 1, __i0 as int, 1, v_weights@.len() - 1),
//@@ loop 1
        forall|g: G| #[trigger] computes(integrand, g) ==> inner_solution@ == row(v_weights@, g, m as int, 1, __i1 as int),
//@@ endfn
//@@ fn fem_problem/integration/glq.rs real_gauss_quad_edge opassign
//@@ params u_weights, v_weights, edge_index, integrand
        requires defined(integrand, u_weights@.len() as int, v_weights@.len() as int), u_weights@.len() >= 2, v_weights@.len() >= 2, edge_index < 4
        ensures forall|g: G| #[trigger] computes(integrand, g) ==> r@ == edge_sum(u_weights@, v_weights@, g, edge_index as int)
//@@ loop 0
        forall|g: G| #[trigger] computes(integrand, g) ==> solution@ == col(u_weights@, g, 0, 1, __i0 as int),
//@@ loop 1
        forall|g: G| #[trigger] computes(integrand, g) ==> solution@ == col(u_weights@, g, v_weights@.len() - 1, __i1 as int, u_weights@.len() - 1),
//@@ loopend 1
        proof { assert forall|g: G| #[trigger] computes(integrand, g) implies solution@ == col(u_weights@, g, v_weights@.len() - 1, __i1 as int, u_weights@.len() - 1) by { col_front(u_weights@, g, v_weights@.len() - 1, __i1 as int, u_weights@.len() - 1); } }
//@@ loop 2
        forall|g: G| #[trigger] computes(integrand, g) ==> solution@ == row(v_weights@, g, 0, __i2 as int, v_weights@.len() - 1),
//@@ loopend 2
        proof { assert forall|g: G| #[trigger] computes(integrand, g) implies solution@ == row(v_weights@, g, 0, __i2 as int, v_weights@.len() - 1) by { row_front(v_weights@, g, 0, __i2 as int, v_weights@.len() - 1); } }
//@@ loop 3
        forall|g: G| #[trigger] computes(integrand, g) ==> solution@ == row(v_weights@, g, u_weights@.len() - 1, 1, __i3 as int),
//@@ endfn
//@@ fn fem_problem/integration/glq.rs scale_gauss_quad_points
//@@ params points, min, max
        ensures r.0@ == (max@ - min@) / 2real, r.1@.len() == points@.len(),
            forall|k: int| 0 <= k < points@.len() ==> (#[trigger] r.1@[k])@ == aff2(min@, max@, points@[k]@)
//@@ acc 0 Vec<F>
//@@ loop 0
        __a0@.len() == __i0,
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] __a0@[k])@ == aff2(min@, max@, points@[k]@)
//@@ endfn
/// the image of x under the affine map that takes [-1, 1] to [a, b]
pub open spec fn aff2(a: real, b: real, x: real) -> real { (a + b) / 2real + x * ((b - a) / 2real) }
/// along the designated edge (0 bottom, 1 top, 2 left, 3 right), inner points only
pub open spec fn edge_sum(u: Seq<F>, v: Seq<F>, g: G, e: int) -> real {
    if e == 0 { col(u, g, 0, 1, u.len() - 1) } else if e == 1 { col(u, g, v.len() - 1, 1, u.len() - 1) } else if e == 2 { row(v, g, 0, 1, v.len() - 1) } else { row(v, g, u.len() - 1, 1, v.len() - 1) }
}
}
