verus! {
// ------------------------------------------------------------------ specification: powers and their derivatives
pub open spec fn pw(x: real, n: int) -> real { if n < 0 { 0real } else { rpow(x, n as nat) } }
pub open spec fn pw1(x: real, n: int) -> real { if n <= 0 { 0real } else { (n as real) * pw(x, n - 1) } }
pub open spec fn pw2(x: real, n: int) -> real { if n <= 1 { 0real } else { (n as real) * (n as real - 1real) * pw(x, n - 2) } }
/// the documented tangential functions
pub open spec fn tg(x: real, n: int) -> real { if n == 0 { 1real - x } else if n == 1 { 1real + x } else if n % 2 == 0 { pw(x, n) - 1real } else { pw(x, n) - x } }
pub open spec fn tg1(x: real, n: int) -> real { if n == 0 { -1real } else if n == 1 { 1real } else if n % 2 == 0 { pw1(x, n) } else { pw1(x, n) - 1real } }
/// second order remainder of a power
pub open spec fn rem(x: real, h: real, n: int) -> real decreases n { if n <= 0 { 0real } else { (x + h) * rem(x, h, n - 1) + pw1(x, n - 1) } }
/// THEOREM (P14): pw1 is the derivative of x^n: x^n grows by h times pw1 up to a multiple of h^2
pub proof fn theorem_derivative(x: real, h: real, n: int)
    requires n >= 0
    ensures pw(x + h, n) == pw(x, n) + h * pw1(x, n) + (h * h) * rem(x, h, n)
    decreases n
{
    if n > 0 {
        theorem_derivative(x, h, n - 1);
        let (p, d, r) = (pw(x, n - 1), pw1(x, n - 1), rem(x, h, n - 1));
        assert(pw(x + h, n) == pw(x + h, n - 1) * (x + h));
        assert(pw(x, n) == p * x);
        pw1_step(x, n);
        assert(pw1(x, n) == d * x + p);
        derivative_step(p, d, r, x, h);
    } else {
        assert(h * 0real == 0real && (h * h) * 0real == 0real) by (nonlinear_arith);
    }
}
proof fn derivative_step(p: real, d: real, r: real, x: real, h: real)
    ensures (p + h * d + (h * h) * r) * (x + h) == p * x + h * (d * x + p) + (h * h) * ((x + h) * r + d)
{
    let (hd, hr) = (h * d, (h * h) * r);
    assert((p + hd + hr) * (x + h) == p * x + p * h + hd * x + hd * h + hr * (x + h)) by (nonlinear_arith);
    assert(hd * x == h * (d * x) && hd * h == (h * h) * d) by (nonlinear_arith) requires hd == h * d;
    assert(hr * (x + h) == (h * h) * ((x + h) * r)) by (nonlinear_arith) requires hr == (h * h) * r;
    assert(h * (d * x + p) == h * (d * x) + h * p && p * h == h * p) by (nonlinear_arith);
    assert((h * h) * ((x + h) * r + d) == (h * h) * ((x + h) * r) + (h * h) * d) by (nonlinear_arith);
}
/// the product rule for x^n = x^(n-1) * x
proof fn pw1_step(x: real, n: int)
    requires n >= 1
    ensures pw1(x, n) == pw1(x, n - 1) * x + pw(x, n - 1)
{
    if n == 1 { assert(1real * pw(x, 0) == pw(x, 0)) by (nonlinear_arith); assert(0real * x == 0real) by (nonlinear_arith); }
    else {
        let (m, q) = ((n - 1) as real, pw(x, n - 2));
        assert(pw(x, n - 1) == q * x);
        assert(((m + 1real) * (q * x)) == (m * q) * x + q * x) by (nonlinear_arith);
    }
}
/// THEOREM (P14): pw2 is the derivative of pw1
pub proof fn theorem_second_derivative(x: real, h: real, n: int)
    requires n >= 1
    ensures pw1(x + h, n) == pw1(x, n) + h * pw2(x, n) + (h * h) * ((n as real) * rem(x, h, n - 1))
{
    theorem_derivative(x, h, n - 1);
    let (k, p, d, r) = (n as real, pw(x, n - 1), pw1(x, n - 1), rem(x, h, n - 1));
    assert(k * (p + h * d + (h * h) * r) == k * p + h * (k * d) + (h * h) * (k * r)) by (nonlinear_arith);
    if n == 1 { assert(k * 0real == 0real) by (nonlinear_arith); }
    else { let q = pw(x, n - 2); assert(k * ((k - 1real) * q) == k * (k - 1real) * q) by (nonlinear_arith); }
}
proof fn ends(n: int)
    requires n >= 0
    ensures pw(1real, n) == 1real, pw(-1real, n) == (if n % 2 == 0 { 1real } else { -1real })
    decreases n
{ if n > 0 { ends(n - 1); assert(pw(1real, n) == pw(1real, n - 1) * 1real); assert(pw(-1real, n) == pw(-1real, n - 1) * (-1real)); } }
/// THEOREM (P14): functions of order two and above vanish at both ends, the first two at opposite ends
pub proof fn theorem_ends(n: int)
    requires n >= 0
    ensures n >= 2 ==> tg(1real, n) == 0real && tg(-1real, n) == 0real, tg(1real, 0) == 0real, tg(-1real, 1) == 0real, tg(-1real, 0) == 2real, tg(1real, 1) == 2real
{ ends(n); }
/// values of f(.,n) at the points
pub open spec fn holds(v: Seq<F>, pts: Seq<F>, f: spec_fn(real, int) -> real, n: int) -> bool {
    v.len() == pts.len() && forall|p: int| 0 <= p < pts.len() ==> (#[trigger] v[p])@ == f(pts[p]@, n)
}
/// ... and for every order up to (not including) m
pub open spec fn table(t: Seq<Vec<F>>, pts: Seq<F>, f: spec_fn(real, int) -> real, m: int) -> bool {
    t.len() == m && forall|n: int| 0 <= n < m ==> holds((#[trigger] t[n])@, pts, f, n)
}
pub open spec fn f_pw() -> spec_fn(real, int) -> real { |x: real, n: int| pw(x, n) }
pub open spec fn f_pw1() -> spec_fn(real, int) -> real { |x: real, n: int| pw1(x, n) }
pub open spec fn f_pw2() -> spec_fn(real, int) -> real { |x: real, n: int| pw2(x, n) }
pub open spec fn f_tg() -> spec_fn(real, int) -> real { |x: real, n: int| tg(x, n) }
pub open spec fn f_tg1() -> spec_fn(real, int) -> real { |x: real, n: int| tg1(x, n) }
proof fn small(x: real)
    ensures pw(x, 0) == 1real, pw(x, 1) == x, pw2(x, 2) == 2real, pw2(x, 3) == 6real * x, pw1(x, 1) == 1real
{ reveal_with_fuel(rpow, 3); assert(1real * x == x && 3real * 2real * x == 6real * x && 2real * 1real * 1real == 2real) by (nonlinear_arith); }
//@@ struct fem_domain/basis/hierarchical_basis_fns.rs HierPoly
impl HierPoly {
    pub open spec fn holds(self, pts: Seq<F>, m: int, d2: bool) -> bool {
        &&& table(self.pows@, pts, f_pw(), m)
        &&& table(self.pows_d1@, pts, f_pw1(), m)
        &&& d2 ==> table(self.pows_d2@, pts, f_pw2(), m)
        &&& table(self.polys@, pts, f_tg(), m)
        &&& table(self.polys_d1@, pts, f_tg1(), m)
    }
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs poly::HierPoly::new_with_d2
//@@ params n_max, points
        requires n_max < 1000000
        ensures r.holds(points@, n_max + 1, true)
//@@ acc 1 Vec<F>
//@@ acc 2 Vec<F>
//@@ acc 3 Vec<F>
//@@ acc 4 Vec<F>
//@@ acc 5 Vec<F>
//@@ acc 6 Vec<F>
//@@ acc 7 Vec<F>
//@@ acc 8 Vec<F>
//@@ acc 9 Vec<F>
//@@ start
        proof { assert forall|x: real| #[trigger] pw(x, 1) == x by { small(x); } assert forall|x: real| #[trigger] pw2(x, 2) == 2real by { small(x); } assert forall|x: real| #[trigger] pw2(x, 3) == 6real * x by { small(x); } }
//@@ loop 0
        table(pows@, points@, f_pw(), __i0 as int), table(pows_d1@, points@, f_pw1(), __i0 as int), table(pows_d2@, points@, f_pw2(), __i0 as int), table(polys@, points@, f_tg(), __i0 as int), table(polys_d1@, points@, f_tg1(), __i0 as int),
//@@ loop 1
        __a1@.len() == __i1, forall|p: int| 0 <= p < __i1 ==> (#[trigger] __a1@[p])@ == tg(points@[p]@, 0),
//@@ loop 2
        __a2@.len() == __i2, forall|p: int| 0 <= p < __i2 ==> (#[trigger] __a2@[p])@ == tg(points@[p]@, 1),
//@@ loop 3
        __a3@.len() == __i3, forall|p: int| 0 <= p < __i3 ==> (#[trigger] __a3@[p])@ == pw(points@[p]@, n as int),
//@@ loop 4
        __a4@.len() == __i4, forall|p: int| 0 <= p < __i4 ==> (#[trigger] __a4@[p])@ == pw1(points@[p]@, n as int),
//@@ loop 5
        __a5@.len() == __i5, forall|p: int| 0 <= p < __i5 ==> (#[trigger] __a5@[p])@ == pw2(points@[p]@, n as int),
//@@ loop 6
        __a6@.len() == __i6, forall|p: int| 0 <= p < __i6 ==> (#[trigger] __a6@[p])@ == pw2(points@[p]@, n as int),
//@@ loop 7
        __a7@.len() == __i7, forall|p: int| 0 <= p < __i7 ==> (#[trigger] __a7@[p])@ == tg(points@[p]@, n as int),
//@@ loop 8
        __a8@.len() == __i8, forall|p: int| 0 <= p < __i8 ==> (#[trigger] __a8@[p])@ == tg(points@[p]@, n as int),
//@@ loop 9
        __a9@.len() == __i9, forall|p: int| 0 <= p < __i9 ==> (#[trigger] __a9@[p])@ == tg1(points@[p]@, n as int),
//@@ endfn
//@@ fn fem_domain/basis/hierarchical_basis_fns.rs poly::HierPoly::new_without_d2
//@@ params n_max, points
        requires n_max < 1000000
        ensures r.holds(points@, n_max + 1, false)
//@@ acc 1 Vec<F>
//@@ acc 2 Vec<F>
//@@ acc 3 Vec<F>
//@@ acc 4 Vec<F>
//@@ acc 5 Vec<F>
//@@ acc 6 Vec<F>
//@@ acc 7 Vec<F>
//@@ start
        proof { assert forall|x: real| #[trigger] pw(x, 1) == x by { small(x); } assert forall|x: real| #[trigger] pw2(x, 2) == 2real by { small(x); } assert forall|x: real| #[trigger] pw2(x, 3) == 6real * x by { small(x); } }
//@@ loop 0
        table(pows@, points@, f_pw(), __i0 as int), table(pows_d1@, points@, f_pw1(), __i0 as int), table(polys@, points@, f_tg(), __i0 as int), table(polys_d1@, points@, f_tg1(), __i0 as int),
//@@ loop 1
        __a1@.len() == __i1, forall|p: int| 0 <= p < __i1 ==> (#[trigger] __a1@[p])@ == tg(points@[p]@, 0),
//@@ loop 2
        __a2@.len() == __i2, forall|p: int| 0 <= p < __i2 ==> (#[trigger] __a2@[p])@ == tg(points@[p]@, 1),
//@@ loop 3
        __a3@.len() == __i3, forall|p: int| 0 <= p < __i3 ==> (#[trigger] __a3@[p])@ == pw(points@[p]@, n as int),
//@@ loop 4
        __a4@.len() == __i4, forall|p: int| 0 <= p < __i4 ==> (#[trigger] __a4@[p])@ == pw1(points@[p]@, n as int),
//@@ loop 5
        __a5@.len() == __i5, forall|p: int| 0 <= p < __i5 ==> (#[trigger] __a5@[p])@ == tg(points@[p]@, n as int),
//@@ loop 6
        __a6@.len() == __i6, forall|p: int| 0 <= p < __i6 ==> (#[trigger] __a6@[p])@ == tg(points@[p]@, n as int),
//@@ loop 7
        __a7@.len() == __i7, forall|p: int| 0 <= p < __i7 ==> (#[trigger] __a7@[p])@ == tg1(points@[p]@, n as int),
//@@ endfn
}
}
