verus! {
//@@ gvidx self,other,a,b,u,v,divisor,para_scale
//@@ struct fem_domain/domain/mesh/space.rs V2D derive=Clone,Copy
//@@ struct fem_domain/domain/mesh/space.rs M2D derive=Clone,Copy
// ------------------------------------------------------------------ the small vector algebra
impl V2D {
    pub open spec fn at(self, i: int) -> real { self.inner@[i]@ }
//@@ fn fem_domain/domain/mesh/space.rs V2D::from
//@@ params xy
        ensures r.at(0) == xy@[0]@, r.at(1) == xy@[1]@, r.inner == xy
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Index<usize> for V2D::index
//@@ params index
        requires index < 2
        ensures r@ == self.at(index as int)
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs V2D::dot_with
//@@ params other
        ensures r@ == self.at(0) * other.at(0) + self.at(1) * other.at(1)
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs V2D::dot
//@@ params a, b
        ensures r@ == a.at(0) * b.at(0) + a.at(1) * b.at(1)
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs V2D::x
        ensures r@ == self.at(0)
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs V2D::y
        ensures r@ == self.at(1)
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Default for V2D::default
        ensures r.at(0) == 0real, r.at(1) == 0real
//@@ endfn
}
macro_rules! nospec { ($im:ident, $l:ty, $r:ty, $ob:ident, $rq:ident, $s:ident, $req:expr) => { verus! {
    impl $im<$r> for $l {
        open spec fn $ob() -> bool { false }
        open spec fn $rq(self, rhs: $r) -> bool { $req(self, rhs) }
        uninterp spec fn $s(self, rhs: $r) -> Self::Output;
    }
} } }
nospec!(AddSpecImpl, V2D, V2D, obeys_add_spec, add_req, add_spec, |a: V2D, b: V2D| true);
nospec!(DivSpecImpl, V2D, F, obeys_div_spec, div_req, div_spec, |a: V2D, b: F| b.v() != 0real);
nospec!(DivSpecImpl, V2D, V2D, obeys_div_spec, div_req, div_spec, |a: V2D, b: V2D| b.at(0) != 0real && b.at(1) != 0real);
nospec!(MulSpecImpl, V2D, F, obeys_mul_spec, mul_req, mul_spec, |a: V2D, b: F| true);
nospec!(MulSpecImpl, V2D, V2D, obeys_mul_spec, mul_req, mul_spec, |a: V2D, b: V2D| true);
nospec!(MulSpecImpl, V2D, &V2D, obeys_mul_spec, mul_req, mul_spec, |a: V2D, b: &V2D| true);
nospec!(DivSpecImpl, M2D, F, obeys_div_spec, div_req, div_spec, |a: M2D, b: F| b.v() != 0real);
nospec!(MulSpecImpl, M2D, M2D, obeys_mul_spec, mul_req, mul_spec, |a: M2D, b: M2D| true);
nospec!(MulSpecImpl, M2D, V2D, obeys_mul_spec, mul_req, mul_spec, |a: M2D, b: V2D| true);
impl core::ops::Add<V2D> for V2D {
    type Output = V2D;
//@@ fn fem_domain/domain/mesh/space.rs Add for V2D::add nopub
//@@ params other
        ensures r.at(0) == self.at(0) + other.at(0), r.at(1) == self.at(1) + other.at(1)
//@@ endfn
}
impl core::ops::Div<F> for V2D {
    type Output = V2D;
//@@ fn fem_domain/domain/mesh/space.rs Div<f64> for V2D::div nopub
//@@ params divisor
        ensures r.at(0) == self.at(0) / divisor@, r.at(1) == self.at(1) / divisor@
//@@ endfn
}
impl core::ops::Div<V2D> for V2D {
    type Output = V2D;
//@@ fn fem_domain/domain/mesh/space.rs Div<Self> for V2D::div nopub
//@@ params divisor
        ensures r.at(0) == self.at(0) / divisor.at(0), r.at(1) == self.at(1) / divisor.at(1)
//@@ endfn
}
impl core::ops::Mul<F> for V2D {
    type Output = V2D;
//@@ fn fem_domain/domain/mesh/space.rs Mul<f64> for V2D::mul nopub
//@@ params coefficient
        ensures r.at(0) == self.at(0) * coefficient@, r.at(1) == self.at(1) * coefficient@
//@@ endfn
}
impl core::ops::Mul<V2D> for V2D {
    type Output = V2D;
//@@ fn fem_domain/domain/mesh/space.rs Mul<Self> for V2D::mul nopub
//@@ params other
        ensures r.at(0) == self.at(0) * other.at(0), r.at(1) == self.at(1) * other.at(1)
//@@ endfn
}
impl core::ops::Mul<&V2D> for V2D {
    type Output = V2D;
//@@ fn fem_domain/domain/mesh/space.rs Mul<&Self> for V2D::mul nopub
//@@ params other
        ensures r.at(0) == self.at(0) * other.at(0), r.at(1) == self.at(1) * other.at(1)
//@@ endfn
}
/// a 2x2 matrix by rows
pub ghost struct Mat { pub a: real, pub b: real, pub c: real, pub d: real }
pub open spec fn mat(m: M2D) -> Mat { Mat { a: m.u.at(0), b: m.u.at(1), c: m.v.at(0), d: m.v.at(1) } }
impl Mat {
    pub open spec fn det(self) -> real { self.a * self.d - self.b * self.c }
    pub open spec fn t(self) -> Mat { Mat { a: self.a, b: self.c, c: self.b, d: self.d } }
    pub open spec fn mul(self, o: Mat) -> Mat { Mat { a: self.a * o.a + self.b * o.c, b: self.a * o.b + self.b * o.d, c: self.c * o.a + self.d * o.c, d: self.c * o.b + self.d * o.d } }
    pub open spec fn over(self, k: real) -> Mat { Mat { a: self.a / k, b: self.b / k, c: self.c / k, d: self.d / k } }
    pub open spec fn adj(self) -> Mat { Mat { a: self.d, b: 0real - self.b, c: 0real - self.c, d: self.a } }
    pub open spec fn id() -> Mat { Mat { a: 1real, b: 0real, c: 0real, d: 1real } }
}
/// THEOREM (P20): the adjugate over the determinant is the inverse on both sides
pub proof fn theorem_inverse(m: Mat)
    requires m.det() != 0real
    ensures m.mul(m.adj().over(m.det())) == Mat::id(), m.adj().over(m.det()).mul(m) == Mat::id()
{
    let k = m.det();
    let (a, b, c, d) = (m.a, m.b, m.c, m.d);
    frac(a, d, b, 0real - c, k); frac(a, 0real - b, b, a, k); frac(c, d, d, 0real - c, k); frac(c, 0real - b, d, a, k);
    frac(d, a, 0real - b, c, k); frac(d, b, 0real - b, d, k); frac(0real - c, a, a, c, k); frac(0real - c, b, a, d, k);
    assert(a * d + b * (0real - c) == k) by (nonlinear_arith) requires k == a * d - b * c;
    assert(a * (0real - b) + b * a == 0real) by (nonlinear_arith);
    assert(c * d + d * (0real - c) == 0real) by (nonlinear_arith);
    assert(c * (0real - b) + d * a == k) by (nonlinear_arith) requires k == a * d - b * c;
    assert(d * a + (0real - b) * c == k) by (nonlinear_arith) requires k == a * d - b * c;
    assert(d * b + (0real - b) * d == 0real) by (nonlinear_arith);
    assert((0real - c) * a + a * c == 0real) by (nonlinear_arith);
    assert((0real - c) * b + a * d == k) by (nonlinear_arith) requires k == a * d - b * c;
    assert(k / k == 1real && 0real / k == 0real) by (nonlinear_arith) requires k != 0real;
}
proof fn frac(x: real, y: real, z: real, w: real, k: real)
    requires k != 0real
    ensures x * (y / k) + z * (w / k) == (x * y + z * w) / k, (x / k) * y + (z / k) * w == (x * y + z * w) / k
{
    mul_div(x, y, k); mul_div(z, w, k); mul_div(y, x, k); mul_div(w, z, k);
    comm(x / k, y); comm(z / k, w); comm(x, y); comm(z, w);
    add_div(x * y, z * w, k);
}
proof fn mul_div(x: real, y: real, k: real) requires k != 0real ensures x * (y / k) == (x * y) / k
{ assert(x * (y / k) == (x * y) / k) by (nonlinear_arith) requires k != 0real; }
proof fn add_div(x: real, y: real, k: real) requires k != 0real ensures x / k + y / k == (x + y) / k
{ assert(x / k + y / k == (x + y) / k) by (nonlinear_arith) requires k != 0real; }
/// THEOREM (P20): the determinant is multiplicative, and transposing keeps it
pub proof fn theorem_det(m: Mat, n: Mat)
    ensures m.mul(n).det() == m.det() * n.det(), m.t().det() == m.det(), m.t().t() == m, m.mul(n).t() == n.t().mul(m.t())
{
    let (a, b, c, d, e, f, g, h) = (m.a, m.b, m.c, m.d, n.a, n.b, n.c, n.d);
    expand(a * e, b * g, c * f, d * h);
    expand(a * f, b * h, c * e, d * g);
    swap(a, e, c, f); swap(a, f, c, e); swap(b, g, d, h); swap(b, h, d, g);
    swap(a, e, d, h); swap(b, g, c, f); swap(a, f, d, g); swap(b, h, c, e);
    comm(e, f); comm(g, h); comm(b, c); comm(g, f); comm(h, e);
    expand_minus(a * d, b * c, e * h, f * g);
    comm(a, e); comm(b, g); comm(c, e); comm(d, g); comm(a, f); comm(b, h); comm(c, f); comm(d, h);
}
proof fn comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
proof fn swap(a: real, b: real, c: real, d: real) ensures (a * b) * (c * d) == (a * c) * (b * d)
{ assert((a * b) * (c * d) == (a * c) * (b * d)) by (nonlinear_arith); }
proof fn expand(a: real, b: real, c: real, d: real) ensures (a + b) * (c + d) == a * c + a * d + b * c + b * d
{ assert((a + b) * (c + d) == a * c + a * d + b * c + b * d) by (nonlinear_arith); }
proof fn expand_minus(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d
{ assert((a - b) * (c - d) == a * c - a * d - b * c + b * d) by (nonlinear_arith); }
impl M2D {
//@@ fn fem_domain/domain/mesh/space.rs M2D::from
//@@ params r0, r1
        ensures mat(r) == (Mat { a: r0@[0]@, b: r0@[1]@, c: r1@[0]@, d: r1@[1]@ })
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs M2D::det
        ensures r@ == mat(*self).det()
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs M2D::inverse
        requires mat(*self).det() != 0real
        ensures mat(r) == mat(*self).adj().over(mat(*self).det())
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs M2D::transpose
        ensures mat(r) == mat(*self).t()
//@@ endfn
}
impl core::ops::Div<F> for M2D {
    type Output = M2D;
//@@ fn fem_domain/domain/mesh/space.rs Div<f64> for M2D::div nopub
//@@ params divisor
        ensures mat(r) == mat(self).over(divisor@)
//@@ endfn
}
impl core::ops::Mul<M2D> for M2D {
    type Output = M2D;
//@@ fn fem_domain/domain/mesh/space.rs Mul<Self> for M2D::mul nopub
//@@ params other
        ensures mat(r) == mat(self).mul(mat(other))
//@@ endfn
}
impl core::ops::Mul<V2D> for M2D {
    type Output = V2D;
//@@ fn fem_domain/domain/mesh/space.rs Mul<V2D> for M2D::mul nopub
//@@ params v
        ensures r.at(0) == mat(self).a * v.at(0) + mat(self).b * v.at(1), r.at(1) == mat(self).c * v.at(0) + mat(self).d * v.at(1)
//@@ endfn
}
}
