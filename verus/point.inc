verus! {
//@@ const fem_domain/domain/mesh/space.rs POINT_UNIQUENESS_ACCURACY
// ------------------------------------------------------------------ coordinates rounded to 1e-12
pub open spec fn tick() -> real { POINT_UNIQUENESS_ACCURACY_real() }
/// the rounded magnitude
pub open spec fn mag(x: real) -> real { rfloor(rabs(x)) + rround((rabs(x) - rfloor(rabs(x))) / tick()) * tick() }
/// the rounded coordinate
pub open spec fn rnd(x: real) -> real { if x < 0real { 0real - mag(x) } else { mag(x) } }
pub proof fn tick_facts()
    ensures 0real < tick() < 1real, (1000000000000int as real) * tick() == 1real
{
    let (n, d, t) = (1int as real, 1000000000000int as real, tick());
    assert(t == n / d);
    assert(t * d == 1real && 0real < t < 1real) by (nonlinear_arith) requires t == n / d, n == 1real, d == 1000000000000real;
    assert(d * t == t * d) by (nonlinear_arith);
}
proof fn div_bounds(x: real, t: real)
    requires 0real < t
    ensures (x / t) * t == x, x >= 0real ==> x / t >= 0real
{ assert((x / t) * t == x) by (nonlinear_arith) requires 0real < t; assert(x >= 0real ==> x / t >= 0real) by (nonlinear_arith) requires 0real < t; }
proof fn mul_mono(x: real, y: real, t: real)
    requires 0real < t, x <= y
    ensures x * t <= y * t
{ assert(x * t <= y * t) by (nonlinear_arith) requires 0real < t, x <= y; }
/// the magnitude is within half a tick, not negative, and between the integers around it
pub proof fn mag_near(x: real)
    ensures mag(x) >= 0real, rabs(mag(x) - rabs(x)) * 2real <= tick(), rfloor(rabs(x)) <= mag(x) <= rfloor(rabs(x)) + 1real
{
    tick_facts();
    let t = tick();
    let f = rabs(x) - rfloor(rabs(x));
    let q = f / t;
    div_bounds(f, t);
    let r = rround(q);
    let n = 1000000000000int as real;
    assert(q * t < 1real);
    assert(q < n) by (nonlinear_arith) requires q * t < 1real, n * t == 1real, 0real < t;
    assert(0real <= q);
    assert(r <= q + 1real / 2real && r > q - 1real / 2real);
    assert((q + 1real / 2real).floor() <= 1000000000000int) by { if (q + 1real / 2real).floor() >= 1000000000001int { assert(r >= 1000000000001int as real); } }
    assert(r <= n);
    assert(0real <= r);
    mul_mono(0real, r, t); mul_mono(r, n, t);
    assert(0real * t == 0real) by (nonlinear_arith);
    mul_mono(r, q + 1real / 2real, t); mul_mono(q - 1real / 2real, r, t);
    assert((q + 1real / 2real) * t == q * t + t / 2real && (q - 1real / 2real) * t == q * t - t / 2real) by (nonlinear_arith);
}
proof fn floor_mono(x: real, y: real)
    requires x <= y
    ensures rfloor(x) <= rfloor(y), rfloor(x) == rfloor(y) || rfloor(x) + 1real <= rfloor(y)
{
    let (i, j) = (x.floor(), y.floor());
    assert((i as real) <= x && y < (j as real) + 1real);
    assert(i <= j) by { if i >= j + 1 { assert(i as real >= (j + 1) as real); assert((j + 1) as real == (j as real) + 1real); } }
    if i < j { assert(i + 1 <= j); assert((i + 1) as real <= j as real); assert((i + 1) as real == (i as real) + 1real); }
}
proof fn div_mono(f: real, g: real, t: real)
    requires 0real < t, f <= g
    ensures f / t <= g / t
{ assert(f / t <= g / t) by (nonlinear_arith) requires 0real < t, f <= g; }
proof fn mag_mono(x: real, y: real)
    requires 0real <= x <= y
    ensures mag(x) <= mag(y)
{
    tick_facts();
    floor_mono(x, y);
    let t = tick();
    if rfloor(x) == rfloor(y) {
        let (f, g) = (x - rfloor(x), y - rfloor(y));
        div_mono(f, g, t);
        floor_mono(f / t + 1real / 2real, g / t + 1real / 2real);
        mul_mono(rround(f / t), rround(g / t), t);
        assert(mag(x) == rfloor(x) + rround(f / t) * t);
        assert(mag(y) == rfloor(y) + rround(g / t) * t);
    } else {
        mag_near(x); mag_near(y);
    }
}
/// THEOREM (P20): rounding keeps the order of coordinates and moves each by at most half a tick
pub proof fn theorem_rounding(x: real, y: real)
    ensures rabs(rnd(x) - x) * 2real <= tick(), x <= y ==> rnd(x) <= rnd(y), x + tick() < y ==> rnd(x) < rnd(y), rnd(0real) == 0real, rnd(0real - x) == 0real - rnd(x)
{
    mag_near(x); mag_near(y); mag_near(0real); tick_facts();
    if x <= y {
        if x < 0real && y < 0real { mag_mono(0real - y, 0real - x); assert(mag(0real - y) == mag(y) && mag(0real - x) == mag(x)); }
        if 0real <= x { mag_mono(x, y); assert(rnd(x) == mag(x) && rnd(y) == mag(y)); }
    }
    assert(mag(0real) == 0real) by {
        let t = tick();
        assert(0real / t == 0real) by (nonlinear_arith) requires 0real < t;
        assert(rround(0real) == 0real);
        assert(0real * t == 0real) by (nonlinear_arith);
    }
}
pub proof fn square(d: real)
    ensures rpow(rabs(d), 2) == d * d, d * d >= 0real
{ reveal_with_fuel(rpow, 3); assert(rabs(d) * rabs(d) == d * d && d * d >= 0real) by (nonlinear_arith); assert(1real * rabs(d) == rabs(d)) by (nonlinear_arith); }
impl FloatRep {
    pub open spec fn wf(self) -> bool { self.bits@ >= 0real && (self.bits@ == 0real ==> self.sign) }
    pub open spec fn val(self) -> real { if self.sign { self.bits@ } else { 0real - self.bits@ } }
//@@ fn fem_domain/domain/mesh/space.rs FloatRep::from
//@@ params value
        ensures r.wf(), r.val() == rnd(value@)
//@@ start
        proof { mag_near(value@); tick_facts(); theorem_rounding(value@, 0real); div_bounds(rabs(value@) - rfloor(rabs(value@)), tick()); }
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Ord for FloatRep::cmp
//@@ params other
        requires self.wf(), other.wf()
        ensures r == rcmp(self.val(), other.val())
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs PartialOrd for FloatRep::partial_cmp
//@@ params other
        requires self.wf(), other.wf()
        ensures r == Some(rcmp(self.val(), other.val()))
//@@ endfn
}
// (derived in the source)
impl PartialEqSpecImpl<FloatRep> for FloatRep {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &FloatRep) -> bool { self.sign == other.sign && self.bits@ == other.bits@ }
}
impl PartialEq<FloatRep> for FloatRep { #[verifier::external_body] fn eq(&self, o: &FloatRep) -> (r: bool) { unimplemented!() } }
// ------------------------------------------------------------------ points
impl Point {
    pub open spec fn wf(self) -> bool { self.x_cmp.wf() && self.y_cmp.wf() && self.x_cmp.val() == rnd(self.x@) && self.y_cmp.val() == rnd(self.y@) }
    /// the same place, to the documented resolution
    pub open spec fn same(self, o: Point) -> bool { rnd(self.x@) == rnd(o.x@) && rnd(self.y@) == rnd(o.y@) }
//@@ fn fem_domain/domain/mesh/space.rs Point::new
//@@ params x, y
        ensures r.wf(), r.x@ == x@, r.y@ == y@
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Point::from
//@@ params xy
        ensures r.wf(), r.x@ == xy@[0]@, r.y@ == xy@[1]@
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Default for Point::default
        ensures r.wf(), r.x@ == 0real, r.y@ == 0real
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Point::between
//@@ params a, b
        ensures r.wf(), r.x@ == (a.x@ + b.x@) / 2real, r.y@ == (a.y@ + b.y@) / 2real
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Point::orientation_with
//@@ params other
//@@ abort self.same(*other)
        requires self.wf(), other.wf()
        ensures !self.same(*other), r is U <==> rabs(other.x@ - self.x@) > rabs(other.y@ - self.y@)
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Point::dist
//@@ params other
        ensures r@ >= 0real, r@ * r@ == (other.x@ - self.x@) * (other.x@ - self.x@) + (other.y@ - self.y@) * (other.y@ - self.y@)
//@@ start
        proof { square(other.x@ - self.x@); square(other.y@ - self.y@); }
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Point::x_order
//@@ params other
        requires self.wf(), other.wf()
        ensures r == rcmp(rnd(self.x@), rnd(other.x@))
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Point::y_order
//@@ params other
        requires self.wf(), other.wf()
        ensures r == rcmp(rnd(self.y@), rnd(other.y@))
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs PartialEq for Point::eq
//@@ params other
        requires self.wf(), other.wf()
        ensures r == self.same(*other)
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Add for Point::add
//@@ params other
        ensures r.wf(), r.x@ == self.x@ + other.x@, r.y@ == self.y@ + other.y@
//@@ endfn
//@@ fn fem_domain/domain/mesh/space.rs Div<f64> for Point::div
//@@ params divis
        requires divis@ != 0real
        ensures r.wf(), r.x@ == self.x@ / divis@, r.y@ == self.y@ / divis@
//@@ endfn
}
// ------------------------------------------------------------------ mappings
/// the physical place of a parametric coordinate in an element side from p to q
pub open spec fn phys(p: real, q: real, x: real) -> real { (x + 1real) * (q - p) / 2real + p }
//@@ fn fem_domain/domain/mesh/element.rs map_range
//@@ params val, in_min, in_max, out_min, out_max
        requires in_min@ != in_max@
        ensures r@ == (val@ - in_min@) * (out_max@ - out_min@) / (in_max@ - in_min@) + out_min@
//@@ endfn
impl Element {
    /// P20: half the physical width and height of the range
    pub open spec fn jac(self, ua: real, ub: real, va: real, vb: real) -> Mat {
        let (p, q) = (self.points@[0], self.points@[3]);
        Mat { a: (phys(p.x@, q.x@, ub) - phys(p.x@, q.x@, ua)) / 2real, b: 0real, c: 0real, d: (phys(p.y@, q.y@, vb) - phys(p.y@, q.y@, va)) / 2real }
    }
//@@ fn fem_domain/domain/mesh/element.rs Element::parametric_mapping
//@@ params at, range
        ensures mat(r) == self.jac(range@[0]@[0]@, range@[0]@[1]@, range@[1]@[0]@, range@[1]@[1]@)
//@@ endfn
//@@ fn fem_domain/domain/mesh/element.rs Element::order_points
//@@ params p0, p1
//@@ abort p0.same(*p1)
        requires p0.wf(), p1.wf()
        ensures r == (if rabs(p1.x@ - p0.x@) > rabs(p1.y@ - p0.y@) { rcmp(rnd(p0.x@), rnd(p1.x@)) } else { rcmp(rnd(p0.y@), rnd(p1.y@)) })
//@@ endfn
}
/// THEOREM (P20): halving a range halves the entry of the Jacobian
pub proof fn theorem_split(e: Element, ua: real, ub: real, va: real, vb: real)
    ensures ({
        let um = (ua + ub) / 2real;
        let vm = (va + vb) / 2real;
        let j = e.jac(ua, ub, va, vb);
        &&& e.jac(ua, um, va, vb).a * 2real == j.a && e.jac(um, ub, va, vb).a * 2real == j.a && e.jac(ua, um, va, vb).d == j.d
        &&& e.jac(ua, ub, va, vm).d * 2real == j.d && e.jac(ua, ub, vm, vb).d * 2real == j.d && e.jac(ua, ub, va, vm).a == j.a
    })
{
    let (p, q) = (e.points@[0], e.points@[3]);
    phys_mid(p.x@, q.x@, ua, ub);
    phys_mid(p.y@, q.y@, va, vb);
}
pub proof fn phys_mid(p: real, q: real, a: real, b: real)
    ensures phys(p, q, (a + b) / 2real) == (phys(p, q, a) + phys(p, q, b)) / 2real
{
    let m = (a + b) / 2real;
    let w = q - p;
    assert((m + 1real) * w == ((a + 1real) * w + (b + 1real) * w) / 2real) by (nonlinear_arith) requires m == (a + b) / 2real;
}
}
