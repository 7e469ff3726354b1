//! P13, P14, P20: quadrature, shape functions, vector algebra and points.
use crate::ck;
use crate::ctx::*;
use crate::gen::*;
use fem_2d::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
use fem_2d::fem_domain::basis::{HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::mesh::space::{ParaDir, Point, M2D, V2D};
use fem_2d::fem_problem::integration::glq::*;
use std::cmp::Ordering;

fn falling(n: usize, d: usize) -> f64 {
    (0..d).map(|k| n as f64 - k as f64).product()
}
/// x^n and derivatives
pub fn norm_ref(n: usize, x: f64, d: usize) -> f64 {
    if d > n { 0.0 } else { falling(n, d) * x.powi((n - d) as i32) }
}
/// documented tangential polynomials and derivatives
pub fn tang_ref(n: usize, x: f64, d: usize) -> f64 {
    match (n, d) {
        (0, 0) => 1.0 - x,
        (0, 1) => -1.0,
        (1, 0) => 1.0 + x,
        (1, 1) => 1.0,
        (0 | 1, _) => 0.0,
        _ => {
            let lower = if n % 2 == 0 { norm_ref(0, x, d) } else { norm_ref(1, x, d) };
            norm_ref(n, x, d) - lower
        }
    }
}
/// independent Gauss-Legendre rule: Newton iteration on Legendre polynomials
pub fn gauss_ref(n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut p = vec![];
    let mut w = vec![];
    for k in 0..n {
        let mut x = -(std::f64::consts::PI * (k as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut d = 1.0;
        for _ in 0..100 {
            let (mut a, mut b) = (1.0, x);
            for m in 2..=n {
                let c = ((2 * m - 1) as f64 * x * b - (m - 1) as f64 * a) / m as f64;
                a = b;
                b = c;
            }
            d = n as f64 * (x * b - a) / (x * x - 1.0);
            let s = b / d;
            x -= s;
            if s.abs() < 1e-16 {
                break;
            }
        }
        p.push(x);
        w.push(2.0 / ((1.0 - x * x) * d * d));
    }
    (p, w)
}
fn close(a: f64, b: f64, t: f64) -> bool {
    (a - b).abs() <= t * (1.0 + a.abs().max(b.abs()))
}

pub fn p13(k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    // sums over arbitrary weights and integrands
    let (nu, nv) = (2 + rng.below(9), 2 + rng.below(9));
    let uw: Vec<f64> = (0..nu).map(|_| rng.f(-2.0, 2.0)).collect();
    let vw: Vec<f64> = (0..nv).map(|_| rng.f(-2.0, 2.0)).collect();
    let f: Vec<Vec<f64>> = (0..nu).map(|_| (0..nv).map(|_| rng.f(-3.0, 3.0)).collect()).collect();
    log.op(format!("quadrature sums with {nu} x {nv} weights"));
    let calls = std::cell::RefCell::new(vec![]);
    let ff = |m: usize, n: usize| {
        calls.borrow_mut().push((m, n));
        f[m][n]
    };
    let s = |ms: &[usize], ns: &[usize]| -> f64 { ms.iter().map(|&m| ns.iter().map(|&n| uw[m] * vw[n] * f[m][n]).sum::<f64>()).sum() };
    let am: Vec<usize> = (0..nu).collect();
    let an: Vec<usize> = (0..nv).collect();
    let im: Vec<usize> = (1..nu - 1).collect();
    let inn: Vec<usize> = (1..nv - 1).collect();
    let got = real_gauss_quad(&uw, &vw, ff);
    ck!(log, close(got, s(&am, &an), 1e-12), "real_gauss_quad({uw:?}, {vw:?}) = {got}, expected {}", s(&am, &an));
    let got = real_gauss_quad_inner(&uw, &vw, ff);
    ck!(log, close(got, s(&im, &inn), 1e-12), "real_gauss_quad_inner({uw:?}, {vw:?}) = {got}, expected {}", s(&im, &inn));
    for e in 0..4 {
        let want: f64 = match e {
            0 => im.iter().map(|&m| uw[m] * f[m][0]).sum(),
            1 => im.iter().map(|&m| uw[m] * f[m][nv - 1]).sum(),
            2 => inn.iter().map(|&n| vw[n] * f[0][n]).sum(),
            _ => inn.iter().map(|&n| vw[n] * f[nu - 1][n]).sum(),
        };
        let got = real_gauss_quad_edge(&uw, &vw, e, ff);
        ck!(log, close(got, want, 1e-12), "real_gauss_quad_edge({uw:?}, {vw:?}, {e}) = {got}, expected {want}");
    }
    // rules
    let n = if (k as usize) < 60 { 1 + k as usize } else { { let big = rng.chance(0.1); 1 + rng.below(if big { 120 } else { 40 }) } };
    log.op(format!("gauss_quadrature_points({n})"));
    let (p, w) = gauss_quadrature_points(n, false);
    ck!(log, p.len() == n && w.len() == n, "rule {n} has {} points and {} weights", p.len(), w.len());
    for i in 0..n {
        ck!(log, p[i] > -1.0 && p[i] < 1.0, "rule {n}: point {} outside (-1, 1)", p[i]);
        ck!(log, i == 0 || p[i - 1] < p[i], "rule {n}: points not ascending at {i}");
        ck!(log, (p[i] + p[n - 1 - i]).abs() < 1e-11, "rule {n}: points {} and {} not symmetric", p[i], p[n - 1 - i]);
        ck!(log, w[i] > 0.0 && (w[i] - w[n - 1 - i]).abs() < 1e-10, "rule {n}: weights {} and {}", w[i], w[n - 1 - i]);
    }
    let (rp, rw) = gauss_ref(n);
    for i in 0..n {
        ck!(log, (p[i] - rp[i]).abs() < 1e-10 && (w[i] - rw[i]).abs() < 1e-10, "rule {n}: point {i} is ({}, {}), the Gauss-Legendre rule has ({}, {})", p[i], w[i], rp[i], rw[i]);
    }
    for d in 0..2 * n {
        let got: f64 = p.iter().zip(&w).map(|(x, w)| w * x.powi(d as i32)).sum();
        let want = if d % 2 == 0 { 2.0 / (d as f64 + 1.0) } else { 0.0 };
        ck!(log, (got - want).abs() < 1e-10, "rule {n} integrates x^{d} to {got}, expected {want}");
    }
    let (pe, we) = gauss_quadrature_points(n, true);
    ck!(log, pe.len() == n + 2 && we.len() == n + 2, "rule {n} with endpoints has {} points and {} weights", pe.len(), we.len());
    ck!(log, pe[0] == -1.0 && pe[n + 1] == 1.0, "rule {n} with endpoints is bracketed by {} and {}", pe[0], pe[n + 1]);
    for i in 0..n {
        ck!(log, pe[i + 1] == p[i] && we[i + 1] == w[i], "rule {n} with endpoints differs inside at {i}");
    }
    // scaling
    let a = rng.f(-3.0, 3.0);
    let b = a + rng.f(1e-3, 3.0);
    for pts in [&p, &pe] {
        let (sc, sp) = scale_gauss_quad_points(pts, a, b);
        ck!(log, close(sc, (b - a) / 2.0, 1e-13), "scaling to [{a}, {b}] reports {sc}");
        ck!(log, sp.len() == pts.len(), "scaling changed the number of points");
        for (x, y) in pts.iter().zip(&sp) {
            let want = a + (x + 1.0) / 2.0 * (b - a);
            ck!(log, close(*y, want, 1e-13), "scaling {x} to [{a}, {b}] gives {y}, expected {want}");
        }
    }
    Ok(())
}

pub fn p14(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let n = rng.below(21);
    let mut pts: Vec<f64> = (0..1 + rng.below(6)).map(|_| rng.f(-1.0, 1.0)).collect();
    pts.extend([-1.0, 1.0, 0.0]);
    let d2 = rng.chance(0.5);
    log.op(format!("HierPoly::with({n}, {pts:?}, {d2})"));
    let h = HierPoly::with(n, &pts, d2);
    for i in 0..=n {
        for (p, x) in pts.iter().enumerate() {
            let mut v = vec![
                ("norm", h.norm(i, p), norm_ref(i, *x, 0)),
                ("norm_d1", h.norm_d1(i, p), norm_ref(i, *x, 1)),
                ("tang", h.tang(i, p), tang_ref(i, *x, 0)),
                ("tang_d1", h.tang_d1(i, p), tang_ref(i, *x, 1)),
            ];
            if d2 {
                v.push(("norm_d2", h.norm_d2(i, p), norm_ref(i, *x, 2)));
                v.push(("tang_d2", h.tang_d2(i, p), tang_ref(i, *x, 2)));
            }
            for (name, g, w) in v {
                ck!(log, close(g, w, 1e-11), "{name} of order {i} at {x} is {g}, expected {w} (n_max {n}, second derivatives {d2})");
            }
        }
    }
    // vector functions on refined cells, sampled over themselves or a descendant
    let mesh = random_mesh(rng, log, 2, 3, 24, 1)?;
    let e = rng.below(mesh.elems.len());
    let desc: Vec<usize> = (0..mesh.elems.len()).filter(|c| is_ancestor(&mesh, e, *c)).collect();
    let d = if desc.is_empty() || rng.chance(0.4) { None } else { Some(*rng.pick(&desc)) };
    let up: Vec<f64> = vec![-1.0, rng.f(-0.9, 0.0), rng.f(0.1, 0.9), 1.0];
    let vp: Vec<f64> = vec![-1.0, rng.f(-0.9, 0.9), 1.0];
    let mx = [1 + rng.below(6), 1 + rng.below(6)];
    log.op(format!("HierCurlBasisFn::defined_over(cell {e}, {d:?}, {up:?} x {vp:?}, {mx:?})"));
    let same = d.is_none() && rng.chance(0.3);
    let bf: HierCurlBasisFn<HierPoly> =
        HierCurlBasisFn::defined_over(&mesh.elems[e], if same { Some(&mesh.elems[e]) } else { d.map(|d| &mesh.elems[d]) }, [&up, &vp], mx, true);
    let [x0, x1, y0, y1] = rect(&mesh, e);
    let (dx, dy) = ((x1 - x0) / 2.0, (y1 - y0) / 2.0);
    let [a0, a1, b0, b1] = rect(&mesh, d.unwrap_or(e));
    let sc = [(a1 - a0) / (x1 - x0), (b1 - b0) / (y1 - y0)];
    ck!(log, close(bf.para_scale[0], sc[0], 1e-11) && close(bf.para_scale[1], sc[1], 1e-11), "parametric scale is {:?}, expected {sc:?}", bf.para_scale);
    ck!(log, close(bf.deriv_scale()[0], sc[0], 1e-11) && close(bf.u_glq_scale(), sc[0], 1e-11) && close(bf.v_glq_scale(), sc[1], 1e-11) && close(bf.glq_scale(), sc[0] * sc[1], 1e-11), "reported scales differ from {sc:?}");
    for k in 0..4 {
        ck!(log, close(bf.edge_glq_scale(k), sc[k / 2], 1e-11), "edge scale {k} is {}", bf.edge_glq_scale(k));
    }
    let ps = V2D::from([rng.f(0.1, 2.0), rng.f(0.1, 2.0)]);
    for m in 0..up.len() {
        for n in 0..vp.len() {
            // position of the sampled point in the cell's own coordinates
            let x = (a0 + a1) / 2.0 + (a1 - a0) / 2.0 * up[m];
            let y = (b0 + b1) / 2.0 + (b1 - b0) / 2.0 * vp[n];
            let u = (x - (x0 + x1) / 2.0) / dx;
            let v = (y - (y0 + y1) / 2.0) / dy;
            ck!(log, close(bf.sample_scale([m, n]), dx * dy, 1e-10), "determinant {} expected {}", bf.sample_scale([m, n]), dx * dy);
            ck!(log, close(bf.uv_ratio([m, n]), dx / dy, 1e-9) && close(bf.vu_ratio([m, n]), dy / dx, 1e-9), "ratios {} {}", bf.uv_ratio([m, n]), bf.vu_ratio([m, n]));
            let mr = (dx / dy).max(dy / dx);
            ck!(log, close(bf.max_uv_ratio([m, n]), mr, 1e-9), "max_uv_ratio is {}, the ratios are {} and {}", bf.max_uv_ratio([m, n]), dx / dy, dy / dx);
            let i = rng.below(mx[0] + 1);
            let j = rng.below(mx[1] + 1);
            let nr = norm_ref;
            let tr = tang_ref;
            let w: Vec<(&str, V2D, [f64; 2])> = vec![
                ("f_u", bf.f_u([i, j], [m, n]), [nr(i, u, 0) * tr(j, v, 0) / dx, 0.0]),
                ("f_v", bf.f_v([i, j], [m, n]), [0.0, tr(i, u, 0) * nr(j, v, 0) / dy]),
                ("f_u_d1", bf.f_u_d1([i, j], [m, n], &ps), [nr(i, u, 0) * tr(j, v, 1) / dx * ps[0], 0.0]),
                ("f_v_d1", bf.f_v_d1([i, j], [m, n], &ps), [0.0, tr(i, u, 1) * nr(j, v, 0) / dy * ps[1]]),
                ("f_u_d2", bf.f_u_d2([i, j], [m, n], &ps), [nr(i, u, 0) * tr(j, v, 2) / dx * ps[0] * ps[0], 0.0]),
                ("f_v_d2", bf.f_v_d2([i, j], [m, n], &ps), [0.0, tr(i, u, 2) * nr(j, v, 0) / dy * ps[1] * ps[1]]),
                ("f_u_dd", bf.f_u_dd([i, j], [m, n], &ps), [nr(i, u, 1) * tr(j, v, 1) / dx * ps[0] * ps[1], 0.0]),
                ("f_v_dd", bf.f_v_dd([i, j], [m, n], &ps), [0.0, tr(i, u, 1) * nr(j, v, 1) / dy * ps[0] * ps[1]]),
            ];
            for (name, g, w) in w {
                ck!(log, close(g.x(), w[0], 1e-8) && close(g.y(), w[1], 1e-8), "{name}([{i}, {j}]) of cell {e} sampled over {d:?} at ({u}, {v}) is {g:?}, expected {w:?}");
            }
        }
    }
    Ok(())
}

fn rand_coord(rng: &mut Rng) -> f64 {
    match rng.below(7) {
        0 => 0.0,
        1 => -0.0,
        2 => rng.range(-5, 5) as f64,
        3 => rng.range(-50, 50) as f64 / 10.0,
        4 => rng.f(-100.0, 100.0),
        5 => rng.f(-1.0, 1.0),
        _ => rng.range(-40, 40) as f64 * 0.25e-11,
    }
}
/// rounded coordinate in units of 1e-12 when the value is clearly away from a rounding boundary
fn units(v: f64) -> Option<i128> {
    let s = if v < 0.0 { -1 } else { 1 };
    let a = v.abs();
    let int = a.trunc();
    let fr = (a - int) * 1e12; // exact subtraction
    let r = fr.round();
    if (fr - r).abs() > 0.49 {
        return None;
    }
    Some(s * (int as i128 * 1_000_000_000_000 + r as i128))
}

pub fn p20(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    for _ in 0..8 {
        let mut c = [[0.0; 2]; 2];
        for p in c.iter_mut() {
            for v in p.iter_mut() {
                *v = rand_coord(rng);
            }
        }
        for d in 0..2 {
            match rng.below(4) {
                0 => c[1][d] = c[0][d],
                1 => c[1][d] = c[0][d] + rng.range(-6, 6) as f64 * 0.3e-12,
                2 => c[1][d] = -c[0][d],
                _ => {}
            }
        }
        let (p, q) = (Point::from(c[0]), Point::new(c[1][0], c[1][1]));
        let un: Vec<Option<i128>> = c.iter().flatten().map(|v| units(*v)).collect();
        if let [Some(a), Some(b), Some(d), Some(e)] = un[..] {
            ck!(log, (p == q) == (a == d && b == e), "points {:?} and {:?} compare equal: {}", c[0], c[1], p == q);
            ck!(log, p.x_order(&q) == a.cmp(&d), "x_order of {:?} and {:?}", c[0], c[1]);
            ck!(log, p.y_order(&q) == b.cmp(&e), "y_order of {:?} and {:?}", c[0], c[1]);
            ck!(log, p.x_order(&q) == q.x_order(&p).reverse() && p.y_order(&q) == q.y_order(&p).reverse(), "ordering of {:?} and {:?} is not antisymmetric", c[0], c[1]);
            if (a, b) != (d, e) {
                let (dx, dy) = ((c[1][0] - c[0][0]).abs(), (c[1][1] - c[0][1]).abs());
                if (dx - dy).abs() > 1e-9 * dx.max(dy) {
                    let want = if dx > dy { ParaDir::U } else { ParaDir::V };
                    ck!(log, p.orientation_with(&q) == want, "orientation of {:?} - {:?} is {:?}", c[0], c[1], p.orientation_with(&q));
                    ck!(log, q.orientation_with(&p) == want, "orientation of {:?} - {:?} is {:?}", c[1], c[0], q.orientation_with(&p));
                }
            } else {
                ck!(log, guard(|| p.orientation_with(&q)).is_err(), "orientation of coincident points {:?} - {:?} is not refused", c[0], c[1]);
            }
        }
        let dist = ((c[1][0] - c[0][0]).powi(2) + (c[1][1] - c[0][1]).powi(2)).sqrt();
        ck!(log, close(p.dist(&q), dist, 1e-13) && p.x == c[0][0] && q.y == c[1][1], "distance of {:?} and {:?} is {}", c[0], c[1], p.dist(&q));
        let b = Point::between(&p, &q);
        ck!(log, close(b.x, (c[0][0] + c[1][0]) / 2.0, 1e-15) && close(b.y, (c[0][1] + c[1][1]) / 2.0, 1e-15), "midpoint of {:?} and {:?} is ({}, {})", c[0], c[1], b.x, b.y);
        let s = p + q;
        ck!(log, s.x == c[0][0] + c[1][0] && s.y == c[0][1] + c[1][1], "sum of {:?} and {:?} is ({}, {})", c[0], c[1], s.x, s.y);
        let h = p / 4.0;
        ck!(log, h.x == c[0][0] / 4.0 && h.y == c[0][1] / 4.0, "{:?} / 4 is ({}, {})", c[0], h.x, h.y);
        let _ = Ordering::Less;
    }
    // vectors and matrices
    let r = |rng: &mut Rng| rng.f(-4.0, 4.0);
    for _ in 0..4 {
        let a = [r(rng), r(rng), r(rng), r(rng)];
        let b = [r(rng), r(rng), r(rng), r(rng)];
        let (k, v) = (rng.f(0.2, 3.0), [r(rng), r(rng)]);
        let w = [r(rng), r(rng)];
        log.op(format!("M2D {a:?} {b:?} V2D {v:?} {w:?} scalar {k}"));
        let (ma, mb) = (M2D::from([a[0], a[1]], [a[2], a[3]]), M2D::from([b[0], b[1]], [b[2], b[3]]));
        let (vv, vw) = (V2D::from(v), V2D::from(w));
        let fl = |m: M2D| [m.u[0], m.u[1], m.v[0], m.v[1]];
        let eq = |x: [f64; 4], y: [f64; 4], t: f64| x.iter().zip(&y).all(|(p, q)| close(*p, *q, t));
        ck!(log, fl(ma) == a, "M2D::from {a:?} gives {:?}", fl(ma));
        let det = a[0] * a[3] - a[1] * a[2];
        ck!(log, close(ma.det(), det, 1e-13), "determinant of {a:?} is {}", ma.det());
        ck!(log, fl(ma.transpose()) == [a[0], a[2], a[1], a[3]], "transpose of {a:?} is {:?}", fl(ma.transpose()));
        let prod = [a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]];
        ck!(log, eq(fl(ma * mb), prod, 1e-13), "product of {a:?} and {b:?} is {:?}, expected {prod:?}", fl(ma * mb));
        let mv = ma * vv;
        ck!(log, close(mv[0], a[0] * v[0] + a[1] * v[1], 1e-13) && close(mv[1], a[2] * v[0] + a[3] * v[1], 1e-13), "{a:?} times {v:?} is {mv:?}");
        ck!(log, eq(fl(ma / k), [a[0] / k, a[1] / k, a[2] / k, a[3] / k], 1e-13), "{a:?} / {k} is {:?}", fl(ma / k));
        if det.abs() > 0.05 {
            let i = fl(ma.inverse());
            let id = [a[0] * i[0] + a[1] * i[2], a[0] * i[1] + a[1] * i[3], a[2] * i[0] + a[3] * i[2], a[2] * i[1] + a[3] * i[3]];
            ck!(log, eq(id, [1.0, 0.0, 0.0, 1.0], 1e-9), "{a:?} times its inverse {i:?} is {id:?}");
        }
        let pairs: Vec<(&str, V2D, [f64; 2])> = vec![
            ("add", vv + vw, [v[0] + w[0], v[1] + w[1]]),
            ("mul", vv * vw, [v[0] * w[0], v[1] * w[1]]),
            ("mul ref", vv * &vw, [v[0] * w[0], v[1] * w[1]]),
            ("scale", vv * k, [v[0] * k, v[1] * k]),
            ("div scalar", vv / k, [v[0] / k, v[1] / k]),
            ("div", vv / vw, [v[0] / w[0], v[1] / w[1]]),
        ];
        for (n, g, e) in pairs {
            ck!(log, close(g.x(), e[0], 1e-13) && close(g.y(), e[1], 1e-13) && g[0] == g.x() && g[1] == g.y(), "{n} of {v:?}, {w:?}, {k} is {g:?}, expected {e:?}");
        }
        let d = v[0] * w[0] + v[1] * w[1];
        ck!(log, close(vv.dot_with(&vw), d, 1e-13) && close(V2D::dot(vv, vw), d, 1e-13), "dot of {v:?} and {w:?}");
    }
    // cell mappings
    let mesh = random_mesh(rng, log, 3, 3, 30, 1)?;
    for e in 0..mesh.elems.len() {
        let el = &mesh.elems[e];
        let [x0, x1, y0, y1] = rect(&mesh, e);
        for p in [[0.0, 0.0], [rng.f(-1.0, 1.0), rng.f(-1.0, 1.0)]] {
            let m = el.parametric_mapping(V2D::from(p), el.parametric_range());
            let want = [(x1 - x0) / 2.0, 0.0, 0.0, (y1 - y0) / 2.0];
            let got = [m.u[0], m.u[1], m.v[0], m.v[1]];
            ck!(log, got.iter().zip(&want).all(|(g, w)| (g - w).abs() <= 1e-12 * (1.0 + w.abs() + x0.abs() + y0.abs())), "mapping of cell {e} over {:?} is {got:?}, expected {want:?}", el.parametric_range());
        }
        // any sub-range
        let (a, b) = (rng.f(-1.0, 0.9), rng.f(-1.0, 0.9));
        let rg = [[a, rng.f(a, 1.0)], [b, rng.f(b, 1.0)]];
        let pts = &el.element.points;
        let want = [
            (pts[3].x - pts[0].x) * (rg[0][1] - rg[0][0]) / 4.0,
            (pts[3].y - pts[0].y) * (rg[1][1] - rg[1][0]) / 4.0,
        ];
        let m = el.element.parametric_mapping(V2D::from([0.3, -0.2]), rg);
        ck!(log, close(m.u[0], want[0], 1e-12) && close(m.v[1], want[1], 1e-12) && m.u[1] == 0.0 && m.v[0] == 0.0, "mapping of element {} over {rg:?} is {m:?}, expected diagonal {want:?}", el.element.id);
    }
    Ok(())
}
