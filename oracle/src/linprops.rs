//! P11, P12, P18: sparse matrices, exports, dense eigen-solver.
use crate::ck;
use crate::ctx::*;
use fem_2d::fem_problem::linalg::nalgebra_solve::{nalgebra_solve_gep, NalgebraGEPError};
use fem_2d::fem_problem::linalg::sparse_matrix::{AIJMatrixBinary, SparseMatrix};
use fem_2d::fem_problem::linalg::GEP;
use nalgebra::DMatrix;
use rayon::prelude::*;
use std::collections::BTreeMap;

type Ref = BTreeMap<[usize; 2], f64>;

fn contents(m: &SparseMatrix) -> Vec<([usize; 2], f64)> {
    m.iter_upper_tri().collect()
}
fn same(m: &SparseMatrix, r: &Ref, log: &mut Log, what: &str) -> Result<(), String> {
    let c = contents(m);
    let w: Vec<([usize; 2], f64)> = r.iter().map(|(k, v)| (*k, *v)).collect();
    ck!(log, c.len() == w.len() && c.iter().zip(&w).all(|(a, b)| a.0 == b.0 && a.1.to_bits() == b.1.to_bits()), "{what}: entries are {c:?}, expected {w:?}");
    for (k, _) in &c {
        ck!(log, k[0] <= k[1] && k[1] < m.dimension, "{what}: entry {k:?} outside the upper triangle of dimension {}", m.dimension);
    }
    let n = r.keys().map(|k| if k[0] == k[1] { 1 } else { 2 }).sum::<usize>();
    ck!(log, m.num_entries() == n, "{what}: num_entries is {}, expected {n}", m.num_entries());
    Ok(())
}
fn radd(r: &mut Ref, [a, b]: [usize; 2], v: f64) {
    let k = [a.min(b), a.max(b)];
    match r.get_mut(&k) {
        Some(x) => *x += v,
        None => {
            r.insert(k, v);
        }
    }
}
thread_local! { static SCALE: std::cell::Cell<(f64, bool)> = std::cell::Cell::new((1.0, false)); }
/// the magnitudes used in one case: ordinary, all very small or very large, or large and tiny mixed
fn pick_scale(rng: &mut Rng) {
    let s = match rng.below(4) {
        0 => (2f64.powi(rng.range(-300, 300) as i32), false),
        1 => (2f64.powi(rng.range(-90, -20) as i32), false),
        2 => (1.0, true),
        _ => (1.0, false),
    };
    SCALE.with(|c| c.set(s));
}
// dyadic values of one case's scale: every sum below is exact, so any order of additions gives the same result
fn val(rng: &mut Rng) -> f64 {
    let (s, mixed) = SCALE.with(|c| c.get());
    if mixed {
        let k = rng.range(-16, 16) as f64;
        if rng.chance(0.5) { k } else { k * 2f64.powi(-42) }
    } else {
        rng.range(-4096, 4096) as f64 / 64.0 * s
    }
}
fn dim(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => 1,
        1 => 2,
        5 => 1 << (8 + rng.below(24)),
        _ => 3 + rng.below(12),
    }
}
fn idx(rng: &mut Rng, d: usize) -> usize {
    match rng.below(6) {
        0 => 0,
        1 => d - 1,
        2 => rng.below(d.min(3)),
        _ => rng.below(d),
    }
}
fn rand_matrix(rng: &mut Rng, d: usize, n: usize) -> (SparseMatrix, Ref) {
    let mut m = SparseMatrix::new(d);
    let mut r = Ref::new();
    for _ in 0..rng.below(n + 1) {
        let (k, v) = ([idx(rng, d), idx(rng, d)], val(rng));
        m.insert(k, v);
        radd(&mut r, k, v);
    }
    (m, r)
}

pub fn p11(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    pick_scale(rng);
    let d = dim(rng);
    log.op(format!("SparseMatrix::new({d})"));
    let mut m = SparseMatrix::new(d);
    let mut r = Ref::new();
    ck!(log, m.dimension == d, "dimension is {}", m.dimension);
    same(&m, &r, log, "new matrix")?;
    for _ in 0..1 + rng.below(10) {
        match rng.below(8) {
            0..=2 => {
                let mut k = [idx(rng, d), idx(rng, d)];
                if !r.is_empty() && rng.chance(0.4) {
                    k = **rng.pick(&r.keys().collect::<Vec<_>>());
                    if rng.chance(0.5) {
                        k = [k[1], k[0]];
                    }
                }
                let v = val(rng);
                log.op(format!("insert({k:?}, {v})"));
                m.insert(k, v);
                radd(&mut r, k, v);
            }
            3..=4 => {
                let g: Vec<([usize; 2], f64)> = (0..rng.below(8)).map(|_| ([idx(rng, d), idx(rng, d)], val(rng))).collect();
                log.op(format!("insert_group({g:?})"));
                for (k, v) in &g {
                    radd(&mut r, *k, *v);
                }
                m.insert_group(g);
            }
            5 => {
                let (mut o, or) = rand_matrix(rng, d, 8);
                log.op(format!("consume_matrix({or:?})"));
                m.consume_matrix(&mut o);
                for (k, v) in or {
                    radd(&mut r, k, v);
                }
                ck!(log, o.num_entries() == 0 && contents(&o).is_empty() && o.dimension == d, "the consumed matrix is not empty afterwards: {:?}", contents(&o));
            }
            6 => {
                // refused inputs
                let before = contents(&m);
                let bad = *rng.pick(&[d, d + 1, usize::MAX, d + (1 << 32)]);
                let k = if rng.chance(0.5) { [bad, idx(rng, d)] } else { [idx(rng, d), bad] };
                log.op(format!("insert({k:?}, 1) and consume of another dimension, refused"));
                ck!(log, guard(|| m.insert(k, 1.0)).is_err(), "insert({k:?}) into dimension {d} is accepted");
                ck!(log, contents(&m) == before, "the refused insert({k:?}) changed the matrix to {:?}", contents(&m));
                let od = if rng.chance(0.5) { d + 1 } else { d.max(2) - 1 };
                if od != d {
                    let (mut o, _) = rand_matrix(rng, od, 6);
                    let ob = contents(&o);
                    ck!(log, guard(|| m.consume_matrix(&mut o)).is_err(), "consuming dimension {od} into {d} is accepted");
                    ck!(log, contents(&m) == before && contents(&o) == ob, "the refused consume changed a matrix");
                }
                let mut c = m.clone();
                let good = ([idx(rng, d), idx(rng, d)], val(rng));
                ck!(log, guard(|| c.insert_group(vec![good, (k, 1.0)])).is_err(), "insert_group with {k:?} into dimension {d} is accepted");
                let cc = contents(&c);
                let mut rr = r.clone();
                radd(&mut rr, good.0, good.1);
                let w: Vec<_> = rr.into_iter().collect();
                ck!(log, cc == before || cc == w, "the refused group changed other entries: {cc:?}");
            }
            _ => {
                let c = m.clone();
                same(&c, &r, log, "clone")?;
            }
        }
        same(&m, &r, log, "after the last operation")?;
    }
    ck!(log, guard(|| SparseMatrix::new(u32::MAX as usize + 1 + rng.below(1000))).is_err(), "a dimension beyond u32 is accepted");
    // parallel accumulation of many matrices
    let n = rng.below(20);
    let mut gep = GEP::new(d);
    let (mut ra, mut rb) = (Ref::new(), Ref::new());
    let mut ms = vec![];
    for _ in 0..n {
        let (a, x) = rand_matrix(rng, d, 5);
        let (b, y) = rand_matrix(rng, d, 5);
        for (k, v) in x {
            radd(&mut ra, k, v);
        }
        for (k, v) in y {
            radd(&mut rb, k, v);
        }
        ms.push([a, b]);
    }
    log.op(format!("par_extend of {n} pairs"));
    let split = if n > 0 { rng.below(n) } else { 0 };
    let tail = ms.split_off(split);
    gep.par_extend(ms.into_par_iter());
    gep.par_extend(tail.into_par_iter());
    same(&gep.a, &ra, log, "A after par_extend")?;
    same(&gep.b, &rb, log, "B after par_extend")?;
    Ok(())
}

pub fn p12(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    pick_scale(rng);
    let big = rng.chance(0.02);
    let d = if big { (1usize << (8 + rng.below(9))) + rng.below(6000) } else { 1 + rng.below(14) };
    let (m, r) = rand_matrix(rng, d, 30);
    log.op(format!("matrix of dimension {d}: {r:?}"));
    log.interesting = !r.is_empty();
    if big {
        return p12_large(d, m, r, rng, log);
    }
    let dense: DMatrix<f64> = m.clone().into();
    ck!(log, dense.nrows() == d && dense.ncols() == d, "dense form is {} x {}", dense.nrows(), dense.ncols());
    let mut full = BTreeMap::new();
    for (k, v) in &r {
        full.insert(*k, *v);
        full.insert([k[1], k[0]], *v);
    }
    for i in 0..d {
        for j in 0..d {
            let w = full.get(&[i, j]).copied().unwrap_or(0.0);
            ck!(log, dense[(i, j)] == w, "dense ({i}, {j}) is {}, expected {w}", dense[(i, j)]);
        }
    }
    let aij: AIJMatrixBinary = m.clone().into();
    let counts: Vec<i32> = (0..d).map(|i| full.keys().filter(|k| k[0] == i).count() as i32).collect();
    let cols: Vec<i32> = full.keys().map(|k| k[1] as i32).collect();
    let vals: Vec<f64> = full.values().copied().collect();
    ck!(log, aij.dim == d, "row-compressed dimension is {}", aij.dim);
    ck!(log, aij.i == counts, "row counts are {:?}, expected {counts:?}", aij.i);
    ck!(log, aij.j == cols, "columns are {:?}, expected {cols:?}", aij.j);
    ck!(log, aij.a == vals, "values are {:?}, expected {vals:?}", aij.a);
    ck!(log, aij.a.len() == m.num_entries(), "num_entries {} but {} exported", m.num_entries(), aij.a.len());
    let mut want: Vec<u8> = vec![];
    want.extend(1211216u32.to_be_bytes());
    want.extend((d as u32).to_be_bytes());
    want.extend((d as u32).to_be_bytes());
    want.extend((vals.len() as u32).to_be_bytes());
    for c in &counts {
        want.extend(c.to_be_bytes());
    }
    for c in &cols {
        want.extend(c.to_be_bytes());
    }
    for v in &vals {
        want.extend(v.to_be_bytes());
    }
    let p = format!("{}/m.bin", log.dir);
    if rng.chance(0.5) {
        std::fs::write(&p, vec![7u8; 5000]).unwrap();
    }
    aij.print_to_petsc_binary_file(&p).map_err(|e| format!("{e}"))?;
    let got = std::fs::read(&p).unwrap();
    ck!(log, got == want, "the binary file is {got:?}, expected {want:?}");
    // both matrices of a problem
    let (m2, r2) = rand_matrix(rng, d, 30);
    std::fs::create_dir_all(format!("{}/tmp", log.dir)).unwrap();
    let g = GEP { a: m.clone(), b: m2.clone() };
    let [da, db] = g.clone().to_nalgebra_dense_mats();
    ck!(log, da == dense, "dense A of the problem differs from A");
    for ([i, j], v) in &r2 {
        ck!(log, db[(*i, *j)] == *v && db[(*j, *i)] == *v, "dense B ({i}, {j}) is {}", db[(*i, *j)]);
    }
    g.print_to_petsc_binary_files(&log.dir, "x").map_err(|e| format!("{e}"))?;
    let a = std::fs::read(format!("{}/tmp/x_a.dat", log.dir)).unwrap();
    ck!(log, a == want, "the binary file of A differs from A");
    let aij2: AIJMatrixBinary = m2.into();
    aij2.print_to_petsc_binary_file(&p).map_err(|e| format!("{e}"))?;
    ck!(log, std::fs::read(format!("{}/tmp/x_b.dat", log.dir)).unwrap() == std::fs::read(&p).unwrap(), "the binary file of B differs from B");
    ck!(log, aij.print_to_petsc_binary_file(format!("{}/no/such/dir/f", log.dir)).is_err(), "writing into a missing directory is not an error");
    Ok(())
}

/// exports of a large, nearly empty matrix (the dense form is left out)
fn p12_large(d: usize, mut m: SparseMatrix, mut r: Ref, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    for _ in 0..rng.below(40) {
        let (k, v) = ([idx(rng, d), idx(rng, d)], val(rng));
        m.insert(k, v);
        radd(&mut r, k, v);
    }
    if rng.chance(0.3) {
        let row = rng.below(d);
        for c in 0..d.min(1500) {
            m.insert([row, c], 1.0);
            radd(&mut r, [row, c], 1.0);
        }
    }
    let mut full = BTreeMap::new();
    for (k, v) in &r {
        full.insert(*k, *v);
        full.insert([k[1], k[0]], *v);
    }
    let mut counts = vec![0i32; d];
    for k in full.keys() {
        counts[k[0]] += 1;
    }
    let aij: AIJMatrixBinary = m.clone().into();
    ck!(log, aij.dim == d && aij.i.len() == d, "row-compressed dimension is {} with {} row counts", aij.dim, aij.i.len());
    for k in 0..d {
        ck!(log, aij.i[k] == counts[k], "row {k} of {d} has count {}, expected {}", aij.i[k], counts[k]);
    }
    ck!(log, aij.j.len() == full.len() && aij.a.len() == full.len(), "{} columns and {} values exported, expected {}", aij.j.len(), aij.a.len(), full.len());
    for (n, (k, v)) in full.iter().enumerate() {
        ck!(log, aij.j[n] as i64 == k[1] as i64 && aij.a[n].to_bits() == v.to_bits(), "entry {n} is column {} with value {}, expected {k:?} with {v}", aij.j[n], aij.a[n]);
    }
    let mut want: Vec<u8> = vec![];
    for w in [1211216u32, d as u32, d as u32, full.len() as u32] {
        want.extend(w.to_be_bytes());
    }
    counts.iter().for_each(|c| want.extend(c.to_be_bytes()));
    full.keys().for_each(|k| want.extend((k[1] as i32).to_be_bytes()));
    full.values().for_each(|v| want.extend(v.to_be_bytes()));
    let p = format!("{}/l.bin", log.dir);
    aij.print_to_petsc_binary_file(&p).map_err(|e| format!("{e}"))?;
    let got = std::fs::read(&p).unwrap();
    let at = got.iter().zip(&want).position(|(a, b)| a != b);
    ck!(log, got.len() == want.len() && at.is_none(), "the binary file of dimension {d} has {} bytes (expected {}), first difference at {at:?}", got.len(), want.len());
    Ok(())
}

pub fn p18(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let n = 1 + rng.below(12);
    // B = C C^T + n I, A symmetric
    let c = DMatrix::from_fn(n, n, |_, _| rng.f(-1.0, 1.0));
    let diag = rng.chance(0.2);
    let b = if diag { DMatrix::from_diagonal_element(n, n, rng.f(0.2, 3.0)) } else { &c * c.transpose() + DMatrix::identity(n, n) * rng.f(0.3, 2.0) };
    let mut a = DMatrix::from_fn(n, n, |_, _| rng.f(-3.0, 3.0));
    a = (&a + a.transpose()) * 0.5;
    let sparse = |x: &DMatrix<f64>| {
        let mut m = SparseMatrix::new(n);
        for i in 0..n {
            for j in i..n {
                m.insert([i, j], x[(i, j)]);
            }
        }
        m
    };
    let target = rng.f(-4.0, 4.0);
    log.op(format!("nalgebra_solve_gep(A {:?}, B {:?}, target {target})", a.as_slice(), b.as_slice()));
    let r = nalgebra_solve_gep(GEP { a: sparse(&a), b: sparse(&b) }, target);
    // reference: symmetric reduction with the Cholesky factor
    let l = b.clone().cholesky().unwrap().l();
    let li = l.clone().try_inverse().unwrap();
    let s = &li * &a * li.transpose();
    let ev = nalgebra::SymmetricEigen::new((&s + s.transpose()) * 0.5).eigenvalues;
    if ev.iter().all(|e| e.abs() < 1e-9) {
        return Ok(());
    }
    let p = r.map_err(|e| format!("the solver reports {e:?} for a well-conditioned problem"))?;
    ck!(log, p.vector.len() == n, "the eigenvector has {} entries for {n} degrees of freedom", p.vector.len());
    let best = ev.iter().map(|e| (e - target).abs()).fold(f64::MAX, f64::min);
    let an = a.norm() + b.norm();
    ck!(log, ev.iter().any(|e| (e - p.value).abs() < 1e-7 * (1.0 + an)), "the value {} is not an eigenvalue (eigenvalues {:?})", p.value, ev.as_slice());
    ck!(log, ((p.value - target).abs() - best).abs() < 1e-7 * (1.0 + an), "the value {} is not the eigenvalue nearest {target} (eigenvalues {:?})", p.value, ev.as_slice());
    let x = DMatrix::from_column_slice(n, 1, &p.vector);
    let res = (&a * &x - &b * &x * p.value).norm();
    ck!(log, x.norm() > 1e-6 && res <= 1e-7 * x.norm() * (1.0 + an), "A x - lambda B x has norm {res} for the returned pair (value {}, |x| = {})", p.value, x.norm());
    let nv = p.normalized_eigenvector();
    ck!(log, (nv.iter().map(|v| v * v).sum::<f64>() - 1.0).abs() < 1e-9, "the normalized eigenvector has another length");
    for (v, w) in nv.iter().zip(&p.vector) {
        ck!(log, (v * x.norm() - w).abs() < 1e-9 * (1.0 + w.abs()), "the normalized eigenvector points elsewhere");
    }
    // documented errors
    if rng.chance(0.2) {
        let mut bad = b.clone();
        let k = rng.below(n);
        bad[(k, k)] = -1.0;
        let r = nalgebra_solve_gep(GEP { a: sparse(&a), b: sparse(&bad) }, target);
        ck!(log, matches!(r, Err(NalgebraGEPError::FailedToInvertB)), "a second matrix that is not positive definite is not FailedToInvertB");
        let z = DMatrix::zeros(n, n);
        let r = nalgebra_solve_gep(GEP { a: sparse(&z), b: sparse(&b) }, target);
        ck!(log, matches!(r, Err(NalgebraGEPError::SpuriouslyConverged)), "only zero eigenvalues is not SpuriouslyConverged");
        let r = nalgebra_solve_gep(GEP::new(1001 + rng.below(50)), target);
        ck!(log, matches!(r, Err(NalgebraGEPError::ProblemTooLarge)), "a too large problem is not ProblemTooLarge");
    }
    Ok(())
}
