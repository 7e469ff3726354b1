//! P09, P10, P17: basis functions, degrees of freedom, conformity, assembly.
use crate::ck;
use crate::ctx::*;
use crate::gen::*;
use crate::numprops::{gauss_ref, norm_ref, tang_ref};
use fem_2d::fem_domain::basis::{HierBasisFn, HierCurlBasisFn};
use fem_2d::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
use fem_2d::fem_domain::domain::dof::basis_spec::{BSAddress, BasisDir, BasisLoc, BasisSpec};
use fem_2d::fem_domain::domain::mesh::p_refinement::Orders;
use fem_2d::fem_domain::domain::mesh::{space::ParaDir, Mesh};
use fem_2d::fem_domain::domain::{ContinuityCondition, Domain};
use fem_2d::fem_problem::galerkin::{galerkin_sample_gep_hcurl, GalerkinSamplingError};
use fem_2d::fem_problem::integration::integrals::{curl_curl::CurlCurl, inner::L2Inner};
use std::collections::{BTreeMap, BTreeSet};

fn ords(mesh: &Mesh, e: usize) -> [usize; 2] {
    let o = mesh.elems[e].poly_orders;
    [o.ni as usize, o.nj as usize]
}
fn dirname(d: BasisDir) -> u8 {
    match d {
        BasisDir::U => 0,
        BasisDir::V => 1,
        BasisDir::W => 2,
    }
}

/// a mesh of few cells whose orders are anywhere in the documented range, often equal or nearly so
fn high_order_mesh(rng: &mut Rng, log: &mut Log) -> Result<Mesh, String> {
    let mut mesh = random_mesh(rng, log, 2, 1, 10, 1)?;
    let top = 10 + rng.below(11);
    let v: Vec<(usize, Orders)> = (0..mesh.elems.len())
        .map(|e| {
            let mut o = || (if rng.chance(0.5) { top } else { 1 + rng.below(20) }) as u8;
            (e, Orders::new(o(), o()))
        })
        .collect();
    log.op(format!("set_expansion_orders({v:?})"));
    mesh.set_expansion_orders(v).map_err(|e| format!("{e:?}"))?;
    Ok(mesh)
}

pub fn p09(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mesh = if rng.chance(0.03) {
        // expansion orders up to the limit on a small mesh
        high_order_mesh(rng, log)?
    } else {
        let mo = if rng.chance(0.1) { 9 } else { 1 + rng.below(5) as u8 };
        random_mesh(rng, log, 3, 5, 60, mo)?
    };
    let before = snapshot(&mesh);
    log.op("Domain::from_mesh(mesh, HCurl)");
    let dom = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
    let mesh = &dom.mesh;
    log.interesting = !dom.dofs.is_empty();
    // the domain keeps the mesh (only activation may be set)
    for (e, b) in before.iter().filter(|l| l.starts_with("elem ")).enumerate() {
        let a = format!("elem {}", elem_view(mesh, e));
        ck!(log, &a == b, "building the domain changed a cell: {b} became {a}");
    }
    ck!(log, dom.basis_specs.len() == mesh.elems.len(), "{} lists of basis functions for {} cells", dom.basis_specs.len(), mesh.elems.len());
    let mut referred: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    for (pos, d) in dom.dofs.iter().enumerate() {
        ck!(log, d.id == pos, "degree of freedom at position {pos} has id {}", d.id);
        let a = d.get_basis_specs();
        ck!(log, a.len() == 1 || a.len() == 2, "degree of freedom {pos} has {} basis functions", a.len());
        for ad in a.iter() {
            let bs = dom
                .get_basis_spec(BSAddress::new(ad.elem_id, ad.elem_idx))
                .map_err(|e| format!("degree of freedom {pos} refers to ({}, {}) which does not exist: {e}", ad.elem_id, ad.elem_idx))?;
            ck!(log, bs.dof_id == Some(pos), "({}, {}) of degree of freedom {pos} names degree of freedom {:?}", ad.elem_id, ad.elem_idx, bs.dof_id);
            ck!(log, bs.elem_id == ad.elem_id && bs.elem_idx == Some(ad.elem_idx), "({}, {}) of degree of freedom {pos} names address ({}, {:?})", ad.elem_id, ad.elem_idx, bs.elem_id, bs.elem_idx);
            referred.entry((ad.elem_id, ad.elem_idx)).or_default().push(pos);
            let ok = match bs.loc {
                BasisLoc::ElemBs => a.len() == 1,
                BasisLoc::EdgeBs(..) => a.len() == 2,
                _ => false,
            };
            ck!(log, ok, "degree of freedom {pos} groups {} functions, one of them at {:?}", a.len(), bs.loc);
        }
        if a.len() == 2 {
            let e: Vec<_> = a.iter().map(|x| dom.basis_specs[x.elem_id][x.elem_idx].loc).collect();
            let same = matches!((e[0], e[1]), (BasisLoc::EdgeBs(_, x), BasisLoc::EdgeBs(_, y)) if x == y);
            ck!(log, same, "degree of freedom {pos} merges functions at {e:?}");
        }
    }
    let mut interior = 0usize;
    for e in 0..mesh.elems.len() {
        let [ni, nj] = ords(mesh, e);
        let mut seen = BTreeSet::new();
        let mut cnt = [0usize; 2];
        let local = dom.local_basis_specs(e).map_err(|x| format!("{x:?}"))?;
        ck!(log, local.len() == dom.basis_specs[e].len(), "local_basis_specs({e}) has {} entries", local.len());
        for (idx, bs) in dom.basis_specs[e].iter().enumerate() {
            let r = referred.get(&(e, idx)).map(|v| v.len()).unwrap_or(0);
            ck!(log, r == 1, "basis function ({e}, {idx}) is referred to {r} times");
            let (i, j) = (bs.i as usize, bs.j as usize);
            ck!(log, seen.insert((dirname(bs.dir), i, j)), "cell {e} stores the {:?} function of orders ({i}, {j}) twice", bs.dir);
            let inb = match bs.dir {
                BasisDir::U => i < ni && j <= nj,
                BasisDir::V => i <= ni && j < nj,
                _ => false,
            };
            ck!(log, inb, "cell {e} with orders ({ni}, {nj}) stores a {:?} function of orders ({i}, {j})", bs.dir);
            if matches!(bs.loc, BasisLoc::ElemBs) {
                cnt[dirname(bs.dir) as usize] += 1;
            }
        }
        let want = if mesh.elems[e].has_children() { [0, 0] } else { [ni * (nj - 1), (ni - 1) * nj] };
        ck!(log, cnt == want, "cell {e} with orders ({ni}, {nj}) (refined: {}) contributes {cnt:?} interior functions along (u, v), expected {want:?}", mesh.elems[e].has_children());
        interior += want[0] + want[1];
    }
    // edge degrees of freedom
    let mut per_edge: BTreeMap<usize, usize> = BTreeMap::new();
    for d in dom.dofs.iter() {
        let a = d.get_basis_specs();
        if let BasisLoc::EdgeBs(_, ed) = dom.basis_specs[a[0].elem_id][a[0].elem_idx].loc {
            *per_edge.entry(ed).or_default() += 1;
        }
    }
    let mut total = interior;
    for (k, ed) in mesh.edges.iter().enumerate() {
        let got = per_edge.get(&k).copied().unwrap_or(0);
        let want = match ed.active_elem_pair() {
            None => 0,
            Some(p) => {
                let d = if is_u(ed.dir) { 0 } else { 1 };
                ords(mesh, p[0])[d].min(ords(mesh, p[1])[d])
            }
        };
        ck!(log, got == want, "edge {k} ({:?}, active pair {:?}) carries {got} degrees of freedom, expected {want}", ed.dir, ed.active_elem_pair());
        total += want;
    }
    ck!(log, dom.dofs.len() == total, "{} degrees of freedom, expected {total}", dom.dofs.len());
    let n = dom.basis_specs.len();
    for (e, x) in [(n, 0), (n + rng.below(100), 0), (usize::MAX, 0), (rng.below(n), usize::MAX)] {
        ck!(log, dom.get_basis_spec(BSAddress::new(e, x)).is_err(), "get_basis_spec({e}, {x}) of {n} cells is not an error");
    }
    // descendant / ancestor lists
    for e in 0..n {
        let d = dom.descendant_basis_specs(e).map_err(|x| format!("{x:?}"))?;
        let ids: BTreeSet<usize> = d.iter().map(|x| x.0).collect();
        let want: BTreeSet<usize> = (0..n).filter(|c| is_ancestor(mesh, e, *c)).collect();
        ck!(log, ids == want && d.len() == want.len(), "descendant_basis_specs({e}) lists cells {ids:?}, expected {want:?}");
        for (c, l) in d {
            ck!(log, std::ptr::eq(l, &dom.basis_specs[c]), "descendant_basis_specs({e}) gives another cell's list for {c}");
        }
        let a = dom.ancestor_basis_specs(e).map_err(|x| format!("{x:?}"))?;
        let ids: BTreeSet<usize> = a.iter().map(|x| x.0).collect();
        let want: BTreeSet<usize> = (0..n).filter(|c| is_ancestor(mesh, *c, e)).collect();
        ck!(log, ids == want && a.len() == want.len(), "ancestor_basis_specs({e}) lists cells {ids:?}, expected {want:?}");
        for (c, l) in a {
            ck!(log, std::ptr::eq(l, &dom.basis_specs[c]), "ancestor_basis_specs({e}) gives another cell's list for {c}");
        }
    }
    Ok(())
}

/// expected location of a function: None = interior, Some(local edge)
fn want_loc(i: u8, j: u8, u: bool) -> Option<u8> {
    if u {
        (j <= 1).then(|| j)
    } else {
        (i <= 1).then(|| i + 2)
    }
}

pub fn p10(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mo = 1 + rng.below(5) as u8;
    let mesh = random_mesh(rng, log, 3, 4, 45, mo)?;
    let dom = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
    let mesh = &dom.mesh;
    // classification of arbitrary functions
    for _ in 0..12 {
        let e = rng.below(mesh.elems.len());
        let el = &mesh.elems[e];
        let small = rng.chance(0.7);
        let m = if small { 3 } else { 255 };
        let (i, j) = (rng.below(m + 1) as u8, rng.below(m + 1) as u8);
        for (d, u) in [(BasisDir::U, true), (BasisDir::V, false)] {
            let bs = BasisSpec::new(7, [i, j], d, el, ContinuityCondition::HCurl);
            let want = match want_loc(i, j, u) {
                None => BasisLoc::ElemBs,
                Some(k) => BasisLoc::EdgeBs(k, el.edges[k as usize]),
            };
            ck!(log, bs.loc == want, "{d:?} function of orders ({i}, {j}) on cell {e} with edges {:?} is at {:?}, expected {want:?}", el.edges, bs.loc);
            ck!(log, bs.id == 7 && bs.i == i && bs.j == j && bs.dir == d && bs.elem_id == e && bs.dof_id.is_none() && bs.elem_idx.is_none(), "a new basis function carries wrong data: {bs:?}");
        }
    }
    // matching rule over all functions attached to one edge
    for _ in 0..4 {
        let k = rng.below(mesh.edges.len());
        let att = attached(mesh);
        let cells: Vec<usize> = att[k][0].iter().chain(att[k][1].iter()).copied().collect();
        let mut fs = vec![];
        for c in cells.iter().take(4) {
            for i in 0..4u8 {
                for j in 0..4u8 {
                    for d in [BasisDir::U, BasisDir::V] {
                        let bs = BasisSpec::new(0, [i, j], d, &mesh.elems[*c], ContinuityCondition::HCurl);
                        if matches!(bs.loc, BasisLoc::EdgeBs(_, x) if x == k) {
                            fs.push(bs);
                        }
                    }
                }
            }
        }
        for a in &fs {
            for b in &fs {
                let (BasisLoc::EdgeBs(ia, _), BasisLoc::EdgeBs(ib, _)) = (a.loc, b.loc) else { unreachable!() };
                let want = a.dir == b.dir
                    && ia != ib
                    && match a.dir {
                        BasisDir::U => a.i == b.i,
                        _ => a.j == b.j,
                    };
                let got = a.matches_with_edge(b);
                ck!(log, got == want, "matching on edge {k} of {a:?} with {b:?}: {got}, expected {want}");
            }
        }
    }
    // stored functions
    let mut edges_hit = 0;
    for (e, l) in dom.basis_specs.iter().enumerate() {
        for bs in l {
            let w = match want_loc(bs.i, bs.j, bs.dir == BasisDir::U) {
                None => BasisLoc::ElemBs,
                Some(k) => BasisLoc::EdgeBs(k, mesh.elems[e].edges[k as usize]),
            };
            ck!(log, bs.loc == w, "stored {:?} function ({}, {}) of cell {e} is at {:?}, expected {w:?}", bs.dir, bs.i, bs.j, bs.loc);
        }
    }
    // tangential traces, evaluated by the real basis functions at the ends and inside of each active edge
    let [im, jm] = mesh.max_expansion_orders();
    let ts: Vec<f64> = vec![-1.0, -0.7, -0.1, 0.3, 0.85, 1.0];
    let trace = |bf: &HierCurlBasisFn<HierPoly>, bs: &BasisSpec, side: usize| -> Vec<f64> {
        (0..ts.len())
            .map(|q| {
                let mn = match side {
                    0 => [q, 0],
                    1 => [q, ts.len() - 1],
                    2 => [0, q],
                    _ => [ts.len() - 1, q],
                };
                let ij = [bs.i as usize, bs.j as usize];
                let v = if bs.dir == BasisDir::U { bf.f_u(ij, mn) } else { bf.f_v(ij, mn) };
                if side < 2 { v.x() } else { v.y() }
            })
            .collect()
    };
    let mut edges: Vec<usize> = (0..mesh.edges.len()).filter(|k| mesh.edges[*k].active_elem_pair().is_some()).collect();
    rng.shuffle(&mut edges);
    for k in edges.into_iter().take(14) {
        let pair = mesh.edges[k].active_elem_pair().unwrap();
        edges_hit += 1;
        let sides: Vec<usize> = pair.iter().map(|e| mesh.elems[*e].edges.iter().position(|x| *x == k).unwrap()).collect();
        let bfs: Vec<HierCurlBasisFn<HierPoly>> = pair
            .iter()
            .map(|e| HierCurlBasisFn::defined_over(&mesh.elems[*e], None, [&ts, &ts], [im as usize, jm as usize], false))
            .collect();
        // every stored function of the two cells: trace zero unless attached here; merged ones agree
        let mut traces: BTreeMap<usize, Vec<(usize, Vec<f64>)>> = BTreeMap::new();
        for s in 0..2 {
            for bs in &dom.basis_specs[pair[s]] {
                let t = trace(&bfs[s], bs, sides[s]);
                let here = matches!(bs.loc, BasisLoc::EdgeBs(_, x) if x == k);
                let zero = t.iter().all(|v| v.abs() < 1e-9);
                if here {
                    ck!(log, !zero, "function {bs:?} is attached to edge {k} but its tangential component vanishes there");
                    traces.entry(bs.dof_id.unwrap()).or_default().push((s, t));
                } else {
                    ck!(log, zero, "function {bs:?} of cell {} is not attached to edge {k} but has tangential trace {t:?} there", pair[s]);
                }
            }
        }
        let mut along = BTreeSet::new();
        for (d, t) in traces {
            ck!(log, t.len() == 2 && t[0].0 == 0 && t[1].0 == 1, "degree of freedom {d} on edge {k} is not matched from the two sides");
            for q in 0..ts.len() {
                let (a, b) = (t[0].1[q], t[1].1[q]);
                ck!(log, (a - b).abs() <= 1e-9 * (1.0 + a.abs()), "degree of freedom {d} on edge {k}: tangential traces {a} and {b} differ at point {}", ts[q]);
            }
            along.insert(d);
        }
        let dd = if is_u(mesh.edges[k].dir) { 0 } else { 1 };
        let want = ords(mesh, pair[0])[dd].min(ords(mesh, pair[1])[dd]);
        ck!(log, along.len() == want, "edge {k} between cells {pair:?}: {} matched functions, expected {want}", along.len());
    }
    log.interesting = edges_hit > 0;
    let _ = ParaDir::U;
    Ok(())
}

struct PhysFn {
    rect: [f64; 4],
    u: bool,
    i: usize,
    j: usize,
}
impl PhysFn {
    /// (field component, curl) at a physical point
    fn at(&self, x: f64, y: f64) -> ([f64; 2], f64) {
        let [x0, x1, y0, y1] = self.rect;
        let (dx, dy) = ((x1 - x0) / 2.0, (y1 - y0) / 2.0);
        let u = (x - (x0 + x1) / 2.0) / dx;
        let v = (y - (y0 + y1) / 2.0) / dy;
        if self.u {
            let f = norm_ref(self.i, u, 0) * tang_ref(self.j, v, 0) / dx;
            let c = -norm_ref(self.i, u, 0) * tang_ref(self.j, v, 1) / dx / dy;
            ([f, 0.0], c)
        } else {
            let f = tang_ref(self.i, u, 0) * norm_ref(self.j, v, 0) / dy;
            let c = tang_ref(self.i, u, 1) * norm_ref(self.j, v, 0) / dx / dy;
            ([0.0, f], c)
        }
    }
}

pub fn p17(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mo = 1 + rng.below(3) as u8;
    let mesh = random_mesh(rng, log, 2, 4, 26, mo)?;
    let [im, jm] = mesh.max_expansion_orders();
    let need = (im.max(jm) as usize + 2).max(4);
    let dim = match rng.below(3) {
        0 => [need, need],
        _ => [need + rng.below(4), need + rng.below(4)],
    };
    let dom = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
    let n = dom.dofs.len();
    log.op(format!("galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>({n} dofs, {dim:?})"));
    log.interesting = n > 0;
    if n == 0 {
        let r = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, Some(dim));
        ck!(log, matches!(r, Err(GalerkinSamplingError::EmptyDOFSet)), "assembling an empty domain is not EmptyDOFSet");
        return Ok(());
    }
    for bad in [[3, 8], [8, 3], [0, 4], [4, 0], [3, 3]] {
        let r = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, Some(bad));
        ck!(log, matches!(r, Err(GalerkinSamplingError::InvalidGLQSettings)), "assembling with quadrature {bad:?} is not InvalidGLQSettings");
    }
    let mut dom = dom;
    for cc in [ContinuityCondition::HDiv, ContinuityCondition::Discontinuous] {
        dom.cc = cc;
        let r = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, Some(dim));
        ck!(log, matches!(r, Err(GalerkinSamplingError::WrongContinuityCondition(ContinuityCondition::HCurl, c)) if c == cc), "assembling a {cc:?} domain is not WrongContinuityCondition");
    }
    dom.cc = ContinuityCondition::HCurl;
    let dim_opt = if rng.chance(0.15) { None } else { Some(dim) };
    let gep = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, dim_opt).map_err(|e| format!("assembly failed: {e}"))?;
    ck!(log, gep.a.dimension == n && gep.b.dimension == n, "matrices have dimensions {} and {}, expected {n}", gep.a.dimension, gep.b.dimension);
    // reference assembly in physical space, with our own polynomials, quadrature and cell geometry
    let mesh = &dom.mesh;
    let (gp, gw) = gauss_ref(need + 2);
    let mut a: BTreeMap<(usize, usize), f64> = BTreeMap::new();
    let mut b: BTreeMap<(usize, usize), f64> = BTreeMap::new();
    let mut scale = [0f64; 2];
    let specs: Vec<Vec<(usize, PhysFn)>> = (0..mesh.elems.len())
        .map(|e| {
            dom.basis_specs[e]
                .iter()
                .map(|s| (s.dof_id.unwrap(), PhysFn { rect: rect(mesh, e), u: s.dir == BasisDir::U, i: s.i as usize, j: s.j as usize }))
                .collect()
        })
        .collect();
    let mut add = |p: &(usize, PhysFn), q: &(usize, PhysFn), r: [f64; 4], eps: f64, mu: f64| {
        let [x0, x1, y0, y1] = r;
        let (mut m, mut c) = (0.0, 0.0);
        for (pi, wi) in gp.iter().zip(&gw) {
            for (pj, wj) in gp.iter().zip(&gw) {
                let x = (x0 + x1) / 2.0 + (x1 - x0) / 2.0 * pi;
                let y = (y0 + y1) / 2.0 + (y1 - y0) / 2.0 * pj;
                let w = wi * wj * (x1 - x0) * (y1 - y0) / 4.0;
                let (fp, cp) = p.1.at(x, y);
                let (fq, cq) = q.1.at(x, y);
                m += w * (fp[0] * fq[0] + fp[1] * fq[1]);
                c += w * cp * cq;
            }
        }
        let key = (p.0.min(q.0), p.0.max(q.0));
        *a.entry(key).or_default() += c / mu;
        *b.entry(key).or_default() += m * eps;
        scale[0] = scale[0].max((c / mu).abs());
        scale[1] = scale[1].max((m * eps).abs());
    };
    for e in 0..mesh.elems.len() {
        let mt = mesh.elems[e].get_materials();
        let (eps, mu) = (mt.eps_rel.re, mt.mu_rel.re);
        for (x, p) in specs[e].iter().enumerate() {
            for q in specs[e].iter().skip(x) {
                add(p, q, rect(mesh, e), eps, mu);
            }
        }
        for d in 0..mesh.elems.len() {
            if is_ancestor(mesh, e, d) {
                for p in &specs[e] {
                    for q in &specs[d] {
                        add(p, q, rect(mesh, d), eps, mu);
                    }
                }
            }
        }
    }
    for (name, m, r, s) in [("curl-curl", &gep.a, &a, scale[0]), ("mass", &gep.b, &b, scale[1])] {
        let got: BTreeMap<(usize, usize), f64> = m.iter_upper_tri().map(|([r, c], v)| ((r, c), v)).collect();
        let keys: BTreeSet<(usize, usize)> = got.keys().chain(r.keys()).copied().collect();
        for k in keys {
            let (g, w) = (got.get(&k).copied().unwrap_or(0.0), r.get(&k).copied().unwrap_or(0.0));
            ck!(log, (g - w).abs() <= 1e-8 * s.max(w.abs()), "{name} entry {k:?} is {g}, the sum of the contributions of all interacting pairs is {w}");
        }
    }
    // independent of scheduling
    let again = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(|| {
        galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, dim_opt).map_err(|e| format!("{e}"))
    })?;
    for (name, m, o, s) in [("curl-curl", &gep.a, &again.a, scale[0]), ("mass", &gep.b, &again.b, scale[1])] {
        let x: Vec<_> = m.iter_upper_tri().collect();
        let y: Vec<_> = o.iter_upper_tri().collect();
        ck!(log, x.len() == y.len(), "{name}: {} entries, {} on one thread", x.len(), y.len());
        for (p, q) in x.iter().zip(&y) {
            ck!(log, p.0 == q.0 && (p.1 - q.1).abs() <= 1e-10 * s, "{name} entry {:?}: {} on all threads, {} on one", p.0, p.1, q.1);
        }
    }
    let _ = Orders::new(1, 1);
    Ok(())
}
