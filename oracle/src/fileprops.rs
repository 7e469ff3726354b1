//! P15, P16: fields and files.
use crate::ck;
use crate::ctx::*;
use crate::gen::*;
use crate::meshprops;
use crate::numprops::{norm_ref, tang_ref};
use fem_2d::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::fields::{UniformFieldError, UniformFieldSpace};
use fem_2d::fem_domain::domain::mesh::Mesh;
use fem_2d::fem_domain::domain::{ContinuityCondition, Domain};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// (decimal numbers are read by the json crate to within a few units in the last place)
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 4e-15 * a.abs().max(b.abs())
}

fn tokens(text: &str) -> Vec<&str> {
    text.split_whitespace().collect()
}

struct Vtk {
    points: Vec<[f64; 3]>,
    cells: Vec<Vec<usize>>,
    types: Vec<String>,
    data: HashMap<String, Vec<f64>>,
}
fn parse_vtk(text: &str) -> Result<Vtk, String> {
    let body = text.find("ASCII").ok_or("no ASCII line")?;
    if !text.starts_with("# vtk DataFile Version") {
        return Err("no VTK header".into());
    }
    let t = tokens(&text[body..]);
    let mut i = 1;
    let mut v = Vtk { points: vec![], cells: vec![], types: vec![], data: HashMap::new() };
    let num = |s: &str| s.parse::<f64>().map_err(|_| format!("'{s}' is not a number"));
    let int = |s: &str| s.parse::<usize>().map_err(|_| format!("'{s}' is not a count"));
    let at = |i: usize| t.get(i).copied().ok_or("file ends early".to_string());
    let mut np = None;
    while i < t.len() {
        match t[i] {
            "DATASET" => {
                if at(i + 1)? != "UNSTRUCTURED_GRID" {
                    return Err("not an unstructured grid".into());
                }
                i += 2;
            }
            "POINTS" => {
                let n = int(at(i + 1)?)?;
                i += 3;
                for _ in 0..n {
                    v.points.push([num(at(i)?)?, num(at(i + 1)?)?, num(at(i + 2)?)?]);
                    i += 3;
                }
            }
            "CELLS" => {
                let n = int(at(i + 1)?)?;
                let size = int(at(i + 2)?)?;
                i += 3;
                let s = i;
                for _ in 0..n {
                    let m = int(at(i)?)?;
                    let mut c = vec![];
                    for q in 0..m {
                        c.push(int(at(i + 1 + q)?)?);
                    }
                    i += m + 1;
                    v.cells.push(c);
                }
                if i - s != size {
                    return Err(format!("CELLS announces {size} numbers, lists {}", i - s));
                }
            }
            "CELL_TYPES" => {
                let n = int(at(i + 1)?)?;
                i += 2;
                for _ in 0..n {
                    v.types.push(at(i)?.to_string());
                    i += 1;
                }
            }
            "POINT_DATA" => {
                np = Some(int(at(i + 1)?)?);
                i += 2;
            }
            "SCALARS" => {
                let name = at(i + 1)?.to_string();
                if at(i + 4)? != "LOOKUP_TABLE" {
                    return Err("no lookup table".into());
                }
                i += 6;
                let mut d = vec![];
                for _ in 0..np.ok_or("values before POINT_DATA")? {
                    d.push(num(at(i)?)?);
                    i += 1;
                }
                if v.data.insert(name.clone(), d).is_some() {
                    return Err(format!("quantity {name} is listed twice"));
                }
            }
            o => return Err(format!("unexpected '{o}' in the file")),
        }
    }
    Ok(v)
}

pub fn p15(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mo = 1 + rng.below(4) as u8;
    let mesh = random_mesh(rng, log, 2, 4, 30, mo)?;
    let dom = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
    let n = dom.dofs.len();
    let de = [2 + rng.below(5), 2 + rng.below(5)];
    let sol: Vec<f64> = (0..n).map(|_| rng.range(-8, 8) as f64 / 4.0).collect();
    log.op(format!("UniformFieldSpace::new(_, {de:?}).xy_fields(\"E\", {sol:?})"));
    log.interesting = n > 0;
    let mut fs = UniformFieldSpace::new(&dom, de);
    for bad in [n + 1, n.wrapping_sub(1), n + 7] {
        if bad < n + 10 && bad != n {
            let r = fs.xy_fields::<HierPoly>("W", vec![1.0; bad]);
            ck!(log, matches!(r, Err(UniformFieldError::MismatchedSolutionSize(a, b)) if a == n && b == bad), "a solution of length {bad} for {n} degrees of freedom gives {r:?}");
        }
    }
    let [xn, yn] = fs.xy_fields::<HierPoly>("E", sol.clone()).map_err(|e| format!("{e}"))?;
    ck!(log, xn == "E_x" && yn == "E_y", "field names {xn}, {yn}");
    let mesh = &dom.mesh;
    let lf = leafs(mesh);
    // our own superposition on physical points
    let mut fx: Vec<f64> = vec![];
    let mut fy: Vec<f64> = vec![];
    let mut pts: Vec<[f64; 2]> = vec![];
    let mut big: f64 = 1.0;
    for &e in &lf {
        let [x0, x1, y0, y1] = rect(mesh, e);
        let chain: Vec<usize> = (0..mesh.elems.len()).filter(|a| *a == e || is_ancestor(mesh, *a, e)).collect();
        for p in 0..de[0] {
            for q in 0..de[1] {
                let x = x0 + (x1 - x0) * p as f64 / (de[0] - 1) as f64;
                let y = y0 + (y1 - y0) * q as f64 / (de[1] - 1) as f64;
                let (mut sx, mut sy) = (0.0, 0.0);
                for &a in &chain {
                    let [a0, a1, b0, b1] = rect(mesh, a);
                    let (dx, dy) = ((a1 - a0) / 2.0, (b1 - b0) / 2.0);
                    let u = (x - (a0 + a1) / 2.0) / dx;
                    let v = (y - (b0 + b1) / 2.0) / dy;
                    for bs in &dom.basis_specs[a] {
                        let (i, j) = (bs.i as usize, bs.j as usize);
                        let s = sol[bs.dof_id.unwrap()];
                        match bs.dir {
                            BasisDir::U => sx += s * norm_ref(i, u, 0) * tang_ref(j, v, 0) / dx,
                            BasisDir::V => sy += s * tang_ref(i, u, 0) * norm_ref(j, v, 0) / dy,
                            _ => {}
                        }
                    }
                }
                big = big.max(sx.abs()).max(sy.abs());
                fx.push(sx);
                fy.push(sy);
                pts.push([x, y]);
            }
        }
    }
    fs.map_to_quantity(&xn, "sq", |v| v * v + 1.0).map_err(|e| format!("{e}"))?;
    fs.expression_2arg([&xn, &yn], "comb", |a, b| a - 2.0 * b).map_err(|e| format!("{e}"))?;
    fs.expression_2arg(["comb", "sq"], "sq2", |a, b| a * 0.5 + b).map_err(|e| format!("{e}"))?;
    if rng.chance(0.3) {
        fs.map_to_quantity("sq", "sq2", |v| -v).map_err(|e| format!("{e}"))?;
        fs.expression_2arg(["comb", "sq"], "sq2", |a, b| a * 0.5 + b).map_err(|e| format!("{e}"))?;
    }
    ck!(log, matches!(fs.map_to_quantity("nope", "x", |v| *v), Err(UniformFieldError::MissingQuantity(s)) if s == "nope"), "an unknown quantity is accepted by map_to_quantity");
    ck!(log, matches!(fs.expression_2arg(["nope", "sq"], "x", |a, _| a), Err(UniformFieldError::MissingQuantity(s)) if s == "nope"), "an unknown first operand is accepted");
    ck!(log, matches!(fs.expression_2arg(["sq", "nope"], "x", |a, _| a), Err(UniformFieldError::MissingQuantity(s)) if s == "nope"), "an unknown second operand is accepted");
    let f = format!("{}/f.vtk", log.dir);
    let all = rng.chance(0.5);
    if all {
        fs.print_all_to_vtk(&f).map_err(|e| format!("{e}"))?;
    } else {
        ck!(log, fs.print_quantities_to_vkt(format!("{f}.no"), vec!["sq".into(), "nope".into()]).is_err(), "exporting an unknown quantity is not an error");
        fs.print_quantities_to_vkt(&f, vec!["E_y".into(), "comb".into(), "E_x".into()]).map_err(|e| format!("{e}"))?;
    }
    let v = parse_vtk(&std::fs::read_to_string(&f).unwrap()).map_err(|e| format!("exported file: {e}"))?;
    ck!(log, v.points.len() == pts.len(), "the exported file has {} points for {} cells with {de:?} points", v.points.len(), lf.len());
    for (k, (a, b)) in v.points.iter().zip(&pts).enumerate() {
        ck!(log, (a[0] - b[0]).abs() < 2e-10 && (a[1] - b[1]).abs() < 2e-10 && a[2] == 0.0, "exported point {k} is {a:?}, expected {b:?}");
    }
    let nc = (de[0] - 1) * (de[1] - 1) * lf.len();
    ck!(log, v.cells.len() == nc && v.types.len() == nc && v.types.iter().all(|t| t == "9"), "{} exported cells and {} types, expected {nc} quadrilaterals", v.cells.len(), v.types.len());
    let per = de[0] * de[1];
    let mut want = BTreeSet::new();
    for l in 0..lf.len() {
        for p in 0..de[0] - 1 {
            for q in 0..de[1] - 1 {
                let i = |a: usize, b: usize| l * per + a * de[1] + b;
                let mut s = vec![i(p, q), i(p, q + 1), i(p + 1, q + 1), i(p + 1, q)];
                s.sort();
                want.insert(s);
            }
        }
    }
    let mut got = BTreeSet::new();
    for c in &v.cells {
        ck!(log, c.len() == 4, "an exported cell joins {} points", c.len());
        let (a, b) = (pts[c[0].min(pts.len() - 1)], pts[c[2].min(pts.len() - 1)]);
        ck!(log, c.iter().all(|x| *x < pts.len()) && a[0] != b[0] && a[1] != b[1], "exported cell {c:?} is not in order around a rectangle");
        let mut s = c.clone();
        s.sort();
        ck!(log, got.insert(s.clone()), "exported cell {s:?} is listed twice");
    }
    ck!(log, got == want, "exported cells do not join neighbouring grid points");
    let sq: Vec<f64> = fx.iter().map(|x| x * x + 1.0).collect();
    let comb: Vec<f64> = fx.iter().zip(&fy).map(|(a, b)| a - 2.0 * b).collect();
    let sq2: Vec<f64> = comb.iter().zip(&sq).map(|(a, b)| a * 0.5 + b).collect();
    let exp: Vec<(&str, &Vec<f64>)> = if all { vec![("E_x", &fx), ("E_y", &fy), ("sq", &sq), ("comb", &comb), ("sq2", &sq2)] } else { vec![("E_x", &fx), ("E_y", &fy), ("comb", &comb)] };
    ck!(log, v.data.len() == exp.len(), "{} quantities are exported, expected {}", v.data.len(), exp.len());
    for (name, w) in exp {
        let g = v.data.get(name).ok_or(format!("quantity {name} is not exported"))?;
        for k in 0..w.len() {
            ck!(log, (g[k] - w[k]).abs() < 1e-8 * big * big, "{name} at point {k} {:?} of leaf {} is {}, expected {}", pts[k], lf[k / per], g[k], w[k]);
        }
    }
    Ok(())
}

/// One defect put into a well-formed description; None = text still fine
fn break_file(b: &Base, rng: &mut Rng) -> (String, String) {
    let mut els: Vec<json::JsonValue> = vec![];
    let mut b = b.clone();
    let mut kind = rng.below(18);
    let e = rng.below(b.elems.len());
    let c = rng.below(4);
    let nd = rng.below(b.nodes.len());
    if kind == 3 {
        let bad = b.nodes.len() + rng.below(3);
        b.elems[e][c] = bad;
    }
    if kind == 4 {
        let o = (c + 1 + rng.below(3)) % 4;
        b.elems[e][c] = b.elems[e][o];
    }
    if kind == 5 {
        // move one node onto another
        if b.nodes.len() < 2 {
            kind = 0;
        } else {
            let o = (nd + 1 + rng.below(b.nodes.len() - 1)) % b.nodes.len();
            b.nodes[nd] = b.nodes[o];
        }
    }
    if kind == 6 {
        // the same cell twice claims the same sides
        let d = b.elems[e];
        b.elems.push(d);
        let m = b.mats[e];
        b.mats.push(m);
    }
    for (n, m) in b.elems.iter().zip(&b.mats) {
        els.push(json::object! { "materials": m.to_vec(), "node_ids": n.to_vec() });
    }
    let mut nodes: Vec<json::JsonValue> = b.nodes.iter().map(|n| json::JsonValue::from(n.to_vec())).collect();
    let what = match kind {
        0 => {
            els[e].remove("materials");
            "missing materials"
        }
        1 => {
            els[e].remove("node_ids");
            "missing node_ids"
        }
        2 => {
            els[e]["materials"][c] = "x".into();
            "non-numeric material"
        }
        3 => "out-of-range node id",
        4 => "repeated node id",
        5 => "coincident nodes",
        6 => "the same cell twice",
        7 => {
            els[e]["node_ids"].array_remove(c);
            "three node ids"
        }
        8 => {
            els[e]["node_ids"].push(0).unwrap();
            "five node ids"
        }
        9 => {
            els[e]["materials"].array_remove(c);
            "three materials"
        }
        10 => {
            els[e]["materials"].push(1.0).unwrap();
            "five materials"
        }
        11 => {
            els[e]["node_ids"][c] = "a".into();
            "non-numeric node id"
        }
        12 => {
            els[e]["node_ids"][c] = (-1).into();
            "negative node id"
        }
        13 => {
            nodes[nd].array_remove(0);
            "node with one coordinate"
        }
        14 => {
            nodes[nd].push(0.0).unwrap();
            "node with three coordinates"
        }
        15 => {
            nodes[nd][rng.below(2)] = json::JsonValue::Null;
            "non-numeric coordinate"
        }
        16 => {
            els[e]["materials"][c] = json::JsonValue::Null;
            "null material"
        }
        _ => "missing top-level array",
    };
    let mut o = json::object! { "Elements": els, "Nodes": nodes };
    if kind == 17 {
        if rng.chance(0.5) {
            o.remove("Elements");
        } else {
            o.remove("Nodes");
        }
    }
    (what.into(), o.dump())
}

pub fn p16(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let b = base(rng, 4, Size::Normal);
    log.op(format!("Mesh::from_file of {}", b.to_file_text()));
    let mut mesh = b.load(log);
    ck!(log, mesh.elems.len() == b.elems.len() && mesh.elements.len() == b.elems.len(), "{} cells loaded, {} described", mesh.elems.len(), b.elems.len());
    ck!(log, mesh.nodes.len() == b.nodes.len(), "{} nodes loaded, {} described", mesh.nodes.len(), b.nodes.len());
    let mut uses = vec![0usize; b.nodes.len()];
    let mut pairs: BTreeMap<[usize; 2], Vec<(usize, usize)>> = BTreeMap::new();
    for (e, n) in b.elems.iter().enumerate() {
        for k in n {
            uses[*k] += 1;
        }
        for (k, (a, c)) in [(0, 1), (2, 3), (0, 2), (1, 3)].iter().enumerate() {
            pairs.entry([n[*a], n[*c]]).or_default().push((e, k));
        }
    }
    for (k, n) in mesh.nodes.iter().enumerate() {
        ck!(log, n.id == k && near(n.coords.x, b.nodes[k][0]) && near(n.coords.y, b.nodes[k][1]), "node {k} is {} at ({}, {}), described {:?}", n.id, n.coords.x, n.coords.y, b.nodes[k]);
        ck!(log, n.boundary == (uses[k] < 4), "node {k} of {} cells is marked boundary: {}", uses[k], n.boundary);
    }
    ck!(log, mesh.edges.len() == pairs.len(), "{} edges loaded, {} distinct pairs of adjacent corners", mesh.edges.len(), pairs.len());
    let mut seen = BTreeSet::new();
    for (k, ed) in mesh.edges.iter().enumerate() {
        ck!(log, ed.id == k && seen.insert(ed.nodes), "edge {k} has id {} and nodes {:?}", ed.id, ed.nodes);
        let l = pairs.get(&ed.nodes).ok_or(format!("edge {k} joins {:?}, which is no side of a cell", ed.nodes))?;
        ck!(log, ed.boundary == (l.len() == 1) && ed.is_boundary() == (l.len() == 1), "edge {k} of {} cells is marked boundary: {}", l.len(), ed.boundary);
        ck!(log, !ed.has_children() && ed.parent_id().is_none() && ed.child_node_id().is_none(), "edge {k} is refined in a fresh mesh");
        let horizontal = b.nodes[ed.nodes[0]][1] == b.nodes[ed.nodes[1]][1];
        ck!(log, is_u(ed.dir) == horizontal, "edge {k} between {:?} and {:?} is {:?}", b.nodes[ed.nodes[0]], b.nodes[ed.nodes[1]], ed.dir);
        let len = (b.nodes[ed.nodes[0]][0] - b.nodes[ed.nodes[1]][0]).abs() + (b.nodes[ed.nodes[0]][1] - b.nodes[ed.nodes[1]][1]).abs();
        ck!(log, (ed.length - len).abs() < 1e-12 * (1.0 + len), "edge {k} has length {}, expected {len}", ed.length);
        for (e, side) in l {
            ck!(log, mesh.elems[*e].edges[*side] == k, "cell {e} has edges {:?}; its side {side} joins {:?}, edge {k}", mesh.elems[*e].edges, ed.nodes);
        }
        match ed.active_elem_pair() {
            None => ck!(log, l.len() == 1, "edge {k} between two cells is not active"),
            Some(p) => {
                let lo = l.iter().find(|x| x.1 == 1 || x.1 == 3).map(|x| x.0);
                let hi = l.iter().find(|x| x.1 == 0 || x.1 == 2).map(|x| x.0);
                ck!(log, lo == Some(p[0]) && hi == Some(p[1]), "edge {k} has active pair {p:?}, its cells are {l:?}");
            }
        }
    }
    for (e, el) in mesh.elems.iter().enumerate() {
        ck!(log, el.id == e && el.nodes == b.elems[e], "cell {e} has id {} and nodes {:?}, described {:?}", el.id, el.nodes, b.elems[e]);
        let m = el.get_materials();
        ck!(log, [m.eps_rel.re, m.eps_rel.im, m.mu_rel.re, m.mu_rel.im].iter().zip(&b.mats[e]).all(|(x, y)| near(*x, *y)), "cell {e} has materials {m:?}, described {:?}", b.mats[e]);
        let o = el.poly_orders;
        ck!(log, o.ni == 1 && o.nj == 1 && !el.has_children() && el.parent_id().is_none() && el.loc_stack().is_empty() && el.h_levels.u == 0 && el.h_levels.v == 0, "cell {e} does not start with default orders and no refinement");
        for k in 0..4 {
            let p = &el.element.points[k];
            ck!(log, el.element.id == e && near(p.x, b.nodes[b.elems[e][k]][0]) && near(p.y, b.nodes[b.elems[e][k]][1]), "corner {k} of element {e} is ({}, {})", p.x, p.y);
        }
    }
    meshprops::topology(&mesh, log)?;
    // export
    for _ in 0..rng.below(4) {
        random_h_op(rng, &mut mesh, log, 40)?;
    }
    if rng.chance(0.5) {
        random_p_op(rng, &mut mesh, log, 5);
    }
    let f = format!("{}/out.json", log.dir);
    mesh.export_to_json(&f).map_err(|e| format!("{e}"))?;
    let j = json::parse(&std::fs::read_to_string(&f).unwrap()).map_err(|e| format!("the exported mesh is not readable: {e}"))?;
    ck!(log, j["Elems"].len() == mesh.elems.len() && j["Nodes"].len() == mesh.nodes.len() && j["Edges"].len() == mesh.edges.len() && j["Elements"].len() == mesh.elements.len(), "the exported mesh has {} cells, {} nodes, {} edges", j["Elems"].len(), j["Nodes"].len(), j["Edges"].len());
    let list = |v: &json::JsonValue| -> Vec<usize> { v.members().filter_map(|x| x.as_usize()).collect() };
    for (k, el) in mesh.elems.iter().enumerate() {
        let x = &j["Elems"][k];
        let ch: Vec<usize> = el.child_ids().map(|c| c.to_vec()).unwrap_or_default();
        let ok = x["id"].as_usize() == Some(k)
            && list(&x["nodes"]) == el.nodes
            && list(&x["edges"]) == el.edges
            && list(&x["children"]) == ch
            && x["parent"].as_usize() == el.parent_id()
            && x["active"].as_bool() == Some(!el.has_children())
            && x["element_id"].as_usize() == Some(el.element.id)
            && x["expansion"]["u"].as_u8() == Some(el.poly_orders.ni)
            && x["expansion"]["v"].as_u8() == Some(el.poly_orders.nj)
            && x["h_levels"]["u"].as_u8() == Some(el.h_levels.u)
            && x["h_levels"]["v"].as_u8() == Some(el.h_levels.v);
        ck!(log, ok, "exported cell {k} is {}, in memory {}", x.dump(), elem_view(&mesh, k));
    }
    for (k, n) in mesh.nodes.iter().enumerate() {
        let x = &j["Nodes"][k];
        let ok = x["id"].as_usize() == Some(k)
            && x["boundary"].as_bool() == Some(n.boundary)
            && (x["point"]["x"].as_f64().unwrap_or(f64::NAN) - n.coords.x).abs() < 1e-12
            && (x["point"]["y"].as_f64().unwrap_or(f64::NAN) - n.coords.y).abs() < 1e-12;
        ck!(log, ok, "exported node {k} is {}, in memory {}", x.dump(), node_view(&mesh, k));
        for s in 0..4 {
            let mut got = list(&x["elems"][s]);
            got.sort();
            got.dedup();
            let mut want: Vec<usize> = mesh.elems.iter().filter(|e| e.nodes[s] == k).map(|e| e.id).collect();
            want.sort();
            // (a node keeps one cell per refinement level)
            ck!(log, got.iter().all(|e| want.contains(e)) && (want.is_empty() == got.is_empty()), "exported node {k} lists cells {got:?} with it at corner {s}, the cells are {want:?}");
        }
    }
    let att = attached(&mesh);
    for (k, ed) in mesh.edges.iter().enumerate() {
        let x = &j["Edges"][k];
        let ch: Vec<usize> = ed.child_ids().map(|c| c.to_vec()).unwrap_or_default();
        let ac: Vec<usize> = ed.active_elem_pair().map(|c| c.to_vec()).unwrap_or_default();
        let ok = x["id"].as_usize() == Some(k)
            && x["boundary"].as_bool() == Some(ed.boundary)
            && list(&x["nodes"]) == ed.nodes
            && list(&x["children"]) == ch
            && list(&x["active_elems"]) == ac
            && x["parent"].as_usize() == ed.parent_id()
            && x["direction"].as_str() == Some(if is_u(ed.dir) { "U-Dir" } else { "V-Dir" });
        ck!(log, ok, "exported edge {k} is {}, in memory {}", x.dump(), edge_view(&mesh, k));
        for s in 0..2 {
            let mut got: Vec<usize> = x["elems"][s].members().filter_map(|y| y["cell_id"].as_usize()).collect();
            got.sort();
            let mut want = att[k][s].clone();
            want.sort();
            ck!(log, got == want, "exported edge {k} lists cells {got:?} on side {s}, the cells are {want:?}");
        }
    }
    // one defect
    let (what, text) = break_file(&b, rng);
    log.op(format!("Mesh::from_file with {what}: {text}"));
    let p = format!("{}/bad.json", log.dir);
    std::fs::write(&p, &text).unwrap();
    let refused = match guard(|| Mesh::from_file(&p)) {
        Err(_) => true,
        Ok(r) => r.is_err(),
    };
    ck!(log, refused, "a description with {what} is accepted: {text}");
    ck!(log, !matches!(guard(|| Mesh::from_file(format!("{p}.missing"))), Ok(Ok(_))), "a missing file is accepted");
    Ok(())
}
