//! Generators: initial meshes, refinement histories, readable logs; and semantic snapshots.
use crate::ctx::*;
use fem_2d::fem_domain::domain::mesh::{
    elem::Elem, h_refinement::HRef, p_refinement::{Orders, PRef}, space::ParaDir, Mesh, MIN_EDGE_LENGTH,
};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Base {
    pub nodes: Vec<[f64; 2]>,
    pub elems: Vec<[usize; 4]>,
    pub mats: Vec<[f64; 4]>,
}

pub fn num(v: f64) -> String {
    format!("{:e}", v)
}

impl Base {
    pub fn to_file_text(&self) -> String {
        let e: Vec<String> = self
            .elems
            .iter()
            .zip(self.mats.iter())
            .map(|(n, m)| {
                format!(
                    "{{\"materials\":[{}],\"node_ids\":[{},{},{},{}]}}",
                    m.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","),
                    n[0], n[1], n[2], n[3]
                )
            })
            .collect();
        let n: Vec<String> = self.nodes.iter().map(|p| format!("[{},{}]", num(p[0]), num(p[1]))).collect();
        format!("{{\"Elements\":[{}],\"Nodes\":[{}]}}", e.join(","), n.join(","))
    }
    pub fn load(&self, log: &Log) -> Mesh {
        let p = format!("{}/m.json", log.dir);
        std::fs::write(&p, self.to_file_text()).unwrap();
        Mesh::from_file(&p).unwrap()
    }
}

pub enum Size {
    Normal,
    Tiny,
}

/// A grid of axis-aligned rectangles with some cells missing, numbered in any order.
pub fn base(rng: &mut Rng, max: usize, size: Size) -> Base {
    let nx = 1 + rng.below(max);
    let ny = 1 + rng.below(max);
    let incs = |rng: &mut Rng, n: usize| -> Vec<f64> {
        let mut v = vec![];
        for _ in 0..n {
            let d = match size {
                Size::Normal => match rng.below(6) {
                    0 => 1.0,
                    1 => 0.5,
                    2 => 2.0,
                    3 => rng.f(0.05, 3.0),
                    4 => 0.1 * (1 + rng.below(9)) as f64,
                    _ => 1.0,
                },
                Size::Tiny => {
                    let k = rng.below(5) as i32;
                    let b = MIN_EDGE_LENGTH * 2f64.powi(k);
                    match rng.below(6) {
                        0 => b,
                        1 => b * 1.01,
                        2 => b * 0.99,
                        3 => b * rng.f(1.01, 1.99),
                        4 => 1.0,
                        _ => b * 3.0,
                    }
                }
            };
            v.push(d);
        }
        v
    };
    let ox = if matches!(size, Size::Tiny) || rng.chance(0.5) { 0.0 } else { rng.f(-4.0, 4.0) };
    let oy = if matches!(size, Size::Tiny) || rng.chance(0.5) { 0.0 } else { rng.f(-4.0, 4.0) };
    let dx = incs(rng, nx);
    let dy = incs(rng, ny);
    let mut xs = vec![ox];
    for d in dx {
        xs.push(xs.last().unwrap() + d);
    }
    let mut ys = vec![oy];
    for d in dy {
        ys.push(ys.last().unwrap() + d);
    }
    let mut cells: Vec<(usize, usize)> = vec![];
    for j in 0..ny {
        for i in 0..nx {
            if nx * ny <= 2 || rng.chance(0.85) {
                cells.push((i, j));
            }
        }
    }
    if cells.is_empty() {
        cells.push((0, 0));
    }
    let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
    for &(i, j) in &cells {
        for c in [(i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)] {
            used.insert(c);
        }
    }
    let mut order: Vec<(usize, usize)> = used.into_iter().collect();
    if rng.chance(0.6) {
        rng.shuffle(&mut order);
        rng.shuffle(&mut cells);
    }
    let ids: BTreeMap<(usize, usize), usize> = order.iter().enumerate().map(|(k, c)| (*c, k)).collect();
    let nodes = order.iter().map(|(i, j)| [xs[*i], ys[*j]]).collect();
    let elems: Vec<[usize; 4]> = cells
        .iter()
        .map(|&(i, j)| [ids[&(i, j)], ids[&(i + 1, j)], ids[&(i, j + 1)], ids[&(i + 1, j + 1)]])
        .collect();
    let mats = elems
        .iter()
        .map(|_| {
            if rng.chance(0.4) {
                [1.0, 0.0, 1.0, 0.0]
            } else {
                [rng.f(0.5, 5.0), rng.f(-1.0, 1.0), rng.f(0.5, 5.0), rng.f(-1.0, 1.0)]
            }
        })
        .collect();
    Base { nodes, elems, mats }
}

pub fn start_mesh(rng: &mut Rng, log: &mut Log, max: usize) -> (Mesh, Option<Base>) {
    if rng.chance(0.12) {
        log.op("Mesh::unit()");
        (Mesh::unit(), None)
    } else {
        let b = base(rng, max, Size::Normal);
        log.op(format!("Mesh::from_file of {}", b.to_file_text()));
        (b.load(log), Some(b))
    }
}

pub fn rand_href(rng: &mut Rng) -> HRef {
    match rng.below(9) {
        0..=2 => HRef::T,
        3 => HRef::U(None),
        4 => HRef::V(None),
        5 => HRef::U(Some(0)),
        6 => HRef::U(Some(1)),
        7 => HRef::V(Some(0)),
        _ => HRef::V(Some(1)),
    }
}

pub fn refineable(mesh: &Mesh) -> Vec<usize> {
    (0..mesh.elems.len()).filter(|e| mesh.elem_is_h_refineable(*e).unwrap()).collect()
}

/// One random accepted-by-construction h-refinement call (cells are large enough in generated meshes).
pub fn random_h_op(rng: &mut Rng, mesh: &mut Mesh, log: &mut Log, cap: usize) -> Result<(), String> {
    let mut cand = refineable(mesh);
    if cand.is_empty() || mesh.elems.len() >= cap {
        return Ok(());
    }
    let kind = rng.below(10);
    if kind == 0 && cand.len() * 4 + mesh.elems.len() <= cap {
        let h = rand_href(rng);
        log.op(format!("global_h_refinement({h:?})"));
        mesh.global_h_refinement(h);
        return Ok(());
    }
    // favour recently created cells so that histories get deep
    if rng.chance(0.5) {
        let k = cand.len().saturating_sub(4);
        cand = cand[k..].to_vec();
    }
    rng.shuffle(&mut cand);
    let room = ((cap - mesh.elems.len().min(cap)) / 4).max(1);
    let take = (1 + rng.below(3)).min(cand.len()).min(room);
    let ids: Vec<usize> = cand[..take].to_vec();
    match kind {
        1..=2 => {
            let h = rand_href(rng);
            log.op(format!("h_refine_elems({ids:?}, {h:?})"));
            mesh.h_refine_elems(ids, h).map_err(|e| format!("h_refine_elems of refineable cells failed: {e:?}"))
        }
        3 => {
            let m: BTreeMap<usize, HRef> = ids.iter().map(|i| (*i, rand_href(rng))).collect();
            log.op(format!("h_refine_with_filter(by id {m:?})"));
            mesh.h_refine_with_filter(|e: &Elem| m.get(&e.id).copied());
            Ok(())
        }
        _ => {
            let b: Vec<(usize, HRef)> = ids.iter().map(|i| (*i, rand_href(rng))).collect();
            log.op(format!("execute_h_refinements({b:?})"));
            mesh.execute_h_refinements(b).map_err(|e| format!("execute_h_refinements of refineable cells failed: {e:?}"))
        }
    }
}

pub fn random_p_op(rng: &mut Rng, mesh: &mut Mesh, log: &mut Log, max_order: u8) {
    let v: Vec<(usize, Orders)> = (0..mesh.elems.len())
        .filter_map(|e| rng.chance(0.5).then(|| (e, Orders::new(1 + rng.below(max_order as usize) as u8, 1 + rng.below(max_order as usize) as u8))))
        .collect();
    log.op(format!("set_expansion_orders({v:?})"));
    mesh.set_expansion_orders(v).unwrap();
}

pub fn random_mesh(rng: &mut Rng, log: &mut Log, grid: usize, ops: usize, cap: usize, max_order: u8) -> Result<Mesh, String> {
    let (mut mesh, _) = start_mesh(rng, log, grid);
    let n = rng.below(ops + 1);
    if max_order > 1 && rng.chance(0.5) {
        random_p_op(rng, &mut mesh, log, max_order);
    }
    for _ in 0..n {
        random_h_op(rng, &mut mesh, log, cap)?;
        if max_order > 1 && rng.chance(0.3) {
            random_p_op(rng, &mut mesh, log, max_order);
        }
    }
    if max_order > 1 && rng.chance(0.5) {
        random_p_op(rng, &mut mesh, log, max_order);
    }
    Ok(mesh)
}

/// Everything a user can observe of one cell / edge / node.
pub fn elem_view(mesh: &Mesh, e: usize) -> String {
    let el = &mesh.elems[e];
    format!(
        "{} {:?} {:?} {} {:?} {:?} {:?} {:?} {:?}",
        el.id, el.nodes, el.edges, el.element.id, el.h_levels, el.poly_orders, el.child_ids(), el.parent_id(), el.loc_stack()
    )
}
pub fn edge_view(mesh: &Mesh, e: usize) -> String {
    let ed = &mesh.edges[e];
    format!("{} {:?} {} {} {:?} {}", ed.to_json().dump(), ed.dir, ed.boundary, ed.length, ed.child_node_id(), ed.is_boundary())
}
pub fn node_view(mesh: &Mesh, n: usize) -> String {
    let nd = &mesh.nodes[n];
    format!("{} {} {}", nd.to_json().dump(), nd.coords.x, nd.coords.y)
}
pub fn snapshot(mesh: &Mesh) -> Vec<String> {
    let mut v = vec![];
    for e in 0..mesh.elems.len() {
        v.push(format!("elem {}", elem_view(mesh, e)));
    }
    for e in 0..mesh.edges.len() {
        v.push(format!("edge {}", edge_view(mesh, e)));
    }
    for e in 0..mesh.nodes.len() {
        v.push(format!("node {}", node_view(mesh, e)));
    }
    v
}
pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} items became {}", a.len(), b.len()));
    }
    a.iter().zip(b.iter()).find(|(x, y)| x != y).map(|(x, y)| format!("{x}  became  {y}"))
}

/// physical rectangle [x0,x1,y0,y1] of a cell, from its nodes
pub fn rect(mesh: &Mesh, e: usize) -> [f64; 4] {
    let n = mesh.elems[e].nodes;
    let a = &mesh.nodes[n[0]].coords;
    let b = &mesh.nodes[n[3]].coords;
    [a.x, b.x, a.y, b.y]
}

/// parent -> children lists, from the public accessors
pub fn leafs(mesh: &Mesh) -> Vec<usize> {
    (0..mesh.elems.len()).filter(|e| !mesh.elems[*e].has_children()).collect()
}

/// cells attached to each edge on each side, from the cells' own edge lists (creation order)
pub fn attached(mesh: &Mesh) -> Vec<[Vec<usize>; 2]> {
    let mut v = vec![[vec![], vec![]]; mesh.edges.len()];
    for el in mesh.elems.iter() {
        for (k, e) in el.edges.iter().enumerate() {
            let side = if k == 0 || k == 2 { 1 } else { 0 };
            v[*e][side].push(el.id);
        }
    }
    v
}

pub fn is_ancestor(mesh: &Mesh, anc: usize, e: usize) -> bool {
    let mut c = mesh.elems[e].parent_id();
    while let Some(p) = c {
        if p == anc {
            return true;
        }
        c = mesh.elems[p].parent_id();
    }
    false
}

pub fn is_u(d: ParaDir) -> bool {
    matches!(d, ParaDir::U)
}

pub fn rand_pref(rng: &mut Rng) -> (i8, i8) {
    let one = |rng: &mut Rng| -> i8 {
        match rng.below(5) {
            0 => rng.range(-128, 127) as i8,
            1 => *rng.pick(&[-128i8, -127, -20, -19, -1, 0, 1, 19, 20, 126, 127]),
            _ => rng.range(-20, 20) as i8,
        }
    };
    (one(rng), one(rng))
}
pub fn pref(d: (i8, i8)) -> PRef {
    PRef::from(d.0, d.1)
}
