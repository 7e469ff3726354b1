use crate::ck;
use crate::ctx::*;
use crate::gen::*;
use fem_2d::fem_domain::domain::dof::basis_spec::BSAddress;
use fem_2d::fem_domain::domain::mesh::{
    elem::Elem,
    h_refinement::{HRef, HRefError, HRefLoc},
    p_refinement::{Orders, PRef},
    space::{ParaDir, Point},
    Mesh, MeshAccessError, MIN_EDGE_LENGTH,
};
use fem_2d::fem_domain::domain::{ContinuityCondition, Domain};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const LOCS: [HRefLoc; 8] =
    [HRefLoc::SW, HRefLoc::SE, HRefLoc::NW, HRefLoc::NE, HRefLoc::W, HRefLoc::E, HRefLoc::S, HRefLoc::N];

/// documented halves taken by a location: (u half, v half), None = whole
fn halves(l: HRefLoc) -> (Option<usize>, Option<usize>) {
    match l {
        HRefLoc::SW => (Some(0), Some(0)),
        HRefLoc::SE => (Some(1), Some(0)),
        HRefLoc::NW => (Some(0), Some(1)),
        HRefLoc::NE => (Some(1), Some(1)),
        HRefLoc::W => (Some(0), None),
        HRefLoc::E => (Some(1), None),
        HRefLoc::S => (None, Some(0)),
        HRefLoc::N => (None, Some(1)),
    }
}
fn take_half(r: [f64; 2], h: Option<usize>) -> [f64; 2] {
    let m = (r[0] + r[1]) / 2.0;
    match h {
        None => r,
        Some(0) => [r[0], m],
        _ => [m, r[1]],
    }
}
fn close(a: f64, b: f64, t: f64) -> bool {
    (a - b).abs() <= t * (1.0 + a.abs().max(b.abs()))
}

pub fn p01(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    // halving of arbitrary ranges
    for _ in 0..4 {
        let a = rng.f(-1.0, 1.0);
        let b = a + rng.f(1e-6, 1.0);
        let c = rng.f(-1.0, 1.0);
        let d = c + rng.f(1e-6, 1.0);
        for l in LOCS {
            let r = l.sub_range([[a, b], [c, d]]);
            let (hu, hv) = halves(l);
            let e = [take_half([a, b], hu), take_half([c, d], hv)];
            for x in 0..2 {
                for y in 0..2 {
                    ck!(log, close(r[x][y], e[x][y], 1e-14), "{l:?}.sub_range([[{a},{b}],[{c},{d}]]) = {r:?}, expected {e:?}");
                }
            }
        }
    }
    let mut mesh = start_mesh(rng, log, 2).0;
    let deep = rng.chance(0.3);
    let n = 1 + rng.below(if deep { 12 } else { 6 });
    for _ in 0..n {
        random_h_op(rng, &mut mesh, log, 90)?;
    }
    log.interesting = mesh.elems.iter().any(|e| e.has_children());
    for e in 0..mesh.elems.len() {
        let el = &mesh.elems[e];
        let pr = el.parametric_range();
        if el.parent_id().is_none() {
            ck!(log, pr == [[-1.0, 1.0], [-1.0, 1.0]], "base cell {e} has parametric range {pr:?}");
        }
        if let Some(ch) = el.child_ids() {
            // each child's own range, place, and tiling
            let iso = ch.len() == 4;
            ck!(log, iso || ch.len() == 2, "cell {e} has {} children", ch.len());
            for (idx, c) in ch.iter().enumerate() {
                let cel = &mesh.elems[*c];
                let (anc, loc) = *cel.loc_stack().last().ok_or(format!("child {c} has no location"))?;
                ck!(log, anc == e, "child {c} of {e} names {anc} as its parent");
                ck!(log, loc.index() == idx, "child {idx} of cell {e} is at {loc:?} (index {})", loc.index());
                let (hu, hv) = halves(loc);
                let ok = match (iso, hu, hv) {
                    (true, Some(u), Some(v)) => u + 2 * v == idx,
                    (false, Some(u), None) => u == idx,
                    (false, None, Some(v)) => v == idx,
                    _ => false,
                };
                ck!(log, ok, "child {idx} of {} of cell {e} is at {loc:?}", ch.len());
                let want = [take_half(pr[0], hu), take_half(pr[1], hv)];
                let got = cel.parametric_range();
                for x in 0..2 {
                    for y in 0..2 {
                        ck!(log, close(got[x][y], want[x][y], 1e-13), "child {c} of cell {e}: range {got:?}, expected {want:?}");
                    }
                }
                let rel = cel.relative_parametric_range(e);
                let wrel = [take_half([-1.0, 1.0], hu), take_half([-1.0, 1.0], hv)];
                ck!(log, rel == wrel, "child {c} relative to its parent {e}: {rel:?}, expected {wrel:?}");
            }
            if !iso {
                let hs: Vec<_> = ch.iter().map(|c| halves(mesh.elems[*c].loc_stack().last().unwrap().1)).collect();
                ck!(log, (hs[0].0.is_some()) == (hs[1].0.is_some()), "children of {e} are split in different directions");
            }
        }
        // stack = path of ancestors
        let mut path = vec![];
        let mut c = el.parent_id();
        while let Some(p) = c {
            path.push(p);
            c = mesh.elems[p].parent_id();
        }
        path.reverse();
        let ids: Vec<usize> = el.loc_stack().iter().map(|x| x.0).collect();
        ck!(log, ids == path, "cell {e}: ancestor stack {ids:?} but parents give {path:?}");
        // composition of relative and absolute ranges
        let comp = |outer: [[f64; 2]; 2], inner: [[f64; 2]; 2]| {
            let mut r = [[0.0; 2]; 2];
            for x in 0..2 {
                for y in 0..2 {
                    r[x][y] = outer[x][0] + (inner[x][y] + 1.0) / 2.0 * (outer[x][1] - outer[x][0]);
                }
            }
            r
        };
        for (i, a) in path.iter().enumerate() {
            let rel = el.relative_parametric_range(*a);
            let full = comp(mesh.elems[*a].parametric_range(), rel);
            for x in 0..2 {
                for y in 0..2 {
                    ck!(log, close(full[x][y], pr[x][y], 1e-12), "cell {e}: range relative to ancestor {a} {rel:?} composed with its range {:?} is {full:?}, absolute range is {pr:?}", mesh.elems[*a].parametric_range());
                }
            }
            for b in path.iter().skip(i + 1) {
                let two = comp(mesh.elems[*b].relative_parametric_range(*a), el.relative_parametric_range(*b));
                for x in 0..2 {
                    for y in 0..2 {
                        ck!(log, close(two[x][y], rel[x][y], 1e-12), "cell {e}: {a}->{b}->{e} composes to {two:?}, direct range is {rel:?}");
                    }
                }
            }
        }
        // physical position agrees with the absolute range
        let r = rect(&mesh, e);
        let p0 = &el.element.points[0];
        let p3 = &el.element.points[3];
        let want = [
            p0.x + (pr[0][0] + 1.0) / 2.0 * (p3.x - p0.x),
            p0.x + (pr[0][1] + 1.0) / 2.0 * (p3.x - p0.x),
            p0.y + (pr[1][0] + 1.0) / 2.0 * (p3.y - p0.y),
            p0.y + (pr[1][1] + 1.0) / 2.0 * (p3.y - p0.y),
        ];
        for q in 0..4 {
            ck!(log, close(r[q], want[q], 1e-11), "cell {e}: corners span {r:?}, its parametric range {pr:?} maps to {want:?}");
        }
        // not an ancestor -> rejected
        let mut probes = vec![mesh.elems.len() + 3];
        probes.push(rng.below(mesh.elems.len()));
        if let Some(ch) = el.child_ids() {
            probes.push(ch[0]);
        }
        if let Some(p) = el.parent_id() {
            for s in mesh.elems[p].child_ids().unwrap().iter() {
                if *s != e {
                    probes.push(*s);
                    break;
                }
            }
        }
        for q in probes {
            if q != e && !path.contains(&q) {
                let r = guard(|| el.relative_parametric_range(q));
                ck!(log, r.is_err(), "cell {e}: range relative to {q}, which is no ancestor, was not rejected ({r:?})");
            }
        }
    }
    Ok(())
}

pub fn topology(mesh: &Mesh, log: &mut Log) -> Result<(), String> {
    let (ne, nd, nn) = (mesh.elems.len(), mesh.edges.len(), mesh.nodes.len());
    for (i, e) in mesh.elems.iter().enumerate() {
        ck!(log, e.id == i, "cell at position {i} has id {}", e.id);
        for n in e.nodes {
            ck!(log, n < nn, "cell {i} names node {n} of {nn}");
        }
        for n in e.edges {
            ck!(log, n < nd, "cell {i} names edge {n} of {nd}");
        }
    }
    for (i, e) in mesh.edges.iter().enumerate() {
        ck!(log, e.id == i, "edge at position {i} has id {}", e.id);
        ck!(log, e.nodes[0] < nn && e.nodes[1] < nn, "edge {i} names nodes {:?} of {nn}", e.nodes);
    }
    for (i, e) in mesh.nodes.iter().enumerate() {
        ck!(log, e.id == i, "node at position {i} has id {}", e.id);
    }
    const DEFS: [[usize; 2]; 4] = [[0, 1], [2, 3], [0, 2], [1, 3]];
    // cells vs their edges and nodes
    for (i, e) in mesh.elems.iter().enumerate() {
        for k in 0..4 {
            let ed = &mesh.edges[e.edges[k]];
            let want = [e.nodes[DEFS[k][0]], e.nodes[DEFS[k][1]]];
            ck!(log, ed.nodes == want, "cell {i}: its edge {k} (edge {}) joins nodes {:?}, expected {want:?}", ed.id, ed.nodes);
            ck!(log, is_u(ed.dir) == (k < 2), "cell {i}: its edge {k} (edge {}) has direction {:?}", ed.id, ed.dir);
        }
        let p: Vec<&Point> = e.nodes.iter().map(|n| &mesh.nodes[*n].coords).collect();
        ck!(log, p[0].x < p[1].x && p[0].y < p[2].y, "cell {i}: corners {:?} are not SW, SE, NW, NE", p.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>());
        ck!(log, p[0].x == p[2].x && p[1].x == p[3].x && p[0].y == p[1].y && p[2].y == p[3].y,
            "cell {i}: corners {:?} are not a rectangle", p.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>());
    }
    // edges
    let mut pairs: HashMap<[usize; 2], usize> = HashMap::new();
    for ed in mesh.edges.iter() {
        let mut key = ed.nodes;
        key.sort();
        if let Some(o) = pairs.insert(key, ed.id) {
            return Err(format!("edges {o} and {} join the same nodes {:?}", ed.id, ed.nodes));
        }
        let a = &mesh.nodes[ed.nodes[0]].coords;
        let b = &mesh.nodes[ed.nodes[1]].coords;
        let d = ((a.x - b.x).powi(2) + (a.y - b.y).powi(2)).sqrt();
        ck!(log, close(ed.length, d, 1e-12), "edge {}: length {} but its nodes are {} apart", ed.id, ed.length, d);
        match ed.child_ids() {
            Some(ch) => {
                ck!(log, ch.len() == 2 && ch[0] < nd && ch[1] < nd, "edge {} has children {ch:?}", ed.id);
                let mid = ed.child_node_id().ok_or(format!("edge {} has children but no midpoint", ed.id))?;
                ck!(log, mid < nn, "edge {} midpoint {mid}", ed.id);
                let c0 = &mesh.edges[ch[0]];
                let c1 = &mesh.edges[ch[1]];
                ck!(log, c0.nodes == [ed.nodes[0], mid] && c1.nodes == [mid, ed.nodes[1]],
                    "edge {} {:?} split at node {mid}: children join {:?} and {:?}", ed.id, ed.nodes, c0.nodes, c1.nodes);
                let m = &mesh.nodes[mid];
                ck!(log, close(m.coords.x, (a.x + b.x) / 2.0, 1e-13) && close(m.coords.y, (a.y + b.y) / 2.0, 1e-13),
                    "edge {}: midpoint node {mid} at ({}, {})", ed.id, m.coords.x, m.coords.y);
                ck!(log, m.boundary == ed.boundary, "edge {} boundary={} but its midpoint node {mid} has {}", ed.id, ed.boundary, m.boundary);
                for c in [c0, c1] {
                    ck!(log, c.parent_id() == Some(ed.id), "edge {} is a child of {} but names parent {:?}", c.id, ed.id, c.parent_id());
                    ck!(log, c.boundary == ed.boundary, "edge {} boundary={}, child {} has {}", ed.id, ed.boundary, c.id, c.boundary);
                    ck!(log, is_u(c.dir) == is_u(ed.dir), "edge {}: child {} turns direction", ed.id, c.id);
                }
            }
            None => ck!(log, ed.child_node_id().is_none() && !ed.has_children(), "edge {} has a midpoint node but no children", ed.id),
        }
        if let Some(p) = ed.parent_id() {
            ck!(log, p < nd && mesh.edges[p].child_ids().map_or(false, |c| c.contains(&ed.id)), "edge {} names parent {p} which does not list it", ed.id);
        }
    }
    // nodes
    let mut locs: HashMap<(i64, i64), Vec<usize>> = HashMap::new();
    let q = |v: f64| (v / 1e-9).floor() as i64;
    for n in mesh.nodes.iter() {
        locs.entry((q(n.coords.x), q(n.coords.y))).or_default().push(n.id);
    }
    for n in mesh.nodes.iter() {
        let (a, b) = (q(n.coords.x), q(n.coords.y));
        for da in -1..=1 {
            for db in -1..=1 {
                if let Some(l) = locs.get(&(a + da, b + db)) {
                    for o in l {
                        let m = &mesh.nodes[*o].coords;
                        ck!(log, *o == n.id || (m.x - n.coords.x).abs() > 5e-10 || (m.y - n.coords.y).abs() > 5e-10,
                            "nodes {} and {o} are both at ({}, {})", n.id, m.x, m.y);
                    }
                }
            }
        }
    }
    // cell tree
    let lower = |p: &mut Vec<usize>| p.sort();
    let _ = lower;
    for e in mesh.elems.iter() {
        if let Some(ch) = e.child_ids() {
            let mut set: Vec<usize> = ch.to_vec();
            set.sort();
            set.dedup();
            ck!(log, set.len() == ch.len() && set.iter().all(|c| *c < ne), "cell {} has children {ch:?}", e.id);
            let mid = |k: usize| mesh.edges[e.edges[k]].child_node_id();
            let ced = |k: usize, i: usize| mesh.edges[e.edges[k]].child_ids().map(|c| c[i]);
            let n = e.nodes;
            let get = |o: Option<usize>, what: &str| o.ok_or(format!("cell {} was refined but its {what} was not split", e.id));
            let c: Vec<&Elem> = ch.iter().map(|c| &mesh.elems[*c]).collect();
            let (du, dv);
            if ch.len() == 4 {
                du = 1;
                dv = 1;
                let (b, t, l, r) = (get(mid(0), "bottom edge")?, get(mid(1), "top edge")?, get(mid(2), "left edge")?, get(mid(3), "right edge")?);
                let ctr = c[0].nodes[3];
                let want = [[n[0], b, l, ctr], [b, n[1], ctr, r], [l, ctr, n[2], t], [ctr, r, t, n[3]]];
                for k in 0..4 {
                    ck!(log, c[k].nodes == want[k], "child {k} ({}) of cell {}: corners {:?}, expected {:?}", c[k].id, e.id, c[k].nodes, want[k]);
                }
                let x = &mesh.nodes[ctr].coords;
                let w = rect(mesh, e.id);
                ck!(log, close(x.x, (w[0] + w[1]) / 2.0, 1e-13) && close(x.y, (w[2] + w[3]) / 2.0, 1e-13), "cell {}: centre node {ctr} at ({}, {})", e.id, x.x, x.y);
                ck!(log, !mesh.nodes[ctr].boundary, "cell {}: centre node {ctr} is marked boundary", e.id);
                let g = |k, i| ced(k, i).unwrap();
                let want_outer = [
                    (0, 0, g(0, 0)), (1, 0, g(0, 1)), (2, 1, g(1, 0)), (3, 1, g(1, 1)),
                    (0, 2, g(2, 0)), (2, 2, g(2, 1)), (1, 3, g(3, 0)), (3, 3, g(3, 1)),
                ];
                for (k, s, w) in want_outer {
                    ck!(log, c[k].edges[s] == w, "child {k} ({}) of cell {}: edge {s} is {}, expected {w}", c[k].id, e.id, c[k].edges[s]);
                }
                for (a, sa, bb, sb) in [(0, 3, 1, 2), (2, 3, 3, 2), (0, 1, 2, 0), (1, 1, 3, 0)] {
                    ck!(log, c[a].edges[sa] == c[bb].edges[sb], "children {a} and {bb} of cell {} do not share an edge", e.id);
                    let ie = &mesh.edges[c[a].edges[sa]];
                    ck!(log, !ie.boundary && ie.parent_id().is_none(), "inner edge {} of cell {}: boundary={} parent={:?}", ie.id, e.id, ie.boundary, ie.parent_id());
                }
            } else if c[0].edges[2] == e.edges[2] {
                // split along u
                du = 1;
                dv = 0;
                let (b, t) = (get(mid(0), "bottom edge")?, get(mid(1), "top edge")?);
                let want = [[n[0], b, n[2], t], [b, n[1], t, n[3]]];
                for k in 0..2 {
                    ck!(log, c[k].nodes == want[k], "child {k} ({}) of cell {}: corners {:?}, expected {:?}", c[k].id, e.id, c[k].nodes, want[k]);
                    ck!(log, Some(c[k].edges[0]) == ced(0, k) && Some(c[k].edges[1]) == ced(1, k), "child {k} ({}) of cell {}: edges {:?}", c[k].id, e.id, c[k].edges);
                }
                ck!(log, c[1].edges[3] == e.edges[3] && c[0].edges[3] == c[1].edges[2], "children of cell {}: edges {:?} {:?}", e.id, c[0].edges, c[1].edges);
                let ie = &mesh.edges[c[0].edges[3]];
                ck!(log, !ie.boundary && ie.parent_id().is_none(), "inner edge {} of cell {}: boundary={} parent={:?}", ie.id, e.id, ie.boundary, ie.parent_id());
            } else {
                du = 0;
                dv = 1;
                let (l, r) = (get(mid(2), "left edge")?, get(mid(3), "right edge")?);
                let want = [[n[0], n[1], l, r], [l, r, n[2], n[3]]];
                for k in 0..2 {
                    ck!(log, c[k].nodes == want[k], "child {k} ({}) of cell {}: corners {:?}, expected {:?}", c[k].id, e.id, c[k].nodes, want[k]);
                    ck!(log, Some(c[k].edges[2]) == ced(2, k) && Some(c[k].edges[3]) == ced(3, k), "child {k} ({}) of cell {}: edges {:?}", c[k].id, e.id, c[k].edges);
                }
                ck!(log, c[0].edges[0] == e.edges[0] && c[1].edges[1] == e.edges[1] && c[0].edges[1] == c[1].edges[0],
                    "children of cell {}: edges {:?} {:?}", e.id, c[0].edges, c[1].edges);
                let ie = &mesh.edges[c[0].edges[1]];
                ck!(log, !ie.boundary && ie.parent_id().is_none(), "inner edge {} of cell {}: boundary={} parent={:?}", ie.id, e.id, ie.boundary, ie.parent_id());
            }
            for x in &c {
                ck!(log, x.parent_id() == Some(e.id), "cell {} is a child of {} but names parent {:?}", x.id, e.id, x.parent_id());
                ck!(log, x.h_levels.u == e.h_levels.u + du && x.h_levels.v == e.h_levels.v + dv,
                    "cell {} with depth {:?} has child {} with depth {:?}", e.id, e.h_levels, x.id, x.h_levels);
                ck!(log, x.element.id == e.element.id && std::ptr::eq(x.get_materials(), e.get_materials()) || {
                    let (a, b) = (x.get_materials(), e.get_materials());
                    x.element.id == e.element.id && a.eps_rel == b.eps_rel && a.mu_rel == b.mu_rel
                }, "cell {} does not inherit the material of {}", x.id, e.id);
            }
        }
        if let Some(p) = e.parent_id() {
            ck!(log, p < ne && mesh.elems[p].child_ids().map_or(false, |c| c.contains(&e.id)), "cell {} names parent {p} which does not list it", e.id);
        } else {
            ck!(log, e.h_levels.u == 0 && e.h_levels.v == 0, "base cell {} has depth {:?}", e.id, e.h_levels);
        }
    }
    // registration (side 1 = above/right of the edge: the edge is the cell's bottom or left)
    let att = attached(mesh);
    for ed in mesh.edges.iter() {
        let js = ed.to_json();
        for s in 0..2 {
            let mut got: Vec<usize> = js["elems"][s].members().map(|m| m["cell_id"].as_usize().unwrap()).collect();
            got.sort();
            ck!(log, got == att[ed.id][s], "edge {}: cells registered on side {s} are {got:?}, but cells {:?} have it there", ed.id, att[ed.id][s]);
        }
        ck!(log, !(att[ed.id][0].is_empty() && att[ed.id][1].is_empty()), "edge {} belongs to no cell", ed.id);
        ck!(log, ed.is_boundary() == (att[ed.id][0].is_empty() || att[ed.id][1].is_empty()), "edge {}: is_boundary() = {}", ed.id, ed.is_boundary());
    }
    let mut natt: Vec<[Vec<usize>; 4]> = vec![Default::default(); nn];
    for e in mesh.elems.iter() {
        for (k, n) in e.nodes.iter().enumerate() {
            natt[*n][k].push(e.id);
        }
    }
    for n in mesh.nodes.iter() {
        let js = n.to_json();
        for k in 0..4 {
            let mut got: Vec<usize> = js["elems"][k].members().map(|m| m.as_usize().unwrap()).collect();
            got.sort();
            ck!(log, got == natt[n.id][k], "node {}: cells registered at corner {k} are {got:?}, but cells {:?} have it there", n.id, natt[n.id][k]);
        }
    }
    // boundary flags of the initial entities
    let base: Vec<&Elem> = mesh.elems.iter().filter(|e| e.parent_id().is_none()).collect();
    let mut ecount: HashMap<usize, usize> = HashMap::new();
    let mut ncount: HashMap<usize, usize> = HashMap::new();
    for e in &base {
        for x in e.edges {
            *ecount.entry(x).or_default() += 1;
        }
        for x in e.nodes {
            *ncount.entry(x).or_default() += 1;
        }
    }
    for (x, c) in ecount {
        ck!(log, mesh.edges[x].boundary == (c == 1), "initial edge {x} has {c} cells and boundary={}", mesh.edges[x].boundary);
    }
    for (x, c) in ncount {
        ck!(log, mesh.nodes[x].boundary == (c < 4), "initial node {x} has {c} cells and boundary={}", mesh.nodes[x].boundary);
    }
    Ok(())
}

pub fn p02(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let (mut mesh, _) = start_mesh(rng, log, 3);
    topology(&mesh, log)?;
    if rng.chance(0.5) {
        random_p_op(rng, &mut mesh, log, 20);
    }
    let n = 1 + rng.below(9);
    for _ in 0..n {
        let before = mesh.clone();
        random_h_op(rng, &mut mesh, log, 140)?;
        // children inherit the expansion orders
        for e in before.elems.len()..mesh.elems.len() {
            let p = mesh.elems[e].parent_id().ok_or(format!("new cell {e} has no parent"))?;
            ck!(log, mesh.elems[e].poly_orders == mesh.elems[p].poly_orders, "cell {e} has orders {:?}, its parent {p} has {:?}", mesh.elems[e].poly_orders, mesh.elems[p].poly_orders);
        }
        topology(&mesh, log)?;
        if rng.chance(0.2) {
            random_p_op(rng, &mut mesh, log, 20);
            topology(&mesh, log)?;
        }
    }
    log.interesting = mesh.elems.len() > 4;
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P03
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum Bad {
    Unknown(usize),
    NotRefineable(usize),
    MinLen,
    Idx,
    Dup,
}
fn matches_bad(e: &HRefError, b: Bad) -> bool {
    match (e, b) {
        (HRefError::ElemDoesNotExist(i), Bad::Unknown(k)) => *i == k,
        (HRefError::ElemNotRefineable(i), Bad::NotRefineable(k)) => *i == k,
        (HRefError::ElemHasChildren(i), Bad::NotRefineable(k)) => *i == k,
        (HRefError::MinEdgeLength(_), Bad::MinLen) => true,
        (HRefError::ElemNotRefineable(_), Bad::MinLen) => true,
        (HRefError::BisectionIdxExceeded, Bad::Idx) => true,
        (HRefError::DuplicateElemIds, Bad::Dup) => true,
        _ => false,
    }
}

/// None: refused; Some(bads) otherwise
fn bads_of(mesh: &Mesh, e: usize, h: HRef) -> Vec<Bad> {
    let mut v = vec![];
    if e >= mesh.elems.len() {
        return vec![Bad::Unknown(e)];
    }
    let el = &mesh.elems[e];
    if el.has_children() || el.edges.iter().any(|x| mesh.edges[*x].length <= MIN_EDGE_LENGTH) {
        v.push(Bad::NotRefineable(e));
        return v;
    }
    let short = |x: usize| !mesh.edges[x].has_children() && mesh.edges[x].length / 2.0 < MIN_EDGE_LENGTH;
    let ed = el.edges;
    let (split, cross, ext): (Vec<usize>, [usize; 2], Option<usize>) = match h {
        HRef::T => (ed.to_vec(), [0, 0], None),
        HRef::U(x) => (vec![ed[0], ed[1]], [ed[2], ed[3]], x),
        HRef::V(x) => (vec![ed[2], ed[3]], [ed[0], ed[1]], x),
    };
    if split.iter().any(|x| short(*x)) {
        v.push(Bad::MinLen);
    }
    if let Some(i) = ext {
        if i > 1 {
            v.push(Bad::Idx);
        } else {
            // second stage: the child must be refineable and its edges long enough to be split
            let half = split.iter().any(|x| mesh.edges[*x].length / 2.0 <= MIN_EDGE_LENGTH);
            let mid = |x: usize| {
                let a = &mesh.nodes[mesh.edges[x].nodes[0]].coords;
                let b = &mesh.nodes[mesh.edges[x].nodes[1]].coords;
                Point::between(a, b)
            };
            let inner = mid(split[0]).dist(&mid(split[1]));
            if half || short(cross[i]) || inner / 2.0 < MIN_EDGE_LENGTH || inner <= MIN_EDGE_LENGTH {
                v.push(Bad::MinLen);
            }
        }
    }
    v
}

/// Children expected of an accepted request, in creation order, checked against `after`.
fn check_refined(before: &Mesh, after: &Mesh, asked: &BTreeMap<usize, HRef>, log: &mut Log) -> Result<(), String> {
    let n0 = before.elems.len();
    let mut next = n0;
    let mut ext: Vec<(usize, HRef)> = vec![];
    let check = |e: usize, h: HRef, next: &mut usize, log: &mut Log| -> Result<Vec<usize>, String> {
        let k = if matches!(h, HRef::T) { 4 } else { 2 };
        let want: Vec<usize> = (*next..*next + k).collect();
        *next += k;
        let got: Vec<usize> = after.elems[e].child_ids().map(|c| c.to_vec()).unwrap_or_default();
        ck!(log, got == want, "cell {e} asked for {h:?} has children {got:?}, expected {want:?}");
        for (i, c) in want.iter().enumerate() {
            ck!(log, *c < after.elems.len(), "child {c} of cell {e} was not created");
            let loc = after.elems[*c].loc_stack().last().map(|x| x.1);
            let wl = match h {
                HRef::T => [HRefLoc::SW, HRefLoc::SE, HRefLoc::NW, HRefLoc::NE][i],
                HRef::U(_) => [HRefLoc::W, HRefLoc::E][i],
                HRef::V(_) => [HRefLoc::S, HRefLoc::N][i],
            };
            ck!(log, loc == Some(wl), "child {i} of cell {e} refined with {h:?} is at {loc:?}, expected {wl:?}");
            let (r, p) = (rect(after, *c), rect(after, e));
            let (mx, my) = ((p[0] + p[1]) / 2.0, (p[2] + p[3]) / 2.0);
            let (hu, hv) = halves(wl);
            let w = [
                if hu == Some(1) { mx } else { p[0] },
                if hu == Some(0) { mx } else { p[1] },
                if hv == Some(1) { my } else { p[2] },
                if hv == Some(0) { my } else { p[3] },
            ];
            for q in 0..4 {
                ck!(log, close(r[q], w[q], 1e-12), "child {i} of cell {e} refined with {h:?} covers {r:?}, expected {w:?}");
            }
        }
        Ok(want)
    };
    for (e, h) in asked {
        let ch = check(*e, *h, &mut next, log)?;
        match h {
            HRef::U(Some(i)) => ext.push((ch[*i], HRef::V(None))),
            HRef::V(Some(i)) => ext.push((ch[*i], HRef::U(None))),
            _ => (),
        }
    }
    let mut exts: BTreeMap<usize, HRef> = BTreeMap::new();
    for (c, h) in ext {
        exts.insert(c, h);
    }
    for (c, h) in &exts {
        check(*c, *h, &mut next, log)?;
    }
    ck!(log, after.elems.len() == next, "{} cells exist after the batch, expected {next}", after.elems.len());
    for e in 0..next {
        let refined = asked.contains_key(&e) || exts.contains_key(&e);
        if e >= n0 && !refined {
            ck!(log, !after.elems[e].has_children(), "new cell {e} was refined without being asked for");
        }
        if e < n0 {
            let (a, b) = (&before.elems[e], &after.elems[e]);
            let same = a.id == b.id && a.nodes == b.nodes && a.edges == b.edges && a.h_levels == b.h_levels
                && a.poly_orders == b.poly_orders && a.loc_stack() == b.loc_stack() && a.element.id == b.element.id;
            ck!(log, same, "cell {e} changed in a batch: {} became {}", elem_view(before, e), elem_view(after, e));
            if !refined {
                ck!(log, a.child_ids() == b.child_ids(), "cell {e} was not named but its children changed from {:?} to {:?}", a.child_ids(), b.child_ids());
            }
        }
    }
    Ok(())
}

pub fn p03(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mut mesh;
    if rng.chance(0.45) {
        let b = base(rng, 2, Size::Tiny);
        log.op(format!("Mesh::from_file of {}", b.to_file_text()));
        mesh = b.load(log);
        for _ in 0..rng.below(3) {
            // anisotropic chains towards the limit
            let c: Vec<(usize, HRef)> = refineable(&mesh)
                .into_iter()
                .map(|e| (e, rand_href(rng)))
                .filter(|(e, h)| bads_of(&mesh, *e, *h).is_empty())
                .take(3)
                .collect();
            if !c.is_empty() {
                log.op(format!("execute_h_refinements({c:?})"));
                let r = mesh.execute_h_refinements(c.clone());
                ck!(log, r.is_ok(), "valid batch {c:?} refused: {r:?}");
            }
        }
    } else {
        mesh = random_mesh(rng, log, 2, 4, 80, 4)?;
    }
    for _ in 0..1 + rng.below(2) {
        let before = mesh.clone();
        let shot = snapshot(&mesh);
        let ne = mesh.elems.len();
        let mode = rng.below(8);
        if mode >= 6 {
            // whole-mesh and filter forms
            let cand = refineable(&mesh);
            let asked: BTreeMap<usize, HRef> = if mode == 6 {
                let h = rand_href(rng);
                if ne + cand.len() * 6 > 400 {
                    return Ok(());
                }
                log.op(format!("global_h_refinement({h:?})"));
                cand.iter().map(|e| (*e, h)).collect()
            } else {
                let m: BTreeMap<usize, HRef> = (0..ne).filter_map(|e| rng.chance(0.4).then(|| (e, rand_href(rng)))).collect();
                log.op(format!("h_refine_with_filter(by id {m:?})"));
                cand.iter().filter_map(|e| m.get(e).map(|h| (*e, *h))).collect()
            };
            let bad = asked.iter().any(|(e, h)| !bads_of(&mesh, *e, *h).is_empty());
            let sel = asked.clone();
            let all: BTreeMap<usize, HRef> = sel.clone();
            let global = mode == 6;
            let h0 = all.values().next().copied();
            let r = guard(|| {
                if global {
                    if let Some(h) = h0 {
                        mesh.global_h_refinement(h)
                    } else {
                        mesh.global_h_refinement(HRef::T)
                    }
                } else {
                    mesh.h_refine_with_filter(|e| sel.get(&e.id).copied())
                }
            });
            if bad {
                ck!(log, r.is_err(), "a batch below the minimum edge length was not refused");
                if let Some(d) = diff(&shot, &snapshot(&mesh)) {
                    return Err(format!("the mesh changed in an aborted whole-mesh or filtered refinement: {d}"));
                }
            } else {
                ck!(log, r.is_ok(), "valid whole-mesh or filtered refinement aborted: {r:?}");
                check_refined(&before, &mesh, &asked, log)?;
            }
            continue;
        }
        let mut reqs: Vec<(usize, HRef)> = vec![];
        let n = if rng.chance(0.2) { 4 + rng.below(20) } else { 1 + rng.below(4) };
        let mut cand = refineable(&mesh);
        // long batches: mostly distinct valid cells, so that one offending request may stand anywhere
        let long = n > 4 && rng.chance(0.8);
        rng.shuffle(&mut cand);
        for q in 0..n {
            let e = match rng.below(12) {
                0 if !long || rng.chance(0.2) => ne + rng.below(3),
                1 if !long || rng.chance(0.2) => rng.below(ne),
                _ if long && q < cand.len() => cand[q],
                _ if !cand.is_empty() => *rng.pick(&cand),
                _ => rng.below(ne),
            };
            let h = match rng.below(14) {
                0 if !long || rng.chance(0.2) => HRef::U(Some(2 + rng.below(3))),
                1 if !long || rng.chance(0.2) => HRef::V(Some(2 + rng.below(3))),
                _ => rand_href(rng),
            };
            reqs.push((e, h));
        }
        let mut bads: Vec<Bad> = vec![];
        let mut asked: BTreeMap<usize, HRef> = BTreeMap::new();
        let res;
        if mode < 3 {
            let h = reqs[0].1;
            let mut ids: Vec<usize> = reqs.iter().map(|r| r.0).collect();
            if rng.chance(0.75) {
                let mut seen = BTreeSet::new();
                ids.retain(|i| seen.insert(*i));
                if rng.chance(0.25) {
                    // one repeat, anywhere
                    let (i, at) = (*rng.pick(&ids), rng.below(ids.len() + 1));
                    ids.insert(at, i);
                }
            }
            let mut seen = BTreeSet::new();
            if ids.iter().any(|i| !seen.insert(*i)) {
                bads.push(Bad::Dup);
            }
            for i in &ids {
                bads.extend(bads_of(&mesh, *i, h));
                asked.insert(*i, h);
            }
            log.op(format!("h_refine_elems({ids:?}, {h:?})"));
            res = guard(|| mesh.h_refine_elems(ids.clone(), h));
        } else {
            // one request per cell (combination of several is another property)
            let mut seen = BTreeSet::new();
            reqs.retain(|r| seen.insert(r.0));
            for (i, h) in &reqs {
                bads.extend(bads_of(&mesh, *i, *h));
                asked.insert(*i, *h);
            }
            log.op(format!("execute_h_refinements({reqs:?})"));
            res = guard(|| mesh.execute_h_refinements(reqs.clone()));
        }
        let res = res.map_err(|p| format!("the call aborted instead of returning: {p}"))?;
        match res {
            Ok(()) => {
                ck!(log, bads.is_empty(), "the batch was accepted although it contains {bads:?}");
                check_refined(&before, &mesh, &asked, log)?;
            }
            Err(e) => {
                ck!(log, !bads.is_empty(), "a valid batch was refused: {e:?}");
                ck!(log, bads.iter().any(|b| matches_bad(&e, *b)), "the batch contains {bads:?} but the error is {e:?}");
                if let Some(d) = diff(&shot, &snapshot(&mesh)) {
                    return Err(format!("the batch was refused ({e:?}) but the mesh changed: {d}"));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P04
fn combined(reqs: &[HRef]) -> HRef {
    let mut u = false;
    let mut v = false;
    let mut t = false;
    let mut ext: BTreeSet<usize> = BTreeSet::new();
    for r in reqs {
        match r {
            HRef::T => t = true,
            HRef::U(x) => {
                u = true;
                ext.extend(x.iter());
            }
            HRef::V(x) => {
                v = true;
                ext.extend(x.iter());
            }
        }
    }
    if t || (u && v) || ext.len() > 1 {
        HRef::T
    } else if u {
        HRef::U(ext.into_iter().next())
    } else {
        HRef::V(ext.into_iter().next())
    }
}
const ALL7: [HRef; 7] = [HRef::T, HRef::U(None), HRef::U(Some(0)), HRef::U(Some(1)), HRef::V(None), HRef::V(Some(0)), HRef::V(Some(1))];

pub fn p04(k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let reqs: Vec<HRef>;
    if k < 49 + 343 {
        // every pair and triple
        let mut r = vec![];
        let mut x = if k < 49 { k } else { k - 49 };
        for _ in 0..(if k < 49 { 2 } else { 3 }) {
            r.push(ALL7[(x % 7) as usize]);
            x /= 7;
        }
        reqs = r;
        let want = combined(&reqs);
        let mut acc = reqs[0];
        for r in &reqs[1..] {
            acc += *r;
        }
        ck!(log, acc == want, "combining {reqs:?} gives {acc:?}, expected {want:?}");
    } else {
        reqs = (0..1 + rng.below(5)).map(|_| rand_href(rng)).collect();
    }
    let mut mesh = if rng.chance(0.3) { random_mesh(rng, log, 2, 2, 40, 1)? } else { start_mesh(rng, log, 2).0 };
    let cand = refineable(&mesh);
    if cand.is_empty() {
        return Ok(());
    }
    let cell = *rng.pick(&cand);
    let mut batch: Vec<(usize, HRef)> = reqs.iter().map(|r| (cell, *r)).collect();
    let mut asked: BTreeMap<usize, Vec<HRef>> = BTreeMap::new();
    asked.insert(cell, reqs.clone());
    if rng.chance(0.5) {
        for _ in 0..1 + rng.below(4) {
            let o = *rng.pick(&cand);
            if o != cell || rng.chance(0.2) {
                let h = rand_href(rng);
                batch.push((o, h));
                asked.entry(o).or_default().push(h);
            }
        }
        rng.shuffle(&mut batch);
    }
    let want: BTreeMap<usize, HRef> = asked.iter().map(|(e, r)| (*e, combined(r))).collect();
    let before = mesh.clone();
    log.op(format!("execute_h_refinements({batch:?})"));
    let r = mesh.execute_h_refinements(batch.clone());
    ck!(log, r.is_ok(), "batch {batch:?} was refused: {r:?}");
    check_refined(&before, &mesh, &want, log)?;
    // order independence
    let one = snapshot(&mesh);
    let mut other = before.clone();
    rng.shuffle(&mut batch);
    log.op(format!("execute_h_refinements({batch:?}) on the same mesh"));
    other.execute_h_refinements(batch).map_err(|e| format!("a permuted batch was refused: {e:?}"))?;
    if let Some(d) = diff(&one, &snapshot(&other)) {
        return Err(format!("the same requests in another order give another mesh: {d}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P05, P06
fn p_mesh(rng: &mut Rng, log: &mut Log) -> Result<Mesh, String> {
    let mut mesh = random_mesh(rng, log, 2, 3, 30, 1)?;
    let v: Vec<(usize, Orders)> = (0..mesh.elems.len())
        .map(|e| {
            let mut o = || match rng.below(5) {
                0 => 1,
                1 => 20,
                2 => 19,
                _ => 1 + rng.below(20) as u8,
            };
            (e, Orders::new(o(), o()))
        })
        .collect();
    log.op(format!("set_expansion_orders({v:?})"));
    mesh.set_expansion_orders(v.clone()).map_err(|e| format!("{e:?}"))?;
    for (e, o) in v {
        let g = mesh.elems[e].poly_orders;
        ck!(log, [g.ni, g.nj] == o.to_array(), "cell {e} was set to {o:?} but has {g:?}");
    }
    Ok(mesh)
}
fn orders(mesh: &Mesh) -> Vec<[i64; 2]> {
    mesh.elems.iter().map(|e| [e.poly_orders.ni as i64, e.poly_orders.nj as i64]).collect()
}
fn same_but_orders(a: &Mesh, b: &Mesh) -> Option<String> {
    let strip = |m: &Mesh| {
        let mut c = m.clone();
        for e in c.elems.iter_mut() {
            e.poly_orders = Default::default();
        }
        snapshot(&c)
    };
    diff(&strip(a), &strip(b))
}

pub fn p05(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mut mesh = p_mesh(rng, log)?;
    for i in [0u8, 1, 20, 21, 255, rng.below(256) as u8] {
        for j in [0u8, 1, 20, 21, 255, rng.below(256) as u8] {
            let ok = (1..=20).contains(&i) && (1..=20).contains(&j);
            ck!(log, Orders::try_new(i, j).is_ok() == ok, "Orders::try_new({i}, {j}) = {:?}", Orders::try_new(i, j));
            ck!(log, guard(|| Orders::new(i, j)).is_ok() == ok, "Orders::new({i}, {j})");
            let mut p = fem_2d::fem_domain::domain::mesh::p_refinement::PolyOrders::default();
            let r = p.set([i, j]);
            ck!(log, r.is_ok() == ok && [p.ni, p.nj] == if ok { [i, j] } else { [1, 1] }, "PolyOrders::set([{i}, {j}]) gave {r:?} and {p:?}");
        }
    }
    for _ in 0..1 + rng.below(3) {
        let ne = mesh.elems.len();
        let before = mesh.clone();
        let shot = snapshot(&mesh);
        let cur = orders(&mesh);
        match rng.below(4) {
            0 => {
                let long = rng.chance(0.25);
                let count = if long { 4 + rng.below(20) } else { 1 + rng.below(4) };
                let mut v: Vec<(usize, Orders)> = (0..count)
                    .map(|_| ({ let extra = usize::from(rng.chance(0.2)); rng.below(ne + extra) }, Orders::new(1 + rng.below(20) as u8, 1 + rng.below(20) as u8)))
                    .collect();
                if long {
                    // distinct known cells except perhaps for one, anywhere
                    let mut seen = BTreeSet::new();
                    v.retain(|x| x.0 < ne && seen.insert(x.0));
                    let (a, o) = (rng.below(v.len() + 1), Orders::new(3, 4));
                    match rng.below(3) {
                        0 if !v.is_empty() => {
                            let e = rng.pick(&v).0;
                            v.insert(a, (e, o));
                        }
                        1 => v.insert(a, (ne, o)),
                        _ => {}
                    }
                    if v.is_empty() {
                        v.push((0, o));
                    }
                }
                let list = rng.chance(0.3);
                if list {
                    let o = v[0].1;
                    v.iter_mut().for_each(|x| x.1 = o);
                }
                let mut seen = BTreeSet::new();
                let dup = v.iter().any(|x| !seen.insert(x.0));
                let unk = v.iter().any(|x| x.0 >= ne);
                log.op(format!("{}({v:?})", if list { "set_expansion_on_elems" } else { "set_expansion_orders" }));
                let r = guard(|| if list { mesh.set_expansion_on_elems(v.iter().map(|x| x.0).collect(), v[0].1) } else { mesh.set_expansion_orders(v.clone()) })
                    .map_err(|p| format!("the call aborted: {p}"))?;
                ck!(log, r.is_ok() == !(dup || unk), "duplicates={dup} unknown={unk} but the result is {r:?}");
                if r.is_err() {
                    if let Some(d) = diff(&shot, &snapshot(&mesh)) {
                        return Err(format!("refused, but changed: {d}"));
                    }
                } else {
                    let mut want = cur.clone();
                    for (e, o) in &v {
                        let a = o.to_array();
                        want[*e] = [a[0] as i64, a[1] as i64];
                    }
                    ck!(log, orders(&mesh) == want, "orders are {:?}, expected {want:?}", orders(&mesh));
                    if let Some(d) = same_but_orders(&before, &mesh) {
                        return Err(format!("something else changed: {d}"));
                    }
                }
            }
            1 => {
                let o = Orders::new(1 + rng.below(20) as u8, 1 + rng.below(20) as u8);
                let sel: Option<BTreeSet<usize>> = if rng.chance(0.5) { Some((0..ne).filter(|_| rng.chance(0.5)).collect()) } else { None };
                log.op(format!("set orders {o:?} globally / by filter {sel:?}"));
                match &sel {
                    None => mesh.set_global_expansion_orders(o),
                    Some(s) => mesh.set_expansions_with_filter(|e| if s.contains(&e.id) { Some(o) } else { None }),
                }
                for e in 0..ne {
                    let a = o.to_array();
                    let want = if sel.as_ref().map_or(true, |s| s.contains(&e)) { [a[0] as i64, a[1] as i64] } else { cur[e] };
                    ck!(log, orders(&mesh)[e] == want, "cell {e} has orders {:?}, expected {want:?}", orders(&mesh)[e]);
                }
            }
            x => {
                let mut v: Vec<(usize, (i8, i8))> = vec![];
                let wide = rng.chance(0.3);
                let some: Vec<usize> = (0..if wide { 4 + rng.below(20) } else { 1 + rng.below(3) }).map(|_| rng.below(ne)).collect();
                let n = if wide { 5 + rng.below(30) } else { 1 + rng.below(6) };
                let fit = wide || rng.chance(0.6);
                let mut tot: BTreeMap<usize, [i64; 2]> = BTreeMap::new();
                for _ in 0..n {
                    let e = if rng.chance(if wide { 0.01 } else { 0.06 }) { ne + rng.below(2) } else { *rng.pick(&some) };
                    let mut d = rand_pref(rng);
                    if fit && e < ne {
                        // stay within the window on the whole
                        let s = tot.get(&e).copied().unwrap_or([0, 0]);
                        let w = |c: i64, s: i64, rng: &mut Rng| rng.range((1 - c - s).max(-128), (20 - c - s).min(127)) as i8;
                        d = (w(cur[e][0], s[0], rng), w(cur[e][1], s[1], rng));
                    }
                    let t = tot.entry(e).or_default();
                    t[0] += d.0 as i64;
                    t[1] += d.1 as i64;
                    v.push((e, d));
                }
                if wide && rng.chance(0.5) {
                    // exactly one cell leaves the window, by one or by a lot
                    let e = *rng.pick(&some);
                    let s = tot.get(&e).copied().unwrap_or([0, 0]);
                    let q = rng.below(2);
                    let go = if rng.chance(0.5) { 21 + rng.below(2) as i64 } else { -(rng.below(2) as i64) };
                    let mut step = [0i64; 2];
                    step[q] = go - cur[e][q] - s[q];
                    let at = rng.below(v.len() + 1);
                    v.insert(at, (e, (step[0] as i8, step[1] as i8)));
                    let t = tot.entry(e).or_default();
                    t[0] += step[0];
                    t[1] += step[1];
                }
                if rng.chance(0.05) {
                    let e = *rng.pick(&some);
                    let d = *rng.pick(&[(127i8, 0i8), (0, 127), (-128, 0), (0, -128), (127, -128)]);
                    for _ in 0..2 + rng.below(6) {
                        let t = tot.entry(e).or_default();
                        t[0] += d.0 as i64;
                        t[1] += d.1 as i64;
                        v.push((e, d));
                    }
                }
                let list = x == 3;
                let mut bad;
                let r;
                if list {
                    let d = if wide { (rng.range(-3, 3) as i8, rng.range(-3, 3) as i8) } else { v[0].1 };
                    let mut ids: Vec<usize> = v.iter().map(|x| x.0).collect();
                    if wide && rng.chance(0.7) {
                        let mut seen = BTreeSet::new();
                        ids.retain(|i| seen.insert(*i));
                        if rng.chance(0.3) {
                            let (i, at) = (*rng.pick(&ids), rng.below(ids.len() + 1));
                            ids.insert(at, i);
                        }
                    }
                    let mut seen = BTreeSet::new();
                    bad = ids.iter().any(|i| !seen.insert(*i));
                    tot = ids.iter().map(|i| (*i, [d.0 as i64, d.1 as i64])).collect();
                    log.op(format!("p_refine_elems({ids:?}, PRef{d:?})"));
                    r = guard(|| mesh.p_refine_elems(ids.clone(), pref(d)));
                } else {
                    bad = false;
                    log.op(format!("execute_p_refinements({v:?})"));
                    r = guard(|| mesh.execute_p_refinements(v.iter().map(|(e, d)| (*e, pref(*d))).collect()));
                }
                let r = r.map_err(|p| format!("the call aborted: {p}"))?;
                let mut want = cur.clone();
                for (e, d) in &tot {
                    if *e >= ne {
                        bad = true;
                    } else {
                        for q in 0..2 {
                            want[*e][q] += d[q];
                            if !(1..=20).contains(&want[*e][q]) {
                                bad = true;
                            }
                        }
                    }
                }
                match r {
                    Ok(()) => {
                        ck!(log, !bad, "accepted, although it asks for orders {want:?} (or unknown / repeated cells)");
                        ck!(log, orders(&mesh) == want, "orders are {:?}, expected {want:?}", orders(&mesh));
                        if let Some(d) = same_but_orders(&before, &mesh) {
                            return Err(format!("something else changed: {d}"));
                        }
                    }
                    Err(e) => {
                        ck!(log, bad, "refused with {e:?}, although every resulting order {want:?} is in [1, 20]");
                        if let Some(d) = diff(&shot, &snapshot(&mesh)) {
                            return Err(format!("refused with {e:?}, but changed: {d}"));
                        }
                    }
                }
            }
        }
        ck!(log, orders(&mesh).iter().flatten().all(|n| (1..=20).contains(n)), "orders {:?} outside [1, 20]", orders(&mesh));
    }
    Ok(())
}

pub fn p06(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mut mesh = p_mesh(rng, log)?;
    for _ in 0..1 + rng.below(3) {
        let ne = mesh.elems.len();
        let cur = orders(&mesh);
        let before = mesh.clone();
        for e in 0..ne {
            let w = mesh.elem_p_refinement_window(e).map_err(|e| format!("{e:?}"))?;
            let want = [[1 - cur[e][0], 20 - cur[e][0]], [1 - cur[e][1], 20 - cur[e][1]]];
            ck!(log, (0..2).all(|a| (0..2).all(|b| w[a][b] as i64 == want[a][b])), "cell {e} with orders {:?}: window {w:?}", cur[e]);
        }
        for e in [ne, ne + 1, usize::MAX] {
            let w = guard(|| mesh.elem_p_refinement_window(e)).map_err(|p| format!("window of unknown cell {e} aborted: {p}"))?;
            ck!(log, matches!(w, Err(MeshAccessError::ElemDoesNotExist(x)) if x == e), "window of unknown cell {e}: {w:?}");
        }
        let cl = |c: i64, d: i8| (c + d as i64).clamp(1, 20);
        let mode = rng.below(3);
        let mut want = cur.clone();
        if mode == 0 {
            let d = rand_pref(rng);
            log.op(format!("global_p_refinement(PRef{d:?})"));
            mesh.global_p_refinement(pref(d));
            for w in want.iter_mut() {
                *w = [cl(w[0], d.0), cl(w[1], d.1)];
            }
        } else if mode == 1 {
            let m: BTreeMap<usize, (i8, i8)> = (0..ne).filter_map(|e| rng.chance(0.6).then(|| (e, rand_pref(rng)))).collect();
            log.op(format!("p_refine_with_filter(by id {m:?})"));
            mesh.p_refine_with_filter(|e| m.get(&e.id).map(|d| pref(*d)));
            for (e, d) in &m {
                want[*e] = [cl(cur[*e][0], d.0), cl(cur[*e][1], d.1)];
            }
        } else {
            let wild = rng.chance(0.3);
            let m: BTreeMap<usize, (i8, i8)> = (0..ne)
                .filter_map(|e| {
                    if rng.chance(0.5) {
                        return None;
                    }
                    let w = |c: i64, rng: &mut Rng| rng.range(1 - c, 20 - c) as i8;
                    let d = if wild && rng.chance(0.3) { rand_pref(rng) } else { (w(cur[e][0], rng), w(cur[e][1], rng)) };
                    Some((e, d))
                })
                .collect();
            log.op(format!("p_refine_with_filter_bounded(by id {m:?})"));
            let shot = snapshot(&mesh);
            let seen = std::sync::Mutex::new(vec![]);
            let r = mesh.p_refine_with_filter_bounded(|e, w| {
                seen.lock().unwrap().push((e.id, w));
                m.get(&e.id).map(|d| pref(*d))
            });
            for (e, w) in seen.into_inner().unwrap() {
                let t = [[1 - cur[e][0], 20 - cur[e][0]], [1 - cur[e][1], 20 - cur[e][1]]];
                ck!(log, (0..2).all(|a| (0..2).all(|b| w[a][b] as i64 == t[a][b])), "the filter was given window {w:?} for cell {e} with orders {:?}", cur[e]);
            }
            let bad = m.iter().any(|(e, d)| !(1..=20).contains(&(cur[*e][0] + d.0 as i64)) || !(1..=20).contains(&(cur[*e][1] + d.1 as i64)));
            ck!(log, r.is_err() == bad, "p_refine_with_filter_bounded: {r:?}, outside of a window: {bad}");
            if bad {
                if let Some(d) = diff(&shot, &snapshot(&mesh)) {
                    return Err(format!("refused, but changed: {d}"));
                }
            } else {
                for (e, d) in &m {
                    want[*e] = [cur[*e][0] + d.0 as i64, cur[*e][1] + d.1 as i64];
                }
            }
        }
        ck!(log, orders(&mesh) == want, "orders are {:?}, expected {want:?}", orders(&mesh));
        if let Some(d) = same_but_orders(&before, &mesh) {
            return Err(format!("something else changed: {d}"));
        }
    }
    // windows and clamping of single deltas
    for _ in 0..10 {
        let (d, c) = (rand_pref(rng), [rng.range(1, 20), rng.range(1, 20)]);
        let w = [[(1 - c[0]) as i8, (20 - c[0]) as i8], [(1 - c[1]) as i8, (20 - c[1]) as i8]];
        let a = PRef::from(d.0, d.1).constrained_to(w).as_array();
        let want = [d.0.clamp(w[0][0], w[0][1]), d.1.clamp(w[1][0], w[1][1])];
        ck!(log, a == want, "PRef{d:?} constrained to {w:?} is {a:?}");
        let inside = d.0 >= w[0][0] && d.0 <= w[0][1] && d.1 >= w[1][0] && d.1 <= w[1][1];
        ck!(log, PRef::from(d.0, d.1).falls_within(w) == inside, "PRef{d:?} falls_within {w:?}");
        ck!(log, PRef::on_dir(ParaDir::U, d.0).as_array() == [d.0, 0] && PRef::on_dir(ParaDir::V, d.1).as_array() == [0, d.1], "PRef::on_dir");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P07
pub fn activation(mesh: &Mesh, log: &mut Log) -> Result<usize, String> {
    let att = attached(mesh);
    let usable = |e: usize| !att[e][0].is_empty() && !att[e][1].is_empty();
    let mut count = 0;
    for ed in mesh.edges.iter() {
        let e = ed.id;
        let kids = ed.child_ids();
        let split = kids.as_ref().map_or(false, |c| usable(c[0]) && usable(c[1]));
        if let Some(c) = &kids {
            ck!(log, usable(c[0]) == usable(c[1]), "children of edge {e} differ in usability");
        }
        let want = usable(e) && !split;
        let got = ed.active_elem_pair();
        ck!(log, got.is_some() == want, "edge {e}: active = {got:?}, attached cells {:?} / {:?}, children {kids:?} usable: {split}", att[e][0], att[e][1]);
        if let Some(p) = got {
            count += 1;
            for s in 0..2 {
                // most refined of the attached cells: no other attached cell lies below it
                let l = &att[e][s];
                ck!(log, l.contains(&p[s]), "edge {e}: active cell {} is not attached on side {s} ({l:?})", p[s]);
                ck!(log, l.iter().all(|o| *o == p[s] || is_ancestor(mesh, *o, p[s])), "edge {e}: active cell {} on side {s} is not the finest of {l:?}", p[s]);
            }
            ck!(log, !ed.boundary, "boundary edge {e} is active");
            let a = guard(|| (ed.other_active_elem_id(p[0]), ed.other_active_elem_id(p[1])));
            ck!(log, a == Ok((Some(p[1]), Some(p[0]))), "edge {e}: partners of {p:?} are reported as {a:?}");
        } else {
            let a = guard(|| ed.other_active_elem_id(0));
            ck!(log, a == Ok(None), "inactive edge {e}: partner of 0 reported as {a:?}");
        }
    }
    // exact partition of the initial interior edges
    fn walk(mesh: &Mesh, e: usize, above: usize) -> Result<(), String> {
        let here = above + usize::from(mesh.edges[e].active_elem_pair().is_some());
        if here > 1 {
            return Err(format!("edge {e} and one of its ancestors are both active"));
        }
        match mesh.edges[e].child_ids() {
            Some(c) => {
                walk(mesh, c[0], here)?;
                walk(mesh, c[1], here)
            }
            None => {
                if here == 1 {
                    Ok(())
                } else {
                    Err(format!("no active edge covers the stretch of edge {e}"))
                }
            }
        }
    }
    for ed in mesh.edges.iter().filter(|e| e.parent_id().is_none()) {
        if ed.boundary {
            let mut st = vec![ed.id];
            while let Some(x) = st.pop() {
                ck!(log, mesh.edges[x].active_elem_pair().is_none(), "edge {x} on the boundary is active");
                st.extend(mesh.edges[x].child_ids().iter().flatten());
            }
        } else {
            log.checks += 1;
            walk(mesh, ed.id, 0)?;
        }
    }
    Ok(count)
}

pub fn p07(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let (mut mesh, _) = start_mesh(rng, log, 3);
    activation(&mesh, log)?;
    let mut c = 0;
    for _ in 0..1 + rng.below(9) {
        random_h_op(rng, &mut mesh, log, 140)?;
        c = activation(&mesh, log)?;
    }
    log.interesting = c > 0;
    let shot = snapshot(&mesh);
    if rng.chance(0.5) {
        log.op("export_to_json");
        let p = format!("{}/x.json", log.dir);
        mesh.export_to_json(&p).map_err(|e| e.to_string())?;
        if let Some(d) = diff(&shot, &snapshot(&mesh)) {
            return Err(format!("recomputing the activation changed: {d}"));
        }
    } else {
        log.op("Domain::from_mesh");
        let d = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
        if let Some(d) = diff(&shot, &snapshot(&d.mesh)) {
            return Err(format!("recomputing the activation changed: {d}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P08
pub fn p08(_k: u64, rng: &mut Rng, log: &mut Log) -> Result<(), String> {
    let mesh = random_mesh(rng, log, 3, 7, 70, 3)?;
    let (ne, nd) = (mesh.elems.len(), mesh.edges.len());
    let mut desc: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); ne];
    let mut anc: Vec<Vec<usize>> = vec![vec![]; ne];
    for e in 0..ne {
        let mut c = mesh.elems[e].parent_id();
        while let Some(p) = c {
            desc[p].insert(e);
            anc[e].push(p);
            c = mesh.elems[p].parent_id();
        }
    }
    let mut edesc: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); nd];
    for e in 0..nd {
        let mut c = mesh.edges[e].parent_id();
        while let Some(p) = c {
            edesc[p].insert(e);
            c = mesh.edges[p].parent_id();
        }
    }
    let exact = |got: &Vec<usize>, want: &BTreeSet<usize>, extra: Option<usize>| {
        let s: BTreeSet<usize> = got.iter().copied().collect();
        let mut w = want.clone();
        w.extend(extra);
        s.len() == got.len() && s == w
    };
    for e in 0..ne {
        for inc in [false, true] {
            let d = mesh.descendant_elems(e, inc).map_err(|x| format!("{x:?}"))?;
            ck!(log, exact(&d, &desc[e], inc.then_some(e)), "descendant_elems({e}, {inc}) = {d:?}, expected {:?}", desc[e]);
            let a = mesh.ancestor_elems(e, inc).map_err(|x| format!("{x:?}"))?;
            let mut w = if inc { vec![e] } else { vec![] };
            w.extend(anc[e].iter());
            ck!(log, a == w, "ancestor_elems({e}, {inc}) = {a:?}, expected {w:?}");
        }
        let p = mesh.elem_points(e).map_err(|x| format!("{x:?}"))?;
        let d = mesh.elem_diag_points(e).map_err(|x| format!("{x:?}"))?;
        let at = |q: &Point, n: usize| q.x == mesh.nodes[n].coords.x && q.y == mesh.nodes[n].coords.y;
        for k in 0..4 {
            ck!(log, at(p[k], mesh.elems[e].nodes[k]), "elem_points({e})[{k}]");
        }
        ck!(log, at(d[0], mesh.elems[e].nodes[0]) && at(d[1], mesh.elems[e].nodes[3]), "elem_diag_points({e})");
        let refable = !mesh.elems[e].has_children() && mesh.elems[e].edges.iter().all(|x| mesh.edges[*x].length > MIN_EDGE_LENGTH);
        ck!(log, matches!(mesh.elem_is_h_refineable(e), Ok(r) if r == refable), "elem_is_h_refineable({e})");
    }
    for e in 0..nd {
        for inc in [false, true] {
            let d = mesh.descendant_edges(e, inc).map_err(|x| format!("{x:?}"))?;
            ck!(log, exact(&d, &edesc[e], inc.then_some(e)), "descendant_edges({e}, {inc}) = {d:?}, expected {:?}", edesc[e]);
        }
        let p = mesh.edge_points(e).map_err(|x| format!("{x:?}"))?;
        for k in 0..2 {
            let n = &mesh.nodes[mesh.edges[e].nodes[k]].coords;
            ck!(log, p[k].x == n.x && p[k].y == n.y, "edge_points({e})[{k}]");
        }
    }
    let mx = mesh.max_expansion_orders();
    let w = mesh.elems.iter().fold([0u8; 2], |a, e| [a[0].max(e.poly_orders.ni), a[1].max(e.poly_orders.nj)]);
    ck!(log, mx == w, "max_expansion_orders() = {mx:?}, expected {w:?}");
    // unknown ids
    macro_rules! unknown {
        ($what:expr, $call:expr, $pat:pat, $id:expr) => {{
            let r = guard(|| $call).map_err(|p| format!("{} aborted for unknown id {}: {p}", $what, $id))?;
            ck!(log, matches!(r, $pat), "{} of unknown id {} was accepted or gave another error", $what, $id);
        }};
    }
    for k in [0usize, 1, 7, usize::MAX / 2] {
        for inc in [false, true] {
            let (e, d) = (ne + k, nd + k);
            unknown!("descendant_elems", mesh.descendant_elems(e, inc), Err(MeshAccessError::ElemDoesNotExist(_)), e);
            unknown!("ancestor_elems", mesh.ancestor_elems(e, inc), Err(MeshAccessError::ElemDoesNotExist(_)), e);
            unknown!("descendant_edges", mesh.descendant_edges(d, inc), Err(MeshAccessError::EdgeDoesNotExist(_)), d);
        }
        let (e, d) = (ne + k, nd + k);
        unknown!("elem_points", mesh.elem_points(e), Err(MeshAccessError::ElemDoesNotExist(_)), e);
        unknown!("elem_diag_points", mesh.elem_diag_points(e), Err(MeshAccessError::ElemDoesNotExist(_)), e);
        unknown!("edge_points", mesh.edge_points(d), Err(MeshAccessError::EdgeDoesNotExist(_)), d);
        unknown!("elem_is_h_refineable", mesh.elem_is_h_refineable(e), Err(MeshAccessError::ElemDoesNotExist(_)), e);
        unknown!("elem_p_refinement_window", mesh.elem_p_refinement_window(e), Err(MeshAccessError::ElemDoesNotExist(_)), e);
    }
    let dom = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
    for e in 0..ne {
        let l = dom.local_basis_specs(e).map_err(|x| format!("{x:?}"))?;
        for i in 0..l.len() {
            let b = dom.get_basis_spec(BSAddress::new(e, i))?;
            ck!(log, std::ptr::eq(b, &l[i]), "get_basis_spec({e}, {i}) is not the function stored there");
        }
        for i in [l.len(), l.len() + 1, usize::MAX] {
            let r = guard(|| dom.get_basis_spec(BSAddress::new(e, i)).is_err());
            ck!(log, r == Ok(true), "get_basis_spec({e}, {i}) with {} functions: error reported = {r:?}", l.len());
        }
        let d = dom.descendant_basis_specs(e).map_err(|x| format!("{x:?}"))?;
        let ids: Vec<usize> = d.iter().map(|x| x.0).collect();
        ck!(log, exact(&ids, &desc[e], None), "descendant_basis_specs({e}) names {ids:?}");
        let a = dom.ancestor_basis_specs(e).map_err(|x| format!("{x:?}"))?;
        let ids: Vec<usize> = a.iter().map(|x| x.0).collect();
        ck!(log, ids == anc[e], "ancestor_basis_specs({e}) names {ids:?}");
        for (i, l) in d.iter().chain(a.iter()) {
            ck!(log, std::ptr::eq(*l, dom.local_basis_specs(*i).unwrap()), "functions of cell {i} seen from {e} are not the stored ones");
        }
    }
    for k in [0usize, 1, 9] {
        let e = ne + k;
        ck!(log, guard(|| dom.local_basis_specs(e).is_err()) == Ok(true), "local_basis_specs({e}) of {ne} cells");
        ck!(log, guard(|| dom.descendant_basis_specs(e).is_err()) == Ok(true), "descendant_basis_specs({e}) of {ne} cells");
        ck!(log, guard(|| dom.ancestor_basis_specs(e).is_err()) == Ok(true), "ancestor_basis_specs({e}) of {ne} cells");
        ck!(log, guard(|| dom.get_basis_spec(BSAddress::new(e, 0)).is_err()) == Ok(true), "get_basis_spec({e}, 0) of {ne} cells");
    }
    log.interesting = ne > 5;
    Ok(())
}
