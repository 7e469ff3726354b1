verus! {
// ------------------------------------------------------------------ one refinement leaves everything fitting together
/// a: before, the cell knowing its children already; gm: with the new nodes and edges; b: with the registrations of the children; f: with the children
pub ghost struct Step { pub a: Mesh, pub gm: Mesh, pub b: Mesh, pub f: Mesh, pub c: int, pub h: HRef, pub g: Grid, pub z: Seq<Elem> }
pub open spec fn cuts(h: HRef, k: int) -> bool { if k < 2 { du(h) } else { dv(h) } }
pub open spec fn newborn(t: Step, i: int) -> bool {
    let x = t.z[i];
    x.id == t.a.elems@.len() + i && x.children is None && x.ancestors@ == t.a.elems@[t.c].ancestors@.push((t.c as usize, t.h.loc_of(i))) && x.h_levels == lv(t.a, t.c).grown(t.h) && x.element == t.a.elems@[t.c].element
        && t.a.elems@[t.c].children->0@[i] == t.a.elems@.len() + i
}
impl Step {
    pub open spec fn ok(self) -> bool {
        &&& whole_but(self.a, self.c) && exec_pre(self.a, self.c, self.h) && wired(self.a, self.gm, self.b, self.c, self.h, self.g, self.z)
        &&& forall|i: int| 0 <= i < self.z.len() ==> #[trigger] newborn(self, i)
        &&& self.a.elems@[self.c].children is Some && self.a.elems@[self.c].children->0@.len() == self.z.len()
        &&& self.f == (Mesh { elems: self.f.elems, ..self.b }) && self.f.elems@ == self.a.elems@ + self.z && self.f.elems@.len() <= usize::MAX
    }
    pub open spec fn n(self) -> int { self.a.elems@.len() as int }
    /// child i has edge e as its k-th, on side s of it
    pub open spec fn puts(self, e: int, s: int, i: int, k: int) -> bool { 0 <= i < self.z.len() && 0 <= k < 4 && self.z[i].edges@[k] == e && side(k) == s }
    pub open spec fn sits(self, x: int, q: int, i: int) -> bool { 0 <= i < self.z.len() && self.z[i].nodes@[q] == x }
    /// where child i has its k-th edge
    pub open spec fn on_rim(self, e: int, k: int) -> bool { !cuts(self.h, k) && e == rim(self.a, self.c, k) }
    pub open spec fn on_half(self, e: int, k: int) -> bool { cuts(self.h, k) && cleft(self.gm, self.c, k) && (e == half_at(self.gm, self.c, k, 0) || e == half_at(self.gm, self.c, k, 1)) }
    pub open spec fn inside(self, e: int) -> bool { self.a.edges@.len() <= e < self.gm.edges@.len() && self.gm.edges@[e].parent is None && bare(self.gm.edges@[e]) }
    /// where it has its corner q
    pub open spec fn in_corner(self, x: int, q: int) -> bool { x == corner(self.a, self.c, q) }
    pub open spec fn in_middle(self, x: int, q: int, j: int) -> bool { 0 <= j < 4 && beside(j, q) && cuts(self.h, j) && cleft(self.gm, self.c, j) && x == mid_at(self.gm, self.c, j) }
    pub open spec fn in_hub(self, x: int) -> bool { self.h is T && x == self.g.ctr }
}
/// what the parts are
pub proof fn step_facts(t: Step)
    requires t.ok()
    ensures net_ok(t.gm), grew(t.a, t.gm), registered(t.gm, t.b, t.z), cut_table(t.gm, t.c, t.h, t.g, t.z), net_ok(t.a), cell_ok(t.a, t.c), cell_ok(t.gm, t.c), open_place(t.a, t.c), 0 <= t.c < t.n(), t.z.len() == t.h.n(),
        t.f.elems@.len() == t.n() + t.z.len(), t.gm.elems == t.a.elems, t.b.elems == t.a.elems, t.f.nodes == t.b.nodes, t.f.edges == t.b.edges, t.f.edges@.len() == t.gm.edges@.len(), t.f.nodes@.len() == t.gm.nodes@.len(),
        t.a.edges@.len() <= t.gm.edges@.len(), t.a.nodes@.len() <= t.gm.nodes@.len(), t.n() + t.z.len() <= usize::MAX,
        forall|d: int| 0 <= d < t.n() ==> #[trigger] t.f.elems@[d] == t.a.elems@[d], forall|d: int| 0 <= d < t.n() ==> #[trigger] t.gm.elems@[d] == t.a.elems@[d],
        forall|i: int| 0 <= i < t.z.len() ==> t.f.elems@[t.n() + i] == #[trigger] t.z[i],
        forall|e: int| 0 <= e < t.gm.edges@.len() ==> (#[trigger] t.f.edges@[e]) == (Edge { elems: t.f.edges@[e].elems, ..t.gm.edges@[e] }),
        forall|x: int| 0 <= x < t.gm.nodes@.len() ==> (#[trigger] t.f.nodes@[x]) == (Node { elems: t.f.nodes@[x].elems, ..t.gm.nodes@[x] }),
        forall|k: int| 0 <= k < 4 ==> #[trigger] rim(t.gm, t.c, k) == rim(t.a, t.c, k) && 0 <= rim(t.a, t.c, k) < t.a.edges@.len() && corner(t.gm, t.c, k) == corner(t.a, t.c, k) && 0 <= corner(t.a, t.c, k) < t.a.nodes@.len(),
        t.n() == t.a.elems@.len(), t.c <= usize::MAX,
{
    grew_keeps(t.a, t.gm, t.c);
    assert(same_but_links(t.gm, t.b));
    assert forall|k: int| 0 <= k < 4 implies #[trigger] rim(t.gm, t.c, k) == rim(t.a, t.c, k) && 0 <= rim(t.a, t.c, k) < t.a.edges@.len() && corner(t.gm, t.c, k) == corner(t.a, t.c, k) && 0 <= corner(t.a, t.c, k) < t.a.nodes@.len() by { }
}
/// the nodes and edges still fit together
#[verifier::spinoff_prover]
pub proof fn step_net(t: Step)
    requires t.ok()
    ensures net_ok(t.f)
{
    step_facts(t);
    let (m, f) = (t.gm, t.f);
    assert forall|n: int| 0 <= n < f.nodes@.len() implies #[trigger] node_ok(f, n) by { assert(node_ok(m, n)); }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] edge_ok(f, e) by { assert(edge_ok(m, e)); }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] split_ok(f, e) by {
        assert(split_ok(m, e)); assert(edge_ok(m, e));
        if m.edges@[e].children is Some { let c = m.edges@[e].children->0; let (i, j) = (c@[0] as int, c@[1] as int);
            assert(half_ok(f, e, i, m.edges@[e].nodes@[0] as int, m.edges@[e].child_node->0 as int)); assert(half_ok(f, e, j, m.edges@[e].child_node->0 as int, m.edges@[e].nodes@[1] as int)); }
    }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] parent_ok(f, e) by { assert(parent_ok(m, e)); }
}
/// where a child has its edges and corners
#[verifier::spinoff_prover]
pub proof fn edge_where(t: Step, i: int, k: int)
    requires t.ok(), 0 <= i < t.z.len(), 0 <= k < 4
    ensures ({ let e = t.z[i].edges@[k] as int; 0 <= e < t.gm.edges@.len() && (t.gm.edges@[e].dir is U <==> k < 2) && (t.on_rim(e, k) || t.on_half(e, k) || t.inside(e)) })
{
    step_facts(t);
    theorem_children(t.gm, t.c, t.h, t.g, t.z);
    let e = t.z[i].edges@[k] as int;
    assert(framed(t.gm, t.z[i].nodes@, t.z[i].edges@));
    assert(kid_is(t.gm, t.c, t.h, t.g, i, t.z[i]));
    assert(e == kid_edge(t.gm, t.c, t.h, t.g, i, k));
    assert forall|n: int| 0 <= n < inner_edges(t.h, t.g).len() implies t.a.edges@.len() <= #[trigger] inner_edges(t.h, t.g)[n] by { }
    match t.h {
        HRef::T => { let v = inner_edges(t.h, t.g); assert(v[0] == t.g.v0 && v[1] == t.g.v1 && v[2] == t.g.h0 && v[3] == t.g.h1); assert(i == 0 || i == 1 || i == 2 || i == 3); }
        HRef::U(_) => { let v = inner_edges(t.h, t.g); assert(v[0] == t.g.v0); assert(i == 0 || i == 1); }
        HRef::V(_) => { let v = inner_edges(t.h, t.g); assert(v[0] == t.g.h0); assert(i == 0 || i == 1); }
    }
    assert(rim(t.gm, t.c, k) == rim(t.a, t.c, k));
    if e >= t.a.edges@.len() && t.gm.edges@[e].parent is None { assert(bare(t.gm.edges@[e])); }
}
pub proof fn node_where(t: Step, i: int, q: int)
    requires t.ok(), 0 <= i < t.z.len(), 0 <= q < 4
    ensures ({ let x = t.z[i].nodes@[q] as int; 0 <= x < t.gm.nodes@.len() && (t.in_corner(x, q) || t.in_middle(x, q, 0) || t.in_middle(x, q, 1) || t.in_middle(x, q, 2) || t.in_middle(x, q, 3) || t.in_hub(x)) })
{
    step_facts(t);
    theorem_children(t.gm, t.c, t.h, t.g, t.z);
    assert(framed(t.gm, t.z[i].nodes@, t.z[i].edges@));
    assert(kid_is(t.gm, t.c, t.h, t.g, i, t.z[i]));
    assert(t.z[i].nodes@[q] as int == kid_node(t.gm, t.c, t.h, t.g, i, q));
    assert(rim(t.gm, t.c, q) == rim(t.a, t.c, q));
    match t.h { HRef::T => { assert(i == 0 || i == 1 || i == 2 || i == 3); } HRef::U(_) => { assert(i == 0 || i == 1); } HRef::V(_) => { assert(i == 0 || i == 1); } }
}
/// at most one child on a side of an edge
pub proof fn emap_once(m: Mesh, v: Seq<Elem>, n: int, e: int, s: int, i: int)
    requires 0 <= i < n <= v.len(), ix(v[i].edges@, e) >= 0, side(ix(v[i].edges@, e)) == s, forall|j: int| 0 <= j < n && j != i ==> !(ix((#[trigger] v[j]).edges@, e) >= 0 && side(ix(v[j].edges@, e)) == s)
    ensures emap(m, v, n, e, s) == m.edges@[e].elems@[s]@.insert(edge_key(v[i].h_levels, m.edges@[e].dir is U), v[i].id)
    decreases n
{
    if n - 1 == i { emap_skip(m, v, n - 1, e, s); } else { emap_once(m, v, n - 1, e, s, i); assert(!(ix(v[n - 1].edges@, e) >= 0 && side(ix(v[n - 1].edges@, e)) == s)); }
}
pub proof fn nmap_once(m: Mesh, v: Seq<Elem>, n: int, x: int, q: int, i: int)
    requires 0 <= i < n <= v.len(), ix(v[i].nodes@, x) == q, forall|j: int| 0 <= j < n && j != i ==> ix((#[trigger] v[j]).nodes@, x) != q
    ensures nmap(m, v, n, x, q) == m.nodes@[x].elems@[q]@.insert(node_key(v[i].h_levels), v[i].id)
    decreases n
{
    if n - 1 == i { nmap_skip(m, v, n - 1, x, q); } else { nmap_once(m, v, n - 1, x, q, i); assert(ix(v[n - 1].nodes@, x) != q); }
}
/// nothing registered where the children go but possibly the cell itself
pub proof fn reg_put(t: Step, e: int, s: int, i: int, k: int)
    requires t.ok(), t.puts(e, s, i, k)
    ensures 0 <= e < t.gm.edges@.len(), reg(t.f, e, s) == reg(t.gm, e, s).insert(edge_key(lv(t.a, t.c).grown(t.h), k < 2), (t.n() + i) as usize), !reg(t.gm, e, s).dom().contains(edge_key(lv(t.a, t.c).grown(t.h), k < 2)),
        t.gm.edges@[e].dir is U <==> k < 2, t.on_rim(e, k) || t.on_half(e, k) || t.inside(e), !vacant(reg(t.f, e, s)),
{
    step_facts(t);
    edge_where(t, i, k);
    theorem_children(t.gm, t.c, t.h, t.g, t.z);
    no_clash(t.gm, t.c, t.h, t.g, t.z);
    assert(framed(t.gm, t.z[i].nodes@, t.z[i].edges@));
    apart(t.gm, t.z[i].nodes@, t.z[i].edges@);
    assert(ix(t.z[i].edges@, t.z[i].edges@[k] as int) == k);
    assert forall|j: int| 0 <= j < t.z.len() && j != i implies !(ix((#[trigger] t.z[j]).edges@, e) >= 0 && side(ix(t.z[j].edges@, e)) == s) by {
        let l = ix(t.z[j].edges@, e);
        if l >= 0 && side(l) == s { assert(t.z[j].edges@[l] == e); if j < i { assert(t.z[j].edges@[l] != t.z[i].edges@[k]); } else { assert(t.z[i].edges@[k] != t.z[j].edges@[l]); } }
    }
    assert(newborn(t, i));
    assert forall|j: int| 0 <= j < t.z.len() implies (#[trigger] t.z[j]).h_levels == lv(t.a, t.c).grown(t.h) by { assert(newborn(t, j)); }
    emap_once(t.gm, t.z, t.z.len() as int, e, s, i);
    assert(t.b.edges@[e].elems@[s]@ == emap(t.gm, t.z, t.z.len() as int, e, s));
    place_free(t.a, t.gm, t.c, t.h, t.g, t.z, i, k);
    assert(reg(t.f, e, s).dom().contains(edge_key(lv(t.a, t.c).grown(t.h), k < 2)));
}
pub proof fn reg_rest(t: Step, e: int, s: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), 0 <= s < 2, forall|i: int, k: int| !#[trigger] t.puts(e, s, i, k)
    ensures reg(t.f, e, s) == reg(t.gm, e, s)
{
    step_facts(t);
    assert forall|j: int| 0 <= j < t.z.len() implies !(ix((#[trigger] t.z[j]).edges@, e) >= 0 && side(ix(t.z[j].edges@, e)) == s) by { assert(!t.puts(e, s, j, ix(t.z[j].edges@, e))); }
    emap_skip(t.gm, t.z, t.z.len() as int, e, s);
    assert(t.b.edges@[e].elems@[s]@ == emap(t.gm, t.z, t.z.len() as int, e, s));
}
#[verifier::spinoff_prover]
pub proof fn cor_put(t: Step, x: int, q: int, i: int)
    requires t.ok(), t.sits(x, q, i), 0 <= q < 4
    ensures 0 <= x < t.gm.nodes@.len(), cor(t.f, x, q) == cor(t.gm, x, q).insert(node_key(lv(t.a, t.c).grown(t.h)), (t.n() + i) as usize), !cor(t.gm, x, q).dom().contains(node_key(lv(t.a, t.c).grown(t.h))),
        t.in_corner(x, q) || t.in_middle(x, q, 0) || t.in_middle(x, q, 1) || t.in_middle(x, q, 2) || t.in_middle(x, q, 3) || t.in_hub(x),
{
    step_facts(t);
    node_where(t, i, q);
    theorem_children(t.gm, t.c, t.h, t.g, t.z);
    no_clash(t.gm, t.c, t.h, t.g, t.z);
    assert(framed(t.gm, t.z[i].nodes@, t.z[i].edges@));
    apart(t.gm, t.z[i].nodes@, t.z[i].edges@);
    assert(ix(t.z[i].nodes@, t.z[i].nodes@[q] as int) == q);
    assert forall|j: int| 0 <= j < t.z.len() && j != i implies ix((#[trigger] t.z[j]).nodes@, x) != q by {
        if ix(t.z[j].nodes@, x) == q { assert(t.z[j].nodes@[q] == x); if j < i { assert(t.z[j].nodes@[q] != t.z[i].nodes@[q]); } else { assert(t.z[i].nodes@[q] != t.z[j].nodes@[q]); } }
    }
    assert(newborn(t, i));
    assert forall|j: int| 0 <= j < t.z.len() implies (#[trigger] t.z[j]).h_levels == lv(t.a, t.c).grown(t.h) by { assert(newborn(t, j)); }
    nmap_once(t.gm, t.z, t.z.len() as int, x, q, i);
    assert(t.b.nodes@[x].elems@[q]@ == nmap(t.gm, t.z, t.z.len() as int, x, q));
    place_free(t.a, t.gm, t.c, t.h, t.g, t.z, i, q);
}
pub proof fn cor_rest(t: Step, x: int, q: int)
    requires t.ok(), 0 <= x < t.gm.nodes@.len(), 0 <= q < 4, forall|i: int| !#[trigger] t.sits(x, q, i)
    ensures cor(t.f, x, q) == cor(t.gm, x, q)
{
    step_facts(t);
    assert forall|j: int| 0 <= j < t.z.len() implies ix((#[trigger] t.z[j]).nodes@, x) != q by { assert(!t.sits(x, q, j)); }
    nmap_skip(t.gm, t.z, t.z.len() as int, x, q);
    assert(t.b.nodes@[x].elems@[q]@ == nmap(t.gm, t.z, t.z.len() as int, x, q));
}
/// registrations before those of the children
pub proof fn reg_gm(t: Step, e: int, s: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), 0 <= s < 2
    ensures reg(t.gm, e, s) == (if e < t.a.edges@.len() { reg(t.a, e, s) } else { Map::<[u8; 2], usize>::empty() })
{ step_facts(t); if e < t.a.edges@.len() { assert(kept_edge(t.a.edges@[e], t.gm.edges@[e])); } else { assert(fresh(t.a, t.gm.edges@[e])); assert(s == 0 || s == 1); } }
pub proof fn cor_gm(t: Step, x: int, q: int)
    requires t.ok(), 0 <= x < t.gm.nodes@.len(), 0 <= q < 4
    ensures cor(t.gm, x, q) == (if x < t.a.nodes@.len() { cor(t.a, x, q) } else { Map::<[u8; 2], usize>::empty() })
{ step_facts(t); if x < t.a.nodes@.len() { assert(t.gm.nodes@[x] == t.a.nodes@[x]); } else { assert(lone_node(t.gm.nodes@[x])); } }
/// what was registered still is
pub proof fn reg_stays(t: Step, e: int, s: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), 0 <= s < 2
    ensures forall|key: [u8; 2]| #[trigger] reg(t.gm, e, s).dom().contains(key) ==> reg(t.f, e, s).dom().contains(key) && reg(t.f, e, s)[key] == reg(t.gm, e, s)[key], !vacant(reg(t.gm, e, s)) ==> !vacant(reg(t.f, e, s)),
{
    if exists|i: int, k: int| #[trigger] t.puts(e, s, i, k) { let (i, k) = choose|i: int, k: int| #[trigger] t.puts(e, s, i, k); reg_put(t, e, s, i, k); } else { reg_rest(t, e, s); }
}
pub proof fn cor_stays(t: Step, x: int, q: int)
    requires t.ok(), 0 <= x < t.gm.nodes@.len(), 0 <= q < 4
    ensures forall|key: [u8; 2]| #[trigger] cor(t.gm, x, q).dom().contains(key) ==> cor(t.f, x, q).dom().contains(key) && cor(t.f, x, q)[key] == cor(t.gm, x, q)[key]
{
    if exists|i: int| #[trigger] t.sits(x, q, i) { let i = choose|i: int| #[trigger] t.sits(x, q, i); cor_put(t, x, q, i); } else { cor_rest(t, x, q); }
}
/// finer, coarser or the same
proof fn key_same(a: [u8; 2], b: [u8; 2])
    requires !<[u8; 2]>::klt(a, b), !<[u8; 2]>::klt(b, a)
    ensures a == b
{ assert(a@ =~= b@); assert(a =~= b); }
/// two cells without children never share a side of an edge, or a corner of a node
pub proof fn sole_e(m: Mesh, x: int, d: int, c: int, k: int)
    requires whole_but(m, x), 0 <= d < m.elems@.len(), 0 <= c < m.elems@.len(), leaf(m, x, d), leaf(m, x, c), 0 <= k < 4, rim(m, d, k) == rim(m, c, k)
    ensures c == d
{
    assert(cell_all(m, x, d) && cell_all(m, x, c));
    assert(secured(m, d, k) && secured(m, c, k) && tops(m, d, k) && tops(m, c, k));
    let r = reg(m, rim(m, d, k), side(k));
    assert(r.dom().contains(ekey(m, d, k)) && r.dom().contains(ekey(m, c, k)));
    key_same(ekey(m, d, k), ekey(m, c, k));
}
pub proof fn sole_n(m: Mesh, x: int, d: int, c: int, q: int)
    requires whole_but(m, x), 0 <= d < m.elems@.len(), 0 <= c < m.elems@.len(), leaf(m, x, d), leaf(m, x, c), 0 <= q < 4, corner(m, d, q) == corner(m, c, q)
    ensures c == d
{
    assert(cell_all(m, x, d) && cell_all(m, x, c));
    assert(secured(m, d, q) && secured(m, c, q) && tops(m, d, q) && tops(m, c, q));
    let r = cor(m, corner(m, d, q), q);
    assert(r.dom().contains(nkey(m, d)) && r.dom().contains(nkey(m, c)));
    key_same(nkey(m, d), nkey(m, c));
}
/// the cell where its child goes
pub open spec fn lone_c(t: Step, e: int, k: int) -> bool { reg(t.gm, e, side(k)).dom().contains(ekey(t.a, t.c, k)) && reg(t.gm, e, side(k))[ekey(t.a, t.c, k)] == t.c && tops(t.a, t.c, k) }
pub proof fn put_free(t: Step, e: int, k: int)
    requires t.ok(), 0 <= k < 4, 0 <= e < t.gm.edges@.len()
    ensures t.on_rim(e, k) ==> lone_c(t, e, k) && e < t.a.edges@.len() && !vacant(reg(t.gm, e, side(k))), t.on_half(e, k) || t.inside(e) ==> vacant(reg(t.gm, e, side(k))),
{
    step_facts(t);
    reg_gm(t, e, side(k));
    assert(cell_all(t.a, t.c, t.c)); assert(secured(t.a, t.c, k) && tops(t.a, t.c, k));
    assert(rim(t.gm, t.c, k) == rim(t.a, t.c, k));
    if t.on_half(e, k) {
        let r = rim(t.a, t.c, k);
        assert(kept_edge(t.a.edges@[r], t.gm.edges@[r]));
    }
}
pub proof fn sit_free(t: Step, x: int, q: int, j: int)
    requires t.ok(), 0 <= q < 4, 0 <= x < t.gm.nodes@.len()
    ensures t.in_corner(x, q) ==> cor(t.gm, x, q).dom().contains(nkey(t.a, t.c)) && cor(t.gm, x, q)[nkey(t.a, t.c)] == t.c && tops(t.a, t.c, q) && x < t.a.nodes@.len() && !vacant(cor(t.gm, x, q)),
        t.in_middle(x, q, j) || t.in_hub(x) ==> vacant(cor(t.gm, x, q)), t.in_hub(x) ==> x >= t.a.nodes@.len(),
{
    step_facts(t);
    cor_gm(t, x, q);
    assert(cell_all(t.a, t.c, t.c)); assert(secured(t.a, t.c, q) && tops(t.a, t.c, q));
    assert(rim(t.gm, t.c, q) == rim(t.a, t.c, q));
    if t.in_middle(x, q, j) {
        assert(rim(t.gm, t.c, j) == rim(t.a, t.c, j));
        let r = rim(t.a, t.c, j);
        assert(kept_edge(t.a.edges@[r], t.gm.edges@[r]));
        assert(open_rim(t.a, t.c, j));
        if cleft(t.a, t.c, j) { assert(t.a.nodes@[mid_at(t.a, t.c, j)].elems@[q]@ == none_at(q)); }
    }
}
/// cells that were there
pub proof fn old_place(t: Step, d: int)
    requires t.ok(), 0 <= d < t.n()
    ensures cell_ok(t.f, d), cell_ok(t.a, d), cell_all(t.a, t.c, d), t.f.elems@[d] == t.a.elems@[d], lv(t.f, d) == lv(t.a, d), net_ok(t.a), net_ok(t.gm), grew(t.a, t.gm),
        forall|k: int| 0 <= k < 4 ==> #[trigger] rim(t.f, d, k) == rim(t.a, d, k) && 0 <= rim(t.a, d, k) < t.a.edges@.len() && corner(t.f, d, k) == corner(t.a, d, k) && 0 <= corner(t.a, d, k) < t.a.nodes@.len()
            && ekey(t.f, d, k) == ekey(t.a, d, k) && nkey(t.f, d) == nkey(t.a, d) && (t.a.edges@[rim(t.a, d, k)].dir is U <==> k < 2),
{
    step_facts(t);
    assert(cell_all(t.a, t.c, d));
    grew_keeps(t.a, t.gm, d);
    assert(t.gm.elems@[d] == t.a.elems@[d]);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] rim(t.f, d, k) == rim(t.a, d, k) && 0 <= rim(t.a, d, k) < t.a.edges@.len() && corner(t.f, d, k) == corner(t.a, d, k) && 0 <= corner(t.a, d, k) < t.a.nodes@.len()
            && ekey(t.f, d, k) == ekey(t.a, d, k) && nkey(t.f, d) == nkey(t.a, d) && (t.a.edges@[rim(t.a, d, k)].dir is U <==> k < 2) by { }
}
pub proof fn held_stays(t: Step, d: int, k: int)
    requires t.ok(), 0 <= d < t.n(), 0 <= k < 4
    ensures secured(t.f, d, k)
{
    step_facts(t);
    old_place(t, d);
    assert(secured(t.a, d, k));
    assert(rim(t.f, d, k) == rim(t.a, d, k));
    let (e, x) = (rim(t.a, d, k), corner(t.a, d, k));
    reg_gm(t, e, side(k)); reg_stays(t, e, side(k)); cor_gm(t, x, k); cor_stays(t, x, k);
    assert(reg(t.gm, e, side(k)).dom().contains(ekey(t.a, d, k))); assert(cor(t.gm, x, k).dom().contains(nkey(t.a, d)));
}
/// a half of an edge of another cell without children: no child of this one is there
#[verifier::spinoff_prover]
pub proof fn half_out(t: Step, d: int, k: int, e: int)
    requires t.ok(), 0 <= d < t.n(), d != t.c, leaf(t.a, t.c, d), 0 <= k < 4, 0 <= e < t.gm.edges@.len(), t.gm.edges@[e].parent == Some(rim(t.a, d, k) as usize), vacant(reg(t.gm, e, side(k)))
    ensures reg(t.f, e, side(k)) == reg(t.gm, e, side(k)), vacant(reg(t.f, e, side(k)))
{
    step_facts(t);
    old_place(t, d);
    assert(rim(t.f, d, k) == rim(t.a, d, k)); 
    let s = side(k); let r = rim(t.a, d, k);
    assert(t.gm.edges@[r].dir == t.a.edges@[r].dir) by { assert(kept_edge(t.a.edges@[r], t.gm.edges@[r])); }
    assert(parent_ok(t.gm, e)); assert(split_ok(t.gm, r));
    assert(t.gm.edges@[e].dir == t.gm.edges@[r].dir);
    assert forall|i: int, l: int| !#[trigger] t.puts(e, s, i, l) by {
        if t.puts(e, s, i, l) {
            reg_put(t, e, s, i, l); put_free(t, e, l);
            assert(l == k);
            assert(rim(t.gm, t.c, k) == rim(t.a, t.c, k));
            if t.on_half(e, k) { rim_facts(t.gm, t.c, k); assert(rim(t.a, t.c, k) == r); sole_e(t.a, t.c, d, t.c, k); }
        }
    }
    reg_rest(t, e, s);
}
#[verifier::spinoff_prover]
pub proof fn tops_stay(t: Step, d: int, k: int)
    requires t.ok(), 0 <= d < t.n(), d != t.c, leaf(t.a, t.c, d), 0 <= k < 4
    ensures tops(t.f, d, k)
{
    step_facts(t);
    old_place(t, d);
    assert(tops(t.a, d, k) && secured(t.a, d, k));
    assert(rim(t.f, d, k) == rim(t.a, d, k)); assert(rim(t.gm, t.c, k) == rim(t.a, t.c, k));
    let (e, x, s) = (rim(t.a, d, k), corner(t.a, d, k), side(k));
    assert(kept_edge(t.a.edges@[e], t.gm.edges@[e]));
    reg_gm(t, e, s); cor_gm(t, x, k);
    assert forall|i: int, l: int| !#[trigger] t.puts(e, s, i, l) by {
        if t.puts(e, s, i, l) {
            reg_put(t, e, s, i, l); put_free(t, e, l);
            assert(l == k);
            if t.on_rim(e, k) { sole_e(t.a, t.c, d, t.c, k); } else { assert(reg(t.gm, e, s).dom().contains(ekey(t.a, d, k))); }
        }
    }
    reg_rest(t, e, s);
    assert forall|i: int| !#[trigger] t.sits(x, k, i) by {
        if t.sits(x, k, i) {
            cor_put(t, x, k, i); sit_free(t, x, k, 0); sit_free(t, x, k, 1); sit_free(t, x, k, 2); sit_free(t, x, k, 3);
            if t.in_corner(x, k) { sole_n(t.a, t.c, d, t.c, k); } else { assert(cor(t.gm, x, k).dom().contains(nkey(t.a, d))); }
        }
    }
    cor_rest(t, x, k);
    if cleft(t.f, d, k) {
        let (h0, h1) = (half_at(t.f, d, k, 0), half_at(t.f, d, k, 1));
        assert(t.gm.edges@[e].children is Some);
        assert(split_ok(t.gm, e));
        reg_gm(t, h0, s); reg_gm(t, h1, s);
        if cleft(t.a, d, k) { assert(open_halves(t.a, d, k)); }
        half_out(t, d, k, h0); half_out(t, d, k, h1);
    }
}
#[verifier::spinoff_prover]
pub proof fn table_keeps(t: Step, d: int, h: HRef, g: Grid)
    requires t.ok(), 0 <= d < t.n(), d != t.c, cut_as(t.a, d, h, g)
    ensures cut_as(t.f, d, h, g)
{
    step_facts(t);
    old_place(t, d);
    grew_keeps(t.a, t.gm, d);
    let (a, f) = (t.a, t.f);
    let v = a.elems@[d].children->0@;
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] kid_at(f, d, h, i) by { assert(kid_at(a, d, h, i)); assert(t.f.elems@[v[i] as int] == t.a.elems@[v[i] as int]); }
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] kids_of(f, d)[i] == kids_of(a, d)[i] by { assert(kid_at(a, d, h, i)); assert(t.f.elems@[v[i] as int] == t.a.elems@[v[i] as int]); }
    assert(kids_of(f, d) =~= kids_of(a, d));
    assert forall|k: int| 0 <= k < 4 && #[trigger] cleft(a, d, k) implies cleft(f, d, k) && mid_at(f, d, k) == mid_at(a, d, k) && half_at(f, d, k, 0) == half_at(a, d, k, 0) && half_at(f, d, k, 1) == half_at(a, d, k, 1) by { assert(rim(f, d, k) == rim(a, d, k)); assert(kept_edge(a.edges@[rim(a, d, k)], t.gm.edges@[rim(a, d, k)])); }
    assert forall|e: int, p: int, q: int, u: bool| #[trigger] string_at(a, e, p, q, u) implies string_at(f, e, p, q, u) by { assert(kept_edge(a.edges@[e], t.gm.edges@[e])); }
    assert forall|n: int| #[trigger] center_at(a, d, n) implies center_at(f, d, n) by { assert(rim(f, d, 0) == rim(a, d, 0)); assert(rim(f, d, 3) == rim(a, d, 3)); let (p, q) = (corner(a, d, 0), corner(a, d, 3)); assert(t.gm.nodes@[n] == a.nodes@[n] && t.gm.nodes@[p] == a.nodes@[p] && t.gm.nodes@[q] == a.nodes@[q]); }
    assert forall|i: int| 0 <= i < v.len() implies kid_is(f, d, h, g, i, #[trigger] kids_of(f, d)[i]) by {
        assert(kid_is(a, d, h, g, i, kids_of(a, d)[i]));
        assert(rim(f, d, 0) == rim(a, d, 0) && rim(f, d, 1) == rim(a, d, 1) && rim(f, d, 2) == rim(a, d, 2) && rim(f, d, 3) == rim(a, d, 3));
        assert(cleft(a, d, 0) ==> cleft(f, d, 0)); assert(cleft(a, d, 1) ==> cleft(f, d, 1)); assert(cleft(a, d, 2) ==> cleft(f, d, 2)); assert(cleft(a, d, 3) ==> cleft(f, d, 3));
    }
}
pub proof fn old_cell(t: Step, d: int)
    requires t.ok(), 0 <= d < t.n(), d != t.c
    ensures cell_all(t.f, -1, d)
{
    step_facts(t);
    old_place(t, d);
    held_stays(t, d, 0); held_stays(t, d, 1); held_stays(t, d, 2); held_stays(t, d, 3);
    if leaf(t.f, -1, d) { tops_stay(t, d, 0); tops_stay(t, d, 1); tops_stay(t, d, 2); tops_stay(t, d, 3); }
    if t.a.elems@[d].children is Some { let (h, g) = choose|h: HRef, g: Grid| #[trigger] cut_as(t.a, d, h, g); table_keeps(t, d, h, g); }
    assert(kin(t.f, d));
    assert(born(t.a, d));
    let v = t.a.elems@[d].ancestors@;
    if v.len() > 0 { assert(t.f.elems@[v.last().0 as int] == t.a.elems@[v.last().0 as int]); }
    assert(born(t.f, d));
}
/// the cell that has been refined
#[verifier::spinoff_prover]
pub proof fn cut_cell(t: Step)
    requires t.ok()
    ensures cell_all(t.f, -1, t.c)
{
    step_facts(t);
    let (a, m, f, c, h, g, z) = (t.a, t.gm, t.f, t.c, t.h, t.g, t.z);
    old_place(t, c);
    held_stays(t, c, 0); held_stays(t, c, 1); held_stays(t, c, 2); held_stays(t, c, 3);
    let v = a.elems@[c].children->0@;
    assert forall|i: int| 0 <= i < v.len() implies v[i] == t.n() + i && #[trigger] kids_of(f, c)[i] == z[i] by { assert(newborn(t, i)); assert(t.f.elems@[t.n() + i] == t.z[i]); }
    assert(kids_of(f, c) =~= z);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] kid_at(f, c, h, i) by { assert(newborn(t, i)); assert(kids_of(f, c)[i] == z[i]); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by { assert(newborn(t, i) && newborn(t, j)); }
    assert(rim(f, c, 0) == rim(a, c, 0) && rim(f, c, 1) == rim(a, c, 1) && rim(f, c, 2) == rim(a, c, 2) && rim(f, c, 3) == rim(a, c, 3));
    assert(rim(m, c, 0) == rim(a, c, 0) && rim(m, c, 1) == rim(a, c, 1) && rim(m, c, 2) == rim(a, c, 2) && rim(m, c, 3) == rim(a, c, 3));
    assert forall|e: int, p: int, q: int, u: bool| #[trigger] string_at(m, e, p, q, u) implies string_at(f, e, p, q, u) by { }
    assert forall|i: int| 0 <= i < z.len() implies kid_is(f, c, h, g, i, #[trigger] z[i]) by { assert(kid_is(m, c, h, g, i, z[i])); }
    assert(cut_table(f, c, h, g, z));
    assert(cut_as(f, c, h, g));
    assert(kin(f, c));
    assert(born(a, c));
    let w = a.elems@[c].ancestors@;
    if w.len() > 0 { assert(t.f.elems@[w.last().0 as int] == t.a.elems@[w.last().0 as int]); }
    assert(born(f, c));
}
/// its children
pub proof fn new_place(t: Step, i: int)
    requires t.ok(), 0 <= i < t.z.len()
    ensures cell_ok(t.f, t.n() + i), t.f.elems@[t.n() + i] == t.z[i], lv(t.f, t.n() + i) == lv(t.a, t.c).grown(t.h), framed(t.gm, t.z[i].nodes@, t.z[i].edges@), newborn(t, i),
{
    step_facts(t);
    theorem_children(t.gm, t.c, t.h, t.g, t.z);
    assert(newborn(t, i));
    assert(framed(t.gm, t.z[i].nodes@, t.z[i].edges@));
    assert(t.f.elems@[t.n() + i] == t.z[i]);
}
proof fn key_trans(a: [u8; 2], b: [u8; 2], c: [u8; 2])
    requires <[u8; 2]>::klt(a, b), <[u8; 2]>::klt(b, c)
    ensures <[u8; 2]>::klt(a, c), !<[u8; 2]>::klt(c, b), b != c
{ }
/// the halves of the edge where a child goes
#[verifier::spinoff_prover]
pub proof fn kid_halves(t: Step, i: int, k: int)
    requires t.ok(), 0 <= i < t.z.len(), 0 <= k < 4
    ensures open_halves(t.f, t.n() + i, k)
{
    step_facts(t);
    new_place(t, i);
    edge_where(t, i, k);
    let (a, m, f, c, d, s) = (t.a, t.gm, t.f, t.c, t.n() + i, side(k));
    let e = t.z[i].edges@[k] as int;
    put_free(t, e, k);
    assert(rim(f, d, k) == e);
    if cleft(f, d, k) {
        assert(split_ok(m, e));
        let (h0, h1) = (m.edges@[e].children->0@[0] as int, m.edges@[e].children->0@[1] as int);
        assert(h0 == half_at(f, d, k, 0) && h1 == half_at(f, d, k, 1));
        if e >= a.edges@.len() { assert(bare(m.edges@[e])); }
        assert(kept_edge(a.edges@[e], m.edges@[e]));
        let r = rim(a, c, k);
        assert(rim(m, c, k) == r);
        assert(rim(m, c, 0) == rim(a, c, 0) && rim(m, c, 1) == rim(a, c, 1) && rim(m, c, 2) == rim(a, c, 2) && rim(m, c, 3) == rim(a, c, 3));
        apart(m, m.elems@[c].nodes@, m.elems@[c].edges@);
        if t.on_half(e, k) { rim_facts(m, c, k); assert(!is_rim(a, c, kid_mask(t.h), e)) by {
            if is_rim(a, c, kid_mask(t.h), e) { assert(e == rim(m, c, 0) || e == rim(m, c, 1) || e == rim(m, c, 2) || e == rim(m, c, 3)); assert(m.edges@[e].nodes@[0] == corner(m, c, 0) || m.edges@[e].nodes@[0] == corner(m, c, 1) || m.edges@[e].nodes@[0] == corner(m, c, 2)); 
                half_rim(m, c, k, e); } } }
        else { assert(t.on_rim(e, k)); assert(!is_rim(a, c, kid_mask(t.h), e)); }
        assert(m.edges@[e] == a.edges@[e]);
        reg_gm(t, h0, s); reg_gm(t, h1, s); reg_gm(t, e, s);
        assert(cell_all(a, c, c)); assert(tops(a, c, k)); assert(open_halves(a, c, k));
        assert(edge_all(a, e)); assert(even(a, e, s)); assert(split_ok(a, e));
        assert(vacant(reg(m, h0, s)) && vacant(reg(m, h1, s)));
        assert forall|j: int, l: int| !#[trigger] t.puts(h0, s, j, l) by { if t.puts(h0, s, j, l) { kid_halves_2(t, i, k, e, h0, j, l); } }
        assert forall|j: int, l: int| !#[trigger] t.puts(h1, s, j, l) by { if t.puts(h1, s, j, l) { kid_halves_2(t, i, k, e, h1, j, l); } }
        reg_rest(t, h0, s); reg_rest(t, h1, s);
    }
}
/// no half of an edge of a cell is another edge of it
pub proof fn half_rim(m: Mesh, c: int, k: int, e: int)
    requires net_ok(m), cell_ok(m, c), 0 <= k < 4, cleft(m, c, k), e == half_at(m, c, k, 0) || e == half_at(m, c, k, 1), e == rim(m, c, 0) || e == rim(m, c, 1) || e == rim(m, c, 2) || e == rim(m, c, 3)
    ensures false
{
    rim_facts(m, c, k);
    apart(m, m.elems@[c].nodes@, m.elems@[c].edges@);
    let r = rim(m, c, k);
    assert(m.edges@[e].dir == m.edges@[r].dir);
}
#[verifier::spinoff_prover]
proof fn kid_halves_2(t: Step, i: int, k: int, e: int, x: int, j: int, l: int)
    requires t.ok(), 0 <= i < t.z.len(), 0 <= k < 4, e == t.z[i].edges@[k], t.puts(x, side(k), j, l), 0 <= e < x < t.gm.edges@.len(), t.gm.edges@[x].parent == Some(e as usize), t.gm.edges@[x].dir == t.gm.edges@[e].dir
    ensures false
{
    step_facts(t);
    edge_where(t, i, k); reg_put(t, x, side(k), j, l);
    assert(l == k);
    assert(rim(t.gm, t.c, k) == rim(t.a, t.c, k));
    if t.on_half(e, k) || t.on_half(x, k) { rim_facts(t.gm, t.c, k); }
}
#[verifier::spinoff_prover]
pub proof fn new_tops(t: Step, i: int, k: int)
    requires t.ok(), 0 <= i < t.z.len(), 0 <= k < 4
    ensures tops(t.f, t.n() + i, k), secured(t.f, t.n() + i, k)
{
    step_facts(t);
    new_place(t, i);
    kid_halves(t, i, k);
    let (f, d, s, l0, l1) = (t.f, t.n() + i, side(k), lv(t.a, t.c), lv(t.a, t.c).grown(t.h));
    let (e, x) = (t.z[i].edges@[k] as int, t.z[i].nodes@[k] as int);
    assert(t.puts(e, s, i, k)); assert(t.sits(x, k, i));
    reg_put(t, e, s, i, k); put_free(t, e, k);
    cor_put(t, x, k, i); sit_free(t, x, k, 0); sit_free(t, x, k, 1); sit_free(t, x, k, 2); sit_free(t, x, k, 3);
    key_up(l0, t.h, k);
    reg_gm(t, e, s); cor_gm(t, x, k);
    assert(rim(f, d, k) == e && corner(f, d, k) == x);
    let (ke, kn) = (edge_key(l1, k < 2), node_key(l1));
    assert(ekey(f, d, k) == ke && nkey(f, d) == kn);
    assert forall|key: [u8; 2]| <[u8; 2]>::klt(ke, key) implies !#[trigger] reg(f, e, s).dom().contains(key) by {
        if t.on_rim(e, k) { key_trans(ekey(t.a, t.c, k), ke, key); assert(top_e(t.a, t.c, k)); assert(!reg(t.a, e, s).dom().contains(key)); } else { assert(!reg(t.gm, e, s).dom().contains(key)); key_trans2(ke, key); }
    }
    assert forall|key: [u8; 2]| <[u8; 2]>::klt(kn, key) implies !#[trigger] cor(f, x, k).dom().contains(key) by {
        if t.in_corner(x, k) { key_trans(nkey(t.a, t.c), kn, key); assert(top_n(t.a, t.c, k)); assert(!cor(t.a, x, k).dom().contains(key)); } else { assert(!cor(t.gm, x, k).dom().contains(key)); key_trans2(kn, key); }
    }
}
proof fn key_trans2(a: [u8; 2], b: [u8; 2])
    requires <[u8; 2]>::klt(a, b)
    ensures a != b
{ }
#[verifier::spinoff_prover]
pub proof fn new_cell(t: Step, i: int)
    requires t.ok(), 0 <= i < t.z.len()
    ensures cell_all(t.f, -1, t.n() + i)
{
    step_facts(t);
    new_place(t, i);
    new_tops(t, i, 0); new_tops(t, i, 1); new_tops(t, i, 2); new_tops(t, i, 3);
    let v = t.a.elems@[t.c].children->0@;
    assert(v[i] == t.n() + i);
    assert(t.z[i].ancestors@.last().0 == t.c as usize);
    assert(t.f.elems@[t.c] == t.a.elems@[t.c]);
    assert(v.contains((t.n() + i) as usize));
    assert(born(t.f, t.n() + i));
}
/// registrations with an edge are true
pub proof fn true_stays(t: Step, e: int, s: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), 0 <= s < 2
    ensures true_e(t.f, e, s)
{
    step_facts(t);
    reg_gm(t, e, s);
    assert forall|key: [u8; 2]| #[trigger] reg(t.gm, e, s).dom().contains(key) implies lies_some(t.f, reg(t.gm, e, s)[key] as int, e, s, key) by {
        assert(edge_all(t.a, e)); assert(true_e(t.a, e, s)); assert(reg(t.a, e, s).dom().contains(key));
        let d = reg(t.gm, e, s)[key] as int;
        assert(lies_some(t.a, d, e, s, key));
        old_place(t, d);
        assert(rim(t.f, d, 0) == rim(t.a, d, 0) && rim(t.f, d, 1) == rim(t.a, d, 1) && rim(t.f, d, 2) == rim(t.a, d, 2) && rim(t.f, d, 3) == rim(t.a, d, 3));
        assert(lies(t.f, d, e, s, 0, key) == lies(t.a, d, e, s, 0, key)); assert(lies(t.f, d, e, s, 1, key) == lies(t.a, d, e, s, 1, key)); assert(lies(t.f, d, e, s, 2, key) == lies(t.a, d, e, s, 2, key)); assert(lies(t.f, d, e, s, 3, key) == lies(t.a, d, e, s, 3, key));
    }
    if exists|i: int, k: int| #[trigger] t.puts(e, s, i, k) {
        let (i, k) = choose|i: int, k: int| #[trigger] t.puts(e, s, i, k);
        reg_put(t, e, s, i, k); new_place(t, i);
        let key = edge_key(lv(t.a, t.c).grown(t.h), k < 2);
        assert(lies(t.f, t.n() + i, e, s, k, key));
        assert(k == 0 || k == 1 || k == 2 || k == 3);
        assert forall|y: [u8; 2]| #[trigger] reg(t.f, e, s).dom().contains(y) implies lies_some(t.f, reg(t.f, e, s)[y] as int, e, s, y) by { if y != key { assert(reg(t.gm, e, s).dom().contains(y)); } }
    } else {
        reg_rest(t, e, s);
        assert forall|y: [u8; 2]| #[trigger] reg(t.f, e, s).dom().contains(y) implies lies_some(t.f, reg(t.f, e, s)[y] as int, e, s, y) by { assert(reg(t.gm, e, s).dom().contains(y)); }
    }
}
pub proof fn true_n_stays(t: Step, x: int, q: int)
    requires t.ok(), 0 <= x < t.gm.nodes@.len(), 0 <= q < 4
    ensures true_n(t.f, x, q)
{
    step_facts(t);
    cor_gm(t, x, q);
    let f = t.f;
    assert forall|key: [u8; 2]| #[trigger] cor(t.gm, x, q).dom().contains(key) implies { let d = cor(t.gm, x, q)[key] as int; d < f.elems@.len() && corner(f, d, q) == x && key == nkey(f, d) } by {
        assert(node_all(t.a, x)); assert(true_n(t.a, x, q)); assert(cor(t.a, x, q).dom().contains(key));
        let d = cor(t.gm, x, q)[key] as int;
        old_place(t, d);
        assert(rim(t.f, d, q) == rim(t.a, d, q));
    }
    if exists|i: int| #[trigger] t.sits(x, q, i) {
        let i = choose|i: int| #[trigger] t.sits(x, q, i);
        cor_put(t, x, q, i); new_place(t, i);
        let kn = node_key(lv(t.a, t.c).grown(t.h));
        assert forall|y: [u8; 2]| #[trigger] cor(f, x, q).dom().contains(y) implies { let d = cor(f, x, q)[y] as int; d < f.elems@.len() && corner(f, d, q) == x && y == nkey(f, d) } by { if y != kn { assert(cor(t.gm, x, q).dom().contains(y)); } }
    } else {
        cor_rest(t, x, q);
        assert forall|y: [u8; 2]| #[trigger] cor(f, x, q).dom().contains(y) implies { let d = cor(f, x, q)[y] as int; d < f.elems@.len() && corner(f, d, q) == x && y == nkey(f, d) } by { assert(cor(t.gm, x, q).dom().contains(y)); }
    }
}
/// along a split edge of the cell there is a child on each half
pub proof fn both_halves(t: Step, k: int)
    requires t.ok(), 0 <= k < 4, cuts(t.h, k)
    ensures cleft(t.gm, t.c, k), !vacant(reg(t.f, half_at(t.gm, t.c, k, 0), side(k))), !vacant(reg(t.f, half_at(t.gm, t.c, k, 1), side(k))), !vacant(reg(t.f, rim(t.a, t.c, k), side(k))), !vacant(reg(t.gm, rim(t.a, t.c, k), side(k))),
{
    step_facts(t);
    let (m, c, h, g, z) = (t.gm, t.c, t.h, t.g, t.z);
    assert(rims_cleft(m, c, h));
    let i0 = if h is T { if k == 1 { 2int } else if k == 3 { 1 } else { 0 } } else { 0 };
    let i1 = if h is T { if k == 0 { 1int } else if k == 2 { 2 } else { 3 } } else { 1 };
    assert(kid_is(m, c, h, g, i0, z[i0])); assert(kid_is(m, c, h, g, i1, z[i1]));
    assert(t.puts(half_at(m, c, k, 0), side(k), i0, k)); assert(t.puts(half_at(m, c, k, 1), side(k), i1, k));
    reg_put(t, half_at(m, c, k, 0), side(k), i0, k); reg_put(t, half_at(m, c, k, 1), side(k), i1, k);
    let r = rim(t.a, c, k);
    assert(rim(m, c, k) == r);
    old_place(t, c); assert(secured(t.a, c, k)); reg_gm(t, r, side(k)); reg_stays(t, r, side(k));
    assert(reg(m, r, side(k)).dom().contains(ekey(t.a, c, k)));
}
/// at inner edges there is a child on either side
#[verifier::spinoff_prover]
pub proof fn both_sides(t: Step, e: int)
    requires t.ok(), inner_edges(t.h, t.g).contains(e)
    ensures !vacant(reg(t.f, e, 0)), !vacant(reg(t.f, e, 1))
{
    step_facts(t);
    let (m, c, h, g, z) = (t.gm, t.c, t.h, t.g, t.z);
    let v = inner_edges(h, g);
    let n = v.index_of(e);
    assert(v[n] == e);
    // (child, edge) above or left of it, below or right of it
    let (i0, k0, i1, k1) = match h {
        HRef::T => if n == 0 { (0int, 3int, 1int, 2int) } else if n == 1 { (2, 3, 3, 2) } else if n == 2 { (0, 1, 2, 0) } else { (1, 1, 3, 0) },
        HRef::U(_) => (0, 3, 1, 2),
        HRef::V(_) => (0, 1, 1, 0),
    };
    assert(kid_is(m, c, h, g, i0, z[i0])); assert(kid_is(m, c, h, g, i1, z[i1]));
    assert(t.puts(e, 0, i0, k0)); assert(t.puts(e, 1, i1, k1));
    reg_put(t, e, 0, i0, k0); reg_put(t, e, 1, i1, k1);
}
/// whether anything is registered changes only at halves of the edges of the cell and at inner edges
pub proof fn vacancy(t: Step, e: int, s: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), 0 <= s < 2
    ensures vacant(reg(t.f, e, s)) == vacant(reg(t.gm, e, s)) || (vacant(reg(t.gm, e, s)) && (t.inside(e) || exists|k: int| 0 <= k < 4 && side(k) == s && #[trigger] t.on_half(e, k)))
{
    if exists|i: int, k: int| #[trigger] t.puts(e, s, i, k) {
        let (i, k) = choose|i: int, k: int| #[trigger] t.puts(e, s, i, k);
        reg_put(t, e, s, i, k); put_free(t, e, k);
        assert(t.on_half(e, k) ==> side(k) == s);
    } else { reg_rest(t, e, s); }
}
pub proof fn even_stays(t: Step, e: int, s: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), 0 <= s < 2
    ensures even(t.f, e, s)
{
    step_facts(t);
    if t.gm.edges@[e].children is Some {
        assert(split_ok(t.gm, e));
        let (h0, h1) = (hf(t.gm, e, 0), hf(t.gm, e, 1));
        if e >= t.a.edges@.len() { assert(bare(t.gm.edges@[e])); }
        assert(kept_edge(t.a.edges@[e], t.gm.edges@[e]));
        assert(edge_all(t.a, e)); assert(even(t.a, e, s)); assert(split_ok(t.a, e));
        reg_gm(t, e, s); reg_gm(t, h0, s); reg_gm(t, h1, s);
        vacancy(t, h0, s); vacancy(t, h1, s); reg_stays(t, e, s); reg_stays(t, h0, s); reg_stays(t, h1, s);
        assert(even(t.gm, e, s));
        if vacant(reg(t.f, h0, s)) != vacant(reg(t.gm, h0, s)) { let k = choose|k: int| 0 <= k < 4 && side(k) == s && #[trigger] t.on_half(h0, k); half_of(t, e, h0, k); both_halves(t, k); }
        if vacant(reg(t.f, h1, s)) != vacant(reg(t.gm, h1, s)) { let k = choose|k: int| 0 <= k < 4 && side(k) == s && #[trigger] t.on_half(h1, k); half_of(t, e, h1, k); both_halves(t, k); }
    }
}
pub proof fn half_of(t: Step, e: int, x: int, k: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), t.gm.edges@[e].children is Some, x == hf(t.gm, e, 0) || x == hf(t.gm, e, 1), 0 <= k < 4, t.on_half(x, k)
    ensures e == rim(t.a, t.c, k), half_at(t.gm, t.c, k, 0) == hf(t.gm, e, 0), half_at(t.gm, t.c, k, 1) == hf(t.gm, e, 1)
{
    step_facts(t);
    assert(split_ok(t.gm, e)); rim_facts(t.gm, t.c, k); assert(rim(t.gm, t.c, k) == rim(t.a, t.c, k));
}
#[verifier::spinoff_prover]
pub proof fn touch_stays(t: Step, e: int, q: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len(), 0 <= q < 4
    ensures touch(t.f, e, q)
{
    step_facts(t);
    let m = t.gm;
    if m.edges@[e].children is Some {
        assert(split_ok(m, e)); assert(edge_ok(m, e));
        let u = m.edges@[e].dir is U;
        let (y, s, x) = (hf(m, e, q_half(u, q)), q_side(u, q), m.edges@[e].child_node->0 as int);
        if e >= t.a.edges@.len() { assert(bare(m.edges@[e])); }
        assert(kept_edge(t.a.edges@[e], m.edges@[e]));
        assert(edge_all(t.a, e)); assert(touch(t.a, e, q)); assert(split_ok(t.a, e));
        reg_gm(t, y, s); reg_stays(t, y, s); cor_gm(t, x, q);
        assert(y == hf(t.f, e, q_half(u, q)));
        if vacant(reg(t.f, y, s)) {
            assert(vacant(cor(m, x, q)));
            assert forall|i: int| !#[trigger] t.sits(x, q, i) by {
                if t.sits(x, q, i) {
                    cor_put(t, x, q, i); sit_free(t, x, q, 0); sit_free(t, x, q, 1); sit_free(t, x, q, 2); sit_free(t, x, q, 3);
                    if t.in_hub(x) { assert(hub(m, t.g.ctr)); assert(m.edges@[e].child_node != Some(t.g.ctr as usize)); }
                    else {
                        let j = if t.in_middle(x, q, 0) { 0int } else if t.in_middle(x, q, 1) { 1 } else if t.in_middle(x, q, 2) { 2 } else { 3 };
                        assert(t.in_middle(x, q, j));
                        let r = rim(m, t.c, j);
                        rim_facts(m, t.c, j); assert(edge_ok(m, r));
                        assert(m.edges@[r].child_node == m.edges@[e].child_node);
                        assert(r == e);
                        both_halves(t, j);
                        assert(u <==> j < 2);
                    }
                }
            }
            cor_rest(t, x, q);
        }
    }
}
pub proof fn step_edge(t: Step, e: int)
    requires t.ok(), 0 <= e < t.gm.edges@.len()
    ensures edge_all(t.f, e)
{
    step_facts(t);
    true_stays(t, e, 0); true_stays(t, e, 1); even_stays(t, e, 0); even_stays(t, e, 1);
    touch_stays(t, e, 0); touch_stays(t, e, 1); touch_stays(t, e, 2); touch_stays(t, e, 3);
    let m = t.gm;
    if m.edges@[e].parent is None {
        if e < t.a.edges@.len() {
            assert(kept_edge(t.a.edges@[e], m.edges@[e])); assert(edge_all(t.a, e));
            reg_gm(t, e, 0); reg_gm(t, e, 1); vacancy(t, e, 0); vacancy(t, e, 1);
            assert forall|k: int| 0 <= k < 4 implies !#[trigger] t.on_half(e, k) by { if t.on_half(e, k) { rim_facts(m, t.c, k); } }
        } else { assert(bare(m.edges@[e])); both_sides(t, e); }
    }
}
/// THEOREM (P02): after a refinement everything fits together as before
#[verifier::spinoff_prover]
pub proof fn theorem_step(t: Step)
    requires t.ok()
    ensures whole(t.f)
{
    step_facts(t);
    step_net(t);
    let f = t.f;
    assert forall|c: int| 0 <= c < f.elems@.len() implies #[trigger] cell_all(f, -1, c) by { if c >= t.n() { new_cell(t, c - t.n()); } else if c == t.c { cut_cell(t); } else { old_cell(t, c); } }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] edge_all(f, e) by { step_edge(t, e); }
    assert forall|n: int| 0 <= n < f.nodes@.len() implies #[trigger] node_all(f, n) by { true_n_stays(t, n, 0); true_n_stays(t, n, 1); true_n_stays(t, n, 2); true_n_stays(t, n, 3); }
}
}
