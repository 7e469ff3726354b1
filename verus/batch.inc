verus! {
// ------------------------------------------------------------------ batches of refinements
pub open spec fn ext_of(h: HRef) -> Option<usize> { match h { HRef::T => None, HRef::U(x) => x, HRef::V(x) => x } }
pub open spec fn plain(h: HRef) -> HRef { match h { HRef::T => HRef::T, HRef::U(_) => HRef::U(None), HRef::V(_) => HRef::V(None) } }
/// what the extended child gets
pub open spec fn turned(h: HRef) -> HRef { if h is U { HRef::V(None) } else { HRef::U(None) } }
pub proof fn plain_same(h: HRef)
    ensures plain(h).n() == h.n(), forall|i: int| #[trigger] plain(h).loc_of(i) == h.loc_of(i), forall|l: HLevels| #[trigger] l.grown(plain(h)) == l.grown(h), du(plain(h)) == du(h), dv(plain(h)) == dv(h),
{ }
/// what the first n requests ask for, by cell
pub open spec fn asked(r: Seq<(usize, HRef)>, n: int) -> Map<usize, HRef> decreases n {
    if n <= 0 { Map::<usize, HRef>::empty() } else { let p = asked(r, n - 1); let (d, h) = r[n - 1]; p.insert(d, if p.dom().contains(d) { comb(p[d], h) } else { h }) }
}
/// the requests for one cell
pub open spec fn asks(r: Seq<(usize, HRef)>, n: int, d: usize) -> Seq<HRef> decreases n {
    if n <= 0 { Seq::<HRef>::empty() } else if r[n - 1].0 == d { asks(r, n - 1, d).push(r[n - 1].1) } else { asks(r, n - 1, d) }
}
/// THEOREM (P04): each cell named is refined once, by the combination of all requests for it
pub proof fn theorem_asked(r: Seq<(usize, HRef)>, n: int, d: usize)
    requires 0 <= n <= r.len()
    ensures asked(r, n).dom().contains(d) <==> asks(r, n, d).len() > 0, asks(r, n, d).len() > 0 ==> asked(r, n)[d] == comb_all(asks(r, n, d)),
        asked(r, n).dom().contains(d) <==> exists|i: int| 0 <= i < n && (#[trigger] r[i]).0 == d,
    decreases n
{
    if n > 0 {
        theorem_asked(r, n - 1, d);
        assert(r[n - 1] == r[n - 1]);
        if r[n - 1].0 == d { let s = asks(r, n, d); assert(s.drop_last() =~= asks(r, n - 1, d)); }
    }
}
pub proof fn asked_len(r: Seq<(usize, HRef)>, n: int)
    requires 0 <= n <= r.len()
    ensures asked(r, n).dom().finite(), asked(r, n).len() <= n
    decreases n
{ if n > 0 { asked_len(r, n - 1); } }
/// every cell once: nothing to combine
pub open spec fn once(r: Seq<(usize, HRef)>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0 }
pub proof fn asked_once(r: Seq<(usize, HRef)>, n: int, i: int)
    requires 0 <= i < n <= r.len(), once(r)
    ensures asked(r, n).dom().contains(r[i].0), asked(r, n)[r[i].0] == r[i].1
    decreases n
{
    if i < n - 1 { asked_once(r, n - 1, i); assert(r[i].0 != r[n - 1].0); }
    else { theorem_asked(r, n - 1, r[i].0); assert forall|j: int| 0 <= j < n - 1 implies (#[trigger] r[j]).0 != r[i].0 by { } }
}
pub proof fn asked_ext(r: Seq<(usize, HRef)>, n: int, d: usize)
    requires 0 <= n <= r.len(), asked(r, n).dom().contains(d), ext_of(asked(r, n)[d]) is Some
    ensures tall(r)
    decreases n
{
    if asked(r, n - 1).dom().contains(d) && ext_of(asked(r, n - 1)[d]) is Some { asked_ext(r, n - 1, d); }
    else { if r[n - 1].0 == d { assert(ext_of(r[n - 1].1) is Some); } }
}
pub open spec fn tall(r: Seq<(usize, HRef)>) -> bool { exists|i: int| 0 <= i < r.len() && ext_of((#[trigger] r[i]).1) is Some }
/// can be refined so
pub open spec fn pending(m: Mesh, d: int, h: HRef) -> bool { 0 <= d < m.elems@.len() && refineable(m, d) && fits(m, d, h) }
pub open spec fn shallow(m: Mesh, d: int, by: int) -> bool { lv(m, d).u < 256 - by && lv(m, d).v < 256 - by }
/// the batches that are accepted
pub open spec fn lawful(m: Mesh, r: Seq<(usize, HRef)>) -> bool { forall|d: usize| #[trigger] asked(r, r.len() as int).dom().contains(d) ==> pending(m, d as int, asked(r, r.len() as int)[d]) }
pub open spec fn layers_of(r: Seq<(usize, HRef)>) -> int { if tall(r) { 2 } else { 1 } }
pub open spec fn room(m: Mesh, k: int) -> bool { m.elems@.len() + 4 * k + 16 <= usize::MAX && m.nodes@.len() + 5 * k + 32 <= usize::MAX && m.edges@.len() + 12 * k + 64 <= usize::MAX }
pub open spec fn low(m: Mesh, r: Seq<(usize, HRef)>) -> bool { forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 < m.elems@.len() ==> shallow(m, r[i].0 as int, layers_of(r)) }
/// everything already there keeps its place
pub open spec fn keeps(a: Mesh, f: Mesh) -> bool {
    &&& f.elements == a.elements && f.nodes@.len() >= a.nodes@.len() && f.edges@.len() >= a.edges@.len()
    &&& forall|n: int| 0 <= n < a.nodes@.len() ==> (#[trigger] f.nodes@[n]) == (Node { elems: f.nodes@[n].elems, ..a.nodes@[n] })
    &&& forall|e: int| 0 <= e < a.edges@.len() ==> edge_keeps(a.edges@[e], #[trigger] f.edges@[e])
}
pub open spec fn edge_keeps(x: Edge, y: Edge) -> bool { y == (Edge { elems: y.elems, children: y.children, child_node: y.child_node, ..x }) && (x.children is Some ==> y.children == x.children && y.child_node == x.child_node) }
pub proof fn keeps_on(a: Mesh, m: Mesh, f: Mesh)
    requires keeps(a, m), keeps(m, f)
    ensures keeps(a, f)
{
    assert forall|n: int| 0 <= n < a.nodes@.len() implies (#[trigger] f.nodes@[n]) == (Node { elems: f.nodes@[n].elems, ..a.nodes@[n] }) by { assert(m.nodes@[n] == (Node { elems: m.nodes@[n].elems, ..a.nodes@[n] })); }
    assert forall|e: int| 0 <= e < a.edges@.len() implies edge_keeps(a.edges@[e], #[trigger] f.edges@[e]) by { assert(edge_keeps(a.edges@[e], m.edges@[e])); assert(edge_keeps(m.edges@[e], f.edges@[e])); }
}
/// child i of cell c, refined by h, under the number b + i
pub open spec fn child_made(a: Mesh, f: Mesh, c: int, h: HRef, b: int, i: int) -> bool {
    let x = f.elems@[b + i];
    f.elems@[c].children->0@[i] == b + i && x.id == b + i && x.children is None && x.ancestors@ == a.elems@[c].ancestors@.push((c as usize, h.loc_of(i))) && x.h_levels == lv(a, c).grown(h) && x.poly_orders == a.elems@[c].poly_orders && x.element == a.elems@[c].element
}
pub open spec fn family(a: Mesh, f: Mesh, c: int, h: HRef, b: int) -> bool {
    &&& f.elems@[c] == (Elem { children: f.elems@[c].children, ..a.elems@[c] }) && f.elems@[c].children is Some && f.elems@[c].children->0@.len() == h.n() && b + h.n() <= f.elems@.len()
    &&& forall|i: int| 0 <= i < h.n() ==> #[trigger] child_made(a, f, c, h, b, i)
}
/// how many cells the first n refinements add
pub open spec fn before(l: Seq<(usize, HRef)>, n: int) -> int decreases n { if n <= 0 { 0 } else { before(l, n - 1) + l[n - 1].1.n() } }
pub open spec fn named(l: Seq<(usize, HRef)>, n: int, d: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] l[j]).0 == d }
/// the first n of these refinements done in order, and nothing else
pub open spec fn grown_by(a: Mesh, f: Mesh, l: Seq<(usize, HRef)>, n: int) -> bool {
    &&& keeps(a, f) && f.elems@.len() == a.elems@.len() + before(l, n)
    &&& forall|j: int| 0 <= j < n ==> family(a, f, #[trigger] l[j].0 as int, l[j].1, a.elems@.len() + before(l, j))
    &&& forall|d: int| 0 <= d < a.elems@.len() && !#[trigger] named(l, n, d) ==> f.elems@[d] == a.elems@[d]
}
pub open spec fn one(m: Mesh, f: Mesh, c: int, h: HRef) -> bool {
    &&& keeps(m, f) && f.elems@.len() == m.elems@.len() + h.n() && family(m, f, c, h, m.elems@.len() as int)
    &&& forall|d: int| 0 <= d < m.elems@.len() && d != c ==> #[trigger] f.elems@[d] == m.elems@[d]
}
pub proof fn before_up(l: Seq<(usize, HRef)>, i: int, j: int)
    requires 0 <= i <= j <= l.len()
    ensures before(l, i) <= before(l, j), i < j ==> before(l, i) + l[i].1.n() <= before(l, j), 0 <= before(l, i) <= 4 * i
    decreases j
{ if i < j { before_up(l, i, j - 1); } else if i > 0 { before_up(l, i - 1, i - 1); } }
pub proof fn grown_none(a: Mesh, l: Seq<(usize, HRef)>)
    ensures grown_by(a, a, l, 0)
{ }
#[verifier::spinoff_prover]
pub proof fn grown_more(a: Mesh, m: Mesh, f: Mesh, l: Seq<(usize, HRef)>, n: int)
    requires grown_by(a, m, l, n), 0 <= n < l.len(), once(l), l[n].0 < a.elems@.len(), forall|j: int| 0 <= j < n ==> (#[trigger] l[j]).0 < a.elems@.len(), one(m, f, l[n].0 as int, l[n].1),
    ensures grown_by(a, f, l, n + 1)
{
    keeps_on(a, m, f);
    before_up(l, 0, n);
    let c = l[n].0 as int;
    assert(!named(l, n, c)) by { if named(l, n, c) { let j = choose|j: int| 0 <= j < n && (#[trigger] l[j]).0 == c; assert(l[j].0 != l[n].0); } }
    assert(m.elems@[c] == a.elems@[c]);
    assert forall|j: int| 0 <= j < n + 1 implies family(a, f, #[trigger] l[j].0 as int, l[j].1, a.elems@.len() + before(l, j)) by {
        let (d, h, b) = (l[j].0 as int, l[j].1, a.elems@.len() + before(l, j));
        if j < n {
            before_up(l, j, n);
            assert(family(a, m, d, h, b));
            assert(l[j].0 != l[n].0);
            assert(f.elems@[d] == m.elems@[d]);
            assert forall|i: int| 0 <= i < h.n() implies #[trigger] child_made(a, f, d, h, b, i) by { assert(child_made(a, m, d, h, b, i)); assert(f.elems@[b + i] == m.elems@[b + i]); }
        } else {
            assert forall|i: int| 0 <= i < h.n() implies #[trigger] child_made(a, f, d, h, b, i) by { assert(child_made(m, f, d, h, b, i)); }
        }
    }
    assert forall|d: int| 0 <= d < a.elems@.len() && !#[trigger] named(l, n + 1, d) implies f.elems@[d] == a.elems@[d] by {
        assert(l[n] == l[n]);
        if named(l, n, d) { let j = choose|j: int| 0 <= j < n && (#[trigger] l[j]).0 == d; assert(l[j].0 == d); }
        assert(d != c);
    }
}
/// what is still to be done can still be done
pub proof fn pending_stays(m: Mesh, f: Mesh, c: int, h: HRef, d: int, x: HRef)
    requires whole(m), whole(f), one(m, f, c, h), 0 <= c < m.elems@.len(), pending(m, d, x), d != c
    ensures pending(f, d, x), f.elems@[d] == m.elems@[d]
{
    assert(cell_all(m, -1, d)); assert(cell_all(f, -1, d));
    assert(f.elems@[d] == m.elems@[d]);
    assert forall|k: int| 0 <= k < 4 implies rim(f, d, k) == #[trigger] rim(m, d, k) by { }
    assert(wide(m, d)) by { assert forall|k: int| 0 <= k < 4 implies (m.edges@[#[trigger] rim(m, d, k)]).length@ > MIN_EDGE_LENGTH_real() by { assert(m.elems@[d].edges@[k] == m.elems@[d].edges@[k]); } }
    assert forall|n: int| 0 <= n < m.nodes@.len() implies (#[trigger] f.nodes@[n]).coords == m.nodes@[n].coords by { }
    assert forall|e: int| 0 <= e < m.edges@.len() implies (#[trigger] f.edges@[e]).nodes == m.edges@[e].nodes && f.edges@[e].length == m.edges@[e].length && (m.edges@[e].children is Some ==> f.edges@[e].children is Some) by { assert(edge_keeps(m.edges@[e], f.edges@[e])); }
    fits_stays(m, f, d, x);
    assert forall|k: int| 0 <= k < 4 implies (f.edges@[#[trigger] f.elems@[d].edges@[k] as int]).length@ > MIN_EDGE_LENGTH_real() by { assert(rim(f, d, k) == rim(m, d, k)); }
}
/// the cell learns its children
#[verifier::spinoff_prover]
pub proof fn start_step(m: Mesh, a: Mesh, c: int)
    requires whole(m), 0 <= c < m.elems@.len(), m.elems@[c].children is None, a == (Mesh { elems: a.elems, ..m }), a.elems@ == m.elems@.update(c, Elem { children: a.elems@[c].children, ..m.elems@[c] })
    ensures whole_but(a, c)
{
    assert forall|n: int| 0 <= n < a.nodes@.len() implies #[trigger] node_ok(a, n) by { assert(node_ok(m, n)); }
    assert forall|e: int| 0 <= e < a.edges@.len() implies #[trigger] edge_ok(a, e) by { assert(edge_ok(m, e)); }
    assert forall|e: int| 0 <= e < a.edges@.len() implies #[trigger] split_ok(a, e) by { assert(split_ok(m, e)); assert(edge_ok(m, e));
        if m.edges@[e].children is Some { let k = m.edges@[e].children->0; let (i, j) = (k@[0] as int, k@[1] as int); let (n, p, q) = (m.edges@[e].child_node->0 as int, m.edges@[e].nodes@[0] as int, m.edges@[e].nodes@[1] as int);
            assert(half_ok(a, e, i, p, n)); assert(half_ok(a, e, j, n, q)); } }
    assert forall|e: int| 0 <= e < a.edges@.len() implies #[trigger] parent_ok(a, e) by { assert(parent_ok(m, e)); }
    assert(net_ok(a));
    assert forall|d: int| 0 <= d < a.elems@.len() implies #[trigger] cell_all(a, c, d) by {
        assert(cell_all(m, -1, d));
        assert(secured(a, d, 0) == secured(m, d, 0) && secured(a, d, 1) == secured(m, d, 1) && secured(a, d, 2) == secured(m, d, 2) && secured(a, d, 3) == secured(m, d, 3));
        if leaf(a, c, d) { start_tops(m, a, c, d, 0); start_tops(m, a, c, d, 1); start_tops(m, a, c, d, 2); start_tops(m, a, c, d, 3); }
        if d != c && a.elems@[d].children is Some { let (h, g) = choose|h: HRef, g: Grid| #[trigger] cut_as(m, d, h, g); start_kin(m, a, c, d, h, g); }
        assert(kin(a, d) || d == c);
        assert(born(m, d)); assert(born(a, d));
    }
    assert forall|e: int| 0 <= e < a.edges@.len() implies #[trigger] edge_all(a, e) by { assert(edge_all(m, e)); start_true(m, a, c, e, 0); start_true(m, a, c, e, 1); assert(even(a, e, 0) && even(a, e, 1)); assert(touch(a, e, 0) && touch(a, e, 1) && touch(a, e, 2) && touch(a, e, 3)) by { assert(touch(m, e, 0) && touch(m, e, 1) && touch(m, e, 2) && touch(m, e, 3)); } }
    assert forall|n: int| 0 <= n < a.nodes@.len() implies #[trigger] node_all(a, n) by { assert(node_all(m, n)); start_true_n(m, a, c, n, 0); start_true_n(m, a, c, n, 1); start_true_n(m, a, c, n, 2); start_true_n(m, a, c, n, 3); }
}
pub open spec fn told(m: Mesh, a: Mesh, c: int) -> bool { 0 <= c < m.elems@.len() && a == (Mesh { elems: a.elems, ..m }) && a.elems@ == m.elems@.update(c, Elem { children: a.elems@[c].children, ..m.elems@[c] }) }
proof fn start_tops(m: Mesh, a: Mesh, c: int, d: int, k: int)
    requires told(m, a, c), 0 <= d < m.elems@.len(), 0 <= k < 4, tops(m, d, k)
    ensures tops(a, d, k)
{
    assert(rim(a, d, k) == rim(m, d, k) && corner(a, d, k) == corner(m, d, k) && ekey(a, d, k) == ekey(m, d, k) && nkey(a, d) == nkey(m, d));
    assert(reg(a, rim(a, d, k), side(k)) == reg(m, rim(m, d, k), side(k)) && cor(a, corner(a, d, k), k) == cor(m, corner(m, d, k), k));
    assert forall|key: [u8; 2]| <[u8; 2]>::klt(ekey(a, d, k), key) implies !#[trigger] reg(a, rim(a, d, k), side(k)).dom().contains(key) by { assert(!reg(m, rim(m, d, k), side(k)).dom().contains(key)); }
    assert forall|key: [u8; 2]| <[u8; 2]>::klt(nkey(a, d), key) implies !#[trigger] cor(a, corner(a, d, k), k).dom().contains(key) by { assert(!cor(m, corner(m, d, k), k).dom().contains(key)); }
    assert(open_halves(m, d, k));
    assert(reg(a, half_at(a, d, k, 0), side(k)) == reg(m, half_at(m, d, k, 0), side(k)) && reg(a, half_at(a, d, k, 1), side(k)) == reg(m, half_at(m, d, k, 1), side(k)));
}
proof fn start_true(m: Mesh, a: Mesh, c: int, e: int, s: int)
    requires told(m, a, c), true_e(m, e, s)
    ensures true_e(a, e, s)
{
    assert(reg(a, e, s) == reg(m, e, s));
    assert forall|key: [u8; 2]| #[trigger] reg(a, e, s).dom().contains(key) implies lies_some(a, reg(a, e, s)[key] as int, e, s, key) by {
        assert(reg(m, e, s).dom().contains(key)); let d = reg(m, e, s)[key] as int;
        assert(lies_some(m, d, e, s, key));
        assert(lies(a, d, e, s, 0, key) == lies(m, d, e, s, 0, key)); assert(lies(a, d, e, s, 1, key) == lies(m, d, e, s, 1, key)); assert(lies(a, d, e, s, 2, key) == lies(m, d, e, s, 2, key)); assert(lies(a, d, e, s, 3, key) == lies(m, d, e, s, 3, key));
    }
}
proof fn start_true_n(m: Mesh, a: Mesh, c: int, n: int, q: int)
    requires told(m, a, c), true_n(m, n, q)
    ensures true_n(a, n, q)
{
    assert(cor(a, n, q) == cor(m, n, q));
    assert forall|key: [u8; 2]| #[trigger] cor(a, n, q).dom().contains(key) implies { let d = cor(a, n, q)[key] as int; d < a.elems@.len() && corner(a, d, q) == n && key == nkey(a, d) } by { assert(cor(m, n, q).dom().contains(key)); }
}
proof fn start_kin(m: Mesh, a: Mesh, c: int, d: int, h: HRef, g: Grid)
    requires told(m, a, c), 0 <= d < m.elems@.len(), d != c, cut_as(m, d, h, g), m.elems@[c].children is None
    ensures cut_as(a, d, h, g)
{
    let v = m.elems@[d].children->0@;
    assert(a.elems@[d] == m.elems@[d]);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] kid_at(a, d, h, i) by { assert(kid_at(m, d, h, i)); let x = v[i] as int; assert(a.elems@[x] == m.elems@[x] || x == c); }
    assert forall|e: int, p: int, q: int, u: bool| #[trigger] string_at(m, e, p, q, u) implies string_at(a, e, p, q, u) by { }
    assert forall|n: int| #[trigger] center_at(m, d, n) implies center_at(a, d, n) by { }
    assert(rim(a, d, 0) == rim(m, d, 0) && rim(a, d, 1) == rim(m, d, 1) && rim(a, d, 2) == rim(m, d, 2) && rim(a, d, 3) == rim(m, d, 3));
    assert forall|i: int| 0 <= i < v.len() implies kid_is(a, d, h, g, i, #[trigger] kids_of(a, d)[i]) by {
        assert(kid_at(m, d, h, i)); let x = v[i] as int;
        assert(kid_is(m, d, h, g, i, kids_of(m, d)[i]));
        assert(kids_of(a, d)[i].nodes == kids_of(m, d)[i].nodes && kids_of(a, d)[i].edges == kids_of(m, d)[i].edges) by { assert(a.elems@[x] == m.elems@[x] || x == c); }
    }
    assert(cut_table(a, d, h, g, kids_of(a, d)));
}
}
verus! {
// ------------------------------------------------------------------ one refinement of a batch
pub proof fn exec_ready(m: Mesh, a: Mesh, c: int, h: HRef)
    requires whole(m), pending(m, c, h), told(m, a, c), spare(m), shallow(m, c, 1)
    ensures exec_pre(a, c, plain(h)), whole_but(a, c)
{
    start_step(m, a, c);
    whole_open(a, c, c);
    fits_cuts(m, c, h);
    assert(rim(a, c, 0) == rim(m, c, 0) && rim(a, c, 1) == rim(m, c, 1) && rim(a, c, 2) == rim(m, c, 2) && rim(a, c, 3) == rim(m, c, 3));
    assert forall|k: int| 0 <= k < 4 implies (a.edges@[#[trigger] rim(a, c, k)]).length@ > MIN_EDGE_LENGTH_real() by { assert(m.elems@[c].edges@[k] == m.elems@[c].edges@[k]); }
    plain_same(h);
}
/// the cell and its children in the making agree
pub open spec fn crib(m: Mesh, a: Mesh, c: int, h: HRef, v: Seq<ElemUninit>) -> bool {
    told(m, a, c) && v.len() == h.n() && a.elems@[c].children is Some && a.elems@[c].children->0@ == Seq::new(h.n() as nat, |k: int| (m.elems@.len() + k) as usize) && forall|k: int| 0 <= k < v.len() ==> child_of(#[trigger] v[k], m.elems@[c], h, k, m.elems@.len() + k)
}
pub open spec fn this_step(m: Mesh, a: Mesh, gm: Mesh, b: Mesh, f: Mesh, c: int, h: HRef, g: Grid, z: Seq<Elem>) -> Step { Step { a: a, gm: gm, b: b, f: f, c: c, h: plain(h), g: g, z: z } }
pub proof fn kids_ready(m: Mesh, a: Mesh, c: int, h: HRef, v: Seq<ElemUninit>)
    requires crib(m, a, c, h, v)
    ensures kids_in(a, c, plain(h), v)
{
    plain_same(h);
    assert forall|i: int| 0 <= i < v.len() implies blank(#[trigger] v[i]) && v[i].h_levels == lv(a, c).grown(plain(h)) by {
        assert(child_of(v[i], m.elems@[c], h, i, m.elems@.len() + i));
        assert(v[i].nodes@[0] is None && v[i].edges@[0] is None); assert(v[i].nodes@[1] is None && v[i].edges@[1] is None); assert(v[i].nodes@[2] is None && v[i].edges@[2] is None); assert(v[i].nodes@[3] is None && v[i].edges@[3] is None);
    }
}
pub proof fn step_made(m: Mesh, a: Mesh, gm: Mesh, b: Mesh, f: Mesh, c: int, h: HRef, g: Grid, v: Seq<ElemUninit>, z: Seq<Elem>)
    requires whole(m), pending(m, c, h), spare(m), shallow(m, c, 1), crib(m, a, c, h, v), kids_out(v, z), wired(a, gm, b, c, plain(h), g, z), f == (Mesh { elems: f.elems, ..b }), f.elems@ == b.elems@ + z, f.elems@.len() <= usize::MAX
    ensures this_step(m, a, gm, b, f, c, h, g, z).ok(), b.elems == a.elems,
{
    exec_ready(m, a, c, h);
    let t = this_step(m, a, gm, b, f, c, h, g, z);
    plain_same(h);
    assert(same_but_links(gm, b));
    assert(cell_all(m, -1, c));
    assert(h.n() == 2 || h.n() == 4);
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] newborn(t, i) by { assert(child_of(v[i], m.elems@[c], h, i, m.elems@.len() + i)); assert(kid_out(v[i], z[i])); }
}
/// THEOREM (P02, P03): a refinement of a batch does what was asked for and leaves everything fitting together
#[verifier::spinoff_prover]
pub proof fn theorem_one(m: Mesh, a: Mesh, gm: Mesh, b: Mesh, f: Mesh, c: int, h: HRef, g: Grid, v: Seq<ElemUninit>, z: Seq<Elem>)
    requires whole(m), pending(m, c, h), spare(m), shallow(m, c, 1), crib(m, a, c, h, v), kids_out(v, z), wired(a, gm, b, c, plain(h), g, z), f == (Mesh { elems: f.elems, ..b }), f.elems@ == b.elems@ + z, f.elems@.len() <= usize::MAX
    ensures whole(f), one(m, f, c, h), f.nodes@.len() <= m.nodes@.len() + 5, f.edges@.len() <= m.edges@.len() + 12, f.nodes@.len() == b.nodes@.len(), f.edges@.len() == b.edges@.len(),
{
    step_made(m, a, gm, b, f, c, h, g, v, z);
    let t = this_step(m, a, gm, b, f, c, h, g, z);
    theorem_step(t);
    step_facts(t);
    plain_same(h);
    assert forall|n: int| 0 <= n < m.nodes@.len() implies (#[trigger] f.nodes@[n]) == (Node { elems: f.nodes@[n].elems, ..m.nodes@[n] }) by { assert(gm.nodes@[n] == a.nodes@[n]); }
    assert forall|e: int| 0 <= e < m.edges@.len() implies edge_keeps(m.edges@[e], #[trigger] f.edges@[e]) by { assert(kept_edge(a.edges@[e], gm.edges@[e])); }
    let b0 = m.elems@.len() as int;
    assert(f.elems@[c] == a.elems@[c]);
    assert forall|i: int| 0 <= i < h.n() implies #[trigger] child_made(m, f, c, h, b0, i) by { assert(newborn(t, i)); assert(child_of(v[i], m.elems@[c], h, i, m.elems@.len() + i)); assert(kid_out(v[i], z[i])); assert(t.f.elems@[t.n() + i] == t.z[i]); }
    assert forall|d: int| 0 <= d < m.elems@.len() && d != c implies #[trigger] f.elems@[d] == m.elems@[d] by { assert(f.elems@[d] == a.elems@[d]); }
}
/// the child to be refined the other way can be
#[verifier::spinoff_prover]
pub proof fn ext_ready(m: Mesh, a: Mesh, gm: Mesh, b: Mesh, f: Mesh, c: int, h: HRef, g: Grid, v: Seq<ElemUninit>, z: Seq<Elem>, i: int)
    requires whole(m), pending(m, c, h), spare(m), shallow(m, c, 1), crib(m, a, c, h, v), kids_out(v, z), wired(a, gm, b, c, plain(h), g, z), f == (Mesh { elems: f.elems, ..b }), f.elems@ == b.elems@ + z, f.elems@.len() <= usize::MAX,
        ext_of(h) == Some(i as usize), 0 <= i <= usize::MAX,
    ensures i < 2, pending(f, m.elems@.len() + i, turned(h)), z[i].id == m.elems@.len() + i,
{
    step_made(m, a, gm, b, f, c, h, g, v, z);
    let t = this_step(m, a, gm, b, f, c, h, g, z);
    step_facts(t);
    min_facts();
    let d = m.elems@.len() + i;
    let (k0, k1) = if h is U { (0int, 1int) } else { (2, 3) };
    let x = if h is U { if i == 0 { 2int } else { 3 } } else { if i == 0 { 0 } else { 1 } };
    assert(rim(gm, c, 0) == rim(m, c, 0) && rim(gm, c, 1) == rim(m, c, 1) && rim(gm, c, 2) == rim(m, c, 2) && rim(gm, c, 3) == rim(m, c, 3)) by { assert(rim(gm, c, 0) == rim(a, c, 0) && rim(gm, c, 1) == rim(a, c, 1) && rim(gm, c, 2) == rim(a, c, 2) && rim(gm, c, 3) == rim(a, c, 3)); }
    let (e0, e1, ex, iv) = (rim(m, c, k0), rim(m, c, k1), rim(m, c, x), if h is U { g.v0 } else { g.h0 });
    assert(fits_ext(m, e0, e1, ex, i));
    assert(cell_all(m, -1, c));
    assert(kept_edge(a.edges@[e0], gm.edges@[e0]) && kept_edge(a.edges@[e1], gm.edges@[e1]) && kept_edge(a.edges@[ex], gm.edges@[ex]));
    rim_facts(gm, c, k0); rim_facts(gm, c, k1);
    assert(edge_ok(gm, iv)); assert(edge_ok(m, e0) && edge_ok(m, e1));
    let (dx, dy) = (mid_dx(m, e0, e1), mid_dy(m, e0, e1));
    let (n0, n1) = (mid_at(gm, c, k0), mid_at(gm, c, k1));
    let (p0, q0, p1, q1) = (m.edges@[e0].nodes@[0] as int, m.edges@[e0].nodes@[1] as int, m.edges@[e1].nodes@[0] as int, m.edges@[e1].nodes@[1] as int);
    assert(gm.nodes@[p0] == m.nodes@[p0] && gm.nodes@[q0] == m.nodes@[q0] && gm.nodes@[p1] == m.nodes@[p1] && gm.nodes@[q1] == m.nodes@[q1]);
    assert(px(gm, n1) - px(gm, n0) == dx); assert(py(gm, n1) - py(gm, n0) == dy);
    let l = gm.edges@[iv].length@;
    assert(l * l == dx * dx + dy * dy);
    half_least(l, MIN_EDGE_LENGTH_real(), dx * dx + dy * dy);
    assert(m.elems@[c].edges@[x] == m.elems@[c].edges@[x]);
    assert(m.edges@[ex].length@ > MIN_EDGE_LENGTH_real());
    assert(kid_is(gm, c, plain(h), g, i, z[i]));
    assert(newborn(t, i));
    assert(f.elems@[t.n() + i] == t.z[i]);
    assert forall|k: int| 0 <= k < 4 implies (f.edges@[#[trigger] f.elems@[d].edges@[k] as int]).length@ > MIN_EDGE_LENGTH_real() by {
        let e = kid_edge(gm, c, plain(h), g, i, k);
        assert(z[i].edges@[k] == e);
        assert(gm.edges@[e].length@ > MIN_EDGE_LENGTH_real());
        assert(f.edges@[e] == (Edge { elems: f.edges@[e].elems, ..gm.edges@[e] }));
    }
    let (f0, f1) = (rim(f, d, if h is U { 2int } else { 0 }), rim(f, d, if h is U { 3int } else { 1 }));
    assert((f0 == ex && f1 == iv) || (f0 == iv && f1 == ex));
    assert(halvable(f, ex)); assert(halvable(f, iv));
}
/// the activation of edges changes none of this
pub proof fn act_whole(m: Mesh, f: Mesh)
    requires whole(m), same_but_activation(m, f)
    ensures whole(f)
{
    assert forall|n: int| 0 <= n < f.nodes@.len() implies #[trigger] node_ok(f, n) by { assert(node_ok(m, n)); }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] edge_ok(f, e) by { assert(edge_ok(m, e)); }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] split_ok(f, e) by { assert(split_ok(m, e)); assert(edge_ok(m, e));
        if m.edges@[e].children is Some { let k = m.edges@[e].children->0; let (i, j) = (k@[0] as int, k@[1] as int); let (n, p, q) = (m.edges@[e].child_node->0 as int, m.edges@[e].nodes@[0] as int, m.edges@[e].nodes@[1] as int);
            assert(half_ok(f, e, i, p, n)); assert(half_ok(f, e, j, n, q)); } }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] parent_ok(f, e) by { assert(parent_ok(m, e)); }
    assert(net_ok(f));
    assert forall|d: int, k: int| 0 <= d < m.elems@.len() && 0 <= k < 4 implies rim(f, d, k) == #[trigger] rim(m, d, k) && ekey(f, d, k) == ekey(m, d, k) by { }
    assert forall|d: int| 0 <= d < f.elems@.len() implies #[trigger] cell_all(f, -1, d) by {
        assert(cell_all(m, -1, d));
        act_held(m, f, d, 0); act_held(m, f, d, 1); act_held(m, f, d, 2); act_held(m, f, d, 3);
        if leaf(f, -1, d) { act_tops(m, f, d, 0); act_tops(m, f, d, 1); act_tops(m, f, d, 2); act_tops(m, f, d, 3); }
        if f.elems@[d].children is Some { let (h, g) = choose|h: HRef, g: Grid| #[trigger] cut_as(m, d, h, g); act_kin(m, f, d, h, g); }
        assert(born(m, d)); assert(born(f, d));
    }
    assert forall|e: int| 0 <= e < f.edges@.len() implies #[trigger] edge_all(f, e) by {
        assert(edge_all(m, e)); assert(split_ok(m, e));
        act_true(m, f, e, 0); act_true(m, f, e, 1);
        assert(even(m, e, 0) && even(m, e, 1)); assert(touch(m, e, 0) && touch(m, e, 1) && touch(m, e, 2) && touch(m, e, 3));
        assert(even(f, e, 0) && even(f, e, 1)); assert(touch(f, e, 0) && touch(f, e, 1) && touch(f, e, 2) && touch(f, e, 3));
    }
    assert forall|n: int| 0 <= n < f.nodes@.len() implies #[trigger] node_all(f, n) by {
        assert(node_all(m, n));
        assert forall|q: int| 0 <= q < 4 && true_n(m, n, q) implies #[trigger] true_n(f, n, q) by {
            assert forall|key: [u8; 2]| #[trigger] cor(f, n, q).dom().contains(key) implies { let d = cor(f, n, q)[key] as int; d < f.elems@.len() && corner(f, d, q) == n && key == nkey(f, d) } by { assert(cor(m, n, q).dom().contains(key)); }
        }
    }
}
proof fn act_held(m: Mesh, f: Mesh, d: int, k: int)
    requires same_but_activation(m, f), 0 <= d < m.elems@.len(), 0 <= k < 4, cell_ok(m, d), secured(m, d, k)
    ensures secured(f, d, k), cell_ok(f, d)
{ let e = rim(m, d, k); assert(f.edges@[e] == (Edge { active_elems: f.edges@[e].active_elems, ..m.edges@[e] })); }
proof fn act_tops(m: Mesh, f: Mesh, d: int, k: int)
    requires same_but_activation(m, f), net_ok(m), 0 <= d < m.elems@.len(), 0 <= k < 4, cell_ok(m, d), tops(m, d, k)
    ensures tops(f, d, k)
{
    let e = rim(m, d, k); assert(f.edges@[e] == (Edge { active_elems: f.edges@[e].active_elems, ..m.edges@[e] }));
    assert forall|key: [u8; 2]| <[u8; 2]>::klt(ekey(f, d, k), key) implies !#[trigger] reg(f, rim(f, d, k), side(k)).dom().contains(key) by { assert(!reg(m, rim(m, d, k), side(k)).dom().contains(key)); }
    assert forall|key: [u8; 2]| <[u8; 2]>::klt(nkey(f, d), key) implies !#[trigger] cor(f, corner(f, d, k), k).dom().contains(key) by { assert(!cor(m, corner(m, d, k), k).dom().contains(key)); }
    assert(open_halves(m, d, k));
    if cleft(m, d, k) { rim_facts(m, d, k); }
}
proof fn act_true(m: Mesh, f: Mesh, e: int, s: int)
    requires same_but_activation(m, f), 0 <= e < m.edges@.len(), true_e(m, e, s)
    ensures true_e(f, e, s)
{
    assert forall|key: [u8; 2]| #[trigger] reg(f, e, s).dom().contains(key) implies lies_some(f, reg(f, e, s)[key] as int, e, s, key) by {
        assert(reg(m, e, s).dom().contains(key)); let d = reg(m, e, s)[key] as int;
        assert(lies_some(m, d, e, s, key));
        assert(lies(f, d, e, s, 0, key) == lies(m, d, e, s, 0, key)); assert(lies(f, d, e, s, 1, key) == lies(m, d, e, s, 1, key)); assert(lies(f, d, e, s, 2, key) == lies(m, d, e, s, 2, key)); assert(lies(f, d, e, s, 3, key) == lies(m, d, e, s, 3, key));
    }
}
proof fn act_kin(m: Mesh, f: Mesh, d: int, h: HRef, g: Grid)
    requires same_but_activation(m, f), net_ok(m), 0 <= d < m.elems@.len(), cell_ok(m, d), cut_as(m, d, h, g)
    ensures cut_as(f, d, h, g)
{
    let v = m.elems@[d].children->0@;
    assert(kids_of(f, d) =~= kids_of(m, d));
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] kid_at(f, d, h, i) by { assert(kid_at(m, d, h, i)); }
    assert forall|e: int, p: int, q: int, u: bool| #[trigger] string_at(m, e, p, q, u) implies string_at(f, e, p, q, u) by { }
    assert forall|n: int| #[trigger] center_at(m, d, n) implies center_at(f, d, n) by { }
    assert(rim(f, d, 0) == rim(m, d, 0) && rim(f, d, 1) == rim(m, d, 1) && rim(f, d, 2) == rim(m, d, 2) && rim(f, d, 3) == rim(m, d, 3));
    assert forall|k: int| 0 <= k < 4 implies #[trigger] cleft(f, d, k) == cleft(m, d, k) && mid_at(f, d, k) == mid_at(m, d, k) && half_at(f, d, k, 0) == half_at(m, d, k, 0) && half_at(f, d, k, 1) == half_at(m, d, k, 1) by { let e = rim(m, d, k); assert(f.edges@[e] == (Edge { active_elems: f.edges@[e].active_elems, ..m.edges@[e] })); }
    assert(cleft(f, d, 0) == cleft(m, d, 0) && cleft(f, d, 1) == cleft(m, d, 1) && cleft(f, d, 2) == cleft(m, d, 2) && cleft(f, d, 3) == cleft(m, d, 3));
    assert forall|i: int| 0 <= i < v.len() implies kid_is(f, d, h, g, i, #[trigger] kids_of(f, d)[i]) by { assert(kid_is(m, d, h, g, i, kids_of(m, d)[i])); }
    assert(cut_table(f, d, h, g, kids_of(f, d)));
}
}
verus! {
// ------------------------------------------------------------------ whole batches
/// the extensions of the first n refinements
pub open spec fn exts(l: Seq<(usize, HRef)>, n: int, b: int) -> Seq<(usize, HRef)> decreases n {
    if n <= 0 { Seq::<(usize, HRef)>::empty() } else { let p = exts(l, n - 1, b); match ext_of(l[n - 1].1) { None => p, Some(i) => p.push(((b + before(l, n - 1) + i) as usize, turned(l[n - 1].1))) } }
}
pub open spec fn lists(l: Seq<(usize, HRef)>, r: Seq<(usize, HRef)>) -> bool { listing(l, asked(r, r.len() as int)) }
pub open spec fn kids_total(l: Seq<(usize, HRef)>) -> int { before(l, l.len() as int) }
/// a batch without extensions, carried out
pub open spec fn carried_out(a: Mesh, f: Mesh, r: Seq<(usize, HRef)>) -> bool { exists|l: Seq<(usize, HRef)>, m: Mesh| #![trigger grown_by(a, m, l, l.len() as int)] lists(l, r) && grown_by(a, m, l, l.len() as int) && same_but_activation(m, f) }
/// a batch carried out: the cells named in order of their numbers, and then the extensions
pub open spec fn in_full(a: Mesh, m: Mesh, f: Mesh, l: Seq<(usize, HRef)>, r: Seq<(usize, HRef)>) -> bool {
    lists(l, r) && grown_by(a, m, l, l.len() as int) && { let x = exts(l, l.len() as int, a.elems@.len() as int); if x.len() == 0 { same_but_activation(m, f) } else { carried_out_too(m, f, x) } }
}
pub open spec fn carried_out_too(m: Mesh, f: Mesh, x: Seq<(usize, HRef)>) -> bool { exists|n: Mesh| #[trigger] carried_out(m, n, x) && same_but_activation(n, f) }
pub open spec fn refined_by(a: Mesh, f: Mesh, r: Seq<(usize, HRef)>) -> bool { exists|l: Seq<(usize, HRef)>, m: Mesh| #[trigger] in_full(a, m, f, l, r) }
/// the extensions: one each, in ascending order
pub proof fn exts_up(l: Seq<(usize, HRef)>, n: int, b: int)
    requires 0 <= n <= l.len(), b >= 0, b + before(l, n) <= usize::MAX, forall|j: int| 0 <= j < n ==> (match ext_of((#[trigger] l[j]).1) { None => true, Some(i) => i < 2 })
    ensures exts(l, n, b).len() <= n, forall|i: int| 0 <= i < exts(l, n, b).len() ==> b <= (#[trigger] exts(l, n, b)[i]).0 < b + before(l, n) && ext_of(exts(l, n, b)[i].1) is None, once(exts(l, n, b))
    decreases n
{
    if n > 0 {
        before_up(l, n - 1, n); before_up(l, 0, n - 1);
        exts_up(l, n - 1, b);
        let (p, x) = (exts(l, n - 1, b), exts(l, n, b));
        assert(l[n - 1] == l[n - 1]);
        assert forall|i: int| 0 <= i < x.len() implies b <= (#[trigger] x[i]).0 < b + before(l, n) && ext_of(x[i].1) is None by { if i < p.len() { assert(x[i] == p[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < x.len() implies (#[trigger] x[i]).0 != (#[trigger] x[j]).0 by { assert(x[i] == p[i]); if j < p.len() { assert(x[j] == p[j]); } }
    }
}
/// all of these can be done
pub open spec fn all_pending(m: Mesh, l: Seq<(usize, HRef)>, n: int) -> bool { forall|j: int| n <= j < l.len() ==> pending(m, (#[trigger] l[j]).0 as int, l[j].1) }
/// under way: the first n done
pub open spec fn under_way(a: Mesh, m: Mesh, l: Seq<(usize, HRef)>, n: int, x: Seq<(usize, HRef)>, by: int) -> bool {
    &&& whole(m) && grown_by(a, m, l, n) && all_pending(m, l, n) && x == exts(l, n, a.elems@.len() as int) && all_pending(m, x, 0) && x.len() <= n
    &&& forall|j: int| n <= j < l.len() ==> shallow(m, (#[trigger] l[j]).0 as int, by)
    &&& forall|j: int| 0 <= j < x.len() ==> (#[trigger] x[j]).0 >= a.elems@.len() && shallow(m, x[j].0 as int, 1)
    &&& m.nodes@.len() <= a.nodes@.len() + 5 * n && m.edges@.len() <= a.edges@.len() + 12 * n
}
pub open spec fn batch_ok(a: Mesh, l: Seq<(usize, HRef)>, by: int, k: int) -> bool {
    &&& once(l) && (by == 1 || by == 2) && l.len() <= k && room(a, k) && forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).0 < a.elems@.len() && shallow(a, l[j].0 as int, by) && (ext_of(l[j].1) is Some ==> by == 2)
}
/// one more
pub proof fn way_on(a: Mesh, m: Mesh, f: Mesh, l: Seq<(usize, HRef)>, n: int, x: Seq<(usize, HRef)>, y: Seq<(usize, HRef)>, by: int, k: int)
    requires batch_ok(a, l, by, k), under_way(a, m, l, n, x, by), 0 <= n < l.len(), whole(f), one(m, f, l[n].0 as int, l[n].1), f.nodes@.len() <= m.nodes@.len() + 5, f.edges@.len() <= m.edges@.len() + 12,
        match ext_of(l[n].1) { None => y == x, Some(i) => i < 2 && pending(f, m.elems@.len() + i, turned(l[n].1)) && y == x.push(((m.elems@.len() + i) as usize, turned(l[n].1))) },
    ensures under_way(a, f, l, n + 1, y, by)
{
    grown_more(a, m, f, l, n);
    before_up(l, 0, n);
    let c = l[n].0 as int;
    assert forall|j: int| n + 1 <= j < l.len() implies pending(f, (#[trigger] l[j]).0 as int, l[j].1) && shallow(f, l[j].0 as int, by) by { assert(l[j].0 != l[n].0); pending_stays(m, f, c, l[n].1, l[j].0 as int, l[j].1); }
    assert(l[n] == l[n]);
    assert forall|j: int| 0 <= j < y.len() implies pending(f, (#[trigger] y[j]).0 as int, y[j].1) && y[j].0 >= a.elems@.len() && shallow(f, y[j].0 as int, 1) by {
        if j < x.len() { assert(y[j] == x[j]); pending_stays(m, f, c, l[n].1, x[j].0 as int, x[j].1); }
        else { let i = ext_of(l[n].1)->0; assert(child_made(m, f, c, l[n].1, m.elems@.len() as int, i as int)); assert(shallow(m, c, 2)); }
    }
}
pub proof fn all_valid(m: Mesh, x: Seq<(usize, HRef)>)
    requires once(x), all_pending(m, x, 0), forall|j: int| 0 <= j < x.len() ==> ext_of((#[trigger] x[j]).1) is None, forall|j: int| 0 <= j < x.len() ==> shallow(m, (#[trigger] x[j]).0 as int, 1)
    ensures lawful(m, x), !tall(x), low(m, x)
{
    assert forall|d: usize| #[trigger] asked(x, x.len() as int).dom().contains(d) implies pending(m, d as int, asked(x, x.len() as int)[d]) by {
        theorem_asked(x, x.len() as int, d);
        let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).0 == d;
        asked_once(x, x.len() as int, i);
    }
}
/// the batch, sorted
pub proof fn sorted_batch(a: Mesh, r: Seq<(usize, HRef)>, l: Seq<(usize, HRef)>)
    requires lists(l, r), lawful(a, r), low(a, r), room(a, layers_of(r) * r.len() as int)
    ensures batch_ok(a, l, layers_of(r), r.len() as int), all_pending(a, l, 0), !tall(r) || room(a, 2 * l.len() as int)
{
    asked_len(r, r.len() as int);
    let by = layers_of(r);
    let m = asked(r, r.len() as int);
    assert(layers_of(r) * r.len() >= r.len()) by (nonlinear_arith) requires layers_of(r) >= 1, r.len() >= 0;
    assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).0 < a.elems@.len() && shallow(a, l[j].0 as int, by) && (ext_of(l[j].1) is Some ==> by == 2) && pending(a, l[j].0 as int, l[j].1) by {
        assert(m.dom().contains(l[j].0));
        theorem_asked(r, r.len() as int, l[j].0);
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == l[j].0;
        assert(r[i].0 < a.elems@.len());
        if ext_of(l[j].1) is Some { asked_ext(r, r.len() as int, l[j].0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[j]).0 by { }
}
pub proof fn ext_small(m: Mesh, c: int, h: HRef)
    requires pending(m, c, h)
    ensures match ext_of(h) { None => true, Some(i) => i < 2 }
{ }
/// checked: can all be done
pub proof fn checked(m: Mesh, r: Seq<(usize, HRef)>, s: Seq<(usize, &HRef)>)
    requires listing_ref(s, asked(r, r.len() as int)), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 < m.elems@.len() && refineable(m, r[i].0 as int), forall|j: int| 0 <= j < s.len() ==> fits(m, (#[trigger] s[j]).0 as int, *s[j].1)
    ensures lawful(m, r)
{
    let a = asked(r, r.len() as int);
    assert forall|d: usize| #[trigger] a.dom().contains(d) implies pending(m, d as int, a[d]) by {
        theorem_asked(r, r.len() as int, d);
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == d;
        assert(r[i].0 < m.elems@.len());
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == d;
        assert(fits(m, s[j].0 as int, *s[j].1));
    }
}
/// an entry that cannot be done
pub proof fn refused(m: Mesh, r: Seq<(usize, HRef)>, i: int)
    requires 0 <= i < r.len(), r[i].0 >= m.elems@.len() || !refineable(m, r[i].0 as int)
    ensures !lawful(m, r)
{ theorem_asked(r, r.len() as int, r[i].0); assert(asked(r, r.len() as int).dom().contains(r[i].0)); }
/// the mesh, the cell and the children in the making, the mesh and the children when they have been wired
pub open spec fn delivered(m: Mesh, a: Mesh, b: Mesh, c: int, h: HRef, v: Seq<ElemUninit>, z: Seq<Elem>) -> bool { crib(m, a, c, h, v) && kids_out(v, z) && exists|gm: Mesh, g: Grid| #[trigger] wired(a, gm, b, c, plain(h), g, z) }
pub proof fn made_on(m0: Mesh, m: Mesh, a: Mesh, b: Mesh, f: Mesh, l: Seq<(usize, HRef)>, n: int, x: Seq<(usize, HRef)>, y: Seq<(usize, HRef)>, by: int, k: int, v: Seq<ElemUninit>, z: Seq<Elem>)
    requires batch_ok(m0, l, by, k), under_way(m0, m, l, n, x, by), 0 <= n < l.len(), delivered(m, a, b, l[n].0 as int, l[n].1, v, z), f == (Mesh { elems: f.elems, ..b }), f.elems@ == b.elems@ + z, f.elems@.len() <= usize::MAX,
        match ext_of(l[n].1) { None => y == x, Some(i) => y == x.push((z[i as int].id, turned(l[n].1))) },
    ensures under_way(m0, f, l, n + 1, y, by), f.elems@.len() == m.elems@.len() + l[n].1.n(), f.nodes@.len() == b.nodes@.len(), f.edges@.len() == b.edges@.len()
{
    let (c, h) = (l[n].0 as int, l[n].1);
    let (gm, g) = choose|gm: Mesh, g: Grid| #[trigger] wired(a, gm, b, c, plain(h), g, z);
    assert(pending(m, c, h) && spare(m) && shallow(m, c, 1));
    theorem_one(m, a, gm, b, f, c, h, g, v, z);
    if ext_of(h) is Some { ext_ready(m, a, gm, b, f, c, h, g, v, z, ext_of(h)->0 as int); }
    way_on(m0, m, f, l, n, x, y, by, k);
}
/// no extensions
pub proof fn no_exts(l: Seq<(usize, HRef)>, n: int, b: int)
    requires 0 <= n <= l.len(), forall|j: int| 0 <= j < n ==> ext_of((#[trigger] l[j]).1) is None
    ensures exts(l, n, b).len() == 0
    decreases n
{ if n > 0 { no_exts(l, n - 1, b); assert(l[n - 1] == l[n - 1]); } }
pub proof fn one_ext(l: Seq<(usize, HRef)>, n: int, b: int)
    requires 0 <= n <= l.len(), exts(l, n, b).len() > 0
    ensures exists|j: int| 0 <= j < n && ext_of((#[trigger] l[j]).1) is Some
    decreases n
{ if n > 0 { if ext_of(l[n - 1].1) is None { one_ext(l, n - 1, b); } else { assert(ext_of(l[n - 1].1) is Some); } } }
#[verifier::spinoff_prover]
pub proof fn way_done(m0: Mesh, m: Mesh, l: Seq<(usize, HRef)>, x: Seq<(usize, HRef)>, by: int)
    requires under_way(m0, m, l, l.len() as int, x, by)
    ensures whole(m), grown_by(m0, m, l, l.len() as int), x == exts(l, l.len() as int, m0.elems@.len() as int), x.len() <= l.len(), m.elems@.len() == m0.elems@.len() + before(l, l.len() as int), all_pending(m, x, 0),
        m.nodes@.len() <= m0.nodes@.len() + 5 * l.len(), m.edges@.len() <= m0.edges@.len() + 12 * l.len(), forall|j: int| 0 <= j < x.len() ==> shallow(m, (#[trigger] x[j]).0 as int, 1)
{ hide(whole); hide(all_pending); hide(shallow); }
/// ready for the extensions
pub proof fn again(m0: Mesh, m: Mesh, r: Seq<(usize, HRef)>, l: Seq<(usize, HRef)>, x: Seq<(usize, HRef)>)
    requires lists(l, r), batch_ok(m0, l, layers_of(r), r.len() as int), under_way(m0, m, l, l.len() as int, x, layers_of(r)), !tall(r) || room(m0, 2 * l.len() as int), x.len() > 0, all_pending(m0, l, 0)
    ensures tall(r), !tall(x), lawful(m, x), low(m, x), room(m, x.len() as int)
{
    let n = l.len() as int; let b = m0.elems@.len() as int;
    way_done(m0, m, l, x, layers_of(r));
    again_how(m0, r, l, x);
    before_up(l, n, n);
    again_ext(m0, l, x, n, b);
    all_valid(m, x);
}
#[verifier::spinoff_prover]
proof fn again_how(m0: Mesh, r: Seq<(usize, HRef)>, l: Seq<(usize, HRef)>, x: Seq<(usize, HRef)>)
    requires batch_ok(m0, l, layers_of(r), r.len() as int), x == exts(l, l.len() as int, m0.elems@.len() as int), x.len() > 0,
    ensures tall(r)
{ hide(tall); hide(shallow); hide(once); one_ext(l, l.len() as int, m0.elems@.len() as int); }
proof fn again_ext(m0: Mesh, l: Seq<(usize, HRef)>, x: Seq<(usize, HRef)>, n: int, b: int)
    requires all_pending(m0, l, 0), n == l.len(), x == exts(l, n, b), b >= 0, b + before(l, n) <= usize::MAX,
    ensures once(x), forall|i: int| 0 <= i < x.len() ==> ext_of((#[trigger] x[i]).1) is None
{
    assert forall|j: int| 0 <= j < l.len() implies (match ext_of((#[trigger] l[j]).1) { None => true, Some(i) => i < 2 }) by { ext_small(m0, l[j].0 as int, l[j].1); }
    exts_up(l, n, b);
}
/// the extensions done
pub proof fn no_more(m: Mesh, f: Mesh, x: Seq<(usize, HRef)>)
    requires !tall(x), refined_by(m, f, x)
    ensures carried_out(m, f, x)
{
    let (l, n) = choose|l: Seq<(usize, HRef)>, n: Mesh| #[trigger] in_full(m, n, f, l, x);
    let a = asked(x, x.len() as int);
    assert forall|j: int| 0 <= j < l.len() implies ext_of((#[trigger] l[j]).1) is None by { assert(a.dom().contains(l[j].0)); if ext_of(l[j].1) is Some { asked_ext(x, x.len() as int, l[j].0); } }
    no_exts(l, l.len() as int, m.elems@.len() as int);
}
pub proof fn began(a: Mesh, l: Seq<(usize, HRef)>, by: int, k: int)
    requires whole(a), batch_ok(a, l, by, k), all_pending(a, l, 0)
    ensures under_way(a, a, l, 0, Seq::<(usize, HRef)>::empty(), by)
{ grown_none(a, l); }
/// the edges of cells exist
pub proof fn cells_in(m: Mesh)
    requires whole(m)
    ensures net_ok(m), forall|d: int, k: int| 0 <= d < m.elems@.len() && 0 <= k < 4 ==> (#[trigger] m.elems@[d].edges@[k]) < m.edges@.len()
{ assert forall|d: int, k: int| 0 <= d < m.elems@.len() && 0 <= k < 4 implies (#[trigger] m.elems@[d].edges@[k]) < m.edges@.len() by { assert(cell_all(m, -1, d)); } }
/// a refinement that does not fit
pub proof fn unfit(m: Mesh, r: Seq<(usize, HRef)>, s: Seq<(usize, &HRef)>, j: int)
    requires listing_ref(s, asked(r, r.len() as int)), 0 <= j < s.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 < m.elems@.len()
    ensures s[j].0 < m.elems@.len(), !fits(m, s[j].0 as int, *s[j].1) ==> !lawful(m, r)
{
    let a = asked(r, r.len() as int);
    assert(a.dom().contains(s[j].0));
    theorem_asked(r, r.len() as int, s[j].0);
    let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == s[j].0;
    assert(r[i].0 < m.elems@.len());
    if lawful(m, r) { assert(pending(m, s[j].0 as int, a[s[j].0])); }
}
/// the next one can be done
pub proof fn way_ready(a: Mesh, m: Mesh, l: Seq<(usize, HRef)>, n: int, x: Seq<(usize, HRef)>, by: int, k: int)
    requires batch_ok(a, l, by, k), under_way(a, m, l, n, x, by), 0 <= n < l.len()
    ensures whole(m), pending(m, l[n].0 as int, l[n].1), spare(m), shallow(m, l[n].0 as int, 1), m.elems@[l[n].0 as int].children is None, m.elems@.len() + 4 <= usize::MAX, lv(m, l[n].0 as int).u < 255, lv(m, l[n].0 as int).v < 255
{ before_up(l, 0, n); before_up(l, n, l.len() as int); assert(l[n] == l[n]); cells_in(m); }
impl HRefError {
//@@ fn fem_domain/domain/mesh/h_refinement.rs From<MeshAccessError> for HRefError::from nopub
//@@ params err
//@@ abort false
        requires err is ElemDoesNotExist
        ensures r == HRefError::ElemDoesNotExist(err->ElemDoesNotExist_0)
//@@ endfn
}
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::execute_h_refinements opassign
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)] #[verifier::loop_isolation(false)]
//@@ params refinements
//@@ maps refinements_map
        requires whole(*old(self)), room(*old(self), layers_of(refinements@) * refinements@.len() as int), low(*old(self), refinements@)
        ensures match r { Err(_) => *final(self) == *old(self) && !lawful(*old(self), refinements@), Ok(_) => lawful(*old(self), refinements@) && whole(*final(self)) && activated(*final(self)) && refined_by(*old(self), *final(self), refinements@) }
        decreases layers_of(refinements@)
//@@ start
        hide(whole); hide(cell_ok); hide(fits); hide(lawful); hide(wired); hide(under_way); hide(batch_ok); hide(grown_by);  hide(listing_ref); hide(child_of);
        let ghost m0 = *self; let ghost r = refinements@; let ghost n = r.len() as int; let ghost l = bm_list(asked(r, n)); let ghost by = layers_of(r);
//@@ loop 0 take
        *self == m0, __hi0 == n, __s0@ == r.skip(__i0 as int), refinements_map@ == asked(r, __i0 as int), forall|i: int| 0 <= i < __i0 ==> (#[trigger] r[i]).0 < m0.elems@.len() && refineable(m0, r[i].0 as int),
//@@ loopstart 0
        proof { assert(__s0@[0] == r[__i0 as int]); cells_in(m0); if r[__i0 as int].0 >= m0.elems@.len() || !refineable(m0, r[__i0 as int].0 as int) { refused(m0, r, __i0 as int); } }
//@@ loopend 0
        proof { assert(refinements_map@ =~= asked(r, __i0 as int)); }
//@@ loop 1
        *self == m0, listing_ref(__s1@, asked(r, n)), forall|j: int| 0 <= j < __i1 ==> fits(m0, (#[trigger] __s1@[j]).0 as int, *__s1@[j].1),
//@@ loopstart 1
        proof { cells_in(m0); unfit(m0, r, __s1@, __i1 as int); }
//@@ loopafter 1
        proof { checked(m0, r, __s1@); }
//@@ loopbefore 2
        proof { sorted_batch(m0, r, l); began(m0, l, by, n); }
//@@ loop 2 take
        under_way(m0, *self, l, __i2 as int, refinement_extensions@, by), __hi2 == l.len(), __s2@ == l.skip(__i2 as int), elem_id_tracker == self.elems@.len(), in_step(*self, node_id_tracker, edge_id_tracker),
//@@ loopstart 2
        let ghost m = *self; let ghost x = refinement_extensions@; let ghost c = l[__i2 as int].0 as int; let ghost h = l[__i2 as int].1; let ghost i = __i2 as int;
        proof { assert(__s2@[0] == l[i]); way_ready(m0, m, l, i, x, by, n); }
//@@ before `let mut new_elems`
        let ghost a = *self; let ghost v = new_uninitialized_elems@;
        proof { assert(told(m, a, c)); assert(crib(m, a, c, h, v)) by { reveal(child_of); } exec_ready(m, a, c, h); kids_ready(m, a, c, h, v); ext_small(m, c, h); }
//@@ after `let mut new_elems`
        let ghost b = *self; let ghost z = new_elems@;
        proof { assert(delivered(m, a, b, c, h, v, z)); }
//@@ loop 3 take
        *self == (Mesh { elems: self.elems, ..b }), self.elems@ == b.elems@ + z.take(__i3 as int), __s3@ == z.skip(__i3 as int), __hi3 == z.len(),
//@@ loopend 3
        proof { assert(z.take(__i3 as int) =~= z.take(__i3 - 1).push(z[__i3 - 1])); }
//@@ loopafter 3
        proof { assert(z.take(__hi3 as int) =~= z); }
//@@ loopend 2
        proof { assert(self.elems.len() == self.elems@.len()); made_on(m0, m, a, b, *self, l, i, x, refinement_extensions@, by, n, v, z); }
//@@ before `if !refinement_extensions`
        let ghost m1 = *self; let ghost x = refinement_extensions@;
        proof { way_done(m0, m1, l, x, by); if x.len() > 0 { again(m0, m1, r, l, x); } }
//@@ before `self.set_edge_activation`
        let ghost m2 = *self;
        proof { theorem_whole(m2); if x.len() > 0 { no_more(m1, m2, x); } }
//@@ tail
        proof { act_whole(m2, *self); assert(in_full(m0, m1, *self, l, r)) by { if x.len() > 0 { assert(carried_out_too(m1, *self, x)); } } }
//@@ endfn
}
}
