verus! {
// ------------------------------------------------------------------ edges and the cells along them
/// the local place of an edge that lies on that side of it: cells on side 0 (below, left) have it as top or right edge
pub open spec fn faces(side: int, k: int) -> bool { if side == 0 { k == 1 || k == 3 } else { k == 0 || k == 2 } }
/// cell v lies along edge e on that side
pub open spec fn along_edge(m: Mesh, e: int, side: int, v: int) -> bool {
    0 <= v < m.elems@.len() && exists|k: int| 0 <= k < 4 && faces(side, k) && (#[trigger] m.elems@[v].edges@[k]) == e && (k < 2 <==> m.edges@[e].dir is U)
}
/// whatever is registered with an edge lies along it
pub open spec fn links_ok(m: Mesh) -> bool {
    forall|e: int, s: int, key: [u8; 2]| 0 <= e < m.edges@.len() && 0 <= s < 2 && #[trigger] m.edges@[e].elems@[s]@.dom().contains(key) ==> along_edge(m, e, s, m.edges@[e].elems@[s]@[key] as int)
}
/// nothing but the choice of active cells differs
pub open spec fn same_but_activation(a: Mesh, b: Mesh) -> bool {
    &&& a.elements == b.elements && a.elems == b.elems && a.nodes == b.nodes && a.edges@.len() == b.edges@.len()
    &&& forall|e: int| 0 <= e < a.edges@.len() ==> (#[trigger] b.edges@[e]) == (Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] })
}
/// the active pair lies along the edge on its two sides
pub open spec fn pairs_ok(m: Mesh) -> bool {
    forall|e: int| 0 <= e < m.edges@.len() ==> match (#[trigger] m.edges@[e]).active_elems { Some(p) => along_edge(m, e, 0, p@[0] as int) && along_edge(m, e, 1, p@[1] as int), None => true }
}
// ------------------------------------------------------------------ activation
/// the greatest key
pub open spec fn top_key(m: Map<[u8; 2], usize>, k: [u8; 2]) -> bool { m.dom().contains(k) && forall|j: [u8; 2]| #[trigger] m.dom().contains(j) ==> j == k || <[u8; 2]>::klt(j, k) }
/// the most refined cell registered
pub open spec fn finest(m: Map<[u8; 2], usize>, v: int) -> bool { exists|k: [u8; 2]| #[trigger] top_key(m, k) && m[k] == v }
/// both sides carry cells
pub open spec fn usable(m: Mesh, e: int) -> bool { m.edges@[e].elems@[0]@ != Map::<[u8; 2], usize>::empty() && m.edges@[e].elems@[1]@ != Map::<[u8; 2], usize>::empty() }
pub open spec fn halves_usable(m: Mesh, e: int) -> bool { match m.edges@[e].children { Some(c) => usable(m, c@[0] as int) && usable(m, c@[1] as int), None => false } }
/// which choice of active cells is right for an edge
pub open spec fn chosen(m: Mesh, e: int, o: Option<[usize; 2]>) -> bool {
    match o {
        None => !usable(m, e) || halves_usable(m, e),
        Some(p) => usable(m, e) && !halves_usable(m, e) && finest(m.edges@[e].elems@[0]@, p@[0] as int) && finest(m.edges@[e].elems@[1]@, p@[1] as int),
    }
}
/// cells along the two halves of an edge come in pairs, and only where the edge has cells on both sides
pub open spec fn live_ok(m: Mesh) -> bool {
    &&& forall|e: int| 0 <= e < m.edges@.len() ==> (#[trigger] m.edges@[e]).id == e
    &&& forall|e: int| 0 <= e < m.edges@.len() && (#[trigger] m.edges@[e]).parent is None ==> m.edges@[e].boundary == !usable(m, e)
    &&& forall|e: int| 0 <= e < m.edges@.len() && (#[trigger] m.edges@[e]).children is Some ==> {
        let c = m.edges@[e].children->0;
        c@[0] < m.edges@.len() && c@[1] < m.edges@.len() && usable(m, c@[0] as int) == usable(m, c@[1] as int) && (usable(m, c@[0] as int) ==> usable(m, e)) }
}
/// the activation is the right one
pub open spec fn activated(m: Mesh) -> bool { forall|e: int| 0 <= e < m.edges@.len() ==> chosen(m, e, (#[trigger] m.edges@[e]).active_elems) }
pub open spec fn at_or_under(m: Mesh, e: int, d: int) -> bool { d == e || edge_tree(m).under(e, d) }
/// the subtree of e has been decided, the rest is as it was
pub open spec fn decided(a: Mesh, b: Mesh, e: int) -> bool {
    forall|d: int| 0 <= d < a.edges@.len() ==> if at_or_under(a, e, d) { chosen(a, d, (#[trigger] b.edges@[d]).active_elems) } else { b.edges@[d].active_elems == a.edges@[d].active_elems }
}
pub open spec fn idle(m: Mesh, e: int) -> bool { forall|d: int| 0 <= d < m.edges@.len() && at_or_under(m, e, d) ==> (#[trigger] m.edges@[d]).active_elems is None }
pub proof fn same_tree(a: Mesh, b: Mesh)
    requires same_but_activation(a, b)
    ensures edge_tree(a) == edge_tree(b), forall|e: int| 0 <= e < a.edges@.len() ==> #[trigger] usable(a, e) == usable(b, e)
{
    let (s, t) = (edge_tree(a), edge_tree(b));
    assert(s.par =~= t.par);
    assert(s.kids =~= t.kids);
}
pub proof fn same_rest(a: Mesh, b: Mesh)
    requires same_but_activation(a, b), live_ok(a), edge_tree(a).ok()
    ensures live_ok(b), edge_tree(b) == edge_tree(a), still(a, b)
{
    same_tree(a, b);
    assert forall|e: int| 0 <= e < b.edges@.len() implies (#[trigger] b.edges@[e]).id == e && (b.edges@[e].parent is None ==> b.edges@[e].boundary == !usable(b, e)) by { let x = a.edges@[e]; assert(usable(a, e) == usable(b, e)); }
    assert forall|e: int| 0 <= e < b.edges@.len() && (#[trigger] b.edges@[e]).children is Some implies {
        let c = b.edges@[e].children->0;
        c@[0] < b.edges@.len() && c@[1] < b.edges@.len() && usable(b, c@[0] as int) == usable(b, c@[1] as int) && (usable(b, c@[0] as int) ==> usable(b, e)) } by {
        let x = a.edges@[e]; let c = x.children->0; assert(usable(a, e) == usable(b, e)); assert(usable(a, c@[0] as int) == usable(b, c@[0] as int)); assert(usable(a, c@[1] as int) == usable(b, c@[1] as int));
    }
    assert forall|e: int, o: Option<[usize; 2]>| 0 <= e < a.edges@.len() implies #[trigger] chosen(a, e, o) == chosen(b, e, o) by {
        let x = a.edges@[e]; let y = b.edges@[e]; assert(usable(a, e) == usable(b, e));
        if x.children is Some { let c = x.children->0; assert(usable(a, c@[0] as int) == usable(b, c@[0] as int)); assert(usable(a, c@[1] as int) == usable(b, c@[1] as int)); }
    }
}
pub open spec fn still(a: Mesh, b: Mesh) -> bool {
    &&& forall|e: int| 0 <= e < a.edges@.len() ==> #[trigger] usable(a, e) == usable(b, e)
    &&& forall|e: int, o: Option<[usize; 2]>| 0 <= e < a.edges@.len() ==> #[trigger] chosen(a, e, o) == chosen(b, e, o)
}
/// what lies below an edge without halves, and below one with halves
pub proof fn no_halves(m: Mesh, e: int)
    requires edge_tree(m).ok(), 0 <= e < m.edges@.len(), m.edges@[e].children is None
    ensures forall|d: int| at_or_under(m, e, d) <==> d == e
{ assert forall|d: int| at_or_under(m, e, d) <==> d == e by { edge_tree(m).split(e, d); } }
pub proof fn two_halves(m: Mesh, e: int)
    requires edge_tree(m).ok(), 0 <= e < m.edges@.len(), m.edges@[e].children is Some
    ensures ({ let c = m.edges@[e].children->0; let (a, b) = (c@[0] as int, c@[1] as int);
        &&& e < a < m.edges@.len() && e < b < m.edges@.len()
        &&& forall|d: int| #[trigger] at_or_under(m, e, d) <==> d == e || at_or_under(m, a, d) || at_or_under(m, b, d)
        &&& forall|d: int| !(#[trigger] at_or_under(m, a, d) && #[trigger] at_or_under(m, b, d))
        &&& !at_or_under(m, a, e) && !at_or_under(m, b, e) })
{
    let t = edge_tree(m);
    let s = (t.kids)(e);
    let c = m.edges@[e].children->0; let (a, b) = (c@[0] as int, c@[1] as int);
    assert(s == c@);
    assert(s.len() == 2);
    assert(s[0] as int == a && s[1] as int == b);
    assert(e < s[0] < t.n && e < s[1] < t.n);
    assert forall|d: int| #[trigger] at_or_under(m, e, d) <==> d == e || at_or_under(m, a, d) || at_or_under(m, b, d) by {
        t.split(e, d);
        if t.part(e, 2, d) { let j = choose|j: int| 0 <= j < 2 && (#[trigger] s[j] == d || t.under(s[j] as int, d)); assert(j == 0 || j == 1); }
        if at_or_under(m, a, d) { assert(s[0] == d || t.under(s[0] as int, d)); }
        if at_or_under(m, b, d) { assert(s[1] == d || t.under(s[1] as int, d)); }
    }
    assert forall|d: int| !(#[trigger] at_or_under(m, a, d) && #[trigger] at_or_under(m, b, d)) by { if at_or_under(m, a, d) { t.apart(e, 0, 1, d); } }
    if t.under(a, e) { t.above(a, e); }
    if t.under(b, e) { t.above(b, e); }
}
/// below an edge without cells on both sides there is none with cells on both sides
pub proof fn dead(m: Mesh, e: int, d: int)
    requires edge_tree(m).ok(), live_ok(m), 0 <= e < m.edges@.len(), !usable(m, e), edge_tree(m).under(e, d)
    ensures !usable(m, d)
    decreases d
{
    let t = edge_tree(m);
    t.above(e, d);
    let p = (t.par)(d)->0;
    assert((t.par)(d) is Some);
    assert((t.kids)(p).contains(d as usize));
    let c = m.edges@[p].children->0;
    assert((t.kids)(p) == c@);
    let k = c@.index_of(d as usize);
    assert(c@[k] == d as usize);
    assert(k == 0 || k == 1);
    if p != e { dead(m, e, p); }
}
/// every edge belongs to exactly one base edge
pub open spec fn root(m: Mesh, d: int) -> int decreases d { match (edge_tree(m).par)(d) { Some(p) => if 0 <= p < d { root(m, p) } else { d }, None => d } }
pub proof fn rooted(m: Mesh, d: int)
    requires edge_tree(m).ok(), 0 <= d < m.edges@.len()
    ensures 0 <= root(m, d) <= d, m.edges@[root(m, d)].parent is None, at_or_under(m, root(m, d), d)
    decreases d
{ if m.edges@[d].parent is Some { let p = m.edges@[d].parent->0 as int; assert((edge_tree(m).par)(d) == Some(p)); rooted(m, p); } }
pub proof fn one_root(m: Mesh, r: int, d: int)
    requires edge_tree(m).ok(), 0 <= r < m.edges@.len(), m.edges@[r].parent is None, at_or_under(m, r, d), 0 <= d < m.edges@.len()
    ensures r == root(m, d)
    decreases d
{ if d != r { edge_tree(m).above(r, d); let p = (edge_tree(m).par)(d)->0; assert((edge_tree(m).par)(d) is Some); assert(0 <= p < d); assert(root(m, d) == root(m, p)); if p != r { one_root(m, r, p); } else { assert((edge_tree(m).par)(r) is None); assert(root(m, r) == r); } } }
/// the trees of the first i base edges have been decided
pub open spec fn progress(a: Mesh, b: Mesh, l: Seq<usize>, i: int) -> bool {
    &&& same_but_activation(a, b)
    &&& forall|d: int| 0 <= d < a.edges@.len() ==> if l.take(i).contains(root(a, d) as usize) { chosen(a, d, (#[trigger] b.edges@[d]).active_elems) } else { b.edges@[d].active_elems is None }
}
pub proof fn take_one(l: Seq<usize>, i: int, q: usize)
    requires 0 <= i < l.len()
    ensures l.take(i + 1).contains(q) == (l.take(i).contains(q) || l[i] == q)
{
    if l.take(i).contains(q) { let k = l.take(i).index_of(q); assert(l.take(i + 1)[k] == q); }
    if l.take(i + 1).contains(q) { let k = l.take(i + 1).index_of(q); if k < i { assert(l.take(i)[k] == q); } }
    if l[i] == q { assert(l.take(i + 1)[i] == q); }
}
pub proof fn next_base(a: Mesh, b: Mesh, c: Mesh, l: Seq<usize>, i: int)
    requires edge_tree(a).ok(), live_ok(a), progress(a, b, l, i), 0 <= i < l.len(), l[i] < a.edges@.len(), a.edges@[l[i] as int].parent is None,
        same_but_activation(b, c), decided(b, c, l[i] as int),
    ensures progress(a, c, l, i + 1)
{
    hide(Tree::ok); hide(live_ok); hide(chosen); hide(usable); hide(same_but_activation);
    assert(same_but_activation(a, b));
    same_rest(a, b);
    same_both(a, b, c);
    let r = l[i] as int;
    same_len(a, b); same_len(b, c);
    assert forall|d: int| 0 <= d < a.edges@.len() implies if l.take(i + 1).contains(root(a, d) as usize) { chosen(a, d, (#[trigger] c.edges@[d]).active_elems) } else { c.edges@[d].active_elems is None } by {
        rooted(a, d);
        assert(a.edges.len() == a.edges@.len());
        assert(root(a, d) as usize == root(a, d));
        let (x, y) = (b.edges@[d].active_elems, c.edges@[d].active_elems);
        let q = root(a, d) as usize;
        take_one(l, i, q);
        if at_or_under(b, r, d) { assert(at_or_under(a, r, d)); one_root(a, r, d); assert(chosen(b, d, y)); assert(chosen(a, d, y) == chosen(b, d, y)); }
        else { assert(!at_or_under(a, r, d)); assert(y == x); }
    }
}
pub proof fn base_usable(m: Mesh, l: Seq<usize>, i: int)
    requires live_ok(m), bases(m, l, m.edges@.len() as int), 0 <= i < l.len()
    ensures usable(m, l[i] as int), m.edges@[l[i] as int].id == l[i]
{ let r = l[i] as int; assert(l[i] < m.edges@.len()); }
pub proof fn same_len(a: Mesh, b: Mesh) requires same_but_activation(a, b) ensures a.edges@.len() == b.edges@.len() { }
pub proof fn idle_base(a: Mesh, b: Mesh, l: Seq<usize>, i: int)
    requires edge_tree(a).ok(), live_ok(a), progress(a, b, l, i), 0 <= i < l.len(), l[i] < a.edges@.len(), a.edges@[l[i] as int].parent is None,
        forall|j: int, k: int| 0 <= j < k < l.len() ==> l[j] < l[k]
    ensures idle(b, l[i] as int)
{
    same_rest(a, b);
    assert forall|d: int| 0 <= d < b.edges@.len() && at_or_under(b, l[i] as int, d) implies (#[trigger] b.edges@[d]).active_elems is None by {
        one_root(a, l[i] as int, d);
        if l.take(i).contains(root(a, d) as usize) { let k = l.take(i).index_of(l[i]); assert(l.take(i)[k] == l[k]); }
    }
}
/// the base edges within the domain
pub open spec fn bases(m: Mesh, l: Seq<usize>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j] < n && m.edges@[l[j] as int].parent is None && !m.edges@[l[j] as int].boundary
    &&& forall|j: int, k: int| 0 <= j < k < l.len() ==> l[j] < l[k]
    &&& forall|r: int| 0 <= r < n && (#[trigger] m.edges@[r]).parent is None && !m.edges@[r].boundary ==> l.contains(r as usize)
}
pub proof fn finished(a: Mesh, b: Mesh, l: Seq<usize>)
    requires edge_tree(a).ok(), live_ok(a), links_ok(a), progress(a, b, l, l.len() as int), bases(a, l, a.edges@.len() as int)
    ensures activated(b), pairs_ok(b), links_ok(b), live_ok(b), edge_tree(b).ok()
{
    same_rest(a, b);
    assert(l.take(l.len() as int) =~= l);
    assert forall|d: int| 0 <= d < b.edges@.len() implies chosen(b, d, (#[trigger] b.edges@[d]).active_elems) by {
        rooted(a, d);
        let r = root(a, d);
        let x = a.edges@[d];
        if a.edges@[r].boundary { assert(!usable(a, r)); if d != r { dead(a, r, d); } assert(!l.contains(r as usize)); assert(chosen(a, d, b.edges@[d].active_elems)); } else { assert(l.contains(r as usize)); }
        assert(chosen(a, d, b.edges@[d].active_elems));
    }
    same_links(a, b);
    assert forall|e: int| 0 <= e < b.edges@.len() implies match (#[trigger] b.edges@[e]).active_elems { Some(p) => along_edge(b, e, 0, p@[0] as int) && along_edge(b, e, 1, p@[1] as int), None => true } by {
        assert(chosen(b, e, b.edges@[e].active_elems));
        if let Some(p) = b.edges@[e].active_elems {
            let k = choose|k: [u8; 2]| #[trigger] top_key(b.edges@[e].elems@[0]@, k) && b.edges@[e].elems@[0]@[k] == p@[0];
            assert(b.edges@[e].elems@[0]@.dom().contains(k));
            let j = choose|k: [u8; 2]| #[trigger] top_key(b.edges@[e].elems@[1]@, k) && b.edges@[e].elems@[1]@[k] == p@[1];
            assert(b.edges@[e].elems@[1]@.dom().contains(j));
        }
    }
}
pub proof fn same_links(a: Mesh, b: Mesh)
    requires links_ok(a), same_but_activation(a, b)
    ensures links_ok(b)
{
    assert forall|e: int, s: int, key: [u8; 2]| 0 <= e < b.edges@.len() && 0 <= s < 2 && #[trigger] b.edges@[e].elems@[s]@.dom().contains(key) implies along_edge(b, e, s, b.edges@[e].elems@[s]@[key] as int) by {
        let x = a.edges@[e]; let y = b.edges@[e];
        assert(a.edges@[e].elems@[s]@.dom().contains(key));
        let v = a.edges@[e].elems@[s]@[key] as int;
        assert(along_edge(a, e, s, v));
        let k = choose|k: int| 0 <= k < 4 && faces(s, k) && (#[trigger] a.elems@[v].edges@[k]) == e && (k < 2 <==> a.edges@[e].dir is U);
        assert(b.elems@[v].edges@[k] == e);
    }
}
/// the active edges at or below e cut it into pieces without overlap: e itself is the piece, or each of its halves is cut up so
pub open spec fn cut_up(m: Mesh, e: int) -> bool
    decreases m.edges@.len() - e
{
    &&& 0 <= e < m.edges@.len()
    &&& match m.edges@[e].active_elems {
        Some(_) => forall|d: int| 0 <= d < m.edges@.len() && edge_tree(m).under(e, d) ==> (#[trigger] m.edges@[d]).active_elems is None,
        None => match m.edges@[e].children { Some(c) => e < c@[0] < m.edges@.len() && e < c@[1] < m.edges@.len() && cut_up(m, c@[0] as int) && cut_up(m, c@[1] as int), None => false },
    }
}
/// exactly the usable edges are cut up into active ones
pub proof fn theorem_partition(m: Mesh, e: int)
    requires activated(m), live_ok(m), edge_tree(m).ok(), 0 <= e < m.edges@.len(), usable(m, e)
    ensures cut_up(m, e)
    decreases m.edges@.len() - e
{
    assert(chosen(m, e, m.edges@[e].active_elems));
    if m.edges@[e].active_elems is None {
        two_halves(m, e);
        let c = m.edges@[e].children->0;
        theorem_partition(m, c@[0] as int);
        theorem_partition(m, c@[1] as int);
    } else {
        assert forall|d: int| 0 <= d < m.edges@.len() && edge_tree(m).under(e, d) implies (#[trigger] m.edges@[d]).active_elems is None by { below_active(m, e, d); }
    }
}
pub proof fn below_active(m: Mesh, e: int, d: int)
    requires activated(m), live_ok(m), edge_tree(m).ok(), 0 <= e < m.edges@.len(), 0 <= d < m.edges@.len(), m.edges@[e].active_elems is Some, edge_tree(m).under(e, d)
    ensures m.edges@[d].active_elems is None
{
    assert(chosen(m, e, m.edges@[e].active_elems));
    assert(chosen(m, d, m.edges@[d].active_elems));
    if m.edges@[e].children is None { no_halves(m, e); edge_tree(m).above(e, d); assert(at_or_under(m, e, d)); }
    else {
        two_halves(m, e);
        let c = m.edges@[e].children->0;
        assert(!usable(m, c@[0] as int) && !usable(m, c@[1] as int));
        edge_tree(m).above(e, d);
        assert(at_or_under(m, e, d));
        if at_or_under(m, c@[0] as int, d) { if d != c@[0] { dead(m, c@[0] as int, d); } } else { if d != c@[1] { dead(m, c@[1] as int, d); } }
    }
}
/// there is only one right choice: computing it anew changes nothing
pub proof fn theorem_recompute(a: Mesh, b: Mesh)
    requires activated(a), activated(b), same_but_activation(a, b), live_ok(a), edge_tree(a).ok()
    ensures forall|e: int| 0 <= e < a.edges@.len() ==> #[trigger] b.edges@[e] == a.edges@[e]
{
    same_rest(a, b);
    assert forall|e: int| 0 <= e < a.edges@.len() implies #[trigger] b.edges@[e] == a.edges@[e] by {
        let (x, y) = (a.edges@[e], b.edges@[e]);
        assert(chosen(a, e, x.active_elems) && chosen(b, e, y.active_elems));
        assert(chosen(a, e, y.active_elems));
        if let Some(p) = x.active_elems { let q = y.active_elems->0; one_finest(x.elems@[0]@, p@[0] as int, q@[0] as int); one_finest(x.elems@[1]@, p@[1] as int, q@[1] as int); assert(p@ =~= q@); assert(p =~= q); }
    }
}
pub proof fn one_finest(m: Map<[u8; 2], usize>, v: int, w: int)
    requires finest(m, v), finest(m, w)
    ensures v == w
{
    let j = choose|k: [u8; 2]| #[trigger] top_key(m, k) && m[k] == v;
    let k = choose|k: [u8; 2]| #[trigger] top_key(m, k) && m[k] == w;
    assert(m.dom().contains(j) && m.dom().contains(k));
}
/// b is a but for the active cells of edge e
pub open spec fn set_at(a: Mesh, b: Mesh, e: int) -> bool {
    &&& a.elements == b.elements && a.elems == b.elems && a.nodes == b.nodes && 0 <= e < a.edges@.len()
    &&& b.edges@ =~= a.edges@.update(e, Edge { active_elems: b.edges@[e].active_elems, ..a.edges@[e] })
}
pub proof fn same_both(a: Mesh, b: Mesh, c: Mesh)
    requires same_but_activation(a, b), same_but_activation(b, c)
    ensures same_but_activation(a, c)
{ assert forall|e: int| 0 <= e < a.edges@.len() implies (#[trigger] c.edges@[e]) == (Edge { active_elems: c.edges@[e].active_elems, ..a.edges@[e] }) by { let x = b.edges@[e]; } }
pub proof fn first_step(a: Mesh, b: Mesh, e: int)
    requires edge_tree(a).ok(), live_ok(a), idle(a, e), set_at(a, b, e)
    ensures same_but_activation(a, b), live_ok(b), edge_tree(b) == edge_tree(a), still(a, b),
        b.edges@[e].children == a.edges@[e].children,
        b.edges@[e].children is Some ==> ({ let c = b.edges@[e].children->0; e < c@[0] < b.edges@.len() && e < c@[1] < b.edges@.len() && idle(b, c@[0] as int) && idle(b, c@[1] as int) }),
        (!usable(a, e) || a.edges@[e].children is None) && chosen(a, e, b.edges@[e].active_elems) ==> decided(a, b, e),
{
    assert(same_but_activation(a, b));
    same_rest(a, b);
    if a.edges@[e].children is Some { two_halves(a, e); } else { no_halves(a, e); }
    if b.edges@[e].children is Some {
        let c = b.edges@[e].children->0;
        assert forall|d: int| 0 <= d < b.edges@.len() && at_or_under(b, c@[0] as int, d) implies (#[trigger] b.edges@[d]).active_elems is None by { assert(at_or_under(a, c@[0] as int, d)); assert(at_or_under(a, e, d)); let x = a.edges@[d]; }
        assert forall|d: int| 0 <= d < b.edges@.len() && at_or_under(b, c@[1] as int, d) implies (#[trigger] b.edges@[d]).active_elems is None by { assert(at_or_under(a, c@[1] as int, d)); assert(at_or_under(a, e, d)); let x = a.edges@[d]; }
    }
    if (!usable(a, e) || a.edges@[e].children is None) && chosen(a, e, b.edges@[e].active_elems) {
        assert forall|d: int| 0 <= d < a.edges@.len() implies if at_or_under(a, e, d) { chosen(a, d, (#[trigger] b.edges@[d]).active_elems) } else { b.edges@[d].active_elems == a.edges@[d].active_elems } by {
            let x = a.edges@[d];
            if at_or_under(a, e, d) && d != e { dead(a, e, d); }
        }
    }
}
pub proof fn second_step(a: Mesh, b: Mesh, c: Mesh, e: int)
    requires edge_tree(a).ok(), live_ok(a), idle(a, e), set_at(a, b, e), a.edges@[e].children is Some,
        same_but_activation(b, c), decided(b, c, a.edges@[e].children->0@[0] as int)
    ensures live_ok(c), edge_tree(c) == edge_tree(a), still(a, c), idle(c, a.edges@[e].children->0@[1] as int), a.edges@[e].children->0@[1] < c.edges@.len()
{
    first_step(a, b, e);
    same_rest(b, c);
    two_halves(a, e);
    let k = a.edges@[e].children->0;
    assert forall|o: Option<[usize; 2]>, d: int| 0 <= d < a.edges@.len() implies #[trigger] chosen(a, d, o) == chosen(c, d, o) by { assert(chosen(a, d, o) == chosen(b, d, o)); }
    assert forall|d: int| 0 <= d < a.edges@.len() implies #[trigger] usable(a, d) == usable(c, d) by { assert(usable(a, d) == usable(b, d)); }
    assert forall|d: int| 0 <= d < c.edges@.len() && at_or_under(c, k@[1] as int, d) implies (#[trigger] c.edges@[d]).active_elems is None by {
        assert(at_or_under(a, k@[1] as int, d));
        assert(!at_or_under(a, k@[0] as int, d));
        assert(!at_or_under(b, k@[0] as int, d));
        assert(at_or_under(b, k@[1] as int, d));
        let x = b.edges@[d];
    }
}
pub proof fn third_step(a: Mesh, b: Mesh, c: Mesh, f: Mesh, e: int)
    requires edge_tree(a).ok(), live_ok(a), idle(a, e), set_at(a, b, e), a.edges@[e].children is Some,
        same_but_activation(b, c), decided(b, c, a.edges@[e].children->0@[0] as int),
        same_but_activation(c, f), decided(c, f, a.edges@[e].children->0@[1] as int)
    ensures same_but_activation(a, f), live_ok(f), edge_tree(f) == edge_tree(a), still(a, f), f.edges@[e].active_elems == b.edges@[e].active_elems,
        halves_decided(a, f, e), chosen(a, e, f.edges@[e].active_elems) ==> decided(a, f, e),
        usable(a, a.edges@[e].children->0@[0] as int) == usable(a, a.edges@[e].children->0@[1] as int),
        usable(b, a.edges@[e].children->0@[0] as int) == usable(a, a.edges@[e].children->0@[0] as int),
        usable(c, a.edges@[e].children->0@[1] as int) == usable(a, a.edges@[e].children->0@[1] as int),
{
    first_step(a, b, e);
    second_step(a, b, c, e);
    same_both(a, b, c);
    same_both(a, c, f);
    same_rest(a, f);
    two_halves(a, e);
    let k = a.edges@[e].children->0;
    let (p, q) = (k@[0] as int, k@[1] as int);
    assert(usable(a, p) == usable(b, p));
    assert(usable(a, q) == usable(c, q));
    assert forall|d: int| 0 <= d < a.edges@.len() implies if at_or_under(a, e, d) && d != e { chosen(a, d, (#[trigger] f.edges@[d]).active_elems) } else if d != e { f.edges@[d].active_elems == a.edges@[d].active_elems } else { f.edges@[d].active_elems == b.edges@[d].active_elems } by {
        let (x, y, z) = (a.edges@[d], b.edges@[d], c.edges@[d]);
        assert(at_or_under(a, p, d) == at_or_under(b, p, d));
        assert(at_or_under(a, q, d) == at_or_under(c, q, d));
        if at_or_under(a, p, d) { assert(!at_or_under(a, q, d)); assert(chosen(b, d, z.active_elems) == chosen(a, d, z.active_elems)); }
        if at_or_under(a, q, d) { assert(chosen(c, d, f.edges@[d].active_elems) == chosen(a, d, f.edges@[d].active_elems)); }
    }
}
/// everything below e is decided
pub open spec fn halves_decided(a: Mesh, b: Mesh, e: int) -> bool {
    forall|d: int| 0 <= d < a.edges@.len() && d != e ==> if at_or_under(a, e, d) { chosen(a, d, (#[trigger] b.edges@[d]).active_elems) } else { b.edges@[d].active_elems == a.edges@[d].active_elems }
}
pub proof fn last_step(a: Mesh, f: Mesh, g: Mesh, e: int)
    requires same_but_activation(a, f), halves_decided(a, f, e), set_at(f, g, e), chosen(a, e, g.edges@[e].active_elems)
    ensures same_but_activation(a, g), decided(a, g, e)
{
    assert(same_but_activation(f, g));
    same_both(a, f, g);
    assert forall|d: int| 0 <= d < a.edges@.len() implies if at_or_under(a, e, d) { chosen(a, d, (#[trigger] g.edges@[d]).active_elems) } else { g.edges@[d].active_elems == a.edges@[d].active_elems } by { let x = f.edges@[d]; }
}
impl Edge {
//@@ fn fem_domain/domain/mesh/edge.rs Edge::active_elem_pair
        ensures r == self.active_elems
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::last_entry
//@@ params side_idx
        requires side_idx < 2
        ensures match r { None => self.elems@[side_idx as int]@ == Map::<[u8; 2], usize>::empty(), Some(v) => finest(self.elems@[side_idx as int]@, v as int) }
//@@ maps elems
//@@ acc 0 Option<(&[u8; 2], &usize)>
//@@ loop 0
        __a0 is None ==> __i0 == __hi0,
        match __a0 { Some(x) => __i0 + 1 == __hi0 && *x.1 == *__s0@[__i0 as int].1, None => true },
//@@ loopafter 0
        proof {
            let m = self.elems@[side_idx as int]@;
            if __hi0 == 0 { assert forall|k: [u8; 2]| !#[trigger] m.dom().contains(k) by { }  assert(m.dom() =~= Set::empty()); assert(m =~= Map::empty()); }
            else {
                let k = *__s0@[__hi0 - 1].0;
                assert(m.dom().contains(k));
                assert(top_key(m, k)) by {
                    assert forall|j: [u8; 2]| #[trigger] m.dom().contains(j) implies j == k || <[u8; 2]>::klt(j, k) by {
                        let i = choose|i: int| 0 <= i < __s0@.len() && *(#[trigger] __s0@[i]).0 == j;
                        if i < __hi0 - 1 { assert(<[u8; 2]>::klt(*__s0@[i].0, *__s0@[__hi0 - 1].0)); }
                    }
                }
            }
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::set_activation
        ensures *final(self) == (Edge { active_elems: final(self).active_elems, ..*old(self) }),
            r == (old(self).elems@[0]@ != Map::<[u8; 2], usize>::empty() && old(self).elems@[1]@ != Map::<[u8; 2], usize>::empty()),
            match final(self).active_elems { None => !r, Some(p) => r && finest(old(self).elems@[0]@, p@[0] as int) && finest(old(self).elems@[1]@, p@[1] as int) }
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::reset_activation
        ensures *final(self) == (Edge { active_elems: None, ..*old(self) })
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::is_boundary
        ensures r == (self.elems@[0]@ == Map::<[u8; 2], usize>::empty() || self.elems@[1]@ == Map::<[u8; 2], usize>::empty())
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::other_active_elem_id
//@@ params elem_id
//@@ abort self.active_elems is Some && self.active_elems->0@[0] != elem_id && self.active_elems->0@[1] != elem_id
        ensures match self.active_elems { None => r is None, Some(p) => (p@[0] == elem_id ==> r == Some(p@[1])) && (p@[0] != elem_id ==> p@[1] == elem_id && r == Some(p@[0])) }
//@@ loop 0
        __a0 is None ==> forall|k: int| 0 <= k < __i0 ==> (#[trigger] active_elem_ids@[k]) != elem_id,
        __a0 is Some ==> __a0->0 < 2 && active_elem_ids@[__a0->0 as int] == elem_id && forall|k: int| 0 <= k < __a0->0 ==> (#[trigger] active_elem_ids@[k]) != elem_id,
//@@ endfn
}
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::rec_set_edge_activation_in_tree hoist
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
//@@ params edge_id
        requires edge_tree(*old(self)).ok(), live_ok(*old(self)), edge_id < old(self).edges@.len(), idle(*old(self), edge_id as int)
        ensures same_but_activation(*old(self), *final(self)), r == usable(*old(self), edge_id as int), decided(*old(self), *final(self), edge_id as int)
        decreases old(self).edges@.len() - edge_id
//@@ start
        hide(same_but_activation); hide(live_ok); hide(decided); hide(halves_decided); hide(idle); hide(at_or_under); hide(still); hide(Tree::ok);
        let ghost m0 = *self;
//@@ before `if let Some(child_edge_ids)`
        let ghost m1 = *self;
        proof { first_step(m0, m1, edge_id as int); }
//@@ before `self.rec_set_edge_activation_in_tree(child_edge_ids[1])`
        let ghost m2 = *self;
        proof { second_step(m0, m1, m2, edge_id as int); }
//@@ before `match (`
        let ghost m3 = *self;
        proof { third_step(m0, m1, m2, m3, edge_id as int); }
//@@ after `match (`
        proof { if m3.edges@ != self.edges@ { last_step(m0, m3, *self, edge_id as int); } }
//@@ tail
        proof { if !__r { first_step(m0, *self, edge_id as int); } }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::set_edge_activation
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
        requires links_ok(*old(self)), edge_tree(*old(self)).ok(), live_ok(*old(self))
        ensures same_but_activation(*old(self), *final(self)), pairs_ok(*final(self)), activated(*final(self)),
            links_ok(*final(self)), live_ok(*final(self)), edge_tree(*final(self)).ok()
//@@ start
        hide(Tree::ok); hide(chosen); hide(usable); hide(links_ok); hide(at_or_under);
        let ghost m0 = *self;
//@@ loop 0
        same_but_activation(m0, *self), __hi0 == m0.edges@.len(),
        forall|e: int| 0 <= e < __i0 ==> (#[trigger] self.edges@[e]).active_elems is None,
//@@ loop 1
        __hi1 == m0.edges@.len(), bases(m0, __a1@, __i1 as int), live_ok(m0),
//@@ loopstart 1
        let ghost l0 = __a1@;
        proof { assert(self.edges@[__i1 as int] == (Edge { active_elems: self.edges@[__i1 as int].active_elems, ..m0.edges@[__i1 as int] })); }
//@@ loopend 1
        proof {
            assert forall|r: int| 0 <= r < __i1 && (#[trigger] m0.edges@[r]).parent is None && !m0.edges@[r].boundary implies __a1@.contains(r as usize) by {
                if r < __i1 - 1 { assert(l0.contains(r as usize)); let k = l0.index_of(r as usize); assert(__a1@[k] == r as usize); } else { assert(__a1@[l0.len() as int] == r as usize); }
            }
        }
//@@ loop 2
        bases(m0, __s2@, m0.edges@.len() as int), progress(m0, *self, __s2@, __i2 as int), live_ok(m0), edge_tree(m0).ok(),
//@@ loopstart 2
        let ghost m1 = *self;
        proof { same_rest(m0, m1); idle_base(m0, m1, __s2@, __i2 as int); base_usable(m0, __s2@, __i2 as int); }
//@@ loopend 2
        proof { next_base(m0, m1, *self, __s2@, __i2 - 1); }
//@@ loopafter 2
        proof { finished(m0, *self, __s2@); }
//@@ endfn
}
}
