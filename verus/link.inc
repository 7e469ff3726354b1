verus! {
// ------------------------------------------------------------------ from a whole mesh to a domain to the assembly
/// a cell of the initial mesh: a rectangle with its corners in order, of a material that can be integrated
pub open spec fn sound_start<AI: HierCurlIntegral, BI: HierCurlIntegral>(m: Mesh) -> bool {
    forall|c: int| 0 <= c < m.elems@.len() && (#[trigger] m.elems@[c]).ancestors@.len() == 0 ==> sound_cell::<AI, BI>(m.elems@[c])
}
/// a whole mesh is a mesh Domain::from_mesh accepts
pub proof fn theorem_acceptable(m: Mesh)
    requires whole(m)
    ensures links_ok(m), live_ok(m), edge_tree(m).ok(), elem_tree(m).ok(), ids_ok(m), cells_ok(m), edges_in(m), numbered(m.elems@),
        forall|c: int| 0 <= c < m.elems@.len() ==> #[trigger] lineage(m, c),
{
    theorem_whole(m);
    assert forall|c: int| 0 <= c < m.elems@.len() implies (#[trigger] m.elems@[c]).id == c by { assert(cell_all(m, -1, c)); }
    assert forall|e: int, j: int, k: int| 0 <= e < m.elems@.len() && 0 <= j < k < 4 implies (#[trigger] m.elems@[e].edges@[j]) != (#[trigger] m.elems@[e].edges@[k]) by {
        assert(cell_all(m, -1, e)); apart(m, m.elems@[e].nodes@, m.elems@[e].edges@);
    }
    assert forall|e: int, j: int| 0 <= e < m.elems@.len() && 0 <= j < 4 implies (#[trigger] m.elems@[e].edges@[j]) < m.edges@.len() by { assert(cell_all(m, -1, e)); }
    assert forall|c: int| 0 <= c < m.elems@.len() implies #[trigger] lineage(m, c) by { descends(m, c); }
}
pub proof fn descends(m: Mesh, c: int)
    requires whole(m), 0 <= c < m.elems@.len()
    ensures lineage(m, c)
{
    assert(cell_all(m, -1, c)); assert(born(m, c));
    let a = m.elems@[c].ancestors@;
    if a.len() > 0 {
        let p = a.last().0 as int;
        let k = m.elems@[p].children->0@;
        let i = k.index_of(c as usize);
        assert(k[i] == c as usize);
        assert(cell_all(m, -1, p)); assert(kin(m, p));
        let (h, g) = choose|h: HRef, g: Grid| #[trigger] cut_as(m, p, h, g);
        assert(kid_at(m, p, h, i));
        assert(a.drop_last() =~= m.elems@[p].ancestors@);
    }
}
/// what holds of the initial cells holds of all
pub proof fn sound_all<AI: HierCurlIntegral, BI: HierCurlIntegral>(m: Mesh, c: int)
    requires 0 <= c < m.elems@.len(), sound_start::<AI, BI>(m), forall|c: int| 0 <= c < m.elems@.len() ==> #[trigger] lineage(m, c)
    ensures sound_cell::<AI, BI>(m.elems@[c])
    decreases c
{
    assert(lineage(m, c));
    let a = m.elems@[c].ancestors@;
    if a.len() > 0 { sound_all::<AI, BI>(m, a.last().0 as int); }
}
pub open spec fn adr_of(e: int, k: int) -> BSAddress { BSAddress { elem_id: e as usize, elem_idx: k as usize } }
pub open spec fn code(s: BasisSpec) -> int { dirno(s.dir) * 441 + s.i * 21 + s.j }
pub proof fn code_tells(a: BasisSpec, b: BasisSpec)
    requires a.i <= 20, a.j <= 20, b.i <= 20, b.j <= 20, code(a) == code(b)
    ensures a.i == b.i, a.j == b.j, a.dir == b.dir
{ assert(dirno(a.dir) == dirno(b.dir)); }
pub proof fn bounded_codes(s: Seq<int>, n: int)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j], forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n, 0 <= n
    ensures s.len() <= n
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert forall|x: int| #[trigger] s.to_set().contains(x) implies vstd::set_lib::set_int_range(0, n).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(0 <= s[i] < n); }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, n));
}
pub proof fn slot_facts(m: Mesh, d: Domain, e: int, k: int)
    requires dom(m, d.basis_specs@, d.dofs@, seq![], wanted(m)), d.mesh == m, orders_in(m), 0 <= e < d.basis_specs@.len(), 0 <= k < d.basis_specs@[e]@.len(), d.mesh.elems@.len() <= 1000000000000000
    ensures sound_fn(d, e, k), d.basis_specs@[e]@[k].i <= 20, d.basis_specs@[e]@[k].j <= 20, held(d.basis_specs@, adr_of(e, k)), at(d.basis_specs@, adr_of(e, k)) == d.basis_specs@[e]@[k], d.basis_specs@[e]@[k].elem_id == e
{
    let t = adr_of(e, k);
    assert(d.basis_specs@[e].len() == d.basis_specs@[e]@.len());
    assert(held(d.basis_specs@, t));
    assert(slot_ok(m, d.basis_specs@, d.dofs@, seq![], wanted(m), t));
    let s = at(d.basis_specs@, t);
    assert((wanted(m))(fk(s)));
    assert(m.elems@[e].poly_orders.ni <= 20);
    if s.dof_id->0 == d.dofs@.len() { assert(grp(d.dofs@, seq![], s.dof_id->0 as int) =~= Seq::<BSAddress>::empty()); assert(Seq::<BSAddress>::empty().contains(t)); }
}
/// THE CHAIN: a whole mesh, numbered, is ready for the assembly
pub proof fn theorem_ready<AI: HierCurlIntegral, BI: HierCurlIntegral>(m: Mesh, d: Domain)
    requires whole(m), orders_in(m), sound_start::<AI, BI>(m), m.elems@.len() <= 1000000000000000, d.dofs@.len() <= u32::MAX,
        same_but_activation(m, d.mesh), dom(d.mesh, d.basis_specs@, d.dofs@, seq![], wanted(d.mesh))
    ensures ready::<AI, BI>(d)
{
    theorem_acceptable(m);
    let b = d.mesh;
    assert(elem_tree(b).ok()) by {
        let (s, t) = (elem_tree(m), elem_tree(b));
        assert(s.n == t.n);
        assert forall|e: int| #[trigger] (t.kids)(e) == (s.kids)(e) by { }
        assert forall|e: int| #[trigger] (t.par)(e) == (s.par)(e) by { }
        assert forall|e: int, k: int| 0 <= e < t.n && 0 <= k < (t.kids)(e).len() implies e < #[trigger] (t.kids)(e)[k] < t.n && (t.par)((t.kids)(e)[k] as int) == Some(e) by { assert((s.kids)(e)[k] == (t.kids)(e)[k]); }
        assert forall|e: int, j: int, k: int| 0 <= e < t.n && 0 <= j < k < (t.kids)(e).len() implies #[trigger] (t.kids)(e)[j] != #[trigger] (t.kids)(e)[k] by { assert((s.kids)(e)[j] != (s.kids)(e)[k]); }
        assert forall|c: int| 0 <= c < t.n && #[trigger] (t.par)(c) is Some implies 0 <= (t.par)(c)->0 < c && (t.kids)((t.par)(c)->0).contains(c as usize) by { assert((s.par)(c) is Some); }
    }
    assert forall|e: int| 0 <= e < b.elems@.len() implies #[trigger] lineage(b, e) by { assert(lineage(m, e)); }
    assert forall|e: int| 0 <= e < b.elems@.len() implies sound_cell::<AI, BI>(#[trigger] b.elems@[e]) by { sound_all::<AI, BI>(m, e); }
    assert forall|e: int, i: int| 0 <= e < d.basis_specs@.len() && 0 <= i < d.basis_specs@[e]@.len() implies #[trigger] sound_fn(d, e, i) by { slot_facts(b, d, e, i); }
    assert forall|e: int| 0 <= e < d.basis_specs@.len() implies (#[trigger] d.basis_specs@[e])@.len() <= 1000 by {
        let l = d.basis_specs@[e]@;
        let c = Seq::new(l.len(), |k: int| code(l[k]));
        assert forall|k: int| 0 <= k < c.len() implies 0 <= #[trigger] c[k] < 882 by { slot_facts(b, d, e, k); }
        assert forall|j: int, k: int| 0 <= j < k < c.len() implies #[trigger] c[j] != #[trigger] c[k] by {
            slot_facts(b, d, e, j); slot_facts(b, d, e, k);
            if c[j] == c[k] { code_tells(l[j], l[k]); assert(fk(l[j]) == fk(l[k])); assert(d.basis_specs@[e].len() == l.len()); assert(adr_of(e, j).elem_idx == j && adr_of(e, k).elem_idx == k); }
        }
        bounded_codes(c, 882);
    }
}
}
