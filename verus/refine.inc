verus! {
// ------------------------------------------------------------------ the ways to ask for refinements
/// the same refinement for each of these cells
pub open spec fn each(v: Seq<usize>, h: HRef) -> Seq<(usize, HRef)> { Seq::new(v.len(), |i: int| (v[i], h)) }
pub open spec fn repeated(v: Seq<usize>) -> bool { exists|i: int, j: int| 0 <= i < j < v.len() && #[trigger] v[i] == #[trigger] v[j] }
/// the refinements asked for the cells that can be refined, of the first n cells
pub open spec fn picked(m: Mesh, q: Seq<Option<HRef>>, n: int) -> Seq<(usize, HRef)> decreases n {
    if n <= 0 { Seq::<(usize, HRef)>::empty() } else { let p = picked(m, q, n - 1); if refineable(m, n - 1) && q[n - 1] is Some { p.push(((n - 1) as usize, q[n - 1]->0)) } else { p } }
}
pub proof fn picked_in(m: Mesh, q: Seq<Option<HRef>>, n: int, k: int)
    requires 0 <= k < picked(m, q, n).len(), n <= usize::MAX
    ensures picked(m, q, n)[k].0 < n, refineable(m, picked(m, q, n)[k].0 as int), q[picked(m, q, n)[k].0 as int] == Some(picked(m, q, n)[k].1)
    decreases n
{ if k < picked(m, q, n - 1).len() { picked_in(m, q, n - 1, k); } }
pub proof fn picked_len(m: Mesh, q: Seq<Option<HRef>>, n: int)
    requires n >= 0
    ensures picked(m, q, n).len() <= n
    decreases n
{ if n > 0 { picked_len(m, q, n - 1); } }
pub open spec fn all_same(n: int, h: HRef) -> Seq<Option<HRef>> { Seq::new(n as nat, |i: int| Some(h)) }
pub open spec fn all_shallow(m: Mesh) -> bool { forall|d: int| 0 <= d < m.elems@.len() ==> #[trigger] shallow(m, d, 2) }
pub proof fn low_all(m: Mesh, r: Seq<(usize, HRef)>)
    requires all_shallow(m)
    ensures low(m, r)
{ assert forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 < m.elems@.len() implies shallow(m, r[i].0 as int, layers_of(r)) by { assert(shallow(m, r[i].0 as int, 2)); } }
pub proof fn room_all(m: Mesh, k: int, r: Seq<(usize, HRef)>)
    requires room(m, 2 * k), r.len() <= k
    ensures room(m, layers_of(r) * r.len() as int)
{ assert(layers_of(r) * r.len() <= 2 * k) by (nonlinear_arith) requires 1 <= layers_of(r) <= 2, 0 <= r.len() <= k; }
pub proof fn order_ids(m: Mesh, d: int)
    requires whole(m), 0 <= d < m.elems@.len()
    ensures m.elems@[d].id == d, forall|k: int| 0 <= k < 4 ==> (#[trigger] m.elems@[d].edges@[k]) < m.edges@.len()
{ cells_in(m); assert(cell_all(m, -1, d)); }
/// what the filter said of each cell that can be refined
pub open spec fn answers<G: Fn(&Elem) -> Option<HRef>>(f: G, m: Mesh, q: Seq<Option<HRef>>) -> bool { forall|d: int| 0 <= d < q.len() && refineable(m, d) ==> f.ensures((&m.elems@[d],), #[trigger] q[d]) }
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::h_refine_elems
//@@ attr #[verifier::spinoff_prover] #[verifier::loop_isolation(false)]
//@@ params elems, refinement
        requires whole(*old(self)), room(*old(self), 2 * elems@.len() as int), all_shallow(*old(self))
        ensures match r {
            Err(_) => *final(self) == *old(self) && (repeated(elems@) || !lawful(*old(self), each(elems@, refinement))),
            Ok(_) => !repeated(elems@) && lawful(*old(self), each(elems@, refinement)) && whole(*final(self)) && activated(*final(self)) && refined_by(*old(self), *final(self), each(elems@, refinement)) }
//@@ start
        hide(whole); hide(room); hide(lawful); hide(refined_by); hide(activated);
        let ghost m0 = *self; let ghost v = elems@;
        proof { low_all(m0, each(v, refinement)); room_all(m0, v.len() as int, each(v, refinement)); }
//@@ loop 0
        __a0 ==> repeated(v), !__a0 ==> forall|i: int, j: int| 0 <= i < __i0 && i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j],
//@@ loop 1
        __a1 ==> repeated(v), !__a1 ==> forall|j: int| i < j < __i1 ==> #[trigger] v[j] != v[i as int],
//@@ loop 2
        __a2@ == each(v, refinement).take(__i2 as int),
//@@ loopend 2
        proof { assert(__a2@ =~= each(v, refinement).take(__i2 as int)); }
//@@ loopafter 2
        proof { assert(__a2@ =~= each(v, refinement)); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::global_h_refinement unwraps
//@@ attr #[verifier::spinoff_prover]
//@@ params refinement
//@@ abort *self == m0 && !lawful(m0, picked(m0, q, m0.elems@.len() as int))
        requires whole(*old(self)), room(*old(self), 2 * old(self).elems@.len() as int), all_shallow(*old(self))
        ensures ({ let q = picked(*old(self), all_same(old(self).elems@.len() as int, refinement), old(self).elems@.len() as int);
            lawful(*old(self), q) && whole(*final(self)) && activated(*final(self)) && refined_by(*old(self), *final(self), q) })
//@@ start
        hide(whole); hide(room); hide(lawful); hide(refined_by); hide(activated);
        let ghost m0 = *self; let ghost n = m0.elems@.len() as int; let ghost q = all_same(n, refinement); let ghost w = picked(m0, q, n);
        proof { assert(self.elems.len() == self.elems@.len()); low_all(m0, w); picked_len(m0, q, n); room_all(m0, n, w); }
//@@ loop 0
        *self == m0, __hi0 == n, __a0@ == picked(m0, q, __i0 as int),
//@@ loopstart 0
        proof { order_ids(m0, __i0 as int); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::h_refine_with_filter unwraps
//@@ attr #[verifier::spinoff_prover]
//@@ params filt
//@@ abort *self == m0 && answers(filt, m0, q) && q.len() == n && !lawful(m0, picked(m0, q, n))
        requires whole(*old(self)), room(*old(self), 2 * old(self).elems@.len() as int), all_shallow(*old(self)), forall|e: &Elem| #[trigger] filt.requires((e,))
        ensures exists|q: Seq<Option<HRef>>| q.len() == old(self).elems@.len() && #[trigger] answers(filt, *old(self), q) && ({ let w = picked(*old(self), q, old(self).elems@.len() as int);
            lawful(*old(self), w) && whole(*final(self)) && activated(*final(self)) && refined_by(*old(self), *final(self), w) })
//@@ start
        hide(whole); hide(room); hide(lawful); hide(refined_by); hide(activated);
        let ghost m0 = *self; let ghost n = m0.elems@.len() as int; let ghost mut q = Seq::<Option<HRef>>::empty();
        proof { assert(self.elems.len() == self.elems@.len()); }
//@@ loop 0
        *self == m0, __hi0 == n, q.len() == __i0, __a0@ == picked(m0, q, __i0 as int), answers(filt, m0, q),
//@@ loopstart 0
        let ghost a = __a0@; let ghost d = __i0 as int;
        proof { order_ids(m0, d); }
//@@ loopend 0
        proof {
            let x = if __a0@.len() > a.len() { Some(__a0@.last().1) } else { None::<HRef> };
            assert(refineable(m0, d) ==> filt.ensures((&m0.elems@[d],), x));
            let p = q;
            q = q.push(x);
            assert forall|k: int| 0 <= k < q.len() && refineable(m0, k) implies filt.ensures((&m0.elems@[k],), #[trigger] q[k]) by { if k < d { assert(q[k] == p[k]); } }
            picked_same(m0, p, q, d);
            assert(__a0@ =~= picked(m0, q, d + 1));
        }
//@@ loopafter 0
        proof { low_all(m0, __a0@); picked_len(m0, q, n); room_all(m0, n, __a0@); }
//@@ endfn
}
pub proof fn picked_same(m: Mesh, p: Seq<Option<HRef>>, q: Seq<Option<HRef>>, n: int)
    requires 0 <= n <= p.len(), n <= q.len(), forall|k: int| 0 <= k < n ==> q[k] == p[k]
    ensures picked(m, p, n) == picked(m, q, n)
    decreases n
{ if n > 0 { picked_same(m, p, q, n - 1); } }
}
