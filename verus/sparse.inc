verus! {
//@@ struct fem_problem/linalg/sparse_matrix.rs SparseMatrix
pub type Key = [u32; 2];
/// the key of the single entry shared by (r, c) and (c, r)
pub open spec fn key(r: int, c: int) -> Key { if r <= c { [r as u32, c as u32] } else { [c as u32, r as u32] } }
pub open spec fn ok_key(k: Key, dim: int) -> bool { k@[0] <= k@[1] < dim }
impl SparseMatrix {
    pub open spec fn wf(self) -> bool {
        &&& self.dimension <= u32::MAX
        &&& forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> ok_key(k, self.dimension as int)
    }
}
/// adding v to the entry k (with the machine sum; nothing else changes)
pub open spec fn added(m: Map<Key, F>, k: Key, v: F) -> Map<Key, F> { m.insert(k, if m.dom().contains(k) { m[k].fadd(v) } else { v }) }
/// a group of insertions, in order
pub open spec fn added_all(m: Map<Key, F>, g: Seq<([usize; 2], F)>) -> Map<Key, F> decreases g.len() {
    if g.len() == 0 { m } else { added(added_all(m, g.drop_last()), key(g.last().0@[0] as int, g.last().0@[1] as int), g.last().1) }
}
/// entrywise sum
pub open spec fn sum_of(a: Map<Key, F>, b: Map<Key, F>) -> Map<Key, F> {
    Map::new(a.dom().union(b.dom()), |k: Key| if a.dom().contains(k) && b.dom().contains(k) { a[k].fadd(b[k]) } else if a.dom().contains(k) { a[k] } else { b[k] })
}
pub open spec fn sized(g: Seq<([usize; 2], F)>, dim: int) -> bool { forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).0@[0] < dim && g[k].0@[1] < dim }
pub proof fn lemma_key_eq(a: Key, b: Key) requires a@[0] == b@[0], a@[1] == b@[1] ensures a == b { assert(a@ =~= b@); assert(a =~= b); }
pub open spec fn seen<V>(s: Seq<(Key, V)>, n: int, k: Key) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k }
impl SparseMatrix {
//@@ fn fem_problem/linalg/sparse_matrix.rs SparseMatrix::new
//@@ params dimension
//@@ abort dimension > u32::MAX
        ensures dimension <= u32::MAX, r.dimension == dimension, r.entries@ == Map::<Key, F>::empty(), r.wf()
//@@ endfn
//@@ fn fem_problem/linalg/sparse_matrix.rs SparseMatrix::insert opassign
//@@ params rc, value
        requires old(self).wf()
//@@ abort !(rc@[0] < self.dimension && rc@[1] < self.dimension) && *self == s0
        ensures rc@[0] < old(self).dimension, rc@[1] < old(self).dimension, final(self).wf(), final(self).dimension == old(self).dimension,
            final(self).entries@ == added(old(self).entries@, key(rc@[0] as int, rc@[1] as int), value)
//@@ start
        let ghost s0 = *self;
//@@ endfn
//@@ fn fem_problem/linalg/sparse_matrix.rs SparseMatrix::insert_group opassign
//@@ params entry_group
        requires old(self).wf()
//@@ abort !sized(entry_group@, self.dimension as int)
        ensures sized(entry_group@, old(self).dimension as int), final(self).wf(), final(self).dimension == old(self).dimension,
            final(self).entries@ == added_all(old(self).entries@, entry_group@)
//@@ start
        let ghost g = entry_group@;
        let ghost m0 = self.entries@;
//@@ loop 0
            __s0@ == g, __hi0 == g.len(), self.wf(), self.dimension == old(self).dimension,
            forall|k: int| 0 <= k < __i0 ==> (#[trigger] g[k]).0@[0] < self.dimension && g[k].0@[1] < self.dimension,
            self.entries@ == added_all(m0, g.take(__i0 as int)),
//@@ loopstart 0
            let ghost m1 = self.entries@;
            proof {
                assert(g.take(__i0 + 1).drop_last() =~= g.take(__i0 as int));
                assert(g.take(__i0 + 1).last() == g[__i0 as int]);
            }
//@@ loopend 0
            proof {
                assert(self.entries@ =~= added(m1, key(r as int, c as int), v));
            }
//@@ loopafter 0
            proof { assert(g.take(g.len() as int) =~= g); }
//@@ endfn
//@@ fn fem_problem/linalg/sparse_matrix.rs SparseMatrix::take_entries
//@@ ret r
        ensures r@ == old(self).entries@, final(self).entries@ == Map::<Key, F>::empty(), final(self).dimension == old(self).dimension
//@@ endfn
//@@ fn fem_problem/linalg/sparse_matrix.rs SparseMatrix::consume_matrix opassign
//@@ params other
        requires old(self).wf(), old(other).wf()
//@@ abort self.dimension != other.dimension
        ensures old(self).dimension == old(other).dimension, final(self).wf(), final(self).dimension == old(self).dimension,
            final(self).entries@ == sum_of(old(self).entries@, old(other).entries@), final(other).entries@ == Map::<Key, F>::empty(),
            final(other).dimension == old(other).dimension
//@@ start
        let ghost m0 = self.entries@;
        let ghost o = other.entries@;
//@@ loop 0
            listing_ref(__s0@, o), __hi0 == __s0@.len(), self.wf(), self.dimension == old(self).dimension, self.dimension == old(other).dimension,
            forall|k: Key| #[trigger] self.entries@.dom().contains(k) <==> m0.dom().contains(k) || seen(__s0@, __i0 as int, k),
            forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> self.entries@[k] == (if seen(__s0@, __i0 as int, k) { sum_of(m0, o)[k] } else { m0[k] }),
//@@ loopstart 0
            let ghost m1 = self.entries@;
            proof {
                let k0 = __s0@[__i0 as int].0;
                assert(!seen(__s0@, __i0 as int, k0));
                assert(o.dom().contains(k0));
                assert forall|k: Key| seen(__s0@, __i0 + 1, k) <==> seen(__s0@, __i0 as int, k) || k == k0 by {
                    if k == k0 { assert(__s0@[__i0 as int].0 == k); }
                }
            }
//@@ loopend 0
            proof {
                let k0 = __s0@[__x1 as int].0;
                assert(self.entries@ =~= m1.insert(k0, if m1.dom().contains(k0) { m1[k0].fadd(o[k0]) } else { o[k0] }));
            }
//@@ loopafter 0
            proof {
                assert forall|k: Key| seen(__s0@, __s0@.len() as int, k) <==> o.dom().contains(k) by { }
                assert(self.entries@ =~= sum_of(m0, o));
            }
//@@ endfn
}
}
