verus! {
// ------------------------------------------------------------------ trusted shim: a channel filled by threads
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { s: std::sync::mpsc::Sender<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { r: std::sync::mpsc::Receiver<T> }
impl<T> Sender<T> {
    /// all that will ever be sent, in the order of arrival
    pub uninterp spec fn all(self) -> Seq<T>;
}
impl<T> Receiver<T> {
    pub uninterp spec fn all(self) -> Seq<T>;
    /// std::sync::mpsc::Receiver::iter: waits until every sender is gone
    #[verifier::external_body]
    pub fn received(self) -> (r: Vec<T>) ensures r@ == self.all() { unimplemented!() }
}
#[verifier::external_body]
pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.all() == r.1.all() { unimplemented!() }
/// the same items, in some order
pub open spec fn shuffled<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() == b.to_multiset() }
/// rayon's for_each_with: the threads send every item once, in any order
#[verifier::external_body]
pub fn deliver<T>(x: Vec<T>, s: Sender<T>) ensures shuffled(x@, s.all()) { unimplemented!() }
// ------------------------------------------------------------------ the eigenvalue problem: a pair of matrices
//@@ struct fem_problem/linalg.rs GEP
/// entry k of the matrix, 0 where nothing is stored
pub open spec fn entry(m: Map<Key, F>, k: Key) -> real { if m.dom().contains(k) { m[k]@ } else { 0real } }
/// the sum of the entries k
pub open spec fn entry_sum(s: Seq<[SparseMatrix; 2]>, w: int, k: Key) -> real decreases s.len() {
    if s.len() == 0 { 0real } else { entry_sum(s.drop_last(), w, k) + entry(s.last()@[w].entries@, k) }
}
/// the matrices of each pair have the given dimension
pub open spec fn fitting(s: Seq<[SparseMatrix; 2]>, dim: usize) -> bool {
    forall|i: int, w: int| 0 <= i < s.len() && 0 <= w < 2 ==> (#[trigger] s[i]@[w]).wf() && s[i]@[w].dimension == dim
}
pub open spec fn has_key(s: Seq<[SparseMatrix; 2]>, w: int, k: Key) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]@[w]).entries@.dom().contains(k) }
pub proof fn entry_sum_of(a: Map<Key, F>, b: Map<Key, F>, k: Key)
    ensures entry(sum_of(a, b), k) == entry(a, k) + entry(b, k)
{
    if a.dom().contains(k) && b.dom().contains(k) { fadd_real(a[k], b[k]); }
}
/// the order of the terms does not matter
pub proof fn theorem_any_order(a: Seq<[SparseMatrix; 2]>, b: Seq<[SparseMatrix; 2]>, w: int, k: Key)
    requires shuffled(a, b)
    ensures entry_sum(a, w, k) == entry_sum(b, w, k)
    decreases a.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    if a.len() > 0 {
        let x = a.last();
        let i = a.len() - 1;
        assert(a.to_multiset().contains(x)) by { assert(a.contains(x)) by { assert(a[i] == x); } }
        assert(b.contains(x)) by { assert(b.to_multiset().contains(x)); }
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let (a2, b2) = (a.drop_last(), b.remove(j));
        assert(a.remove(i) =~= a2);
        assert(a2.to_multiset() =~= a.to_multiset().remove(x));
        assert(b2.to_multiset() =~= b.to_multiset().remove(x));
        theorem_any_order(a2, b2, w, k);
        take_out(b, j, w, k);
    } else {
        assert(b.len() == 0);
    }
}
pub proof fn take_out(s: Seq<[SparseMatrix; 2]>, j: int, w: int, k: Key)
    requires 0 <= j < s.len()
    ensures entry_sum(s, w, k) == entry_sum(s.remove(j), w, k) + entry(s[j]@[w].entries@, k)
    decreases s.len()
{
    if j == s.len() - 1 {
        assert(s.remove(j) =~= s.drop_last());
    } else {
        take_out(s.drop_last(), j, w, k);
        assert(s.remove(j).drop_last() =~= s.drop_last().remove(j));
        assert(s.remove(j).last() == s.last());
    }
}
pub proof fn shuffle_len<T>(a: Seq<T>, b: Seq<T>)
    requires shuffled(a, b)
    ensures a.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by {
        assert(b.contains(b[i]));
        assert(b.to_multiset().contains(b[i]));
        assert(a.to_multiset().contains(b[i]));
    }
}
impl GEP {
    pub open spec fn wf(self) -> bool { self.a.wf() && self.b.wf() && self.a.dimension == self.b.dimension }
    pub open spec fn mat(self, w: int) -> Map<Key, F> { if w == 0 { self.a.entries@ } else { self.b.entries@ } }
//@@ fn fem_problem/linalg.rs GEP::new
//@@ params num_dofs
        requires num_dofs <= u32::MAX
        ensures r.wf(), r.a.dimension == num_dofs, r.a.entries@ == Map::<Key, F>::empty(), r.b.entries@ == Map::<Key, F>::empty()
//@@ endfn
//@@ fn fem_problem/linalg.rs ParallelExtend<[SparseMatrix;2]> for GEP::par_extend arrmove
//@@ ptype I => Vec<[SparseMatrix; 2]>
//@@ params pairs
//@@ recv receiver
        requires old(self).wf(), fitting(pairs@, old(self).a.dimension)
        ensures final(self).wf(), final(self).a.dimension == old(self).a.dimension,
            forall|w: int, k: Key| 0 <= w < 2 ==> entry(#[trigger] final(self).mat(w), k) == #[trigger] entry(old(self).mat(w), k) + entry_sum(pairs@, w, k),
//@@ start
        let ghost dim = self.a.dimension;
        let ghost g0 = *self;
//@@ loop 0 take
            __s0@.len() == __hi0 - __i0, __hi0 == got.len(), __s0@ =~= got.skip(__i0 as int), fitting(got, dim), shuffled(pairs@, got),
            self.wf(), self.a.dimension == dim, dim == old(self).a.dimension, g0 == *old(self),
            forall|w: int, k: Key| 0 <= w < 2 ==> entry(#[trigger] self.mat(w), k) == #[trigger] entry(g0.mat(w), k) + entry_sum(got.take(__i0 as int), w, k),
//@@ loopbefore 0
        let ghost got = __s0@;
        proof {
            shuffle_len(pairs@, got);
            assert forall|i: int, w: int| 0 <= i < got.len() && 0 <= w < 2 implies (#[trigger] got[i]@[w]).wf() && got[i]@[w].dimension == dim by {
                let q = choose|q: int| 0 <= q < pairs@.len() && pairs@[q] == got[i];
                assert(pairs@[q]@[w].wf());
            }
        }
//@@ loopstart 0
        let ghost g1 = *self;
        proof { assert(got.take(__i0 + 1).drop_last() =~= got.take(__i0 as int)); assert(got.take(__i0 + 1).last() == got[__i0 as int]); assert(got[__i0 as int]@[0].wf() && got[__i0 as int]@[1].wf()); }
//@@ loopend 0
        proof {
            assert forall|w: int, k: Key| 0 <= w < 2 implies entry(#[trigger] self.mat(w), k) == #[trigger] entry(g0.mat(w), k) + entry_sum(got.take(__i0 as int), w, k) by {
                assert(self.mat(w) == sum_of(g1.mat(w), got[__i0 - 1]@[w].entries@));
                entry_sum_of(g1.mat(w), got[__i0 - 1]@[w].entries@, k);
            }
        }
//@@ loopafter 0
        proof {
            assert(got.take(got.len() as int) =~= got);
            assert forall|w: int, k: Key| 0 <= w < 2 implies entry(#[trigger] self.mat(w), k) == #[trigger] entry(g0.mat(w), k) + entry_sum(pairs@, w, k) by { theorem_any_order(pairs@, got, w, k); }
        }
//@@ endfn
}
}
