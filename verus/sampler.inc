verus! {
// ------------------------------------------------------------------ trusted shim: a map behind a lock, kept by an invariant on its entries
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { k: std::sync::Mutex<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MutexGuard<K, V> { k: Option<(K, V)> }
pub struct PoisonError { }
/// what holds of every entry of the map
pub open spec fn kept<K, V>(m: Map<K, V>, p: spec_fn(K, V) -> bool) -> bool { forall|k: K| #[trigger] m.dom().contains(k) ==> p(k, m[k]) }
impl<K, V> Mutex<HashMap<K, V>> {
    /// the invariant the entries are kept to
    pub uninterp spec fn inv(self) -> spec_fn(K, V) -> bool;
    #[verifier::external_body]
    pub fn new(m: HashMap<K, V>, Ghost(p): Ghost<spec_fn(K, V) -> bool>) -> (r: Self) requires kept(m@, p) ensures r.inv() == p { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<MutexGuard<K, V>, PoisonError>) ensures r is Ok ==> r->Ok_0.inv() == self.inv() && kept(r->Ok_0@, self.inv()) { unimplemented!() }
}
impl<K, V> View for MutexGuard<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> MutexGuard<K, V> {
    pub uninterp spec fn inv(self) -> spec_fn(K, V) -> bool;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
    /// nothing but insertions can change the map: the invariant is kept at all times, hence whenever the lock is released
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) requires (old(self).inv())(k, v) ensures final(self)@ == old(self)@.insert(k, v), final(self).inv() == old(self).inv() { unimplemented!() }
}
// ------------------------------------------------------------------ assumed: the quadrature rules (P13's bounded layer) and their default sizes
pub uninterp spec fn gauss_rule(n: int, ends: bool, pts: Seq<F>, wts: Seq<F>) -> bool;
#[verifier::external_body]
pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (r: (Vec<F>, Vec<F>))
    ensures gauss_rule(n as int, include_endpoints, r.0@, r.1@), r.0@.len() == r.1@.len()
{ unimplemented!() }
pub uninterp spec fn default_size(order: int) -> int;
#[verifier::external_body]
pub fn default_ngq(max_order: usize) -> (r: usize) ensures r == default_size(max_order as int) { unimplemented!() }
// ------------------------------------------------------------------ the sampler: every function it hands out is the one asked for
//@@ struct fem_domain/basis.rs BSDescription derive=Clone,+Copy
#[verifier::reject_recursive_types(B)]
//@@ struct fem_domain/basis.rs BasisFnSampler
pub open spec fn numbered(cells: Seq<Elem>) -> bool { forall|k: int| 0 <= k < cells.len() ==> (#[trigger] cells[k]).id == k }
pub open spec fn from_cells(cells: Seq<Elem>, e: Elem) -> bool { e.id < cells.len() && cells[e.id as int] == e }
pub open spec fn opt_cell(cells: Seq<Elem>, d: Option<usize>) -> Option<Elem> { match d { Some(x) => Some(cells[x as int]), None => None } }
/// the entry d was made for the cells it names
pub open spec fn entry_made<B: HierBasisFn>(cells: Seq<Elem>, u: Seq<F>, v: Seq<F>, im: int, jm: int, d2: bool) -> spec_fn(BSDescription, Arc<B>) -> bool {
    |d: BSDescription, b: Arc<B>| (*b).made(cells[d.base_id as int], opt_cell(cells, d.desc_id), u, v, im, jm, d2)
}
impl BSDescription {
//@@ fn fem_domain/basis.rs BSDescription::new
//@@ params elem, sampled_over
//@@ optmap sampled_over
        ensures r.base_id == elem.id, match sampled_over { Some(d) => r.desc_id == Some(d.id), None => r.desc_id is None }
//@@ endfn
}
impl<B: HierBasisFn> BasisFnSampler<B> {
    /// the sampler serves these cells
    pub open spec fn serves(self, cells: Seq<Elem>) -> bool {
        numbered(cells) && self.i_max < 1000000 && self.j_max < 1000000
            && (*self.computed).inv() == entry_made::<B>(cells, self.u_points@, self.v_points@, self.i_max as int, self.j_max as int, self.compute_d2)
    }
//@@ fn fem_domain/basis.rs BasisFnSampler::with
//@@ params i_max, j_max, num_u_points, num_v_points, compute_2nd_derivs
//@@ ghostparam Ghost(cells): Ghost<Seq<Elem>>
//@@ ghostarg Mutex::new => Ghost(__pr)
        requires i_max < 1000000, j_max < 1000000, numbered(cells)
        ensures r.0.serves(cells), r.0.i_max == i_max, r.0.j_max == j_max, r.0.compute_d2 == compute_2nd_derivs,
            gauss_rule(match num_u_points { Some(n) => n as int, None => default_size(i_max as int) }, compute_2nd_derivs, r.0.u_points@, r.1@[0]@),
            gauss_rule(match num_v_points { Some(n) => n as int, None => default_size(j_max as int) }, compute_2nd_derivs, r.0.v_points@, r.1@[1]@),
            r.0.u_points@.len() == r.1@[0]@.len(), r.0.v_points@.len() == r.1@[1]@.len(),
//@@ final
        let ghost __pr = entry_made::<B>(cells, u_points@, v_points@, i_max as int, j_max as int, compute_2nd_derivs);
//@@ endfn
//@@ fn fem_domain/basis.rs BasisFnSampler::sample_basis_fn
//@@ params elem, over_desc_elem
        requires exists|cells: Seq<Elem>| #[trigger] old(self).serves(cells) && from_cells(cells, *elem) && (over_desc_elem is Some ==> from_cells(cells, *over_desc_elem->0)), B::makable(*elem)
        ensures (*r).made(*elem, cell_opt(over_desc_elem), old(self).u_points@, old(self).v_points@, old(self).i_max as int, old(self).j_max as int, old(self).compute_d2),
            *final(self) == *old(self),
//@@ start
        let ghost cells = choose|cells: Seq<Elem>| #[trigger] old(self).serves(cells) && from_cells(cells, *elem) && (over_desc_elem is Some ==> from_cells(cells, *over_desc_elem->0));
//@@ endfn
}
impl<B: HierBasisFn> BasisFnSampler<B> {
//@@ fn fem_domain/basis.rs Clone for BasisFnSampler::clone
        ensures r.i_max == self.i_max, r.j_max == self.j_max, r.compute_d2 == self.compute_d2, r.u_points@ == self.u_points@, r.v_points@ == self.v_points@, r.computed == self.computed,
            forall|c: Seq<Elem>| #[trigger] self.serves(c) ==> r.serves(c)
//@@ endfn
}
}
