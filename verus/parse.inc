verus! {
// ------------------------------------------------------------------ trusted shim: JSON values
#[verifier::external_body]
pub struct JsonValue { x: u8 }
pub uninterp spec fn j_get(j: JsonValue, key: Seq<char>) -> JsonValue;
pub uninterp spec fn j_at(j: JsonValue, i: usize) -> JsonValue;
pub uninterp spec fn j_arr(j: JsonValue) -> bool;
pub uninterp spec fn j_items(j: JsonValue) -> Seq<JsonValue>;
pub uninterp spec fn j_num(j: JsonValue) -> Option<F>;
pub uninterp spec fn j_int(j: JsonValue) -> Option<usize>;
pub trait JKey: Sized { spec fn pick(self, j: JsonValue) -> JsonValue; }
impl JKey for &str { open spec fn pick(self, j: JsonValue) -> JsonValue { j_get(j, self@) } }
impl JKey for usize { open spec fn pick(self, j: JsonValue) -> JsonValue { j_at(j, self) } }
impl JsonValue {
    #[verifier::external_body]
    pub fn index<I: JKey>(&self, i: I) -> (r: &JsonValue) ensures *r == i.pick(*self) { panic!() }
    #[verifier::external_body]
    pub fn members(&self) -> (r: &Vec<JsonValue>) ensures r@ == j_items(*self) { panic!() }
    #[verifier::external_body]
    pub fn is_array(&self) -> (r: bool) ensures r == j_arr(*self) { panic!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<F>) ensures r == j_num(*self) { panic!() }
    #[verifier::external_body]
    pub fn as_usize(&self) -> (r: Option<usize>) ensures r == j_int(*self) { panic!() }
}
/// the members of an array are what its indices give
pub axiom fn j_members(j: JsonValue, i: usize) ensures j_arr(j) && i < j_items(j).len() ==> j_at(j, i) == j_items(j)[i as int];
impl Complex64 {
    #[verifier::external_body]
    pub fn new(re: F, im: F) -> (r: Complex64) ensures r.re == re, r.im == im { Complex64 { re, im } }
}
// ------------------------------------------------------------------ equality of points (the inherent `eq` above is the one of the source)
pub open spec fn rep_eq(a: FloatRep, b: FloatRep) -> bool { a.sign == b.sign && a.bits@ == b.bits@ }
impl PartialEqSpecImpl<Point> for Point {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Point) -> bool { rep_eq(self.x_cmp, other.x_cmp) && rep_eq(self.y_cmp, other.y_cmp) }
}
impl PartialEq<Point> for Point { #[verifier::external_body] fn eq(&self, o: &Point) -> (r: bool) { unimplemented!() } }
pub proof fn eq_same(a: Point, b: Point)
    requires a.wf(), b.wf()
    ensures PartialEqSpec::eq_spec(&a, &b) == a.same(b)
{ }
// ------------------------------------------------------------------ well-formed descriptions
/// two of them are equal
pub open spec fn dup<T: PartialEq>(v: Seq<T>, i: int, j: int) -> bool { 0 <= i < j < v.len() && PartialEqSpec::eq_spec(&v[i], &v[j]) }
pub open spec fn twice<T: PartialEq>(v: Seq<T>) -> bool { exists|i: int, j: int| #[trigger] dup(v, i, j) }
pub open spec fn j_elems(j: JsonValue) -> JsonValue { j_get(j, "Elements"@) }
pub open spec fn j_nodes(j: JsonValue) -> JsonValue { j_get(j, "Nodes"@) }
pub open spec fn e_ids(e: JsonValue) -> JsonValue { j_get(e, "node_ids"@) }
pub open spec fn e_mats(e: JsonValue) -> JsonValue { j_get(e, "materials"@) }
pub open spec fn e_id(e: JsonValue, k: int) -> usize { j_int(j_items(e_ids(e))[k])->0 }
pub open spec fn e_mat(e: JsonValue, k: int) -> F { j_num(j_items(e_mats(e))[k])->0 }
pub open spec fn id_ok(e: JsonValue, k: int, n: int) -> bool { j_int(j_items(e_ids(e))[k]) is Some && e_id(e, k) < n }
pub open spec fn mat_ok(e: JsonValue, k: int) -> bool { j_num(j_items(e_mats(e))[k]) is Some }
pub open spec fn elem_arrays(e: JsonValue) -> bool { j_arr(e_ids(e)) && j_items(e_ids(e)).len() == 4 && j_arr(e_mats(e)) && j_items(e_mats(e)).len() == 4 }
pub open spec fn id_list(e: JsonValue) -> Seq<usize> { Seq::new(4, |k: int| e_id(e, k)) }
/// one element: four different ids of nodes, four numbers
pub open spec fn elem_json(e: JsonValue, n: int) -> bool {
    elem_arrays(e) && (forall|k: int| 0 <= k < 4 ==> #[trigger] id_ok(e, k, n)) && (forall|k: int| 0 <= k < 4 ==> #[trigger] mat_ok(e, k)) && !twice(id_list(e))
}
pub open spec fn elems_json(j: JsonValue) -> bool { j_arr(j_elems(j)) && forall|i: int| 0 <= i < j_items(j_elems(j)).len() ==> elem_json(#[trigger] j_items(j_elems(j))[i], j_items(j_nodes(j)).len() as int) }
/// one node: two numbers
pub open spec fn node_json(p: JsonValue) -> bool { j_arr(p) && j_items(p).len() == 2 && j_num(j_at(p, 0)) is Some && j_num(j_at(p, 1)) is Some }
pub open spec fn read_as(p: Point, j: JsonValue) -> bool { p.wf() && p.x@ == j_num(j_at(j, 0))->0@ && p.y@ == j_num(j_at(j, 1))->0@ }
/// the nodes as points
pub open spec fn pts_read(p: Seq<Point>, j: JsonValue) -> bool { p.len() == j_items(j_nodes(j)).len() && forall|i: int| 0 <= i < p.len() ==> read_as(#[trigger] p[i], j_items(j_nodes(j))[i]) }
pub open spec fn coincide(a: JsonValue, b: JsonValue) -> bool { rnd(j_num(j_at(a, 0))->0@) == rnd(j_num(j_at(b, 0))->0@) && rnd(j_num(j_at(a, 1))->0@) == rnd(j_num(j_at(b, 1))->0@) }
/// numbers everywhere, no two nodes at one place
pub open spec fn nodes_json(j: JsonValue) -> bool {
    &&& j_arr(j_nodes(j)) && forall|i: int| 0 <= i < j_items(j_nodes(j)).len() ==> node_json(#[trigger] j_items(j_nodes(j))[i])
    &&& forall|a: int, b: int| 0 <= a < b < j_items(j_nodes(j)).len() ==> !coincide(#[trigger] j_items(j_nodes(j))[a], #[trigger] j_items(j_nodes(j))[b])
}
pub open spec fn mats_of(j: JsonValue) -> Seq<Materials> { Seq::new(j_items(j_elems(j)).len(), |i: int| mats_at(j_items(j_elems(j))[i])) }
pub open spec fn mats_at(e: JsonValue) -> Materials { Materials { eps_rel: Complex64 { re: e_mat(e, 0), im: e_mat(e, 1) }, mu_rel: Complex64 { re: e_mat(e, 2), im: e_mat(e, 3) } } }
pub open spec fn ids_at(e: JsonValue) -> [usize; 4] { [e_id(e, 0), e_id(e, 1), e_id(e, 2), e_id(e, 3)] }
pub open spec fn ids_of(j: JsonValue) -> Seq<[usize; 4]> { Seq::new(j_items(j_elems(j)).len(), |i: int| ids_at(j_items(j_elems(j))[i])) }
impl Materials {
//@@ fn fem_domain/domain/mesh/element.rs Materials::from_array
//@@ params v
        ensures r.eps_rel.re == v@[0], r.eps_rel.im == v@[1], r.mu_rel.re == v@[2], r.mu_rel.im == v@[3]
//@@ endfn
}
/// what a well-formed list of elements gives for one of them
pub proof fn elems_at(j: JsonValue, i: int, k: int)
    requires 0 <= i < j_items(j_elems(j)).len(), 0 <= k < 4
    ensures elems_json(j) ==> elem_arrays(j_items(j_elems(j))[i]) && id_ok(j_items(j_elems(j))[i], k, j_items(j_nodes(j)).len() as int) && mat_ok(j_items(j_elems(j))[i], k) && !twice(id_list(j_items(j_elems(j))[i]))
{ }
//@@ fn fem_domain/domain/mesh.rs has_duplicates
//@@ params values
        requires T::obeys_eq_spec()
        ensures r == twice(values@)
//@@ loop 0
        __hi0 == values@.len(), forall|a: int, b: int| 0 <= a < __i0 ==> !#[trigger] dup(values@, a, b),
//@@ loop 1
        __hi1 == values@.len(), __hi0 == __hi1, 0 < __i0 <= __hi0, i == __i0 - 1, *val == values@[i as int], __i1 >= i + 1,
        forall|a: int, b: int| 0 <= a < i ==> !#[trigger] dup(values@, a, b),
        forall|b: int| b < __i1 ==> !#[trigger] dup(values@, i as int, b),
//@@ loopend 1
        proof { assert(!dup(values@, i as int, __i1 - 1)); }
//@@ before `return true`
        proof { assert(dup(values@, i as int, __i1 - 1)); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs parse_element_information unwraps
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@@ params j
//@@ abort !elems_json(*j)
        ensures elems_json(*j), r.0@ == mats_of(*j), r.1@ == ids_of(*j)
//@@ start
        let ghost es = j_items(j_elems(*j)); let ghost n = j_items(j_nodes(*j)).len() as int;
//@@ loop 0
        __hi0 == n, __a0 == __i0,
//@@ loop 1
        num_nodes == n, __s1@ == es, __hi1 == es.len(), j_arr(j_elems(*j)), __a1l@.len() == __i1, __a1r@.len() == __i1,
        forall|i: int| 0 <= i < __i1 ==> elem_json(#[trigger] es[i], n),
        forall|i: int| 0 <= i < __i1 ==> (#[trigger] __a1l@[i]) == mats_at(es[i]),
        forall|i: int| 0 <= i < __i1 ==> (#[trigger] __a1r@[i]) == ids_at(es[i]),
//@@ loopstart 1
        let ghost e = es[__i1 as int];
        proof { elems_at(*j, __i1 as int, 0); }
//@@ loop 2
        __hi2 == j_items(e_ids(e)).len(), __a2 == __i2,
//@@ loop 3
        __hi3 == j_items(e_mats(e)).len(), __a3 == __i3,
//@@ loop 4
        __s4@ == j_items(e_ids(e)), __hi4 == 4, __a4@.len() == __i4, forall|k: int| 0 <= k < __i4 ==> (#[trigger] __a4@[k]) == e_id(e, k), forall|k: int| 0 <= k < __i4 ==> #[trigger] id_ok(e, k, n),
//@@ loopstart 4
        proof { elems_at(*j, __i1 - 1, __i4 as int); }
//@@ loop 5
        __s5@ == j_items(e_mats(e)), __hi5 == 4, __a5@.len() == __i5, forall|k: int| 0 <= k < __i5 ==> (#[trigger] __a5@[k]) == e_mat(e, k), forall|k: int| 0 <= k < __i5 ==> #[trigger] mat_ok(e, k),
//@@ loopstart 5
        proof { elems_at(*j, __i1 - 1, __i5 as int); }
//@@ after `let node_ids`
        proof { assert(node_ids@ =~= id_list(e)); assert(node_ids@ =~= ids_at(e)@); assert(node_ids =~= ids_at(e)); }
//@@ loopafter 1
        proof { assert(__a1l@ =~= mats_of(*j)); assert(__a1r@ =~= ids_of(*j)); }
//@@ endfn
/// equal points are coinciding nodes
pub proof fn nodes_apart(j: JsonValue, p: Seq<Point>)
    requires pts_read(p, j)
    ensures twice(p) <==> exists|a: int, b: int| 0 <= a < b < p.len() && coincide(#[trigger] j_items(j_nodes(j))[a], #[trigger] j_items(j_nodes(j))[b])
{
    let ns = j_items(j_nodes(j));
    assert forall|a: int, b: int| 0 <= a < b < p.len() implies dup(p, a, b) == coincide(#[trigger] ns[a], #[trigger] ns[b]) by { assert(read_as(p[a], ns[a]) && read_as(p[b], ns[b])); eq_same(p[a], p[b]); }
    if twice(p) { let (a, b) = choose|a: int, b: int| #[trigger] dup(p, a, b); assert(coincide(ns[a], ns[b])); }
    if exists|a: int, b: int| 0 <= a < b < p.len() && coincide(#[trigger] ns[a], #[trigger] ns[b]) { let (a, b) = choose|a: int, b: int| 0 <= a < b < p.len() && coincide(#[trigger] ns[a], #[trigger] ns[b]); assert(dup(p, a, b)); }
}
//@@ fn fem_domain/domain/mesh.rs parse_node_information unwraps
//@@ vidx json_node_point
//@@ params j
//@@ abort !nodes_json(*j)
        ensures nodes_json(*j), pts_read(r@, *j)
//@@ start
        let ghost ns = j_items(j_nodes(*j));
//@@ loop 0
        __s0@ == ns, __hi0 == ns.len(), j_arr(j_nodes(*j)), __a0@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> node_json(#[trigger] ns[i]),
        forall|i: int| 0 <= i < __i0 ==> read_as(#[trigger] __a0@[i], ns[i]),
//@@ loopstart 0
        let ghost p = ns[__i0 as int];
        proof { j_members(p, 0); j_members(p, 1); }
//@@ loop 1
        __hi1 == j_items(p).len(), __a1 == __i1,
//@@ after `let node_points`
        proof { nodes_apart(*j, node_points@); }
//@@ endfn
}
