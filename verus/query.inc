verus! {
// ------------------------------------------------------------------ P08
/// the corner and end references point at something
pub open spec fn refs_ok(m: Mesh) -> bool {
    &&& forall|e: int, k: int| 0 <= e < m.elems@.len() && 0 <= k < 4 ==> #[trigger] m.elems@[e].nodes@[k] < m.nodes@.len()
    &&& forall|e: int, k: int| 0 <= e < m.edges@.len() && 0 <= k < 2 ==> #[trigger] m.edges@[e].nodes@[k] < m.nodes@.len()
}
pub open spec fn corners_in(m: Mesh, e: int) -> bool { forall|k: int| 0 <= k < 4 ==> #[trigger] m.elems@[e].nodes@[k] < m.nodes@.len() }
pub open spec fn ends_in(m: Mesh, e: int) -> bool { forall|k: int| 0 <= k < 2 ==> #[trigger] m.edges@[e].nodes@[k] < m.nodes@.len() }
impl Mesh {
//@@ fn fem_domain/domain/mesh.rs Mesh::elem_points array_map
//@@ params elem_id
        requires elem_id < self.elems@.len() ==> corners_in(*self, elem_id as int)
        ensures match r {
            Ok(p) => elem_id < self.elems@.len() && forall|k: int| 0 <= k < 4 ==> *(#[trigger] p@[k]) == self.nodes@[self.elems@[elem_id as int].nodes@[k] as int].coords,
            Err(x) => elem_id >= self.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::elem_diag_points
//@@ params elem_id
        requires elem_id < self.elems@.len() ==> corners_in(*self, elem_id as int)
        ensures match r {
            Ok(p) => elem_id < self.elems@.len() && *p@[0] == self.nodes@[self.elems@[elem_id as int].nodes@[0] as int].coords && *p@[1] == self.nodes@[self.elems@[elem_id as int].nodes@[3] as int].coords,
            Err(x) => elem_id >= self.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::edge_points
//@@ params edge_id
        requires edge_id < self.edges@.len() ==> ends_in(*self, edge_id as int)
        ensures match r {
            Ok(p) => edge_id < self.edges@.len() && forall|k: int| 0 <= k < 2 ==> *(#[trigger] p@[k]) == self.nodes@[self.edges@[edge_id as int].nodes@[k] as int].coords,
            Err(x) => edge_id >= self.edges@.len() && x == MeshAccessError::EdgeDoesNotExist(edge_id),
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::descendant_elems
//@@ params elem_id, include_starting_elem
        requires elem_tree(*self).ok()
        ensures match r {
            Ok(v) => elem_id < self.elems@.len() && adds(seq![], v@, subtree(elem_tree(*self), elem_id as int, include_starting_elem)),
            Err(x) => elem_id >= self.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::rec_descendant_elems
//@@ params elem_id, include, desc
        requires elem_tree(*self).ok(), elem_id < self.elems@.len()
        ensures adds(old(desc)@, final(desc)@, subtree(elem_tree(*self), elem_id as int, include))
        decreases self.elems@.len() - elem_id
//@@ loop 0
        __s0@ == (elem_tree(*self).kids)(elem_id as int), adds(old(desc)@, desc@, some_of(elem_tree(*self), elem_id as int, __i0 as int, include)),
//@@ loopstart 0
        let ghost __d = desc@;
//@@ loopend 0
        proof { next_child(elem_tree(*self), elem_id as int, __i0 - 1, include, old(desc)@, __d, desc@); }
//@@ before `if let`
        proof { first_item(elem_tree(*self), elem_id as int, include, old(desc)@, desc@); }
//@@ tail
        proof { all_children(elem_tree(*self), elem_id as int, include, old(desc)@, desc@); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::descendant_edges
//@@ params edge_id, include_starting_edge
        requires edge_tree(*self).ok()
        ensures match r {
            Ok(v) => edge_id < self.edges@.len() && adds(seq![], v@, subtree(edge_tree(*self), edge_id as int, include_starting_edge)),
            Err(x) => edge_id >= self.edges@.len() && x == MeshAccessError::EdgeDoesNotExist(edge_id),
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::rec_descendant_edges
//@@ params edge_id, include, desc
        requires edge_tree(*self).ok(), edge_id < self.edges@.len()
        ensures adds(old(desc)@, final(desc)@, subtree(edge_tree(*self), edge_id as int, include))
        decreases self.edges@.len() - edge_id
//@@ loop 0
        __s0@ == (edge_tree(*self).kids)(edge_id as int), adds(old(desc)@, desc@, some_of(edge_tree(*self), edge_id as int, __i0 as int, include)),
//@@ loopstart 0
        let ghost __d = desc@;
//@@ loopend 0
        proof { next_child(edge_tree(*self), edge_id as int, __i0 - 1, include, old(desc)@, __d, desc@); }
//@@ before `if let`
        proof { first_item(edge_tree(*self), edge_id as int, include, old(desc)@, desc@); }
//@@ tail
        proof { all_children(edge_tree(*self), edge_id as int, include, old(desc)@, desc@); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::ancestor_elems
//@@ params elem_id, include_starting_elem
        requires elem_tree(*self).ok()
        ensures match r {
            Ok(v) => elem_id < self.elems@.len() && v@ == (if include_starting_elem { seq![elem_id] } else { seq![] }) + elem_tree(*self).chain(elem_id as int),
            Err(x) => elem_id >= self.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::rec_ancestor_elems
//@@ params elem_id, include, anc
        requires elem_tree(*self).ok(), elem_id < self.elems@.len()
        ensures final(anc)@ == old(anc)@ + (if include { seq![elem_id] } else { seq![] }) + elem_tree(*self).chain(elem_id as int)
        decreases elem_id
//@@ start
        proof { let t = elem_tree(*self); assert((t.par)(elem_id as int) == (t.par)(elem_id as int)); assert(t.n == self.elems@.len()); }
//@@ endfn
//@@ fn fem_domain/domain/mesh.rs Mesh::max_expansion_orders
        ensures forall|e: int| 0 <= e < self.elems@.len() ==> (#[trigger] self.elems@[e]).poly_orders.ni <= r@[0] && self.elems@[e].poly_orders.nj <= r@[1],
            r@[0] > 0 ==> exists|e: int| 0 <= e < self.elems@.len() && (#[trigger] self.elems@[e]).poly_orders.ni == r@[0],
            r@[1] > 0 ==> exists|e: int| 0 <= e < self.elems@.len() && (#[trigger] self.elems@[e]).poly_orders.nj == r@[1],
//@@ loop 0
        forall|e: int| 0 <= e < __i0 ==> (#[trigger] self.elems@[e]).poly_orders.ni <= __a0@[0] && self.elems@[e].poly_orders.nj <= __a0@[1],
            __a0@[0] > 0 ==> exists|e: int| 0 <= e < __i0 && (#[trigger] self.elems@[e]).poly_orders.ni == __a0@[0],
            __a0@[1] > 0 ==> exists|e: int| 0 <= e < __i0 && (#[trigger] self.elems@[e]).poly_orders.nj == __a0@[1],
//@@ endfn
}
impl PolyOrders {
//@@ fn fem_domain/domain/mesh/p_refinement.rs PolyOrders::max_with
//@@ params other
        ensures r@[0] == (if self.ni > other@[0] { self.ni } else { other@[0] }), r@[1] == (if self.nj > other@[1] { self.nj } else { other@[1] })
//@@ endfn
}
}
