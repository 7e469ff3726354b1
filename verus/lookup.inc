verus! {
// ------------------------------------------------------------------ P08: looking up basis functions
impl VFrom<MeshAccessError> for MeshAccessError {
    open spec fn vfrom_req(e: MeshAccessError) -> bool { true }
    open spec fn vfrom_spec(e: MeshAccessError) -> Self { e }
    fn vfrom(e: MeshAccessError) -> (r: Self) { e }
}
pub proof fn chain_in(t: Tree, e: int, k: int)
    requires t.ok(), 0 <= e < t.n, 0 <= k < t.chain(e).len()
    ensures t.chain(e)[k] < e
    decreases e
{ let p = (t.par)(e)->0; if k > 0 { chain_in(t, p, k - 1); assert(t.chain(e)[k] == t.chain(p)[k - 1]); } }
impl Domain {
//@@ fn fem_domain/domain.rs Domain::get_basis_spec
//@@ params bs_address
        requires self.basis_specs@.len() == self.mesh.elems@.len()
        ensures match r { Ok(s) => held(self.basis_specs@, bs_address) && *s == at(self.basis_specs@, bs_address), Err(_) => !held(self.basis_specs@, bs_address) }
//@@ endfn
//@@ fn fem_domain/domain.rs Domain::local_basis_specs
//@@ params elem_id
        requires self.basis_specs@.len() == self.mesh.elems@.len()
        ensures match r {
            Ok(v) => elem_id < self.mesh.elems@.len() && *v == self.basis_specs@[elem_id as int],
            Err(x) => elem_id >= self.mesh.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ endfn
    /// one entry per listed cell, in that order, with the functions stored for it
    pub open spec fn with_ids(&self, v: Seq<(usize, &Vec<BasisSpec>)>, ids: Seq<usize>) -> bool {
        v.len() == ids.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == ids[k] && *v[k].1 == self.basis_specs@[ids[k] as int]
    }
    pub open spec fn below(&self, v: Seq<(usize, &Vec<BasisSpec>)>, e: int) -> bool { exists|ids: Seq<usize>| #[trigger] self.with_ids(v, ids) && adds(seq![], ids, subtree(elem_tree(self.mesh), e, false)) }
//@@ fn fem_domain/domain.rs Domain::descendant_basis_specs
//@@ params elem_id
        requires self.basis_specs@.len() == self.mesh.elems@.len(), elem_tree(self.mesh).ok()
        ensures match r {
            Ok(v) => elem_id < self.mesh.elems@.len() && self.below(v@, elem_id as int),
            Err(x) => elem_id >= self.mesh.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ acc 0 Vec<(usize, &Vec<BasisSpec>)>
//@@ loop 0
        self.with_ids(__a0@, desc_elem_ids@.take(__i0 as int)), __hi0 == desc_elem_ids@.len(),
            forall|k: int| 0 <= k < desc_elem_ids@.len() ==> (#[trigger] desc_elem_ids@[k]) < self.mesh.elems@.len(),
//@@ before `Ok(desc_elem_ids`
        proof { assert forall|k: int| 0 <= k < desc_elem_ids@.len() implies (#[trigger] desc_elem_ids@[k]) < self.mesh.elems@.len() by { assert((subtree(elem_tree(self.mesh), elem_id as int, false))(desc_elem_ids@[k] as int)); } }
//@@ loopafter 0
        proof { assert(desc_elem_ids@.take(__i0 as int) =~= desc_elem_ids@); assert(self.with_ids(__a0@, desc_elem_ids@)); assert(self.below(__a0@, elem_id as int)); }
//@@ endfn
//@@ fn fem_domain/domain.rs Domain::ancestor_basis_specs
//@@ params elem_id
        requires self.basis_specs@.len() == self.mesh.elems@.len(), elem_tree(self.mesh).ok()
        ensures match r {
            Ok(v) => elem_id < self.mesh.elems@.len() && self.with_ids(v@, elem_tree(self.mesh).chain(elem_id as int)),
            Err(x) => elem_id >= self.mesh.elems@.len() && x == MeshAccessError::ElemDoesNotExist(elem_id),
        }
//@@ acc 0 Vec<(usize, &Vec<BasisSpec>)>
//@@ loop 0
        self.with_ids(__a0@, anc_elem_ids@.take(__i0 as int)), __hi0 == anc_elem_ids@.len(),
            forall|k: int| 0 <= k < anc_elem_ids@.len() ==> (#[trigger] anc_elem_ids@[k]) < self.mesh.elems@.len(),
//@@ before `Ok(anc_elem_ids`
        proof {
            let t = elem_tree(self.mesh);
            assert(anc_elem_ids@ =~= t.chain(elem_id as int));
            assert forall|k: int| 0 <= k < anc_elem_ids@.len() implies (#[trigger] anc_elem_ids@[k]) < self.mesh.elems@.len() by { chain_in(t, elem_id as int, k); }
        }
//@@ loopafter 0
        proof { assert(anc_elem_ids@.take(__i0 as int) =~= anc_elem_ids@); assert(self.with_ids(__a0@, anc_elem_ids@)); }
//@@ endfn
}
}
