verus! {
//@@ const fem_domain/domain/mesh.rs MAX_POLYNOMIAL_ORDER
//@@ const fem_domain/domain/mesh.rs MIN_EDGE_LENGTH
//@@ enum fem_domain/domain/mesh/space.rs ParaDir derive=Clone,Copy,PartialEq,Eq,Structural
//@@ struct fem_domain/domain/mesh/space.rs FloatRep derive=Clone,Copy has=PartialEq,Eq subst=u64:FBits
//@@ struct fem_domain/domain/mesh/space.rs Point derive=Clone,Copy
#[derive(Clone, Copy)]
pub struct Complex64 { pub re: F, pub im: F }
//@@ struct fem_domain/domain/mesh/element.rs Materials derive=+Clone has=Clone
//@@ struct fem_domain/domain/mesh/element.rs Element
//@@ struct fem_domain/domain/mesh/h_refinement.rs HLevels derive=Clone,Copy
//@@ enum fem_domain/domain/mesh/h_refinement.rs HRefLoc derive=Clone,Copy
//@@ enum fem_domain/domain/mesh/h_refinement.rs HRef derive=Clone,Copy
//@@ enum fem_domain/domain/mesh/h_refinement.rs HRefError derive=Debug
//@@ struct fem_domain/domain/mesh/p_refinement.rs PolyOrders derive=Clone,Copy
//@@ enum fem_domain/domain/mesh/p_refinement.rs PRefInt derive=Clone,Copy
//@@ struct fem_domain/domain/mesh/p_refinement.rs PRef derive=Clone,Copy
//@@ struct fem_domain/domain/mesh/p_refinement.rs Orders derive=Clone,Copy
//@@ enum fem_domain/domain/mesh/p_refinement.rs PRefError derive=Debug
//@@ enum fem_domain/domain/mesh.rs MeshAccessError derive=Debug
//@@ struct fem_domain/domain/mesh/elem.rs Elem
//@@ struct fem_domain/domain/mesh/edge.rs Edge
//@@ struct fem_domain/domain/mesh/node.rs Node
//@@ struct fem_domain/domain/mesh.rs Mesh
}
