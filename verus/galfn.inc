verus! {
// ------------------------------------------------------------------ sizes
pub proof fn prod_small(a: int, b: int, ca: int, cb: int) requires 0 <= a <= ca, 0 <= b <= cb ensures 0 <= a * b <= ca * cb { assert(0 <= a * b <= ca * cb) by (nonlinear_arith) requires 0 <= a <= ca, 0 <= b <= cb; }
/// different numbers below n: there are at most n
pub proof fn few_ids(ids: Seq<usize>, n: int)
    requires forall|i: int, j: int| 0 <= i < j < ids.len() ==> #[trigger] ids[i] != #[trigger] ids[j], forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]) < n, 0 <= n
    ensures ids.len() <= n
{
    let s = ids.map_values(|x: usize| x as int);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(ids[i] != ids[j]); } else { assert(ids[j] != ids[i]); } }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert forall|x: int| #[trigger] s.to_set().contains(x) implies vstd::set_lib::set_int_range(0, n).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(ids[i] < n); }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, n));
}
pub open spec fn in_arc<B: HierCurlBasisFnSpace>(a: Arc<HierCurlBasisFn<B>>) -> HierCurlBasisFn<B> { *a }
// ------------------------------------------------------------------ THE ASSEMBLY
//@@ fn fem_problem/galerkin.rs galerkin_sample_gep_hcurl arrmove
//@@ params domain, glq_grid_dim
//@@ ghostarg BasisFnSampler::with => Ghost(__cells)
//@@ attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
        requires ready::<AI, BI>(*domain)
        ensures match r {
            Err(GalerkinSamplingError::WrongContinuityCondition(x, y)) => domain.cc != ContinuityCondition::HCurl && x == ContinuityCondition::HCurl && y == domain.cc,
            Err(GalerkinSamplingError::EmptyDOFSet) => domain.cc == ContinuityCondition::HCurl && domain.dofs@.len() == 0,
            Err(GalerkinSamplingError::InvalidGLQSettings) => domain.cc == ContinuityCondition::HCurl && domain.dofs@.len() > 0 && too_small(glq_grid_dim),
            Ok(g) => domain.cc == ContinuityCondition::HCurl && domain.dofs@.len() > 0 && !too_small(glq_grid_dim)
                && exists|s: Setup| s.d == *domain && #[trigger] ruled(s, glq_grid_dim) && assembled::<BSpace, AI, BI>(s, g),
        }
//@@ start
        let ghost __cells = domain.mesh.elems@;
        let ghost mut all: Seq<[SparseMatrix; 2]> = seq![];
//@@ before `let a_integrator`
        let ghost z = gep;
        let ghost (im, jm) = (bs_sampler.i_max as int, bs_sampler.j_max as int);
        let ghost s = Setup { d: *domain, gu: bs_sampler.u_points@, gv: bs_sampler.v_points@, w: (u_weights@, v_weights@) };
        proof {
            assert(top_orders(domain.mesh, i_max, j_max));
            assert(ruled(s, glq_grid_dim));
            assert(s.n() == domain.mesh.elems@.len() && rule_fits(s));
            assert forall|e: int| 0 <= e < s.n() implies (#[trigger] s.cell(e)).poly_orders.ni <= im && s.cell(e).poly_orders.nj <= jm by { }
            cells_none::<BSpace, AI>(s, 0); cells_none::<BSpace, BI>(s, 1);
        }
//@@ before `let mut local_a_entries`
            let ghost bse = bf_sampler_elem;
            proof { prod_small(local_basis_specs.len() as int, local_basis_specs.len() as int, 1000, 1000); }
//@@ before `let mut desc_a_entries`
            let ghost ids = choose|ids: Seq<usize>| #[trigger] domain.with_ids(desc_basis_specs@, ids) && adds(seq![], ids, subtree(elem_tree(domain.mesh), e, false));
            proof {
                let st = subtree(elem_tree(domain.mesh), e, false);
                assert forall|t: int| 0 <= t < ids.len() implies #[trigger] ids[t] < s.n() by { assert(st(ids[t] as int)); elem_tree(domain.mesh).above(e, ids[t] as int); }
                few_ids(ids, s.n());
                prod_small(local_basis_specs.len() as int, ids.len() as int, 1000, 1000000000000000);
            }
//@@ acc 0 Vec<[SparseMatrix; 2]>
//@@ loop 0
        __hi0 == s.n(), __a0@.len() == __i0, fitting(__a0@, domain.dofs.len()), cells_done::<BSpace, AI>(s, __a0@, 0, __i0 as int), cells_done::<BSpace, BI>(s, __a0@, 1, __i0 as int),
//@@ loopstart 0
        let ghost e = __i0 as int;
        let ghost pre = __a0@;
        let ghost (mut la, mut lb, mut da, mut db) = (seq![], seq![], seq![], seq![]);
        proof { jac_facts::<AI, BI>(s, e, e); assert(s.cell(e).id == e); assert(sound_cell::<AI, BI>(domain.mesh.elems@[e])); assert(domain.basis_specs@[e]@.len() <= 1000); }
//@@ loop 1
        __hi1 == s.fns(e).len(), local1::<BSpace, AI>(s, local_a_entries@, e, __i1 as int), local1::<BSpace, BI>(s, local_b_entries@, e, __i1 as int),
//@@ loopbefore 1
        proof { local_none::<BSpace, AI>(s, e); local_none::<BSpace, BI>(s, e); }
//@@ loopstart 1
        proof {
            local_row::<BSpace, AI>(s, local_a_entries@, e, __i1 as int); local_row::<BSpace, BI>(s, local_b_entries@, e, __i1 as int);
            assert(sound_fn(*domain, e, __i1 as int));
        }
//@@ loop 2
        __hi2 == s.fns(e).len(), local2::<BSpace, AI>(s, local_a_entries@, e, __i1 - 1, __i2 as int), local2::<BSpace, BI>(s, local_b_entries@, e, __i1 - 1, __i2 as int),
//@@ loopstart 2
        let ghost (ga, gb, j) = (local_a_entries@, local_b_entries@, __i2 as int);
        proof {
            assert(sound_fn(*domain, e, j));
            let x = pair_value::<BSpace, AI, AI, BI>(s, e, __i1 - 1, e, j, in_arc(bs_local), in_arc(bs_local), im, jm);
            let y = pair_value::<BSpace, BI, AI, BI>(s, e, __i1 - 1, e, j, in_arc(bs_local), in_arc(bs_local), im, jm);
        }
//@@ loopend 2
        proof {
            local_push::<BSpace, AI>(s, ga, local_a_entries@.last(), e, __i1 - 1, j);
            local_push::<BSpace, BI>(s, gb, local_b_entries@.last(), e, __i1 - 1, j);
        }
//@@ loopend 1
        proof { local_next::<BSpace, AI>(s, local_a_entries@, e, __i1 - 1); local_next::<BSpace, BI>(s, local_b_entries@, e, __i1 - 1); }
//@@ loopafter 1
        proof { la = local_a_entries@; lb = local_b_entries@; }
//@@ loop 3
        __hi3 == s.fns(e).len(), bf_sampler_elem == bse, desc1::<BSpace, AI>(s, desc_a_entries@, e, __i3 as int), desc1::<BSpace, BI>(s, desc_b_entries@, e, __i3 as int),
//@@ loopbefore 3
        proof { desc_none::<BSpace, AI>(s, e); desc_none::<BSpace, BI>(s, e); }
//@@ loopstart 3
        proof {
            desc_row::<BSpace, AI>(s, desc_a_entries@, e, __i3 as int, ids); desc_row::<BSpace, BI>(s, desc_b_entries@, e, __i3 as int, ids);
            assert(sound_fn(*domain, e, __i3 as int));
        }
//@@ loop 4
        __hi4 == ids.len(), bf_sampler_elem == bse, desc2::<BSpace, AI>(s, desc_a_entries@, e, __i3 - 1, ids, __i4 as int), desc2::<BSpace, BI>(s, desc_b_entries@, e, __i3 - 1, ids, __i4 as int),
//@@ loopstart 4
        let ghost q = ids[__i4 as int] as int;
        proof {
            assert((subtree(elem_tree(domain.mesh), e, false))(ids[__i4 as int] as int));
            elem_tree(domain.mesh).above(e, q);
            jac_facts::<AI, BI>(s, q, q); assert(s.cell(q).id == q);
            assert(desc_basis_specs@[__i4 as int].0 == q && *desc_basis_specs@[__i4 as int].1 == domain.basis_specs@[q]);
            desc_cell::<BSpace, AI>(s, desc_a_entries@, e, __i3 - 1, ids, __i4 as int); desc_cell::<BSpace, BI>(s, desc_b_entries@, e, __i3 - 1, ids, __i4 as int);
        }
//@@ loop 5
        __hi5 == s.fns(q).len(), desc3::<BSpace, AI>(s, desc_a_entries@, e, __i3 - 1, ids, __i4 - 1, __i5 as int), desc3::<BSpace, BI>(s, desc_b_entries@, e, __i3 - 1, ids, __i4 - 1, __i5 as int),
//@@ loopstart 5
        let ghost (ga, gb, j) = (desc_a_entries@, desc_b_entries@, __i5 as int);
        proof {
            assert(sound_fn(*domain, q, j));
            let x = pair_value::<BSpace, AI, AI, BI>(s, e, __i3 - 1, q, j, in_arc(bs_p_sampled), in_arc(bs_q_local), im, jm);
            let y = pair_value::<BSpace, BI, AI, BI>(s, e, __i3 - 1, q, j, in_arc(bs_p_sampled), in_arc(bs_q_local), im, jm);
        }
//@@ loopend 5
        proof {
            desc_push::<BSpace, AI>(s, ga, desc_a_entries@.last(), e, __i3 - 1, ids, __i4 - 1, j);
            desc_push::<BSpace, BI>(s, gb, desc_b_entries@.last(), e, __i3 - 1, ids, __i4 - 1, j);
        }
//@@ loopend 4
        proof { desc_cell_done::<BSpace, AI>(s, desc_a_entries@, e, __i3 - 1, ids, __i4 - 1); desc_cell_done::<BSpace, BI>(s, desc_b_entries@, e, __i3 - 1, ids, __i4 - 1); }
//@@ loopend 3
        proof { desc_next::<BSpace, AI>(s, desc_a_entries@, e, __i3 - 1, ids); desc_next::<BSpace, BI>(s, desc_b_entries@, e, __i3 - 1, ids); }
//@@ loopafter 3
        proof { da = desc_a_entries@; db = desc_b_entries@; }
//@@ loopend 0
        proof {
            let x = __a0@.last();
            assert(__a0@ =~= pre.push(x));
            cells_next::<BSpace, AI>(s, pre, 0, e, x, la, da); cells_next::<BSpace, BI>(s, pre, 1, e, x, lb, db);
        }
//@@ loopafter 0
        proof { all = __a0@; }
//@@ before `Ok(gep)`
        proof { cells_all::<BSpace, AI, BI>(s, all, gep, z); }
//@@ endfn
}
