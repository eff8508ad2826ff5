"""Writes properties.jsonl and MANIFEST.json from one description (run after editing it)."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DT='libraries/datatypes/'; PL='libraries/plumbing/'
TECH='contract-based deductive verification: harness contracts over LLVM IR of the real code, verification conditions discharged by polynomial normal form, z3 and cvc5'
NOTE='Every obligation generated from the IR clang produces from /repo on this run is discharged for all inputs. '
REAL='Floating point is treated as exact real arithmetic; real divisors are assumed non-zero and square-root arguments non-negative. '
A=[]   # (id,title,statement,over,text,why,files,mechanism[(name,where)],note)
def prop(*a,**k): A.append((a,k))
prop('C01','Complex numbers follow complex arithmetic, with real scalars and in place',
 'Every Complex operation (+ - * /, conjugated products, comparison, compound assignment, mixed real/complex and mixed precision forms, conj, squarenorm, abs, arg, real/imag access, casts, exp/log/sqrt/pow and trigonometric functions) gives the value of the textbook real formula for the two components. This holds for all operands, including when the right-hand side is the object itself or one of its own components. Operands that are not assigned to are left unchanged.',
 ['inputs'],'all component values, all operand type combinations, all aliasing of operands','the tests sample a few values and never alias operands',
 [DT+'cmplx.h',DT+'cmplx_utilities.h'],[('Complex operators','libraries/datatypes/cmplx.h')],NOTE+REAL)
prop('C02','Matrix and vector algebra equals the index formulas',
 'Matrix, Vector and RowVector operations (products of every shape, sums, scalar forms, transpose/conj/dagger, trace, dot and outer products, mul_trace, mult/mult_add/mult_sub, norms, row/column/diagonal access, 2x2 sub-block and Givens multiplications, powers, comparison, casts) give, element by element, the textbook index formula. Products with a scalar or object that aliases the destination also give the result computed from the old values. Only the documented destination is modified.',
 ['inputs'],'all element values for the instantiated shapes up to 4x4 (5 for selected ones) and element types real, complex, single, double, mixed','the tests check identities on a few random matrices of a few shapes',
 [DT+'matrix.h'],[('Matrix_t and free operators','libraries/datatypes/matrix.h')],NOTE+REAL+'Proved per instantiated shape and element type, not for symbolic dimensions.')
prop('C03','Determinants, inverses and linear solves satisfy their defining equations',
 'For every square matrix the Laplace and LU determinants equal the Leibniz determinant. For every non-singular matrix the LU inverse times the matrix is the unit matrix and the LU solution x of A x = b satisfies the equation, whatever pivoting the values cause.',
 ['inputs'],'all matrix elements, all pivot orders; Laplace up to 5x5, LU determinant up to 3x3 (2x2 complex), inverse and solve up to 3x3 real and 2x2 complex','the tests use a handful of random matrices, so most pivot orders are never taken',
 [DT+'matrix_linalg.h'],[('det_laplace, det_lu, LU_invert, LU_solve','libraries/datatypes/matrix_linalg.h')],NOTE+REAL+'The zero-pivot early return of det_lu is proved for 2x2 real only.')
prop('C04','Array and DiagonalMatrix operations act element by element',
 'Array arithmetic, scalar forms, compound assignments, comparisons, reductions (sum, squarenorm, dot, min, max) and elementary functions act independently on each element with the scalar formula. DiagonalMatrix operations give the result of the diagonal matrix they denote, also in combination with full, vector and non-square matrices. Results do not change when a scalar operand is an element of the object being modified.',
 ['inputs'],'all element values for the instantiated shapes; elementary functions are uninterpreted','the tests only touch a few operations on constant values',
 [DT+'array.h',DT+'diagonal_matrix.h'],[('Array','libraries/datatypes/array.h'),('DiagonalMatrix','libraries/datatypes/diagonal_matrix.h')],NOTE+REAL)
prop('C05','SU(2) quaternion type and U(1) phase type represent their matrix groups',
 'SU2 and its Lie algebra agree with the 2x2 complex matrices they represent for every operation (product, sum, dagger, trace, determinant, projection, expansion, conjugation, exponential, logarithm, conversion). Normalisation and random generation give determinant one, products of unit elements are unit, and exp of an algebra element is a unit element. U1 multiplication adds phases and converts to the unit complex number.',
 ['inputs'],'all component values (unit elements through an exact rational parametrisation of SU(2))','the tests compare a few random elements',
 [DT+'su2.h',DT+'u1.h'],[('SU2, Algebra<SU2>','libraries/datatypes/su2.h'),('U1','libraries/datatypes/u1.h')],NOTE+REAL+'Random deviates are arbitrary reals (assumed contract of the generator).')
prop('C06','SU(N) algebra basis, projection, conjugation and reunitarisation',
 'For SU(N) the Lie algebra generators are traceless, antihermitean and normalised to tr(g_i g_j) = -delta_ij/2; expanding an algebra element and projecting it back is the identity, and projecting any matrix gives exactly its traceless antihermitean part. Conjugation of algebra elements by a group element and the bilinear projections equal the corresponding traces with the generators. Making a matrix unitary gives U U+ = 1 and fixing its determinant multiplies every element by the common phase exp(-i arg(det)/N).',
 ['inputs'],'all element values; N=2,3,4 for the algebra, N=2,3 for products and determinant, N=2 for the Gram-Schmidt step','the tests only check unitarity of random elements',
 [DT+'sun_matrix.h'],[('SU, Algebra<SU>','libraries/datatypes/sun_matrix.h')],NOTE+REAL+'Square roots of constants are exact. make_unitary is proved outright for N=2; for N=3,4 each Gram-Schmidt step is proved (row r becomes orthonormal to the rows before it, with the root stubbed by its defining equation).')
prop('C07','Directions, parities and coordinate vectors form a consistent lattice algebra',
 'Negating a direction is a fixed-point-free involution that negates its unit vector, and every mix of directions, integers and coordinate vectors in sums, differences and products is the integer vector formula. The parity of a site is the parity of its coordinate sum, flips on each unit step, and opposite parity exchanges EVEN and ODD. Reduction modulo the lattice size lies in range and differs by a multiple of the size, so stepping one way and back across the periodic boundary returns to the same site.',
 ['inputs','configurations'],'all directions, parities and coordinates with |c| <= 2^28, all sizes up to 2^28, for 1 to 4 dimensions','the tests use a few fixed coordinates in one dimension setting',
 [PL+'coordinates.h'],[('Direction, Parity, CoordinateVector','libraries/plumbing/coordinates.h')],NOTE+'Integers are exact machine integers.')
prop('C08','Node-local site order is a bijection with even sites first',
 'On every node the site index and the site coordinates are inverse one-to-one maps between the node box and 0..volume-1, whatever the (even, odd or uneven) box sizes and offsets. Even sites come first and fill the range of the EVEN loop, odd sites the range of the ODD loop, ALL covers both. The stored coordinates, parity and membership queries of a site agree with this map, and the global running index is a one-to-one map between lattice sites and 0..volume-1.',
 ['inputs','configurations'],'all node boxes with fewer than 2^31 sites, all sites, 2 to 4 dimensions','tests run on power-of-two lattices, so odd sizes and uneven boxes are never reached',
 [PL+'lattice.h',PL+'lattice.cpp',PL+'site_index.h'],[('node_struct::setup, site_index, coordinates','libraries/plumbing/lattice.cpp'),('SiteIndex','libraries/plumbing/site_index.h')],NOTE+'Integers are exact machine integers.')
prop('C09','Every lattice site is owned by exactly one node',
 'For every lattice size and node count for which a layout is found, the divisions multiply to the number of nodes and split each direction into non-empty intervals. Every site then belongs to exactly one node: the rank computed for a site is the node whose box contains it, the box reported for a rank and the box a node sets up for itself agree, boxes do not overlap, and the remapping of ranks is a bijection.',
 ['inputs','configurations'],'all divisions, sizes and sites for the ownership maps in 2 to 4 dimensions; the division search itself only in the stated bounds','tests run on one to four ranks with power-of-two lattices',
 [PL+'lattice.cpp',PL+'setup_layout_generic.cpp',PL+'map_node_layout.cpp'],[('node_rank, nodeinfo, setup_nodes, fill divisors','libraries/plumbing/lattice.cpp'),('setup_layout','libraries/plumbing/setup_layout_generic.cpp')],NOTE+'The division search (setup_layout) is a bounded exhaustive stand-in, not proved.')
prop('C10','Neighbour tables and halo messages connect the right sites',
 'On every node the neighbour index of a site in each direction is the local index of the periodic neighbour or, if that lives on another node, its own slot in the receive buffer of that direction, with even slots before odd ones and the buffers disjoint inside the field allocation. Message size, parity split, partner rank and order of the list of sites on the sending node match the slots of the receiving node, so that each slot receives the value of the right site. Wait bits mark exactly the sites with off-node neighbours, and non-periodic directions get copies of exactly the sites on the outer plane.',
 ['inputs','configurations'],'all node boxes and lattice sizes with fewer than 2^31 sites, all sites and directions, 2 and 4 dimensions (3 in the thorough tier)','tests run on few ranks and even lattices, and would not notice permuted slots of equal values',
 [PL+'lattice.cpp',PL+'lattice.h'],[('create_std_gathers, initialize_wait_arrays, special boundaries','libraries/plumbing/lattice.cpp'),('comm_node_struct','libraries/plumbing/lattice.h')],NOTE+'The final step from equal order of the sites on sender and receiver to equal slot numbers is a counting argument given in DESIGN.md.')
prop('C11','Halo exchange never hands out outdated neighbour values',
 'After any sequence of assignments, started and completed gathers and changes of boundary conditions, a halo that is reported as gathered holds the current values of the neighbour sites, with the sign change of antiperiodic boundaries on exactly the outer edge. Every message is posted once, with the buffer, size, partner and tag its counterpart expects, no request is reused or forgotten while in progress, and ranks skip a message only if the counterpart skips it too. Assigning sites of one parity invalidates exactly the halos that depend on it, in all directions.',
 ['histories','inputs','configurations'],'all states of the gather bookkeeping (inductive invariant, so all histories), all ranks, halo sizes and boundary conditions, all directions in 2 dimensions and an upward and a downward one in 4 (all directions in 3 and 4 in the thorough tier)','tests run the generated start/wait pairs on a few ranks and never interleave starts, partial parities and boundary condition changes',
 [PL+'field_comm.h',PL+'field.h',PL+'backend_cpu/field_storage_backend.h'],[('start_communication, wait_gather, check_communication','libraries/plumbing/field_comm.h'),('mark_changed, set_boundary_condition','libraries/plumbing/field.h'),('gather_elements, set_local_boundary_elements','libraries/plumbing/backend_cpu/field_storage_backend.h')],NOTE+'CPU backend; MPI calls are stubs that check their arguments against a ghost record of the messages in progress.')
prop('C12','Link updates stay in SU(N), keep or sample the action as documented',
 'Overrelaxation and heat bath multiply a link by SU(2) subgroup elements only, so a link in SU(N) stays in SU(N), and the staple is not changed. Overrelaxation leaves the action Re tr(U S^+) exactly as it was; the heat bath element is the one that the documented Kennedy-Pendleton or Creutz rule gives for the drawn deviates, with a0 in [-1,1] whatever is drawn, also when every try of the rejection loop fails. The random order of subgroups and directions is a permutation.',
 ['inputs','histories'],'all links and staples with non-zero SU(2) parts, all beta > 0, all sequences of random numbers (rejection loops by invariant), N = 2 and 3','a test samples a few configurations and cannot draw the deviates for which every rejection step fails',
 ['libraries/gauge/sun_heatbath.h','libraries/gauge/sun_overrelax.h','libraries/gauge/KennedyPendleton.h','libraries/gauge/sun_max_staple_sum_rot.h',PL+'shuffle.h'],[('suN_heatbath','libraries/gauge/sun_heatbath.h'),('suN_overrelax','libraries/gauge/sun_overrelax.h'),('KennedyPendleton','libraries/gauge/KennedyPendleton.h'),('suN_max_staple_sum_rot','libraries/gauge/sun_max_staple_sum_rot.h'),('hila::shuffle','libraries/plumbing/shuffle.h')],NOTE+'Real arithmetic; suN_max_staple_sum_rot and the overrelaxation based on it for N = 2 only (they iterate for N > 2), suN_overrelax_dFJ is not covered (singular value decomposition).')
prop('C13','Reductions over ranks return the old value plus every contribution once',
 'A Reduction or ReductionVector variable holds, after any sequence of assignments, site loops, changes of the allreduce, delayed and nonblocking options, start_reduce, reduce and value calls, the last assigned value plus (or, for products of a ReductionVector, times) the contributions of all ranks since, each exactly once: on rank 0, and with allreduce on every rank. The options never change the result. Sums of ordinary variables (coalesced per element type), reduce_node_sum and reduce_node_product return the combination of all ranks to every rank, or to rank 0 only and leave the others alone. Field min and max return the extreme value and its location over the ranks, for values of any sign. A site selection collects on each rank every selected site once, with the value selected last for it, up to the limit, and counts the rest.',
 ['histories','inputs','configurations'],'all states of a reduction variable (inductive invariant, so all histories), all ranks, all values and option settings; real and complex variables; vectors of three elements','tests use fresh variables, and one or a few ranks; reuse after a delayed reduction or negative extreme values are never seen',
 [PL+'reduction.h',PL+'reductionvector.h',PL+'com_mpi.h',PL+'com_mpi.cpp',PL+'site_select.h'],[('Reduction<T>::reduce_sum_node, do_reduce_operation, start_reduce, value','libraries/plumbing/reduction.h'),('Field<T>::minmax','libraries/plumbing/reduction.h'),('ReductionVector<T>::init_sum, reduce_sum, reduce_product','libraries/plumbing/reductionvector.h'),('hila_reduce_sums, reduce_node_sum','libraries/plumbing/com_mpi.cpp'),('SiteSelect, SiteValueSelect','libraries/plumbing/site_select.h')],NOTE+'MPI calls are stubs that check the contribution of the rank against a ghost share and return an arbitrary total; real arithmetic (order of summation does not matter). Loops over array elements are unrolled for three elements. Joining the site selections of the ranks is not covered (SiteIndex itself: C08).')
HOOKS=dict(guard='HILA_VERIFY',enable='-DHILA_VERIFY -include /verif/proofs/hila_verify.h',source_commits=['166b617','8ba5604','212fae3','aa17af6','000afd2'])
NA=[]
def na(id,title,statement,over,text,why,files,mech,reason): NA.append((id,title,statement,over,text,why,files,mech,reason))
exec(open(os.path.join(V,'engine','mkdocs_na.py')).read()) if os.path.exists(os.path.join(V,'engine','mkdocs_na.py')) else None
def rec(id,title,st,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
with open(V+'/properties.jsonl','w') as f:
    for a,k in A: f.write(json.dumps(rec(*a[:8]))+'\n')
    for n in NA: f.write(json.dumps(rec(*n[:8]))+'\n')
M=dict(version=1,hooks=HOOKS,setup_cmd='bash setup.sh',checks=[],not_applicable=[dict(property=n[0],reason=n[8]) for n in NA],
 notes='All checks: python3-vt engine/check.py <ID>; see DESIGN.md.')
for a,k in A:
    M['checks'].append(dict(property=a[0],quick_cmd='python3-vt engine/check.py '+a[0],thorough_cmd='python3-vt engine/check.py %s --thorough'%a[0],technique=k.get('tech',TECH),level=k.get('level','proof'),level_note=a[8]))
json.dump(M,open(V+'/MANIFEST.json','w'),indent=1)
