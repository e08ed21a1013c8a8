#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=s, meaning=s) for s in state], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
A='src/assembly.cpp'; H='src/homogenize.cpp'; M='src/micro.cpp'; S='src/solve.cpp'; O='src/output.cpp'; W='src/wrapper.cpp'; L='src/ell.cpp'
API=['public class API: constructor, set_macro_strain, homogenize, get_macro_stress, get_macro_ctan']

p('C01','Elastic macro stress is the volume average of the equilibrated micro stress',
  'For every elastic microstructure (2D plane strain or 3D, any grid, cell size, phase contrast) and every imposed macro strain, the stress returned for a point equals the volume average, over the whole cell, of the stress of the equilibrated displacement field with affine boundary displacements. Strain and stress use the order xx,yy,xy (2D) or xx,yy,zz,xy,xz,yz (3D) with engineering shear strains.',
  ['inputs','configurations'],'all grids, cell sizes, microstructures, elastic constants and macro strains for which the solver tolerances resolve the response',
  'The repository tests print numbers for a handful of cubes and assert nothing; the claim is over all geometries, contrasts and strains.',
  [A,H,S,L],['nodal displacement u','element material map'],[('residual assembly','assembly_rhs, get_elem_rhs2D/3D'),('volume averaging','calc_ave_stress'),('linear solve','ell_solve_cgpd_*')],API)
p('C02','Returned tangent is the derivative of the returned stress',
  'After a homogenisation the tangent operator returned for a point is the derivative of its macro stress with respect to its macro strain at that strain and history: entry (i,j), row-major, is d stress_i / d strain_j. This holds in elastic, plastic and unloading states, away from the yield kink.',
  ['inputs','histories'],'all macro strains and committed histories whose response is differentiable there',
  'Newton convergence of the macro solver depends on it for every strain state; tests only print the tangent.',
  [H,A,S],['macro_ctan of the point'],[('finite differences of the averaged stress','homogenize'),('perturbed solves','set_displ/newton_raphson')],API)
p('C03','Localised field honours the imposed strain and is in equilibrium',
  'The displacement field written for a point equals the affine field of its macro strain on the whole boundary of the cell, its element strains average to the imposed macro strain, its element stresses average to the returned macro stress, and its interior is in static equilibrium. This holds in elastic and plastic states, in 2D and 3D.',
  ['inputs','configurations','histories'],'all grids, cell sizes, strains and converged load histories',
  'Needs every boundary face, edge and corner node of every grid shape, and equilibrium under any load; no test reads the field.',
  [A,O,S],['u','elem_strain','elem_stress'],[('affine boundary displacement','set_displ'),('field computation','calc_fields'),('field output','write_vtu')],['micropp_<gp>_<step>.vtu'])
p('C04','Effective elastic tensor is symmetric, positive definite and within bounds',
  'For every elastic two-phase cell the returned tangent is symmetric and positive definite and lies between the Reuss (harmonic) and Voigt (arithmetic) averages of the phase stiffnesses in the sense of quadratic forms. It collapses to the isotropic phase stiffness when the cell holds a single phase.',
  ['inputs','configurations'],'all two-phase cells, contrasts and grids',
  'A bound over all microstructures and all directions of strain, which a sample of printed numbers does not address.',
  [A,H,M],['ctan_lin','macro_ctan'],[('homogenised tangent','calc_ctan_lin, homogenize')],API)
p('C05','Uniformly strained cell follows J2 plasticity along any strain path',
  'A cell without interior nodes returns, for any sequence of applied and committed 3D strains, the volume average of the J2 return-mapping law of its phases: elastic inside the yield surface, and otherwise radial return to a yield surface whose radius is sqrt(2/3)(Sy + Ka*alpha) with the committed alpha, with plastic strain and alpha growing accordingly. Volumetric response stays elastic and reverse loading sees the accumulated plastic strain and hardening.',
  ['inputs','histories'],'all strain paths (proportional, rotating, cyclic, non-proportional, shear dominated) and material constants',
  'The law must hold over unbounded load histories and all six strain directions; tests run one monotone path and check nothing.',
  [A,H],['internal variables of each integration point'],[('return mapping','plastic_step'),('state handling','get_stress3D, update_vars')],API)
p('C06','Heterogeneous plastic cell follows the incremental equilibrium solution',
  'For every 3D cell with at least one plastic phase and every load history applied in increments that the Newton scheme resolves, the returned stress, tangent and internal variables are those of the equilibrated incremental elasto-plastic problem with affine boundary displacements.',
  ['inputs','histories','configurations'],'all cells and load histories in increments for which Newton converges',
  'Interaction of history, redistribution between phases and solver over arbitrary histories; tests never compare against a solution.',
  [A,H,S],['u','internal variables'],[('Newton loop','newton_raphson'),('return mapping','plastic_step'),('commit','update_vars')],API)
p('C07','History changes only on commit, and commits the latest trial',
  'Results depend only on the committed history and the current strain: evaluating any number of trial strains between commits leaves no trace, a commit stores exactly the state of the last evaluated trial, and repeating a commit without a new evaluation changes nothing. Re-evaluating the committed strain reproduces the committed stress.',
  ['histories'],'all interleavings of strain setting, evaluation, commit and re-evaluation',
  'A property of operation sequences; the tests only run set-evaluate-commit in lockstep.',
  [H,A],['int_vars_n','int_vars_k','vars_old','vars_new'],[('trial/committed split','homogenize, update_vars')],API+['update_vars'])
p('C08','Gauss points are independent and addressed by their id',
  'Every Gauss point behaves as if it were alone: its stress, tangent, flag and history depend only on the strains set for its own id, whatever other points exist, whatever their number, ids, load or order of creation. Ids may be any integers; querying an id that was never set leaves the output buffers untouched (flag 0).',
  ['histories','inputs'],'all sets of points, ids, and interleavings of operations on them',
  'Cross-talk needs particular combinations of points and histories; tests use one point or a few with identical loads.',
  [H,M],['gauss_list'],[('lookup by id','set_macro_strain, get_*'),('shared work arrays','vars_old, vars_new, u')],API)
p('C09','Instances are isolated from each other, also across threads',
  'Several solver objects of different dimensions, sizes and materials used alternately in one thread, or concurrently with one object per thread, give exactly the results each would give alone, and share no unsynchronised memory.',
  ['schedules','histories','configurations'],'all interleavings of operations on distinct objects, sequential or threaded',
  'Schedules and combinations of sizes are unbounded; tests build a single object.',
  [M,H,A,L,S],['all members of the class'],[('no static mutable state in the class','src/*.cpp')],API+['ThreadSanitizer'])
p('C10','No memory error, undefined behaviour or leak in any valid use',
  'Any sequence of valid calls - construction, strain setting, evaluation, commit, output, file writing, destruction, the C/Fortran interface and the sparse matrix routines, on any grid of at least 2 nodes per direction - performs no out-of-bounds or use-after-free access, no undefined behaviour, and releases all memory it allocated.',
  ['inputs','configurations','histories'],'all valid call sequences and grid shapes',
  'Index arithmetic on structured grids goes wrong only for particular shapes; tests run square grids without instrumentation.',
  [M,H,A,L,O,W],['all heap arrays'],[('structured index arithmetic','ell_init_*, ell_add_struct*, ell_set_bc_*'),('ownership','destructor')],['AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer'])
p('C11','Results are a deterministic function of the inputs',
  'Repeating the same sequence of calls gives bit-identical stresses, tangents, flags and files, whatever the heap and stack held before; no result, branch or output ever depends on uninitialised memory.',
  ['histories','configurations'],'all call sequences and all prior memory contents',
  'Uninitialised reads usually return zero in a short test process; only varying memory contents exposes them.',
  [M,H,A,L,O],['heap arrays','gp_t records','local variables'],[('initialisation','constructor, set_macro_strain, newton_raphson')],['valgrind memcheck; runs under different heap and stack fill patterns'])
p('C12','Linear shortcut applies exactly when the elastic stress trace is below tolerance',
  'With a positive linearity tolerance, a point that has never yielded and whose elastic macro stress has a trace smaller in magnitude than the tolerance gets the elastic response (stress = elastic tensor times strain, tangent = elastic tensor) without iterations; in every other case - trace at or above the tolerance, or a point that has yielded before - it gets the full nonlinear solution. A tolerance of zero disables the shortcut.',
  ['inputs','histories'],'all tolerances, strains and histories',
  'Depends on the combination of strain, tolerance and history of the point.',
  [H],['inv_tol','ctan_lin','int_vars_n'],[('shortcut decision','is_linear, homogenize')],API+['micropp_convergence.dat'])
p('C13','Newton iteration terminates, and the convergence it reports is true',
  'Every evaluation terminates within the iteration limit of 40; the iteration count and residual norm written for a point are those of its own last evaluation (stress solve and one per tangent column), a residual reported below 1e-5 means the solution really is in equilibrium, and resolvable load increments are reported as converged. Elastic cells need at most a few iterations.',
  ['inputs','histories'],'all cells, strains, increments and histories, including ones that do not converge',
  'Whether a reported number is truthful must be decided on every load, not on one printed line.',
  [S,H,O],['nr_its','nr_err'],[('Newton loop','newton_raphson'),('recording','homogenize, write_info_files')],['micropp_convergence.dat'])
p('C14','Field files are well formed and describe the requested point',
  'Writing the field of a point at a step creates one file named by point and step, complete and consistent: node coordinates, cell connectivity, offsets and types of the structured grid, and displacement, strain, stress, phase, plastic strain norm and hardening of that point at its current strain and committed history, in matching order and number. An unknown point writes nothing.',
  ['inputs','configurations','histories'],'all grids, points, steps and histories',
  'Covers all grid shapes and all points with their own history; no test reads the files.',
  [O,A],['elem_strain','elem_stress','elem_type','vars_old'],[('VTU writer','write_vtu, output')],['micropp_<gp>_<step>.vtu'])
p('C15','Monitoring files record every point truthfully, once per call',
  'Each request to write the monitoring files appends exactly one record with one group per Gauss point, in order of creation, to each file: flag, invariant, iterations and residuals; strain, stress and tangent equal to what the getters return; and the committed internal variables. A header with the point ids is written once, the material file lists the constants of each phase, and constructing an object starts the files afresh.',
  ['histories','inputs'],'all numbers of points, calls and histories in 2D and 3D',
  'Consistency between files and state over arbitrary histories; tests never read these files.',
  [O,M],['gauss_list records'],[('info writer','write_info_files'),('material file','constructor')],['micropp_convergence.dat','micropp_eps_sig_ctan.dat','micropp_int_vars_n.dat','micropp_materials.dat'])
p('C16','Observing a point never changes any result',
  'Reading stress, tangent or flag, writing field files and writing monitoring files, at any moment and for any point, change neither the current nor any later result of any point, nor what the next commit stores.',
  ['histories'],'all placements of observations in a history',
  'The field writer re-solves the point on shared work arrays; damage shows only in later steps of particular histories.',
  [O,H],['vars_old','vars_new','u'],[('re-solve in output','output'),('readers','get_*')],API+['output','write_info_files'])
p('C17','C/Fortran interface gives exactly the results of the class',
  'Driving the solver through the flat C/Fortran interface produces bit-identical stresses, tangents, flags and files to the same calls on the class, including after the interface has been constructed again with other parameters.',
  ['histories','configurations'],'all call sequences through the interface',
  'Argument forwarding must be right for every call and state, and re-construction must start clean.',
  [W],['module-level instance'],[('forwarding','micropp_*_ functions')],['micropp_*_ symbols'])
p('C18','Sparse assembly equals the sum of the element matrices',
  'For every 2D or 3D structured grid, number of fields and set of element matrices, assembling them into the sparse matrix and multiplying by any vector equals multiplying by the dense sum of the element matrices scattered to their nodes; contributions accumulate and clearing the matrix resets it to zero.',
  ['inputs','configurations'],'all grid shapes, field counts, element matrices and vectors',
  'Index tables differ for each of the corners, edges, faces and the interior of each grid shape.',
  [L],['ell_matrix.cols','ell_matrix.vals'],[('pattern','ell_init_2D/3D'),('scatter','ell_add_struct2D/3D'),('product','ell_mvp_2D')],['ell_* functions'])
p('C19','Boundary conditions leave an identity boundary and an untouched interior',
  'Applying the boundary conditions to an assembled matrix makes every boundary row and column that of the identity, leaves every interior-interior entry exactly as it was, and so keeps a symmetric positive definite matrix symmetric positive definite, for every grid shape and number of fields.',
  ['inputs','configurations'],'all grid shapes, field counts and matrices',
  'Edges and corners of non-cubic grids are separate code paths.',
  [L],['ell_matrix.vals'],[('row/column elimination','ell_set_bc_2D/3D')],['ell_* functions'])
p('C20','Linear solvers return the solution, or say truthfully that they did not',
  'On symmetric positive definite systems the conjugate gradient solvers reach the requested tolerance and return the solution from any start vector; a reported error below the tolerance is the true residual norm of the returned vector, an iteration cap is respected and a solve it cuts short is visible as an error not below the tolerance, the matrix and right-hand side are not modified, and null arguments are rejected with a non-zero code. The Jacobi solver does the same on diagonally dominant systems.',
  ['inputs'],'all such systems, start vectors, tolerances and caps',
  'Convergence and truthfulness quantify over matrices, right-hand sides and caps.',
  [L],['solver.its','solver.err'],[('PCG','ell_solve_cgpd_2D, ell_solve_cgpd_struct'),('Jacobi','ell_solve_jacobi_2D')],['ell_solve_* functions'])
p('C21','Response scales with units and follows the symmetries of the cell',
  'Multiplying moduli and yield stresses by a factor multiplies stresses and tangents by that factor; scaling all lengths (cell and inclusion) changes nothing; strain and yield stress scaled together scale the stress; and mirroring or exchanging axes of the problem mirrors or exchanges the response. This holds for elastic and plastic histories.',
  ['inputs','histories','configurations'],'all cells, histories, factors and axis exchanges compatible with the microstructure',
  'A relation between pairs of runs, over all problems; each run alone looks plausible.',
  [A,H,M],['dx,dy,dz','material_list'],[('element geometry','calc_bmat_3D'),('averages','calc_ave_stress')],API)
p('C22','Nonlinear flag is set exactly for points that have yielded',
  'The nonlinear flag of a point is 0 until one of its evaluations by the full solution has produced plastic flow at some integration point and 1 from then on, in the flag query and in the monitoring file alike; it concerns only that point, is never set in 2D or in purely elastic cells, and never goes back.',
  ['histories','inputs'],'all histories, cells and sets of points',
  'Needs yielding confined to single elements or integration points, in any corner of the cell, and mixed histories.',
  [A,H,M],['int_vars_n allocation'],[('flag propagation','assembly_rhs, homogenize'),('query','get_nl_flag')],['get_nl_flag','micropp_convergence.dat'])
p('C23','Plastic flow is irreversible, isochoric and dissipative',
  'Along any history the committed hardening variable of every integration point never decreases, committed plastic strains stay traceless, plastic variables of elastic phases stay zero, cell stresses respect the yield limit of their phase, and the work done on an initially virgin cell along any history is never negative.',
  ['histories','inputs'],'all load histories, including cycles and partial unloading',
  'Invariants over whole histories, observed at every commit and every integration point.',
  [A,H],['int_vars_n'],[('flow rule','plastic_step'),('commit','update_vars')],['micropp_int_vars_n.dat','VTU fields','macro stress'])
p('C24','Phases are laid out as the microstructure parameters say',
  'Each cell of the grid belongs to the inclusion phase exactly when its centroid lies closer to the centre of the cell than the given radius (sphere or cylinder) or below the given height (layer), for every grid, cell shape and width, and it responds with the constants of that phase.',
  ['configurations','inputs'],'all grids, anisotropic cell shapes, widths (including none and all) and both microstructures in 2D and 3D',
  'Every element of every geometry; tests only use the unit cube.',
  [M,A],['elem_type','material_list'],[('phase decision','get_elem_type2D/3D'),('material lookup','get_material')],['VTU elem_type, stress and strain fields'])
p('C25','Stress invariants are frame indifferent and feed the shortcut',
  'The first and second invariants offered for 3D tensors are unchanged by any rotation of the axes and equal the trace and the sum of principal minors; in 2D the first invariant is the in-plane trace. The invariant reported in the monitoring file is the magnitude of the trace of the elastic macro stress of that point for its last evaluated strain.',
  ['inputs'],'all symmetric tensors, rotations and evaluated strains',
  'An algebraic identity over all tensors.',
  [H],['inv_max'],[('invariants','get_inv_1, get_inv_2'),('recording','is_linear, homogenize')],['get_inv_1, get_inv_2','micropp_convergence.dat'])
p('C26','Failing file output never disturbs the computation',
  'If any of the library files cannot be created or written (missing directory, full or limited disk), every stress, tangent, flag and history is exactly what it would have been, and later files are written normally once writing is possible again.',
  ['fault_sequences','histories'],'all points in a history at which file creation or writing fails',
  'Requires injected I/O faults at arbitrary moments; tests run in a writable directory.',
  [O,M],['output streams'],[('best-effort file writing','constructor, write_vtu, write_info_files')],API)
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
