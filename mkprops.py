import json
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
ALLE = "all nine element types (QUAD4/8, TRI3/6, HEX8/20/27, TET4/10)"
p('C01', 'Shape functions interpolate polynomials exactly in the documented node order',
  f"For every supported element type, with cell nodes listed in the meshio/VTK/Abaqus order, values and physical gradients interpolated from nodal values equal those of the interpolated function at every volume quadrature point and every point of the selected surface faces. This holds exactly for every polynomial the element claims (complete degree 1 or 2 on straight-sided affine cells, degree 1 on any valid distorted or curved cell), under every node numbering, cell order and valid rotation of a cell's local nodes. Quadrature points reported in physical coordinates are the isoparametric images of the reference points.",
  ['inputs', 'configurations'], f"over {ALLE}, all valid (positive Jacobian) cell geometries, numberings and polynomials in the element's space",
  "the tests use only HEX8 on three fixed meshes and compare final solutions with FEniCS to a loose tolerance; eight element types and all distorted geometries are never exercised",
  ['jax_fem/basis.py', 'jax_fem/fe.py'],
  [('node re-ordering and tabulation', 'basis.get_elements, get_shape_vals_and_grads, get_face_shape_vals_and_grads'), ('gradient push-forward', 'fe.FiniteElement.get_shape_grads, get_face_shape_grads'), ('interpolation', 'fe.FiniteElement.sol_to_grad, convert_from_dof_to_quad, convert_from_dof_to_face_quad')])
p('C02', 'Volume and surface quadrature measures are exact to the requested order',
  "Summing an integrand at the quadrature points with the reported volume weights gives the exact integral over the mesh for every polynomial up to the requested (or documented default) quadrature order on affine cells, and the exact domain volume on any straight-sided mesh; surface weights likewise give exact areas and surface integrals. Volume and surface quadratures both honour the requested quadrature order and rule. Invalid rules are rejected with an error rather than silently replaced.",
  ['inputs', 'configurations'], f"over {ALLE}, quadrature orders and rules, cell geometries, selected face sets and polynomial integrands",
  "the tests use the default order of one element type and never look at a measure; a wrong weight on one face, or an ignored order, leaves the HEX8 cube results unchanged",
  ['jax_fem/basis.py', 'jax_fem/fe.py', 'jax_fem/problem.py'],
  [('reference weights', 'basis.get_shape_vals_and_grads, get_face_shape_vals_and_grads, _normalize_quadrature_rule'), ('JxW and Nanson scaling', 'fe.FiniteElement.get_shape_grads, get_face_shape_grads'), ('per-variable stacking', 'problem.Problem.initialize_geometric_quantities')])
p('C03', 'Boundary selection picks exactly the nodes and faces the predicate accepts',
  "A Dirichlet condition constrains exactly the nodes whose coordinates (and, for two-argument predicates, index) satisfy the location predicate, on the requested component, with the value function evaluated at that node; a surface set contains exactly the (cell, face) pairs all of whose vertices satisfy the predicate, each once and labelled with the right cell and face. Predicates of any other arity are rejected, several sets are kept in the given order, updating the conditions replaces the previous ones completely, and the mesh's face counter returns the number of selected faces.",
  ['inputs', 'configurations'], f"over meshes of {ALLE}, arbitrary node subsets and predicates, one or several (overlapping, empty) sets, components and value functions",
  "the tests only select whole axis-aligned sides of a box with one-argument predicates",
  ['jax_fem/fe.py', 'jax_fem/generate_mesh.py', 'jax_fem/problem.py'],
  [('node selection', 'fe.FiniteElement.Dirichlet_boundary_conditions, update_Dirichlet_boundary_conditions'), ('face selection', 'fe.FiniteElement.get_boundary_conditions_inds'), ('face counter', 'generate_mesh.Mesh.count_selected_faces'), ('report', 'problem.Problem.print_BC_info')])
p('C04', 'The residual equals the discretised weak form',
  "For any nodal fields, the residual equals an independently assembled weak form: the sum over all cells of volume terms (gradient, value and user-supplied general forms) and over all selected faces of surface terms, with every per-quadrature-point internal variable and surface variable read at its own cell, face and quadrature point. This holds for any number of cells (however the work is batched), any number of coupled variables of different element types and component counts, and any combination of term kinds.",
  ['inputs', 'configurations', 'programs'], f"over meshes of {ALLE} with 1 to 60 cells, single and coupled variables, nonlinear pointwise laws, internal variables and surface sets",
  "the tests check one or two converged solutions of single-variable HEX8 problems; an error that vanishes for constant data, for cell counts divisible by the batch size or for one variable is invisible",
  ['jax_fem/problem.py'],
  [('kernels', 'problem.Problem.get_laplace_kernel, get_mass_kernel, get_surface_kernel, pre_jit_fns'), ('batching', 'problem.Problem.split_and_compute_cell, compute_face'), ('scatter', 'problem.Problem.compute_residual_vars_helper')])
p('C05', 'The assembled tangent is the exact derivative of the residual',
  "The tangent matrix assembled for a state is the derivative of the residual at that state with respect to every degree of freedom, including surface terms and the coupling between variables, and the residual returned with it is the plain residual. The system matrix handed to the linear solver has exactly the identity in the rows of constrained degrees of freedom and the untouched derivative everywhere else.",
  ['inputs', 'configurations', 'programs'], "over nonlinear pointwise laws, states, meshes, coupled variables, surface sets and Dirichlet sets",
  "Newton still converges (slowly) with a wrong tangent, so solution-level tests pass; only HEX8 single-variable tangents are ever built by the tests",
  ['jax_fem/problem.py', 'jax_fem/solver.py'],
  [('element Jacobians', 'problem.Problem.pre_jit_fns, compute_newton_vars'), ('sparsity indices', 'problem.Problem.__post_init__ (I, J, offset)'), ('row elimination', 'solver.get_A')])
p('C06', 'Solving satisfies boundary conditions and equilibrium whatever the backend',
  "A returned solution takes the prescribed value at every constrained degree of freedom and zeroes the residual at every free one to the requested tolerance. The result does not depend on which linear backend, preconditioner, initial guess or line-search setting is chosen, nor on whether options are given in nested or legacy form. Nonlinear and coupled multi-variable problems are included.",
  ['inputs', 'configurations'], "over well-posed linear and nonlinear problems, all available linear backends and their options, initial guesses, tolerances and line search",
  "the tests run five fixed problems with the default or one PETSc backend; most documented backends and options are never executed",
  ['jax_fem/solver.py'],
  [('linear backends', 'solver.linear_solver, jax_solve, scipy_spsolve, petsc_solve'), ('Newton loop', 'solver.solver, newton_step, line_search'), ('boundary rows', 'solver.apply_bc_vec, assign_bc, copy_bc')])
p('C07', 'Polynomial solutions in the element space are recovered exactly',
  "When the exact solution of a linear boundary-value problem lies in the element's polynomial space, the computed nodal values equal it to solver precision, whatever mix of Dirichlet, Neumann and Robin boundary conditions and volume sources produces it. This holds for scalar diffusion and vector elasticity on every supported element type, on irregular meshes and with shuffled numberings.",
  ['inputs', 'configurations'], f"over {ALLE}, random polynomials, material tensors, meshes and assignments of boundary-condition kinds to boundary faces",
  "the tests compare HEX8 results with FEniCS on three meshes; there is no patch test for any element",
  ['jax_fem/basis.py', 'jax_fem/fe.py', 'jax_fem/problem.py', 'jax_fem/solver.py'],
  [('whole forward pipeline', 'problem.Problem + solver.solver'), ('surface terms', 'problem.Problem.get_surface_kernel')])
p('C08', 'Reverse-mode derivatives through a solve equal the true sensitivities',
  "The gradient of any scalar function of a differentiable forward solve with respect to its parameters equals the derivative of that function of the re-solved problem, for parameters that enter volume laws, surface loads or prescribed boundary values, in any pytree layout. It is independent of the adjoint linear backend, and it is correct for nonlinear, unsymmetric, coupled multi-variable and constraint-reduced problems and for repeated use of one wrapper with different parameters.",
  ['inputs', 'configurations', 'histories'], "over problems, parameters, objectives, parameter directions and sequences of forward/backward calls",
  "no test differentiates through a solve; gradients can be silently wrong",
  ['jax_fem/solver.py'],
  [('adjoint', 'solver.implicit_vjp'), ('wrapper', 'solver.ad_wrapper')])
p('C09', 'A reused problem behaves exactly like a freshly built one',
  "After any sequence of residual, tangent, solve and gradient calls, parameter changes and replacements or edits of Dirichlet conditions on one problem object, every further operation returns what it would return on a freshly built problem with the current conditions and parameters. No cached matrix, index set or compiled function from an earlier step leaks into a later one, and several problem objects used alternately do not affect each other.",
  ['histories'], "over operation sequences on one or two problem objects",
  "each test builds a problem, solves it once (or steps it with the same set of constrained nodes) and discards it",
  ['jax_fem/solver.py', 'jax_fem/problem.py', 'jax_fem/fe.py'],
  [('tangent cache', 'solver._PetscTangentCache, get_A'), ('condition update', 'fe.FiniteElement.update_Dirichlet_boundary_conditions'), ('parameters', 'problem.Problem.set_params')])
p('C10', 'Linear multipoint constraints are enforced exactly',
  "With a prolongation matrix P attached to a problem, the solution is exactly of the form P times reduced unknowns, satisfies the Dirichlet conditions, and zeroes the constrained residual (P-transpose times the boundary-eliminated residual) to tolerance. The reduced system matrix is P-transpose A P, and the result agrees with a dense reference solve for every available linear backend, initial guess and line-search setting. The periodic-constraint builder in the applications pairs each slave with its mapped master only.",
  ['inputs', 'configurations'], "over meshes, problems, periodic and general weighted constraint matrices, boundary conditions and solver options",
  "no test uses a constraint matrix",
  ['jax_fem/solver.py', 'applications/periodic_bc/example.py'],
  [('reduction', 'solver.get_A, solver.solver, newton_step, line_search'), ('periodic builder', 'applications/periodic_bc/example.py periodic_boundary_conditions')])
p('C11', 'Arc-length continuation stays on the equilibrium path and reaches full load',
  "Every recorded continuation step is an equilibrium of the problem under its recorded fraction of the prescribed displacement or load, consecutive steps lie at the requested arc length, and recorded states are not altered by later steps. When the load factor reaches one the returned solution is the equilibrium at full load and equals the direct Newton solution on a stable path; otherwise it is the last recorded state and is reported as not finished. The step callback sees exactly the recorded history.",
  ['inputs', 'configurations', 'histories'], "over problems, displacement and force control, arc lengths, psi, step limits and switch steps",
  "no test runs the arc-length solver",
  ['jax_fem/solver.py'],
  [('Crisfeld steps', 'solver.arc_length_solver_disp_driven, arc_length_solver_force_driven'), ('outer loop and polish', 'solver._solve_arc_length_disp, _solve_arc_length_force, _finish_arc_length'), ('load vector', 'solver.get_q_vec')])
p('C12', 'Dynamic relaxation converges to a constrained equilibrium',
  "Dynamic relaxation returns a state that takes the prescribed values at constrained degrees of freedom and has every free residual component below the requested tolerance, from any initial guess. Where the equilibrium is unique it agrees with the Newton solution.",
  ['inputs', 'configurations'], "over single-variable problems, tolerances, initial guesses, linear backends and stiffness-update intervals",
  "no test runs dynamic relaxation",
  ['jax_fem/solver.py'],
  [('time marching', 'solver.dynamic_relax_solve, calC, assembleCSR'), ('dispatch', 'solver._solve_dynamic_relax')])
p('C13', 'Solver options mean what is documented, or are rejected',
  "Equivalent spellings of solver options (omitted, empty, nested, legacy flat, explicit defaults) run the same method with the same tolerances, guess, line search and linear backend, and every documented option reaches the component it configures. Requests naming several methods, a method block that is not a dictionary, an unknown or missing arc-length control, or force control without a load vector raise an error and leave the problem usable. The caller's option dictionaries are not modified.",
  ['inputs', 'configurations'], "over option dictionaries, well formed and malformed",
  "the tests use two spellings; defaults and errors are not checked",
  ['jax_fem/solver.py'],
  [('dispatch', 'solver._resolve_solver_options, solver, _solve_arc_length'), ('linear options', 'solver.linear_solver, newton_step')])
p('C14', 'Results do not depend on numbering and transform with the coordinate frame',
  "Renumbering nodes, reordering cells or rotating cells' local node lists only permutes solutions and residuals, and splitting the same faces into several surface sets changes nothing. Rigidly moving the mesh with its data rotates vector results and leaves scalar ones unchanged, and scaling lengths scales them as dimensional analysis says.",
  ['inputs'], "over meshes, problems and permutations, rotations, translations and scalings",
  "tests use one mesh each, in one frame and numbering",
  ['jax_fem/problem.py', 'jax_fem/fe.py', 'jax_fem/basis.py', 'jax_fem/solver.py'],
  [('whole pipeline', 'problem.Problem.compute_residual, solver.solver')])
p('C15', 'Discrete balance laws and variational structure hold',
  "Internal forces of a stress-type law sum to zero in every direction for any state, the sum of all source and traction contributions equals the integrated load, and reactions at constrained degrees of freedom balance the applied loads after a solve. For a law derived from an energy the residual is the gradient of the discrete total energy, the tangent is symmetric, rigid-body motions of a frame-indifferent energy produce no force, and conduction or elasticity tangents are positive semi-definite.",
  ['inputs'], f"over meshes of {ALLE}, states, energies and loads",
  "tests never look at residual sums, symmetry or energies",
  ['jax_fem/problem.py', 'jax_fem/fe.py'],
  [('kernels', 'problem.Problem.get_laplace_kernel, get_mass_kernel, get_surface_kernel'), ('tangent', 'problem.Problem.compute_newton_vars')])
p('C16', 'Uncoupled variables solve as separate problems, in any order',
  "A multi-variable problem whose variables do not interact yields, for each variable, the residual, tangent block and solution of that variable solved alone, with zero coupling blocks. Reordering the variables of a coupled problem only reorders the results. Each variable keeps its own element type, component count, mesh and boundary conditions.",
  ['inputs', 'configurations'], "over pairs and triples of variables of different element types and component counts sharing cells and quadrature",
  "no test uses more than one variable",
  ['jax_fem/problem.py', 'jax_fem/solver.py'],
  [('offsets and indices', 'problem.Problem.__post_init__'), ('flatten/unflatten', 'problem.Problem.unflatten_fn_dof, unflatten_fn_sol_list'), ('boundary offsets', 'solver.apply_bc_vec, get_A')])
p('C17', 'Generated meshes are valid and tile the requested domain',
  "Every mesh generator returns a conforming mesh of the requested element type and cell counts whose cells have the documented node order and positive volume, whose volumes add up to the requested domain, with no duplicate, orphan or out-of-range nodes and boundary faces lying exactly on the domain boundary.",
  ['inputs', 'configurations'], "over cell counts, domain sizes, element types and cylinder parameters",
  "tests load stored mesh files or one generated box and never examine the mesh",
  ['jax_fem/generate_mesh.py'],
  [('structured', 'generate_mesh.rectangle_mesh, box_mesh'), ('gmsh', 'generate_mesh.box_mesh_gmsh, cylinder_mesh_gmsh'), ('orientation check', 'generate_mesh.check_mesh_TET4')])
p('C18', 'Saved and converted files read back to the same mesh and data',
  "Saving a solution to any accepted path and reading the file back yields the same points, connectivity, element type, solution and attached point and cell data (at the stored precision), for every element type and component count, with wrongly sized data rejected. Converting Abaqus input to VTK preserves mesh and data, the VTU version rewrite changes only the version tag, and JSON parsing returns the file's content. The timing decorators return exactly what the wrapped function returns.",
  ['inputs'], f"over {ALLE}, meshes, solution arrays, attached data, file formats and paths",
  "tests write one file per problem and read it only with loose comparison or not at all",
  ['jax_fem/utils.py', 'jax_fem/generate_mesh.py'],
  [('save', 'utils.save_sol'), ('convert', 'utils.modify_vtu_file, read_abaqus_and_write_vtk, json_parse'), ('element names', 'generate_mesh.get_meshio_cell_type'), ('timing', 'utils.timeit, walltime')])
p('C19', 'The topology optimiser solves its subproblems and respects all bounds',
  "Each MMA step returns a point within variable bounds and move limits that satisfies the optimality conditions of the convex separable subproblem built at the current point, with asymptotes updated from the last three iterates by the published rules. Iterating on smooth convex constrained problems converges to the true constrained optimum, with non-negative multipliers and slack. The optimiser loop passes the current design to the objective and constraint callbacks and returns a design in [0, 1] of the given shape.",
  ['inputs', 'histories'], "over numbers of variables and constraints (either larger), bounds, gradients, histories and move limits",
  "no test runs the optimiser",
  ['jax_fem/mma.py'],
  [('subproblem', 'mma.MMA.mmasub, subsolv'), ('loop', 'mma.optimize')])
p('C20', 'The density and sensitivity filters match their definition',
  "The filter matrix has entry max(0, r - distance) for every pair of design cells within the filter radius r (1.5 times the mean cell size) and nothing else, with row sums to match, for any design subset and mesh. Applying the density filter is the weighted average it defines (constants are preserved and ranges never widen), and the sensitivity filter returns the documented weighted combination for objective and constraints.",
  ['inputs'], "over 2D and 3D meshes, design subsets of any size and densities",
  "no test builds a filter",
  ['jax_fem/mma.py'],
  [('filter', 'mma.compute_filter_kd_tree'), ('application', 'mma.applyDensityFilter, applySensitivityFilter')])
p('C21', 'The finite-strain J2 update satisfies the return-mapping conditions',
  "For any admissible old state and deformation, the updated state satisfies the yield condition, loading/unloading complementarity and a non-decreasing hardening variable, reports the deformation it was given, keeps the elastic trace and leaves the volumetric response purely elastic; loading below yield is elastic. The response is frame-indifferent, isotropic and its tangent is the derivative of the stress, and the quadrature-point update of a whole mesh applies the law point by point.",
  ['inputs', 'histories'], "over deformation increments, histories of increments and material states",
  "two tests check the yield condition and one invariance for fixed deformations; histories, objectivity, unloading and the tangent are not covered",
  ['applications/finite_plasticity/model.py'],
  [('return map', 'applications/finite_plasticity/model.py Plasticity.get_maps'), ('mesh update', 'Plasticity.update_int_vars_gp, compute_stress')])
p('C22', 'The crystal plasticity update satisfies its flow and hardening laws',
  "For any admissible state the returned stress satisfies the implicit elastic law at the end of the step, slip increments follow the power law of the resolved shear stress, slip resistances follow the stated hardening law, and plastic flow preserves volume to first order in the slip increment. Rotating the crystal and the deformation together rotates the stress, zero deformation gives zero stress, and stress derivatives with respect to deformation and state equal finite differences.",
  ['inputs', 'histories'], "over crystal orientations, deformation increments, states and time steps",
  "no test touches crystal plasticity",
  ['applications/crystal_plasticity/models.py'],
  [('local solve', 'applications/crystal_plasticity/models.py CrystalPlasticity.get_maps'), ('rotation', 'get_rot_mat, rotate_tensor_rank_2, rotate_tensor_rank_4')])
p('C23', 'Spectral matrix functions and their derivatives are right for all spectra',
  "The spectral function of a symmetric matrix equals Q f(eigenvalues) Q-transpose, and its derivative with respect to the matrix is correct and finite for every symmetric matrix, with distinct, repeated or nearly repeated eigenvalues in any orientation.",
  ['inputs'], "over symmetric matrices of size 2 to 5, smooth functions and directions, with multiplicities",
  "the helper's own demo uses three matrices with no rotated repeated eigenvalue",
  ['applications/phase_field_fracture/eigen.py'],
  [('custom derivative', 'applications/phase_field_fracture/eigen.py get_eigen_f_custom')])
p('C24', 'Mesh geometry is differentiable and recomputable',
  "Recomputing a problem's geometric quantities for new node coordinates gives exactly the residual, tangent and solution of a problem built on the moved mesh with the same selected boundary sets, including surface terms and multi-variable problems. Derivatives of solution functionals with respect to node coordinates equal finite differences of re-solved problems.",
  ['inputs', 'histories'], "over meshes, node motions, problems with volume and surface terms and functionals",
  "no test moves a mesh or differentiates with respect to it",
  ['jax_fem/problem.py', 'jax_fem/fe.py', 'applications/differentiable_mesh/example.py'],
  [('geometry refresh', 'problem.Problem.initialize_geometric_quantities'), ('tracing through geometry', 'fe.FiniteElement.get_shape_grads, get_face_shape_grads')])
p('C25', 'Element birth tracks the free surface and the active domain exactly',
  "In the quiet-element application, after any sequence of cell activations the incrementally updated tables - external faces, face flags, laser-plane flags and quiet nodes - equal those computed from scratch for the active set: a face is external exactly when one of its adjacent cells is active and it is not shared by two active cells, and a node is quiet exactly when no active cell uses it. Each heat step equals the heat equation on the active cells alone with loads on the current external faces, and quiet nodes stay at ambient temperature.",
  ['histories', 'inputs'], "over activation histories (single cells, layers, moving discs, holes, everything at once), starting sets, renumbered hexahedral and tetrahedral meshes, step sizes and laser switching",
  "no test runs the application; its own run activates cells in one fixed pattern on one mesh",
  ['applications/quiet_element/example.py'],
  [('incremental face tables', 'example.py: initialize_*, update_* of external faces, flags and quiet nodes'), ('activation-dependent heat problem', 'example.py: Thermal problem and its surface kernels')])
p('C26', 'Updated Lagrangian stepping reproduces the total Lagrangian solution',
  "In the updated-Lagrangian application, stepping a load in any number of increments with mesh motion after each one ends in a total displacement that satisfies the equilibrium of the undeformed body and the boundary values, and the accumulated deformation gradients are those of that displacement, whatever the number of steps. The reverse-mode derivative of the objective with respect to every material density equals the adjoint gradient of the total Lagrangian problem.",
  ['inputs', 'histories', 'configurations'], "over bar meshes (hexahedra, tetrahedra; distorted, renumbered), loads with twist, step counts and density fields with voids",
  "no test runs the application; its own comparison is one mesh with one load",
  ['applications/updated_lagrangian/example.py', 'jax_fem/problem.py', 'jax_fem/solver.py'],
  [('incremental formulation', 'applications/updated_lagrangian/example.py'), ('geometry update', 'problem.Problem.initialize_geometric_quantities'), ('adjoint', 'solver.ad_wrapper')])
p('C27', 'The example material laws are objective, symmetric and energetically consistent',
  "Every elastic and hyperelastic law of the example applications gives the stress of its documented energy or Hooke's law: it is zero for every rigid rotation, rotates with the body, has a symmetric Kirchhoff (or Cauchy) stress and a tangent with major symmetry that equals the derivative of the stress, and reduces to Hooke's law with the stated modulus and Poisson ratio for small strains. The third-medium contact law regularises the rotation it documents; assembled internal forces of every law are in balance and moment-free.",
  ['inputs', 'programs'], "over deformations from 1e-7 to 60 percent strain with arbitrary rotation, all example laws, meshes and modulus fields",
  "no test calls an example law; the scripts are run on one load each and judged by eye",
  ['applications/'+f for f in ('arc_length/hyperelastic_models.py','dynamic_relaxation/beam2d_displacement.py','dynamic_relaxation/beam3d_displacement.py','dynamic_relaxation/cellular_displacement.py','scalability/hyperelastic3d_common.py','nodal_stress/example.py','explicit_dynamics/example.py','third_medium_contact/example.py')],
  [('stress functions', 'get_tensor_map of each example'), ('stored rotations', 'third_medium_contact: set_params / rotation update')])
p('C28', 'The phase-field fracture model is consistent and irreversible',
  "In the phase-field fracture application the degraded stress is the derivative of the degraded tension-compression split energy for every strain and damage, undamaged material is Hookean, and the tensile energy is never negative. The history field is the running maximum of the tensile energy at each quadrature point and never decreases, whatever the load history. Each half-step of the staggered scheme solves its own equilibrium with the prescribed top displacement, and the reported traction is the stress on the top edge.",
  ['inputs', 'histories'], "over strains (including repeated principal values), damage fields, distorted quadrilateral meshes, and load histories with unloading and reversal",
  "no test runs the application; monotone loading never exercises irreversibility",
  ['applications/phase_field_fracture/example.py', 'applications/phase_field_fracture/eigen.py'],
  [('split and degradation', 'example.py: Elasticity.get_tensor_map, psi_plus'), ('history', 'example.py: update of H'), ('damage equation', 'example.py: PhaseField')])
p('C29', 'The laser powder-bed model keeps phases, stresses and heat consistent',
  "In the thermo-mechanical application, powder melts above the liquidus, liquid solidifies below it and solid never turns back; only solid expands thermally and powder and liquid are soft. The stress update is the radial return of a perfectly plastic material on the stored stress and strain: elastic below the yield stress, on the yield surface beyond it, pressure unchanged; stored state changes only through the documented updates. Every heat step equals the heat equation with the laser, convection and radiation terms, and energy balances.",
  ['inputs', 'histories'], "over temperature and displacement histories, meshes of the plate, laser positions and switching, step sizes and material-point batches",
  "no test runs the application; its single run follows one laser track",
  ['applications/thermal_mechanical/example.py'],
  [('phase state', 'Plasticity.update_dT_and_phase'), ('return mapping', 'Plasticity.get_maps, get_tensor_map, update_stress_strain'), ('heat', 'Thermal.get_tensor_map, get_mass_map, get_surface_maps')])
p('C30', 'Mixed and coupled example formulations equal their stated weak forms',
  "The Stokes example's residual and tangent are those of the symmetric Taylor-Hood form; its solutions satisfy weak incompressibility and reproduce quadratic flows with linear pressure; its contour condition holds exactly the boundary nodes away from inlet and outlet; and its mesh repair makes every triangle counter-clockwise without changing its nodes. Each thermo-elastic step equals the coupled backward-Euler system, does not create energy without heating and conserves entropy when insulated. The Robin example's surface kernel equals the same law written as a surface map, and elasticity split into two variables equals elasticity in one.",
  ['inputs', 'histories', 'configurations'], "over distorted, renumbered and randomly oriented triangle meshes with holes, boundary data, states, step-size sequences and boundary sets",
  "no test runs these examples; they are compared by eye with FEniCS on one mesh",
  ['applications/stokes/example.py', 'applications/thermal_mechanical_full/example.py', 'applications/robin_bc/example.py', 'applications/stokes/example_1var.py', 'applications/stokes/example_2vars.py', 'jax_fem/problem.py'],
  [('mixed kernels', 'StokesFlow.get_universal_kernel, thermal_mechanical_full.get_universal_kernel'), ('contour', 'StokesFlow.configure_Dirichlet_BC_for_dolphin'), ('mesh repair', 'transform_cells'), ('surface kernel', 'robin_bc Poisson.get_universal_kernels_surface')])
p('C31', 'Time-stepping examples follow their schemes and their conservation laws',
  "Each implicit wave step solves the stated difference scheme with the given boundary values and never increases the discrete energy. Each dendrite step, implicit, explicit or by finite differences, equals Kobayashi's anisotropic phase-field equation with latent heat and noise, also where the phase gradient vanishes, and temperature plus latent heat is conserved in the insulated box. The explicit dynamics script produces the lumped-mass leapfrog history of its mesh with bounded energy, and reports the errors, wave speed and energy drift of that history.",
  ['inputs', 'histories'], "over meshes, states, time steps, wave speeds, model parameters, noise fields and boundary conditions",
  "no test runs these examples; their runs are judged by pictures",
  ['applications/wave/example.py', 'applications/dendrite/implicit_fem/example.py', 'applications/dendrite/explicit_fem/example.py', 'applications/dendrite/explicit_fd/example.py', 'applications/explicit_dynamics/example.py'],
  [('wave step', 'wave.get_universal_kernel, set_params'), ('phase field', 'Solidification.get_universal_kernel; SolidificationForce.get_universal_kernel, get_mass, get_explicit_dynamics; explicit_fd simulation'), ('leapfrog', 'explicit_dynamics main')])
p('C32', 'Solutions converge at the order of the element and error norms report it',
  "For smooth problems with variable coefficients, reaction terms, Dirichlet data and boundary fluxes, the error of the computed solution is comparable with that of nodal interpolation on the same mesh and decreases under refinement with order degree+1 in L2 and degree in the gradient norm, for every element type. The L2 and H1 error norms of the convergence example equal the quadrature of the true error, vanish for exact fields, and the nodal-gradient helper returns the gradients of the shape functions at the nodes of every Lagrange element.",
  ['inputs', 'configurations'], "over element types, smooth solutions and coefficients, graded renumbered meshes, the side carrying the flux, nodal fields and cell geometries",
  "the tests compare single HEX8 meshes with stored results; a consistent loss of accuracy order is invisible there",
  ['jax_fem/basis.py', 'jax_fem/fe.py', 'jax_fem/problem.py', 'jax_fem/solver.py', 'applications/convergence_rate/example.py', 'applications/nodal_stress/example.py'],
  [('forward pipeline', 'problem.Problem, solver.solver'), ('error norms', 'LinearPoisson.compute_l2_norm_error, compute_h1_norm_error'), ('nodal gradients', 'nodal_stress get_shape_grads_physical')])
p('C33', 'Distributed assembly gives the serial answer for every mesh partition',
  "The distributed Poisson drivers assemble exactly the serial system and return the serial discrete solution, whatever the number of ranks, the partition of the cells, the ownership and numbering of the vertices, including ranks without boundary vertices and ranks that own no vertex. Every collective operation is reached by all ranks in the same order. Element matrices, structured meshes, the manufactured problem, reported errors and the written ownership fields are those of the stated problem.",
  ['inputs', 'schedules', 'configurations'], "over triangulations of the square, partitions into one to five ranks, vertex owners, global and local numberings",
  "no test runs these drivers, and an example run on one machine sees one partition in which no rank lacks boundary vertices",
  ['applications/parallel/example.py', 'applications/parallel/poisson_mpi.py', 'applications/parallel/poisson_gold.py'],
  [('assembly', 'parallel example main, element_stiffness, element_load; poisson_mpi scatter_global_coo, scatter_rhs_vec, build_local_mesh_from_dm'), ('boundary rows', 'zeroRows in both mains'), ('gather and error', 'gather_owned_nodal_values, rms_versus_u_exact_on_owned_vertices'), ('weak form', 'NonlinearManufacturedPoisson.get_universal_kernel')])
p('C34', 'Mesh sensitivities and load paths of the examples are those of the problem',
  "In the mesh-derivative example the objective and its derivative with respect to every coordinate of every free node, inside or on the loaded edge, equal those of the re-solved problem, and its difference quotient is the central one of two independent solves. In the arc-length beam programs the counter-load vector is minus the end load, every recorded state is in equilibrium at its load level with the clamped and prescribed ends satisfied, and the first step follows the load.",
  ['inputs', 'histories'], "over distorted, renumbered quadrilateral meshes, objectives, perturbed nodes, beam meshes, arc lengths and numbers of steps",
  "no test runs these examples; their output is a number compared by eye on one uniform mesh",
  ['applications/differentiable_mesh/example.py', 'applications/differentiable_mesh/finite_difference.py', 'applications/arc_length/beam2d_force.py', 'applications/arc_length/beam2d_displacement.py', 'applications/arc_length/hyperelastic_models.py', 'jax_fem/solver.py'],
  [('coordinates as parameters', 'NonlinearPoisson.set_params, problem.Problem.initialize_geometric_quantities'), ('difference quotient', 'gold_fd_two_independent_problems'), ('load vector', 'BeamCounterLoad, solver.get_q_vec'), ('continuation', 'solver._solve_arc_length_force, _solve_arc_length_disp')])
p('C35', 'Derivatives through time stepping and load histories are those of the history',
  "When solves are chained through ad_wrapper, each step using the solution, the history variables or the prescribed values of earlier ones, the gradient of any functional of the steps with respect to parameters, initial fields and initial history equals the derivative of the whole recomputed history. This holds for transient problems and for the finite-strain J2 and crystal plasticity models, for repeated gradients and with other forward runs in between. The single-cell, thin-plate and crystal sensitivity programs hand over the state of every step, satisfy equilibrium at their stated loads and report the sensitivities of their history.",
  ['inputs', 'histories'], "over problems, meshes, state couplings, step counts, load histories, functionals and parameters",
  "the tests contain no derivative of more than one solve, and the programs only print numbers to compare by eye",
  ['jax_fem/solver.py', 'jax_fem/fe.py', 'applications/finite_plasticity/model.py', 'applications/finite_plasticity/single_cell.py', 'applications/finite_plasticity/thin_plate.py', 'applications/crystal_plasticity/models.py', 'applications/crystal_plasticity/volume_sensitivity.py', 'applications/crystal_plasticity/stress_sensitivity.py'],
  [('adjoint', 'solver.ad_wrapper, solver.implicit_vjp'), ('state transfer', 'fe.convert_from_dof_to_quad, convert_from_dof_to_face_quad, sol_to_grad'), ('history variables', 'Plasticity.update_int_vars_gp, CrystalPlasticity.update_int_vars_gp, set_params'), ('programs', 'simulation in single_cell.py, thin_plate.py; problem in volume_sensitivity.py, stress_sensitivity.py')])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        n = x['statement'].count('. ') + 1
        assert n <= 3, (x['id'], n)
        f.write(json.dumps(x) + '\n')
print(len(P))
