EF = 'src/physics/fluidflow/euler_fluxes.hpp'
NF = 'src/physics/fluidflow/navier_stokes_fluxes.hpp'
NOT_APPLICABLE = {}
PROPERTIES = []
def P(id, title, statement, qtext, why, files, mech, over=('inputs',)):
    PROPERTIES.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext},
                       'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
FW = 'The repository\'s flux tests need Adept and do not build here; where they run they compare a handful of fixed states, and an algebraic identity over all admissible states cannot be sampled exhaustively.'
P('C01', 'Conservative and entropy variables describe the same fluid state',
  'Converting an admissible fluid state to entropy variables and back returns the same state, and converting any entropy-variable state with negative last component to conservative variables gives positive density and pressure and converts back to itself. The mathematical entropy is the same number whichever of the two descriptions it is computed from, and the pressure recovered is the pressure of the state.',
  'all admissible states (density, pressure > 0; any velocity) in 1, 2 and 3 dimensions, and all entropy-variable states with negative last component', FW,
  [EF], [('conversion between conservative and entropy variables', EF + ': calcEntropyVars, calcConservativeVars'), ('entropy and pressure', EF + ': entropy, pressure')])
P('C02', 'Entropy variables are the gradient of a strictly convex entropy',
  'The change of the entropy caused by any small change of the state equals the inner product of the entropy variables with that change. The derivative of the conservative variables with respect to the entropy variables, as applied by the solver, is the exact inverse of the derivative of the entropy variables, and is symmetric and positive definite.',
  'all admissible states and all directions of change, dimensions 1-3', FW, [EF],
  [('entropy variables', EF + ': calcEntropyVars'), ('entropy', EF + ': entropy'), ('product with dq/dw', EF + ': calcdQdWProduct')])
P('C03', 'Numerical fluxes reduce to the physical flux for equal states',
  'When the two states given to an interface or boundary flux are equal, the flux equals the physical Euler flux of that state in that direction: mass flux rho u.n, momentum flux rho u (u.n) + p n and energy flux (E+p) u.n. This holds for every numerical flux of the library, in either choice of variables.',
  'all admissible states and all directions, dimensions 1-3, every numerical flux function', FW, [EF],
  [('Roe, Ismail-Roe, boundary and far-field fluxes', EF)])
P('C04', 'Interface fluxes are conservative',
  'What one element loses through a face is what its neighbour gains: exchanging the two states and reversing the direction changes only the sign of the interface flux. The two-point entropy-conservative flux is in addition symmetric in its two states and linear in the direction.',
  'all pairs of admissible states and all directions, dimensions 1-3', FW, [EF],
  [('Roe and Ismail-Roe face fluxes', EF + ': calcRoeFaceFlux, calcIsmailRoeFaceFlux*')])
P('C05', 'Two-point fluxes conserve entropy and their dissipation never creates it',
  'The entropy-conservative two-point flux satisfies the discrete entropy condition: its inner product with the jump of the entropy variables equals the jump of the entropy potential, for any pair of states. The dissipative version adds exactly the dissipation coefficient times the spectral radius times a positive form of that jump, so it never produces entropy of the wrong sign, and versions taking conservative or entropy variables give the same flux.',
  'all pairs of admissible states, directions and dissipation coefficients, dimensions 1-3', FW, [EF],
  [('Ismail-Roe fluxes and dissipation', EF + ': calcIsmailRoeFlux, calcIsmailRoeFaceFlux, calcIsmailRoeFaceFluxWithDiss and their entropy-variable versions')])
P('C06', 'The averaging of two positive numbers is their logarithmic mean',
  'The logarithmic average of two positive numbers is positive, symmetric, homogeneous, equal to the number itself when both are equal, and equals (a-b)/(ln a - ln b) otherwise, within 1e-14 relative error where a series is used.',
  'all pairs of positive reals, on both sides of the switch between the formula and its series', 'A wrong series coefficient is only visible in the narrow band of nearly equal arguments and at the 1e-8 level; sampled states do not land there.', [EF],
  [('logarithmic mean', EF + ': logavg')])
P('C07', 'Wall, control and entropy-constrained boundary fluxes obey their physics',
  'A slip wall lets no mass and no energy through, exerts exactly the pressure force and conserves entropy; projecting a state onto a wall removes exactly the normal momentum. A control boundary transports mass, momentum, energy and entropy with the prescribed normal velocity, and the entropy-constrained boundary flux attains exactly the prescribed entropy flux.',
  'all admissible states, wall directions, control velocities and targets, dimensions 1-3', FW, [EF],
  [('wall and control fluxes', EF + ': calcSlipWallFlux, projectStateOntoWall, calcControlFlux, calcBoundaryFluxEC')])
P('C08', 'Upwind fluxes are characteristic upwinding of the flux Jacobian',
  'The Roe flux equals the average of the two physical fluxes plus half the absolute flux Jacobian at the Roe average applied to the jump, with eigenvalues bounded below by a fixed fraction of the spectral radius; the characteristic boundary flux is the interior flux with only the incoming part of the Jacobian applied to the difference to the boundary state. Where the flow is fully supersonic the fluxes are purely the upwind flux.',
  'all pairs of admissible states and directions, dimensions 1-3', FW, [EF],
  [('Roe and boundary flux', EF + ': calcRoeFaceFlux, calcBoundaryFlux, calcFarFieldFlux')])
P('C09', 'Spectral radius and stabilisation scaling',
  'The spectral radius equals |u.n| + c|n| and both u.n+c|n| and u.n-c|n| are eigenvalues of the flux Jacobian; it is the same from either set of variables. The stabilisation operator is the mean spectral radius over the coordinate directions times the symmetric positive definite dq/dw, with a non-negative factor.',
  'all admissible states, directions and element metric matrices, dimensions 1-3', FW, [EF],
  [('spectral radius and LPS scaling', EF + ': calcSpectralRadius, applyLPSScaling*')])
P('C10', 'Viscous operators are the Navier-Stokes stresses and dissipate energy',
  'The viscous operator applied to gradients of entropy variables yields the Newtonian stress tensor, its work and the Fourier heat flux; the operator is symmetric and its quadratic form is a sum of squares. An adiabatic wall passes no heat, the no-slip penalty only opposes the slip velocity, and the dual flux is the exact adjoint of the wall flux.',
  'all admissible states, all gradients, all directions, viscosities and Prandtl numbers, dimensions 1-3', FW, [NF],
  [('viscous scaling, wall fluxes and penalties', NF)])
P('C11', 'Manufactured sources balance the manufactured exact states',
  'For every manufactured solution, the source term added to the equations is, at every point, exactly the divergence of the physical flux (inviscid minus viscous) of the corresponding exact state, so that the exact state is a steady solution of the discretised equations with that source.',
  'all points of the domain, all viscosities and Prandtl numbers, the 2D and 3D viscous and the 3D inviscid solutions',
  'Convergence tests with manufactured solutions take the source for granted; a wrong term shows up as a loss of order only on fine meshes in the full solver, which does not build here.', [EF, NF],
  [('exact states and sources', EF + ': InviscidMMSExact, calcInviscidMMS'), ('exact states and sources', NF + ': viscousMMSExact, calcViscousMMS')])
P('C12', 'Reference states: free stream, isentropic vortex and viscosity law',
  'The free-stream state has unit density, unit sound speed and a velocity whose length is the Mach number and whose direction is the angle of attack. The isentropic vortex state is tangential, homentropic, of constant total enthalpy and an exact steady solution of the Euler equations; the viscosity follows Sutherland\'s law and is positive.',
  'all Mach numbers and angles; all points of the right half plane outside the vacuum core; all admissible states', FW, [EF, NF],
  [('free stream and vortex', EF + ': getFreeStreamQ, calcIsentropicVortexState'), ('viscosity', NF + ': calcSutherlandViscosity')])
P('C13', 'Newton globalisation accepts only steps that sufficiently decrease the residual',
  'The backtracking line search returns a step only if it satisfies the sufficient-decrease condition phi(a) <= phi(0) + mu a phi\'(0) and never exceeds the initial step; it gives up (returns 0) only after max_iter backtracks, and each backtrack contracts the step by a factor within [rho_lo, rho_hi] that minimises the quadratic or cubic interpolant where that lies in the range. Phi is the residual norm along the Newton direction (with the right-hand side, without changing state or direction) and phi\'(0) its slope; RelaxedNewton passes exactly that function, so an accepted step in (0,1] decreases ||r|| sufficiently. Every step of InexactNewton reduces ||F(x)-b|| by the target amount (1 - t(1-theta)); its trial steps minimise the quadratic interpolant of 0.5||F||^2 clamped to [theta_min, theta_max]; it reports convergence only when the norm at the returned state meets max(rel_tol ||r0||, abs_tol), and otherwise only after max_iter iterations.',
  'all functions, directions, Jacobians, right-hand sides, tolerances and options; any number of iterations (invariants), interpolant of InexactNewton: first two backtracks', 'The tests run a handful of scalar and small test functions; they cannot cover every merit function, option and iteration history (a line search that accepts an insufficient step still converges on easy problems).', ['src/common/linesearch.cpp', 'src/common/inexact_newton.cpp', 'src/common/relaxed_newton.cpp'],
  [('line search', 'src/common/linesearch.cpp: BacktrackingLineSearch::search, quadratic/cubic interpolation'), ('Newton', 'src/common/relaxed_newton.cpp: RelaxedNewton::ComputeScalingFactor; src/common/inexact_newton.cpp: Mult, ComputeStepSize')])
P('C14', 'Root finders, patch interpolation and markers return what they promise',
  'bisection accepts exactly the intervals with a sign change, always keeps a bracket with a sign change, evaluates only midpoints, and returns a point where |f| <= ftol or whose bracket is no wider than xtol - also when the root is an end point; secant follows the secant update and returns a point with |f| <= ftol or last step < xtol; each throws exactly when maxiter is used up without meeting a tolerance. quadInterp returns the stationary point of the interpolating quadratic. The patch interpolation operators (buildInterpolation, buildLSInterpolation) reproduce every polynomial of the requested degree at every query point. Elementwise product, quotient and reciprocal (also in place), the squared exponential exp(-|x-xc|^2/len^2), and attribute/boundary markers (a list marks exactly the listed attributes; "all", "none"; anything else is rejected) compute exactly what they document.',
  'all real functions, brackets and tolerances, any number of iterations; all point sets of full rank; all vectors (sizes 1-5), all attribute lists up to the stated sizes', 'The unit test finds two roots; correctness for every function, bracket, tolerance and iteration count, and exactness for every point set, cannot be sampled.', ['src/utils/utils.cpp', 'src/utils/utils.hpp'],
  [('root finders', 'src/utils/utils.cpp: bisection, secant, quadInterp'), ('interpolation', 'src/utils/utils.cpp: buildInterpolation, buildLSInterpolation'), ('markers', 'src/utils/utils.cpp: attrVecToArray, getMFEMBoundaryArray')])

P('C15', 'Time steps take the documented update, conserve entropy and have full order',
  'Each time integrator takes exactly the step it is named for: the steady solver replaces the state by the implicit solution started at the current state, pseudo-transient continuation is backward Euler, and the relaxation Runge-Kutta methods move the state along the combined stage slopes by exactly the time they advance, with the step length chosen so that the entropy change of the state balances the quadrature of the entropy production to the root finder\'s tolerance. Stage states, stage times and weights are those of the tableau, and the eight-stage method satisfies every order condition up to order six. The first-order ODE wrapper solves for the rate at the right state, time and step, builds the integrator named in the options and rejects unknown or deprecated names with a MISO exception. The space-time residual is M du/dt + R(u + dt du/dt) at the rate it is given, and its Jacobian with respect to the rate is M + dt dR/du.',
  'all states, times, step sizes, slope functions, entropy functions and Runge-Kutta coefficients; two consecutive evaluations', 'The ODE tests integrate one oscillator and compare end states to loose tolerances and do not build here; a wrong stage time, weight digit or entropy bookkeeping passes on autonomous problems.',
  ['src/common/mfem_extensions.cpp', 'src/common/ode.cpp', 'src/common/evolver.cpp'],
  [('relaxation Runge-Kutta and pseudo-transient steps', 'src/common/mfem_extensions.cpp: SteadyODESolver, PseudoTransientSolver, RRKImplicitMidpointSolver, ExplicitRRKSolver, RRK6Solver'), ('first-order ODE and space-time residual', 'src/common/ode.cpp: FirstOrderODE, TimeDependentResidual'), ('ODE system operator', 'src/common/evolver.cpp: ODESystemOperator')], ('inputs', 'histories'))
P('C16', 'Composed operators, preconditioners and solvers act as their definitions say',
  'A sum of operators applied to a vector is alpha A x + beta B x for all coefficients including 0 and 1, square or rectangular, whatever was computed before; operators of different shapes are rejected. The Jacobian-free product is the scaled forward-difference quotient of the residual along the given vector with a small positive step, is exact for affine residuals, adds the explicit operator, keeps its own copy of the state, and its diagonal blocks are the scaled residual blocks plus the explicit ones. The block-Jacobi preconditioner applies each block (or the identity where none is set) to its own part of the vector, also transposed, and hands every block its own diagonal Jacobian block. The linear and nonlinear solvers built from options are of the requested type with the requested tolerances, iteration limit and inner solver; unknown types raise a MISO exception.',
  'all vectors, operator entries, coefficients, states, residual functions and tolerances; consecutive applications', 'The only operator test does not build here and multiplies with a fixed pair of matrices; sizes, zero coefficients and stale scratch data are never exercised.',
  ['src/common/matrix_operators.cpp', 'src/common/matrix_operators.hpp', 'src/common/mfem_extensions.cpp'],
  [('operator sum and Jacobian-free product', 'src/common/matrix_operators.cpp: SumOfOperators, JacobianFree'), ('block preconditioner and solver factories', 'src/common/mfem_extensions.cpp: BlockJacobiPreconditioner, constructLinearSolver, constructNonlinearSolver')], ('inputs', 'histories'))
P('C17', 'Element integrators assemble the stated form and its exact Jacobian',
  'Whatever the norm, difference operators, basis and curved mapping of the SBP element, the arguments of the weak form and the scaling alpha: the element and face residuals equal the stated sums (inviscid, two-point flux, projection stabilisation, boundary, interface, mass, viscous and viscous-boundary terms) with each pointwise function evaluated at the right node, normal and gradient; the assembled Jacobian is the exact derivative of the assembled residual, entry by entry; the functional of an integrator is the stated, alpha-scaled sum; volume two-point terms and interface terms create or destroy no conserved quantity; the stabilisation is P^T H A P in the projected entropy variables; nothing outside the element arrays is touched, for any number of states.',
  'all element operators, norms, mapping Jacobians, face geometries, states, alpha and pointwise functions; dimensions 1 to 3', 'The integrator tests need ODL MFEM and Adept and do not build here; they compare a Jacobian-vector product with finite differences on one mesh with alpha=1.',
  ['src/physics/fluidflow/inviscid_integ_def.hpp', 'src/physics/fluidflow/viscous_integ_def.hpp', 'src/common/sbp_fe.cpp'],
  [('inviscid, dissipation, boundary, interface and mass integrators', 'src/physics/fluidflow/inviscid_integ_def.hpp'), ('viscous integrators', 'src/physics/fluidflow/viscous_integ_def.hpp')], ('inputs',))
P('C18', 'SBP elements differentiate, integrate and interpolate exactly to their degree',
  'For every supported degree of the segment, triangle and tetrahedron elements: the norm is positive and integrates polynomials exactly (degree 2p-1 at least; the full Gauss-Lobatto degree on segments); the difference operators are exact on polynomials up to degree p; the off-diagonal part of Q is skew and Q + Q^T is the boundary quadrature of the face elements (diagonal E); the projection basis is orthonormal in the norm, spans the polynomials and is annihilated by P = I - V V^T H; shape functions are nodal at the nodes and the projection onto the polynomials at any other point, their derivatives are the rows of H^-1 Q and are refused elsewhere. Every access path to H, Q, D, P and the physical-space entries (full, row, entry, transposed, applied, in place, reverse derivative) gives the same operators for arbitrary tables, and nodes are found exactly by their position. The Jacobi, Proriol and Vandermonde functions are the normalised orthogonal polynomials, singular points included; the Lobatto rule is exact. The collections distribute the nodes over vertices, edges and interior consistently with the elements and edge orientations.',
  'all points of the reference elements, all data, arbitrary operator tables; all supported degrees', 'The element tests need ODL MFEM and do not build here; they check polynomial exactness to loose tolerances and never evaluate shape functions away from nodes, CalcDShape, or beta != 0.',
  ['src/common/sbp_fe.cpp', 'src/common/sbp_fe.hpp', 'src/common/orthopoly.cpp', 'src/common/data/sbp_operators.hpp'],
  [('elements, access paths and collections', 'src/common/sbp_fe.cpp'), ('orthogonal polynomials and quadrature', 'src/common/orthopoly.cpp'), ('operator tables', 'src/common/data/sbp_operators.hpp')], ('inputs',))
P('C19', 'Output integrators are exact quadratures, their sensitivities exact derivatives',
  'Every shared output and residual integrator (volume or mass, state, magnitude of the curl, induced-exponential aggregates of a state, of a curl magnitude and of the demagnetisation risk, magnetic flux, diffusion, weak divergence, vector mass, vector and scalar loads, curl loads) returns the quadrature of its stated integrand with the stated scaling; its element vector is the exact derivative of that functional in the state; its mesh sensitivity is the exact derivative, in every node coordinate of the element, of the functional (or of the adjoint-weighted residual), through mapping, shape functions, coefficient and weight - with the same quadrature rule, for simplex and tensor-product elements, oriented (transformed) degrees of freedom, with or without optional coefficients, in two and three dimensions.',
  'all shape-function values, node coordinates, states, adjoints, coefficients (arbitrary smooth functions of position), weights and parameters', 'The sensitivity tests need ODL MFEM and do not build here; they compare finite differences on one mesh in one direction, with alpha = 1 and one element type.',
  ['src/physics/mfem_common_integ.cpp', 'src/physics/mfem_common_integ.hpp'],
  [('functionals and their state derivatives', 'src/physics/mfem_common_integ.cpp: GetElementEnergy / AssembleElementVector of VolumeIntegrator, StateIntegrator, MagnitudeCurlStateIntegrator, IE*AggregateIntegrator*, IEAggregateDemagIntegrator*'), ('mesh sensitivities', 'src/physics/mfem_common_integ.cpp: *MeshSens::AssembleRHSElementVect')], ('inputs',))
P('C20', 'Thermal boundary and interface terms: exact residuals, Jacobians, sensitivities',
  'Every thermal term (convection and outflux on a boundary, thermal contact resistance and internal convection across a face between two elements, L2 projection) assembles the quadrature of its stated flux, with the shape functions of each element at the point of that element, opposite signs on the two sides where heat crosses, and its scaling alpha; its Jacobian is the exact derivative in the state of both sides; its sensitivities in the heat transfer coefficient, the fluid temperature and every node coordinate of the (curved) face are exact derivatives of the adjoint-weighted residual, taken with the residual\'s own quadrature rule and stored at the nodes of the element that owns the face; an input sets exactly the parameter of its name.',
  'all states, adjoints, shape-function values, face geometries, coefficients and weights, both sides of different polynomial order, faces that are boundary elements or not', 'The thermal tests need Adept and ODL MFEM and do not build here; they compare finite differences on one flat mesh where the quadrature rules happen to coincide.',
  ['src/physics/thermal/thermal_integ.cpp', 'src/physics/thermal/thermal_integ.hpp', 'src/physics/miso_input.cpp'],
  [('residuals and Jacobians', 'src/physics/thermal/thermal_integ.cpp: AssembleFaceVector / AssembleFaceGrad of ThermalContactResistanceIntegrator, InternalConvectionInterfaceIntegrator, ConvectionBCIntegrator, OutfluxBCIntegrator; L2ProjectionIntegrator'), ('sensitivities', 'src/physics/thermal/thermal_integ.cpp: *MeshRevSens::AssembleRHSElementVect, *HRevSens::GetFaceEnergy, *FluidTempRevSens::GetFaceEnergy'), ('named inputs', 'src/physics/thermal/thermal_integ.cpp: setInputs')], ('inputs',))
P('C21', 'Electromagnetic residual terms: exact forms, Jacobians and sensitivities',
  'The electromagnetic residual terms (nonlinear diffusion and curl-curl of the magnetic potential, discontinuous-Galerkin diffusion across a boundary and across a face between two elements, permanent-magnet source) assemble the quadrature of their stated weak form with the material model evaluated at the magnitude of the flux density, each element at its own point, with the scaling alpha; the element and face matrices are the exact derivative of that residual in the state of every element involved; the sensitivities in every node coordinate (and in temperature, and in the state of a curl-curl term) are exact derivatives of the adjoint-weighted residual with the residual\'s own quadrature rule, for oriented degrees of freedom too; where the field vanishes every derivative is finite and exact.',
  'all states, adjoints, shape-function values, node coordinates, boundary data, penalty and alpha parameters, and all material models (arbitrary smooth functions of the flux density); vanishing field included', 'The electromagnetic tests need ODL MFEM and do not build here; they compare finite differences on one mesh, with alpha = 1, linear simplices and a nonzero field, where rules coincide and the DG terms see identical points.',
  ['src/physics/electromagnetics/electromag_integ.cpp', 'src/physics/electromagnetics/electromag_integ.hpp'],
  [('element terms', 'src/physics/electromagnetics/electromag_integ.cpp: NonlinearDiffusionIntegrator*, CurlCurlNLFIntegrator*, MagnetizationSource2DIntegrator*'), ('face terms', 'src/physics/electromagnetics/electromag_integ.cpp: NonlinearDGDiffusionIntegrator*, DGInteriorFaceDiffusionIntegrator*')], ('inputs',))
P('C22', 'Electromagnetic outputs: exact quadratures and exact sensitivities',
  'The electromagnetic outputs return the quadrature of their stated integrand: magnetic energy with the energy density obtained by integrating the reluctivity model up to the flux density, norms of the flux density, field and reluctivity; the virtual-work force is minus the derivative of that energy along the displacement of the nodes. First and second derivatives of the energy density, the element vectors (derivatives in the state) and the mesh sensitivities are exact derivatives of that output with the same quadrature rule, and finite where the field vanishes.',
  'all states, shape-function values, node coordinates, weights and material models (arbitrary smooth functions)', 'The electromagnetic tests need ODL MFEM and do not build here; they compare finite differences on one mesh with a nonzero field.',
  ['src/physics/electromagnetics/electromag_integ.cpp', 'src/physics/electromagnetics/electromag_integ.hpp', 'src/physics/electromagnetics/electromag_outputs.cpp'],
  [('energy and norms', 'src/physics/electromagnetics/electromag_integ.cpp: calcMagneticEnergy*, MagneticEnergyIntegrator*, BNorm*, nuBNorm*, nuFunc*'), ('virtual work', 'src/physics/electromagnetics/electromag_integ.cpp: ForceIntegrator3, ForceIntegratorMeshSens3')], ('inputs',))
P('C23', 'Electromagnetic losses and heat sources: exact, with every named sensitivity',
  'The loss outputs return the quadrature of their model: resistive direct- and alternating-current losses, Steinmetz and fitted (CAL2) core losses, the demagnetisation constraint; the heat distributions return that density against every test function. Setting a named input (current, frequency, stack length, strand radius, strands, maximum flux density, ...) changes exactly that quantity, and the sensitivity the integrator gives for a named input, the state, the temperature or the node coordinates is the exact derivative of the same output, with the same quadrature rule.',
  'all inputs, shape-function values, node coordinates, weights and material models (arbitrary smooth functions)', 'The loss tests need ODL MFEM and do not build here; they compare finite differences at one design point.',
  ['src/physics/electromagnetics/electromag_integ.cpp', 'src/physics/electromagnetics/electromag_integ.hpp', 'src/physics/electromagnetics/electromag_outputs.cpp'],
  [('losses', 'src/physics/electromagnetics/electromag_integ.cpp: DCLoss*, ACLoss*, SteinmetzLoss*, CAL2CoreLoss*, DCLFDistribution*, ACLFDistribution*, CAL2CoreLossDistribution*, PMDemag*')], ('inputs',))
P('C24', 'Material models and coefficients: documented value, exact derivatives',
  'Each component of the options gets, on each of its attributes (one attribute or a list), the material model its options name with the data given there, or else the data of the material library, and all other attributes the default; an unknown model is refused. Each model (reluctivity, conductivity, remnant flux, demagnetisation knee, CAL2 hysteresis and eddy coefficients) has its documented value, and its first and second derivatives are the derivatives of that value, at zero flux too. A mesh-dependent coefficient forwards every evaluation, derivative and named input to the coefficient of the element attribute. Products, weighted mixtures and continuations have the stated value and derivative.',
  'all states, material data, weights, attributes, coefficient functions', 'The coefficient tests need the ODL branch of MFEM and tinyspline and do not build here; they compare a few sample points.',
  ['src/common/coefficient.cpp', 'src/common/coefficient.hpp', 'src/physics/electromagnetics/reluctivity_coefficient.cpp', 'src/physics/electromagnetics/conductivity_coefficient.cpp', 'src/physics/electromagnetics/remnant_flux_coefficient.cpp', 'src/physics/electromagnetics/demag_flux_coefficient.cpp', 'src/physics/electromagnetics/pm_demag_constraint_coeff.cpp', 'src/physics/electromagnetics/cal2_kh_coefficient.cpp', 'src/physics/electromagnetics/cal2_ke_coefficient.cpp'],
  [('coefficients', 'src/common/coefficient.cpp: MeshDependent*Coefficient, *Product, Weighted*, construct*Material*Coefficient'), ('models', 'src/physics/electromagnetics/*_coefficient.cpp')], ('inputs',))
P('C25', 'Flow integrators: each condition imposes its flux, Jacobians are exact',
  'The pointwise flux of every Euler and Navier-Stokes integrator is the flux its condition stands for: the physical and two-point flux inside, the slip wall, far field, vortex, entropy-conserving, control and no-slip conditions on the boundary, inflow, outflow, an exact solution, the interface flux with its dissipation, with constant viscosity or Sutherland\'s law over the Reynolds number, in conservative and entropy variables, with the inputs last set. The Jacobians of these fluxes in the state, the gradient of the entropy variables, the face normal, the mapping and the stabilised vector are their exact derivatives. Boundary functionals (entropy, supply rate, pressure and surface force, flux contracted with the entropy variables) have the stated value, and the force\'s gradient is its derivative.',
  'all admissible states, gradients, normals, parameters; dim 1 to 3', 'The integrator tests need Adept and MFEM with ODL and do not build here; they compare Jacobians with finite differences at a few random states.',
  ['src/physics/fluidflow/euler_integ_def.hpp', 'src/physics/fluidflow/euler_integ.hpp', 'src/physics/fluidflow/navier_stokes_integ_def.hpp', 'src/physics/fluidflow/navier_stokes_integ.hpp', 'src/physics/fluidflow/euler_fluxes.hpp', 'src/physics/fluidflow/navier_stokes_fluxes.hpp'],
  [('Euler', 'src/physics/fluidflow/euler_integ_def.hpp: *::calcFlux, calcFluxJac*, calcBndryFun, convertVars*, applyScaling*'), ('Navier-Stokes', 'src/physics/fluidflow/navier_stokes_integ_def.hpp: the same and SurfaceForce::AssembleFaceVector')], ('inputs',))
P('C26', 'Flow mesh sensitivities are the derivative of adjoint^T residual in the nodes',
  'The vector the flow mesh-sensitivity integrators assemble for an element is the derivative, in every coordinate of every mesh node, of the adjoint-weighted residual that the corresponding residual integrator assembles for the same state: for two-point fluxes inside the element and for boundary fluxes on its face, with the same factor alpha. The two-point flux is that of the residual, and the adjoint of the wall flux is the derivative of the weighted wall flux in the normal. The manufactured-solution integrator adds alpha times norm times Jacobian times the source at each node, nothing to the Jacobian, and its source is that of the exact solution, with no access beyond the source.',
  'all states, adjoints, mesh nodes, element bases, fluxes; dim 1 to 3', 'The sensitivity tests need Adept and MFEM with ODL and do not build here; they compare a few directional derivatives with finite differences.',
  ['src/physics/fluidflow/mesh_sens_integ_def.hpp', 'src/physics/fluidflow/mesh_sens_integ.hpp', 'src/physics/fluidflow/euler_sens_integ_def.hpp', 'src/physics/fluidflow/euler_sens_integ.hpp', 'src/physics/fluidflow/mms_integ_def.hpp', 'src/physics/fluidflow/mms_integ.hpp', 'src/physics/fluidflow/euler_integ_mms.hpp', 'src/physics/fluidflow/inviscid_integ_def.hpp', 'src/common/sbp_fe.cpp'],
  [('mesh sensitivities', 'src/physics/fluidflow/mesh_sens_integ_def.hpp: *::AssembleRHSElementVect'), ('sources', 'src/physics/fluidflow/mms_integ_def.hpp: MMSIntegrator::AssembleElementVector')], ('inputs',))
P('C27', 'Magnetostatic sources: exact directions, currents and position derivatives',
  'Every current and magnet source function returns the documented direction at every position: axis sources the fixed axis; ring the in-plane unit tangent about the z axis; stator sources plus or minus the axial current turning between slots; box sources minus or plus 6 (y - 1/2) along z; the Team 13 source the winding direction of the region the point is in; magnets the radial, tangential or fixed unit direction. Scaled by the current of its group (or the remnant flux of the magnet) this is the coefficient value, and it is zero on attributes without a source. The reverse-mode functions and the coefficients\' EvalRevDiff add exactly the derivative of the weighted value in every node coordinate. Setting a current_density input changes that group alone and reports whether anything changed; caching, zeroing and resetting restore the cached currents for every group, whatever its sources. The 2D load is minus the current density.',
  'all positions off the axis and the region jumps, nodes, weights, currents, group layouts up to the bound', 'The source functions are only compiled with Adept and MFEM with ODL; the tests that use them sample a few points and no stator source, restored cache or repeated input.',
  ['src/physics/electromagnetics/current_source_functions.cpp', 'src/physics/electromagnetics/current_source_functions.hpp', 'src/physics/electromagnetics/magnetic_source_functions.cpp', 'src/physics/electromagnetics/remnant_flux_coefficient.cpp', 'src/common/coefficient.cpp'],
  [('currents', 'src/physics/electromagnetics/current_source_functions.cpp: CurrentDensityCoefficient'), ('magnets', 'src/physics/electromagnetics/magnetic_source_functions.cpp: MagnetizationCoefficient')], ('inputs',))
