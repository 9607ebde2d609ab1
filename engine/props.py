"""Which harness translation units decide which property."""
R_FLUID = ['states: density > 0, pressure > 0 (admissible states); gamma = 1.4 as in the code']
PROPS = {
 'C01': dict(tus=['fl_entropy'], harness='^h_(roundtrip|roundtripw|entropyval)_', assume=R_FLUID),
 'C02': dict(tus=['fl_entropy'], harness='^h_(gradient|hess)_', assume=R_FLUID),
 'C03': dict(tus=['fl_ir', 'fl_roe', 'fl_wall'], harness='^h_(irconsist|roeconsist|farfield|bndspec|irec_coord)_', assume=R_FLUID),
 'C04': dict(tus=['fl_ir', 'fl_roe'], harness='^h_(irsym|roecons|irvar)_', assume=R_FLUID),
 'C05': dict(tus=['fl_ir'], harness='^h_(irec_face|irec_coord|irvar|irdiss)_', assume=R_FLUID),
 'C06': dict(tus=['fl_logavg'], harness='^h_logavg', assume=[]),
 'C07': dict(tus=['fl_wall'], harness='^h_(slipwall|project|control|bndec)_', assume=R_FLUID),
 'C08': dict(tus=['fl_roe'], harness='^h_(roespec|roeupwind|bndspec|bndout)_', assume=R_FLUID),
 'C09': dict(tus=['fl_wall'], harness='^h_(spect|lps)_', assume=R_FLUID),
 'C10': dict(tus=['fl_visc'], harness='^h_(viscflux|cij|adiabatic|noslip|dualflux)_', assume=R_FLUID),
 'C11': dict(tus=['fl_mms'], harness='^h_mms_', assume=['coefficients: viscosity > 0, Prandtl number > 0']),
 'C13': dict(tus=['nl_linesearch', 'nl_newton'], harness='^h_(ls|phi|relaxed|inexact)', assume=['problem size 2 in the Newton harnesses (the algorithm touches vectors only through mfem::Vector operations)', 'residual, Jacobian and linear solver are arbitrary functions'], bounded=['h_inexact_rhs_bounded: one Newton iteration, one backtrack', 'h_inexact_interpolant*_bounded: first two backtracks of the first iteration']),
 'C14': dict(tus=['ut_utils'], harness='^h_', assume=['func is an arbitrary real function with distinct values at consecutive secant points; tolerances >= 0, maxiter >= 1', 'LAPACK dgels returns the (least-squares) solution of a full-rank system', 'vector sizes 1..5, marker sizes 1..3 with at most two listed attributes (bounded); interpolation: polynomial degree up to 2 (3 in 1D), stated numbers of centres']),
 'C15': dict(tus=['ti_ode'], harness='^h_(step|rrk|rrk6|ode|str|odesys)_?', assume=['state size 2 (the steppers touch vectors only through mfem::Vector operations); explicit relaxation schemes with 1 to 4 stages and arbitrary coefficients, and the 8-stage RRK6', 'slope, entropy and entropy-change functions of the operator are arbitrary functions', 'root finder: contract of miso::secant proved in C14 (met tolerance, small correction, or exception)', 'mfem::ForwardEulerSolver, RK4Solver, ImplicitMidpointSolver: documented formulas', 'spatial Jacobians of DenseMatrix type with identity mass (the HypreParMatrix branch is outside reach)'], bounded=['stage counts 1-4 and 8; state size 2']),
 'C12': dict(tus=['fl_wall', 'fl_visc', 'fl_mms'], harness='^h_(freestream_|sutherland_|vortex)', assume=R_FLUID),
 'C16': dict(tus=['mo_ops'], harness='^h_(sum|jacfree|prec|lin|nonlin)', assume=['operators with 1 to 3 rows and columns and arbitrary entries; preconditioner blocks of sizes 2, 1, 2; residual of size 2', 'one-process communicator (MPI_Allreduce is the identity)', 'coefficients within 1e-16 of 0 and 1 count as exactly 0 and 1', 'linear solver types other than those of hypre'], bounded=['operator sizes 1-3, three preconditioner blocks']),
 'C17': dict(tus=['fe_integ', 'fe_visc'], harness='^h_(inv|dyad|lps|bnd|face|mass|visc|vbnd)_', assume=['element: the base class SBPFiniteElement on a simplex of dimension 1-3 with dimension+1 nodes and arbitrary norm, operators and basis; two states per node', 'mapping: arbitrary Jacobian and position at every node (invertible where the code divides by it); face with arbitrary geometry and weights', 'pointwise fluxes, conversions, scalings and functionals of the integrators: arbitrary functions with their exact derivatives (the concrete ones are properties C01-C12)', 'mfem FiniteElement, ElementTransformation, IntegrationPointTransformation: documented behaviour (include/mfem_fe_model.hpp)'], bounded=['dimension 1-3, dimension+1 nodes per element, 2 states per node']),
 'C18': dict(tus=['sb_sbp', 'sb_poly', 'sb_elem'], harness='^h_', assume=['access paths: the base class SBPFiniteElement in dimension 1-3 with dimension+1 nodes and arbitrary norm, operators and basis', 'tables and nodes are decided at their double values with the tolerances stated in the obligations (1e-11 to 1e-15), everything else exactly', 'getLobattoQuadrature: in the segment shape-function obligations its contract (h_lobatto) stands in for its body; global array initialisers are read as they stand in the sources'], bounded=['supported degrees only: segments and triangles 0-4, tetrahedra 0-1; Jacobi polynomials up to degree 5 with integer alpha <= 10, beta <= 2']),
 'C19': dict(tus=['od_common'], harness='^h_', assume=['element: arbitrary values and gradients (curls) of the shape functions at 2 quadrature points of arbitrary positive weight, 3 degrees of freedom; isoparametric mapping with dimension+1 nodes, arbitrary node coordinates with positive Jacobian', 'declarations of the developers\' MFEM branch (engine/odl.py): each *RevDiff adds the exact derivative of its forward method (proved for the transformation in h_odl_*)', 'coefficients: arbitrary smooth functions of the position, with exact gradients', 'the curl magnitude is not zero at the quadrature points'], bounded=['2 quadrature points, 3 degrees of freedom, dimension+1 mesh nodes; dimension 2 and 3']),
 'C20': dict(tus=['od_thermal'], harness='^h_', assume=['elements: arbitrary shape-function values at 2 quadrature points of arbitrary positive weight, 3 and 2 degrees of freedom on the two sides; curved face (tangents differ between the points) with arbitrary node coordinates and positive area', 'declarations of the developers\' MFEM branch (engine/odl.py): WeightRevDiff adds the exact derivative of Weight', 'mesh space: the nodes of the face are nodes of the first element, in any fixed order'], bounded=['2 quadrature points, 3 and 2 degrees of freedom, dimension face nodes; dimension 2 and 3']),
 'C21': dict(tus=['em_resid', 'em_face'], harness='^h_', assume=['elements: arbitrary shape-function gradients (curls) at 2 quadrature points of arbitrary positive weight, 1 to 3 degrees of freedom; isoparametric mapping with dimension+1 nodes, arbitrary node coordinates with positive measure', "declarations of the developers' MFEM branch (engine/odl.py): Weight/Jacobian/AdjugateJacobian reverse derivatives are the exact derivatives", 'material models: arbitrary smooth functions of the flux density (and temperature), constant in position within an element; field away from zero except in the h_zero harnesses (the derivative of a norm exists away from zero)', 'mesh space: the nodes of the face or element are nodes of the element in any fixed order'], bounded=['2 quadrature points, 1 to 3 degrees of freedom per element; dimension 2 and 3']),
 'C22': dict(tus=['em_out', 'em_force'], harness='^h_', assume=['elements: arbitrary shape-function gradients (curls) at 2 quadrature points of arbitrary positive weight, 1 to 3 degrees of freedom, reference curls of the 3D force mesh sensitivity in one coordinate plane per point; isoparametric mapping with dimension+1 nodes, arbitrary node coordinates with positive measure', "declarations of the developers' MFEM branch (engine/odl.py): Weight/Jacobian/AdjugateJacobian reverse derivatives are the exact derivatives", 'material models: arbitrary smooth functions of the flux density (and temperature), constant in position within an element; field away from zero except in the h_zero harnesses (the derivative of a norm exists away from zero)'], bounded=['2 quadrature points, 2 degrees of freedom; dimension 2 and 3']),
 'C23': dict(tus=['em_loss'], harness='^h_', assume=['elements: arbitrary shape-function gradients (curls) at 2 quadrature points of arbitrary positive weight, 1 to 3 degrees of freedom; isoparametric mapping with dimension+1 nodes, arbitrary node coordinates with positive measure', "declarations of the developers' MFEM branch (engine/odl.py): Weight/Jacobian/AdjugateJacobian reverse derivatives are the exact derivatives", 'material models: arbitrary smooth functions of the flux density (and temperature), constant in position within an element; field and loss inputs away from the values where the model itself has no derivative'], bounded=['2 quadrature points, 2 degrees of freedom; dimension 2 and 3']),
 'C24': dict(tus=['mat_models', 'mat_coef'], harness='^h_', assume=['tinyspline (include/tinysplinecxx.h): a clamped spline is a smooth function of its parameter whose derivative() is its exact derivative, eval inside the domain', 'nlohmann::json: executed as compiled, no assumption', 'states away from the kinks of a model (sign changes of abs, saturation limits) except where the harness is about them'], bounded=['material options with one or two components and one or two attributes each; B-H curve of 3 to 5 points, polynomial fits of 1 to 3 terms; two attributes and a default per mesh-dependent coefficient']),
 'C25': dict(tus=['fi_euler', 'fi_ns', 'fi_force'], harness='^h_', assume=['Adept (include/adept.h): an executed tape that records each operation with its partial derivatives; the missing library is assumed to be such a tape', 'states with positive density and pressure, away from the kinks of |.| and max', 'logavg: by its C06 contract (value), an arbitrary smooth function for derivatives', 'calcBoundaryFlux inside the entropy-conserving boundary functional: an arbitrary flux', 'SurfaceForce face loop: the pointwise force is an arbitrary smooth function whose derivatives are its Jacobians (the latter proved for the real one)'], bounded=['surface force on an element: one SBP element with dim + 1 nodes, boundary face with dim nodes']),
 'C26': dict(tus=['fi_mesh'], harness='^h_', assume=['IsoparametricTransformation::*RevDiff of the missing MFEM branch add the exact derivative of their forward method; CalcOrthoRevDiff assigns (the caller does not clear its result)', 'GridFunction::GetVectorValues at the nodes of the SBP element returns the nodal values', 'the face Jacobian is the element Jacobian times a fixed matrix; boundary fluxes that do not depend on the position', 'logavg: by its C06 contract'], bounded=['one element with dim + 1 SBP nodes and dim + 1 mesh nodes (arbitrary basis), two states']),
 'C27': dict(tus=['em_src'], harness='^h_', assume=['MFEM FunctionCoefficient, VectorFunctionCoefficient, ProductCoefficient, ScalarVectorProductCoefficient (and their EvalRevDiff in the missing MFEM branch, which adds the exact derivative) by their documented contracts', 'Adept records exact derivatives (executed tape in include/adept.h)', 'points off the axis and off the jumps of round and of the regions'], bounded=['up to two current groups with two attributes per source; one element with dim + 1 nodes']),
}
