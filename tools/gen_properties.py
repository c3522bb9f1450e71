"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))


prop("C01", "CSG operations on R-functions decide set membership",
     """For every documented R-function system and every nesting of union, intersection, negation, difference, xor,
     equivalence and implication, the combined approximate distance function is positive exactly where the Boolean
     combination of the operands is true, negative where it is false and zero on the resulting boundary, and it is
     never NaN for finite operands. Conjunction and disjunction are symmetric and De Morgan dual; R_1 is min/max,
     R_p with p=2 is R_0, and the rho-blending system equals R_0 outside its blending radius and only rounds
     (shrinks intersections, grows unions) inside it. Parameters outside the documented range are rejected.""",
     ["inputs", "programs", "configurations"],
     "all R-systems (alpha in (-1,1], m, even p, rho), all expression trees, all operand values including zeros, ties and near-ties",
     """Seven unit tests evaluate one operator each on 1-d intervals for r0/r1 only; nested trees, other alpha/m/p/rho and
     near-equal operands are never run.""",
     ["magpi/r_fun.py"],
     [("RFun.union/intersection/negate/difference/xor/equivalence/implication", "magpi/r_fun.py:RFun"),
      ("conjunction/disjunction formulas", "magpi/r_fun.py:RAlpha,RAlphaM,RP,RhoBlending")],
     ["value returned by the composed ADF", "RFun.conjunction/disjunction"])

prop("C02", "Primitive solids are positive inside, zero on and negative outside",
     """Cuboids and cubes (centered or not, any dimension, any R-system), spheres, infinite cylinders and ellipsoids
     return a finite scalar that is positive strictly inside the solid, zero on its surface and negative strictly
     outside, whatever numeric form the sizes are given in. Values are finite everywhere and gradients of the smooth
     primitives are finite everywhere including the center of symmetry.""",
     ["inputs", "configurations"],
     "all sizes, dimensions, centering flags, R-systems, parameter types (int, float, list, tuple, array) and points, including centers, faces, edges and corners",
     "Tests evaluate unit cubes and a radius-2 circle at a handful of face centers; ellipsoid, cylinder, negative points and the center are never evaluated.",
     ["magpi/r_fun.py"],
     [("cuboid/cube/sphere/cylinder/ellipsoid", "magpi/r_fun.py")],
     ["value and gradient of the returned ADF"])

prop("C03", "Approximate distance functions are normalized on the boundary",
     """For solids built from first-order normalized pieces with a normalized R-system (R_alpha, R_p, blending outside its
     radius) by any CSG operations and length-preserving transformations, the gradient of the ADF at every smooth boundary
     point is the inward unit normal. R_p compositions are normalized to order p-1 (normal derivatives 2..p-1 vanish), and
     first-order normalization turns any function with non-vanishing boundary gradient into one with unit gradient there
     without moving its zero set or changing its sign.""",
     ["inputs", "programs", "configurations"],
     "all expression trees, normalized systems, primitives, scalings/rotations/reflections and smooth boundary points",
     "Tests check unit gradient at face midpoints of one cube under r0/R4; nested operators, ellipsoids, cylinders, scaling of composites and normalize_1st_order are untested.",
     ["magpi/r_fun.py"],
     [("normalized conjunction/disjunction", "magpi/r_fun.py:RAlpha,RP"), ("scale, ellipsoid, normalize_1st_order", "magpi/r_fun.py")],
     ["jacfwd/grad of the ADF on the boundary"])

prop("C04", "Transformations move a solid exactly as named, in any order",
     """Translating, scaling, rotating in 2d (counter-clockwise) or 3d (right-handed about the axis, or by Euler angles
     applied about the fixed x, then y, then z axis), reflecting, projecting and revolving a solid about any origin
     yields the ADF whose value at a point is the original's value at the inversely transformed point (times the factor
     for uniform scaling). This holds for every nesting of transformations, for axes and normals of any length and for
     every accepted numeric type, and invalid combinations (no axis for a single angle, axis with Euler angles, wrong
     angle shape, wrong revolution axis, non-scalar scale) are rejected.""",
     ["inputs", "programs", "configurations"],
     "all parameters, origins, base functions (not only symmetric ones) and sequences of transformations",
     "Tests only transform unit cubes onto themselves, so rotation direction, non-unit axes, origins and integer angles are invisible.",
     ["magpi/r_fun.py", "magpi/quaternions.py"],
     [("translate/scale/scale_without_normalization/rotate2d/rotate3d/reflect/project/revolution", "magpi/r_fun.py")],
     ["value of the transformed ADF"])

prop("C05", "Quaternion arithmetic forms a division algebra",
     """Quaternion addition, subtraction, negation, multiplication, conjugation, norm, reciprocal and left/right division
     agree with Hamilton's algebra for all values: multiplication is associative and norm-multiplicative, every nonzero
     quaternion times its reciprocal is one, and scalars behave the same written on either side (adding or subtracting
     a scalar acts on every component, scalar minus quaternion is the negative of quaternion minus scalar). Quaternions survive jit, vmap and pytree flattening unchanged, and
     compare equal exactly when all components agree.""",
     ["inputs", "programs"],
     "all nonzero quaternions, scalars on the left and on the right, and all expression trees over them",
     "Tests multiply a few basis elements; scalar-on-the-left subtraction, division, associativity and JAX transformations are never exercised.",
     ["magpi/quaternions.py"],
     [("Quaternion operators", "magpi/quaternions.py:Quaternion"), ("left/right division", "magpi/quaternions.py")],
     ["real and imag parts of results"])

prop("C06", "Quaternion exponential, logarithm and powers are consistent",
     """exp(log q) = q for every nonzero quaternion, log(exp q) = q whenever the imaginary part is shorter than pi, exp
     agrees with the power series, integer powers (positive, zero, negative) equal repeated multiplication or division,
     real powers add their exponents on the principal branch, and s**q equals exp(q log s) for positive s. Results are
     finite for all nonzero quaternions including purely real (positive or negative) ones.""",
     ["inputs"],
     "all quaternions in a wide magnitude range including purely real and purely imaginary ones; integer and real exponents",
     "Tests check one square, one cube and e**q for a single quaternion each.",
     ["magpi/quaternions.py"],
     [("quanternion_exp/quanternion_log/__pow__/__rpow__", "magpi/quaternions.py")],
     ["real and imag parts of results"])

prop("C07", "Rotation quaternions are unit and rotate vectors rigidly",
     """Quaternions built from an axis (of any nonzero length) and angle or from Euler angles have norm one and, applied to
     a vector by the documented product q^-1 p q, turn it by that angle about that axis in the negative (left-handed)
     sense; Euler quaternions undo the rotation about fixed x, then y, then z. Any nonzero quaternion acts as a
     length-, angle- and orientation-preserving linear map, successive rotations compose as the product of the
     quaternions, and reflection mirrors vectors at the plane of the (not necessarily unit) normal.""",
     ["inputs"],
     "all axes, angles, Euler triples, vectors, normals and pairs of quaternions",
     "Tests rotate one basis vector by 90 degrees about unit coordinate axes.",
     ["magpi/quaternions.py"],
     [("from_axis_angle/from_euler_angles/quaternion_rotation/quaternion_reflection", "magpi/quaternions.py")],
     ["rotated vector", "norm of the constructed quaternion"])

prop("C08", "Domain maps send the unit cube uniformly into and onto the domain",
     """Every interior transformation (hypercube, parallelogram, triangle, disk, annulus, sphere) maps points of the unit
     cube into its domain, with a constant volume element and covering the domain evenly, so that uniform samples
     become uniform samples of the whole domain. Samples above one are wrapped periodically, and any batch shape gives the
     same points as mapping them one by one.""",
     ["inputs", "configurations"],
     "all domain parameters and dimensions, all sample points (including 0, 1 and above), all batch shapes",
     "Tests check containment for one fixed domain each, mostly centered or axis aligned, and never uniformity or coverage.",
     ["magpi/domain.py"],
     [("transform_hypercube/annulus/circle/sphere/triangle, Parallelogram.transform", "magpi/domain.py")],
     ["mapped points", "Jacobian of the map", "moments of a mapped grid"])

prop("C09", "Boundary maps land on the boundary and cover it uniformly",
     """The boundary transformations of hypercubes (any dimension), parallelograms, disks and spheres map parameters onto
     points of exactly that boundary, every face or edge receiving a share proportional to its size and being covered
     uniformly. A polyline map walks the polyline at constant speed from its first point, and never leaves it for any
     parameter value.""",
     ["inputs", "configurations"],
     "all domain parameters, dimensions, polylines and parameter values including those next to 0, 1 and segment ends",
     "Tests use cubes with equal sides or few random points, parallelograms anchored at the origin and three parameter values.",
     ["magpi/domain.py"],
     [("transform_hypercube_bnd/circle_bnd/sphere_bnd/polyline, Parallelogram.transform_bnd", "magpi/domain.py")],
     ["mapped points", "speed/area element of the map", "moments of a mapped grid"])

prop("C10", "Domain queries report measure, membership and outward normals correctly",
     """Every domain reports its exact measure and dimension; membership is componentwise and closed for hypercubes and
     strict for disks and spheres; the normal vector query returns the outward unit normal for single points and batches
     of boundary points (at edges and corners the normal of one adjacent face) and None as soon as any point is not on
     the boundary. Domains with equal parameters are equal and hash alike.""",
     ["inputs", "configurations"],
     "all domain parameters, single points and batches, interior/exterior/face/edge/corner points",
     "Tests query one cube at one corner and one outside point; spherical normals, mixed corners, mixed batches and support of most shapes are untested.",
     ["magpi/domain.py"],
     [("support/includes/normal_vec/dataclass equality", "magpi/domain.py")],
     ["return values of the queries"])

prop("C11", "Quadrature rules are exact to their degree on any tensor grid",
     """Integration over any (also non-uniform or reversed) partition of an interval or any tensor product of partitions
     with different sizes is exact for polynomials up to degree one (midpoint, trapezoid), three (Simpson) and 2n-1
     (n-point Gauss) in each variable. Scalar, array and pytree valued point functions (including constants) integrate
     componentwise in every dimension, additional arguments reach the integrand, every way of passing the domain gives
     the same result, and results are differentiable in parameters and end points.""",
     ["inputs", "configurations"],
     "all rules, node sets, dimensions, polynomials up to the exactness degree, output structures and domain representations",
     "Three tests integrate sine/cosine or 2x on uniform grids.",
     ["magpi/integrate.py"],
     [("midpoint/trap/simpson/gauss/integrate", "magpi/integrate.py")],
     ["value of the integral", "weights and nodes of a rule"])

prop("C12", "Disk and ball integrals agree with the geometric integral",
     """Integrating any polynomial over a disk sector or annulus and over a ball, spherical shell or spherical sector with
     any radius, inner radius, angular limits and origin converges to the exact geometric integral, and is exact to
     rounding when enough Gauss nodes resolve the angles. Vector and pytree valued integrands, separate node counts per
     coordinate and extra arguments are supported.""",
     ["inputs", "configurations"],
     "all radii, inner radii, origins, angular sectors, node counts, rules and polynomial integrands",
     "One doctest integrates the constant one over the unit disk; balls, shells, sectors, origins and arguments are untested.",
     ["magpi/integrate.py"],
     [("integrate_disk/integrate_sphere", "magpi/integrate.py")],
     ["value of the integral"])

prop("C13", "Surface integrals depend on the surface, not on its parametrization",
     """The surface integral of a scalar, vector or pytree valued function over any regular parametrized patch equals the
     integral with the true area element, is independent of how the patch is parametrized or subdivided, and equals the
     sum of its per-element integrals. Each element integral hands the integrand the image of that element's parameter
     midpoint, in row-major (u, v) order matching the reported midpoints.""",
     ["inputs", "configurations"],
     "all patches (planar, cylinder, sphere, torus, graphs), parameter grids of unequal size, integrands and rules",
     "There is no test file for surface integrals.",
     ["magpi/surface_integral.py"],
     [("integrate_surface/integrate_surface_elements/center/midpoints", "magpi/surface_integral.py")],
     ["value of the integral", "per-element values", "midpoints"])

prop("C14", "Layer potentials equal the direct surface integral of the charge",
     """Combining the source tensor at a target point with the charge tensor gives 1/(4 pi) times the surface integral of
     the charge's Taylor polynomial (of the requested order about each element center) divided by the distance, which is
     the exact discretized single layer potential for polynomial charges up to that order, for scalar and vector charges
     alike. Its derivative tensor gives the gradient and, for vector charges, the curl of that potential, and closed
     spheres reproduce the analytic potential inside and outside.""",
     ["inputs", "configurations"],
     "all target points off the surface, patches, parameter grids, orders 0..4, rules, scalar and vector charges",
     "There is no test file for surface integrals or potentials.",
     ["magpi/surface_integral.py"],
     [("source_tensor/charge_tensor/single_layer_potential/curl_single_layer_potential", "magpi/surface_integral.py")],
     ["potential, gradient and curl at a target point"])

prop("C15", "Magnetic surface charges match the outward-normal jump conditions",
     """The scalar charge is m.n minus the outward normal derivative of the given potential and the vector charge is m x n
     minus the outward normal derivative of the given vector potential, n being the outward unit normal of the solid,
     for any magnetization, potential and parameters; off the surface, where Taylor expansions of the charge need it, n
     is the normalized negative gradient of the ADF. With the normalized option and a first-order normalized ADF, passing
     phi gives the same charge on the boundary as passing the product ADF times phi without it.""",
     ["inputs", "configurations"],
     "all solids, boundary points, magnetizations, potentials and parameters; normalized or not",
     "There is no test for the charge functions.",
     ["magpi/surface_integral.py"],
     [("scalar_potential_charge/vector_potential_charge", "magpi/surface_integral.py")],
     ["charge value at a boundary point"])

prop("C16", "Derivative operators return the requested partial derivatives",
     """Whatever way a partial, mixed, higher, component or directional derivative is requested (position, name, list of
     either, vector component, direction) the operator returns exactly that derivative of the function or network, and
     the value variant also returns the function value. Extra positional and keyword arguments pass through, unknown
     names are rejected, and asking for the derivative by an argument that was not passed positionally is an error rather
     than zero.""",
     ["inputs", "programs", "configurations"],
     "all smooth functions of several scalar/vector arguments, all request forms and orders, all evaluation points",
     "Tests differentiate sin/cos products at one point, mostly to first order.",
     ["magpi/calc.py"],
     [("derivative/value_and_derivative/apply_to_module", "magpi/calc.py")],
     ["derivative values"])

prop("C17", "Divergence, curl and Laplacian match their definitions for all fields",
     """For every smooth field, divergence is the trace of the Jacobian, curl (2d and 3d) is the antisymmetric part in the
     right-handed convention and the Laplacian is the trace of the Hessian, computed per component for stacked and pytree
     outputs and for network models; hence div curl = 0, curl grad = 0 and div grad = Laplacian. Additional arguments pass
     through unchanged, divergence honours the selected argument, and curl rejects other dimensions.""",
     ["inputs", "programs"],
     "all polynomial and trigonometric fields in 1-5 dimensions, output shapes, argument positions and points",
     "Tests use x**2-like fields whose off-diagonal and mixed derivatives vanish, at one or two points; pytree comparisons only compare shapes.",
     ["magpi/calc.py"],
     [("divergence/value_and_divergence/curl/laplace/hessian_diag", "magpi/calc.py")],
     ["operator values"])

prop("C18", "Hessian-vector products and Jacobian helpers agree with the matrices",
     """Every Hessian-vector product variant (forward-forward, forward-over-reverse with optional damping, reverse-over-
     reverse, and the combined value/gradient/product) returns the true value, gradient and Hessian times vector for any
     function of array or pytree parameters, with or without auxiliary output, user supplied gradients and extra
     arguments. The value-and-Jacobian helpers return the untouched function value (and auxiliary data) next to the exact
     Jacobian for any selection of arguments in forward and reverse mode.""",
     ["inputs", "configurations"],
     "all smooth functions, parameter structures, tangents, damping values, auxiliary outputs and argument selections",
     "Hessian products are only exercised indirectly through one optimizer test; damping, reverse-over-reverse and aux flavours are untested.",
     ["magpi/calc.py"],
     [("hvp/hvp_forward_over_reverse/hvp_reverse_over_reverse/value_grad_hvp", "magpi/calc.py"),
      ("value_and_jacfwd/value_and_jacrev", "magpi/calc.py")],
     ["returned values, gradients, products and Jacobians"])

prop("C19", "Imposed Dirichlet and initial conditions hold exactly for every model",
     """A model with imposed Dirichlet condition equals the prescribed data (zero by default) wherever the ADF vanishes and
     ADF times model plus data elsewhere; a model with imposed initial condition equals the initial data at the initial
     time and exp(-rate (t-t0)) times it plus the complement times the model at any other time. This holds for every
     model, output shape, choice of positional arguments and keyword arguments, used directly or as a decorator.""",
     ["inputs", "programs", "configurations"],
     "all models (including networks), solids, data, argument selections, times and rates",
     "Tests use identity models, one cube and constant data with default arguments.",
     ["magpi/model.py"],
     [("impose_dirichlet_bc/impose_ic", "magpi/model.py")],
     ["value of the constrained model"])

prop("C20", "Imposed Neumann conditions hold exactly for every model",
     """A model with imposed Neumann condition has outward normal derivative equal to the prescribed flux (zero by default)
     at every smooth boundary point of a first-order normalized ADF, keeps the unconstrained model's value there, and this
     holds for every model, output shape, flux, argument selection and additional arguments, used directly or as a
     decorator.""",
     ["inputs", "programs", "configurations"],
     "all models, solids, boundary points, fluxes and argument selections",
     "Two tests check a linear model on one face of the unit cube.",
     ["magpi/model.py"],
     [("impose_neumann_bc", "magpi/model.py")],
     ["normal derivative and value of the constrained model"])

prop("C21", "The trust-region subproblem solver returns a valid Steihaug step",
     """For every gradient, symmetric Hessian (definite, indefinite or singular), radius, tolerance and iteration limit the
     step stays inside the trust region, decreases the quadratic model at least as much as the Cauchy point (or is zero
     because the gradient already meets the tolerance), solves the Newton system to the tolerance when it reports
     convergence in the interior, and otherwise stops on the boundary or at the iteration limit. Reported step length,
     boundary flag, iteration count and (for interior steps) residual describe the returned step,
     and pytree gradients give the same step as the flattened problem.""",
     ["inputs", "configurations"],
     "all gradients, symmetric Hessians, radii, tolerances, iteration limits and pytree structures",
     "Tests solve one-dimensional or identity-Hessian problems; negative curvature and multi-iteration boundary hits never occur.",
     ["magpi/tr.py"],
     [("steihaug", "magpi/tr.py")],
     ["CgSteihaugResult fields"])

prop("C22", "Trust-region iterations never lose ground and report their true state",
     """Along every run of the optimizer the objective never increases, parameters move only on accepted steps (actual
     over predicted reduction at least the acceptance threshold) and then by at most the trust radius, and the reported
     value, gradient, gradient norm and auxiliary output always belong to the returned parameters. The radius shrinks on
     poor steps, grows (capped) only on very good boundary steps and stays between its limits, an exhausted radius freezes
     the iterate, and a run ends only at the gradient tolerance, the iteration limit or the minimal radius - with the same
     result for every flavour of supplying the objective, resuming from a previous step continues it, and
     the solution is implicitly differentiable in the objective's arguments.""",
     ["histories", "inputs", "configurations"],
     "all histories of updates on convex and non-convex objectives from any start, all solver settings (radii, thresholds, damping, approximate Hessians, aux, user gradients)",
     "Tests run a few iterations on a Branin function and quadratics and look at the end point only.",
     ["magpi/tr.py", "magpi/utils.py", "magpi/opt.py"],
     [("TR.init_state/TR.update", "magpi/tr.py"), ("update_tr_radius", "magpi/tr.py"), ("make_funs_with_aux", "magpi/utils.py")],
     ["OptStep params and TrState after every update"],
     [("TrState", "iteration state: value, grad, error, rho, radius, accepted, aux", "magpi/tr.py:TrState")])

prop("C23", "ODE integration follows the scheme on any time grid",
     """The integrator returns the initial value followed by one state per further time, each obtained from the previous
     by one step of the chosen scheme over that interval evaluated at the true times, so the fourth-order scheme
     integrates time-polynomial right-hand sides up to degree three exactly and shows its order on autonomous and
     non-autonomous systems. This holds for increasing, decreasing and non-uniform grids, any state pytree, extra
     arguments, unroll factors and user supplied schemes, and the result is differentiable in state and parameters in
     forward and reverse mode.""",
     ["inputs", "programs", "configurations"],
     "all right-hand sides (time dependent or not), time grids, state structures, schemes and unroll factors",
     "There is no test for the ODE solver.",
     ["magpi/ode.py"],
     [("odeint/rk4/explicit_euler", "magpi/ode.py")],
     ["returned trajectory", "its derivatives"])

prop("C24", "Mini-batching partitions data without loss, mixing or repetition",
     """Batching without replacement uses each sample at most once in a uniformly random arrangement, fills exactly
     floor(N/size) batches, keeps all leaves of a data pytree aligned, and depends on nothing but the key; batching with replacement draws the requested number of
     batches from the data, without repeats inside a batch when so requested. The iterator yields every batch of every
     epoch in order, gives each epoch fresh randomness and, on request, each batch a distinct random key, and data whose
     leaves disagree in length are rejected.""",
     ["inputs", "histories", "configurations"],
     "all data pytrees, sizes, batch sizes, keys, epochs and flags",
     "There is no test for batching or the iterator.",
     ["magpi/opt.py"],
     [("batches_without_replacement/batches_with_replacement/make_iterator/axis_size", "magpi/opt.py")],
     ["batches", "iterator output", "keys handed to the batch function"])

prop("C25", "Rejection sampling draws from the requested density",
     """For any density bounded by the given constant (relative to the proposal) the sampler returns exactly n independent
     samples distributed as the density, never one of zero density, whatever the sample structure, and the same key gives
     the same samples.""",
     ["inputs", "configurations"],
     "all bounded densities, proposals, sample structures, counts and keys",
     "Two tests check that samples of a disk density lie in the disk; neither the distribution nor independence is examined.",
     ["magpi/sampling.py"],
     [("rejection_sampling", "magpi/sampling.py")],
     ["returned samples"])

prop("C26", "B-spline bases satisfy the B-spline laws on every knot grid",
     """On any non-decreasing knot vector (distinct or repeated knots, shared or one per feature) and degree the basis has
     nodes-degree-1 functions that are non-negative, vanish outside their knot span, sum to one on the inner interval and
     equal the Cox-de Boor B-splines (right-open intervals). Their derivatives are finite in forward and reverse mode and
     equal the B-spline derivative.""",
     ["inputs", "configurations"],
     "all knot vectors, degrees 0-5, inputs inside, outside and on knots, batch shapes",
     "Tests evaluate one uniform grid at degree 0-2 on a few points; repeated knots and derivatives are never evaluated.",
     ["magpi/spline.py"],
     [("basis", "magpi/spline.py")],
     ["basis values and derivatives"])

prop("C27", "Spline activations add a trainable spline to the base activation",
     """A spline activation returns base activation plus the coefficient-weighted B-spline of the same feature, is linear
     in its coefficients, equals the base activation for zero coefficients and outside the grid, and treats every feature
     and batch entry independently with parameter shapes as documented, whether or not the grid is parameterized. Power
     grids start and end at the given bounds, are non-decreasing, symmetric about their center and spaced by the given
     power.""",
     ["inputs", "configurations"],
     "all node counts, degrees, bounds, powers, base activations, coefficients, grid modes and input shapes",
     "Tests evaluate one degree-2 grid with unit coefficients and only check positivity.",
     ["magpi/spline.py"],
     [("SplineActivation/make_grid", "magpi/spline.py")],
     ["module output, parameter shapes, grid points"])

prop("C28", "MLP models compute the layer-by-layer network they describe",
     """A model created from layer sizes takes the first size as input, applies an affine map followed by the activation
     (tanh by default) for each hidden layer and a purely affine output layer, drops the output axis exactly when there is
     one output neuron, and treats batches entrywise. Parameter shapes follow the sizes and initialisation depends only on
     the key.""",
     ["inputs", "configurations"],
     "all layer lists, activations, keys, inputs and batch shapes",
     "Only a doctest instantiates one network without checking its output.",
     ["magpi/model.py"],
     [("MLP/mlp", "magpi/model.py")],
     ["model output, parameter tree"])

prop("C29", "Geometry is differentiable in points and parameters",
     """Derivatives of solids (primitives, placements, Boolean combinations) by the point and by every shape and placement
     parameter, of quaternion operations, exponentials, logarithms, powers and rotations by their components, and of the
     maps from the unit cube (and measures of domains) by coordinates and domain parameters are the derivatives of the computed values, to second
     order and equally in forward and reverse mode, wherever the values are smooth. In particular they are finite at
     ordinary special values: real quaternions, zero and right rotation angles, the axis of a body of revolution (there
     first derivatives only).""",
     ["inputs", "configurations"],
     "all solids, placements, R-systems, points and parameters; all quaternions off the branch cut; all maps",
     "Tests differentiate a few distance functions by the point at single points and nothing by a parameter.",
     ["magpi/r_fun.py", "magpi/quaternions.py", "magpi/domain.py"],
     [("primitives, transformations, RFun", "magpi/r_fun.py"), ("Quaternion, quanternion_exp/log", "magpi/quaternions.py"), ("transform_*", "magpi/domain.py")],
     ["first and second derivatives, forward and reverse"])

prop("C30", "Numerical procedures compile, vectorise and are differentiable",
     """Integrals, ODE solutions, surface potentials and charges, differential operators, constrained models, networks and
     splines give the same values eagerly, compiled, vectorised and on repeated calls, and their derivatives by every
     numeric input (nodes, bounds, radii, origins, initial states, time steps, knots, shape and model parameters, points)
     are the derivatives of these values, to second order and equally in forward and reverse mode, wherever the values are
     smooth.""",
     ["inputs", "configurations"],
     "all procedures, inputs and parameters",
     "Tests run most procedures once, in one mode, and differentiate almost none of them.",
     ["magpi/integrate.py", "magpi/surface_integral.py", "magpi/ode.py", "magpi/calc.py", "magpi/model.py", "magpi/spline.py"],
     [("integrate*", "magpi/integrate.py"), ("integrate_surface, source_tensor, charge_tensor, *_charge", "magpi/surface_integral.py"), ("odeint", "magpi/ode.py"),
      ("laplace, divergence, curl, hvp", "magpi/calc.py"), ("impose_*, MLP", "magpi/model.py"), ("basis, make_grid, SplineActivation", "magpi/spline.py")],
     ["values in three evaluation modes; first and second derivatives, forward and reverse"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as h:
        for p in P:
            h.write(json.dumps(p) + "\n")
    print(len(P), "properties")
