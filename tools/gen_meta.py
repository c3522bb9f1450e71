"""Writes harness/meta.json: per property the oracle, the non-triviality rule and the assumptions (shown in MANIFEST and evidence)."""
import json, os
M = {}


def m(i, oracle, rule, *assumptions):
    M[i] = dict(oracle=oracle, rule=rule, assumptions=list(assumptions),
                note="Seeded random search with shrinking, in float64 and float32; no exhaustiveness claim.")


FP = "comparisons allow rounding errors scaled by the conditioning of the expression; deviations below that are not seen"
m("C01", "random expression trees x random R-systems against three-valued (Kleene) Boolean evaluation of the operand signs, plus algebraic laws",
  "distinct generated cases; a geometric case counts only when its points fall on both sides; points where an operand (or intermediate) is within rounding of a tie are judged only for finiteness", FP)
m("C02", "random solids and points against exact membership formulas (inside/on/outside, incl. faces, edges, corners, centers)",
  "distinct generated cases (each evaluates inside, surface and outside points)", FP)
m("C03", "random CSG trees; boundary points found by construction on a leaf face and confirmed smooth; gradient against the analytic inward normal; higher normal derivatives by Taylor mode",
  "distinct generated cases in which at least one smooth boundary point was constructed", FP)
m("C04", "random chains of transformations against inverse point maps in numpy (independent rotation matrices)",
  "distinct generated cases; a solid case counts only when its points fall on both sides", FP)
m("C05", "random expression trees over quaternions and scalars against Hamilton's rules in numpy", "distinct generated cases; an expression counts only with at least one operator", FP)
m("C06", "inverse/power-series/homomorphism laws on random quaternions in a wide magnitude range", "distinct generated cases (all quaternions are nonzero by construction)", FP)
m("C07", "Rodrigues formula and rotation matrices against the quaternion action; metamorphic laws (isometry, composition)", "distinct generated cases; angle zero and zero vectors do not count", FP)
m("C08", "containment, Jacobian determinant and exact moments of a mapped midpoint grid; batch/single differential", "distinct generated cases (domains are non-degenerate by construction)", FP)
m("C09", "distance to the boundary, exact per-face shares and moments of a mapped grid, arc-length model of polylines", "distinct generated cases (domains are non-degenerate by construction)", FP)
m("C10", "exact geometric formulas for measure, membership, normals; equality/hash model", "distinct generated cases", FP)
m("C11", "exact integrals of random polynomials (Fraction/float closed form); error constants of the rules; derivative of the integral", "distinct generated cases with a polynomial that is not identically zero", FP)
m("C12", "closed-form polar/spherical moments of random polynomials; additivity when splitting sectors and shells", "distinct generated cases with a polynomial that is not identically zero", FP)
m("C13", "analytic areas and moments of patches; high-order numpy quadrature of the true area element; metamorphic reparametrisation and subdivision", "distinct generated cases (patches are regular by construction)", FP)
m("C14", "direct numpy quadrature of the Taylor polynomial of the charge over distance; analytic potentials of charged spheres", "distinct generated cases with a nonzero charge", FP, "target points keep a minimal distance from the surface")
m("C15", "hand-written jump formulas with analytic normals and analytic derivatives of the potentials", "distinct generated cases in which magnetization or potential is not zero", FP)
m("C16", "random smooth functions with closed-form mixed derivatives, every request form; numpy jets of networks", "distinct generated cases whose request applies to the generated signature", FP)
m("C17", "random polynomial/trigonometric fields with closed-form Jacobians and Hessians; vector identities", "distinct generated cases", FP)
m("C18", "closed-form value, gradient, Hessian of random functions on pytrees; numpy matrix products", "distinct generated cases", FP)
m("C19", "closed-form combination of independently evaluated ADF, model and data; boundary/initial points by construction", "distinct generated cases", FP)
m("C20", "normal derivative of the constrained model on constructed boundary points of normalized solids against the prescribed flux", "distinct generated cases", FP)
m("C21", "Cauchy point, feasibility, model decrease and exact Newton residual recomputed in numpy for random symmetric systems; pytree/flat differential", "distinct generated cases whose gradient is above the tolerance (pytree group: whose stopping decision is well separated from rounding)", FP)
m("C22", "every update of a random history is re-judged by an invariant over (state before, step, state after) recomputed in numpy; run/resume and flavour differentials", "distinct generated histories/configurations", FP)
m("C23", "reference integrator in numpy (complex-step derivatives), exact time polynomials, observed order on closed-form solutions", "distinct generated cases", FP)
m("C24", "index-tagged pytrees (partition/alignment model), recorded keys of the iterator, chi-square tests over thousands of keys", "distinct generated cases with at least two samples, at least one batch and (iterator) at least one epoch",
  "statistical comparisons alarm only below p = 1e-11")
m("C25", "chi-square and Kolmogorov-Smirnov tests against the exact target distribution, pair independence; fault injection with a coarse uniform generator for zero densities", "distinct generated cases with at least two outcomes of positive density",
  "statistical comparisons alarm only below p = 1e-11")
m("C26", "numpy Cox-de Boor recursion and derivative formula; non-negativity, support and partition of unity stated on the knots", "distinct generated cases with some nonzero basis value (or derivative)", FP)
m("C27", "numpy Cox-de Boor combination with the parameters of the module; linearity/independence metamorphic relations; closed-form power grid", "distinct generated cases in which the spline changes the activation", FP)
m("C28", "numpy forward pass over the parameter tree; batch/single and key differentials", "distinct generated cases whose comparison is well conditioned", FP)
m("C29", "central differences of the values (and of the gradients) in all points and parameters at once; forward/reverse differential", "distinct generated cases with at least one smooth point",
  FP, "a point is judged where two step sizes of the differences agree (the values are smooth there); at exact ties of min and max only values are specified; on the axis of a body of revolution only first derivatives")
m("C30", "eager/compiled/vectorised differential; central differences of the values (and of the gradients) in all numeric inputs at once; forward/reverse differential",
  "distinct generated cases with at least one smooth point", FP, "a point is judged where two step sizes of the differences agree (the values are smooth there)")
json.dump(M, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "meta.json"), "w"), indent=1)
