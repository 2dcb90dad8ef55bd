_BASE = ("Random search over configurations, shapes, data and task schedules with shrinking; covers what was generated, no more. Trusts the reference "
         "arithmetic (long double), OpenBLAS/LAPACKE below the library, and that the cooperative OpenMP stand-in reproduces OpenMP's task ordering rules. ")
NOTE = {
 "C01": ("property-based testing against an extended-precision reference", _BASE),
 "C02": ("property-based testing with componentwise residual oracles", _BASE),
 "C03": ("property-based testing with backward-error and pivot oracles", _BASE),
 "C04": ("property-based testing with backward-error oracles", _BASE),
 "C05": ("property-based testing against dense references of band matrices", _BASE),
 "C06": ("property-based testing with residual and backward-error oracles", _BASE),
 "C07": ("property-based testing with orthogonality and reconstruction oracles", _BASE),
 "C08": ("property-based testing with optimality-condition oracles", _BASE),
 "C09": ("property-based testing against extended-precision singular values and reconstruction oracles", _BASE),
 "C10": ("property-based testing against Sturm counts and residual oracles in extended precision", _BASE + "Eigenvectors inside a cluster of nearly equal eigenvalues of decoupled blocks are a recorded finding and are judged only for orthogonality. "),
 "C11": ("property-based testing against extended-precision norms", _BASE),
 "C12": ("property-based testing against exact element-by-element references", _BASE),
 "C13": ("property-based testing with residual oracles and exact conversion references", _BASE),
 "C14": ("property-based testing: metamorphic (unreferenced data replaced by NaN, huge or random values) with guard pages", _BASE),
 "C15": ("property-based testing: generated illegal arguments against the documented argument order", _BASE),
 "C16": ("property-based testing: generated breakdowns with known position", _BASE),
 "C17": ("property-based testing: metamorphic over configurations and tuning scripts", _BASE),
 "C18": ("property-based testing: schedule exploration under a cooperative OpenMP runtime, differential against creation order, plus page-level access monitor", _BASE),
 "C19": ("model-based property testing: random histories of init, finalize, set, get, environment changes, tuning scripts and routine calls against a model of the context; every call repeated in a fresh library with the parameters in force", _BASE + "Routines whose argument layout depends on the tile size are called with a tuning script only by C17. "),
 "C20": ("property-based testing: random asynchronous programs compared bit for bit with the synchronous calls, plus every asynchronous entry point with illegal arguments, without sequence or request, and in failed sequences", _BASE + "Numerical breakdowns in a chain are judged only by status; concurrent LU factorizations keep their panel threads low enough for the panels not to wait for each other. "),
 "C21": ("property-based testing: storage bijection, views, translation round trips and rejection of malformed descriptors", _BASE),
 "C22": ("property-based testing with fault injection: the k-th allocation of generated calls fails; block accounting before and after, results compared with the fault-free contract", _BASE + "Only allocations made by the library's own code are counted and failed, not those inside OpenBLAS, LAPACKE, Lua or the C library. "),
 "C24": ("property-based testing: each kernel against explicitly formed orthogonal factors and dense products in extended precision on generated tiles with poisoned unreferenced parts; generated elimination lists replayed on a model of the tile grid", _BASE + "Kernels with a fully dense contract (gemm, trsm, ...) are covered through the routines of C01 and C04. "),
 "C23": ("property-based testing: differential between precisions on the same problem, with rounding sensitivity measured by perturbed reruns", _BASE + "Where rounding alone can change pivots or move the result this far (measured by rerunning both variants on perturbed data) the case is not judged. "),
 "C25": ("property-based testing: generated characters and integers against a table model, and round trips", _BASE),
}
