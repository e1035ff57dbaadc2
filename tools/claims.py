claim("C01", "All optimizers and configurations, all iteration counts; step sizes of inlined searches are decided by the configurations with an opaque searcher.")
claim("C02", "All optimizers, both logging settings, all run lengths.")
claim("C03", "All optimizers, line searches and configurations, every vector use.")
claim("C04", "All optimizers, all limit values and run lengths; two known findings per gradient-based optimizer family.")
claim("C05", "All line searcher classes, first and repeated searches, all cost sequences.")
claim("C06", "All five rules, arbitrary preconditioner, all iterations by induction; division never raises for NumPy scalars (assumed).")
claim("C09", "NelderMead for arbitrary manifold, objective and simplex; the centroid is opaque except for the problem it is the solution of.")
claim("C10", "ParticleSwarm for arbitrary manifold, objective and population, all particles and iterations by induction.")
claim("C19", "All manifolds (FixedRankEmbedded on its triples; Product is C28), symbolic sizes, k = 1 and k > 1, both metrics of the SPD family.")
claim("C20", "All manifolds (FixedRankEmbedded on its triples; Product is C28), symbolic sizes.")
claim("C21", "All manifolds (FixedRankEmbedded on its triples; Product is C28), symbolic sizes.")
claim("C22", "All manifolds implementing it except FixedRankEmbedded and Product; the derivative of the code's own gradient conversion is taken formally.")
claim("C23", "All manifolds (FixedRankEmbedded on its triples; Product is C28), symbolic sizes; the exponential of SpecialHermitianPositiveDefinite is only partly representable.")
claim("C24", "All manifolds with a transport (FixedRankEmbedded on its triples; Product is C28), symbolic sizes.")
claim("C25", "All manifolds (FixedRankEmbedded on its triples; Product is C28); the determinant fix of the rotation group and two complex random tangents are only partly representable.")
claim("C27", "All manifolds with a distance; norm of the logarithm for Grassmann and hyperbolic spaces is only partly representable.")
claim("C28", "Products of one to three (thorough: five) arbitrary factor manifolds; the number of factors is enumerated, the factors are opaque.")
claim("C29", "All manifolds (FixedRankEmbedded on its triples; Product is C28), symbolic sizes; four known findings (complex positive definite dimensions).")
claim("C07", "The iteration of TrustRegions with an arbitrary inner solver, both use_rand settings, given and default radii; division never raises for NumPy scalars (assumed).")
claim("C08", "The truncated conjugate gradient solver for arbitrary Hessian operator and preconditioner, all inner iterations by induction.")
claim("C30", "Every stacked manifold against its single form, Oblique against Sphere and ComplexCircle(n) against ComplexCircle(1), symbolic sizes and stack depth; random tangent vectors only that every copy is drawn; multilogm and multiexpm of the general kind up to the library's logm and expm.",
      "Normal forms in index notation of the value graphs of the current source; a dependency rule over the stacking index decides that slices are independent, and the form restricted to a slice is compared with the single manifold's")
NA["C40"] = "Convergence is a statement about limits of floating-point iterations; no static argument over the source bounds it."
NA["C41"] = "Round-trip accuracy within the injectivity radius quantifies over runtime values (series, branch cuts, rounding); no sound static argument in reach decides it."
NA["C42"] = "Rounding-error bounds depend on runtime values and on the linear-algebra library; not visible in the source."
claim("C11", "Every operation of every manifold, products, fixed-rank points, tools, problem methods, line searchers and optimizers; which library calls return views and which write is modelled by a table.",
      "Effect and alias analysis: abstract interpretation of the current source with provenance sets; obligations are the write sites and the parameters that reach them")
claim("C12", "All optimizers and configurations; the state left by a run is everything the analysed code writes to instances, classes, defaults and module variables.",
      "Information flow over value graphs: everything a run wrote is replaced by an unknown and the flow of the unknowns into a second run's outputs is computed")
FLOW = "Information flow over value graphs built by abstract interpretation of the current source"
claim("C13", "All optimizers and configurations; printing helpers are assumed to have no effect on the caller except through return values.", FLOW)
claim("C14", "All modules; a name is resolved through imports, aliases and assignments, not through containers of modules.", FLOW + "; name resolution over the syntax trees of all modules")
claim("C44", "All manifolds, products of one and two opaque factors, problems on four point layouts, matrix helpers; caches guarded by a comparison with the current argument are left undetermined.", FLOW)
claim("C45", "All optimizers, line searchers, options and run lengths, two runs in a row; user functions and manifold operations are opaque and assumed not to raise; kinds of values that cannot be inferred are not looked at.",
      "Abstract interpretation of two runs in a row with definite-assignment, None, signature and format-specification obligations on every event and value, first iterations by substitution of entry values")
claim("C46", "All optimizers and configurations at verbosity 1, 2 and 3; values are identified by the labels and headings that are printed before them (cost, f, gradient norm, |grad|, iteration, k, cost evaluations, rho, acc/REJ, TR+/TR-, names of the Nelder-Mead steps), other output is not judged.",
      "Value-graph analysis of the printed text by abstract interpretation of the current source: labelled values against the current point, marks and names against the path conditions of the step")
claim("C15", "Problem on eleven point layouts (quick: three), all nine consistent combinations of given derivatives, and Function with an opaque backend; user functions, generated operators and conversions are opaque.")
claim("C16", "Problem on eleven point layouts (quick: seven), layouts and points as tuples and lists, all consistent combinations of given derivatives; products of up to four (quick: three) factors; layouts are enumerated, values opaque.")
claim("C17", "All constructors on symbolic sizes (all sign and order patterns), Problem with every combination of given derivatives, decorators with twelve kinds of signatures, initial simplexes and populations; the kinds of non-size arguments are enumerated.",
      "Path-condition analysis: abstract interpretation of constructors on symbolic sizes and abstract argument kinds, guard formulas compared with the documented domain over the cells of the order domain")
claim("C32", "Diagnostics on a symbolic problem, manifold, point and direction (and with omitted ones), all step sizes of the grid at once, exponential map provided or not; the fit is compared with its window, its arithmetic (polyfit) is trusted.",
      "Value-graph analysis: the diagnostics are interpreted abstractly, loops that fill arrays are read elementwise, normal forms in the step size compared with the Taylor model and the defect definitions")
claim("C18", "All five backends, up to three arguments (four in the thorough tier), every pattern of first- and second-order dependence with at least one dependence, every sign pattern of strides up to three dimensions; the meaning of the library primitives (grad, jvp, backward, GradientTape, ForwardAccumulator) is part of the trusted base.",
      "Abstract interpretation of the generated operators over a domain of derivative symbols with transfer functions for the primitives of the differentiation libraries")
claim("C31", "All manifold configurations, FixedRankEmbedded, products of up to two (three) factors each lacking each operation, the base classes; which operations a manifold provides is a table taken from the documentation of the pinned version.",
      "Path-condition and exception analysis: abstract interpretation of every operation, method resolution over the class hierarchy")
claim("C26", "dist, log, exp and retraction of all manifolds except FixedRankEmbedded and Product; the bounds of the documented formulas of LAPACK results (eigenvalues, singular values, Cholesky factors) are assumed, a site that no bound reaches and that stays finite at the extreme arguments is left undetermined.",
      "Interval analysis with rounding over value graphs built by abstract interpretation; open sites are reported only when the value graph is undefined at a coincident, antipodal or zero argument")
claim("C43", "All manifolds with a pair_mean except FixedRankEmbedded and Product, symbolic sizes, k = 1 and k > 1.")
claim("C47", "All helpers of pymanopt.tools.multi on symbolic sizes, real and complex, one matrix and a stack, square and tall (wide matrices are not factorised symbolically).")
claim("C48", "Every call of the three helpers and of the functions they return, first and repeated at other arguments, for an opaque cost and an opaque linear projector; the derivative operators of autograd are taken as specified.")
