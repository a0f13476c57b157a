"""Technique and note of each check in MANIFEST.json (read by gen_manifest.py)."""
NA = {}
PBT = "property-based testing (Hypothesis generators, shrinking): "
TECH = {
 "W01": PBT + "metamorphic oracle (duality <field, paint m> = <m, readout field>, linearity, particle by particle), guarded strided buffers",
 "W02": PBT + "reference model (closed-form kernels and cascade wavelets in NumPy), differential plain/optimised windows, dense scans",
 "W03": PBT + "invariants (total mass, constants, ramps)",
 "W04": PBT + "metamorphic relations (period shift, cell roll, affine composition, reflection, tile = slice of whole), guard cells",
 "W05": PBT + "reference model (closed-form derivatives), integral relation with the plain window, differential plain/optimised",
 "W06": PBT + "differential oracle (Gauss-Legendre transform of the painted kernel)",
 "D01": PBT + "reference model of the routing (who gets which copy, in which order) on 1-6 MPI ranks",
 "D02": PBT + "reference model of the reductions over each particle's copies on 1-6 MPI ranks",
 "D03": PBT + "reference model (exact interval arithmetic) plus metamorphic relations on 1-6 MPI ranks",
 "D04": PBT + "invariant (exactly one primary per point and per particle) on 1-6 MPI ranks",
 "D05": PBT + "reference counts and invariants of the assignment on 1-6 MPI ranks",
 "N01": PBT + "metamorphic oracle (part = slice of whole), guarded buffers",
 "N02": PBT + "invariant (Hermitian symmetry, half = full storage)",
 "N03": PBT + "metamorphic oracle (two resolutions, shared modes bit for bit)",
 "N04": PBT + "invariants and statistical tests at fixed 1e-9 thresholds",
 "N05": PBT + "reference model (independent implementation of the N-GenIC recipe, RANLUX included)",
 "I01": PBT + "invariants (bijection, nesting, shells) and a reference index",
 "P01": PBT + "reference model of the coordinates of the whole mesh on 1-6 MPI ranks (8 thorough)",
 "P02": PBT + "differential oracle: the same call on one rank, windows' formula, on 1-6 MPI ranks (8 thorough)",
 "P03": PBT + "stateful / model-based histories against NumPy's FFT of the whole mesh on 1-6 MPI ranks (8 thorough)",
 "P04": PBT + "stateful / model-based histories against the full Hermitian array on 1-6 MPI ranks (8 thorough)",
 "P05": PBT + "round trip and reference order on 1-6 MPI ranks (8 thorough)",
 "P06": PBT + "reference model of the whole mesh on 1-6 MPI ranks (8 thorough)",
 "P07": PBT + "reference model, point by point, on 1-6 MPI ranks (8 thorough)",
 "P08": PBT + "reference model, mode by mode, on 1-6 MPI ranks (8 thorough)",
 "P09": PBT + "reference model and one-rank differential on 1-6 MPI ranks (8 thorough)",
 "P10": PBT + "duality, dense Jacobians and finite differences on 1-6 MPI ranks (8 thorough)",
 "P11": PBT + "differential oracle: the undivided generator on 1-6 MPI ranks (8 thorough)",
 "P12": PBT + "stateful / model-based histories of meshes and fields on 1-6 MPI ranks (8 thorough)",
 "P13": PBT + "stateful / model-based histories of meshes let go of at different times, on 1-4 MPI ranks (8 thorough)",
 "S01": PBT + "model-based: whole simulations against a NumPy model of the undivided mesh on 1-6 MPI ranks (8 thorough)",
 "L01": PBT + "stateful / model-based histories against a whole-mesh model on 1-6 MPI ranks (8 thorough)",
 "L02": PBT + "reference model (closed-form kernels, own quadrature), duality, differential compiled/plain",
 "A01": PBT + "random programmes against a dual-number model of the whole mesh, transposition, on 1-6 MPI ranks (8 thorough)",
 "C01": PBT + "stateful / model-based histories of transfers on 1-4 MPI ranks (8 thorough)",
 "L03": PBT + "reference model of the whole mesh on 1-6 MPI ranks (8 thorough)",
}
NOTE = {k: "Held on the generated cases only; bounds and assumptions in DESIGN.md and in the evidence file." for k in TECH}
