"""property id -> (obligation factory, stated bounds, assumptions)"""
from . import vectors, scalars, types, geom, mats, quats, api, accuracy, special, ranges, whole

COMMON = ["clang-18 -O0 IR of /repo's sources is what is encoded; the native replay build is g++ -O0",
          "binary32/binary64 IEEE-754, round to nearest even, no fused contraction",
          "libm functions other than sqrt/fma/rounding are uninterpreted (equal arguments, equal results)"]
FP = "bit-precise: every input word is a free 32-bit value; no loop bound is reached, all loops run to completion"
REAL = ("exact arithmetic: inputs are arbitrary reals satisfying the stated precondition; rounding error is outside the claim")

CHECKS = {
    "float-vector-operators": (vectors.float_vector_operators, FP, COMMON),
    "integer-vector-operators": (vectors.integer_vector_operators, FP, COMMON),
    "integer-vector-order": (vectors.integer_vector_order, FP, COMMON),
    "rounding-functions": (scalars.rounding_functions, FP, COMMON),
    "min-max-clamp-sign": (scalars.min_max_clamp_sign, FP, COMMON),
    "mod-function": (scalars.mod_function, FP + "; " + REAL, COMMON),
    "mix-step-smoothstep": (scalars.mix_step_smoothstep, FP + "; " + REAL, COMMON),
    "component-reductions": (scalars.component_reductions, FP + "; " + REAL, COMMON),
    "exponential-functions": (scalars.exponential_functions, FP + "; " + REAL, COMMON),
    "trigonometric-functions": (scalars.trigonometric_functions, FP + "; " + REAL, COMMON),
    "color-space": (scalars.color_space, FP + "; " + REAL, COMMON),
    "constants": (scalars.constants, FP, COMMON),
    "boolean-vectors": (types.boolean_vectors, FP, COMMON),
    "relational-functions": (types.relational_functions, FP, COMMON),
    "construction-and-layout": (types.construction_and_layout, FP, COMMON),
    "indexing-safety": (types.indexing_safety, FP, COMMON),
    "components-and-swizzles": (types.components_and_swizzles, FP, COMMON),
    "hash-equality": (types.hash_equality, FP, COMMON),
    "geometric-metric": (geom.geometric_metric, REAL, COMMON),
    "reflect-refract-faceforward": (geom.reflect_refract_faceforward, REAL, COMMON),
    "orthogonal-vectors": (geom.orthogonal_vectors, FP + "; " + REAL, COMMON),
    "octahedral-round-trip": (geom.octahedral_round_trip, REAL, COMMON),
    "matrix-algebra": (mats.matrix_algebra, FP + "; " + REAL, COMMON),
    "matrix-inverse": (mats.matrix_inverse, REAL, COMMON),
    "affine-transforms": (mats.affine_transforms, REAL, COMMON),
    "view-transforms": (mats.view_transforms, REAL, COMMON),
    "projection-transforms": (mats.projection_transforms, REAL, COMMON),
    "quaternion-algebra": (quats.quaternion_algebra, FP + "; " + REAL, COMMON),
    "quaternion-rotation": (quats.quaternion_rotation, REAL, COMMON),
    "quaternion-construction": (quats.quaternion_construction, REAL, COMMON),
    "quaternion-interpolation": (quats.quaternion_interpolation, REAL, COMMON),
    "compound-assignment": (api.compound_assignment, FP, COMMON),
    "api-totality": (api.api_totality, FP, COMMON),
    "pure-functions": (api.pure_functions, FP, COMMON),
    "configuration-equivalence": (api.configuration_equivalence, FP, COMMON),
    "rounding-accuracy": (accuracy.rounding_accuracy, "all real inputs and all rounding errors of relative size up to 2^-24, one per operation; no operation overflows or underflows; "
                          "branch conditions are read in exact arithmetic", COMMON),
    "nan-propagation": (special.nan_propagation, FP, COMMON),
    "concurrent-calls": (api.concurrent_calls, "all inputs; two calls of the same function on the same operands in two threads; since no path from the initial state writes "
                         "shared memory, that state persists and the same holds of any number of calls, threads and schedules", COMMON),
    "exact-values": (whole.exact_values, "whole numbers (and sixteenths, for interpolation) up to 4..512 for the formulas; all finite floats for neutral elements", COMMON),
    "ordinary-ranges": (ranges.ordinary_ranges, "all floats within the stated bounds; every float operation gives any number within half a unit of the exact result that keeps its order to 0, 1, 2, 4 and the operands; "
                        "library functions: any value in their mathematical range", COMMON),
}
