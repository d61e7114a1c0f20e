"""The properties: one entry per check, in the order of their ids.  properties.jsonl and
MANIFEST.json are generated from here by tools/gen.py."""

# slug, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)]
FPQ = "every 32-bit pattern of every operand component (NaN, infinities, signed zeros, subnormals included)"
REALQ = "all real-valued operands satisfying the stated precondition"
SAMPLE = "The tests compare a handful of hand-picked operands with GLM or literals; "

P = [
 ("float-vector-operators", "Float vector operators act component by component",
  "Every arithmetic operator of 2-, 3- and 4-component float vectors (unary, vector-vector, vector-scalar, scalar-vector, compound, increment and decrement) gives in each component exactly the IEEE result of the scalar operator on the corresponding components. Compound forms with the vector itself or one of its own components as operand use the operand's value from before the operation. Equality holds exactly when all components compare equal, and inequality is its negation.",
  ["inputs"], FPQ + ", for every operator and dimension", SAMPLE + "a wrong component, a swapped operand of - or /, or an operand read after it was overwritten shows only for values the samples do not have.",
  ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "include/zcm/detail/impl_op_macro.hpp"], [("operator macros", "include/zcm/detail/impl_op_macro.hpp"), ("increment, comparison, negation", "src/vec2.cpp, src/vec3.cpp, src/vec4.cpp")]),
 ("integer-vector-operators", "Integer vector operators act component by component",
  "Every arithmetic, bitwise and shift operator of 2-, 3- and 4-component integer vectors (vector-vector, both scalar forms, compound, increment, decrement, unary) equals the two's-complement scalar operation in each component for every operand pair on which the language defines that operation. Conversion to a boolean vector is true exactly for non-zero components. Equality compares every component.",
  ["inputs"], "all 32-bit operands; divisors 0, INT_MIN/-1 and shift counts outside 0..31 are excluded, signed overflow wraps", SAMPLE + "no test runs most operators with negative, extreme or per-component different operands.",
  ["src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "include/zcm/detail/impl_op_macro.hpp"], [("operator macros", "include/zcm/detail/impl_op_macro.hpp"), ("operator definitions", "src/ivec2.cpp, src/ivec3.cpp, src/ivec4.cpp")]),
 ("integer-vector-order", "Integer vectors are totally ordered, lexicographically",
  "The relational operators of integer vectors form one strict total order: exactly one of <, > and == holds for any two vectors, < is transitive, <= and >= are the negations of > and <. The order is lexicographic from the first component. It can therefore serve as the order of a sorted container.",
  ["inputs"], "all pairs and triples of integer vectors of each size, every 32-bit component value", SAMPLE + "totality and transitivity quantify over pairs and triples; ties in leading components with extreme values are not sampled.",
  ["src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp"], [("relational operators", "src/ivec2.cpp, src/ivec3.cpp, src/ivec4.cpp")]),
 ("rounding-functions", "Rounding functions return the specified integer for every float",
  "floor, ceil, trunc, round (halves away from zero) and roundEven (halves to even) return, for every float, the integer their definition selects, with signs of zero, infinities and NaN as in IEEE arithmetic; fract is the argument minus its floor, fma is fused and abs clears the sign. The vector forms apply the scalar function to each component.",
  ["inputs"], FPQ, SAMPLE + "halfway cases, large magnitudes and negative zero decide which rounding is implemented.",
  ["src/common.cpp"], [("scalar rounding functions and their vector lifts", "src/common.cpp")]),
 ("min-max-clamp-sign", "min, max, clamp and sign follow GLSL, including special values",
  "max returns its second operand only if the first is less, min returns its second operand only if that is less than the first, and clamp is min(max(x, lo), hi); so a clamped non-NaN value lies in [lo, hi] and values inside are unchanged. sign and signNotZero classify the argument by its sign. Float and integer, scalar and vector forms agree component by component.",
  ["inputs"], FPQ + "; all 32-bit integers; sign functions: no NaN", SAMPLE + "NaN order, signed zeros, extremes and inverted bounds are not among them.",
  ["src/common.cpp"], [("min, max, clamp, sign, signNotZero", "src/common.cpp")]),
 ("mod-function", "mod is the floored modulus",
  "mod(x, y) equals x - y*floor(x/y) for scalars, vectors and vectors with a scalar modulus. Hence x differs from mod(x, y) by an integer multiple of y, and the result has the sign of y and is smaller than it in magnitude.",
  ["inputs"], FPQ + " for the formula; the law over all reals with y non-zero", SAMPLE + "operands of differing signs separate floored from truncated modulus.",
  ["src/common.cpp"], [("mod", "src/common.cpp")]),
 ("mix-step-smoothstep", "mix, step and smoothstep meet their ends and formulas",
  "mix interpolates linearly and returns its first operand at 0; with a boolean selector it picks operands component by component, bit for bit. step is 0 below the edge and 1 from it on. smoothstep is the cubic Hermite polynomial of the clamped position: 0 at and below the first edge, 1 at and above the second, always within [0, 1].",
  ["inputs"], FPQ + " for selection and step; " + REALQ + " for the formulas (edges differ; for the end values the first is below the second)", SAMPLE + "selectors that differ per component and positions outside the edges are rarely combined.",
  ["src/common.cpp"], [("mix, step, smoothstep", "src/common.cpp")]),
 ("component-reductions", "Component reductions cover every component",
  "The component sum and product of a vector combine each component exactly once: a NaN in any component makes them NaN, so does a zero next to an infinity for the product, whose sign is otherwise the product of the signs. The component minimum and maximum are bounds of all components and equal to one of them. This holds for float and integer vectors of every size.",
  ["inputs"], "all real component values for sum and product, all floats for their NaNs and signs, all non-NaN floats for extremes, all 32-bit integers (wrapping) for integer vectors", SAMPLE + "an ignored component shows only if it is the extreme or changes the sum.",
  ["src/component_wise.cpp"], [("compAdd, compMul, compMin, compMax", "src/component_wise.cpp")]),
 ("exponential-functions", "Exponential functions apply the right function to each component",
  "exp, exp2, log, log2, sqrt, cbrt, pow and inversesqrt compute, for floats, vectors and quaternions, the mathematical function of that name in every component with its operands in the documented order. The square of sqrt(x) is x, and inversesqrt(x) is positive with inversesqrt(x)^2 * x = 1.",
  ["inputs"], FPQ + "; the two laws over all positive reals", SAMPLE + "a wrong base or function agrees at 0 and 1, where tests like to look.",
  ["src/exponential.cpp"], [("scalar functions and lifts", "src/exponential.cpp")]),
 ("trigonometric-functions", "Trigonometric functions apply the right function to each component",
  "Each circular, hyperbolic and inverse function computes the function of its name in every component; the two-argument arc tangent takes (y, x) in that order. radians and degrees multiply by pi/180 and 180/pi.",
  ["inputs"], FPQ + "; unit conversion over all reals within 2^-22 relative", SAMPLE + "argument order and per-component dispatch need operands that differ in every component.",
  ["src/angle_and_trigonometry.cpp"], [("scalar functions and lifts", "src/angle_and_trigonometry.cpp")]),
 ("color-space", "sRGB conversions follow the transfer curves and keep alpha",
  "Conversion from linear to sRGB with a gamma applies the linear segment below the threshold and the power segment with exponent 1/gamma above it, after clamping to [0, 1]; conversion back applies the inverse segments with exponent gamma (2.4 by default). The default encoder applies its documented square-root polynomial. Each channel depends on itself only, and alpha passes through unchanged.",
  ["inputs"], "all finite channel values and positive gammas; the polynomial over all reals in [0, 1]", SAMPLE + "the threshold, gammas other than the default and channels that differ decide it.",
  ["src/color_space.cpp"], [("convertLinearToSRGB, convertSRGBToLinear", "src/color_space.cpp")]),
 ("constants", "Mathematical constants are correctly rounded",
  "Every mathematical constant the library offers is the float nearest to the exact value of the constant its name denotes.",
  ["inputs"], "every constant; no input", "The tests compare constants with GLM's through a tolerance, or not at all, so a wrong trailing digit passes.",
  ["src/constants.cpp"], [("constant functions", "src/constants.cpp")]),
 ("boolean-vectors", "Boolean vectors implement component-wise logic",
  "The logical operators of boolean vectors (with vectors and scalars, plain and compound) combine corresponding components only; equality compares all components. all and any are the conjunction and disjunction of every component.",
  ["inputs", "histories"], "every truth value of every component", SAMPLE + "with up to eight independent bits the tests take a few of the combinations.",
  ["src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/common.cpp"], [("operators", "src/bvec2.cpp, src/bvec3.cpp, src/bvec4.cpp"), ("all, any", "src/common.cpp")]),
 ("relational-functions", "Relational functions compare component by component",
  "lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal and notEqual give in each component the IEEE or boolean comparison of the operands' components. isnan and isinf classify each component by its bit pattern.",
  ["inputs"], FPQ, SAMPLE + "NaN and equal components are what distinguishes < from !(>=).",
  ["src/common.cpp"], [("relational functions, isnan, isinf", "src/common.cpp")]),
 ("construction-and-layout", "Constructors put every component in its documented place",
  "Constructing a vector from scalars and shorter vectors, in every supported composition, concatenates them in argument order; one scalar fills all components; default construction gives zeros, or the identity for matrices and quaternions. Matrices are stored column by column: construction from a scalar fills the diagonal, and conversion between sizes keeps the shared block and pads with the identity. Reading from an array and the pointer view of a value follow the same order, and the object is exactly its components.",
  ["inputs"], FPQ + ", for every constructor", SAMPLE + "a misplaced component passes when test values repeat or are symmetric.",
  ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/type_ptr.cpp"],
  [("constructors and make_ functions", "src/vec*.cpp, src/ivec*.cpp, src/bvec*.cpp, src/mat*.cpp"), ("value_ptr", "src/type_ptr.cpp")]),
 ("indexing-safety", "Indexing reads and writes exactly the indexed element",
  "For every in-range index, indexing a vector, matrix or quaternion reads that element, and writing through it changes that element and nothing else. In checked builds every other index ends in a failed assertion instead of touching memory outside the value.",
  ["inputs", "configurations"], "every 32-bit index, every content, checked and release builds", "The tests index with in-range literals; an off-by-one bound needs the one index just outside it.",
  ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/quat.cpp"], [("operator[] and its assertion", "src/*.cpp")]),
 ("components-and-swizzles", "Named components and swizzles select the named components",
  "Reading a component by any of its names (xyzw, rgba, stpq) gives that component, and assigning or compound-assigning through a name changes that component only. Every two-, three- and four-letter swizzle exists and yields the vector of the named components in the written order.",
  ["inputs"], "every component name and every swizzle of every vector type, " + FPQ, "There are hundreds of swizzles instantiated one by one; the tests read a small part of them.",
  ["include/zcm/detail/vec2_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec4_access.hpp", "src/vec2_access.cpp", "src/vec3_access.cpp", "src/vec4_access.cpp"],
  [("scalar and shuffle accessors", "include/zcm/detail/vec2_access.hpp, vec3_access.hpp, vec4_access.hpp"), ("accessor unions", "include/zcm/vec2.hpp, vec3.hpp, vec4.hpp, ivec2.hpp, ivec3.hpp, ivec4.hpp")]),
 ("hash-equality", "Equal values hash equally and every component counts",
  "Two values of the same type that compare equal have equal hashes (signed zeros included). Changing any single component to a different value changes the hash for at least some values, so that no component is ignored.",
  ["inputs"], "all pairs of equal values of every hashable type; per component, the solver exhibits a pair of differing hashes", SAMPLE + "+0 and -0, or an ignored column, are outside the samples.",
  ["src/hash.cpp", "src/detail/utils.hpp"], [("hash overloads", "src/hash.cpp"), ("hash combination", "src/detail/utils.hpp")]),
 ("geometric-metric", "Length, distance, dot, cross and normalize obey Euclidean geometry",
  "dot is the sum of component products; length is its non-negative root on equal operands; distance is the length of the difference, symmetric and zero from a point to itself; the squared variants are the squares. normalize returns the unit vector in the same direction for every non-zero vector. cross is orthogonal to both operands, anti-commutative and of the length Lagrange's identity gives.",
  ["inputs"], REALQ + " (normalize: non-zero), every dimension and quaternions", SAMPLE + "the laws hold or fail for all vectors, and symmetric samples hide sign and component mix-ups.",
  ["src/geometric.cpp"], [("dot, length, distance, cross, normalize", "src/geometric.cpp")]),
 ("reflect-refract-faceforward", "reflect, refract and faceforward obey their optical laws",
  "reflect computes I - 2 dot(N, I) N, so for a unit normal it keeps the length and reverses the normal component. refract follows the GLSL formula: for unit inputs it returns a unit vector obeying Snell's law, and zero exactly on total internal reflection. faceforward returns the vector or its negation by the sign of the reference dot product.",
  ["inputs"], REALQ + " in dimensions 1 to 4", SAMPLE + "total internal reflection, grazing cases and signs are decided by inequalities over all inputs.",
  ["src/geometric.cpp"], [("reflect, refract, faceforward", "src/geometric.cpp")]),
 ("orthogonal-vectors", "Orthogonal vectors are orthogonal and never zero",
  "The vector returned as orthogonal to a given one is perpendicular to it and not zero, for every non-zero input (for the branchless variant: every unit input, where its length is at least a quarter). For finite non-zero floats the branching variant is non-zero in float arithmetic as well.",
  ["inputs"], REALQ + "; float clause: every finite non-zero bit pattern", "The tests try a few vectors; each branch has its own region of inputs, and its boundary is a tie.",
  ["src/geometric.cpp"], [("orthogonal, orthogonal_branchless", "src/geometric.cpp")]),
 ("octahedral-round-trip", "Octahedral encoding round-trips every direction",
  "Encoding maps every direction into the square [-1, 1]^2, the upper hemisphere onto the inner diamond and the lower one folded over its diagonals. Decoding yields a unit vector for every point of the square, and decoding an encoded non-zero vector returns its direction.",
  ["inputs"], "all non-zero real vectors and all points of the square", "Sampled directions miss single octants and the axes, where signs of zero components decide.",
  ["src/geometric.cpp"], [("encode_octahedral, decode_octahedral", "src/geometric.cpp")]),
 ("matrix-algebra", "Matrix operators implement column-major matrix algebra",
  "Matrix sums, differences, scalar operations, component products, transposes and equality act entry by entry; products of matrices and vectors on either side are the linear-algebra products with vectors as columns on the right and rows on the left. (AB)v = A(Bv), the identity is neutral, the transpose of a product reverses it, and compound assignment, also with the matrix itself, equals the plain operator.",
  ["inputs"], FPQ + " for entrywise operations; all real entries for products", SAMPLE + "tests use special matrices; one swapped index among dozens survives them.",
  ["src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/matrix.cpp"], [("operators", "src/mat2.cpp, src/mat3.cpp, src/mat4.cpp"), ("transpose, matrixCompMult", "src/matrix.cpp")]),
 ("matrix-inverse", "Inverse, determinant and adjugate satisfy Cramer's rule",
  "The determinant is Leibniz's; the adjugate is the transposed cofactor matrix; for every matrix with non-zero determinant the inverse multiplied on either side gives the identity, and the transposed variants are the transposes. Dividing by a matrix multiplies by its inverse, and dividing a matrix or vector by the other solves the corresponding linear system.",
  ["inputs"], "all real matrices of size 2, 3, 4 (non-zero determinant where an inverse is taken)", SAMPLE + "one wrong sign or index in a cofactor is invisible for sparse or symmetric samples.",
  ["src/matrix.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp"], [("determinant, adjugate, inverse and transposed variants", "src/matrix.cpp"), ("division", "src/mat*.cpp")]),
 ("affine-transforms", "translate, rotate, scale compose on the right; decomposition inverts them",
  "translate, scale and rotate return the given matrix multiplied on the right by the translation, scaling, or counter-clockwise rotation about the normalised axis; a rotation is an isometry fixing its axis. Decomposing translation * rotation * scale with positive scales, or all negated, returns exactly these parts (the orientation up to sign).",
  ["inputs"], "all real matrices, vectors, angles, non-zero axes; decomposition over all unit quaternions, positive scales and translations", SAMPLE + "tests use axis-aligned rotations and identity matrices.",
  ["src/matrix_transform.cpp"], [("translate, rotate, scale, decompose_orthogonal", "src/matrix_transform.cpp")]),
 ("view-transforms", "Look-at matrices are the rigid motion to eye space",
  "For every eye, centre and up not parallel to the view direction, the look-at matrix maps the eye to the origin and the centre onto the z axis at its distance, on the positive side for left-handed and the negative for right-handed; up maps into the upper half of the yz plane. Its rows are orthonormal and its last row is (0, 0, 0, 1).",
  ["inputs"], "all real eye, centre, up with non-zero cross product", SAMPLE + "handedness and sign mistakes cancel for axis-aligned samples.",
  ["src/matrix_transform.cpp"], [("lookAtLH, lookAtRH", "src/matrix_transform.cpp")]),
 ("projection-transforms", "Projections map the view volume to the clip volume",
  "Each orthographic matrix maps the eight corners of its box to the corners of the clip volume of its handedness and depth range. Each perspective matrix maps the near and far planes to the ends of its depth range with w equal to the distance, scales y by the cotangent of half the field of view and x by that over the aspect ratio, and is zero elsewhere.",
  ["inputs"], "all real box bounds with distinct opposite sides; all fields of view with defined cotangent, non-zero aspects, distinct planes", SAMPLE + "symmetric volumes hide offset signs, and four variants differ only in a sign or range.",
  ["src/matrix_transform.cpp"], [("ortho*, perspective*", "src/matrix_transform.cpp")]),
 ("quaternion-algebra", "Quaternions form the Hamilton algebra",
  "Sums, differences, scalar operations, negation, conjugate and equality act on all four components; the product is Hamilton's, associative, norm-multiplicative, with the default quaternion neutral; the conjugate reverses products, and a non-zero quaternion times its inverse is one on both sides. Compound assignment, also with itself, equals the plain operator.",
  ["inputs"], FPQ + " for componentwise operations; all real quaternions for products", SAMPLE + "one wrong sign among sixteen products survives special samples.",
  ["src/quat.cpp", "src/quaternion.cpp"], [("operators", "src/quat.cpp"), ("conjugate, inverse", "src/quaternion.cpp")]),
 ("quaternion-rotation", "Unit quaternions rotate consistently with matrices and angle-axis",
  "Multiplying a vector by a unit quaternion is q v q*, keeps length, composes as the product, is undone by multiplying from the other side, and agrees with the matrix conversions; converting the matrix back gives the quaternion up to sign. Angle-axis construction rotates counter-clockwise about the axis, and angle and axis recover it.",
  ["inputs"], "all real unit quaternions, vectors, angles and axes", SAMPLE + "each branch of the matrix conversion owns a region of rotations that samples near the identity never reach.",
  ["src/quaternion.cpp", "src/quat.cpp"], [("mat3_cast, mat4_cast, quat_cast, angleAxis, axis, angle, rotate", "src/quaternion.cpp"), ("quaternion-vector products", "src/quat.cpp")]),
 ("quaternion-construction", "Quaternions built from angles, vectors or frames are the right rotation",
  "Euler construction is Rz(roll) Ry(yaw) Rx(pitch), and pitch, yaw and roll read the angles back through the standard arc functions with their singular cases. The rotation between two vectors is a unit quaternion about their cross product taking one direction to the other, also when they are opposite. Look-at quaternions are the rotation carrying the axes onto the given frame.",
  ["inputs"], "all real angles, non-zero vectors, frames with up not parallel to the direction", SAMPLE + "opposite vectors, the poles and the lower branches of the conversion are measure-zero or rare for samples.",
  ["src/quat.cpp", "src/quaternion.cpp"], [("constructors", "src/quat.cpp"), ("eulerAngles, pitch, yaw, roll, quatLookAt*", "src/quaternion.cpp")]),
 ("quaternion-interpolation", "Quaternion interpolation follows the right path and meets its ends",
  "Linear interpolation is x(1-t) + y t and stops at an assertion for t outside [0, 1] in checked builds; the normalised form is its unit multiple. Spherical interpolation follows the great circle on the shorter arc, is linear when the operands nearly coincide, and meets its ends at t = 0 and t = 1.",
  ["inputs"], "all real quaternions and t in [0, 1]; assertion clause: every float t outside it, NaN included", SAMPLE + "the shorter-arc flip and the near-parallel threshold need particular pairs.",
  ["src/quaternion.cpp"], [("lerp, nlerp, slerp", "src/quaternion.cpp")]),
 ("compound-assignment", "x op= y leaves exactly the value of x op y, aliased or not",
  "For every vector, matrix and quaternion type and every operator, compound assignment stores bit for bit the value the plain operator returns. This includes operands that are the assigned object itself or a reference to one of its components.",
  ["inputs"], "all 32-bit contents; for integer operators the pairs the language defines; operand aliasing: distinct object, the object itself, each of its components", "Tests check compound operators with distinct operands only; aliasing changes an operand in the middle of the operation.",
  ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/quat.cpp"], [("compound operators", "src/*.cpp")]),
 ("api-totality", "Every declared function exists and ends normally",
  "Every public function that is declared is also defined. Called with any argument values meeting its documented precondition it returns: no assertion fails, no memory outside its operands is read or written, no loop runs on, and the result does not depend on uninitialised memory.",
  ["inputs"], "every public free function and " + FPQ + "; excluded: integer division by zero, INT_MIN/-1, shift counts outside 0..31, interpolation parameters outside [0, 1], the aspect the projection asserts against", "The tests call about half of the interface; a missing definition or an out-of-range read needs the one function and input nobody calls.",
  ["include/zcm", "src"], [("declarations", "include/zcm/*.hpp"), ("definitions", "src/*.cpp")]),
 ("pure-functions", "Functions are pure: same arguments, same result, in any call history",
  "Calling any public function twice with the same arguments gives the same bits, whatever arguments it was called with before or in between, and the first call in a process is no exception; nothing carries over from one call to another.",
  ["inputs", "histories"], "every public free function, all arguments of the repeated call and of a call in between (a history of three calls)", "Each test calls a function once on fresh values; a stale cache or scratch buffer needs a particular sequence of calls.",
  ["src", "include/zcm"], [("absence of mutable state", "src/*.cpp")]),
 ("configuration-equivalence", "Checked, release and swizzle-less builds compute the same results",
  "The library compiles as a checked build, as a release build, and with swizzles disabled in either. For arguments meeting the documented preconditions every public function returns the same bits in all of these builds, and component access and object layout agree.",
  ["inputs", "configurations"], "every public free function, " + FPQ + ", four configurations", "The test suite runs in one configuration; code under #ifdef and inside assertions is compiled differently or not at all in the others.",
  ["include/zcm", "src", "CMakeLists.txt"], [("ZCM_RELEASE_BUILD and ZCM_DISABLE_SWIZZLE blocks", "include/zcm/detail/*_access.hpp, include/zcm/*vec*.hpp, src/*_access.cpp")]),
 ("rounding-accuracy", "Rounding errors stay within a few units of the terms",
  "As long as nothing overflows or underflows, dot, compAdd, compMul, cross, reflect, mix with a parameter in [0, 1], determinant, adjugate, translate, rotate, quaternion lerp and the products of matrices and vectors are within a few dozen units of 2^-24 times the sum of the absolute values of the terms of their formula; the product of quaternions p and q relative to the product of their component sums, and vectors rotated by a unit quaternion (or its matrix) relative to their length. length, length2, distance, distance2, normalize, the inverse of a quaternion, angleAxis, scale, the entries of ortho and the depth entries of perspective are that close relative to the result itself, so that the distance of two nearby points, or a projection with nearly equal bounds, keeps its accuracy.",
  ["inputs"], "all real operands and all rounding errors of the operations", "Tests compare with a tolerance on a few well-conditioned values; a formula that is right in exact arithmetic and cancels in floats needs nearly equal operands.",
  ["src"], [("sums and products", "src/geometric.cpp, src/mat*.cpp, src/matrix.cpp, src/quaternion.cpp, src/common.cpp")]),
 ("nan-propagation", "A NaN operand is not lost",
  "A NaN in a component of an operand makes every result component that depends on it NaN (length and distance: where no component is infinite): dot, length, distance and their squares, normalize, reflect, cross, compAdd, compMul, mix, mod, fract, products of matrices, vectors and quaternions, determinant, inverse, quaternion lerp, translate, scale and ortho. A vector without NaN that has an infinite component has length and length2 of plus infinity.",
  ["inputs"], FPQ, "The tests use ordinary numbers; a shortcut for zero or degenerate operands hides a NaN without any test noticing.",
  ["src"], [("arithmetic functions", "src/geometric.cpp, src/matrix.cpp, src/mat*.cpp, src/quaternion.cpp")]),
 ("concurrent-calls", "Calls may run at the same time on the same operands",
  "Any number of threads may call the functions of the library at the same time, on the same constant operands, without synchronisation: no call writes a static variable (other than its initialisation guarded by the language) or, even temporarily, an operand it takes by constant reference, so no schedule makes calls interfere or race.",
  ["inputs", "schedules"], "every public free function and the const members, all arguments, every schedule (no shared write on any path means there is nothing to interleave)", "The tests are single-threaded and a race shows only when two calls overlap.",
  ["src", "include/zcm"], [("absence of mutable shared state", "src/*.cpp")]),
 ("ordinary-ranges", "Ordinary operands give numbers inside the mathematical range, roundings included",
  "For finite operands of ordinary size that meet the preconditions up to rounding (quaternions and vectors meant to be unit have a length within 2^-20 of one), float arithmetic gives neither NaN nor infinity: no rounding pushes a square root, arc function, logarithm or division out of its domain. This covers metric functions, mod, mix, reflect, refract, colours, quaternion functions and casts, rotations, cameras, projections, inverses and decomposition. Results keep their mathematical range, up to 2^-18 where a formula rounds: smoothstep, fract, octahedral coordinates and colour channels in [0, 1] or [-1, 1], angle in [0, 2 pi], yaw within a quarter turn, components of normalised, decoded and interpolated directions and of rotation matrices in [-1, 1].",
  ["inputs"], "all floats up to a stated magnitude (2^40 for metric functions, less elsewhere) under the stated preconditions, every rounding error", SAMPLE + "a dot product that rounds to 1.0000001 before an arc cosine is not among them.",
  ["src"], [("guards and clamps before partial functions", "src/quaternion.cpp, src/quat.cpp, src/geometric.cpp, src/common.cpp, src/color_space.cpp, src/matrix_transform.cpp")]),
 ("exact-values", "Whole numbers are computed exactly and neutral elements change nothing",
  "When the operands are small whole numbers (or, for interpolation, sixteenths), sums of products are exact, not merely close: dot products, squared lengths and distances, cross products, reflections, products of matrices, vectors and quaternions, determinants, adjugates, translations, scalings, mix and lerp give exactly the number the formula has. For every finite operand a product with the identity matrix on either side, a translation by zero, a scaling by one, a rotation by zero about a coordinate axis, a vector turned by the identity quaternion, a reflection in the zero normal, conjugating or transposing twice, mix at 0 and lerp at 0 and 1 give back the operand exactly.",
  ["inputs"], "all whole numbers up to 4..512 by formula; all finite floats for neutral elements", SAMPLE + "a reciprocal, a root squared again or a threshold loses the last bit elsewhere.",
  ["src"], [("sums of products", "src/geometric.cpp, src/mat2.cpp, src/mat3.cpp, src/mat4.cpp, src/matrix.cpp, src/quat.cpp, src/matrix_transform.cpp, src/common.cpp")]),
]

CID = {p[0]: "C%02d" % (k + 1) for k, p in enumerate(P)}
SLUG = {v: k for k, v in CID.items()}

NA = {}
