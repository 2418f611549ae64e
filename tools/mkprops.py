#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MX, VE, QU, AB, FR, FC, IN, LF, QR, UT, MF, VR, MA = (
    "vmmlib/" + x for x in ("matrix.hpp", "vector.hpp", "quaternion.hpp", "aabb.hpp", "frustum.hpp", "frustum_culler.hpp",
                            "intersection.hpp", "lowpass_filter.hpp", "qr_decomposition.hpp", "util.hpp",
                            "matrix_functors.hpp", "version.in.hpp", "math.hpp"))

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, claimed=claimed, reason=reason))


I, H, C, PR, FS = "inputs", "histories", "configurations", "programs", "fault_sequences"

prop("P01", "All access paths of a matrix agree with one column-major element store",
     "After any sequence of element, row, column, sub-matrix, fill, range, vector and whole-matrix writes, reading a matrix through any path (indexed access, nested indexing, forward and reverse iteration, the raw array or pointer conversion, row/column/sub-matrix extraction, sizes) yields exactly the last value written to each position. "
     "Iteration and the raw array are column-major, ranges fill in the requested order and stop at the end of either side. Writes touch no other position and no other object, and equality (exact, within a strict tolerance, or up to the sign of whole rows or columns) answers according to the stored values; nothing equals a matrix that holds a NaN.",
     [H, I], "every history of reads and writes over matrices of every shape and element type",
     "Tests write a few fixed matrices through one path and read them back through one other; the agreement of ~20 paths after arbitrary histories and for non-square shapes is never exercised.",
     [MX, MF], [("column-major indexing", "vmmlib/matrix.hpp: at(), operator[], begin()/rbegin(), get_/set_row/_column/_sub_matrix, set()")],
     [("array", "the M*N elements, column-major", "vmmlib/matrix.hpp: Matrix::array")])

prop("P02", "Accesses outside a matrix or vector are rejected without touching memory",
     "With safe accessors and exceptions enabled, indexed element access, row, column and sub-matrix extraction or assignment with a position outside the matrix, minors of a row or column outside it, indexed access to a vector component outside it, and assignment from a too short vector raise the library's exception, and every access inside is accepted. "
     "A rejected element, row or column operation leaves every object unchanged; none reads or writes memory outside the objects.",
     [I, H], "every index pair, including the first one past the end and wrapped negative ones, at any point of any history, for every shape",
     "No test passes an out-of-range index; the boundary depends on the shape and on the access path.",
     [MX, VE], [("bounds checks", "vmmlib/matrix.hpp: at(), operator[], row_accessor::operator[], get_/set_row/_column/_sub_matrix, get_minor")],
     observe=["exception raised or not, registers afterwards, AddressSanitizer"])

prop("P03", "Matrix arithmetic is exact, leaves operands alone and tolerates aliasing",
     "Addition, subtraction, negation, scalar shift, scaling, division, piecewise and matrix products and transposition compute the mathematically defined result wherever it is representable. "
     "In-place, out-of-place, member and free-function forms agree, operands keep their values, and in-place forms are also right when an operand is the destination or one of its elements.",
     [I, H], "all operand values, shapes and aliasing patterns, composed in any order",
     "Tests compute single results from one or two fixed operands per operation and never alias or chain them.",
     [MX], [("element loops", "vmmlib/matrix.hpp: operator+,-,*,/ and their assignments, multiply(), multiply_piecewise(), transpose_to(), negate()")])

prop("P04", "Determinant, minors, cofactors and adjugate follow their definitions",
     "The determinant (up to 4x4), the minor of every position, the matrix of cofactors and the adjugate (2x2 to 5x5) equal their textbook values for every matrix, whatever its sign pattern, symmetry or rank. "
     "The diagonal constructor, the identity and the symmetric covariance have their defined elements, and the arguments are not changed.",
     [I], "all square matrices of the supported sizes",
     "One fixed matrix per size is tested; a wrong sign or index in one of the expanded terms vanishes on special matrices.",
     [MX, MF], [("expanded determinants", "vmmlib/matrix.hpp: compute_determinant, get_minor, get_cofactors, get_adjugate, diag")])

prop("P05", "Matrix inversion is right or refused",
     "For 2x2 to 4x4 matrices inversion succeeds exactly when the absolute determinant exceeds the tolerance, and then the result is the inverse: its product with the matrix is the identity, at every scale of the input. "
     "The previous content of the destination has no influence, the argument is unchanged, and positive semi-definiteness of symmetric matrices is decided by the signs of the leading minors.",
     [I], "all matrices, tolerances, scales and destination contents",
     "Tests invert one matrix per size; the acceptance boundary, singular inputs, scales and single wrong terms of the 4x4 expansion are out of reach.",
     [MX, MF], [("closed-form inverses", "vmmlib/matrix.hpp: compute_inverse; vmmlib/matrix_functors.hpp: is_positive_definite")])

prop("P06", "Matrix-vector products, also homogeneous ones",
     "A matrix times a column vector is the exact linear combination of its columns. A 4x4 (or (n+1)x(n+1)) matrix times a shorter vector treats the vector as a point with homogeneous coordinate one and divides the result by its homogeneous coordinate. "
     "Neither operand changes, and the product of matrices applied to a vector equals applying them one after the other.",
     [I], "all matrices and vectors for which the homogeneous coordinate does not vanish, including projective ones",
     "One matrix and one vector are tested, with a last row of (0,0,0,1) or equal.",
     [MX], [("operator*( Vector )", "vmmlib/matrix.hpp: operator*( const Vector& )")])

prop("P07", "Affine transform builders compose as documented",
     "Setting, scaling and reading a translation, scaling, the axis rotations and pre-rotations, rotation about an axis, and the free helpers that create or apply translation, rotation and scaling produce exactly the matrix their formula defines, in every argument form, after any sequence of earlier operations. "
     "Builders that modify only part of a matrix leave the remaining elements untouched.",
     [H, I], "every sequence of builder calls on a 4x4 (or 3x3) matrix, every angle, axis and factor",
     "Tests apply one builder to an identity with one angle; composition order and untouched elements show only on general matrices.",
     [MX, UT], [("rotate*, pre_rotate*, scale*, *_translation", "vmmlib/matrix.hpp"), ("create_/apply_ helpers", "vmmlib/util.hpp")])

prop("P08", "Structured products and sums equal their definitions",
     "The Kronecker, Khatri-Rao and tensor (outer) products, direct sum, covariance, convolution with extended borders, column sums and pairwise row and column sums have exactly the elements their definitions prescribe, for every combination of operand shapes. The operands are not changed.",
     [I], "all operands and shape combinations, square or not, odd or even",
     "One or two fixed small operands are tested each, mostly square; index errors show only for other shapes.",
     [MX], [("loops", "vmmlib/matrix.hpp: kronecker_product, khatri_rao_product, tensor, direct_sum, convolve, symmetric_covariance, columnwise_sum, sum_rows, sum_columns")])

prop("P09", "Matrix reductions and thresholding",
     "Minimum, maximum, smallest and largest absolute value, element sum, number of non-zeros (also above a threshold), Frobenius norm and p-norm equal their definition for every matrix, whatever the signs and position of the elements. Thresholding zeroes exactly the elements whose absolute value does not exceed the threshold.",
     [I], "all matrices, thresholds and p >= 1",
     "Tests use one matrix with mixed signs; all-negative, unsigned or boundary elements are not tried.",
     [MX], [("reductions", "vmmlib/matrix.hpp: get_min, get_max, get_abs_min, get_abs_max, sum_elements, nnz, threshold, frobenius_norm, p_norm")])

prop("P10", "Matrix construction, conversion and assignment between shapes and types",
     "A default-constructed matrix is the identity if square and zero otherwise. Construction or assignment from a matrix of another shape or element type copies the common top-left block and zeroes the rest; assignment from nested or flat arrays is row-major; casting keeps every value.",
     [I, H], "all shape and type pairs and all values both types represent",
     "One shape pair is tested.", [MX], [("operator=, constructors, cast_from", "vmmlib/matrix.hpp")])

prop("P11", "Quantization maps the range linearly onto the integer type and back",
     "Quantizing to an integer type maps the given (or the matrix' own) minimum and maximum to the ends of the type's scale (for signed types, symmetrically around the centre of the range): half a step is added and the fraction dropped (towards zero), so unsigned results are the nearest step and signed ones are within one and a half. Dequantizing is the exact inverse of that linear map, limited to the range. Values outside the range are clamped and the source matrix is not changed. Integer matrices are quantized like floating-point ones.",
     [I], "all matrices and value ranges, 8 and 16 bit targets, signed and unsigned",
     "One matrix and one range are tested.", [MX], [("quantize, quantize_to, dequantize", "vmmlib/matrix.hpp")])

prop("P12", "Serialization round-trips and leaves streams reusable",
     "Whatever sequence of matrices and vectors is written to a stream as text is read back in order with the same values (as far as the precision of the stream represents them), raw files written are read back bit by bit by the same name, with or without the extension, each directory and name being its own file (a file that is missing or too short leaves the elements it does not have as they were), and writing never changes what is written. Printing writes the elements in row order with five significant digits in columns of ten and restores the stream's formatting state.",
     [H, I], "every sequence of writes and reads, every value, every prior formatting state of the stream",
     "A single round trip or none is tested; interleavings and formatting state never.",
     [MX, VE, QU], [("read_/write_*stream, *_raw, operator<<", "vmmlib/matrix.hpp, vmmlib/vector.hpp, vmmlib/quaternion.hpp")])

prop("P13", "Vector arithmetic is exact and agrees between all its forms",
     "Component-wise and scalar addition, subtraction, multiplication, division, negation, dot and cross product, product, squared length and distance compute the exact result wherever it is representable. In-place, out-of-place and free-function forms agree, operands are unchanged unless they are the destination, and aliasing an operand with the destination (or one of its components) does not change the result.",
     [I, H], "all operands, dimensions, types and aliasing patterns, composed in any order",
     "Fixed operands, one call at a time.", [VE], [("operators", "vmmlib/vector.hpp: operator+,-,*,/ and assignments, dot, cross, product, squared_length")])

prop("P14", "Lengths, distances, normalization and rotation of vectors",
     "Length, distance and norm are the square roots of the exact sums; normalization yields the parallel vector of length one and returns the former length, a zero vector staying zero. Rotating about an axis and the normal of a triangle have their right-handed geometric values, independent of the length of the axis and of the scale of the input.",
     [I], "all vectors, axes, angles and scales", "A few fixed vectors are tested.",
     [VE], [("length, normalize, distance, rotate, compute_normal", "vmmlib/vector.hpp")])

prop("P15", "Vector comparison, search and element-wise functions",
     "Equality compares all components (a NaN equals nothing), ordering is the lexicographic strict order, and tolerance comparison accepts exactly differences below the tolerance. Searching smallest and largest (also absolute) components returns the first such position and value, and clamping, scaling to an integer range, reciprocals, roots and counting non-zeros act on every component as defined.",
     [I], "all vectors, including ties, signs and boundary values", "One fixed vector per function.",
     [VE], [("operator<, operator==, find_*, clamp, scale_to, reciprocal*, nnz", "vmmlib/vector.hpp")])

prop("P16", "Vector construction, views, iteration and homogeneous conversion",
     "Every constructor, setter, named accessor, iterator and index path refers to the same components in order. A sub-vector is a view: writes through it appear in the parent and nowhere else. Conversion to homogeneous coordinates appends one, conversion from them divides by the last component, and conversion between types keeps values.",
     [H, I], "every history of writes through any path, for every dimension", "Single calls on fixed values.",
     [VE], [("constructors, set, accessors, get_sub_vector, operator=", "vmmlib/vector.hpp")])

prop("P17", "Plane and sphere computations",
     "The plane through three points has a unit normal following their orientation and contains all three; the signed distance to a plane, the projection onto a plane, and the distance to and projection onto a sphere have their geometric values for every point.",
     [I], "all planes, spheres and points", "One plane and one point are tested.",
     [VE], [("compute_plane, distance_to_*, project_point_onto_*", "vmmlib/vector.hpp")])

prop("P18", "Quaternion algebra",
     "Quaternion sum, difference, product, scaling, conjugate, inverse, negation, dot and cross product, absolute value and the mixed operations with three-vectors obey the Hamilton algebra exactly; in-place forms agree with out-of-place ones, also when aliased. Division by zero is rejected; comparison with a scalar compares against the real quaternion, and a quaternion that holds a NaN equals nothing.",
     [I, H], "all quaternions, in any composition", "Fixed operands, one call at a time.",
     [QU], [("operators", "vmmlib/quaternion.hpp")])

prop("P19", "Quaternions and rotation matrices represent the same rotation",
     "The rotation matrix of a unit quaternion rotates exactly as the quaternion does, products map to products, and building a quaternion from a rotation matrix gives back the rotation it came from, up to the common sign, for every rotation including half turns about any axis.",
     [I], "all rotations, in particular near and at 180 degrees, where other branches are taken", "Identity-like rotations only.",
     [QU], [("set( matrix ), get_rotation_matrix", "vmmlib/quaternion.hpp")])

prop("P20", "Quaternion interpolation and rotation",
     "Spherical interpolation starts at the first and ends at the second orientation, moves along the shorter arc at constant angular speed, and gives a unit quaternion. Normalization and rotating by an angle about an axis give unit quaternions of the same orientation and the rotated one respectively.",
     [I], "all pairs of orientations and parameters in [0, 1]", "One pair is tested.",
     [QU], [("slerp, normalize, rotate*", "vmmlib/quaternion.hpp")])

prop("P21", "A bounding box is the hull of what was merged into it",
     "After any sequence of resets, merges, arithmetic and assignments, a bounding box has exactly the extent of the hull of everything merged since; it is empty exactly if its extent vanishes or is negative in some dimension, an emptied box equals a box that never held anything, it contains exactly the points (and spheres) between its corners inclusive, and its centre and size follow from the corners.",
     [H, I], "every history of operations on boxes and every point", "A few calls on one box are tested.",
     [AB], [("merge, isIn, isEmpty, reset, operators", "vmmlib/aabb.hpp")])

prop("P22", "Frustum matrices and adjustments",
     "The perspective and orthographic matrices map the frustum's corners to the corners of the canonical cube; moving the near plane keeps the shape of the frustum, jitter shifts it by exactly the given amount, and a perspective frustum has the given field of view, aspect ratio and planes. Width and height are the extents.",
     [H, I], "all frusta and every sequence of adjustments", "One frustum is tested.",
     [FR], [("compute_matrix, compute_ortho_matrix, adjust_near, apply_jitter, set_perspective", "vmmlib/frustum.hpp")])

prop("P23", "Frustum culling never rejects something visible",
     "For every frustum given by a matrix or by its corners, sphere and box tests report fully inside, partially inside or outside consistently with the signed distances to the six planes: nothing that reaches inside all planes is reported outside, nothing crossing a plane is reported fully inside, and anything wholly behind one plane is reported outside.",
     [I, H], "all frusta, spheres and boxes", "No test decides visibility against an independent oracle.",
     [FC], [("setup, test_sphere, test_aabb", "vmmlib/frustum_culler.hpp")])

prop("P24", "Ray-sphere intersection returns the nearest hit in front",
     "A ray hits a sphere exactly when the geometry says so, and the reported parameter is the distance along the ray of the point where it enters the sphere or, if it starts inside or on the surface, of the point where it leaves it; a sphere behind the ray is not hit.",
     [I], "all rays and spheres", "Few fixed rays are tested.",
     [IN], [("test_sphere", "vmmlib/intersection.hpp")])

prop("P25", "The low-pass filter averages exactly the recent values",
     "After any history of added values and changed smoothing factors, the filter's value is the exponentially weighted average of the last values of its window, no older value has influence, and the first value is reproduced unchanged.",
     [H, I], "every history of added values, window sizes and smoothing factors", "One short history is tested.",
     [LF], [("add, access", "vmmlib/lowpass_filter.hpp")])

prop("P26", "QR decomposition",
     "For a matrix of full column rank, Gram-Schmidt QR decomposition yields orthonormal columns and an upper triangular factor with positive diagonal whose product is the input, which is unchanged.",
     [I], "all full-rank matrices of every size and scale", "One matrix is tested.",
     [QR], [("qr_decompose_gram_schmidt", "vmmlib/qr_decomposition.hpp")])

prop("P27", "Build configurations do not change results",
     "Every in-range operation gives the same result with and without assertions and safe accessors, optimized or not, and with the pointer conversion operators disabled.",
     [C, I], "the build configurations the library documents, all programs that stay in range", "Tests are built in one configuration.",
     [MX, VE, "vmmlib/vmmlib_config.hpp"], [("conditional compilation", "vmmlib/vmmlib_config.hpp, NDEBUG and VMMLIB_NO_CONVERSION_OPERATORS sections")])

prop("P28", "Transform bases and random fillers",
     "The discrete cosine basis matrix has orthonormal rows in increasing frequency starting with the constant row; random filling stays within [-1, 1], is reproducible from its seed, and continues the sequence if no seed is given.",
     [I, H], "all sizes, seeds and histories of fills", "One size is tested, randomness never.",
     [MX, VE], [("set_dct, set_random", "vmmlib/matrix.hpp, vmmlib/vector.hpp")])

prop("P29", "Version comparison is a total order",
     "The version comparison macros order versions by major, minor and patch number, lexicographically: exactly one of newer, equal, older holds for every version asked about, whatever the library's own version is.",
     [I, C], "all library versions and all versions compared against", "Never tested.",
     [VR], [("VMMLIB_VERSION_GT/GE/LT/LE", "vmmlib/version.in.hpp")])

prop("P30", "Utility functions and named types mean what they say",
     "The scalar helpers (square, length of a pair without destructive overflow or underflow, sign transfer, comparison by magnitude, equality within the precision of the type), the component-wise minimum and maximum of two vectors, the zeroing and the Manhattan length of a vector, and the homogeneous tensor of two 3-vectors compute their definitions for every argument, and alter nothing else. "
     "A vector imported from another library's type has its components. The named matrix, vector, quaternion, box and frustum types have the dimensions and element type their name states.",
     [I], "all arguments and magnitudes, at every vector size", "None of these functions has a test.",
     [MA, UT, MX, VE], [("scalar helpers", "vmmlib/math.hpp: squared, pythag, sign, abs_less, abs_greater"),
                        ("utility functions", "vmmlib/util.hpp: equals, min, max, manhattan, zero"),
                        ("homogeneous tensor", "vmmlib/matrix.hpp: tensor(Vector<M-1>, Vector<N-1>)")])

exec(open(os.path.join(HERE, "tools", "claims.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            a["observe_at"] = list(p["observe"]) or ["public API: object state after each call, returned values, exceptions"]
            a["hook_needed"] = None
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "bin/setup",
         "checks": [{"property": p["id"], "quick_cmd": "bin/check %s --tier quick" % p["id"],
                     "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                     "technique": TECH.get(p["id"], TECH0), "level": "model_checking", "level_note": NOTE.get(p["id"], NOTE0)}
                    for p in P if p["id"] in CLAIMED],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if p["id"] not in CLAIMED],
         "notes": "No hooks: the public interface exposes the abstract state."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
