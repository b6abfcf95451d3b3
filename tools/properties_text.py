H = 'include/cglm/'
TEST = 'The suite runs one build (x86-64 SSE2, right-handed, [-1,1] depth) and samples a few values or a random vector per function; '
IN = ['inputs', 'configurations']
P('C01', 'Every build configuration computes the same results',
  'For the same arguments, every public operation gives the same result (up to rounding) whichever instruction-set back end is selected: portable scalar code, SSE2 through AVX and FMA, ARM NEON, WebAssembly SIMD, and the unaligned variants. Comparisons, counts, integer results and written-versus-untouched memory agree exactly.',
  ['configurations', 'inputs', 'programs'], 'every public operation, every pair of build configurations, every argument tuple and every chain of operations within the bounds',
  'The suite is compiled once, for x86-64 SSE2; the AVX, FMA, scalar, NEON and WebAssembly code is never executed, so no sample of test inputs can relate one build to another.',
  ['glm_mat4_mul', 'glm_mat4_mul_avx', 'glm_mat4_mul_neon', 'glm_mat4_mul_wasm', 'glmm_fmadd'], [H+'mat4.h', H+'simd/avx/mat4.h', H+'simd/neon/mat4.h', H+'simd/wasm/mat4.h', H+'simd/x86.h', H+'simd/sse2/mat4.h'],
  'differential bounded exploration: every build driven through the same enumerated argument tuples and operation chains')
P('C02', 'In-place use gives the same result as using a separate destination',
  'When an operation is called with its destination being the same object as one of its inputs of the same type, the result is what it would be with a distinct destination. This holds for every operation whose parameters are not declared restrict, in every build configuration.',
  ['inputs', 'configurations'], 'every operation and every assignment of its same-typed pointer arguments to shared objects, in every build',
  'Tests use in-place calls for a few functions on one build; which loads and stores happen in which order differs per build and per function.',
  ['glm_mat4_mul', 'glm_vec3_cross', 'glm_quat_mul', 'glm_mat4_inv', 'glm_mat4_transpose_to'], [H+'mat4.h', H+'vec3.h', H+'quat.h', H+'simd/sse2/mat4.h'],
  'exhaustive exploration of argument-aliasing partitions on the real code')
P('C03', 'The inline, compiled-library and struct interfaces agree',
  'Each operation offered through several interfaces (the inline array interface, the precompiled library functions, and the struct interface that takes and returns values) computes the same result for the same arguments. The struct interface does not modify values passed to it unless its signature takes a pointer for output.',
  IN, 'every operation available in more than one interface, every argument tuple in the bounds',
  'The suite tests the interfaces separately, with different inputs per function, and covers only part of the struct interface.',
  ['glmc_mat4_mul', 'glms_vec3_', 'glmc_vec3_rotate', 'glms_mat4_'], ['src/mat4.c', 'src/vec3.c', H+'struct/vec3.h', H+'struct/mat4.h', H+'call/mat4.h'],
  'bounded exploration comparing the three interfaces state by state')
P('C04', 'Operations touch only the memory of their arguments',
  'An operation reads and writes only inside the objects its parameters denote: a 3-component vector is 12 bytes, a 3x3 matrix 36 bytes, and no byte before or after any argument is read or written. An operation does not modify its input-only arguments, fully defines its outputs, and accepts any address that satisfies the documented alignment of the type.',
  ['inputs', 'configurations'], 'every operation, every pointer argument placed flush against an inaccessible page on either side and at every admissible alignment, in every build',
  'An out-of-bounds SIMD load or store of four lanes for a three-lane object is invisible to value-comparing tests, because neighbouring stack bytes happen to be mapped and unused.',
  ['glm_mat3_mul', 'glm_mat3_mul_sse2', 'glm_vec3_copy', 'glmm_load3', 'glmm_store3'], [H+'mat3.h', H+'simd/sse2/mat3.h', H+'vec3.h', H+'simd/x86.h'],
  'exhaustive enumeration of argument placements under guard pages')
P('C05', 'Operations are pure: threads can use them concurrently without locks',
  'An operation’s results depend only on its arguments: calls have no hidden state, so repeating a call gives a bit-identical result, and calls from several threads on different outputs, even with shared inputs, give the same results under every interleaving. An operation never writes to an input-only argument even temporarily.',
  ['schedules', 'histories', 'inputs'], 'every interleaving of two concurrent calls at memory-access granularity within a preemption bound, for every operation, and every order of a pair of calls',
  'The suite is single threaded and calls functions once; a cached value, a static temporary or a scribbled-and-restored input only shows under a particular interleaving or call order.',
  ['glm_mat4_inv', 'glm_lookat', 'glm_perlin_vec3', 'glm_quat_slerp'], [H+'mat4.h', H+'cam.h', H+'noise.h', H+'quat.h', H+'clipspace/view_rh.h', H+'simd/sse2/mat4.h'],
  'stateless model checking of the implementation under a controlled scheduler with a preemption bound')
P('C06', 'Component-wise vector operations act on each component alone',
  'Addition, subtraction, multiplication, division, scaling, negation, absolute value, min/max, clamping, rounding, fraction, modulo, step and interpolation of float vectors compute, in each component, the scalar operation of the corresponding input components and of nothing else. The accumulating variants add to or subtract from the destination’s previous value.',
  IN, 'every combination of the special and ordinary scalar values in every component, in every build configuration and interface',
  TEST + 'each lane of each function in each SIMD path is a separate place to go wrong.',
  ['glm_vec3_add', 'glm_vec4_muladd', 'glm_vec4_lerp', 'glm_vec3_smoothstep', 'glm_vec2_mods'], [H+'vec2.h', H+'vec3.h', H+'vec4.h', H+'vec2-ext.h', H+'vec3-ext.h', H+'vec4-ext.h'])
P('C07', 'Vector geometry: products, norms, angles, projection, reflection, rotation',
  'Dot and cross products, squared and ordinary norms, distances, normalization, angles, projection, reflection, refraction, orthogonal vectors, centers, axis rotation and matrix rotation of vectors equal their mathematical definitions. Normalizing a vector shorter than FLT_EPSILON gives zero and any other vector whose squared length is representable gives unit length; a rotation preserves length and turns by the right-hand rule; refraction reports total internal reflection with a zero vector.',
  IN, 'every vector over the value alphabet and 18 orders of magnitude, every pair of vectors and every axis-angle grid point, in every build configuration',
  TEST + 'edge cases (zero, tiny, parallel, opposite vectors, critical angles) are each a different path.',
  ['glm_vec3_dot', 'glm_vec3_crossn', 'glm_vec4_normalize', 'glm_vec3_angle', 'glm_vec3_rotate', 'glm_vec3_refract'], [H+'vec2.h', H+'vec3.h', H+'vec4.h'])
P('C08', 'Vector predicates, reductions, masks and component selection',
  'Equality tests with and without tolerance, not-a-number and infinity tests, sign vectors, horizontal sums, minima and maxima, and component selection (swizzle) inspect every component and exactly the components of the vector. A predicate over all components is true precisely when it holds for each of them.',
  IN, 'every vector differing from a base vector in at most two components, every product over the reduction alphabet, every valid selection mask',
  TEST + 'a predicate that ignores one lane agrees with the correct one on almost all samples.',
  ['glm_vec4_eqv_eps', 'glm_vec3_isvalid', 'glm_vec4_hadd', 'glm_vec4_swizzle', 'glm_vec3_max'], [H+'vec2.h', H+'vec3.h', H+'vec4.h', H+'vec2-ext.h', H+'vec3-ext.h', H+'vec4-ext.h'])
P('C09', 'Integer vectors follow exact integer arithmetic per component',
  'Integer vector operations give in each component the exact integer result of the scalar operation, as long as that result is representable: addition, subtraction, multiplication, division, modulo, scaling, min/max, clamp, absolute value, accumulating forms. Distances are the floating-point norms of the difference, and equality compares all components.',
  IN, 'every pair of integers of the alphabet (including the extreme values) in every component, every triple for accumulating forms',
  TEST + 'integer overflow in an intermediate and sign handling need particular values.',
  ['glm_ivec2_add', 'glm_ivec3_distance', 'glm_ivec4_clamp', 'glm_ivec3_muladd'], [H+'ivec2.h', H+'ivec3.h', H+'ivec4.h'])
P('C10', 'Square matrix algebra equals its mathematical definition',
  'Products, matrix-vector products, transposes, traces, determinants, inverses, scalings and quadratic forms of 2x2, 3x3 and 4x4 matrices in column-major convention equal the mathematical definition up to rounding. The product is associative and its inverse law, transpose law and determinant law hold for every well-conditioned operand.',
  IN, 'every pair of matrices from a set that exercises each coefficient of the bilinear product alone, every inverse of signed permutations, affine and dense matrices, in every build configuration',
  TEST + 'one wrong lane in one of about a dozen hand-written SIMD kernels is outside the build the tests run.',
  ['glm_mat4_mul', 'glm_mat4_inv', 'glm_mat3_det', 'glm_mat2_mulv', 'glm_mat4_rmc'], [H+'mat2.h', H+'mat3.h', H+'mat4.h', H+'simd/sse2/mat4.h', H+'simd/avx/mat4.h', H+'simd/neon/mat4.h'])
P('C11', 'Non-square matrix operations equal their mathematical definition',
  'For every rectangular matrix shape from 2x3 to 4x3, construction from an array, clearing, transposition, scaling, product with a vector and product with the matching shape equal the mathematical definition in column-major order. Nothing outside the result’s own rows and columns takes part.',
  IN, 'every pair of single-entry and dense matrices of every shape, every vector of the alphabet',
  TEST + 'rows and columns are easily confused where only one shape is sampled.',
  ['glm_mat2x3_mul', 'glm_mat3x4_mulv', 'glm_mat4x2_transpose', 'glm_mat4x3_scale'], [H+'mat2x3.h', H+'mat2x4.h', H+'mat3x2.h', H+'mat3x4.h', H+'mat4x2.h', H+'mat4x3.h'])
P('C12', 'Structural matrix and vector operations move exactly the right elements',
  'Copies, identities and zeros, array constructors, extraction and insertion of a smaller matrix, plain and transposed, row and column swaps and conversions between vector sizes place every element where the column-major definition says and leave every other element as it was. These moves are exact, including special floating-point values.',
  IN, 'matrices with pairwise distinct entries and with special values, every pair of row and column indices',
  TEST + 'an unaligned or not fully copied element can keep the expected value by accident.',
  ['glm_mat4_pick3', 'glm_mat4_ins3', 'glm_mat4_swap_col', 'glm_mat3_make', 'glm_vec4_copy3'], [H+'mat2.h', H+'mat3.h', H+'mat4.h', H+'vec4.h', H+'vec3.h'])
P('C13', 'Quaternion algebra and rotations by quaternions',
  'Quaternion product, conjugate, inverse, norm, dot, normalization, addition, scaling, construction from axis and angle or components, extraction of angle, axis and imaginary part equal their definitions, with (x,y,z,w) component order and the Hamilton product. Rotating a vector or matrix by a unit quaternion equals rotating it about the quaternion’s axis by its angle with the right-hand rule, and composition of rotations matches the product.',
  IN, 'every quaternion of the alphabet, every ordered pair, every triple of unit quaternions, and the octahedral rotation group explored to closure',
  TEST + 'the laws quantify over all pairs and triples.',
  ['glm_quat_mul', 'glm_quat_inv', 'glm_quat_rotatev', 'glm_quatv', 'glm_quat_axis'], [H+'quat.h', H+'simd/sse2/quat.h', H+'simd/neon/quat.h'])
P('C14', 'Quaternions and matrices describe the same rotation both ways',
  'Converting a quaternion of any non-zero norm to a 3x3 or 4x4 matrix gives the rotation of that quaternion, and converting a rotation matrix to a quaternion gives a unit quaternion of the same rotation, whichever branch is taken. Quaternions built from two vectors rotate the first onto the second, and from a look direction give the matching orientation.',
  IN, 'quaternions of any norm, a dense axis-angle grid that includes every branch boundary, every pair of directions including parallel and opposite ones',
  TEST + 'the conversion has four branches and the pair construction three, with thresholds at near-parallel vectors.',
  ['glm_quat_mat4', 'glm_mat3_quat', 'glm_mat4_quat', 'glm_quat_from_vecs', 'glm_quat_for'], [H+'quat.h', H+'mat3.h', H+'mat4.h'])
P('C15', 'Quaternion interpolation follows the intended path',
  'Spherical interpolation goes through unit quaternions from the first to the second rotation along the shorter arc at constant angular speed; the longest-path variant takes the other arc; linear and normalized-linear variants interpolate components, the normalized one along the shorter side. The end points are met at parameter 0 and 1 for every pair, including nearly equal and nearly opposite quaternions.',
  IN, 'every pair of unit quaternions in the grid including near-identical and near-opposite pairs, on every sampled parameter and along 33-step paths',
  TEST + 'the thresholds between branches sit at nearly equal or opposite quaternions.',
  ['glm_quat_slerp', 'glm_quat_nlerp', 'glm_quat_slerp_longest', 'glm_quat_lerp'], [H+'quat.h'])
P('C16', 'Euler angle conversions are consistent in all six orders',
  'Building a matrix or quaternion from Euler angles in any of the six orders equals the product of the three axis rotations in that order, for the right-handed and the left-handed variant alike. Extracting angles from a rotation matrix gives angles that rebuild the same rotation, including at the poles where one angle becomes redundant.',
  IN, 'all six orders, every triple of a 35-value (thorough 59) angle grid including multiples of a right angle, in both handedness configurations',
  TEST + 'gimbal lock and the left-handed configuration need special angles or another build.',
  ['glm_euler_xyz', 'glm_euler_zyx', 'glm_euler_angles', 'glm_euler_by_order', 'glm_euler_xyz_quat'], [H+'euler.h', H+'handed/euler_to_quat_rh.h', H+'handed/euler_to_quat_lh.h'])
P('C17', '3D affine transforms compose on the documented side',
  'Translation, scaling, rotation about an axis, a coordinate axis, a pivot point, and spinning around its own position multiply the given matrix on the documented side: the default forms apply the new transform before the existing one, the "-d" forms after it. Any sequence of such calls equals the product of the individual matrices in call order, and the forms with a destination leave the source unchanged.',
  ['inputs', 'histories', 'configurations'], 'every transform on every matrix of the set, every sequence of 21 transforms to depth 3 (thorough 4) from several start states',
  TEST + 'composition over operation histories is never explored and the after-forms are hardly tested.',
  ['glm_translate', 'glm_rotate', 'glm_rotate_at', 'glm_spin', 'glm_translated', 'glm_rotated_x', 'glm_scale'], [H+'affine.h', H+'affine-pre.h', H+'affine-post.h'])
P('C18', 'Affine product, affine inverse and decomposition of transforms',
  'The specialised affine products equal the full matrix product for operands of their documented form, and the rigid inverse equals the true inverse for every rotation plus translation. Decomposing a transform made of translation, rotation and scale returns factors that multiply back to it, with mirrored transforms reported by negative scales, and the uniform-scale test is true exactly for uniform scales.',
  IN, 'every pair of affine matrices of the set, 440 rotations x 64 translations, 80 rotations x 216 scales x 8 mirrorings',
  TEST + 'a dropped term multiplies an entry that is zero in most sampled operands.',
  ['glm_mul', 'glm_mul_rot', 'glm_inv_tr', 'glm_decompose', 'glm_uniscaled'], [H+'affine-mat.h', H+'affine.h', H+'simd/sse2/affine.h', H+'simd/avx/affine.h', H+'simd/neon/affine.h'])
P('C19', '2D transforms compose on the documented side',
  'The 2D translation, rotation and scale operations on 3x3 matrices equal multiplication by the corresponding homogeneous 2D matrix, on the documented side, in place and with a destination. Any sequence of them equals the product of the individual matrices.',
  ['inputs', 'histories', 'configurations'], 'every transform on every matrix of the set, every sequence of 12 transforms to depth 4 (thorough 5)',
  TEST + 'composition over histories is never explored.',
  ['glm_translate2d', 'glm_rotate2d', 'glm_scale2d_to', 'glm_rotate2d_to'], [H+'affine2d.h', H+'affine2d-post.h'])
P('C20', 'Projection matrices map their view volume onto the clip volume',
  'A perspective, frustum, infinite or orthographic projection, including the ones built from a bounding box or from defaults, maps the left, right, bottom, top, near and far limits of the view volume to the borders of the clip volume of the selected convention: right- or left-handed, depth range [-1,1] or [0,1]. The unqualified functions follow the convention configured at compile time.',
  IN, 'grids of extents, near and far planes, field of view and aspect, in all four clip-space variants and the configured one',
  'The suite is compiled only for the right-handed [-1,1] convention and samples few, mostly centered, volumes.',
  ['glm_frustum_rh_no', 'glm_perspective_lh_zo', 'glm_ortho_rh_zo', 'glm_ortho_aabb_lh_no', 'glm_perspective_default_rh_no'], [H+'cam.h'] + [H+'clipspace/%s_%s.h' % (k, v) for k in ('persp', 'ortho') for v in ('rh_no', 'rh_zo', 'lh_no', 'lh_zo')])
P('C21', 'Projections can be taken apart and edited consistently',
  'Decomposing a perspective projection returns the near, far, left, right, bottom, top, field of view, aspect and plane sizes it was built from, in each clip-space convention. Changing the aspect or moving the far plane of a projection gives the projection that would have been built with the changed value, also after any sequence of such edits.',
  ['inputs', 'histories', 'configurations'], 'grids of symmetric and off-center projections in all four conventions, every edit and every sequence of four edits',
  'The suite is compiled for one convention and decomposes a handful of projections.',
  ['glm_persp_decomp_rh_no', 'glm_persp_decomp_lh_zo', 'glm_persp_move_far_rh_zo', 'glm_perspective_resize_lh_no', 'glm_persp_sizes_rh_zo'], [H+'cam.h'] + [H+'clipspace/persp_%s.h' % v for v in ('rh_no', 'rh_zo', 'lh_no', 'lh_zo')])
P('C22', 'View matrices are rigid and put the eye at the origin looking ahead',
  'A look-at or look-in-direction view matrix is a rigid transform that maps the eye to the origin and the viewing direction to the negative z axis in right-handed and to the positive z axis in left-handed conventions, with the up vector in the upper half of the y-z plane. The variant without an up vector does the same with some valid up vector.',
  IN, 'every eye, direction and up vector of the grids, in each convention and the configured one',
  'The suite samples a few right-handed cameras.',
  ['glm_lookat_rh', 'glm_look_lh', 'glm_look_anyup_rh', 'glm_lookat_lh'], [H+'cam.h', H+'clipspace/view_rh.h', H+'clipspace/view_lh.h'])
P('C23', 'Projecting, unprojecting and picking are inverse to each other',
  'Projecting a point gives its window position and depth in the viewport for the configured depth range, and unprojecting that position with the inverse matrix returns the point. The pick matrix maps exactly the requested window rectangle to the whole clip area.',
  IN, 'every camera, point and viewport of the grids, in both depth conventions',
  'The suite samples a few points with one convention.',
  ['glm_project_no', 'glm_unprojecti_zo', 'glm_project_z_no', 'glm_pickmatrix'], [H+'project.h', H+'clipspace/project_no.h', H+'clipspace/project_zo.h'])
P('C24', 'Frustum planes, corners and boxes extracted from a matrix are exact',
  'The six planes extracted from a view-projection matrix with clip depth [-1,1] have unit normals that point inwards, and a point lies on the inner side of all of them exactly when it is inside the clip volume. The eight corners are the unprojected clip-cube corners, the center is their mean, the box in another space tightly bounds them, and the corners at a split distance lie on the edges at that fraction.',
  IN, '144 cameras of both hands, off-center and orthographic, with 125 points each; corner, box and split grids',
  'The suite hardly tests this file, with one camera.',
  ['glm_frustum_planes', 'glm_frustum_corners', 'glm_frustum_box', 'glm_frustum_corners_at', 'glm_frustum_center'], [H+'frustum.h', H+'plane.h'])
P('C25', '3D bounding boxes: transform, merge, crop, containment, overlap',
  'Transforming a box gives the smallest box around its eight transformed corners, merging gives the smallest box around both, cropping gives the intersection, and growing, center, size and radius equal their definitions. Point, box and sphere overlap and containment tests count touching as overlap, and a box is culled by a frustum only if it lies entirely outside one of its planes.',
  IN, 'every box, point, sphere and matrix of the grids, including touching and degenerate boxes',
  TEST + 'each face, axis and touching case is separate.',
  ['glm_aabb_transform', 'glm_aabb_crop', 'glm_aabb_frustum', 'glm_aabb_sphere', 'glm_aabb_contains'], [H+'box.h'])
P('C26', '2D bounding boxes: transform, merge, crop, containment, overlap',
  'Transforming a 2D box gives the smallest box around its four transformed corners, merging gives the smallest box around both, cropping gives the intersection, and center, radius, size and validity equal their definitions. Point, box and circle overlap and containment tests count touching as overlap.',
  IN, 'every box, point, circle and matrix of the grids, including touching and degenerate boxes',
  TEST + 'each side, axis and touching case is separate.',
  ['glm_aabb2d_transform', 'glm_aabb2d_crop', 'glm_aabb2d_circle', 'glm_aabb2d_contains'], [H+'aabb2d.h'])
P('C27', 'Spheres: transform, merge, overlap and containment',
  'Transforming a sphere moves its center and keeps its radius for a rigid transform, merging gives a sphere that contains both, and the radius accessor returns the radius. Sphere-sphere and sphere-point tests agree with the distance of the centers and count touching as overlap.',
  IN, 'every pair of spheres and every point of the grids, including nested, touching and concentric ones',
  TEST + 'nested and concentric spheres are separate cases.',
  ['glm_sphere_merge', 'glm_sphere_sphere', 'glm_sphere_point', 'glm_sphere_transform'], [H+'sphere.h'])
P('C28', 'Ray queries report exactly the true intersections',
  'The ray-triangle query reports a hit, with the right distance, exactly when the ray meets the triangle from either side in front of its origin (grazing rays and triangles below the function’s fixed tolerance of 1e-6 aside); the ray-sphere query returns both entry and exit distances of the line and reports a hit exactly when the ray meets the sphere, also from inside. The point at a distance along a ray equals origin plus distance times direction.',
  IN, 'every ray, triangle and sphere of the grids with a margin around grazing configurations',
  TEST + 'inside, behind, grazing and degenerate cases are separate branches.',
  ['glm_ray_triangle', 'glm_ray_sphere', 'glm_ray_at'], [H+'ray.h'])
P('C29', 'Curves: Bezier and Hermite evaluation and inversion',
  'Cubic Bezier and Hermite evaluation equal their polynomial definitions and pass through the end points with the stated tangents; the matrix form with a coefficient matrix agrees. Numerical inversion of a monotone cubic Bezier returns a parameter whose value is the requested one within the stated error, or the nearest end when out of range.',
  IN, 'every control polygon and parameter of the grids, every monotone curve and target value of the inversion grid',
  TEST + 'the quantifier is over all control points and parameters.',
  ['glm_bezier', 'glm_hermite', 'glm_smc', 'glm_decasteljau'], [H+'bezier.h', H+'curve.h'])
P('C30', 'Easing functions start at 0, end at 1 and have the right shape',
  'Every easing function maps 0 to 0 and 1 to 1, is continuous in between and equals its published formula. The in, out and in-out forms of each family are related by point symmetry, and the families without overshoot are monotone and stay within [0,1].',
  IN, 'every function at every point of a dense parameter grid including the neighbourhood of every branch boundary',
  TEST + 'continuity and monotonicity quantify over the whole interval.',
  ['glm_ease_quad_inout', 'glm_ease_bounce_out', 'glm_ease_elast_in', 'glm_ease_back_inout'], [H+'ease.h'])
P('C31', 'Scalar helpers equal their definitions over the whole range',
  'Degree and radian conversions, sign, square, min, max, clamping, interpolation, step and smooth step, percentages and tolerance comparisons of scalars equal their definitions for every value, including the extremes of the type. Interpolation meets its end points and the clamped variants never leave the interval.',
  IN, 'every pair of 240 floats, every triple of 25, 190 integers (thorough: all 2^32 integers for the sign)',
  TEST + 'extreme values are not sampled.',
  ['glm_sign', 'glm_clamp', 'glm_lerpc', 'glm_percent', 'glm_smoothinterp', 'glm_swapf'], [H+'util.h'])
P('C32', 'Gradient noise is the published algorithm on every lattice cell',
  'The 2D, 3D and 4D gradient noise functions equal classic Perlin noise with the published permutation and gradients, for every lattice cell and position including negative coordinates. The noise is zero at lattice points and continuous across cell borders.',
  IN, 'every lattice cell of a block around the origin with interior, border and corner positions',
  TEST + 'a wrong gradient or corner is only visible in the cells that use it.',
  ['glm_perlin_vec2', 'glm_perlin_vec3', 'glm_perlin_vec4'], [H+'noise.h'])
P('C33', 'Printing shows each element in its place with its value',
  'The print functions write to the given stream the elements of vectors, integer vectors, quaternions, matrices and boxes, each in its place, matrices row by row, with a value that equals the element to the printed precision. Printing does not change its argument.',
  ['inputs', 'configurations'], 'every position of every printable type holding every value of a width- and format-relevant alphabet',
  'The suite prints nothing and checks no output.',
  ['glm_mat4_print', 'glm_vec3_print', 'glm_ivec3_print', 'glm_versor_print', 'glm_aabb_print', 'glm_mat3_print'], [H+'io.h'])
P('C34', 'The SIMD helper layer implements one contract on every instruction set',
  'The internal four-lane helpers (load, store, broadcast, shuffle, horizontal sum, minimum and maximum, dot, norm, absolute value, negation, division, fused multiply-add and -subtract in 128 and 256 bits) compute the same lane-wise function in each instruction-set variant. Fused forms mean a*b+c, a*b-c, -(a*b)+c and -(a*b)-c respectively, with or without hardware support.',
  IN, 'every combination of lane values of the alphabet, in each instruction-set build',
  'The helpers are tested only through a few callers and on one instruction set.',
  ['glmm_vhadds', 'glmm_fmsub', 'glmm_norm', 'glmm_fnmsub', 'glmm256_fnmsub', 'glmm_load3'], [H+'simd/x86.h', H+'simd/arm.h', H+'simd/wasm.h', H+'simd/intrin.h'])
P('C35', 'Configuration knobs, headers, macros and constants behave as documented',
  'Every documented configuration macro and every public header combination compiles in C and C++ and selects the documented behavior. Macro aliases and initializer constants equal the operation or value they name, and all objects have the documented size and alignment. Where Apple simd types exist, the conversions to them copy every element to the same place.',
  ['configurations', 'programs'], 'every documented configuration macro and pair of them, every entry-point header, every public function referenced once in each configuration',
  'The suite compiles one configuration with one include order.',
  ['GLM_MAT4_IDENTITY_INIT', 'CGLM_ALIGN', 'glm_vec3_dup', 'GLM_QUAT_IDENTITY_INIT', 'CGLM_FORCE_LEFT_HANDED'], [H+'types.h', H+'cglm.h', H+'struct.h', H+'call.h', H+'mat4.h', H+'quat.h', H+'vec3.h', H+'common.h', H+'cam.h', H+'types-struct.h', H+'applesimd.h'])
