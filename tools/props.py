INP = ['inputs']
prop('M01', 'Fixed-size vector arithmetic is exact componentwise vector-space algebra',
 'For every dimension, element type and operand value, construction, element access, comparison, fill, swap, +, -, *, / with another vector or a scalar (binary and compound, mixed element types, and operands or scalars that alias the result), and copying/conversion of fixed-size vectors equal the componentwise mathematical definition. No operation reads or writes outside its operands, and operands that are not the target are unchanged.',
 INP, 'all element values, all index values, all aliasings of target, operand and scalar; dimensions 1..4 and element types double, float, int and mixed',
 'The unit tests evaluate a handful of literal vectors; a wrong component, a swapped operand order or an aliasing bug shows only for other values, dimensions or element types.',
 ['ristra/math/array.h', 'ristra/math/vector.h'],
 [('array operators and accessors', 'ristra/math/array.h')])
prop('M02', 'Fixed multi-dimensional arrays: row-major bijective indexing, exact algebra',
 'For every rank and extent, each multi-index addresses its own element, distinct multi-indices address distinct elements in row-major order, at() rejects exactly the out-of-range indices, and all arithmetic (array or scalar, binary or compound, mixed types, aliased operands) is elementwise. Iteration visits each element exactly once in storage order and nothing outside the array is touched.',
 INP, 'all element values, all multi-indices, ranks 1..4, element types double, float, int and mixed, all aliasings',
 'The tests touch a few indices of one or two shapes; a wrong stride or bound shows only for other shapes or indices.',
 ['ristra/math/multi_array.h', 'ristra/math/matrix.h'], [('index to offset mapping', 'ristra/math/multi_array.h'), ('elementwise operators', 'ristra/math/multi_array.h')])
prop('M03', 'Determinant, inverse and solve satisfy their defining equations',
 'For every square matrix (sizes 1 to 5) the determinant equals the Leibniz expansion; whenever it is non-zero, inverse(A) times A and A times inverse(A) are the identity and solve(A,b) returns the x with A x = b. Inputs passed by const reference are unchanged.',
 INP, 'all real matrices and right-hand sides of each size, non-singular where the result needs it',
 'The tests invert a few literal matrices; a wrong cofactor or sign cancels for symmetric or sparse examples.',
 ['ristra/math/matrix.h'], [('cofactor inverse and determinant', 'ristra/math/matrix.h')])
prop('M04', 'Matrix products, norms, transpose, rotation and exponential obey matrix algebra',
 'For every operand, matrix-vector and matrix-matrix products (including the alpha A x + beta y form), outer product, transpose, trace, identity, double-dot product, matrix norms, and rotation, reflection and projection matrices equal their mathematical definition; rotation matrices are orthogonal with determinant one, and exp(A) agrees with its defining series.',
 INP, 'all real operands, shapes up to 4x4 including non-square, all angles',
 'The tests check a few literal products; index transposition is invisible on square symmetric examples.',
 ['ristra/math/matrix.h'], [('matrix_vector, matrix_multiply, outer_product, rotation_matrix, exponential', 'ristra/math/matrix.h')],
 note='The matrix exponential (data-dependent scaling loop) is a bounded native stand-in, not proved.')
prop('M05', 'Vector products, norms, averages and min/max meet their definitions',
 'dot, cross and triple products, magnitude, delta magnitude, unit vector, normal, reflection, abs, sqr, cube, sgn, sqrt, min/max (elementwise and over a container) and average (variadic, container or iterator range) return the mathematically defined value for every argument and container length, without reading outside the containers or changing their arguments.',
 INP, 'all argument values, all container contents; container lengths 1..4 (stated bound)',
 'Tests sample a few positive values; sign, empty/one-element and integer-division behaviour is not sampled.',
 ['ristra/math/general.h', 'ristra/math/general_impl.h', 'ristra/math/vector.h'], [('free functions', 'ristra/math/general.h')])
prop('M06', 'Tuple arithmetic is componentwise for every arity and type mix',
 'For tuples of any arity and mix of element types, +, -, *, / between tuples or with a scalar on either side, the in-place forms and fill act on each component independently with the componentwise definition, each component exactly once, leaving the other operand unchanged, also when both operands are the same object.',
 INP, 'all component values; arities 1..5; mixed double/int/float and nested vector components',
 'Tests add two literal tuples; order of scalar and tuple operands and last-component handling are not covered for all values.',
 ['ristra/math/tuple.h'], [('recursive component visitors', 'ristra/math/tuple.h')])
prop('G01', 'Polygon area, centroid, midpoint and normal are exact for every polygon',
 'For every triangle, quadrilateral and polygon in 2D or 3D (variadic, iterator and container forms): area is the non-negative shoelace area (3D: the sum of the triangle areas about the vertex mean) and does not depend on orientation, centroid is the area-weighted first moment, midpoint is the vertex mean, normal is the signed area vector; all forms agree and the vertices are unchanged.',
 INP, 'all vertex coordinates of polygons with non-zero area, both orientations, non-convex included; 3 to 8 vertices; double and float',
 'Tests use a few axis-aligned shapes, where a wrong closing edge, weight or sign cancels.',
 ['ristra/geometry/shapes/triangle.h', 'ristra/geometry/shapes/quadrilateral.h', 'ristra/geometry/shapes/polygon.h', 'ristra/geometry/area.h', 'ristra/geometry/centroid.h', 'ristra/geometry/normal.h'],
 [('polygon sums', 'ristra/geometry/shapes/polygon.h'), ('triangle and quadrilateral forms', 'ristra/geometry/shapes/triangle.h')],
 note='Vertex count is bounded (3..8) for the iterator and container forms.')
prop('G02', 'Tetrahedron, hexahedron and polyhedron volume and centroid are exact',
 'For every tetrahedron, hexahedron and polyhedron, volume equals the value given by the divergence theorem over its (triangulated) faces, centroid the volume-weighted first moment, midpoint the vertex mean (polyhedron: mean of the face midpoints); shifting the body shifts the centroid and leaves the volume, and orientation flags of faces are honoured.',
 INP, 'all vertex coordinates (non-zero volume where the centroid needs it), all face orientation flags of the enumerated topologies',
 'Tests use a cube or a unit tetrahedron; a wrong face, sign or weight cancels by symmetry.',
 ['ristra/geometry/shapes/tetrahedron.h', 'ristra/geometry/shapes/hexahedron.h', 'ristra/geometry/shapes/polyhedron.h'],
 [('volume and centroid sums', 'ristra/geometry/shapes/polyhedron.h')],
 note='Polyhedron topologies are enumerated (stated in the contracts); coordinates are unbounded.')
prop('G03', 'Points and space vectors: metric, mean and componentwise algebra are exact',
 'distance is non-negative, symmetric and the Euclidean length; midpoint and centroid are arithmetic means for every list of points and element type; space_vector +, -, *, / and their compound forms (also with the vector itself or one of its own components as operand), dot, magnitude, cross magnitude and normal equal their definition, and operands are unchanged.',
 INP, 'all component values, dimensions 1..4, element types double, float and int, all aliasings; point lists of length 1..6',
 'Tests use a few literals; aliasing, negative integers and higher dimensions are not sampled.',
 ['ristra/geometry/point.h', 'ristra/geometry/space_vector.h', 'ristra/utils/dimensioned_array.h'],
 [('point functions', 'ristra/geometry/point.h'), ('compound operators', 'ristra/utils/dimensioned_array.h')])
ELC=['ristra/elements/elements.cc', 'ristra/elements/elements.h']
prop('E01', 'Element shape functions: partition of unity, nodal, linearly complete',
 'For every fixed-order element (Quad 4/8/12, Hex 8/20/32, Tess 16) and every reference point, the shape functions sum to one, reproduce the reference coordinates, and are one at their own documented node and zero at every other; physical_position is the shape-function-weighted sum of the vertices for arbitrary vertices, whatever the output held before, and inputs are unchanged.',
 INP, 'all reference points (inside or outside the element), all vertex coordinates',
 'The example test evaluates at the origin on one reference mesh, where most terms vanish.',
 ELC, [('basis, physical_position, ref_vert tables', 'ristra/elements/elements.cc')])
prop('E02', 'Shape-function partials are the exact derivatives of the shape functions',
 'For every fixed-order element and every reference point, partial_xi/eta/mu/tau_shape_fcn return for each node the partial derivative of that node\'s shape function along that coordinate.',
 INP, 'all reference points, all nodes, all directions',
 'The test evaluates at one point where wrong factors vanish; a derivative identity needs all points.',
 ELC, [('partial_*_shape_fcn', 'ristra/elements/elements.cc')])
prop('E03', 'Jacobian, its determinant and its inverse satisfy their defining equations',
 'jacobian/jacobian4D return J[j][k] = sum over nodes of vertex[k]*partial[j] and its determinant in 2, 3 and 4 dimensions, reading only the entries the dimension has; jacobian_inverse_2d/3d/4d return the matrix whose product with J on either side is the identity whenever J is non-singular. Inputs are unchanged.',
 INP, 'all vertices and partials, all non-singular matrices; 1 to 20 nodes',
 'Tests print a few Jacobians of a regular mesh (diagonal matrices) and compare nothing.',
 ELC, [('jacobian, jacobian4D, jacobian_inverse_*', 'ristra/elements/elements.cc')],
 note='Number of nodes bounded (1..20); the matrices are arbitrary.')
prop('E04', 'Arbitrary-order Lagrange elements interpolate and differentiate exactly',
 'For any distinct 1D nodes, lagrange_1D returns the Lagrange polynomials and their exact derivatives at any point; Chebyshev nodes are strictly increasing from -1 to 1; QuadN/HexN basis_partials is the tensor product (xi fastest) with exact partials and node grid, physical_position the basis-weighted node sum independent of the output\'s old value, corners the extreme nodes.',
 INP, 'all distinct node sets, all points, orders 0..4 (lagrange_1D up to 6 in thorough), Chebyshev orders 0..12',
 'The test uses one order and one node set and only prints.',
 ELC, [('QuadN, HexN members', 'ristra/elements/elements.cc')], note='Element order bounded; nodes and points arbitrary (for the higher 2D/3D orders the nodes are fixed, points arbitrary).')
prop('E05', 'Gauss and Lobatto quadrature rules have their full degree of exactness',
 'For every order p from 1 to 8 the Gauss line rule integrates every polynomial of degree 2p-1 and the Lobatto rule (p>=2) degree 2p-3 to within 1e-14, with distinct points in [-1,1], positive weights and, for Lobatto, both end points; the 2D/3D/4D rules are the tensor products of the line rule and total weights the products of the directional weights.',
 INP, 'every order 1..8 of the line and 2D rules, orders 1..4 (3D, thorough 8), 1..3 (4D, thorough 5); every point; exactness over all polynomials of the degree by linearity',
 'The test integrates one low-degree polynomial at one order, which a wrong high-order point or weight passes.',
 ELC, [('LineGaussRuleInfo, LineLobattoRuleInfo, Gauss2D..Lobatto4D', 'ristra/elements/elements.cc')])
prop('U01', 'fixed_vector behaves as a sequence of bounded length under every operation',
 'From every state (any length up to the capacity, any contents) each operation on a fixed_vector (construct, copy, move, swap, assign, element access, at, iterate forwards and backwards, insert of a value, count, range or list, erase of one or a range, push/emplace/pop, clear, resize, ==) has exactly the effect and result of the same operation on a sequence, also when the argument is one of its own elements and for elements with user-defined copy and move; nothing outside the storage is touched.',
 ['inputs', 'histories'], 'all contents, lengths 0..N, positions, counts, all operation histories (by induction over operations from an arbitrary state); capacities 3, 4, 5; int, double and a non-trivial element type',
 'Tests run one short history on ints; overlapping shifts, own-element arguments and empty ranges need particular states and element types.',
 ['ristra/utils/fixed_vector.h'], [('insert, erase, assign, resize', 'ristra/utils/fixed_vector.h')])
prop('U02', 'array_ref and fixed strings denote exactly the range they were given',
 'An array_ref built from a pointer and length, C array, std::array, vector or string denotes exactly those elements; at() throws exactly when out of range; substr, remove_prefix/suffix, pop, clear, copy and conversion denote exactly the documented sub-range for any position and count (also beyond the end); const_string and trivial_string return the characters they were made from, null terminated and truncated to the capacity, and never touch memory outside it.',
 INP, 'all windows, positions and counts (64-bit), all contents; conversions to vector and string up to length 5, trivial_string sources up to length 7',
 'These headers have no unit tests; clipping at the ends and over-long strings need particular sizes.',
 ['ristra/utils/array_ref.h', 'ristra/utils/const_string.h', 'ristra/utils/trivial_string.h'], [('substr, at, remove_*', 'ristra/utils/array_ref.h'), ('to_trivial_string', 'ristra/utils/trivial_string.h')],
 note='array_ref and const_string are proved for all windows and indices; to_trivial_string for source lengths up to 7.')
prop('U03', 'String utilities: path parts, replacement, splitting, padding are exact',
 'basename is what follows the last separator; file_extension, remove_extension and split_extension cut at the last dot of the file name only (never in a directory name) and agree with each other; replace_all replaces every non-overlapping occurrence left to right and nothing else, and terminates for every search string; split returns the maximal runs free of delimiters (white space always delimits) in order, for any delimiter characters; num_digits and zero_padded give the decimal length and padded text of every number.',
 INP, 'all character values; path length up to 5 (thorough 8), replace_all strings up to 4/2/3 characters; all 32-bit numbers for num_digits, zero_padded (padding 0..14) and to_string; split texts up to 3 and delimiter lists up to 2 characters over a 5-letter alphabet with a non-ASCII one, ASCII texts up to 7 for to_wstring',
 'This header has no unit tests; dots in directories, empty search strings, overlapping matches and non-ASCII delimiters need particular strings.',
 ['ristra/utils/string_utils.h'], [('string functions', 'ristra/utils/string_utils.h')],
 note='String lengths bounded. split, zero_padded and to_string are verified against the assumed stream model contracts/model/iosmodel.h, to_wstring against an assumed ASCII mbstowcs; the same contracts run natively against the real library with longer texts.')
prop('U04', 'Tuple and static traversals visit every element exactly once, in order',
 'tuple_for_each, tuple_visit (one or several tuples, named or temporary callable, which is returned with its state) and static_for call the callable exactly once per position, in order, with the very elements (writes reach the tuple); tuple_zip pairs equal positions by value, tuple_tie and ctie by reference; to_array, make_array, fill and multiply return exactly the listed, repeated or multiplied values. Nothing else is changed.',
 INP, 'all element values and callables observing address, order and count; arities 1..6, static_for 0..20',
 'Tests print; order, count and reference semantics for other arities and type mixes are not compared.',
 ['ristra/utils/tuple_for_each.h', 'ristra/utils/tuple_visit.h', 'ristra/utils/tuple_zip.h', 'ristra/utils/tuple_to_array.h', 'ristra/utils/static_for.h', 'ristra/utils/template_helpers.h'],
 [('visitors', 'ristra/utils/tuple_visit_impl.h')])
prop('U05', 'zip, simple_task and filter_iterator yield exactly the right elements in order',
 'zip over any number of equally long containers visits each position once, in order, every time it is iterated, giving references to the elements of that position; begin equals end exactly when empty; simple_task calls its function once per position with those elements; a filter range yields exactly the elements satisfying the predicate, in order, for any predicate and range, including empty, none and all matching, with pre- and post-increment, swap and conversion. Containers are otherwise unchanged.',
 INP, 'all contents and predicate outcomes; container lengths 0..4; one to four containers of vector, list and array',
 'Tests zip one literal set; filter_iterator has no test.',
 ['ristra/utils/zip.h', 'ristra/utils/zip_impl.h', 'ristra/utils/tasks.h', 'ristra/utils/filter_iterator.h'], [('zip iterator', 'ristra/utils/zip_impl.h'), ('advance', 'ristra/utils/filter_iterator.h')],
 note='Container length bounded (0..4), contents arbitrary.')
prop('U07', 'Set intersection, duplicate removal, functors and time split are exact',
 'unsorted_set_intersection appends to the output, in sorted order, every common item as often as it occurs in both ranges, returns the end of the output and leaves the inputs alone; remove_duplicates collapses each run of equal items to one and keeps the order; plus, minus, multiplies, divides equal the built-in operation also for mixed types; daysHoursMinutesSeconds splits every number of seconds into parts within their units, of its sign, that add up to it.',
 INP, 'all values; range lengths 0..2 (intersection), 0..5 (duplicates); every 64-bit number of seconds',
 'These headers have no unit tests; multiplicities, empty ranges and negative or huge times are not sampled.',
 ['ristra/utils/algorithm.h', 'ristra/utils/functional.h', 'ristra/utils/time_utils.h'], [('algorithms', 'ristra/utils/algorithm.h'), ('daysHoursMinutesSeconds', 'ristra/utils/time_utils.h')],
 note='Range lengths bounded; get_wall_time is a native stand-in.')
prop('A01', 'Every atomic operation is one indivisible update under all interleavings',
 'For every value type, operation (add, sub, mul, div, mod, shifts, and/or/xor, min, max, pre/post increment and decrement), call form (free function, member, operator, scheme override, volatile) and scheme (cpp, strong, weak, strong::pun, weak::pun, lock), whatever other threads do to the variable in between: the variable changes in exactly one step, from some value v to op(v), and the value returned is the one that step gave. No update is lost or applied twice, also when a weak compare-exchange fails spuriously; lock uses one mutex per atomic type, always released. The serial scheme gives the same results in one thread.',
 ['inputs', 'schedules'], 'all values, all interleavings with arbitrarily many other threads (rely: any write by others between any two steps; lock: other threads hold the mutex), any number of retries',
 'The tests run a few threads adding constants; a lost update, a result read after the step or a spurious failure needs a particular interleaving.',
 ['ristra/atomics/src/atomics.h', 'ristra/atomics/src/atomics-macro-class.h', 'ristra/atomics/src/atomics-macro-class-prepost.h', 'ristra/atomics/src/atomics-macro-function.h', 'ristra/atomics/src/atomics-macro-member.h', 'ristra/atomics/src/atomics-macro-operator.h'],
 [('apply (per scheme)', 'ristra/atomics/src/atomics.h'), ('operation functors', 'ristra/atomics/src/atomics-macro-class.h')],
 note='Rely/guarantee: retry loops are closed by induction (state subsumption). Kokkos scheme not built here. Runs with real threads are bounded stand-ins beside the proof.')
prop('A02', 'Atomic operations take effect with at least the memory order asked for',
 'Every overload that takes one or two std::memory_order arguments performs its update with at least the success order requested (all six orders; seq_cst when none is given) and its failed attempts with at least the failure order requested, on the same single-step semantics as the overloads without an order, for free functions and members of the cpp, strong, weak, strong::pun and weak::pun schemes.',
 ['inputs', 'schedules'], 'all values, all memory-order arguments that std::atomic admits, all interleavings',
 'On x86 a dropped or swapped memory order is invisible to any test; only the emitted order shows it.',
 ['ristra/atomics/src/atomics.h', 'ristra/atomics/src/atomics-macro-function.h', 'ristra/atomics/src/atomics-macro-member.h'],
 [('apply overloads with orders', 'ristra/atomics/src/atomics.h')])
prop('U06', 'Multi-dimensional views address, iterate, slice and compare exactly',
 'index_t arithmetic and comparison are componentwise. For strided, contiguous and static bounds of any extents, built in every documented way: contains() holds exactly for the indices inside, size() counts them, linearize() is the sum of index times stride (row-major where no strides are given; distinct indices get distinct offsets below size()), iteration visits each index once in row-major order, and jumps, distances and comparisons of iterators agree with counting steps. A view (array_view, strided_array_view, static_array_view, from pointers, arrays or containers) shows exactly the element at that offset through [], (), at() and iterators in both directions; at() and slice() throw out_of_range exactly outside; slices, sections, conversions, swap and clear show the same elements; comparisons are those of the element sequences.',
 INP, 'ranks 1..3; all index values; extents up to 1000 and all strides up to 1000 for addressing, slices, sections, conversions and one iteration step; whole iterations, jumps and comparisons for extents up to 4, 3 x 3, 2 x 2 x 2',
 'The unit test of this header is not even built by default and samples a few literal shapes; iteration over zero extents, sections with gaps and jumps past the end are not sampled.',
 ['ristra/utils/array_view.h'], [('bounds_iterator', 'ristra/utils/array_view.h'), ('strided_bounds, contiguous_bounds', 'ristra/utils/array_view.h'), ('views', 'ristra/utils/array_view.h')],
 note='Steps, addressing and slicing are proved for all extents (up to 1000, 10^6 for steps); whole iterations, random access and comparisons are bounded by shape. array_view.h needs C++17.')
prop('D01', 'Assertion macros act exactly when their condition fails, and only then',
 'For every operand value: with RISTRA_REQUIRE_ON, Equal, NotEqual, InOpenRange, GreaterThan, GreaterEqual, LessThan, OneOf, Require, Check and Ensure (and Insist always, on or off) return or test exactly the documented condition, evaluate it once, and invoke the configured action exactly once when it fails and never when it holds: throw mode throws std::logic_error, notify mode writes one message to *p_str and continues, nothing mode continues. The action receives the documented text and the file, function and line of the caller. With the guard off, Require, Check and Ensure evaluate nothing and the comparisons return their plain value without any action. THROW_*_ERROR raises the exception class it names after reporting, assert_true raises only when its condition is false, and each exception class is the std::runtime_error or std::logic_error it documents.',
 INP, 'all int and double operands (no NaN); sets up to 2 members for OneOf; message texts for a few numbers of up to four digits',
 'The tests sample literal operands in one build configuration; the throw, notify and off configurations are compile-time variants which one test binary cannot all exercise.',
 ['ristra/assertions/dbc.h', 'ristra/assertions/dbc_impl.h', 'ristra/assertions/dbc_impl.cc', 'ristra/assertions/errors.h', 'ristra/assertions/exceptions.h', 'ristra/assertions/here.h'],
 [('the _func assertions', 'ristra/assertions/dbc.h'), ('assertf, assertf_l, build_message', 'ristra/assertions/dbc_impl.h'), ('THROW_ macros', 'ristra/assertions/errors.h')],
 note='Five configurations are each verified. Output streams are an assumed contract (contracts/model): operator<< appends the decimal text or characters. Texts containing numbers are bounded to a few numbers.')
prop('L01', 'Values cross the Lua boundary unchanged, misuse throws, the Lua stack is kept',
 'For every Lua value and every stack around it: converting to int, long, short, unsigned, size_t, float, double, bool, string, vector, array, math::vector, nested vector or a matrix succeeds exactly when the Lua value has that meaning (a whole number for integers, a table of convertible elements of the right size for containers) and then yields exactly that value, embedded nul characters included; otherwise it throws std::runtime_error. What lua_push pushes, lua_value reads back. A lookup of a missing field is empty(), a lookup in something that is not a table throws, as(default) gives the default exactly for nil. A call passes its arguments in order (an array as one argument per element), gives the results in order, and throws exactly when the callee is no function, fails, or gives nothing or nil last; tuples convert exactly when number and kinds fit. Every lookup, call and conversion through lua_t and lua_result_t, whether it returns or throws, leaves the Lua stack as it was and breaks no precondition of the Lua C API; a push needs no more than the one slot its caller has checked for, and a call asks for every slot it uses. A result refers to the value it was made from, shares its registry reference with its copies, releases it with the last one, and keeps the Lua state alive exactly as long as any result, state or function wrapper uses it. run_string throws exactly for a script that fails.',
 INP, 'integers of 53 bits, all doubles below 1e15, a few strings; stacks of up to two other values; tables of up to three elements',
 'The tests read a handful of well-formed values from one script; a value of the wrong kind, a stack that is not empty or a result that outlives its state is never tried.',
 ['ristra/embedded/embed_lua.h'],
 [('lua_value', 'ristra/embedded/embed_lua.h'), ('lua_push', 'ristra/embedded/embed_lua.h'), ('lua_ref_t, lua_result_t, Lua_Func_Wrapper, lua_t', 'ristra/embedded/embed_lua.h')],
 note='liblua is an assumed contract (contracts/luamodel.h, written from section 4 of the reference manual: no metatables, coroutines or garbage collection); the native confirmation runs the real liblua. as<ristra::math::matrix>() does not compile with either compiler, so the matrix conversion is verified for another matrix template.')
prop('I01', 'Inputs resolve to what their sources hold, Lua before hard coded',
 'For every mix of registered targets, sources and values: resolve_inputs gives each registered target the value of the Lua source, and the hard coded value where the Lua source has none or there is no Lua source; it returns true exactly when every target of every type was found, and the failed targets of a type are exactly those the last resolve did not find. Names are per type: a target of one type neither resolves nor hides the same name of another. Resolving again gives the same values again (the sources keep theirs) and picks up a source that changed or was registered since, functions included. resolved() and get_value agree: an unresolved value throws std::domain_error. get_instant_value gives the value a resolve would, and throws std::runtime_error exactly when no source has it. A Lua value of the wrong kind throws. A function input calls the function of its source with the given argument. register_value and register_table report what they displace, and the new table and Lua key then count. An init_value_t registers its full name; get gives the resolved value exactly when it is resolved and its validator accepts it and throws otherwise; valid() and status() say so. clear_registry forgets targets, values and failures of every type. input_t gives what its loaded Lua file holds, throws std::runtime_error from the checked accessors exactly for what the file lacks, and a file that cannot be loaded throws and changes neither name nor values.',
 INP, 'all doubles, integers of 53 bits, three texts and functions x -> x + c; two targets, one Lua file layout',
 'The tests resolve one problem from each source, once; the combinations, repeated resolves, re-registered sources and validators are not tried.',
 ['ristra/initialization/input_engine.h', 'ristra/initialization/input_source.h', 'ristra/initialization/init_value.h', 'ristra/initialization/inputs_impl.h', 'ristra/initialization/input.h', 'ristra/embedded/embed_lua.h'],
 [('resolve_inputs_, resolve_input_, value_getter', 'ristra/initialization/input_engine.h'), ('hard_coded_source_t, lua_source_t', 'ristra/initialization/input_source.h'), ('init_value_t', 'ristra/initialization/init_value.h')],
 note='A key the Lua source has no table for throws (as the code does); what becomes of a value that a later resolve no longer finds is left open. liblua is an assumed contract (contracts/luamodel.h); the native confirmation runs real Lua files.')
prop('P01', 'Embedded Python: values pass exactly, references balance, every failure throws',
 'For every value and at every point where Python can fail: python_get_value makes a new Python int of an int or long and a float of a double, of exactly that value; python_call_function calls a callable once with exactly the given arguments in order (any number, none included), returns what it returned, and throws std::runtime_error exactly when the object is not callable, the function raises, or Python fails while the arguments are built or the call is made. python_as_long gives the value of an int and the truncated value of a float, python_as_double the value of either, and both throw for anything else (text, an int too large). python_get_tuple_element and python_set_tuple_element address exactly that element and throw for an index out of range, setting also for a shared tuple. python_import and python_get_attribute give the named module or attribute or throw. python_add_to_path puts the path first, keeps the others in order and hands out a reference of its own. Whether a function returns or throws, no Python error is left pending and every reference it took is given back, except the one it returns; python_free releases that one. python_initialize throws exactly when the interpreter does not start.',
 INP, 'all ints, longs and doubles; zero to four arguments of mixed types; each call into Python failing in turn; tuples of up to three elements, all indices',
 'The test calls one function that succeeds; failures inside Python, reference counts and pending errors are never looked at, and each failure point needs its own run.',
 ['ristra/embedded/embed_python.h'],
 [('python_call_function, python_build_args', 'ristra/embedded/embed_python.h'), ('python_as_long, python_as_double, python_get_value', 'ristra/embedded/embed_python.h'), ('python_import, python_add_to_path, python_get_attribute', 'ristra/embedded/embed_python.h')],
 note='libpython is an assumed contract (contracts/pymodel.h, written from the Python/C API reference: reference ownership, error indicator, failure of any call); the inline parts of Python.h are verified as they are. The native confirmation runs the real libpython, with the calls of the header failing at the same point by macro and leaks seen through sys.getallocatedblocks.')
prop('C01', 'Registered command line arguments parse to the given values or report an error',
 'For every set of registered groups and arguments and every command line: process_arguments gives each registered option its value and leaves unknown ones alone, reports an error exactly when a registered option is malformed, and as(name, default) gives the default exactly for an option that was not given.',
 INP, 'all registrations and command lines', 'There is no test of this header.', ['ristra/initialization/arguments.h'], [('command_line_arguments_t', 'ristra/initialization/arguments.h')])
NA.append(('C01', 'arguments.h is a thin layer over boost::program_options: parsing, storing and the variables map are in the compiled library, whose source is not here; a contract could only assume the behaviour the property states.'))
prop('V01', 'The Catalyst adaptor hands the mesh and its fields to VTK unchanged',
 'For every mesh and field, the grid handed to ParaView Catalyst has the same points, cells and field values.',
 INP, 'all meshes and fields', 'There is no test of this directory.', ['ristra/io/catalyst/adaptor.h', 'ristra/io/catalyst/vtk/unstructuredGrid.h'], [('adaptor', 'ristra/io/catalyst/adaptor.h')])
NA.append(('V01', 'needs the VTK and ParaView Catalyst headers, which are not installed: the code cannot be compiled here, so no verification condition can be generated from it.'))
