p('C01', 'Flat maps and sets keep sorted unique keys and behave as maps and sets',
  'After any construction, insertion, keyed assignment or removal a flat map or set holds each key at most once, in ascending order. Lookup, membership, counting and lower/upper bounds answer exactly as for a mathematical map or set, a first insertion wins over later ones of the same key, and every operation leaves all other keys and their values untouched.',
  'every content of any size, every key and value, every operation on it', 'Tests insert a handful of keys in one order; ordering and uniqueness must survive every content, key position and duplicate.',
  'xo/container/flat_map.h xo/container/flat_set.h', [('binary search lookup and ordered insertion', 'xo/container/flat_map.h: lower_bound, find, insert, operator[], erase'), ('set counterpart', 'xo/container/flat_set.h: find, insert, erase')], ('inputs', 'histories'), state=[('sorted storage', 'keys strictly ascending', 'xo/container/flat_map.h data_')])
p('C02', 'A sorted vector is always sorted and loses or duplicates no element',
  'A sorted vector contains its elements in ascending order after construction, insertion and removal of a value. Insertion adds exactly the given element, behind equal ones, and returns it; removing a value removes all and only the equal elements; lookup finds the first equal element exactly when there is one.',
  'every content of any size, every value', 'Tests sort one small list; the multiset semantics concern every content and duplicate pattern.',
  'xo/container/sorted_vector.h', [('upper-bound insertion, equal-range search and removal', 'xo/container/sorted_vector.h: insert, find, remove')], ('inputs', 'histories'))
p('C03', 'Circular deque and frame buffer behave as queues across every wrap-around',
  'A circular deque behaves as a double-ended queue: pushing and popping at either end affects only that end, growth keeps all elements in order wherever the storage currently wraps, and indexing, front, back, iteration and distance agree. A circular frame buffer returns frames in the order they were written, reports emptiness and fullness correctly, advancing drops the oldest frame only when it is full, and it cannot be resized after data was stored.',
  'every capacity, head position, size and history of pushes and pops', 'Tests run one short sequence; wrap positions combine with capacity and size without bound.',
  'xo/container/circular_deque.h xo/container/circular_buffer.h', [('modular indexing and re-linearising growth', 'xo/container/circular_deque.h: push_back, push_front, reserve, operator[]'), ('head/tail arithmetic', 'xo/container/circular_buffer.h: add_frame/advance/get')], ('inputs', 'histories'), state=[('front and size', 'position of the first element and number of elements', 'xo/container/circular_deque.h')])
p('C04', 'Handles and insertion-order indices keep naming the element they were given for',
  'In insertion-ordered maps and sets, handle vectors and typed collections, an index or handle returned for an element keeps naming that element while others are added, positional access and lookup by key or handle are inverse to each other, and unknown keys are reported as such. Keys stay unique in insertion order, erasing shifts only the elements behind the erased ones, and adding to an indexed set fails, changing nothing, exactly when no index is left.',
  'every content of any size, every key, index, handle and span', 'Tests name a few elements; the relation between indices and elements is quantified over every content and position.',
  'xo/container/indexed_map.h xo/container/indexed_set.h xo/container/handle_vector.h xo/container/handle.h xo/container/collection.h xo/container/collection_ic.h', [('linear lookup with appended storage', 'xo/container/indexed_map.h: insert, find, operator[]'), ('index map next to the list', 'xo/container/indexed_set.h: find_or_add'), ('index wrapped in a typed handle', 'xo/container/handle_vector.h; xo/container/collection_ic.h')], ('inputs', 'histories'))
p('C05', 'Storages and tables keep every value under its labels while they grow',
  'Adding frames or channels to a storage, or rows or columns to a table, keeps every existing value at its frame and channel (row and column), fills new cells with the given default, and shrinking or out-of-range access is refused without change. Labels and positions are inverse to each other, adding a used label is refused, and relabelling replaces exactly one label. An interpolated frame lies on the line between the two neighbouring frames.',
  'any number of frames and rows, any values, a few fixed channel and column counts', 'Tests fill one small storage; preservation must hold for every shape and content.',
  'xo/container/storage.h xo/container/table.h xo/container/label_vector.h', [('re-layout when the number of channels or columns changes', 'xo/container/storage.h: add_channel, resize; xo/container/table.h: resize'), ('label to index map', 'xo/container/label_vector.h: add, set, find')], ('inputs', 'histories'), note='Channel and column counts are fixed per contract (0 to 3); frames, rows and values are unbounded.')
p('C06', 'Searching a storage for a value in a sorted channel returns the nearest frame',
  'For a channel with ascending values, the frame found for a value is one whose value is nearest to it, for values before, between and beyond the stored ones, and an empty storage has no nearest frame. Vectors and quaternions written to a group of channels of a frame read back unchanged, leaving other channels alone.',
  'any number of frames, any ascending channel, any searched value', 'Tests search a few values in one storage; nearness is quantified over every spacing and position.',
  'xo/container/storage_tools.h', [('binary search then neighbour comparison', 'xo/container/storage_tools.h: find_frame_index'), ('grouped channel access', 'xo/container/storage_tools.h: set_vec3, get_vec3, set_quat, get_quat')], note='Channel counts 1 to 3 are fixed per contract; frames are unbounded.')
p('C08', 'A flag set behaves as a mathematical set of flags',
  'Raising, lowering, assigning and toggling a flag, singly or by list, changes exactly the named flags and no other. Reading, counting, testing for any flag and equality agree with membership, and the static (value) operations agree with the member operations.',
  'all contents of the underlying word, all flags and short flag lists', 'Tests set two or three flags; non-interference concerns all flags and all words.',
  'xo/container/flag_set.h', [('bit masks', 'xo/container/flag_set.h: set, clear, toggle, get')])
p('C09', 'Container helpers agree with their mathematical meaning for every sequence',
  'Searching, counting, existence tests, copying (checked, casting, by range), appending, filtered views, pairwise iteration, folding and for-each visit exactly the elements they should, in order, and return what the definition says: first match, number of occurrences, existence, concatenation. Copying into a smaller target and dereferencing a missing match are refused.',
  'sequences of any length and content, any value or predicate', 'Tests use short lists; first match, order and completeness are quantified over every length.',
  'xo/container/container_tools.h xo/container/container_algorithms.h xo/container/view_if.h xo/container/zip.h', [('forwarding to standard algorithms and hand-written loops', 'xo/container/container_tools.h; xo/container/container_algorithms.h'), ('filtering and zipping iterators', 'xo/container/view_if.h; xo/container/zip.h')])
p('N01', 'Scalar helpers return what their definition says for every value',
  'Minima, maxima, clamping (hard, soft, smooth), wrapping, positive modulo, square and triangle waves, sign, byte rounding, powers, parity, power-of-two test, digit count and greatest common divisor satisfy their defining equations for every argument: a clamped value is the nearest one in range, a wrapped value lies in the range and differs by whole periods, waves are periodic, even and in range. Softly and smoothly clamped values stay within bounds, are unchanged away from them and are monotone; approximate comparisons are reflexive and exactly one of less, equal and greater holds.',
  'all real (exact arithmetic) and integer arguments in the documented ranges', 'Tests evaluate sampled points; range boundaries, negative arguments and wrap points are endless.',
  'xo/numerical/math.h xo/numerical/functions.h xo/numerical/compare.h xo/numerical/delta.h', [('piecewise definitions', 'xo/numerical/math.h: clamped, soft_clamped, wrapped, round_cast'), ('periodic functions', 'xo/numerical/functions.h: square_wave, triangle_wave')])
p('N02', 'Numeric ranges: membership, violation, clamping, extension and inversion agree',
  'A value is inside a range exactly when it is between its bounds, its violation is the signed distance to the range, and clamping removes exactly the violation. Extending a range by a value or range yields the smallest enclosing range, inversion contains exactly the negated values, and soft clamping stays inside. A bounded value always lies in its bounds: construction and assignment accept exactly the values inside.',
  'all ranges and values, integer and real', 'Tests probe one range; the algebra is quantified over all ranges and values.',
  'xo/numerical/bounds.h xo/numerical/bounded.h', [('min/max arithmetic', 'xo/numerical/bounds.h: is_within, get_violation, clamp, extend'), ('checked assignment', 'xo/numerical/bounded.h')])
p('N03', 'Interpolated and piecewise functions pass through their data',
  'Linear interpolation passes through its end points, stays between them and is monotone; map and sequence interpolation follow the line through the neighbouring data and hold the first and last value outside. Piecewise constant and linear functions return the value of the last point or the line through the neighbouring points (extended beyond the ends) for any argument, and an inserted point becomes part of the function without moving others. A regularly sampled function has equally spaced samples of the original, and empty data are refused.',
  'any number of data points with any spacing, any argument', 'Tests evaluate a few points of one curve; correctness at and around every knot is quantified over all data.',
  'xo/numerical/interpolation.h xo/numerical/piecewise_constant_function.h xo/numerical/piecewise_linear_function.h xo/numerical/regular_piecewise_linear_function.h', [('upper-bound lookup and linear blend', 'xo/numerical/piecewise_linear_function.h: operator(); xo/numerical/interpolation.h')])
p('C07', 'Dynamic arrays, vectors and matrices own independent elements, computed singly',
  'A dynamic array of any size holds exactly the elements given, copies and moves own their elements (writing to a copy leaves the original alone, a moved-from array is empty), checked access refuses exactly the indices outside, and equality is equality of size and elements. Vector addition, subtraction, scaling, division and negation work element by element and refuse different sizes, and products, lengths and distances sum over the elements. Matrix cells are independent, a matrix times a vector follows its definition, and resizing keeps the common part and zeroes the rest.',
  'arrays and vectors of any size and content; matrices of fixed shapes', 'Tests use one or two small arrays; ownership and elementwise meaning concern every size, index and content.',
  'xo/container/dynarray.h xo/geometry/dynvec.h xo/geometry/dynmat.h', [('owned storage with copy and move', 'xo/container/dynarray.h'), ('elementwise loops', 'xo/geometry/dynvec.h; xo/geometry/dynmat.h')], ('inputs', 'histories'), note='Products and matrices are proved per fixed size (0 to 3).')
p('N04', 'Vector algebra in three and four dimensions, scales and angles obey their laws',
  'Vectors add, subtract, scale and multiply component by component; dot and cross products, lengths, distances, averages, projections and component-wise clamping equal their definitions, the cross product is orthogonal to both factors. Normalising keeps the direction and returns length one for every nonzero vector and leaves the null vector, and equality, null and unit-length tests agree with their definitions. Scales multiply, divide and compose component by component, angles convert consistently between radians and degrees, and a vector from polar form has the given radius and direction.',
  'all vectors with real components', 'Tests check a few vectors; the identities are quantified over all of them.',
  'xo/geometry/vec3.h xo/geometry/vec4.h xo/geometry/scale3.h xo/geometry/angle.h xo/geometry/vec3_type.h xo/geometry/vec4_type.h xo/geometry/angle_type.h', [('component formulas', 'xo/geometry/vec3.h; xo/geometry/vec4.h'), ('unit conversion', 'xo/geometry/angle.h')], note='Real arithmetic is exact in the proofs; rounding is left to the native runs with a tolerance.')
p('N05', 'Quaternions and rotation matrices are rotations, consistent in every form',
  'A unit quaternion rotates vectors preserving dot products, the product of quaternions composes rotations, and the inverse undoes them. Conversions from and to rotation matrices, axis and angle, rotation vectors, Euler angles in each of the six orders, two directions and two quaternions describe the same rotation in both directions, and the rotation around an axis and the remaining swing multiply back to the original. Normalisation gives unit quaternions with the same direction.',
  'all unit quaternions, vectors, axes and angles', 'Tests convert sampled rotations; sign branches and singular regions only show for special inputs.',
  'xo/geometry/quat.h xo/geometry/quat_type.h xo/geometry/mat33.h xo/geometry/mat33_type.h', [('quaternion products and conversions', 'xo/geometry/quat.h'), ('matrix products', 'xo/geometry/mat33.h')], note='Real arithmetic is exact in the proofs; sine, cosine and arcus functions are constrained by their defining identities.')
p('N06', 'Rigid transforms and mirroring form a consistent group of isometries',
  'A transform rotates and then translates points, preserves distances, composes associatively with points and orientations, and its inverse and inverse-transform operations undo it exactly. Mirroring flips the documented components, is its own inverse, and commutes with rotation, transformation and composition, while cross products (axial vectors) mirror with opposite sign; mirrored ranges contain exactly the mirrored values.',
  'all rigid transforms, points, orientations and ranges', 'Tests transform single points; group laws are quantified over all transforms.',
  'xo/geometry/transform.h xo/geometry/mirror_tools.h', [('rotation then translation', 'xo/geometry/transform.h'), ('component sign flips', 'xo/geometry/mirror_tools.h')])
p('N07', 'Shapes have the volume, inertia, size and bounds of the solids they name',
  'Volume, moments of inertia and dimensions of spheres, boxes, cylinders, cones and capsules equal the closed formulas of those solids, scaling a shape scales its dimensions, a merged bounding box is the smallest box enclosing its parts, and the bounds of a rotated box enclose all its corners tightly. Surface points computed from a shape lie on its surface, the intersection of a line and a plane lies on both, and a shape of unknown kind answers like the solid it holds.',
  'all positive sizes, positions and orientations', 'Tests evaluate one shape of each kind; formulas and enclosure hold for all sizes and orientations.',
  'xo/shape/shape.h xo/shape/shape_tools.h xo/shape/box.h xo/shape/sphere.h xo/shape/cylinder.h xo/shape/cone.h xo/shape/capsule.h xo/shape/plane.h xo/shape/aabb.h', [('closed formulas', 'xo/shape'), ('dispatch over the alternatives', 'xo/shape/shape.h')])
p('N11', 'Lines, segments, paths and splines: nearest points, lengths and interpolation',
  'The closest points of two lines lie on their lines and their connection is orthogonal to both, also for parallel lines; the distance from a point to a segment is that to its nearest point. The length of a path is the sum of the distances between its points, and a point inserted at a length lies on the segment reaching it, all other points staying in order. A spline segment runs from its second to its third point along the Catmull-Rom polynomial, and a spline passes through its points at their times; too few points or times are refused.',
  'all lines, segments and points; paths and splines with any number of points', 'Tests check single lines; degenerate directions, knots and the segment that is hit vary without bound.',
  'xo/geometry/line.h xo/geometry/segment.h xo/geometry/path_alg.h xo/geometry/catmull_rom.h', [('closed-form projections', 'xo/geometry/line.h; xo/geometry/segment.h'), ('accumulated length', 'xo/geometry/path_alg.h'), ('knot search', 'xo/geometry/catmull_rom.h')])
p('S01', 'Parts, prefixes, suffixes, trimming and case of strings are what they say',
  'Starts-with, ends-with and contains are true exactly when the characters match at that place, and the first occurrence is found. Left, middle and right parts and strings trimmed on either side are exactly the named part of the text for every count, including negative ones, zero and beyond the end; a copy into a buffer is terminated and never overruns it. Character replacement and case conversion change exactly the characters concerned (ASCII letters), one by one.',
  'strings of any length and content, any count', 'Tests use a few short texts; empty texts, counts beyond the end and characters at the boundary are quantified over every string.',
  'xo/string/string_tools.h xo/string/string_tools.cpp', [('substr and find arithmetic', 'xo/string/string_tools.h; xo/string/string_tools.cpp')])
p('S02', 'Splitting and joining strings loses and invents no characters',
  'Splitting a text at separator characters yields its non-empty words between separators, in order; splitting at the first or last separator gives the text before and behind it. A key-value text is divided at the first separator, both sides trimmed. Joining texts puts the delimiter exactly between those that are not empty, and appending keeps the existing text and adds the delimiter only where it is needed.',
  'strings of any length for the two-part splits and joins; all short strings for the full split', 'Tests split one text; leading, trailing, repeated and missing separators are quantified over every string.',
  'xo/string/string_tools.h xo/string/string_tools.cpp', [('find/substr loops', 'xo/string/string_tools.cpp: split_str, split_str_at_first, concat_str, append_str')], note='The full split into words is checked on every string up to the bound (labelled bounded); everything else is proved.')
p('S03', 'Replacing text, finding the nth occurrence and matching patterns are exact',
  'The nth occurrence of a text is the first one behind the previous, and none is reported only if there are fewer. Replacing a text replaces every occurrence from left to right and nothing else, also when the replacement contains the searched text; searching for an empty text is refused and a text without the searched part is left alone. Patterns match the whole text, with * for any part and ? for any character, and a matcher with several patterns accepts what any of them accepts.',
  'texts of any length (patterns of one and two characters in the proofs), all short combinations otherwise', 'Tests replace in one text; overlapping, repeated and self-containing patterns are quantified over all texts.',
  'xo/string/string_tools.h xo/string/string_tools.cpp xo/string/pattern_matcher.h', [('find loop', 'xo/string/string_tools.cpp: find_nth_str, replace_str'), ('fnmatch', 'xo/string/string_tools.cpp: pattern_match; xo/string/pattern_matcher.h')], note='Replacement of longer texts and pattern matching (an external function) are bounded stand-ins.')
p('S04', 'Quoting and escaping text loses nothing: unquoting gives it back',
  'Every character except the terminator is restored exactly by decoding its encoded form, whatever text follows, and encoded characters contain no control characters. Quoted text is printable, lies between quotes and is restored by unquoting; text without quotes is left alone, and quotes are added only to empty text and text with white space, quotes or the given special characters. Decoding arbitrary text always consumes at least one and never more characters than there are.',
  'all characters, plain texts of any length, all short texts with special characters', 'The tests quote one nasty string; every character, position and broken escape matters.',
  'xo/string/string_tools.h xo/string/string_tools.cpp', [('escape table and octal digits', 'xo/string/string_tools.cpp: encode_char, decode_char'), ('quote loops', 'xo/string/string_tools.cpp: quoted, try_unquoted, needs_quotes')], note='printf of three octal digits is an assumed contract in the proofs (and the real one in the bounded runs).')
p('S06', 'Property nodes: children are found, added and counted by key, index and path',
  'A child is found by key (the first one with that key), by index and by a path of keys or numbers, exactly if it exists; typed reading converts its value, gives the default or is refused when it is missing. Adding, setting and get-or-add change exactly the named child, keep all others and their order, and set what is then read back, also through a path, creating what is missing on the way. Counting children, keys and layers, array and empty tests, and the record of accessed values agree with the content.',
  'trees of fixed shapes with any keys and values; all short paths', 'Tests build one document; duplicate, missing and equal keys in every position are quantified over all keys and values.',
  'xo/container/prop_node.h xo/container/prop_node.cpp xo/container/prop_node_tools.cpp', [('linear search by key', 'xo/container/prop_node.cpp: try_get_child, get_or_add_child'), ('path recursion', 'xo/container/prop_node.cpp: try_get_query, get_or_add_query')], ('inputs', 'histories'), note='Proved per fixed number of children (up to 3); long paths and index queries are bounded stand-ins.')
p('S07', 'Property nodes: copies, comparison, merging, appending and removal are exact',
  'Copies and moves hold the same content and are independent of the original, also when a node is replaced by one of its own children or copied into one. Nodes are equal exactly if values, keys, order and children are. Merging adds missing children recursively and replaces values only on request, appending and inserting keep the given order, and erasing removes the first child with the key and keeps all others.',
  'trees of fixed shapes with any keys and values', 'Tests merge one pair of documents; aliasing, duplicate keys and partial overlap are quantified over all keys and values.',
  'xo/container/prop_node.h xo/container/prop_node.cpp xo/container/prop_node_tools.cpp', [('member-wise copy with nested ownership', 'xo/container/prop_node.h: operator='), ('recursive merge', 'xo/container/prop_node.cpp: merge, append, erase')], ('inputs', 'histories'), note='Proved per fixed tree shape (up to 3 children, 2 layers); all small trees of three layers in bounded runs.')
p('S05', 'The tokenizer reads words, quotes, operators, lines and numbers exactly',
  'Whatever the text and position, reading never leaves the text nor goes back, every token makes progress or is the last, and the end is noticed. A token is the text up to the next delimiter or operator with its quoted parts decoded, the longest matching operator by itself, or a quoted text (also an empty one) as one token known to be quoted; lines and numbers are consumed exactly, failing and staying put when there is none. Seeking finds the first occurrence, an expected text is read exactly if it is there, and the line number counts the line ends before the position.',
  'texts of any length and content, any position in them; all short texts against a reference', 'Tests read a few documents; every text, position and unfinished quote at the end matters.',
  'xo/serialization/char_stream.h xo/serialization/char_stream.cpp', [('position and end pointers into one buffer', 'xo/serialization/char_stream.h: getc, test_eof, process_end_pos'), ('token loop', 'xo/serialization/char_stream.cpp: get_token')], note='decode_char enters by the contract proved in S04; strtod, strtol, strstr, strcspn and strncmp by assumed contracts; words and quotes without escapes and operators are proved, arbitrary mixtures bounded.')
p('N08', 'Averages, deviations, medians, regression, polynomials equal their definitions',
  'The average times the count is the sum, variance and deviation are the (root of the) mean squared deviation from the mean, weighted averages weigh, and only empty data have none. The median is the middle value or the mean of the two in the middle; sorting, minimum, maximum and indices agree. The regression line passes through the averages with residuals orthogonal to the data, the median lines reproduce points on a line, polynomials add the powers of their argument, and channel means and covariances follow their definition.',
  'data of any length (averages, deviations, regression over given points); fixed small counts otherwise', 'Tests compare a few numbers; the definitions hold for every sequence.',
  'xo/numerical/average.h xo/numerical/regression.h xo/numerical/polynomial.h xo/container/container_algorithms.h xo/utility/data_algorithms.h', [('accumulating loops', 'xo/container/container_algorithms.h; xo/numerical/average.h'), ('least squares', 'xo/numerical/regression.h')], note='Medians, sorting, evenly spaced regression and covariances are proved per fixed count (1 to 5); real arithmetic is exact in the proofs.')
p('N09', 'Filters and delays: recurrence, unit gain, bounded response, exact delay',
  'A recursive filter computes its recurrence and shifts its history by one per sample; the low-pass filter passes constants unchanged and blocks the highest frequency. A first-order filter moves towards its input and never beyond it. A delay gives back exactly what was put in one delay ago (straight lines also between samples), keeps constants in any state, its sample index stays in range, and only positive delays are accepted.',
  'all coefficients, inputs and internal states; fixed numbers of samples', 'Tests run one signal; the response from any internal state is quantified over all of them.',
  'xo/numerical/filter.h xo/numerical/filter_1st_order.h xo/numerical/delayer.h', [('shifted history', 'xo/numerical/filter.h'), ('ring of samples', 'xo/numerical/delayer.h')], ('inputs', 'histories'))
p('N10', 'Hashes follow FNV-1a at compile and run time; versions are totally ordered',
  'The hash of a text is the FNV-1a fold of its bytes for every length, the same at run time, at compile time, as literal and for strings, and short texts do not collide. Versions compare from major to build number, the build only where both have one, exactly one of less, equal and greater holds, the order is antisymmetric and (among versions with or without build) transitive, and at-least and below agree with it.',
  'texts of any length (run time), of fixed lengths (compile time); all versions', 'Tests hash and compare a few; equality at every length and order of every pair cannot be sampled.',
  'xo/utility/hash.h xo/system/version.h xo/system/version.cpp', [('xor-multiply loop', 'xo/utility/hash.h'), ('lexicographic comparison', 'xo/system/version.h: version_compare')], note='The absence of short collisions is a bounded check; versions with and without build number are not transitive with each other (documented behaviour).')
p('T01', 'Time values: exact arithmetic, conversions, order and intervals',
  'Times add, subtract, negate, multiply and divide exactly in nanoseconds, also negative ones, and compare by their value; ratios and real factors follow. Conversions from and to seconds, milliseconds and nanoseconds round to the nearest nanosecond, literals are what they say. An interval checker succeeds exactly when an interval has passed since it last did.',
  'all times below about 13 days in nanoseconds and all factors', 'Tests use a few positive times; sign and rounding matter for every value.',
  'xo/time/time.h xo/time/interval_checker.h', [('integer nanoseconds', 'xo/time/time.h'), ('previous time update', 'xo/time/interval_checker.h')])
p('T02', 'Timers and stopwatches measure exactly the time they run',
  'In every state a timer reads the time that passed while it was running, never goes back, and stands still while paused; pausing, resuming, restarting and setting keep or return that time, also when repeated. A scoped timer runs only within its scope, also when left by an exception. A split adds the time since the previous split to its name and leaves the others alone; restarting and clearing start from zero.',
  'all timer states and clock readings (the clock never goes back)', 'Tests take one measurement; repeated and interleaved pause, resume and restart are histories no test enumerates.',
  'xo/time/timer.h xo/time/timer.cpp xo/time/stopwatch.h', [('epoch arithmetic with negative epoch while paused', 'xo/time/timer.cpp'), ('accumulated splits', 'xo/time/stopwatch.h')], ('inputs', 'histories'), note='The clock is an assumed monotone contract in the proofs; histories on the real clock are bounded.')
p('U01', 'Colors: components, arithmetic, named, hexadecimal and hue forms agree',
  'A color holds the components given (alpha one by default), adds, scales, clamps and compares component by component, and its order is the lexicographic one. Named colors have their brightness and saturation, hexadecimal numbers give each byte to its component and back without loss, and hue, saturation and value determine the largest, smallest and middle component. Gradients blend neighbours, written forms are read back and others are refused, unique colors are distinct.',
  'all components, all 32-bit numbers, all hues', 'Tests convert a few colors; every byte position, hue sector and component matters.',
  'xo/utility/color.h xo/utility/color.cpp xo/utility/color_gradient.h', [('shifts and masks', 'xo/utility/color.cpp: color_from_hex_rgba, hex_rgba_from_color'), ('hue sectors', 'xo/utility/color.cpp: color_from_hsv')], note='Gradients, unique colors and written forms are bounded checks.')
p('U02', 'Factories create exactly what is registered, while it is registered',
  'After any sequence of registering and unregistering types, a name creates a new object of exactly the type registered under it, with the arguments given and owned by the caller; an unknown name is refused by create and gives nothing by try_create. Registering a taken name or unregistering an unknown one is refused and changes nothing. A registrant keeps its name registered exactly during its lifetime, and searching a property node finds its first child with a registered name.',
  'all names (any strings) and histories of up to two registrations, then any lookup', 'Tests register fixed types once; refusals, removal and re-registration are histories.',
  'xo/utility/factory.h xo/container/flat_map.h', [('sorted map from names to creators', 'xo/utility/factory.h: factory'), ('registration scope', 'xo/utility/factory.h: factory_registrant')], ('inputs', 'histories'), note='The order of names is any linear order; longer histories are bounded.')
p('U03', 'Kept results: memoized functions, cached values and cached files stay right',
  'A memoized function gives for each combination of arguments what the function returned first, calls it exactly once for it, and does not remember exceptions; a cached value is computed again exactly when its tag changes. A file cache gives every caller a copy of its own of the content last loaded, loads a file when it is new or when it changed and was not checked in the last three seconds, refuses missing or unreadable files, and does not take a failed reload for loaded.',
  'all argument values, clock readings, file times and failures, histories of up to four calls', 'Tests call twice; failures between calls and every interleaving of changes and calls are histories.',
  'xo/utility/memoize.h xo/utility/cached_var.h xo/utility/file_resource_cache.h', [('lookup before call', 'xo/utility/memoize.h'), ('modification time and check interval', 'xo/utility/file_resource_cache.h')], ('inputs', 'histories'), note='One thread: locks are checked for misuse, interleavings of threads are not covered; clock and file times are assumed contracts.')
p('U04', 'Optional values and ranges: presence, visited values, counts and ends',
  'An optional holds a value exactly when one was set and not reset, for every type (with reserved values), gives that value or the default, and compares accordingly. Integer ranges visit every value once in order and know their size; real ranges visit as many values as the step fits, including the end where it fits, each at start plus a multiple of the step.',
  'all values and bounds, ranges of any length (bounded only for real step rounding)', 'Tests iterate fixed ranges; empty, single and reserved values matter for every type.',
  'xo/utility/optional.h xo/utility/irange.h xo/utility/frange.h', [('reserved value', 'xo/utility/optional.h'), ('index times step', 'xo/utility/frange.h')])
p('U06', 'Log messages reach exactly the sinks whose level they meet, once and unchanged',
  'A message is delivered to every sink added and not removed whose level is not above it, once, in order, with its level and text, and to no other; the level test says whether any sink takes it, also after adding, removing or changing levels. Adding a sink twice adds it once, adding none is refused. A sink bound to a thread takes only messages of this thread; formatted and streamed messages contain exactly the values given.',
  'up to three sinks with any levels, all message levels and texts', 'Tests log at one level; every combination of sinks, levels and changes is not sampled.',
  'xo/system/log.h xo/system/log.cpp xo/system/log_sink.h xo/system/log_sink.cpp', [('lowest level of all sinks', 'xo/system/log.cpp: update_global_log_level_thread_unsafe'), ('sink list', 'xo/system/log.cpp: add_sink, remove_sink')], ('inputs', 'histories'), note='One thread at a time; formatted text is a bounded check.')
p('U08', 'Errors as values: messages, results, error codes, assertions and owner casts',
  'An error message is an error exactly when it has text, appends one message per line; a result holds a value or an error, never both, through every assignment. An error code is good exactly when zero; reporting an error sets the code if there is one and throws exactly otherwise, and logs once. Error, assertion and range macros throw exactly on their condition; casting an owning pointer leaves the object with exactly one owner, or deletes it as documented.',
  'all values, texts and codes', 'Tests cover a success and a failure; every assignment between states is needed.',
  'xo/utility/result.h xo/system/error_code.h xo/system/error_code.cpp xo/system/assert.h xo/utility/pointer_types.h', [('value and message', 'xo/utility/result.h'), ('throw without code', 'xo/system/error_code.cpp: set_error_or_throw')])
p('U09', 'Sided names, enumerations and dictionaries convert to text and back',
  'The side of a name is its last two characters; removing, setting and mirroring a side change only these, and mirroring twice gives the name back. Every value of a smart enumeration has its declared name, and exactly these names give the value back; others are refused and change nothing, also when read from a stream. A dictionary and a lookup find the partner of each entry in both directions or give the default.',
  'names of any length, all words, all values', 'Tests convert a few names; every value, near-match and suffix counts.',
  'xo/utility/side.h xo/utility/smart_enum.h xo/string/dictionary.h', [('last two characters', 'xo/utility/side.h: str_get_side'), ('names listed in the macro', 'xo/utility/smart_enum.h')], note='Reading from streams is a bounded check.')
p('S08', 'Documents: what is written is read back, other text is refused',
  'A document written as ZML (also concise), XML or INI is read back as the same names, values, order and nesting, with any characters in values and names the format can hold, also from a file. Reading ZML does not depend on space, comments or the style of quotes; variables have the value last given in the same or an enclosing group, references copy earlier items, and included files appear in place of their directive, found from the folder of the file that includes them. A group or array that does not end, a name without value, an unknown variable, reference or format, a missing file and a file that includes itself is an error that is reported where asked, else thrown.',
  'documents of fixed shapes with any characters (single values and names of up to two characters), token sequences with any text; random documents, layouts and files', 'Tests read a few documents; special characters, nesting, empty items and scope of variables combine arbitrarily.',
  'xo/serialization/prop_node_serializer_zml.cpp xo/serialization/prop_node_serializer_ini.cpp xo/serialization/prop_node_serializer_xml.cpp xo/serialization/serialize.cpp xo/serialization/char_stream.cpp', [('grammar', 'xo/serialization/prop_node_serializer_zml.cpp: read_zml_layer'), ('layout and quoting', 'xo/serialization/prop_node_serializer_zml.cpp: write_zml_node'), ('include resolution', 'xo/serialization/serialize.cpp: resolve_include_files')], ('inputs', 'histories'), note='In the grammar proofs the tokenizer enters by a contract (next token, quoted or not); in the round-trip proofs the real writer, tokenizer and reader run. XML (rapidxml) and real files are bounded checks.')
p('S09', 'Paths: joining, parents, names and extensions fit together',
  'A path consists of its parent and its file name, a file name of its stem and extension; joining and taking apart are inverse, for absolute, relative, root and drive paths and with dots in folders. Replacing or removing the extension, stem or file name changes exactly that part. Iterating, comparing and concatenating paths agree with their text, and both kinds of separators are handled.',
  'all texts of any length (replacing the stem: bounded)', 'Tests use a few paths; positions of separators and dots are arbitrary.',
  'xo/filesystem/path.h xo/filesystem/path.cpp', [('separator and extension positions', 'xo/filesystem/path.cpp')])
p('S10', 'Values written as text are read back: numbers, dates, versions, times, lists',
  'Every integer of every type, boolean, date, version and text is read back from the text written for it, and time, real numbers, vectors and bounds up to the digits shown. Text that does not begin with a number is refused as a number, exactly six words are booleans, and what is refused is reported. Containers are written element by element in order and read from streams completely, including the last element.',
  'all integers of all types, all dates and versions with their fields in range; texts of fixed length', 'Tests convert a few values; sign, limits, stale state and the last element matter.',
  'xo/string/string_cast.h xo/string/string_cast.cpp xo/serialization/container_io.h xo/time/date.h', [('conversion functions', 'xo/string/string_cast.cpp'), ('stream reading', 'xo/serialization/container_io.h')], note='The C number functions are written out by their definition; real numbers, times and streams are bounded checks.')
p('U07', 'Program arguments: flags by name, values after flags, positional ones first',
  'A flag is found exactly if an argument is its name after one or more dashes, the first such argument counts. The value of a flag is the argument after it unless that is a flag or missing, and positional arguments are counted up to the first flag; in all other cases, and if the text cannot be converted, the default is given. Every argument is available in order and none outside.',
  'up to one argument of any length, three of fixed length; more are bounded', 'Tests have no case for it: order, dashes, missing and unconvertible values are arbitrary.',
  'xo/utility/arg_parser.h', [('dash count', 'xo/utility/arg_parser.h: count_dashes'), ('lookups', 'xo/utility/arg_parser.h: find_flag, get')])
p('U05', 'Settings: the valid value set last, else the default, also after saving',
  'A setting has the value set last if the schema allows it, otherwise its default: an empty value or the default erases it, text that is not of its type or not in its list is refused and changes nothing, a number outside its range is restricted to it. Settings the schema does not have are refused and are an error to get; setting one changes no other. What is saved is loaded with its version, a missing file is created with the defaults, and invalid values in a file are not taken.',
  'all texts as values, defaults and allowed values; numbers of fixed length; histories of up to three changes', 'There is no test: the history of values, defaults and the file decides.',
  'xo/system/settings.h xo/system/settings.cpp xo/container/prop_node.cpp', [('validation', 'xo/system/settings.cpp: try_set'), ('schema lookup', 'xo/system/settings.cpp: try_find_setting'), ('loading and saving', 'xo/system/settings.cpp: load, save')], ('inputs', 'histories'), note='Files and log are assumed contracts in the proofs; real files, all types and longer histories are bounded checks.')
p('S11', 'Property nodes as text: display, unread items, one line, and queries',
  'Written for display or to the log, every item of a property node appears exactly once, in order, indented by its depth, with all values aligned behind the widest key. The report of unread items lists exactly the items that were not read and those that contain one. On one line a node is its value and its items in braces, or brackets if none is named, and the query made for an item leads to it.',
  'up to two items with any values; random trees of depth three', 'No test writes a nested node for display; depth, widths, empty keys and values combine arbitrarily.',
  'xo/container/prop_node_tools.cpp xo/container/prop_node.cpp', [('width of the keys', 'xo/container/prop_node_tools.cpp: prop_node_align_width'), ('layout', 'xo/container/prop_node.cpp: to_stream'), ('unread items', 'xo/container/prop_node_tools.cpp: to_str_unaccessed')], note='Trees of more than two items and the log are bounded checks.')
p('N12', 'Vectors, rotations, transforms, ranges and shapes as property nodes',
  'A vector, quaternion, transform, range or shape written to a property node is read back the same, and all forms the documentation lists are read: arrays, named components in any order, text, Euler angles in degrees with their rotation order, one number for a scale or range, and the total length of a capsule. Other forms are refused, and a missing component or size is an error.',
  'all real numbers (their text is assumed to give them back), every shape type, order of components and rotation order', 'No test writes or reads these forms; only a few shapes are read with fixed numbers.',
  'xo/shape/shape.cpp xo/geometry/vec3.h xo/geometry/quat.h xo/geometry/scale3.h xo/geometry/transform.h xo/numerical/bounds.h', [('shape types', 'xo/shape/shape.cpp: from_prop_node'), ('Euler angles with order', 'xo/geometry/quat.h: from_prop_node'), ('named components', 'xo/geometry/vec3.h: from_prop_node')], note='Text conversion of numbers is an assumed contract here (see S10).')
