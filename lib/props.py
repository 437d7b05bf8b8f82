"""The properties, their anchors, and how each is decided: the single source of properties.jsonl and MANIFEST.json
(python3 bin/mkprops.py)."""

PROPS = {}
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mech, note, technique, observe=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     note=note, technique=technique, observe=observe)


TRUST = ("Bounded search: every generated case is decided exactly against the oracle (exact arithmetic for rational "
         "and polynomial coefficients, tolerances for floats), nothing is shown beyond the cases generated. Trusts the "
         "Python reference model in lib/model.py, written from the definitions, and the conversion code. ")

P("C01", "Tensors and Lie elements are vector spaces",
  "Sums, differences, negatives, scalar multiples and quotients of free tensors, shuffle tensors and Lie elements, in "
  "their plain, in-place and fused forms, have exactly the coefficients arithmetic on coefficients gives, whatever the "
  "storage of the operands and the coefficient type. Reading an element by index, by key, by iteration or as an array "
  "gives the coefficients it was built from and zero elsewhere. Operands other than the target are unchanged.",
  ["inputs", "configurations"],
  "all pairs of elements of any width, depth, storage and coefficient type, and all scalars",
  "tests use a few fixed widths/depths, mostly dense double elements and unit coefficients; storage mixes, fused "
  "operations and exact coefficients are hardly sampled",
  ["algebra/include/roughpy/algebra/algebra_base.h", "algebra/include/roughpy/algebra/algebra_base_impl.h",
   "vendored/libalgebra_lite/dense_vector.h", "vendored/libalgebra_lite/sparse_vector.h",
   "vendored/libalgebra_lite/vector.h", "roughpy/src/algebra/setup_algebra_type.h"],
  [("coefficientwise operations on stored vectors", "vendored/libalgebra_lite/dense_vector.h, sparse_vector.h"),
   ("dispatch over storage and type erasure", "algebra/include/roughpy/algebra/algebra_base_impl.h"),
   ("python operators", "roughpy/src/algebra/setup_algebra_type.h")],
  TRUST, "property-based testing against a reference model of vectors")

P("C02", "Free tensor multiplication is the truncated concatenation product",
  "Every way of multiplying two free tensors (operator, in place, fused with addition and scalars, module function) "
  "gives the bilinear extension of concatenation of words truncated at the depth, for every width, depth, storage, "
  "degree and coefficient type. The product is therefore associative, distributive over addition and unital.",
  ["inputs", "configurations"],
  "all pairs of free tensors in all contexts, including those large enough for the tiled kernels",
  "tests multiply a handful of words or constant tensors; which kernel runs depends on width, depth, degree and "
  "storage of both operands",
  ["vendored/libalgebra_lite/free_tensor.h", "vendored/libalgebra_lite/algebra.h",
   "vendored/libalgebra_lite/algebra/free_tensor_multiplier.cpp", "roughpy/src/algebra/free_tensor.cpp"],
  [("traditional and tiled dense multiplication, sparse multiplication", "vendored/libalgebra_lite/free_tensor.h"),
   ("dispatch over mixed storage", "vendored/libalgebra_lite/algebra.h")],
  TRUST, "property-based testing against a reference product and algebraic laws")

P("C03", "exp, log, antipode and fused exponential are what their series say",
  "The exponential and logarithm of a free tensor are their truncated power series, the fused multiply-exponential "
  "equals the product with the exponential, and the antipode is the signed reversal of words. On tensors with the "
  "right constant term exp and log are mutually inverse, and the antipode inverts exponentials of Lie elements. "
  "tensor_functions.Log is the linear map that agrees with the logarithm on group-like elements, on every tensor.",
  ["inputs", "configurations"],
  "all free tensors in all contexts, storages and coefficient types",
  "tests use elements of degree one in a few contexts with floating point coefficients",
  ["vendored/libalgebra_lite/free_tensor.h", "roughpy/src/algebra/free_tensor.cpp",
   "algebra/src/libalgebra_lite_internal/free_tensor_info.h", "roughpy/tensor_functions.py"],
  [("Horner evaluation of the truncated series, fused multiply exp", "vendored/libalgebra_lite/free_tensor.h"),
   ("tiled antipode", "vendored/libalgebra_lite/free_tensor.h")],
  TRUST, "property-based testing against series in a reference model")

P("C04", "Shuffle algebra: products and their duality with free tensors",
  "The shuffle product sums over all interleavings of words truncated at the depth, the half-shuffle over those "
  "keeping the first letter of the left word first, and the adjoint of left multiplication and the pairing are the "
  "duals of multiplication, for every storage and coefficient type. The product is commutative, associative and "
  "unital, and pairing with a group-like tensor is a character.",
  ["inputs", "configurations"],
  "all pairs of shuffle tensors and free tensors in all contexts",
  "tests check a few words at depth 2-5; the multiplier builds its tables lazily and recursively per pair of words",
  ["vendored/libalgebra_lite/shuffle_tensor.h", "vendored/libalgebra_lite/algebra/shuffle_multiplier.cpp",
   "vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp", "vendored/libalgebra_lite/free_tensor.h",
   "roughpy/src/algebra/free_multiply_funcs.cpp"],
  [("recursive product tables", "vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp"),
   ("adjoint of left multiplication", "vendored/libalgebra_lite/free_tensor.h")],
  TRUST, "property-based testing against a reference shuffle and duality relations")

P("C05", "Lie bracket in the Hall basis and the maps between Lie elements and tensors",
  "The product of Lie elements is the commutator rewritten in the Hall basis, bilinear, antisymmetric and satisfying "
  "the Jacobi identity. The map to tensors expands brackets, the map back inverts it on Lie elements, and both respect "
  "brackets, coefficients, storage and truncation between contexts.",
  ["inputs", "configurations"],
  "all Lie elements and Lie tensors in all contexts",
  "tests check basis elements in width 2-5 up to fixed depth; rewriting recursion differs for every pair of Hall "
  "elements",
  ["vendored/libalgebra_lite/lie.h", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp",
   "vendored/libalgebra_lite/basis/hall_set.cpp", "vendored/libalgebra_lite/maps.cpp",
   "vendored/libalgebra_lite/maps.h", "algebra/src/lite_context.h"],
  [("Hall set and key_prod recursion", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp"),
   ("rbracket/expand maps", "vendored/libalgebra_lite/maps.cpp")],
  TRUST, "property-based testing against bracket expansion in a reference model")

P("C06", "Campbell-Baker-Hausdorff products, log-signatures and signatures",
  "The Campbell-Baker-Hausdorff product of any list of Lie elements is the logarithm of the product of their "
  "exponentials, truncated at the context's depth: it is associative, has zero as unit and negatives as inverses, "
  "and reduces to the sum on commuting elements. Log-signatures of signatures and signatures of rows of increments "
  "agree with it, whatever the storage, depth and coefficient type of the elements.",
  ["inputs", "configurations"],
  "all lists of Lie elements and all arrays of increments, in all contexts",
  "tests combine two or three dense letters of double coefficients; the product of zero, one or repeated elements, of "
  "other depths or coefficients is not sampled",
  ["algebra/src/lite_context.h", "algebra/src/context.cpp", "roughpy/src/algebra/context.cpp",
   "vendored/libalgebra_lite/free_tensor.h", "vendored/libalgebra_lite/maps.h"],
  [("product of exponentials and logarithm", "algebra/src/lite_context.h cbh_impl"),
   ("signature of rows of increments", "algebra/src/lite_context.h compute_signature_impl")],
  TRUST, "property-based testing against a reference model and group laws")

P("C07", "Words, brackets and bases number their elements consistently",
  "The keys of a tensor basis are the words over the letters in order of degree and then lexicographically, those of "
  "a Lie basis the Hall brackets. Index to key and key to index are mutually inverse; sizes, degrees, parents, "
  "splitting, products, reversal, comparison, hashing and iteration agree with the words, and keys that do not belong "
  "to the basis are refused rather than taken for others.",
  ["inputs", "configurations"],
  "all keys of all bases, and all invalid keys",
  "tests look at a few keys of width 5 and depth 3; splitting, parents and products of keys at most once",
  ["roughpy/src/algebra/tensor_key.cpp", "roughpy/src/algebra/basis.cpp", "roughpy/src/algebra/lie_key.cpp",
   "roughpy/src/algebra/lie_key_iterator.cpp", "roughpy/src/algebra/tensor_key_iterator.cpp",
   "vendored/libalgebra_lite/basis/tensor_basis.cpp", "vendored/libalgebra_lite/basis/hall_set.cpp",
   "vendored/libalgebra_lite/tensor_basis.h", "vendored/libalgebra_lite/hall_set.h"],
  [("tables of sizes and powers", "vendored/libalgebra_lite/basis/tensor_basis.cpp, hall_set.cpp"),
   ("python keys", "roughpy/src/algebra/tensor_key.cpp, lie_key.cpp, basis.cpp")],
  TRUST, "property-based testing against a reference enumeration of words and Hall brackets")

P("C08", "Elements have value semantics over any history of operations",
  "Whatever sequence of arithmetic, in-place, fused, exponential, conversion and copying operations a program performs, "
  "with aliases and dropped objects, every element has exactly the value its own history gives it: an operation changes "
  "its target and nothing else, operands may be the same object, coefficients and items read earlier keep their values, "
  "and no sequence of operations crashes.",
  ["inputs", "histories"],
  "all straight-line programs over algebra elements",
  "tests apply one operation to freshly built elements and never look at the other elements again",
  ["algebra/include/roughpy/algebra/algebra_base_impl.h", "algebra/include/roughpy/algebra/algebra_iterator.h",
   "roughpy/src/algebra/setup_algebra_type.h", "vendored/libalgebra_lite/dense_vector.h",
   "vendored/libalgebra_lite/sparse_vector.h", "vendored/libalgebra_lite/algebra.h"],
  [("in-place operations, cloning", "algebra/include/roughpy/algebra/algebra_base_impl.h"),
   ("storage kept in step (degree, zero entries)", "vendored/libalgebra_lite/dense_vector.h, sparse_vector.h"),
   ("items of an iteration", "algebra/include/roughpy/algebra/algebra_iterator.h")],
  TRUST, "model-based stateful property testing: random programs over a pool of elements against the reference model")

P("C15", "Signatures over adjacent intervals multiply (Chen's identity)",
  "For any stream, any chain of adjacent intervals and any common query resolution, the product of the signatures over "
  "the intervals is the signature over their union and the Campbell-Baker-Hausdorff product of the log-signatures is "
  "the log-signature, whatever was queried before; so too at the default resolutions between points of the grid of the "
  "stream. No increment is lost or counted twice, and signatures are group-like.",
  ["inputs", "histories"],
  "all streams, all partitions of all intervals, all resolutions",
  "tests compare a few fixed intervals; rounding of ends, support, coarse and fine resolutions and the dyadic "
  "dissection interact",
  ["streams/src/dyadic_caching_layer.cpp", "streams/src/stream.cpp", "streams/src/tick_stream.cpp",
   "streams/src/lie_increment_stream.cpp", "intervals/src/dyadic_interval.cpp"],
  [("dyadic dissection of queries", "streams/src/stream.cpp log_signature_impl, intervals/src/dyadic_interval.cpp"),
   ("recombination of dyadic pieces", "streams/src/dyadic_caching_layer.cpp, tick_stream.cpp")],
  TRUST, "property-based testing of a metamorphic relation over generated streams and chains of intervals")

P("C16", "A query of a stream combines exactly the increments in its interval",
  "The log-signature of a stream of Lie increments over an interval is the Campbell-Baker-Hausdorff product, in order "
  "of parameter, of the increments whose parameter, rounded down to the resolution of the stream, lies in the interval "
  "cut to the support and rounded down to the query resolution; the signature is its exponential. This holds for every "
  "form of data, indices, storage, coefficient type, time channel and default. The default resolution separates the "
  "increments and the default support contains them all.",
  ["inputs", "configurations"],
  "all rows of increments with all parameter values, all intervals and resolutions",
  "tests use rows at consecutive integers and intervals with integer ends",
  ["streams/src/lie_increment_stream.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/stream.cpp",
   "roughpy/src/streams/lie_increment_stream.cpp", "roughpy/src/streams/signature_arguments.cpp",
   "roughpy/src/args/parse_data_argument.cpp"],
  [("increments in a dyadic interval", "streams/src/lie_increment_stream.cpp log_signature_impl"),
   ("data, indices and defaults", "roughpy/src/streams/lie_increment_stream.cpp"),
   ("support and resolution of queries", "streams/src/stream.cpp refine_interval")],
  TRUST, "property-based testing against a reference model of a stream of increments")

P("C17", "Queries, results and data given never change a stream",
  "Every answer of a stream (signature, log signature, restriction, simplification) depends only on the stream and the "
  "query: after any history of queries at other intervals, resolutions, depths, coefficient types and contexts, of "
  "restrictions and simplifications, of refused queries, of in-place changes of earlier results, and of in-place changes "
  "of the data (arrays, Lie elements, tensors, lists) the stream was made from, it is the answer of a new stream of the "
  "same data asked for the first time.",
  ["inputs", "histories"],
  "all histories of operations on streams of increments, ticks, pieces and values, and on streams derived from them",
  "caches make an answer depend on earlier queries; tests ask a stream once",
  ["streams/src/dyadic_caching_layer.cpp", "streams/src/stream.cpp", "streams/src/tensor_valued_stream.cpp",
   "streams/src/piecewise_abelian_stream.cpp", "roughpy/src/streams/stream.cpp", "algebra/src/lite_context.h"],
  [("cache of log signatures", "streams/src/dyadic_caching_layer.cpp log_signature"),
   ("restriction, simplification", "streams/src/stream.cpp"),
   ("ownership of results and data", "algebra/include/roughpy/algebra/algebra_base.h")],
  TRUST, "stateful property testing: a history against a new stream asked once (differential)")

P("C19", "A tick stream is the ordered product of its ticks",
  "Whatever the spelling of the data (tuples, nested pairs, lists or dictionaries, inferred types, float, integer or "
  "datetime timestamps, out of order or repeated) and with or without a schema, the signature and log-signature of a "
  "tick stream over an interval is the ordered product of the exponentials of its ticks there: an increment moves its "
  "channel, a value moves by its difference from the previous value, a lead-lag value moves the lead then the lag, a "
  "category moves the channel of its variant by one, and time, if included, is the last channel. Schemas have one "
  "dimension per channel variant, in order. All ticks lie in the default support.",
  ["inputs", "histories", "configurations"],
  "all lists of ticks, schemas, resolutions, supports, storages, scalar types, and queries of all depths",
  "tests use increments at a single time stamp, and one lead-lag example",
  ["roughpy/src/streams/tick_stream.cpp", "roughpy/src/streams/r_py_tick_construction_helper.cpp",
   "roughpy/streams/tick_stream.py", "roughpy/src/args/parse_schema.cpp", "roughpy/src/streams/schema.cpp",
   "roughpy/src/streams/schema_finalization.cpp", "streams/src/tick_stream.cpp", "streams/src/schema.cpp",
   "streams/src/channels/categorical_channel.cpp", "streams/src/channels/lead_laggable_channel.cpp"],
  [("parsing of ticks", "roughpy/streams/tick_stream.py"),
   ("ticks to Lie increments", "roughpy/src/streams/tick_stream.cpp"),
   ("channels and dimensions", "streams/src/schema.cpp"),
   ("tree of log signatures of ticks", "streams/src/tick_stream.cpp")],
  TRUST, "property-based testing of generated tick histories against a model of ticks")


P("C20", "Piecewise and tensor-valued streams are the paths of their pieces and values",
  "The signature of a piecewise abelian stream over an interval rounded to the resolution is the ordered product of the "
  "exponentials of the fractions of its Lie elements in the interval, whatever the order of the pieces given and the gaps "
  "between them. A tensor-valued stream made of group-like (or Lie) values takes each value from its parameter to the "
  "next one, sorted stably; its initial value times the signature of a part is the value at the end of the part; a part "
  "over a subinterval has the domain cut to it, and the value there as initial value; signatures and log signatures of "
  "all queries are those of the increments. Empty intervals have the trivial signature.",
  ["inputs", "configurations"],
  "all pieces, values, parameters in any order and repeated, domains, resolutions, queries of all depths and coefficient types",
  "tests have one example of each, in order and on the unit interval",
  ["streams/src/piecewise_abelian_stream.cpp", "roughpy/src/streams/piecewise_abelian_stream.cpp",
   "streams/src/tensor_valued_stream.cpp", "roughpy/src/streams/tensor_valued_stream.cpp",
   "streams/src/lie_increment_stream.cpp", "intervals/src/intersection_and_union.cpp"],
  [("pieces and interpolation", "streams/src/piecewise_abelian_stream.cpp log_signature_impl"),
   ("values, parts and their signatures", "streams/src/tensor_valued_stream.cpp"),
   ("values to increments", "roughpy/src/streams/tensor_valued_stream.cpp stvs_from_values")],
  TRUST, "property-based testing of generated pieces and values against a model of paths")


P("C21", "Streams computed on demand are about one path, as fine as asked for",
  "The signature of the stream of a function over an interval is the ordered product of the exponentials of the "
  "increments of the function over the pieces of a dyadic partition of the interval at least as fine as the resolution. "
  "All queries of a Brownian stream are about one path, with independent normal increments of variance equal to the "
  "length. Both hold after any history of queries, of either sign, at any resolution, depth, coefficient type and "
  "restriction, and after exceptions in the function.",
  ["inputs", "histories", "fault_sequences"],
  "all functions, all histories of queries over dyadic intervals at all resolutions, exceptions at any call",
  "the answer to a query depends on the tree that earlier queries grew; tests make one or two queries on the unit interval",
  ["streams/src/dynamically_constructed_stream.cpp", "streams/src/brownian_stream.cpp",
   "roughpy/src/streams/function_stream.cpp", "scalars/src/random/standard_random_generator.h"],
  [("tree of increments: growth, refinement, combination", "streams/src/dynamically_constructed_stream.cpp"),
   ("increments of a function", "roughpy/src/streams/function_stream.cpp"),
   ("Brownian bridge", "streams/src/brownian_stream.cpp compute_child_lie_increments")],
  TRUST, "model-based stateful property testing of histories of queries; statistical tests of increments")


P("C26", "Streams answer from several threads as they do from one",
  "Threads that query the same streams at once - signatures, log-signatures, restrictions, simplifications, derivatives, deeper "
  "contexts, with Python functions called from the queries - get the answers the same queries give in sequence, and every "
  "query ends: no schedule of the threads deadlocks, crashes or mixes the data of two queries.",
  ["schedules", "inputs"],
  "all schedules of threads querying shared streams of all deterministic kinds",
  "tests use one thread; the interpreter lock, the cache lock of a stream and callbacks into Python interact only across threads",
  ["roughpy/src/streams/stream.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/dynamically_constructed_stream.cpp",
   "roughpy/src/streams/function_stream.cpp"],
  [("interpreter lock around queries", "roughpy/src/streams/stream.cpp"), ("cache lock", "streams/src/dyadic_caching_layer.cpp")],
  TRUST + "Schedules are sampled by the operating system and short switch intervals of the interpreter, not enumerated. ",
  "randomised schedule testing: threads against the same queries in sequence, with a watchdog for deadlocks")


P("C09", "Scalars compute like the numbers they are, whatever their types and operands",
  "A scalar read from a vector or computed from others has the value of the number it stands for: sums, products, "
  "quotients, negatives, in-place and reflected operations with scalars of any type and with numbers give the exact result in "
  "the wider of the two types, rounded once where the type is a floating-point one; a zero without a type takes part like any "
  "other zero; comparison agrees with the values; division by zero is refused; operands and the vectors "
  "they were read from never change; no operation ends the process.",
  ["inputs", "histories"],
  "all histories of operations on scalars of the four coefficient types and Python numbers",
  "tests add and divide one pair of doubles; promotion, signs, typeless zeros and aliasing depend on the pair of operands",
  ["scalars/src/scalar.cpp", "scalars/src/scalar/arithmetic.cpp", "scalars/src/scalar/do_macro.h", "roughpy/src/scalars/scalar.cpp"],
  [("arithmetic", "scalars/src/scalar/arithmetic.cpp, arithmetic.h"), ("binding", "roughpy/src/scalars/scalar.cpp")],
  TRUST, "property testing against exact and IEEE arithmetic on the values")

P("C10", "Monomials and polynomials obey polynomial arithmetic",
  "Monomials are products of powers of letters with positive powers and polynomials are their combinations with exact rational "
  "coefficients. Construction in every form, reading and setting powers and coefficients, products, powers, sums, "
  "differences, division by numbers, in-place operations, degree, comparison, iteration and text agree with arithmetic of "
  "polynomials; zero coefficients and zero powers are not kept; operations leave their operands as they were; arguments that "
  "name no letter, power or number are refused with an exception.",
  ["inputs", "histories"],
  "all histories of operations on monomials and polynomials with rational coefficients of any size",
  "tests construct a few monomials and one polynomial; products depend on the order, sharing and cancellation of letters",
  ["roughpy/src/scalars/r_py_polynomial.cpp", "vendored/libalgebra_lite/basis/polynomial_basis.cpp"],
  [("binding", "roughpy/src/scalars/r_py_polynomial.cpp"), ("arithmetic", "libalgebra_lite polynomial.h, polynomial_basis.cpp")],
  TRUST, "stateful property testing against a reference model of polynomials over the rationals")

P("C11", "The same data gives the same vector and stream however it is presented",
  "Vectors and streams of increments hold the values of the data they were made from, converted to the coefficient type asked "
  "for or deduced, whether the data comes as numbers, lists, ranges, arrays of any item type and memory layout (strided, "
  "reversed, Fortran ordered, broadcast), buffers, scalars, dicts or pairs with indices or keys, or rows of different forms; the "
  "type may be given as a class, by name or by a numpy type; indices may be any array, sequence or column of the data. The data "
  "is not changed, and later changes to it do not change what was made from it.",
  ["inputs", "configurations"],
  "all values, forms, item types, memory layouts and types",
  "tests use contiguous arrays and lists of a few types; layouts and item types multiply",
  ["roughpy/src/args/parse_data_argument.cpp", "roughpy/src/args/strided_copy.cpp", "roughpy/src/args/parse_algebra_configuration.cpp",
   "scalars/src/scalar_type.cpp", "roughpy/src/streams/lie_increment_stream.cpp"],
  [("data arguments", "roughpy/src/args/parse_data_argument.cpp"), ("conversion", "scalars/src/scalar/casts.cpp")],
  TRUST, "metamorphic property testing: every presentation against the values")

P("C12", "Pickles and copies equal the original",
  "Pickling (any protocol, in this or another process), copying and deep-copying a tensor, Lie element, polynomial, "
  "monomial, dyadic, interval or partition gives an independent object equal to it, with the same context, coefficient "
  "type and storage. A stream of increments, restricted or not, loaded from a pickle answers every query as the original, "
  "whatever was asked, pickled and loaded before, in this or another process or folder; a loaded Brownian stream "
  "continues the same path. Streams that cannot be pickled raise an exception and stay as they were.",
  ["inputs", "histories", "configurations"],
  "all elements, contexts, storages, values, and all histories of queries, pickles and loads of several streams",
  "tests pickle single dense elements and one stream before any query",
  ["algebra/include/roughpy/algebra/algebra_base_impl.h", "vendored/libalgebra_lite/basis/monomial.cpp",
   "platform/include/roughpy/platform/serialization.h", "roughpy/src/scalars/r_py_polynomial.cpp",
   "roughpy/src/streams/stream.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/include/roughpy/streams/brownian_stream.h",
   "streams/include/roughpy/streams/dynamically_constructed_stream.h", "scalars/src/scalar/raw_bytes.cpp"],
  [("elements", "algebra/include/roughpy/algebra/algebra_base_impl.h save, load"),
   ("streams and their caches", "roughpy/src/streams/stream.cpp, streams/src/dyadic_caching_layer.cpp"),
   ("Brownian streams", "streams/include/roughpy/streams/brownian_stream.h")],
  TRUST, "property-based round trips, and stateful testing of histories of pickles and loads against new streams")


P("C13", "Dyadic numbers, dyadic intervals and intervals agree with exact arithmetic",
  "A Dyadic k/2^n has its exact value through float, rebase (to the asked power, or the lowest at which the value is "
  "dyadic), += and every comparison. A dyadic interval has the ends, halves and containing interval its number, power and "
  "kind say. to_dyadic_intervals gives the fewest contiguous dyadic intervals no finer than the resolution that cover the "
  "interval with its ends rounded to the grid. contains, intersects_with and == of intervals agree with sets of points.",
  ["inputs", "histories"],
  "all dyadic numbers below 2^62 and powers, both kinds of half-open interval, all resolutions",
  "tests fix a few dyadics on the unit interval; rounding and carries depend on the sign, the powers and shared ends",
  ["intervals/src/dyadic.cpp", "intervals/src/dyadic_interval.cpp", "intervals/src/interval.cpp",
   "intervals/src/real_interval.cpp", "roughpy/src/intervals/dyadic.cpp", "roughpy/src/intervals/dyadic_interval.cpp"],
  [("dyadic arithmetic", "intervals/src/dyadic.cpp rebase, compare, rational_equals"),
   ("dyadic intervals and decomposition", "intervals/src/dyadic_interval.cpp to_dyadic_intervals"),
   ("point sets", "intervals/src/interval.cpp")],
  TRUST, "property-based testing against exact rational arithmetic, with operation sequences")


P("C14", "Partitions are their sorted points; segmentation finds the maximal good parts",
  "A partition has the inner points given, sorted; its pieces tile the interval in order; len, indexing, mesh (the length "
  "of the shortest piece), refine_midpoints, insert_intermediate, merge (all ends of both) and == agree with that list of "
  "points, and operands stay unchanged. segment(interval, predicate, depth) gives, in order and within the interval, the "
  "maximal unions of dyadic cells of that depth on which a predicate that is inherited by sub-intervals holds; errors of "
  "the predicate reach the caller.",
  ["inputs", "histories"],
  "all partitions, operation sequences, good sets, depths and intervals",
  "tests use one or two points and no predicate from Python; merges and searches depend on how the points interleave",
  ["intervals/src/partition.cpp", "intervals/src/dyadic_searcher.cpp", "intervals/src/scaled_predicate.h",
   "roughpy/src/intervals/partition.cpp", "roughpy/src/intervals/segmentation.cpp"],
  [("partitions", "intervals/src/partition.cpp merge, operator[]"),
   ("segmentation", "intervals/src/dyadic_searcher.cpp"), ("binding", "roughpy/src/intervals/segmentation.cpp")],
  TRUST, "model-based stateful property testing of partitions; brute-force differential testing of segmentation")


P("C18", "Restricting cuts queries; simplifying keeps signatures over the partition",
  "A stream of any kind restricted to an interval answers a query as the stream does for the part of the query within "
  "the interval, and has that interval as its support. The path simplified to a partition has the interval of the "
  "partition as its support, the signature of the stream at the given resolution between any two points of the "
  "partition, and moves straight along the log-signature within each piece, in the context and depth asked for. The "
  "stream itself does not change.",
  ["inputs", "histories", "configurations"],
  "all kinds of streams, restrictions (repeated), partitions, resolutions, contexts and queries",
  "tests simplify one stream of increments and restrict with one interval; ends and supports interact in many ways",
  ["streams/src/stream.cpp", "streams/src/piecewise_abelian_stream.cpp", "roughpy/src/streams/stream.cpp"],
  [("restriction", "streams/src/stream.cpp restrict, check_support_and_trim"),
   ("simplification", "streams/src/stream.cpp simplify")],
  TRUST, "metamorphic property testing across kinds of streams, and a model of piecewise abelian paths")


P("C23", "Wrong arguments raise exceptions and change nothing",
  "Whatever the functions, constructors, methods and operators of the module are called with, in any sequence, they return "
  "or raise an ordinary Python exception: the process does not end, no SystemError is raised, and the call ends. This covers "
  "values of wrong kinds and sizes, NaN, infinities and large numbers, elements of other contexts, malformed data, and "
  "objects whose own methods fail. Only the target of an in-place operation may change. Elements of other widths, depths or "
  "coefficients, divisions by zero, keys beyond the basis, indices that are not finite or not one for each increment, "
  "resolutions out of range, negative depths, and values of functions that are no Lie elements are refused, with the "
  "operands as they were and usable afterwards; coefficients beyond the basis read as zero.",
  ["inputs", "histories"],
  "all sequences of calls with arguments of every kind",
  "tests call functions with arguments they were made for; few expect an exception",
  ["roughpy/src/args/parse_data_argument.cpp", "roughpy/src/algebra/context.cpp", "roughpy/src/algebra/setup_algebra_type.h",
   "roughpy/src/streams/stream.cpp", "roughpy/src/streams/lie_increment_stream.cpp", "roughpy/src/scalars/scalars.cpp",
   "algebra/src/lite_context.h"],
  [("arguments", "roughpy/src/args/parse_data_argument.cpp"),
   ("elements of other contexts", "algebra/src/lite_context.h check_arguments; algebra/src/algebra_base.cpp"),
   ("arguments of queries", "roughpy/src/streams/stream.cpp parse_sig_args"),
   ("increments and indices", "roughpy/src/streams/lie_increment_stream.cpp")],
  TRUST, "generative API fuzzing (sequences of calls over pools of valid and hostile arguments) with crash, hang, SystemError and operand-invariance oracles, and generated calls that must be refused")


P("C24", "roughpy.compute computes with tensors and Lie elements in plain arrays",
  "For arrays of both float types, of any shape in front of the coefficients, and of any memory layout (contiguous, strided, "
  "reversed, broadcast, read-only): the multiply-add, product, in-place product, antipode, shuffle product, exponential "
  "(of an argument without constant term), logarithm (of one with constant term 1), fused multiply-exponential and adjoint "
  "multiplication of roughpy.compute give, for each entry of the batch, the result of the truncated tensor algebra, also "
  "for operands of different depths, where missing degrees are zero; lie_to_tensor and tensor_to_lie are the expansion of "
  "brackets and the Dynkin map, times the scale factor, and invert each other; the compressed matrices of a basis are those "
  "maps. Operands and the memory around the output do not change. Arrays that do not fit (short, of other types or byte "
  "order, batches or widths that differ, read-only targets) are refused with nothing changed. Bases have the sizes, degrees "
  "and Hall sets of their width and depth; equal bases are equal and hash equally, however they were made; "
  "check_lie_basis_data accepts Hall sets and refuses data whose rows break the conditions.",
  ["inputs", "configurations"],
  "all widths, depths, batches, layouts, float types and coefficients",
  "tests compute a few contiguous cases of one depth each and compare functions with one another",
  ["roughpy/compute/__init__.py", "roughpy/compute/_src/dense_basic.cpp", "roughpy/compute/_src/dense_intermediate.cpp",
   "roughpy/compute/_src/lie_basis.c", "roughpy/compute/_src/tensor_basis.c", "roughpy_compute/dense/views.hpp",
   "roughpy_compute/dense/basic/free_tensor_fma.hpp", "roughpy_compute/dense/basic/shuffle_tensor_product.hpp"],
  [("kernels", "roughpy_compute/dense/basic, roughpy_compute/dense/intermediate"),
   ("batches and strides", "roughpy/compute/_src/py_ternary_array_fn.hpp, py_binary_array_fn.hpp; roughpy_compute/dense/views.hpp"),
   ("bases and their matrices", "roughpy/compute/_src/lie_basis.c, sparse_matrix.c, tensor_basis.c")],
  TRUST + "The module is not part of the official build here; the check compiles it from the sources itself.",
  "property-based testing of array kernels against a reference model, with layout and refusal arms")


P("C27", "A stream of a sound file is the stream of its samples",
  "The signature and log-signature over an interval of a stream opened from a sound file are the ordered product of the "
  "exponentials of its frames in the interval, rounded to the resolution: the frame k is at the parameter k / rate, with "
  "the samples, scaled to [-1, 1), of the channels of increments, and the differences to the frame before of the channels "
  "of values; the first frame is the start. This holds for every sample format, rate, length, coefficient type, depth, "
  "storage, support and restriction, after any queries. Arguments that do not match the file, and files that hold no "
  "sound, are refused with an exception.",
  ["inputs", "histories", "configurations"],
  "all sound files, types of channels, options and histories of queries",
  "tests open three files with one rate and check the sizes of log-signatures, never their values",
  ["streams/src/external_data_stream.cpp", "streams/src/external_data_sources/sound_file_data_source.cpp",
   "roughpy/src/streams/externally_sourced_stream.cpp", "streams/src/dyadic_caching_layer.cpp"],
  [("frames of an interval", "streams/src/external_data_sources/sound_file_data_source.cpp query_impl"),
   ("configuration", "streams/src/external_data_sources/sound_file_data_source.cpp construct_stream"),
   ("increments to Lie elements", "streams/src/external_data_stream.cpp log_signature_impl")],
  TRUST, "model-based property testing with generated sound files")


P("C22", "Derivatives of signatures are the derivatives of exponentials",
  "signature_derivative over an interval in the direction of a Lie element is the derivative at zero of the exponential "
  "of the log-signature of the interval plus t times the element, truncated at the depth: for streams of every kind, any "
  "resolution (by default the one signatures are computed at), depth, storage, coefficient type, depth of the element and "
  "spelling of the arguments; it is linear in the element, and elements and the stream do not change. Over several "
  "intervals it is the derivative of the product of the signatures when all elements change together.",
  ["inputs", "configurations"],
  "all streams, intervals, Lie elements, resolutions and depths",
  "tests perturb one letter of single increments at depth two, and compare lists with the recursion itself",
  ["algebra/src/lite_context.h", "streams/src/stream.cpp", "roughpy/src/streams/stream.cpp"],
  [("series of the derivative of exp", "algebra/src/lite_context.h derive_series_compute, sig_derivative_impl"),
   ("log-signatures at the resolution", "streams/src/stream.cpp signature_derivative"),
   ("binding", "roughpy/src/streams/stream.cpp sig_deriv")],
  TRUST, "property-based testing against derivatives in a reference model")
