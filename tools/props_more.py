SCHED = "stateless model checking of the real headers: the parallel runtime (TBB tasks, OpenMP teams, std execution policies) is replaced by a controlled scheduler that enumerates, depth first, every way to split, steal, interleave and join the work within the bounds; each schedule is compared with the serial reference"
I = "include/noarr/structures/interop/"

prop("P11", "Parallel loops visit exactly the serial elements under every schedule",
     "Running a traversal in parallel (by task-splitting ranges, a fork-join team or a parallel algorithm policy) calls the body exactly once for each index that the serial traversal visits, whatever way the range is split, scheduled and interleaved, and inside each piece the serial order is kept. Splitting a range never loses, repeats or reorders elements.",
     ["inputs", "programs", "schedules"], "all splits of the range, all assignments of pieces to workers and all interleavings in the bound, for all orders of the alphabet and lengths including zero",
     "a test run observes one schedule chosen by the runtime, usually the same one",
     [I + "tbb.hpp", I + "omp.hpp", I + "std_para.hpp", I + "traverser_iter.hpp"],
     [("tbb_for_each, tbb_for_sections", I + "tbb.hpp"), ("omp_for_each, omp_for_sections", I + "omp.hpp"), ("std_for_each, std_for_sections", I + "std_para.hpp"), ("splitting constructors of ranges", I + "traverser_iter.hpp")],
     SCHED, "ranges of up to 8 top-level steps, every split tree and piece order; 2-4 workers")

prop("P12", "Parallel reduction gives the serial result and is free of data races",
     "Reducing in parallel into a scalar or an array of results gives the value of the serial reduction for every associative and commutative operator and every schedule: each contribution and the initial content are counted exactly once. No element of the output is ever accessed by two concurrent tasks, whether the results are privatised or shared.",
     ["inputs", "programs", "schedules"], "all splits and interleavings of bodies and joins in the bound, all input orders and output structures of the alphabet, all lengths including zero",
     "whether privatisation is needed depends on the pair (order, output structure); races need a schedule that the test machine may never show",
     [I + "tbb.hpp"],
     [("tbb_reduce and tbb_reduce_bag", I + "tbb.hpp")],
     SCHED + "; every access is monitored for conflicting concurrent accesses", "up to 8-16 top-level steps, every split and join order, 13 output structures x 22 orders")

prop("P13", "Planned execution equals the loop nest it describes",
     "A planner over several structures executes its element body exactly once for every combination of the joined dimensions and its section bodies exactly once per section, in the loop order given by the structures, the sections and the applied order, with each body receiving the elements and indices of its own position. This holds for serial, task-parallel and algorithm-parallel execution alike.",
     ["inputs", "programs", "schedules"], "all combinations of structures, orders, section declarations and body kinds in the alphabet, all lengths",
     "tests run a few matrix kernels and compare a final sum",
     [I + "planner_iter.hpp", "extra/planner.hpp", I + "tbb.hpp", I + "std_para.hpp"],
     [("planner and its endings", B + "extra/planner.hpp"), ("planner ranges", I + "planner_iter.hpp")],
     EXPL, "joins of 1-3 structures, all orders of the alphabet, every section nesting, lengths 0..3")

prop("P14", "States behave as finite maps from dimensions to values",
     "Combining, restricting, extending, updating and comparing states gives what the same operation on a finite map from dimensions to values gives: the right operand overrides, removal and filtering affect only the named dimensions, and equality does not depend on the order in which dimensions were added or on whether values are constants. Neighbour and shift operations wrap modulo the index type and touch only the named dimensions.",
     ["inputs", "histories"], "all pairs of states over up to three dimensions and lengths, all operations, all values of the domain including the extremes of the index type",
     "tests build a handful of states",
     ["base/state.hpp", "extra/funcs.hpp", "extra/shortcuts.hpp"],
     [("state container", B + "base/state.hpp"), ("operator&, update_index, neighbor, filter_indices", B + "extra")],
     EXPL, "all ordered dimension sets of size 0..3 on both sides, every operation, extreme values")

prop("P15", "Bags own, share and address their memory exactly as declared",
     "Every owning bag allocates exactly the bytes its structure needs, frees them exactly once, never touches memory outside them, and a moved-from bag owns nothing; a non-owning bag never frees. Indexing, offsetting and re-viewing a bag address the same bytes as the structure alone, for every sequence of creation, move, re-view, reference and destruction; an owning bag can only be moved, and copies of a non-owning bag refer to the same memory.",
     ["histories", "inputs"], "all sequences of bag operations up to the depth bound over all bag kinds and structures of the alphabet",
     "ownership bugs need particular sequences (move then re-view then destroy), and tests do not watch the heap",
     ["interop/bag.hpp"],
     [("bag and its policies", I + "bag.hpp")],
     "explicit-state exploration of operation histories: every sequence of bag operations up to the depth bound is run on the real code over a tracked heap and compared with an ownership automaton and the structure's reference table", "sequences of 3-4 operations (quick), 5 (thorough), 5 bag kinds, lengths 0..3")

prop("P16", "Serialized data reads back identically, and failures are reported",
     "Writing a bag to a stream and reading it back restores every element of every structure, and the stream holds exactly one entry per element, in the traversal order of the structure. An input that ends or breaks at any point, or an output that fails at any point, is reported in the state of the stream and never writes outside the structure.",
     ["inputs", "fault_sequences"], "every structure of the alphabet, every cut point of the input and every failure point of the output",
     "tests read one complete well-formed file; they never cut or fail a stream",
     ["interop/serialize_data.hpp"],
     [("serialize_data, deserialize_data", I + "serialize_data.hpp")],
     "exhaustive fault injection on the real code: for every structure, the stream is cut or failed at every character position, and the resulting memory and stream state are compared with the reference", "structures up to 3 dimensions and 12 elements, every byte position of input and output")

prop("P17", "Introspection of one dimension agrees with the actual offsets",
     "Where a stride along a dimension is reported, moving by one along it changes the offset by exactly that stride, everywhere; an offset along a dimension is exactly that dimension's contribution to the full offset. A reported position of the lowest element along a dimension, in total or in a range, is where the lowest offset really is.",
     ["inputs", "programs"], "all compositions of structures and views in the alphabet, all lengths and indices in the bound, all sub-ranges",
     "tests check single layers with one length each; compositions and sub-ranges are not tested",
     ["introspection/stride_along.hpp", "introspection/offset_along.hpp", "introspection/lower_bound_along.hpp"],
     [("stride_along", B + "introspection/stride_along.hpp"), ("offset_along", B + "introspection/offset_along.hpp"), ("lower_bound_along, lower_bound_at", B + "introspection/lower_bound_along.hpp")],
     EXPL, "chains of 0-2 operations over 1-3 dimensions (3 in the thorough tier), all lengths up to 6")

prop("P18", "Shorthands mean exactly what they abbreviate",
     "A structure built like another one has that one's dimensions, in the same nesting order, with the same lengths, whether described by the structure, by a traverser over it or by an open structure with the lengths given separately. Trimming both ends of dimensions, fixing or sizing dimensions from a state, strip-mining, multi-dimensional broadcasting and static arrays give exactly the elements the spelled-out operations give, and the reported size of the index space is the number of elements a traversal visits.",
     ["programs", "inputs"], "all shorthands applied to all compositions of views and blocks in the alphabet, all subsets and orders of dimensions, all lengths and offsets in the bound",
     "tests use each shorthand on one plain matrix",
     ["extra/shortcuts.hpp", "extra/sig_utils.hpp"],
     [("vectors_like, lengths_like, symmetric_span(s), index_space_size, fix(state), strip_mine...", B + "extra/shortcuts.hpp"), ("dimension sequences", B + "extra/sig_utils.hpp")],
     EXPL, "sources: chains of 0-1 operations over 1-3 dimensions (2 in the thorough tier), every ordered subset of dimensions")

prop("P19", "A structure's textual description is source code that rebuilds it",
     "The text describing the type of a structure names exactly that type, and the text describing a structure object, compiled as C++, yields a structure of the same type with the same lengths and the same offset for every index. Every number in it is written completely, whatever its type, sign and size, and the text does not depend on the string type it is written to.",
     ["programs", "inputs"], "all compositions of structures and views in the alphabet with run-time and compile-time parameters; all 8- and 16-bit numbers and all decimal and binary boundaries of wider ones",
     "tests compare one array's text with a literal and never compile the text",
     ["extra/mangle.hpp", "base/structs_common.hpp"],
     [("mangle, mangle_expr", B + "extra/mangle.hpp"), ("names and parameters of structures", B + "structs")],
     "bounded exhaustive enumeration in two stages: every structure program emits its description, every description is compiled back and the rebuilt structure is compared index by index with the explicit-state table model", "about 1500 structures (chains of 0-2 operations), element types of every fixed width, constants beyond 32 bits")

prop("P20", "Stripes never share cells, avoid bank conflicts and stay aligned",
     "A structure striped for banked memory gives every stripe its own copy of every element: all copies are disjoint, aligned for their type and inside the reported size, neighbouring stripes are a constant distance apart, and a thread without an explicit stripe uses the one of its rank. No memory cell of the bank width holds data of two stripes, no bank does whenever the stripes fit side by side, and otherwise the number of stripes in a bank never exceeds the promised bound; the threads of a block divide among the stripes with consecutive ranks and correct counts.",
     ["configurations", "inputs"], "all stripe counts, bank geometries, element sizes, alignments and lengths in the bound, every element of every stripe, every block size up to 70",
     "tests check a few offsets of a few configurations",
     ["interop/cuda_striped.cuh"],
     [("striped layout", I + "cuda_striped.cuh")],
     "exhaustive enumeration of configurations executed on the real header over a simulated device (thread index set to every value), comparing every stripe and element with the documented guarantees and the table model", "stripe counts 1-40, 5 bank geometries, 12 element types, lengths up to 33 (more in the thorough tier)")

prop("P21", "Device threads together traverse exactly what the serial loop does",
     "When dimensions are bound to the grid and the block of a launch, or a dimension is divided among the threads of any group, block or grid, the threads of the launch together visit every element of the traversal exactly once, each thread in serial order, for every launch shape. The launch dimensions offered equal the lengths of the bound dimensions, and a launch without threads is recognised.",
     ["schedules", "inputs"], "all assignments of dimensions to grid and block axes, all orders of the alphabet, all lengths and launch shapes in the bound, every device thread",
     "tests run one thread of one launch",
     ["interop/cuda_traverser.cuh", "interop/cuda_step.cuh"],
     [("cuda_threads", I + "cuda_traverser.cuh"), ("cuda_step", I + "cuda_step.cuh")],
     "exhaustive simulation on the real headers: every device thread of every launch shape in the bound is executed (threads share nothing, so one interleaving suffices) and the union is compared with the table model", "1-3 axes, all permutations of up to 4 dimensions (6 partly), grids and blocks up to 12 threads")

prop("P22", "Grouping of transformations never matters",
     "Applying a series of transformations one after another, or first combining any of them into one transformation, gives the same structure with the same lengths and offsets, whatever the grouping; the same holds for orders applied to traversals and for views of bags. The neutral transformation changes nothing at any position, and applying a pack of transformations, or one transformation to each member of a pack, equals applying them one by one.",
     ["programs", "inputs"], "all bracketings of all compositions in the alphabet, the neutral element at every position, packs split at every position, all parameters",
     "tests compare two groupings of plain vectors by type",
     ["base/structs_common.hpp", "extra/traverser.hpp", "interop/bag.hpp", "base/contain.hpp"],
     [("operator^, compose_proto, pack, to_each", B + "base/structs_common.hpp"), ("parameter storage", B + "base/contain.hpp")],
     EXPL, "every bracketing of up to 4 transformations (14 trees) of every chain of 0-2 operations over 1-3 dimensions")

prop("P23", "A quantity a structure claims to know is available and right",
     "When a structure claims to know a length, its size or an offset from the given indices and lengths, the value can be obtained and is right for every possible value of whatever was not given; when everything is given, everything is known. Giving more never makes a known quantity unknown, and the dimensions, element type and shape class reported at compile time are those of the structure.",
     ["programs", "inputs"], "all compositions in the alphabet with every subset of lengths left open, every subset of indices and open lengths given in the query, all values of given and missing parameters",
     "tests query a few complete structures; partial knowledge is a separate branch of every layer",
     ["base/structs_common.hpp", "extra/funcs.hpp", "extra/struct_traits.hpp", "extra/struct_concepts.hpp", "structs/layouts.hpp", "structs/slice.hpp", "structs/blocks.hpp", "structs/views.hpp", "structs/setters.hpp", "structs/bcast.hpp"],
     [("has_length, has_size, has_offset of every layer", B + "structs"), ("front end queries", B + "extra/funcs.hpp"), ("is_point, is_cube, scalar_t, HasDims", B + "extra")],
     EXPL, "chains of 0-2 operations over 1-3 dimensions, all 2^n subsets of indices x all subsets of open lengths")

prop("P24", "Views of tuple dimensions select exactly the chosen fields",
     "Shifting, slicing, stepping, reversing, renaming, fixing or reordering the dimension of a tuple leaves exactly the chosen fields, in the chosen order, each at its own place with its own element type and its own inner lengths. The same holds for views of the other dimensions around and inside tuples, for any composition of both, and a traversal of the result visits exactly the remaining elements in the resulting nesting order.",
     ["programs", "inputs"], "all compositions of compile-time views of the tuple dimension and run-time views of the surrounding and nested dimensions in the alphabet; all lengths, every element",
     "tests apply no view to a tuple dimension except one or two fixes",
     ["structs/slice.hpp", "structs/views.hpp", "structs/setters.hpp", "structs/layouts.hpp", "extra/sig_utils.hpp", "extra/traverser.hpp"],
     [("tuple_t", B + "structs/layouts.hpp"), ("signatures of views", B + "structs/slice.hpp"), ("traversal of tuple dimensions", B + "extra/traverser.hpp")],
     EXPL, "4 tuple layouts (plain, array of tuples, tuple of arrays of different lengths, two outer dimensions), chains of 0-2 views, every element")

prop("P25", "The name of a dimension is only a label",
     "Which names the dimensions of a structure carry never matters, as long as they are distinct: characters, dimension objects, and objects that are easily confused (equal values of different types, tags of different types without a value, class-type tags) give the same structures, lengths, offsets, traversals and interoperability results. A state, order or view that names one dimension never affects another.",
     ["programs", "inputs"], "the programs of the other properties with their dimensions consistently renamed to easily confused ones, all lengths and indices in the bound",
     "tests use single characters nearly everywhere; named dimensions go through other comparisons and lookups",
     ["base/utility.hpp", "base/signature.hpp", "base/state.hpp", "extra/sig_utils.hpp", "extra/to_struct.hpp"],
     [("dim, dim_sequence, dim_tree", B + "base/utility.hpp"), ("signatures", B + "base/signature.hpp"), ("state lookup", B + "base/state.hpp"), ("dimension sets and reordering", B + "extra/sig_utils.hpp")],
     EXPL, "about 6,800 programs of P01-P03, P06-P10, P13, P14, P18, P22-P24 with renamed dimensions")

prop("P26", "Structures are plain values, the same at compile time and at run time",
     "Structures, transformations, orders, states, traversers, ranges and iterators are plain values: a byte-by-byte copy in any other memory, even after the original is gone, answers exactly like the original, and no query or traversal changes the object it is asked of. What is given at compile time takes no space and nothing is stored beyond what is given at run time. Every length, size, offset and traversal can be evaluated in a constant expression with the same result as at run time.",
     ["programs", "inputs"], "all compositions of structures, views, blocks, curves and tuples in the alphabet, each with its parameters given at run time and at compile time, as a structure, as a transformation and as an order of a traverser",
     "tests check the types of three structures and evaluate a few queries of plain ones at compile time",
     ["base/contain.hpp", "base/structs_common.hpp", "extra/traverser.hpp", "interop/traverser_iter.hpp"],
     [("storage of all structures, states and traversers", B + "base/contain.hpp"), ("conventions for types and functions", "docs/dev/Conventions.md"), ("iterators", B + "interop/traverser_iter.hpp")],
     EXPL, "about 1900 programs (chains of 0-2 operations over 1-3 dimensions), two or three parameter vectors each")

prop("P27", "Addresses compose: place of a part plus place in the part",
     "Every structure a composition is built from is a part of it. For every part and every element, the place of the part in the whole plus the place of the element in the part is the place of the element in the whole, the element lies inside the part, and an index of the whole means the same index of the part whether asked directly or layer by layer. A place of a part that is claimed from some of the indices is right for every completion, and accessing the element through the part gives the same object, as const and volatile as the memory it was given.",
     ["programs", "inputs"], "all compositions of layouts, views, blocks, curves and tuples in the alphabet, every part, pair of nested parts, subset of known indices and element",
     "tests ask for the offset of one part of one or two structures",
     ["base/structs_common.hpp", "extra/funcs.hpp", "structs/layouts.hpp", "structs/views.hpp", "structs/slice.hpp", "structs/blocks.hpp"],
     [("offset_of, state_at and their availability", B + "base/structs_common.hpp"), ("offset<Sub>, has_offset<Sub>, get_at", B + "extra/funcs.hpp"), ("layouts", B + "structs/layouts.hpp")],
     EXPL, "about 2500 programs (chains of 0-2 operations over 1-4 dimensions)")
