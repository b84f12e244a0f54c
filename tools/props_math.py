MT = ["basicmath/src/mt_mat.cpp", "basicmath/include/mt_mat.h"]
MW = "The tests sample a handful of shapes with one layout each; the claim is about every shape, depth, channel count and chain of views, where defects hide in particular step patterns."
MN = "The specification knows no steps or pointers: a view is the sequence of cells it consists of, so that every law about layouts is decided by comparing values with the real matrix after every command. Plans are behaviours of the specification generated by TLC (-simulate, seeded; shapes up to 4 dimensions of size 4 and 6 channels, ten depths); each recorded event is judged by TLC. Values are chosen so that the exact result is representable. Trusted: TLC, the specification (its laws are model-checked on small matrices), the driver that prints the cells through sizes and steps."
prop("A01", "Matrix views address exactly the elements they are documented to",
     "Sub-ranges, rows, columns, planes, channels, flips, transpositions and dimension swaps, strides, reshapes, splits and combinations of dimensions of a matrix have the documented sizes and channel count, and their element at every index is the documented element of the matrix they were taken from, for every chain of such operations on matrices of every depth, dimension, size, channel count and layout, including wrapped foreign memory with gaps and negative steps. A view that can be expressed without copying shares the memory, so that writes through either side are seen by the other at exactly the corresponding elements and nowhere else.",
     ["inputs", "histories"], "every chain of views over every shape, depth and layout, with writes in between", MW, MT + ["basicmath/src/mt_helper.cpp"],
     [("views", "mt_mat::sub, flip, swap_dim, t, sub_stride, sub_channel, reshape, split_dim, combine_dim, channel_as_last_dim, last_dim_as_channel"), ("element access", "mt_mat::at, ptr, set, get")],
     "Model: every view of a 3x2, 2x2x2 and 2x2 two-channel matrix reachable by the eight re-arrangements is injective, and the algebraic laws (flip twice, flips compose, swap twice, sub of sub, swap of flip) hold in each. " + MN, ["all live matrices after every call"])
prop("A02", "Copies are independent, views share, and memory lives as long as a handle",
     "Assignment and copy construction share the memory; clone, channel splitting, conversion and copying into a matrix of another shape give independent memory. The reference number of a matrix is the number of live handles of its memory, whatever sequence of creating, assigning, viewing, re-creating and destroying handles led there; memory stays valid while any handle exists, re-creating with an unchanged shape keeps the memory, and a wrapped foreign memory without ownership is never counted nor freed.",
     ["histories"], "every sequence of creating, sharing, copying, re-creating, writing and destroying handles", MW, MT,
     [("reference numbers", "mt_mat::reference_info, operator=, try_deallocate, create"), ("deep copies", "mt_mat::clone, copy_from, convert, split")],
     "Model: every state of two handles over a small matrix with all sharing, copying, writing and dropping commands (writes never leak into another store, common cells never disagree, counts are exact). " + MN, ["all live matrices, reference numbers and sharing queries after every call"])
prop("A03", "Element-wise arithmetic is exact and independent of the memory layout",
     "Addition, subtraction, multiplication and division of two matrices, of a matrix and one value or one value per channel (in both orders where offered), negation, absolute value, powers, comparison masks and the bias operations yield, at every element and channel, the value of the scalar operation in the depth of the matrix whenever that value is representable, in new memory or in place, for every depth, channel count and layout of the operands; operands are not changed.",
     ["inputs"], "every pair of operands of equal shape in every layout, depth and channel count, every operation", MW, ["basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_mat.cpp"],
     [("element-wise kernels for continuous and non-continuous operands of 1 to 3 and more dimensions", "private_math_operation in mt_mat_math_operation.cpp"), ("bias", "add_bias, substract_bias, mul_bias, div_bias"), ("masks", "element_compared_mask")],
     MN + " Overflowing and inexact cases are excluded by the specification's enabling conditions.", ["all live matrices after every call"])
prop("A04", "Filling, setting and converting write exactly the intended values",
     "Setting a matrix to one value, to one value per channel, to increasing values or to another matrix of any depth, setting single elements, converting between depths and constructing with initial values write exactly the documented value into every element of the target view and touch nothing else, for every layout of source and target.",
     ["inputs"], "every target and source layout, every pair of depths", MW, MT + ["basicmath/src/mt_array_iteration.cpp"],
     [("set and convert kernels", "private_mat::set, mt_mat::set, convert, set_incremental"), ("array copying", "mt_array_iteration")], MN, ["all live matrices after every call"])
prop("A05", "Reductions, repetition, expansion and merging combine the right elements",
     "Reducing along a dimension or within channels (sum, mean, maximum, minimum, variances and standard deviations), repeating, expanding with a border value, concatenating along a dimension or along channels, splitting channels and adding or multiplying a list of matrices give a matrix of the documented size in which every element is computed from exactly the documented elements, for every layout and number of inputs.",
     ["inputs"], "every list of matrices of matching shapes and every layout", MW, ["basicmath/src/mt_mat_math_operation.cpp", "basicmath/src/mt_mat_helper.cpp", "basicmath/src/mt_mat.cpp"],
     [("reduce", "mt_mat::reduce"), ("repeat, expand", "mt_mat::repeat, expand"), ("merge", "mt_mat_helper::merge_align_dim, merge_align_channel, add, dot")],
     MN + " Sums, means and variances are taken where they are exact.", ["all live matrices after every call"])
prop("A06", "Comparison, iteration and index queries see a matrix as its elements",
     "Equality of matrices means equal shape, depth and elements whatever the layouts; the zero test, element count, byte size, sharing and size comparisons answer by the same view; iterators visit every element once in index order, in blocks as well as one by one; reading an element and finding the index of an element's address are inverse to one another.",
     ["inputs", "histories"], "every matrix and pair of matrices in every layout", MW, MT + ["basicmath/src/mt_array_iteration.cpp", "basicmath/include/mt_array_iteration.h"],
     [("comparison", "mt_mat::operator==, is_zero, is_same, is_memory_shared"), ("iteration", "mt_array_element_const_iterator, mt_array_memory_block_const_iterator, mt_array_index_iterator"), ("index lookup", "mt_mat::get_index")], MN, ["answers of the queries"])
prop("A07", "Saved matrices load back equal",
     "Writing a matrix of any depth, shape, channel count and layout as JSON and reading it back yields a matrix of the same sizes, channels and depth with equal elements in its own memory, through the text and the binary form, in memory and in files.",
     ["inputs"], "every matrix in every layout, both forms, memory and file", MW, ["basicmath/src/mt_mat_serialize.cpp", "basicsys/src/sys_json.cpp", "basicsys/src/sys_buffer.cpp"],
     [("serialisation", "write(sys_json_writer&, const mt_mat&), read(mt_mat&, const sys_json_reader&)")], MN, ["the loaded matrix"])
AN = "The definitions in Alg.tla say what a call has to achieve; TLC checks the step-by-step algorithms against them for every small input (bounded heap and heap sort; best slice, longest common substring and 0-1 bag) and judges every recorded call. Plans are generated by TLC (-simulate, seeded) with many equal values, ascending and descending input, empty and one-element input. Trusted: TLC, the definitions, the driver."
prop("A08", "Sorting and selection return a permutation in the requested order",
     "The three sorts return the values they were given in ascending or descending order as asked, the indexed one together with the permutation that leads there; partitioning into odd and even keeps the multiset, and the order within both parts where asked; the streaming selection holds exactly the k best values of everything it has seen after every value, sorted on request; median, maximum, minimum, their positions (the first one on ties) and the extreme absolute values are those of the data, and the data is not changed where that is promised.",
     ["inputs", "histories"], "every sequence of values of every numeric type, every k, both orders, every sequence of insertions and queries", "The tests sort a few arrays; the claim is about every input, including ties, negative values and inputs shorter than k.",
     ["basicmath/include/mt_sort.h", "basicmath/include/mt_top_k.h", "basicmath/include/mt_helper.h"],
     [("sorts and heaps", "mt_sort::sort, bubble_sort, heap_sort, init_heap, heap_adjust"), ("selection", "mt_top_k::traverse, get_top_k, get_sorted_top_k"), ("extremes", "mt_helper::median_*, index_of_*, compute_*, odd_even_sort")], AN, ["returned values"])
prop("A09", "Helpers, dynamic programs and random draws meet their definitions",
     "Array helpers (reversal, slices, prefix sums, sums, products, index conversions that are inverse to one another), number helpers (set bits, byte reversal, counting ones, inserting a five for the greatest number, rounding half away from zero, three-way comparison for every type, factorials and binomials, angles, depth names that read back as written), the splitting of an array into the two parts with the most distant means, histograms that count every value once, the 0-1 bag, the longest common substring with all its positions and the continuous slice with the greatest sum return the defined optimum and a witness for it. Random integers and reals lie in the requested range, permutations are permutations, and after setting a seed the same draws give the same numbers.",
     ["inputs", "histories"], "every input of these functions and every sequence of seeds and draws", "Optimality and ranges are claims over all inputs; a handful of examples cannot tell a wrong recurrence from a right one.",
     ["basicmath/include/mt_helper.h", "basicmath/src/mt_helper.cpp", "basicmath/include/dynamic_programming/mt_01_bag.h", "basicmath/include/dynamic_programming/mt_longest_common_substring.h", "basicmath/include/dynamic_programming/mt_max_sum_for_continuous_element.h", "basicmath/src/mt_random.cpp", "basicmath/src/mt_hist.cpp", "basicmath/src/mt_data_type.cpp"],
     [("recurrences", "dynamic_programming/*"), ("helpers", "mt_helper"), ("random numbers", "mt_random"), ("histogram", "mt_hist::hist")], AN + " The standard shuffle has its own generator, so permutations are not claimed to repeat.", ["returned values"])
prop("A10", "Rectangles behave as the sets of pixels they stand for",
     "A rectangle made from corners, from a position and size or by changing another one covers exactly the intended pixels; moving, resizing, scaling, adjusting, appending points and rectangles (the smallest rectangle covering all), squaring by expansion or shrinking, normalising exchanged corners and clamping into another rectangle give the stated rectangle, in place and as a new one; containment, borders, intersection with its extent, overlap ratios and thresholds, distances and the same-line test answer as counting pixels would.",
     ["inputs", "histories"], "every sequence of operations on rectangles of every position and size, with empty and inverted ones where defined", "The tests build a few rectangles; regions, components and rendering rely on these answers for all of them.",
     ["basicmath/include/mt_rect_t.h", "basicmath/include/mt_point_t.h", "basicmath/include/mt_size_t.h"],
     [("rectangle operations", "mt_rect_t")],
     "Model: for every pair of rectangles reachable by small commands the formulas on borders agree with the sets of pixels (intersection, hull, containment, squares, normalisation). Code: sessions generated by TLC over 32- and 64-bit coordinates; every answer judged by TLC. Trusted: TLC, Rect.tla, the driver.", ["rectangles and answers"])
