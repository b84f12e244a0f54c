TRUST = "Trusted: the TLA+ definition in spec/mser (itself model-checked against the set definition of extremal regions on every small image), TLC, the driver that prints results. The code is judged on every execution recorded (exhaustive for tiny images where stated, seeded otherwise), not proved for all."
prop("M01", "Extracted regions are exactly the extremal regions of the image",
     "With the stability, suppression and duplicate filters switched off, an extraction by either fast algorithm, the linked linear one or the MS one reports exactly the connected components of every threshold set of the image (in both polarities) whose size lies within the configured limits and which are not the whole image, each once. Every reported region carries its exact set of pixels, its size, its gray level and its tight bounding rectangle.",
     ["inputs", "configurations"], "every 8-bit image at least as large as the partition grid, 4 or 8 neighbours, every supported number of threads, every size limit",
     IMG, V, [("flooding with a boundary heap and a component stack", "basicimg/src/img_fast_mser_v1.cpp make_tree_patch; img_fast_mser_v2.cpp make_tree_patch; img_linked_linear_mser.cpp make_tree; img_ms_mser.cpp"), ("merging of the partition trees", "img_fast_mser_v1.cpp merge_tree/connect; img_fast_mser_v2.cpp"), ("collection of pixels and rectangles", "extract_pixel*")],
     "Model: construction = definition on every 2x4 image with masked pixels (thorough: 3x3, 2x5). Code: every 2x3 image over {0,1,255} and every binary 3x3 image on the partitioned algorithms, hundreds of seeded images of ten kinds, images up to 72x72 with thousands of regions. " + TRUST,
     ["result lists of extract: points, size, gray level, rectangle"])
prop("M02", "The stability and size filters select by the documented variation",
     "A region is reported if and only if its size lies between the minimal point count and the maximal share of the image, it is not the root, and its variation - the relative growth up to the largest region containing it within delta gray levels - does not exceed the stability threshold. A region for which the image ends before delta levels are reached has no variation and passes this filter, and delta zero switches the filter off.",
     ["inputs", "configurations"], "every image, every delta in 0..255, stability threshold, minimal point count and maximal share",
     IMG, V, [("recognition of regions", "recognize_mser*, get_stable_region / calculate variation in each algorithm")],
     "Model: thresholds are monotone, negatives exchange the polarities (every small image). Code: seeded images and parameters incl. delta 255 and thresholds at equality; cases too close for 32-bit floats are recognised by the specification and left open. " + TRUST, ["result lists of extract"])
prop("M03", "Non-maximum suppression keeps the more stable of adjacent nested regions",
     "With suppression enabled a region is dropped exactly when a region that directly contains it or is directly contained in it at the neighbouring gray level has a variation smaller by more than the configured similarity. The outcome does not depend on the order in which regions were found, and suppression switched off drops nothing.",
     ["inputs", "configurations"], "every image, delta, stability threshold, similarity (negative: off) and number of threads", IMG, V,
     [("suppression", "recognize_mser* in each algorithm, m_nms_similarity")],
     "As M02 with parameters focused on suppression. " + TRUST, ["result lists of extract"])
prop("M04", "Duplicate removal keeps the middle region of a chain of near-duplicates",
     "Among nested regions whose sizes differ by at most the configured share, taken in ascending gray order, exactly the middle one of each chain is reported and the others are not; a share of zero or below switches the removal off. No region that has no near-duplicate is ever lost.",
     ["inputs", "configurations"], "every image and duplicate share", IMG, V, [("duplicate removal", "remove_duplicated* / recognition in each algorithm, m_duplicated_variation")],
     "Model: removal selects a non-empty subset of what is reported without it (every small image). Code: seeded images with deep nesting (ramps, rings, walks) and shares at equality. " + TRUST, ["result lists of extract"])
prop("M05", "The number of threads and the partitioning never change the result",
     "For the same image and parameters both fast algorithms report the same set of regions for every supported number of threads (1, 2, 4, 8, 16, 32 and 1, 4, 32), whatever the division of the image, the number of workers and their scheduling. Regions that touch, cross or exactly fill partitions are no exception.",
     ["inputs", "schedules", "configurations"], "every image at least as large as the grid, every thread number and worker count, every schedule of the parallel loops", IMG,
     V[:2] + ["basicimg/include/img_fast_mser_v1.h", "basicimg/include/img_fast_mser_v2.h"], [("partition, merge, parallel recognition and pixel collection", "img_fast_mser_v1.cpp *_parallel_*; img_fast_mser_v2.cpp *_parallel_*, *_worker")],
     "Model: merging partition trees over border pairs in any order gives the tree of the whole image (Merge.tla). Code: the same images through every thread number, on reused and fresh instances, with 1, 3, 8 (thorough: 16) OpenMP workers. Schedules of OpenMP are sampled, not enumerated. Known finding: 8 neighbours across partitions. " + TRUST, ["result lists of extract for each thread number"])
prop("M06", "An extraction depends only on its image and the current parameters",
     "Whatever an extractor instance did before - images of other sizes and contents, other parameters, polarities, thread numbers or masks, cleared caches - and whatever other instances exist or were deleted, its next extraction reports what a fresh instance with the same parameters would report. The input image is not modified.",
     ["histories", "inputs"], "every sequence of construction, parameter changes, extractions, cache clearing and deletion over several instances", IMG, V,
     [("buffers kept between extractions", "allocate_memory*, clear_memory_cache in each algorithm"), ("block memory", "basicmath/include/mt_block_memory.h")],
     "Plans are behaviours of the session specification generated by TLC (-simulate), executed against the real classes; each recorded event is judged by Mser.tla, whose instances have no state besides their parameters. " + TRUST, ["every extraction's result lists; the image after the call"])
prop("M07", "A result object owns its regions",
     "Copying or assigning a result object yields an equal, independent one: later extractions into, changes of, or destruction of the source, of other results or of the extractor never change the regions, points or rectangles of an existing result. Extracting into a result object replaces its previous contents entirely.",
     ["histories"], "every sequence of extract, copy, assign (also to itself), clear, delete over several result objects and instances", IMG,
     ["basicimg/src/img_mser_base.cpp", "basicimg/include/img_mser_base.h", "basicimg/src/img_mser_result.cpp"], [("ownership of point memory", "img_mser, img_multi_msers copy constructor and assignment in img_mser_base.cpp")],
     "Plans generated by TLC from the session specification; after every step every live result object is printed in full and compared with the specification's state. " + TRUST, ["all live result objects after every call"])
prop("M08", "Masked pixels never belong to a region, and regions respect the mask",
     "With an image mask or a value mask, the linked linear algorithm reports exactly the regions of the image in which the masked pixels lie above every gray level in either polarity: no reported region contains a masked pixel and regions do not connect through masked pixels. An extraction without a mask after one with a mask is not affected by it.",
     ["inputs", "histories"], "every image, every mask image and mask value, both polarities, 4 and 8 neighbours", IMG, ["basicimg/src/img_linked_linear_mser.cpp", "basicimg/include/img_mask_info.h"],
     [("masked image preparation", "img_linked_linear_mser.cpp init of the masked image (level 256)")],
     "Model: construction = definition also with masked pixels. Code: seeded masks (noise, rectangles, walls, sparse, whole levels) combined with all filters. Only the linked linear algorithm implements masks; rectangle masks are not implemented by any algorithm and are out of scope. " + TRUST, ["result lists of extract with a mask"])
prop("M09", "Results do not depend on how the image lies in memory",
     "An image given as a sub-matrix of a larger one or as a vertically flipped view yields the same regions, in its own coordinates, as the same pixels in a continuous matrix. Pixels outside the view are never read as part of the image.",
     ["inputs", "configurations"], "every image, padding and vertical flip", IMG, V, [("row steps", "use of step() in make_tree*, allocate and merge code of each algorithm")],
     "Each image is extracted in two of the three layouts and judged on its pixels alone. Views whose columns are not adjacent (transposed) are not supported by the library and out of scope. " + TRUST, ["result lists of extract"])
prop("M10", "Each polarity is extracted exactly when it is enabled",
     "Enabling or disabling the dark-on-bright or bright-on-dark extraction reports that polarity's regions completely or not at all, without influence on the other, in any order of switching on one instance. The bright regions of an image are the dark regions of its negative, with complementary gray levels.",
     ["inputs", "histories", "configurations"], "every image and every sequence of enablings", IMG, V, [("channels", "img_mser_base.cpp extract; gray_mask in each algorithm")],
     "Model: the negative exchanges the polarities (every small image). Code: permutations of the enablings on one instance, with the image and its negative. " + TRUST, ["both result lists of extract"])
prop("M11", "All encodings of a region's pixels are equivalent, also when rendered",
     "For every value of the recursion threshold the pixels of a reported region - stored directly, shared, as a range, per partition or through nested regions - are the same set, in the original and in copies of the result. Rendering a region paints exactly its pixels, centred around its bounding rectangle, and nothing else.",
     ["inputs", "configurations"], "every image, recursion threshold, number of threads and region", IMG, ["basicimg/src/img_mser_helper.cpp"] + V, [("encodings", "extract_pixel* (Memory_Type_*)"), ("decoding", "img_mser_helper.cpp image_from_mser")],
     "Each image is extracted with three recursion thresholds; regions are decoded by the driver and rendered by the library, and both are judged by Mser.tla. Scaling to a destination size needs OpenCV and is not covered. " + TRUST, ["points of the result; rendered images"])
