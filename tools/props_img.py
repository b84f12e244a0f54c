prop("C01", "Connected components are exactly those of the image",
     "Extracting connected components yields each maximal 4- or 8-connected set of the pixels that take part (all, those inside a rectangle, those a mask image marks with 1, those different from a background value in some channel) exactly once, with all its pixels and its bounding rectangle, and none for an image in which nothing takes part; extracting from a start pixel yields the component of that pixel. This holds for byte, integer and three- and four-channel images, for parts of larger images and flipped views, and for objects used before; the image is not changed. Copied, assigned, released and deleted components keep their pixels and rectangle and those of all others. A picture of components shows the one color on their pixels, seen from the rectangle asked for, and the other elsewhere, gray or colored as asked; a chessboard alternates between 0 and 255 in blocks of the given size from 0; the level image of a result shows per pixel the most extreme level of the regions of the chosen polarity on it and the first region that has it, and -1 and the far end elsewhere; a point is in an image, and on its border, as its coordinates say.",
     ["inputs", "histories"], "every image, mask, neighbourhood and layout, and every sequence of extracting, copying and deleting", IMG,
     ["basicimg/include/img_connected_component.h", "basicimg/src/img_connected_component.cpp", "basicimg/src/img_mser_result.cpp", "basicimg/src/img_img.cpp", "basicimg/include/img_img.h"],
     [("extraction", "ml_connected_component_base::ture_normal_extract, ture_single_extract, normal_extract_start, normal_extract_stop; img_connected_component_helper::connect_component"), ("objects", "img_connected_component, img_multi_connected_components"), ("pictures", "image_from_connected_component, genarate_chessboard, generate_mser_channel_image, point_in_image")],
     "Model: the labelling used by the specification meets the definition (partition into maximal connected sets, rectangles, start pixel) on every image of 3x3 (thorough 3x4) pixels. Plans are behaviours of the specification generated by TLC (-simulate, seeded) and replayed into the real classes; after every call all objects and images are read back and judged by TLC. Trusted: TLC, the specification, the driver.", ["components, pictures, images after every call"])
prop("C02", "Edge detection marks exactly the edges of the gradients given",
     "Given gradient images and, optionally, a magnitude, the detector marks with 255 exactly the pixels that are larger than the lower threshold, largest among the two neighbours along their gradient (rounded to a row, a column or one of the diagonals; where the neighbour before and the pixel are equal in a row or column the pixel is not largest, nor where one of the diagonal neighbours is equal), and connected through such pixels to one above the higher threshold; all others are 0, and what lies outside the image counts as 0. Without a magnitude it is the sum of the absolute gradients or their euclidean length, as chosen. Thresholds and gradients count by their integer part. This holds for every size, for parts of larger images and flipped views, for target matrices of any size, and depends on the current call only, whatever was detected with the same detector or its copies before; the images given are never changed, and the detector shows the gradients and magnitude it used last and the parameters it was given. Gradient magnitudes asked for directly have the values of the chosen norm.",
     ["inputs", "histories"], "every gradient image, magnitude, thresholds and norm, and every sequence of detections with one detector", IMG,
     ["basicimg/src/img_canny.cpp", "basicimg/include/img_canny.h", "basicimg/src/img_img.cpp"],
     [("candidates and tracking", "img_canny::canny_impl"), ("sessions", "img_canny::edge_detection, clear_memory_cache"), ("magnitude", "img_img::generate_gradient_mag")],
     "Model: scanning and tracking as the code does marks the pixels of the definition for every placement of weak and strong candidates on 3x3 (thorough 3x4) pixels. Plans are behaviours of the specification generated by TLC (-simulate, seeded) and replayed into the real classes; every result is judged by TLC. The gradients are always given: computing them needs the OpenCV library, which is not here. Trusted: TLC, the specification, the driver.", ["edges, gradients, magnitude, the images given"])
