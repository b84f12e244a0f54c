From 50a768efb22b44664d9ec011ebd53dc5cb2a1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 01/93] fix: fast mser v1 leaves the last top regions without
 pixels when the per-thread shares round down

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..06e426f 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -3091,13 +3091,9 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_size += cur_region->m_size;
 		parallel_stop_indexes[index] = i;
 
-		if (cur_size > parallel_size) {
+		if (cur_size > parallel_size && index < m_parallel_thread_number - 1) {
 			++index;
 
-			if (index == m_parallel_thread_number) {
-				break;
-			}
-
 			memory_offsets[index] = cur_size;			
 			parallel_size += quarter_size;
 		}
-- 
2.43.0


From 43dc1f3b81a6542912557fceb0534809d950a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 02/93] fix: fast mser v1 with one thread returns no rectangle
 and a pair of indexes in place of the point pointer

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 06e426f..327651d 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2969,12 +2969,12 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 		cur_region = m_gray_order_regions[i];
 
 		cur_mser.m_size = cur_region->m_size;
+		cur_mser.m_rect.set_rect(cur_region->m_left, cur_region->m_top, i32(cur_region->m_right - cur_region->m_left + 1), i32(cur_region->m_bottom - cur_region->m_top + 1));
 		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_mser.m_memory_type = img_mser::Memory_Type_Range;
 		
-		i32* pt_range = (i32*)&cur_mser.m_points;
-		pt_range[0] = m_linked_points[cur_region->m_head].m_ref;
-		pt_range[1] = m_linked_points[cur_region->m_tail].m_ref;
+		// store start memory index
+		cur_mser.m_points = memory + m_linked_points[cur_region->m_head].m_ref;
 	}
 }
 
-- 
2.43.0


From 272b3244cfc6300b4c289490c84c9704ff227f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 03/93] fix: fast mser v2 reports the inverted gray level for
 the regions from max

---
 basicimg/src/img_fast_mser_v2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..ab9707e 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1876,7 +1876,6 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From 222808a079de41835cc9292c15abc63e79ed33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 04/93] fix: fast mser v2 collects pixels of exactly four
 partitions with 1 and 32 threads too

---
 basicimg/src/img_fast_mser_v2.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ab9707e..10d35a8 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,13 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	u32 partition_start_indexes[4];
+	u32 partition_stop_indexes[4];
+
+	for (u32 i = 0; i < 4; ++i) {
+		partition_start_indexes[i] = (u32)m_pinfo.size() * i / 4;
+		partition_stop_indexes[i] = (u32)m_pinfo.size() * (i + 1) / 4;
+	}
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From f5d9a243363cdb389495f1f0fd89295627a15706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 05/93] fix: fast mser v2 rectangle misses pixels of partitions
 that extend it on two opposite sides

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 10d35a8..3d35bbf 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1990,13 +1990,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From ee54688618662a40277a0b04613839aae282692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 06/93] fix: ms mser and fast mser v2 crash with 8 neighbours
 because only four directions are toured

---
 basicimg/src/img_fast_mser_v2.cpp | 3 ++-
 basicimg/src/img_ms_mser.cpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 3d35bbf..13f16e9 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -267,13 +267,14 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 
 	i16 nbr_gray;
 	i32 nbr_index;
+	const i32 direction_number = (img_Connected_Type_8_Neibour == m_connected_type) ? 8 : 4;
 	u32* nbr_points;
 
 	for ( ; ; ) {
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index <= direction_number) {
 			// get the neighbor
 			nbr_points = points + dir[nbr_index];
 
diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9d46482..bd6b0bc 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -245,13 +245,14 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 	
 	i16 nbr_gray;
 	i32 nbr_index;
+	const i32 direction_number = (img_Connected_Type_8_Neibour == m_connected_type) ? 8 : 4;
 	u32* nbr_points;
 
 	for ( ; ; ) {
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index <= direction_number) {
 			// get the neighbor
 			nbr_points = points + m_dir[nbr_index];
 
-- 
2.43.0


From e659b4bb80d58095f931a7474581898fbad5938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 07/93] fix: channel image of the regions from max paints the
 levels of the regions from min

---
 basicimg/src/img_mser_result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_mser_result.cpp b/basicimg/src/img_mser_result.cpp
index 19935f8..86c46dd 100644
--- a/basicimg/src/img_mser_result.cpp
+++ b/basicimg/src/img_mser_result.cpp
@@ -84,7 +84,7 @@ img_mser_channel_image img_mser_result::generate_mser_channel_image(const mt_mat
 				const mt_point& pt = m_msers[1][j].m_cc.m_points[k];
 
 				if (m_msers[1][j].m_level > channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
-					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[0][j].m_level;
+					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[1][j].m_level;
 					channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) = j;
 				}
 			}
-- 
2.43.0


From 699037c5ddf658c272880c469be5e513d31b9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 08/93] fix: copies of multi msers refer to the memory of their
 source and mix malloc with delete[]

---
 basicimg/src/img_mser_base.cpp | 43 ++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..107e905 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
@@ -51,23 +58,29 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
-	m_msers[0] = other.m_msers[0];
-	m_msers[1] = other.m_msers[1];
+	if (this == &other) {
+		return;
+	}
+
+	for (i32 i = 0; i < 2; ++i) {
+		m_msers[i] = other.m_msers[i];
+		m_memory_size[i] = other.m_memory_size[i];
 
-	m_memory_size[0] = other.m_memory_size[0];
-	m_memory_size[1] = other.m_memory_size[1];
+		basicsys_free(m_memory[i]);
 
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
+		if (m_memory_size[i] > 0) {
+			m_memory[i] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[i]);
+			memcpy(m_memory[i], other.m_memory[i], sizeof(mt_point) * m_memory_size[i]);
 
-	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
-		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
-	}
+			// The points of the shared memory types must refer to the copied memory.
+			for (i32 j = 0; j < (i32)m_msers[i].size(); ++j) {
+				img_mser& cur_mser = m_msers[i][j];
 
-	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
-		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
+				if (cur_mser.m_memory_type != img_mser::Memory_Type_Self && cur_mser.m_points != NULL) {
+					cur_mser.m_points = m_memory[i] + (cur_mser.m_points - other.m_memory[i]);
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 3ddaf9c8b61ed33f8e13944acc5131b7804bdeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 09/93] fix: linked linear mser ignores the value mask for the
 regions from min

---
 basicimg/src/img_linked_linear_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index a6abff5..32d204b 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -391,8 +391,8 @@ void img_linked_linear_mser::pre_process_image(const mt_mat& src, u8 gray_mask,
 						srcValue = *srcptr;
 					}
 
-					level_size[*srcptr]++;
-					*imgptr = *srcptr;
+					level_size[srcValue]++;
+					*imgptr = srcValue;
 
 					imgptr++;
 					srcptr++;
-- 
2.43.0


From f385e27f33f6ffd14850ab873a74eb30fdfa8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 10/93] fix: ms mser reads the gap between the rows of a
 sub-matrix as pixels

---
 basicimg/src/img_ms_mser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index bd6b0bc..bdc61b0 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -181,6 +181,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 
 				*points++ = m_boundary_pixel;
 				extended_image_data += 2;
+				img_data += img.step()[0] - width;
 			}			
 		}
 
-- 
2.43.0


From ba5a396f37dc8aae7d7d2364bd500a7d0ccd4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 11/93] fix: ms mser and fast mser v2 size the heap for the
 wrong polarity when only the regions from max are enabled

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 basicimg/src/img_ms_mser.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 13f16e9..bfbf287 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -430,7 +430,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index bdc61b0..958df24 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -174,7 +174,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < width; ++col) {
-					m_level_size[*img_data]++;
+					m_level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 176e98fb646ccc14e0ae42aca3745f207c0cb481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 12/93] fix: fast mser v1 and v2 wrap the row offset of images
 whose rows run backwards

---
 basicimg/src/img_fast_mser_v1.cpp | 2 +-
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 327651d..122756f 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -1309,7 +1309,7 @@ void img_fast_mser_v1::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 	timer.begin();
 	
 	const u8* img_data = img.ptr<u8>(pinfo.m_top, pinfo.m_left, 0);
-	u32 img_cpt = img.step()[0] - pinfo.m_width;
+	i32 img_cpt = img.step()[0] - pinfo.m_width;
 	i16* masked_image_data = pinfo.m_masked_image_data;
 	u32* level_size = pinfo.m_level_size;
 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index bfbf287..3635b3a 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -414,7 +414,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 	if (gray_mask == 0 || !m_from_min_max[0]) {
 		u8* extended_image_data = pinfo.m_extended_image;
 		const u8* img_data = img.ptr<u8>(pinfo.m_top, pinfo.m_left, 0);
-		u32 img_cpt = img.step()[0] - pinfo.m_width;
+		i32 img_cpt = img.step()[0] - pinfo.m_width;
 		memset(level_size, 0, sizeof(u32) * 257);
 
 		//set the first row to be -1
-- 
2.43.0


From 0eed7f461c2fff9d23d278dcf7c11d27bbcddd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 13/93] fix: linked linear mser stores the level of masked
 pixels as zero

---
 basicimg/include/img_linked_linear_mser.h | 2 +-
 basicimg/src/img_linked_linear_mser.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_linked_linear_mser.h b/basicimg/include/img_linked_linear_mser.h
index 77d3a0f..3761fce 100644
--- a/basicimg/include/img_linked_linear_mser.h
+++ b/basicimg/include/img_linked_linear_mser.h
@@ -52,7 +52,7 @@ namespace basicimg {
 			u8 m_calculated_var;
 			u8 m_has_child;
 
-			u8 m_gray_level;
+			i16 m_gray_level;	//to save value 256 we need the i16 type
 			i32 m_size;
 			
 			union {
diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index 32d204b..0edf34c 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -5,7 +5,7 @@
 // clear the connected component in stack
 void img_linked_linear_mser::init_comp(connected_comp* comptr, mser_region*& region) {
 	comptr->m_size = 0;
-	region->m_gray_level = (u8)comptr->m_gray_level;
+	region->m_gray_level = comptr->m_gray_level;
 	region->m_region_flag = mser_region::Flag_Unknow;
 
 	region->m_calculated_var = 0;
@@ -17,7 +17,7 @@ void img_linked_linear_mser::init_comp(connected_comp* comptr, mser_region*& reg
 }
 
 void img_linked_linear_mser::new_region(connected_comp* comptr, mser_region*& region) {
-	region->m_gray_level = (u8)comptr->m_gray_level;
+	region->m_gray_level = comptr->m_gray_level;
 	region->m_region_flag = mser_region::Flag_Unknow;
 
 	region->m_calculated_var = 0;
-- 
2.43.0


From c62b5f158b843f6ff6a532585009a955cbbe1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 14/93] fix: copies of a block memory share its blocks, so
 changing the number of threads frees them twice

---
 basicmath/include/mt_block_memory.h | 43 +++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..b83c6ce 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -79,10 +79,53 @@ namespace basicmath {
 			}
 		}
 
+		mt_block_memory(const mt_block_memory& other) {
+			default_param();
+			*this = other;
+		}
+
 		~mt_block_memory() {
 			clear();
 		}
 
+		// the copy holds the same elements in blocks of its own
+		mt_block_memory& operator=(const mt_block_memory& other) {
+			if (this == &other) {
+				return *this;
+			}
+
+			clear();
+
+			if (other.m_datas.empty()) {
+				return *this;
+			}
+
+			init(other.m_block_size_2_base, other.m_use_new, other.m_resue_max_number);
+
+			for (i32 i = 0; i < other.m_element_number; ++i) {
+				*m_cur_data = other.at(i);
+				++m_cur_data;
+				++m_element_number;
+
+				if (m_cur_data >= m_cur_block_end) {
+					next_block();
+				}
+			}
+
+			for (i32 i = 0; i < other.m_reuse_number; ++i) {
+				const T* reuse = (const T*)((const u8*)other.m_begin + other.m_reuse_indexes[i]);
+
+				for (i32 b = 0; b <= other.m_cur_block; ++b) {
+					if (reuse >= other.m_datas[b] && reuse < other.m_datas[b] + m_block_size) {
+						m_reuse_indexes[m_reuse_number++] = (u8*)(m_datas[b] + (reuse - other.m_datas[b])) - (u8*)m_begin;
+						break;
+					}
+				}
+			}
+
+			return *this;
+		}
+
 		void clear() {
 			for (i32 i = 0; i < (i32)m_datas.size(); ++i) {
 				if (m_use_new) {
-- 
2.43.0


From 4bea65a2216fd3d09f0844c4acc24d6484b8390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 15/93] fix: a block memory with blocks of one element reads
 its first block before there is one

---
 basicmath/include/mt_block_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index b83c6ce..ed70d20 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -151,7 +151,7 @@ namespace basicmath {
 		void init(i32 block_size_2_base, b8 use_new = sys_false, i32 max_reuse = 0) {
 			basiclog_assert2(block_size_2_base >= 0);
 
-			if (block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
+			if (!m_datas.empty() && block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
 				m_cur_block = 0;
 				m_cur_data = m_datas.front();
 				m_cur_block_end = m_cur_data + m_block_size;
-- 
2.43.0


From af01693232fb6eea34a498ddd9c5f93b5e341723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 16/93] fix: three dimensional copies and comparisons walk the
 plane pointer instead of the row pointer

---
 basicmath/src/mt_array_iteration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index e309d43..c2a885d 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -54,8 +54,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -124,8 +124,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
-- 
2.43.0


From 112c79c337d4da78a7baa4ea5457d2269ea49875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 17/93] fix: array iteration copies small arrays twice and
 reads steps behind the last dimension

---
 basicmath/src/mt_array_iteration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index c2a885d..2ff0710 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -187,16 +187,18 @@ b8 mt_array_iteration::array_iteration(u8* dst, const u8* src, int ndims, const
 	int max_continuous_dim = max(src_continuous_dim, dst_continuous_dim);
 
 	if (max_continuous_dim != 0) {
-		if (ndims <= 4) {
+		if (ndims <= 3) {
 			if (type == mt_Array_Copy) {
 				private_array_iteration::memcpy(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
+
+				return sys_true;
 			} else {
 				return private_array_iteration::memcmp(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
 			}
 		}		
 	}
 
-	if (mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
+	if (max_continuous_dim < ndims && mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
 		mt_array_memory_block_const_iterator src_iteartor(src, ndims, sizes, src_steps, max_continuous_dim, element_size);
 		mt_array_memory_block_iterator dst_iteartor(dst, ndims, sizes, dst_steps, max_continuous_dim, element_size);
 
-- 
2.43.0


From 87c2bd49be177f51fc90b00a432546cd27dd142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 18/93] fix: memory block iterator measures blocks with the
 depth in place of the element size

---
 basicmath/src/mt_array_iteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index 2ff0710..609ac06 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -409,8 +409,8 @@ void mt_array_memory_block_const_iterator::init_construct(const u8* data, int nd
 }
 
 mt_array_memory_block_const_iterator::mt_array_memory_block_const_iterator(const mt_mat& mat) {
-	int continious_dim = mt_array_iteration::get_continuous_dim(mat.dim(), mat.size(), mat.step(), mat.depth());
-	init_construct(mat.data(), mat.dim(), mat.size(), mat.step(), continious_dim, mat.element_channel_size());
+	int continious_dim = mt_array_iteration::get_continuous_dim(mat.dim(), mat.size(), mat.step(), mat.element_size());
+	init_construct(mat.data(), mat.dim(), mat.size(), mat.step(), continious_dim, mat.element_size());
 }
 
 const u8* mt_array_memory_block_const_iterator::data() {
-- 
2.43.0


From 68823061e97d735b97c72100fcbf8ad1adbb7b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 19/93] fix: setting a three dimensional mat of many channels
 steps once per channel

---
 basicmath/src/mt_mat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..041ae74 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -478,9 +478,9 @@ namespace basicmath {
 
 								for (int c = 0; c < channels; ++c) {
 									ptr_data[c] = assign_values[c];
-
-									ptr_data += last_step;
 								}
+
+								ptr_data += last_step;
 							}
 
 							ptr_dim1 += mat.step()[1];
-- 
2.43.0


From d40673d9abb61dcdfd053f8bb2004b14df0f3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 20/93] fix: wrapping constructors drop the shared memory

---
 basicmath/src/mt_mat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 041ae74..3a51015 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1073,7 +1073,7 @@ mt_mat::mt_mat(int cols, mt_Depth_Channel depth, u8* data, const int* steps, u8*
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {cols};
-		*this = mt_mat(1, sizes, depth, data, steps);
+		*this = mt_mat(1, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1085,7 +1085,7 @@ mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* st
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {row, col};
-		*this = mt_mat(2, sizes, depth, data, steps);
+		*this = mt_mat(2, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1097,7 +1097,7 @@ mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, co
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {plane, row, col};
-		*this = mt_mat(3, sizes, depth, data, steps);
+		*this = mt_mat(3, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* data, const i32* steps, u8* share_mmeory) 
@@ -1144,7 +1144,7 @@ mt_mat::mt_mat(const vector<i32>& sizes, mt_Depth_Channel depth_channel, u8* dat
 	, m_dims(0)
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
-		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0]);
+		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0], share_mmeory);
 }
 
 mt_mat::mt_mat(const mt_mat& other, Construct_Type type)
-- 
2.43.0


From fd80284b5bf6d9fde1750f39e3aa9ceeaf4a4fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 21/93] fix: is_zero looks at single bytes of wide channels

---
 basicmath/src/mt_mat.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 3a51015..f533c7a 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1333,7 +1333,19 @@ b8 mt_mat::is_zero() const {
 		}
 
 		for (i32 c = 0; c < channel(); ++c) {
-			if (ptr_data[c] != 0) {
+			b8 zero = sys_true;
+
+			if (depth() == mt_F32) {
+				zero = ((const f32*)ptr_data)[c] == 0;
+			} else if (depth() == mt_F64) {
+				zero = ((const f64*)ptr_data)[c] == 0;
+			} else {
+				for (i32 i = 0; i < element_channel_size(); ++i) {
+					zero = zero && ptr_data[c * element_channel_size() + i] == 0;
+				}
+			}
+
+			if (!zero) {
 				return sys_false;
 			}
 		}
-- 
2.43.0


From cf51ebbad012e28c8ad1a1cf9d02c9e6aa1b56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 22/93] fix: mats with different numbers of dimensions are
 compared beyond their sizes

---
 basicmath/src/mt_mat.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index f533c7a..1dc3983 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1369,6 +1369,10 @@ b8 mt_mat::operator==(const mt_mat& other) const {
 		return false;
 	}
 
+	if (dim() != other.dim()) {
+		return false;
+	}
+
 	for (int c = 0; c < dim(); ++c) {
 		if (size()[c] != other.size()[c]) {
 			return false;
-- 
2.43.0


From d8ffff17d02db78b7d624b8e267a961450a52174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 23/93] fix: setting a mat from a mat of another depth reads it
 with the own depth

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 1dc3983..7d30be5 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1536,7 +1536,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 		}
 	} else {
 		if (depth() == mt_U8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u8, u8>(*this, other);
 				break;
@@ -1572,7 +1572,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i8, u8>(*this, other);
 				break;
@@ -1608,7 +1608,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u16, u8>(*this, other);
 				break;
@@ -1644,7 +1644,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i16, u8>(*this, other);
 				break;
@@ -1680,7 +1680,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u32, u8>(*this, other);
 				break;
@@ -1716,7 +1716,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i32, u8>(*this, other);
 				break;
@@ -1752,7 +1752,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u64, u8>(*this, other);
 				break;
@@ -1788,7 +1788,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i64, u8>(*this, other);
 				break;
@@ -1824,7 +1824,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f32, u8>(*this, other);
 				break;
@@ -1860,7 +1860,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f64, u8>(*this, other);
 				break;
-- 
2.43.0


From 0275abb0ddbff4cda8aab6f2c82ad86c34a388ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 24/93] fix: reshaping a flipped continuous mat walks away from
 its data

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7d30be5..e73ff3f 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2240,6 +2240,20 @@ mt_mat mt_mat::reshape(const vector<int>& sizes, i32 new_channel) const {
 mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	basiclog_assert2(is_continuous());
 
+	// The data of a fully flipped mat is also continuous, but descends.
+	b8 descend = sys_false;
+
+	for (int i = dim() - 1; i >= 0; --i) {
+		if (size()[i] > 1) {
+			descend = step()[i] < 0;
+			break;
+		}
+	}
+
+	if (descend && new_channel != -1 && new_channel != channel()) {
+		return clone().reshape(dims, sizes, new_channel);
+	}
+
 	i32 current_total_size = mt_helper::mutiply<i32>(size(), size() + dim());
 	i32 reshape_total_size = mt_helper::mutiply<i32>(sizes, sizes + dims);
 
@@ -2279,6 +2293,12 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 
 	res.fill_auto_step();
 
+	if (descend) {
+		for (int i = 0; i < res.m_dims; ++i) {
+			res.step()[i] = -res.step()[i];
+		}
+	}
+
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
-- 
2.43.0


From 333efc2010f9702f0056637f9258c6e5d9a2e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 25/93] fix: combining dimensions that cannot be walked as one
 yields wrong elements

---
 basicmath/src/mt_mat.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index e73ff3f..f9d8a69 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2373,16 +2373,27 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 }
 
 mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const {
-	bool order_dim = true;
+	// The dimensions can be walked as one if each step spans all of the following dimension; a dimension of size 1 has no influence.
+	bool mergeable = true;
+	int combined_step = step()[combined_dim_start + combined_dim_count - 1];
+	int inner_dim = -1;
+
+	for (int i = combined_dim_start + combined_dim_count - 1; i >= combined_dim_start; --i) {
+		if (size()[i] == 1) {
+			continue;
+		}
 
-	for (int i = 0; i < combined_dim_count - 1; ++i) {
-		if (step()[combined_dim_start + i] < step()[i + combined_dim_start + 1]) {
-			order_dim = false;
+		if (inner_dim == -1) {
+			combined_step = step()[i];
+		} else if (step()[i] != step()[inner_dim] * size()[inner_dim]) {
+			mergeable = false;
 			break;
 		}
+
+		inner_dim = i;
 	}
 
-	if (!order_dim) {
+	if (!mergeable) {
 		basiclog_warning2("combine dim for a mat with unordered dim, this will reduce the performance! You should better input an ordered mat");
 		return this->clone().combine_dim(combined_dim_start, combined_dim_count);
 	}
@@ -2402,7 +2413,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 		res.size()[combined_dim_start] *= size()[combined_dim_start + i];
 	}
 
-	res.step()[combined_dim_start] = step()[combined_dim_start + combined_dim_count - 1];
+	res.step()[combined_dim_start] = combined_step;
 
 	for (int i = combined_dim_start + 1; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i + combined_dim_count - 1];
-- 
2.43.0


From b5788a2c2ffa6d2223ac16964bbc8a486c55dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 26/93] fix: plane of a three dimensional mat selects a column

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index f9d8a69..a37a040 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2729,7 +2729,7 @@ mt_mat mt_mat::col(int col) const {
 mt_mat mt_mat::plane(int plane) const {
 	basiclog_assert("mt_mat", m_dims == 3);
 
-	return index(plane, 2);
+	return index(plane, 0);
 }
 
 mt_mat mt_mat::front(int number, int dim /* = 0 */) const {
-- 
2.43.0


From 702c498cceba66db9674ff599bc00e0c8616f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 27/93] fix: index lookup divides by the meaningless step of
 dimensions with one element

---
 basicmath/src/mt_mat.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index a37a040..24dca87 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2904,7 +2904,16 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 
 		int count = 0;
 
-		for (;;) {
+		//the step of a dimension with one element says nothing about the place of the element
+		for (int i = 0; i < m_dims; ++i) {
+			if (size()[i] == 1) {
+				index[i] = 0;
+				flags[i] = sys_true;
+				++count;
+			}
+		}
+
+		while (count < m_dims) {
 			int max_abs_step = 0;
 			int max_index = -1;
 
@@ -2920,10 +2929,6 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 			flags[max_index] = sys_true;
 
 			++count;
-
-			if (count == m_dims) {
-				break;
-			}
 		}
 
 		basicmath_mat_release(flags);
-- 
2.43.0


From e5fd56fc292c5d0a86b68ac662e4dd08cf5f3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 28/93] fix: merging mats of different sizes along a dimension
 uses the size of the first

---
 basicmath/src/mt_mat_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 99c5ffc..0f62cee 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -28,8 +28,8 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 	i32 dim_start_index = 0;
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[0].size()[dim], dim);
-		dim_start_index += elements[0].size()[dim];
+		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[i].size()[dim], dim);
+		dim_start_index += elements[i].size()[dim];
 
 		sub_mat.set(elements[i]);
 	}
-- 
2.43.0


From 75dede0ee351504de6c79f5b842b1bcce157c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 29/93] fix: value minus and divided by a mat ignores the step
 of the last dimension

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5a5b303..70185ce 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1451,8 +1451,8 @@ namespace basicmath {
 				type_b[i] = (T)b[i];
 			}
 
-			i32 last_res_step = res.step()[res.dim() - 1] > 0 ? channels : -channels;
-			i32 last_a_step = a.step()[a.dim() - 1] > 0 ? channels : -channels;
+			i32 last_res_step = res.last_dim_element_step();
+			i32 last_a_step = a.last_dim_element_step();
 
 			if (res.is_continuous() && a.is_continuous()) {
 				T* ptr_res = (T*)res.data();
-- 
2.43.0


From 5c6ba81ed8e44b09e4bd0fd9656abe9563423955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 30/93] fix: comparing with the empty mat does not compare with
 zero

---
 basicmath/src/mt_mat_math_operation.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 70185ce..b1877b2 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3005,15 +3005,17 @@ mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
 }
 
 mt_mat mt_mat::element_compared_mask(const mt_mat& other, mt_mat::Compare_Task task, f64 true_mask, f64 false_mask) const {
-	basiclog_assert2(is_same_size(other));
-	
-	if (other.depth() != depth()) {
-		mt_mat temp = other.convert(depth());
+	if (!other.is_empty()) {
+		basiclog_assert2(is_same_size(other));
+
+		if (other.depth() != depth()) {
+			mt_mat temp = other.convert(depth());
 
-		return element_compared_mask(temp, task, true_mask, false_mask);
+			return element_compared_mask(temp, task, true_mask, false_mask);
+		}
 	}
 
-	mt_mat res(other, mt_mat::Construct_Type_Create_As_Size);
+	mt_mat res(*this, mt_mat::Construct_Type_Create_As_Size);
 
 	switch (depth()) {
 	case mt_U8:
-- 
2.43.0


From 57dfe0d79e39abac32d69f9c7bb441192bd91981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 31/93] fix: json reads integers through f64 and writes i8 as a
 character

---
 basicsys/include/sys_json.h |  4 +++
 basicsys/src/sys_json.cpp   | 66 ++++++++++++++++++-------------------
 2 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 50aac3a..160bcb9 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -269,6 +269,10 @@ namespace basicsys {
 		void text_load_struct_info();
 		void binary_load_struct_info();
 
+		/** The integers are read as integers, because f64 can not hold all of the 64 bits.
+		*/
+		i64 binary_read_i64() const;
+
 		i32 find_match_character(const string& text, i8 need_matched_char, i32 start_index);
 
 		map<string, sys_json_reader> m_map_nodes;
diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 64948d8..9a1e84a 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -72,7 +72,7 @@ sys_json_writer& sys_json_writer::operator<<(const i8& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strcombine()<<(i32)val);	//the text of an i8 is a character
 	} else {
 		m_writer->write(sys_Node_Type_Int);
 		m_writer->write((i32)sizeof(i8));
@@ -477,10 +477,7 @@ void sys_json_reader::operator>>(i8& val) const {
 		val = (i8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i8)tmp;
+		val = (i8)binary_read_i64();
 	}
 }
 
@@ -494,10 +491,7 @@ void sys_json_reader::operator>>(u8& val) const {
 		val = (u8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u8)tmp;
+		val = (u8)binary_read_i64();
 	}
 }
 
@@ -511,10 +505,7 @@ void sys_json_reader::operator>>(u16& val) const {
 		val = (u16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u16)tmp;
+		val = (u16)binary_read_i64();
 	}
 }
 
@@ -528,10 +519,7 @@ void sys_json_reader::operator>>(i16& val) const {
 		val = (i16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i16)tmp;
+		val = (i16)binary_read_i64();
 	}
 }
 
@@ -542,13 +530,10 @@ void sys_json_reader::operator>>(u32& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u32)atoi(text.c_str());
+		val = (u32)_atoi64(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u32)tmp;
+		val = (u32)binary_read_i64();
 	}
 }
 
@@ -562,10 +547,7 @@ void sys_json_reader::operator>>(i32& val) const {
 		val = atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i32)tmp;
+		val = (i32)binary_read_i64();
 	}
 }
 
@@ -576,13 +558,10 @@ void sys_json_reader::operator>>(u64& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u64)_atoi64(text.c_str());
+		val = text[0] == '-' ? (u64)_atoi64(text.c_str()) : (u64)strtoull(text.c_str(), NULL, 10);
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u64)tmp;
+		val = (u64)binary_read_i64();
 	}
 }
 
@@ -596,11 +575,30 @@ void sys_json_reader::operator>>(i64& val) const {
 		val = _atoi64(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
+		val = (i64)binary_read_i64();
+	}
+}
+
+i64 sys_json_reader::binary_read_i64() const {
+	if (m_node_type == sys_Node_Type_Int) {
+		m_reader->seek(m_offset, sys_File_Seek_Set);
+		sys_byte_buffer_reader* byte_reader = (sys_byte_buffer_reader*)m_reader;
 
-		val = (i64)tmp;
+		if (m_size == sizeof(i8)) {
+			return (i64)byte_reader->read_c8();
+		} else if (m_size == sizeof(i16)) {
+			return (i64)byte_reader->read_i16();
+		} else if (m_size == sizeof(i32)) {
+			return (i64)byte_reader->read_i32();
+		} else if (m_size == sizeof(i64)) {
+			return byte_reader->read_i64();
+		}
 	}
+
+	f64 val = 0;
+	(*this)>>val;
+
+	return (i64)val;
 }
 
 void sys_json_reader::operator>>(f32& val) const {
-- 
2.43.0


From f36a7445cd0fa7ece62b9fac2b3697ef5621bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 32/93] fix: json nodes start with an undefined loaded flag

---
 basicsys/src/sys_json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 9a1e84a..d6bdb54 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -421,6 +421,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_offset = offset;
 	m_size = size;
 	m_node_type = node_type;
+	m_loaded = sys_false;
 
 	if (m_size == -1) {
 		m_size = (i32)reader->remain_size();
-- 
2.43.0


From 69fbc79cc2a601a7ed13234ebff3e28d4d9a60d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 33/93] fix: multi_index_from_index yields remainders and reads
 past the sizes

---
 basicmath/include/mt_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 331bf82..b01e507 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -233,9 +233,12 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < size; ++i) {
-				i32 cur_dim_index = index % dim_element_number;
+				i32 cur_dim_index = index / dim_element_number;
 				index = index - cur_dim_index * dim_element_number;
-				dim_element_number /= sizes[i + 1];
+
+				if (i + 1 < size) {
+					dim_element_number /= sizes[i + 1];
+				}
 
 				indexs[i] = cur_dim_index;
 			}
-- 
2.43.0


From 95f77a68449d59b05190b03d72d4537dde625dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 34/93] fix: 0-1 bag marks elements that do not belong to the
 best selection

---
 .../include/dynamic_programming/mt_01_bag.h   | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_01_bag.h b/basicmath/include/dynamic_programming/mt_01_bag.h
index 0a4bcc6..8126e8a 100644
--- a/basicmath/include/dynamic_programming/mt_01_bag.h
+++ b/basicmath/include/dynamic_programming/mt_01_bag.h
@@ -17,7 +17,7 @@ namespace basicmath {
 
 			m_max_value = calculate_value(weights, values, (i32)weights.size() - 1, max_weight);
 
-			detrermine_flag(values, (i32)weights.size() - 1, m_max_value);
+			detrermine_flag(weights, values, max_weight);
 		}
 
 		T_Value max_value() {
@@ -81,31 +81,18 @@ namespace basicmath {
 			return cur_cache_info.m_value;
 		}
 
-		void detrermine_flag(const vector<T_Value>& values, i32 considered_range, T_Value considered_value) {
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0
-					&& m_caches[i].m_considered_range <= considered_range 
-					&& find_value(considered_range - 1, considered_value - values[m_caches[i].m_considered_range])) {
-						m_flags[m_caches[i].m_considered_range] = sys_true;
-
-						detrermine_flag(values, considered_range - 1, considered_value - values[m_caches[i].m_considered_range]);
-				}
-			}
-		}
-
-		b8 find_value(i32 considered_range, T_Value considered_value) {
-			if (considered_range < 0) {
-				return sys_true;
-			}
+		/**
+		An element is put into the bag where leaving it out would lose value.
+		*/
+		void detrermine_flag(const vector<T_Weight>& weights, const vector<T_Value>& values, T_Weight remaining_weight) {
+			for (i32 i = (i32)weights.size() - 1; i >= 0; --i) {
+				T_Value value = calculate_value(weights, values, i, remaining_weight);
 
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (m_caches[i].m_considered_range <= considered_range
-					&& mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0) {
-						return sys_true;
+				if (mt_helper::compare_value(value, calculate_value(weights, values, i - 1, remaining_weight)) != 0) {
+					m_flags[i] = sys_true;
+					remaining_weight -= weights[i];
 				}
 			}
-
-			return sys_false;
 		}
 
 		vector<cache_info> m_caches;
-- 
2.43.0


From 73fdc9c963d5a45676bfa0af4bff52e07a229eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 35/93] fix: longest common substring misses matches at the
 first elements

---
 .../mt_longest_common_substring.h             | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 8d58628..cb3a988 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -19,15 +19,9 @@ namespace basicmath {
 			m_maxtrix.resize(m_a_size * m_b_size, 0);
 
 			for (i32 i = 0; i < m_a_size; ++i) {
-				m_maxtrix[i] = (str_b[0] == str_a[i] ? 1 : 0);
-
-				for (i32 j = 1; j < m_b_size; ++j) {
-					m_maxtrix[j * m_a_size] = (str_a[0] == str_b[j] ? 1 : 0);
-
-					if (i > 0 && j > 0) {
-						if (str_a[i] == str_b[j]) {
-							m_maxtrix[j * m_a_size + i] = m_maxtrix[(j - 1) * m_a_size + i - 1] + 1;
-						}
+				for (i32 j = 0; j < m_b_size; ++j) {
+					if (str_a[i] == str_b[j]) {
+						m_maxtrix[j * m_a_size + i] = (i > 0 && j > 0) ? m_maxtrix[(j - 1) * m_a_size + i - 1] + 1 : 1;
 					}
 
 					if (m_length < m_maxtrix[j * m_a_size + i]) {
@@ -55,8 +49,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i % m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i % m_a_size - m_length + 1);
 				}
 			}
 		}
@@ -65,8 +59,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i / m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i / m_a_size - m_length + 1);
 				}
 			}
 		}
-- 
2.43.0


From 11ee0b68d3273c3ac66dd674f7c48f0cc53010f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 36/93] fix: compare_value orders unsigned values by their
 wrapped difference

---
 basicmath/include/mt_helper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index b01e507..a80234f 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -62,11 +62,9 @@ namespace basicmath {
 			} else if (typeid(T) == typeid(double)) {
 				return compare_double((double)a, (double)b);
 			} else {
-				T v = a - b;
-
-				if (v == 0) {
+				if (a == b) {
 					return 0;
-				} else if (v > 0) {
+				} else if (a > b) {
 					return 1;
 				} else {
 					return -1;
-- 
2.43.0


From 6d2b8bb940630dcea747e1f9ae54eb05788e948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 37/93] fix: instance_from_pointer ignores the number of
 pointers

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index a80234f..a986858 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -354,7 +354,7 @@ namespace basicmath {
 
 		template<class T>
 		static void instance_from_pointer(vector<T>& res, const vector<T*>& src) {
-			res.resize(res.size());
+			res.resize(src.size());
 
 			for (int i = 0; i < (int)res.size(); ++i) {
 				res[i] = *src[i];
-- 
2.43.0


From e1f871896ead8b31e14994ac6abf81add7e80889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 38/93] fix: odd_even_sort takes negative odd numbers for even

---
 basicmath/include/mt_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index a986858..e5a2af3 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -371,12 +371,12 @@ namespace basicmath {
 					
 					for (i32 j = 0; j < (i32)res.size() - 1 - i; ++j) {
 						if (odd_as_front) {
-							if (res[j] % 2 == 0 && res[j + 1] % 2 == 1) {
+							if (res[j] % 2 == 0 && res[j + 1] % 2 != 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
 						} else {
-							if (res[j] % 2 == 1 && res[j + 1] % 2 == 0) {
+							if (res[j] % 2 != 0 && res[j + 1] % 2 == 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
@@ -392,11 +392,11 @@ namespace basicmath {
 				i32 high = (i32)res.size() - 1;
 
 				while (low < high) {
-					while (low < high && ((odd_as_front && res[low] % 2 == 1) || (!odd_as_front && res[low] % 2 == 0))) {
+					while (low < high && ((odd_as_front && res[low] % 2 != 0) || (!odd_as_front && res[low] % 2 == 0))) {
 						++low;
 					}
 
-					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 == 1))) {
+					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 != 0))) {
 						--high;
 					}
 
-- 
2.43.0


From 14f8f76592e4cc8e8284b07cc5c73f180199b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 39/93] fix: flip_vector exchanges with the wrong element

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index e5a2af3..0c96cf1 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -418,7 +418,7 @@ namespace basicmath {
 			i32 half_size = (i32)data.size()  / 2;
 			
 			for (i32 i = 0; i < half_size; ++i) {
-				swap(data[i], data[i + (i32)data.size() - i - 1]);
+				swap(data[i], data[(i32)data.size() - i - 1]);
 			}
 		}
 
-- 
2.43.0


From f5e5d8429d1ae84f9bd6f9d216fb0119176fc8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 40/93] fix: index sort stops before the data is sorted

---
 basicmath/include/mt_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_sort.h b/basicmath/include/mt_sort.h
index 706addc..4f53117 100644
--- a/basicmath/include/mt_sort.h
+++ b/basicmath/include/mt_sort.h
@@ -16,7 +16,7 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < (i32)indexs.size() - 1; ++i) {
-				for (i32 j = 0; j < (i32)indexs.size() - j - 1; ++j) {
+				for (i32 j = 0; j < (i32)indexs.size() - i - 1; ++j) {
 					if ((increase && data[j] > data[j + 1])
 						|| (!increase && data[j] < data[j + 1])) {
 						swap(data[j], data[j + 1]);
-- 
2.43.0


From 9585792a5568b630f2c043e12ba38b14adf2bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 41/93] fix: split_array compares truncated means and keeps old
 results

---
 basicmath/src/mt_helper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index fa57be7..cc3ec7e 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -281,7 +281,10 @@ string mt_helper::battle_ship(const string& ships, const string& hits) {
 }
 
 void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b , const vector<i32>& input_data) {
+	b.clear();
+
 	if (input_data.empty()) {
+		a.clear();
 		return;
 	}
 
@@ -292,20 +295,20 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 	f32 max_sub = -FLT_MAX;
 	i32 split_index = -1;
 
-	a.resize(data.size());
+	vector<f32> right_means(data.size());
 
 	i32 right_sum = 0;
 
 	for (i32 i = (i32)data.size() - 1; i >= 0; --i) {
 		right_sum += data[i];
 
-		a[i] = right_sum / ((i32)data.size()  - i);
+		right_means[i] = right_sum / (f32)((i32)data.size()  - i);
 	}
 
 	for (i32 i = 0; i < (i32)data.size() - 1; ++i) {
 		left_sum += data[i];
 
-		i32 right_mean = a[i + 1];
+		f32 right_mean = right_means[i + 1];
 		f32 left_mean = left_sum / (f32)(i + 1);
 
 		if (right_mean - left_mean > max_sub) {
-- 
2.43.0


From c4f4eb79fdba87598e5346811208efd6aa57a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 42/93] fix: histogram loses values and writes to missing
 numbers

---
 basicmath/src/mt_hist.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_hist.cpp b/basicmath/src/mt_hist.cpp
index babe0fd..1d7b3b9 100644
--- a/basicmath/src/mt_hist.cpp
+++ b/basicmath/src/mt_hist.cpp
@@ -7,13 +7,14 @@
 
 void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const vector<f64>& data, i32 hist_bin_number) {
 	f64 max_value = mt_helper::compute_max<f64>((i32)data.size(), &data[0]);
-	max_value += max_value / 100;
+	max_value += abs(max_value) / 100;
 
 	f64 min_value = mt_helper::compute_min<f64>((i32)data.size(), &data[0]);
 
 	f64 gap = (max_value - min_value) / hist_bin_number;
 
 	ranges.resize(hist_bin_number);
+	numbers.assign(hist_bin_number, 0);
 
 	f64 base_value = min_value;
 
@@ -25,8 +26,9 @@ void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const
 
 	for (i32 i = 0; i < (i32)data.size(); ++i) {
 		for (i32 j = 0; j < (i32)ranges.size(); ++j) {
-			if (data[i] >= ranges[j].m_start && data[i] < ranges[j].m_end) {
+			if (j + 1 == (i32)ranges.size() || data[i] < ranges[j].m_end) {
 				++numbers[j];
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 7308a60a4781b0cbf0715c68572585bf26d46390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 43/93] fix: random_next_i32 overflows and leaves its range

---
 basicmath/src/mt_random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 709fc1e..2c8f2a7 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -8,7 +8,7 @@ void mt_random::set_seed(u32 seed) {
 }
 
 i32 mt_random::random_next_i32(i32 min, i32 max) {
-	f64 value = rand() / (f64)(RAND_MAX + 1);	//[0,1)
+	f64 value = rand() / ((f64)RAND_MAX + 1);	//[0,1)
 	return (i32)(value * (max - min + 1)) + min;
 }
 
-- 
2.43.0


From 8527c85977e894e37273c8c63417076453838194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 44/93] fix: rectangle members that name members which do not
 exist

---
 basicmath/include/mt_rect_t.h | 98 +++++++++++++++++------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index d2115ba..a64d79d 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -47,35 +47,35 @@ public:
 	}
 
 	mt_rect_t<T> operator+(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width + other.width, m_height + other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width + other.m_width, m_height + other.m_height);
 	}
 
 	void operator+=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-		return mt_rect_t<T>(m_left - other.x, m_top - other.y, m_width, m_height);
+		return mt_rect_t<T>(m_left - other.m_x, m_top - other.m_y, m_width, m_height);
 	}
 
 	mt_rect_t<T> operator-(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width - other.width, m_height - other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width - other.m_width, m_height - other.m_height);
 	}
 
 	mt_rect_t(const mt_point_t<T>& left_top, const mt_size_t<T>& size) {
@@ -170,13 +170,13 @@ public:
 		currentNormlized.normlized();
 		otherNormlized.normlized();
 
-		int left = max(currentNormlized.mLeft, otherNormlized.mLeft);		
-		int right = min(currentNormlized.right(), otherNormlized.right());
-		int top = max(currentNormlized.mTop, otherNormlized.mTop);
-		int bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
-		intersectRect.setRect(mt_point(left, top), mt_point(right, bottom));
+		T left = max(currentNormlized.m_left, otherNormlized.m_left);		
+		T right = min(currentNormlized.right(), otherNormlized.right());
+		T top = max(currentNormlized.m_top, otherNormlized.m_top);
+		T bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
+		intersectRect.set_rect(mt_point_t<T>(left, top), mt_point_t<T>(right, bottom));
 
-		return (intersectRect.mWidth > 0) && (intersectRect.mHeight > 0);
+		return (intersectRect.m_width > 0) && (intersectRect.m_height > 0);
 	}
 
 	bool is_intersect(const mt_rect_t<T>& rect) const {
@@ -185,19 +185,19 @@ public:
 	}
 
 	bool contain(const mt_point_t<T>& point) const {
-		if (point.x < m_left) {
+		if (point.m_x < m_left) {
 			return false;
 		}
 
-		if (point.y < m_top) {
+		if (point.m_y < m_top) {
 			return false;
 		}
 
-		if (point.x > right()) {
+		if (point.m_x > right()) {
 			return false;
 		}
 
-		if (point.y > bottom()) {
+		if (point.m_y > bottom()) {
 			return false;
 		}
 
@@ -205,19 +205,19 @@ public:
 	}
 
 	bool boundary(const mt_point_t<T>& point) const {
-		if (point.x == m_left && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == m_left && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.x == right() && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == right() && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.y == m_top && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == m_top && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
-		if (point.y == bottom() && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == bottom() && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
@@ -229,7 +229,7 @@ public:
 	}
 	
 	bool in_boundary(const mt_point_t<T>& point) const {
-		return point.x == m_left || point.y == m_top || point.x == m_left + m_width - 1 || point.y == m_top + m_height - 1;
+		return point.m_x == m_left || point.m_y == m_top || point.m_x == m_left + m_width - 1 || point.m_y == m_top + m_height - 1;
 	}
 
 	bool is_intersect_area(const mt_rect_t<T>& r2, double threshold) const {
@@ -265,7 +265,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth >= threshold; 
+		return intersectRect.m_width / (double)r2.m_width >= threshold; 
 	}
 
 	double get_intersect_width_ratio(const mt_rect_t<T>& r2) const {
@@ -274,7 +274,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth; 
+		return intersectRect.m_width / (double)r2.m_width; 
 	}
 
 	bool is_intersect_height(const mt_rect_t<T>& r2, double threshold) const {
@@ -283,7 +283,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight >= threshold; 
+		return intersectRect.m_height / (double)r2.m_height >= threshold; 
 	}
 
 	double get_intersect_height_ratio(const mt_rect_t<T>& r2) const {
@@ -292,7 +292,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight; 
+		return intersectRect.m_height / (double)r2.m_height; 
 	}
 
 	/**
@@ -373,20 +373,20 @@ public:
 	}
 
 	void validate_point(mt_point_t<T>& pt) const{
-		if (pt.x < m_left) {
-			pt.x = m_left;
+		if (pt.m_x < m_left) {
+			pt.m_x = m_left;
 		}
 
-		if (pt.x > right()) {
-			pt.x = right();
+		if (pt.m_x > right()) {
+			pt.m_x = right();
 		}
 
-		if (pt.y < m_top) {
-			pt.y = m_top;
+		if (pt.m_y < m_top) {
+			pt.m_y = m_top;
 		}
 
-		if (pt.y > bottom()) {
-			pt.y = bottom();
+		if (pt.m_y > bottom()) {
+			pt.m_y = bottom();
 		}
 	}
 
@@ -397,7 +397,7 @@ public:
 		validate_point(tlPoint);
 		validate_point(brPoint);
 
-		rect.setRect(tlPoint, brPoint);
+		rect.set_rect(tlPoint, brPoint);
 	}
 
 	double aspect() const {
@@ -465,7 +465,7 @@ public:
 		mt_rect_t<T> top;
 		mt_rect_t<T> bottom;
 
-		if (m_top < other.mTop) {
+		if (m_top < other.m_top) {
 			top = *this;
 			bottom = other;
 		} else {
@@ -473,7 +473,7 @@ public:
 			bottom = *this;
 		}
 
-		T distance = bottom.mTop - top.bottom();
+		T distance = bottom.m_top - top.bottom();
 
 		if (distance < 0) {
 			distance = 0;
@@ -498,10 +498,10 @@ public:
 	
 	mt_rect_t<T> operator*(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left * v.m_x);
-		res.mTop = (T)(m_top * v.m_y);
-		res.mWidth = (T)(m_width * v.m_x);
-		res.mHeight = (T)(m_height * v.m_y);
+		res.m_left = (T)(m_left * v.m_x);
+		res.m_top = (T)(m_top * v.m_y);
+		res.m_width = (T)(m_width * v.m_x);
+		res.m_height = (T)(m_height * v.m_y);
 
 		return res;
 	}
@@ -515,10 +515,10 @@ public:
 
 	mt_rect_t<T> operator/(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left / v.m_x);
-		res.mTop = (T)(m_top / v.m_y);
-		res.mWidth = (T)(m_width / v.m_x);
-		res.mHeight = (T)(m_height / v.m_y);
+		res.m_left = (T)(m_left / v.m_x);
+		res.m_top = (T)(m_top / v.m_y);
+		res.m_width = (T)(m_width / v.m_x);
+		res.m_height = (T)(m_height / v.m_y);
 
 		return res;
 	}
-- 
2.43.0


From e93ca3f5b47e508b037749d8b6a744ebb8020898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 45/93] fix: subtracting from a rectangle in place adds

---
 basicmath/include/mt_rect_t.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index a64d79d..cc1682b 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -56,8 +56,8 @@ public:
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.m_x;
-		m_top += other.m_y;
+		m_left -= other.m_x;
+		m_top -= other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
@@ -66,8 +66,8 @@ public:
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.m_width;
-		m_height += other.m_height;
+		m_width -= other.m_width;
+		m_height -= other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-- 
2.43.0


From 00dd8fd026b548923e3521e129d5d860efc3be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 46/93] fix: opening a file that can not be opened is taken for
 a success

---
 basicsys/include/sys_basic_define.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/include/sys_basic_define.h b/basicsys/include/sys_basic_define.h
index 6ad0bcf..b8f09b0 100644
--- a/basicsys/include/sys_basic_define.h
+++ b/basicsys/include/sys_basic_define.h
@@ -92,7 +92,7 @@ namespace basicsys {
 static int fopen_s(FILE ** fp, const char * path, const char * flag) {
 	*fp = fopen(path, flag);
 
-	if (*flag != NULL) {
+	if (*fp != NULL) {
 		return 0;
 	}
 
-- 
2.43.0


From c7f0d43a681f3a586a67c3bd5e436c8bcea5f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 47/93] fix: buffer writers that append truncate the file

---
 basicsys/src/sys_buffer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..e5c2adf 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -295,9 +295,11 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 
 sys_byte_file_buffer_writer::sys_byte_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 	: sys_byte_buffer_writer(NULL) {
-		if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+		if (fopen_s(&m_file, file_path.c_str(), is_append ? "rb+" : "wb") != 0 && (!is_append || fopen_s(&m_file, file_path.c_str(), "wb") != 0)) {
 			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
+		} else if (is_append) {
+			seek(0, sys_File_Seek_End);
 		}
 
 		m_need_close_file = true;
@@ -730,9 +732,11 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 
 sys_string_file_buffer_writer::sys_string_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 : sys_string_buffer_writer(NULL) {
-	if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+	if (fopen_s(&m_file, file_path.c_str(), is_append ? "rb+" : "wb") != 0 && (!is_append || fopen_s(&m_file, file_path.c_str(), "wb") != 0)) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to _wfopen_s");
+	} else if (is_append) {
+		seek(0, sys_File_Seek_End);
 	}
 
 	m_need_close_file = true;
-- 
2.43.0


From df410439ec8596f26466a4492c6b2a35843f6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 48/93] fix: file buffers report a status that is never set

---
 basicsys/include/sys_buffer.h | 6 +++---
 basicsys/src/sys_buffer.cpp   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..55cbdca 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -261,7 +261,7 @@ namespace basicsys {
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
 		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
+			return m_io_status;
 		}
 
 	protected:
@@ -284,7 +284,7 @@ namespace basicsys {
 		}
 
 		virtual sys_IO_Status get_status() const {
-			return m_file_io_status;
+			return m_io_status;
 		}
 
 		/**
@@ -464,7 +464,7 @@ namespace basicsys {
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
 		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
+			return m_io_status;
 		}
 
 	protected:
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index e5c2adf..5dc9c55 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -805,7 +805,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek
 sys_string_file_buffer_reader::sys_string_file_buffer_reader(const string& file_path)
 	: sys_string_buffer_reader(string()) {
 		if (fopen_s(&m_file, file_path.c_str(), "rb") != 0) {
-			m_file_io_status = sys_IO_Status_Error_File_Operation;
+			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
 
-- 
2.43.0


From d46614609adb41c9363c325648a03113e6dde47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 49/93] fix: byte file readers never close their file

---
 basicsys/include/sys_buffer.h | 2 ++
 basicsys/src/sys_buffer.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index 55cbdca..d58ec18 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -279,6 +279,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 5dc9c55..9e7cdfb 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -377,6 +377,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
-- 
2.43.0


From ccab30d4f9d6a6f1a178dd2e17e48b7b15dc75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 50/93] fix: reading a string stops at a zero character

---
 basicsys/src/sys_buffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 9e7cdfb..94b20bd 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -243,7 +243,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
-		str = string(buffer);
+		str = string(buffer, character_number);
 	}
 	
 	delete[] buffer;
@@ -881,8 +881,8 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 		basiclog_warning2("failed to fread");
 	}
 
-	temp[character_count] = 0;
-	str = temp;
+	str = string(temp, character_count);
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From adece5c99a61fdd54b28617e6aea15950d2713a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 51/93] fix: text file readers return characters that are not
 in the file when less than asked for remain

---
 basicsys/src/sys_buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 94b20bd..897236d 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -839,7 +839,7 @@ void sys_string_file_buffer_reader::close() {
 }
 
 f64 sys_string_file_buffer_reader::read(i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return 0;
 	}
@@ -866,7 +866,7 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
 	}
-- 
2.43.0


From c0ce23472215cd34d421f8fed785199fceaf7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 52/93] fix: seeking from the end goes backwards in memory and
 forwards in files

---
 basicsys/src/sys_buffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 897236d..b47fa62 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -121,7 +121,7 @@ sys_buffer_writer* sys_byte_buffer_writer::seek(i64 offset, sys_File_Seek seek_t
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_buffer->size() - offset;
+		m_position = (i64)m_buffer->size() + offset;
 	}
 
 	return this;
@@ -283,7 +283,7 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (m_end - m_begin) - offset;
+		m_position = (m_end - m_begin) + offset;
 	}
 
 	return this;
@@ -656,7 +656,7 @@ sys_buffer_writer* sys_string_buffer_writer::seek(i64 offset, sys_File_Seek seek
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_str->size() * sizeof(i8) - offset;
+		m_position = (i64)m_str->size() * sizeof(i8) + offset;
 	}
 
 	return this;
@@ -726,7 +726,7 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_str->size() * sizeof(i8) - offset;
+		m_position = (i64)m_str->size() * sizeof(i8) + offset;
 	}
 
 	return this;
-- 
2.43.0


From d5bc5e48592d7bd8e4d0d659b35e8cde82e67b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 53/93] fix: reading a character does not advance and reading a
 line does not stop at its end

---
 basicsys/src/sys_buffer.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index b47fa62..0f406da 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -683,8 +683,10 @@ i8 sys_string_buffer_reader::read_char() const {
 		return 0;
 	}
 
-	return m_str->at(m_position / sizeof(i8));
+	i8 c = m_str->at(m_position / sizeof(i8));
 	m_position += sizeof(i8);
+
+	return c;
 }
 
 void sys_string_buffer_reader::read_str(string& str, i32 size) const {
@@ -712,9 +714,11 @@ void sys_string_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
 
@@ -946,8 +950,10 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 77bfaae9ebdc3b373e28e40df92eea8fdbf59748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 54/93] fix: writing no bytes to a file is reported as an error

---
 basicsys/src/sys_buffer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 0f406da..3666b26 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -82,6 +82,10 @@ sys_buffer_writer* sys_byte_buffer_writer::write(f64 val) {
 }
 
 sys_buffer_writer* sys_byte_buffer_writer::write(const vector<u8>& buffer) {
+	if (buffer.empty()) {
+		return this;
+	}
+
 	u8* start = (u8*)&buffer[0];
 	u8* stop = start + (i32)buffer.size();
 
@@ -325,7 +329,7 @@ void sys_byte_file_buffer_writer::close() {
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
 
-	if (fwrite(start, stop - start, 1, m_file) != 1) {
+	if (start != stop && fwrite(start, stop - start, 1, m_file) != 1) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
-- 
2.43.0


From 18970e3f0b2d42ea5d7af5a7ea725861f2db6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 55/93] fix: size of a json node is zero until something else
 loads it

---
 basicsys/include/sys_json.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 160bcb9..3b76ba9 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -165,6 +165,8 @@ namespace basicsys {
 		b8 has_key(const string& key_name) const;
 
 		i32 size() const {
+			(const_cast<sys_json_reader*>(this))->load();
+
 			if (is_map()) {
 				return (i32)m_map_nodes.size();
 			} else if (is_seq()) {
-- 
2.43.0


From 1b196f0093ac81ce2215044b451bed13fb992f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 56/93] fix: json text loses the empty strings at the begin of
 a sequence

---
 basicsys/src/sys_json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index d6bdb54..3a92f0a 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -767,7 +767,8 @@ void sys_json_reader::text_load_struct_info() {
 				}
 			} else {
 				//must be element!
-				int last_index = valid_index;
+				//empty elements are skipped with the leading tabs, which are one more than the tabs of the last line
+				int last_index = (i32)text.size() - (i32)text.rfind('\n');
 				for (i32 i = last_index; i < (i32)text.size(); ++i) {
 					if (text.at(i) == '\t' || text.at(i) == '\n') {
 						//basiclog_assert2(i > last_index);
-- 
2.43.0


From 01ad411b4800183f69d51d3a7ce6f6f721b0cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 57/93] fix: json takes an empty string in a map for an error

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 3a92f0a..98bbd28 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -872,7 +872,7 @@ void sys_json_reader::binary_load_struct_info() {
 
 			i32 node_data_size = reader->read_i32();
 
-			if (node_type != sys_Node_Type_Map && node_type != sys_Node_Type_Seq) {
+			if (node_type == sys_Node_Type_Int || node_type == sys_Node_Type_Real) {
 				basiclog_assert2(node_data_size > 0);
 			}
 
-- 
2.43.0


From 8221f353512b3a5ba2a49fd7f08dd8ccc35286bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 58/93] fix: asking a const reader for its kind recurses
 without end

---
 basicsys/include/sys_buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index d58ec18..02a8750 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -93,9 +93,9 @@ namespace basicsys {
 		virtual sys_buffer_reader* seek(i64 offset, sys_File_Seek seek_type) = 0;
 
 		virtual sys_byte_buffer_reader* to_byte_buffer_reader() {return NULL;}
-		const sys_byte_buffer_reader* to_byte_buffer_reader() const {return (const_cast<const sys_buffer_reader*>(this))->to_byte_buffer_reader();}
+		const sys_byte_buffer_reader* to_byte_buffer_reader() const {return (const_cast<sys_buffer_reader*>(this))->to_byte_buffer_reader();}
 		virtual sys_string_buffer_reader* to_string_buffer_reader() {return NULL;}
-		const sys_string_buffer_reader* to_string_buffer_reader() const {return (const_cast<const sys_buffer_reader*>(this))->to_string_buffer_reader();}
+		const sys_string_buffer_reader* to_string_buffer_reader() const {return (const_cast<sys_buffer_reader*>(this))->to_string_buffer_reader();}
 
 		sys_IO_Status get_status() const {return m_io_status;}
 
-- 
2.43.0


From 33ff6a50c443701cac8904fda5d1ce43f36b3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 59/93] fix: byte readers return no strings any more after a
 read beyond the end

---
 basicsys/src/sys_buffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 3666b26..dbd91ac 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -244,10 +244,15 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	i8* buffer = new i8[character_number + 1];
 	buffer[character_number] = 0;
 
+	//an earlier error does not concern this string
+	sys_IO_Status previous_status = m_io_status;
+	m_io_status = sys_IO_Status_OK;
+
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
 		str = string(buffer, character_number);
+		m_io_status = previous_status;
 	}
 	
 	delete[] buffer;
-- 
2.43.0


From 1187edd9792f37be29f9bd699aaae51c540b62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 60/93] fix: read text sequences that mix maps and sequences

---
 basicsys/src/sys_json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 98bbd28..e80023b 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -752,6 +752,7 @@ void sys_json_reader::text_load_struct_info() {
 						break;
 					}
 
+					first_character = text[node_data_start_index];	//maps and sequences may be mixed
 					node_data_start_index += 2;  //need skip { or [, and \n	
 
 					i32 node_data_stop_index = find_match_character(text, first_character, node_data_start_index);
-- 
2.43.0


From 2d635191fef45ef078a746d281373edeb596b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 61/93] fix: split skips the whole tag

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e61b0c1..1d14f17 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -46,7 +46,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 		} else {
 			elements.push_back(text.substr(index, tempIndex - index));
 
-			index = tempIndex + 1;
+			index = tempIndex + split_tag.size();
 		}
 	}
 }
-- 
2.43.0


From 9dfaab0deeeb39f7973155ca618413324b822db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 62/93] fix: splitting by an empty tag gives the text, as
 documented

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 1d14f17..4579cd1 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -32,7 +32,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 	}
 
 	if (split_tag.empty()) {
-		elements.push_back(split_tag);
+		elements.push_back(text);
 		return;
 	}
 
-- 
2.43.0


From fc214fec4504d4241fa1e102e5a6a5bfd46d62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 63/93] fix: replacing an empty string does not loop

---
 basicsys/src/sys_strhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 4579cd1..341c29e 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -52,6 +52,10 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 }
 
 void sys_strhelper::replace(string& text, const string& newValue, const string& oldValue) {
+	if (oldValue.empty()) {
+		return;
+	}
+
 	for(string::size_type pos = 0; pos != string::npos; pos += newValue.length())   {     
 		if ((pos = text.find(oldValue, pos)) != string::npos) {
 			text.replace(pos, oldValue.length(), newValue);     
-- 
2.43.0


From 1f3a7707edb37a5b0373f39141385d2dcba074d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 64/93] fix: levenshtein_distance uses the costs for empty
 words

---
 basicsys/src/sys_strhelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 341c29e..ae47262 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -80,9 +80,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//Process the exception
 	if (word1.empty()) {
-		return (int)word2.size();
+		return (int)word2.size() * insertCost;
 	} else if (word2.empty()) {
-		return (int)word1.size();
+		return (int)word1.size() * deleteCost;
 	}
 
 	//Select the small string as base to reduce the memory requirement
-- 
2.43.0


From e09a04cda23aa59c73e5e65da5bee90a15977286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 65/93] fix: levenshtein_distance turns the first word into the
 second whichever is longer

---
 basicsys/src/sys_strhelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index ae47262..7749e5b 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -103,6 +103,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	if (word1.size() > word2.size()) {
 		swap(smallString, largeString);
+	} else {
+		//The large string is turned into the small one, so exchange insertion and deletion
+		swap(insertCost, deleteCost);
 	}
 
 	wstring::size_type size1 = largeString->size();
-- 
2.43.0


From 58f58d37774eba9dc877480dce658f535c79da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 66/93] fix: levenshtein_distance neither overflows nor leaks
 its buffers

---
 basicsys/src/sys_strhelper.cpp | 89 ++++++++++++----------------------
 1 file changed, 31 insertions(+), 58 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 7749e5b..7cbcdaa 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -112,66 +112,39 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 	wstring::size_type size2 = smallString->size();
 	int dist = 0;
 
-#define STRING_DEFINE_BUFFER_ALLOC_STATIC(dataType, bufferSize)	\
-	dataType buffer1[bufferSize];	\
-	dataType buffer2[bufferSize];	\
-	dataType* p = buffer1;	\
-	dataType* q = buffer2;	\
-
-#define STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(dataType, bufferSize)	\
-	dataType* p = new dataType[bufferSize];	\
-	dataType* q = new dataType[bufferSize];	\
-
-#define STRING_DEFINE_CALCULATE_DIST(dataType)	\
-	p[0] = 0;	\
-	for (string::size_type i = 1; i <= size2; ++i) {	\
-	p[i] = p[i - 1] + (dataType)insertCost;	\
-	}	\
-	for (string::size_type i = 1; i <= size1; ++i) {	\
-	q[0] = p[0] + deleteCost;	\
-	for (string::size_type j = 1; j <= size2; ++j) {	\
-	dataType d_del = p[j] + (dataType)deleteCost;	\
-	dataType d_ins = q[j - 1] + (dataType)insertCost;	\
-	dataType d_replace = p[j - 1] + ((*largeString)[i - 1] == (*smallString)[j - 1] ? 0 : (dataType)replaceCost);	\
-	q[j] = d_del;	\
-	if (d_ins < q[j]) {	\
-	q[j] = d_ins;	\
-	}	\
-	if (d_replace < q[j]) {	\
-	q[j] = d_replace;	\
-	}	\
-	}	\
-	swap(p, q);	\
-	}	\
-	dist = (int)p[size2];	\
-
-	//optimization
-	if (size2 < 16) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 16);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 32) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 32);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 64) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 64);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 256) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 256);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 1024) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 1024);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else if (size2 < 4048) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 4048);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else if (size2 < SHRT_MAX) {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint16_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint32_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint32_t);
+	//Costs and distances may be great, so the buffers can not be of smaller integers
+	vector<int> buffer1(size2 + 1);
+	vector<int> buffer2(size2 + 1);
+	int* p = &buffer1[0];
+	int* q = &buffer2[0];
+
+	p[0] = 0;
+	for (string::size_type i = 1; i <= size2; ++i) {
+		p[i] = p[i - 1] + insertCost;
+	}
+
+	for (string::size_type i = 1; i <= size1; ++i) {
+		q[0] = p[0] + deleteCost;
+
+		for (string::size_type j = 1; j <= size2; ++j) {
+			int d_del = p[j] + deleteCost;
+			int d_ins = q[j - 1] + insertCost;
+			int d_replace = p[j - 1] + ((*largeString)[i - 1] == (*smallString)[j - 1] ? 0 : replaceCost);
+
+			q[j] = d_del;
+			if (d_ins < q[j]) {
+				q[j] = d_ins;
+			}
+			if (d_replace < q[j]) {
+				q[j] = d_replace;
+			}
+		}
+
+		swap(p, q);
 	}
 
+	dist = p[size2];
+
 	return dist;
 }
 
-- 
2.43.0


From 0944d3203fd0cfb956c87f43145d73c630f88361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 67/93] fix: list the files whose names end with the expand
 name

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index d93ac39..1759d16 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -91,7 +91,7 @@ void sys_path::get_file_path(vector<string>& filePaths, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (!expandName.empty() && (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0)) {
 			continue;
 		}
 
@@ -163,7 +163,7 @@ void sys_path::get_file_name(vector<string>& fileNames, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (!expandName.empty() && (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0)) {
 			continue;
 		}
 
-- 
2.43.0


From 7d9df55d8d33881813669f980921814bec5c8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 68/93] fix: a dot in the directory does not start the extend
 name of a file

---
 basicsys/src/sys_path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 1759d16..895a746 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -286,10 +286,11 @@ string sys_path::get_file_extend_name(const string& path) {
 		return string((""));
 	}
 
-	string::size_type index = path.rfind('.');
+	string name = get_file_name(path);
+	string::size_type index = name.rfind('.');
 
 	if (string::npos != index) {
-		string extend_name = path.substr(index);
+		string extend_name = name.substr(index);
 		sys_strhelper::lower(extend_name);
 		return extend_name;
 	} else {
-- 
2.43.0


From 210db76d58bc0ee77ab87891e4bd88cf920adfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 69/93] fix: delete_sub_dir deletes the sub directories

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 895a746..ed5f2fc 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -395,8 +395,8 @@ void sys_path::delete_sub_dir(const string& dir) {
 	vector<string> subDirs;
 	get_dir_path(subDirs, dir);
 
-	for (int i = 0; i < (int)subFiles.size(); ++i) {
-		delete_dir(subFiles[i], true);
+	for (int i = 0; i < (int)subDirs.size(); ++i) {
+		delete_dir(subDirs[i], true);
 	}
 }
 
-- 
2.43.0


From d0d53617bf51d5a4f1ea935ef804f8984198518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 70/93] fix: create_multi_dir takes paths of more than 1024
 characters

---
 basicsys/src/sys_path.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index ed5f2fc..e903651 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -322,18 +322,16 @@ bool sys_path::create_multi_dir(const string& dir) {
 	if (_access(dir.c_str(), 0) == 0)
 		return true;
 
-	char szTemp[1024] = {('\0')};
 	string::size_type nPos = dir.find(('/'));
 	while (string::npos != nPos)
 	{
-		strncpy_s(szTemp, 1024, dir.c_str(), nPos + 1);
-		szTemp[nPos + 1] = '\0';
-		if (_access(szTemp, 00) == -1) {
+		string temp = dir.substr(0, nPos + 1);
+		if (_access(temp.c_str(), 00) == -1) {
 #ifdef _WIN32
-			if (!CreateDirectoryA(szTemp, NULL))
+			if (!CreateDirectoryA(temp.c_str(), NULL))
 				return false;
 #else
-			if (mkdir(szTemp, 0000777) != 0)
+			if (mkdir(temp.c_str(), 0000777) != 0)
 				return false;
 #endif
 		}
-- 
2.43.0


From a7fba0a843593dd394a61c4434fe506d06583aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 71/93] fix: copy_file copies files of any name and fails if
 told so and the target exists

---
 basicsys/src/sys_path.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index e903651..497a8cd 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -428,7 +428,17 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
 #else
-	return system(((string)(sys_strcombine()<<"cp -r "<<src.c_str()<<" "<<dst.c_str())).c_str()) == 0;
+	if (fail_if_exist && is_exist(dst)) {
+		return false;
+	}
+
+	//Quote the paths, which may have blanks and other characters of the shell
+	string quoted_src = src;
+	string quoted_dst = dst;
+	sys_strhelper::replace(quoted_src, "'\\''", "'");
+	sys_strhelper::replace(quoted_dst, "'\\''", "'");
+
+	return system(((string)(sys_strcombine()<<"cp -r -- '"<<quoted_src<<"' '"<<quoted_dst<<"'")).c_str()) == 0;
 #endif
 }
 
-- 
2.43.0


From a945366c0b9cbf107c34b36e9f5179b7ec84a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 72/93] fix: move_file replaces the target unless told
 otherwise

---
 basicsys/src/sys_path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 497a8cd..f1583a7 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -443,7 +443,7 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 }
 
 bool sys_path::move_file(const string& dst, const string& src, bool fail_if_exist) {
-	if (is_exist(dst)) {
+	if (fail_if_exist && is_exist(dst)) {
 		return false;
 	}
 
-- 
2.43.0


From cd089bf9216f92cd0204af85bfa211b0d159bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 73/93] fix: log_logger::add_filter is declared and recommended
 but was never defined

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1701c16..803629d 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -60,6 +60,11 @@ void log_logger::set_filter(const std::vector<string>& filters) {
 	m_filters = filters;
 }
 
+void log_logger::add_filter(const string& filter) {
+	sys_thread_lock lock(m_mutex);
+	m_filters.push_back(filter);
+}
+
 void log_logger::get_filter(vector<string>& filters) {
 	sys_thread_lock lock(m_mutex);
 	filters = m_filters;
-- 
2.43.0


From 2c20a16022fc71588112b80168748161ab612234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 74/93] fix: the console logger goes silent after the first
 character outside ASCII

---
 basiclog/src/basiclog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 803629d..5946e84 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -182,7 +182,7 @@ string log_logger::format_timestamp() const {
 }
 
 void log_console_logger::print(const string& log_info) {
-	wcout<<log_info.c_str();
+	cout<<log_info.c_str();
 }
 
 void log_ide_console_logger::print(const string& log_info) {
-- 
2.43.0


From f3ba31bcfa1826ba3b13b21163a4c0249bcef013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 75/93] fix: log_file_logger ignores the directory it is
 constructed with

---
 basiclog/src/basiclog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 5946e84..57b6c6f 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -199,6 +199,7 @@ log_file_logger::~log_file_logger() {
 log_file_logger::log_file_logger(const string& dir, int file_max_log_number /* = 50000 */, int max_file_number /* = 10000 */, const string& timestamp /* = "%Y/%m/%d %H:%M:%S" */, bool is_pos_contain_dir /* = false */) 
 	: log_logger(timestamp, is_pos_contain_dir) {
 
+		m_save_dir = dir;
 		m_file_max_log_number = file_max_log_number;
 		m_max_file_number = max_file_number;
 		m_cur_file = NULL;
-- 
2.43.0


From 277de817467ee2d43c9eba268d1fe8e7476ff530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 76/93] fix: log_file_logger never rotates again once a limit
 is set below what is already there

---
 basiclog/src/basiclog.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 57b6c6f..6f7196d 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -240,18 +240,19 @@ void log_file_logger::set_max_file_number(int max_number) {
 }
 
 void log_file_logger::print(const string& log_info) {
-	if (NULL == m_cur_file || m_cur_file_log_number == m_file_max_log_number) {
-		if ((int)m_list_files.size() == m_max_file_number) {
+	if (NULL == m_cur_file || m_cur_file_log_number >= m_file_max_log_number) {
+		if (m_cur_file != NULL) {
+			fclose(m_cur_file);
+			m_cur_file = NULL;
+		}
+
+		while (!m_list_files.empty() && (int)m_list_files.size() >= m_max_file_number) {
 			remove(m_list_files.front().c_str());
 			m_list_files.pop_front();
 		}
 
 		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
 
-		if (m_cur_file != NULL) {
-			fclose(m_cur_file);
-		}
-
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
 	}
-- 
2.43.0


From 247739604c433fbb4f3582eefa513e35e0a06138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 77/93] fix: log_file_logger overwrites a file started in the
 same second

---
 basiclog/src/basiclog.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 6f7196d..6a18ae7 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -251,7 +251,15 @@ void log_file_logger::print(const string& log_info) {
 			m_list_files.pop_front();
 		}
 
-		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
+		//the title only tells seconds, so it may be taken
+		string title = generate_new_file_title();
+		string path = m_save_dir + title + ".txt";
+
+		for (int i = 2; sys_path::is_exist(path); ++i) {
+			path = m_save_dir + sys_strhelper::combine("%s (%d).txt", title.c_str(), i);
+		}
+
+		m_list_files.push_back(path);
 
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
-- 
2.43.0


From 161c07ab7d439d2e517cc3d1a59d85f457378dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 78/93] fix: log_file_logger crashes when its file cannot be
 created

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 6a18ae7..974792d 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -263,6 +263,11 @@ void log_file_logger::print(const string& log_info) {
 
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
+
+		if (m_cur_file == NULL) {
+			m_list_files.pop_back();
+			return;
+		}
 	}
 	
 	fprintf(m_cur_file, "%s", sys_strconvert::utf8_from_local(log_info).c_str());
-- 
2.43.0


From 89484f8fa426f05eb6f31c16ab512e3a6e056624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 79/93] fix: logs name the wrong zone twelve and more hours
 from UTC

---
 basiclog/src/basiclog.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 974792d..1caf6d2 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -168,12 +168,8 @@ string log_logger::format_timestamp() const {
 	gmtime_r(&time_utc, &tm_utc);
 #endif
 
-	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
-		time_zone += 24;   
-	} else if (time_zone > 12) {  
-		time_zone -= 24;  
-	}  
+	int day = tm_local.tm_year != tm_utc.tm_year ? tm_local.tm_year - tm_utc.tm_year : tm_local.tm_yday - tm_utc.tm_yday;
+	int time_zone = day * 24 + tm_local.tm_hour - tm_utc.tm_hour;
 
 	char buffer[1024];
 	strftime(buffer, 1024, m_timestamp.c_str(), &tm_local);
@@ -290,12 +286,8 @@ string log_file_logger::generate_new_file_title() const {
 	gmtime_r(&time_utc, &tm_utc);
 #endif
 
-	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
-		time_zone += 24;   
-	} else if (time_zone > 12) {  
-		time_zone -= 24;  
-	}  
+	int day = tm_local.tm_year != tm_utc.tm_year ? tm_local.tm_year - tm_utc.tm_year : tm_local.tm_yday - tm_utc.tm_yday;
+	int time_zone = day * 24 + tm_local.tm_hour - tm_utc.tm_hour;
 
 	char buffer[1024];
 	strftime(buffer, 1024, "%Y-%m-%d %H-%M-%S", &tm_local);
-- 
2.43.0


From bb71124b79bfdc74f6048072cf429675ac79e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 80/93] fix: sys_alg_analyzer reports the counters of earlier
 uses again

---
 basicsys/src/sys_alg_analyzer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_alg_analyzer.cpp b/basicsys/src/sys_alg_analyzer.cpp
index 17cb9a2..5648488 100644
--- a/basicsys/src/sys_alg_analyzer.cpp
+++ b/basicsys/src/sys_alg_analyzer.cpp
@@ -11,6 +11,7 @@ void sys_alg_analyzer::release() {
 		basiclog::log_logger::get_logger()->print("sys_alg_analyzer", "sys_alg_analyzer", sys_strcombine()<<m_info, __FILE__, __LINE__);
 	}
 
+	m_info.clear();
 	sys_thread_lock::release_mutex(m_mutex);
 	m_mutex = NULL;
 }
-- 
2.43.0


From b938c78d6ec9a2333960ab22fc9d7e53aa3c6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 81/93] fix: connected components are written to an
 uninitialised position

---
 basicimg/include/img_connected_component.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 58d35fb..67755f6 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -595,6 +595,7 @@ namespace basicimg {
 			preInfo.m_stack_helper = new image_pixel_type*[area];
 			preInfo.m_stack_top_index = -1;
 			preInfo.m_cache_points = new mt_point[area];
+			preInfo.m_cache_point_index = 0;
 		}
 
 		void normal_extract_stop(img_multi_connected_components& ccs, normal_connected_info& preInfo) {
-- 
2.43.0


From f30ec885fe857560e04e92591e0e4c5c6dfd3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 82/93] fix: connected components read outside images of
 several channels with a negative step

---
 basicimg/include/img_connected_component.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 67755f6..23b354b 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -380,7 +380,7 @@ namespace basicimg {
 					preInfo.m_activate_rect = maskInfo.m_mask_rect;
 				}
 
-				i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - preInfo.m_activate_rect.m_width;
+				i32 srcByteOffset = (i32)src.step()[0] / (i32)sizeof(T) - preInfo.m_activate_rect.m_width;
 
 				preInfo.m_temp_image = mt_mat((preInfo.m_activate_rect.m_height + 2) * sizeof(image_pixel_type), (preInfo.m_activate_rect.m_width + 2) * sizeof(image_pixel_type), mt_U8C1);
 				preInfo.m_temp_image.size()[1] = preInfo.m_activate_rect.m_width + 2;
@@ -455,7 +455,7 @@ namespace basicimg {
 					preInfo.m_temp_image.step()[1] = sizeof(image_pixel_type);
 					temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
-					i32 rawImageAppendOffset = (i32)src.step()[0] / sizeof(T) - targetImageSize.m_width;
+					i32 rawImageAppendOffset = (i32)src.step()[0] / (i32)sizeof(T) - targetImageSize.m_width;
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
@@ -499,7 +499,7 @@ namespace basicimg {
 						rawData += rawImageAppendOffset;
 					}
 				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
-					i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - src.size()[1];
+					i32 srcByteOffset = (i32)src.step()[0] / (i32)sizeof(T) - src.size()[1];
 
 					i32 rowMax = 0;
 					i32 colMax = 0;
@@ -533,7 +533,7 @@ namespace basicimg {
 					preInfo.m_temp_image.step()[1] = sizeof(image_pixel_type);
 					temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
-					i32 rawImageAppendOffset = (i32)src.step()[0] / sizeof(T) - targetImageSize.m_width;
+					i32 rawImageAppendOffset = (i32)src.step()[0] / (i32)sizeof(T) - targetImageSize.m_width;
 
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
-- 
2.43.0


From cad574dc27d86bbcc38b96f6eed6ad33019fd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 83/93] fix: connected components extracted into a used object
 keep the old rectangles and leak the old points

---
 basicimg/include/img_connected_component.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 23b354b..86219a7 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -603,14 +603,16 @@ namespace basicimg {
 				preInfo.m_regions.pop_back();
 			}
 
-			if (!preInfo.m_regions.empty()) {
-				ccs.m_cache_points = preInfo.m_cache_points;
-				ccs.m_ccs.resize(preInfo.m_regions.size());
+			basicsys_delete_array(ccs.m_cache_points);
+			ccs.m_cache_points = preInfo.m_cache_points;
+			ccs.m_ccs.resize(preInfo.m_regions.size());
 
+			if (!preInfo.m_regions.empty()) {
 				for (i32 i = 0; i < (i32)preInfo.m_regions.size(); ++i) {
 					ccs.m_ccs[i].m_share_memory = sys_true;
 					ccs.m_ccs[i].m_points = ccs.m_cache_points + preInfo.m_regions[i].m_x;
 					ccs.m_ccs[i].m_size = preInfo.m_regions[i].m_y - preInfo.m_regions[i].m_x;
+					ccs.m_ccs[i].m_rect = mt_rect();
 
 					for (i32 k = 0; k < ccs.m_ccs[i].m_size; ++k) {
 						ccs.m_ccs[i].m_rect.adjust_by_append_point(ccs.m_ccs[i].m_points[k]);
-- 
2.43.0


From 5aa9773231b42d2d98098ac791170b471b711674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 84/93] fix: connected components of an image without
 foreground have a negative size

---
 basicimg/include/img_connected_component.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 86219a7..3abedbe 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -446,6 +446,11 @@ namespace basicimg {
 						maskData += maskOffset;
 					}
 
+					if (rowMin > rowMax) {
+						//no pixel is left
+						rowMin = rowMax = colMin = colMax = 0;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
@@ -524,6 +529,11 @@ namespace basicimg {
 						image_data += srcByteOffset;
 					}
 
+					if (rowMin > rowMax) {
+						//no pixel is left
+						rowMin = rowMax = colMin = colMax = 0;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From f6aafb3e0bcebf80f1d9679fbbf2f744b7c4a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 85/93] fix: connected components with an image mask mix up the
 steps and run out of the image at the bottom

---
 basicimg/include/img_connected_component.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 3abedbe..52426b3 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -500,9 +500,14 @@ namespace basicimg {
 						data->m_visit_flag = 1;
 						++data;
 						data += temp_image_append_offset;
-						maskData += rawImageAppendOffset;
+						maskData += (i32)maskInfo.m_mask_image.step()[0] - targetImageSize.m_width;
 						rawData += rawImageAppendOffset;
 					}
+
+					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
+						data->m_visit_flag = 1;
+						++data;
+					}
 				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
 					i32 srcByteOffset = (i32)src.step()[0] / (i32)sizeof(T) - src.size()[1];
 
-- 
2.43.0


From b6fb7c710993b56cc3c002f60b1186426630f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 86/93] fix: an image of a list of connected components ignores
 that it should be colored

---
 basicimg/src/img_connected_component.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 0eb2242..ce1359b 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -94,7 +94,7 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 	vector<img_connected_component*> cc_pointers;
 	mt_helper::pointer_from_instance(cc_pointers, ccs);
 
-	return image_from_connected_component(cc_pointers, roi, forground_color, background_color);
+	return image_from_connected_component(cc_pointers, roi, forground_color, background_color, gray);
 }
 
 mt_mat img_connected_component_helper::image_from_connected_component(const vector<img_connected_component*>& ccs, const mt_rect& roi, const mt_scalar& forground_color /* = img_Color_Black */, const mt_scalar& background_color /* = img_Color_White */, b8 gray) {
-- 
2.43.0


From ff811c5ea3ae86ff7627a0d012b46217042ba53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 87/93] fix: the extraction of a single connected component
 never returns it

---
 basicimg/include/img_connected_component.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 52426b3..671da3f 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -58,7 +58,7 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
 	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -93,7 +93,7 @@
 	}	\
 	currentRegion->m_y = preInfo.m_cache_point_index;	\
 	single_extract_stop(cc, preInfo);\
-	delete preInfo.m_cache_points;
+	delete[] preInfo.m_cache_points;
 
 namespace basicimg {
 	class img_connected_component {
@@ -264,7 +264,7 @@ namespace basicimg {
 			currentRegion = &preInfo.m_regions.back();
 			image_data->m_visit_flag = 1;
 			currentRegion->m_x = preInfo.m_cache_point_index;
-			*preInfo.m_cache_points++ = startPoint;
+			preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;
 
 			preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;
 
@@ -286,14 +286,14 @@ namespace basicimg {
 						offset = (i32)(other_image_data - start_image_data);
 						offset_y = offset / preInfo.m_temp_image.size()[1];	
 						offset_x = offset - offset_y * preInfo.m_temp_image.size()[1];	
-						*preInfo.m_cache_points++ = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
+						preInfo.m_cache_points[preInfo.m_cache_point_index++] = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
 					}
 				}
 			}
 
 			currentRegion->m_y = preInfo.m_cache_point_index;
 			single_extract_stop(cc, preInfo);
-			delete preInfo.m_cache_points;
+			delete[] preInfo.m_cache_points;
 		}
 
 		virtual void ture_normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
@@ -302,7 +302,7 @@ namespace basicimg {
 			basicimg_cc_n_end();
 		}
 
-		virtual void ture_single_extract(img_connected_component cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
+		virtual void ture_single_extract(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
 			basicimg_cc_s_begin();
 			connect_condition = true;
 			basicimg_cc_s_end();
@@ -642,9 +642,8 @@ namespace basicimg {
 		}
 
 		void single_extract_stop(img_connected_component& cc, normal_connected_info& preInfo) {
-			cc.m_share_memory = sys_false;
-			cc.m_size = preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x;
-			cc.m_points = new mt_point[cc.m_size];
+			cc.init(preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x);
+			cc.m_rect = mt_rect();
 
 			for (i32 j = preInfo.m_regions[0].m_x, k = 0; j < preInfo.m_regions[0].m_y; ++j, ++k) {
 				cc.m_points[k] = preInfo.m_cache_points[j];
-- 
2.43.0


From 887466d1ac93bf32734e9a70ae7c0582a7afed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 88/93] fix: copies of a connected component free its points
 twice and lose its rectangle

---
 basicimg/include/img_connected_component.h |  2 ++
 basicimg/src/img_connected_component.cpp   | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 671da3f..ff0ba99 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -101,6 +101,8 @@ namespace basicimg {
 
 		img_connected_component();
 
+		img_connected_component(const img_connected_component& other);
+
 		~img_connected_component();
 
 		void operator = (const img_connected_component& other);
diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index ce1359b..4b2d3d1 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -37,6 +37,13 @@ img_connected_component::~img_connected_component() {
 	release();
 }
 
+img_connected_component::img_connected_component(const img_connected_component& other)
+	: m_points(NULL)
+	, m_size(0)
+	, m_share_memory(sys_false) {
+	*this = other;
+}
+
 void img_connected_component::operator = (const img_connected_component& other) {
 	if (this == &other) {
 		return;
@@ -44,6 +51,7 @@ void img_connected_component::operator = (const img_connected_component& other)
 
 	release();
 	m_share_memory = other.m_share_memory;
+	m_rect = other.m_rect;
 
 	if (other.m_share_memory) {
 		m_points = other.m_points;
@@ -63,6 +71,9 @@ void img_connected_component::release() {
 	if (!m_share_memory && m_points != NULL) {
 		delete[] m_points;
 	}
+
+	m_points = NULL;
+	m_size = 0;
 }
 
 void img_connected_component::init(i32 size) {
-- 
2.43.0


From c217298ba5b30a46b32079aad2ac0495830de29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 89/93] fix: copies of connected components free their common
 points twice

---
 basicimg/include/img_connected_component.h | 34 ++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index ff0ba99..127d96c 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -126,6 +126,40 @@ namespace basicimg {
 			m_cache_points = NULL;
 		}
 
+		img_multi_connected_components(const img_multi_connected_components& other) {
+			m_cache_points = NULL;
+			*this = other;
+		}
+
+		void operator = (const img_multi_connected_components& other) {
+			if (this == &other) {
+				return;
+			}
+
+			i32 size = 0;
+
+			for (i32 i = 0; i < (i32)other.m_ccs.size(); ++i) {
+				size += other.m_ccs[i].m_size;
+			}
+
+			mt_point* points = new mt_point[size];
+			m_ccs = other.m_ccs;
+
+			for (i32 i = 0, k = 0; i < (i32)m_ccs.size(); ++i) {
+				if (m_ccs[i].m_share_memory) {
+					for (i32 j = 0; j < m_ccs[i].m_size; ++j) {
+						points[k + j] = m_ccs[i].m_points[j];
+					}
+
+					m_ccs[i].m_points = points + k;
+					k += m_ccs[i].m_size;
+				}
+			}
+
+			basicsys_delete_array(m_cache_points);
+			m_cache_points = points;
+		}
+
 		~img_multi_connected_components() {
 			basicsys_delete_array(m_cache_points);
 		}
-- 
2.43.0


From 51ca7c2b5624e352ee10d78e859e0887faeabbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 90/93] fix: connected components look for a pixel in the wrong
 place of its row

---
 basicimg/include/img_connected_component.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 127d96c..7c62494 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -5,7 +5,7 @@
 #define basicimg_cc_n_begin()	\
 	normal_connected_info preInfo;\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
 	image_pixel_type* image_data = start_image_data;	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -58,8 +58,8 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
-	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
+	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
 	b8 connect_condition = false;	\
@@ -221,7 +221,7 @@ namespace basicimg {
 		virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 			image_pixel_type* image_data = start_image_data;
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
@@ -234,7 +234,7 @@ namespace basicimg {
 
 			for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
 				for (i32 col = 1; col <= preInfo.m_activate_rect.m_width; ++col) {
-					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 					if (0 == image_data->m_visit_flag) {
 						startPoint.m_x = col - 1 + preInfo.m_activate_rect.m_left;
@@ -286,9 +286,9 @@ namespace basicimg {
 		virtual void single_extract(img_connected_component& cc, const mt_point& startPoint, mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 1);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 
-			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);
+			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
 			b8 connect_condition = false;
@@ -425,7 +425,7 @@ namespace basicimg {
 				temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 				image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
-				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left);
+				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 					data->m_visit_flag = 1;
@@ -500,8 +500,8 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
+					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -557,7 +557,7 @@ namespace basicimg {
 					for (i32 row = 0; row < src.size()[0]; ++row) {
 						for (i32 col = 0; col < src.size()[1]; ++col) {
 
-							basiclog_assert2(image_data == src.ptr<T>(row, col));	
+							basiclog_assert2(image_data == src.ptr<T>(row, col, 0));	
 
 							if (*image_data++ != maskInfo.m_mask_value) {
 								rowMax = max(rowMax, row);
@@ -589,7 +589,7 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -599,7 +599,7 @@ namespace basicimg {
 					data += temp_image_append_offset;
 
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
-						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0));
+						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0, 0));
 
 						data->m_visit_flag = 1;
 						++data;
@@ -607,8 +607,8 @@ namespace basicimg {
 						i32 col = 1;
 						for (; col <= preInfo.m_activate_rect.m_width; ++col) {
 
-							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin));
-							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin, 0));
+							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 							if (*rawData != maskInfo.m_mask_value) {
 								data->m_visit_flag = 0;
-- 
2.43.0


From be90eff8da5749e00b2d2a42d1b7b0cbb8a95358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 91/93] fix: img_canny overwrites the gradients given to an
 earlier detection

---
 basicimg/include/img_canny.h | 12 ++++++++++++
 basicimg/src/img_canny.cpp   | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/basicimg/include/img_canny.h b/basicimg/include/img_canny.h
index 615d9fb..dc08746 100644
--- a/basicimg/include/img_canny.h
+++ b/basicimg/include/img_canny.h
@@ -11,6 +11,10 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = sys_true;
 
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
+
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -23,6 +27,10 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = enable_memory_cache;
 
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
+
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -34,6 +42,10 @@ namespace basicimg {
 			m_apeture_size = apeture_size;
 			m_l2_gradient = l2_gradient;
 			m_enable_memory_cache = enable_memory_cache;
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
+
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index a1d542c..fe14367 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -31,6 +31,10 @@ mt_mat img_canny::edge_detection(const mt_mat& src, const mt_mat& gradient_x /*
 
 void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gradient_x /* = mt_mat() */, const mt_mat& gradient_y /* = mt_mat() */, const mt_mat& gradient_mag /* = mt_mat() */) {
 	if (gradient_x.is_empty()) {
+		if (!m_inner_gradient_x) {
+			m_gradient_x = mt_mat();
+		}
+
 		img_img::sobel(m_gradient_x, src, mt_F32, 1, 0, m_apeture_size);
 		m_inner_gradient_x = sys_true;
 	} else {
@@ -39,6 +43,10 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 	}
 
 	if (gradient_y.is_empty()) {
+		if (!m_inner_gradient_y) {
+			m_gradient_y = mt_mat();
+		}
+
 		img_img::sobel(m_gradient_y, src, mt_F32, 0, 1, m_apeture_size);
 		m_inner_gradient_y = sys_true;
 	} else {
@@ -53,6 +61,11 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 			gradient_mag_type = img_img::Gradient_Mag_Type_L2;
 		}
 
+		 if (!m_inner_gradient_mag) {
+			 //the matrix belongs to the caller of an earlier detection
+			 m_gradient_mag = mt_mat();
+		 }
+
 		 img_img::generate_gradient_mag(m_gradient_mag, m_gradient_x, m_gradient_y, gradient_mag_type);
 		 m_inner_gradient_mag = sys_true;
 	} else {
-- 
2.43.0


From 5487add632ec9770cefcdb6223ebac1c7bc5d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 92/93] fix: img_canny writes behind its stack for images of
 few wide rows

---
 basicimg/src/img_canny.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index fe14367..990af92 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -174,7 +174,7 @@ void img_canny::canny_impl(mt_mat& edge) {
 
         if ((stack_top - stack_bottom) + cols > maxsize) {
             i32 sz = (i32)(stack_top - stack_bottom);
-            maxsize = maxsize * 3/2;
+            maxsize = max(maxsize * 3/2, sz + cols);
             m_stack.resize(maxsize);
             stack_bottom = &m_stack[0];
             stack_top = stack_bottom + sz;
-- 
2.43.0


From 2b58b568d29f942ce802d30dd58c460cb11ec7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 93/93] fix: copies of an img_canny free its buffer twice

---
 basicimg/include/img_canny.h | 14 +-------------
 basicimg/src/img_canny.cpp   | 17 ++++-------------
 2 files changed, 5 insertions(+), 26 deletions(-)

diff --git a/basicimg/include/img_canny.h b/basicimg/include/img_canny.h
index dc08746..8ce5fde 100644
--- a/basicimg/include/img_canny.h
+++ b/basicimg/include/img_canny.h
@@ -14,9 +14,6 @@ namespace basicimg {
 			m_inner_gradient_x = sys_false;
 			m_inner_gradient_y = sys_false;
 			m_inner_gradient_mag = sys_false;
-
-			m_buffer = NULL;
-			m_buffer_size = 0;
 		}
 
 		img_canny(i32 low_threshold, i32 high_threshold, b8 enable_memory_cache = sys_true) {
@@ -30,9 +27,6 @@ namespace basicimg {
 			m_inner_gradient_x = sys_false;
 			m_inner_gradient_y = sys_false;
 			m_inner_gradient_mag = sys_false;
-
-			m_buffer = NULL;
-			m_buffer_size = 0;
 		}
 
 		img_canny(i32 low_threshold, i32 high_threshold, i32 apeture_size, b8 l2_gradient, b8 enable_memory_cache = sys_true) {
@@ -45,13 +39,8 @@ namespace basicimg {
 			m_inner_gradient_x = sys_false;
 			m_inner_gradient_y = sys_false;
 			m_inner_gradient_mag = sys_false;
-
-			m_buffer = NULL;
-			m_buffer_size = 0;
 		}
 		
-		~img_canny();
-
 
 		void set_low_threshold(i32 threshold) {
 			m_low_threshold = threshold;
@@ -132,8 +121,7 @@ namespace basicimg {
 		mt_mat m_gradient_mag;
 		b8 m_inner_gradient_mag;
 
-		u8* m_buffer;
-		i32 m_buffer_size;
+		vector<u8> m_buffer;
 
 		vector<u8*> m_stack;
 	};
diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index 990af92..1499d0c 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -3,10 +3,6 @@
 #include "img_canny.h"
 #include "img_img.h"
 
-img_canny::~img_canny() {
-	basicsys_delete_array(m_buffer);
-}
-
 void img_canny::clear_memory_cache() {
 	if (m_inner_gradient_x) {
 		m_gradient_x = mt_mat();
@@ -18,8 +14,8 @@ void img_canny::clear_memory_cache() {
 
 	vector<u8*> temp;
 	m_stack.swap(temp);
-	basicsys_delete_array(m_buffer);
-	m_buffer_size = 0;
+	vector<u8> temp_buffer;
+	m_buffer.swap(temp_buffer);
 }
 
 mt_mat img_canny::edge_detection(const mt_mat& src, const mt_mat& gradient_x /* = mt_mat() */, const mt_mat& gradient_y /* = mt_mat() */, const mt_mat& gradient_mag /* = mt_mat() */) {
@@ -93,15 +89,10 @@ void img_canny::canny_impl(mt_mat& edge) {
 	i32 mapstep = m_gradient_x.size()[1] + 2;
 	i32 buffer_size = (m_gradient_x.size()[0] + 2) * (cols + 2) + mapstep * 3 * sizeof(i32);
 	
-	if (m_buffer_size != buffer_size) {
-		basicsys_delete_array(m_buffer);
-
-		m_buffer_size = buffer_size;
-		m_buffer = new u8[m_buffer_size];
-	}
+	m_buffer.resize(buffer_size);
 	
     i32* mag_buf[3];
-    mag_buf[0] = (i32*)(uchar*)m_buffer;
+    mag_buf[0] = (i32*)&m_buffer[0];
     mag_buf[1] = mag_buf[0] + mapstep;
     mag_buf[2] = mag_buf[1] + mapstep;
     memset(mag_buf[0], 0, mapstep*sizeof(i32));
-- 
2.43.0

