// Helpers of the demonstrations: runs an extraction and returns the regions as sets of pixels.
#include <basiclog.h>
using namespace basiclog;
#include <basicsys.h>
using namespace basicsys;
#include <basicmath.h>
using namespace basicmath;
#include <basicimg.h>
using namespace basicimg;
#include <set>
#include <cstdio>
#include <cstdlib>

typedef std::set<std::pair<std::pair<int, int>, std::vector<int> > > regions;   // ((polarity, gray), sorted pixels)

struct quiet : public log_logger { protected: virtual void print(const string&) {} };

static mt_mat image_of(const std::vector<int>& px, int rows, int cols) {
	mt_mat m(rows, cols, mt_U8C1);
	for (int i = 0; i < rows * cols; ++i) m.at<u8>(i / cols, i % cols, 0) = (u8)px[i];
	return m;
}

static void points_of(const img_mser& m, std::vector<mt_point>& out, int depth = 0) {
	if (depth > 100000) return;
	if (m.m_memory_type == img_mser::Memory_Type_Self || m.m_memory_type == img_mser::Memory_Type_Share || m.m_memory_type == img_mser::Memory_Type_Range) {
		for (i32 i = 0; i < m.m_size; ++i) out.push_back(m.m_points[i]);
	} else if (m.m_memory_type == img_mser::Memory_Type_Recursive) {
		mt_point* e = m.m_points + 1 + m.m_points[0].m_x;
		for (mt_point* p = m.m_points + 1; p < e; ++p) out.push_back(*p);
		for (i32 k = 0; k < m.m_points[0].m_y; ++k) points_of(*(&m + ((i32*)e)[k]), out, depth + 1);
	} else {
		for (i32 k = 0; k < 4; ++k)
			for (mt_point* p = m.m_points + m.m_points[k].m_x; p < m.m_points + m.m_points[k].m_y; ++p) out.push_back(*p);
		if (m.m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
			i32* c = (i32*)(m.m_points + 4);
			for (i32 k = 0; k < c[0]; ++k) points_of(*(&m + c[k + 1]), out, depth + 1);
		}
	}
}

static regions regions_of(const img_multi_msers& r, int cols) {
	regions s;
	for (int c = 0; c < 2; ++c)
		for (size_t i = 0; i < r.m_msers[c].size(); ++i) {
			std::vector<mt_point> p;
			points_of(r.m_msers[c][i], p);
			std::vector<int> q;
			for (size_t k = 0; k < p.size(); ++k) q.push_back(p[k].m_y * cols + p[k].m_x);
			std::sort(q.begin(), q.end());
			s.insert(std::make_pair(std::make_pair(c, (int)r.m_msers[c][i].m_gray_level), q));
		}
	return s;
}

static regions extract(img_mser_base& a, const mt_mat& img, const img_mask_info<u8>& mask = img_mask_info<u8>()) {
	img_multi_msers r;
	a.extract(r, img, mask);
	return regions_of(r, img.size()[1]);
}

static void all_regions(img_mser_base& a) {
	a.set_stable_delta(0); a.set_duplicated_variation(-1); a.set_nms_similarity(-1); a.set_min_max_point(1, 1);
}

static unsigned lcg_state = 12345;
static int lcg(int n) { lcg_state = lcg_state * 1103515245u + 12345u; return (int)((lcg_state >> 16) % (unsigned)n); }

static int verdict(bool ok, const char* what) {
	printf("%s: %s\n", ok ? "holds" : "BROKEN", what);
	return ok ? 0 : 1;
}
