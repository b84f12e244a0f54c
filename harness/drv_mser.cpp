// Executes MSER sessions against the real library and writes what is observable to stdout, one JSON line per command.
//   new H ALG            create instance H
//   del H | clear H      delete / clear_memory_cache
//   set H KEY V [V2]     a setter of img_mser_base
//   ext H R ROWS COLS LAYOUT MASK px...   extract into result slot R; LAYOUT: cont | sub (a sub-matrix with padding)
//        MASK: none | rect l t w h | image b... | value v
//   res R                print slot R again
//   copy R1 R2 | assign R1 R2 | drop R | self R
//   render R CH IDX      img_mser_helper::image_from_mser
#include <basiclog.h>
using namespace basiclog;
#include <basicsys.h>
using namespace basicsys;
#include <basicmath.h>
using namespace basicmath;
#include <basicimg.h>
using namespace basicimg;
#include <typeinfo>
#include <sstream>

static string alg_type(const string& a) {
	if (a == "v1") return typeid(img_fast_mser_v1).name();
	if (a == "v2") return typeid(img_fast_mser_v2).name();
	if (a == "ll") return typeid(img_linked_linear_mser).name();
	if (a == "cv3") return typeid(img_opencv3_mser).name();
	if (a == "cv") return typeid(img_opencv_mser).name();
	if (a == "orig") return typeid(img_original_mser).name();
	if (a == "idiap") return typeid(img_idiap_mser).name();
	if (a == "vl") return typeid(img_vlfeat_mser).name();
	if (a == "ms") return typeid(img_ms_mser).name();
	return "no such class";
}

class silent_logger : public log_logger {
public:
	static int errors;
protected:
	virtual void print(const string& info) { if (info.compare(0, 7, "[error]") == 0) ++errors; }
};
int silent_logger::errors = 0;

static map<int, img_mser_base*> g_alg;
static map<int, img_multi_msers*> g_res;
static int g_rows, g_cols;
static map<int, pair<int, int> > g_geo;

static void decode(const img_mser& m, const vector<img_mser>& all, vector<mt_point>& out) {
	if (m.m_memory_type == img_mser::Memory_Type_Self || m.m_memory_type == img_mser::Memory_Type_Share || m.m_memory_type == img_mser::Memory_Type_Range) {
		for (i32 i = 0; i < m.m_size; ++i) out.push_back(m.m_points[i]);
		return;
	}
	vector<i32> st; st.push_back(0);
	const img_mser* lo = &all[0]; const img_mser* hi = lo + all.size();
	while (!st.empty()) {
		const img_mser* t = &m + st.back(); st.pop_back();
		if (t < lo || t >= hi || out.size() > (size_t)g_rows * g_cols * 4 + 16) { out.push_back(mt_point(-9, -9)); return; }
		if (t->m_memory_type == img_mser::Memory_Type_Share || t->m_memory_type == img_mser::Memory_Type_Self || t->m_memory_type == img_mser::Memory_Type_Range) {
			for (i32 i = 0; i < t->m_size; ++i) out.push_back(t->m_points[i]);
		} else if (t->m_memory_type == img_mser::Memory_Type_Recursive) {
			mt_point* p = t->m_points + 1; mt_point* e = p + t->m_points[0].m_x;
			for (; p != e; ++p) out.push_back(*p);
			i32* c = (i32*)e;
			for (i32 k = 0; k < t->m_points[0].m_y; ++k) st.push_back((i32)(c[k] + t - &m));
		} else {
			for (i32 k = 0; k < 4; ++k)
				for (mt_point* p = t->m_points + t->m_points[k].m_x; p < t->m_points + t->m_points[k].m_y; ++p) out.push_back(*p);
			if (t->m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
				i32* c = (i32*)(t->m_points + 4);
				for (i32 k = 0; k < c[0]; ++k) st.push_back((i32)(c[k + 1] + t - &m));
			}
		}
	}
}

static void print_result(int slot, int same = 1) {
	if (!g_res.count(slot)) { printf("{\"error\":\"slot\"}\n"); return; }
	const img_multi_msers& r = *g_res[slot];
	g_rows = g_geo[slot].first; g_cols = g_geo[slot].second;
	printf("{\"same\":%d,\"out\":[", same);
	for (int c = 0; c < 2; ++c) {
		printf("%s[", c ? "," : "");
		for (size_t i = 0; i < r.m_msers[c].size(); ++i) {
			const img_mser& m = r.m_msers[c][i];
			vector<mt_point> pts;
			decode(m, r.m_msers[c], pts);
			printf("%s{\"g\":%d,\"s\":%d,\"t\":%d,\"r\":[%d,%d,%d,%d],\"p\":[", i ? "," : "", m.m_gray_level, m.m_size, m.m_memory_type, m.m_rect.m_left, m.m_rect.m_top, m.m_rect.m_width, m.m_rect.m_height);
			for (size_t k = 0; k < pts.size(); ++k) {
				bool in = pts[k].m_x >= 0 && pts[k].m_x < g_cols && pts[k].m_y >= 0 && pts[k].m_y < g_rows;
				printf("%s%d", k ? "," : "", in ? pts[k].m_y * g_cols + pts[k].m_x : -1);
			}
			printf("]}");
		}
		printf("]");
	}
	printf("]}\n");
}

int main() {
	log_logger::init_logger(new silent_logger());
	string line;
	while (getline(cin, line)) {
		istringstream is(line);
		string op; is >> op;
		int h = 0; is >> h;
		if (op == "new") {
			string a; is >> a;
			g_alg[h] = img_mser_alg_factory(alg_type(a)).new_instance();
			printf("{\"ok\":%d}\n", g_alg[h] != NULL);
		} else if (op == "del") {
			delete g_alg[h]; g_alg.erase(h); printf("{\"ok\":1}\n");
		} else if (op == "clear") {
			g_alg[h]->clear_memory_cache(); printf("{\"ok\":1}\n");
		} else if (op == "set") {
			string k; is >> k; double v = 0, v2 = 0; is >> v >> v2;
			img_mser_base* a = g_alg[h];
			if (k == "delta") a->set_stable_delta((i32)v);
			else if (k == "dup") a->set_duplicated_variation((f32)v);
			else if (k == "stable") a->set_stable_max_variation((f32)v);
			else if (k == "nms") a->set_nms_similarity((f32)v);
			else if (k == "conn") a->set_connected_type(v == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
			else if (k == "size") a->set_min_max_point((i32)v, (f32)v2);
			else if (k == "enable") a->enable_extraction(v != 0, v2 != 0);
			else if (k == "rec") a->set_recursive_point_threshold((i32)v);
			else if (k == "threads") a->set_parallel_thread_number((i32)v);
			printf("{\"ok\":1}\n");
		} else if (op == "ext") {
			int r, rows, cols; string layout, mask;
			is >> r >> rows >> cols >> layout >> mask;
			img_mask_info<u8> mi;
			if (mask == "rect") { int l, t, w, hh; is >> l >> t >> w >> hh; mi = img_mask_info<u8>(mt_rect(l, t, w, hh)); }
			else if (mask == "value") { int v; is >> v; mi = img_mask_info<u8>((u8)v); }
			else if (mask == "image" || mask == "imagesub" || mask == "imageflip") {
				mt_mat mm = mask == "image" ? mt_mat(rows, cols, mt_U8C1) : mt_mat(rows + 3, cols + 5, mt_U8C1, mt_scalar(1)).sub(1, 1 + rows, 0).sub(4, 4 + cols, 1);
				if (mask == "imageflip") mm = mm.flip(0);
				for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) { int v; is >> v; mm.at<u8>(y, x, 0) = (u8)v; } mi = img_mask_info<u8>(mm); }
			mt_mat img;
			if (layout == "sub") {
				mt_mat big(rows + 4, cols + 6, mt_U8C1, mt_scalar(7));
				img = big.sub(2, 2 + rows, 0).sub(3, 3 + cols, 1);
			} else if (layout == "flip") {
				mt_mat big(rows + 2, cols + 3, mt_U8C1, mt_scalar(9));
				img = big.sub(1, 1 + rows, 0).sub(2, 2 + cols, 1).flip(0);
			} else img = mt_mat(rows, cols, mt_U8C1);
			for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) { int v = 0; is >> v; img.at<u8>(y, x, 0) = (u8)v; }
			mt_mat keep = img.clone();
			if (!g_res.count(r)) g_res[r] = new img_multi_msers();
			g_geo[r] = make_pair(rows, cols);
			g_alg[h]->extract(*g_res[r], img, mi);
			bool same = true;
			for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) same = same && img.at<u8>(y, x, 0) == keep.at<u8>(y, x, 0);
			print_result(r, same);
		} else if (op == "res") {
			print_result(h);
		} else if (op == "copy" || op == "assign") {
			int o; is >> o;
			if (op == "copy") { delete g_res[o]; g_res[o] = new img_multi_msers(*g_res[h]); }
			else { if (!g_res.count(o)) g_res[o] = new img_multi_msers(); *g_res[o] = *g_res[h]; }
			g_geo[o] = g_geo[h];
			print_result(o);
		} else if (op == "drop") {
			delete g_res[h]; g_res.erase(h); printf("{\"ok\":1}\n");
		} else if (op == "render") {
			int c, i; is >> c >> i;
			mt_mat im; img_mser_helper::image_from_mser(im, g_res[h]->m_msers[c][i], mt_size(0, 0), mt_scalar(0), mt_scalar(255));
			printf("{\"rows\":%d,\"cols\":%d,\"px\":[", im.size()[0], im.size()[1]);
			for (int y = 0; y < im.size()[0]; ++y) for (int x = 0; x < im.size()[1]; ++x) printf("%s%d", (x || y) ? "," : "", im.at<u8>(y, x, 0));
			printf("]}\n");
		} else if (op == "reset") {
			for (map<int, img_mser_base*>::iterator i = g_alg.begin(); i != g_alg.end(); ++i) delete i->second;
			for (map<int, img_multi_msers*>::iterator i = g_res.begin(); i != g_res.end(); ++i) delete i->second;
			g_alg.clear(); g_res.clear(); printf("{\"ok\":1}\n");
		} else printf("{\"error\":\"op\"}\n");
		fflush(stdout);
	}
}
