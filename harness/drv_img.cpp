// Executes sessions of the specification Conn on the connected components and what pictures are made of them.
#include "plan.h"
#include <basicimg.h>
#include <img_mser_result.h>
using namespace basicimg;
struct Image { mt_mat base, view; int h, w, c; bool wide; vector<int> v; };
static map<int, Image> images;
static map<int, img_multi_connected_components*> multis;
static map<int, img_connected_component*> ones;
static vector<mt_point*> lent;
static void put(mt_mat& m, const vector<int>& v, int c, bool wide) {
	size_t i = 0;
	for (int y = 0; y < m.size()[0]; ++y) for (int x = 0; x < m.size()[1]; ++x) for (int k = 0; k < c; ++k, ++i) {
		u8* p = m.data() + y * m.step()[0] + x * m.step()[1];
		if (wide) ((i32*)p)[k] = v[i]; else p[k] = (u8)v[i];
	}
}
static vector<int> get(const mt_mat& m, bool wide) {
	vector<int> r;
	for (int y = 0; y < m.size()[0]; ++y) for (int x = 0; x < m.size()[1]; ++x) for (int k = 0; k < m.channel(); ++k) {
		const u8* p = m.data() + y * m.step()[0] + x * m.step()[1];
		r.push_back(wide ? ((const i32*)p)[k] : p[k]);
	}
	return r;
}
// A matrix of these elements lying as asked: by itself, in a larger one, or upside down.
static void lay(Image& m, const string& how) {
	mt_Depth_Channel dc(m.wide ? mt_I32 : mt_U8, m.c);
	if (how == "part") { m.base = mt_mat(m.h + 3, m.w + 4, dc); m.base.set(1); m.view = m.base.sub(1, 1 + m.h, 0).sub(2, 2 + m.w, 1); }
	else if (how == "flip") { m.base = mt_mat(m.h, m.w, dc); m.view = m.base.flip(0); }
	else { m.base = mt_mat(m.h, m.w, dc); m.view = m.base; }
	put(m.view, m.v, m.c, m.wide);
}
template<class T> static T value_of(const vector<int>& y) { return (T)y[0]; }
template<> sys_array_type<u8, 3> value_of(const vector<int>& y) { f64 v[4] = {(f64)y[0], (f64)y[1], (f64)y[2], (f64)y[3]}; return sys_array_type<u8, 3>(v); }
template<class T> static img_mask_info<T> mask_of(const Cmd& c, Image& mask, const Image& m) {
	if (c.f == "rect") return img_mask_info<T>(mt_rect(c.y[0], c.y[1], c.y[2], c.y[3]));
	if (c.f == "value") return img_mask_info<T>(value_of<T>(c.y));
	if (c.f == "image") { mask.h = m.h; mask.w = m.w; mask.c = 1; mask.wide = false; mask.v = c.y; lay(mask, c.y.size() % 3 == 0 ? "part" : c.y.size() % 3 == 1 ? "plain" : "flip"); return img_mask_info<T>(mask.view); }
	return img_mask_info<T>();
}
template<class T> static void extract(const Cmd& c) {
	ml_connected_component_base<T> e; Image& m = images[c.i]; Image mask;
	img_Connected_Type n = c.n == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour;
	img_mask_info<T> info = mask_of<T>(c, mask, m);
	if (c.op == "label") { if (!multis.count(c.k)) multis[c.k] = new img_multi_connected_components(); e.ture_normal_extract(*multis[c.k], m.view, info, n); }
	else { if (!ones.count(c.k)) ones[c.k] = new img_connected_component(); e.ture_single_extract(*ones[c.k], mt_point(c.z[1], c.z[0]), m.view, info, n); }
}
static void comp(vector<int>& o, const img_connected_component& c) {
	o.push_back(c.m_size); o.push_back(c.m_rect.m_left); o.push_back(c.m_rect.m_top); o.push_back(c.m_rect.m_width); o.push_back(c.m_rect.m_height);
	for (int i = 0; i < c.m_size; ++i) { o.push_back(c.m_points[i].m_x); o.push_back(c.m_points[i].m_y); }
}
static vector<int> comps(const img_multi_connected_components& m) { vector<int> o; for (size_t i = 0; i < m.m_ccs.size(); ++i) comp(o, m.m_ccs[i]); return o; }
static void object(vector<int>& t, int kind, int k, const vector<int>& v) { t.push_back(kind); t.push_back(k); t.push_back((int)v.size()); t.insert(t.end(), v.begin(), v.end()); }
static vector<int> picture(const mt_mat& m, bool wide = false) { vector<int> r; r.push_back(m.size()[0]); r.push_back(m.size()[1]); r.push_back(m.channel()); vector<int> v = get(m, wide); r.insert(r.end(), v.begin(), v.end()); return r; }
static mt_scalar color(const vector<int>& x) { return mt_scalar(x[0], x[1], x[2], x[3]); }
static bool execute(const Cmd& c) {
	if (c.op == "image") {
		Image m; m.h = c.y[0]; m.w = c.y[1]; m.c = c.y[2]; m.wide = c.f == "i32"; m.v = c.x; lay(m, c.g); images[c.k] = m;
	} else if (c.op == "label" || c.op == "single") {
		if (c.g == "helper") {
			if (!multis.count(c.k)) multis[c.k] = new img_multi_connected_components();
			img_connected_component_helper::connect_component(*multis[c.k], images[c.i].view, color(c.y), c.n == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
		} else if (c.g == "u8") extract<u8>(c); else if (c.g == "i32") extract<i32>(c); else extract<sys_array_type<u8, 3> >(c);
	} else if (c.op == "make") {
		if (!ones.count(c.k)) ones[c.k] = new img_connected_component();
		img_connected_component& o = *ones[c.k]; int n = (int)c.z.size() / 2;
		if (c.i) { lent.push_back(new mt_point[n + 1]); o.init(lent.back(), n); } else o.init(n);
		o.m_rect = mt_rect();
		for (int i = 0; i < n; ++i) { o.m_points[i] = mt_point(c.z[2 * i + 1], c.z[2 * i]); o.m_rect.adjust_by_append_point(o.m_points[i]); }
	} else if (c.op == "copy") {
		if (c.f == "construct") ones[c.k] = new img_connected_component(*ones[c.i]);
		else { if (!ones.count(c.k)) ones[c.k] = new img_connected_component(); *ones[c.k] = *ones[c.i]; }
	} else if (c.op == "drop") { delete ones[c.k]; ones.erase(c.k); }
	else if (c.op == "release") ones[c.k]->release();
	else if (c.op == "copies") {
		if (c.f == "construct") multis[c.k] = new img_multi_connected_components(*multis[c.i]);
		else { if (!multis.count(c.k)) multis[c.k] = new img_multi_connected_components(); *multis[c.k] = *multis[c.i]; }
	} else if (c.op == "drops") { delete multis[c.k]; multis.erase(c.k); }
	else if (c.op == "picture") {
		mt_rect roi(c.y[0], c.y[1], c.y[2], c.y[3]); mt_mat r; vector<img_connected_component>& v = multis[c.k]->m_ccs;
		if (c.f == "objects") r = img_connected_component_helper::image_from_connected_component(v, roi, color(c.x), color(c.z), c.i == 1);
		else { vector<img_connected_component*> p; for (size_t i = 0; i < v.size(); ++i) p.push_back(&v[i]); r = img_connected_component_helper::image_from_connected_component(p, roi, color(c.x), color(c.z), c.i == 1); }
		show("r", picture(r));
	} else if (c.op == "chess") { mt_mat r; img_img::genarate_chessboard(r, mt_size(c.n, c.k), c.i, c.y[0]); show("r", picture(r)); }
	else if (c.op == "levels") {
		img_mser_result res; vector<img_connected_component>& v = multis[c.k]->m_ccs; int p = c.i ? 0 : 1;
		res.m_msers[p].resize(v.size());
		for (size_t j = 0; j < v.size(); ++j) { res.m_msers[p][j].m_cc = v[j]; res.m_msers[p][j].m_level = (u8)c.z[j % c.z.size()]; }
		img_mser_component noise; noise.m_cc.init(1); noise.m_cc.m_points[0] = mt_point(0, 0); noise.m_level = 77; res.m_msers[1 - p].assign(1, noise);
		vector<img_connected_component*> a; res.shallow_copy_cc(a, c.i ? img_mser_result::Result_Type_From_Min : img_mser_result::Result_Type_From_Max);
		vector<int> o; for (size_t j = 0; j < a.size(); ++j) comp(o, *a[j]);
		img_mser_channel_image ch = res.generate_mser_channel_image(mt_mat(c.y[0], c.y[1], mt_U8C1), c.i == 1);
		show("o", o); show("r", picture(ch.m_level_image)); show("s", picture(ch.m_mser_id_image, true));
	} else if (c.op == "inside") {
		mt_mat m(c.y[0], c.y[1], mt_U8C1); mt_point p(c.y[3], c.y[2]);
		vector<int> r; r.push_back(img_img::point_in_image(p, m) ? 1 : 0); r.push_back(img_img::point_in_image_boundary(p, m) ? 1 : 0); show("r", r);
	} else return false;
	int changed = 0;
	for (map<int, Image>::iterator i = images.begin(); i != images.end(); ++i) changed += get(i->second.view, i->second.wide) != i->second.v;
	vector<int> t;
	for (map<int, img_multi_connected_components*>::iterator i = multis.begin(); i != multis.end(); ++i) object(t, 1, i->first, comps(*i->second));
	for (map<int, img_connected_component*>::iterator i = ones.begin(); i != ones.end(); ++i) { vector<int> o; comp(o, *i->second); object(t, 2, i->first, o); }
	show("t", t); show("changed", changed);
	return true;
}
static void reset() {
	for (map<int, img_multi_connected_components*>::iterator i = multis.begin(); i != multis.end(); ++i) delete i->second;
	for (map<int, img_connected_component*>::iterator i = ones.begin(); i != ones.end(); ++i) delete i->second;
	for (size_t i = 0; i < lent.size(); ++i) delete[] lent[i];
	multis.clear(); ones.clear(); lent.clear(); images.clear();
}
int main() { return serve(execute, reset); }
