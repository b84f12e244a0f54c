// Executes sessions of the specification Edges on img_canny and gradient magnitudes.
#include "plan.h"
#include <basicimg.h>
using namespace basicimg;
struct Image { mt_mat base, view; vector<int> v; };
static map<int, Image> images;
static map<int, img_canny*> detectors;
static mt_mat lay(int h, int w, mt_Depth_Channel dc, const string& how, mt_mat& base) {
	if (how == "part") { base = mt_mat(h + 3, w + 4, dc); base.set(1); return base.sub(1, 1 + h, 0).sub(2, 2 + w, 1); }
	base = mt_mat(h, w, dc);
	return how == "flip" ? base.flip(0) : base;
}
// Every element in units of 1 / unit, truncated.
static vector<int> get(const mt_mat& m, int unit, bool size = true) {
	vector<int> r;
	if (size) { r.push_back(m.dim() < 1 ? 0 : m.size()[0]); r.push_back(m.dim() < 2 ? 0 : m.size()[1]); }
	if (m.dim() != 2) return r;
	for (int y = 0; y < m.size()[0]; ++y) for (int x = 0; x < m.size()[1]; ++x) {
		const u8* p = m.data() + y * m.step()[0] + x * m.step()[1];
		if (m.depth() == mt_F32) r.push_back((int)(*(const f32*)p * unit)); else if (m.depth() == mt_U8) r.push_back(*p); else r.push_back(-77777);
	}
	return r;
}
// A matrix to put a result into: none yet, of another size, of this size, or part of a larger one.
static mt_mat target(int n, int h, int w, mt_Depth_Channel dc, mt_mat& base) {
	if (n == 1) return mt_mat(h + 1, w, dc);
	if (n == 2) { mt_mat m = lay(h, w, dc, "plain", base); m.set(7); return m; }
	if (n == 3) { mt_mat m = lay(h, w, dc, "part", base); m.set(9); return m; }
	return mt_mat();
}
static bool execute(const Cmd& c) {
	if (c.op == "image") {
		Image m; m.v = c.x; m.view = lay(c.y[0], c.y[1], mt_F32C1, c.g, m.base);
		for (int y = 0, i = 0; y < c.y[0]; ++y) for (int x = 0; x < c.y[1]; ++x, ++i) *(f32*)(m.view.data() + y * m.view.step()[0] + x * m.view.step()[1]) = c.x[i] / 4.0f;
		images[c.k] = m;
	} else if (c.op == "new") {
		if (detectors.count(c.k)) delete detectors[c.k];
		b8 l2 = c.x[3] == 1, cache = c.x[4] == 1;
		detectors[c.k] = c.f == "plain" ? new img_canny() : c.f == "two" ? new img_canny(c.x[0], c.x[1], cache) : new img_canny(c.x[0], c.x[1], c.x[2], l2, cache);
	} else if (c.op == "set") {
		img_canny& d = *detectors[c.k];
		if (c.f == "low") d.set_low_threshold(c.i); else if (c.f == "high") d.set_high_threshold(c.i); else if (c.f == "size") d.set_apeture_size(c.i);
		else if (c.f == "l2") d.set_l2_gradient(c.i == 1); else d.enable_memory_cache(c.i == 1);
	} else if (c.op == "copy") {
		if (c.f == "construct") detectors[c.k] = new img_canny(*detectors[c.i]);
		else { if (!detectors.count(c.k)) detectors[c.k] = new img_canny(); *detectors[c.k] = *detectors[c.i]; }
	} else if (c.op == "drop") { delete detectors[c.k]; detectors.erase(c.k); }
	else if (c.op == "clear") detectors[c.k]->clear_memory_cache();
	else if (c.op == "detect") {
		img_canny& d = *detectors[c.k]; const mt_mat src(2, 2, mt_U8C1); mt_mat mag, base, edge; Image& gx = images[c.x[0]];
		if (c.x[2]) mag = images[c.x[2]].view;
		if (c.n == 0) edge = d.edge_detection(src, gx.view, images[c.x[1]].view, mag);
		else { edge = target(c.n, gx.view.size()[0], gx.view.size()[1], mt_U8C1, base); d.edge_detection(edge, src, gx.view, images[c.x[1]].view, mag); }
		show("r", get(edge, 1)); show("s", get(d.gradient_x(), 4)); show("t", get(d.gradient_y(), 4)); show("o", get(d.gradient_mag(), 1));
	} else if (c.op == "wide") {
		mt_mat gx(1, c.y[0], mt_F32C1), gy(1, c.y[0], mt_F32C1); const mt_mat src(2, 2, mt_U8C1); gy.set(0);
		for (int x = 0; x < c.y[0]; ++x) ((f32*)gx.data())[x] = x % 2 ? c.y[1] / 4.0f : 0;
		mt_mat e = detectors[c.k]->edge_detection(src, gx, gy, mt_mat()); vector<int> r(2, 0), v = get(e, 1, false);
		for (size_t x = 0; x < v.size(); ++x) if (v[x]) ++r[x % 2 ? 0 : 1];
		show("r", r);
	} else if (c.op == "mag") {
		img_img::Gradient_Mag_Type t = c.f == "L1" ? img_img::Gradient_Mag_Type_L1 : c.f == "L2" ? img_img::Gradient_Mag_Type_L2 : img_img::Gradient_Mag_Type_L2_Square;
		mt_mat r, base; Image& gx = images[c.x[0]];
		if (c.n == 0) r = img_img::generate_gradient_mag((const mt_mat&)gx.view, images[c.x[1]].view, t);
		else { r = target(c.n, gx.view.size()[0], gx.view.size()[1], mt_F32C1, base); img_img::generate_gradient_mag(r, gx.view, images[c.x[1]].view, t); }
		show("r", get(r, 1));
	} else return false;
	if (c.op == "new" || c.op == "set" || c.op == "copy") {
		img_canny& d = *detectors[c.k]; vector<int> r;
		r.push_back(d.low_threshold()); r.push_back(d.high_threshold()); r.push_back(d.apeture_size()); r.push_back(d.is_l2_gradient() ? 1 : 0); r.push_back(d.is_enable_memort_cache() ? 1 : 0);
		show("r", r);
	}
	int changed = 0;
	for (map<int, Image>::iterator i = images.begin(); i != images.end(); ++i) changed += get(i->second.view, 4, false) != i->second.v;
	show("changed", changed);
	return true;
}
static void reset() {
	for (map<int, img_canny*>::iterator i = detectors.begin(); i != detectors.end(); ++i) delete i->second;
	detectors.clear(); images.clear();
}
int main() { return serve(execute, reset); }
