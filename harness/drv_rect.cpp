// Executes sessions of the specification Rect on mt_rect (some sessions: mt_rect_t<i64>).
#include "plan.h"
template<class T> struct Run {
	typedef mt_rect_t<T> R; typedef mt_point_t<T> P; typedef mt_size_t<T> S;
	static map<int, R>& m() { static map<int, R> v; return v; }
	static bool go(const Cmd& c) {
		const vector<int>& x = c.x;
		R& r = m()[c.k];
		if (c.op == "do") {
			R s = m().count(c.n) ? m()[c.n] : R();
			if (c.f == "default") r = R();
			else if (c.f == "make") r = R(x[0], x[1], x[2], x[3]);
			else if (c.f == "set") r.set_rect(x[0], x[1], x[2], x[3]);
			else if (c.f == "sized") r = R(P(x[0], x[1]), S(x[2], x[3]));
			else if (c.f == "setsized") r.set_rect(P(x[0], x[1]), S(x[2], x[3]));
			else if (c.f == "corners") r = R(P(x[0], x[1]), P(x[2], x[3]));
			else if (c.f == "setcorners") r.set_rect(P(x[0], x[1]), P(x[2], x[3]));
			else if (c.f == "copy") { R n(s); r = n; }
			else if (c.f == "settl") r.set_tl(P(x[0], x[1]));
			else if (c.f == "setsize") r.set_size(S(x[0], x[1]));
			else if (c.f == "plus") r = s + P(x[0], x[1]);
			else if (c.f == "minus") r = s - P(x[0], x[1]);
			else if (c.f == "grow") r = s + S(x[0], x[1]);
			else if (c.f == "less") r = s - S(x[0], x[1]);
			else if (c.f == "plusin") r += P(x[0], x[1]);
			else if (c.f == "minusin") r -= P(x[0], x[1]);
			else if (c.f == "growin") r += S(x[0], x[1]);
			else if (c.f == "lessin") r -= S(x[0], x[1]);
			else if (c.f == "times") r = s * mt_point2d(x[0], x[1]);
			else if (c.f == "timesin") r *= mt_point2d(x[0], x[1]);
			else if (c.f == "over") r = s / mt_point2d(x[0], x[1]);
			else if (c.f == "overin") r /= mt_point2d(x[0], x[1]);
			else if (c.f == "adjust") r.adjust(x[0], x[1], x[2], x[3]);
			else if (c.f == "empty") r.set_empty();
			else if (c.f == "addpoint") r.adjust_by_append_point(P(x[0], x[1]));
			else if (c.f == "addrect") r.adjust_by_append_rect(s);
			else if (c.f == "expand") r.expand();
			else if (c.f == "shrink") r.shrink();
			else if (c.f == "normal") r.normlized();
			else if (c.f == "validate") s.validate_rect(r);
			else return false;
			vector<double> o; put(o, r); show("r", o);
			return true;
		}
		const R& k = r;
		const R s = m().count(c.n) ? m()[c.n] : k;
		vector<double> o;
		if (c.f == "shape") {
			o.push_back(k.right()); o.push_back(k.bottom());
			put(o, k.tl()); put(o, k.tr()); put(o, k.bl()); put(o, k.br());
			o.push_back(k.getArea()); o.push_back(k.max_size()); o.push_back(k.min_size());
			o.push_back(k.size().m_width); o.push_back(k.size().m_height); o.push_back(k.empty());
			put(o, k.center()); show("r", o);
		} else if (c.f == "eq") { o.push_back(k == s); o.push_back(k != s); show("r", o); }
		else if (c.f == "has") { P p(x[0], x[1]); bool a = k.contain(p), b = r.contain(p); show("r", a == b ? (a ? 1 : 0) : 7); }
		else if (c.f == "holds") show("r", k.contain(s) ? 1 : 0);
		else if (c.f == "boundary") show("r", k.boundary(P(x[0], x[1])) ? 1 : 0);
		else if (c.f == "inboundary") show("r", k.in_boundary(P(x[0], x[1])) ? 1 : 0);
		else if (c.f == "clamp") { P p(x[0], x[1]); k.validate_point(p); put(o, p); show("r", o); }
		else if (c.f == "meets") { R i; bool a = k.is_intersect(i, s); o.push_back(a); put(o, i); show("r", o); }
		else if (c.f == "meetsonly") show("r", k.is_intersect(s) ? 1 : 0);
		else if (c.f == "iou") mill(k.get_iou(s));
		else if (c.f == "areashare") mill(k.get_intersect_aera_ratio(s));
		else if (c.f == "widthshare") mill(k.get_intersect_width_ratio(s));
		else if (c.f == "heightshare") mill(k.get_intersect_height_ratio(s));
		else if (c.f == "areaover") show("r", k.is_intersect_area(s, x[0] / 8.0) ? 1 : 0);
		else if (c.f == "widthover") show("r", k.is_intersect_width(s, x[0] / 8.0) ? 1 : 0);
		else if (c.f == "heightover") show("r", k.is_intersect_height(s, x[0] / 8.0) ? 1 : 0);
		else if (c.f == "hdist") show("r", k.horizontal_dist(s));
		else if (c.f == "vdist") show("r", k.vertical_dist(s));
		else if (c.f == "line") show("r", k.linear_position(s, x[0] / 8.0, x[1] / 8.0) ? 1 : 0);
		else if (c.f == "aspect") mill(k.aspect());
		else return false;
		return true;
	}
	static void mill(double v) { show("r", floor(v * 1e4 + 0.5)); }
	static void put(vector<double>& o, const R& r) { o.push_back(r.m_left); o.push_back(r.m_top); o.push_back(r.m_width); o.push_back(r.m_height); }
	static void put(vector<double>& o, const P& p) { o.push_back(p.m_x); o.push_back(p.m_y); }
};
// Whether a session uses the wide type is a function of its first command.
static bool g_first = true, g_wide = false;
static void reset() { g_first = true; Run<i32>::m().clear(); Run<i64>::m().clear(); }
static bool execute(const Cmd& c) {
	if (g_first) { int h = c.k; for (size_t i = 0; i < c.x.size(); ++i) h += c.x[i] < 0 ? -c.x[i] : c.x[i]; g_wide = h % 4 == 3; g_first = false; }
	return g_wide ? Run<i64>::go(c) : Run<i32>::go(c);
}
int main() { return serve(execute, reset); }
