// Calls the small algorithms of basicmath as spec/alg says.
#include "plan.h"
#include <mt_hist.h>
#include <mt_sort.h>
#include <mt_top_k.h>
#include <mt_trigonometric_function.h>
#include <mt_angle_helper.h>
#include <dynamic_programming/mt_01_bag.h>
#include <dynamic_programming/mt_longest_common_substring.h>
#include <dynamic_programming/mt_max_sum_for_continuous_element.h>

static map<int, mt_top_k<i32>*> T;
static void reset() { for (map<int, mt_top_k<i32>*>::iterator i = T.begin(); i != T.end(); ++i) delete i->second; T.clear(); }

template<class V> static vector<V> as(const vector<int>& x) { vector<V> r; for (size_t i = 0; i < x.size(); ++i) r.push_back((V)x[i]); return r; }

template<class V> static bool typed(const Cmd& c) {
	vector<V> x = as<V>(c.x), y = as<V>(c.y);
	if (c.op == "sort") {
		vector<i32> q;
		q.assign(3, 7);
		if (c.f == "index") mt_sort::sort(q, x, c.k == 1);
		else if (c.f == "bubble") mt_sort::bubble_sort(x, c.k == 1);
		else if (c.f == "heap") mt_sort::heap_sort(x, c.k == 1);
		else return false;
		show("r", x); show("q", q);
	} else if (c.op == "median") {
		V r = c.f == "changed" ? mt_helper::median_with_changed_order(x) : mt_helper::median_with_unchanged_order(x);
		show("r", (double)r); show("q", x);
	} else if (c.op == "extreme") {
		i32 s = (i32)x.size(); const V* d = &x[0];
		double r;
		if (c.f == "max") r = (double)mt_helper::compute_max(s, d);
		else if (c.f == "min") r = (double)mt_helper::compute_min(s, d);
		else if (c.f == "argmax") r = mt_helper::index_of_max_value(s, d);
		else if (c.f == "argmin") r = mt_helper::index_of_min_value(s, d);
		else if (c.f == "absmin") r = (double)mt_helper::compute_abs_min(d, s);
		else if (c.f == "mininabs") r = (double)mt_helper::compute_min_in_abs(d, s);
		else return false;
		show("r", r);
	} else if (c.f == "all") show("r", mt_helper::is_vec_value(x, (V)c.k) ? 1 : 0);
	else if (c.f == "equal") show("r", basicmath::operator==<V>(x, y) ? 1 : 0);
	else if (c.f == "compare") show("r", mt_helper::compare_value<V>((V)c.k, (V)c.n));
	else return false;
	return true;
}

static u32 u32_of(const vector<int>& b) { u32 v = 0; for (size_t i = 0; i < 4; ++i) v |= (u32)b[i] << (8 * i); return v; }
static double to_num(double v) { return floor(v); }

static bool help(const Cmd& c) {
	vector<i32> x = c.x;
	if (c.f == "flip") { mt_helper::flip_vector(x); show("r", x); }
	else if (c.f == "sub") { vector<i32> r(2, 5); mt_helper::sub_vector(r, x, mt_range(c.k, c.n)); show("r", r); }
	else if (c.f == "copy") { vector<i32> r = mt_helper::vec_from_array<i32>((i32)x.size(), x.data()); show("r", r); }
	else if (c.f == "prefix") { vector<i32> r(x.size() + 1, -7); mt_helper::integral_array(r, x); show("r", r); }
	else if (c.f == "prefixarray") { vector<i32> r(x.size() + 1, -7); mt_helper::integral_array(r.data(), (const i32*)x.data(), (const i32*)x.data() + x.size()); show("r", r); }
	else if (c.f == "pointers") { vector<i32*> p; mt_helper::pointer_from_instance(p, x); vector<i32> r; mt_helper::instance_from_pointer(r, p); show("r", r); }
	else if (c.f == "sum") show("r", mt_helper::add(x));
	else if (c.f == "product") show("r", mt_helper::mutiply(x));
	else if (c.f == "flat") show("r", mt_helper::index_from_multi_index(c.x, (i32)c.y.size(), &c.y[0]));
	else if (c.f == "multi") { vector<i32> s = c.y; s.push_back(1); vector<i32> r; mt_helper::multi_index_from_index(r, c.k, (i32)c.y.size(), &s[0]); show("r", r); }
	else if (c.f == "symbol") show("r", (c.g == "i32" ? mt_helper::is_same_symbol<i32>(c.k, c.n) : mt_helper::is_same_symbol<f64>(c.k / 4.0, c.n / 4.0)) ? 1 : 0);
	else if (c.f == "round") show("r", (double)(c.g == "f32" ? mt_helper::neibour_float<f32>(c.k / 16.0f) : mt_helper::neibour_float<f64>(c.k / 16.0)));
	else if (c.f == "fact") show("r", mt_helper::factorial(c.k));
	else if (c.f == "choose") show("r", mt_helper::combination(c.k, c.n));
	else if (c.f == "ones32") show("r", mt_helper::number_of_1((i32)u32_of(c.x)));
	else if (c.f == "ones64") { vector<int> hi(c.x.begin() + 4, c.x.end()); show("r", mt_helper::number_of_1((i64)((u64)u32_of(hi) << 32 | u32_of(c.x)))); }
	else if (c.f == "swap") { u32 v = (u32)mt_helper::reverse_i32((i32)u32_of(c.x)); vector<int> r; for (int i = 0; i < 4; ++i) r.push_back(v >> (8 * i) & 255); show("r", r); }
	else if (c.f == "digit1") show("r", mt_helper::one_number((u32)c.k));
	else if (c.f == "five") show("r", mt_helper::add_five(c.k));
	else if (c.f == "angle") show("r", c.g == "i32" ? mt_angle_helper::normlize_angle<i32>(c.k) : mt_angle_helper::normlize_angle<f64>(c.k));
	else if (c.f == "depth") {
		mt_Depth_Channel d = mt_Depth_Channel::depth_channel_i32(mt_Depth_Channel::depth_channel_str(mt_Depth_Channel((mt_Depth)c.k, c.n)));
		vector<int> r; r.push_back(d.depth()); r.push_back(d.channel()); show("r", r);
	} else if (c.f == "trig") {
		f64 s = mt_trigonometric_function::angle_sin(c.k), o = mt_trigonometric_function::angle_cos(c.k);
		f64 rad = mt_angle_helper::radian_from_angle(c.k);
		vector<int> r;
		r.push_back((int)floor(s * 1e6 + 0.5)); r.push_back((int)floor(o * 1e6 + 0.5));
		r.push_back(fabs(s - sin(rad)) < 1e-9 && fabs(o - cos(rad)) < 1e-9 && fabs(s * s + o * o - 1) < 1e-9);
		r.push_back(fabs(mt_angle_helper::angle_from_radian(rad) - c.k) < 1e-9);
		show("r", r);
	} else return false;
	return true;
}

static string cell(int r, int c) { string s; s.push_back((char)('0' + r)); s.push_back((char)('A' + c - 1)); return s; }

static bool draw(const Cmd& c) {
	vector<int> r;
	if (c.f == "int") for (int i = 0; i < c.i; ++i) r.push_back(mt_random::random_next_i32(c.k, c.n));
	else if (c.f == "uniform") for (int i = 0; i < c.i; ++i) { f64 v = mt_random::random_uniform(c.k, sys_true, c.n, sys_true); r.push_back(v > c.k && v < c.n ? (int)floor(v) : -999); }
	else if (c.f == "perm") mt_random::randperm(r, c.i);
	else if (c.f == "sample") mt_random::randSample(c.i, r);
	else if (c.f == "binomial") for (int i = 0; i < c.i; ++i) r.push_back(mt_random::bernoulli(c.n, c.k / 16.0));
	else if (c.f == "gauss0" || c.f == "gauss") for (int i = 0; i < c.i; ++i) r.push_back(num(floor(mt_random::gaussian(c.k, c.n) * (c.f == "gauss" ? 1000 : 1))));
	else if (c.f == "uniformmat" || c.f == "binomialmat") {
		mt_mat m = c.f == "uniformmat" ? mt_random::random_uniform_iid(1, c.i, mt_F64C1, c.k, sys_true, c.n, sys_true) : mt_random::bernoulli_iid(1, c.i, mt_F64C1, c.n, c.k / 16.0);
		if (m.dim() == 2 && m.size()[0] == 1 && m.size()[1] == c.i && m.depth_channel() == mt_F64C1)
			for (int i = 0; i < c.i; ++i) r.push_back((int)floor(m.at<f64>(0, i)));
	} else return false;
	show("r", r);
	return true;
}

static bool execute(const Cmd& c) {
	if (c.op == "topnew") { if (T.count(c.i)) delete T[c.i]; T[c.i] = new mt_top_k<i32>(c.k, c.n == 1); return true; }
	if (c.op == "topadd") { for (size_t i = 0; i < c.x.size(); ++i) T[c.i]->traverse(c.x[i]); return true; }
	if (c.op == "topget") { vector<i32> r; if (c.f == "sorted") T[c.i]->get_sorted_top_k(r); else r = T[c.i]->get_top_k(); show("r", r); return true; }
	if (c.op == "partition") { vector<i32> x = c.x; mt_helper::odd_even_sort(x, c.k == 1, c.n == 1); show("r", x); return true; }
	if (c.op == "ships") {
		string s, h;
		for (size_t i = 0; i + 3 < c.x.size(); i += 4) s += (i ? ";" : "") + cell(c.x[i], c.x[i + 1]) + "," + cell(c.x[i + 2], c.x[i + 3]);
		for (size_t i = 0; i + 1 < c.y.size(); i += 2) h += (i ? "," : "") + cell(c.y[i], c.y[i + 1]);
		string o = mt_helper::battle_ship(s, h);
		vector<int> r(2, -1); sscanf(o.c_str(), "%d,%d", &r[0], &r[1]); show("r", r); return true;
	}
	if (c.op == "split") { vector<i32> a, b; if (c.k == 1) { a.assign(2, 9); b.assign(3, 9); } mt_helper::split_array_to_max_mean_sub_arrays(a, b, c.x); show("r", a); show("q", b); return true; }
	if (c.op == "hist") {
		vector<mt_range_t<f64> > ranges; vector<i32> numbers; if (c.k == 1) numbers.assign(c.n, 0);
		mt_hist::hist(ranges, numbers, as<f64>(c.x), c.n);
		int adjoin = (int)ranges.size() == c.n;
		vector<int> q;
		for (size_t j = 1; j < ranges.size(); ++j) if (ranges[j].m_start != ranges[j - 1].m_end || ranges[j].m_start < ranges[j - 1].m_start) adjoin = 0;
		for (size_t i = 0; i < c.x.size(); ++i) { int b = 0; for (size_t j = 0; j < ranges.size(); ++j) if (c.x[i] >= ranges[j].m_start) b = (int)j + 1; q.push_back(b); }
		if (c.x.size() && ranges.size() && *std::max_element(c.x.begin(), c.x.end()) > ranges.back().m_end * (1 + 1e-9) + 1e-9 && *std::max_element(c.x.begin(), c.x.end()) > 0) adjoin = 0;
		show("r", numbers); show("q", q); show("adjoin", adjoin); return true;
	}
	if (c.op == "bag") {
		if (c.g == "i32") { mt_01_bag<i32, i32> b(c.x, c.y, c.k); show("r", b.max_value()); show("q", b.flag_01()); }
		else { mt_01_bag<f64, f64> b(as<f64>(c.x), as<f64>(c.y), c.k); show("r", b.max_value()); show("q", b.flag_01()); }
		return true;
	}
	if (c.op == "lcs") {
		mt_longest_common_substring<i32> s(c.x, c.y);
		vector<int> r; r.push_back(s.length()); r.push_back(s.a_begin_index()); r.push_back(s.b_begin_index());
		vector<i32> a(2, 3), b(2, 3); s.all_a_begin_index(a); s.all_b_begin_index(b);
		show("r", r); show("q", a); show("p", b); return true;
	}
	if (c.op == "slice") {
		vector<int> q(2); double r;
		if (c.g == "i32") { mt_max_sum_for_continuous_element<i32> s(c.x); q[0] = s.begin_index(); q[1] = s.length(); r = s.max_sum(); }
		else { mt_max_sum_for_continuous_element<f64> s(as<f64>(c.x)); q[0] = s.begin_index(); q[1] = s.length(); r = s.max_sum(); }
		show("r", r); show("q", q); return true;
	}
	if (c.op == "seed") { mt_random::set_seed((u32)c.k); return true; }
	if (c.op == "draw") return draw(c);
	if (c.op == "help" && c.f != "all" && c.f != "equal" && c.f != "compare") return help(c);
	if (c.g == "i32") return typed<i32>(c);
	if (c.g == "i64") return typed<i64>(c);
	if (c.g == "f32") return typed<f32>(c);
	if (c.g == "f64") return typed<f64>(c);
	if (c.g == "u32" && c.op == "help") { if (c.f == "compare") { show("r", mt_helper::compare_value<u32>(c.k, c.n)); return true; } }
	if (c.g == "u8" && c.op == "help") { if (c.f == "compare") { show("r", mt_helper::compare_value<u8>(c.k, c.n)); return true; } }
	return false;
}

int main() { return serve(execute, reset); }
