// Executes calls of the specification Strings on sys_strhelper and sys_strcombine.
#include "plan.h"
static map<int, sys_strcombine> texts;
template<class T> static T make(int v, double scale) { return T(v / scale); }
template<> b8 make<b8>(int v, double) { return b8(v); }
static i64 big(const vector<int>& x) { u64 v = 0; for (int i = 3; i >= 0; --i) v = (v << 16) | (u64)x[i]; return (i64)v; }
template<class T> static void put_list(sys_strcombine& s, const vector<int>& x, double scale) {
	vector<T> v; for (size_t i = 0; i < x.size(); ++i) v.push_back(make<T>(x[i], scale));
	s << v;
}
template<class T> static void put_lists(sys_strcombine& s, const vector<int>& x, const vector<int>& y, double scale) {
	vector<vector<T> > v; size_t at = 0;
	for (size_t i = 0; i < y.size(); ++i) { v.push_back(vector<T>()); for (int j = 0; j < y[i]; ++j) v.back().push_back(make<T>(x[at++], scale)); }
	s << v;
}
template<class T> static void entries(sys_strcombine& s, const vector<int>& x, const vector<int>& y, double scale) {
	map<i32, T> v; for (size_t i = 0; i < x.size(); ++i) v[x[i]] = make<T>(y[i], scale);
	s << v;
}
template<class T> static bool put(sys_strcombine& s, const Cmd& c, double scale = 1) {
	if (c.op == "val") s << make<T>(c.n, scale);
	else if (c.op == "list") put_list<T>(s, c.x, scale);
	else if (c.op == "lists") put_lists<T>(s, c.x, c.y, scale);
	else if (c.op == "map") entries<T>(s, c.x, c.y, scale);
	else return false;
	return true;
}
static bool typed(sys_strcombine& s, const Cmd& c) {
	const string& f = c.f;
	return f == "i32" ? put<i32>(s, c) : f == "u32" ? put<u32>(s, c) : f == "i16" ? put<i16>(s, c) : f == "u16" ? put<u16>(s, c) : f == "u8" ? put<u8>(s, c)
		: f == "i64" ? put<i64>(s, c) : f == "u64" ? put<u64>(s, c) : f == "f32" ? put<f32>(s, c, 8) : f == "f64" ? put<f64>(s, c, 8) : f == "b8" ? put<b8>(s, c) : f == "i8" ? put<i8>(s, c) : false;
}
static void parts(const vector<string>& v) {
	vector<int> o;
	for (size_t i = 0; i < v.size(); ++i) { o.push_back((int)v[i].size()); for (size_t j = 0; j < v[i].size(); ++j) o.push_back((u8)v[i][j]); }
	show("r", o);
}
static void reset() { texts.clear(); }
static bool execute(const Cmd& c) {
	string x = str_of(c.x), y = str_of(c.y);
	bool nocase = c.f == "nocase";
	if (c.op == "split") {
		if (c.f == "ret") { parts(sys_strhelper::split(x, y)); return true; }
		vector<string> v(2, "old"); sys_strhelper::split(v, x, y); parts(v); return true;
	}
	if (c.op == "replace") { sys_strhelper::replace(x, y, str_of(c.z)); show_str("r", x); return true; }
	if (c.op == "trim") { sys_strhelper::trim_left(x, (i8)c.n); show_str("r", x); return true; }
	if (c.op == "lev") { show("r", (double)sys_strhelper::levenshtein_distance(x, y, c.k, c.n, c.i, nocase)); return true; }
	if (c.op == "equal") { show("r", (double)(u8)b8(sys_strhelper::equal(x, y, nocase))); return true; }
	if (c.op == "case") { c.f == "up" ? sys_strhelper::upper(x) : sys_strhelper::lower(x); show_str("r", x); return true; }
	if (c.op == "args") {
		vector<string> a; string cur;
		for (size_t i = 0; i < x.size(); ++i) if (x[i]) cur.push_back(x[i]); else { a.push_back(cur); cur.clear(); }
		if (!x.empty()) a.push_back(cur);
		vector<char*> p; for (size_t i = 0; i < a.size(); ++i) p.push_back(&a[i][0]);
		p.push_back(NULL);
		parts(sys_strhelper::wstring_from_char_array((int)a.size(), &p[0])); return true;
	}
	if (c.op == "const") {
		const sys_strcombine s = texts[c.k];
		show_str("r", (string)(s << (i32)c.n)); show_str("q", (string)s); return true;
	}
	if (c.op == "fresh") texts[c.k] = sys_strcombine(x);
	else if (c.op == "cat") texts[c.k] << texts[c.n];
	else if (c.op == "str") { if (c.f == "lit") texts[c.k] << x.c_str(); else texts[c.k] << x; }
	else if (c.op == "big") {
		i64 v = big(c.x); sys_strcombine& s = texts[c.k];
		if (c.f == "u8") s << (u8)v; else if (c.f == "u16") s << (u16)v; else if (c.f == "i16") s << (i16)v; else if (c.f == "u32") s << (u32)v;
		else if (c.f == "i32") s << (i32)v; else if (c.f == "u64") s << (u64)v; else if (c.f == "i64") s << v; else return false;
	}
	else if (!typed(texts[c.k], c)) return false;
	show_str("r", (string)texts[c.k]);
	return true;
}
int main() { return serve(execute, reset); }
