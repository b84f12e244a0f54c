// Executes sessions of the specification Doc on the JSON writer and reader of basicsys.
#include "plan.h"
#include <memory>
#include <new>
static vector<u8> bytes; static string text;
static std::unique_ptr<sys_buffer_writer> bw; static std::unique_ptr<sys_json_writer> jw; static std::unique_ptr<sys_buffer_reader> br;
static map<int, sys_json_reader*> hs;
static bool is_text, is_file; static int session = 0, root_kind = 0; static string opened;
static string path() { return (string)(sys_strcombine()<<string(getenv("SCRATCH"))<<"/doc"<<session); }
static void reset() {
	for (map<int, sys_json_reader*>::iterator i = hs.begin(); i != hs.end(); ++i) delete i->second;
	hs.clear(); jw.reset(); bw.reset(); br.reset(); bytes.clear(); text.clear();
	remove(path().c_str()); ++session; silent_logger::errors() = 0;
}
static u64 bits(const vector<int>& x) { u64 v = 0; for (int i = 3; i >= 0; --i) v = v << 16 | (u64)x[i]; return v; }
static void limbs(vector<int>& o, u64 v) { for (int i = 0; i < 4; ++i) { o.push_back((int)(v & 65535)); v >>= 16; } }
template<class T> static void put(vector<int>& o, const T& v) { limbs(o, (u64)(i64)v); }
template<> void put(vector<int>& o, const u64& v) { limbs(o, v); }
template<> void put(vector<int>& o, const u32& v) { limbs(o, v); }
template<> void put(vector<int>& o, const string& v) { for (size_t i = 0; i < v.size(); ++i) o.push_back((unsigned char)v[i]); }
template<> void put(vector<int>& o, const b8& v) { o.push_back(v.m_data); }
template<> void put(vector<int>& o, const f32& v) { o.push_back(num(v * 8.0)); }
template<> void put(vector<int>& o, const f64& v) { o.push_back(num(v * 8)); }
static void head(vector<int>& o, const sys_json_reader& r) { o.push_back((u8)r.is_map()); o.push_back((u8)r.is_seq()); o.push_back((int)r.node_name().size()); put(o, r.node_name()); }
template<class T> static void counted(vector<int>& o, const T& v) { vector<int> t; put(t, v); o.push_back((int)t.size()); o.insert(o.end(), t.begin(), t.end()); }
struct Get { const sys_json_reader& r; vector<int>& o; template<class T> void operator()(T*) { T v = T(); r>>v; put(o, v); } };
struct VecOf { const sys_json_reader& r; vector<int>& o; template<class T> void operator()(T*) { vector<T> v; r>>v; for (size_t i = 0; i < v.size(); ++i) counted(o, v[i]); } };
struct MapOf { const sys_json_reader& r; vector<int>& o; template<class T> void operator()(T*) {
	map<string, T> v; v["left over"] = T(); r>>v;
	for (typename map<string, T>::iterator i = v.begin(); i != v.end(); ++i) { counted(o, i->first); counted(o, i->second); } } };
template<class F> static bool typed(const string& f, F g) {
	if (f == "str") g((string*)0); else if (f == "b8") g((b8*)0);
	else if (f == "i8") g((i8*)0); else if (f == "u8") g((u8*)0); else if (f == "i16") g((i16*)0); else if (f == "u16") g((u16*)0);
	else if (f == "i32") g((i32*)0); else if (f == "u32") g((u32*)0); else if (f == "i64") g((i64*)0); else if (f == "u64") g((u64*)0);
	else if (f == "f32") g((f32*)0); else if (f == "f64") g((f64*)0); else return false;
	return true;
}
struct WriteVec { const Cmd& c;
	template<class T> void operator()(T*) {
		double div = c.g[0] == 'f' ? 8.0 : 1.0;
		if (c.f == "vec") { vector<T> v; for (size_t i = 0; i < c.x.size(); ++i) v.push_back((T)(c.x[i] / div)); *jw<<v; }
		else if (c.f == "map") { map<string, T> v; for (size_t i = 0; i < c.x.size(); ++i) v[string(1, (char)c.y[i])] = (T)(c.x[i] / div); *jw<<v; }
		else { vector<vector<T> > v; size_t p = 0; for (size_t i = 0; i < c.y.size(); ++i) { v.push_back(vector<T>()); for (int j = 0; j < c.y[i]; ++j) v.back().push_back((T)(c.x[p++] / div)); } *jw<<v; }
	}
	void operator()(string*) {} void operator()(b8*) {}
};
static bool perform(const Cmd& c) {
	if (c.op == "new") {
		is_text = c.f == "text"; is_file = c.g == "file";
		if (is_text) is_file ? bw.reset(new sys_string_file_buffer_writer(path())) : bw.reset(new sys_string_buffer_writer(&text));
		else is_file ? bw.reset(new sys_byte_file_buffer_writer(path())) : bw.reset(new sys_byte_buffer_writer(&bytes));
		jw.reset(new sys_json_writer(bw.get(), c.k == 0));
		root_kind = c.k; return true;
	}
	if (c.op == "key") { *jw<<str_of(c.x); return true; }
	if (c.op == "put") {
		u64 b = c.x.size() == 4 ? bits(c.x) : 0;
		if (c.f == "str") *jw<<str_of(c.x); else if (c.f == "b8") *jw<<b8(c.n);
		else if (c.f == "i8") *jw<<(i8)b; else if (c.f == "u8") *jw<<(u8)b; else if (c.f == "i16") *jw<<(i16)b; else if (c.f == "u16") *jw<<(u16)b;
		else if (c.f == "i32") *jw<<(i32)b; else if (c.f == "u32") *jw<<(u32)b; else if (c.f == "i64") *jw<<(i64)b; else if (c.f == "u64") *jw<<(u64)b;
		else if (c.f == "f32") *jw<<(c.n / 8.0f); else if (c.f == "f64") *jw<<(c.n / 8.0); else return false;
		return true;
	}
	if (c.op == "open") { *jw<<(c.k ? "[" : "{"); opened.push_back(c.k ? ']' : '}'); return true; }
	if (c.op == "shut") { *jw<<opened.substr(opened.size() - 1); opened.erase(opened.end() - 1); return true; }
	if (c.op == "vec") { WriteVec w = {c}; return typed(c.g, w); }
	if (c.op == "done") {
		jw.reset(); bw.reset();
		static const u8 none = 0;
		if (is_text) is_file ? br.reset(new sys_string_file_buffer_reader(path())) : br.reset(new sys_string_buffer_reader(text));
		else is_file ? br.reset(new sys_byte_file_buffer_reader(path())) : br.reset(new sys_byte_buffer_reader(bytes.empty() ? &none : &bytes[0], bytes.empty() ? &none : &bytes[0] + bytes.size()));
		return true;
	}
	vector<int> o;
	if (c.op == "root") {
		br->seek(0, sys_File_Seek_Set);
		sys_json_reader* r = root_kind == 0 ? new sys_json_reader(br.get()) : new sys_json_reader(br.get(), "", 0, -1, sys_Node_Type_Seq);
		if (hs.count(c.k)) delete hs[c.k];
		hs[c.k] = r; head(o, *r); show("r", o); return true;
	}
	if (!hs.count(c.n)) return false;
	const sys_json_reader& r = *hs[c.n];
	if (c.op == "at") {
		sys_json_reader* t = new sys_json_reader(c.f == "index" ? r[c.i] : c.f == "lit" ? r[str_of(c.x).c_str()] : r[str_of(c.x)]);
		if (hs.count(c.k)) delete hs[c.k];
		hs[c.k] = t; head(o, *t);
	}
	else if (c.op == "kind") { o.push_back((u8)r.is_map()); o.push_back((u8)r.is_seq()); o.push_back(r.size()); }
	else if (c.op == "has") { show("r", (u8)r.has_key(str_of(c.x))); return true; }
	else if (c.op == "list") {
		sys_json_reader_iteartor b = r.begin(), e = r.end(); int guard = 0;
		if (c.f == "pre") for (; b != e && ++guard < 99; ++b) head(o, *b);
		else if (c.f == "post") while (b != e && ++guard < 99) head(o, *b++);
		else if (c.f == "back") while (b != e && ++guard < 99) head(o, *--e);
		else if (c.f == "postback") while (b != e && ++guard < 99) { e--; head(o, *e); }
		else { int m = r.size(); if (c.f == "plus") for (int i = 0; i < m; i += 2) { if (i) b += 2; head(o, *b); } else for (int i = 2; i <= m; i += 2) { e -= 2; head(o, *e); } }
	}
	else if (c.op == "get") {
		sys_json_reader t = r;
		if (c.g == "to" && c.f == "str") put(o, t.to_string()); else if (c.g == "to" && c.f == "i32") put(o, t.to_i32()); else if (c.g == "to" && c.f == "b8") put(o, t.to_b8());
		else { Get g = {r, o}; if (!typed(c.f, g)) return false; }
	}
	else if (c.op == "vecof") { VecOf g = {r, o}; if (!typed(c.f, g)) return false; }
	else if (c.op == "mapof") { MapOf g = {r, o}; if (!typed(c.f, g)) return false; }
	else if (c.op == "vec2of") {
		vector<vector<i32> > v; r>>v;
		for (size_t i = 0; i < v.size(); ++i) { o.push_back((int)v[i].size() * 4); for (size_t j = 0; j < v[i].size(); ++j) put(o, v[i][j]); }
	}
	else return false;
	show("r", o);
	return true;
}
static bool execute(const Cmd& c) { if (c.op == "new") opened.clear(); bool b = perform(c); show("errors", silent_logger::errors()); return b; }
int main() { reset(); return serve(execute, reset); }
