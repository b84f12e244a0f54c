// Executes sessions of the specification Buffer on the buffer readers and writers of basicsys.
#include "plan.h"
#include <dirent.h>
#include <memory>
struct Handle {
	std::unique_ptr<sys_buffer_writer> w; std::unique_ptr<sys_buffer_reader> r; FILE* lent; bool text;
	Handle() : lent(NULL), text(false) {}
	sys_byte_buffer_writer* bw() { return (sys_byte_buffer_writer*)w.get(); }
	sys_byte_buffer_reader* br() { return (sys_byte_buffer_reader*)r.get(); }
	sys_string_buffer_reader* sr() { return (sys_string_buffer_reader*)r.get(); }
};
static map<int, Handle> hs;
static vector<u8> bytes[3];
static string texts[5];
static int session = 0, base = 0;
static int held() { int c = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++c; closedir(d); return c; }
static string path(int s) {
	string d = string(getenv("SCRATCH")) + "/";
	return s == 9 ? d + "no such directory/9" : (string)(sys_strcombine()<<d<<session<<"-"<<s);
}
static void drop(int k) {
	Handle& h = hs[k];
	h.w.reset(); h.r.reset();
	if (h.lent) fclose(h.lent);
	hs.erase(k);
}
template<class T> static T val(const vector<int>& x) { u8 b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); ++i) b[i] = (u8)x[i]; T v; memcpy(&v, b, sizeof(T)); return v; }
template<class T> static T val(const Cmd& c, bool text) { return text ? (T)c.n : val<T>(c.x); }
template<class T> static void show_bytes(const T& v, bool ok) { string s((const char*)&v, sizeof(T)); show_str("v", ok ? s : ""); }
static void shown(Handle& h) {
	vector<i64> o; bool closed = h.w ? (u8)h.w->is_closed() : (u8)h.r->is_closed();
	o.push_back(closed ? -1 : h.w ? h.w->position() : h.r->position());
	o.push_back(h.w ? h.w->get_status() : h.r->get_status()); o.push_back(closed);
	if (h.r && !closed) { o.push_back(h.r->size()); o.push_back(h.r->remain_size()); o.push_back((u8)h.r->is_eof()); }
	show("r", o);
}
static void reset() {
	while (!hs.empty()) drop(hs.begin()->first);
	for (int i = 0; i < 3; ++i) bytes[i].clear();
	for (int i = 0; i < 5; ++i) texts[i].clear();
	for (int i = 5; i < 9; ++i) remove(path(i).c_str());
	++session; base = held();
}
static bool execute(const Cmd& c) {
	if (c.op == "count") { vector<int> o(1, held() - base); show("v", o); return true; }
	if (c.op == "dump") {
		if (c.n <= 2) show("v", bytes[c.n]);
		else if (c.n <= 4) show_str("v", texts[c.n]);
		else {
			string s; FILE* f = fopen(path(c.n).c_str(), "rb");
			if (f) { int b; while ((b = fgetc(f)) != EOF) s.push_back((char)b); fclose(f); }
			show_str("v", s);
		}
		return true;
	}
	if (c.op == "close" && c.f == "drop") { drop(c.k); return true; }
	Handle& h = hs[c.k];
	bool ok = true;
	if (c.op == "wopen" || c.op == "ropen") {
		bool text = h.text = c.f == "text", write = c.op == "wopen", own = c.g == "owned";
		FILE* f = c.g == "owned" || c.g == "lent" ? fopen(path(c.n).c_str(), write ? "wb+" : "rb") : NULL;
		if (c.g == "lent") h.lent = f;
		if (write) {
			if (c.g == "mem") text ? h.w.reset(new sys_string_buffer_writer(&texts[c.n])) : h.w.reset(new sys_byte_buffer_writer(&bytes[c.n]));
			else if (f) text ? h.w.reset(new sys_string_file_buffer_writer(f, own)) : h.w.reset(new sys_byte_file_buffer_writer(f, own));
			else text ? h.w.reset(new sys_string_file_buffer_writer(path(c.n), c.i == 1)) : h.w.reset(new sys_byte_file_buffer_writer(path(c.n), c.i == 1));
		} else {
			static const u8 none = 0;
			const u8* b = c.g == "mem" && !text ? (bytes[c.n].empty() ? &none : &bytes[c.n][0]) : NULL;
			if (c.g == "mem") text ? h.r.reset(new sys_string_buffer_reader(texts[c.n])) : h.r.reset(new sys_byte_buffer_reader(b, b + bytes[c.n].size()));
			else if (f) text ? h.r.reset(new sys_string_file_buffer_reader(f, own)) : h.r.reset(new sys_byte_file_buffer_reader(f, own));
			else text ? h.r.reset(new sys_string_file_buffer_reader(path(c.n))) : h.r.reset(new sys_byte_file_buffer_reader(path(c.n)));
			const sys_buffer_reader* k = h.r.get();
			int o[] = {(u8)k->is_string_buffer(), h.r->to_byte_buffer_reader() != NULL, h.r->to_string_buffer_reader() != NULL, k->to_byte_buffer_reader() != NULL, k->to_string_buffer_reader() != NULL};
			show("v", vector<int>(o, o + 5));
		}
	}
	else if (c.op == "w") {
		sys_buffer_writer* w = h.w.get(); bool t = h.text;
		if (c.f == "b8") w->write(b8(t ? c.n : c.x[0]));
		else if (c.f == "i8") w->write(val<i8>(c, t)); else if (c.f == "u8") w->write(val<u8>(c, t));
		else if (c.f == "i16") w->write(val<i16>(c, t)); else if (c.f == "u16") w->write(val<u16>(c, t));
		else if (c.f == "i32") w->write(val<i32>(c, t)); else if (c.f == "u32") w->write(val<u32>(c, t));
		else if (c.f == "i64") w->write(val<i64>(c, t)); else if (c.f == "u64") w->write(val<u64>(c, t));
		else if (c.f == "f32") w->write(t ? c.n / 8.0f : val<f32>(c.x)); else if (c.f == "f64") w->write(t ? c.n / 8.0 : val<f64>(c.x));
		else return false;
	}
	else if (c.op == "wstr") { if (c.f == "lit") h.w->write(str_of(c.x).c_str()); else h.w->write(str_of(c.x)); }
	else if (c.op == "wbytes") {
		vector<u8> v(c.x.begin(), c.x.end()); u8 none = 0; const u8* b = v.empty() ? &none : &v[0];
		if (c.f == "vec") h.bw()->write(v); else h.bw()->write(b, b + v.size());
	}
	else if (c.op == "seek") { if (h.w) h.w->seek(c.n, (sys_File_Seek)c.i); else h.r->seek(c.n, (sys_File_Seek)c.i); }
	else if (c.op == "close") { if (h.w) h.w->close(); else h.r->close(); }
	else if (c.op == "rstr") {
		bool enough = h.r->remain_size() >= c.n;
		string s; if (c.f == "ret") s = h.r->read_str(c.n); else h.r->read_str(s, c.n);
		show_str("v", s);
	}
	else if (c.op == "rbytes") {
		vector<u8> v; bool enough = h.r->remain_size() >= c.n;
		if (c.f == "vec") h.br()->read(v, c.n); else { v.resize(c.n); h.br()->read(&v[0], c.n); if (!enough) v.clear(); }
		show("v", v);
	}
	else if (c.op == "rchar") { vector<int> o(1, (u8)h.sr()->read_char()); show("v", o); }
	else if (c.op == "rnum") { vector<double> o(1, h.sr()->read(c.n) * 8); show("v", o); }
	else if (c.op == "rline") { string s; if (c.f == "ret") s = h.sr()->read_line(); else h.sr()->read_line(s); show_str("v", s); }
	else if (c.op == "r") {
		int width = c.f == "b8" ? 1 : c.f[1] == '8' ? 1 : c.f[1] == '1' ? 2 : c.f[1] == '3' ? 4 : 8;
		bool ok = h.r->remain_size() >= width; sys_byte_buffer_reader* r = h.br();
		if (c.f == "b8") show_bytes(r->read_b8(), ok); else if (c.f == "i8") show_bytes(r->read_c8(), ok); else if (c.f == "u8") show_bytes(r->read_u8(), ok);
		else if (c.f == "i16") show_bytes(r->read_i16(), ok); else if (c.f == "u16") show_bytes(r->read_u16(), ok);
		else if (c.f == "i32") show_bytes(r->read_i32(), ok); else if (c.f == "u32") show_bytes(r->read_u32(), ok);
		else if (c.f == "i64") show_bytes(r->read_i64(), ok); else if (c.f == "u64") show_bytes(r->read_u64(), ok);
		else if (c.f == "f32") show_bytes(r->read_f32(), ok); else if (c.f == "f64") show_bytes(r->read_f64(), ok);
		else return false;
	}
	else return false;
	shown(h);
	return true;
}
int main() { reset(); return serve(execute, reset); }
