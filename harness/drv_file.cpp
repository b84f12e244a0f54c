// Executes sessions of the specification Files on sys_path, below the scratch directory and as an unprivileged user.
// The calls that change the file system are replaced by ones that refuse everything outside.
#include "plan.h"
#include "guard.h"
static void scan(const string& rel, map<string, std::pair<int, int> >& out) {   // rel is empty or ends with a slash
	DIR* h = opendir((base + rel).c_str());
	if (!h) return;
	vector<string> dirs;
	while (dirent* e = readdir(h)) {
		string s(e->d_name); struct stat st;
		if (s == "." || s == "..") continue;
		lstat((base + rel + s).c_str(), &st);
		int v = 0;
		if (S_ISREG(st.st_mode)) { FILE* f = fopen((base + rel + s).c_str(), "rb"); if (f) { int b = fgetc(f); v = st.st_size == 1 && b != EOF ? b : 99; fclose(f); } else v = 98; }
		out[rel + s] = std::make_pair(S_ISDIR(st.st_mode) ? 1 : S_ISREG(st.st_mode) ? 2 : S_ISLNK(st.st_mode) ? 3 : 4, v);
		if (S_ISDIR(st.st_mode)) dirs.push_back(rel + s + "/");
	}
	closedir(h);
	for (size_t i = 0; i < dirs.size(); ++i) scan(dirs[i], out);
}
struct by_bytes { bool operator()(const string& a, const string& b) const { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (u8)x < (u8)y; }); } };
static void counted(vector<int>& o, const string& s) { o.push_back((int)s.size()); for (size_t i = 0; i < s.size(); ++i) o.push_back((u8)s[i]); }
static void snapshot() {
	map<string, std::pair<int, int> > m; scan("", m);
	std::vector<string> k; for (map<string, std::pair<int, int> >::iterator i = m.begin(); i != m.end(); ++i) k.push_back(i->first);
	std::sort(k.begin(), k.end(), by_bytes());
	vector<int> o; for (size_t i = 0; i < k.size(); ++i) { counted(o, k[i]); o.push_back(m[k[i]].first); o.push_back(m[k[i]].second); }
	show("t", o);
}
static void listing(vector<string> v, bool strip) {
	for (size_t i = 0; strip && i < v.size(); ++i) v[i] = v[i].compare(0, base.size(), base) == 0 ? v[i].substr(base.size()) : "?" + v[i];
	std::sort(v.begin(), v.end(), by_bytes());
	vector<int> o; for (size_t i = 0; i < v.size(); ++i) counted(o, v[i]);
	show("r", o);
}
static void reset() { fresh(); }
static bool execute(const Cmd& c) {
	string x = str_of(c.x), y = str_of(c.y);
	if (c.op == "path") {
		if (c.f == "isdir") { vector<int> o(1, sys_path::is_dir(x)); show("r", o); }
		else show_str("r", c.f == "name" ? sys_path::get_file_name(x) : c.f == "title" ? sys_path::get_file_title(x) : c.f == "ext" ? sys_path::get_file_extend_name(x)
			: c.f == "dir" ? sys_path::get_dir_path(x) : sys_path::get_dir_name(x));
		show("escapes", escapes); return true;
	}
	string p = base + x, q = base + y, d = x.empty() ? base : p + "/";
	if (c.op == "put") { FILE* f = fopen(p.c_str(), "wb"); if (f) { fputc(c.n, f); fclose(f); } }
	else if (c.op == "link") symlink(q.c_str(), p.c_str());
	else if (c.op == "mkdir") show("r", (double)sys_path::create_multi_dir(c.i ? d : p));
	else if (c.op == "exist") show("r", (double)sys_path::is_exist(p));
	else if (c.op == "files") { vector<string> v(1, "old"); if (c.f == "path") sys_path::get_file_path(v, d, y); else sys_path::get_file_name(v, d, y); listing(v, c.f == "path"); }
	else if (c.op == "dirs") { vector<string> v(1, "old"); sys_path::get_dir_path(v, d); listing(v, true); }
	else if (c.op == "rm") sys_path::delete_file(p);
	else if (c.op == "rmdir") { if (c.f == "sub") sys_path::delete_sub_dir(d); else sys_path::delete_dir(d, c.f == "force"); }
	else if (c.op == "cp") show("r", (double)sys_path::copy_file(q, p, c.i == 1));
	else if (c.op == "mv") show("r", (double)sys_path::move_file(q, p, c.i == 1));
	else return false;
	show("escapes", escapes); snapshot();
	return true;
}
int main() {
	if (!confine("files")) return 3;
	reset();
	return serve(execute, reset);
}
