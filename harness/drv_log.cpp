// Executes sessions of the specification Log on the loggers of basiclog, in the scratch directory and as an unprivileged user.
#include "plan.h"
#include "guard.h"
#include <sched.h>
#include <thread>
#include <time.h>
static vector<string> heard;
class own_logger : public log_logger {
public:
	own_logger(const string& ts, bool dir) : log_logger(ts, dir) {}
protected:
	virtual void print(const string& info) { size_t n = heard.size(); sched_yield(); heard.resize(n); heard.push_back(info); }
};
static string kind;
static void counted(vector<int>& o, const string& s) { o.push_back((int)s.size()); for (size_t i = 0; i < s.size(); ++i) o.push_back((u8)s[i]); }
static string content(const string& p) { string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return "unreadable"; int c; while ((c = fgetc(f)) != EOF) r.push_back((char)c); fclose(f); return r; }
static void scan(const string& rel, vector<int>& o) {
	DIR* h = opendir((base + rel).c_str());
	if (!h) return;
	while (dirent* e = readdir(h)) {
		string s(e->d_name); struct stat st;
		if (s == "." || s == ".." || (rel.empty() && s == "blocked")) continue;
		lstat((base + rel + s).c_str(), &st);
		if (S_ISDIR(st.st_mode)) scan(rel + s + "/", o);
		else counted(o, (s.size() > 4 && s.substr(s.size() - 4) == ".txt" ? rel : rel + s) + string(1, '\0') + content(base + rel + s));
	}
	closedir(h);
}
static void flags() {
	log_logger* l = log_logger::get_logger();
	vector<int> o; o.push_back(l->is_enable_debug()); o.push_back(l->is_enable_info()); o.push_back(l->is_enable_warning()); o.push_back(l->is_enable_error());
	show("r", o);
}
static void macros(const Cmd& c, const string& x, const string& y) {
	bool ok = c.i == 1, plain = c.g == "plain";
#line 77 "some dir/mac.ro"
	if (c.f == "debug") { if (plain) { basiclog_debug2(y); } else { basiclog_debug(x, y); } } else if (c.f == "info") { if (plain) { basiclog_info2(y); } else { basiclog_info(x, y); } } else if (c.f == "warning") { if (plain) { basiclog_warning2(y); } else { basiclog_warning(x, y); } } else if (c.f == "error") { if (plain) { basiclog_error2(y); } else { basiclog_error(x, y); } } else if (c.f == "assert") { if (plain) { basiclog_assert2(ok); } else { basiclog_assert(x, ok); } } else if (c.f == "assert_message") { if (plain) { basiclog_assert_message2(ok, y); } else { basiclog_assert_message(x, ok, y); } } else if (c.f == "unsupport") { if (plain) { basiclog_unsupport2(); } else { basiclog_unsupport(x); } }
#line 1 "drv_log_rest"
}
static void par(const Cmd& c) {
	vector<std::thread> t;
	for (int j = 0; j < c.k; ++j) t.push_back(std::thread([&c, j] {
		for (int i = 1; i <= c.n; ++i) {
			string m = str_of(c.y); if (kind != "file") { m += (char)('a' + j); m += (char)('0' + i); }
			log_logger::get_logger()->print("info", str_of(c.x), m, str_of(c.z), 5);
		}
	}));
	for (size_t j = 0; j < t.size(); ++j) t[j].join();
}
// What is printed to the standard output meanwhile goes to a file.
static int saved = -1;
static void divert() { fflush(stdout); saved = dup(1); int f = open((root + "screen").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(f, 1); close(f); }
static string restore() { std::wcout.flush(); std::cout.flush(); fflush(stdout); dup2(saved, 1); close(saved); string r = content(root + "screen"); unlink((root + "screen").c_str()); return r; }
static bool execute(const Cmd& c) {
	string x = str_of(c.x), y = str_of(c.y), dir = base + y;
	log_logger* l = log_logger::get_logger();
	log_file_logger* fl = kind == "file" ? (log_file_logger*)l : NULL;
	if (c.op == "new") {
		kind = c.f;
		log_logger* n = kind == "own" ? (log_logger*)new own_logger(x, c.i == 1) : kind == "console" ? (log_logger*)new log_console_logger(x, c.i == 1) : kind == "ide" ? (log_logger*)new log_ide_console_logger(x, c.i == 1)
			: (log_logger*)new log_file_logger(dir, c.k, c.n, x, c.i == 1);
		log_logger::init_logger(n); flags();
	} else if (c.op == "zone") { setenv("TZ", ((c.n >= 0 ? "XYZ-" : "XYZ+") + std::to_string(abs(c.n))).c_str(), 1); tzset(); }
	else if (c.op == "release") { log_logger::release(); kind = "none"; }
	else if (c.op == "level") {
		bool on = c.n == 1;
		if (c.f == "debug") l->enable_debug(on); else if (c.f == "info") l->enable_info(on); else if (c.f == "warning") l->enable_warning(on); else l->enable_error(on);
		flags();
	} else if (c.op == "filter") {
		if (c.f == "add") l->add_filter(x); else { vector<string> v; if (c.f == "set") { v.push_back(x); v.push_back(y); } l->set_filter(v); }
		vector<string> v(1, "old"); l->get_filter(v); vector<int> o; for (size_t i = 0; i < v.size(); ++i) counted(o, v[i]); show("r", o);
	} else if (c.op == "dir") fl->set_dir(dir);
	else if (c.op == "limit") { if (c.f == "logs") fl->set_file_max_log_number(c.n); else fl->set_max_file_number(c.n); }
	else if (c.op == "log" || c.op == "macro" || c.op == "par") {
		heard.clear(); divert();
		if (c.op == "macro") macros(c, x, y);
		else if (c.op == "par") par(c);
		else { string m; for (int i = 0; i < c.k; ++i) m += y; l->print(c.f, x, m, str_of(c.z), c.n); }
		string screen = restore();
		vector<int> o; for (size_t i = 0; i < heard.size(); ++i) counted(o, heard[i]);
		if (kind == "console" || kind == "ide" || !screen.empty()) counted(o, screen);
		show("o", o);
	} else return false;
	show("escapes", escapes); vector<int> t; scan("", t); show("t", t);
	return true;
}
static void reset() {
	log_logger::release(); kind = "none";
	fresh(); if (chdir(base.c_str())) _exit(3);
	FILE* f = fopen((base + "blocked").c_str(), "wb"); if (f) fclose(f);
	setenv("TZ", "XYZ0", 1); tzset();
}
int main() {
	if (!confine("log")) return 3;
	reset();
	return serve(execute, reset);
}
