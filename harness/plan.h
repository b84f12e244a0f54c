// What the plan drivers share: a command is "op f g k n i |x| x.. |y| y.. |z| z..", the answer one JSON line.
#pragma once
#include <basiclog.h>
using namespace basiclog;
#include <basicsys.h>
using namespace basicsys;
#include <basicmath.h>
using namespace basicmath;
#include <sstream>
#include <iostream>
#include <unistd.h>

class silent_logger : public log_logger {
public:
	static int& errors() { static int e = 0; return e; }
protected:
	virtual void print(const string& info) { if (info.compare(0, 7, "[error]") == 0) ++errors(); }
};

struct Cmd {
	string op, f, g;
	int k, n, i;
	vector<int> x, y, z;
	bool read(const string& line) {
		std::istringstream is(line);
		is >> op >> f >> g >> k >> n >> i;
		vector<int>* l[] = {&x, &y, &z};
		for (int a = 0; a < 3; ++a) { int c = 0; is >> c; l[a]->resize(c); for (int b = 0; b < c; ++b) is >> (*l[a])[b]; }
		return !is.fail();
	}
};

// Numbers the specifications cannot hold are printed as one they never use.
static inline int num(double v) { return v == (double)(int)v && v < 1e9 && v > -1e9 ? (int)v : 999999999; }
template<class V> static inline void show(const char* key, const vector<V>& v) {
	printf("\"%s\":[", key);
	for (size_t i = 0; i < v.size(); ++i) printf("%s%d", i ? "," : "", num((double)v[i]));
	printf("],");
}
static inline void show(const char* key, double v) { printf("\"%s\":%d,", key, num(v)); }
static inline void show_str(const char* key, const string& v) {
	printf("\"%s\":[", key);
	for (size_t i = 0; i < v.size(); ++i) printf("%s%d", i ? "," : "", (int)(unsigned char)v[i]);
	printf("],");
}
static inline string str_of(const vector<int>& v) { string s; for (size_t i = 0; i < v.size(); ++i) s.push_back((char)v[i]); return s; }

// execute returns false for a command it does not know.
static inline int serve(bool (*execute)(const Cmd&), void (*reset)()) {
	log_logger::init_logger(new silent_logger());
	string line;
	while (std::getline(std::cin, line)) {
		Cmd c;
		if (line == "reset") { reset(); printf("{\"ok\":1}\n"); fflush(stdout); continue; }
		printf("{");
		if (!c.read(line) || !execute(c)) printf("\"bad\":1,");
		printf("\"ok\":1}\n"); fflush(stdout);
	}
	return 0;
}
