// Executes sessions of the specification Stats on sys_alg_analyzer, sys_timer (over a clock of ours) and sys_tester.
#include "plan.h"
#include <sched.h>
#include <sys/time.h>
#include <thread>
static const i64 unit = 1000000000;
static i64 clock_us = 0, epoch_s = 1700000000;
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = epoch_s + clock_us / 1000000; tv->tv_usec = clock_us % 1000000; return 0; }
static vector<string> heard;
class own_logger : public log_logger {
protected:
	virtual void print(const string& info) { heard.push_back(info); }
};
static map<int, sys_timer*> timers;
static bool live = false;
static string text_of(const string& s) { size_t p = s.find(">, "); string t = p == string::npos ? s : s.substr(p + 3); return t.substr(0, t.size() - 1); }
static void report() {
	vector<int> o;
	for (size_t h = 0; h < heard.size(); ++h) {
		std::istringstream is(text_of(heard[h])); string line;
		while (std::getline(is, line)) {
			size_t p = line.rfind(':'); if (p == string::npos) continue;
			o.push_back((int)p); for (size_t i = 0; i < p; ++i) o.push_back((u8)line[i]);
			i64 v = atoll(line.c_str() + p + 1); o.push_back(v % unit == 0 ? num((double)(v / unit)) : 999999999);
		}
	}
	show("r", o);
}
static void timed() {   // number of messages, then level, name, cost and count
	vector<int> o; o.push_back((int)heard.size());
	for (size_t h = 0; h < heard.size(); ++h) {
		string t = text_of(heard[h]); size_t p = t.rfind(" cost "); int cost = -1, count = -1;
		if (p == string::npos) continue;
		sscanf(t.c_str() + p, " cost %d ms, count = %d", &cost, &count);
		o.push_back(heard[h].compare(0, 7, "[debug]") == 0 ? 1 : 2); o.push_back((int)p); for (size_t i = 0; i < p; ++i) o.push_back((u8)t[i]);
		o.push_back(cost); o.push_back(count);
	}
	show("r", o);
}
static void numbers() {   // the first two numbers of what was said, or 0
	vector<int> o;
	for (size_t h = 0; h < heard.size(); ++h) {
		string t = text_of(heard[h]); const char* p = t.c_str(); int n = 0;
		for (; *p && n < 2; ++p) if (isdigit(*p)) { o.push_back(atoi(p)); ++n; while (isdigit(p[1])) ++p; }
		if (n == 0) o.push_back(0);
	}
	show("r", o);
}
static bool execute(const Cmd& c) {
	string x = str_of(c.x), y = str_of(c.y);
	heard.clear();
	if (c.op == "init") { sys_alg_analyzer::init(); live = true; }
	else if (c.op == "report") { sys_alg_analyzer::release(); live = false; report(); }
	else if (c.op == "count") { i64 v = c.n * unit; if (c.f == "set") sys_alg_analyzer::set(x, v); else if (c.f == "add") sys_alg_analyzer::add(x, v); else sys_alg_analyzer::max_(x, v); }
	else if (c.op == "par") {
		vector<std::thread> t;
		for (int j = 0; j < c.k; ++j) t.push_back(std::thread([&c, j, x, y] { for (int m = 1; m <= c.n; ++m) { sys_alg_analyzer::add(x, c.i * unit); sys_alg_analyzer::max_(y, (j * c.n + m) * unit); if (m % 8 == j) sched_yield(); } }));
		for (size_t j = 0; j < t.size(); ++j) t[j].join();
	}
	else if (c.op == "clock") clock_us += c.n;
	else if (c.op == "timer") timers[c.k] = new sys_timer(x, c.i == 1, c.f == "debug");
	else if (c.op == "begin") timers[c.k]->begin();
	else if (c.op == "end") timers[c.k]->end();
	else if (c.op == "cost") show("r", timers[c.k]->get_cost());
	else if (c.op == "restart") timers[c.k]->reset();
	else if (c.op == "out") { timers[c.k]->out(c.f == "debug"); timed(); }
	else if (c.op == "drop") { delete timers[c.k]; timers.erase(c.k); timed(); }
	else if (c.op == "tick") show("r", (double)(sys_timer::get_tick_cout() - epoch_s * 1000));
	else if (c.op == "tester") sys_tester::init(c.f == "silent" ? sys_tester::Test_Type_Slience : sys_tester::Test_Type_Assert);
	else if (c.op == "untester") { sys_tester::release(); numbers(); }
	else if (c.op == "judge") {
		if (c.f == "equal") { sys_test_equal(c.n, c.i); } else { sys_test(c.i != 0); }
		int e = 0; for (size_t i = 0; i < heard.size(); ++i) e += heard[i].compare(0, 7, "[error]") == 0;
		show("r", e);
	}
	else return false;
	return true;
}
static void reset() {
	log_logger::init_logger(new own_logger());
	if (live) sys_alg_analyzer::release(); live = false;
	for (map<int, sys_timer*>::iterator i = timers.begin(); i != timers.end(); ++i) delete i->second;
	timers.clear(); clock_us = 0;
	if (sys_tester::get_instance()) sys_tester::release();
}
int main() { return serve(execute, reset); }
