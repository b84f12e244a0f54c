// Executes commands of the specification Mat on the real mt_mat; one JSON line per command with all live matrices.
// Line: op f g o dep d s t k n i ch own auto  then five counted lists: a b sz v ss
#include <basiclog.h>
using namespace basiclog;
#include <basicsys.h>
using namespace basicsys;
#include <basicmath.h>
using namespace basicmath;
#include <sstream>
#include <unistd.h>

class silent_logger : public log_logger {
public:
	static int errors;
protected:
	virtual void print(const string& info) { if (info.compare(0, 7, "[error]") == 0) ++errors; }
};
int silent_logger::errors = 0;

static map<int, mt_mat> M;
static vector<u8*> g_buffers;

static const char* DEP[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"};
static mt_Depth depth_of(const string& s) { for (int i = 0; i < 10; ++i) if (s == DEP[i]) return mt_Depth(i); return mt_U8; }
static bool is_float(mt_Depth d) { return d == mt_F32 || d == mt_F64; }
static f64 val(mt_Depth d, int v) { return is_float(d) ? v / 16.0 : v; }
static vector<f64> vals(mt_Depth d, const vector<int>& v) { vector<f64> r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = val(d, v[i]); return r; }
static void put(u8* p, mt_Depth d, f64 v) {
	switch (d) {
	case mt_U8: *(u8*)p = (u8)v; break; case mt_I8: *(i8*)p = (i8)v; break; case mt_U16: *(u16*)p = (u16)v; break; case mt_I16: *(i16*)p = (i16)v; break;
	case mt_U32: *(u32*)p = (u32)v; break; case mt_I32: *(i32*)p = (i32)v; break; case mt_U64: *(u64*)p = (u64)v; break; case mt_I64: *(i64*)p = (i64)v; break;
	case mt_F32: *(f32*)p = (f32)v; break; case mt_F64: *(f64*)p = v; break; default: break;
	}
}
// The value of a cell as the specification counts it; anything it cannot hold is printed as a number it never uses.
static void show(const u8* p, mt_Depth d) {
	f64 v = 0;
	switch (d) {
	case mt_U8: v = *(u8*)p; break; case mt_I8: v = *(i8*)p; break; case mt_U16: v = *(u16*)p; break; case mt_I16: v = *(i16*)p; break;
	case mt_U32: v = *(u32*)p; break; case mt_I32: v = *(i32*)p; break; case mt_U64: v = (f64)*(u64*)p; break; case mt_I64: v = (f64)*(i64*)p; break;
	case mt_F32: v = *(f32*)p * 16.0; break; case mt_F64: v = *(f64*)p * 16; break; default: break;
	}
	if (v == (int)v && v < 1e9 && v > -1e9) printf("%d", (int)v); else printf("999999999");
}
static void show_mat(const mt_mat& m) {
	int n = 1;
	for (int i = 0; i < m.dim(); ++i) n *= m.size()[i];
	vector<int> p(m.dim(), 0);
	bool first = true;
	for (int e = 0; e < n; ++e) {
		const u8* a = m.data();
		for (int i = 0; i < m.dim(); ++i) a += p[i] * m.step()[i];
		for (int c = 0; c < m.channel(); ++c) { if (!first) printf(","); first = false; show(a + c * mt_Depth_Size[m.depth()], m.depth()); }
		for (int i = m.dim() - 1; i >= 0; --i) { if (++p[i] < m.size()[i]) break; p[i] = 0; }
	}
}
static void show_ints(const vector<int>& v) { printf("["); for (size_t i = 0; i < v.size(); ++i) printf("%s%d", i ? "," : "", v[i]); printf("]"); }
static void dump() {
	printf("\"obs\":[");
	bool first = true;
	for (map<int, mt_mat>::iterator i = M.begin(); i != M.end(); ++i) {
		const mt_mat& m = i->second;
		if (m.dim() < 1 || m.dim() > 4) { printf("%s{\"h\":%d,\"sz\":[]}", first ? "" : ",", i->first); first = false; continue; }
		printf("%s{\"h\":%d,\"sz\":", first ? "" : ",", i->first); first = false;
		show_ints(vector<int>(m.size(), m.size() + m.dim()));
		printf(",\"ch\":%d,\"dep\":\"%s\",\"ref\":%d,\"v\":[", m.channel(), (int)m.depth() < 10 ? DEP[m.depth()] : "?", m.reference_number());
		show_mat(m);
		printf("]}");
	}
	printf("]");
}

struct Cmd {
	string op, f, g, o, dep;
	int d, s, t, k, n, i, ch, own, autos;
	vector<int> a, b, sz, v, ss;
};

static mt_scalar scalar_of(const vector<f64>& v) { mt_scalar r; for (size_t i = 0; i < v.size() && i < 4; ++i) r[(int)i] = v[i]; return r; }

// A new matrix through the constructor signatures.
static mt_mat construct(const string& g, const vector<int>& sz, mt_Depth_Channel dc) {
	if (g == "ints" && sz.size() == 1) return mt_mat(sz[0], dc);
	if (g == "ints" && sz.size() == 2) return mt_mat(sz[0], sz[1], dc);
	if (g == "ints" && sz.size() == 3) return mt_mat(sz[0], sz[1], sz[2], dc);
	if (g == "vector") return mt_mat(sz, dc);
	return mt_mat((int)sz.size(), &sz[0], dc);
}
template<class T> static mt_mat construct_with(const string& g, const vector<int>& sz, mt_Depth_Channel dc, const T& v) {
	if (g == "ints" && sz.size() == 1) return mt_mat(sz[0], dc, v);
	if (g == "ints" && sz.size() == 2) return mt_mat(sz[0], sz[1], dc, v);
	if (g == "ints" && sz.size() == 3) return mt_mat(sz[0], sz[1], sz[2], dc, v);
	if (g == "vector") return mt_mat(sz, dc, v);
	return mt_mat((int)sz.size(), &sz[0], dc, v);
}
static mt_mat wrap(const string& g, const vector<int>& sz, mt_Depth_Channel dc, u8* p, const vector<int>& st, bool autos, u8* share) {
	const i32* s = autos ? NULL : &st[0];
	if (g == "ints" && sz.size() == 1) return mt_mat(sz[0], dc, p, s, share);
	if (g == "ints" && sz.size() == 2) return mt_mat(sz[0], sz[1], dc, p, s, share);
	if (g == "ints" && sz.size() == 3) return mt_mat(sz[0], sz[1], sz[2], dc, p, s, share);
	if (g == "vector") return mt_mat(sz, dc, p, autos ? vector<i32>() : st, share);
	return mt_mat((int)sz.size(), &sz[0], dc, p, s, share);
}
template<class A, class B> static mt_mat binary(const string& o, const A& a, const B& b) {
	if (o == "add") return a + b;
	if (o == "sub") return a - b;
	if (o == "mul") return a * b;
	return a / b;
}
template<class B> static bool self_binary(const string& o, mt_mat& a, const B& b) {
	mt_mat* r = o == "add" ? &(a += b) : o == "sub" ? &(a -= b) : o == "mul" ? &(a *= b) : &(a /= b);
	return r == &a;
}
template<class T> static void poke_as(mt_mat& m, const Cmd& c) {
	T v = (T)val(m.depth(), c.v[0]);
	const vector<int>& x = c.a; int n = (int)x.size();
	if (c.f == "atvec") m.at<T>(x, c.k) = v;
	else if (c.f == "atints" && n == 1) m.at<T>(x[0], c.k) = v;
	else if (c.f == "atints" && n == 2) m.at<T>(x[0], x[1], c.k) = v;
	else if (c.f == "atints" && n == 3) m.at<T>(x[0], x[1], x[2], c.k) = v;
	else if (c.f == "ptrints" && n == 1) *m.ptr<T>(x[0], c.k) = v;
	else if (c.f == "ptrints" && n == 2) *m.ptr<T>(x[0], x[1], c.k) = v;
	else if (c.f == "ptrints" && n == 3) *m.ptr<T>(x[0], x[1], x[2], c.k) = v;
	else if (c.f == "ptr") *m.ptr<T>(x, c.k) = v;
	else m.at<T>(n, &x[0], c.k) = v;
}
static void poke(mt_mat& m, const Cmd& c) {
	switch (m.depth()) {
	case mt_U8: poke_as<u8>(m, c); break; case mt_I8: poke_as<i8>(m, c); break; case mt_U16: poke_as<u16>(m, c); break; case mt_I16: poke_as<i16>(m, c); break;
	case mt_U32: poke_as<u32>(m, c); break; case mt_I32: poke_as<i32>(m, c); break; case mt_U64: poke_as<u64>(m, c); break; case mt_I64: poke_as<i64>(m, c); break;
	case mt_F32: poke_as<f32>(m, c); break; case mt_F64: poke_as<f64>(m, c); break; default: break;
	}
}
static const u8* address(const mt_mat& m, const vector<int>& x, const string& g) {
	int n = (int)x.size();
	if (g == "vec") return m.ptr<u8>(x, 0);
	if (g == "ints" && n == 1) return m.ptr<u8>(x[0], 0);
	if (g == "ints" && n == 2) return m.ptr<u8>(x[0], x[1], 0);
	if (g == "ints" && n == 3) return m.ptr<u8>(x[0], x[1], x[2], 0);
	return m.ptr<u8>(n, &x[0], 0);
}
static void show_values(const vector<f64>& v, mt_Depth d) {
	printf("\"r\":[");
	for (size_t i = 0; i < v.size(); ++i) { f64 x = is_float(d) ? v[i] * 16 : v[i]; if (x == (int)x) printf("%s%d", i ? "," : "", (int)x); else printf("%s999999999", i ? "," : ""); }
	printf("],");
}
static mt_mat::Reduce_Type reduce_of(const string& o) {
	return o == "sum" ? mt_mat::Reduce_Type_Sum : o == "mean" ? mt_mat::Reduce_Type_Mean : o == "max" ? mt_mat::Reduce_Type_Max : o == "min" ? mt_mat::Reduce_Type_Min
		: o == "var" ? mt_mat::Reduce_Type_Variance : o == "uvar" ? mt_mat::Reduce_Type_Unbias_Variance : o == "std" ? mt_mat::Reduce_Type_Standard_Variance : mt_mat::Reduce_Type_Standard_Unbias_Variance;
}
static mt_mat::Compare_Task task_of(const string& o) {
	return o == "bigger" ? mt_mat::Compare_Task_Bigger : o == "smaller" ? mt_mat::Compare_Task_Smaller : o == "same" ? mt_mat::Compare_Task_Same
		: o == "nonbigger" ? mt_mat::Compare_Task_Non_Bigger : mt_mat::Compare_Task_Non_Smaller;
}
static string g_dir;

static bool execute(Cmd& c) {
	mt_Depth dep = depth_of(c.dep);
	mt_Depth_Channel dc(dep, c.ch < 1 ? 1 : c.ch);
	int dims = (int)c.sz.size();
	string op = c.op;
	if (op == "new") {
		mt_mat m = construct(c.f, c.sz, dc);
		u8* p = m.data();
		for (size_t i = 0; i < c.v.size(); ++i) put(p + i * mt_Depth_Size[dep], dep, val(dep, c.v[i]));
		M[c.d] = m;
	} else if (op == "fill") {
		vector<f64> v = vals(dep, c.v);
		if (c.f == "f64") M[c.d] = construct_with(c.g, c.sz, dc, v[0]);
		else if (c.f == "scalar") M[c.d] = construct_with(c.g, c.sz, dc, scalar_of(v));
		else M[c.d] = construct_with(c.g, c.sz, dc, v);
	} else if (op == "create") {
		mt_mat& m = M[c.d];
		vector<f64> v = vals(dep, c.v);
		if (c.g == "ints" && dims == 1) m.create(c.sz[0], dc);
		else if (c.g == "ints" && dims == 2) m.create(c.sz[0], c.sz[1], dc);
		else if (c.g == "ints" && dims == 3) m.create(c.sz[0], c.sz[1], c.sz[2], dc);
		else if (c.g == "vector") m.create(c.sz, dc);
		else m.create(dims, &c.sz[0], dc);
		if (c.f == "f64") m.set(v[0]); else if (c.f == "scalar") m.set(scalar_of(v)); else m.set(v);
	} else if (op == "like") {
		const mt_mat s = M[c.s];
		vector<f64> v = vals(s.depth(), c.v);
		if (c.g == "size") {
			mt_mat m(s, mt_mat::Construct_Type_Create_As_Size);
			if (c.f == "f64") m.set(v[0]); else if (c.f == "scalar") m.set(scalar_of(v)); else m.set((int)v.size(), &v[0]);
			M[c.d] = m;
		} else if (c.f == "f64") M[c.d] = mt_mat(s, v[0]);
		else if (c.f == "scalar") M[c.d] = mt_mat(s, scalar_of(v));
		else M[c.d] = mt_mat(s, v);
	} else if (op == "wrap") {
		int es = mt_Depth_Size[dep];
		u8* p = (u8*)malloc(c.v.size() * es);
		for (size_t i = 0; i < c.v.size(); ++i) put(p + i * es, dep, val(dep, c.v[i]));
		vector<int> st = c.a;
		for (size_t i = 0; i < st.size(); ++i) st[i] *= es;
		if (!c.own) g_buffers.push_back(p);
		M[c.d] = wrap(c.f, c.sz, dc, p + c.k * es, st, c.autos, c.own ? p : NULL);
	} else if (op == "alias") {
		if (c.f == "assign") { if (c.d != c.s) { mt_mat& d = M[c.d]; d = M[c.s]; } else { mt_mat& d = M[c.s]; d = d; } }
		else { mt_mat m(M[c.s]); M[c.d] = m; }
	} else if (op == "sub") {
		mt_mat& s = M[c.s];
		vector<mt_range> r(c.a.size());
		for (size_t i = 0; i < r.size(); ++i) r[i] = mt_range(c.a[i], c.f == "end" && c.b[i] == s.size()[i] ? -1 : c.b[i]);
		int k = c.k - 1, lo = c.a[k], hi = c.b[k];
		mt_rect roi;
		if (c.a.size() == 2) roi = mt_rect(c.a[1], c.a[0], c.b[1] - c.a[1], c.b[0] - c.a[0]);
		mt_mat m;
		if (c.f == "arr" || c.f == "end") m = s.sub((int)r.size(), &r[0]);
		else if (c.f == "vec") m = s.sub(r);
		else if (c.f == "ctorarr") m = mt_mat(s, (int)r.size(), &r[0]);
		else if (c.f == "ctorvec") m = mt_mat(s, r);
		else if (c.f == "sub1") m = s.sub(lo, hi, k);
		else if (c.f == "range1") m = s.sub(mt_range(lo, hi), k);
		else if (c.f == "ctor1") m = mt_mat(s, mt_range(lo, hi), k);
		else if (c.f == "index") m = s.index(lo, k);
		else if (c.f == "row") m = s.row(lo);
		else if (c.f == "col") m = s.col(lo);
		else if (c.f == "plane") m = s.plane(lo);
		else if (c.f == "front") m = s.front(hi, k);
		else if (c.f == "back") m = s.back(hi - lo, k);
		else if (c.f == "roi") m = s.sub(roi);
		else if (c.f == "ctorroi") m = mt_mat(s, roi);
		else return false;
		M[c.d] = m;
	} else if (op == "flip") {
		mt_mat& s = M[c.s];
		vector<int> x = c.a; for (size_t i = 0; i < x.size(); ++i) --x[i];
		vector<b8> fl(s.dim(), sys_false); for (size_t i = 0; i < x.size(); ++i) fl[x[i]] = sys_true;
		mt_mat m;
		if (c.f == "one") m = s.flip(x[0]);
		else if (c.f == "dims") m = s.flip((int)x.size(), &x[0]);
		else if (c.f == "dimvec") m = s.flip(x);
		else if (c.f == "flags") m = s.flip((int)fl.size(), &fl[0]);
		else if (c.f == "flagvec") m = s.flip(fl);
		else if (c.f == "all") m = s.flip_all_dim();
		else return false;
		M[c.d] = m;
	} else if (op == "swap") {
		mt_mat m = c.f == "t" ? M[c.s].t() : M[c.s].swap_dim(c.k - 1, c.n - 1);
		M[c.d] = m;
	} else if (op == "stride") {
		mt_mat m = M[c.s].sub_stride((int)c.a.size(), &c.a[0]);
		M[c.d] = m;
	} else if (op == "subch") {
		mt_mat m;
		if (c.f == "at") m = M[c.s].channel_at(c.a[0]);
		else if (c.f == "all") { vector<mt_mat> v; M[c.s].all_channel(v); m = v[c.a[0]]; }
		else m = M[c.s].sub_channel(c.a[0], c.a[1]);
		M[c.d] = m;
	} else if (op == "reshape") {
		mt_mat& s = M[c.s];
		int ch = c.ch == s.channel() ? -1 : c.ch;
		mt_mat m;
		if (c.f == "channel") m = s.reshape_channel(c.ch);
		else if (c.f == "vec") m = s.reshape(c.sz, ch);
		else if (c.f == "2d") m = s.reshape_2d(c.sz[0], c.sz[1], ch);
		else if (c.f == "3d") m = s.reshape_3d(c.sz[0], c.sz[1], c.sz[2], ch);
		else m = s.reshape((int)c.sz.size(), &c.sz[0], ch);
		M[c.d] = m;
	} else if (op == "split") {
		mt_mat& s = M[c.s];
		mt_mat m = c.f == "inc" ? s.increase_dim(c.k - 1) : c.f == "inclast" ? s.increase_dim(s.dim()) : s.split_dim(c.k - 1, (int)c.a.size(), &c.a[0]);
		M[c.d] = m;
	} else if (op == "comb") {
		mt_mat m = c.f == "dec" ? M[c.s].decrease_dim(c.i - 1) : M[c.s].combine_dim(c.k - 1, c.n);
		M[c.d] = m;
	} else if (op == "chlast") { mt_mat m = M[c.s].channel_as_last_dim(); M[c.d] = m; }
	else if (op == "lastch") { mt_mat m = M[c.s].last_dim_as_channel(); M[c.d] = m; }
	else if (op == "clone") { mt_mat m = M[c.s].clone(); M[c.d] = m; }
	else if (op == "channel") { vector<mt_mat> v; M[c.s].split(v, c.f == "share" ? sys_true : sys_false); mt_mat m = v[c.k]; v.clear(); M[c.d] = m; }
	else if (op == "convert") {
		if (c.f == "into") M[c.s].convert(M[c.d], dep);
		else { mt_mat m = M[c.s].convert(dep); M[c.d] = m; }
	} else if (op == "copyfrom") {
		mt_mat& d = M[c.d]; if (&d.copy_from(M[c.s]) != &d) return false;
	} else if (op == "repeat") {
		mt_mat& s = M[c.s];
		mt_mat m;
		if (c.f == "vec") m = s.repeat(c.a, c.k);
		else if (c.f == "2d") m = s.repeat_2d(c.a[0], c.a[1], c.k);
		else if (c.f == "3d") m = s.repeat_3d(c.a[0], c.a[1], c.a[2], c.k);
		else if (c.f == "one") { int k = 0; for (size_t i = 0; i < c.a.size(); ++i) if (c.a[i] != 1) k = (int)i; m = s.repeat(c.a[k], k, c.k); }
		else m = s.repeat((int)c.a.size(), &c.a[0], c.k);
		M[c.d] = m;
	} else if (op == "expand") {
		mt_mat& s = M[c.s];
		vector<f64> v = vals(s.depth(), c.v);
		mt_mat m;
		if (c.f == "vec") m = s.expand(c.a, c.b, scalar_of(v));
		else if (c.f == "tlonly") m = s.expand(c.a, vector<i32>(), scalar_of(v));
		else if (c.f == "bronly") m = s.expand(vector<i32>(), c.b, scalar_of(v));
		else if (c.f == "scalararr") m = s.expand((int)c.a.size(), &c.a[0], &c.b[0], scalar_of(v));
		else m = s.expand((int)c.a.size(), &c.a[0], &c.b[0], v);
		M[c.d] = m;
	} else if (op == "merge" || op == "mergech" || op == "total") {
		vector<mt_mat> v(c.ss.size());
		for (size_t i = 0; i < v.size(); ++i) v[i] = M[c.ss[i]];
		b8 share = c.f == "share";
		mt_mat m = op == "merge" ? mt_mat_helper::merge_align_dim(v, c.k - 1, share) : op == "mergech" ? mt_mat_helper::merge_align_channel(v, share)
			: c.o == "add" ? mt_mat_helper::add(v, share) : mt_mat_helper::dot(v, share);
		v.clear();
		M[c.d] = m;
	} else if (op == "set") {
		mt_mat& m = M[c.s]; vector<f64> v = vals(m.depth(), c.v);
		mt_mat& r = c.f == "f64" ? m.set(v[0]) : c.f == "scalar" ? m.set(scalar_of(v)) : m.set(v);
		if (&r != &m) return false;
	} else if (op == "setat") {
		mt_mat& m = M[c.s]; vector<f64> v = vals(m.depth(), c.v); vector<int>& x = c.a; int n = (int)x.size();
		if (c.f == "f64") { if (c.g == "ints" && n == 2) m.set(v[0], x[0], x[1]); else if (c.g == "ints" && n == 3) m.set(v[0], x[0], x[1], x[2]); else m.set(v[0], n, &x[0]); }
		else if (c.f == "scalar") { mt_scalar sc = scalar_of(v); if (c.g == "ints" && n == 2) m.set(sc, x[0], x[1]); else if (c.g == "ints" && n == 3) m.set(sc, x[0], x[1], x[2]); else m.set(sc, n, &x[0]); }
		else m.set(&v[0], n, &x[0]);
	} else if (op == "poke") poke(M[c.s], c);
	else if (op == "incr") M[c.s].set_incremental(val(M[c.s].depth(), c.v[0]), c.f == "each" ? sys_false : sys_true);
	else if (op == "setmat") { mt_mat& m = M[c.s]; if (&m.set(M[c.t]) != &m) return false; }
	else if (op == "arith") { mt_mat m = binary(c.o, (const mt_mat&)M[c.s], (const mt_mat&)M[c.t]); M[c.d] = m; }
	else if (op == "selfarith") return self_binary(c.o, M[c.s], M[c.t]);
	else if (op == "arithv") {
		const mt_mat& s = M[c.s]; vector<f64> v = vals(s.depth(), c.v);
		mt_mat m = c.f == "f64" ? binary(c.o, s, v[0]) : c.f == "scalar" ? binary(c.o, s, scalar_of(v)) : binary(c.o, s, v);
		M[c.d] = m;
	} else if (op == "selfarithv") {
		mt_mat& s = M[c.s]; vector<f64> v = vals(s.depth(), c.v);
		return c.f == "f64" ? self_binary(c.o, s, v[0]) : c.f == "scalar" ? self_binary(c.o, s, scalar_of(v)) : self_binary(c.o, s, v);
	} else if (op == "varith") {
		const mt_mat& s = M[c.s]; vector<f64> v = vals(s.depth(), c.v);
		mt_mat m = c.f == "f64" ? binary(c.o, v[0], s) : c.f == "scalar" ? binary(c.o, scalar_of(v), s) : binary(c.o, v, s);
		M[c.d] = m;
	} else if (op == "neg") { mt_mat m = -M[c.s]; M[c.d] = m; }
	else if (op == "bias") {
		const mt_mat& s = M[c.s]; const mt_mat& t = M[c.t];
		mt_mat m = c.o == "add" ? s.add_bias(t) : c.o == "sub" ? s.substract_bias(t) : c.o == "mul" ? s.mul_bias(t) : s.div_bias(t);
		M[c.d] = m;
	} else if (op == "mask") {
		const mt_mat& s = M[c.s]; mt_mat empty;
		vector<f64> v = vals(s.depth(), c.v);
		mt_mat m = s.element_compared_mask(c.t ? M[c.t] : empty, task_of(c.o), v[0], v[1]);
		M[c.d] = m;
	} else if (op == "pow") { mt_mat m = M[c.s].pow(c.k / 2.0); M[c.d] = m; }
	else if (op == "selfpow") M[c.s].self_pow(c.k / 2.0);
	else if (op == "abs") { mt_mat m = M[c.s].abs(); M[c.d] = m; }
	else if (op == "selfabs") M[c.s].self_abs();
	else if (op == "reduce") { mt_mat m = M[c.s].reduce(reduce_of(c.o), c.k - 1); M[c.d] = m; }
	else if (op == "json") {
		mt_mat m;
		if (c.f == "textfile" || c.f == "binaryfile") {
			string path = g_dir + "/mat";
			mt_mat_helper::save(path, M[c.s], c.f == "textfile");
			m = mt_mat_helper::load(path, c.f == "textfile");
			unlink(path.c_str());
		} else if (c.f == "text") {
			string text; sys_string_buffer_writer w(&text); mt_mat_helper::save(&w, M[c.s]);
			sys_string_buffer_reader r(text); m = mt_mat_helper::load(&r);
		} else {
			vector<u8> bytes; sys_byte_buffer_writer w(&bytes); mt_mat_helper::save(&w, M[c.s]);
			sys_byte_buffer_reader r(bytes.data(), bytes.data() + bytes.size()); m = mt_mat_helper::load(&r);
		}
		M[c.d] = m;
	} else if (op == "drop") M.erase(c.s);
	else return false;
	return true;
}

static void ask(Cmd& c) {
	const mt_mat& s = M[c.s];
	static const mt_mat none;
	const mt_mat& t = M.count(c.t) ? M[c.t] : none;
	const vector<int>& x = c.a; int n = (int)x.size();
	if (c.f == "get") {
		vector<f64> v;
		if (c.g == "vec") s.get(v, n, &x[0]);
		else if (c.g == "ints" && n == 1) s.get(v, x[0]);
		else if (c.g == "ints" && n == 2 && s.channel() <= 4) { mt_scalar r; r = s.get(x[0], x[1]); v.assign(r.value, r.value + s.channel()); }
		else { v.resize(s.channel()); s.get(&v[0], n, &x[0]); }
		show_values(v, s.depth());
	} else if (c.f == "ptr") {
		const u8* p = address(s, x, c.g);
		printf("\"r\":["); for (int i = 0; i < s.channel(); ++i) { if (i) printf(","); show(p + i * s.element_channel_size(), s.depth()); } printf("],");
	} else if (c.f == "index") { vector<int> r = c.g == "vec" ? s.get_index(address(s, x, c.g)) : vector<int>(); if (c.g != "vec") s.get_index(r, address(s, x, c.g)); printf("\"r\":"); show_ints(r); printf(","); }
	else if (c.f == "elements") {
		mt_array_element_const_iterator it(s); bool first = true;
		printf("\"r\":[");
		for (const u8* p = it.data(); p != NULL; p = it.data()) for (int i = 0; i < s.channel(); ++i) { if (!first) printf(","); first = false; show(p + i * s.element_channel_size(), s.depth()); }
		printf("],");
	} else if (c.f == "blocks") {
		mt_array_memory_block_const_iterator it(s); bool first = true;
		printf("\"r\":[");
		for (const u8* p = it.data(); p != NULL; p = it.data())
			for (int e = 0; e < it.block_element_number(); ++e, p += it.block_element_step())
				for (int i = 0; i < s.channel(); ++i) { if (!first) printf(","); first = false; show(p + i * s.element_channel_size(), s.depth()); }
		printf("],");
	} else if (c.f == "positions") {
		bool first = true; printf("\"r\":[");
		if (c.g == "arr") { mt_array_index_iterator it(s.dim(), s.size()); while (it.next()) { if (!first) printf(","); first = false; show_ints(it.position()); } }
		else if (c.g == "vec") { mt_array_index_iterator it(s.dim(), s.size()); vector<vector<i32>> all; it.all_index(all); for (size_t i = 0; i < all.size(); ++i) { if (!first) printf(","); first = false; show_ints(all[i]); } }
		else { mt_array_element_const_iterator it(s); while (it.data() != NULL) { if (!first) printf(","); first = false; show_ints(it.position()); } }
		printf("],");
	} else {
		int r = -1;
		if (c.f == "eq") { r = (s == t) ? 1 : 0; if ((s != t) == (r == 1)) r = -2; }
		else if (c.f == "samesize") r = s.is_same_size(t) ? 1 : 0;
		else if (c.f == "samemem") r = s.is_same_memory_size(t) ? 1 : 0;
		else if (c.f == "shared") r = s.is_memory_shared(t) ? 1 : 0;
		else if (c.f == "same") r = s.is_same(t) ? 1 : 0;
		else if (c.f == "zero") r = s.is_zero() ? 1 : 0;
		else if (c.f == "number") r = s.element_number();
		else if (c.f == "bytes") r = s.memory_size();
		else if (c.f == "cont") r = s.is_continuous() ? 1 : 0;
		printf("\"r\":%d,", r);
	}
}

static void get_list(std::istringstream& is, vector<int>& v) { int n; is >> n; v.resize(n); for (int i = 0; i < n; ++i) is >> v[i]; }

int main() {
	log_logger::init_logger(new silent_logger());
	const char* d = getenv("SCRATCH"); g_dir = d ? d : "/tmp";
	string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line);
		Cmd c;
		is >> c.op;
		if (c.op == "reset") { M.clear(); for (size_t i = 0; i < g_buffers.size(); ++i) free(g_buffers[i]); g_buffers.clear(); printf("{\"ok\":1}\n"); fflush(stdout); continue; }
		is >> c.f >> c.g >> c.o >> c.dep >> c.d >> c.s >> c.t >> c.k >> c.n >> c.i >> c.ch >> c.own >> c.autos;
		get_list(is, c.a); get_list(is, c.b); get_list(is, c.sz); get_list(is, c.v); get_list(is, c.ss);
		printf("{");
		bool ok = true;
		if (c.op == "ask") ask(c); else ok = execute(c);
		if (!ok) printf("\"bad\":1,");
		dump();
		printf("}\n"); fflush(stdout);
	}
}
