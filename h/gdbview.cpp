// C38: what the debugger shows through extras/gdb/types.py. The process inspected
// builds random values and stops; gdb prints them; the shown content is compared
// with the reference values the same seed gives.
#include "kv.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <new>
#include <functional>
#include <algorithm>
#include "core_types.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "containers/tuple.h"
#include "templates/optional.h"
#include "templates/atomic.h"
#include "math/math.h"

typedef std::string S; typedef kv::u64 u64; typedef kv::i64 i64; typedef std::map<S, S> Shown;
struct Descending { int32 operator()(int32 a, int32 b) const { return a < b ? 1 : a > b ? -1 : 0; } };

struct View
{
	Array<int32> ints_a; Array<float64> doubles_a; Array<String> texts_a; Array<Array<int32>> nested_a; Array<char> chars_a; Array<uint8> bytes_a;
	Array<int32, MallocAnsi> managed_a; List<int32, MallocAnsi> managed_l;
	String text_s; String text_t; const String text_c;
	List<int32> ints_l; List<String> texts_l; List<Array<int32>> nested_l;
	Set<int32, Descending> down_z; Map<int32, int32, Descending> down_m; Set<int32> ints_z; Set<String> texts_z;
	Map<int32, String> keyed_m; Map<String, int32> named_m; Map<int32, Array<int32>> lists_m; Map<int32, Map<int32, int32>> maps_m;
	Tuple<int32> one_u; Tuple<int32, float64> two_u; Tuple<String, int32, float64, String> four_u; Tuple<Array<int32>, Tuple<int32, int32>> nested_u; Tuple<int32, int32, int32> same3_u;
	Vec2<float32> vec_f2; Vec3<float32> vec_f3; Vec4<float32> vec_f4; Vec2<int32> vec_i2; Vec3<int32> vec_i3; Vec4<int32> vec_i4; Vec2<float64> vec_d2; Vec3<float64> vec_d3; Vec4<float64> vec_d4; const Vec3<float32> vec_c3;
	Quat quat_q; Quat quat_id; Quat quat_scaled;
	// an optional is shown as its value is, an empty one as any empty one
	Optional<int32> same_oi; int32 as_oi; Optional<String> same_os; String as_os; Optional<Array<int32>> same_oa; Array<int32> as_oa; Optional<Vec3<float32>> same_ov; Vec3<float32> as_ov; Optional<float64> same_od; float64 as_od; Optional<Map<int32, int32>> same_om; Map<int32, int32> as_om; Optional<Optional<int32>> same_oo; int32 as_oo;
	Optional<int32> same_ei, as_ei; Optional<String> same_es, as_es;
	Atomic<int32> same_ai; int32 as_ai; Atomic<int64> same_al; int64 as_al; Atomic<uint64> same_au; uint64 as_au;
	// through references
	const String & ref_text; Array<int32> & ref_ints; List<String> & ref_list; const Map<int32, String> & ref_map; String && rref_text; Array<int32> && rref_ints; Vec3<float32> as_ref; Vec3<float32> & same_ref;
	explicit View(const S & c, const Vec3<float32> & v) : text_c(c.c_str(), c.size()), vec_c3(v), ref_text(text_s), ref_ints(ints_a), ref_list(texts_l), ref_map(keyed_m), rref_text(move(text_s)), rref_ints(move(ints_a)), same_ref(as_ref) {}
};

extern "C" __attribute__((noinline)) void kvStop(const View & view) { asm volatile("" : : "r"(&view) : "memory"); }

struct Fill
{
	kv::Rng & R; Shown & out;
	int integer() { switch (R.below(6)) { case 0: return 0; case 1: return INT32_MAX; case 2: return INT32_MIN; case 3: return (int)R.next(); default: return (int)R.range(-99, 99); } }
	double real() { return R.range(-4000, 4000) / 8.0; }
	S text()
	{
		S s; const u64 n = R.chance(1, 12) ? 200 + R.below(400) : R.size(24); const int kind = (int)R.below(7);
		for (u64 i = 0; i < n; ++i) switch (kind)
		{
			case 0: s += "\"\\ {}=,<>()[]'\n\t\r"[R.below(16)]; break;
			case 1: s += "\xc3\xa9"; break;
			case 2: s += (char)(1 + R.below(255)); break;
			case 3: s += 'x'; break;
			case 4: s += (char)('0' + R.below(10)); break;
			default: s += (char)(32 + R.below(95)); break;
		}
		if (kind == 1 && n) COV("text:utf8"); if (kind == 2 && n) COV("text:any-byte"); if (n > 200) COV("text:long"); if (!n) COV("text:empty");
		return s;
	}
	static S hex(const S & s) { S r = "s"; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
	static S i(i64 v) { return "i" + std::to_string(v); }
	static S f(double v) { char b[64]; snprintf(b, 64, "f%.9g", v); return b; }
	static S seq(const std::vector<S> & v, const char * extra = "") { S r = std::to_string(v.size()) + ";" + extra + "{"; for (size_t k = 0; k < v.size(); ++k) r += (k ? "," : "") + v[k]; return r + "}"; }

	void ints(Array<int32> & a, std::vector<int> & m)
	{
		const u64 n = R.size(40); for (u64 k = 0; k < n; ++k) { const int v = integer(); const u64 at = R.below(m.size() + 1); if (R.chance(1, 3)) { a.insertAt(at, v); m.insert(m.begin() + at, v); } else { a.insertLast(v); m.push_back(v); } }
		while (m.size() && R.chance(1, 3)) { const u64 at = R.below(m.size()); a.removeAt(at); m.erase(m.begin() + at); }
		if (R.chance(1, 10)) { a.empty(); m.clear(); COV("array:emptied"); }
	}
	static std::vector<S> canon(const std::vector<int> & m) { std::vector<S> r; for (int v : m) r.push_back(i(v)); return r; }
	S ints(Array<int32> & a) { std::vector<int> m; ints(a, m); if (m.empty()) COV("array:empty"); else COV("array:filled"); return seq(canon(m), "#"); }
	static String K(const S & s) { return String(s.c_str(), s.size()); }

	void fill(View & v)
	{
		out["ints_a"] = ints(v.ints_a); out["ref_ints"] = out["rref_ints"] = out["ints_a"];
		{ std::vector<S> m; for (u64 n = R.size(20); n; --n) { const double d = real(); v.doubles_a.insertLast(d); m.push_back(f(d)); } out["doubles_a"] = seq(m, "#"); }
		{ std::vector<S> m; for (u64 n = R.size(12); n; --n) { const S s = text(); v.texts_a.insertLast(K(s)); m.push_back(hex(s)); } out["texts_a"] = seq(m, "#"); }
		{ std::vector<S> m; for (u64 n = R.size(8); n; --n) { Array<int32> a; m.push_back(ints(a)); v.nested_a.insertLast(move(a)); } out["nested_a"] = seq(m, "#"); }
		{ std::vector<S> m; for (u64 n = R.size(30); n; --n) { const char c = (char)R.below(256); v.chars_a.insertLast(c); m.push_back(i(c)); } out["chars_a"] = seq(m, "#"); }
		{ std::vector<S> m; for (u64 n = R.size(30); n; --n) { const uint8 c = (uint8)R.below(256); v.bytes_a.insertLast(c); m.push_back(i(c)); } out["bytes_a"] = seq(m, "#"); }
		{ const S s = text(); v.text_s = K(s); out["text_s"] = hex(s); out["ref_text"] = out["rref_text"] = hex(s); }
		{ const S a = text(), b = text(); v.text_t = K(a); v.text_t += K(b); S m = a + b; if (R.chance(1, 2)) { v.text_t = K(b); m = b; COV("text:shortened"); } if (R.chance(1, 6)) { String gone = move(v.text_t); v.text_t = K(a); m = a; } out["text_t"] = hex(m); }
		{ std::vector<S> m; for (u64 n = R.size(24); n; --n) { const int x = integer(); if (R.chance(1, 3)) { v.ints_l.pushFront(x); m.insert(m.begin(), i(x)); } else { v.ints_l.pushBack(x); m.push_back(i(x)); } }
			while (m.size() && R.chance(1, 3)) { u64 at = R.below(m.size()); if (R.chance(1, 3)) at = m.size() - 1; auto it = v.ints_l.begin(); for (u64 k = 0; k < at; ++k) ++it; v.ints_l.remove(it); m.erase(m.begin() + at); COV("list:removed"); }
			if (m.empty()) COV("list:empty"); else COV("list:filled"); out["ints_l"] = seq(m, "#"); }
		{ std::vector<S> m; for (u64 n = R.size(9); n; --n) { const S s = text(); v.texts_l.pushBack(K(s)); m.push_back(hex(s)); } out["texts_l"] = seq(m, "#"); out["ref_list"] = out["texts_l"]; }
		{ std::vector<S> m; for (u64 n = R.size(6); n; --n) { Array<int32> a; m.push_back(ints(a)); v.nested_l.pushBack(move(a)); } out["nested_l"] = seq(m, "#"); }
		{ std::set<int> m; for (u64 n = R.size(40); n; --n) { const int x = integer(); v.ints_z.set(x); m.insert(x); } while (m.size() && R.chance(1, 3)) { auto it = m.begin(); std::advance(it, R.below(m.size())); v.ints_z.remove(*it); m.erase(it); COV("set:removed"); }
			if (m.empty()) COV("set:empty"); else COV("set:filled"); std::vector<S> c; for (int x : m) c.push_back(i(x)); out["ints_z"] = seq(c, "#"); }
		{ std::set<S> m; for (u64 n = R.size(12); n; --n) { const S s = text(); v.texts_z.set(K(s)); m.insert(s); } std::vector<S> c; /* the order is the set's own */ for (auto it = v.texts_z.begin(); it != v.texts_z.end(); ++it) c.push_back(hex(S(**it, (*it).getLength()))); out["texts_z"] = seq(c, "#"); if (c.size() != m.size()) out["texts_z"] += "?"; }
		{ std::map<int, S> m; for (u64 n = R.size(30); n; --n) { const int k = integer(); const S s = text(); v.keyed_m[k] = K(s); m[k] = s; } while (m.size() && R.chance(1, 3)) { auto it = m.begin(); std::advance(it, R.below(m.size())); v.keyed_m.remove(it->first); m.erase(it); COV("map:removed"); }
			if (m.empty()) COV("map:empty"); else COV("map:filled"); out["keyed_m"] = pairs(m, [](int k) { return i(k); }, hex); out["ref_map"] = out["keyed_m"]; }
		{ std::map<S, int> m; for (u64 n = R.size(9); n; --n) { const S s((size_t)R.below(9) + 1, (char)('a' + R.below(26))); const int x = integer(); v.named_m[K(s)] = x; m[s] = x; } out["named_m"] = pairs(m, hex, [](int k) { return i(k); }); }
		{ std::map<int, S> m; for (u64 n = R.size(6); n; --n) { const int k = integer(); Array<int32> a; m[k] = ints(a); v.lists_m[k] = move(a); } out["lists_m"] = pairs(m, [](int k) { return i(k); }, [](const S & s) { return s; }); }
		{ std::map<int, S> m; for (u64 n = R.size(6); n; --n) { const int k = integer(); std::map<int, int> in; Map<int32, int32> w; for (u64 q = R.size(5); q; --q) { const int a = integer(), b = integer(); w[a] = b; in[a] = b; } m[k] = pairs(in, [](int x) { return i(x); }, [](int x) { return i(x); }); v.maps_m[k] = move(w); } out["maps_m"] = pairs(m, [](int k) { return i(k); }, [](const S & s) { return s; }); }
		{ std::vector<S> m, l; for (u64 n = R.size(20); n; --n) { const int x = integer(); v.managed_a.insertLast(x); v.managed_l.pushBack(x); m.push_back(i(x)); } out["managed_a"] = out["managed_l"] = seq(m, "#"); }
		{ std::set<int, std::greater<int>> z; std::map<int, int, std::greater<int>> m; for (u64 n = R.size(20); n; --n) { const int x = integer(), y = integer(); v.down_z.set(x); z.insert(x); v.down_m[x] = y; m[x] = y; } std::vector<S> c; for (int x : z) c.push_back(i(x)); out["down_z"] = seq(c, "#"); out["down_m"] = pairs(m, [](int x) { return i(x); }, [](int x) { return i(x); }); }
		{ const int a = integer(); v.one_u = Tuple<int32>(a); out["one_u"] = seq({i(a)}, "#"); }
		{ const int a = integer(); const double b = real(); v.two_u = Tuple<int32, float64>(a, b); out["two_u"] = seq({i(a), f(b)}, "#"); }
		{ const S a = text(), d = text(); const int b = integer(); const double c = real(); v.four_u = Tuple<String, int32, float64, String>(K(a), b, c, K(d)); out["four_u"] = seq({hex(a), i(b), f(c), hex(d)}, "#"); }
		{ Array<int32> a; const S c = ints(a); const int x = integer(), y = integer(); v.nested_u = Tuple<Array<int32>, Tuple<int32, int32>>(move(a), Tuple<int32, int32>(x, y)); out["nested_u"] = seq({c, seq({i(x), i(y)}, "#")}, "#"); }
		{ const int x = integer(), y = integer(), z = integer(); v.same3_u = Tuple<int32, int32, int32>(x, y, z); out["same3_u"] = seq({i(x), i(y), i(z)}, "#"); }
		#define FV(name, n, get) { double c[4]; S t = #n ";"; for (int k = 0; k < n; ++k) { c[k] = (get); v.name[k] = c[k]; char b[40]; snprintf(b, 40, "%s%.17g", k ? " " : "", c[k]); t += b; } out[#name] = t; }
		FV(vec_f2, 2, real()) FV(vec_f3, 3, real()) FV(vec_f4, 4, real()) FV(vec_i2, 2, integer()) FV(vec_i3, 3, integer()) FV(vec_i4, 4, integer()) FV(vec_d2, 2, real()) FV(vec_d3, 3, real()) FV(vec_d4, 4, real())
		{ char b[128]; snprintf(b, 128, "3;%.17g %.17g %.17g", (double)v.vec_c3[0], (double)v.vec_c3[1], (double)v.vec_c3[2]); out["vec_c3"] = b; }
		v.as_ref = Vec3<float32>((float32)real(), (float32)real(), (float32)real());
		{ double q[4], l; do { l = 0; for (double & x : q) { x = R.unit() * 2 - 1; l += x * x; } l = sqrt(l); } while (l < 0.1); switch (R.below(4)) { case 0: q[0] = q[1] = q[2] = 0; q[3] = l = R.chance(1, 2) ? 1 : -1; l = 1; COV("quat:identity"); break; case 1: { const double e = pow(10, -(double)R.below(9)); for (int k = 0; k < 3; ++k) q[k] *= e; l = 0; for (double x : q) l += x * x; l = sqrt(l); if (l < 1e-6) { q[3] = 1; l = 1; } COV("quat:small"); break; } default: COV("quat:any"); }
			float32 p[4]; for (int k = 0; k < 4; ++k) p[k] = (float32)(q[k] / l); if (R.chance(1, 6)) { p[3] = nextafterf(1.f, 2.f); p[0] = p[1] = p[2] = 0; COV("quat:past-one"); }
			v.quat_q = Quat(p[0], p[1], p[2], p[3]); rotation("quat_q", p); float32 o[4] = {0, 0, 0, 1}; v.quat_id = Quat(0.f, 0.f, 0.f, 1.f); rotation("quat_id", o); const float32 s = (float32)(0.25 + 4 * R.unit()); v.quat_scaled = Quat(p[0] * s, p[1] * s, p[2] * s, p[3] * s); rotation("quat_scaled", p); }
		v.as_oi = integer(); v.same_oi = v.as_oi; { const S s = text(); v.as_os = K(s); v.same_os = v.as_os; }
		{ std::vector<int> m; ints(v.as_oa, m); v.same_oa = v.as_oa; v.as_oa = Array<int32>(v.as_oa); v.same_oa = v.as_oa; v.as_oa = *v.same_oa; }
		v.as_ov = Vec3<float32>((float32)real(), (float32)real(), (float32)real()); v.same_ov = v.as_ov; v.as_od = real(); v.same_od = v.as_od;
		for (u64 n = R.size(6); n; --n) { const int k = integer(); v.as_om[k] = integer(); } v.same_om = v.as_om;
		v.as_oo = integer(); v.same_oo = Optional<int32>(v.as_oo);
		if (R.chance(1, 2)) { v.same_ei = integer(); v.same_ei.reset(); v.same_es = K(text()); v.same_es.reset(); COV("optional:reset"); }
		v.as_ai = integer(); v.same_ai.store(v.as_ai); v.as_al = (i64)R.next(); v.same_al.store(v.as_al); v.as_au = R.next(); v.same_au.store(v.as_au);
	}
	void rotation(const char * name, const float32 * p) { char b[160]; snprintf(b, 160, "%.9g %.9g %.9g %.9g", p[0], p[1], p[2], p[3]); out[name] = b; }
	template<typename M, typename A, typename B> static S pairs(const M & m, A a, B b) { S r = std::to_string(m.size()) + ";#{"; bool first = true; for (auto & p : m) { r += (first ? "" : ",") + a(p.first) + "," + b(p.second); first = false; } return r + "}"; }
};

static const int STOPS = 24;
static void build(kv::Rng & R, int n, void (*stop)(const View &, const Shown &))
{
	// what empty values hide is not always zero
	static unsigned char place[sizeof(View) + 64] __attribute__((aligned(64)));
	for (int k = 0; k < n; ++k)
	{
		for (size_t b = 0; b < sizeof(place); ++b) place[b] = (unsigned char)R.next();
		Shown m; Fill F{R, m}; const S c = F.text(); const Vec3<float32> cv((float32)F.real(), (float32)F.real(), (float32)F.real());
		View * v = new (place) View(c, cv); m["text_c"] = Fill::hex(c); F.fill(*v);
		stop(*v, m); v->~View();
	}
}
static std::vector<Shown> wanted;

/// "3;5{" and "3;#{" alike: the second number, an array's capacity, is at least the first
static bool same(const S & got, const S & want, S & why)
{
	size_t g = 0, w = 0;
	while (w < want.size())
	{
		if (want[w] == '#')
		{
			size_t b = g; while (b && got[b - 1] != ';') --b; // start of the second number
			const size_t at = b; size_t c0 = at ? at - 1 : 0; while (c0 && isdigit((unsigned char)got[c0 - 1])) --c0;
			char * end; const double cap = strtod(got.c_str() + g, &end); const double n = strtod(got.c_str() + c0, 0);
			if (end == got.c_str() + g) { why = "no size shown"; return false; }
			if (cap < n) { why = "capacity below the number of items"; return false; }
			g = end - got.c_str(); ++w; continue;
		}
		if (g >= got.size() || got[g] != want[w]) return false;
		++g; ++w;
	}
	return g == got.size();
}
static void numbers(const S & s, std::vector<double> & v) { const char * p = s.c_str(); char * e; for (;;) { const double d = strtod(p, &e); if (e == p) return; v.push_back(d); p = e; } }

static void view(kv::Rng & R)
{
	if (getenv("KV_INFERIOR")) { build(R, STOPS, [](const View & v, const Shown &) { kvStop(v); }); _exit(0); }
	wanted.clear(); build(R, STOPS, [](const View &, const Shown & m) { wanted.push_back(m); });
	char out[640], exe[512], cmd[4096], types[512];
	const ssize_t k = readlink("/proc/self/exe", exe, sizeof(exe) - 1); exe[k < 0 ? 0 : k] = 0; snprintf(out, sizeof(out), "%s.view-%d-%llu", exe, (int)getpid(), (unsigned long long)kv::G.caseIdx); snprintf(types, sizeof(types), "%s/extras/gdb/types.py", KV_REPO_DIR);
	snprintf(cmd, sizeof(cmd), "LC_ALL=C.UTF-8 HOME=/nonexistent KV_INFERIOR=1 KV_LOAD=%s KV_VIEW_OUT='%s' KV_TYPES='%s' PYTHONDONTWRITEBYTECODE=1 timeout -k 5 120 gdb -q -nx -batch -iex 'set auto-load no' -iex 'set debuginfod enabled off' -x '%s/gdbview.py' --args '%s' --suite view --seed %llu --replay %llu > '%s.log' 2>&1 < /dev/null", kv::G.caseIdx % 4 == 3 ? "source" : "auto", out, types, KV_HARNESS_DIR, exe, (unsigned long long)kv::G.seed, (unsigned long long)kv::G.caseIdx, out);
	const int rc = system(cmd);
	FILE * f = fopen(out, "r"); int stop = -1; bool started = false, done = false; size_t fields = 0; char * line = 0; size_t cap = 0; std::map<S, S> texts; S failed;
	while (f && getline(&line, &cap, f) > 0)
	{
		S l = line; while (l.size() && l.back() == '\n') l.pop_back(); std::vector<S> w; size_t at = 0; for (;;) { const size_t t = l.find('\t', at); w.push_back(l.substr(at, t == S::npos ? t : t - at)); if (t == S::npos) break; at = t + 1; }
		if (w[0] == "started") started = true;
		else if (w[0] == "done") { done = true; EXPECT(w[1] == std::to_string(STOPS), "stops", "the inspected process stopped %s times instead of %d", w[1].c_str(), STOPS); }
		else if (w[0] == "failed") failed = w.size() > 1 ? w[1] : "?";
		else if (w[0] == "stop") { ++stop; fields = 0; texts.clear(); kv::T("stop %d", stop); }
		else if (w[0] == "whole") { EXPECT(w[1] == "fine", "error-shown", "printing the structure shows %s", w[1].c_str()); EXPECT(fields == wanted[stop].size(), "fields", "%zu of %zu fields shown", fields, wanted[stop].size()); COV("stops"); }
		else if (w[0] == "field")
		{
			const S name = w[1], got = w.size() > 2 ? w[2] : ""; kv::T("%s: %s", name.c_str(), got.substr(0, 300).c_str()); texts[name] = got;
			const S kind = name.substr(0, name.find('_'));
			if (kind == "as" || kind == "same")
			{
				const S id = name.substr(kind.size() + 1); const S other = (kind == "as" ? "same_" : "as_") + id; if (!texts.count(other)) continue;
				EXPECT(texts["same_" + id] == texts["as_" + id], "as-its-value", "%s is shown as %s, its value as %s", name.c_str(), texts["same_" + id].c_str(), texts["as_" + id].c_str()); COV("shown:as-its-value"); continue;
			}
			auto it = wanted[stop].find(name); EXPECT(it != wanted[stop].end(), "fields", "unexpected field %s", name.c_str());
			++fields; const S & want = it->second; S why;
			if (name.compare(0, 5, "quat_") == 0)
			{
				std::vector<double> g, q; numbers(got, g); numbers(want, q); EXPECT(g.size() == 4, "rotation", "%s is shown as %s", name.c_str(), got.c_str());
				const double c = cos(g[0] / 2), s = sin(g[0] / 2), e = fabs(c - q[3]) + fabs(g[1] * s - q[0]) + fabs(g[2] * s - q[1]) + fabs(g[3] * s - q[2]);
				EXPECT(e < 1e-4, "rotation", "%s, %s, is shown as angle and axis %s", name.c_str(), want.c_str(), got.c_str()); COV("shown:rotation");
			}
			else EXPECT(same(got, want, why), "content", "%s is shown as %s instead of %s %s", name.c_str(), got.substr(0, 600).c_str(), want.substr(0, 600).c_str(), why.c_str());
			COV("shown:value");
		}
	}
	free(line); if (f) fclose(f);
	char log[2000] = ""; { snprintf(cmd, sizeof(cmd), "%s.log", out); FILE * g = fopen(cmd, "r"); if (g) { const size_t n = fread(log, 1, sizeof(log) - 1, g); log[n] = 0; fclose(g); } unlink(cmd); unlink(out); }
	if (!started && failed.empty() && rc != 124 << 8) { fprintf(stderr, "%s", log); _exit(4); } // no debugger here, or it may not run a process: no answer
	if (!started) kv::T("%s", log);
	EXPECT(failed.empty(), "script", "%s: %s", failed.c_str(), log);
	EXPECT(started && done, "debugger", "the debugger ended early (%d): %s", rc, log);
	kv::nontrivial();
}
KV_MAIN({"view", view, false})
