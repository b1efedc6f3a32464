// Map against a reference dictionary.
#include "elems.h"
#include <vector>
#include <map>
#include <algorithm>
#include "containers/map.h"

template<typename K, typename V, typename CmpT = ThreeWayCompare>
struct MapWork
{
	using EK = Elem<K>; using EV = Elem<V>; using MapT = Map<K, V, CmpT>; typedef std::map<int, int> Ref;
	static const int NA = 2; static constexpr bool desc = !__is_same(CmpT, ThreeWayCompare); static constexpr bool textKey = __is_same(K, String);
	kv::Rng & R; MapT * a[NA]; Ref m[NA]; int nextv, range, pattern, counter; bool big = false;
	explicit MapWork(kv::Rng & r) : R(r), nextv(1), counter(0) { for (auto & x : a) x = new MapT(); big = R.chance(1, 60); range = big ? 100000 : R.chance(1, 3) ? 8 : R.chance(1, 2) ? 50 : 100000; pattern = (int)R.below(5); }
	~MapWork() { for (auto & x : a) delete x; }
	int key() { const int c = counter++; return pattern == 0 ? c % range : pattern == 1 ? range - 1 - c % range : pattern == 2 ? (c % 2 ? c % range : range - 1 - c % range) : (int)R.below(range); }
	int val() { return R.chance(1, 4) ? (int)R.below(9) : nextv++; }
	int present(int k) { auto it = m[k].lower_bound((int)R.below(range)); if (it == m[k].end()) it = m[k].begin(); return it->first; }
	/// Keys in iteration order
	std::vector<int> seq(int k) const { std::vector<int> v; for (auto & e : m[k]) v.push_back(e.first); if (textKey) std::sort(v.begin(), v.end(), [](int x, int y) { return strcmp(*EK_(x), *EK_(y)) < 0; }); if (desc) std::reverse(v.begin(), v.end()); return v; }
	static String EK_(int v) { if constexpr (textKey) return EK::mk(v); else return String(); }

	void check(int k, const char * op)
	{
		MapT & x = *a[k]; const MapT & cx = x; const Ref & r = m[k]; const std::vector<int> s = seq(k); const size_t n = s.size();
		EXPECT(cx.getCount() == n && cx.getNumNodes() == n && cx.getSize() == n, "count", "%s: count is %llu, expected %llu", op, (unsigned long long)cx.getCount(), (unsigned long long)n);
		size_t i = 0; kv::u64 h = kv::mix(n);
		for (const auto & e : cx)
		{
			EXPECT(i < n, "iteration", "%s: iteration visits more than %llu pairs", op, (unsigned long long)n);
			const int kk = EK::val(e.first), vv = EV::val(e.second);
			EXPECT(kk == s[i] && &e.getKey() == &e.first && &e.getVal() == &e.second, "order", "%s: key %llu of the iteration is %d, expected %d", op, (unsigned long long)i, kk, s[i]);
			EXPECT(vv == r.at(kk), "value", "%s: value of key %d is %d, expected %d", op, kk, vv, r.at(kk)); h = kv::mix(h ^ (kv::u64)kk * 31 ^ (kv::u64)vv); ++i;
		}
		EXPECT(i == n, "iteration", "%s: iteration visits %llu of %llu pairs", op, (unsigned long long)i, (unsigned long long)n);
		i = 0; for (auto it = x.begin(); it != x.end(); it++) { EXPECT(EK::val(it->first) == s[i], "order", "%s: iteration order", op); ++i; }
		EXPECT(i == n, "iteration", "%s: mutable iteration visits %llu of %llu pairs", op, (unsigned long long)i, (unsigned long long)n);
		if (n)
		{
			auto b = x.find(EK::mk(s[n - 1])); EXPECT(b != x.end(), "lookup", "%s: the last key is not found", op); i = n;
			while (b != x.end()) { EXPECT(i > 0, "iteration", "%s: backward iteration visits too many pairs", op); --i; EXPECT(EK::val(b->first) == s[i] && EV::val((*b).second) == r.at(s[i]), "order", "%s: backward iteration differs at %llu", op, (unsigned long long)i); if (i & 1) --b; else b--; }
			EXPECT(i == 0, "iteration", "%s: backward iteration stops %llu pairs early", op, (unsigned long long)i);
		}
		kv::state(h);
		for (int q = 0; q < 4; ++q)
		{
			const int kk = n && q < 2 ? s[R.below(n)] : q == 2 ? (R.chance(1, 2) ? -1 : range) : (int)R.below(range);
			auto f = r.find(kk); const bool had = f != r.end(); const K key = EK::mk(kk);
			EXPECT(cx.has(key) == had && x.has(key) == had, "membership", "%s: has(%d) is %d", op, kk, cx.has(key));
			auto it = x.find(key); EXPECT((it != x.end()) == had, "lookup", "%s: find(%d) %s", op, kk, had ? "misses a present key" : "finds an absent key");
			if (had) EXPECT(EK::val(it->first) == kk && EV::val(it->second) == f->second, "lookup", "%s: find(%d) finds %d", op, kk, EK::val(it->first));
			EXPECT((cx.find(key) != cx.end()) == had, "lookup", "%s: const find(%d)", op, kk);
			V out = EV::mk(-77); const bool ok = cx.find(key, out); EXPECT(ok == had && EV::val(out) == (had ? f->second : -77), "lookup", "%s: find(%d, out) returns %d and delivers %d", op, kk, ok, EV::val(out));
			size_t c = 0; for (auto b = x.begin(key), e = x.end(key); b != e; ++b) { EXPECT(b != x.end() && EK::val(b->first) == kk && c < 1, "range", "%s: range of key %d", op, kk); ++c; } EXPECT(c == (had ? 1 : 0), "range", "%s: range of key %d has %llu pairs", op, kk, (unsigned long long)c);
			c = 0; for (auto b = cx.begin(key), e = cx.end(key); b != e; ++b) ++c; EXPECT(c == (had ? 1 : 0), "range", "%s: const range of key %d has %llu pairs", op, kk, (unsigned long long)c);
			COV(had ? "lookup-hit" : "lookup-miss");
		}
	}
	void step()
	{
		const int k = (int)R.below(NA); MapT & x = *a[k]; Ref & r = m[k]; const size_t n = r.size();
		#define OP(name, ...) do { char b_[96]; snprintf(b_, sizeof(b_), __VA_ARGS__); kv::T("m%d.%s", k, b_); COV("op:" name); } while (0)
		switch (R.below(25))
		{
			case 0: case 1: case 2: { const int kk = key(), v = val(); const bool had = r.count(kk); OP("index-write", "[%d] = %d, %s", kk, v, had ? "present" : "absent"); COV(had ? "index:present" : "index:absent"); if (R.chance(1, 2)) { const K kx = EK::mk(kk); x[kx] = EV::mk(v); EXPECT(EK::val(kx) == kk, "argument-altered", "indexing altered the key argument"); } else x[EK::mk(kk)] = EV::mk(v); r[kk] = v; break; }
			case 3: case 4: { const int kk = key(); const bool had = r.count(kk); OP("index-read", "read [%d], %s", kk, had ? "present" : "absent"); const V & ref = x[EK::mk(kk)]; if (!had) { r[kk] = EV::dflt(); EXPECT(EV::val(ref) == EV::dflt(), "default", "indexing an absent key creates %d", EV::val(ref)); } EXPECT(EV::val(ref) == r[kk], "value", "indexing key %d gives %d, expected %d", kk, EV::val(ref), r[kk]); break; }
			case 5: case 6: case 7: { const int kk = key(), v = val(); const bool had = r.count(kk); OP("insert", "insert(%d, %d), %s", kk, v, had ? "present" : "absent"); COV(had ? "insert:present" : "insert:absent"); V & ref = R.chance(1, 2) ? x.insert(EK::mk(kk), EV::mk(v)) : ({ const K kx = EK::mk(kk); V vx = EV::mk(v); V & q = x.insert(kx, vx); EXPECT(EK::val(kx) == kk && EV::val(vx) == v, "argument-altered", "insert altered its arguments"); &q; })[0]; r[kk] = v; EXPECT(EV::val(ref) == v, "returned-ref", "insert returns a reference to %d, expected %d", EV::val(ref), v); const int w = val(); ref = EV::mk(w); r[kk] = w; break; }
			case 8: case 9: { const int kk = n && R.chance(3, 4) ? present(k) : key(); const bool had = r.count(kk); OP("remove-key", "remove(%d), %s", kk, had ? "present" : "absent"); const bool ok = x.remove(EK::mk(kk)); EXPECT(ok == had, "remove-result", "remove returns %d for a key %s", ok, had ? "present" : "absent"); r.erase(kk); break; }
			case 10: if (n) { const int kk = present(k); OP("remove-own-key", "remove(own key %d)", kk); auto it = x.find(EK::mk(kk)); const bool ok = x.remove(it->first); EXPECT(ok, "remove-result", "remove of an own key returns false"); r.erase(kk); } break;
			case 11: case 12: if (n && R.chance(1, 16)) { OP("remove-end", "remove(end)"); EXPECT(x.remove(x.end()) == x.end(), "next-position", "remove(end) returns a position"); } else if (n) { const std::vector<int> s = seq(k); const size_t p = R.below(n); OP("remove-iterator", "remove(iterator %llu of %llu)", (unsigned long long)p, (unsigned long long)n); auto it = x.begin(); for (size_t i = 0; i < p; ++i) ++it; auto nx = x.remove(it); EXPECT((nx != x.end()) == (p + 1 < n), "next-position", "remove(iterator %llu of %llu) returns %s", (unsigned long long)p, (unsigned long long)n, nx != x.end() ? "a position" : "the end"); if (p + 1 < n) EXPECT(EK::val(nx->first) == s[p + 1], "next-position", "remove(iterator) returns key %d, expected %d", EK::val(nx->first), s[p + 1]); r.erase(s[p]); } break;
			case 13: case 14: { const int kk = n && R.chance(3, 4) ? present(k) : key(); const bool had = r.count(kk); OP("pop", "pop(%d), %s", kk, had ? "present" : "absent"); V out = EV::mk(-5); const bool ok = x.pop(EK::mk(kk), out); EXPECT(ok == had && EV::val(out) == (had ? r[kk] : -5), "pop-value", "pop(%d) returns %d and delivers %d", kk, ok, EV::val(out)); r.erase(kk); break; }
			case 15: if (n) { const int kk = present(k), k2 = key(), v = val(), w = val(); OP("held-reference", "reference to [%d] held while inserting %d", kk, k2); V & ref = x[EK::mk(kk)]; x.insert(EK::mk(k2), EV::mk(w)); r[k2] = w; EXPECT(EV::val(ref) == r[kk], "returned-ref", "a held reference shows %d, expected %d", EV::val(ref), r[kk]); ref = EV::mk(v); r[kk] = v; } break;
			case 16: if (n) { const int kk = present(k), v = val(); OP("iterator-write", "iterator at %d writes %d", kk, v); auto it = x.find(EK::mk(kk)); if (R.chance(1, 2)) it->second = EV::mk(v); else (*it).getVal() = EV::mk(v); r[kk] = v; } break;
			case 17: { const int j = (int)R.below(NA); OP("copy-assign", "= m%d (%llu <- %llu)", j, (unsigned long long)n, (unsigned long long)m[j].size()); x = *(const MapT *)a[j]; r = Ref(m[j]); check(j, "copy-assign source"); break; }
			case 18: { const int j = (int)R.below(NA); OP("copy-construct", "replaced by a copy of m%d", j); MapT * c = new MapT(*(const MapT *)a[j]); Ref cr = m[j]; delete a[k]; a[k] = c; m[k] = cr; break; }
			case 19: { const int j = (int)R.below(NA); if (R.chance(1, 2)) { OP("move-construct", "move-constructed from m%d", j); MapT * c = new MapT(::move(*a[j])); Ref cr = m[j]; m[j].clear(); check(j, "moved-from map"); delete a[k]; a[k] = c; m[k] = cr; } else { OP("move-assign", "= move(m%d)", j); x = ::move(*a[j]); if (j != k) { r = m[j]; m[j].clear(); check(j, "moved-from map"); } } break; }
			case 20: case 21: if (n)
			{
				const int kk = present(k), what = (int)R.below(7); int k2 = R.chance(1, 2) ? present(k) : key(); const bool had = r.count(k2);
				OP("own-pair", "own pair %d, form %d, with %d (%s)", kk, what, k2, had ? "present" : "absent"); auto it = x.find(EK::mk(kk)); const int v = r[kk];
				if (what == 0) { V & ref = x.insert(EK::mk(k2), it->second); r[k2] = v; EXPECT(EV::val(ref) == v, "returned-ref", "insert of an own value returns %d, expected %d", EV::val(ref), v); }
				else if (what == 1) { const int w = val(); V & ref = x.insert(it->first, EV::mk(w)); r[kk] = w; EXPECT(EV::val(ref) == w, "returned-ref", "insert under an own key returns %d, expected %d", EV::val(ref), w); }
				else if (what == 2) { V & src = x[EK::mk(kk)]; x[EK::mk(k2)] = src; r[k2] = v; }
				else if (what == 3) { V & ref = x[it->first]; EXPECT(&ref == &it->second, "value", "indexing with an own key refers to another value"); const int w = val(); ref = EV::mk(w); r[kk] = w; }
				else if (what == 4) { const bool ok = x.has(it->first) && x.find(it->first) == it; EXPECT(ok, "lookup", "own key %d is not found", kk); V out = EV::mk(-7); EXPECT(x.find(it->first, out) && EV::val(out) == v && EV::val(it->second) == v, "lookup", "find of an own key delivers %d", EV::val(out)); }
				else if (what == 5) { V out = EV::mk(-7); const bool ok = x.pop(it->first, out); EXPECT(ok && EV::val(out) == v, "pop-value", "pop of an own key returns %d and delivers %d, expected %d", ok, EV::val(out), v); r.erase(kk); }
				else { V & ref = x.insert(it->first, it->second); EXPECT(EV::val(ref) == v, "returned-ref", "insert of an own pair returns %d, expected %d", EV::val(ref), v); }
			} break;
			default: { const int c = 1 + (int)R.below(big ? 1500 : 25); OP("fill", "fill %d from pattern %d", c, pattern); for (int i = 0; i < c; ++i) { const int kk = key(), v = val(); kv::T(" %d:%d", kk, v); x[EK::mk(kk)] = EV::mk(v); r[kk] = v; } break; }
		}
		#undef OP
		if (n > 6) kv::nontrivial();
		if (n > 1000) COV("entries:large");
		if (n > (big ? 6000 : 300)) { delete a[k]; a[k] = new MapT(); r.clear(); }
		for (int j = 0; j < NA; ++j) if (j == k || R.chance(1, 8)) check(j, "after the last operation");
	}
	static void run(kv::Rng & R)
	{
		int steps = 8 + (int)R.below(kv::G.thorough ? 200 : 70);
		kv::T("map of %s to %s%s, %d steps", EK::name(), EV::name(), desc ? " descending" : "", steps);
		{ MapWork w(R); if (w.big && steps > 40) steps = 40; for (int i = 0; i < steps; ++i) w.step(); for (int j = 0; j < NA; ++j) w.check(j, "at the end"); }
		kv::expectNoLive("after the maps were destroyed");
	}
};
/// Descending, results of any magnitude
/// Descending; the magnitude of what it returns carries no meaning, and runs over the whole range of the result type
static int32 magnitude(int64 gap, int32 sign) { const int32 up[6] = {1, 76, 255, 65536, 0x20000000, 0x7fffffff}; const int32 m = up[gap % 6]; return sign > 0 ? m : m == 0x7fffffff ? -m - 1 : -m; }
struct DescInt { int32 operator()(int32 a, int32 b) const { return a < b ? magnitude((int64)b - a, 1) : a > b ? magnitude((int64)a - b, -1) : 0; } };

static void dict(kv::Rng & R)
{
	switch (R.below(6))
	{
		case 0: MapWork<int32, int32>::run(R); break;
		case 1: MapWork<int32, int32, DescInt>::run(R); break;
		case 2: MapWork<String, int32>::run(R); break;
		case 3: MapWork<int32, String, DescInt>::run(R); break;
		case 4: MapWork<kv::Tracked<>, kv::Tracked<1>>::run(R); break;
		default: MapWork<uint64, PodDef>::run(R); break;
	}
}
KV_MAIN({"dict", dict, true})
