// Bulk memory primitives, monitored element by element inside guarded buffers.
#include "elems.h"
#include "track_malloc.h"
#include <vector>
struct Big { uint64 a[5]; };
template<> struct Elem<Big> { static constexpr bool trivial = true; static const char * name() { return "Big"; } static Big mk(int v) { Big b; for (int i = 0; i < 5; ++i) b.a[i] = (uint64)v * (i + 1); return b; } static int val(const Big & b) { for (int i = 0; i < 5; ++i) if (b.a[i] != (uint64)(int)b.a[0] * (i + 1) && b.a[i] != b.a[0] * (i + 1)) return -999; return (int)b.a[0]; } static int dflt() { return 0; } };
template<> struct Elem<char> { static constexpr bool trivial = true; static const char * name() { return "char"; } static char mk(int v) { return (char)(v & 127); } static int val(char c) { return c; } static int dflt() { return 0; } };

template<typename T>
struct Work
{
	using E = Elem<T>;
	// Raw, exactly sized storage: [guard elements][run][guard elements]
	struct Buf
	{
		T * p; uint64 n;
		explicit Buf(uint64 c) : n(c) { p = (T *)::operator new(sizeof(T) * (c ? c : 1), std::align_val_t(16)); memset((void *)p, 0xa7, sizeof(T) * c); }
		~Buf() { ::operator delete(p, std::align_val_t(16)); }
	};
	static void snapshot(std::vector<unsigned char> & v, const T * p, uint64 n) { v.assign((const unsigned char *)p, (const unsigned char *)p + n * sizeof(T)); }
	static void same(const std::vector<unsigned char> & v, const T * p, const char * what) { EXPECT(v.empty() || !::memcmp(v.data(), p, v.size()), "outside", "%s touched memory outside the run (elements of %s)", what, E::name()); }

	static int norm(int v) { return E::val(E::mk(v)); }
	static void run(kv::Rng & R)
	{
		const bool huge = E::trivial && R.chance(1, 150); if (huge) COV("run:huge"); const uint64 n = huge ? 60000 + R.below(15000) : R.size(kv::G.thorough ? 4000 : 600), lo = R.below(4), hi = R.below(4), total = lo + n + hi;
		const int kind = (int)R.below(8);
		if (n > 1) kv::nontrivial();
		std::vector<unsigned char> g0, g1;
		switch (kind)
		{
			case 0:
			{
				kv::T("constructDefaultElements<%s> %llu, guards %llu %llu", E::name(), (unsigned long long)n, (unsigned long long)lo, (unsigned long long)hi); COV("constructDefault");
				Buf b(total); T * r = b.p + lo; snapshot(g0, b.p, lo); snapshot(g1, r + n, hi);
				const kv::u64 c0 = kv::L.constructed;
				Memory::constructDefaultElements(r, r + n);
				if constexpr (!E::trivial && !__is_same(T, CopyOnly) && !__is_same(T, String)) EXPECT(kv::L.constructed - c0 == n, "construct-count", "%llu constructions for %llu elements", (unsigned long long)(kv::L.constructed - c0), (unsigned long long)n);
				if constexpr (!__is_trivially_constructible(T)) { for (uint64 i = 0; i < n; ++i) { EXPECT(E::val(r[i]) == E::dflt(), "content", "element %llu of %llu not default constructed", (unsigned long long)i, (unsigned long long)n); } for (uint64 i = 0; i < n; ++i) r[i].~T(); }
				same(g0, b.p, "constructDefaultElements"); same(g1, r + n, "constructDefaultElements");
				break;
			}
			case 1: case 2:
			{
				kv::T("constructCopyElements<%s> %llu, guards %llu %llu", E::name(), (unsigned long long)n, (unsigned long long)lo, (unsigned long long)hi); COV("constructCopy");
				Buf s(n), b(total); T * r = b.p + lo; const int v0 = (int)R.below(1000);
				for (uint64 i = 0; i < n; ++i) new (s.p + i) T(E::mk(v0 + (int)i));
				snapshot(g0, b.p, lo); snapshot(g1, r + n, hi);
				Memory::constructCopyElements(r, (const T *)s.p, n);
				for (uint64 i = 0; i < n; ++i) { EXPECT(E::val(r[i]) == norm(v0 + (int)i), "content", "copied element %llu of %llu is %d", (unsigned long long)i, (unsigned long long)n, E::val(r[i])); EXPECT(E::val(s.p[i]) == norm(v0 + (int)i), "source-altered", "source element %llu altered", (unsigned long long)i); }
				same(g0, b.p, "constructCopyElements"); same(g1, r + n, "constructCopyElements");
				Memory::destroyElements(r, r + n); for (uint64 i = 0; i < n; ++i) s.p[i].~T();
				break;
			}
			case 3: case 4:
			{
				kv::T("copyElements<%s> %llu, guards %llu %llu", E::name(), (unsigned long long)n, (unsigned long long)lo, (unsigned long long)hi); COV("copy");
				Buf s(n), b(total); T * r = b.p + lo; const int v0 = (int)R.below(1000);
				for (uint64 i = 0; i < n; ++i) new (s.p + i) T(E::mk(v0 + (int)i));
				for (uint64 i = 0; i < total; ++i) new (b.p + i) T(E::mk(5000 + (int)i));
				const kv::u64 c0 = kv::L.constructed, a0 = kv::L.assigns;
				Memory::copyElements(r, (const T *)s.p, n);
				EXPECT(kv::L.constructed == c0, "construct-count", "copyElements constructs elements");
				if (kv::L.live) EXPECT(kv::L.assigns - a0 == n, "assign-count", "copyElements assigned %llu of %llu elements", (unsigned long long)(kv::L.assigns - a0), (unsigned long long)n);
				for (uint64 i = 0; i < total; ++i) { const int e = i >= lo && i < lo + n ? norm(v0 + (int)(i - lo)) : norm(5000 + (int)i); EXPECT(E::val(b.p[i]) == e, i >= lo && i < lo + n ? "content" : "outside", "after copyElements of %llu at %llu, element %llu is %d, expected %d", (unsigned long long)n, (unsigned long long)lo, (unsigned long long)i, E::val(b.p[i]), e); }
				for (uint64 i = 0; i < n; ++i) { EXPECT(E::val(s.p[i]) == norm(v0 + (int)i), "source-altered", "source element altered"); s.p[i].~T(); }
				for (uint64 i = 0; i < total; ++i) b.p[i].~T();
				break;
			}
			case 5: case 6:
			{
				// Overlapping or not, in either direction
				if (R.chance(1, 12))
				{
					// Elements that are trivial to copy but keep something of their own when assigned
					struct Keeps { int id, v; Keeps(int i, int x) : id(i), v(x) {} Keeps(const Keeps &) = default; Keeps & operator=(const Keeps & o) { v = o.v; return *this; } }; COV("assign:keeps");
					const int c = n < 40 ? (int)n : 40, room = c + (int)R.below(20), s = (int)R.below(room - c + 1), d = (int)R.below(room - c + 1); kv::T("Keeps %d from %d to %d", c, s, d); std::vector<Keeps> x, y; for (int i = 0; i < room; ++i) { x.emplace_back(i, 100 + i); y.emplace_back(1000 + i, 5000 + i); }
					Memory::copyElements(x.data() + d, (const Keeps *)y.data() + s, (uint64)c); for (int i = 0; i < room; ++i) EXPECT(x[i].id == i && x[i].v == (i >= d && i < d + c ? 5000 + i - d + s : 100 + i), "assigned", "copyElements of %d: element %d is %d of %d", c, i, x[i].v, x[i].id);
					Memory::moveElements(y.data() + d, y.data() + s, (uint64)c); for (int i = 0; i < room; ++i) EXPECT(y[i].id == 1000 + i && (y[i].v == 5000 + i - d + s || i < d || i >= d + c), "assigned", "moveElements of %d: element %d is %d of %d", c, i, y[i].v, y[i].id);
					break;
				}
				if (R.chance(1, 20))
				{
					// Elements that assignment from themselves would leave empty
					struct Frail { int v; int * cell; Frail(int x) : v(x), cell(new int(x)) {} Frail(Frail && o) : v(o.v), cell(o.cell) { o.cell = 0; } Frail & operator=(Frail && o) { delete cell; cell = 0; v = o.v; int * c = o.cell; o.cell = 0; cell = c; return *this; } ~Frail() { delete cell; } };
					COV("move-same:frail"); const uint64 c = n < 40 ? n : 40; kv::T("moveElements %llu onto themselves", (unsigned long long)c); Frail * f = (Frail *)malloc(c * sizeof(Frail) + 1); for (uint64 i = 0; i < c; ++i) new (f + i) Frail((int)i + 7); Memory::moveElements(f, f, c);
					for (uint64 i = 0; i < c; ++i) { EXPECT(f[i].cell && *f[i].cell == (int)i + 7, "content", "element %llu lost its content when a run was moved onto itself", (unsigned long long)i); f[i].~Frail(); } free(f); break;
				}
				const uint64 room = n + R.size(n + 3); Buf b(room + lo + hi); const uint64 s = lo + R.below(room - n + 1), d = lo + R.below(room - n + 1);
				kv::T("moveElements<%s> %llu from %llu to %llu of %llu", E::name(), (unsigned long long)n, (unsigned long long)s, (unsigned long long)d, (unsigned long long)b.n);
				if (d < s) COV("move-down"); else if (d > s) COV("move-up"); else COV("move-same");
				for (uint64 i = 0; i < b.n; ++i) new (b.p + i) T(E::mk(i));
				const kv::u64 c0 = kv::L.constructed, a0 = kv::L.assigns, k0 = kv::L.copies + kv::L.copyAssigns;
				Memory::moveElements(b.p + d, b.p + s, n);
				EXPECT(kv::L.copies + kv::L.copyAssigns == k0, "copies", "moveElements copies elements");
				EXPECT(kv::L.constructed == c0, "construct-count", "moveElements constructs elements");
				if (d != s && kv::L.live) EXPECT(kv::L.assigns - a0 == n, "assign-count", "moveElements assigned %llu of %llu elements", (unsigned long long)(kv::L.assigns - a0), (unsigned long long)n);
				for (uint64 i = 0; i < b.n; ++i)
				{
					const bool in = i >= d && i < d + n, left = !in && i >= s && i < s + n;
					if (left && !E::trivial) continue; // moved-from
					EXPECT(E::val(b.p[i]) == norm(in ? (int)(i - d + s) : (int)i), in ? "content" : "outside", "after moving %llu from %llu to %llu, element %llu is %d", (unsigned long long)n, (unsigned long long)s, (unsigned long long)d, (unsigned long long)i, E::val(b.p[i]));
				}
				for (uint64 i = 0; i < b.n; ++i) b.p[i].~T();
				break;
			}
			default:
			{
				kv::T("destroyElements<%s> %llu, guards %llu %llu", E::name(), (unsigned long long)n, (unsigned long long)lo, (unsigned long long)hi); COV("destroy");
				Buf b(total); for (uint64 i = 0; i < total; ++i) new (b.p + i) T(E::mk(i));
				const kv::u64 d0 = kv::L.destroyed;
				Memory::destroyElements(b.p + lo, b.p + lo + n);
				if (kv::L.live || kv::L.destroyed != d0) EXPECT(kv::L.destroyed - d0 == n, "destroy-count", "destroyed %llu of %llu", (unsigned long long)(kv::L.destroyed - d0), (unsigned long long)n);
				for (uint64 i = 0; i < lo; ++i) { EXPECT(E::val(b.p[i]) == norm(i), "outside", "element before the run touched"); b.p[i].~T(); }
				for (uint64 i = lo + n; i < total; ++i) { EXPECT(E::val(b.p[i]) == norm(i), "outside", "element after the run touched"); b.p[i].~T(); }
				break;
			}
		}
		kv::expectNoLive("after the operation");
	}
};

static void elements(kv::Rng & R)
{
	switch (R.below(9))
	{
		case 0: Work<int32>::run(R); break;
		case 1: Work<char>::run(R); break;
		case 2: Work<PodDef>::run(R); break;
		case 3: Work<Pod3>::run(R); break;
		case 4: Work<CopyOnly>::run(R); break;
		case 5: Work<String>::run(R); break;
		case 6: Work<Big>::run(R); break;
		default: Work<kv::Tracked<>>::run(R); break;
	}
}

static void bytes(kv::Rng & R)
{
	const bool huge = R.chance(1, 150); if (huge) COV("bytes:huge"); const uint64 n = huge ? 60000 + R.below(150000) : R.size(kv::G.thorough ? 20000 : 1500); if (n > 1) kv::nontrivial();
	switch (R.below(3))
	{
		case 0:
		{
			kv::T("memcpy %llu", (unsigned long long)n); COV("memcpy");
			std::vector<unsigned char> s(n), d(n + 8, 0x5a); for (auto & c : s) c = (unsigned char)R.next(); auto s0 = s;
			unsigned char * x = (unsigned char *)malloc(n); void * r = Memory::memcpy(x, s.data(), n);
			EXPECT(r == x, "return", "memcpy returns another address"); EXPECT(!n || !::memcmp(x, s0.data(), n), "content", "memcpy of %llu bytes differs", (unsigned long long)n); EXPECT(s == s0, "source-altered", "memcpy altered the source"); free(x);
			const uint64 off = R.below(8); Memory::memcpy(d.data() + off, s.data(), n); for (uint64 i = 0; i < d.size(); ++i) EXPECT(d[i] == (i >= off && i < off + n ? s0[i - off] : 0x5a), "outside", "memcpy of %llu bytes: byte %llu", (unsigned long long)n, (unsigned long long)i);
			break;
		}
		case 1:
		{
			const uint64 room = n + R.size(n + 5), s = R.below(room - n + 1), d = R.below(room - n + 1);
			kv::T("memmov %llu from %llu to %llu", (unsigned long long)n, (unsigned long long)s, (unsigned long long)d); COV("memmov");
			std::vector<unsigned char> b(room), m; for (auto & c : b) c = (unsigned char)R.next(); m = b;
			for (uint64 i = 0; i < n; ++i) m[d + i] = b[s + i];
			void * r = Memory::memmov(b.data() + d, b.data() + s, n); EXPECT(r == b.data() + d, "return", "memmov returns another address");
			EXPECT(b == m, "content", "memmov of %llu from %llu to %llu gives a wrong result", (unsigned long long)n, (unsigned long long)s, (unsigned long long)d);
			break;
		}
		default:
		{
			COV("memcmp"); unsigned char * a = (unsigned char *)malloc(n), * b = (unsigned char *)malloc(n);
			const uint64 at = R.below(n + 1); for (uint64 i = 0; i < n; ++i) { a[i] = (unsigned char)R.next(); b[i] = i < at ? a[i] : (unsigned char)R.next(); }
			if (n && R.chance(1, 3)) memcpy(b, a, n);
			int e = 0; for (uint64 i = 0; i < n && !e; ++i) e = (a[i] > b[i]) - (a[i] < b[i]);
			kv::T("memcmp %llu bytes, expected sign %d", (unsigned long long)n, e);
			const auto r = Memory::memcmp(a, b, n); const auto r2 = Memory::memcmp(b, a, n);
			EXPECT((r > 0) - (r < 0) == e && (r2 > 0) - (r2 < 0) == -e, "memcmp-sign", "memcmp gives %d and %d, expected sign %d", (int)r, (int)r2, e);
			free(a); free(b);
		}
	}
}
KV_MAIN({"elements", elements, true}, {"bytes", bytes, true})
