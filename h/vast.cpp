// Sizes beyond 32 bits: pools, bins, arrays and bulk primitives over more than 4 GB of address space, of which only
// a few pages are ever touched.
#include "kv.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "containers/array.h"
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

static const uint64 GB = 1ull << 30;
/// Enough address space for this case?
static bool room(uint64 n) { void * p = mmap(0, n + n / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return false; munmap(p, n + n / 8); void * q = malloc(n); const bool ok = q != 0; free(q); if (!ok) COV("no-room"); return ok; }
/// First and last bytes of vast blocks
struct Ends
{
	struct B { ubyte * p; uint64 n; ubyte v; }; std::vector<B> live; ubyte next = 1;
	void add(void * q, uint64 n, uint64 al)
	{
		ubyte * p = (ubyte *)q; EXPECT(p != 0, "null", "a request for %llu bytes gives null", (unsigned long long)n); EXPECT((uintptr_t)p % al == 0, "align", "a block of %llu bytes is not aligned to %llu", (unsigned long long)n, (unsigned long long)al);
		for (auto & b : live) EXPECT(p + n <= b.p || b.p + b.n <= p, "overlap", "a block of %llu bytes at %p overlaps the one of %llu at %p", (unsigned long long)n, (void *)p, (unsigned long long)b.n, (void *)b.p);
		live.push_back({p, n, next}); mark(live.back()); ++next; check();
	}
	static void mark(B & b) { const uint64 at[] = {0, b.n / 3, b.n / 2, b.n - 1}; for (uint64 i : at) b.p[i] = b.v; }
	void check() { for (auto & b : live) { const uint64 at[] = {0, b.n / 3, b.n / 2, b.n - 1}; for (uint64 i : at) EXPECT(b.p[i] == b.v, "content", "byte %llu of a block of %llu changed", (unsigned long long)i, (unsigned long long)b.n); } }
	void * take(size_t i) { check(); void * p = live[i].p; live.erase(live.begin() + i); return p; }
};

static void pools(kv::Rng & R)
{
	const uint64 al = 8ull << R.below(5), size = 4 * GB / 3 * (2 + R.below(2)) + R.below(1 << 20); Ends E; char stackByte; if (!room(size * 4)) return;
	const uint32 num = 2 + (uint32)R.below(2);
	if (R.chance(1, 2))
	{
		kv::T("MemoryPool(%u, %llu, %llu)", num, (unsigned long long)size, (unsigned long long)al); COV("vast:memory-pool"); MemoryPool P(num, size, al);
		for (int round = 0; round < 3; ++round)
		{
			for (uint32 i = 0; i < num; ++i) { EXPECT(P.getNumFreeBlocks() == num - i && !P.isExhausted(), "free-count", "free count with %u in use", i); void * p = P.acquireBlock(); E.add(p, size, al); EXPECT(P.hasBlock(p) && P.hasBlock((char *)p + size / 2) && P.hasBlock((char *)p + size - 1), "ownership", "block %u of %u is not owned", i, num); }
			EXPECT(P.isExhausted() && P.acquireBlock() == 0 && !P.hasBlock(&stackByte), "exhausted", "an exhausted pool hands out a block");
			while (E.live.size()) P.releaseBlock(E.take(R.below(E.live.size())));
			EXPECT(P.getNumFreeBlocks() == num, "free-count", "free count");
		}
	}
	else
	{
		kv::T("MallocPool(%u, %llu, %llu)", num, (unsigned long long)size, (unsigned long long)al); COV("vast:malloc-pool"); MallocPool M(num, size, al);
		for (int round = 0; round < 3; ++round)
		{
			for (uint32 i = 0; i < num; ++i) E.add(M.alloc(i ? size : size - 5, 8), i ? size : size - 5, al);
			EXPECT(M.alloc(1, 1) == 0, "exhausted", "an exhausted allocator hands out a block"); EXPECT(M.realloc(E.live[0].p, size + 1, 1) == 0 && M.realloc(E.live[0].p, 4 * GB + 16, 1) == (4 * GB + 16 <= size ? E.live[0].p : 0), "unservable", "a reallocation beyond the block size is served");
			while (E.live.size()) M.free(E.take(R.below(E.live.size())));
		}
		EXPECT(M.alloc(size + 1, 1) == 0 && M.alloc(4 * GB * 3 + 8, 1) == 0, "unservable", "a request beyond the block size is served");
	}
	kv::nontrivial(); kv::state(size ^ al);
}
static void pooled(kv::Rng & R)
{
	const uint64 al = 8ull << R.below(5), size = R.chance(1, 2) ? 4 * GB + 8 + R.below(1 << 20) : 3 * GB + R.below(GB); const uint32 per = 1 + (uint32)R.below(2); Ends E; if (!room(size * per * 2)) return;
	kv::T("MallocPooled(%u, %llu, %llu, 1)", per, (unsigned long long)size, (unsigned long long)al); COV("vast:pooled"); MallocPooled M(per, size, al, (uint32)R.below(2));
	for (int round = 0; round < 2; ++round)
	{
		for (uint32 i = 0; i < per * 2; ++i) { void * p = M.alloc(size, al); E.add(p, size, al); for (auto & b : E.live) EXPECT(M.hasBlock(b.p) && M.hasBlock(b.p + size - 1), "ownership", "a live block is not owned"); EXPECT(M.getNumPools() == i / per + 1 + (round ? 1 - i / per : 0), "pool-count", "%u pools of %u for %u blocks", M.getNumPools(), per, i + 1); }
		EXPECT(M.alloc(size + 1, 1) == 0 && M.alloc(8 * GB + 8, 1) == 0, "unservable", "a request beyond the block size is served");
		while (E.live.size()) M.free(E.take(R.below(E.live.size())));
	}
	kv::nontrivial(); kv::state(size ^ al ^ per);
}
static void binned(kv::Rng & R)
{
	// Bins whose largest size, or the one after it, does not fit in 32 bits
	static const MallocBinned::BucketInfo all[] = {{1ull << 20, 8, 1ull << 30, 8}, {1ull << 16, 1ull << 16, 1ull << 32, 1ull << 8}, {1ull << 30, 1ull << 30, 1ull << 32, 2}, {4096, 5ull << 24, 5ull << 30, 64}, {1ull << 33, 3ull << 28, 3ull << 30, 4}, {64, 16, 1ull << 31, 16}};
	const auto info = all[R.below(6)]; Ends E; if (!room(3 * info.allocUnitMaxSize + 3 * info.poolSize)) return;
	kv::T("MallocBinned({pool %llu, unit %llu..%llu x%llu})", (unsigned long long)info.poolSize, (unsigned long long)info.allocUnitMinSize, (unsigned long long)info.allocUnitMaxSize, (unsigned long long)info.allocUnitIncrement); COV("vast:binned");
	MallocBinned M(info); const uint64 max = info.allocUnitMaxSize;
	for (int i = 0; i < 12; ++i)
	{
		uint64 s = info.allocUnitMinSize; const int k = (int)R.below(6); for (int j = 0; j < k && s < max; ++j) s *= info.allocUnitIncrement; if (R.chance(1, 3)) s += R.below(2) ? 1 : -1; if (s > max) s = max; if (R.chance(1, 6)) s = max;
		E.add(M.alloc(s), s, 8);
		if (E.live.size() > 2 || R.chance(1, 3)) M.free(E.take(R.below(E.live.size())));
		EXPECT(M.alloc(max + 1, 1) == 0, "unservable", "a request beyond the maximum is served");
	}
	while (E.live.size()) M.free(E.take(R.below(E.live.size())));
	kv::nontrivial(); kv::state(max);
}
/// Not initialised by its constructor
struct Raw { ubyte b; Raw() {} Raw(int v) : b((ubyte)v) {} };
struct Block { ubyte b[1 << 20]; Block() {} };
static void arrays(kv::Rng & R)
{
	const uint64 n = 4 * GB + R.below(GB / 2); if (!room(3 * n)) return;
	if (R.chance(1, 4))
	{
		const uint64 m = 4200 + R.below(1000); kv::T("Array<1 MB block>, %llu", (unsigned long long)m); COV("vast:array-blocks"); Array<Block> a(m + 8, m); EXPECT(a.getCount() == m && a.getBytes() == m << 20, "count", "%llu elements, %llu bytes", (unsigned long long)a.getCount(), (unsigned long long)a.getBytes());
		for (uint64 i = 0; i < m; i += 97) a[i].b[5] = (ubyte)(i / 97); for (uint64 i = 0; i < m; i += 97) EXPECT(a[i].b[5] == (ubyte)(i / 97), "content", "element %llu", (unsigned long long)i);
		uint64 k = 0; for (auto & x : a) { EXPECT(&x == *a + k, "iterator", "element %llu", (unsigned long long)k); ++k; } EXPECT(k == m, "iterator", "%llu elements visited", (unsigned long long)k); kv::nontrivial(); kv::state(m); return;
	}
	kv::T("Array<1 byte>(%llu)", (unsigned long long)n); COV("vast:array"); Array<Raw> a(n + 4096, n); std::vector<ubyte> tail(3000); const uint64 base = n - tail.size();
	for (size_t i = 0; i < tail.size(); ++i) a[base + i].b = tail[i] = (ubyte)R.next();
	auto same = [&](const char * what)
	{
		EXPECT(a.getCount() == base + tail.size() && a.getBytes() == base + tail.size(), "count", "%s: %llu elements instead of %llu", what, (unsigned long long)a.getCount(), (unsigned long long)(base + tail.size()));
		const Array<Raw> & c = a; for (size_t i = 0; i < tail.size(); ++i) EXPECT(c[base + i].b == tail[i] && (*a)[base + i].b == tail[i], "content", "%s: element %llu", what, (unsigned long long)(base + i));
	};
	same("construction");
	for (int i = 0; i < 60; ++i)
	{
		const size_t at = R.below(tail.size()); const ubyte v = (ubyte)R.next();
		switch (R.below(7))
		{
			case 0: kv::T("insertAt"); a.insertAt(base + at, Raw(v)); tail.insert(tail.begin() + at, v); break;
			case 1: { kv::T("removeAt"); const size_t k = 1 + R.below(tail.size() - at < 9 ? tail.size() - at : 9); a.removeAt(base + at, k); tail.erase(tail.begin() + at, tail.begin() + at + k); break; }
			case 2: kv::T("push"); a.add(Raw(v)); tail.push_back(v); break;
			case 3: { kv::T("popAt"); Raw r; a.popAt(base + at, r); EXPECT(r.b == tail[at], "content", "popped %d instead of %d", r.b, tail[at]); tail.erase(tail.begin() + at); break; }
			case 4: kv::T("call"); a(base + at).b = v; tail[at] = v; break;
			case 5: { kv::T("call past the end"); const size_t k = R.below(5); a(base + tail.size() + k, Raw(v)); tail.resize(tail.size() + k + 1); for (size_t j = tail.size() - k - 1; j + 1 < tail.size(); ++j) { a[base + j].b = 9; tail[j] = 9; } tail.back() = v; break; }
			default:
			{
				kv::T("iterators"); auto b = a.begin(), e = a.end(); const uint64 N = base + tail.size(); auto x = b + (base + at); EXPECT(x->b == tail[at] && (*x).b == tail[at] && b[base + at].b == tail[at], "iterator", "begin advanced by %llu", (unsigned long long)(base + at));
				auto y = e - (N - 1); EXPECT(&*y == *a + 1 && y > b && y < x && !(y >= x) && y != x, "iterator", "end moved back by %llu", (unsigned long long)(N - 1)); y += base; EXPECT(&*y == *a + base + 1, "iterator", "advanced by %llu", (unsigned long long)base); y -= base; EXPECT(&*y == *a + 1, "iterator", "moved back by %llu", (unsigned long long)base);
				EXPECT(&*(b + (N - 1)) == *a + (N - 1) && !(b + N != e), "iterator", "the end"); const Array<Raw> & c = a; auto z = c.begin(); z += base + at; EXPECT(z->b == tail[at], "iterator", "constant iterator");
			}
		}
		same("operation");
	}
	Array<Raw> b(move(a)); EXPECT(b.getCount() == base + tail.size() && b[base + 3].b == tail[3], "content", "move construction"); Array<Raw> c; c = move(b); EXPECT(c.getCount() == base + tail.size() && c[base + tail.size() - 1].b == tail.back(), "content", "move assignment");
	kv::nontrivial(); kv::state(n);
}
/// Address space of n bytes that repeats one megabyte, except for its end
struct Echo
{
	ubyte * p; uint64 n; static const uint64 MB = 1 << 20;
	explicit Echo(uint64 size) : n((size + MB - 1) / MB * MB + MB)
	{
		const int fd = memfd_create("echo", 0); if (fd < 0 || ftruncate(fd, 8 * MB)) { p = 0; return; } p = (ubyte *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == (ubyte *)MAP_FAILED) { p = 0; close(fd); return; }
		for (uint64 i = 0; i + 16 * MB < size; i += 8 * MB) if (mmap(p + i, 8 * MB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) kv::fail("harness", "mmap"); close(fd);
	}
	~Echo() { if (p) munmap(p, n); }
};
static uint64 built = 0, gone = 0;
struct Count { ubyte b; Count() : b(3) { ++built; } Count(const Count & o) : b(o.b) { ++built; } Count & operator=(const Count & o) { b = o.b; ++built; return *this; } ~Count() { ++gone; } };
static void primitives(kv::Rng & R)
{
	const uint64 n = 4 * GB + 5 + R.below(1 << 20); Echo d(n), s(n); if (!d.p || !s.p) { COV("no-room"); return; }
	auto text = [&](ubyte * p) { for (int i = 0; i < 4096; ++i) p[n - 1 - i] = (ubyte)(i * 7 + i / 256); }; const int k = (int)(kv::G.caseIdx % 7); kv::T("primitive %d over %llu", k, (unsigned long long)n); COV("vast:primitives");
	auto tail = [&](const ubyte * p, const char * what, int shift = 0) { for (int i = 0; i < 4096; ++i) EXPECT(p[n - 1 - i + shift] == (ubyte)(i * 7 + i / 256), "content", "%s of %llu: byte %llu", what, (unsigned long long)n, (unsigned long long)(n - 1 - i)); };
	switch (k)
	{
		case 0: text(s.p); EXPECT(Memory::memcpy(d.p, s.p, n) == d.p, "return", "memcpy"); tail(d.p, "memcpy"); EXPECT(d.p[n] == 0, "outside", "memcpy"); break;
		case 1: text(d.p); EXPECT(Memory::memmov(d.p + 16, d.p, n) == d.p + 16, "return", "memmov"); tail(d.p, "memmov", 16); break;
		case 2: { EXPECT(Memory::memcmp(d.p, s.p, n) == 0, "memcmp-sign", "memcmp of equal runs"); d.p[n - 1 - R.below(4)] = 1; EXPECT(Memory::memcmp(d.p, s.p, n) > 0 && Memory::memcmp(s.p, d.p, n) < 0, "memcmp-sign", "memcmp of runs that differ at their end"); break; }
		case 3: text(s.p); Memory::constructCopyElements((Raw *)d.p, (const Raw *)s.p, n); tail(d.p, "constructCopyElements"); break;
		case 4: text(s.p); Memory::copyElements((Raw *)d.p, (const Raw *)s.p, n); tail(d.p, "copyElements"); break;
		case 5: text(d.p); Memory::moveElements((Raw *)(d.p + 7), (Raw *)d.p, n); tail(d.p, "moveElements", 7); break;
		default:
		{
			built = gone = 0; Memory::constructDefaultElements((Count *)d.p, (Count *)d.p + n); EXPECT(built == n && d.p[n - 1] == 3, "construct-count", "%llu constructions", (unsigned long long)built);
			text(s.p); built = 0; Memory::constructCopyElements((Count *)d.p, (const Count *)s.p, n); EXPECT(built == n, "construct-count", "%llu constructions", (unsigned long long)built); tail(d.p, "constructCopyElements");
			memset(d.p + n - 4096, 0, 4096); built = 0; Memory::copyElements((Count *)d.p, (const Count *)s.p, n); EXPECT(built == n, "assign-count", "%llu assignments", (unsigned long long)built); tail(d.p, "copyElements");
			built = 0; Memory::moveElements((Count *)d.p + 1, (Count *)d.p, n); EXPECT(built == n, "assign-count", "%llu assignments", (unsigned long long)built); tail(d.p, "moveElements", 1);
			Memory::destroyElements((Count *)d.p, (Count *)d.p + n); EXPECT(gone == n, "destroy-count", "%llu destructions", (unsigned long long)gone);
		}
	}
	kv::nontrivial(); kv::state(n * 8 + k);
}
KV_MAIN({"vast-pools", pools, true}, {"vast-pooled", pooled, true}, {"vast-binned", binned, true}, {"vast-array", arrays, true}, {"vast-primitives", primitives, true})
