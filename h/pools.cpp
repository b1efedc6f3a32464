// Fixed pools, growing pools, binned allocator: every block handed out is
// recorded, filled with a pattern and watched until it is given back.
#include "blocks.h"
#include <algorithm>
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include <type_traits>
static size_t effAlign(size_t a) { return a < 8 ? 8 : a; }
static size_t upTo(size_t n, size_t a) { return (n + a - 1) / a * a; }

/// One phase decides the mix of requests and releases, so that the allocators fill up and drain
struct Phase
{
	kv::Rng & R; int kind; int left; explicit Phase(kv::Rng & r) : R(r), kind(0), left(0) {}
	bool grow() { if (left-- <= 0) { kind = (int)R.below(4); left = 5 + (int)R.below(60); } return kind == 0 ? true : kind == 1 ? R.chance(3, 4) : kind == 2 ? R.chance(1, 4) : R.chance(1, 2); }
};
/// Release order
static void * victim(kv::Rng & R, LiveBlocks & L, std::vector<void *> & order)
{
	void * p = 0; if (order.empty()) return 0;
	const int k = (int)R.below(3); size_t i = k == 0 ? 0 : k == 1 ? order.size() - 1 : R.below(order.size());
	p = order[i]; order.erase(order.begin() + i); return p;
}

/// Where copies are allowed at all, they neither hand out nor free the blocks of the original
template<typename P, typename F> static void copied(const P & pool, LiveBlocks & L, size_t size, kv::Rng & R, F get)
{
	if constexpr (std::is_copy_constructible<P>::value)
	{
		COV("copied"); P * c = new P(pool); for (int i = 0; i < 3; ++i) if (void * p = get(*c)) { L.add(p, size, 1, R); L.m.erase((uintptr_t)p); }
		L.verifyAll("after a copy handed out blocks"); delete c; L.verifyAll("after a copy was destroyed");
	}
}

static void memory_pool(kv::Rng & R)
{
	const uint32 num = R.chance(1, 30) ? 0 : 1 + (uint32)R.size(R.chance(1, 10) ? 700 : 60); const size_t size = 1 + R.size(300), al = 1ull << R.below(9); const size_t ea = effAlign(al);
	// Strictly enough for the blocks and their links
	const size_t unit = upTo(size + 8, ea), total = unit * num; const bool ext = num && R.chance(1, 3);
	kv::T("MemoryPool(%u, %zu, %zu%s)", num, size, al, ext ? ", external buffer" : "");
	unsigned char * buf = 0; if (ext) { void * q = 0; if (posix_memalign(&q, ea, total)) return; buf = (unsigned char *)q; memset(buf, 0xee, total); }
	{
		const bool dfl = R.chance(1, 20) && !ext; MemoryPool * P = dfl ? new MemoryPool(num, size) : new MemoryPool(num, size, al, buf); const size_t want = dfl ? 8 : ea;
		LiveBlocks L; std::vector<void *> order; Phase ph(R); kv::u64 exhausted = 0;
		uintptr_t lo = ~0ull, hi = 0;
		const int steps = 20 + (int)R.below(num * 4 + 100);
		char stackByte; void * heapByte = malloc(16);
		EXPECT(P->getNumFreeBlocks() == num && P->isExhausted() == (num == 0), "free-count", "a fresh pool of %u blocks reports %u free", num, P->getNumFreeBlocks());
		for (int i = 0; i < steps; ++i)
		{
			if (ph.grow())
			{
				void * p = P->acquireBlock();
				if (L.m.size() == num) { EXPECT(p == 0, "exhausted", "an exhausted pool hands out a block"); ++exhausted; COV("exhausted"); }
				else
				{
					L.add(p, size, want, R); order.push_back(p); COV("acquire"); kv::T("acquire");
					if (ext) EXPECT(p >= buf && (unsigned char *)p + size <= buf + total, "outside", "block outside the supplied buffer");
					if ((uintptr_t)p < lo) lo = (uintptr_t)p; if ((uintptr_t)p + size > hi) hi = (uintptr_t)p + size;
					EXPECT(P->hasBlock(p) && P->hasBlock((char *)p + size - 1), "ownership", "the pool does not own the block it handed out");
				}
			}
			else if (void * p = victim(R, L, order)) { kv::T("release, %zu live", L.m.size()); L.remove(p); P->releaseBlock(p); COV("release"); if (L.m.size() + 1 == num) COV("release-when-exhausted"); }
			EXPECT(P->getNumFreeBlocks() == num - L.m.size(), "free-count", "%llu live of %u blocks, but %u reported free", (unsigned long long)L.m.size(), num, P->getNumFreeBlocks());
			EXPECT(P->isExhausted() == (L.m.size() == num), "exhausted", "isExhausted is %d with %llu of %u blocks in use", (int)P->isExhausted(), (unsigned long long)L.m.size(), num);
			if (R.chance(1, 16)) { EXPECT(!P->hasBlock(&stackByte) && !P->hasBlock(heapByte), "ownership", "the pool claims a foreign address"); if (ext) EXPECT(!P->hasBlock(buf - 1) && !P->hasBlock(buf + total) && P->hasBlock(buf), "ownership", "ownership at the ends of the buffer"); L.verifyAll("spot check"); }
			kv::state(kv::mix(num * 1000 + L.m.size()) ^ size * 77 ^ al);
		}
		EXPECT(num == 0 || hi - lo <= total || hi == 0, "outside", "blocks spread over more than the pool");
		if (exhausted && num > 1) kv::nontrivial();
		if (R.chance(1, 8)) copied(*P, L, size, R, [](MemoryPool & c) { return c.acquireBlock(); });
		L.verifyAll("at the end");
		free(heapByte); delete P;
	}
	if (ext) free(buf);
}

template<typename P>
static void poolAllocator(kv::Rng & R, P & M, const uint32 num, const size_t size, const size_t al)
{
	const size_t ea = effAlign(al);
	LiveBlocks L; std::vector<void *> order; Phase ph(R); char stackByte;
	const int steps = 20 + (int)R.below(num * 4 + 60);
	for (int i = 0; i < steps; ++i)
	{
		if (R.chance(1, 12)) { const size_t s = size + 1 + R.below(100); COV("too-large"); EXPECT(M.alloc(s, 1) == 0, "unservable", "a request of %zu bytes is served by blocks of %zu", s, size); }
		if (R.chance(1, 12)) { const size_t a = ea << (1 + R.below(3)); COV("too-aligned"); EXPECT(M.alloc(size, a) == 0, "unservable", "a request of alignment %zu is served by blocks of alignment %zu", a, al); }
		if (R.chance(1, 12)) { COV("foreign-free"); M.free(&stackByte); M.free(0); }
		if (R.chance(1, 6)) if (void * p = L.pick(R))
		{
			const LiveBlocks::B b = L.m[(uintptr_t)p];
			if (R.chance(1, 3)) { const bool wide = R.chance(1, 2); if (wide) COV("realloc-too-large"); else COV("realloc-too-aligned"); void * q = wide ? M.realloc(p, size + 1 + R.below(50), 1) : M.realloc(p, 1 + R.below(size), ea << (1 + R.below(3))); EXPECT(q == 0, "unservable", "an unservable reallocation gives %p", q); L.verify((uintptr_t)p, b, "after a failed reallocation"); }
			else { COV("realloc"); const size_t s = 1 + R.below(size); void * q = M.realloc(p, s, 1ull << R.below(__builtin_ctzll(al) + 1)); EXPECT(q != 0, "null", "reallocation within the block size gives null"); L.verify((uintptr_t)q, LiveBlocks::B{b.size < s ? b.size : s, b.pat}, "after reallocation"); L.m.erase((uintptr_t)p); for (auto & x : order) if (x == p) x = q; L.add(q, s, al, R); }
		}
		if (ph.grow())
		{
			const size_t s = R.chance(1, 3) ? size : 1 + R.below(size); const size_t a = 1ull << R.below(__builtin_ctzll(al) + 1);
			const bool dflt = al >= 8 && R.chance(1, 4); void * p = dflt ? M.alloc(s) : M.alloc(s, a);
			if (L.m.size() == num) { EXPECT(p == 0, "exhausted", "an exhausted allocator hands out a block"); COV("exhausted"); if (num > 1) kv::nontrivial(); }
			else { L.add(p, s, al, R); order.push_back(p); COV("alloc"); kv::T("alloc(%zu, %zu)", s, a); }
		}
		else if (void * p = victim(R, L, order)) { kv::T("free, %zu live", L.m.size()); L.remove(p); M.free(p); COV("free"); }
		if (R.chance(1, 16)) L.verifyAll("spot check");
		kv::state(kv::mix(num * 1000 + L.m.size()) ^ size * 77 ^ al);
	}
	if (R.chance(1, 8)) copied(M, L, size, R, [size](P & c) { return c.alloc(size, 1); });
	L.verifyAll("at the end");
}
static void malloc_pool(kv::Rng & R)
{
	if (R.chance(1, 8)) { kv::T("MallocPoolInline<7, 24, 32>"); MallocPoolInline<7, 24, 32> M; poolAllocator(R, M, 7, 24, 32); return; }
	if (R.chance(1, 8)) { kv::T("MallocPoolInline<3, 5>"); MallocPoolInline<3, 5> M; poolAllocator(R, M, 3, 5, 8); return; }
	const uint32 num = 1 + (uint32)R.size(60); const size_t size = 1 + R.size(300), al = 1ull << R.below(9);
	kv::T("MallocPool(%u, %zu, %zu)", num, size, al);
	MallocPool M(num, size, al); poolAllocator(R, M, num, size, al);
}

static void pooled(kv::Rng & R)
{
	const bool dflt = R.chance(1, 60);
	const uint32 num = dflt ? 1024 : 1 + (uint32)R.size(40), init = dflt ? 1 : (uint32)R.below(5); const size_t size = dflt ? 512 : 1 + R.size(200), al = dflt ? 16 : 1ull << R.below(9), ea = effAlign(al);
	kv::T("MallocPooled(%u, %zu, %zu, %u)", num, size, al, init);
	MallocPooled * MP = dflt ? new MallocPooled() : R.chance(1, 20) && al == 8 ? new MallocPooled(num, size) : new MallocPooled(num, size, al, init); MallocPooled & M = *MP;
	LiveBlocks L; std::vector<void *> order; Phase ph(R); char stackByte; void * heapByte = malloc(40);
	const int steps = 20 + (int)R.below(num * 6 + 200); kv::u64 grown = 0, reused = 0; kv::u64 peak = 0;
	for (int i = 0; i < steps; ++i)
	{
		if (R.chance(1, 20)) { COV("pooled:too-large"); EXPECT(M.alloc(size + 1 + R.below(100), 1) == 0, "unservable", "a request above the block size is served"); EXPECT(M.alloc(size, ea << (1 + R.below(3))) == 0, "unservable", "a request above the block alignment is served"); }
		if (R.chance(1, 10)) if (void * p = L.pick(R))
		{
			const LiveBlocks::B b = L.m[(uintptr_t)p];
			if (R.chance(1, 3)) { const bool wide = R.chance(1, 2); if (wide) COV("pooled:realloc-too-large"); else COV("pooled:realloc-too-aligned"); void * q = wide ? M.realloc(p, size + 1 + R.below(50), 1) : M.realloc(p, 1 + R.below(size), ea << (1 + R.below(3))); EXPECT(q == 0, "unservable", "an unservable reallocation gives %p", q); L.verify((uintptr_t)p, b, "after a failed reallocation"); }
			else { COV("pooled:realloc"); const size_t s = 1 + R.below(size); void * q = M.realloc(p, s, 1); EXPECT(q != 0, "null", "reallocation within the block size gives null"); L.verify((uintptr_t)q, LiveBlocks::B{b.size < s ? b.size : s, b.pat}, "after reallocation"); L.m.erase((uintptr_t)p); for (auto & x : order) if (x == p) x = q; L.add(q, s, al, R); }
		}
		if (ph.grow())
		{
			const size_t s = R.chance(1, 3) ? size : 1 + R.below(size); const size_t a = 1ull << R.below(__builtin_ctzll(al) + 1);
			const uint32 before = M.getNumPools(); const bool full = L.m.size() >= (kv::u64)before * num;
			void * p = al >= 8 && R.chance(1, 4) ? M.alloc(s) : M.alloc(s, a);
			L.add(p, s, al, R); order.push_back(p); COV("pooled:alloc"); kv::T("alloc(%zu, %zu)", s, a);
			const uint32 after = M.getNumPools();
			if (full) { EXPECT(after == before + 1, "pool-count", "all %u pools were in use and %u exist after a further request", before, after); ++grown; COV("pooled:grow"); }
			else { EXPECT(after == before, "grows-early", "a pool was created although only %llu of %llu blocks were in use", (unsigned long long)L.m.size() - 1, (unsigned long long)before * num); if (L.m.size() < peak) { ++reused; COV("pooled:reuse"); } }
			if (L.m.size() > peak) peak = L.m.size();
			EXPECT(M.hasBlock(p) && M.hasBlock((char *)p + s - 1), "ownership", "the allocator does not own the block it handed out");
		}
		else if (void * p = victim(R, L, order)) { EXPECT(M.hasBlock(p), "ownership", "the allocator does not own a live block"); kv::T("free, %zu live", L.m.size()); L.remove(p); M.free(p); COV("pooled:free"); }
		if (R.chance(1, 20)) { L.verifyAll("spot check"); EXPECT(!M.hasBlock(&stackByte) && !M.hasBlock(heapByte), "ownership", "the allocator claims a foreign address"); for (auto & e : L.m) EXPECT(M.hasBlock((void *)e.first), "ownership", "the allocator does not own a live block"); if (R.chance(1, 4)) M.free(&stackByte); }
		kv::state(kv::mix(num * 1000 + L.m.size()) ^ kv::mix(M.getNumPools() * 77 + size) ^ al);
	}
	if (grown && reused) kv::nontrivial();
	if (R.chance(1, 8)) copied(M, L, size, R, [size](MallocPooled & c) { return c.alloc(size, 1); });
	L.verifyAll("at the end");
	free(heapByte); delete MP;
}

static void binned(kv::Rng & R)
{
	MallocBinned::BucketInfo info{1ull << 16, 1ull << 3, 1ull << 18, 1ull << 3}; size_t al = 8; const bool dflt = R.chance(1, 10);
	if (!dflt)
	{
		info.allocUnitMinSize = R.chance(3, 4) ? 1ull << R.below(8) : 1 + R.below(100);
		info.allocUnitIncrement = R.chance(3, 4) ? 2ull << R.below(3) : 2 + R.below(9);
		info.allocUnitMaxSize = info.allocUnitMinSize; const int k = (int)R.below(6); for (int i = 0; i < k && info.allocUnitMaxSize < 20000; ++i) info.allocUnitMaxSize *= info.allocUnitIncrement;
		if (R.chance(1, 4)) info.allocUnitMaxSize += R.below(info.allocUnitMaxSize * (info.allocUnitIncrement - 1));
		info.poolSize = 1 + R.below(1 << 13); al = 1ull << R.below(8);
		if (R.chance(1, 40)) { COV("binned:large-units"); info.allocUnitMinSize = R.chance(1, 2) ? 1ull << (14 + R.below(5)) : 30000 + R.below(200000); info.allocUnitIncrement = 2 + R.below(2); info.allocUnitMaxSize = info.allocUnitMinSize * (R.chance(1, 2) ? info.allocUnitIncrement : 1); info.poolSize = 1 + R.below(1 << 18); }
	}
	kv::T("MallocBinned({pool %zu, unit %zu..%zu x%zu}, %zu)%s", info.poolSize, info.allocUnitMinSize, info.allocUnitMaxSize, info.allocUnitIncrement, al, dflt ? " (default)" : "");
	MallocBinned * MP = dflt ? new MallocBinned() : new MallocBinned(info, al); MallocBase & M = *MP;
	LiveBlocks L; std::vector<void *> order; Phase ph(R); char stackByte; const size_t ea = effAlign(al), max = info.allocUnitMaxSize;
	const int steps = 20 + (int)R.below(200); kv::u64 sizes = 0;
	auto pick = [&]() -> size_t
	{
		// Sizes at the edges of the buckets matter most
		size_t s; if (R.chance(1, 2)) { s = info.allocUnitMinSize; const int k = (int)R.below(7); for (int i = 0; i < k && s < max; ++i) s *= info.allocUnitIncrement; s += R.below(3); if (s) --s; } else s = R.chance(1, 4) ? 1 + R.below(max) : 1 + R.size(max > 600 ? 600 : max);
		if (!s) s = 1; return s > max ? max - (R.chance(1, 2) ? 0 : max > 1) : s;
	};
	for (int i = 0; i < steps; ++i)
	{
		if (R.chance(1, 16)) { const size_t s = max + 1 + R.size(max + 100); COV("binned:too-large"); EXPECT(M.alloc(s, 1) == 0, "unservable", "a request of %zu bytes above the maximum %zu is served", s, max); }
		if (R.chance(1, 16)) { COV("binned:too-aligned"); EXPECT(M.alloc(pick(), ea * 2) == 0, "unservable", "a request above the pool alignment is served"); }
		if (R.chance(1, 8)) if (void * p = L.pick(R))
		{
			const LiveBlocks::B b = L.m[(uintptr_t)p]; const size_t s = pick(); kv::T("realloc(%zu -> %zu)", b.size, s); if (s > b.size) COV("binned:realloc-grow"); else COV("binned:realloc-shrink");
			if (R.chance(1, 6)) { COV("binned:realloc-too-aligned"); void * q = M.realloc(p, s, ea << (1 + R.below(3))); EXPECT(q == 0, "unservable", "a reallocation above the pool alignment is served"); L.verify((uintptr_t)p, b, "after a failed reallocation"); }
			if (R.chance(1, 6)) { COV("binned:realloc-too-large"); size_t top = info.allocUnitMinSize; while (top < max) top *= info.allocUnitIncrement; void * q = M.realloc(p, top + ea + 8 + R.size(max + 100), 1); EXPECT(q == 0, "unservable", "a reallocation beyond the largest bucket is served"); L.verify((uintptr_t)p, b, "after a failed reallocation"); }
			void * q = M.realloc(p, s, 1); EXPECT(q != 0, "null", "reallocation from %zu to %zu bytes gives null", b.size, s);
			L.verify((uintptr_t)q, LiveBlocks::B{b.size < s ? b.size : s, b.pat}, "after reallocation"); L.m.erase((uintptr_t)p); for (auto & x : order) if (x == p) x = q; L.add(q, s, al, R);
		}
		if (ph.grow())
		{
			const size_t s = pick(); const size_t a = 1ull << R.below(__builtin_ctzll(al) + 1); kv::T("alloc(%zu, %zu)", s, a);
			void * p = al >= 8 && R.chance(1, 4) ? M.alloc(s) : M.alloc(s, a); L.add(p, s, al, R); order.push_back(p); COV("binned:alloc"); ++sizes;
		}
		else if (void * p = victim(R, L, order)) { kv::T("free(block of %zu)", L.m[(uintptr_t)p].size); L.remove(p); M.free(p); COV("binned:free"); }
		if (R.chance(1, 30) && (max <= 4096 || R.chance(1, 8)))
		{
			// Freed blocks are served again: cycling does not consume memory
			const size_t s = pick(); size_t mem = 0; kv::T("cycle of %zu", s); COV("binned:cycle");
			for (int k = 0; k < 40; ++k) { void * p = M.alloc(s, 1); EXPECT(p != 0, "null", "request for %zu bytes served null", s); memset(p, k, s); M.free(p); if (k == 0) mem = kv::liveBytes(); }
			EXPECT(kv::liveBytes() <= mem, "starvation", "allocating and freeing a block of %zu bytes repeatedly consumes memory", s);
			const int m = 2 + (int)R.below(20); void * bl[32];
			for (int k = 0; k < 6; ++k) { for (int j = 0; j < m; ++j) { bl[j] = M.alloc(s, 1); EXPECT(bl[j] != 0, "null", "request for %zu bytes served null", s); } for (int j = 0; j < m; ++j) M.free(bl[k & 1 ? j : m - 1 - j]); if (k == 0) mem = kv::liveBytes(); }
			EXPECT(kv::liveBytes() <= mem, "starvation", "allocating and freeing %d blocks of %zu bytes repeatedly consumes memory", m, s);
		}
		if (R.chance(1, 40)) M.free(&stackByte);
		if (R.chance(1, 20)) L.verifyAll("spot check");
	}
	if (sizes > 20) kv::nontrivial();
	if (R.chance(1, 8)) copied(*MP, L, 1, R, [](MallocBinned & c) { return c.alloc(1, 1); });
	L.verifyAll("at the end");
	delete MP;
}
/// Tens of thousands of blocks at once: filled, released in some order, filled again
template<typename AllocF, typename FreeF, typename OwnF> static void flood(kv::Rng & R, kv::u64 n, size_t size, size_t al, AllocF alloc, FreeF release, OwnF owns)
{
	LiveBlocks L; std::vector<void *> order;
	for (kv::u64 i = 0; i < n; ++i) { void * p = alloc(L.m.size()); L.add(p, size, al, R); order.push_back(p); }
	L.verifyAll("after filling"); COVN("flood:blocks", n);
	for (void * p : order) EXPECT(owns(p), "ownership", "a live block is not owned"); 
	const int how = (int)R.below(3); if (how == 0) std::reverse(order.begin(), order.end()); else if (how == 1) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[R.below(i)]);
	const kv::u64 out = R.chance(1, 3) ? n : R.below(n + 1); kv::T("release %llu, order %d", (unsigned long long)out, how);
	for (kv::u64 i = 0; i < out; ++i) { L.remove(order[i]); release(order[i], L.m.size()); }
	L.verifyAll("after releasing");
	for (kv::u64 i = 0; i < out; ++i) L.add(alloc(L.m.size()), size, al, R);
	L.verifyAll("after filling again"); kv::nontrivial(); kv::state(n * 64 + how);
}
static void flooded(kv::Rng & R)
{
	const uint32 n = R.chance(1, 2) ? 66000 + (uint32)R.below(4000) : 65535 + (uint32)R.below(3); const size_t size = 1 + R.below(24), al = 1ull << R.below(6);
	switch (R.below(4))
	{
		case 0:
		{
			kv::T("MemoryPool(%u, %zu, %zu)", n, size, al); COV("flood:memory-pool"); MemoryPool P(n, size, al); EXPECT(P.getNumFreeBlocks() == n, "free-count", "a fresh pool of %u blocks reports %u free", n, P.getNumFreeBlocks());
			flood(R, n, size, effAlign(al), [&](kv::u64 live) { EXPECT(P.getNumFreeBlocks() == n - live && !P.isExhausted(), "free-count", "%llu live of %u blocks, %u reported free", (unsigned long long)live, n, P.getNumFreeBlocks()); return P.acquireBlock(); },
				[&](void * p, kv::u64 live) { P.releaseBlock(p); EXPECT(P.getNumFreeBlocks() == n - live, "free-count", "%llu live of %u blocks, %u reported free", (unsigned long long)live, n, P.getNumFreeBlocks()); }, [&](void * p) { return P.hasBlock(p); });
			EXPECT(P.isExhausted() && P.acquireBlock() == 0 && P.getNumFreeBlocks() == 0, "exhausted", "a pool with all of %u blocks in use hands out another", n); break;
		}
		case 1: { kv::T("MallocPool(%u, %zu, %zu)", n, size, al); COV("flood:malloc-pool"); MallocPool M(n, size, al); flood(R, n, size, al, [&](kv::u64) { return M.alloc(size, al); }, [&](void * p, kv::u64) { M.free(p); }, [](void * p) { return p != 0 && (size_t)p > 4096 * 16; } ); EXPECT(M.alloc(size, al) == 0, "exhausted", "an exhausted allocator hands out a block"); break; }
		case 2:
		{
			// Many pools, or large ones
			const uint32 per = R.chance(1, 2) ? 1 + (uint32)R.below(6) : 30000 + (uint32)R.below(40000); const uint32 cnt = per < 10 ? 300 + (uint32)R.below(1500) : 80000; kv::T("MallocPooled(%u, %zu, %zu, 0), %u blocks", per, size, al, cnt); COV(per < 10 ? "flood:many-pools" : "flood:large-pools");
			MallocPooled M(per, size, al, (uint32)R.below(2));
			flood(R, cnt, size, al, [&](kv::u64 live) { const uint32 before = M.getNumPools(); void * p = M.alloc(size, al); const uint32 after = M.getNumPools(); EXPECT(after == before + (live >= (kv::u64)before * per), "pool-count", "with %llu blocks live, %u pools of %u became %u", (unsigned long long)live, before, per, after); return p; }, [&](void * p, kv::u64) { M.free(p); }, [&](void * p) { return M.hasBlock(p); }); break;
		}
		default: { kv::T("MallocBinned, %u blocks of %zu", n, size); COV("flood:binned"); MallocBinned M; flood(R, n, size, 8, [&](kv::u64) { return M.alloc(size, 8); }, [&](void * p, kv::u64) { M.free(p); }, [](void *) { return true; }); }
	}
}
KV_MAIN({"flooded", flooded, true}, {"memory_pool", memory_pool, true}, {"malloc_pool", malloc_pool, true}, {"pooled", pooled, true}, {"binned", binned, true})
