// Monitor for live blocks of an allocator: disjointness, alignment, contents.
#pragma once
#include "kv.h"
#include <map>
#include <vector>
#include "hal/platform_memory.h"

struct LiveBlocks
{
	struct B { size_t size; unsigned char pat; };
	std::map<uintptr_t, B> m; // live, by address
	kv::u64 n = 0;

	#define KV_RAW __attribute__((no_sanitize("address", "undefined", "thread"), optimize("O2"), noinline))
	static KV_RAW void rawFill(unsigned char * c, size_t size, unsigned char pat) { for (size_t i = 0; i < size; ++i) c[i] = (unsigned char)(pat ^ (i * 0x9d) ^ (i >> 8)); }
	static KV_RAW size_t rawDiff(const unsigned char * c, size_t size, unsigned char pat) { for (size_t i = 0; i < size; ++i) if (c[i] != (unsigned char)(pat ^ (i * 0x9d) ^ (i >> 8))) return i; return size; }
	/// The memset lets ASan check the whole range
	void fill(void * p, size_t size, unsigned char pat) { memset(p, 0, size); rawFill((unsigned char *)p, size, pat); }
	void verify(uintptr_t a, const B & b, const char * when, size_t upto = ~0ull)
	{
		const unsigned char * c = (const unsigned char *)a; const size_t e = b.size < upto ? b.size : upto;
		++kv::G.checks;
		const size_t i = rawDiff(c, e, b.pat);
		if (i < e) kv::fail("content", "%s: byte %llu of a live block of %llu bytes was altered", when, (unsigned long long)i, (unsigned long long)b.size);
	}
	/// A block was handed out
	void add(void * p, size_t size, size_t alignment, kv::Rng & R)
	{
		const uintptr_t a = (uintptr_t)p;
		EXPECT(p != 0, "null", "request for %llu bytes (alignment %llu) served null", (unsigned long long)size, (unsigned long long)alignment);
		EXPECT(!alignment || a % alignment == 0, "align", "block %p does not have alignment %llu", p, (unsigned long long)alignment);
		auto it = m.lower_bound(a);
		if (it != m.end()) EXPECT(it->first >= a + (size ? size : 1), "overlap", "block [%p, +%llu) overlaps the live block at %p", p, (unsigned long long)size, (void *)it->first);
		if (it != m.begin()) { --it; EXPECT(it->first + (it->second.size ? it->second.size : 1) <= a, "overlap", "block %p lies inside the live block at %p of %llu bytes", p, (void *)it->first, (unsigned long long)it->second.size); }
		B b{size, (unsigned char)R.next()}; fill(p, size, b.pat); m[a] = b; ++n;
	}
	/// A block is about to be given back
	void remove(void * p) { auto it = m.find((uintptr_t)p); verify(it->first, it->second, "on release"); m.erase(it); }
	void verifyAll(const char * when) { for (auto & e : m) verify(e.first, e.second, when); }
	void * pick(kv::Rng & R) { if (m.empty()) return 0; size_t k = R.below(m.size()); if (m.size() > 64 && R.chance(3, 4)) k = R.chance(1, 2) ? k % 8 : m.size() - 1 - k % 8; auto it = m.begin(); if (k > m.size() / 2) { it = m.end(); std::advance(it, -(long)(m.size() - k)); } else std::advance(it, k); return (void *)it->first; }
};
