// Monitoring allocator: a MallocBase that records every block and request.
#pragma once
#include "tracked.h"
#include "hal/platform_memory.h"

namespace kv
{
	struct TrackMalloc : public MallocBase
	{
		struct Block { void * p; size_t size, align; };
		static const u32 CAP = 1 << 14;
		Block * blocks; MallocBase * inner; TrackMalloc * nextAll; u32 n; u64 allocs, frees, reallocs; bool dead; const char * name; size_t lastSize, lastAlign;
		static inline TrackMalloc * all = 0; // every live instance
		TrackMalloc(const TrackMalloc&) = delete;
		explicit TrackMalloc(const char * nm = "allocator", MallocBase * in = 0) : inner(in), n(0), allocs(0), frees(0), reallocs(0), dead(false), name(nm), lastSize(0), lastAlign(0) { blocks = (Block *)::malloc(sizeof(Block) * CAP); nextAll = all; all = this; }
		~TrackMalloc()
		{
			if (n) fail("allocator-leak", "%s destroyed with %u block(s) never returned", name, n);
			dead = true; ::free(blocks); blocks = 0;
			for (TrackMalloc ** p = &all; *p; p = &(*p)->nextAll) if (*p == this) { *p = nextAll; break; }
		}
		/// Live block that contains an address
		Block * containing(const void * q) { for (u32 i = n; i-- > 0;) if ((char *)q >= (char *)blocks[i].p && (char *)q < (char *)blocks[i].p + blocks[i].size) return &blocks[i]; return 0; }
		Block * find(void * p) { for (u32 i = n; i-- > 0;) if (blocks[i].p == p) return &blocks[i]; return 0; }
		virtual void * alloc(sizet size, sizet alignment) override
		{
			++G.checks;
			if (dead) fail("dead-allocator", "allocation from a destroyed allocator");
			if (!alignment || (alignment & (alignment - 1))) fail("bad-alignment", "alignment %llu requested", (unsigned long long)alignment);
			size_t a = alignment < sizeof(void *) ? sizeof(void *) : alignment;
			void * p = 0; if (inner) { if (!(p = inner->alloc(size, alignment))) return 0; } else if (posix_memalign(&p, a, size)) return 0;
			memset(p, 0xcd, size);
			if (n >= CAP) fail("harness-capacity", "too many blocks");
			blocks[n].p = p; blocks[n].size = size; blocks[n].align = alignment; ++n; ++allocs; lastSize = size; lastAlign = alignment;
			return p;
		}
		virtual void * realloc(void * orig, sizet size, sizet alignment) override
		{
			++reallocs; if (!orig) return alloc(size, alignment);
			Block * b = find(orig); if (!b) fail("foreign-realloc", "%s asked to reallocate a block it does not own", name);
			size_t old = b->size; void * p = alloc(size, alignment); memcpy(p, orig, old < size ? old : size); free(orig); return p;
		}
		virtual void free(void * orig) override
		{
			++G.checks;
			if (dead) fail("dead-allocator", "block returned to a destroyed allocator");
			if (!orig) return;
			Block * b = find(orig);
			if (!b) fail("foreign-free", "%s was given back block %p that it does not own (or twice)", name, orig);
			*b = blocks[--n]; ++frees; if (inner) inner->free(orig); else ::free(orig);
		}
	};
}
