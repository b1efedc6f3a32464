// System allocator and typed handles.
#include "blocks.h"
#include "track_malloc.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_object.h"
static void ansi(kv::Rng & R)
{
	MallocAnsi own; MallocBase & M = R.chance(1, 4) ? *gMalloc : (MallocBase &)own; LiveBlocks L;
	const int steps = 10 + (int)R.below(120);
	for (int i = 0; i < steps; ++i)
	{
		const size_t size = R.chance(1, 200) ? R.below(1 << 19) : R.size(3000), al = 1ull << R.below(R.chance(1, 20) ? 17 : 9);
		switch (R.below(10))
		{
			case 0: case 1: case 2: case 3: case 4: { kv::T("alloc(%zu, %zu)", size, al); COV("alloc"); const bool dflt = R.chance(1, 6); void * p = dflt ? M.alloc(size) : M.alloc(size, al); L.add(p, size, dflt ? sizeof(void *) : al < sizeof(void *) ? sizeof(void *) : al, R); break; }
			case 5: case 6:
			{
				void * p = L.pick(R); if (!p) break; if (L.m.size() > 3) kv::nontrivial();
				if (R.chance(1, 8)) { kv::T("realloc(block, 0)"); COV("realloc-zero"); L.remove(p); void * q = M.realloc(p, 0, al); EXPECT(q == 0, "realloc-zero", "realloc to zero bytes returns %p", q); break; }
				const size_t ns = size ? size : 1; LiveBlocks::B old = L.m[(uintptr_t)p]; kv::T("realloc(block of %zu, %zu, %zu)", old.size, ns, al); if (ns > old.size) COV("realloc-grow"); else COV("realloc-shrink");
				L.m.erase((uintptr_t)p); void * q = M.realloc(p, ns, al);
				EXPECT(q != 0, "null", "realloc to %zu bytes gives null", ns);
				L.verify((uintptr_t)q, LiveBlocks::B{old.size < ns ? old.size : ns, old.pat}, "after realloc");
				L.add(q, ns, al, R); break;
			}
			case 7: { kv::T("realloc(null, %zu, %zu)", size, al); COV("realloc-null"); const size_t ns = size ? size : 1; void * q = M.realloc(0, ns, al); L.add(q, ns, al, R); break; }
			case 8: { void * p = L.pick(R); if (p) { kv::T("free"); COV("free"); L.remove(p); M.free(p); } break; }
			case 9: if (R.chance(1, 4))
			{
				kv::T("unservable requests"); COV("unservable"); const size_t huge = 1ull << 60;
				EXPECT(M.alloc(huge, al) == 0, "huge", "an unservable request gives a block");
				if (void * p = L.pick(R)) { EXPECT(M.realloc(p, huge, al) == 0, "huge", "an unservable reallocation gives a block"); L.verify((uintptr_t)p, L.m[(uintptr_t)p], "after a failed reallocation"); }
				break;
			} // fall through
			default: { if (R.chance(1, 8)) { kv::T("free(null)"); COV("free-null"); M.free(0); } break; }
		}
		if (R.chance(1, 10)) L.verifyAll("spot check");
		kv::state(kv::mix(L.m.size()) ^ kv::mix(size * 131 + al));
	}
	while (void * p = L.pick(R)) { L.remove(p); if (R.chance(1, 4)) M.realloc(p, 0, 8); else M.free(p); }
}
struct O1 { char c; }; struct O3 { char c[3]; }; struct O40 { double d[5]; }; struct alignas(64) O64 { char c[64]; }; struct alignas(32) O96 { char c[96]; };
template<typename T>
static void handle(kv::Rng & R, const char * name)
{
	kv::TrackMalloc A("allocator a"), B("allocator b");
	{
		MallocObject<T> a{&A}, b{&B}; kv::u32 na = 0, nb = 0; T * pa[40], * pb[40];
		const int steps = 5 + (int)R.below(40);
		for (int i = 0; i < steps; ++i)
		{
			const bool useA = R.chance(1, 2); MallocObject<T> & h = useA ? a : b; kv::TrackMalloc & M = useA ? A : B; kv::TrackMalloc & O = useA ? B : A; kv::u32 & n = useA ? na : nb; T ** p = useA ? pa : pb;
			const kv::u64 oa = O.allocs, of = O.frees, orr = O.reallocs, ma = M.allocs, mf = M.frees, mr = M.reallocs;
			const kv::u64 k = 1 + R.size(50);
			switch (R.below(3))
			{
				case 0: if (n < 40) { const bool one = R.chance(1, 4); kv::T("%s: %c.alloc(%llu)", name, useA ? 'a' : 'b', (unsigned long long)(one ? 1 : k)); COV("object-alloc"); T * q = one ? h.alloc() : h.alloc(k); const kv::u64 kk = one ? 1 : k;
					EXPECT(M.allocs == ma + 1 && M.find(q), "foreign", "the handle did not allocate from its allocator"); EXPECT(M.lastSize == kk * sizeof(T), "size", "%llu objects of %zu bytes requested as %zu bytes", (unsigned long long)kk, sizeof(T), M.lastSize); EXPECT(M.lastAlign == alignof(T), "align", "alignment %zu requested for objects of alignment %zu", M.lastAlign, alignof(T)); memset((void *)q, 1, kk * sizeof(T)); p[n++] = q; kv::nontrivial(); } break;
				case 1: if (n) { const kv::u32 j = (kv::u32)R.below(n); kv::T("%c.realloc(%llu)", useA ? 'a' : 'b', (unsigned long long)k); COV("object-realloc"); T * q = h.realloc(p[j], k); EXPECT(M.reallocs == mr + 1, "foreign", "realloc not forwarded"); EXPECT(M.lastSize == k * sizeof(T) && M.lastAlign == alignof(T), "size", "realloc of %llu objects requests %zu bytes, alignment %zu", (unsigned long long)k, M.lastSize, M.lastAlign); EXPECT(M.find(q), "foreign", "realloc returns another block"); memset((void *)q, 2, k * sizeof(T)); p[j] = q; } break;
				default: if (n) { const kv::u32 j = (kv::u32)R.below(n); kv::T("%c.free", useA ? 'a' : 'b'); COV("object-free"); h.free(p[j]); EXPECT(M.frees == mf + 1, "foreign", "free not forwarded"); p[j] = p[--n]; } break;
			}
			EXPECT(O.allocs == oa && O.frees == of && O.reallocs == orr, "foreign", "the handle used another allocator");
		}
		while (na) a.free(pa[--na]); while (nb) b.free(pb[--nb]);
		// Moved handles follow their allocator
		MallocObject<T> c{::move(a)}; T * q = c.alloc(3); EXPECT(A.find(q), "foreign", "a moved handle uses another allocator"); c.free(q);
		c = ::move(b); q = c.alloc(2); EXPECT(B.find(q), "foreign", "a move-assigned handle uses another allocator"); c.free(q);
		MallocObject<T> g; q = g.alloc(2); EXPECT(q && ((size_t)q % alignof(T)) == 0, "align", "default handle: misaligned"); g.free(q);
	}
	{ MallocObject<T, kv::TrackMalloc> m{"managed allocator"}; T * q = m.alloc(4); memset((void *)q, 3, 4 * sizeof(T)); q = m.realloc(q, 9); memset((void *)q, 3, 9 * sizeof(T)); m.free(q); COV("object-managed"); }
}
static void objects(kv::Rng & R)
{
	switch (R.below(6)) { case 0: handle<O1>(R, "O1"); break; case 1: handle<O3>(R, "O3"); break; case 2: handle<O40>(R, "O40"); break; case 3: handle<O64>(R, "O64"); break; case 4: handle<O96>(R, "O96"); break; default: handle<int32>(R, "int32"); }
}
KV_MAIN({"ansi", ansi, true}, {"objects", objects, true})
