// Allocator monitor: every block of every allocator is recorded; after each
// operation all element storage must lie in live blocks of one allocator.
#include "drive.h"
#include "track_malloc.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"

template<typename C> struct Alignment; template<template<typename...> class C, typename T, typename ... R> struct Alignment<C<T, R...>> { static const sizet value = alignof(T); };

/// Allocator that holds the elements of a container, if it holds any
template<typename C> static kv::TrackMalloc * owner(C & x, const char * what)
{
	kv::TrackMalloc * o = 0;
	Ad<C>::addresses(x, [&](const void * p, size_t size, size_t align)
	{
		kv::TrackMalloc * m = kv::TrackMalloc::all; kv::TrackMalloc::Block * b = 0;
		for (; m; m = m->nextAll) if ((b = m->containing(p))) break;
		EXPECT(m, "foreign-storage", "%s %s: element storage at %p belongs to no allocator", Ad<C>::name(), what, p);
		EXPECT((char *)p + size <= (char *)b->p + b->size, "block-size", "%s %s: a block of %llu bytes was requested for %llu", Ad<C>::name(), what, (unsigned long long)b->size, (unsigned long long)size);
		EXPECT(b->align >= align || align <= 1, "block-align", "%s %s: alignment %llu requested for elements of alignment %llu", Ad<C>::name(), what, (unsigned long long)b->align, (unsigned long long)align);
		EXPECT(!o || o == m, "mixed-storage", "%s %s: elements come from two allocators", Ad<C>::name(), what); o = m;
	});
	return o;
}

/// Several containers over global and external allocators, copied and moved
template<typename C> static void external(kv::Rng & R)
{
	using A = Ad<C>; static const int N = 4; const int NM = 3; const bool ARRAY = A::name()[0] == 'a';
	MallocBase * saved = gMalloc;
	{
		kv::TrackMalloc global("the global allocator"), ea("external allocator A"), eb("external allocator B");
		// Only node based containers have requests of one size: arrays would outgrow the pool's blocks
		MallocBase * inner = 0; const int kind = ARRAY ? 1 + (int)R.below(2) : (int)R.below(3);
		const sizet al = Alignment<C>::value > 32 ? Alignment<C>::value : 32; if (al > 32) COV("elements:over-aligned"); 
		if (kind == 0) { inner = new MallocPooled(1 + (uint32)R.below(20), 16 * al, al, (uint32)R.below(3)); COV("pooled-allocator"); }
		else if (kind == 1) { inner = new MallocBinned(MallocBinned::BucketInfo{1ull << 14, 16, 1ull << 16, 64}, al); COV("binned-allocator"); }
		else inner = new MallocAnsi();
		{
		kv::TrackMalloc ep("library allocator", inner);
		gMalloc = &global; kv::TrackMalloc * ms[] = {&global, &ea, &eb};
		{
			struct Slot { C * x; kv::TrackMalloc * m; } s[N]; const int steps = 6 + (int)R.below(kv::G.thorough ? 120 : 40);
			kv::T("%s over external allocators, %d steps", A::name(), steps);
			for (auto & e : s) { const int q = (int)R.below(NM); e.m = q == 0 && R.chance(1, 2) ? &ep : ms[q]; kv::T("x%d over %s", (int)(&e - s), e.m->name); e.x = e.m == &global ? new C() : new C((MallocBase *)e.m); }
			for (int q = 0; q < steps; ++q)
			{
				const int k = (int)R.below(N), j = (int)R.below(N);
				switch (R.below(9))
				{
					case 0: kv::T("x%d = x%d", k, j); COV("copy-assign"); *s[k].x = *(const C *)s[j].x; break;
					case 1: kv::T("x%d = move(x%d)", k, j); COV("move-assign"); if (k != j && s[k].m != s[j].m) COV("move-between-allocators"); *s[k].x = ::move(*s[j].x); if (k != j) { s[k].m = s[j].m = 0; } break;
					case 2: { kv::T("x%d replaced by a copy of x%d", k, j); C * c = new C(*(const C *)s[j].x); delete s[k].x; s[k].x = c; s[k].m = 0; break; }
					case 3: { kv::T("x%d move constructed from x%d", k, j); C * c = new C(::move(*s[j].x)); delete s[k].x; s[k].x = c; s[k].m = 0; if (k != j) s[j].m = 0; break; }
					default: kv::T("x%d", k); for (int z = 1 + (int)R.below(4); z > 0; --z) A::step(R, *s[k].x); break;
				}
				kv::u64 held = 0;
				for (int i = 0; i < N; ++i)
				{
					held += A::count(*s[i].x);
					kv::TrackMalloc * o = owner(*s[i].x, "after the last operation");
					if (o && s[i].m) EXPECT(o == s[i].m, "wrong-allocator", "x%d draws its storage from %s instead of %s", i, o->name, s[i].m->name);
					if (o && !s[i].m) s[i].m = o;
				}
				kv::state(kv::mix(held) ^ kv::mix(global.n * 1000003ull + ea.n * 1009 + eb.n));
				if (held > 12) kv::nontrivial();
				if (A::count(*s[k].x) > 100) { C e; *s[k].x = (const C &)e; }
			}
			for (auto & e : s) delete e.x;
			for (kv::TrackMalloc * m : {&global, &ea, &eb, &ep}) EXPECT(m->n == 0, "allocator-leak", "%u block(s) of %s were never returned", m->n, m->name);
		}
		}
		delete inner;
		gMalloc = saved;
	}
	kv::expectNoLive("after the containers were destroyed");
}

struct ManagedTrack : kv::TrackMalloc { ManagedTrack() : TrackMalloc("the managed allocator") {} };

/// A container that manages its allocator. BaseC is the type the driver uses.
template<typename C, typename BaseC> static void managed(kv::Rng & R)
{
	using A = Ad<BaseC>; MallocBase * saved = gMalloc;
	{
		kv::TrackMalloc global("the global allocator"); gMalloc = &global;
		const int steps = 4 + (int)R.below(30); kv::T("%s with a managed allocator, %d steps", A::name(), steps);
		{
			C * x = new C(); const kv::u64 g0 = global.allocs;
			const bool hasMaster = R.chance(1, 2); BaseC & b = *x;
			for (int q = 0; q < steps; ++q)
			{
				A::step(R, b); kv::TrackMalloc * o = owner(b, "managed");
				if (o) { EXPECT((char *)o >= (char *)x && (char *)o < (char *)(x + 1), "wrong-allocator", "a container that manages its allocator draws storage from %s", o->name); COV("managed-storage"); kv::nontrivial(); }
				kv::state(kv::mix(A::count(b)));
				if (hasMaster && R.chance(1, 10)) { COV("managed-refill"); while (A::count(b) < 30) A::step(R, b); }
			}
			(void)g0; delete x;
		}
		EXPECT(global.n == 0, "allocator-leak", "%u block(s) of the global allocator were never returned", global.n);
		gMalloc = saved;
	}
	kv::expectNoLive("after the container was destroyed");
}

/// Library allocators managed by the containers, watched by ASan and the heap
template<typename T> struct PooledList : List<T, MallocPooled> { using List<T, MallocPooled>::List; MallocPooled & m() { return this->autoMalloc; } };
template<typename T> struct PooledTree : BinaryTree<T, ThreeWayCompare, MallocPooled> { using BinaryTree<T, ThreeWayCompare, MallocPooled>::BinaryTree; MallocPooled & m() { return this->autoMalloc; } };
template<typename T> static void pooled(kv::Rng & R)
{
	const uint32 per = 1 + (uint32)R.below(12), init = (uint32)R.below(3); const int steps = 10 + (int)R.below(60);
	kv::T("pool-managed list and tree, %u blocks per pool, %u initial, %d steps", per, init, steps);
	{
		PooledList<T> l{per, sizeof(Link<T>), alignof(Link<T>), init}; PooledTree<T> t{per, sizeof(BinaryNode<T>), alignof(BinaryNode<T>), init};
		Array<T, MallocBinned> a{MallocBinned::BucketInfo{1ull << 12, 8, 1ull << 12, 32}}; Set<T, ThreeWayCompare, MallocAnsi> s; Map<T, T, ThreeWayCompare, MallocPooled> m; Array<T, MallocAnsi> a2;
		for (int q = 0; q < steps; ++q)
		{
			Ad<List<T>>::step(R, l); Ad<BinaryTree<T>>::step(R, t); Ad<Set<T, ThreeWayCompare, MallocAnsi>>::step(R, s); Ad<Map<T, T, ThreeWayCompare, MallocPooled>>::step(R, m); if (a.getCount() < 12) Ad<Array<T>>::step(R, a); else a.empty(); Ad<Array<T>>::step(R, a2);
			for (auto * k = l.getHead(); k; k = k->next) EXPECT(l.m().hasBlock(k), "wrong-allocator", "a link of a pool-managed list is not a block of its pool");
			for (auto * k = t.getMin(); k; k = k->next) EXPECT(t.m().hasBlock(k), "wrong-allocator", "a node of a pool-managed tree is not a block of its pool");
			kv::state(kv::mix(l.getLength() * 1009 + t.getNumNodes()));
		}
		if (l.getLength() + t.getNumNodes() > 8) kv::nontrivial(); COV("pool-managed");
		kv::T("left %llu and %llu", (unsigned long long)l.getLength(), (unsigned long long)t.getNumNodes());
	}
	kv::expectNoLive("after the containers were destroyed");
}

template<typename T> static void ext(kv::Rng & R) { switch (R.below(4)) { case 0: external<Array<T>>(R); break; case 1: external<List<T>>(R); break; case 2: external<BinaryTree<T>>(R); break; default: external<Map<T, T>>(R); } }
static void externals(kv::Rng & R) { switch (R.below(5)) { case 0: ext<int32>(R); break; case 1: ext<kv::Tracked<>>(R); break; case 2: ext<kv::Tracked<3, 32>>(R); break; case 3: ext<kv::Tracked<5, 256>>(R); break; default: ext<String>(R); } }
template<typename T> static void man(kv::Rng & R)
{
	if (alignof(T) > 16) COV("elements:over-aligned");
	switch (R.below(6))
	{
		case 0: managed<Array<T, ManagedTrack>, Array<T>>(R); break;
		case 1: managed<List<T, ManagedTrack>, List<T>>(R); break;
		case 2: managed<BinaryTree<T, ThreeWayCompare, ManagedTrack>, BinaryTree<T>>(R); break;
		case 3: managed<Map<T, T, ThreeWayCompare, ManagedTrack>, Map<T, T, ThreeWayCompare, ManagedTrack>>(R); break;
		case 4: if constexpr (alignof(T) > 16) managed<List<T, ManagedTrack>, List<T>>(R); else pooled<T>(R); break;
		default: managed<Map<T, int32, ThreeWayCompare, ManagedTrack>, Map<T, int32, ThreeWayCompare, ManagedTrack>>(R); break;
	}
}
static void manageds(kv::Rng & R) { switch (R.below(4)) { case 0: man<int32>(R); break; case 1: man<kv::Tracked<>>(R); break; case 2: man<kv::Tracked<5, 256>>(R); break; default: man<String>(R); } }
KV_MAIN({"external", externals, true}, {"managed", manageds, true})
