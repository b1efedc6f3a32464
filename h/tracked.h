// Instrumented element types and allocators: monitors object lifetimes
// (construct / assign / read / destroy), alignment and block ownership.
#pragma once
#include "kv.h"
#include <new>

namespace kv
{
	/// Table of live tracked objects, address -> serial
	struct LiveTable
	{
		static const u32 CAP = 1u << 17;
		struct Slot { const void * p; u64 serial; };
		Slot * slots; u32 used; u64 live, constructed, destroyed, copies, moves, assigns, copyAssigns;
		void init() { if (!slots) slots = (Slot *)bigalloc(CAP * sizeof(Slot)); }
		Slot * find(const void * p)
		{
			init(); u64 i = mix((u64)p) & (CAP - 1);
			for (;;) { if (!slots[i].p) return 0; if (slots[i].p == p && slots[i].serial) return &slots[i]; i = (i + 1) & (CAP - 1); }
		}
		void add(const void * p)
		{
			init();
			if (used > CAP / 2) { rebuild(); }
			u64 i = mix((u64)p) & (CAP - 1);
			while (slots[i].p && slots[i].serial) i = (i + 1) & (CAP - 1);
			if (!slots[i].p) ++used;
			slots[i].p = p; slots[i].serial = ++constructed; ++live;
		}
		void remove(Slot * s) { s->serial = 0; s->p = (void *)1; --live; ++destroyed; }
		void rebuild()
		{
			Slot * old = slots; slots = (Slot *)bigalloc(CAP * sizeof(Slot)); used = 0;
			for (u32 i = 0; i < CAP; ++i) if (old[i].p && old[i].serial)
			{
				u64 j = mix((u64)old[i].p) & (CAP - 1); while (slots[j].p) j = (j + 1) & (CAP - 1);
				slots[j] = old[i]; ++used;
			}
			munmap(old, CAP * sizeof(Slot));
		}
	};
	inline LiveTable L;

	/// Lifetime-tracked element. Owns a heap cell, so that ASan independently
	/// sees use after destruction, double destruction and leaks.
	template<int tag = 0, int align = 8>
	struct alignas(align) Tracked
	{
		int v; bool moved; int * cell; const Tracked * self;

		void born()
		{
			++G.checks;
			if ((u64)this % align) fail("align", "element constructed at misaligned address %p (alignment %d)", (void *)this, align);
			if (L.find(this)) fail("construct-over-live", "element constructed over a live element at %p (never destroyed)", (void *)this);
			L.add(this); self = this;
		}
		void alive(const char * what) const
		{
			++G.checks;
			if (!L.find(this)) fail("dead-access", "%s of an element that is not alive at %p", what, (const void *)this);
			if (self != this) fail("dead-access", "%s of an element that was relocated bytewise", what);
		}

		Tracked() : v(0), moved(false), cell(new int(0)) { born(); }
		Tracked(int x) : v(x), moved(false), cell(new int(x)) { born(); }
		Tracked(const Tracked & o) { o.alive("copy"); v = o.v; moved = o.moved; cell = o.cell ? new int(*o.cell) : 0; born(); ++L.copies; }
		Tracked(Tracked && o) { o.alive("move"); v = o.v; moved = o.moved; cell = o.cell; o.cell = 0; o.moved = true; o.v = -1; born(); ++L.moves; }
		Tracked & operator=(const Tracked & o)
		{
			alive("assignment"); o.alive("copy"); ++L.assigns; ++L.copyAssigns;
			if (this != &o) { delete cell; v = o.v; moved = o.moved; cell = o.cell ? new int(*o.cell) : 0; }
			return *this;
		}
		Tracked & operator=(Tracked && o)
		{
			alive("assignment"); o.alive("move"); ++L.assigns;
			if (this != &o) { delete cell; v = o.v; moved = o.moved; cell = o.cell; o.cell = 0; o.moved = true; o.v = -1; }
			return *this;
		}
		~Tracked()
		{
			LiveTable::Slot * s = L.find(this);
			if (!s) fail("double-destroy", "destruction of an element that is not alive at %p", (void *)this);
			if (self != this) fail("dead-access", "destruction of an element that was relocated bytewise");
			L.remove(s); delete cell; cell = 0; self = 0;
		}
		int get() const
		{
			alive("read");
			if (moved || !cell) fail("moved-read", "a moved-from element is visible as a value");
			if (*cell != v) fail("corrupt", "element corrupted: cell %d, value %d", *cell, v);
			return v;
		}
		bool operator==(const Tracked & o) const { return get() == o.get(); }
		bool operator!=(const Tracked & o) const { return get() != o.get(); }
		bool operator<(const Tracked & o) const { return get() < o.get(); }
		bool operator>(const Tracked & o) const { return get() > o.get(); }
	};

	/// To be called at the end of a case
	inline void expectNoLive(const char * where)
	{
		++G.checks;
		if (L.live) fail("element-leak", "%s: %llu element(s) were never destroyed", where, (unsigned long long)L.live);
	}

	inline int valueOf(int v) { return v; }
	template<int t, int a> inline int valueOf(const Tracked<t, a> & v) { return v.get(); }
}
