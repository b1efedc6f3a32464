// Model-based workload for dynamic arrays: every operation is mirrored on a
// reference sequence and the whole observable state is compared after it.
#pragma once
#include "elems.h"
#include <vector>
#include "containers/array.h"

template<typename T>
struct ArrayWork
{
	using E = Elem<T>; using Ref = std::vector<int>; using ArrT = Array<T>;
	static const int NA = 3;
	kv::Rng & R; ArrT * a[NA]; Ref m[NA]; int nextv; bool big = false, huge = false;

	explicit ArrayWork(kv::Rng & r) : R(r), nextv(1) { big = R.chance(1, 12); if constexpr (E::bulk) huge = R.chance(1, 250); for (auto & x : a) x = new ArrT(); }
	~ArrayWork() { for (auto & x : a) delete x; }

	int fresh() { return R.chance(1, 4) ? (int)R.below(20) : nextv++; }

	void check(int k, const char * op)
	{
		ArrT & x = *a[k]; const ArrT & cx = x; const Ref & r = m[k];
		const uint64 n = r.size();
		EXPECT(x.getCount() == n, "count", "%s: count is %llu, expected %llu", op, (unsigned long long)x.getCount(), (unsigned long long)n);
		EXPECT(x.getSize() == n && x.getNum() == n && cx.getCount() == n, "count", "%s: size aliases disagree", op);
		EXPECT(x.isEmpty() == (n == 0), "count", "%s: isEmpty is %d with %llu elements", op, (int)x.isEmpty(), (unsigned long long)n);
		EXPECT(x.getBytes() == n * sizeof(T), "count", "%s: getBytes", op);
		const T * buf = *cx; const T * buf2 = cx.getData(); const T * buf3 = x.getBuffer();
		EXPECT(buf == buf2 && buf == buf3 && buf == *x, "buffer", "%s: buffer accessors disagree", op);
		if (n) EXPECT(((uint64)buf % alignof(T)) == 0, "align", "%s: buffer misaligned", op);
		uint64 h = kv::mix(n);
		for (uint64 i = 0; i < n; ++i)
		{
			const int v = E::val(cx[i]);
			EXPECT(v == r[i], "content", "%s: element %llu is %d, expected %d", op, (unsigned long long)i, v, r[i]);
			EXPECT(&cx[i] == buf + i && &x.getAt(i) == buf + i && &x[i] == buf + i, "buffer", "%s: element %llu is not at its place in the buffer", op, (unsigned long long)i);
			h = kv::mix(h ^ (uint64)v);
		}
		kv::state(h);
		if (n) iterate(x, cx, r, op);
		else { uint64 c = 0; for (auto it = x.begin(); it != x.end(); ++it) ++c; EXPECT(c == 0, "iteration", "%s: iteration over an empty array visits elements", op); }
	}

	void iterate(ArrT & x, const ArrT & cx, const Ref & r, const char * op)
	{
		const uint64 n = r.size(); uint64 i = 0;
		for (auto & e : x) { EXPECT(i < n && E::val(e) == r[i], "iteration", "%s: forward iteration differs at %llu", op, (unsigned long long)i); ++i; }
		EXPECT(i == n, "iteration", "%s: forward iteration visits %llu of %llu", op, (unsigned long long)i, (unsigned long long)n);
		i = 0; for (const auto & e : cx) { EXPECT(i < n && &e == *cx + i, "iteration", "%s: const iteration differs at %llu", op, (unsigned long long)i); ++i; }
		EXPECT(i == n, "iteration", "%s: const iteration visits %llu", op, (unsigned long long)i);
		i = n; for (auto it = x.end(); it != x.begin();) { auto old = it--; --i; EXPECT(&*it == *x + i && E::val(*it) == r[i] && old != it, "iteration", "%s: backward iteration differs at %llu", op, (unsigned long long)i); }
		EXPECT(i == 0, "iteration", "%s: backward iteration stops early", op);
		// Random access
		const uint64 p = R.below(n), q = R.below(n);
		auto ip = x.begin() + p, iq = x.end() - (n - q);
		EXPECT(&*ip == *x + p && &*iq == *x + q, "iterator-arith", "%s: iterator arithmetic", op);
		EXPECT((ip == iq) == (p == q) && (ip != iq) == (p != q) && (ip < iq) == (p < q) && (ip > iq) == (p > q) && (ip <= iq) == (p <= q) && (ip >= iq) == (p >= q), "iterator-arith", "%s: iterator comparison of positions %llu and %llu", op, (unsigned long long)p, (unsigned long long)q);
		EXPECT(&x.begin()[p] == *x + p && ip.operator->() == *x + p, "iterator-arith", "%s: iterator subscript", op);
		{ ArrT & y = *a[R.below(NA)]; const uint64 ny = y.getCount(); if (&y != &x && ny) { auto iy = y.begin() + (p < ny ? p : ny - 1); EXPECT(!(ip == iy) && ip != iy && !(iy == ip) && (ip < iy) == !(ip > iy), "iterator-arith", "%s: iterators of two arrays compare equal", op); COV("iterators-of-two-arrays"); } }
		if (q >= p) { EXPECT(&ip[q - p] == *x + q, "iterator-arith", "%s: relative subscript", op); ip += q - p; EXPECT(&*ip == *x + q, "iterator-arith", "%s: +=", op); ip -= q - p; EXPECT(&*ip == *x + p, "iterator-arith", "%s: -=", op); (ip += q - p) -= q - p; EXPECT(&*ip == *x + p, "iterator-arith", "%s: += and -= in a row", op); ip += q - p; (ip -= q - p) += q - p; EXPECT(&*ip == *x + q, "iterator-arith", "%s: -= and += in a row", op); ip -= q - p; auto & self = ip; EXPECT(&(ip += 0) == &self && &(ip -= 0) == &self && &*ip == *x + p, "iterator-arith", "%s: += or -= returns another iterator", op); }
		auto i2 = x.begin() + p; auto o1 = i2++; EXPECT(&*o1 == *x + p, "iterator-arith", "%s: post-increment returns %lld", op, (long long)(&*o1 - *x)); auto o2 = --i2; EXPECT(&*o2 == *x + p && &*i2 == *x + p, "iterator-arith", "%s: pre-decrement", op);
		auto o3 = ++i2; EXPECT(&*o3 == *x + p + 1 && &*i2 == *x + p + 1, "iterator-arith", "%s: pre-increment", op);
		auto o4 = i2--; EXPECT(&*o4 == *x + p + 1 && &*i2 == *x + p, "iterator-arith", "%s: post-decrement", op);
	}

	void step()
	{
		const int k = (int)R.below(NA); ArrT & x = *a[k]; Ref & r = m[k]; const uint64 n = r.size();
		char op[96];
		#define OP(name, ...) do { snprintf(op, sizeof(op), __VA_ARGS__); kv::T("a%d.%s", k, op); COV("op:" name); } while (0)
		switch (huge && R.chance(1, 5) ? 35 : R.below(36))
		{
			case 0: case 1: case 2: { const int v = fresh(); OP("add", "add(%d)", v); T & ref = x.add(E::mk(v)); r.push_back(v); EXPECT(&ref == *x + n, "returned-ref", "add returns a reference to another element"); break; }
			case 3: { const int v = fresh(); OP("insertLast-lvalue", "insertLast(const %d&)", v); const T item = E::mk(v); T & ref = x.insertLast(item); r.push_back(v); EXPECT(&ref == *x + n && E::val(item) == v, "returned-ref", "insertLast"); break; }
			case 4: if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8); int v[9]; for (int & e : v) e = fresh(); OP("insertLast-many", "insertLast(%d values from %d)", c, v[0]); kv::spread(c, [&](int i) { return E::mk(v[i]); }, [&](auto && ...e) { x.insertLast(static_cast<decltype(e)>(e)...); }); r.insert(r.end(), v, v + c); break; } else { const int v[3] = {fresh(), fresh(), fresh()}; OP("insertLast-multi", "insertLast(%d,%d,%d)", v[0], v[1], v[2]); T item = E::mk(v[1]); x.insertLast(E::mk(v[0]), item, E::mk(v[2])); r.insert(r.end(), v, v + 3); EXPECT(E::val(item) == v[1], "argument-altered", "insertLast altered an lvalue argument"); break; }
			case 5: { const int v = fresh(); OP("insertFirst", "insertFirst(%d)", v); T & ref = x.insertFirst(E::mk(v)); r.insert(r.begin(), v); EXPECT(&ref == *x, "returned-ref", "insertFirst returns a reference to another element"); break; }
			case 6: if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8); int v[9]; for (int & e : v) e = fresh(); OP("insertFirst-many", "insertFirst(%d values from %d)", c, v[0]); kv::spread(c, [&](int i) { return E::mk(v[i]); }, [&](auto && ...e) { x.insertFirst(static_cast<decltype(e)>(e)...); }); r.insert(r.begin(), v, v + c); break; } else { const int v[2] = {fresh(), fresh()}; OP("insertFirst-multi", "insertFirst(%d,%d)", v[0], v[1]); T item = E::mk(v[0]); x.insertFirst(item, E::mk(v[1])); r.insert(r.begin(), v, v + 2); EXPECT(E::val(item) == v[0], "argument-altered", "insertFirst altered an lvalue argument"); break; }
			case 7: case 8: case 9: { const int v = fresh(); const uint64 i = R.below(n + 1); OP("insertAt", "insertAt(%llu, %d) of %llu", (unsigned long long)i, v, (unsigned long long)n); T & ref = x.insertAt(i, E::mk(v)); r.insert(r.begin() + i, v); EXPECT(&ref == *x + i, "returned-ref", "insertAt returns a reference to another element"); break; }
			case 10: case 11:
			if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8); int v[9]; for (int & e : v) e = fresh(); const uint64 at = R.below(n + 1); OP("insertAt-many", "insertAt(%llu, %d values from %d) of %llu", (unsigned long long)at, c, v[0], (unsigned long long)n); kv::spread(c, [&](int i) { return E::mk(v[i]); }, [&](auto && ...e) { x.insertAt(at, static_cast<decltype(e)>(e)...); }); r.insert(r.begin() + at, v, v + c); break; }
			else
			{
				const int c = 2 + (int)R.below(3); int v[4] = {fresh(), fresh(), fresh(), fresh()}; const uint64 i = R.below(n + 1);
				OP("insertAt-multi", "insertAt(%llu, %d values from %d) of %llu", (unsigned long long)i, c, v[0], (unsigned long long)n);
				const T item = E::mk(v[1]);
				if (c == 2) x.insertAt(i, E::mk(v[0]), item); else if (c == 3) x.insertAt(i, E::mk(v[0]), item, E::mk(v[2])); else x.insertAt(i, E::mk(v[0]), item, E::mk(v[2]), E::mk(v[3]));
				r.insert(r.begin() + i, v, v + c); EXPECT(E::val(item) == v[1], "argument-altered", "insertAt altered an lvalue argument"); break;
			}
			case 12:
				if constexpr (E::trivial)
				{
					// Past the end: the gap is unspecified until written
					const int v = fresh(); const uint64 i = n + R.below(5); OP("insertAt-gap", "insertAt(%llu, %d) of %llu", (unsigned long long)i, v, (unsigned long long)n);
					const bool multi = R.chance(1, 2); const int w = fresh();
					if (multi) x.insertAt(i, E::mk(v), E::mk(w)); else x.insertAt(i, E::mk(v));
					for (uint64 j = n; j < i; ++j) { new (&x[j]) T(E::mk(5)); r.push_back(5); }
					r.push_back(v); if (multi) r.push_back(w);
				}
				break;
			case 13:
				if constexpr (E::trivial)
				{
					const int v = fresh(); const uint64 i = n + R.below(9); OP("call-grow", "(%llu) of %llu", (unsigned long long)i, (unsigned long long)n);
					T & ref = x(i); for (uint64 j = n; j <= i; ++j) { new (&x[j]) T(E::mk(v)); r.push_back(v); }
					EXPECT(&ref == *x + i, "returned-ref", "call operator returns another element");
				}
				break;
			case 14: if (n) { const uint64 i = R.below(n); const int v = fresh(); OP("call-existing", "(%llu) of %llu", (unsigned long long)i, (unsigned long long)n); T & ref = x(i); EXPECT(&ref == *x + i && E::val(ref) == r[i], "returned-ref", "call operator on an existing element"); T & ref2 = x(i, E::mk(v)); EXPECT(&ref2 == *x + i && E::val(ref2) == r[i], "call-init", "call operator with initial value altered an existing element"); } break;
			case 15: { const int v = fresh(); OP("call-append", "(%llu, %d) of %llu", (unsigned long long)n, v, (unsigned long long)n); T & ref = n && R.chance(1, 3) ? x(n, x[n / 2]) : x(n, E::mk(v)); r.push_back(E::val(ref) == v ? v : r[n / 2]); EXPECT(E::val(ref) == r[n], "call-init", "call operator with initial value gives %d", E::val(ref)); EXPECT(&ref == *x + n, "returned-ref", "call operator with init"); break; }
			case 16: case 17: if (n) { const uint64 i = R.below(n), c = R.below(n - i + 1); OP("removeAt", "removeAt(%llu, %llu) of %llu", (unsigned long long)i, (unsigned long long)c, (unsigned long long)n); x.removeAt(i, c); r.erase(r.begin() + i, r.begin() + i + c); } break;
			case 18: if (n) { const uint64 i = R.below(n); OP("removeAt1", "removeAt(%llu) of %llu", (unsigned long long)i, (unsigned long long)n); x.removeAt(i); r.erase(r.begin() + i); } break;
			case 19: if (n) { OP("removeFirst", "removeFirst() of %llu", (unsigned long long)n); x.removeFirst(); r.erase(r.begin()); } break;
			case 20: if (n) { OP("removeLast", "removeLast() of %llu", (unsigned long long)n); x.removeLast(); r.pop_back(); } break;
			case 21: if (n) { const uint64 i = R.below(n); const int kind = (int)R.below(3); const uint64 j = kind == 0 ? i : kind == 1 ? 0 : n - 1; OP("pop", "pop at %llu (kind %d) of %llu", (unsigned long long)j, kind, (unsigned long long)n); T out = E::mk(-5); if (kind == 0) x.popAt(i, out); else if (kind == 1) x.popFirst(out); else x.popLast(out); EXPECT(E::val(out) == r[j], "pop-value", "pop delivers %d, expected %d", E::val(out), r[j]); r.erase(r.begin() + j); } break;
			case 22: if (n) { const uint64 i = R.below(n); const int v = fresh(); OP("write", "[%llu] = %d", (unsigned long long)i, v); const int how = (int)R.below(4); if (how == 0) x[i] = E::mk(v); else if (how == 1) (*x)[i] = E::mk(v); else if (how == 2) *(x.begin() + i) = E::mk(v); else x.getAt(i) = E::mk(v); r[i] = v; } break;
			case 23: if (R.chance(1, 3)) { OP("empty", "empty()"); const int how = (int)R.below(3); if (how == 0) x.empty(); else if (how == 1) x.clear(); else x.wipe(); r.clear(); } break;
			case 24: if (R.chance(1, 3)) { OP("reset", "reset()"); x.reset(); r.clear(); } break;
			case 25: case 26: { const int j = (int)R.below(NA); OP("copy-assign", "= a%d (%llu <- %llu)", j, (unsigned long long)n, (unsigned long long)m[j].size()); ArrT & ret = (x = *(const ArrT *)a[j]); EXPECT(&ret == &x, "returned-ref", "copy assignment returns another object"); r = Ref(m[j]); check(j, "copy-assign source"); break; }
			case 27: { const int j = (int)R.below(NA); if (j == k && R.chance(1, 2)) break; OP("move-assign", "= move(a%d)", j); ArrT & ret = (x = ::move(*a[j])); EXPECT(&ret == &x, "returned-ref", "move assignment returns another object"); if (j != k) { r = m[j]; m[j].clear(); check(j, "moved-from array"); } break; }
			case 28: { const int j = (int)R.below(NA); OP("copy-construct", "replaced by a copy of a%d", j); ArrT * c = new ArrT(*(const ArrT *)a[j]); Ref cr = m[j]; delete a[k]; a[k] = c; m[k] = cr; break; }
			case 29: { const int j = (int)R.below(NA); OP("move-construct", "move-constructed from a%d", j); ArrT * c = new ArrT(::move(*a[j])); Ref cr = m[j]; m[j].clear(); check(j, "moved-from array"); delete a[k]; a[k] = c; m[k] = cr; break; }
			case 30:
			{
				const uint64 c = R.size(20), slack = R.below(4); OP("buffer-construct", "constructed from a buffer of %llu, slack %llu", (unsigned long long)c, (unsigned long long)slack);
				Ref v; for (uint64 i = 0; i < c; ++i) v.push_back(fresh());
				T * buf = (T *)::operator new(sizeof(T) * (c + 1), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
				for (uint64 i = 0; i < c; ++i) new (buf + i) T(E::mk(v[i]));
				delete a[k]; a[k] = new ArrT((const T *)buf, c, slack); r = v;
				for (uint64 i = 0; i < c; ++i) { EXPECT(E::val(buf[i]) == v[i], "argument-altered", "source buffer altered"); buf[i].~T(); }
				::operator delete(buf, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
				break;
			}
			case 31:
			{
				const uint64 cap = R.below(20); OP("capacity-construct", "constructed with capacity %llu", (unsigned long long)cap);
				if constexpr (E::trivial) { delete a[k]; a[k] = new ArrT(cap); r.clear(); }
				else { const uint64 c = R.below(cap + 1); delete a[k]; a[k] = new ArrT(cap, c); r.assign(c, 0); for (uint64 i = 0; i < c; ++i) { if constexpr (__is_same(T, CopyOnly)) new (&(*a[k])[i]) T(0); else EXPECT(E::val((*a[k])[i]) == E::dflt(), "default", "element %llu is not default constructed", (unsigned long long)i); r[i] = 0; } }
				break;
			}
			case 32: { OP("static-construct", "constructed from a static array"); const int v[4] = {fresh(), fresh(), fresh(), fresh()}; StaticArray<T, 4> s{E::mk(v[0]), E::mk(v[1]), E::mk(v[2]), E::mk(v[3])}; delete a[k]; a[k] = new ArrT(s); r.assign(v, v + 4); break; }
			case 33: if (n)
			{
				// The inserted item is an element of the array itself
				const uint64 i = R.below(n), p = R.below(n + 1); const int v = r[i], how = (int)R.below(6); OP("insert-own", "insert own element %llu (how %d, at %llu) of %llu", (unsigned long long)i, how, (unsigned long long)p, (unsigned long long)n);
				const uint64 i2 = R.below(n); const int v2 = r[i2]; const int both[2] = {v, v2};
				if (how == 0) { x.insertLast(x[i]); r.push_back(v); }
				else if (how == 1) { x.insertFirst(x[i]); r.insert(r.begin(), v); }
				else if (how == 2) { x.insertAt(p, x[i]); r.insert(r.begin() + p, v); }
				else if (how == 3) { x.insertLast(x[i], x[i2]); r.insert(r.end(), both, both + 2); }
				else if (how == 4) { x.insertFirst(x[i], x[i2]); r.insert(r.begin(), both, both + 2); }
				else { x.insertAt(p, x[i], x[i2]); r.insert(r.begin() + p, both, both + 2); }
				break;
			}
			case 34:
				if constexpr (__is_same(T, int32) || __is_same(T, uint64))
				{
					if (n > 5000) break; OP("toString", "toString()"); String s = x.toString(); EXPECT(strlen(*s) == s.getLength(), "to-string", "toString is not a proper string");
				}
				break;
			default: { const int v = fresh(); const uint64 c = huge ? 30000 + R.below(45000) : 1 + R.below(big ? 900 : 20); OP("push-many", "push %llu from %d", (unsigned long long)c, v); for (uint64 i = 0; i < c; ++i) { x.push(E::mk(v + (int)i)); r.push_back(v + (int)i); } break; }
		}
		#undef OP
		if (r.size() > 8) kv::nontrivial();
		if (r.size() > 65536) COV("elements:huge");
		if (r.size() > (huge ? 160000 : big ? 6000 : 400)) { a[k]->reset(); r.clear(); }
		for (int j = 0; j < NA; ++j) if (j == k || R.chance(1, 8)) check(j, "after the last operation");
	}

	static void run(kv::Rng & R)
	{
		int steps = 8 + (int)R.below(kv::G.thorough ? 160 : 60);
		kv::T("array of %s, %d steps", E::name(), steps);
		COV("elem-runs");
		{ ArrayWork w(R); if (w.huge) steps = 24; for (int i = 0; i < steps; ++i) w.step(); for (int j = 0; j < NA; ++j) w.check(j, "at the end"); }
		kv::expectNoLive("after the arrays were destroyed");
	}
};
