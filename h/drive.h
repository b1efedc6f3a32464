// Oracle-free random drivers over all container types, shared by the
// lifetime (C02), allocator (C03) and copy (C12) monitors. Values are built
// through Elem<T>. The driver decides from sizes only, so that two containers
// with equal contents take the same operations for the same random state.
#pragma once
#include "elems.h"
#include <vector>
#include <algorithm>
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"

typedef std::vector<int> Snap;

template<typename C> struct Ad;

template<typename T> struct Ad<Array<T>>
{
	using C = Array<T>; using E = Elem<T>; static constexpr bool emptiesSource = true;
	static const char * name() { return "array"; }
	static uint64 count(const C & x) { return x.getCount(); }
	static Snap snap(const C & x) { Snap s; for (const auto & e : x) s.push_back(E::val(e)); s.push_back(-9000000 - (int)x.getCount()); for (uint64 i = 0; i < x.getCount(); ++i) s.push_back(E::val(x[i])); return s; }
	static void build(C & x, const Snap & s) { for (int v : s) x.add(E::mk(v)); }
	static Snap values(const C & x) { Snap s; for (const auto & e : x) s.push_back(E::val(e)); return s; }
	template<typename F> static void addresses(C & x, F f) { if (x.getCount()) f((const void *)*x, x.getCount() * sizeof(T), alignof(T)); }
	static void step(kv::Rng & R, C & x)
	{
		const uint64 n = x.getCount(); const int v = (int)R.below(1000), op = (int)R.below(17); kv::T(" array op %d on %llu", op, (unsigned long long)n);
		switch (op)
		{
			case 0: case 1: x.add(E::mk(v)); break;
			case 2: { const T e = E::mk(v); x.insertLast(e); break; }
			case 3: { const T e = E::mk(v); x.insertLast(E::mk(v + 1), e, E::mk(v + 2)); break; }
			case 4: x.insertFirst(E::mk(v)); break;
			case 5: { const T e = E::mk(v); x.insertFirst(e, E::mk(v + 1)); break; }
			case 6: x.insertAt(R.below(n + 1), E::mk(v)); break;
			case 7: { const T e = E::mk(v); x.insertAt(R.below(n + 1), E::mk(v + 1), e, E::mk(v + 3)); break; }
			case 8: if (n) { const uint64 i = R.below(n), c = R.below(n - i + 1); x.removeAt(i, c); } break;
			case 9: if (n) x.removeAt(R.below(n)); break;
			case 10: if (n) { if (R.chance(1, 2)) x.removeFirst(); else x.removeLast(); } break;
			case 11: if (n) { T out = E::mk(-1); if (R.chance(1, 2)) x.popAt(R.below(n), out); else if (R.chance(1, 2)) x.popFirst(out); else x.popLast(out); } break;
			case 12: if (n) x[R.below(n)] = E::mk(v); break;
			case 13: if (R.chance(1, 4)) x.empty(); break;
			case 14: if (R.chance(1, 4)) x.reset(); break;
			case 15: x(n, E::mk(v)); break;
			default: for (uint64 c = R.below(9); c > 0; --c) x.push(E::mk(v + (int)c)); break;
		}
	}
};

template<typename T> struct Ad<List<T>>
{
	using C = List<T>; using E = Elem<T>; static constexpr bool emptiesSource = true;
	static const char * name() { return "list"; }
	static uint64 count(const C & x) { uint64 c = 0; for (auto * l = x.getHead(); l; l = l->next) ++c; return c; }
	static Snap snap(const C & x) { Snap s; for (auto * l = x.getHead(); l; l = l->next) s.push_back(E::val(l->data)); s.push_back(-9000000 - (int)x.getLength()); for (auto * l = x.getTail(); l; l = l->prev) s.push_back(E::val(l->data)); return s; }
	static void build(C & x, const Snap & s) { for (int v : s) x.pushBack(E::mk(v)); }
	static Snap values(const C & x) { Snap s; for (auto * l = x.getHead(); l; l = l->next) s.push_back(E::val(l->data)); return s; }
	template<typename F> static void addresses(C & x, F f) { for (auto * l = x.getHead(); l; l = l->next) f((const void *)l, sizeof(*l), alignof(Link<T>)); }
	static void step(kv::Rng & R, C & x)
	{
		const uint64 n = x.getLength(); const int v = (int)R.below(1000), op = (int)R.below(13); kv::T(" list op %d on %llu", op, (unsigned long long)n);
		switch (op)
		{
			case 0: case 1: x.pushBack(E::mk(v)); break;
			case 2: { const T e = E::mk(v); x.pushFront(e); break; }
			case 3: { const T e = E::mk(v); x.pushBack(E::mk(v + 1), e, E::mk(v + 2)); break; }
			case 4: x.pushFront(E::mk(v), E::mk(v + 1)); break;
			case 5: case 6: if (n) { auto it = x.begin(); for (uint64 i = R.below(n); i > 0; --i) ++it; x.remove(it); } break;
			case 7: if (R.chance(1, 2)) x.removeBack(); else x.removeFront(); break;
			case 8: { T out = E::mk(-1); if (R.chance(1, 2)) x.popBack(out); else x.popFront(out); break; }
			case 9: if (n) { auto it = x.begin(); for (uint64 i = R.below(n); i > 0; --i) ++it; *it = E::mk(v); } break;
			case 10: if (R.chance(1, 4)) x.empty(); break;
			case 11: if (n) { auto * l = R.chance(1, 2) ? x.getHead() : x.getTail(); x.remove(l); } break;
			default: for (uint64 c = R.below(9); c > 0; --c) x.pushBack(E::mk(v + (int)c)); break;
		}
	}
};

template<typename T> struct Ad<BinaryTree<T>>
{
	using C = BinaryTree<T>; using E = Elem<T>; static constexpr bool emptiesSource = true;
	static const char * name() { return "tree"; }
	static uint64 count(const C & x) { uint64 c = 0; for (auto it = x.begin(); it != x.end(); ++it) ++c; return c; }
	static Snap snap(const C & x) { Snap s; for (const auto & e : x) s.push_back(E::val(e)); s.push_back(-9000000 - (int)x.getNumNodes()); for (typename C::ConstIterator it{x.getMax()}; it != x.end(); --it) s.push_back(E::val(*it)); for (const auto & e : x) if (!x.findNode(e)) s.push_back(-8000000); return s; }
	static void build(C & x, const Snap & s) { for (int v : s) x.insert(E::mk(v)); }
	static Snap values(const C & x) { Snap s; for (const auto & e : x) s.push_back(E::val(e)); return s; }
	template<typename F> static void addresses(C & x, F f) { for (auto * l = x.getMin(); l; l = l->next) f((const void *)l, sizeof(*l), alignof(typename C::NodeT)); }
	static void step(kv::Rng & R, C & x)
	{
		const uint64 n = x.getNumNodes(); const int v = (int)R.below(R.chance(1, 2) ? 12 : 300), op = (int)R.below(13); kv::T(" tree op %d on %llu", op, (unsigned long long)n);
		switch (op)
		{
			case 0: case 1: x.insert(E::mk(v)); break;
			case 2: { const T e = E::mk(v); x.insert(E::mk(v + 1), e, E::mk(v + 2)); break; }
			case 3: { const T e = E::mk(v); x.insertUnique(e); break; }
			case 4: x.insertUnique(E::mk(v), E::mk(v + 1)); break;
			case 5: x.replace(E::mk(v)); break;
			case 6: { const T e = E::mk(v); x.replace(e); break; }
			case 7: case 8: if (n) { auto it = x.begin(); for (uint64 i = R.below(n); i > 0; --i) ++it; x.remove(it); } break;
			case 9: x.remove(E::mk(v)); break;
			case 10: if (R.chance(1, 5)) x.empty(); break;
			case 11: if (n) x.removeNode(R.chance(1, 2) ? x.getMax() : x.getMin()); break;
			default: for (uint64 c = R.below(9); c > 0; --c) x.insert(E::mk(v + (int)c * 5)); break;
		}
	}
};

template<typename K, typename V, typename M> struct Ad<Map<K, V, ThreeWayCompare, M>>
{
	using C = Map<K, V, ThreeWayCompare, M>; using E = Elem<K>; using EV = Elem<V>; static constexpr bool emptiesSource = true;
	static const char * name() { return "map"; }
	static uint64 count(const C & x) { uint64 c = 0; for (auto it = x.begin(); it != x.end(); ++it) c += 2; return c; }
	static Snap snap(const C & x) { Snap s = values(x); s.push_back(-9000000 - (int)x.getCount()); for (const auto & e : x) if (!x.has(e.first)) s.push_back(-8000000); return s; }
	static void build(C & x, const Snap & s) { for (size_t i = 0; i + 1 < s.size(); i += 2) x.insert(E::mk(s[i]), EV::mk(s[i + 1])); }
	static Snap values(const C & x) { Snap s; for (const auto & e : x) { s.push_back(E::val(e.first)); s.push_back(EV::val(e.second)); } return s; }
	template<typename F> static void addresses(C & x, F f) { for (auto it = x.begin(); it != x.end(); ++it) f((const void *)&*it, sizeof(*it), alignof(Pair<K, V, ThreeWayCompare>)); }
	static void step(kv::Rng & R, C & x)
	{
		const uint64 n = x.getCount(); const int k = (int)R.below(R.chance(1, 2) ? 12 : 300), v = (int)R.below(1000), op = (int)R.below(12); kv::T(" map op %d on %llu", op, (unsigned long long)n);
		switch (op)
		{
			case 0: case 1: x[E::mk(k)] = EV::mk(v); break;
			case 2: { const K kk = E::mk(k); x[kk]; break; }
			case 3: x.insert(E::mk(k), EV::mk(v)); break;
			case 4: { const K kk = E::mk(k); const V vv = EV::mk(v); x.insert(kk, vv); break; }
			case 5: case 6: if (n) { auto it = x.begin(); for (uint64 i = R.below(n); i > 0; --i) ++it; x.remove(it); } break;
			case 7: x.remove(E::mk(k)); break;
			case 8: { V out = EV::mk(-1); x.pop(E::mk(k), out); break; }
			case 9: { V out = EV::mk(-1); x.find(E::mk(k), out); break; }
			case 10: if (n) { auto it = x.begin(); for (uint64 i = R.below(n); i > 0; --i) ++it; it->second = EV::mk(v); } break;
			default: for (uint64 c = R.below(9); c > 0; --c) x[E::mk(k + (int)c * 7)] = EV::mk(v); break;
		}
	}
};

template<typename T, typename M> struct Ad<Set<T, ThreeWayCompare, M>>
{
	using C = Set<T, ThreeWayCompare, M>; using E = Elem<T>; static constexpr bool emptiesSource = true;
	static const char * name() { return "set"; }
	static uint64 count(const C & x) { uint64 c = 0; for (auto it = x.begin(); it != x.end(); ++it) ++c; return c; }
	static Snap snap(const C & x) { Snap s = values(x); s.push_back(-9000000 - (int)x.getSize()); for (const auto & e : x) if (!x.get(e)) s.push_back(-8000000); return s; }
	static void build(C & x, const Snap & s) { for (int v : s) x.set(E::mk(v)); }
	static Snap values(const C & x) { Snap s; for (const auto & e : x) s.push_back(E::val(e)); return s; }
	template<typename F> static void addresses(C & x, F f) { for (auto it = x.begin(); it != x.end(); ++it) f((const void *)&*it, sizeof(T), alignof(T)); }
	static void step(kv::Rng & R, C & x)
	{
		const uint64 n = x.getSize(); const int v = (int)R.below(R.chance(1, 2) ? 12 : 300), op = (int)R.below(10); kv::T(" set op %d on %llu", op, (unsigned long long)n);
		switch (op)
		{
			case 0: case 1: x.set(E::mk(v)); break;
			case 2: { const T e = E::mk(v); x.set(E::mk(v + 1), e, E::mk(v + 2)); break; }
			case 3: { const T e = E::mk(v); x.set(e); break; }
			case 4: x.remove(E::mk(v)); break;
			case 5: { T out = E::mk(-1); x.remove(E::mk(v), out); break; }
			case 6: case 7: case 8: { C o; for (uint64 c = R.below(8); c > 0; --c) o.set(E::mk((int)R.below(12))); if (op == 6) x += o; else if (op == 7) { if (R.chance(1, 3)) x *= o; } else x -= o; break; }
			default: for (uint64 c = R.below(9); c > 0; --c) x.set(E::mk(v + (int)c * 5)); break;
		}
	}
};

/// Strings: snapshot of characters; a moved-from string is only required to be usable
template<> struct Ad<String>
{
	using C = String; static constexpr bool emptiesSource = false;
	static const char * name() { return "string"; }
	static uint64 count(const C & x) { return x.getLength(); }
	static Snap values(const C & x) { Snap s; const char * p = *x; const uint64 n = x.getLength(); for (uint64 i = 0; i < n; ++i) s.push_back(p[i]); return s; }
	static Snap snap(const C & x) { Snap s = values(x); s.push_back(-9000000 - (int)x.getLength()); if (x.getLength()) s.push_back((*x)[x.getLength()]); return s; }
	static void build(C & x, const Snap & s) { for (int v : s) x += (char)v; }
	template<typename F> static void addresses(C &, F) {}
	static void step(kv::Rng & R, C & x)
	{
		const uint64 n = x.getLength(); const int op = (int)R.below(8); kv::T(" string op %d on %llu", op, (unsigned long long)n);
		char b[64]; uint64 l = R.below(20); for (uint64 i = 0; i < l; ++i) b[i] = (char)('a' + R.below(26)); b[l] = 0;
		switch (op)
		{
			case 0: case 1: x += (const char *)b; break;
			case 2: x += 'q'; break;
			case 3: x += x; break;
			case 4: x += (int32)R.below(100000); break;
			case 5: if (n) (*x)[R.below(n)] = 'Z'; break;
			case 6: x = String{(const char *)b}; break;
			default: if (n) { const uint64 i = R.below(n); x = x.substr(i, R.below(n - i + 1)); } break;
		}
		if (n > 400) x = String{"short"};
	}
};
