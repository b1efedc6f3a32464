// Element kinds used by the container workloads
#pragma once
#include "tracked.h"
#include <string>
#include "containers/string.h"

/// Trivially copyable, but with a non-trivial default constructor
struct PodDef
{
	int32 a = 7; int64 b = 9; ubyte c[5] = {1, 2, 3, 4, 5};
	PodDef() = default;
	PodDef(int x) : a(x), b(x * 3ll) { c[2] = (ubyte)x; }
	bool operator==(const PodDef & o) const { return a == o.a; }
};
/// Trivial aggregate with odd size
struct Pod3 { ubyte x[3]; };
/// Trivial default constructor, but owning-style copy semantics
struct CopyOnly
{
	CopyOnly() = default;
	int v; const CopyOnly * self;
	CopyOnly(int x) : v(x), self(this) {}
	CopyOnly(const CopyOnly & o) : v(o.v), self(this) { if (o.self != &o) kv::fail("dead-access", "copy of an element that was relocated bytewise"); }
	CopyOnly & operator=(const CopyOnly & o) { if (self != this || o.self != &o) kv::fail("dead-access", "assignment involving an element relocated bytewise"); v = o.v; return *this; }
};

template<typename T> struct Elem;
template<> struct Elem<int32>	{ static constexpr bool trivial = true, bulk = true;  static const char * name() { return "int32"; }	static int32 mk(int v) { return v; } static int val(const int32 & x) { return x; } static int dflt() { return 0; } };
template<> struct Elem<uint64>	{ static constexpr bool trivial = true, bulk = true;  static const char * name() { return "uint64"; }	static uint64 mk(int v) { return (uint64)v; } static int val(const uint64 & x) { return (int)x; } static int dflt() { return 0; } };
template<> struct Elem<PodDef>	{ static constexpr bool trivial = true, bulk = true;  static const char * name() { return "PodDef"; }	static PodDef mk(int v) { return PodDef(v); } static int val(const PodDef & x) { return (x.b == x.a * 3ll && x.c[2] == (ubyte)x.a && x.c[0] == 1 && x.c[4] == 5) || (x.a == 7 && x.b == 9) ? x.a : -999999; } static int dflt() { return 7; } };
template<> struct Elem<Pod3>	{ static constexpr bool trivial = true, bulk = true;  static const char * name() { return "Pod3"; }	static Pod3 mk(int v) { return Pod3{{(ubyte)v, (ubyte)(v >> 8), (ubyte)(v >> 16)}}; } static int val(const Pod3 & x) { return x.x[0] | x.x[1] << 8 | x.x[2] << 16; } static int dflt() { return 0; } };
template<> struct Elem<CopyOnly>{ static constexpr bool trivial = false, bulk = false; static const char * name() { return "CopyOnly"; } static CopyOnly mk(int v) { return CopyOnly(v); } static int val(const CopyOnly & x) { if (x.self != &x) kv::fail("dead-access", "element was relocated bytewise or never constructed"); return x.v; } static int dflt() { return 0; } };
template<int t, int a> struct Elem<kv::Tracked<t, a>> { static constexpr bool trivial = false, bulk = false; static const char * name() { return a > 8 ? "TrackedA" : "Tracked"; } static kv::Tracked<t, a> mk(int v) { return kv::Tracked<t, a>(v); } static int val(const kv::Tracked<t, a> & x) { return x.get(); } static int dflt() { return 0; } };
template<> struct Elem<String>
{
	static constexpr bool trivial = false, bulk = false; static const char * name() { return "String"; }
	static String mk(int v) { char b[64]; snprintf(b, sizeof(b), v % 3 ? "%d" : "a rather long string value %d", v); return String{(const char *)b}; }
	static int val(const String & s) { const char * p = *s; if (!p || strlen(p) != s.getLength()) return -999998; const char * q = strrchr(p, ' '); return atoi(q ? q + 1 : p); }
	static int dflt() { return 0; }
};
