// C20: atomic values under concurrent access
#include "kv.h"
#include <thread>
#include <atomic>
#include <vector>
#include <string>
#include <algorithm>
#include <functional>
#include <limits>
#include <type_traits>
#include <unordered_set>
#include <sched.h>
#include <time.h>
#include "templates/atomic.h"
typedef kv::u64 u64; typedef long long i64;
typedef PlatformAtomics::AtomicOrder Order;

/// Starts the threads together
struct Gate { std::atomic<int> in{0}; int n; explicit Gate(int k) : n(k) {} void wait() { in.fetch_add(1); u64 s = 0; while (in.load(std::memory_order_relaxed) < n) if (++s % 512 == 0) sched_yield(); in.load(); } };
struct Noise { kv::Rng R; int level; Noise(u64 s, int l) : R(s), level(l) {} void operator()() { if (!level) return; const u64 r = R.below(64); if (level > 1 && r == 0) sched_yield(); else if (r < 8) for (volatile int i = 0, k = (int)R.below(60); i < k; ++i) ; } };
static int threadCount(kv::Rng & R) { return 2 + (int)R.below(5); }
template<typename F> static void team(int n, F f) { Gate g(n); std::vector<std::thread> t; for (int i = 0; i < n; ++i) t.emplace_back([&, i] { g.wait(); f(i); }); for (auto & x : t) x.join(); }

/* ------------------------------------------------------------------ */
/* One thread: what every operation returns and leaves behind          */
/* ------------------------------------------------------------------ */
template<typename T> struct Val
{
	/// Integers: the plain integer
	static T make(kv::Rng & R) { switch (R.below(5)) { case 0: return (T)R.below(4); case 1: return (T)(0 - R.below(4)); case 2: return (T)((u64)std::numeric_limits<T>::max() - R.below(4)); case 3: return (T)((u64)std::numeric_limits<T>::min() + R.below(4)); default: return (T)R.next(); } }
	typedef T Amount; static Amount amount(kv::Rng & R) { return make(R); }
	static bool fits(T v, Amount a, bool sub) { if (sizeof(T) < 4 || !std::is_signed<T>::value) return true; __int128 r = sub ? (__int128)v - a : (__int128)v + a; return r >= std::numeric_limits<T>::min() && r <= std::numeric_limits<T>::max(); }
	static T plus(T v, Amount a) { return (T)((u64)v + (u64)a); }
	static T minus(T v, Amount a) { return (T)((u64)v - (u64)a); }
	static u64 bits(T v) { return (u64)v; }
};
template<typename E> struct Val<E *>
{
	static E * base() { static E room[4096]; return room; }
	static E * make(kv::Rng & R) { return base() + R.below(4096); }
	typedef intp Amount; static Amount amount(kv::Rng & R) { return R.chance(1, 2) ? (intp)R.below(9) - 4 : (intp)R.below(4096) - 2048; }
	static bool fits(E * v, Amount a, bool sub) { intp i = (v - base()) + (sub ? -a : a); return i >= 0 && i <= 4096; }
	static E * plus(E * v, Amount a) { return v + a; }
	static E * minus(E * v, Amount a) { return v - a; }
	static u64 bits(E * v) { return (u64)v; }
};
struct Odd { int16 a[3]; }; struct Wide { int64 a[3]; };

template<typename T> static void sequential(kv::Rng & R, const char * name)
{
	typedef Val<T> V; T model = V::make(R); Atomic<T> * a = new Atomic<T>(model); kv::T("%s %llx", name, V::bits(model)); COVN(name, 1);
	for (int i = 0, n = 5 + (int)R.below(60); i < n; ++i)
	{
		const int op = (int)R.below(13); T got = T(), want = T(); bool skip = false; const T v = V::make(R); const typename V::Amount k = V::amount(R); kv::T("op%d %llx %llx", op, V::bits(v), (u64)k);
		switch (op)
		{
			case 0: if ((skip = !V::fits(model, 1, false))) break; got = ++*a; want = model = V::plus(model, 1); COV("seq:++x"); break;
			case 1: if ((skip = !V::fits(model, 1, false))) break; got = (*a)++; want = model; model = V::plus(model, 1); COV("seq:x++"); break;
			case 2: if ((skip = !V::fits(model, 1, true))) break; got = --*a; want = model = V::minus(model, 1); COV("seq:--x"); break;
			case 3: if ((skip = !V::fits(model, 1, true))) break; got = (*a)--; want = model; model = V::minus(model, 1); COV("seq:x--"); break;
			case 4: case 5: if ((skip = !V::fits(model, k, false))) break; got = *a += k; want = model = V::plus(model, k); COV("seq:+="); break;
			case 6: case 7: if ((skip = !V::fits(model, k, true))) break; got = *a -= k; want = model = V::minus(model, k); COV("seq:-="); break;
			case 8: got = *a = v; want = model = v; COV("seq:assign"); break;
			case 9: a->store(v); got = want = model = v; COV("seq:store"); break;
			case 10: a->store(v, Order::Relaxed); got = want = model = v; COV("seq:store-relaxed"); break;
			case 11: got = R.chance(1, 2) ? a->load() : (T)*a; want = model; COV("seq:load"); break;
			default: got = a->load(R.chance(1, 2) ? Order::Relaxed : Order::Sequential); want = model; COV("seq:load-order"); break;
		}
		if (skip) { COV("seq:out-of-range"); continue; }
		EXPECT(got == want, "sequential-result", "%s operation %d returned %llx, expected %llx", name, op, V::bits(got), V::bits(want));
		EXPECT(a->load() == model, "sequential-value", "%s operation %d left %llx, expected %llx", name, op, V::bits(a->load()), V::bits(model));
		EXPECT(a->load(Order::Relaxed) == model && (T)*a == model, "sequential-read", "%s: the ways to read a value disagree", name);
		kv::state(V::bits(model) * 31 + op);
	}
	const T keep = a->load(); (void)keep; delete a; kv::nontrivial();
}
static void single(kv::Rng & R)
{
	switch (R.below(13))
	{
		case 0: return sequential<int8>(R, "int8"); case 1: return sequential<uint8>(R, "uint8"); case 2: return sequential<int16>(R, "int16"); case 3: return sequential<uint16>(R, "uint16");
		case 4: return sequential<int32>(R, "int32"); case 5: return sequential<uint32>(R, "uint32"); case 6: return sequential<int64>(R, "int64"); case 7: return sequential<uint64>(R, "uint64");
		case 8: return sequential<int32 *>(R, "int32*"); case 9: return sequential<byte *>(R, "byte*"); case 10: return sequential<Odd *>(R, "Odd*"); case 11: return sequential<Wide *>(R, "Wide*"); default: return sequential<void **>(R, "void**");
	}
}

/* ------------------------------------------------------------------ */
/* Many threads: nothing is lost, fetched values are distinct          */
/* ------------------------------------------------------------------ */
/// Numbers a pointer or integer relative to its start, in units
template<typename T> static i64 offset(T v, T start) { return (i64)(std::make_signed_t<T>)(T)(v - start); }
template<typename E> static i64 offset(E * v, E * start) { return (i64)((const char *)v - (const char *)start); }
template<typename T> struct Unit { static constexpr i64 size = 1; }; template<typename E> struct Unit<E *> { static constexpr i64 size = sizeof(E); };

/// Threads that only move the value in one direction by k draw distinct tickets
template<typename T> static void tickets(kv::Rng & R, const char * name, T start, i64 capacity)
{
	const int n = threadCount(R); i64 per = 20 + (i64)R.below(R.chance(1, 6) ? 3000 : 300); const i64 k = sizeof(T) > 1 && R.chance(1, 3) ? 1 + (i64)R.below(5) : 1; if (per * n * k > capacity) per = capacity / n / k; const bool down = R.chance(1, 2); const u64 seed = R.next(); const int level = (int)R.below(3);
	Atomic<T> a(start); std::vector<std::vector<i64>> got(n), seen(n); kv::T("tickets %s %d threads x%lld by %lld %s", name, n, per, k, down ? "down" : "up");
	team(n, [&](int id) { Noise y(seed + id, level); kv::Rng Q(seed * 3 + id); got[id].reserve(per); for (i64 i = 0; i < per; ++i) { y(); T v; i64 before;
		if (k == 1 && Q.chance(2, 3)) { if (Q.chance(1, 2)) { v = down ? --a : ++a; before = offset(v, start) + (down ? Unit<T>::size : -Unit<T>::size); } else { v = down ? a-- : a++; before = offset(v, start); } }
		else { v = down ? a -= k : a += k; before = offset(v, start) + (down ? k : -k) * Unit<T>::size; }
		got[id].push_back(before); if (Q.chance(1, 8)) seen[id].push_back(offset(Q.chance(1, 2) ? a.load() : a.load(Order::Relaxed), start)); } });
	const i64 step = (down ? -k : k) * Unit<T>::size; std::vector<i64> all; i64 overlap = 0;
	for (int id = 0; id < n; ++id) { for (size_t i = 0; i < got[id].size(); ++i) { if (i) { EXPECT(got[id][i] / step > got[id][i - 1] / step, "ticket-order", "%s: a thread was given ticket %lld after %lld", name, got[id][i] / step, got[id][i - 1] / step); overlap += got[id][i] != got[id][i - 1] + step; } all.push_back(got[id][i]); } for (size_t i = 0; i < seen[id].size(); ++i) { const i64 s = seen[id][i]; EXPECT(s % step == 0 && s / step > 0 && s / step <= per * n, "ticket-load", "%s: a load saw %lld, which no operation stored", name, s); if (i) EXPECT(s / step >= seen[id][i - 1] / step, "ticket-monotonic", "%s: loads of a counter went backwards", name); } }
	std::sort(all.begin(), all.end(), [&](i64 x, i64 y) { return x / step < y / step; });
	for (size_t i = 0; i < all.size(); ++i) EXPECT(all[i] == (i64)i * step, i && all[i] == all[i - 1] ? "ticket-twice" : "ticket-missing", "%s: %zu-th ticket is %lld, expected %lld (%d threads)", name, i, all[i], (i64)i * step, n);
	EXPECT(offset(a.load(), start) == per * n * step, "ticket-total", "%s: value moved by %lld, expected %lld", name, offset(a.load(), start), per * n * step);
	COVN("tickets", all.size()); COVN("interleaved", overlap); if (overlap) kv::nontrivial(); COVN(down ? "tickets:down" : "tickets:up", 1); kv::state(overlap * 64 + n);
}
static void counting(kv::Rng & R)
{
	static Odd odd[20000]; static int32 ints[20000]; static Wide wide[20000]; static byte bytes[20000]; const bool mid = R.chance(1, 2); (void)mid;
	switch (R.below(11))
	{
		case 0: return tickets<uint8>(R, "uint8", (uint8)R.next(), 127); case 1: return tickets<int16>(R, "int16", (int16)R.next(), 30000); case 2: return tickets<uint16>(R, "uint16", (uint16)R.next(), 30000);
		case 3: return tickets<int32>(R, "int32", (int32)R.below(1000), 1000000); case 4: return tickets<uint32>(R, "uint32", (uint32)R.next(), 1000000); case 5: return tickets<int64>(R, "int64", (int64)R.below(1000) - 500, 1000000); case 6: return tickets<uint64>(R, "uint64", R.next(), 1000000);
		case 7: return tickets<int32 *>(R, "int32*", ints + 10000, 9999); case 8: return tickets<Odd *>(R, "Odd*", odd + 10000, 9999); case 9: return tickets<Wide *>(R, "Wide*", wide + 10000, 9999); default: return tickets<byte *>(R, "byte*", bytes + 10000, 9999);
	}
}
/// Mixed amounts and signs: only the sum is known
static void conservation(kv::Rng & R)
{
	const int n = threadCount(R), per = 50 + (int)R.below(800); const u64 seed = R.next(); const int level = (int)R.below(3); Atomic<int64> a(0); Atomic<uint16> b(7); Atomic<uint8> c(1); Atomic<uint32> d(0); std::vector<i64> sum(n); std::vector<u64> sb(n), sc(n), sd(n); kv::T("conserve %d x%d", n, per);
	team(n, [&](int id) { Noise y(seed + id, level); kv::Rng Q(seed * 5 + id); i64 last = 0; (void)last; for (int i = 0; i < per; ++i) { y(); const i64 k = (i64)Q.below(2001) - 1000; switch (Q.below(6)) { case 0: a += k; sum[id] += k; break; case 1: a -= k; sum[id] -= k; break; case 2: ++a; ++sum[id]; break; case 3: a--; --sum[id]; break; case 4: a++; ++sum[id]; break; default: --a; --sum[id]; break; } switch (Q.below(3)) { case 0: b += (uint16)k; sb[id] += (u64)k; break; case 1: c -= (uint8)k; sc[id] += (u64)k; break; default: d += (uint32)k; sd[id] += (u64)k; break; } } });
	i64 s = 0; u64 tb = 7, tc = 1, td = 0; for (int i = 0; i < n; ++i) { s += sum[i]; tb += sb[i]; tc -= sc[i]; td += sd[i]; }
	EXPECT(a.load() == s, "lost", "%d threads: sum is %lld, expected %lld", n, (i64)a.load(), s); EXPECT(b.load() == (uint16)tb, "lost", "16 bit sum is %u, expected %u", (unsigned)b.load(), (unsigned)(uint16)tb); EXPECT(c.load() == (uint8)tc, "lost", "8 bit sum is %u, expected %u", (unsigned)c.load(), (unsigned)(uint8)tc); EXPECT(d.load() == (uint32)td, "lost", "32 bit sum is %u, expected %u", (unsigned)d.load(), (unsigned)(uint32)td);
	COVN("conserved", (u64)n * per); kv::nontrivial(); kv::state((u64)s);
}
/// Neighbours in memory do not disturb each other, and values are never torn
static void tearing(kv::Rng & R)
{
	struct Pack { Atomic<uint8> a; Atomic<uint8> b; Atomic<uint16> c; Atomic<uint32> d; Atomic<uint64> e; Atomic<int32 *> p; Pack() : a(0), b(0), c(0), d(0), e(0), p(nullptr) {} } x; static int32 room[64];
	const int writers = 1 + (int)R.below(3), n = writers + 1 + (int)R.below(3), per = 100 + (int)R.below(900); const u64 seed = R.next(); std::atomic<int> bad{0}; std::atomic<u64> reads{0}; std::vector<u64> distinct(n); kv::T("tear %d/%d x%d", writers, n, per);
	team(n, [&](int id) { kv::Rng Q(seed + id); u64 last = 0, changes = 0; if (id < writers) for (int i = 0; i < per; ++i) { const u64 v = 1 + Q.below(255), w = v * 0x0101010101010101ull; switch (Q.below(6)) { case 0: if (Q.chance(1, 2)) x.a.store((uint8)(v | 1)); else x.a = (uint8)(v | 1); break; case 1: x.b.store((uint8)(v & ~1), Order::Relaxed); break; case 2: x.c.store((uint16)w, Q.chance(1, 2) ? Order::Relaxed : Order::Sequential); break; case 3: x.d.store((uint32)w, Q.chance(1, 2) ? Order::Relaxed : Order::Sequential); break; case 4: if (Q.chance(1, 2)) x.e = w; else x.e.store(w, Order::Relaxed); break; default: x.p = room + v % 64; break; } }
		else for (int i = 0; i < per; ++i) { const Order o = Q.chance(1, 2) ? Order::Relaxed : Order::Sequential; const uint8 a = x.a.load(o), b = x.b.load(o); if (a && !(a & 1)) bad = 1; if (b & 1) bad = 2; const uint16 c = x.c.load(o); if ((c & 255) != c >> 8) bad = 3; const uint32 d = x.d.load(o); if (d != (d & 255) * 0x01010101u) bad = 4; const u64 e = x.e.load(o); if (e != (e & 255) * 0x0101010101010101ull) bad = 5; int32 * p = x.p.load(o); if (p && (p < room || p >= room + 64 || ((char *)p - (char *)room) % 4)) bad = 6; if (e != last) ++changes, last = e; }
		distinct[id] = changes; });
	EXPECT(bad.load() == 0, "torn", "a load saw a value nobody stored (field %d)", bad.load()); u64 ch = 0; for (u64 v : distinct) ch += v; COVN("observed-changes", ch); if (ch) kv::nontrivial(); kv::state(ch);
}

/* ------------------------------------------------------------------ */
/* Visibility and ordering                                             */
/* ------------------------------------------------------------------ */
/// Data published through a sequential store, fetched by whoever sees it
static void publication(kv::Rng & R)
{
	const int readers = 1 + (int)R.below(4), rounds = 4 + (int)R.below(30), width = 1 + (int)R.below(6); struct Slot { i64 data[8]; }; std::vector<Slot> slots(rounds); for (auto & s : slots) for (auto & v : s.data) v = -1; const u64 seed = R.next(); const int how = (int)R.below(4);
	Atomic<int32> ready(0); Atomic<Slot *> head((Slot *)nullptr); std::atomic<int> bad{0}; std::atomic<u64> seen{0}; const int level = (int)R.below(3); kv::T("publish to %d, %d rounds, by %d", readers, rounds, how);
	team(readers + 1, [&](int id) { Noise y(seed + id, level); if (id == 0) for (int i = 0; i < rounds; ++i) { for (int k = 0; k < width; ++k) slots[i].data[k] = i * 100 + k; y(); switch (how) { case 0: ready.store(i + 1); break; case 1: ready = i + 1; break; case 2: ++ready; break; default: head = &slots[i]; break; } y(); }
		else { i64 last = 0; u64 spins = 0; do { i64 r; if (how == 3) { Slot * p = id & 1 ? (Slot *)head : head.load(); r = p ? p - slots.data() + 1 : 0; } else r = id & 1 ? (int32)ready : ready.load(); if (r < last) bad = 2; for (i64 i = last; i < r; ++i) { for (int k = 0; k < width; ++k) if (slots[i].data[k] != i * 100 + k) bad = 1; seen.fetch_add(1, std::memory_order_relaxed); } last = r; if (++spins % 64 == 0) sched_yield(); } while (last < rounds); } });
	EXPECT(bad.load() == 0, "stale", bad.load() == 1 ? "a reader saw the flag but not what was written before it" : "a published value was withdrawn"); EXPECT(seen.load() == (u64)readers * rounds, "unseen", "a published round was never seen"); COVN("published", seen.load()); COVN(how == 0 ? "publish:store" : how == 1 ? "publish:assign" : how == 2 ? "publish:increment" : "publish:pointer", 1); kv::nontrivial(); kv::state(seen.load() * 4 + how);
}
/// Reference counting hands the last owner everything the others wrote
static void ownership(kv::Rng & R)
{
	const int n = threadCount(R), rounds = 3 + (int)R.below(20); const u64 seed = R.next(); const int level = (int)R.below(3); struct Obj { Atomic<int32> refs; std::vector<int> marks; int freed = 0; Obj(int k) : refs(k), marks(k) {} }; std::vector<Obj *> o; for (int i = 0; i < rounds; ++i) o.push_back(new Obj(n)); std::atomic<int> last{0}, bad{0}; kv::T("ownership %d x%d", n, rounds);
	team(n, [&](int id) { Noise y(seed + id, level); kv::Rng Q(seed * 7 + id); for (int i = 0; i < rounds; ++i) { y(); o[i]->marks[id] = id + 1; const bool mine = Q.chance(1, 3) ? --o[i]->refs == 0 : Q.chance(1, 2) ? o[i]->refs-- == 1 : (o[i]->refs -= 1) == 0; if (mine) { ++last; for (int k = 0; k < n; ++k) if (o[i]->marks[k] != k + 1) bad = 1; ++o[i]->freed; } } });
	for (Obj * x : o) { EXPECT(x->freed == 1, "owners", "%d threads believed to be the last owner", x->freed); delete x; } EXPECT(bad.load() == 0, "owner-stale", "the last owner did not see what another wrote"); COVN("last-owner", last.load()); kv::nontrivial(); kv::state(last.load() * 8 + n);
}
/// Store buffering: of two threads that store and then load the other, one sees the other's store
static void storeBuffer(kv::Rng & R)
{
	const int rounds = 50 + (int)R.below(300), how = (int)R.below(4); struct alignas(128) Cell { Atomic<int32> v; Cell() : v(0) {} }; static_assert(sizeof(Cell) == 128, ""); std::vector<std::unique_ptr<Cell>> x, y; for (int i = 0; i < rounds; ++i) { x.emplace_back(new Cell); y.emplace_back(new Cell); } std::vector<int> r0(rounds), r1(rounds); std::atomic<int> turn{0}; kv::T("store buffering x%d by %d", rounds, how);
	auto side = [&](Cell & own, Cell & other) -> int { switch (how) { case 0: own.v.store(1); return other.v.load(); case 1: own.v = 1; return (int32)other.v; case 2: ++own.v; return other.v.load(); default: own.v += 1; return (int32)other.v; } };
	team(2, [&](int id) { for (int i = 0; i < rounds; ++i) { turn.fetch_add(1); u64 s = 0; while (turn.load(std::memory_order_relaxed) < 2 * (i + 1)) if (++s % 512 == 0) sched_yield(); if (id == 0) r0[i] = side(*x[i], *y[i]); else r1[i] = side(*y[i], *x[i]); } });
	int both = 0; for (int i = 0; i < rounds; ++i) { EXPECT(r0[i] | r1[i], "store-buffer", "both threads missed the other's store (round %d of %d, kind %d)", i, rounds, how); both += r0[i] && r1[i]; } COVN("rounds", rounds); COVN("both-saw", both); COVN(how == 0 ? "sb:store" : how == 1 ? "sb:assign" : how == 2 ? "sb:increment" : "sb:add", 1); if (both < rounds) kv::nontrivial(); kv::state(both);
}
/// Two readers may not disagree on the order of two independent stores
static void independentReads(kv::Rng & R)
{
	const int rounds = 30 + (int)R.below(150), how = (int)R.below(2); struct alignas(128) Cell { Atomic<uint8> v; Cell() : v(0) {} }; std::vector<std::unique_ptr<Cell>> x, y; for (int i = 0; i < rounds; ++i) { x.emplace_back(new Cell); y.emplace_back(new Cell); } struct Got { int a, b; }; std::vector<Got> p(rounds), q(rounds); std::atomic<int> turn{0}; kv::T("independent reads x%d", rounds);
	team(4, [&](int id) { for (int i = 0; i < rounds; ++i) { turn.fetch_add(1); u64 s = 0; while (turn.load(std::memory_order_relaxed) < 4 * (i + 1)) if (++s % 256 == 0) sched_yield(); switch (id) { case 0: if (how) x[i]->v = 1; else ++x[i]->v; break; case 1: if (how) y[i]->v.store(1); else y[i]->v++; break; case 2: p[i].a = x[i]->v.load(); p[i].b = y[i]->v.load(); break; default: q[i].a = y[i]->v.load(); q[i].b = x[i]->v.load(); break; } } });
	int split = 0; for (int i = 0; i < rounds; ++i) { EXPECT(!(p[i].a && !p[i].b && q[i].a && !q[i].b), "disagree", "two readers saw two stores in opposite orders"); split += p[i].a != p[i].b || q[i].a != q[i].b; } COVN("reads-split", split); COVN("rounds", rounds); if (split) kv::nontrivial(); kv::state(split);
}
/// Mutual exclusion built from tickets
static void ticketLock(kv::Rng & R)
{
	const int n = 2 + (int)R.below(3), per = 20 + (int)R.below(100); Atomic<uint32> next(0), serving(0); i64 plain = 0; std::atomic<int> inside{0}, bad{0}; const u64 seed = R.next(); kv::T("ticket lock %d x%d", n, per);
	team(n, [&](int id) { Noise y(seed + id, 1); for (int i = 0; i < per; ++i) { const uint32 mine = next++; u64 s = 0; while ((uint32)serving != mine) if (++s % 16 == 0) sched_yield(); if (inside.fetch_add(1, std::memory_order_relaxed)) bad = 1; const i64 v = plain; y(); plain = v + 1; inside.fetch_sub(1, std::memory_order_relaxed); if (i & 1) serving = mine + 1; else ++serving; } });
	EXPECT(!bad.load() && plain == (i64)n * per, "lock", "threads met inside a ticket lock (%lld of %lld)", plain, (i64)n * per); COVN("critical-sections", plain); kv::nontrivial(); kv::state(plain);
}
/// The platform's exchange hands every token to one thread
static void exchanges(kv::Rng & R)
{
	const int n = threadCount(R), per = 20 + (int)R.below(400); volatile u64 slot = 0; std::vector<std::vector<u64>> got(n); volatile u64 * s = &slot; kv::T("exchange %d x%d", n, per);
	team(n, [&](int id) { for (int i = 0; i < per; ++i) got[id].push_back(PlatformAtomics::exchange(s, (u64)id * per + i + 1)); });
	std::vector<u64> all; u64 foreign = 0; for (int id = 0; id < n; ++id) for (u64 v : got[id]) { all.push_back(v); foreign += v && (v - 1) / per != (u64)id; } all.push_back((u64)slot); std::sort(all.begin(), all.end()); for (size_t i = 0; i < all.size(); ++i) EXPECT(all[i] == i, "exchange", "token %zu was taken twice or lost", i); COVN("exchanged", all.size()); if (foreign) kv::nontrivial(); COVN("exchanged-between", foreign); kv::state(foreign);
}

/* ------------------------------------------------------------------ */
/* Linearizability of small recorded histories                         */
/* ------------------------------------------------------------------ */
/// A logical clock: stamps respect real time, and cost one locked instruction
static std::atomic<u64> logical{0}; static u64 now() { return logical.fetch_add(1); }
template<typename T> struct Ev { int op; T arg, ret; u64 from, to; };
template<typename T> static T apply(int op, T v, T arg, T & ret) { switch (op) { case 0: return ret = (T)(v + 1); case 1: ret = v; return (T)(v + 1); case 2: return ret = (T)(v - 1); case 3: ret = v; return (T)(v - 1); case 4: return ret = (T)(v + arg); case 5: return ret = (T)(v - arg); case 6: ret = v; return v; default: ret = arg; return arg; } }
/// Wing & Gong search with memoization
template<typename T> struct Search
{
	const std::vector<std::vector<Ev<T>>> & h; std::unordered_set<u64> dead; std::vector<size_t> at; u64 nodes = 0; Search(const std::vector<std::vector<Ev<T>>> & x) : h(x), at(x.size()) {}
	bool run(T v, T final)
	{
		++nodes; u64 key = (u64)v; bool done = true; u64 horizon = ~0ull; for (size_t i = 0; i < h.size(); ++i) { key = kv::mix(key * 37 + at[i] + 1); if (at[i] < h[i].size()) { done = false; horizon = std::min(horizon, h[i][at[i]].to); } }
		if (done) return v == final; if (dead.count(key)) return false;
		for (size_t i = 0; i < h.size(); ++i) if (at[i] < h[i].size() && h[i][at[i]].from <= horizon) { const Ev<T> & e = h[i][at[i]]; T ret; const T w = apply<T>(e.op, v, e.arg, ret); if (ret != e.ret) continue; ++at[i]; if (run(w, final)) return true; --at[i]; }
		dead.insert(key); return false;
	}
};
template<typename T> static void histories(kv::Rng & R, const char * name)
{
	const int n = 2 + (int)R.below(4), per = 2 + (int)R.below(12); const u64 seed = R.next(); const T init = (T)R.below(100); Atomic<T> a(init); const int mix = (int)R.below(3); std::vector<std::vector<Ev<T>>> h(n); kv::T("history %s %d x%d mix %d", name, n, per, mix);
	team(n, [&](int id) { kv::Rng Q(seed + id); auto & v = h[id]; v.reserve(per); for (int i = 0; i < per; ++i) { Ev<T> e; e.op = mix == 0 ? (int)Q.below(8) : mix == 1 ? (int)Q.below(6) : Q.chance(1, 2) ? 6 : 7 - 7 * (int)Q.below(2); e.arg = (T)Q.below(100); e.from = now(); switch (e.op) { case 0: e.ret = ++a; break; case 1: e.ret = a++; break; case 2: e.ret = --a; break; case 3: e.ret = a--; break; case 4: e.ret = a += e.arg; break; case 5: e.ret = a -= e.arg; break; case 6: e.ret = a.load(); break; default: e.ret = a = e.arg; break; } e.to = now(); v.push_back(e); } });
	u64 over = 0; for (int i = 0; i < n; ++i) for (auto & e : h[i]) for (int k = 0; k < n; ++k) if (k != i) for (auto & f : h[k]) over += e.from < f.to && f.from < e.to;
	Search<T> s(h); const bool ok = s.run(init, a.load());
	if (!ok) for (int i = 0; i < n; ++i) for (auto & e : h[i]) kv::T("t%d op%d(%lld)=%lld [%llu,%llu]", i, e.op, (i64)e.arg, (i64)e.ret, e.from - h[0][0].from, e.to - h[0][0].from);
	EXPECT(ok, "not-linearizable", "%s: no order of %d operations of %d threads explains their results", name, n * per, n);
	COVN("history-events", (u64)n * per); COVN("concurrent-pairs", over / 2); COVN("search-nodes", s.nodes); if (over) { kv::nontrivial(); COV("concurrent-history"); } kv::state(kv::mix((u64)a.load() * 131 + over));
}
static void linear(kv::Rng & R) { for (int i = 0; i < 8; ++i) switch (R.below(5)) { case 0: histories<int32>(R, "int32"); break; case 1: histories<uint64>(R, "uint64"); break; case 2: histories<uint16>(R, "uint16"); break; case 3: histories<int64>(R, "int64"); break; default: histories<uint8>(R, "uint8"); break; } }
KV_MAIN({"single", single, false}, {"counting", counting, false}, {"conservation", conservation, false}, {"tearing", tearing, false}, {"publication", publication, false}, {"ownership", ownership, false}, {"storebuffer", storeBuffer, false}, {"independentreads", independentReads, false}, {"ticketlock", ticketLock, false}, {"exchange", exchanges, false}, {"linear", linear, false})
