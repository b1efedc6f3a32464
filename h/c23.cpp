// Function wrapper monitor: histories over several wrappers, each mirrored by
// the state of the target it must own; captured objects are lifetime-tracked.
#include "templates/function.h"
#include "elems.h"
#include "containers/array.h"

typedef int32 Fn(int32, int32 &);
enum Kind { EMPTY, LAMBDA, TRACKED, ALIGNED, FUNCTOR, STRING, BIG, POINTER_A, POINTER_B, KINDS };
static int32 pointerA(int32 x, int32 & out) { out = x + 1; return x * 3; }
static int32 pointerB(int32 x, int32 & out) { out = x - 1; return x * 5; }
struct State { int kind = EMPTY, base = 0, calls = 0; };
static int32 result(State & s, int32 x, int32 & out)
{
	if (s.kind == POINTER_A) return pointerA(x, out);
	if (s.kind == POINTER_B) return pointerB(x, out);
	++s.calls; out = x ^ s.base; return s.base * 31 + s.calls * 7 + x;
}
struct Functor
{
	kv::Tracked<7> base; int calls; char pad[3];
	Functor(int b) : base(b), calls(0) {}
	int32 operator()(int32 x, int32 & out) { ++calls; out = x ^ base.get(); return base.get() * 31 + calls * 7 + x; }
};
static Function<Fn> make(kv::Rng & R, State & s, int kind, int base)
{
	s.kind = kind; s.base = base; s.calls = 0; int calls = 0;
	switch (kind)
	{
		case LAMBDA: { auto f = [base, calls](int32 x, int32 & out) mutable { ++calls; out = x ^ base; return base * 31 + calls * 7 + x; }; if (R.chance(1, 2)) return Function<Fn>(move(f)); Function<Fn> w(f); int32 o; f(1, o); f(2, o); return w; }
		case TRACKED: { kv::Tracked<> t(base); auto f = [t, calls](int32 x, int32 & out) mutable { ++calls; out = x ^ t.get(); return t.get() * 31 + calls * 7 + x; }; if (R.chance(1, 2)) return Function<Fn>(f); const auto & c = f; return Function<Fn>(c); }
		case ALIGNED: { if (R.chance(1, 2)) { kv::Tracked<5, 256> t(base); return Function<Fn>([t, calls](int32 x, int32 & out) mutable { ++calls; out = x ^ t.get(); return t.get() * 31 + calls * 7 + x; }); } kv::Tracked<3, 32> t(base); return Function<Fn>([t, calls](int32 x, int32 & out) mutable { ++calls; out = x ^ t.get(); return t.get() * 31 + calls * 7 + x; }); }
		case FUNCTOR: { Functor f(base); if (R.chance(1, 2)) return Function<Fn>(Functor(base)); Function<Fn> w(f); int32 o; f(4, o); f.base = kv::Tracked<7>(-5); return w; }
		case STRING: { String t = Elem<String>::mk(base); return Function<Fn>([t, calls](int32 x, int32 & out) mutable { ++calls; const int b = Elem<String>::val(t); out = x ^ b; return b * 31 + calls * 7 + x; }); }
		case BIG: { struct { int a[100]; } big; for (int i = 0; i < 100; ++i) big.a[i] = base + i; return Function<Fn>([big, calls](int32 x, int32 & out) mutable { ++calls; for (int i = 0; i < 100; ++i) if (big.a[i] != big.a[0] + i) return -1; out = x ^ big.a[0]; return big.a[0] * 31 + calls * 7 + x; }); }
		case POINTER_A: return R.chance(1, 2) ? Function<Fn>(pointerA) : Function<Fn>(&pointerA);
		case POINTER_B: { Fn * p = pointerB; Function<Fn> w(p); p = pointerA; return w; }
		default: return Function<Fn>();
	}
}
static int captured(const State & s) { return s.kind == TRACKED || s.kind == ALIGNED || s.kind == FUNCTOR; }

static void history(kv::Rng & R)
{
	static const int N = 4; const int steps = 10 + (int)R.below(kv::G.thorough ? 150 : 50); static const char * const kinds[] = {"kind:empty", "kind:lambda", "kind:tracked", "kind:aligned", "kind:functor", "kind:string", "kind:big", "kind:pointer", "kind:pointer"};
	{
		Function<Fn> * f[N]; State s[N]; for (auto & p : f) p = new Function<Fn>(); kv::T("%d steps", steps);
		for (int q = 0; q < steps; ++q)
		{
			const int i = (int)R.below(N), j = (int)R.below(N), x = (int)R.below(5000), kind = (int)R.below(KINDS), op = (int)R.below(13); const char * w = "";
			switch (op)
			{
				case 0: OPC: { w = "construct"; kv::T("%d: construct %s %d", i, kinds[kind], x); COV(kinds[kind]); delete f[i]; f[i] = new Function<Fn>(make(R, s[i], kind, x)); break; }
				case 1: { w = "assign target"; kv::T("%d: assign %s %d", i, kinds[kind], x); COV("op:assign-target"); State t; *f[i] = make(R, t, kind, x); s[i] = t; break; }
				case 2: case 3: w = "copy-assign"; kv::T("%d = %d", i, j); if (i == j) COV("self-copy-assign"); COV(s[i].kind ? s[j].kind ? "copy:both" : "copy:clear" : s[j].kind ? "copy:engage" : "copy:none"); *f[i] = *(const Function<Fn> *)f[j]; s[i] = s[j]; break;
				case 4: case 5: w = "move-assign"; kv::T("%d = move(%d)", i, j); if (i == j) COV("self-move-assign"); COV(s[i].kind ? s[j].kind ? "move:both" : "move:clear" : s[j].kind ? "move:engage" : "move:none"); *f[i] = move(*f[j]); if (i != j) { s[i] = s[j]; s[j] = State(); } break;
				case 6: { w = "copy-construct"; kv::T("%d copy constructed from %d", i, j); COV("op:copy-construct"); Function<Fn> * n = R.chance(1, 2) ? new Function<Fn>(*f[j]) : new Function<Fn>(*(const Function<Fn> *)f[j]); delete f[i]; f[i] = n; s[i] = s[j]; break; }
				case 7: { w = "move-construct"; kv::T("%d move constructed from %d", i, j); COV("op:move-construct"); Function<Fn> * n = new Function<Fn>(move(*f[j])); EXPECT(!*f[j], "moved-from", "a moved-from wrapper does not report being empty"); State t = s[j]; s[j] = State(); delete f[i]; f[i] = n; s[i] = t; break; }
				case 8: { w = "swap"; kv::T("swap %d %d", i, j); COV("op:swap"); swap(*f[i], *f[j]); State t = s[i]; s[i] = s[j]; s[j] = t; break; }
				case 9: if (R.chance(1, 3)) { w = "clear"; kv::T("%d cleared", i); COV("op:clear"); *f[i] = Function<Fn>(); s[i] = State(); break; } else goto OPC;
				default:
					if (s[i].kind)
					{
						w = "call"; COV("op:call"); const bool byConst = R.chance(1, 2); int32 out = -7, want = -7; const int32 a = byConst ? (*(const Function<Fn> *)f[i])(x, out) : (*f[i])(x, out), b = result(s[i], x, want);
						kv::T("%d(%d) is %d", i, x, a); if (s[i].calls > 1) COV("call:stateful");
						EXPECT(a == b && out == want, "call", "call of wrapper %d (%s) gives %d and %d instead of %d and %d", i, kinds[s[i].kind], a, out, b, want);
					}
			}
			int own = 0, engaged = 0; kv::u64 h = 0;
			for (int z = 0; z < N; ++z) { EXPECT((bool)*f[z] == (s[z].kind != EMPTY), "empty", "%s: wrapper %d reports %s", w, z, s[z].kind ? "being empty" : "a target"); own += captured(s[z]); engaged += s[z].kind != EMPTY; h = h * 10 + s[z].kind; }
			EXPECT(kv::L.live == (kv::u64)own, "lifetime", "%s: %llu captured objects are alive, %d wrappers hold one", w, (unsigned long long)kv::L.live, own);
			kv::state(kv::mix(h * 20 + op)); if (engaged > 1) kv::nontrivial();
		}
		// Every wrapper owns its own state: call all of them in a final round
		for (int r = 0; r < 2; ++r) for (int z = 0; z < N; ++z) if (s[z].kind) { int32 out = 0, want = 0; const int32 a = (*f[z])(r + 11, out), b = result(s[z], r + 11, want); EXPECT(a == b && out == want, "call", "final call of wrapper %d (%s) gives %d instead of %d", z, kinds[s[z].kind], a, b); }
		for (auto p : f) delete p;
	}
	kv::expectNoLive("after the wrappers were destroyed");
}

struct MoveOnly { int v; MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly && o) : v(o.v) { o.v = -1; } MoveOnly(const MoveOnly &) = delete; };
struct Over { int operator()(int32 &) const { return 1; } int operator()(const int32 &) const { return 2; } int operator()(int32 &&) const { return 3; } };
struct Calls { int operator()(int32 x) const { return x + 1; } int operator()(int32 x) { return x + 2; } };

// A target which is emptied when copied from something that is not constant
struct Steals { kv::Tracked<> t; explicit Steals(int x) : t(x) {} Steals(Steals & o) : t(o.t.get()) { o.t = kv::Tracked<>(-1); } Steals(const Steals & o) : t(o.t) {} Steals(Steals && o) : t(move(o.t)) {} int operator()() const { return t.get(); } };
// Any number of arguments, each weighed by its position
struct Weigh { kv::Tracked<> t; template<typename ... A> int64 operator()(const A & ... a) const { int64 w = 0, r = t.get(); int _[] = {0, (r += (int64)a * ++w * w * w, 0)...}; (void)_; return r; } };
template<typename ... A> static void arity(kv::Rng & R, A ... a)
{
	const int x = (int)R.below(1000); Weigh g{kv::Tracked<>(x)}; Function<int64(A...)> f(g); const auto c = f; const int64 want = g(a...);
	EXPECT(f(a...) == want && c(a...) == want && invoke(f, a...) == want, "call", "a wrapper of %d arguments mixes them up", (int)sizeof...(A));
	Function<int64(const A & ...)> byRef(g); EXPECT(byRef(a...) == want, "call", "a wrapper of %d reference arguments mixes them up", (int)sizeof...(A));
	// Every reference argument is the caller's object, and a change of it is seen
	int n = 0; Function<void(A & ...)> bump([&n](A & ... b) { int _[] = {0, (b = (A)(b + ++n), 0)...}; (void)_; }); int64 sum = (a + ... + 0); bump(a...); const int k = (int)sizeof...(A); EXPECT(n == k && (int64)(a + ... + 0) == sum + k * (k + 1) / 2, "forward", "a wrapper of %d reference arguments changed something else", k);
	if (k > 7) COV("arity:many"); else if (!k) COV("arity:none"); else COV("arity:some");
}
template<int ... I> static void owned(kv::Rng & R)
{
	const int x = (int)R.below(1000) + 1; const kv::u64 c = kv::L.copies; int64 want = 0; int w = 0; { int _[] = {0, (want += (int64)(x + I) * ++w, 0)...}; (void)_; }
	Function<int64(typename std::conditional<I & 1, kv::Tracked<>, kv::Tracked<> &&>::type...)> f([](auto && ... t) { int64 r = 0; int w = 0; int _[] = {0, (r += (int64)t.get() * ++w, 0)...}; (void)_; return r; });
	EXPECT(f(kv::Tracked<>(x + I)...) == want, "forward", "temporaries are mixed up"); EXPECT(kv::L.copies == c, "forward", "a temporary argument was copied");
}

static void forwarding(kv::Rng & R)
{
	const int x = (int)R.below(100000) + 1, op = (int)R.below(20); kv::T("forwarding %d %d", op, x); COVN("forwarding", 1); kv::nontrivial(); kv::state(kv::mix(op));
	{
		switch (op)
		{
			case 0: { Function<const void *(const kv::Tracked<> &)> f([](const kv::Tracked<> & t) { t.get(); return (const void *)&t; }); kv::Tracked<> t(x); EXPECT(f(t) == &t, "forward", "a reference argument was not passed through"); break; }
			case 1: { kv::Tracked<> t(x); const kv::u64 c = kv::L.copies; Function<kv::Tracked<>(kv::Tracked<> &&)> f([&](kv::Tracked<> && a) { EXPECT(&a == &t, "forward", "an rvalue argument was not passed through"); return kv::Tracked<>(move(a)); }); kv::Tracked<> u(f(move(t))); EXPECT(u.get() == x && t.moved && kv::L.copies == c, "forward", "an rvalue argument was copied"); break; }
			case 2: { Function<int(kv::Tracked<>)> f([](kv::Tracked<> a) { return a.get(); }); kv::Tracked<> t(x); const kv::u64 c = kv::L.copies; EXPECT(f(t) == x && t.get() == x, "forward", "a value argument was changed"); EXPECT(kv::L.copies == c + 1, "forward", "a value argument was copied %llu times", (unsigned long long)(kv::L.copies - c)); break; }
			case 3: { Function<MoveOnly(MoveOnly)> f([](MoveOnly m) { return MoveOnly(m.v + 1); }); EXPECT(f(MoveOnly(x)).v == x + 1, "forward", "a move-only argument was not passed"); break; }
			case 4: { int32 n = x; Function<int32 &(int32 &)> f([](int32 & a) -> int32 & { ++a; return a; }); int32 & r = f(n); EXPECT(&r == &n && n == x + 1, "forward", "a returned reference does not denote the argument"); break; }
			case 5: { Function<int(int32 &)> a{Over{}}; Function<int(const int32 &)> b{Over{}}; Function<int(int32 &&)> c{Over{}}; Function<int(int32)> d{Over{}}; int32 n = x; EXPECT(a(n) == 1 && b(n) == 2 && c(move(n)) == 3 && d(n) == 3, "forward", "argument categories are changed: %d %d %d %d", a(n), b(n), c(move(n)), d(n)); break; }
			case 6: { int32 n = 0; Function<void()> f([&n]() { ++n; }); for (int i = 0; i < x % 50; ++i) f(); EXPECT(n == x % 50, "call", "%d calls had %d effects", x % 50, n); break; }
			case 7: { Function<String(const String &, int32, char)> f([](const String & s, int32 n, char c) { String r(s); for (int i = 0; i < n; ++i) r += c; return r; }); String s{"ab"}; const int n = x % 60; String r = f(s, n, 'z'); EXPECT(r.getLength() == (uint64)n + 2 && (*r)[0] == 'a' && (n == 0 || (*r)[n + 1] == 'z') && s.getLength() == 2, "call", "a text result is wrong"); break; }
			case 8: { Function<int64(int8, uint64, float64, const void *)> f([&](int8 a, uint64 b, float64 c, const void * p) -> int64 { return a + (int64)b + (int64)c + (p == &x); }); EXPECT(f((int8)-3, 1ull << 40, 2.0, &x) == -3 + (1ll << 40) + 2 + 1, "call", "several arguments are mixed up"); break; }
			case 9: { Function<int(int32)> f{Calls{}}; const int a = f(x); EXPECT(a == x + 1 || a == x + 2, "call", "an overloaded call operator gives %d", a); break; }
			case 10: { Function<int(int32)> inner([x](int32 y) { return y + x; }); auto wrap = [inner](int32 y) { return inner(y) * 2; }; Function<int(int32)> outer(wrap); inner = Function<int(int32)>([](int32) { return 0; }); EXPECT(outer(3) == (3 + x) * 2, "call", "a wrapper captured by another one changed"); break; }
			case 11: { kv::Tracked<> t(x); const kv::u64 c = kv::L.copies; auto f = [u = kv::Tracked<>(move(t))]() { return u.get(); }; Function<int()> w(move(f)); EXPECT(kv::L.copies == c, "move", "binding an rvalue target copied it"); Function<int()> v(move(w)); Function<int()> z; z = move(v); EXPECT(kv::L.copies == c && z() == x, "move", "moving a wrapper copied its target"); COV("moved-target"); break; }
			case 12: { int seen = 0; Function<void(MoveOnly)> f([&](MoveOnly m) { seen = m.v; }); f(MoveOnly(x)); EXPECT(seen == x, "forward", "a move-only argument was not passed"); const kv::u64 c = kv::L.copies; Function<void(kv::Tracked<>)> g([&](kv::Tracked<> t) { seen = t.get() + 1; }); g(kv::Tracked<>(x)); EXPECT(seen == x + 1 && kv::L.copies == c, "forward", "a temporary value argument was copied"); break; }
			case 13: { int seen = 0; kv::Tracked<> t(x); Function<void(kv::Tracked<> &&)> f([&](kv::Tracked<> && a) { seen = &a == &t; }); f(move(t)); EXPECT(seen == 1 && !t.moved, "forward", "an rvalue argument was not passed through"); struct V { int * o; void operator()(int32 &) const { *o = 1; } void operator()(const int32 &) const { *o = 2; } void operator()(int32 &&) const { *o = 3; } }; int32 n = x; Function<void(int32 &)> a{V{&seen}}; a(n); EXPECT(seen == 1, "forward", "a reference argument changed its category"); Function<void(const int32 &)> b{V{&seen}}; b(n); EXPECT(seen == 2, "forward", "a constant reference argument changed its category"); Function<void(int32 &&)> c{V{&seen}}; c(move(n)); EXPECT(seen == 3, "forward", "an rvalue argument changed its category"); Function<void(int32)> d{V{&seen}}; d(n); EXPECT(seen == 3, "forward", "a value argument changed its category"); break; }
			case 14: { Function<void(int32 *, String)> f([](int32 * n, String s) { *n = (int32)s.getLength(); s += "x"; }); int32 n = -1; String s{"abc"}; f(&n, s); EXPECT(n == 3 && s.getLength() == 3, "forward", "a value argument was changed"); break; }
			case 15: { Function<int32(int32)> f([](int32 y) { return y * 2; }); const auto g = f; int32 n = 0; EXPECT(invoke(f, x) == x * 2 && invoke(g, x) == x * 2 && invoke(pointerA, 3, n) == 9, "call", "invoking gives a wrong result"); break; }
			case 16: { Steals s(x); Function<int()> a(s); EXPECT(s.t.get() == -1 && a() == x, "call", "a target was not taken the way its type says"); COV("stealing-target"); Function<int()> b(a), d; d = a; Function<int()> e((const Function<int()> &)a); EXPECT(a() == x && b() == x && d() == x && e() == x, "copy", "copying a wrapper changed what the wrapper it was copied from owns: %d %d %d %d", a(), b(), d(), e()); const Steals k(x + 1); Function<int()> g(k); EXPECT(g() == x + 1 && k.t.get() == x + 1, "call", "a constant target was not copied"); break; }
			case 17: { const int a = (int)R.below(1000); switch (R.below(7)) { case 0: arity<>(R); break; case 1: arity(R, a, (int8)5); break; case 2: arity(R, (int64)a, a + 1, a + 2, (int8)7); break; case 3: arity(R, a, a + 1, (int16)a, a + 3, (int64)a + 4); break; case 4: arity(R, a, a + 1, a + 2, a + 3, a + 4, a + 5, (int64)a + 6); break; case 5: arity(R, (int8)1, a, a + 1, a + 2, a + 3, a + 4, a + 5, (int64)a + 6); break; default: arity(R, a, a * 2, a * 3, a * 4, a * 5, a * 6, a * 7, a * 8, a * 9, a * 10, (int64)a * 11); break; } break; }
			case 18: switch (R.below(5)) { case 0: owned<0>(R); break; case 1: owned<0, 1>(R); break; case 2: owned<1, 2, 3>(R); break; case 3: owned<0, 1, 2, 3, 5>(R); break; default: owned<1, 3, 4, 6, 7, 8, 10, 11, 13>(R); break; } break;
			default: { struct Deep { static int f(int n) { Function<int(int)> g([n](int y) { return n ? f(n - 1) + y : y; }); return g(1); } }; const int n = x % 40; EXPECT(Deep::f(n) == n + 1, "call", "recursive wrappers give a wrong result"); break; }
		}
	}
	kv::expectNoLive("after the wrappers were destroyed");
}
KV_MAIN({"history", history, true}, {"forwarding", forwarding, true})
