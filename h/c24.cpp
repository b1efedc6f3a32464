// Optional monitor: histories over several optionals mirrored on a model, with
// lifetime-tracked values.
#include "elems.h"
#include "templates/optional.h"
#include "containers/array.h"

template<typename T> static void check(Optional<T> & o, bool engaged, int v, int i, const char * what)
{
	const Optional<T> & c = o; using E = Elem<T>;
	EXPECT(o.hasValue() == engaged, "engaged", "%s: optional %d reports %s", what, i, engaged ? "no value" : "a value");
	EXPECT((bool)c == engaged && !!o == engaged, "engaged", "%s: the boolean conversion of optional %d disagrees", what, i);
	if (engaged)
	{
		EXPECT(E::val(*o) == v, "value", "%s: optional %d yields %d instead of %d", what, i, E::val(*o), v);
		EXPECT(E::val(*c) == v && &*c == &*o && c.operator->() == &*o && o.operator->() == &*o, "value", "%s: the accessors of optional %d disagree", what, i);
		EXPECT((char *)&*o >= (char *)&o && (char *)(&*o + 1) <= (char *)(&o + 1), "storage", "the value of optional %d lies elsewhere", i);
	}
}

template<typename T> static void history(kv::Rng & R)
{
	using E = Elem<T>; static const bool tracked = __is_same(T, kv::Tracked<>) || __is_same(T, kv::Tracked<3, 32>);
	static const int N = 4; const int steps = 8 + (int)R.below(kv::G.thorough ? 120 : 40);
	{
		Optional<T> * o[N]; bool e[N] = {}; int v[N] = {};
		for (auto & p : o) p = new Optional<T>(); kv::T("%s %d steps", E::name(), steps);
		auto resync = [&](int j) { e[j] = o[j]->hasValue(); if (e[j]) { COV("moved-from-engaged"); o[j]->reset(); } else COV("moved-from-empty"); e[j] = false; };
		for (int q = 0; q < steps; ++q)
		{
			const int i = (int)R.below(N), j = (int)R.below(N), x = (int)R.below(5000), op = (int)R.below(17); const char * w = "";
			#define OP(s) { w = s; COV("op:" s); kv::T("%d: " s " (%d) %d", i, j, x); }
			switch (op)
			{
				case 0: OP("emplace") if (e[i]) COV("emplace-over"); o[i]->emplace(E::mk(x)); e[i] = true; v[i] = x; break;
				case 1: { OP("assign-value") const T t = E::mk(x); *o[i] = t; e[i] = true; v[i] = x; break; }
				case 2: OP("assign-rvalue") *o[i] = E::mk(x); e[i] = true; v[i] = x; break;
				case 3: case 4: OP("copy-assign") COV(e[i] ? e[j] ? "assign:both" : "assign:clear" : e[j] ? "assign:engage" : "assign:none"); *o[i] = *(const Optional<T> *)o[j]; e[i] = e[j]; v[i] = v[j]; break;
				case 5: case 6:
					OP("move-assign") COV(e[i] ? e[j] ? "move:both" : "move:clear" : e[j] ? "move:engage" : "move:none");
					*o[i] = move(*o[j]);
					if (i != j) { e[i] = e[j]; v[i] = v[j]; check(*o[i], e[i], v[i], i, w); e[j] = false; COV("move-assign:source-emptied"); }
					break;
				case 7: { OP("copy-construct") Optional<T> * n = new Optional<T>(*(const Optional<T> *)o[j]); delete o[i]; o[i] = n; const bool f = e[j]; const int y = v[j]; e[i] = f; v[i] = y; break; }
				case 8: { OP("copy-construct-lvalue") Optional<T> * n = R.chance(1, 2) ? new Optional<T>(*o[j]) : new Optional<T>(move(*(const Optional<T> *)o[j])); delete o[i]; o[i] = n; e[i] = e[j]; v[i] = v[j]; break; }
				case 9:
				{
					OP("move-construct") Optional<T> * n = new Optional<T>(move(*o[j])); const bool f = e[j]; const int y = v[j];
					if (i != j) { resync(j); } delete o[i]; o[i] = n; e[i] = f; v[i] = y; break;
				}
				case 10: { OP("construct-value") delete o[i]; if (R.chance(1, 2)) { const T t = E::mk(x); o[i] = new Optional<T>(t); } else o[i] = new Optional<T>(E::mk(x)); e[i] = true; v[i] = x; break; }
				case 11: OP("reset") COV(e[i] ? "reset:engaged" : "reset:empty"); o[i]->reset(); e[i] = false; break;
				case 12: OP("replace") delete o[i]; o[i] = new Optional<T>(); e[i] = false; break;
				case 13: if (e[i]) { OP("write-through") **o[i] = E::mk(x); v[i] = x; } break;
				case 14: if (e[i]) { OP("take") T t(*move(*o[i])); EXPECT(E::val(t) == v[i], "value", "taking the value yields %d instead of %d", E::val(t), v[i]); *o[i] = E::mk(x); v[i] = x; } break;
				case 15: if (e[i] && R.chance(1, 2)) { OP("move-own") COV("move-own"); *o[i] = move(**o[i]); EXPECT((bool)*o[i], "engaged", "an optional given its own value is empty"); *o[i] = E::mk(x); v[i] = x; } else if (e[i]) { OP("assign-own") *o[i] = *(const T *)&**o[i]; } break;
				default: { OP("temporary") Optional<T> t(*(const Optional<T> *)o[i]); if (R.chance(1, 2)) t.reset(); if (R.chance(1, 2)) t = E::mk(x); Optional<T> u; u = t; break; }
			}
			for (int z = 0; z < N; ++z) check(*o[z], e[z], v[z], z, w);
			int engaged = 0; kv::u64 h = 0; for (int z = 0; z < N; ++z) { engaged += e[z]; h = h * 3 + e[z]; } kv::state(kv::mix(h * 20 + op)); if (engaged >= 2) kv::nontrivial();
			if (tracked) EXPECT(kv::L.live == (kv::u64)engaged, "lifetime", "%s: %llu values are alive, %d optionals are engaged", w, (unsigned long long)kv::L.live, engaged);
		}
		for (auto p : o) delete p;
	}
	kv::expectNoLive("after the optionals were destroyed");
}

/// Optionals as elements and members, by value
static void nested(kv::Rng & R)
{
	{
		Array<Optional<kv::Tracked<>>> a; struct Ref { bool e; int v; }; Ref ref[64]; int n = 0; int engaged = 0;
		const int steps = 10 + (int)R.below(40); kv::T("array of optionals, %d steps", steps);
		for (int q = 0; q < steps; ++q)
		{
			const int x = (int)R.below(1000), op = (int)R.below(4); kv::T("op %d %d", op, x);
			if (op == 0 && n < 60) { Optional<kv::Tracked<>> t; if (x & 1) t.emplace(x); a.add(t); ref[n++] = Ref{(x & 1) != 0, x}; }
			else if (op == 1 && n) { const int i = x % n; a[i].reset(); ref[i].e = false; }
			else if (op == 2 && n) { const int i = x % n; a[i] = kv::Tracked<>(x); ref[i] = Ref{true, x}; }
			else if (op == 3 && n) { const int i = x % n; a.removeAt(i); for (int z = i; z + 1 < n; ++z) ref[z] = ref[z + 1]; --n; }
			engaged = 0; for (int z = 0; z < n; ++z) { check(a[z], ref[z].e, ref[z].v, z, "array of optionals"); engaged += ref[z].e; }
			EXPECT(kv::L.live == (kv::u64)engaged, "lifetime", "%llu values are alive, %d optionals are engaged", (unsigned long long)kv::L.live, engaged);
			if (engaged > 2) { kv::nontrivial(); COV("nested"); }
			kv::state(kv::mix(n * 64 + engaged));
		}
		EXPECT((int)a.getCount() == n, "harness", "count");
	}
	kv::expectNoLive("after the optionals were destroyed");
}

/// A value built from any number of arguments, one of which may be of its own type
struct Built
{
	kv::Tracked<> sum; int n; const void * seen;
	Built() : sum(-3), n(0), seen(0) {}
	explicit Built(kv::Tracked<> && a) : sum(move(a)), n(1), seen(&a) {}
	Built(const int & a, int b) : sum(a * 3 + b), n(2), seen(&a) {}
	Built(int & a, const kv::Tracked<> & b, kv::Tracked<> && c) : sum(a * 5 + b.get() * 2), n(3), seen(&a) { kv::Tracked<> taken(move(c)); a = taken.get(); }
	Built(int a, int b, int c, int d) : sum(a + b * 2 + c * 3 + d * 4), n(4), seen(0) {}
	Built(int a, int b, int c, int d, const char * e) : sum(a - b + c - d + e[1]), n(5), seen(e) {}
};
static void arguments(kv::Rng & R)
{
	{
		Optional<Built> o; int steps = 6 + (int)R.below(20); const kv::u64 born = kv::L.live; kv::T("arguments, %d steps", steps);
		for (int q = 0; q < steps; ++q)
		{
			int a = (int)R.below(1000), b = (int)R.below(1000), c = (int)R.below(1000), d = (int)R.below(1000); const int op = (int)R.below(10), had = o.hasValue(); const bool fresh = R.chance(1, 4); if (fresh) o.reset(); kv::T("op %d (%d) %d %d %d %d", op, had, a, b, c, d); COV(o ? "built:over" : "built:empty");
			const kv::u64 copies = kv::L.copies + kv::L.copyAssigns; int want = 0, n = op, more = 0; const void * seen = 0; static const char text[] = "xyz";
			switch (op)
			{
				case 0: o.emplace(); want = -3; break;
				case 1: { kv::Tracked<> t(a); o.emplace(move(t)); want = a; seen = &t; EXPECT(t.moved, "argument", "an rvalue argument was copied"); break; }
				case 2: o.emplace(a, b); want = a * 3 + b; seen = &a; break;
				case 3: { const kv::Tracked<> t(b); kv::Tracked<> u(c); const int was = a; o.emplace(a, t, move(u)); want = was * 5 + b * 2; seen = &a; EXPECT(a == c && t.get() == b && u.moved, "argument", "an argument was not passed through"); break; }
				case 4: o.emplace(a, b, c, d); want = a + b * 2 + c * 3 + d * 4; break;
				case 5: o.emplace(a, b, c, d, text); want = a - b + c - d + 'y'; seen = text; break;
				case 6: { Optional<Built> p(a, b); o = move(p); n = 2; want = a * 3 + b; seen = &a; EXPECT(!p, "engaged", "a moved-from optional has a value"); break; }
				case 7: { Optional<Built> p(a, b, c, d, text); EXPECT(p.hasValue() && p->n == 5, "engaged", "construction from five arguments"); o = Built(a, b, c, d); n = 4; want = a + b * 2 + c * 3 + d * 4; break; }
				case 8: { Built t(a, b); o = move(t); n = 2; want = a * 3 + b; seen = &a; EXPECT(t.sum.moved, "argument", "assigning an rvalue left it as it was"); break; }
				default: { Built t(a, b); o = t; n = 2; want = a * 3 + b; seen = &a; more = 1; EXPECT(!t.sum.moved && t.sum.get() == want, "argument", "assigning a value changed it"); Optional<Built> p(o), r(move(p)); ++more; EXPECT(r->sum.get() == want, "value", "a moved optional yields %d", r->sum.get()); break; }
			}
			EXPECT(o && o->n == n && o->sum.get() == want && (*o).seen == seen, "value", "a value built from %d arguments is %d of %d instead of %d", n, o->sum.get(), o->n, want);
			EXPECT(kv::L.copies + kv::L.copyAssigns - copies == (kv::u64)more, "argument", "%llu values were copied instead of %d", (unsigned long long)(kv::L.copies + kv::L.copyAssigns - copies), more);
			EXPECT(kv::L.live == born + 1, "lifetime", "%llu values are alive instead of one", (unsigned long long)(kv::L.live - born));
			kv::state(kv::mix(op * 2 + had)); kv::nontrivial();
		}
	}
	kv::expectNoLive("after the optionals were destroyed");
}

static void all(kv::Rng & R) { switch (R.below(4)) { case 0: history<int32>(R); break; case 1: history<kv::Tracked<>>(R); break; case 2: history<kv::Tracked<3, 32>>(R); break; default: history<String>(R); } }
KV_MAIN({"history", all, true}, {"nested", nested, true}, {"arguments", arguments, true})
