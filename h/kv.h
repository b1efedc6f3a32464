// Common runtime-monitoring harness: seeded cases, operation trace, coverage
// counters, hang and leak monitors, violation reports.
#pragma once
#include <utility>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>

#if defined(__SANITIZE_ADDRESS__)
	#define KV_ASAN 1
	extern "C" size_t __sanitizer_get_current_allocated_bytes();
	extern "C" void __sanitizer_set_death_callback(void (*)(void));
	extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
	extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
	extern "C" int __asan_address_is_poisoned(void const volatile *);
#elif defined(__SANITIZE_THREAD__)
	#define KV_TSAN 1
	extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

// Built to run under valgrind, which reports every decision made on undefined bytes
#if KV_MEMCHECK
	#include <valgrind/memcheck.h>
#endif

namespace kv
{
	/// Call f with c arguments made by g, two to nine of them
	template<typename F, typename G, int ...I> static void spreadOver(F & f, G & g, std::integer_sequence<int, I...>) { f(g(I)...); }
	template<typename F, typename G> static void spread(int c, G g, F f)
	{
		switch (c)
		{
			case 2: spreadOver(f, g, std::make_integer_sequence<int, 2>{}); break;
			case 3: spreadOver(f, g, std::make_integer_sequence<int, 3>{}); break;
			case 4: spreadOver(f, g, std::make_integer_sequence<int, 4>{}); break;
			case 5: spreadOver(f, g, std::make_integer_sequence<int, 5>{}); break;
			case 6: spreadOver(f, g, std::make_integer_sequence<int, 6>{}); break;
			case 7: spreadOver(f, g, std::make_integer_sequence<int, 7>{}); break;
			case 8: spreadOver(f, g, std::make_integer_sequence<int, 8>{}); break;
			default: spreadOver(f, g, std::make_integer_sequence<int, 9>{}); break;
		}
	}
}
namespace kv
{
	typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;

	static inline u64 mix(u64 x)
	{
		x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
	}

	struct Rng
	{
		u64 s;
		explicit Rng(u64 seed = 1) : s(seed) {}
		u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
		/// uniform in [0, n)
		u64 below(u64 n) { return n ? next() % n : 0; }
		/// uniform in [a, b]
		i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
		bool chance(u32 num, u32 den) { return below(den) < num; }
		/// skewed size: mostly small, sometimes up to n
		u64 size(u64 n) { u64 k = below(4); u64 m = k == 0 ? 3 : k == 1 ? 9 : k == 2 ? 33 : n; if (m > n) m = n; return below(m + 1); }
		double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	};

	// ---------------------------------------------------------------- state
	struct Counter { char name[64]; u64 n; };
	struct State
	{
		Counter counters[512]; u32 numCounters;
		char * trace; size_t traceLen, traceCap; u64 traceHash; bool traceWrapped;
		u64 * set; u64 setCap, setCount;   // distinct case hashes
		u64 * sets; u64 stateCount;        // distinct observed states
		u64 caseIdx, seed; bool nontrivial; u64 evals, nontriv, checks, events;
		char samples[6][2048]; u32 numSamples; double slowest; u64 slowestCase;
		u32 cpuLimit; bool thorough; const char * suite; bool inReport;
		const char * dump;
	};
	inline State G;

	static const u64 SETCAP = 1ull << 22;

	inline void * bigalloc(size_t n)
	{
		void * p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
		return p;
	}

	inline bool setAdd(u64 * set, u64 & count, u64 h)
	{
		if (!h) h = 1;
		if (count * 10 > SETCAP * 7) return false;
		u64 i = mix(h) & (SETCAP - 1);
		while (set[i]) { if (set[i] == h) return false; i = (i + 1) & (SETCAP - 1); }
		set[i] = h; ++count; return true;
	}

	inline u64 & counter(const char * name)
	{
		for (u32 i = 0; i < G.numCounters; ++i) if (!strcmp(G.counters[i].name, name)) return G.counters[i].n;
		if (G.numCounters >= 512) { static u64 dummy; return dummy; }
		Counter & c = G.counters[G.numCounters++]; snprintf(c.name, sizeof(c.name), "%s", name); c.n = 0; return c.n;
	}
	#define COVN(name, k) do { static const char * _n; static kv::u64 * _c; const char * _m = (name); if (_n != _m) { _n = _m; _c = &kv::counter(_m); } *_c += (k); } while (0)
	#define COV(name) COVN(name, 1)

	/// Record an observed abstract state
	inline void state(u64 h) { setAdd(G.sets, G.stateCount, h); }

	/// Append to the operation trace of the current case
	inline void T(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
	inline void T(const char * fmt, ...)
	{
		char line[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(line, sizeof(line) - 1, fmt, ap); va_end(ap);
		if (n < 0) return; if (n > (int)sizeof(line) - 2) n = sizeof(line) - 2;
		line[n++] = '\n';
		for (int i = 0; i < n; ++i) G.traceHash = (G.traceHash ^ (unsigned char)line[i]) * 0x100000001b3ull;
		if (G.traceLen + n > G.traceCap) { G.traceLen = 0; G.traceWrapped = true; }
		memcpy(G.trace + G.traceLen, line, n); G.traceLen += n;
		++G.events;
	}

	inline void writeAll(int fd, const char * p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) break; p += k; n -= k; } }

	inline void report(const char * kind, const char * key, const char * msg)
	{
		if (G.inReport) return; G.inReport = true;
		char head[4096];
		int n = snprintf(head, sizeof(head), "\n%s suite=%s seed=%llu case=%llu key=%s\n%s\n--- trace of the case%s\n", kind, G.suite, (unsigned long long)G.seed, (unsigned long long)G.caseIdx, key, msg, G.traceWrapped ? " (older part dropped)" : "");
		if (n > (int)sizeof(head)) n = sizeof(head);
		writeAll(2, head, n);
		size_t off = G.traceLen > 12000 ? G.traceLen - 12000 : 0;
		if (off) writeAll(2, "[...]\n", 6);
		writeAll(2, G.trace + off, G.traceLen - off);
		writeAll(2, "--- end of trace\n", 17);
	}

	[[noreturn]] inline void fail(const char * key, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] inline void fail(const char * key, const char * fmt, ...)
	{
		char msg[2048]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof(msg), fmt, ap); va_end(ap);
		report("KVFAIL", key, msg);
		_exit(1);
	}
	/// Oracle check: EXPECT(cond, key, fmt, ...)
	#define EXPECT(cond, key, ...) do { ++kv::G.checks; if (!(cond)) kv::fail(key, __VA_ARGS__); } while (0)

	inline void nontrivial() { G.nontrivial = true; }
	inline void sample(const char * s)
	{
		if (G.numSamples < 6) { snprintf(G.samples[G.numSamples++], 2048, "%s", s); }
	}

	inline void onDeath() { report("KVDEATH", "sanitizer", "process died in the code under test (see the sanitizer report)"); }
	inline void onHang(int) { report("KVHANG", "hang", "case exceeded its CPU time limit"); _exit(3); }
	inline void armTimer(u32 secs)
	{
		struct itimerval tv; memset(&tv, 0, sizeof(tv)); tv.it_value.tv_sec = secs;
		setitimer(ITIMER_PROF, &tv, 0);
	}

	inline size_t liveBytes()
	{
	#if KV_ASAN
		return __sanitizer_get_current_allocated_bytes();
	#else
		return 0;
	#endif
	}

	struct Suite { const char * name; void (*fn)(Rng &); bool leakCheck; };

	inline void jsonStr(FILE * f, const char * s)
	{
		fputc('"', f);
		for (; *s; ++s)
		{
			unsigned char c = *s;
			if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
			else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
			else fputc(c, f);
		}
		fputc('"', f);
	}

	inline void dump(const char * path)
	{
		FILE * f = fopen(path, "w"); if (!f) { perror(path); _exit(4); }
		fprintf(f, "{\"evals\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"states\":%llu,\"checks\":%llu,\"events\":%llu,\"counters\":{",
			(unsigned long long)G.evals, (unsigned long long)G.nontriv, (unsigned long long)G.setCount, (unsigned long long)G.stateCount, (unsigned long long)G.checks, (unsigned long long)G.events);
		for (u32 i = 0; i < G.numCounters; ++i) { fprintf(f, "%s", i ? "," : ""); jsonStr(f, G.counters[i].name); fprintf(f, ":%llu", (unsigned long long)G.counters[i].n); }
		fprintf(f, "},\"slowest\":%.3f,\"slowestCase\":%llu,\"samples\":[", G.slowest, (unsigned long long)G.slowestCase);
		for (u32 i = 0; i < G.numSamples; ++i) { fprintf(f, "%s", i ? "," : ""); jsonStr(f, G.samples[i]); }
		fprintf(f, "]}\n"); fclose(f);
	}

	inline int main(int argc, char ** argv, const Suite * suites, u32 numSuites)
	{
		const char * suite = suites[0].name; const char * out = 0; u64 from = 0, to = 1; bool replay = false;
		G.seed = 1; G.cpuLimit = 30;
		for (int i = 1; i < argc; ++i)
		{
			if (!strcmp(argv[i], "--suite")) suite = argv[++i];
			else if (!strcmp(argv[i], "--seed")) G.seed = strtoull(argv[++i], 0, 10);
			else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], 0, 10);
			else if (!strcmp(argv[i], "--to")) to = strtoull(argv[++i], 0, 10);
			else if (!strcmp(argv[i], "--out")) out = argv[++i];
			else if (!strcmp(argv[i], "--cpu")) G.cpuLimit = atoi(argv[++i]);
			else if (!strcmp(argv[i], "--thorough")) G.thorough = true;
			else if (!strcmp(argv[i], "--replay")) { from = strtoull(argv[++i], 0, 10); to = from + 1; replay = true; }
			else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 4; }
		}
		const Suite * S = 0;
		for (u32 i = 0; i < numSuites; ++i) if (!strcmp(suites[i].name, suite)) S = &suites[i];
		if (!S) { fprintf(stderr, "unknown suite %s\n", suite); return 4; }
		G.suite = S->name;
		G.traceCap = 1 << 18; G.trace = (char *)bigalloc(G.traceCap);
		G.set = (u64 *)bigalloc(SETCAP * 8); G.sets = (u64 *)bigalloc(SETCAP * 8);
		signal(SIGPROF, onHang);
		// The code under test prints diagnostics on stderr: not part of any verdict
		if (!replay) { FILE * null = fopen("/dev/null", "w"); if (null) stderr = null; }
	#if KV_ASAN || KV_TSAN
		__sanitizer_set_death_callback(onDeath);
	#endif
		u64 sh = 0; for (const char * p = S->name; *p; ++p) sh = sh * 131 + (unsigned char)*p;

		for (u64 c = from; c < to; ++c)
		{
			G.caseIdx = c;
			for (int attempt = 0; attempt < 3; ++attempt)
			{
				G.traceLen = 0; G.traceHash = 0xcbf29ce484222325ull; G.traceWrapped = false; G.nontrivial = false;
				Rng R(mix(G.seed * 0x2545f4914f6cdd1dull ^ sh) ^ mix(c));
				armTimer(replay ? G.cpuLimit * 2 : G.cpuLimit);
				const size_t before = liveBytes();
				S->fn(R);
				const size_t after = liveBytes();
				if (!S->leakCheck || after <= before) break;
				// May be one-time initialisation: a leak grows on every repetition
				if (attempt == 2) fail("leak", "the case leaves %lld bytes of heap allocated each time it is run", (long long)(after - before));
			}
		#if KV_MEMCHECK
			if (VALGRIND_COUNT_ERRORS > 0) fail("memcheck", "valgrind reported %u errors in this case (see above)", (unsigned)VALGRIND_COUNT_ERRORS);
			COV("memcheck:watched");
		#endif
			++G.evals;
			struct itimerval left; getitimer(ITIMER_PROF, &left); const double spent = (replay ? 2.0 : 1.0) * G.cpuLimit - (left.it_value.tv_sec + left.it_value.tv_usec * 1e-6);
			if (spent > G.slowest) { G.slowest = spent; G.slowestCase = c; }
			const bool fresh = G.nontrivial && setAdd(G.set, G.setCount, G.traceHash);
			if (G.nontrivial) ++G.nontriv;
			if (fresh && G.numSamples < 3 && (c % 7) == 3)
			{
				char buf[1500]; size_t n = G.traceLen < 1400 ? G.traceLen : 1400; memcpy(buf, G.trace, n); buf[n] = 0;
				sample(buf);
			}
		}
		armTimer(0);
		if (replay) fprintf(stderr, "KVOK suite=%s case=%llu\n", G.suite, (unsigned long long)from);
		if (out) dump(out);
		return 0;
	}
} // namespace kv

#define KV_MAIN(...) \
	int main(int argc, char ** argv) { static const kv::Suite suites[] = { __VA_ARGS__ }; return kv::main(argc, argv, suites, sizeof(suites) / sizeof(suites[0])); }
