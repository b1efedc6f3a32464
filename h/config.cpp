// Configuration monitor: every public header in several translation units of one
// program, and the check macros, in each build configuration.
#include "kv.h"
#include <string>
#include "headers.cpp"
#include "math/simd.h"
#include "misc/assert.h"
#include "misc/build.h"

#if defined(BUILD_RELEASE) && BUILD_RELEASE
	static const bool checking = false;
#else
	static const bool checking = true;
#endif

/// Runs f with stderr captured
template<typename Fn> static std::string captured(Fn && f)
{
	char * text = nullptr; size_t n = 0; FILE * was = stderr; FILE * mine = open_memstream(&text, &n); stderr = mine; f(); stderr = was; fclose(mine); std::string r(text, n); free(text); return r;
}
static void macros(kv::Rng & R)
{
	kv::nontrivial(); const int a = (int)R.range(-5, 5), b = (int)R.range(1, 6); kv::T("a %d b %d", a, b);
	int ran = 0; const auto run = [&](bool v) { ++ran; return v; };
	std::string t = captured([&]{ CHECK(run(a < b)) }); EXPECT(t.empty() == (a < b || !checking), "check", "a check of %d < %d printed '%s'", a, b, t.c_str()); EXPECT(ran <= 1, "check", "the condition was evaluated %d times", ran); if (!t.empty()) { EXPECT(t.find("run(a < b)") != std::string::npos && t.find(__FILE__) != std::string::npos, "check", "the message is '%s'", t.c_str()); COV("check:failed"); } else COV("check:silent");
	t = captured([&]{ CHECK(a % b == 1) }); EXPECT(t.empty() == (a % b == 1 || !checking), "check", "a check of a remainder printed '%s'", t.c_str()); if (!t.empty()) EXPECT(t.find("a % b == 1") != std::string::npos, "check", "the message is '%s'", t.c_str());
	t = captured([&]{ CHECKF(a == b, "%d is not %d, %s", a, b, "text") }); EXPECT(t.empty() == (a == b || !checking), "check", "a check printed '%s'", t.c_str()); char want[64]; snprintf(want, sizeof(want), "%d is not %d, text", a, b); if (!t.empty()) EXPECT(t.find(want) != std::string::npos, "check", "the message is '%s'", t.c_str());
	t = captured([&]{ CHECKF(b < 0, "nothing to format") }); EXPECT(t.empty() == !checking, "check", "a check printed '%s'", t.c_str());
	t = captured([&]{ ASSERT(a < b) }); EXPECT(t.empty() == (a < b || !checking), "check", "an assertion printed '%s'", t.c_str());
	t = captured([&]{ ASSERTF(a < b, "%d", a) }); EXPECT(t.empty() == (a < b || !checking), "check", "an assertion printed '%s'", t.c_str());
	#if BUILD_RELEASE + BUILD_DEBUG + BUILD_DEVELOPMENT > 1
		#error "more than one configuration is selected"
	#endif
	kv::state(kv::mix(a * 16 + b));
}
/// The other translation units
extern "C" { bool kvIntactA(); bool kvIntactB(); const void * kvUnitA(int); const void * kvUnitB(int); long kvWorkA(int); long kvWorkB(int); }
static void units(kv::Rng & R)
{
	kv::nontrivial(); const int n = (int)R.below(200); kv::T("%d", n); const long a = kvWorkA(n), b = kvWorkB(n); EXPECT(a == b, "units", "two translation units of one program disagree: %ld and %ld", a, b);
	long w = 0; for (int i = 0; i < n; ++i) w += i * 3 + 1; EXPECT(a == w * 4 + n, "units", "the work of a unit is %ld instead of %ld", a, w * 4 + n);
	EXPECT(kvUnitA(0) == kvUnitB(0), "units", "the global allocator differs between translation units"); EXPECT(kvUnitA(0) == (const void *)gMalloc, "units", "the global allocator differs between translation units"); EXPECT(kvIntactA() && kvIntactB(), "units", "containers made before main are damaged"); COV("units"); kv::state(n);
}

KV_MAIN({"macros", macros, true}, {"units", units, true})
