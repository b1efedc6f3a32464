// One more translation unit of the same program: UNIT is its letter. Uses every part
// of the library, also before main and after it.
#include "headers.cpp"
#include "math/simd.h"
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>

namespace UNIT_NAME
{
	static const char * const text = "before main, long enough to need memory of its own";
	/// Global objects, made before main by whichever unit comes first
	String name{text}; Array<String> names; List<int32> list; Map<int32, String> map; Set<int32> set; Array<int32> numbers; Re::Regex nfa{"a+b"}; Optional<String> maybe{String(text)}; Function<int32(int32)> twice{[](int32 x) { return x * 2; }};
	struct Early
	{
		Early() { names.add(String(text)); names.add(String("b")); numbers.add(1); numbers.add(2); numbers.add(3); for (int i = 0; i < 20; ++i) list.pushBack(i), map[i] = String(text), set.set(i), numbers.add(i), names.add(String("c")); }
		/// Runs after main; the objects above are still alive
		~Early() { if (!intact()) { static const char m[] = "\nKVFAIL suite=units seed=1 case=0 key=after-main\nglobal containers are damaged after main\n"; (void)!write(2, m, sizeof(m) - 1); _exit(1); } numbers.add(7); map[100] = String("x"); list.pushBack(1); }
		static bool intact()
		{
			if (!(name == text) || names.getCount() != 22 || list.getLength() != 20 || map.getCount() != 20 || set.getSize() != 20 || numbers.getCount() != 23 || !maybe || !(*maybe == text) || twice(4) != 8) return false;
			for (int i = 0; i < 20; ++i) if (!(map[i] == text) || !set.get(i) || numbers[3 + i] != i) return false;
			int i = 0; for (int32 x : list) if (x != i++) return false;
			return nfa.accept("aab") && !nfa.accept("aa");
		}
	} early;
}

extern "C" const void * UNIT_ADDRESS(int) { return gMalloc; }
extern "C" bool UNIT_INTACT() { return UNIT_NAME::Early::intact(); }
extern "C" long UNIT_WORK(int n)
{
	Array<int64> a; List<int64> l; Map<int32, int64> m; BinaryTree<int64> t; for (int i = 0; i < n; ++i) { const int64 v = i * 3 + 1; a.add(v); l.pushBack(v); m[i] = v; t.insert(v); }
	long r = 0; for (auto v : a) r += v; for (auto v : l) r += v; for (const auto & p : m) r += p.second; for (auto v : t) r += v; String s; for (int i = 0; i < n; ++i) s += 'x'; return r + (long)s.getLength();
}
