# What each header offers, used with nothing else included
USES = {
"algorithm/sort.h": "int32 a[] = {3, 1, 2}; Sort::quicksort(a, a + 3, [](int32 x, int32 y) { return x - y; });",
"containers/array.h": "Array<int32> a; a.add(1); a.insertAt(0, 2, 3); Array<int32> b{a}; b = a; a.removeAt(0); a.empty(); Array<Array<int32>> c; c.add(b); c.reset(); (void)*b.begin();",
"containers/list.h": "List<int32> a; a.pushBack(1, 2); a.pushFront(3); List<int32> b{a}; b = a; a.remove(a.begin()); List<List<int32>> c; c.pushBack(b);",
"containers/map.h": "Map<int32, int32> a; a[1] = 2; a.insert(3, 4); Map<int32, int32> b{a}; b = a; b.remove(3); Map<int32, Map<int32, int32>> c; c[1] = b; for (auto & p : a) p.second = 1;",
"containers/set.h": "Set<int32> a, b; a.set(1); b.set(2); a += b; a -= b; a *= b; (void)(a == b); (void)(a + b).getSize(); a.remove(1);",
"containers/pair.h": "Pair<int32, float32> p{1, 2.f}; (void)(p == p);",
"containers/string.h": "String s(\"text\"); s += s; s += 12; (void)s.substr(1, 2); (void)String::format(\"%d %s\", 1, \"x\");",
"containers/tree.h": "BinaryTree<int32> t; t.insert(1); t.insertUnique(2); BinaryTree<int32> u{t}; u = t; t.remove(1); (void)t.find(2);",
"containers/tuple.h": "Tuple<int32, float32> t{1, 2.f}; (void)t.get<0>(); (void)t.get<float32>();",
"hal/malloc_ansi.h": "MallocAnsi m; void * p = m.alloc(8, 8); p = m.realloc(p, 16); m.free(p);",
"hal/malloc_binned.h": "MallocBinned m; void * p = m.alloc(8, 8); p = m.realloc(p, 16); m.free(p);",
"hal/malloc_pool.h": "MallocPool m{16, 8}; void * p = m.alloc(8); m.free(p); MallocPooled n{16, 8}; p = n.alloc(8); n.free(p);",
"hal/malloc_object.h": "MallocObject<int32> o; int32 * p = o.alloc(2); p = o.realloc(p, 4); o.free(p);",
"hal/platform_atomics.h": "int32 a = 0; (void)PlatformAtomics::add(&a, 1);",
"hal/platform_math.h": "(void)PlatformMath::max(1, 2); (void)PlatformMath::sqrt(2.f); (void)PlatformMath::align2Up(3ull, 8);",
"hal/platform_memory.h": "int32 a[3], b[3]; Memory::constructDefaultElements(a, a + 3); Memory::copyElements(b, a, 3); Memory::moveElements(b, a, 3); Memory::memcpy(a, b, 4);",
"hal/platform_strings.h": "(void)PlatformStrings::getLength(\"a\"); (void)PlatformStrings::cmp(\"a\", \"b\");",
"math/math.h": "vec3 a(1.f), b(2.f);  (void)(a ^ b).getSize();",
"math/vec2.h": "Vec2<float32> a(1.f), b(2.f); (void)(a + b).getNormal();",
"math/vec3.h": "Vec3<float32> a(1.f), b(2.f); (void)(a ^ b).getNormal();",
"math/vec4.h": "Vec4<float32> a(1.f), b(2.f); (void)(a + b).getNormal();",
"math/quat.h": "Quat q; (void)(q * q); (void)(q * Vec3<float32>(1.f)); (void)q.getAxes();",
"math/mat4.h": "Mat4<float32> m; m.transpose(); (void)(m == m);",
"math/simd.h": "float32 p[4]; Vector4<float32>::store(p, Vector4<float32>::load(1.f));",
"regex/regex.h": "Re::Regex r(\"a+\"); (void)r.accept(\"aa\"); (void)Re::accept(\"a\", \"a\");",
"templates/array.h": "StaticArray<int32, 3> a{1, 2, 3}; auto b = a; b = a; (void)b[1];",
"templates/atomic.h": "Atomic<int32> a{1}; ++a; a.store(3); (void)a.load();",
"templates/function.h": "Function<int32(int32)> f = [](int32 x) { return x; }; Function<int32(int32)> g{f}; g = f; (void)g(1);",
"templates/functional.h": "(void)ThreeWayCompare{}(1, 2);",
"templates/iterator.h": "",
"templates/name.h": "",
"templates/optional.h": "Optional<int32> a, b{1}; a = 2; a = b; Optional<int32> c{a}, d{static_cast<Optional<int32>&&>(a)}; b = static_cast<Optional<int32>&&>(c); (void)*b; (void)!!d; d.emplace(3); d.reset(); struct S { S() {} S(const S &) {} ~S() {} }; Optional<S> e{S{}}; e = S{}; e = Optional<S>{};",
"templates/types.h": "(void)IsSameType<int, int>::value;",
"templates/utility.h": "int a = 1, b = 2; swap(a, b);",
"misc/assert.h": "ASSERT(1 == 1); CHECKF(1 == 1, \"%d\", 1);",
"misc/utility.h": "",
}
